CONSTANT Start <- HStart
CONSTANT Do <- HDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
