CONSTANT Start <- LStart
CONSTANT Do <- LDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
