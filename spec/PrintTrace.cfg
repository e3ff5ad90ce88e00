CONSTANT Start <- PStart
CONSTANT Do <- PDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
