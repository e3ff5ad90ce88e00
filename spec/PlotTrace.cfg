CONSTANT Start <- LStart
CONSTANT Do <- PDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
