CONSTANT Start <- BStart
CONSTANT Do <- BDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
