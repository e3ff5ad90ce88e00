CONSTANT Start <- QStart
CONSTANT Do <- QDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
