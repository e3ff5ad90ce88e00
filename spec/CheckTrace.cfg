CONSTANT Start <- CStart
CONSTANT Do <- CDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
