CONSTANT Start <- EStart
CONSTANT Do <- EDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
