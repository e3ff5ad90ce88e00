CONSTANT Start <- DStart
CONSTANT Do <- DDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
