CONSTANT Start <- GStart
CONSTANT Do <- GDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
