CONSTANT Start <- RStart
CONSTANT Do <- RDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
