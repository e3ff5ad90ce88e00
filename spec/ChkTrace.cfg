CONSTANT Start <- KStart
CONSTANT Do <- KDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
