CONSTANT Start <- SStart
CONSTANT Do <- SDo
SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
