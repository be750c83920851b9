INIT WInit
NEXT WNext
VIEW View
CHECK_DEADLOCK FALSE
