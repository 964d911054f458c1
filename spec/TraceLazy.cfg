SPECIFICATION LSpec
VIEW LView
CHECK_DEADLOCK FALSE
