SPECIFICATION RSpec
VIEW RView
CHECK_DEADLOCK FALSE
