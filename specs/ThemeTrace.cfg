SPECIFICATION TSpec
CONSTANTS
  Themes = {}
  Colours = {}
  Mods = {}
VIEW TView
POSTCONDITION Report
CHECK_DEADLOCK FALSE
