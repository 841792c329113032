SPECIFICATION Spec
CONSTANTS
  Themes = {0, 1, 2, 3, 254, 255}
  Colours = {"None", "White", "Black", "Magenta", "LightMagenta", "LightCyan", "Cyan", "LightRed", "Red", "Yellow", "LightYellow", "#192.192.192", "#55.55.55", "Gray", "@7"}
  Mods = {0, 1, 8}
INVARIANTS EvenIdentity Period2 OnlyColours Independent Idempotent NoWhiteInLight
CHECK_DEADLOCK FALSE
