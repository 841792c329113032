-------------------------------- MODULE Theme --------------------------------
(* The shell's colour themes (C09). A style is a foreground and a background  *)
(* colour ("None" when absent) and two modifier sets; #r.g.b is an RGB colour,*)
(* @i an indexed one.                                                         *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Themes, Colours, Mods
VARIABLES style, shown
Light(c) == CASE c = "White"        -> "Black"
              [] c = "Magenta"      -> "LightMagenta"
              [] c = "LightCyan"    -> "Cyan"
              [] c = "LightRed"     -> "Red"
              [] c = "Yellow"       -> "#210.105.30"
              [] c = "LightYellow"  -> "#255.140.0"
              [] c = "#192.192.192" -> "#55.55.55"
              [] OTHER              -> c
Palette(t, c) == IF t % 2 = 0 THEN c ELSE Light(c)
Themed(t, s) == [s EXCEPT !.fg = Palette(t, s.fg), !.bg = Palette(t, s.bg)]

Styles == [fg : Colours, bg : Colours, add : Mods, sub : Mods]
Init == style \in Styles /\ shown = style
Next == \E t \in Themes : shown' = Themed(t, style) /\ UNCHANGED style
Spec == Init /\ [][Next]_<<style, shown>>
\* in terms of the property
EvenIdentity == \A t \in Themes : t % 2 = 0 => Themed(t, style) = style
Period2 == \A t \in Themes : (t + 2 \in Themes) => Themed(t + 2, style) = Themed(t, style)
OnlyColours == shown.add = style.add /\ shown.sub = style.sub
               /\ (shown.fg = "None" <=> style.fg = "None") /\ (shown.bg = "None" <=> style.bg = "None")
Independent == \A c \in Colours, t \in Themes : Themed(t, [style EXCEPT !.bg = c]).fg = Themed(t, style).fg
Idempotent == \A t \in Themes : Themed(t, Themed(t, style)) = Themed(t, style)
NoWhiteInLight == \A t \in Themes : t % 2 = 1 => Themed(t, style).fg # "White"
=============================================================================
