------------------------------- MODULE Shell ---------------------------------
(* The interactive shell as its user knows it: tabs with an input line, a       *)
(* history, results and suggestions; keys act one after the other on the tab    *)
(* that is selected, whatever batches they arrive in (C11-C15). What the screen *)
(* has to show for a state is at the end.                                       *)
EXTENDS LineOps, TLC
CONSTANTS HistLimit,  \* lines kept in a tab's history
          OutLimit,   \* results kept in a tab
          ItemLimit   \* suggestions one source may give
VARIABLE st           \* the whole shell, a record (see Start)
(* st.tabs    the open tabs in their order
   st.sel     the selected one (0: no tab left, the shell ends)
   st.run     id of the tab whose line is being evaluated, 0: none
   st.born    tabs opened so far; st.help, st.theme
   st.cancel  the running evaluation has been told to stop                     *)
Tab(id, title, prompt) ==
    [id |-> id, title |-> title, prompt |-> prompt, line |-> <<>>, pos |-> 0,
     hist |-> <<>>, at |-> 0,                    \* history and the place in it, 0 = resting
     outs |-> <<>>, scroll |-> 0, width |-> 0,   \* results oldest first; width they were last drawn in
     asked |-> FALSE,                            \* suggestions have been asked for and are not here yet
     items |-> <<>>, hl |-> 0, typed |-> <<>>, typos |-> 0]
Start(title, prompt, width) ==
    [tabs |-> <<[Tab(1, title, prompt) EXCEPT !.width = width]>>, sel |-> 1, run |-> 0, born |-> 1, help |-> TRUE,
     theme |-> 0, cancel |-> FALSE]
-----------------------------------------------------------------------------
(* ---- one tab *)
NoSugg(t) == [t EXCEPT !.asked = FALSE, !.items = <<>>, !.hl = 0]
\* an edit asks for suggestions for the new line
Ask(t) == [NoSugg(t) EXCEPT !.asked = TRUE, !.typed = t.line, !.typos = t.pos]
Put(t, s) == [t EXCEPT !.line = InsertAt(t.line, t.pos, s), !.pos = t.pos + Len(s)]
BackspaceT(t) == IF t.pos = 0 THEN t ELSE [t EXCEPT !.line = RemoveAt(t.line, t.pos), !.pos = t.pos - 1]
DeleteT(t) == IF t.pos = Len(t.line) THEN t ELSE [t EXCEPT !.line = RemoveAt(t.line, t.pos + 1)]
Goto(t, p) == NoSugg([t EXCEPT !.pos = p])
HistGo(t, p) == LET s == IF p = 0 THEN <<>> ELSE t.hist[p]
                IN  NoSugg([t EXCEPT !.at = p, !.line = s, !.pos = Len(s)])
Word(t) == SubSeq(t.typed, WordPos(t.typed, t.typos) + 1, t.typos)
Choose(t, h) == LET put == IF h = 0 THEN Word(t) ELSE t.items[h]
                    b == Pre(t.typed, WordPos(t.typed, t.typos))
                IN  [t EXCEPT !.hl = h, !.line = b \o put \o Post(t.typed, t.typos), !.pos = Len(b) + Len(put)]
\* answers of the sources, in the order they come in
Arrive(t, groups) == IF ~t.asked THEN t
                     ELSE [t EXCEPT !.items = t.items \o groups, !.asked = FALSE]
-----------------------------------------------------------------------------
(* ---- text as drawn: lines are cut to a width; a tab is four spaces *)
Wide == {19990, 12354, 128512}
CW(c) == IF c = 9 THEN 4 ELSE IF c \in Wide THEN 2 ELSE 1
Blank == 32
RECURSIVE Split(_)
Split(s) == IF \E i \in 1..Len(s) : s[i] = 10
            THEN LET i == CHOOSE i \in 1..Len(s) : s[i] = 10 /\ \A j \in 1..i-1 : s[j] # 10
                 IN  <<Pre(s, i - 1)>> \o Split(Post(s, i))
            ELSE <<s>>
\* how many characters of s, from the i-th on, fit into w columns
RECURSIVE Fit(_, _, _, _)
Fit(s, i, used, w) == IF i > Len(s) \/ used + CW(s[i]) > w THEN i - 1 ELSE Fit(s, i + 1, used + CW(s[i]), w)
RECURSIVE Cut(_, _)
Cut(s, w) == LET n == Fit(s, 1, 0, w)
             IN  IF n = Len(s) \/ n = 0 THEN <<s>> ELSE <<Pre(s, n)>> \o Cut(Post(s, n), w)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
\* nothing at all takes no row
Rows(s, w) == IF s = <<>> THEN <<>> ELSE LET ls == Split(s) IN Flat([i \in 1..Len(ls) |-> Cut(ls[i], w)])
OutWidth(w) == w - 3      \* borders and the scroll bar
Newest(outs) == [i \in 1..Len(outs) |-> outs[Len(outs) + 1 - i]]
OutRows(t, w) == LET o == Newest(t.outs) IN Flat([i \in 1..Len(o) |-> Rows(o[i], OutWidth(w))])
-----------------------------------------------------------------------------
(* ---- the shell *)
Sel(s) == s.tabs[s.sel]
Upd(s, t) == [s EXCEPT !.tabs[s.sel] = t]
ScrollTo(t, n, w) == LET h == Len(OutRows(t, w))
                     IN  IF n >= 0 THEN [t EXCEPT !.scroll = Min2(t.scroll + n, Max2(h - 1, 0))]
                                   ELSE [t EXCEPT !.scroll = Max2(t.scroll + n, 0)]
QuitTab(s) == LET ts == Pre(s.tabs, s.sel - 1) \o Post(s.tabs, s.sel)
              IN  [s EXCEPT !.tabs = ts, !.sel = IF ts = <<>> THEN 0 ELSE IF s.sel + 1 > Len(ts) THEN 1 ELSE s.sel + 1]
NewTab(s, title, prompt) ==
    [s EXCEPT !.tabs = Append(s.tabs, Tab(s.born + 1, title, prompt)), !.sel = Len(s.tabs) + 1, !.born = s.born + 1]
NextTab(s) == [s EXCEPT !.sel = IF s.sel = Len(s.tabs) THEN 1 ELSE s.sel + 1]
\* the line is taken for evaluation: it is in the history, and the tab is clear
Enter(s) == LET t == Sel(s)
                h == Append(t.hist, t.line)
                k == IF Len(h) > HistLimit THEN Tail(h) ELSE h
            IN  [Upd(s, NoSugg([t EXCEPT !.hist = k, !.at = 0, !.line = <<>>, !.pos = 0]))
                 EXCEPT !.run = t.id, !.cancel = FALSE]
\* what a key does (k its name, c the character typed, new the title and prompt a new tab would get)
Key(s, k, c, new) ==
    LET t == Sel(s)
        has == t.items # <<>>
        w == t.width
    IN  IF s.sel = 0 \/ s.run # 0 THEN s ELSE
        CASE k = "char" -> Upd(s, Ask(Put(t, <<c>>)))
          [] k \in {"sent", "aent"} -> Upd(s, Ask(Put(t, <<10>>)))
          [] k \in {"bs", "sbs"} -> Upd(s, Ask(BackspaceT(t)))
          [] k = "del" -> Upd(s, Ask(DeleteT(t)))
          [] k = "left" -> Upd(s, Goto(t, Max2(0, t.pos - 1)))
          [] k = "right" -> Upd(s, Goto(t, Min2(Len(t.line), t.pos + 1)))
          [] k = "cleft" -> Upd(s, Goto(t, t.pos - WordStep(Rev(Pre(t.line, t.pos)))))
          [] k = "cright" -> Upd(s, Goto(t, t.pos + WordStep(Post(t.line, t.pos))))
          [] k = "down" /\ has -> Upd(s, Choose(t, IF t.hl = Len(t.items) THEN 0 ELSE t.hl + 1))
          [] k = "up" /\ has -> Upd(s, Choose(t, IF t.hl = 0 THEN Len(t.items) ELSE t.hl - 1))
          [] k = "up" /\ ~has -> Upd(s, HistGo(t, IF t.at = 0 THEN Len(t.hist) ELSE t.at - 1))
          [] k = "down" /\ ~has -> Upd(s, HistGo(t, IF t.at = Len(t.hist) THEN 0 ELSE t.at + 1))
          [] k = "esc" /\ has -> Upd(s, NoSugg(t))
          [] k = "sup" -> Upd(s, ScrollTo(t, -5, w))
          [] k = "sdown" -> Upd(s, ScrollTo(t, 5, w))
          [] k = "pgup" -> Upd(s, ScrollTo(t, -25, w))
          [] k = "pgdn" -> Upd(s, ScrollTo(t, 25, w))
          [] k = "ah" -> [s EXCEPT !.help = ~s.help]
          [] k = "am" -> [s EXCEPT !.theme = 1 - s.theme]
          [] k = "tab" -> NextTab(s)
          [] k = "at" -> NewTab(s, new.title, new.prompt)
          [] k = "aq" -> QuitTab(s)
          [] k = "ent" -> Enter(s)
          [] OTHER -> s      \* any other key, or the terminal telling its size has changed
\* a key during an evaluation: it may be lost, but Ctrl+x is not
KeyDuring(s, k) == IF k = "cx" THEN [s EXCEPT !.cancel = TRUE] ELSE s
IdxOf(s, id) == CHOOSE i \in 1..Len(s.tabs) : s.tabs[i].id = id
\* an evaluation ends: what it returned goes to the tab it was for
Done(s, r) ==
    LET i == IdxOf(s, s.run)
        t == s.tabs[i]
        o == IF r.panic \/ ~r.hasout THEN t.outs ELSE Append(t.outs, r.out)
        u == [t EXCEPT !.outs = IF Len(o) > OutLimit THEN Tail(o) ELSE o,
                       !.scroll = IF r.panic \/ ~r.hasout THEN t.scroll ELSE 0,
                       !.title = IF r.panic \/ ~r.hastitle THEN t.title ELSE r.title,
                       !.prompt = IF r.panic \/ ~r.hasprompt THEN t.prompt ELSE r.prompt]
    IN  [s EXCEPT !.tabs[i] = u, !.run = 0, !.cancel = FALSE]
\* the screen has been drawn w columns wide; in a new width the results are wrapped anew
Drawn(s, w) == LET t == Sel(s) IN
    IF t.width = w THEN {s}
    ELSE {Upd(s, [t EXCEPT !.width = w, !.scroll = n]) : n \in {0, Min2(t.scroll, Max2(0, Len(OutRows(t, w)) - 1))}}
-----------------------------------------------------------------------------
(* ---- exploration of the model itself *)
MCKeys == {"char", "bs", "left", "up", "down", "esc", "sdown", "sup", "tab", "at", "aq", "ent", "sent", "ah"}
MCNew == [title |-> <<>>, prompt |-> <<62>>]
MCRes == {[panic |-> p, hasout |-> o, out |-> <<97, 10, 98>>, hastitle |-> h, title |-> <<84>>, hasprompt |-> FALSE,
           prompt |-> <<>>] : p \in BOOLEAN, o \in BOOLEAN, h \in BOOLEAN}
Init == st = [Start(<<>>, <<62>>, 8) EXCEPT !.tabs[1].width = 8]
Press == \E k \in MCKeys : /\ st.sel # 0 /\ st.run = 0
                           /\ st' = LET s == Key(st, k, 97, MCNew)
                                    IN  IF s.sel = 0 THEN s ELSE CHOOSE x \in Drawn(s, 8) : TRUE
During == st.run # 0 /\ \E k \in {"cx", "left"} : st' = KeyDuring(st, k)
Finish == st.run # 0 /\ \E r \in MCRes : st' = Done(st, r)
Suggest == st.sel # 0 /\ st.run = 0 /\ Sel(st).asked /\ st' = Upd(st, Arrive(Sel(st), <<<<98>>, <<>>>>))
Next == Press \/ During \/ Finish \/ Suggest
Spec == Init /\ [][Next]_st
-----------------------------------------------------------------------------
Tabs == st.tabs
TypeOK == /\ st.sel \in 0..Len(Tabs) /\ (st.sel = 0 <=> Tabs = <<>>)
          /\ \A i \in 1..Len(Tabs) : LET t == Tabs[i] IN
                /\ t.pos \in 0..Len(t.line) /\ t.at \in 0..Len(t.hist) /\ t.hl \in 0..Len(t.items)
                /\ Len(t.hist) <= HistLimit /\ Len(t.outs) <= OutLimit
                \* C14: scrolling stays within the content
                /\ t.scroll >= 0 /\ (t.scroll > 0 => t.scroll < Len(OutRows(t, t.width)))
Distinct == \A i, j \in 1..Len(Tabs) : i # j => Tabs[i].id # Tabs[j].id
\* C13: every tab but the selected one (before or after) keeps everything; none but the selected one goes away
Others == [][\A i \in 1..Len(Tabs) : i # st.sel =>
                 \/ st.run # 0
                 \/ \E j \in 1..Len(Tabs') : \/ Tabs'[j] = Tabs[i]
                                             \/ Tabs'[j] = [Tabs[i] EXCEPT !.width = 8, !.scroll = Tabs'[j].scroll]]_st
\* C13: the order of the remaining tabs stays
Ordered == \A i, j \in 1..Len(Tabs) : i < j => Tabs[i].id < Tabs[j].id
\* C11: an evaluation starts with the line and leaves the tab clear, the line newest in the history;
\* only its end changes results
Evaluates == [][(st.run = 0 /\ st'.run # 0) =>
                   LET t == Sel(st) u == Sel(st')
                   IN  u.line = <<>> /\ u.items = <<>> /\ u.hist[Len(u.hist)] = t.line /\ u.at = 0 /\ st'.run = t.id]_st
OnlyDone == [][(Len(Tabs') = Len(Tabs) /\ st.run = 0) => \A i \in 1..Len(Tabs) : Tabs'[i].outs = Tabs[i].outs]_st
\* C15: a flag is set by Ctrl+x only and is gone with its evaluation
FlagOff == st.run = 0 => ~st.cancel
CONSTANT Depth
Bound == /\ TLCGet("level") <= Depth /\ Len(Tabs) <= 2 /\ st.born <= 3
         /\ \A i \in 1..Len(Tabs) : Len(Tabs[i].line) <= 2 /\ Len(Tabs[i].hist) <= 1 /\ Len(Tabs[i].outs) <= 1
=============================================================================
