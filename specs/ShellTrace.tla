------------------------------ MODULE ShellTrace -----------------------------
(* Is a recorded session of the real shell a behaviour of Shell? Keys are kept  *)
(* in a queue when they are handed out and act when something shows: a batch    *)
(* may be read ahead, but every evaluation and every screen must be the one     *)
(* that results from the keys in their order.                                   *)
EXTENDS Shell, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q, meta, ids, dead
tvars == <<st, l, q, meta, ids, dead>>
E == Trace[l]
TInit == st = Start(<<>>, <<>>, 0) /\ l = 1 /\ q = <<>> /\ meta = [w |-> 0, h |-> 0, tabs |-> <<>>] /\ ids = <<>>
         /\ dead = FALSE
TabOf(k) == IF k <= Len(meta.tabs) THEN meta.tabs[k] ELSE [title |-> <<>>, prompt |-> <<62, 32>>]
RECURSIVE Acts(_, _)
Act(s, e) == Key(s, e.k, e.c, TabOf(s.born + 1))
\* lets keys act until the queue is empty or one has started an evaluation
Acts(s, ks) == IF ks = <<>> \/ s.run # 0 \/ s.sel = 0 THEN <<s, ks>> ELSE Acts(Act(s, ks[1]), Tail(ks))
Now == Acts(st, q)
-----------------------------------------------------------------------------
(* what the screen shows *)
Pad(s, w) == IF Len(s) >= w THEN Pre(s, w) ELSE s \o [i \in 1..w - Len(s) |-> Blank]
Line(s, w) == IF Len(s) >= w THEN Pre(s, w) ELSE s \o [i \in 1..w - Len(s) |-> 9472]
RECURSIVE Cells(_)
Cells(s) == IF s = <<>> THEN <<>> ELSE (CASE s[1] = 9 -> <<Blank, Blank, Blank, Blank>> [] CW(s[1]) = 2 -> <<s[1], Blank>> [] OTHER -> <<s[1]>>) \o Cells(Tail(s))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
TabName(k) == <<84, 97, 98, 32>> \o Digits(k)
RECURSIVE Strip(_, _)
Strip(k, n) == <<Blank>> \o TabName(k) \o <<Blank>> \o (IF k = n THEN <<>> ELSE <<9474>> \o Strip(k + 1, n))
RECURSIVE NameAt(_, _)
NameAt(k, x) == IF k = 1 THEN x ELSE NameAt(k - 1, x + Len(TabName(k - 1)) + 3)
\* the part of the k-th tab's name that is still on the screen
VisibleName(k, w) == LET x == NameAt(k, 2) IN SubSeq(TabName(k), 1, Max2(0, Min2(Len(TabName(k)), w - x + 1)))
RECURSIVE Width(_)
Width(s) == IF s = <<>> THEN 0 ELSE CW(s[1]) + Width(Tail(s))
FirstLine(s) == IF s = <<>> THEN <<>> ELSE Split(s)[1]
InputWidth(t, w) == w - 2 - Width(t.prompt)
InputRows(t, w) == Rows(t.line, InputWidth(t, w))
\* the rows inside the borders, from the top
Inner(s, w, h) ==
    LET t == Sel(s)
        iw == InputWidth(t, w)
        ir == InputRows(t, w)
        nr == Max2(1, Len(ir))
        ors == OutRows(t, w)
        rows == <<Strip(1, Len(s.tabs)), Line(Cells(FirstLine(t.title)), w - 2)>>
                \o [i \in 1..nr |-> (IF i = 1 THEN Cells(t.prompt) ELSE [j \in 1..Width(t.prompt) |-> Blank])
                                    \o (IF ir = <<>> THEN <<>> ELSE Cells(ir[i]))]
                \o <<Line(<<32, 79, 117, 116, 112, 117, 116, 115, 32>>, w - 2)>>
                \o [i \in 1..Len(ors) - t.scroll |-> Cells(ors[t.scroll + i])]
    IN  [i \in 1..h - 1 |-> Pad(IF i <= Len(rows) THEN rows[i] ELSE <<>>, w - 2)]
SameRow(got, want) == \A i \in 1..Len(want) :
                         LET g == IF i <= Len(got) THEN got[i] ELSE Blank IN g = 0 \/ g = want[i]
\* where the next character typed goes: column and row in the input
RECURSIVE Walk(_, _, _, _, _)
Walk(s, i, n, w, xy) == IF i > n THEN xy
                        ELSE Walk(s, i + 1, n, w, IF s[i] = 10 THEN <<0, xy[2] + 1>>
                                                  ELSE IF xy[1] + CW(s[i]) > w THEN <<CW(s[i]), xy[2] + 1>>
                                                  ELSE <<xy[1] + CW(s[i]), xy[2]>>)
CursorAt(t, w) == LET p == Walk(t.line, 1, t.pos, w, <<0, 0>>)
                      full == p[1] >= w - (IF t.pos < Len(t.line) /\ t.line[t.pos + 1] # 10 THEN CW(t.line[t.pos + 1]) - 1 ELSE 0)
                  IN  {p} \cup (IF full THEN {<<0, p[2] + 1>>} ELSE {})
\* the overlay: the suggestions on offer, in order, one row each with the selected one marked
OverlayOK(t, e) ==
    LET top == 2 + Max2(1, Len(InputRows(t, e.w)))
        vis == Min2(Len(t.items), Max2(0, e.h - 1 - top))
        n == Len(e.ov)
    IN  IF t.items = <<>> THEN n = 0
        ELSE \/ /\ n = vis
                /\ \A i \in 1..n : LET it == t.items[i] k == Min2(Len(it), Len(e.ov[i])) IN
                      \/ it # <<>> /\ (it[1] = Blank \/ it[Len(it)] = Blank)
                      \/ Pre(e.ov[i], k) = Pre(it, k)
                /\ e.hl = (IF t.hl = 0 \/ t.hl > vis THEN -1 ELSE t.hl - 1)
             \/ vis = 0
Readable(t, e) == InputWidth(t, e.w) >= 4
ScreenOK(s, e) ==
    LET t == Sel(s)
        want == Inner(s, e.w, e.h)
    \* on a terminal too small for anything to be read, nothing but staying alive is asked for
    IN  (e.w >= 14 /\ e.h >= 5) =>
        /\ SameRow(e.rows[1], want[1]) /\ SameRow(e.rows[2], want[2])
        /\ (\E i \in 1..Len(e.rows[1]) : e.rows[1][i] = 0) \/ e.sel = VisibleName(s.sel, e.w - 2)
        /\ Readable(t, e) =>
              /\ \A i \in 3..e.h - 1 : SameRow(e.rows[i], want[i])
              /\ \E p \in CursorAt(t, InputWidth(t, e.w)) :
                    \/ 2 + p[2] > e.h - 2
                    \/ e.cx = 1 + Width(t.prompt) + p[1] /\ e.cy = 2 + p[2]
              /\ ~s.help => OverlayOK(t, e)
-----------------------------------------------------------------------------
Perms(g) == IF Len(g) = 2 THEN {g[1] \o g[2], g[2] \o g[1]} ELSE {Flat(g)}
Trunc(g) == [i \in 1..Len(g) |-> IF Len(g[i]) > ItemLimit THEN Pre(g[i], ItemLimit) ELSE g[i]]
Rest == UNCHANGED <<meta, dead>>
Ev == /\ l <= Len(Trace) /\ l' = l + 1 /\ ~dead
      /\ CASE E.op = "key" -> q' = Append(q, [k |-> E.k, c |-> E.c]) /\ UNCHANGED <<st, ids>> /\ Rest
           [] E.op = "screen" -> /\ Now[2] = <<>> /\ Now[1].run = 0 /\ Now[1].sel # 0
                                 /\ st' \in Drawn(Now[1], E.w) /\ ScreenOK(st', E)
                                 /\ q' = <<>> /\ UNCHANGED ids /\ Rest
           [] E.op = "enterb" -> /\ Now[1].run # 0 /\ st.run = 0 /\ st' = Now[1] /\ q' = Now[2]
                                 /\ LET t == Sel(Now[1]) IN
                                       /\ E.input = t.hist[Len(t.hist)] /\ E.off
                                       \* the evaluator is told the same tab id for the same tab and only for it
                                       /\ IF E.id > Len(ids) THEN (ids' = Append(ids, t.id) /\ \A i \in 1..Len(ids) : ids[i] # t.id)
                                                             ELSE ids[E.id] = t.id /\ UNCHANGED ids
                                 /\ Rest
           \* a key pressed during an evaluation is seen when the shell next looks (it looks between two drawings of
           \* the screen), however many were pressed before it
           [] E.op = "dkey" -> st.run # 0 /\ E.late <= 3 /\ st' = KeyDuring(st, E.k) /\ UNCHANGED <<q, ids>> /\ Rest
           \* the evaluation sees the flag exactly if Ctrl+x was pressed during it. It shows on the screen drawn in
           \* the meantime that results are wrapped in the width of the terminal.
           [] E.op = "entere" -> /\ st.run # 0 /\ E.cancelled = st.cancel
                                 /\ \E s \in Drawn(st, meta.w) : st' = Done(s, E) /\ UNCHANGED <<q, ids>> /\ Rest
           [] E.op = "wait" -> /\ E.full /\ Now[2] = <<>> /\ Now[1].run = 0
                               /\ \E its \in Perms(Trunc(E.groups)) : st' = Upd(Now[1], Arrive(Sel(Now[1]), its))
                               /\ q' = <<>> /\ UNCHANGED ids /\ Rest
           [] E.op = "size" -> meta' = [meta EXCEPT !.w = E.w, !.h = E.h] /\ UNCHANGED <<st, q, ids, dead>>
           [] E.op = "ended" -> /\ E.ok /\ Now[1].sel = 0 /\ st' = Now[1] /\ dead' = TRUE /\ UNCHANGED <<q, meta, ids>>
           [] OTHER -> FALSE     \* a crash, or the shell is stuck
New == /\ l <= Len(Trace) /\ l' = l + 1 /\ E.op = "new" /\ (l = 1 \/ dead)
       /\ LET t == E.tabs[1] IN st' = Start(t.title, t.prompt, E.w)
       /\ q' = <<>> /\ ids' = <<>> /\ dead' = FALSE /\ meta' = [w |-> E.w, h |-> E.h, tabs |-> E.tabs]
TNext == New \/ Ev
TSpec == TInit /\ [][TNext]_tvars
Furthest == (l > TLCGet(1) => TLCSet(1, l))
ASSUME TLCSet(1, 0)
Report == PrintT(<<"TRACE", TLCGet(1) - 1, Len(Trace)>>)
=============================================================================
