-------------------------------- MODULE Edit --------------------------------
(* The editor of lines at a terminal: what there is of the line, where the   *)
(* cursor is, the lines given before, which of them is shown, and the text   *)
(* that the hint adds. Keys have names like <up>; anything else is text.     *)
(* <tab>, <pick1>, <pick2>... and <leave> are the key TAB: with what is done  *)
(* in the menu that it opens, where there is one.                            *)
EXTENDS RshSem, SequencesExt

(* h: the lines given before; idx: how many of them are before the one that  *)
(* is shown (all, if it is a new line); saved: the new line, meanwhile        *)
Editor == [buf |-> "", pos |-> 0, h |-> <<>>, idx |-> 0, saved |-> [buf |-> "", pos |-> 0], hint |-> "", again |-> FALSE]

(* the latest line, from the shown one on, that starts with what there is    *)
HintOf(e) ==
  LET last == IF e.idx = Len(e.h) THEN e.idx ELSE e.idx + 1
      ks == {k \in 1..last : StartsWith(e.h[k], e.buf)}
      k == CHOOSE k \in ks : \A j \in ks : j <= k
  IN  IF e.buf = "" \/ e.pos < Len(e.buf) \/ ks = {} THEN "" ELSE From(e.h[k], e.pos + 1)
Hinted(e) == [e EXCEPT !.hint = HintOf(e)]

Insert(e, text) == Hinted([e EXCEPT !.buf = SubSeq(@, 1, e.pos) \o text \o From(@, e.pos + 1), !.pos = @ + Len(text)])
Delete(e, a, b) == IF a >= b THEN e        \* without the characters after the first a up to the first b
                ELSE Hinted([e EXCEPT !.buf = SubSeq(@, 1, a) \o From(@, b + 1), !.pos = a])

(* where the line starts and ends that the cursor is on                      *)
RECURSIVE LastNl(_, _)
LastNl(s, i) == IF i < 1 THEN 0 ELSE IF Ch(s, i) = "\n" THEN i ELSE LastNl(s, i - 1)
RowStart(s, p) == LastNl(s, p)
RowEnd(s, p) == LET k == Find(s, "\n", p + 1) IN IF k = 0 THEN Len(s) ELSE k - 1
Least(a, b) == IF a < b THEN a ELSE b

Show(e, k) == Hinted([e EXCEPT !.idx = k - 1, !.buf = e.h[k], !.pos = Len(e.h[k])])
Previous(e) ==
  IF e.h = <<>> \/ e.idx = 0 THEN e
  ELSE Show(IF e.idx = Len(e.h) THEN [e EXCEPT !.saved = [buf |-> e.buf, pos |-> e.pos]] ELSE e, e.idx)
Restored(e) == Hinted([e EXCEPT !.idx = Len(e.h), !.buf = e.saved.buf, !.pos = e.saved.pos])
Later(e) ==
  IF e.idx = Len(e.h) THEN e ELSE IF e.idx + 1 = Len(e.h) THEN Restored(e) ELSE Show(e, e.idx + 2)
First(e) ==
  IF e.h = <<>> \/ e.idx = 0 THEN e
  ELSE Show(IF e.idx = Len(e.h) THEN [e EXCEPT !.saved = [buf |-> e.buf, pos |-> e.pos]] ELSE e, 1)
Latest(e) == IF e.idx = Len(e.h) THEN e ELSE Restored(e)

(* what a key does that does not end the line                                *)
Edited(e, key) ==
  LET a == RowStart(e.buf, e.pos)
      b == RowEnd(e.buf, e.pos)
  IN
  CASE key = "<left>" -> [e EXCEPT !.pos = IF @ = 0 THEN 0 ELSE @ - 1]
    [] key = "<right>" -> IF e.pos < Len(e.buf) THEN [e EXCEPT !.pos = @ + 1]
                          ELSE IF e.hint = "" THEN e ELSE Insert(e, e.hint)
    [] key = "<home>" -> [e EXCEPT !.pos = a]
    [] key = "<end>" -> [e EXCEPT !.pos = b]
    [] key = "<back>" -> Delete(e, IF e.pos = 0 THEN 0 ELSE e.pos - 1, e.pos)
    [] key = "<del>" -> [Delete(e, e.pos, Least(e.pos + 1, Len(e.buf))) EXCEPT !.pos = e.pos]
    [] key = "<kill>" -> IF e.pos = Len(e.buf) THEN e ELSE Delete(e, e.pos, IF b = e.pos THEN b + 1 ELSE b)
    [] key = "<wipe>" -> IF e.pos = 0 THEN e ELSE Delete(e, IF a = e.pos THEN a - 1 ELSE a, e.pos)
    [] key = "<up>" ->
         IF a = 0 THEN Previous(e)
         ELSE LET s == RowStart(e.buf, a - 1) IN [e EXCEPT !.pos = Least(s + e.pos - a, a - 1)]
    [] key = "<down>" ->
         IF b = Len(e.buf) THEN Later(e)
         ELSE [e EXCEPT !.pos = Least(b + 1 + e.pos - a, RowEnd(e.buf, b + 1))]
    [] key = "<prev>" -> Previous(e)
    [] key = "<next>" -> Later(e)
    [] key = "<first>" -> First(e)
    [] key = "<last>" -> Latest(e)
    [] OTHER -> Insert(e, key)

(* The names in the directories of the environment's PATH that start with    *)
(* the text, each once, in the order of their characters                     *)
InOrder == "-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
RankOf == [c \in {Ch(InOrder, i) : i \in 1..Len(InOrder)} |-> Find(InOrder, c, 1)]
RECURSIVE Before(_, _)
Before(a, b) == IF a = "" THEN b # "" ELSE IF b = "" THEN FALSE
                ELSE IF Ch(a, 1) = Ch(b, 1) THEN Before(From(a, 2), From(b, 2))
                ELSE RankOf[Ch(a, 1)] < RankOf[Ch(b, 1)]
Sorted(S) == SortSeq(SetToSeq(S), Before)
NamesIn(st, dir) ==
  LET d == Resolve(st, dir)
  IN  IF ~IsDir(st, d) THEN {}
      ELSE {From(p, Len(d) + 2) : p \in {q \in DOMAIN st.w.fs : q # d /\ StartsWith(q, d \o "/") /\ ~Contains(From(q, Len(d) + 2), "/")}}
PathDirs(st) == IF Has(st.s.env, "PATH") THEN LET ds == SplitOn(st.s.env["PATH"], ":") IN {ds[i] : i \in 1..Len(ds)} \ {""} ELSE {}
Offers(st, text) == Sorted({n \in UNION {NamesIn(st, d) : d \in PathDirs(st)} : StartsWith(n, text)})
RECURSIVE CommonLen(_, _)
CommonLen(a, b) == IF a = "" \/ b = "" THEN 0 ELSE IF Ch(a, 1) # Ch(b, 1) THEN 0 ELSE 1 + CommonLen(From(a, 2), From(b, 2))
RECURSIVE Common(_, _)
Common(a, ns) == IF ns = <<>> THEN a ELSE Common(SubSeq(a, 1, CommonLen(a, ns[1])), Tail(ns))

(* Whether there is a menu: the terminal has to be known (to terminfo)       *)
TermOf(st) == IF Has(st.s.env, "TERM") THEN st.s.env["TERM"] ELSE ""
Menu(st) == TermOf(st) \in {"xterm", "xterm-256color"}
Place(e, text) == [Hinted([e EXCEPT !.buf = text \o From(@, e.pos + 1), !.pos = Len(text)]) EXCEPT !.again = FALSE]
(* without one: as far as all of the names agree; the second time they are shown *)
Extended(e, ns) ==
  LET c == Common(ns[1], Tail(ns))
      e1 == IF e.again THEN Hinted(e) ELSE IF Len(c) > e.pos THEN Place(e, c) ELSE e
  IN  IF ns = <<>> THEN e ELSE [e1 EXCEPT !.again = ~e.again /\ Len(ns) > 1]
Picks == <<"<pick1>", "<pick2>", "<pick3>", "<pick4>", "<pick5>", "<pick6>">>
Tabs == {Picks[k] : k \in 1..Len(Picks)} \cup {"<tab>", "<leave>"}
Picked(key, n) == IF key = "<tab>" THEN 1 ELSE LET k == CHOOSE k \in 1..Len(Picks) : key = Picks[k] IN Least(k, n)

Given(h, l) == IF l = "" \/ (h # <<>> /\ h[Len(h)] = l) THEN h
               ELSE Append(IF Len(h) = 100 THEN Tail(h) ELSE h, l)
Blank(h) == [Editor EXCEPT !.h = h, !.idx = Len(h)]

(* The shell with its editor. groups: the keys for each time that it asks;   *)
(* prompts: what it asked with; given: all lines that it got; offers: what   *)
(* was offered in menus                                                      *)
Asks(x) == IF x.st.s.dead \/ x.st.w.undef THEN x
           ELSE [x EXCEPT !.prompts = Append(@, (IF IsVar(x.st, "PS1") THEN VarOf(x.st, "PS1").x ELSE "")), !.groups = Append(@, <<>>)]
Session(st) == Asks([st |-> st, ed |-> Editor, groups |-> <<>>, prompts |-> <<>>, given |-> <<>>, offers |-> <<>>])

Taken(x, line) ==
  Asks([x EXCEPT !.st = EvalParsed(@, line, Parse(line)), !.ed = Blank(Given(x.ed.h, line)), !.given = Append(@, line)])
Part(l) == ~Parse(l).ok /\ Incomplete(l)
Wait(x) == x.groups[Len(x.groups)]
Complete(x, key) ==
  LET ns == Offers(x.st, SubSeq(x.ed.buf, 1, x.ed.pos))
      g == Len(x.groups)
  IN  IF TermOf(x.st) \notin {"", "nosuch", "xterm", "xterm-256color"} \/ (key \notin {"<tab>"} /\ ~Menu(x.st)) \/ Len(ns) > 90 THEN [x EXCEPT !.st = Undef(@)]
      ELSE IF ~Menu(x.st) THEN [x EXCEPT !.groups[g] = Append(@, "<tab>"), !.ed = Extended(@, ns)]
      ELSE IF ns = <<>> THEN [x EXCEPT !.groups[g] = Append(@, "<tab>")]
      ELSE [x EXCEPT !.groups[g] = Append(@, IF key = "<leave>" THEN key ELSE Picks[Picked(key, Len(ns))]),
                     !.offers = Append(@, ns),
                     !.ed = IF key = "<leave>" THEN Hinted(@) ELSE Place(@, ns[Picked(key, Len(ns))])]
Key(x0, key) ==
  LET x == [x0 EXCEPT !.groups[Len(x0.groups)] = Append(@, key), !.ed.again = FALSE]
      e == x.ed
  IN
  IF x0.st.s.dead \/ x0.st.w.undef THEN x0
  ELSE IF key \in Tabs THEN Complete(x0, key)
  ELSE IF key = "<enter>" THEN
         IF e.buf = "" \/ ~Part(e.buf) THEN Taken(x, e.buf) ELSE [x EXCEPT !.ed = Insert(e, "\n")]
  ELSE IF key = "<drop>" THEN Asks([x EXCEPT !.ed = Blank(e.h)])
  ELSE IF key = "<eof>" THEN
         IF e.buf = "" THEN [x EXCEPT !.st = Finish(@)] ELSE [x EXCEPT !.ed = Edited(e, "<del>")]
  ELSE [x EXCEPT !.ed = Edited(e, key)]
RECURSIVE Keys(_, _)
Keys(x, ks) == IF ks = <<>> THEN x ELSE Keys(Key(x, ks[1]), Tail(ks))
(* the line is given, and the input ends                                     *)
Over(x) == LET y == Keys(x, <<"<enter>", "<drop>", "<eof>">>) IN [y EXCEPT !.st = Finish(@)]

(* what is kept of a session that is over, in the directory the shell is in   *)
Kept(x) == [dir |-> IF x.ed.h = <<>> THEN "" ELSE x.st.s.cwd, lines |-> x.ed.h]
=============================================================================
