------------------------------- MODULE MC_C32 -------------------------------
(* C32: TAB at a terminal that is known, with a menu, and at one that is not. *)
(* A step is a key.                                                          *)
EXTENDS Edit, RshWorld, IOUtils
Depth == IF "DEPTH" \in DOMAIN IOEnv THEN NatOf(IOEnv.DEPTH) ELSE 4
Size == IF "SIZE" \in DOMAIN IOEnv THEN NatOf(IOEnv.SIZE) ELSE 2
Cover == IF "COVER" \in DOMAIN IOEnv THEN IOEnv.COVER ELSE "paths"

(* what TERM is                                                              *)
Terms == {"", "nosuch", "xterm"}
Lines32 == {"PATH=d1:/R/b2", "pr a >/R/b1/tz", "unset PATH"} \cup (IF Size = 2 THEN {} ELSE {"cd d1 ; PATH=$PATH:d2", "PATH=", "f() { pr a", "PATH=/R/b2:/R/nope pr a", "pr a >/R/bin/sp1"})
Texts == {"t", "s", "g"} \cup (IF Size = 2 THEN {} ELSE {"t1", "b", "q", "sg", "w"})
More == {" 3", "<enter>", "<left>", "<up>", "<back>", "<home>"} \cup (IF Size = 2 THEN {} ELSE {"<drop>", "<end>", "<kill>", "<wipe>", "<right>", "z"})
Menus == {"<pick1>", "<pick2>"} \cup (IF Size = 2 THEN {} ELSE {"<pick3>"})

VARIABLES x, keys, term
vars == <<x, keys, term>>
Env32(t) == IF t = "" THEN World.env ELSE ("TERM" :> t) @@ World.env
Init == /\ term \in Terms /\ keys = <<>>
        /\ x = Session(Started("i", Env32(term), BaseFs, World.cwd, "rsh", <<>>, Lots))

Say(y) ==
  LET z == Over(y)
  IN  z.st.w.undef \/ PrintT("@@" \o ToJson([rc |-> <<>>, env |-> Env32(term), groups |-> z.groups, prompts |-> z.prompts, offers |-> z.offers, kept |-> Kept(z), o |-> Observed(z.st)]))

Shown == SubSeq(x.ed.buf, 1, x.ed.pos)
Here == Offers(x.st, Shown)
Now == keys'[Len(keys')]
Enabled(k) ==
  CASE k \in Lines32 -> x.ed.buf = ""
    [] k = "<tab>" -> ~Menu(x.st) \/ Here = <<>>
    [] k \in Menus -> Menu(x.st) /\ Here # <<>> /\ ((k = "<pick1>" /\ Len(Here) > 0) \/ (k = "<pick2>" /\ Len(Here) > 1) \/ (k = "<pick3>" /\ Len(Here) > 2))
    [] k \in {"<left>", "<home>", "<back>", "<wipe>"} -> x.ed.pos > 0
    [] k \in {"<end>", "<kill>"} -> x.ed.pos < Len(x.ed.buf)
    [] k = "<right>" -> x.ed.hint # ""
    [] k = "<enter>" -> x.ed.buf # ""
    [] OTHER -> TRUE
Step(k) ==
  /\ ~x.st.s.dead /\ ~x.st.w.undef /\ Len(keys) < Depth /\ Enabled(k)
  /\ x' = IF k \in Lines32 THEN Keys(x, <<k, "<enter>">>) ELSE Key(x, k)
  /\ keys' = Append(keys, k) /\ UNCHANGED term
  /\ (Cover = "edges" \/ Len(keys') = Depth) => Say(x')
Next == \E k \in Lines32 \cup Texts \cup More \cup Menus \cup {"<tab>"} : Step(k)
Spec == Init /\ [][Next]_vars
View == IF Cover = "edges" THEN <<[x.st EXCEPT !.w.str = Empty], x.ed, term, x.given>> ELSE vars

(* exactly the names are offered that start with the text and that a command *)
(* could have which is looked up in the environment's PATH                   *)
Names == {From(p, Len(DirName(p)) + 2) : p \in DOMAIN x.st.w.fs}
Offered == LET h == Range(Here) ds == {Resolve(x.st, d) : d \in PathDirs(x.st)} IN
           \A n \in Names : n \in h <=> (StartsWith(n, Shown) /\ \E d \in ds : Has(x.st.w.fs, d \o "/" \o n))
Ordered == LET h == Here IN \A i \in 1..Len(h) - 1 : Before(h[i], h[i + 1])
(* TAB runs nothing and changes nothing but what is before the cursor, which *)
(* becomes what was chosen, or as much as all names agree on                 *)
Rest(e) == From(e.buf, e.pos + 1)
Tabbed == Now \in Tabs
OnlyBefore == [][Tabbed => x'.st = x.st /\ x'.given = x.given /\ Rest(x'.ed) = Rest(x.ed)]_vars
ShownNow == SubSeq(x'.ed.buf, 1, x'.ed.pos)
Chosen == [][Tabbed => LET h == Range(Here) IN
                       IF h = {} THEN ShownNow = Shown
                       ELSE IF Menu(x.st) THEN ShownNow \in h
                       ELSE /\ StartsWith(ShownNow, Shown)
                            /\ \A n \in h : StartsWith(n, ShownNow)
                            /\ ShownNow \in h \/ Cardinality({Ch(n, Len(ShownNow) + 1) : n \in h}) > 1]_vars
(* as long as the shell looks up where its environment says, it finds files so *)
Found == (IsVar(x.st, "PATH") /\ Has(x.st.s.env, "PATH") /\ VarOf(x.st, "PATH").x = x.st.s.env["PATH"]) =>
           LET ds == PathDirs(x.st) IN
           \A n \in Range(Here) : (\E d \in ds : IsFile(x.st, Resolve(x.st, d \o "/" \o n))) => IsFile(x.st, Lookup(x.st, n))
=============================================================================
