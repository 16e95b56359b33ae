------------------------------- MODULE MC_C31 -------------------------------
(* C31: lines typed and edited at a terminal. A step is a key.               *)
EXTENDS Edit, RshWorld, IOUtils
Depth == IF "DEPTH" \in DOMAIN IOEnv THEN NatOf(IOEnv.DEPTH) ELSE 5
Size == IF "SIZE" \in DOMAIN IOEnv THEN NatOf(IOEnv.SIZE) ELSE 2
Cover == IF "COVER" \in DOMAIN IOEnv THEN IOEnv.COVER ELSE "paths"

(* what there is in ~/.rshrc                                                 *)
Rcs == {<<>>, <<"PS1='% '">>}
Texts == {"pr a", "pr ab $v", "v=1", "PS1=$v", "cd d1 ; st 3", "f() {", "}", "pr a\npr b"} \cup (IF Size = 2 THEN {} ELSE {"exit 4", " ", "pr ("})
Basic == {"<enter>", "<up>", "<down>", "<back>", "<drop>", "<eof>", "<right>"}
More == {"<left>", "<home>", "<kill>", "<wipe>", "<first>", "<last>", "<prev>", "<next>", "<del>", "<end>"}
(* texts come where a line starts, and this one where there is something *)
Alphabet == Texts \cup {"b"} \cup Basic \cup (IF Size = 2 THEN {} ELSE More)

VARIABLES x, keys, rc
vars == <<x, keys, rc>>
RcFile31(l) == [k |-> "f", c |-> [i \in 1..Len(l) |-> {l[i]}], x |-> ""]
Init == /\ rc \in Rcs /\ keys = <<>>
        /\ x = Session(Started("i", World.env, (IF rc = <<>> THEN Empty ELSE "/R/home/.rshrc" :> RcFile31(rc)) @@ BaseFs, World.cwd, "rsh", <<>>, Lots))

Say(y) ==
  LET z == Over(y)
  IN  z.st.w.undef \/ PrintT("@@" \o ToJson([rc |-> rc, groups |-> z.groups, prompts |-> z.prompts, offers |-> z.offers, kept |-> Kept(z), o |-> Observed(z.st)]))

(* Depth is the number of keys apart from texts                              *)
Count(ks) == Len(SelectSeq(ks, LAMBDA k : k \notin Texts))
Now == keys'[Len(keys')]
Step(k) ==
  /\ ~x.st.s.dead /\ ~x.st.w.undef
  /\ IF k \in Texts THEN x.ed.pos = RowStart(x.ed.buf, x.ed.pos) /\ x.ed.pos = Len(x.ed.buf)
     ELSE /\ Count(keys) < Depth
          /\ k = "b" => x.ed.buf # "" /\ (IF keys = <<>> THEN FALSE ELSE keys[Len(keys)] \notin Texts)
  /\ x' = Key(x, k) /\ keys' = Append(keys, k) /\ UNCHANGED rc
  /\ (Cover = "edges" \/ (Count(keys') = Depth /\ Now \notin Texts) \/ x'.st.s.dead) => Say(x')
Next == \E k \in Alphabet : Step(k)
Spec == Init /\ [][Next]_vars
View == IF Cover = "edges" THEN <<[x.st EXCEPT !.w.str = Empty], x.ed, rc, x.given>> ELSE vars

TypeOK == /\ x.ed.pos \in 0..Len(x.ed.buf) /\ x.ed.idx \in 0..Len(x.ed.h)
          /\ Len(x.groups) = Len(x.prompts)
(* nothing is done until the line is given                                   *)
OnlyWhenGiven == [][x'.st # x.st => \/ Now = "<enter>" /\ x'.given = Append(x.given, x.ed.buf)
                                    \/ Now = "<eof>" /\ x.ed.buf = "" /\ x'.st.s.dead]_vars
(* and then what was shown is done, whatever way it came there               *)
AsShown == [][x'.given # x.given => x'.st = EvalLine(x.st, x.ed.buf)]_vars
(* what was given can be got back, in order, equal ones in a row as one      *)
RECURSIVE Once(_)
Once(ls) == IF ls = <<>> THEN <<>>
            ELSE LET r == Once(SubSeq(ls, 1, Len(ls) - 1)) l == ls[Len(ls)]
                 IN  IF l = "" \/ (r # <<>> /\ r[Len(r)] = l) THEN r ELSE Append(r, l)
KeepsAll == x.ed.h = Once(x.given)
RECURSIVE Ups(_, _)
Ups(e, n) == IF n = 0 THEN e ELSE Ups(Edited(e, "<prev>"), n - 1)
Recall == \A n \in 1..Len(x.ed.h) : x.ed.idx = Len(x.ed.h) =>
             LET u == Ups(x.ed, n) IN u.buf = x.ed.h[Len(x.ed.h) + 1 - n] /\ Edited(u, "<last>").buf = x.ed.buf
(* it asks with the value that PS1 has then                                  *)
Prompted == [][Len(x'.prompts) > Len(x.prompts) =>
               x'.prompts = Append(x.prompts, IF IsVar(x'.st, "PS1") THEN VarOf(x'.st, "PS1").x ELSE "")]_vars
(* and goes on until the end of its input, or exit                           *)
GoesOn == [][(~x'.st.w.undef /\ x'.st.s.dead) => (Now = "<eof>" /\ x.ed.buf = "") \/ (Now = "<enter>" /\ Contains(x.ed.buf, "exit"))]_vars
=============================================================================
