------------------------------- MODULE RshSem -------------------------------
(* What rsh does with a text: the effect of evaluating it, on the state of  *)
(* the shell and on the world around it, as one big step.                   *)
(*                                                                          *)
(* A state is a record with                                                 *)
(*   s  what belongs to the shell process and is copied by fork             *)
(*        stk   the stack of contexts: sequence of indices into heap        *)
(*        heap  sequence of contexts [v, f]: variables and functions        *)
(*        ns    exported contexts: name -> index into heap                  *)
(*        al    aliases        env  environment         cwd  directory      *)
(*        stat  status of the last command              fds  descriptors    *)
(*        depth calls of functions being evaluated      ret  "return" seen  *)
(*        dead  exited, with status code                e    list aborted   *)
(*        mode  "i", "c" or "f": interactive, -c, script file               *)
(*        held  files open in enclosing commands        fork  not the shell *)
(*        inbg  in a background command                                     *)
(*   w  what is shared by all processes                                     *)
(*        fs    path -> [k, c, x]: "d", or "f" with content c, x the        *)
(*              program that an executable file is                          *)
(*        str   streams: name -> lines written                              *)
(*        rd    descriptions open for reading: sequence of remaining lines  *)
(*        log   files opened and streams written so far, as                 *)
(*              <<path or stream, for writing>>                             *)
(*        pend  files a background command may still be writing             *)
(*        gates files that a background command waits for                   *)
(*        bg    there has been a background command                         *)
(*        undef the behaviour is left unspecified from here on              *)
(*                                                                          *)
(* A line is a set of strings: {text} for a line of that text, {"!"} for    *)
(* (one or more lines of) an error message, {"#", ...} for a listing whose  *)
(* order is not specified.                                                  *)
EXTENDS RshSyntax, TLC

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(f, k) == k \in DOMAIN f
Empty == [x \in {} |-> ""]

Undef(st) == [st EXCEPT !.w.undef = TRUE]
Halt(st) == st.s.dead \/ st.s.e \/ st.w.undef
Stat(st, n) == [st EXCEPT !.s.stat = n]

---------------------------------------------------------------------------
(* Output                                                                   *)
AddLine(seq, l) ==
  IF seq = <<>> THEN <<l>>
  ELSE LET x == seq[Len(seq)]
       IN  IF l = {"!"} /\ x = {"!"} THEN seq
           ELSE IF "#" \in l /\ "#" \in x THEN [seq EXCEPT ![Len(seq)] = x \cup l]
           ELSE Append(seq, l)
RECURSIVE AddLines(_, _)
AddLines(seq, ls) == IF ls = <<>> THEN seq ELSE AddLines(AddLine(seq, ls[1]), Tail(ls))

CanWrite(st, fd) == Has(st.s.fds, fd) /\ st.s.fds[fd].k \in {"s", "f", "n"}

WriteLines(st, fd, ls) ==
  IF ls = <<>> THEN st
  ELSE IF ~CanWrite(st, fd) THEN Undef(st)
  ELSE LET t == st.s.fds[fd]
       IN  CASE t.k = "n" -> st
             [] t.k = "s" -> [st EXCEPT !.w.str[t.id] = AddLines(@, ls), !.w.log = @ \cup {<<t.id, \E i \in 1..Len(ls) : ls[i] # {"!"}>>}]
             [] t.k = "f" -> [st EXCEPT !.w.fs[t.id].c = AddLines(@, ls)]
Write(st, fd, l) == WriteLines(st, fd, <<l>>)
Out(st, text) == Write(st, 1, {text})
Err(st) == Write(st, 2, {"!"})
Fails(st) == Stat(Err(st), 1)          \* an error message, and status 1
(* the message has this text in it: one line, if the text is one              *)
FailsOn(st, text) == IF Contains(text, "\n") THEN Undef(st) ELSE Fails(st)

---------------------------------------------------------------------------
(* Paths and files. Everything is below /R; other absolute paths hold       *)
(* nothing, apart from /dev/null.                                           *)
Comps(p) == SelectSeq(SplitOn(p, "/"), LAMBDA x : x # "" /\ x # ".")
DirName(p) == LET c == SplitOn(p, "/") IN Join(SubSeq(c, 1, Len(c) - 1), "/")

NotInRoot == {"d1", "d2", "ld", "w", "nodir", "f1", "o1", "o2", "o3", "t1", "t2", "t3", "nope", "s1", "s2", "s3", "nofile", "x"}
RECURSIVE Walk(_, _, _)
Walk(st, at, cs) ==     \* at is an existing path, the result is "" if there is no such file
  IF cs = <<>> THEN at
  ELSE IF ~Has(st.w.fs, at) THEN ""
  ELSE IF st.w.fs[at].k = "l" THEN Walk(st, st.w.fs[at].x, cs)     \* a symbolic link
  ELSE IF st.w.fs[at].k # "d" THEN ""
  ELSE IF at = "/" THEN     \* the real root, of which only this is known
    IF cs[1] = ".." THEN Walk(st, "/", Tail(cs)) ELSE IF cs[1] \in NotInRoot THEN "" ELSE "?"
  ELSE IF cs[1] = ".." THEN (IF at = "/R" THEN "?" ELSE Walk(st, DirName(at), Tail(cs)))
  ELSE Walk(st, at \o "/" \o cs[1], Tail(cs))

Follow(st, p) == IF Has(st.w.fs, p) /\ st.w.fs[p].k = "l" THEN st.w.fs[p].x ELSE p

(* The path of what p names (which need not exist), "" if it can't exist,    *)
(* "?" if it is outside of what is modelled                                  *)
Resolve(st, p) ==
  IF p = "" THEN ""
  ELSE IF p = "/dev/null" THEN p
  ELSE LET q == IF ~StartsWith(p, "/") THEN Walk(st, st.s.cwd, Comps(p))
                ELSE IF Comps(p) # <<>> /\ Comps(p)[1] = "R" THEN Walk(st, "/R", Tail(Comps(p)))
                ELSE Walk(st, "/", Comps(p))
           r == IF q \in {"", "?"} THEN q ELSE Follow(st, q)
       IN  IF (EndsWith(p, "/") \/ EndsWith(p, "/.")) /\ r \notin {"", "?"} /\ ~(Has(st.w.fs, r) /\ st.w.fs[r].k = "d") THEN "" ELSE r

Exists(st, p) == p \notin {"", "?"} /\ Has(st.w.fs, p)
IsDir(st, p) == Exists(st, p) /\ st.w.fs[p].k = "d"
IsFile(st, p) == Exists(st, p) /\ st.w.fs[p].k = "f"

(* Files open in the commands around this one, or written in the background *)
(* (op is how p is opened); several may read it, and several may append whole *)
(* lines                                                                      *)
Busy(st, p, op) ==
  \/ \E h \in st.s.held : h[1] = p /\ ~(op = h[2] /\ op \in {"<", ">>"})
  \/ p \in st.w.pend

(* What descriptor r.n refers to after the redirection r, if that is possible *)
OpenFile(st, r) ==
  LET p == Resolve(st, r.w)
      bad == [ok |-> FALSE, st |-> st]
      made(s2, t) == IF r.n \notin 0..1023 THEN [ok |-> FALSE, st |-> s2]      \* there is no such descriptor
                     ELSE [ok |-> TRUE, st |-> [s2 EXCEPT !.s.fds = Put(@, r.n, t)]]
  IN
  IF p = "?" THEN [ok |-> FALSE, st |-> Undef(st)]
  ELSE IF p = "/dev/null" THEN
    IF r.op = "<" THEN made([st EXCEPT !.w.rd = Append(@, <<>>)], [k |-> "r", id |-> Len(st.w.rd) + 1])
    ELSE made(st, [k |-> "n", id |-> ""])
  ELSE IF p = "" THEN bad
  ELSE IF Busy(st, p, r.op) THEN [ok |-> FALSE, st |-> Undef(st)]
  ELSE LET s2 == [st EXCEPT !.w.log = @ \cup {<<p, r.op # "<">>}, !.s.held = @ \cup {<<p, r.op>>}]
       IN
  IF r.op = "<" THEN
    IF ~Exists(st, p) THEN [ok |-> FALSE, st |-> s2]
    ELSE IF ~IsFile(st, p) \/ st.w.fs[p].x # "" THEN [ok |-> FALSE, st |-> Undef(st)]
    ELSE made([s2 EXCEPT !.w.rd = Append(@, st.w.fs[p].c)], [k |-> "r", id |-> Len(st.w.rd) + 1])
  ELSE IF IsDir(st, p) \/ ~IsDir(st, DirName(p)) THEN bad
  ELSE IF Exists(st, p) /\ st.w.fs[p].x # "" THEN bad         \* not writable
  ELSE LET old == IF Exists(st, p) THEN st.w.fs[p].c ELSE <<>>
           c == IF r.op = ">" THEN <<>> ELSE old
       IN  made([s2 EXCEPT !.w.fs = Put(@, p, [k |-> "f", c |-> c, x |-> ""])],
                [k |-> "f", id |-> p])

(* redirections from left to right; the result says whether all could be made *)
RECURSIVE OpenAll(_, _)
OpenAll(st, rd) ==
  IF rd = <<>> THEN [ok |-> TRUE, st |-> st]
  ELSE LET o == OpenFile(st, rd[1])
       IN  IF ~o.ok THEN o ELSE OpenAll(o.st, Tail(rd))

(* all remaining lines of descriptor 0 *)
CanRead(st) == Has(st.s.fds, 0) /\ st.s.fds[0].k = "r" /\ st.s.fds[0].id # 0
Remaining(st) == st.w.rd[st.s.fds[0].id]
SetRemaining(st, ls) == [st EXCEPT !.w.rd[st.s.fds[0].id] = ls]

---------------------------------------------------------------------------
(* Variables, functions, aliases                                            *)
TopCtx(st) == st.s.stk[Len(st.s.stk)]
Var(x, r) == [x |-> x, r |-> r]

(* the index into heap of the innermost context that has the variable, or 0 *)
RECURSIVE Owner(_, _, _, _)
Owner(st, name, fld, i) ==
  IF i = 0 THEN 0
  ELSE LET c == st.s.stk[i]
           m == IF fld = "v" THEN st.s.heap[c].v ELSE st.s.heap[c].f
       IN  IF Has(m, name) THEN c ELSE Owner(st, name, fld, i - 1)
VarOwner(st, name) ==
  IF Contains(name, "::")
  THEN LET p == SplitOn(name, "::")
       IN  IF Has(st.s.ns, p[1]) /\ Has(st.s.heap[st.s.ns[p[1]]].v, p[2]) THEN st.s.ns[p[1]] ELSE 0
  ELSE Owner(st, name, "v", Len(st.s.stk))
FunOwner(st, name) ==
  IF Contains(name, "::")
  THEN LET p == SplitOn(name, "::")
       IN  IF Has(st.s.ns, p[1]) /\ Has(st.s.heap[st.s.ns[p[1]]].f, p[2]) THEN st.s.ns[p[1]] ELSE 0
  ELSE Owner(st, name, "f", Len(st.s.stk))
Local(name) == IF Contains(name, "::") THEN SplitOn(name, "::")[2] ELSE name

IsVar(st, name) == VarOwner(st, name) # 0
VarOf(st, name) == st.s.heap[VarOwner(st, name)].v[Local(name)]
ReadOnly(st, name) == IsVar(st, name) /\ VarOf(st, name).r
IsFun(st, name) == FunOwner(st, name) # 0
FunOf(st, name) == st.s.heap[FunOwner(st, name)].f[Local(name)]

SetIn(st, c, name, v) == [st EXCEPT !.s.heap[c].v = Put(@, name, v)]
SetEnv(st, name, x) == [st EXCEPT !.s.env = Put(@, name, x)]

(* an assignment by the innermost context that has the variable, else by the
   current one; the variable must not be readonly *)
Assign(st, name, x) ==
  LET o == Owner(st, name, "v", Len(st.s.stk))
  IN  IF o = 0 THEN SetIn(st, TopCtx(st), name, Var(x, FALSE))
      ELSE LET s2 == SetIn(st, o, name, Var(x, FALSE))
           IN  IF Has(st.s.env, name) THEN SetEnv(s2, name, x) ELSE s2
Locked(st, name) ==        \* for Assign, which does not know namespaces
  LET o == Owner(st, name, "v", Len(st.s.stk)) IN o # 0 /\ st.s.heap[o].v[name].r

NameOf(a) == LET k == Find(a, "=", 1) IN IF k = 0 THEN a ELSE SubSeq(a, 1, k - 1)
ValueOf(a) == LET k == Find(a, "=", 1) IN IF k = 0 THEN "" ELSE From(a, k + 1)
HasEq(a) == Contains(a, "=")

---------------------------------------------------------------------------
(* The programs that external commands are: lines written on descriptors 1  *)
(* and 2 and the exit status, as functions of the arguments and of what is   *)
(* read.                                                                     *)
RECURSIVE Esc(_)
Esc(x) == IF x = "" THEN ""
          ELSE LET c == Ch(x, 1)
               IN  (CASE c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] OTHER -> c)
                   \o Esc(From(x, 2))
RECURSIVE Brackets(_)
Brackets(a) == IF a = <<>> THEN "" ELSE "[" \o Esc(a[1]) \o "]" \o Brackets(Tail(a))

RECURSIVE ReadBack(_)
(* what "rd" prints about a line it has read *)
ReadBack(ls) == IF ls = <<>> THEN <<>>
                ELSE <<IF "#" \in ls[1] \/ ls[1] = {"!"} THEN {"?"} ELSE {"<" \o (CHOOSE x \in ls[1] : TRUE)}>>
                     \o ReadBack(Tail(ls))
Odd(ls) == \E i \in 1..Len(ls) : "#" \in ls[i] \/ ls[i] = {"!"}

RECURSIVE Copies(_, _)
Copies(x, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN x \o Copies(x, n - 1)
                ELSE LET h == Copies(x, n \div 2) IN h \o h
RECURSIVE Total(_)
Total(ls) == IF ls = <<>> THEN 0 ELSE Len(CHOOSE x \in ls[1] : TRUE) + 1 + Total(Tail(ls))

(* the lines whose length does not depend on where the shell is run, in      *)
(* characters of one byte                                                    *)
OneByte == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ">", "<", "[", "]", " ", ".", ",", ":", "=", "-", "_"}
Countable(ls) == \A x \in UNION {ls[i] : i \in 1..Len(ls)} :
                    x # "" /\ Ch(x, 1) \in {">", "<"} /\ \A j \in 1..Len(x) : Ch(x, j) \in OneByte

EnvLine(st, n) == ">" \o n \o (IF Has(st.s.env, n) THEN "=" \o Esc(st.s.env[n]) ELSE " unset")

Code(n) == n % 256

(* the descriptors the shell is given *)
Standard == (0 :> [k |-> "r", id |-> 1]) @@ (1 :> [k |-> "s", id |-> "out"]) @@ (2 :> [k |-> "s", id |-> "err"])

RunExe(st, x, a) ==          \* x the program, a its arguments
  CASE x = "pr" -> Stat(Out(st, ">" \o Brackets(a)), 0)
    [] x = "er" -> Stat(Write(st, 2, {"E" \o Brackets(a)}), 0)
    [] x = "bo" -> Stat(Out(Write(st, 2, {"E" \o Brackets(a)}), ">" \o Brackets(a)), 0)
    [] x = "st" -> IF Len(a) = 1 /\ IsNumber(a[1]) THEN Stat(st, Code(NumberOf(a[1]))) ELSE Undef(st)
    [] x = "sg" -> IF Len(a) = 1 /\ IsNumber(a[1]) /\ ~st.s.fork THEN Stat(st, 128 + NumberOf(a[1])) ELSE Undef(st)
    [] x = "rd" ->
         IF ~CanRead(st) THEN Undef(st)
         ELSE IF Odd(Remaining(st)) THEN Undef(st)
         ELSE Stat(WriteLines(SetRemaining(st, <<>>), 1, ReadBack(Remaining(st))), 0)
    [] x = "i1" ->
         IF ~CanRead(st) THEN Undef(st)
         ELSE IF Remaining(st) = <<>> THEN Stat(st, 1)
         ELSE IF Odd(<<Remaining(st)[1]>>) THEN Undef(st)
         ELSE Stat(WriteLines(SetRemaining(st, Tail(Remaining(st))), 1, ReadBack(<<Remaining(st)[1]>>)), 0)
    [] x = "ev" -> IF Len(a) = 1 THEN Stat(Out(st, EnvLine(st, a[1])), IF Has(st.s.env, a[1]) THEN 0 ELSE 1)
                   ELSE Undef(st)
    [] x = "pw" ->      \* writes its second argument to the descriptor that is the first
         IF Len(a) # 2 \/ ~IsNumber(a[1]) THEN Undef(st)
         ELSE IF ~Has(st.s.fds, NumberOf(a[1])) THEN Stat(st, 1)
         ELSE Stat(Write(st, NumberOf(a[1]), {">" \o Brackets(<<a[2]>>)}), 0)
    [] x = "fd" -> Stat(Out(st, ">fd" \o Join([i \in 1..Cardinality(DOMAIN st.s.fds) |->
                      LET n == CHOOSE d \in DOMAIN st.s.fds : Cardinality({e \in DOMAIN st.s.fds : e < d}) = i - 1
                      IN  NatStr(n) \o (IF n > 9 THEN "!" ELSE "")], "")), 0)
    [] x = "bl" ->      \* the first argument says how many lines, the second how long
         IF Len(a) # 2 \/ ~IsNumber(a[1]) \/ ~IsNumber(a[2]) THEN Undef(st)
         ELSE Stat(WriteLines(st, 1, [i \in 1..NumberOf(a[1]) |-> {">" \o Copies("x", NumberOf(a[2]))}]), 0)
    [] x = "ct" ->      \* how many lines and characters are read
         IF ~CanRead(st) THEN Undef(st)
         ELSE IF Odd(Remaining(st)) \/ ~Countable(Remaining(st)) THEN Undef(st)
         ELSE LET ls == Remaining(st)
              IN  Stat(Out(SetRemaining(st, <<>>), ">" \o NatStr(Len(ls)) \o " " \o NatStr(Total(ls))), 0)
    [] x = "sf" ->      \* the descriptors of the shell are always the same when it has none redirected
         IF ~st.s.calm THEN Undef(st) ELSE Stat(Out(st, ">sf same"), 0)
    [] x = "wd" -> Stat(Out(st, ">" \o st.s.cwd), 0)
    [] x = "lg" ->      \* closes its input and output, and writes to a file much later
         IF Len(a) # 2 THEN Undef(st)
         ELSE LET o == OpenFile(st, [op |-> ">>", n |-> 1, w |-> a[1]])
              IN  IF o.st.w.undef THEN o.st
                  ELSE IF ~o.ok THEN Stat(st, 1)
                  ELSE Stat([Out(o.st, ">" \o Brackets(<<a[2]>>)) EXCEPT !.s = st.s], 0)
    [] x = "op" ->      \* opens a gate: makes a file with one line
         IF Len(a) # 1 THEN Undef(st)
         ELSE LET p == Resolve(st, a[1])
              IN  IF Exists(st, p) /\ p \notin st.w.gates THEN Undef(st)
                  ELSE LET o == OpenFile(st, [op |-> ">>", n |-> 1, w |-> a[1]])
                       IN  IF o.st.w.undef \/ ~o.ok THEN Undef(st)
                           ELSE Stat([Out(o.st, ">" \o Brackets(a)) EXCEPT !.s = st.s, !.w.gates = @ \ {p}], 0)
    [] x = "gt" ->      \* in the background: waits until the gate is open
         IF Len(a) # 1 THEN Undef(st)
         ELSE LET p == Resolve(st, a[1])
              IN  IF p \in {"", "?"} \/ Exists(st, p) \/ ~st.s.inbg \/ ~IsDir(st, DirName(p)) THEN Undef(st)
                  ELSE Stat(Out([st EXCEPT !.w.gates = @ \cup {p}], ">" \o Brackets(a)), 0)
    [] x = "wt" ->      \* waits until what is written to a file in the background is there
         IF Len(a) # 1 THEN Undef(st)
         ELSE LET p == Resolve(st, a[1])
              IN  IF IsFile(st, p) /\ st.w.fs[p].c # <<>> /\ st.w.gates = {} THEN Stat([st EXCEPT !.w.pend = @ \ {p}], 0) ELSE Undef(st)
    [] StartsWith(x, "tag:") -> Stat(Out(st, ">" \o x \o Brackets(a)), 0)
    [] OTHER -> Undef(st)

(* The path of the file that a command name is looked up as *)
RECURSIVE InPath(_, _, _)
InPath(st, dirs, name) ==
  IF dirs = <<>> THEN ""
  ELSE LET p == Resolve(st, dirs[1] \o "/" \o name)
       IN  IF IsFile(st, p) THEN p ELSE InPath(st, Tail(dirs), name)
Lookup(st, name) ==
  IF Contains(name, "/") THEN Resolve(st, name)
  ELSE IF ~IsVar(st, "PATH") THEN ""
  ELSE InPath(st, SplitOn(VarOf(st, "PATH").x, ":"), name)

Exec(st, name, args) ==
  LET p == Lookup(st, name)
  IN  IF Contains(name, "/") /\ p = "?" THEN Undef(st)
      ELSE IF IsFile(st, p) /\ st.w.fs[p].x # "" THEN RunExe(st, st.w.fs[p].x, args)
      ELSE FailsOn(st, name)

---------------------------------------------------------------------------
(* Evaluation                                                               *)
Builtins == {"cd", "exit", "return", "jobs", "fg", "bg", "alias", "unalias", "export",
             "eval", "unset", "pwd", "readonly", "exec", ".", "source", ""}

RECURSIVE EvalList(_, _)
RECURSIVE Call(_, _)
RECURSIVE RunBuiltin(_, _)

Lots == 99
(* a copy of the shell starts with the state st; what it does to the world   *)
(* remains, what it does to itself does not                                  *)
Fork(st) == [st EXCEPT !.s.fork = TRUE]
Join2(st, child) == [child EXCEPT !.s = st.s]

(* the text inside $(...) or `...`, read with the state st: [st, x] *)
Subst(st, text) ==
  LET p == Parse(text)
  IN  IF ~p.ok \/ st.s.room = 0 THEN [st |-> Err(st), x |-> ""]
      ELSE LET id == "sub" \o NatStr(Cardinality(DOMAIN st.w.str))
               c0 == [Fork(st) EXCEPT !.w.str = Put(@, id, <<>>),
                                      !.s.room = IF @ = Lots THEN @ ELSE @ - 1,
                                      !.s.fds = Put(Put(@, 1, [k |-> "s", id |-> id]), 2, [k |-> "s", id |-> id])]
               c1 == EvalList(c0, p.v)
               ls == c1.w.str[id]
               r == Join2(st, c1)
           IN  IF Odd(ls) THEN [st |-> Undef(r), x |-> ""]
               ELSE [st |-> r, x |-> TrimWhite(Join([i \in 1..Len(ls) |-> CHOOSE y \in ls[i] : TRUE], "\n"))]

(* what is between double quotes: substitutions are replaced *)
RECURSIVE InDQ(_, _)
InDQ(st, t) ==
  LET k == ScanTo(t, {"$", "`"}, 1)
      pre == SubSeq(t, 1, k - 1)
  IN  IF k > Len(t) THEN [st |-> st, x |-> t]
      ELSE IF Ch(t, k) = "$" /\ (k = Len(t) \/ Ch(t, k + 1) # "(") THEN
        LET n == IF k = Len(t) THEN k ELSE k + 1      \* the next character is kept as well
            r == InDQ(st, From(t, n + 1))
        IN  [st |-> r.st, x |-> SubSeq(t, 1, n) \o r.x]
      ELSE LET b == IF Ch(t, k) = "$" THEN k + 2 ELSE k + 1
               e == ScanTo(t, {IF Ch(t, k) = "$" THEN ")" ELSE "`"}, b)
           IN  IF e > Len(t) THEN [st |-> Undef(st), x |-> ""]
               ELSE LET v == Subst(st, SubSeq(t, b, e - 1))
                        r == InDQ(v.st, From(t, e + 1))
                    IN  [st |-> r.st, x |-> pre \o v.x \o r.x]

(* the text without its first and last character, which are quotes *)
Inner(w) == SubSeq(w, 2, Len(w) - 1)
Quoted(w) == Len(w) >= 2 /\ Ch(w, 1) \in {"'", "\""} /\ Ch(w, Len(w)) = Ch(w, 1)
Cut(st, w) ==
  IF ~Quoted(w) THEN [st |-> Undef(st), x |-> ""]
  ELSE IF Ch(w, 1) = "\"" THEN InDQ(st, Inner(w))
  ELSE [st |-> st, x |-> Inner(w)]

(* one word to one value: a variable that is set, or quotes removed *)
Expand(st, w) ==
  IF StartsWith(w, "$") THEN
    [st |-> st, x |-> IF IsVar(st, From(w, 2)) THEN VarOf(st, From(w, 2)).x ELSE w]
  ELSE IF StartsWith(w, "'") \/ StartsWith(w, "\"") THEN Cut(st, w)
  ELSE [st |-> st, x |-> w]

(* one double quoted word to the arguments it becomes: more than one only if
   it has a substitution and the outcome has a space *)
DQWords(st, w) ==
  LET c == Cut(st, w)
  IN  IF (Contains(w, "$(") \/ Contains(w, "`")) /\ Contains(c.x, " ")
      THEN [st |-> c.st, ws |-> SplitWhite(c.x)]
      ELSE [st |-> c.st, ws |-> <<c.x>>]

(* one word after the name of a command *)
ArgWords(st, w) ==
  IF StartsWith(w, "\"") THEN DQWords(st, w)
  ELSE IF StartsWith(w, "'") THEN LET c == Cut(st, w) IN [st |-> c.st, ws |-> <<c.x>>]
  ELSE IF HasEq(w) THEN
    LET c == Expand(st, ValueOf(w)) IN [st |-> c.st, ws |-> <<NameOf(w) \o "=" \o c.x>>]
  ELSE LET c == Expand(st, w) IN [st |-> c.st, ws |-> <<c.x>>]

RECURSIVE AllWords(_, _)
AllWords(st, ws) ==
  IF ws = <<>> THEN [st |-> st, ws |-> <<>>]
  ELSE LET a == ArgWords(st, ws[1])
           r == AllWords(a.st, Tail(ws))
       IN  [st |-> r.st, ws |-> a.ws \o r.ws]

RECURSIVE NameWords(_, _)      \* the pieces of the name
NameWords(st, ws) ==
  IF ws = <<>> THEN [st |-> st, ws |-> <<>>]
  ELSE LET a == IF StartsWith(ws[1], "\"") THEN DQWords(st, ws[1]) ELSE [st |-> st, ws |-> <<ws[1]>>]
           r == NameWords(a.st, Tail(ws))
       IN  [st |-> r.st, ws |-> a.ws \o r.ws]

RECURSIVE ExpandAsg(_, _)
ExpandAsg(st, as) ==
  IF as = <<>> THEN [st |-> st, as |-> <<>>]
  ELSE LET e == Expand(st, ValueOf(as[1]))
           r == ExpandAsg(e.st, Tail(as))
       IN  [st |-> r.st, as |-> <<NameOf(as[1]) \o "=" \o e.x>> \o r.as]
RECURSIVE ExpandRd(_, _)
ExpandRd(st, rd) ==
  IF rd = <<>> THEN [st |-> st, rd |-> <<>>]
  ELSE LET e == Expand(st, rd[1].w)
           r == ExpandRd(e.st, Tail(rd))
       IN  [st |-> r.st, rd |-> <<[rd[1] EXCEPT !.w = e.x]>> \o r.rd]

(* A simple command with alias, variables, substitutions and quotes done:    *)
(* [st, c]                                                                   *)
ExpandCmd(st, c0) ==
  LET al == IF Has(st.s.al, c0.name) THEN SplitIgQ(st.s.al[c0.name]) ELSE <<>>
      c1 == IF al = <<>> THEN c0 ELSE [c0 EXCEPT !.name = al[1], !.words = Tail(al) \o @]
      a == ExpandAsg(st, c1.asg)
      r == ExpandRd(a.st, c1.rd)
      n0 == c1.name
      n1 == IF StartsWith(n0, "$") /\ IsVar(r.st, From(n0, 2)) THEN VarOf(r.st, From(n0, 2)).x ELSE n0
      c2 == [c1 EXCEPT !.asg = a.as, !.rd = r.rd, !.name = n1]
  IN  IF n1 = "" THEN [st |-> r.st, c |-> c2]
      ELSE LET n2 == IF StartsWith(n1, "'") THEN Cut(r.st, n1).x ELSE n1
               s2 == IF StartsWith(n1, "'") THEN Cut(r.st, n1).st ELSE r.st
               nw == NameWords(s2, SplitIgQ(n2))
               ws == AllWords(nw.st, c2.words)
           IN  [st |-> ws.st,
                c |-> [c2 EXCEPT !.name = IF nw.ws = <<>> THEN "" ELSE nw.ws[1],
                                 !.words = (IF nw.ws = <<>> THEN <<>> ELSE Tail(nw.ws)) \o ws.ws]]

(* run in the shell with the redirections of the command, undone afterwards *)
WithRedirects(st, c, Run(_, _)) ==
  LET o == OpenAll(st, c.rd)
      a == IF o.ok THEN Run(o.st, c) ELSE Fails(o.st)
  IN  IF a.s.dead THEN a ELSE [a EXCEPT !.s.fds = st.s.fds, !.s.held = st.s.held]

RECURSIVE PrefixEnv(_, _)
PrefixEnv(st, as) ==
  IF as = <<>> THEN st ELSE PrefixEnv(SetEnv(st, NameOf(as[1]), ValueOf(as[1])), Tail(as))

(* the descriptors of the shell are those it was given *)
GoesTo(st, n, id) == n \in DOMAIN st.s.fds /\ st.s.fds[n].k = "s" /\ st.s.fds[n].id = id
Calm(st) == /\ ~st.s.fork /\ DOMAIN st.s.fds = {0, 1, 2} /\ GoesTo(st, 1, "out") /\ GoesTo(st, 2, "err")
            /\ st.s.fds[0].k = "r" /\ st.s.fds[0].id \in {0, 1}

(* one process of a pipeline, until it has exited *)
Stage(st, c, in, out) ==
  LET c0 == Fork(st)
      c1 == IF in = 0 THEN c0 ELSE [c0 EXCEPT !.s.fds = Put(@, 0, [k |-> "r", id |-> in])]
      c2 == IF out = "" THEN c1 ELSE [c1 EXCEPT !.s.fds = Put(@, 1, [k |-> "s", id |-> out])]
      o == OpenAll(c2, c.rd)
      c3 == PrefixEnv(o.st, c.asg)
      r == IF ~o.ok THEN Fails(o.st)
           ELSE IF c.name \in Builtins THEN RunBuiltin(c3, c)
           ELSE IF IsFun(c3, c.name) THEN Call(c3, c)
           \* the fork flag is not one of a program. Messages about signals go
           \* where the shell writes: not modelled if that is elsewhere
           ELSE Exec([c3 EXCEPT !.s.fork = st.s.fork \/ ~GoesTo(st, 1, "out"),
                                !.s.calm = in = 0 /\ out = "" /\ Calm(st)], c.name, c.words)
  IN  [w |-> r.w, code |-> IF r.s.dead THEN r.s.code ELSE Code(r.s.stat), left |-> in,
       exe |-> (c.name \in Builtins \/ ~IsFun(c3, c.name)) /\ c.name \notin {"eval", ".", "source"}]

(* all processes of a pipeline, one after the other: what a process writes   *)
(* is read by the next one. This is what running them at once comes to, if   *)
(* they do not use the same files and all that is written is read.           *)
RECURSIVE Stages(_, _, _, _)
Stages(st, cs, in, logs) ==
  LET last == Len(cs) = 1
      id == "pipe" \o NatStr(Cardinality(DOMAIN st.w.str))
      s0 == [st EXCEPT !.w.log = {}]
      s1 == IF last THEN s0 ELSE [s0 EXCEPT !.w.str = Put(@, id, <<>>)]
      r == Stage(s1, cs[1], in, IF last THEN "" ELSE id)
      clash == \E x \in r.w.log, y \in logs : x[1] = y[1] /\ (x[2] \/ y[2])
      s2 == [s1 EXCEPT !.w = [r.w EXCEPT !.log = @ \cup st.w.log]]
  IN  IF r.w.undef \/ clash THEN Undef(s2)
      ELSE IF last THEN Stat(s2, r.code)
      ELSE LET rest == Stages([s2 EXCEPT !.w.rd = Append(@, s2.w.str[id])], Tail(cs),
                              Len(s2.w.rd) + 1, logs \cup r.w.log)
           IN  IF ~r.exe /\ ~rest.w.undef /\ rest.w.rd[Len(s2.w.rd) + 1] # <<>> THEN Undef(rest) ELSE rest

RECURSIVE Display(_)
Display(cs) == IF Len(cs) = 1 THEN cs[1].name ELSE cs[1].name \o " | " \o Display(Tail(cs))

Background(st, cs) ==
  LET st1 == [st EXCEPT !.w.log = {}]
      a == Stages([Fork(st1) EXCEPT !.s.inbg = TRUE], cs, 0, {})
      touched == a.w.str["out"] # st.w.str["out"] \/ a.w.str["err"] # st.w.str["err"]
      b == [st EXCEPT !.w = [a.w EXCEPT !.pend = @ \cup {l[1] : l \in {x \in a.w.log : x[2] /\ Has(a.w.fs, x[1])}},
                                        !.log = @ \cup st.w.log, !.bg = TRUE]]
  IN  IF a.w.undef \/ touched \/ st.s.fork THEN Undef(b)
      ELSE Stat(Out(b, "[J] Running " \o Display(cs) \o " &"), 0)

(* The commands of a pipeline are expanded in the shell, in order. A builtin *)
(* that is the only command is run there, and a definition ends the loop.    *)
RECURSIVE Expansion(_, _, _, _)
Expansion(st, cs, inshell, acc) ==
  IF cs = <<>> \/ Halt(st) THEN [st |-> st, cs |-> acc]
  ELSE LET c == cs[1]
       IN  CASE c.k = "group" -> [st |-> [st EXCEPT !.s.e = TRUE], cs |-> <<>>]
             [] c.k = "fdef" ->
                  LET o == Owner(st, c.name, "f", Len(st.s.stk))
                      i == IF o = 0 THEN TopCtx(st) ELSE o
                  IN  [st |-> Stat([st EXCEPT !.s.heap[i].f = Put(@, c.name, [l |-> c.body, rd |-> c.rd])], 0), cs |-> acc]
             [] OTHER ->
                  LET x == ExpandCmd(st, c)
                  IN  IF Halt(x.st) THEN [st |-> x.st, cs |-> <<>>]
                      ELSE IF inshell /\ x.c.name \in Builtins
                           THEN [st |-> WithRedirects(x.st, x.c, RunBuiltin), cs |-> acc]
                           ELSE Expansion(x.st, Tail(cs), inshell, Append(acc, x.c))

(* There is no room for all processes of a pipeline: those that can be       *)
(* started are, the output of the last one is lost, and the shell reports it. *)
NoRoom(st) == Stat(Err(st), 1)
Plain(st, cs) == \A i \in 1..Len(cs) :
  LET q == Lookup(st, cs[i].name)
  IN  /\ ~IsFun(st, cs[i].name) /\ cs[i].name \notin Builtins
      /\ cs[i].asg = <<>> /\ IsFile(st, q) /\ st.w.fs[q].x \in {"pr", "rd", "ev", "wd", "fd", "st", "i1", "pw"}
Partial(st, cs) ==
  LET id == "lost" \o NatStr(Cardinality(DOMAIN st.w.str))
      s0 == [st EXCEPT !.w.str = Put(@, id, <<>>), !.s.fds = Put(@, 1, [k |-> "s", id |-> id])]
      r == Stages(s0, cs, 0, {})
  IN  NoRoom([r EXCEPT !.s.fds = st.s.fds])

EvalSeq(st, p) ==
  LET x == Expansion(st, p.cmds, Len(p.cmds) = 1 /\ ~p.bg, <<>>)
  IN  IF Halt(x.st) \/ x.cs = <<>> THEN x.st
      ELSE IF ~p.bg /\ Len(x.cs) = 1 /\ IsFun(x.st, x.cs[1].name) THEN WithRedirects(x.st, x.cs[1], Call)
      ELSE IF st.s.room = 0 THEN NoRoom(x.st)
      ELSE IF st.s.room < Len(x.cs)
           THEN IF p.bg \/ ~Plain(x.st, x.cs) THEN Undef(x.st)
                ELSE Partial(x.st, SubSeq(x.cs, 1, st.s.room))
      ELSE IF st.s.room # Lots /\ (p.bg \/ (~Plain(x.st, x.cs) /\ Len(x.cs) > 1)) THEN Undef(x.st)
      ELSE IF p.bg THEN Background(x.st, x.cs)
      ELSE Stages(x.st, x.cs, 0, {})

EvalPipe(st, p) ==
  LET a == EvalSeq(st, p)
  IN  IF Halt(a) \/ ~p.bang THEN a ELSE Stat(a, IF a.s.stat = 0 THEN 1 ELSE 0)

RECURSIVE Chain(_, _, _)
Chain(st, ao, i) ==        \* the pipelines from number i on
  IF i > Len(ao.ps) \/ Halt(st) \/ st.s.ret THEN st
  ELSE IF (ao.ops[i - 1] = "&&") = (st.s.stat = 0)
       THEN Chain(EvalPipe(st, ao.ps[i]), ao, i + 1)
       ELSE Chain(st, ao, i + 1)
EvalAndOr(st, ao) == Chain(EvalPipe(st, ao.ps[1]), ao, 2)

EvalList(st, l) ==
  IF l = <<>> THEN st
  ELSE LET a == EvalAndOr(st, l[1])
       IN  IF Halt(a) \/ a.s.ret THEN a ELSE EvalList(a, Tail(l))

(* a function has a context of its own with its name and its arguments *)
Call(st, c) ==
  LET args == [i \in {"0"} \cup {NatStr(k) : k \in 1..Len(c.words)} |->
                 IF i = "0" THEN Var(c.name, FALSE) ELSE Var(c.words[NatOf(i)], FALSE)]
      s1 == [st EXCEPT !.s.heap = Append(@, [v |-> args, f |-> Empty]),
                       !.s.stk = Append(@, Len(st.s.heap) + 1), !.s.depth = @ + 1]
      fn == FunOf(st, c.name)
      e == ExpandRd(s1, fn.rd)       \* the redirections of the definition, for each call
      Body(s, x) == EvalList(s, fn.l)
      a == IF st.s.depth > 8 THEN Undef(s1)
           ELSE IF Halt(e.st) THEN e.st ELSE WithRedirects(e.st, [c EXCEPT !.rd = e.rd], Body)
  IN  IF a.s.dead THEN a
      ELSE [a EXCEPT !.s.stk = SubSeq(@, 1, Len(@) - 1), !.s.depth = @ - 1, !.s.ret = FALSE, !.s.e = FALSE]

(* a text that is given to eval or source *)
EvalText(st, text) ==
  LET p == Parse(text)
  IN  IF ~p.ok THEN Fails(st)
      ELSE LET a == EvalList(st, p.v)
           IN  IF a.s.e THEN Fails([a EXCEPT !.s.e = FALSE]) ELSE a

---------------------------------------------------------------------------
(* Builtins                                                                  *)
Ok(st) == Stat(st, 0)

BCd(st, c) ==
  LET h == IF Has(st.s.env, "HOME") THEN st.s.env["HOME"] ELSE ""
      p == IF c.words = <<>> THEN h ELSE c.words[1]
      r == Resolve(st, p)
  IN  IF c.words = <<>> /\ ~Has(st.s.env, "HOME") THEN Fails(st)
      ELSE IF r \in {"?", "/dev/null"} THEN Undef(st)
      ELSE IF IsDir(st, r) THEN Ok([st EXCEPT !.s.cwd = r]) ELSE Fails(st)

BExit(st, c) ==
  IF c.words = <<>> THEN [st EXCEPT !.s.dead = TRUE, !.s.code = Code(st.s.stat)]
  ELSE IF IsNumber(c.words[1]) THEN [st EXCEPT !.s.dead = TRUE, !.s.code = Code(NumberOf(c.words[1]))]
  ELSE FailsOn(st, c.words[1])

BReturn(st, c) ==
  LET r == [st EXCEPT !.s.ret = st.s.depth > 0]
  IN  IF c.words = <<>> THEN r
      ELSE IF IsNumber(c.words[1]) THEN Stat(r, NumberOf(c.words[1]))
      ELSE FailsOn(st, c.words[1])

RECURSIVE AddAliases(_, _)
AddAliases(st, ws) ==
  IF ws = <<>> THEN st
  ELSE AddAliases(IF HasEq(ws[1]) THEN [st EXCEPT !.s.al = Put(@, NameOf(ws[1]), ValueOf(ws[1]))] ELSE st, Tail(ws))

Listing(st, lines) == IF \E x \in lines : Contains(x, "\n") THEN Undef(st) ELSE IF lines = {} THEN Ok(st) ELSE Ok(Write(st, 1, {"#"} \cup lines))

BAlias(st, c) ==
  IF c.words = <<>> \/ c.words[1] = "-p"
  THEN Listing(st, {"alias " \o n \o "='" \o st.s.al[n] \o "'" : n \in DOMAIN st.s.al})
  ELSE Ok(AddAliases(st, c.words))

BUnalias(st, c) ==
  IF Len(c.words) # 1 THEN Fails(st)
  ELSE IF c.words[1] = "-a" THEN Ok([st EXCEPT !.s.al = Empty])
  ELSE Ok([st EXCEPT !.s.al = Del(@, c.words[1])])

(* the context that results from a file is given a name *)
FromFile(st, name, file) ==
  LET r == Resolve(st, file)
  IN  IF r = "?" \/ Busy(st, r, "<") THEN Undef(st)
      ELSE IF ~IsFile(st, r) THEN Fails(st)
      ELSE IF Odd(st.w.fs[r].c) \/ st.w.fs[r].x # "" THEN Undef(st)
      ELSE LET ls == st.w.fs[r].c
               p == Parse(Join([i \in 1..Len(ls) |-> (CHOOSE y \in ls[i] : TRUE) \o "\n"], ""))
           IN  IF ~p.ok \/ (\E i \in 1..Len(ls) : \E y \in ls[i] : Contains(y, "%FF%")) THEN Fails(st)
               ELSE LET n == Len(st.s.heap) + 1
                        s1 == [st EXCEPT !.s.heap = Append(@, [v |-> Empty, f |-> Empty]), !.s.stk = Append(@, n)]
                        a == EvalList(s1, p.v)
                        b == [a EXCEPT !.s.stk = SubSeq(@, 1, Len(@) - 1), !.s.e = FALSE]
                    IN  IF a.s.dead THEN a
                        ELSE IF a.s.e THEN Fails(b)
                        ELSE Ok([b EXCEPT !.s.ns = Put(@, name, n)])

BExportContext(st, c) ==
  IF Len(c.words) < 2 THEN Fails(st)
  ELSE LET w == c.words[2]
           ps == SplitOn(w, "=")
           self(name) == Ok([st EXCEPT !.s.ns = Put(@, name, TopCtx(st))])
           own == st.s.heap[TopCtx(st)].v
       IN  IF HasEq(w) THEN IF ps[2] = "self" THEN self(ps[1]) ELSE FromFile(st, ps[1], ps[2])
           ELSE IF w = "self" THEN IF Has(own, "0") THEN self(own["0"].x) ELSE Fails(st)
           ELSE FromFile(st, w, w)

RECURSIVE Exports(_, _)
Exports(st, ws) ==
  IF ws = <<>> THEN Ok(st)
  ELSE LET w == ws[1]
           n == NameOf(w)
       IN  IF ~HasEq(w) THEN
             IF IsVar(st, w)
             THEN Exports(SetEnv(SetIn(st, st.s.stk[1], w, VarOf(st, w)), w, VarOf(st, w).x), Tail(ws))
             ELSE IF IsFun(st, w)
             THEN Exports([st EXCEPT !.s.heap[st.s.stk[1]].f = Put(@, w, FunOf(st, w))], Tail(ws))
             ELSE Exports(st, Tail(ws))
           ELSE IF ReadOnly(st, n) \/ n = "" THEN Fails(st)
           ELSE LET s1 == SetEnv(SetIn(st, st.s.stk[1], n, Var(ValueOf(w), FALSE)), n, ValueOf(w))
                IN  Exports(IF Locked(s1, n) THEN s1 ELSE Assign(s1, n, ValueOf(w)), Tail(ws))

BExport(st, c) ==
  IF c.words = <<>> \/ c.words[1] = "-p" THEN Listing(st, {n \o "=" \o st.s.env[n] : n \in DOMAIN st.s.env})
  ELSE IF c.words[1] = "context" THEN BExportContext(st, c)
  ELSE Exports(st, c.words)

RECURSIVE Assigns(_, _)
Assigns(st, as) ==
  IF as = <<>> THEN Ok(st)
  ELSE IF Locked(st, NameOf(as[1])) THEN Fails(st)
  ELSE Assigns(Assign(st, NameOf(as[1]), ValueOf(as[1])), Tail(as))

BAssign(st, c) ==
  IF ~c.pre THEN Fails(st) ELSE Assigns(st, c.asg)

BEval(st, c) == IF c.words = <<>> THEN Fails(st) ELSE EvalText(st, Join(c.words, " ") \o "\n")

Remove(st, n) ==
  LET o == VarOwner(st, n)
      s1 == IF o = 0 THEN st ELSE [st EXCEPT !.s.heap[o].v = Del(@, Local(n))]
  IN  IF Contains(n, "::") \/ ~Has(st.s.env, n) THEN s1
      ELSE [s1 EXCEPT !.s.heap[st.s.stk[1]].v = Del(@, n), !.s.env = Del(@, n)]

BUnset(st, c) ==
  IF c.words = <<>> THEN Fails(st)
  ELSE LET w == c.words[1]
           opt == StartsWith(w, "-")
           kind == IF ~opt THEN "v" ELSE IF Contains(w, "f") THEN "f" ELSE IF Contains(w, "c") THEN "c"
                   ELSE IF Contains(w, "v") THEN "v" ELSE "?"
           pos == IF opt THEN 2 ELSE 1
       IN  IF kind = "?" \/ Len(c.words) < pos THEN Fails(st)
           ELSE LET n == c.words[pos]
                IN  CASE kind = "v" -> IF ReadOnly(st, n) THEN Fails(st) ELSE Ok(Remove(st, n))
                      [] kind = "f" -> LET o == FunOwner(st, n)
                                       IN  Ok(IF o = 0 THEN st ELSE [st EXCEPT !.s.heap[o].f = Del(@, Local(n))])
                      [] kind = "c" -> Ok([st EXCEPT !.s.ns = Del(@, n)])

(* the readonly variables that are listed; a later context hides an earlier  *)
(* one                                                                       *)
Locks(st, c) == {n \in DOMAIN st.s.heap[c].v : st.s.heap[c].v[n].r}
RECURSIVE LockLines(_, _, _)
LockLines(st, cs, hidden) ==
  IF cs = <<>> THEN {}
  ELSE LET c == cs[Len(cs)]
       IN  {n \o "=" \o st.s.heap[c].v[n].x : n \in Locks(st, c) \ hidden}
           \cup LockLines(st, SubSeq(cs, 1, Len(cs) - 1), hidden \cup Locks(st, c))

BReadonly(st, c) ==
  IF c.words = <<>> THEN Fails(st)
  ELSE LET w == c.words[1]
           opt == StartsWith(w, "-")
           kind == IF ~opt THEN "v" ELSE IF Contains(w, "f") THEN "f" ELSE IF Contains(w, "c") THEN "c"
                   ELSE IF Contains(w, "v") THEN "v" ELSE IF Contains(w, "p") THEN "p" ELSE "?"
           p1 == IF opt THEN 2 ELSE 1
           opt2 == Len(c.words) >= p1 /\ StartsWith(c.words[p1], "-")
           print == kind = "p" \/ (opt2 /\ Contains(c.words[p1], "p"))
           pos == IF opt2 /\ Contains(c.words[p1], "p") THEN p1 + 1 ELSE p1
       IN  IF kind = "?" \/ (opt2 /\ ~Contains(c.words[p1], "p")) THEN Fails(st)
           ELSE IF kind = "f" THEN Ok(st)           \* there are no readonly functions
           ELSE IF print /\ kind = "c" THEN
             IF Len(c.words) < pos THEN Fails(st)
             ELSE IF ~Has(st.s.ns, c.words[pos]) THEN Ok(st)
             ELSE Listing(st, LockLines(st, <<st.s.ns[c.words[pos]]>>, {}))
           ELSE IF print THEN
             IF \E n \in DOMAIN st.s.ns : Locks(st, st.s.ns[n]) # {} /\ ~\E i \in 1..Len(st.s.stk) : st.s.stk[i] = st.s.ns[n]
             THEN Undef(st)
             ELSE Listing(st, LockLines(st, st.s.stk, {}))
           ELSE IF Len(c.words) < pos THEN Fails(st)
           ELSE LET a == c.words[pos]
                    n == NameOf(a)
                IN  IF ~HasEq(a) THEN
                      IF ~IsVar(st, a) THEN Fails(st)
                      ELSE Ok([st EXCEPT !.s.heap[VarOwner(st, a)].v[Local(a)].r = TRUE])
                    ELSE IF ReadOnly(st, n) THEN Fails(st)
                    ELSE IF Contains(n, "::") THEN
                      LET q == SplitOn(n, "::")
                      IN  IF Len(q) > 2 THEN Undef(st)
                          ELSE IF Has(st.s.ns, q[1]) THEN Ok(SetIn(st, st.s.ns[q[1]], q[2], Var(ValueOf(a), TRUE)))
                          ELSE Ok(st)
                    ELSE LET o == Owner(st, n, "v", Len(st.s.stk))
                             s1 == SetIn(st, IF o = 0 THEN TopCtx(st) ELSE o, n, Var(ValueOf(a), TRUE))
                         IN  Ok(IF o # 0 /\ Has(st.s.env, n) THEN SetEnv(s1, n, ValueOf(a)) ELSE s1)

(* One word of options of exec at position i: [ok, i, c, l, a] with the next  *)
(* position. -c: no environment, -l: "-" before argument 0, -a: argument 0    *)
ExecOpts(w, o) ==
  IF Len(w) < o.i \/ ~StartsWith(w[o.i], "-") THEN o
  ELSE LET c == Contains(w[o.i], "c")
           l == Contains(w[o.i], "l")
           a == Contains(w[o.i], "a")
       IN  [ok |-> ~a \/ Len(w) >= o.i + 2, c |-> o.c \/ c, l |-> o.l \/ l, a |-> o.a \/ a,
            i |-> IF a THEN o.i + 2 ELSE IF c \/ l THEN o.i + 1 ELSE o.i]
BaseName(p) == LET c == SplitOn(p, "/") IN c[Len(c)]
Helpers == {"pr", "er", "bo", "st", "sg", "rd", "i1", "ev", "pw", "fd", "sf", "bl", "ct", "wd", "lg", "op", "gt", "wt"}

BExec(st, c) ==
  LET o1 == ExecOpts(c.words, [ok |-> TRUE, i |-> 1, c |-> FALSE, l |-> FALSE, a |-> FALSE])
      o == IF o1.ok THEN ExecOpts(c.words, o1) ELSE o1
      name == c.words[o.i]
      args == SubSeq(c.words, o.i + 1, Len(c.words))
      zero == (IF o.l THEN "-" ELSE "") \o (IF o.a THEN c.words[o.i - 1] ELSE name)
      p == Lookup(st, name)
      s1 == IF o.c THEN [st EXCEPT !.s.env = Empty] ELSE st
      prog == IF ~(o.l \/ o.a) THEN st.w.fs[p].x
              ELSE IF BaseName(zero) \in Helpers THEN BaseName(zero) ELSE "tag:" \o p
  IN  IF ~o.ok \/ o.i > Len(c.words) THEN Fails(st)
      ELSE IF Contains(name, "/") /\ p = "?" THEN Undef(st)
      ELSE IF IsFile(st, p) /\ st.w.fs[p].x # ""
      THEN LET a == RunExe(s1, prog, args)
           IN  [a EXCEPT !.s.dead = TRUE, !.s.code = IF prog = "sg" THEN 128 - a.s.stat ELSE Code(a.s.stat)]
      ELSE Fails(st)

RECURSIVE SourceArgs(_, _, _)
SourceArgs(st, ws, i) ==
  IF i > Len(ws) THEN st
  ELSE SourceArgs(IF Locked(st, NatStr(i)) THEN st ELSE Assign(st, NatStr(i), ws[i]), ws, i + 1)

(* %FF% stands for bytes that are not UTF-8 *)
Foreign(t) == Contains(t, "%FF%")
TextOf(st, r) == Join([i \in 1..Len(st.w.fs[r].c) |-> (CHOOSE y \in st.w.fs[r].c[i] : TRUE) \o "\n"], "")

BSource(st, c) ==
  IF c.words = <<>> THEN Fails(st)
  ELSE LET f == c.words[1]
           s1 == SourceArgs(st, Tail(c.words), 1)
           l == IF Contains(f, "/") THEN "" ELSE Lookup(st, f)
           r == IF l # "" THEN l ELSE Resolve(st, f)
       IN  IF r = "?" \/ Busy(st, r, "<") THEN Undef(s1)
           ELSE IF ~IsFile(s1, r) THEN (IF Exists(s1, r) THEN Fails(s1) ELSE Fails(s1))
           ELSE IF st.w.fs[r].x # "" \/ Odd(st.w.fs[r].c) THEN Undef(s1)
           ELSE IF Foreign(TextOf(st, r)) THEN Fails(s1)
           ELSE EvalText(s1, TextOf(st, r))

(* without background jobs *)
BFgBg(st, c) ==
  IF c.words = <<>> THEN Fails(st)
  ELSE LET w == c.words[1]
           n == IF StartsWith(w, "%") THEN From(w, 2) ELSE w
       IN  IF IsNumber(n) /\ st.w.bg THEN Undef(st) ELSE Fails(st)

RunBuiltin(st, c) ==
  CASE c.name = "cd" -> BCd(st, c)
    [] c.name = "exit" -> BExit(st, c)
    [] c.name = "return" -> BReturn(st, c)
    [] c.name = "alias" -> BAlias(st, c)
    [] c.name = "unalias" -> BUnalias(st, c)
    [] c.name = "export" -> BExport(st, c)
    [] c.name = "eval" -> BEval(st, c)
    [] c.name = "unset" -> BUnset(st, c)
    [] c.name = "pwd" -> Ok(Out(st, st.s.cwd))
    [] c.name = "readonly" -> BReadonly(st, c)
    [] c.name = "exec" -> BExec(st, c)
    [] c.name \in {".", "source"} -> BSource(st, c)
    [] c.name = "" -> BAssign(st, c)
    [] c.name = "jobs" -> IF st.w.bg THEN Undef(st) ELSE Ok(st)        \* more of these: see Jobs.tla
    [] c.name \in {"fg", "bg"} -> BFgBg(st, c)

---------------------------------------------------------------------------
(* The shell                                                                 *)

(* env: the environment; fs: the files; arg0 and args of the shell; room: how *)
(* many processes there can be besides the shell, Lots if there is no limit   *)
Initial(mode, env, fs, cwd, arg0, args, room) ==
  LET base == ("PS1" :> "$ ") @@ ("PS2" :> "> ") @@ ("PS4" :> "+ ") @@ ("PWD" :> cwd)
      params == [i \in {NatStr(k) : k \in 1..Len(args)} |-> args[NatOf(i)]]
      v0 == params @@ env @@ base
  IN
  [s |-> [stk |-> <<1, 2>>,
          heap |-> <<[v |-> [n \in DOMAIN v0 |-> Var(v0[n], FALSE)], f |-> Empty],
                     [v |-> [n \in {"0"} |-> Var(arg0, FALSE)], f |-> Empty]>>,
          ns |-> Empty, al |-> Empty, env |-> env, cwd |-> cwd, stat |-> 0,
          fds |-> IF mode = "i" THEN [Standard EXCEPT ![0].id = 0] ELSE Standard,
          depth |-> 0, ret |-> FALSE, dead |-> FALSE, code |-> 0, e |-> FALSE,
          mode |-> mode, part |-> "", held |-> {}, fork |-> FALSE, calm |-> FALSE, inbg |-> FALSE, room |-> room],
   w |-> [fs |-> fs, str |-> ("out" :> <<>>) @@ ("err" :> <<>>), rd |-> <<<<>>>>, log |-> {},
          pend |-> {}, gates |-> {}, bg |-> FALSE, undef |-> FALSE]]

(* an error of the line itself: in an interactive shell on standard output *)
LineError(st, n) == Stat(Write(st, IF st.s.mode = "i" THEN 1 ELSE 2, {"!"}), n)

RcFile(st) == IF Has(st.s.env, "HOME") THEN Resolve(st, st.s.env["HOME"] \o "/.rshrc") ELSE ""

(* One line that is typed, one line of a script, or the text after -c, whose *)
(* tree is p, unless it goes on with what is there of an incomplete text      *)
EvalParsed(st, line, p) ==
  LET more == st.s.part # ""
      text == IF more THEN st.s.part \o (IF st.s.mode = "i" THEN "\n" ELSE "") \o line ELSE line
      q == IF more THEN Parse(text) ELSE p
      s0 == [st EXCEPT !.s.part = ""]
  IN
  IF Halt(st) THEN st
  ELSE IF st.s.mode = "i" /\ text = "" THEN st
  ELSE IF st.s.mode = "i" /\ Foreign(line) THEN IF more THEN Undef(st) ELSE LineError(st, 2)
  ELSE IF st.s.mode = "c" /\ Foreign(line) THEN [(IF Exists(st, RcFile(st)) THEN Undef(st) ELSE Write(st, 2, {"!"})) EXCEPT !.s.dead = TRUE, !.s.code = 2]
  ELSE IF ~q.ok THEN IF st.s.mode # "c" /\ Incomplete(text) THEN [st EXCEPT !.s.part = text] ELSE LineError(s0, 2)
  ELSE IF Foreign(text) THEN LineError(s0, 2)
  ELSE LET a == EvalList(s0, q.v)
       IN  IF a.s.e THEN LineError([a EXCEPT !.s.e = FALSE], 1) ELSE a
EvalLine(st, line) == EvalParsed(st, line, Parse(line))

(* when there is no more input: a part of a script is an error *)
Finish(st0) ==
  LET st == IF Halt(st0) \/ st0.s.part = "" \/ st0.s.mode = "i" THEN st0 ELSE LineError(st0, 2)
  IN  IF st.w.gates # {} THEN Undef(st)
      ELSE IF st.s.dead THEN st ELSE [st EXCEPT !.s.dead = TRUE, !.s.code = Code(st.s.stat)]

(* The shell when it takes its first line: it has read ~/.rshrc, if there is  *)
(* one, whose errors are said on standard output                              *)
Started(mode, env, fs, cwd, arg0, args, room) ==
  LET st == Initial(mode, env, fs, cwd, arg0, args, room)
      r == RcFile(st)
      p == Parse(TextOf(st, r))
  IN  IF \E i \in 1..Len(args) : Foreign(args[i]) THEN [Write(st, 2, {"!"}) EXCEPT !.s.dead = TRUE, !.s.code = 2]
      ELSE IF ~Exists(st, r) THEN st
      ELSE IF IsDir(st, r) THEN Write(st, 1, {"!"})
      ELSE IF Odd(st.w.fs[r].c) \/ st.w.fs[r].x # "" THEN Undef(st)
      ELSE IF ~p.ok \/ Foreign(TextOf(st, r)) THEN Write(st, 1, {"!"})
      ELSE LET a == EvalList(st, p.v)
           IN  IF a.s.e THEN Stat(Write([a EXCEPT !.s.e = FALSE], 1, {"!"}), 1) ELSE a

RECURSIVE EvalLines(_, _)
EvalLines(st, ls) == IF ls = <<>> THEN st ELSE EvalLines(EvalLine(st, ls[1]), Tail(ls))
===========================================================================
