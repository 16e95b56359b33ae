-------------------------------- MODULE Jobs --------------------------------
(* Jobs: the processes that the shell starts, the order in which what        *)
(* happens to them and what the user types can interleave, and what is       *)
(* reported. This is a small-step specification: the environment (the user   *)
(* at the keyboard, and the processes themselves) acts with Env, the shell   *)
(* with Internal, one fork, one wait or one line at a time.                  *)
(*                                                                           *)
(* The commands of the lines are: jb X, a process that does what the         *)
(* environment says; ct, a process that reads its input to the end; pr and   *)
(* st, which end by themselves; the builtins jobs, fg, bg and exit; and the  *)
(* functions of Fns. Everything else is in RshSem.                           *)
EXTENDS RshSyntax, TLC

CONSTANT Prelude        \* lines that define functions

Defs == {Parse(Prelude[i]).v[1].ps[1].cmds[1] : i \in 1..Len(Prelude)}
Fns == [n \in {d.name : d \in Defs} |-> (CHOOSE d \in Defs : d.name = n).body]

SigName(n) == CASE n = 1 -> "SIGHUP" [] n = 2 -> "SIGINT" [] n = 9 -> "SIGKILL" [] n = 10 -> "SIGUSR1"
                [] n = 13 -> "SIGPIPE" [] n = 15 -> "SIGTERM" [] n = 19 -> "SIGSTOP" [] n = 20 -> "SIGTSTP"

(* what waitpid says of a process: that it exited (E), was ended by a signal
   (K) or was stopped by one (T); N is nothing *)
N == [k |-> "N", n |-> 0]
Code(x) == IF x.k = "E" THEN x.n ELSE 128 + x.n

Num(x) == ToString(x)

RECURSIVE JoinBy(_, _)
JoinBy(xs, sep) == IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o JoinBy(Tail(xs), sep)
CmdText(c) == c.name

(* in: the lines that the shell has not taken, eof: whether there will be no
   more, pc: idle (waits for a line), busy, wait (for job fg), end.
   todo: what is left of the line, stat: the status, out: what was written.
   procs: every process ever started; jobs: the table.                       *)
Blank(mode) ==
  [mode |-> mode, in |-> <<>>, eof |-> FALSE, pc |-> "idle", todo |-> <<>>, fg |-> 0, stat |-> 0, out |-> <<>>,
   procs |-> <<>>, jobs |-> <<>>, code |-> 0, bad |-> FALSE]

Put(s, x) == [s EXCEPT !.out = Append(@, x)]

(* the jobs are a sequence in the order of their ids *)
Ids(s) == {s.jobs[i].id : i \in 1..Len(s.jobs)}
At(s, id) == CHOOSE i \in 1..Len(s.jobs) : s.jobs[i].id = id
Job(s, id) == s.jobs[At(s, id)]
NewId(s) == IF s.jobs = <<>> THEN 1 ELSE s.jobs[Len(s.jobs)].id + 1
Drop(s, id) == [s EXCEPT !.jobs = SelectSeq(@, LAMBDA j : j.id # id)]
Text(j) == j.text \o (IF j.bg THEN " &" ELSE "")

Notes(s) == {i \in 1..Len(s.procs) : s.procs[i].note # N}

---------------------------------------------------------------------------
(* The shell learns of one process what has happened to it.                 *)
Update(s, id) ==
  LET a == At(s, id)
      ps == s.jobs[a].ps
      kn(i) == s.procs[ps[i]].kn
      stopped == {i \in 1..Len(ps) : kn(i).k = "T"}
  IN  IF \E i \in 1..Len(ps) : kn(i) = N THEN s
      ELSE IF stopped # {}
           THEN [s EXCEPT !.jobs[a].st = "Stopped", !.jobs[a].stop = kn(CHOOSE i \in stopped : \A k \in stopped : k <= i)]
           ELSE [s EXCEPT !.jobs[a].st = "Done", !.jobs[a].stop = kn(Len(ps))]

Consume(s, i) ==
  LET p == s.procs[i]
      n == p.note
      s1 == [s EXCEPT !.procs[i].kn = n, !.procs[i].note = N]
      s2 == IF p.job \in Ids(s) THEN Update(s1, p.job) ELSE s1
      j == Job(s2, p.job)
      who == "Job [" \o Num(p.job) \o "] (" \o p.nm \o ") "
  IN  IF p.job \notin Ids(s) \/ n.k = "E" THEN s2
      ELSE IF p.job = s.fg
           THEN IF n = [k |-> "K", n |-> 13] THEN s2
                ELSE Put(s2, "[" \o Num(j.id) \o "] + \t\t" \o j.st \o " " \o Text(j) \o " (" \o SigName(n.n) \o ")")
      ELSE Put(s2, who \o (IF n.k = "K" THEN "terminated" ELSE "stopped") \o " by signal")

(* all that has happened is noted, and the jobs that are done are removed *)
RECURSIVE NoteAll(_)
NoteAll(s) == IF Notes(s) = {} THEN s ELSE NoteAll(Consume(s, CHOOSE i \in Notes(s) : \A k \in Notes(s) : i <= k))
Reap(s) == LET t == NoteAll(s) IN [t EXCEPT !.jobs = SelectSeq(@, LAMBDA j : j.st # "Done")]

---------------------------------------------------------------------------
(* Processes                                                                 *)
Ends(s, i, how) == [s EXCEPT !.procs[i].st = "dead", !.procs[i].note = how, !.procs[i].sg = {}]
Halts(s, i, sig) == [s EXCEPT !.procs[i].st = "stop", !.procs[i].note = [k |-> "T", n |-> sig]]
Continues(s, i) ==
  IF s.procs[i].st # "stop" THEN [s EXCEPT !.procs[i].sg = @ \ {20}]
  ELSE [s EXCEPT !.procs[i].st = "run", !.procs[i].note = IF @.k = "T" THEN N ELSE @, !.procs[i].sg = @ \ {20}]
(* a signal of the keyboard arrives at one process of the group after the other *)
Deliver(s, i, sig) ==
  IF sig = 2 THEN Ends(s, i, [k |-> "K", n |-> 2])
  ELSE [Halts(s, i, sig) EXCEPT !.procs[i].sg = @ \ {20}]
Delivers(s) == {x \in (1..Len(s.procs)) \X {2, 20} : x[2] \in s.procs[x[1]].sg /\ s.procs[x[1]].st = "run"}

Brackets(ws) == IF ws = <<>> THEN "" ELSE "[" \o JoinBy(ws, "][") \o "]"

(* the k-th process of that name *)
Named(s, x) == x \o Num(Cardinality({i \in 1..Len(s.procs) : s.procs[i].x = x}) + 1)

(* starts the stages cs from the first on; the first process of the job is base *)
RECURSIVE Fork(_, _, _, _, _)
Fork(s, id, cs, k, bg) ==
  IF k > Len(cs) THEN s ELSE
  LET c == cs[k]
      i == Len(s.procs) + 1
      x == IF c.name = "jb" THEN c.words[1] ELSE "_" \o c.name
      p == [nm |-> IF c.name = "jb" THEN Named(s, x) ELSE "_", x |-> x, kind |-> c.name, job |-> id, st |-> "run", note |-> N, kn |-> N, ws |-> c.words,
            sg |-> {}, prev |-> IF k > 1 THEN i - 1 ELSE 0, next |-> IF k < Len(cs) THEN i + 1 ELSE 0, grp |-> IF bg THEN i ELSE 0]
      s1 == [s EXCEPT !.procs = Append(@, p), !.jobs[At(s, id)].ps = Append(@, i)]
  IN  Fork(s1, id, cs, k + 1, bg)

Launch(s, p) ==
  LET id == NewId(s)
      j == [id |-> id, ps |-> <<>>, bg |-> p.bg, st |-> "Running", stop |-> N,
            text |-> JoinBy([i \in 1..Len(p.cmds) |-> CmdText(p.cmds[i])], " | ")]
      s1 == Fork([s EXCEPT !.jobs = Append(@, j)], id, p.cmds, 1, p.bg)
  IN  IF p.bg THEN [Put(s1, "[" \o Num(id) \o "] (" \o s1.procs[s1.jobs[Len(s1.jobs)].ps[1]].nm \o ") Running " \o Text(Job(s1, id)))
                      EXCEPT !.stat = 0]
      ELSE [s1 EXCEPT !.pc = "wait", !.fg = id]

---------------------------------------------------------------------------
(* The builtins                                                              *)
Fails(s) == [Put(s, "!") EXCEPT !.stat = 1]

RECURSIVE List(_, _)
List(s, k) ==
  IF k > Len(s.jobs) THEN s
  ELSE List(Put(s, "[" \o Num(s.jobs[k].id) \o "] + " \o s.jobs[k].st \o " " \o Text(s.jobs[k])), k + 1)

(* the id of the job that "%n" or "@name" (a process) means, 0 if there is none *)
Meant(s, w) ==
  IF StartsWith(w, "%") THEN
    LET n == From(w, 2)
    IN  IF IsNumber(n) /\ NumberOf(n) \in Ids(s) THEN NumberOf(n) ELSE 0
  ELSE IF StartsWith(w, "@") THEN
    LET is == {i \in 1..Len(s.procs) : s.procs[i].nm = From(w, 2)}
    IN  IF is # {} /\ \E i \in is : s.procs[i].job \in Ids(s) /\ \E k \in 1..Len(Job(s, s.procs[i].job).ps) : Job(s, s.procs[i].job).ps[k] = i
        THEN s.procs[CHOOSE i \in is : TRUE].job ELSE 0
  ELSE 0

RECURSIVE Resume(_, _)
Resume(s, ps) ==
  IF ps = <<>> THEN s
  ELSE LET i == ps[1]
           s1 == IF s.procs[i].kn.k = "T" THEN [s EXCEPT !.procs[i].kn = N] ELSE s
       IN  Resume(Continues(s1, i), Tail(ps))

FgBg(s, c) ==
  LET id == IF c.words = <<>> THEN 0 ELSE Meant(s, c.words[1])
      a == At(s, id)
      s1 == Resume([s EXCEPT !.jobs[a].st = "Running", !.jobs[a].bg = (c.name = "bg")], s.jobs[a].ps)
      s2 == Put(s1, "[" \o Num(id) \o "] Running " \o Text(s1.jobs[a]))
  IN  IF id = 0 THEN Fails(s)
      ELSE IF c.name = "bg" THEN [s2 EXCEPT !.stat = 0]
      ELSE [s2 EXCEPT !.pc = "wait", !.fg = id]

Quit(s, code) == [s EXCEPT !.pc = "end", !.todo = <<>>, !.code = code, !.in = <<>>]

Builtin(s, c) ==
  CASE c.name = "jobs" -> [List(s, 1) EXCEPT !.stat = 0]
    [] c.name \in {"fg", "bg"} -> FgBg(s, c)
    [] c.name = "exit" -> Quit(s, IF c.words = <<>> THEN s.stat ELSE NumberOf(c.words[1]))

---------------------------------------------------------------------------
(* What the shell does                                                       *)
(* a list of and-or lists as a sequence of pipelines, each with what it
   depends on *)
RECURSIVE Flat(_)
Flat(ls) ==
  IF ls = <<>> THEN <<>>
  ELSE [i \in 1..Len(ls[1].ps) |-> [op |-> IF i = 1 THEN ";" ELSE ls[1].ops[i - 1], p |-> ls[1].ps[i]]] \o Flat(Tail(ls))

Skipped(s, op) == (op = "&&" /\ s.stat # 0) \/ (op = "||" /\ s.stat = 0)

Do(s) ==        \* the next pipeline of the line
  IF s.todo = <<>> THEN [s EXCEPT !.pc = "idle"] ELSE
  LET t == s.todo[1]
      c == t.p.cmds[1]
      s1 == [s EXCEPT !.todo = Tail(@)]
      s2 == Reap(s1)
  IN  IF Skipped(s, t.op) THEN s1
      ELSE IF Len(t.p.cmds) = 1 /\ ~t.p.bg /\ c.name \in {"jobs", "fg", "bg", "exit"} THEN Builtin(s2, c)
      ELSE IF Len(t.p.cmds) = 1 /\ ~t.p.bg /\ c.name \in DOMAIN Fns THEN [s2 EXCEPT !.todo = Flat(Fns[c.name]) \o @]
      ELSE Launch(s2, t.p)

Take(s, tree) ==
  LET s1 == [s EXCEPT !.in = Tail(@)]
  IN  IF ~tree.ok THEN [Put(s1, "!") EXCEPT !.stat = 2]
      ELSE [s1 EXCEPT !.todo = Flat(tree.v), !.pc = "busy"]

(* a job that is waited for is no longer running and all is noted: the shell goes on *)
Resumes(s) ==
  LET j == Job(s, s.fg)
      s1 == IF j.st = "Done" THEN Drop(s, j.id) ELSE s
  IN  [s1 EXCEPT !.stat = Code(j.stop), !.fg = 0, !.pc = "busy"]

(* a process that reads its input ends when those who write it are gone, and
   pr and st end by themselves *)
CanEnd(s, i) ==
  LET p == s.procs[i]
  IN  p.st = "run" /\ (p.kind \in {"pr", "st"} \/ (p.kind = "ct" /\ p.prev # 0 /\ s.procs[p.prev].st = "dead"))
EndsSo(s, i) ==
  LET p == s.procs[i]
      text == IF p.kind = "ct" THEN ">0 0" ELSE ">" \o Brackets(p.ws)
  IN  Ends(IF p.next = 0 /\ p.kind # "st" THEN Put(s, text) ELSE s, i,
           [k |-> "E", n |-> IF p.kind = "st" THEN NumberOf(p.ws[1]) ELSE 0])

Internal(s, tree) ==
  (IF s.pc = "idle" /\ s.in # <<>> THEN {Take(s, tree[s.in[1]])} ELSE {})
  \cup (IF s.pc = "idle" /\ s.in = <<>> /\ s.eof THEN {Quit(s, s.stat)} ELSE {})
  \cup (IF s.pc = "busy" THEN {Do(s)} ELSE {})
  \cup (IF s.pc = "wait" THEN
          IF Notes(s) # {} THEN {Consume(s, i) : i \in Notes(s)}
          ELSE IF Job(s, s.fg).st # "Running" THEN {Resumes(s)} ELSE {}
        ELSE {})
  \cup {Deliver(s, x[1], x[2]) : x \in Delivers(s)}
  \cup {EndsSo(s, i) : i \in {k \in 1..Len(s.procs) : CanEnd(s, k)}}

RECURSIVE Settle(_, _)
Settle(s, tree) == LET n == Internal(s, tree) IN IF n = {} THEN s ELSE Settle(CHOOSE t \in n : TRUE, tree)

---------------------------------------------------------------------------
(* What the environment does. An action is [a, x, n].                        *)
Live(s) == {i \in 1..Len(s.procs) : s.procs[i].st # "dead"}
ByName(s, x) == CHOOSE i \in 1..Len(s.procs) : s.procs[i].nm = x
Exists(s, x) == \E i \in Live(s) : s.procs[i].nm = x

Act(a, x, n) == [a |-> a, x |-> x, n |-> n]

OnGroup(s, is, sig) ==
  [s EXCEPT !.procs = [i \in 1..Len(s.procs) |-> IF i \in is /\ (sig = 2 \/ @[i].st = "run") THEN [@[i] EXCEPT !.sg = @ \cup {sig}] ELSE @[i]]]
Group(s) == {i \in Live(s) : s.procs[i].grp = 0}

CanAct(s, e) ==
  CASE e.a = "line" -> ~s.eof /\ s.pc # "end"
    [] e.a = "eof"  -> ~s.eof /\ s.pc # "end"
    [] e.a = "exit" -> Exists(s, e.x) /\ s.procs[ByName(s, e.x)].st = "run"
    [] e.a = "sig"  -> Exists(s, e.x) /\ (LET st == s.procs[ByName(s, e.x)].st
                                          IN  IF e.n \in {19, 20} THEN st = "run" ELSE IF e.n = 18 THEN st = "stop"
                                              ELSE IF e.n = 9 THEN TRUE ELSE st = "run")
    [] e.a \in {"int", "tstp"} -> s.pc # "end" /\ (s.mode = "i" \/ e.a = "int")

Env(s, e) ==
  CASE e.a = "line" -> [s EXCEPT !.in = Append(@, e.x)]
    [] e.a = "eof"  -> [s EXCEPT !.eof = TRUE]
    [] e.a = "exit" -> Ends(s, ByName(s, e.x), [k |-> "E", n |-> e.n])
    [] e.a = "sig"  -> LET i == ByName(s, e.x)
                       IN  IF e.n = 18 THEN Continues(s, i)
                           ELSE IF e.n \in {19, 20} THEN Halts(s, i, e.n)
                           ELSE Ends(s, i, [k |-> "K", n |-> e.n])
    [] e.a = "int"  -> IF s.mode = "i" THEN OnGroup(Put(s, ""), Group(s), 2)
                       ELSE Quit(OnGroup(s, Group(s), 2), -2)
    [] e.a = "tstp" -> OnGroup(s, Group(s), 20)

---------------------------------------------------------------------------
(* What can be seen: the output, and of every process how it is (run, stop,  *)
(* dead: not yet waited for, gone), its group and what it is connected to.   *)
View1(s, i) ==
  LET p == s.procs[i]
      nm(k) == IF k = 0 THEN "" ELSE s.procs[k].nm
  IN  [nm |-> p.nm, kind |-> p.kind, st |-> IF p.st = "dead" THEN (IF p.note = N \/ s.pc = "end" THEN "gone" ELSE "dead") ELSE p.st,
       own |-> p.grp # 0, prev |-> nm(p.prev), next |-> nm(p.next), piped |-> p.prev # 0, pipes |-> p.next # 0]
Seen(s) == [out |-> s.out, pc |-> s.pc, code |-> s.code,
            procs |-> [i \in 1..Len(s.procs) |-> View1(s, i)]]
===========================================================================
