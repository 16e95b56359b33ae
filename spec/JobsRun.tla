------------------------------- MODULE JobsRun -------------------------------
(* The histories of Jobs: what the environment does, one thing after the     *)
(* other. With PACE = "settled" it waits until the shell has nothing to do   *)
(* before it acts; with "racing" it acts at any time. Every history is       *)
(* printed with what can be seen when nothing is left to do after it.        *)
EXTENDS Jobs, Json, IOUtils

CONSTANTS Lines,            \* the lines, in an interactive shell
          Programs,         \* the scripts, in another: sequences of lines
          Exits, Signals,   \* the statuses that a jb ends with, and the signals that it is sent
          Others,           \* more actions: Act("int", "", 0), Act("tstp", "", 0), Act("eof", "", 0)
          Mode, MaxLive, MaxEver

Depth == IF "DEPTH" \in DOMAIN IOEnv THEN NumberOf(IOEnv.DEPTH) ELSE 4
Pace == IF "PACE" \in DOMAIN IOEnv THEN IOEnv.PACE ELSE "settled"

VARIABLES s, hist
vars == <<s, hist>>

Tree == [l \in Lines \cup UNION {{p[i] : i \in 1..Len(p)} : p \in Programs} |-> Parse(l)]
Settled == Internal(s, Tree) = {}

ASSUME PrintT("@@" \o ToJson([mode |-> Mode, prelude |-> Prelude]))

Init == IF Mode = "i" THEN s = Blank(Mode) /\ hist = <<>>
        ELSE \E p \in Programs : /\ s = [Blank(Mode) EXCEPT !.in = p, !.eof = TRUE]
                                 /\ hist = <<[a |-> "script", x |-> p, n |-> 0]>>

Say(t, h) == PrintT("@@" \o ToJson([h |-> h, o |-> Seen(t)]))

Shell == \E t \in Internal(s, Tree) :
           /\ s' = t /\ UNCHANGED hist
           /\ Internal(t, Tree) = {} => Say(t, hist)

Actions == {Act("line", l, 0) : l \in Lines} \cup Others
           \cup UNION {{Act("exit", s.procs[i].nm, n) : n \in Exits} \cup {Act("sig", s.procs[i].nm, n) : n \in Signals} : i \in {k \in Live(s) : s.procs[k].kind = "jb"}}

(* a line that starts a jb (when things race, they need names of their own)  *)
Starts(l) == Tree[l].ok /\ \E i \in 1..Len(Tree[l].v) : \E j \in 1..Len(Tree[l].v[i].ps) : \E k \in 1..Len(Tree[l].v[i].ps[j].cmds) :
               Tree[l].v[i].ps[j].cmds[k].name = "jb"

Does == /\ Pace = "racing" \/ Settled
        /\ Len(hist) < Depth + (IF Mode = "i" THEN 0 ELSE 1)
        /\ \E e \in Actions :
             /\ CanAct(s, e)
             /\ e.a = "line" => /\ Cardinality(Live(s)) < MaxLive /\ Len(s.procs) < MaxEver
                                /\ Len(s.in) < (IF Pace = "racing" THEN 3 ELSE 1)
             /\ e.a = "line" /\ Pace = "racing" /\ Starts(e.x) => \A k \in 1..Len(hist) : hist[k].x # e.x
             /\ s' = Env(IF Pace = "racing" THEN s ELSE [s EXCEPT !.out = <<>>], e) /\ hist' = Append(hist, e)
             /\ Internal(s', Tree) = {} => Say(s', hist')

Next == Shell \/ Does
Spec == Init /\ [][Next]_vars

(* processes that are gone do not matter, nor does what was written before;
   while the shell has something to do it matters how it came to that        *)
View == IF Pace = "racing" \/ ~Settled THEN <<s, hist>>
        ELSE <<[s EXCEPT !.out = <<>>,
                         !.procs = [i \in 1..Len(@) |-> IF @[i].st = "dead" /\ @[i].note = N THEN [@[i] EXCEPT !.kn = N] ELSE @[i]]]>>

---------------------------------------------------------------------------
Procs(t, id) == {Job(t, id).ps[k] : k \in 1..Len(Job(t, id).ps)}
(* the table: ids are positive, grow, and a process belongs to one job       *)
TableOK == /\ \A i \in 1..Len(s.jobs) : s.jobs[i].id >= 1
           /\ \A i \in 1..Len(s.jobs) - 1 : s.jobs[i].id < s.jobs[i + 1].id
           /\ \A i \in 1..Len(s.jobs) : \A k \in Procs(s, s.jobs[i].id) : s.procs[k].job = s.jobs[i].id

(* C17: when the shell takes the next command, no process of a job that it
   has waited for is running: each has ended, or the job has been stopped    *)
Waits == [][s.pc = "wait" /\ s'.pc \notin {"wait", "end"} =>
             \A k \in Procs(s, s.fg) : s.procs[k].kn # N]_vars
(* C17, C20: and its status is the one of the last process, or of the stop   *)
Status == [][s.pc = "wait" /\ s'.pc = "busy" =>
             LET j == Job(s, s.fg)
                 st == {k \in Procs(s, s.fg) : s.procs[k].kn.k = "T"}
             IN  s'.stat = IF st = {} THEN Code(s.procs[j.ps[Len(j.ps)]].kn) ELSE Code(s.procs[CHOOSE k \in st : \A m \in st : m <= k].kn)]_vars
(* C19: a job stays in the table until all its processes have ended          *)
Stays == [][\A id \in Ids(s) : (\E k \in Procs(s, id) : s.procs[k].st # "dead") => (s'.pc = "end" \/ id \in Ids(s'))]_vars
(* C19: an id that is in use is not given to another job *)
Fresh == [][\A id \in Ids(s) \cap Ids(s') : (\E k \in Procs(s, id) : s.procs[k].st # "dead") => Job(s', id).ps = Job(s, id).ps]_vars
(* C23: nothing that has ended is left unnoted by a shell that runs commands *)
NoZombies == (s.pc = "wait" /\ Settled) => Notes(s) = {}
(* C21: the shell is not ended by what the keyboard sends *)
SurvivesI == [][(s.mode = "i" /\ s.pc # "end" /\ s'.pc = "end") => (s.eof \/ s.todo # <<>>)]_vars
===========================================================================
