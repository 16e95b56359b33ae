"""Replays histories of spec/Jobs.tla in rsh: does what the environment does in
them, and compares what can be seen with what the specification predicts."""
import fcntl, os, re, signal, socket, struct, subprocess, termios, time
from . import run

STABLE = 1.2        # how long nothing moves before it is taken that nothing will
LIMIT = 15.0

PROC = re.compile(r"^(\[\d+\]) \((\d+)\) (.*)$")
JOB = re.compile(r"^(Job \[\d+\]) \((\d+)\) (terminated|stopped) by signal$")
NUMBERED = re.compile(r"^\[\d+\] ")


START = {"out": [], "pc": "idle", "code": 0, "procs": []}


class Mismatch(Exception):
    pass


def stat_of(pid):
    """state, parent and group of a process, None if it is gone"""
    try:
        with open("/proc/%d/stat" % pid) as fh:
            x = fh.read()
    except OSError:
        return None
    x = x[x.rindex(")") + 2:].split()
    return x[0], int(x[1]), int(x[2])


def moves_of(pid):
    """a number that changes when the process runs"""
    try:
        with open("/proc/%d/status" % pid) as fh:
            return "".join(l for l in fh if "ctxt_switches" in l or l.startswith("State"))
    except OSError:
        return ""


def masks_of(pid):
    with open("/proc/%d/status" % pid) as fh:
        d = dict(l.split(":\t", 1) for l in fh if l.startswith(("SigBlk", "SigIgn", "SigCgt")))
    return {k: int(v, 16) for k, v in d.items()}


def fds_of(pid):
    out = {}
    try:
        names = os.listdir("/proc/%d/fd" % pid)
    except OSError:
        return out
    for f in names:
        try:
            out[int(f)] = os.readlink("/proc/%d/fd/%s" % (pid, f))
        except OSError:
            pass
    return out


class Live:
    """one session under the control of the driver"""
    def __init__(self, w, mode, lines, tty=""):
        self.w, self.mode, self.tty = w, mode, tty
        self.sockpath = os.path.join(w.dir, "sock")
        if os.path.exists(self.sockpath):
            os.unlink(self.sockpath)
        self.server = socket.socket(socket.AF_UNIX)
        self.server.bind(self.sockpath)
        self.server.listen(64)
        self.server.setblocking(False)
        self.conns = {}         # name -> (socket, pid)
        self.names = {}         # pid -> name
        self.count = {}
        self.half = []
        self.outpath = os.path.join(w.dir, "live")
        self.out = open(self.outpath, "w+b", 0)
        ofd = os.open(self.outpath, os.O_WRONLY | os.O_APPEND)
        args = [w.rsh]
        self.wr = None
        if mode == "i":
            rd, self.wr = os.pipe()
            os.set_inheritable(self.wr, False)
        else:
            rd = os.open("/dev/null", os.O_RDONLY)
            if mode == "c":
                args += ["-c", " ; ".join(lines)]
            else:
                p = os.path.join(w.root, "script.rsh")
                with open(p, "w") as fh:
                    fh.write("".join(l + "\n" for l in lines))
                args += [p]
        self.p = subprocess.Popen(args, stdin=rd, stdout=ofd, stderr=ofd, process_group=None if tty else 0, cwd=w.mapend(run.WORLD["cwd"]),
                                  preexec_fn=self.terminal() if tty else None,
                                  env={k: ":".join(w.mapend(x) for x in v.split(":")) for k, v in run.WORLD["env"].items()})
        os.close(rd)
        os.close(ofd)
        self.base = None

    def terminal(self):
        """what makes a process the foreground process of a new terminal, as a shell does with what it starts,
        or its leader, as the terminal itself does"""
        if self.tty == "job" and not getattr(self.w, "leader", False):
            os.setsid()
            signal.signal(signal.SIGHUP, lambda *a: None)
            signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGTTOU])
            self.w.leader = True
        self.here, there = os.openpty()
        self.there = there
        os.set_blocking(self.here, False)
        fcntl.ioctl(there, termios.TIOCSWINSZ, b"\x18\0\xf0\0\0\0\0\0")

        def lead():
            os.setsid()
            fcntl.ioctl(there, termios.TIOCSCTTY, 0)
            signal.pthread_sigmask(signal.SIG_SETMASK, [])
        if self.tty == "leader":
            return lead
        fcntl.ioctl(there, termios.TIOCSCTTY, 0)

        def control():
            os.setpgid(0, 0)
            os.tcsetpgrp(there, os.getpid())
            signal.pthread_sigmask(signal.SIG_SETMASK, [])
        return control

    # ------------------------------------------------------------------
    def accept(self):
        while self.tty:         # what the terminal shows
            try:
                if not os.read(self.here, 65536):
                    break
            except OSError:
                break
        while True:
            try:
                c, _ = self.server.accept()
            except BlockingIOError:
                break
            self.half.append(c)
        for c in list(self.half):
            c.settimeout(5)
            x = b""
            while not x.endswith(b"\n"):
                k = c.recv(64)
                if not k:
                    break
                x += k
            self.half.remove(c)
            pid = struct.unpack("3i", c.getsockopt(socket.SOL_SOCKET, socket.SO_PEERCRED, 12))[0]
            x = x.decode().strip()
            self.count[x] = self.count.get(x, 0) + 1
            name = x + str(self.count[x])
            self.conns[name] = (c, pid)
            self.names[pid] = name

    def lines(self):
        self.out.seek(0)
        text = self.out.read().decode("utf8", "replace").replace(self.w.root, "/R")
        ls = text.split("\n")
        self.partial = ls.pop()
        r = []
        for l in ls:
            m = PROC.match(l)
            j = JOB.match(l)
            if m:
                l = "%s (%s) %s" % (m.group(1), self.names.get(int(m.group(2)), "_"), m.group(3))
            elif j:
                l = "%s (%s) %s by signal" % (j.group(1), self.names.get(int(j.group(2)), "_"), j.group(3))
            elif not (l == "" or l.startswith(">") or NUMBERED.match(l)):
                l = "!"
            r.append(l)
        return r

    def others(self):
        """the processes of this user apart from the driver and the shell, by pid"""
        r = {}
        for d in os.listdir("/proc"):
            if d.isdigit() and int(d) not in (os.getpid(), self.p.pid):
                try:
                    if os.stat("/proc/" + d).st_uid != self.w.uid:
                        continue
                except OSError:
                    continue
                x = stat_of(int(d))
                if x:
                    r[int(d)] = x
        return r

    def poll(self):
        """the exit code of the shell, None if it has not ended; takes the orphans too"""
        if self.p.returncode is not None:
            try:
                while os.waitpid(-1, os.WNOHANG)[0]:
                    pass
            except ChildProcessError:
                pass
        return self.p.poll()

    def compare(self, o):
        """what differs from the prediction now, "" if nothing does; and whether it can still change"""
        self.accept()
        code = self.poll()
        got = self.lines()
        want = list(o["out"])
        if self.tty:
            got, want = [l for l in got if l], [l for l in want if l]
        if self.partial:
            return "part of a line: %r" % self.partial
        left = list(want)
        for l in got:
            if l not in left:
                return "output %r" % got
            left.remove(l)
        if left:
            return "output %r" % got
        if (o["pc"] == "end") != (code is not None):
            return "the shell has ended" if code is not None else "the shell has not ended"
        if code is not None and code != o["code"]:
            return "exit status %d" % code
        if self.tty and code is not None:       # what is left of the job gets SIGHUP
            return ""
        oth = self.others()
        kinds = []
        want_kinds = []
        for p in o["procs"]:
            if p["kind"] != "jb":
                if p["st"] != "gone":
                    want_kinds.append(p["st"])
                continue
            if p["nm"] not in self.conns:
                return "%s has not been started" % p["nm"]
            x = oth.pop(self.conns[p["nm"]][1], None)
            st = "gone" if x is None else {"T": "stop", "Z": "dead"}.get(x[0], "run")
            if st != p["st"]:
                return "%s: %s" % (p["nm"], st)
            if x and st != "dead" and (x[2] != self.p.pid) != p["own"]:
                return "%s: its process group" % p["nm"]
        for pid, x in oth.items():
            kinds.append({"T": "stop", "Z": "dead"}.get(x[0], "run"))
        if sorted(kinds) != sorted(want_kinds):
            return "other processes: %r" % sorted(kinds)
        if len(self.conns) > sum(1 for p in o["procs"] if p["kind"] == "jb"):
            return "started: %s" % sorted(self.conns)
        return ""

    def connections(self, o):
        """what the processes are connected to, once nothing moves"""
        if o["pc"] == "end":
            return ""
        mine = fds_of(self.p.pid)
        if self.base is None:
            self.base = mine
        if mine != self.base:
            return "the descriptors of the shell: %r, at first %r" % (mine, self.base)
        inputs, outputs = {}, {}
        for p in o["procs"]:
            if p["kind"] != "jb" or p["st"] not in ("run", "stop"):
                continue
            pid = self.conns[p["nm"]][1]
            f = fds_of(pid)
            socks = [k for k in f if f[k].startswith("socket:")]
            if len(socks) != 1 or set(f) - set(socks) != {0, 1, 2}:
                return "the descriptors of %s: %r" % (p["nm"], f)
            if f[2] != mine.get(2):
                return "the error output of %s: %s" % (p["nm"], f[2])
            if (f[0] != mine.get(0)) != p["piped"] or (f[1] != mine.get(1)) != p["pipes"]:
                return "the input and output of %s: %r" % (p["nm"], f)
            if p["piped"]:
                inputs[p["nm"]] = f[0]
            if p["pipes"]:
                outputs[p["nm"]] = f[1]
            m = masks_of(pid)
            if any(m.values()):
                return "the signals of %s: %r" % (p["nm"], m)
        byname = {p["nm"]: p for p in o["procs"]}
        for n, x in inputs.items():
            q = byname[n]["prev"]
            if q in outputs and outputs[q] != x:
                return "%s does not read what %s writes" % (n, q)
        ends = list(inputs.values()) + [x for n, x in outputs.items() if byname[n]["next"] not in inputs]
        if len(set(ends)) != len(ends):
            return "a pipe is shared: %r %r" % (inputs, outputs)
        return ""

    def moves(self):
        ps = [self.p.pid] + list(self.others())
        return [(p, moves_of(p)) for p in ps]

    def settle(self, os_):
        """waits until one of what is predicted is what can be seen and nothing moves; which it was"""
        t0 = time.time()
        since, last, nap = t0, None, 0.0003
        while True:
            ds = [self.compare(o) for o in os_]
            m = self.moves()
            still = m == last and not any("State:\tR" in x or "State:\tD" in x for _, x in m)
            if not still:
                since = time.time()
            last = m
            if "" in ds and still:
                o = os_[ds.index("")]
                d = self.connections(o)
                if not d:
                    return o
                ds = [d]
            if time.time() - since > STABLE or time.time() - t0 > LIMIT:
                raise Mismatch("; ".join(x for x in ds if x) or "it does not come to rest")
            time.sleep(nap)
            nap = min(nap * 1.3, 0.02)

    # ------------------------------------------------------------------
    def text(self, l):
        return re.sub(r"@(\w+)", lambda m: str(self.conns[m.group(1)][1]) if m.group(1) in self.conns else m.group(0), l)

    def act(self, e):
        a, x, n = e["a"], e["x"], e["n"]
        if self.tty and a in ("line", "eof", "int", "tstp"):
            os.write(self.here, {"line": (self.text(x) + "\r").encode(), "eof": b"\x04", "int": b"\x03", "tstp": b"\x1a"}[a])
        elif a == "line":
            os.write(self.wr, (self.text(x) + "\n").encode())
        elif a == "eof":
            os.close(self.wr)
            self.wr = None
        elif a == "exit":
            self.conns[x][0].send(bytes([n]))
        elif a == "sig":
            os.kill(self.conns[x][1], n)
        else:
            os.killpg(self.p.pid, {"int": signal.SIGINT, "tstp": signal.SIGTSTP}[a])

    def ready(self, e):
        """waits until the process that an action is about has been started"""
        t = time.time()
        while e["a"] in ("exit", "sig") and e["x"] not in self.conns:
            if time.time() - t > LIMIT:
                raise Mismatch("%s has not been started" % e["x"])
            time.sleep(0.0005)
            self.accept()

    def taken(self, e):
        """waits until a process has done what it was told (the shell is not waited for)"""
        t = time.time()
        while e["a"] == "exit" or (e["a"] == "sig" and e["n"] != 18):
            x = stat_of(self.conns[e["x"]][1])
            if x is None or x[0] == ("T" if e["n"] in (19, 20) and e["a"] == "sig" else "Z"):
                break
            if time.time() - t > LIMIT:
                raise Mismatch("%s goes on" % e["x"])

    def probe(self, o):
        """whether the shell takes a line"""
        if self.mode != "i" or o["pc"] == "end" or self.wr is None:
            return
        self.act({"a": "line", "x": "pr probe", "n": 0})
        t0 = time.time()
        if o["pc"] == "idle":
            while ">[probe]" not in self.lines():
                if time.time() - t0 > LIMIT:
                    raise Mismatch("the shell does not take a line")
                time.sleep(0.0005)
        else:
            time.sleep(0.004)
            if ">[probe]" in self.lines():
                raise Mismatch("the shell takes a line while it has to wait")

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.w.killall(0)
        if self.tty:
            os.close(self.here)
            os.close(self.there)
        if self.wr is not None:
            os.close(self.wr)
        for c, _ in self.conns.values():
            c.close()
        for c in self.half:
            c.close()
        self.server.close()
        self.out.close()
        os.unlink(self.sockpath)


def prepare(w):
    if not getattr(w, "live", False):
        w.populate({})
        os.link(w.kit, os.path.join(w.root, "bin/jb"))
        w.live = True


def settled(w, s):
    """{"ok": whether it went as predicted, ...}; s has mode, lines, h and what can be seen after every step"""
    prepare(w)
    v = Live(w, s["mode"], s.get("lines", []), s.get("tty", "") if w.terminals else "")
    k = -1
    so_far = []
    try:
        for l in s["prelude"]:
            v.act({"a": "line", "x": l, "n": 0})
        if s["mode"] == "i":
            o = v.settle([START])
        for k, e in enumerate(s["h"]):
            if e["a"] != "script":
                v.act(e)
            o = v.settle([dict(o, out=so_far + o["out"]) for o in s["o"][k]])
            if not s.get("total"):
                so_far = o["out"]
        k = len(s["h"])
        v.probe(o)
        return {"ok": True}
    except Mismatch as e:
        return {"ok": False, "step": k, "why": str(e), "out": v.lines()}
    finally:
        v.close()


def racing(w, s):
    """does what is in s["h"] without waiting; s["outs"] are the outcomes there can be"""
    prepare(w)
    v = Live(w, s["mode"], s.get("lines", []))
    try:
        for l in s["prelude"]:
            v.act({"a": "line", "x": l, "n": 0})
        for e in s["h"]:
            v.ready(e)
            v.act(e)
            v.taken(e)
            if e.get("nap"):
                time.sleep(e["nap"] / 1e6)
        t0 = time.time()
        nap, why, last, since = 0.0005, [], None, t0
        while True:
            why = []
            for o in s["outs"]:
                d = v.compare(o)
                if not d:
                    d = v.connections(o)
                if not d:
                    return {"ok": True}
                why.append(d)
            m = v.moves()
            if m != last or any("State:\tR" in x or "State:\tD" in x for _, x in m):
                since = time.time()
            last = m
            if time.time() - since > STABLE or time.time() - t0 > LIMIT:
                raise Mismatch("; ".join(why[:4]))
            time.sleep(nap)
            nap = min(nap * 1.3, 0.02)
    except Mismatch as e:
        return {"ok": False, "why": str(e), "out": v.lines()}
    finally:
        v.close()


def at_terminal(ss, tty="job"):
    """those of the histories that can be typed at a terminal: it forgets lines that have not been read when
    a key for a signal is pressed, the key for the end means nothing before the shell asks for a line, and
    the other keys are no signals then"""
    def can(s):
        ahead = False
        for k, e in enumerate(s["h"]):
            idle = all(o["pc"] == "idle" for o in s["o"][k - 1]) if k else True
            there = idle and k and any(p["st"] in ("run", "stop") and not p["own"] for o in s["o"][k - 1] for p in o["procs"])
            if (e["a"] == "eof" and not idle) or (e["a"] in ("int", "tstp") and (ahead or there)):
                return False
            ahead = ahead or (e["a"] == "line" and not idle)
        return True
    return [dict(s, tty=tty) for s in ss if s["mode"] == "i" and "o" in s and can(s)]


def as_leader(ss, limit):
    """some that can be typed at a terminal whose leader is the shell: one in which the foreground job is to
    be stopped with the key, and others without that (it does not work, see known_findings.txt)"""
    if not limit:
        return []
    ss = at_terminal(ss, "leader")
    one = [s for s in ss if [(e["a"], e["x"]) for e in s["h"][:2]] == [("line", "jb a"), ("tstp", "")]][:1]
    for s in one:
        s["h"], s["o"] = s["h"][:2], s["o"][:2]
    return one + [s for s in ss if not any(e["a"] == "tstp" and any(o["pc"] != "idle" for o in s["o"][k - 1]) for k, e in enumerate(s["h"]) if k)][:limit]


# ----------------------------------------------------------------------
# the histories that a module with JobsRun prints
def histories(said, pace):
    """the longest ones, with what is predicted after every action, or at the end if pace is racing"""
    import json, random
    setup = [x for x in said if "prelude" in x][0]

    def key(h):
        return json.dumps(h, sort_keys=True)
    pred = {}
    hs = {}
    for x in said:
        if "h" in x:
            k = key(x["h"])
            hs[k] = x["h"]
            x["o"]["out"].sort()
            pred.setdefault(k, [])
            if x["o"] not in pred[k]:
                pred[k].append(x["o"])
    inner = {key(h[:n]) for h in hs.values() for n in range(len(h))}
    out = []
    for k, h in hs.items():
        if pace != "racing" and k in inner:
            continue
        s = {"mode": setup["mode"], "prelude": setup["prelude"] or [] if setup["mode"] == "i" else [], "h": h}
        if setup["mode"] != "i":
            s["lines"] = (setup["prelude"] or []) + h[0]["x"]
        if pace == "racing":
            r = random.Random(k)
            s["h"] = [dict(e, nap=r.choice([0, 0, 50, 200, 800])) for e in h if e["a"] != "script"]
            s["outs"] = pred[k]
        else:
            s["o"] = [pred[key(h[:n + 1])] for n in range(len(h))]
        out.append(s)
    return out


# ----------------------------------------------------------------------
# random histories
PRELUDE = ["k() { jb a ; jb b && pr k ; }", "m() { jb c | ct || pr m ; jobs ; }"]


def random_line(r, weights, used, mode="i"):
    """a line, whose processes have names of their own"""

    def pipeline(n):
        st = []
        for k in range(n):
            last = k == n - 1
            x = r.random()
            if last and st and st[-1].startswith("jb") and x < 0.2:
                st.append("ct")
            elif last and x < 0.3:
                st.append(r.choice(["pr x", "pr y z", "st 0", "st 3"]))
            elif not last and x < 0.08:
                st.append("st " + r.choice("03"))
            else:
                used.append("p%d" % len(used))
                st.append("jb " + used[-1])
        return " | ".join(st)

    def one():
        x = r.random()
        if x < weights["builtin"]:
            return r.choice(["jobs", "fg %1", "fg %2", "fg %3", "bg %1", "bg %2", "bg %3", "fg", "bg", "fg %9", "bg %x", "jobs"]
                            + (["fg @%s1" % r.choice(used[-4:] + ["a"]), "bg @%s1" % r.choice(used[-4:] + ["c"])] if n == 1 and mode == "i" else []))
        if x < weights["builtin"] + weights["fun"]:
            return r.choice("km")
        return pipeline(r.choice([1, 1, 1, 2, 2, 3]))
    if r.random() < 0.02:
        return r.choice([";", "&", "jb a |", "exit", "exit 3", "exit %d" % r.randrange(256)])
    n = r.choice([1, 1, 1, 1, 2, 2, 3])
    out = []
    for k in range(n):
        if out:
            out.append(r.choice([";", "&&", "||", "& ;" if " & ;" not in out and not weights.get("nobg") else ";"]))
        out.append(one())
    s = " ".join(out)
    if r.random() < weights["bg"]:
        s += " &"
    # a builtin or a function in the background is another matter
    return s if not re.search(r"(jobs|[fb]g|[fb]g [%@]\w+|\b[km]) &( |$)", s) else re.sub(r" &(?= ;|$)", "", s)


def random_history(seed, profile=None):
    import random
    r = random.Random(seed)
    p = {"builtin": [0.1, 0.25, 0.4], "fun": [0, 0.05], "bg": [0.1, 0.4, 0.7], "line": [4], "exit": [2, 4], "sig": [0.5, 2], "stop": [0, 1.5],
         "int": [0, 0.5], "tstp": [0, 0.7], "interactive": [0.85]}
    p.update(profile or {})
    p = {k: r.choice(v) for k, v in p.items()}
    weights = p
    kinds = {k: p[k] for k in ("line", "exit", "sig", "stop", "int", "tstp")}
    mode = "i" if r.random() < p["interactive"] else r.choice("fc")
    w, used = [], []
    for _ in range(r.choice([6, 10, 16, 24])):
        a = r.choices(list(kinds), list(kinds.values()))[0]
        x = {"a": a, "x": "", "n": 0, "r": r.randrange(1000)}
        if a == "line":
            x["x"] = random_line(r, weights, used)
        elif a == "exit":
            x["n"] = r.choice([0, 0, 1, 3, 255])
        elif a == "sig":
            x["n"] = r.choice([9, 15, 2, 1, 10])
        elif a == "stop":
            x["a"], x["n"] = "sig", r.choice([19, 20, 18])
        w.append(x)
    if mode == "i" and r.random() < 0.5:
        w.append({"a": "eof", "x": "", "n": 0, "r": 0})
        w += [{"a": "exit", "x": "", "n": r.choice([0, 5]), "r": k} for k in range(3)]
    lines = [random_line(r, weights, used, mode) for _ in range(r.choice([1, 2, 3, 4]))] if mode != "i" else []
    if mode == "c":
        lines = [" ; ".join(l for l in lines if l != ";") or "jobs"]
    return {"mode": mode, "lines": lines, "w": w}


def predict(batch):
    """the histories with what is predicted at every step"""
    import json, tempfile
    from . import tlc
    fd, p = tempfile.mkstemp(prefix="rshv.", suffix=".json", dir="/tmp")
    with os.fdopen(fd, "w") as fh:
        json.dump(batch, fh)
    try:
        t = tlc.tlc("JobsBatch", env={"TRACES": p})
    finally:
        os.unlink(p)
    if t["rc"]:
        raise run.build.ToolError("JobsBatch: " + t["text"][-3000:])
    by = {}
    for x in t["said"]:
        by.setdefault(x["i"] - 1, []).append(x)
    out = []
    for i, b in enumerate(batch):
        xs = sorted(by.get(i, []), key=lambda x: x["k"])
        out.append({"mode": b["mode"], "lines": PRELUDE + b["lines"], "prelude": PRELUDE if b["mode"] == "i" else [],
                    "h": [x["e"] for x in xs], "o": [x["o"] for x in xs], "total": True})
    return out, t
