"""Runs sessions in rsh, in scratch directories and as unprivileged users."""
import ctypes, fcntl, json, multiprocessing, os, random, re, resource, select, shutil, signal, stat, subprocess, tempfile, termios, time
from . import build, norm

WORLD = json.load(open(os.path.join(build.VERIF, "spec/world.json")))
TIMEOUT = 20
ASKS, TAKEN = b"\x1b[?2004h", b"\x1b[?2004l"         # the line editor starts, and ends
QUIET = 0.06
PASTE = b"\x1b[200~%s\x1b[201~"
KEYS = {"<enter>": b"\r", "<drop>": b"\x03", "<eof>": b"\x04", "<up>": b"\x1b[A", "<down>": b"\x1b[B", "<right>": b"\x1b[C",
        "<left>": b"\x1b[D", "<home>": b"\x01", "<end>": b"\x05", "<back>": b"\x7f", "<kill>": b"\x0b", "<wipe>": b"\x15",
        "<prev>": b"\x10", "<next>": b"\x0e", "<first>": b"\x1b<", "<last>": b"\x1b>", "<del>": b"\x1b[3~", "<tab>": b"\t"}
TOKEN = re.compile(r"\x1b\[([?0-9;]*)([A-Za-z])|\x1b\(B|\x1b.?|[\x00-\x1f]|[^\x00-\x1f]+")
PROMPT = re.compile(rb"\x1b\[\?2004h\r\x1b\[K([^\x1b\r]*)")
_w = None


def screen(stream):
    """the rows of the terminal after what has been sent to it, for what the menu of completion sends"""
    rows, r, c = [[" "] * 240 for _ in range(24)], 0, 0
    for m in TOKEN.finditer(stream.decode(errors="replace")):
        if m.group(2) == "H":
            r, c = (int(x or 1) - 1 for x in (m.group(1) + ";").split(";")[:2])
        elif m.group(2) == "J":
            rows = [[" "] * 240 for _ in range(24)]
        elif m.group(0)[0] >= " " and r < 24:
            for ch in m.group(0):
                if c < 240:
                    rows[r][c] = ch
                c += 1
    return ["".join(x) for x in rows]


def users(scratch):
    """the first of 16 users that nothing else runs as: other checks may run at the same time"""
    r = random.Random(scratch)
    with open("/proc/self/uid_map") as fh:
        if any(int(l.split()[0]) == 0 and int(l.split()[2]) > 1 << 31 for l in fh):
            return 1000000 + 16 * r.randrange(120000000)
    return 61000 + 16 * r.randrange(250)


class Worker:
    def __init__(self, scratch, n):
        self.dir = os.path.join(scratch, "w%d" % n)
        self.root = os.path.join(self.dir, "R")
        self.rsh = os.path.join(scratch, "rsh")
        self.kit = os.path.join(self.dir, "kit")
        self.uid = uid = users(scratch) + n
        os.mkdir(self.dir)
        shutil.copyfile(os.path.join(scratch, "kit"), self.kit)
        os.chmod(self.kit, 0o555)
        os.chown(self.dir, uid, uid)
        os.chown(self.kit, uid, uid)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_NPROC, (300, 300))
        resource.setrlimit(resource.RLIMIT_NOFILE, (1024, 1024))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # orphans come to this process
        os.setgroups([])
        os.setresgid(uid, uid, uid)
        os.setresuid(uid, uid, uid)
        os.umask(0o022)
        # whatever this was started with (a shell ignores SIGINT for what it runs with &)
        for n in signal.valid_signals() - {signal.SIGKILL, signal.SIGSTOP, signal.SIGPIPE, signal.SIGXFSZ}:
            try:
                signal.signal(n, signal.SIG_DFL)
            except (OSError, ValueError):
                pass
        signal.pthread_sigmask(signal.SIG_SETMASK, [])
        os.chdir(self.dir)
        self.terminals = self.has_terminals()

    @staticmethod
    def has_terminals():
        """whether there are pseudo-terminals here (else what is typed at one is given through a pipe)"""
        try:
            here, there = os.openpty()

            def control():
                fcntl.ioctl(there, termios.TIOCSCTTY, 0)
            r = subprocess.run(["/bin/sh", "-c", ": </dev/tty >/dev/tty"], start_new_session=True, preexec_fn=control,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.close(here)
            os.close(there)
            return r.returncode == 0
        except (OSError, subprocess.SubprocessError):
            return False

    def map(self, x):
        """/R in the session's text is the scratch root, %FF% a byte that is not UTF-8, and a form feed a blank of two bytes"""
        return x.replace("/R/", self.root + "/").replace("%FF%", "\udcff").replace("\f", "\u00a0") if isinstance(x, str) else x

    def mapend(self, x):
        x = self.map(x)
        return self.root if x == "/R" else x

    def populate(self, fs):
        self.given = {}

        def entries(m):
            return sorted(m.items())
        allfs = dict(WORLD["fs"])
        allfs.update(fs)
        links = []
        for p, e in entries(allfs):
            q = self.mapend(p)
            if e["k"] == "d":
                os.makedirs(q, exist_ok=True)
            elif e["k"] == "l":
                links.append((q, self.mapend(e["x"])))
            elif e["x"]:
                os.link(self.kit, q)
            else:
                text = "".join(self.map(l[0]) + "\n" for l in e["c"])
                self.given[q] = (text, e["c"])
                with open(q, "w", errors="surrogateescape") as fh:
                    fh.write(text)
        for q, t in links:
            os.symlink(t, q)

    def collect(self):
        out, kept = {}, []
        for d, dirs, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                if f == "history.txt":
                    kept.append(p)
                st = os.lstat(p)
                if not stat.S_ISREG(st.st_mode) or f in ("history.txt", "script.rsh") or st.st_nlink > 1:
                    continue
                with open(p, errors="surrogateescape") as fh:
                    text = fh.read()
                old, c = self.given.get(p, ("", []))
                if not text.startswith(old):
                    old, c = "", []
                out[p.replace(self.root, "/R").replace("\u00a0", "\f")] = c + norm.lines(text[len(old):], self.root)
        if len(kept) > 1:               # the lines are saved once, where the shell ends
            out["history.txt"] = [[str(len(kept))]]
        return out

    def killall(self, wait):
        """waits for the processes of this user to end, or ends them; whether some had to be"""
        end = time.time() + wait
        while self.others():
            if time.time() > end:
                break
            time.sleep(0.002)
        else:
            return False
        for _ in range(400):
            for p in self.others():
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            if not self.others():
                break
            time.sleep(0.005)
        return True

    def others(self):
        """the processes of this user, apart from this one"""
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        r = []
        for d in os.listdir("/proc"):
            if d.isdigit() and int(d) != os.getpid():
                try:
                    if os.stat("/proc/" + d).st_uid == self.uid:
                        r.append(int(d))
                except OSError:
                    pass
        return r

    def once(self, s):
        shutil.rmtree(self.root, ignore_errors=True)
        for f in os.listdir(self.dir):
            if f.startswith("fds."):
                os.unlink(os.path.join(self.dir, f))
        self.populate(s.get("fs", {}))
        env = {k: ":".join(self.mapend(x) for x in v.split(":")) for k, v in s.get("env", WORLD["env"]).items()}
        mode = s["mode"]
        args = [self.rsh]
        inp = ""
        if mode == "i":
            inp = "".join(self.map(l) + "\n" for l in s["lines"])
        elif mode == "c":
            args += ["-c"] + [self.map(l) for l in s["lines"]]
        else:
            p = os.path.join(self.root, "script.rsh")
            with open(p, "w", errors="surrogateescape") as fh:
                fh.write("".join(self.map(l) + "\n" for l in s["lines"]))
            args += [p] + [a.replace("%FF%", "\udcff").replace("\f", "\u00a0") for a in s.get("args", [])]
        names = [os.path.join(self.dir, x) for x in ("stdin", "stdout", "stderr")]
        with open(names[0], "w", errors="surrogateescape") as fh:
            fh.write(inp)
        room = s.get("room", 99)          # besides rsh and this process

        def limit():
            resource.setrlimit(resource.RLIMIT_NPROC, (2 + room, 2 + room))
        if room == 99:
            limit = None
        hang = False
        tty = s.get("tty", False) and self.terminals
        if tty:
            return self.typed(s, args, env)
        if mode == "i":
            rd, wr = os.pipe()
            os.write(wr, inp.encode(errors="surrogateescape")[:65536])
            os.close(wr)
            fin = os.fdopen(rd)
        else:
            fin = open("/dev/null")
        with fin, open(names[1], "w") as fo, open(names[2], "w") as fe:
            p = subprocess.Popen(args, stdin=fin, stdout=fo, stderr=fe, env=env,
                                 cwd=self.mapend(s.get("cwd", WORLD["cwd"])), start_new_session=True, preexec_fn=limit)
            try:
                code = p.wait(s.get("timeout", TIMEOUT))
            except subprocess.TimeoutExpired:
                hang = True
                p.kill()
                p.wait()
                self.killall(0)
                code = 999
        return self.observed(s, names, code, hang)

    def typed(self, s, args, env):
        """the lines are typed at a terminal, each when the shell asks for one"""
        names = [os.path.join(self.dir, x) for x in ("stdin", "stdout", "stderr")]
        here, there = os.openpty()
        fcntl.ioctl(there, termios.TIOCSWINSZ, b"\x18\0\xf0\0\0\0\0\0")
        rd, wr = os.pipe()
        os.close(wr)

        def control():
            fcntl.ioctl(there, termios.TIOCSCTTY, 0)
        with os.fdopen(rd) as fin, open(names[1], "w") as fo, open(names[2], "w") as fe:
            p = subprocess.Popen(args, stdin=fin, stdout=fo, stderr=fe, env=env, pass_fds=(),
                                 cwd=self.mapend(s.get("cwd", WORLD["cwd"])), start_new_session=True, preexec_fn=control)
        end = time.time() + s.get("timeout", TIMEOUT)

        def text(l):
            return self.map(l).encode(errors="surrogateescape")
        if "groups" in s:               # keys, for each time that the shell asks for a line
            todo = [self.chunks(g, text) for g in s["groups"]]
        else:
            todo = [[PASTE % text(l) + b"\r"] for l in s["lines"]] + [[b"\x03"], [b"\x04"]]
        seen, hang, asks, stream, last, still = b"", False, False, b"", 0, 0
        sizes, offers = list(s.get("offers", [])), []

        def give(chunks):
            nonlocal stream
            for c in chunks:
                if isinstance(c, bytes):
                    os.write(here, c)
                else:
                    names, got = self.menu(here, c, len(sizes.pop(0)) if sizes else 1)
                    offers.append(names)
                    stream += got
        while True:
            if select.select([here], [], [], QUIET)[0]:
                try:
                    x = os.read(here, 65536)
                except OSError:
                    x = b""
                if not x:
                    break
                still = 0
                seen = seen + x
                stream += x
                i, j = seen.rfind(ASKS), seen.rfind(TAKEN)
                if max(i, j) < 0:
                    seen = seen[-len(ASKS):]
                    continue
                if there is not None:
                    os.close(there)     # from now on the shell has it open as long as it runs
                    there = None
                seen, asks = b"", i > j
                if asks and todo:
                    give(todo.pop(0))
                    last = time.time()
            elif asks and todo and still < 2:
                still = still + 1 if self.asleep(p.pid) else 0
            elif asks and todo and ("groups" not in s or time.time() > last + 1):      # a line that is not complete
                give(todo.pop(0))
                last, still = time.time(), 0
            elif p.poll() is not None:
                break
            if time.time() > end:
                hang = True
                break
        try:
            code = p.wait(max(0.1, end - time.time()) if not hang else 0.01)
        except subprocess.TimeoutExpired:
            hang = True
            p.kill()
            p.wait()
            self.killall(0)
            code = 999
        for fd in (here, there):
            if fd is not None:
                os.close(fd)
        o = self.observed(s, names, code, hang)
        if "groups" in s:
            o["prompts"] = [x.decode(errors="replace").replace(self.root, "/R").replace("\u00a0", "\f") for x in PROMPT.findall(stream)]
            o["kept"] = self.kept()
            o["offers"] = offers
        return o

    @staticmethod
    def asleep(pid):
        """whether the shell waits for something (it has taken all that it was given)"""
        try:
            with open("/proc/%d/stat" % pid) as fh:
                return fh.read().rpartition(")")[2].split()[0] in "SZ"
        except OSError:
            return True

    @staticmethod
    def chunks(keys, text):
        """what to send; a choice in a menu (its number, or 0 to leave it) comes after the TAB that opens it"""
        r = [b""]
        for k in keys:
            if k.startswith("<pick") or k == "<leave>":
                r[-1] += b"\t"
                r += [int(k[5:-1]) if k != "<leave>" else 0, b""]
            else:
                r[-1] += KEYS.get(k) or (PASTE % text(k) if min(k) < " " else text(k))
        return [c for c in r if c != b""]

    @staticmethod
    def menu(here, k, n):
        """chooses the k-th of the n in the menu that opens, or leaves it, when it shows them; what it shows"""
        got = b""

        def until(done):
            nonlocal got
            end = time.time() + 3
            while not done() and time.time() < end:
                if select.select([here], [], [], 0.05)[0]:
                    try:
                        got += os.read(here, 65536)
                    except OSError:
                        return False
            return done()
        if not until(lambda: b"\x1b[6n" in got):
            return None, got
        os.write(here, b"\x1b[1;1R")
        until(lambda: (lambda rows: re.match(r"  %d/%d " % (n, n), rows[1]) and rows[2][0] == ">")(screen(got)))
        names = [x[2:].strip() for x in screen(got)[2:] if x.strip()]
        for i in range(1, k):
            os.write(here, b"\x1b[B")
            until(lambda: screen(got)[2 + i][0] == ">")
        os.write(here, b"\r" if k else b"\x07")
        until(lambda: b"\x1b[K" in got.partition(b"\x1b[?1049l")[2])
        return names, got

    def kept(self):
        """the lines that have been saved, and where"""
        r = {"dir": "", "lines": []}
        for d, dirs, files in os.walk(self.root):
            if "history.txt" in files:
                with open(os.path.join(d, "history.txt"), errors="replace") as fh:
                    ls = fh.read().split("\n")
                r["dir"] += d.replace(self.root, "/R")
                r["lines"] += [re.sub(r"\\(.)", lambda m: {"n": "\n"}.get(m.group(1), m.group(1)), l).replace(self.root, "/R").replace("\u00a0", "\f") for l in ls[1:-1]]
        return r

    def observed(self, s, names, code, hang):
        left = self.killall(s.get("linger", 3))
        with open(names[1], errors="surrogateescape") as fo, open(names[2], errors="surrogateescape") as fe:
            raw_out, raw_err = fo.read(), fe.read()
        if s.get("tty"):        # history.txt is put into the directory where the shell ends
            raw_err = raw_err.replace("Could not save history.\n", "")
        o = {"out": norm.lines(raw_out, self.root), "err": norm.lines(raw_err, self.root),
             "code": code, "files": self.collect(), "hang": hang, "left": left}
        o["panic"] = "panicked at" in raw_err or "panicked at" in raw_out
        if s.get("raw"):
            o["raw"] = [raw_out.replace(self.root, "/R"), raw_err.replace(self.root, "/R")]
        return o

    def run(self, s):
        t = time.time()
        o = self.once(s)
        o["t"] = time.time() - t
        if o["hang"]:
            o = self.once(s)
        return o


def _init(scratch, counter):
    global _w
    with counter.get_lock():
        n = counter.value
        counter.value += 1
    _w = Worker(scratch, n)


def _job(s):
    try:
        if "h" in s:
            from . import jobs
            return (jobs.racing if "outs" in s else jobs.settled)(_w, s)
        return _w.run(s)
    except Exception as e:
        return {"tool_error": repr(e)}


class Runner:
    """a pool of scratch roots, as a context manager"""
    def __init__(self, jobs=8):
        self.jobs = jobs

    def __enter__(self):
        rsh, kit = build.build()
        self.scratch = tempfile.mkdtemp(prefix="rshv.", dir="/tmp")
        os.chmod(self.scratch, 0o755)
        for a, b in ((rsh, "rsh"), (kit, "kit")):
            shutil.copyfile(a, os.path.join(self.scratch, b))
            os.chmod(os.path.join(self.scratch, b), 0o755)
        ctx = multiprocessing.get_context("fork")
        self.pool = ctx.Pool(self.jobs, _init, (self.scratch, ctx.Value("i", 0)))
        return self

    def run(self, sessions):
        obs = self.pool.map(_job, sessions, chunksize=max(1, min(20, len(sessions) // (self.jobs * 4) or 1)))
        for o in obs:
            if "tool_error" in o:
                raise build.ToolError(o["tool_error"])
        return obs

    def __exit__(self, *a):
        self.pool.terminate()
        self.pool.join()
        shutil.rmtree(self.scratch, ignore_errors=True)
