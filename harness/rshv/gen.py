"""Random sessions. A profile gives the weights of what a session has."""
import random

VARS = ["A", "B", "C", "AA", "long_name", "a", "PATH", "HOME"]
FUNS = ["f", "g", "ff"]
ALIASES = ["al", "k", "pr", "ll", "kk", "K"]
NAMESPACES = ["ns", "n", "ns", "nn", "N"]
FILES = ["o1", "o2", "d1/o3", "/R/w/o1", "../home/o4", "d1/d2/o5", "./o2"]
INFILES = ["f1", "f1", "/R/w/f1", "o1", "o2", "d1/o3"]
BADFILES = ["nodir/x", "d1", "f1/x", "/R/nodir/y"]
DIRS = ["d1", "d1/d2", "..", ".", "/R/w", "/R/home", "/R/w/d1", "ld", "d1/..", "nodir", "f1", "/R/w/d1/d2/../..", "./d1", "d1/", "../w"]
PLAIN = ["a", "b", "x-y", "a.b", "a,b", "@", "%", "+1", "-n", "--", "~", "a:b", "12", "0", "/R/w", "d1/d2", "é", "日本", "a\\b", "^", "?", "_", "x/y", "-"]
INNER = ["", " ", "a", "a b", "  a  b  ", "$A", "a;b", "a&b", "a|b", ">x", "<x", "#c", "*", "a=b", "é è", "\\", "$1", "${A}", "a\tb", "&&", "||", "!", "`", "$", "for", "2>1"]
CODES = [0, 0, 0, 1, 1, 2, 3, 7, 42, 127, 128, 200, 255]

DEFAULT = {
    # commands
    "pr": 10, "err": 2, "status": 4, "signal": 0.5, "env": 1, "fd": 1, "sf": 0.3, "wd": 1, "pw": 0.7, "notfound": 0.7, "tag": 1,
    "in": 1.5, "cd": 1.5, "pwd": 1, "export": 1.5, "unset": 1, "readonly": 1, "alias": 1, "unalias": 0.3,
    "eval": 1, "source": 1, "return": 0.4, "exit": 0.2, "assign": 4, "call": 2, "exec": 0.1, "context": 0.3,
    "list": 0.3, "use": 1, "linger": 0.2,
    # shapes
    "p_fdef": 0.12, "p_pipe": 0.15, "p_list": 0.35, "p_redir": 0.15, "p_bang": 0.06, "p_bg": 0.05, "p_prefix": 0.06,
    "p_bad": 0.04, "p_group": 0.02, "p_special": 0.25, "p_odd": 0.1, "p_comment": 0.05, "p_big": 0.02, "p_sf": 0.1, "p_room": 0.0, "p_rc": 0.02, "p_bytes": 0.005, "p_wide": 0.01, "p_multi": 0.08, "p_tty": 0.1, "p_env": 0.08, "p_lib": 0.08, "p_wrong": 0.03,
    "lines": (2, 7), "modes": "iiifc",
}

PROFILES = {}


class Gen:
    def __init__(self, rng, profile=None):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(profile or {})
        self.kinds = [k for k in DEFAULT if isinstance(self.p[k], (int, float)) and not k.startswith("p_")]
        # most sessions have only some kinds of commands and few names, which meet more often
        self.swarm = rng.random() < 0.7
        if self.swarm:
            w = sorted(self.p[k] for k in self.kinds)[-4]
            self.kinds = [k for k in self.kinds if self.p[k] and (self.p[k] >= w and rng.random() < 0.85 or rng.random() < 0.3)] or self.kinds
        self.weights = [self.p[k] for k in self.kinds]
        self.vars = rng.sample(VARS[:6], rng.choice([1, 2, 2, 3])) if self.swarm else VARS[:6]
        self.ns = rng.sample(sorted(set(NAMESPACES)), 2) if self.swarm else NAMESPACES
        if self.swarm and rng.random() < 0.5:
            x = rng.random()
            for k in ("p_fdef", "p_pipe", "p_redir", "p_bg", "p_special", "p_list"):
                if rng.random() < 0.3:
                    self.p[k] = self.p[k] * 0.2
                elif rng.random() < 0.3:
                    self.p[k] = (self.p[k] + 0.5) / 2 if k != "p_bg" or x < 0.3 else self.p[k]
        self.bgn = 0
        self.funs = FUNS        # those that can be called here

    def has(self, p):
        return self.r.random() < self.p[p]

    def fun(self):
        return self.pick(self.funs) if self.funs else "pr"

    def pick(self, xs):
        return self.r.choice(xs)

    # paths ------------------------------------------------------------
    def path(self, last=None):
        """some path, with anything in it"""
        if self.r.random() < 0.04:
            return self.pick(["/", "//", "/.", "/..", "/../.", "/d1"])
        start = self.pick(["", "", "", "", "./", "../w/", "/R/w/", "/R/", "//R/w/", "/R//w/", "/R/w/./", "../../R/w/", "d1/../"])
        comps = [self.pick(["d1", "d2", "..", ".", "w", "home", "ld", "nodir", "f1", "d1", "d2", "..", "b1", "t3"]) for _ in range(self.r.choice([0, 1, 1, 2, 2, 3, 4]))]
        if last:
            comps.append(last)
        p = start + "".join(c + self.pick(["/", "/", "/", "//", "/./"]) for c in comps)
        if self.r.random() < 0.85 or last:
            p = p.rstrip("/.") if comps and comps[-1] not in (".", "..") else p.rstrip("/")
        return p if p and p != "/R" else "."

    # words ------------------------------------------------------------
    def var(self):
        return self.pick(self.vars if self.r.random() < 0.92 else VARS)

    def inner(self, no=""):
        x = self.pick(INNER)
        if self.r.random() < 0.3:
            x += self.pick([" ", ""]) + self.pick(INNER)
        return "".join(c for c in x if c not in no)

    def dq_inner(self):
        # outside of substitutions, a "$" or "`" is literal or starts one
        x = "".join(c for c in self.inner() if c not in '"$`')
        return x

    def simple_text(self):
        """the text of a substitution, without ) ` and quotes"""
        k = self.r.random()
        if k < 0.35:
            t = "pr " + " ".join(self.pick(PLAIN) for _ in range(self.r.randint(0, 2)))
        elif k < 0.5:
            t = "pr $" + self.var()
        elif k < 0.6:
            t = "pwd"
        elif k < 0.68:
            t = self.fun() + " a"
        elif k < 0.76:
            t = "st %d" % self.pick(CODES)
        elif k < 0.84:
            t = "pr x ; pr y"
        elif k < 0.9:
            t = "pr x | rd"
        elif k < 0.94:
            t = "A=sub"
        elif k < 0.97:
            t = "cd d1 ; pwd"
        elif k < 0.98:
            t = "rd < f1"
        else:
            t = "pr s >> " + self.pick(FILES)
        if self.r.random() < 0.15:
            t = self.pick([t + " | rd", "pr s >> %s ; %s" % (self.pick(FILES), t), "fd ; " + t, "fd", "fd | rd", t + " ; fd", "nope ; " + t, "A=sub ; " + t, t + " && pr t", self.fun() + " ; " + t])
        return t

    def word(self, name=False):
        if self.r.random() > self.p["p_special"]:
            return self.pick(PLAIN)
        k = self.r.random()
        if k < 0.2:
            return "'" + self.inner("'") + "'"
        if k < 0.4:
            return '"' + self.dq_inner() + '"'
        if k < 0.62:
            return "$" + self.var()
        if k < 0.7:
            return "$" + self.pick(["1", "2", "3", "0", "UNSET", "9", "10", "12"])
        if k < 0.82:
            pre, post = self.pick(["", "", "a", "a "]), self.pick(["", "", "b", " b"])
            t = self.simple_text()
            t = "$(" + t + ")" if self.r.random() < 0.6 else "`" + t + "`"
            if self.r.random() < 0.1:
                t += self.pick(["", " "]) + t
            return '"' + pre + t + post + '"'
        if k < 0.9:
            return self.var() + "=" + self.value()
        if self.r.random() < 0.3:       # what is not expanded
            return self.pick(["$(pr a)", "$(pr", "`pr a`", "`pr", "$()", "``", "$(pr 'a b')", "x$(pr a)", "`pr a`b", "$(pr a)b", "${A}", "$", "$$", "$A$B", "x$A", "$A.b", "$'a'", "$\"a\"", "$(pr $A)", "A=$(pr a)", "A=`pr a`", "'a'b", "a'b'", '"a"b', '"a"\'b\''])
        return self.pick(["''", '""', "'a b'", '"a b"', "$%s::%s" % (self.pick(self.ns), self.pick(["A", "B", "AA"]))])

    def value(self):
        k = self.r.random()
        if k < 0.4:
            return self.pick(PLAIN)
        if k < 0.55:
            return "'" + self.inner("'") + "'"
        if k < 0.7:
            return '"' + self.dq_inner() + '"'
        if k < 0.85:
            return "$" + self.var()
        if k < 0.95:
            return '"$(' + self.simple_text() + ')"'
        return self.pick(["''", '""'])

    def words(self, lo=0, hi=3):
        return "".join(" " + self.word() for _ in range(self.r.randint(lo, hi)))

    # commands ----------------------------------------------------------
    def command(self, stage=0, bg=False):
        """a simple command; in a stage after the first, one that reads all"""
        if stage > 0:
            return "rd" + self.redirs(out=True) if self.r.random() < 0.8 else self.pick(["fd", "fd", "fd | rd", "ev A", "wd", "t1", "pwd", "cd d1", "A=1", "eval 'fd'", "i1", "i1 | lg o2 x", "lg o1 y", self.fun(), "rd > o1", "pr no", "nope"])
        k = self.r.choices(self.kinds, self.weights)[0]
        c = getattr(self, "c_" + k)()
        if k == "sf" and self.r.random() < 0.9:
            return c
        if self.has("p_wrong"):
            c = self.wrong()
        if self.has("p_prefix"):
            c = self.var() + "=" + self.value() + " " + c
        if self.has("p_redir"):
            c += self.redirs()
        return c

    def wrong(self):
        """a builtin with options and operands that it does not have, or that are rare"""
        b = self.pick(["unset", "readonly", "export", "export context", "alias", "unalias", "cd", "source", ".", "eval", "return", "exit", "pwd", "fg", "bg", "exec"])
        ws = [self.pick(["-x", "-v", "-f", "-c", "-p", "-a", "-l", "-", "--", "-fv", "-cv", "-vp", "-pc", "=", "=x", "x=", "A=", "A==", "A=b=c", "''", "\"\"", "x", "%1", "%", "%%", "1", "0", "n=", "n=self", "n=s1=x", "self", "s1",
                          "n::A", "n::f", "n::A=1", "f", "A", "pr", "al=", "al", "al='pr a'", "99999", "99999999999", "1x", "d1", "lib"]) for _ in range(self.r.choice([0, 1, 1, 1, 2, 2, 3]))]
        if b in ("fg", "bg"):
            ws = [w for w in ws if w not in ("1", "0")]
        return " ".join([b] + ws)

    def redirs(self, out=False):
        r = ""
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            if out and self.r.random() < 0.8:
                break
            k = self.r.random()
            f = self.pick(FILES) if self.r.random() < 0.85 else self.pick(BADFILES + ["/dev/null", "'a b'", "$A", self.path("o1"), self.path("o2"), self.path()])
            sp = self.pick([" ", " ", " ", "", "  ", "\t"])
            if k < 0.35:
                r += " >" + sp + f
            elif k < 0.55:
                r += " >>" + sp + f
            elif k < 0.68:
                r += " 2>" + sp + f
            elif k < 0.75:
                r += " 2>>" + sp + f
            elif k < 0.78:
                r += " >>%s 2>>%s" % (f, f)
            elif k < 0.86:
                n = self.r.randint(0, 9) if self.r.random() < 0.8 else self.pick(["10", "11", "25", "1023", "1024", "01", "+1", "-1", "2147483647", "2147483648", "99999999999999999999"])
                r += " %s%s%s%s" % (n, self.pick([">", ">", ">>"]), sp, f)
            else:
                r += " %s<%s%s" % (self.pick(["", "", "", "0", "0", "00", "3"]), sp, self.pick(INFILES) if self.r.random() < 0.8 else self.pick(["nofile", self.path("f1")]))
        return r

    def c_pr(self):
        return "pr" + self.words(0, 4)

    def c_err(self):
        return self.pick(["er", "bo"]) + self.words(0, 2)

    def c_status(self):
        return "st %d" % self.pick(CODES)

    def c_signal(self):
        return "sg %d" % self.pick([9, 15, 1, 6, 11, 10])

    def c_env(self):
        return "ev " + self.var()

    def c_fd(self):
        return "fd"

    def c_sf(self):
        return "sf"

    def c_wd(self):
        return "wd"

    def c_pw(self):
        n = self.r.randint(3, 9)
        if self.r.random() < 0.5:
            return "pw %d x %d> %s" % (n, n, self.pick(FILES))
        return "pw %d x" % n

    def c_notfound(self):
        return self.pick(["nope", "./nope", "d1", "f1", "./f1", "/R/nope a", "d1/nope", self.path(), self.path("nope"), "/", "..", "."]) + self.words(0, 1)

    def c_tag(self):
        if self.r.random() < 0.15:
            return "PATH=" + ":".join(self.pick(["/R/bin", "/R/b1", "/R/b2", "/R/w/d1", "/R/nodir", "/R/w", "", "/R/w/f1", "/R/b1/", "/R/b2//", "d1", "."]) for _ in range(self.r.randint(1, 4))) + " ; t%d" % self.r.randint(1, 3) + self.pick(["", " ; PATH=/R/b1:/R/bin"])
        return self.pick(["t1", "t2", "t3", "t1", "t2", "t3", "./t3", "d1/t1", "/R/b1/t1", "/R/b2/t2", "../w/t3", "d1/../t3", "ld/t1", self.path("t1"), self.path("t3")]) + self.words(0, 2)

    def c_linger(self):
        return "lg %s %s" % (self.pick(FILES), self.pick("abx"))

    def c_in(self):
        return self.pick(["rd", "rd", "i1"]) + " < " + self.pick(INFILES)

    def c_cd(self):
        k = self.r.random()
        if k < 0.5:
            return "cd " + self.pick(DIRS)
        if k < 0.9:
            return "cd " + self.path()
        return self.pick(["cd", "cd $HOME", "cd 'd1'", "cd ''", "cd /", "cd d1 d2", "cd -", "cd \"d1\"", "cd $A"])

    def c_pwd(self):
        return "pwd"

    def c_export(self):
        k = self.r.random()
        if k < 0.5:
            return "export " + self.var() + "=" + self.value()
        if k < 0.8:
            return "export " + self.var()
        if k < 0.9:
            return "export " + self.var() + "=" + self.value() + " " + self.var()
        return self.pick(["export f", "export g", "export f A", "export UNSET", "export A B C", "export A=1 B=2 AA=3"])

    def c_unset(self):
        if self.r.random() < 0.25:
            f = self.pick(FUNS)
            return "unset -f " + f + self.pick(["", "", " ; %s x" % f, " ; %s" % self.fun()])
        return self.pick(["unset A", "unset B", "unset -v C", "unset -f f", "unset UNSET", "unset long_name", "unset -f nofun", "unset", "unset ns::A",
                          "unset AA", "unset " + self.var(), "unset -v " + self.var(), "unset -f " + self.pick(FUNS), "unset -f n::f", "unset f", "unset A B", "unset -x A", "unset -v", "unset -f", "unset -vf f"])

    def c_readonly(self):
        k = self.r.random()
        if k < 0.5:
            return "readonly " + self.var() + "=" + self.value()
        if k < 0.8:
            return "readonly " + self.var()
        return self.pick(["readonly -p", "readonly UNSET", "readonly", "readonly -v -p", "readonly -f", "readonly -f f", "readonly -x", "readonly -v", "readonly -v A", "readonly -c n", "readonly -v -x A", "readonly -p -v"])

    def c_alias(self):
        n = self.pick(ALIASES)
        return "alias %s=%s" % (n, self.pick(["pr", "'pr x'", "'pr  a  b'", "\"pr 'a b'\"", "'st 3'", "f", "'pr $A'", "er", "'nope'", "'pr\ta \t b'", "' pr a '", "'pr \"\" x'", "\"pr 'a\tb' c\"", "'cd d1'", "''", "'A=1'", "k", "al"]))

    def c_unalias(self):
        return self.pick(["unalias al", "unalias k", "unalias -a", "unalias none", "unalias", "unalias pr", "unalias kk", "unalias " + self.pick(ALIASES)])

    def c_eval(self):
        k = self.r.random()
        if k < 0.6:
            t = self.cmdlist(depth=1).replace("'", "")
            return "eval '" + t + "'"
        return "eval " + self.pick(["pr a b", "A=1", "'A=1 ; pr $A'", "'pr ('", "$A", "'h(){ pr ev $1 ; }'", "'return 4'", "''", "'exit 5'", "st 6", "pr '\"a b\"'"])

    def c_source(self):
        return self.pick([".", "source", "."]) + " " + self.pick(["s1", "./s1", "s2", "s3", "/R/w/s1", "nosrc", "d1", "s4", "s2 p q", "s1 x", "lib", "lib a", "t1", "pr", "./lib"] + ["s%d%s" % (self.r.randint(1, 3), self.words(1, 4))] * 3)

    def c_return(self):
        return self.pick(["return", "return 0", "return 3", "return 300", "return x", "return -1"])

    def c_exit(self):
        return self.pick(["exit", "exit 0", "exit 3", "exit 256", "exit -1", "exit x", "exit 300"])

    def c_assign(self):
        r = self.var() + "=" + self.value()
        if self.r.random() < 0.15:
            r += " " + self.var() + "=" + self.value()
        return r

    def c_call(self):
        return (self.fun() if self.r.random() < 0.95 else self.pick(["F", "fg1", "G"])) + (self.words(0, 3) if self.r.random() < 0.9 else self.words(8, 13))

    def c_exec(self):
        o = "" if self.r.random() < 0.75 else self.pick(["-a er", "-a st", "-l", "-c", "-c -l", "-c -a er", "-cl", "-a", "-la x", "-x", "-c -la bo", "-", "-l -a x/st", "-la d/er", "-a x/bo -l"])
        k = self.r.random()
        if k < 0.5:
            return "exec %s %s%s" % (o, self.pick(["pr", "pr", "bo", "t1", "./t3", "er"]), self.words(0, 4))
        return "exec %s %s" % (o, self.pick(["nope", "./f1", "d1", "''", "st 9", "", "ev A", "ev B", "wd", "fd", "f a", "cd d1", "sg 15", "t3 x", "d1/t1"]))

    def c_context(self):
        n = self.pick(self.ns)
        k = self.r.random()
        if k < 0.4:
            return "export context %s=%s" % (n, self.pick(["s1", "s2", "s3", "./s1", "s1", "s2", "self", "self", "nofile", "d1", self.path("s1")]))
        if k < 0.6:
            return "pr " + " ".join("$%s::%s" % (self.pick(self.ns), self.pick(["A", "B", "AA", "1"])) for _ in range(self.r.randint(1, 3)))
        if k < 0.75:
            return "%s::%s" % (n, self.pick(["f", "g", "ff"])) + self.words(0, 2)
        if k < 0.85:
            return "unset -c " + n
        return self.pick(["export context s1", "export context s1", "export context s2", "pr $s1::A $s2::A $s2::B", "s1::f x", "s2::f y", "unset -c s1", "export context self", "export context nofile", "readonly %s::A=9" % n, "export context",
                          "unset %s::A" % n, "unset -f %s::f" % n, "readonly -p -c " + n, "readonly -c -p " + n])

    def c_list(self):
        return self.pick(["alias", "export -p", "readonly -p", "export", "alias -p"])

    def c_use(self):
        return "pr $A $B $C $long_name"

    # lines -------------------------------------------------------------
    def pipeline(self):
        if self.has("p_big"):
            return self.big()
        n = 1
        if self.has("p_pipe"):
            n = self.r.choice([2, 2, 2, 3, 4]) if self.r.random() < 0.95 else self.r.randint(5, 12)
        first = self.command()
        c = " | ".join([first] + [self.command(i) for i in range(1, n if first != "sf" else 1)])
        if self.has("p_bang"):
            c = "! " + c
        return c

    def background(self):
        self.bgn += 1
        f = "bg%d" % self.bgn
        if self.r.random() < 0.4:      # it goes on until the shell has done something else
            c = " | ".join(["gt g%d" % self.bgn] + ["rd"] * self.r.randint(0, 4))
            do = self.pick(["pr", "A=1", "cd d1", "cd ..", "pr $A | rd", "st 3", "f a", "wd", "lg o1 x"])
            return "%s > %s & ; %s ; op %s ; wt %s" % (c, f, do, "g%d" % self.bgn if "cd" not in do else "/R/w/g%d" % self.bgn, f if "cd" not in do else "/R/w/" + f) if self.r.random() < 0.9 \
                else "%s > %s & ; op g%d ; wt %s ; rd < %s" % (c, f, self.bgn, f, f)
        c = self.pick(["pr b%d" % self.bgn] * 5 + ["pr $A", "wd", "wd", "cd d1", "pr x | rd", "pr x | rd | rd", "eval 'pr x'", "nope"])
        if c in ("cd d1", "nope"):
            return "%s 2> %s &" % (c, f)
        return "%s > %s & ; wt %s" % (c, f, f)

    def big(self):
        """something large"""
        k = self.r.randrange(8)
        n = int(10 ** self.r.uniform(1, 3.3))
        if k == 0:
            return "pr" + self.words(10, 60)
        if k == 1:
            return "pr " + self.pick("abz") * n
        if k == 2:
            return self.fun() + "".join(" p%d" % i for i in range(1, self.r.randint(9, 14))) + " ; pr $1 $10 $12"
        if k == 3:
            l = self.r.choice([1, 10, 100, 70])
            return "bl %d %d | " % (n, l) + "ct"
        if k == 4:
            f = self.pick(FILES)
            return "bl %d %d > %s ; ct < %s" % (n, self.r.choice([1, 50]), f, f)
        if k == 5:
            return " ; ".join(self.pick(["st %d" % self.pick(CODES), "pr %d" % i, "A=%d" % i, "cd .", "st 0 | st 3", "pr x > o1"]) for i in range(self.r.randint(10, 40)))
        if k == 6:
            t = "st %d" % self.pick(CODES)
            for i in range(self.r.randint(6, 30)):
                t += self.pick([" && ", " || "]) + self.pick(["st 0", "st 1", "pr %d" % i])
            return t
        n = self.r.randint(2, 6)
        t = "pr deep"
        for i in range(n):
            t = "eval " + t
        return t

    def andor(self):
        c = self.pipeline()
        while self.has("p_list") and self.r.random() < 0.6:
            c += self.pick([" && ", " || "]) + self.pipeline()
        return c

    def cmdlist(self, depth=0):
        def element():
            return self.background() if self.has("p_bg") else self.andor()
        c = element()
        while self.r.random() < self.p["p_list"] * 0.5:
            c += " ; " + element()
        return c

    def bad(self):
        return self.pick(["pr a |", "| pr a", "pr a && ", "&& pr", "pr ; ; pr", "pr 'a", "pr \"a", "pr a >", "> > a", "for x", "pr if",
                          "( pr a )", "f( { pr }", "pr a & & pr", "pr *", "! ! pr a", "a=", "=a", "pr a) b", "if", "f() pr", "{ pr a", "pr a }",
                          "pr a ; pr 'b", "pr x ; | pr", "A=1 ; pr * ", "; ; pr", "pr <", "2>", "pr a ||", "! ", "pr x ; !", "&", "pr >>& x"])

    def fdef(self):
        # mostly, functions call those after them only, and the recursion is bounded
        k = self.r.randrange(3)
        n, was = FUNS[k], self.funs
        if self.r.random() < 0.99:
            self.funs = [x for x in FUNS[k + 1:] if x in was]
        body = self.cmdlist() if self.r.random() < 0.7 else self.pick(
            ["pr $0 $1 $2", "A=$1", "return 3 ; pr no", "pr $1 ; %s $2" % self.fun(), "A=in ; pr $A", "pr in | rd", "st 5", "readonly A=f", "export B=$1",
             "L=loc ; " + self.fun(), "pr $L", "unset " + self.var(), "%s ; pr $A" % self.fun(), "A=x ; %s ; pr $A $B" % self.fun(), "unset A ; %s ; A=y" % self.fun(), "pr $9 $10 $11 $12", "export context n=" + self.pick(["self", "s1", "nofile", "s2"]), "pr $1 ; st $1 && %s $2 $3 $4 $5 1" % n])
        self.funs = was
        if self.r.random() < 0.03:
            n = self.pick(["pwd", "cd", "unset"])    # builtins come before functions
        if self.r.random() < 0.04:
            n = self.pick(["F", "fg1"])
        t = "%s() { %s%s }" % (n, body, self.pick([" ;", " ;", ""]))
        return t + " " + self.redirs() if self.r.random() < self.p["p_redir"] * 0.6 else t

    def line(self):
        k = self.r.random()
        if k < self.p["p_bad"]:
            return self.bad()
        if k < self.p["p_bad"] + self.p["p_group"]:
            return self.pick(["{ pr a ; }", "pr x ; { pr y ; } ; pr z", "{ pr a ; } || pr b"])
        if self.has("p_fdef"):
            l = self.fdef()
        else:
            l = self.cmdlist()
        if self.has("p_comment"):
            l += self.pick([" # c", " ;# c", "   ", " ;", " ; # pr 'x"])
        return l

    SOURCES = ["A=s", "B=s2", "f(){ pr sf $1 ; }", "pr src $1 $2", "readonly C=s", "return 4", "st 5", "cd d1", "pr 'x", "# c", "", "g(){ A=g ; pr $A $1 ; }",
               "export B=x", "alias al='pr sa'", "exit 6", "pr a | rd", "A=$1", "f() {", "pr m $1", "}"]

    def sources(self):
        fs = {}
        for n in ("s1", "s2", "s3"):
            ls = [self.pick(self.SOURCES[:8] if self.r.random() < 0.6 else self.SOURCES) for _ in range(self.r.randint(1, 4))]
            if self.r.random() < 0.3:
                x = [self.line() if self.r.random() < 0.7 else self.pick(["st 1 ||", "st 0 &&", "pr x |"]) for _ in range(self.r.randint(1, 3))]
                x = [l for l in x if not any(w in (".", "source", "context", "eval") for w in l.split()) and "sf" not in l.split()]
                ls += [y for l in x for y in self.spread(l)]
            fs["/R/w/" + n] = {"k": "f", "c": [[l] for l in ls], "x": ""}
        if self.has("p_lib"):           # files that source finds by PATH
            for d in self.r.sample(["/R/b1", "/R/b2", "/R/w", "/R/w/d1"], 2):
                for n in self.r.sample(["lib", "s1", "s2"], 2):
                    fs[d + "/" + n] = {"k": "f", "c": [["pr " + d + " $1"], ["A=" + d]], "x": ""}
        return fs

    def env(self):
        """the environment that the shell is started with"""
        e = {"PATH": self.pick(["/R/bin:/R/b1:/R/b2"] * 3 + ["/R/b2:/R/b1:/R/bin", "/R/bin::/R/b1", "/R/nodir:/R/bin:/R/w", "/R/bin:/R/b1/:/R/b2", "/R/bin:/R/bin:/R/b2"])}
        h = self.pick(["/R/home"] * 4 + ["/R/w/d1", "/R/nodir", "", "d1", "/R/home/", "/R/w/f1", None])
        if h is not None:
            e["HOME"] = h
        for n in ["A", "B", "C", "AA", "long_name", "f", "E1"]:
            if self.r.random() < 0.35:
                e[n] = self.pick(["e", "a b", "", "x=y", "$B", "$A", "é 日本", "'q'", "\"q\"", "a\tb", " a  b ", "a;b|c", "#", "\\"])
        return e

    def rc(self):
        """the lines of ~/.rshrc"""
        ls = [self.line() if self.r.random() < 0.6 else self.pick(self.SOURCES[:13]) for _ in range(self.r.randint(1, 4))]
        ls = [l for l in ls if "sf" not in l.split()]
        ls = [l for l in ls if "&" not in l.replace("&&", "")] if self.r.random() < 0.9 else ls
        return [x for l in ls for x in (self.spread(l) if self.r.random() < 0.4 else [l])]

    def spread(self, l):
        """a line on several lines"""
        if "{" not in l and self.r.random() < 0.7:
            return [l]
        out = ""
        for x in l.split(" "):
            if out:
                out += "\n" if (out.endswith(("{", "&&", "||")) and self.r.random() < 0.7) or (out.endswith(" ;") and self.r.random() < 0.7) \
                    or (x == "}" and self.r.random() < 0.7) or self.r.random() < 0.01 else " "
            if x == ";" and self.r.random() < 0.5 and out.endswith(" "):
                out = out[:-1] + "\n"
                continue
            out += x
        if self.r.random() < 0.1:
            out = out.replace("\n", self.pick(["\n\n", "\n# c }\n", " # {\n", "\n "]), 1)
        return out.split("\n")

    # what there is to see of the state of the shell
    PROBES = ["pr $A $B $C $AA $long_name", "pr $0 $1 $2 $3 $10", "pr $n::A $nn::A $ns::A $n::B $ns::AA $N::A", "f x y", "g x", "ff x y z", "alias", "readonly -p",
              "ev A ; ev B ; ev C ; ev AA ; ev long_name", "fd ; pwd ; wd", "n::f x ; nn::f x ; ns::g", "pr $s1::A $s2::B ; s1::f q", "rd < o1 ; rd < o2", "al ; k ; kk", "t1 ; t2 ; t3", "fd | fd | fd",
              "A=p B=p C=p AA=p ; pr $A $B $C $AA", "export -p"]

    def session(self):
        mode = self.pick(self.p["modes"])
        n = self.r.randint(*self.p["lines"])
        ls = [self.line() for _ in range(n)]
        if self.r.random() < 0.6:
            ls += self.r.sample(self.PROBES, self.r.randint(1, 4))
        s = {"mode": mode, "lines": ls, "fs": self.sources()}
        if mode == "f":
            s["args"] = [self.pick(["p", "q r", "", "x=y", "$A", "-c1"]) for _ in range(self.r.randint(0, 3))]
        if self.has("p_env"):
            s["env"] = self.env()
        if self.has("p_rc"):
            s["fs"]["/R/home/.rshrc"] = {"k": "f", "c": [[x] for x in self.rc()], "x": ""}
        if mode != "c":
            ls[:] = [x for l in ls for x in (self.spread(l) if self.has("p_multi") else [l])]
        if self.has("p_sf"):
            ls[0:0] = ["sf"]
            ls += ["sf"]
        if self.has("p_room"):
            s["room"] = self.pick([0, 1, 1, 2, 2, 3])
        if mode == "i" and "room" not in s and self.has("p_tty"):
            s["tty"] = True
        elif self.has("p_bytes"):      # some byte that is not UTF-8, somewhere
            x = self.r.choice([ls] * 3 + [s.get("args", [])] + [c["c"] for p, c in s["fs"].items()])
            if x:
                i = self.r.randrange(len(x))
                k = x[i] if isinstance(x[i], str) else x[i][0]
                j = self.r.randint(0, len(k))
                k = k[:j] + "%FF%" + k[j:]
                x[i] = k if isinstance(x[i], str) else [k]
        if self.has("p_wide"):          # a blank of two bytes (see run.py) in the place of one, or somewhere
            i = self.r.randrange(len(ls))
            at = [j for j, c in enumerate(ls[i]) if c == " "] if self.r.random() < 0.8 else []
            j = self.r.choice(at or range(len(ls[i]) + 1))
            ls[i] = ls[i][:j] + "\f" + ls[i][j + (1 if at else 0):]
        if mode == "c":
            s["lines"] = [" ; ".join(l for l in ls if "#" not in l) or "pr"]
        return s


def session(seed, profile=None):
    return Gen(random.Random(seed), profile).session()


def keys(seed, profile=None):
    """keys at a terminal: lines, typed at once or with corrections, earlier ones that are taken again, and others"""
    g = Gen(random.Random(seed), profile)
    r = g.r
    ks = []

    def some(names, n):
        ks.extend(r.choice(names) for _ in range(r.randint(1, n)))

    def typed(l):
        k = r.random()
        if k < 0.6 or len(l) < 3:
            ks.append(l)
        elif k < 0.7:               # a wrong character that is taken back
            i = r.randint(1, len(l) - 1)
            ks.extend([l[:i] + "x", "<back>", l[i:]])
        elif k < 0.8:               # the end first
            i = r.randint(1, len(l) - 1)
            ks.extend([l[i:], "<home>", l[:i]])
        elif k < 0.9:               # a part of it, and what the hint says
            ks.extend([l[:r.randint(1, len(l))], "<right>"])
        else:
            i = r.randint(1, min(4, len(l)))
            ks.extend([l] + ["<left>"] * i + [r.choice(["<kill>", "<del>", "<wipe>", "<back>", "z", ""])])
    tabs = g.p.get("p_tabs", 0)
    menu = tabs and r.random() < 0.6

    def tab():
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            ks.append(r.choice(["<pick1>", "<pick1>", "<pick2>", "<pick3>", "<pick4>", "<pick6>"]) if menu else "<tab>")

    def completed():
        n = r.choice(["pr", "st", "sg", "t1", "t2", "t3", "pw", "ev", "gt", "er", "wd", "tz", "ta", "d1", "zz"])
        ks.append(n[:r.choice([0, 1, 1, 1, 2, 2])] if r.random() < 0.9 else r.choice(["T", ".", "t-", "t_", "t.", "é", "..", "/", "$"]))
        if r.random() < 0.15:
            ks.append(r.choice(["<left>", "<home>", "<back>", "x"]))
        tab()
        if r.random() < 0.25:
            ks.extend([r.choice(["<home>", "<left>", "<end>", " ", "<back>", "<wipe>", "<up>"]), r.choice(["", "t", "s", "p", "e"])])
            tab()
        ks.extend([r.choice(["", " 3", " a b", " $A", "z", " ; pr x", " >/R/b2/ta", " 2>/R/w/sx", "()"]), r.choice(["<enter>"] * 8 + ["<drop>", "<up>", "<kill>", ""])])
    ls = []
    for _ in range(r.randint(2, 6)):
        if tabs and r.random() < 0.6:
            completed()
            continue
        if tabs and r.random() < 0.5:
            ks.extend([r.choice(["PATH=/R/b2", "PATH=$PATH:/R/w", "PATH=d1:$PATH", "pr a >/R/b1/tz", "pr a >/R/b1/Tz", "pr a >/R/b2/t-x ; pr a >/R/b2/.tq", "pr a >/R/b1/t_1 ; pr b >/R/b2/t.1", "PATH=ld:$PATH", "unset PATH", "PATH=:/R/b1", "export PATH=/R/b1:/R/nodir", "cd d1", "cd ..", "PATH=d2:/R/b1/", "tz() { pr f", "alias t1=pr", "PATH=/R/b2 st 3", "pr a >sx", "PATH=/R/bin pr a | PATH=/R/b1 pr c"]), "<enter>"])
            continue
        k = r.random()
        l = r.choice(ls) if ls and k < 0.15 else r.choice(g.PROBES) if k < 0.3 else r.choice(["PS1=$A", "PS1='$ '", "PS1=x", "PS1='a b>'", "unset PS1", "cd d1 ; PS1=d", "readonly PS1=r"]) if k < 0.4 else g.line()
        if any(w in l for w in ("exec", "sf", "%FF%", "/R")) or ("exit" in l and r.random() < 0.8):
            continue
        ls.append(l)
        for x in g.spread(l) if r.random() < 0.3 else [l]:
            if r.random() < 0.15:
                some(["<up>", "<up>", "<down>", "<prev>", "<next>", "<first>", "<last>", "<right>"], 4)
                if r.random() < 0.5:
                    ks.append("<wipe>")
            typed(x)
            ks.append(r.choices(["<enter>", "<drop>", "<eof>", "<up>", ""], [40, 2, 1, 1, 1])[0])
        while r.random() < 0.4:
            some(["<up>", "<up>", "<up>", "<down>", "<prev>", "<next>", "<first>", "<last>", "<left>", "<back>", "<home>", "<del>", "<end>", "<kill>", "<right>", "b", " ", "$A"], 4)
            ks.append(r.choice(["<enter>", "<enter>", "<enter>", "<drop>", "<wipe>"]))
    s = {"keys": [k for k in ks if k], "fs": g.sources()}
    if g.has("p_env"):
        s["env"] = g.env()
        if r.random() < 0.5:
            s["env"]["PS1"] = r.choice(["e> ", "", "$A"])
    if tabs and menu:
        s["env"] = dict(s.get("env") or {"PATH": "/R/bin:/R/b1:/R/b2", "HOME": "/R/home"}, TERM=r.choice(["xterm", "xterm", "xterm-256color"]))
    elif tabs and r.random() < 0.4:
        s["env"] = dict(s.get("env") or {"PATH": "/R/bin:/R/b1:/R/b2", "HOME": "/R/home"}, TERM=r.choice(["", "nosuch"]))
    if g.has("p_rc"):
        s["fs"]["/R/home/.rshrc"] = {"k": "f", "c": [[x] for x in g.rc()], "x": ""}
    return s
