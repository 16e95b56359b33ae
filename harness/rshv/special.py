"""The checks that are not the standard one."""
from . import check, props, run

SEEN = ("; after every action the output, and the state, process group, signal masks and descriptors of every process, "
        "and the descriptors of the shell, are compared with the prediction")


def jobs_check(c, module, depth, limit, profile, race=False, until=600):
    """depth, limit: (quick, thorough)"""
    t = 1 if c.thorough else 0
    with run.Runner() as r:
        c.rules.append("the histories of spec/%s up to a number of actions, one to each reachable state with all actions after it%s" % (module, SEEN))
        c.jobs_model(module, r, depth[t], limit[t], until=until - 100, tty=(400, 6000)[t], leader=(60, 2000)[t] if c.prop == "C21" else 0)
        c.rules.append("as many of these as can be, with the lines and keys typed at a terminal of which the shell is the foreground process")
        if c.violations:
            return
        c.rules.append("random histories (random_history in harness/rshv/jobs.py), predicted by spec/JobsBatch")
        c.jobs_random(r, (600, 8000)[t], profile, until=until)
        if race and not c.violations:
            c.rules.append("the histories of spec/MC_JR, in which the environment does not wait for the shell, against all outcomes that they can have")
            c.jobs_model("MC_JR", r, (4, 5)[t], (1200, 25000)[t], "racing", until=until + 100)


def C17(c):
    with run.Runner() as r:
        c.rules.append("the histories of spec/MC_JF, scripts with jobs" + SEEN)
        c.jobs_model("MC_JF", r, (4, 6)[1 if c.thorough else 0], (800, 8000)[1 if c.thorough else 0], until=300)
    if not c.violations:
        jobs_check(c, "MC_J17", (4, 5), (1500, 12000), {"bg": [0.1, 0.3], "fun": [0.05, 0.2], "exit": [4], "int": [0], "tstp": [0, 0.3]}, race=True)


def C19(c):
    jobs_check(c, "MC_J19", (4, 5), (1500, 12000), {"bg": [0.5, 0.8], "builtin": [0.3, 0.5], "exit": [2, 4], "int": [0], "tstp": [0]}, race=True)


def C20(c):
    jobs_check(c, "MC_J20", (4, 5), (1500, 12000), {"bg": [0.2, 0.5], "builtin": [0.4], "stop": [2, 3], "tstp": [0.5, 1.5], "int": [0, 0.3], "interactive": [1]})


def C21(c):
    jobs_check(c, "MC_J21", (4, 5), (1500, 12000), {"int": [0.7, 1.5], "tstp": [0.3, 1], "sig": [1], "interactive": [0.9]})


def C18(c):
    check.standard(c)
    if c.violations or c.left() > 780:
        return
    c.rules.append("background commands started by the last line before the shell leaves its terminal, many at once")
    with run.Runner() as r:
        c.sessions(r, [{"mode": "i", "lines": [x], "tty": True} for x in ("pr a > bg1 &", "pr a > bg1 | pr b > bg2 &", "cd d1 2> bg1 &", "A=1 pr a > bg1 & pr x") for _ in range(60)],
                   "a background command is ended with the shell")
    if not c.violations and c.left() < 700:
        jobs_check(c, "MC_J18", (3, 4), (800, 8000), {"bg": [0.6, 0.9], "int": [0], "tstp": [0]}, until=760)


def C26(c):
    check.standard(c)
    if c.violations or c.left() > 780:
        return
    c.rules.append("exit in all places that are a child, typed at a terminal: only the shell itself saves the lines")
    places = ("f | rd", "pr x | f", "pr \"$(f)\"", "pr \"`f ; pr a`\"", "f > bg1 &", "A=\"$(f)\" ; pr $A", "eval 'f | rd'", "exit 3 | rd", "cd d1 ; exit | rd", "g | rd", "pr \"`g`\"")
    with run.Runner() as r:
        c.sessions(r, [{"mode": "i", "lines": ["f() { cd d1 ; %s ; }" % e, "g() { f ; }", x] + y, "tty": True}
                       for e in ("exit", "exit 3", "pr in ; exit 0") for x in places for y in ([], ["pr on"], ["cd d2 ; exit 4"])],
                   "what runs in a child changes what the shell leaves")


def C23(c):
    check.standard(c)
    if c.violations or c.left() > 700:
        return
    jobs_check(c, "MC_J23", (4, 5), (1500, 12000), {"bg": [0.3, 0.7], "int": [0, 0.4]}, race=True)


def C31(c):
    t = 1 if c.thorough else 0
    with run.Runner() as r:
        c.rules.append("the keys of spec/MC_C31 up to a number of keys, one sequence to each reachable state with all keys after it, and Enter; typed at a terminal, each line when the shell asks for it; "
                       "output, status, files, the prompts that the terminal shows, and the saved lines are compared")
        for depth, limit, size in (((2, 700, 3), (3, 2500, 2), (3, 1500, 3)), ((2, None, 3), (3, 16000, 2), (3, 12000, 3), (4, 12000, 2)))[t]:
            c.keys_model("C31", r, depth, "edges", limit, size)
            if c.violations or c.left() > 780:
                return
        c.rules.append("more lines than are kept (a hundred)")
        many = [k for i in range(104) for k in ("v=%d" % i, "<enter>")]
        c.keys_given(r, [{"keys": many + ["<first>", "<enter>", "<up>", "<up>", "<enter>", "pr $v", "<enter>"], "fs": {}},
                         {"keys": many + ["<up>"] * 100 + ["<down>", "<enter>", "<first>", "<enter>", "pr $v", "<enter>"], "fs": {}}])
        c.rules.append("random keys (keys in harness/rshv/gen.py), predicted by spec/KeysBatch")
        c.keys_random(r, (3000, 30000)[t], props.PROFILES["C31"])


def C32(c):
    t = 1 if c.thorough else 0
    with run.Runner() as r:
        c.rules.append("the keys of spec/MC_C32 up to a number of keys, one sequence to each reachable state with all keys after it, and Enter; typed at a terminal that is known, with choices in the menu that opens, "
                       "or at one that is not; what the menus show, output, status, files, prompts and the saved lines are compared")
        c.keys_given(r, [{"keys": ["t", "<leave>"], "fs": {}, "env": dict(run.WORLD["env"], TERM="xterm")}])
        for depth, limit, size in (((3, 1200, 2), (3, 2500, 3)), ((3, None, 2), (3, None, 3), (4, 16000, 2)))[t]:
            c.keys_model("C32", r, depth, "edges", limit, size)
            if c.violations or c.left() > 780:
                return
        c.rules.append("random keys (keys in harness/rshv/gen.py, with completions), predicted by spec/KeysBatch")
        c.keys_random(r, (2000, 20000)[t], props.PROFILES["C32"])
