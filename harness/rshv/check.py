"""The checks: explores the models of a property, replays what they predict in
rsh, and validates recorded random sessions with the specification."""
import hashlib, json, os, random, sys, time
from . import build, gen, jobs, props, run, tlc, trace

REPLAY = os.path.join(build.BUILD, "replay")
EVIDENCE = os.path.join(build.VERIF, "evidence")
KNOWN = os.path.join(build.VERIF, "known_findings.txt")


def known():
    """the sessions of known findings: {property: {session as text: what}}"""
    out = {}
    for l in open(KNOWN) if os.path.exists(KNOWN) else []:
        if l.startswith("known: "):
            p, rest = l[len("known: property="):].split(" ", 1)
            s, what = rest.split(" ## ", 1)
            out.setdefault(p, {})[s] = what.strip()
    return out


def key(s):
    return json.dumps([s.get("mode"), s.get("groups") or s.get("lines"), s.get("args", [])] + ([s["room"]] if "room" in s else []) + (["tty"] if s.get("tty") else []), ensure_ascii=False)


def jobs_key(s):
    return json.dumps([s.get("mode"), s.get("tty", ""), [[e["a"], e["x"], e["n"]] for e in s["h"]]], ensure_ascii=False)


def canon(o):
    def c(ls):
        return [sorted(l) for l in ls]
    return {"out": c(o["out"]), "err": c(o["err"]), "code": o["code"], "files": {p: c(l) for p, l in o["files"].items()}}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.validated = self.undef = self.replayed = self.evaluations = 0
        self.samples, self.rules, self.notes = [], [], {}
        self.violations = []
        self.known = known().get(prop, {})
        self.models = []

    # ------------------------------------------------------------------
    def left(self):
        return time.time() - self.t0

    def violation(self, what, detail):
        if "session" in detail and key(detail["session"]) in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key(detail["session"])]))
            return
        if "jobs" in detail and jobs_key(detail["jobs"]) in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[jobs_key(detail["jobs"])]))
            return
        os.makedirs(REPLAY, exist_ok=True)
        d = dict(detail, property=self.prop, what=what)
        n = hashlib.sha256(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:12]
        p = os.path.join(REPLAY, "%s-%s.json" % (self.prop, n))
        with open(p, "w") as fh:
            json.dump(d, fh, indent=1, ensure_ascii=False, default=str)
        self.violations.append((what, p))

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    # ------------------------------------------------------------------
    def model(self, name, runner, depth, cover, limit=None, timeout=600, room=99, mode=None, size=2, tty=False):
        """explores spec/MC_<name> and replays the histories it prints"""
        r = tlc.tlc("MC_" + name, env={"DEPTH": str(depth), "COVER": cover, "ROOM": str(room), "SIZE": str(size)}, timeout=timeout,
                    change=mode and ("CONSTANT Mode =.*", 'CONSTANT Mode = "%s"' % mode))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append("MC_%s depth %d %s%s%s%s: %d states" % (name, depth, cover, "" if room == 99 else ", %d processes" % room,
                                                                   "" if not mode else ", typed at a terminal" if tty else ", mode " + mode, "" if size == 2 else ", size %d" % size, r["distinct"]))
        if r["rc"] != 0:
            # the specification itself has a behaviour without the property: the
            # check can't decide anything
            raise build.ToolError("the specification does not have the property: MC_%s\n%s" % (name, r["text"][-3000:]))
        setup = [x for x in r["said"] if "mode" in x][0]
        hs = [x for x in r["said"] if "h" in x]
        hs.sort(key=lambda x: json.dumps([x["h"], x["rc"]]))
        if limit and len(hs) > limit:
            hs = random.Random("%s %s" % (self.seed, name)).sample(hs, limit)
        ss = [{"mode": setup["mode"], "lines": x["h"], "fs": setup["fs"] or {}, "args": setup["args"] or []} for x in hs]
        for x, s in zip(hs, ss):
            if x["rc"]:
                s["fs"] = dict(s["fs"], **{"/R/home/.rshrc": {"k": "f", "c": [[l] for l in x["rc"]], "x": ""}})
        if room != 99:
            for x in ss:
                x["room"] = room
        if tty:
            ss, hs = map(list, zip(*[(dict(s, tty=True), x) for s, x in zip(ss, hs) if not any("%FF%" in l for l in s["lines"])]))
        obs = runner.run(ss)
        self.evaluations += len(ss)
        bad = [i for i in range(len(ss)) if canon(obs[i]) != canon(hs[i]["o"]) or self.broken(obs[i])]
        bad = self.confirm(runner, ss, bad, lambda i, o: canon(o) != canon(hs[i]["o"]) or self.broken(o))
        for i, o in bad:
            self.violation("the shell does not do what the specification says", {"session": ss[i], "predicted": hs[i]["o"], "observed": o})
        self.replayed += len(ss)
        self.validated += len(ss)
        if hs:
            i = len(hs) // 2
            self.sample({"model": "MC_" + name, "lines": ss[i]["lines"], "predicted": hs[i]["o"], **({"rshrc": hs[i]["rc"]} if hs[i]["rc"] else {})})
        return len(ss)

    # ------------------------------------------------------------------
    # keys at a terminal
    @staticmethod
    def wrong_keys(o, x):
        kept = x["kept"] if x["kept"]["dir"].startswith("/R") else {"dir": "", "lines": []}     # elsewhere nothing can be written
        return canon(o) != canon(x["o"]) or Check.broken(o) or ("prompts" in o and (o["prompts"] != x["prompts"] or o["kept"] != kept or o["offers"] != [x[:22] for x in x["offers"]]))

    def keys_replay(self, runner, hs, what):
        """hs: what the specification says of sessions of keys"""
        ss = [{"mode": "i", "tty": True, "groups": x["groups"], "offers": x["offers"], "lines": ["".join(g) for g in x["groups"]], "fs": x.get("fs") or {}, **({"env": x["env"]} if "env" in x else {})} for x in hs]
        k, n, done = 0, 200, 0
        while k < len(ss) and not self.violations and self.left() < 800:
            part, xs = ss[k:k + n], hs[k:k + n]
            obs = runner.run(part)
            self.evaluations += len(part)
            if any("prompts" not in o for o in obs):
                self.notes["terminals"] = "there are none here"
                return done
            bad = [i for i in range(len(part)) if self.wrong_keys(obs[i], xs[i])]
            for i, o in self.confirm(runner, part, bad, lambda i, o: self.wrong_keys(o, xs[i])):
                self.violation(what, {"session": part[i], "keys": xs[i], "observed": o})
            k, n, done = k + n, 2000, done + len(part)
            self.validated += len(part)
            self.replayed += len(part)
        if hs:
            x = hs[len(hs) // 2]
            self.sample({"keys": x["groups"], "predicted": x["o"], "prompts": x["prompts"], "history": x["kept"]})
        return done

    def keys_model(self, name, runner, depth, cover, limit, size=2):
        r = tlc.tlc("MC_" + name, env={"DEPTH": str(depth), "COVER": cover, "SIZE": str(size)}, timeout=600)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append("MC_%s %d keys %s%s: %d states" % (name, depth, cover, "" if size == 2 else ", size %d" % size, r["distinct"]))
        if r["rc"] != 0:
            raise build.ToolError("the specification does not have the property: MC_%s\n%s" % (name, r["text"][-3000:]))
        hs = r["said"]
        for x in hs:
            x["fs"] = {"/R/home/.rshrc": {"k": "f", "c": [[l] for l in x["rc"]], "x": ""}} if x["rc"] else {}
        hs.sort(key=lambda x: json.dumps([x["groups"], x["rc"]]))
        if limit and len(hs) > limit:
            hs = random.Random("%s %s" % (self.seed, name)).sample(hs, limit)
        return self.keys_replay(runner, hs, "what is typed at a terminal does not do what the specification says")

    def keys_random(self, runner, n, profile=None):
        done = 0
        while done < n and not self.violations and self.left() < 780:
            k = min(200 if not done else 2000, n - done)
            self.keys_given(runner, [gen.keys("%s.%s.%d" % (self.seed, self.prop, done + i), profile or gen.DEFAULT) for i in range(k)])
            done += k

    def keys_given(self, runner, ss):
        xs, r = trace.keys(ss)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        hs = [dict(x, fs=s["fs"], **({"env": s["env"]} if "env" in s else {})) for x, s in zip(xs, ss) if not x["undef"]]
        self.undef += len(ss) - len(hs)
        self.keys_replay(runner, hs, "what is typed at a terminal does not do what the specification says")

    @staticmethod
    def broken(o):
        return o["hang"] or o["left"] or o.get("panic")

    def confirm(self, runner, ss, bad, differs):
        """those that differ again when they are run on their own"""
        out = []
        for i in bad[:40]:
            for _ in range(3):
                o = runner.run([ss[i]])[0]
                if differs(i, o):
                    out.append((i, o))
                    break
            if len(out) >= 3:
                break
        return out

    def sessions(self, runner, ss, what, total=False):
        """validates recorded sessions with the specification"""
        obs = runner.run(ss)
        self.evaluations += len(ss)
        v, r = trace.validate(ss, obs)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        bad = []
        for i, (o, x) in enumerate(zip(obs, v)):
            if x["v"] == "undef":
                self.undef += 1
                if o.get("panic") or (total and self.broken(o)):
                    bad.append(i)
                continue
            self.validated += 1
            if x["v"] == "bad" or self.broken(o):
                bad.append(i)

        def differs(i, o):
            if v[i]["v"] == "undef":
                return bool(o.get("panic") or (total and self.broken(o)))
            return self.broken(o) or trace.validate([ss[i]], [o])[0][0]["v"] == "bad"
        for i, o in self.confirm(runner, ss, bad, differs):
            self.violation(what, {"session": ss[i], "predicted": v[i].get("o"), "observed": o})
        k = sum(1 for x in v if x["v"] != "undef")
        for i in range(len(ss)):
            if v[i]["v"] == "ok" and len(ss[i]["lines"]) > 1:
                self.sample({"session": ss[i]["lines"], "mode": ss[i]["mode"], "out": obs[i]["out"][:6], "code": obs[i]["code"]})
                break
        return min(k, len(ss))

    def random(self, runner, n, profile=None, tag=""):
        profile = profile or props.PROFILES[self.prop]
        done = 0
        while done < n and not self.violations and self.left() < 780:
            k = min(100 if not done else 2 * done if done < 1000 else 2000, n - done)
            ss = [gen.session("%s.%s%s.%d" % (self.seed, self.prop, tag, done + i), profile) for i in range(k)]
            self.sessions(runner, ss, "a session the specification does not allow")
            done += k

    # ------------------------------------------------------------------
    # histories of spec/Jobs.tla
    def jobs_replay(self, runner, ss, what):
        obs = runner.run(ss)
        self.evaluations += len(ss)
        bad = [i for i, o in enumerate(obs) if not o["ok"]]
        found = 0
        for i in bad[:20]:
            for _ in range(3):
                o = runner.run([ss[i]])[0]
                if not o["ok"]:
                    self.violation(what, {"jobs": ss[i], "observed": o})
                    found += 1
                    break
            if found >= 3:
                break
        self.validated += len(ss) - len(bad)
        self.replayed += len(ss)

    def chunks(self, runner, ss, what, limit=780):
        k, n = 0, 60
        while k < len(ss) and not self.violations and self.left() < limit:
            self.jobs_replay(runner, ss[k:k + n], what)
            k, n = k + n, min(2000, n * 4)
        return min(k, len(ss))

    def jobs_model(self, name, runner, depth, limit=None, pace="settled", until=780, tty=0, leader=0):
        r = tlc.tlc(name, env={"DEPTH": str(depth), "PACE": pace})
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append("%s %d actions, %s: %d states" % (name, depth, pace, r["distinct"]))
        if r["rc"] != 0:
            raise build.ToolError("the specification does not have the property: %s\n%s" % (name, r["text"][-3000:]))
        ss = jobs.histories(r["said"], pace)
        ss.sort(key=lambda s: json.dumps(s["h"], sort_keys=True))
        random.Random("%s %s" % (self.seed, name)).shuffle(ss)
        n = self.chunks(runner, ss[:limit] if limit else ss, "jobs go otherwise than the specification says", until)
        if tty and not self.violations:
            self.notes["histories_at_a_terminal"] = self.notes.get("histories_at_a_terminal", 0) + self.chunks(
                runner, jobs.at_terminal(ss)[:tty], "jobs go otherwise than the specification says, at a terminal", until + 100)
            self.notes["histories_as_session_leader"] = self.notes.get("histories_as_session_leader", 0) + self.chunks(
                runner, jobs.as_leader(ss, leader), "jobs go otherwise than the specification says, when the shell is the session leader", until + 100)
        if ss:
            s = ss[0]
            self.sample({"model": name, "actions": [[e["a"], e["x"], e["n"]] for e in s["h"]], "predicted": (s.get("outs") or s["o"][-1])[0]["out"]})
        return n

    def jobs_random(self, runner, n, profile=None, until=780):
        done = 0
        while done < n and not self.violations and self.left() < until:
            k = min(100 if not done else 1500, n - done)
            ss, r = jobs.predict([jobs.random_history("%s.%s.%d" % (self.seed, self.prop, done + i), profile) for i in range(k)])
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.chunks(runner, [s for s in ss if s["h"]], "jobs go otherwise than the specification says", until)
            done += k

    # ------------------------------------------------------------------
    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "evaluations": self.evaluations,
               "samples": self.samples, "rule": "; ".join(self.rules)}
        if self.undef:
            cov["sessions_left_unspecified"] = self.undef
        if self.models:
            cov["models"] = self.models
        cov.update(self.notes)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
             "assumptions": ["the specification in /verif/spec says what users of rsh rely on",
                             "the helper programs of /verif/harness/kit.c report what they were given"],
             "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as fh:
            json.dump(e, fh, indent=1, ensure_ascii=False)
        for what, p in self.violations:
            print("# " + what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if not self.violations:
            print("%s %s: held; %d states, %d sessions of rsh agree with the specification, %.1f s"
                  % (self.prop, self.tier, self.states, self.validated, time.time() - self.t0))
        return 1 if self.violations else 0


def standard(c):
    quick = not c.thorough
    with run.Runner() as r:
        for m, depth, cover, limit, *more in props.stages(c.prop, c.tier):
            rule = "the sequences of lines of spec/MC_%s up to a length, and its reachable states, replayed in rsh" % m
            if rule not in c.rules:
                c.rules.append(rule)
            c.model(m, r, depth, cover, limit, 600, **(more[0] if more else {}))
            if c.violations or c.left() > 780:
                return
        if c.prop in props.PROFILES:
            c.rules.append("random sessions with the weights of PROFILES[%s] in harness/rshv/props.py and with those of DEFAULT in gen.py, validated by spec/TraceRsh; one counts when the specification says what it does" % c.prop)
            c.random(r, 1800 if quick else 30000)
            c.random(r, 600 if quick else 10000, gen.DEFAULT, "broad")


def replay(path):
    d = json.load(open(path))
    if "jobs" in d:
        with run.Runner(1) as r:
            o = r.run([d["jobs"]])[0]
        s = d["jobs"]
        print(json.dumps({"mode": s["mode"], "lines": s.get("lines"), "actions": [[e["a"], e["x"], e["n"]] for e in s["h"]],
                          "predicted": s["outs"] if "outs" in s else s["o"][min(max(o.get("step", 0), 0), len(s["o"]) - 1)], "observed": o}, indent=1))
        return 0 if o["ok"] else 1
    if "session" not in d:
        print(json.dumps(d, indent=1)[:6000])
        return 0
    with run.Runner(1) as r:
        o = r.run([d["session"]])[0]
    if "keys" in d:
        x = d["keys"]
        print(json.dumps({"keys": x["groups"], "predicted": {k: x[k] for k in ("o", "prompts", "kept")}, "observed": o}, indent=1, ensure_ascii=False))
        return 1 if Check.wrong_keys(o, x) else 0
    v, _ = trace.validate([d["session"]], [o])
    print(json.dumps({"lines": d["session"]["lines"], "mode": d["session"]["mode"], "verdict": v[0]["v"],
                      "predicted": v[0].get("o"), "observed": o}, indent=1, ensure_ascii=False))
    return 1 if v[0]["v"] == "bad" or Check.broken(o) else 0


def main(argv):
    if len(argv) == 2 and argv[0] == "replay":
        return replay(argv[1])
    if argv == ["setup"]:
        print(*build.build())
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(prop, tier, seed)
    try:
        special = getattr(__import__("rshv.special", fromlist=["x"]), prop, None) if os.path.exists(os.path.join(os.path.dirname(__file__), "special.py")) else None
        (special or standard)(c)
    except build.ToolError as e:
        print("ERROR: %s" % e)
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
