"""Validates recorded sessions with spec/TraceRsh.tla."""
import json, os, tempfile
from . import run, tlc

DEFAULTS = {"env": run.WORLD["env"], "fs": {}, "cwd": run.WORLD["cwd"], "args": [], "room": 99}


def full(s):
    s = dict(DEFAULTS, **s)
    s["arg0"] = "/R/script.rsh" if s["mode"] == "f" else "rsh"
    if s["mode"] == "c":
        s["lines"] = [" ".join(s["lines"])]
    return s


def validate(sessions, obs, module="TraceRsh", timeout=800, workers=8):
    """the verdicts, in the order of the sessions"""
    batch = []
    for s, o in zip(sessions, obs):
        f = full(s)
        batch.append({k: f[k] for k in ("mode", "env", "fs", "cwd", "arg0", "args", "lines", "room")})
        batch[-1]["obs"] = {k: o[k] for k in ("out", "err", "code", "files")}
    fd, p = tempfile.mkstemp(prefix="rshv.", suffix=".json", dir="/tmp")
    with os.fdopen(fd, "w") as fh:
        json.dump(batch, fh)
    try:
        r = tlc.tlc(module, env={"TRACES": p}, timeout=timeout, workers=workers)
    finally:
        os.unlink(p)
    v = [None] * len(batch)
    for x in r["said"]:
        v[x["i"] - 1] = x
    missing = [i for i, x in enumerate(v) if x is None]
    if missing and r["rc"] == 0:
        raise tlc.build.ToolError("no verdict on session %d: %s\n%s" % (missing[0], json.dumps(batch[missing[0]]), r["text"][-2000:]))
    return v, r


def keys(sessions, timeout=800):
    """what the specification says of sequences of keys"""
    batch = [{k: full(dict(s, mode="i"))[k] for k in ("env", "fs", "cwd", "room", "keys")} for s in sessions]
    fd, p = tempfile.mkstemp(prefix="rshv.", suffix=".json", dir="/tmp")
    with os.fdopen(fd, "w") as fh:
        json.dump(batch, fh)
    try:
        r = tlc.tlc("KeysBatch", env={"TRACES": p}, timeout=timeout)
    finally:
        os.unlink(p)
    v = [None] * len(batch)
    for x in r["said"]:
        v[x["i"] - 1] = x
    if None in v:
        raise tlc.build.ToolError("nothing said of keys %s\n%s" % (json.dumps(batch[v.index(None)]), r["text"][-2000:]))
    return v, r
