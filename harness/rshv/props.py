"""What decides each property: the model, the profile of the random sessions, and how much of each."""
from . import gen


def profile(kinds=None, **shapes):
    """the default with some kinds of commands far more frequent"""
    p = {k: (v * 0.4 if isinstance(v, (int, float)) and not k.startswith("p_") else v) for k, v in gen.DEFAULT.items()}
    p.update(kinds or {})
    p.update(shapes)
    return p


PROFILES = {
    "C01": profile({"pr": 12, "err": 4, "eval": 2, "call": 3, "assign": 4}, p_special=0.7, p_bad=0.01, p_big=0.05),
    "C02": profile({"status": 10, "signal": 1.5, "notfound": 3, "pr": 6, "return": 1}, p_list=0.75, p_bang=0.25, p_big=0.05),
    "C03": profile({"status": 9, "signal": 4, "notfound": 3, "return": 3, "exit": 1.5, "call": 4, "cd": 3}, p_fdef=0.2, p_bang=0.2, p_pipe=0.3),
    "C04": profile({}, p_bad=0.4, p_group=0.05, p_tty=0.3),
    "C05": profile({"assign": 14, "use": 8, "call": 5, "unset": 3, "env": 2}, p_fdef=0.25, p_special=0.5, lines=(4, 10)),
    "C06": profile({"call": 12, "return": 4, "use": 3, "assign": 3}, p_fdef=0.4, p_big=0.05, lines=(4, 10)),
    "C07": profile({"readonly": 10, "assign": 8, "use": 6, "unset": 4, "export": 5, "env": 4, "list": 1}, lines=(4, 10)),
    "C08": profile({"export": 10, "env": 10, "assign": 6, "unset": 4, "readonly": 1}, p_prefix=0.25, lines=(4, 10)),
    "C09": profile({"alias": 12, "unalias": 4, "list": 1}, lines=(4, 10)),
    "C10": profile({"pr": 8, "assign": 6}, p_special=0.8),
    "C11": profile({"in": 6, "err": 5, "fd": 3, "pw": 3}, p_redir=0.75, p_big=0.05),
    "C12": profile({"linger": 1.5, "pr": 6, "err": 2, "fd": 2, "call": 4, "cd": 2, "assign": 3, "eval": 2}, p_pipe=0.8, p_big=0.08),
    "C13": profile({"tag": 14, "notfound": 5, "assign": 1, "cd": 4}, p_list=0.4, p_special=0.15),
    "C14": profile({"cd": 12, "pwd": 5, "wd": 6, "in": 2, "tag": 2}, p_redir=0.2, lines=(4, 10)),
    "C15": profile({"context": 14, "assign": 3, "use": 3, "unset": 2, "readonly": 1}, lines=(4, 10)),
    "C16": profile({"eval": 8, "source": 8}, lines=(2, 8), p_tty=0.4),
    "C18": profile({"wd": 2, "cd": 2}, p_bg=0.5),
    "C22": profile({}, p_redir=0.3, p_bad=0.25, p_special=0.6, p_group=0.08, p_fdef=0.2, p_room=0.15, p_bytes=0.08, p_wide=0.08, p_tty=0.4),
    "C23": profile({"sf": 6, "eval": 4, "call": 3, "exec": 1, "source": 2, "cd": 2, "context": 1, "notfound": 3}, p_redir=0.5, p_pipe=0.4, p_sf=0.9, p_fdef=0.2),
    "C26": profile({"assign": 5, "cd": 4, "export": 3, "readonly": 2, "use": 4, "pwd": 3, "alias": 2}, p_pipe=0.6, p_special=0.5, p_bg=0.15),
    "C27": profile({"notfound": 8, "status": 4, "signal": 4, "readonly": 3, "cd": 3, "source": 2, "eval": 2}, p_redir=0.4, p_bad=0.1, p_room=0.35),
    "C28": profile({"exec": 8, "pr": 3, "env": 2, "export": 3}, p_redir=0.2, p_special=0.5, p_pipe=0.2),
    "C30": profile({"call": 4, "alias": 3, "use": 4, "tag": 3}, p_rc=0.95, lines=(1, 4), p_tty=0.3),
    "C31": profile({"cd": 2, "status": 3, "assign": 4}, p_env=0.3, p_rc=0.15, p_big=0.02),
    "C32": profile({"cd": 2, "tag": 4, "export": 2, "assign": 1}, p_env=0.2, p_rc=0.1, p_big=0.02, p_tabs=1),
    "C29": profile({}, p_comment=0.6, p_bad=0.02, p_tty=0.3),
}

# of the modules MC_*: the depth, whether all sequences of lines are replayed or
# one to each reachable state with all lines after it, and how many at most
MODELS = {"C02": {"quick": [("C02", 1, "paths", None)], "thorough": [("C02", 2, "paths", 40000)]}}
WITH_MODEL = "C01 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C23 C26 C27 C28 C29".split()


def stages(prop, tier):
    if prop in MODELS:
        return MODELS[prop][tier]
    if prop == "C27":       # also when there is no room for so many processes
        k, d, e = (350, 2, "paths") if tier == "quick" else (5000, 3, "edges")
        r = ranged(prop, tier)
        return r[:2] + [("F27", d, e, k, {"room": room}) for room in (0, 1, 2)] + r[2:]
    if prop == "C22":       # all short lines
        if tier == "quick":
            return [("T22", 1, "paths", 900), ("S22", 1, "paths", 600), ("T22", 1, "paths", 500, {"mode": "i", "tty": True})]
        return [("T22", 1, "paths", None, {"size": 3}), ("S22", 1, "paths", None, {"size": 3}), ("T22", 1, "paths", None, {"mode": "i", "tty": True})]
    if prop == "C30":       # one file, and then one line or two
        if tier == "quick":
            return [("C30", 1, "paths", 900, {"mode": m}) for m in "ifc"]
        return [("C30", 1, "paths", None, {"mode": m}) for m in "ifc"] + [("C30", 2, "paths", 6000, {"mode": "i"}), ("C30", 1, "paths", 8000, {"mode": "f", "size": 3})]
    if prop == "C16":       # also functions of several lines
        r = ranged(prop, tier)
        k, d = (350, 3) if tier == "quick" else (7000, 4)
        return r[:1] + [("M16", d, "paths", k, {"mode": m}) for m in "if"] + [("M16", d, "paths", k, {"mode": "i", "tty": True})] + r[1:]
    return ranged(prop, tier)


def ranged(prop, tier):
    if prop not in WITH_MODEL:
        return []
    if tier == "quick":
        return [(prop, 1, "paths", None), (prop, 2, "paths", 1200), (prop, 3, "edges", 800)]
    return [(prop, 1, "paths", None), (prop, 2, "paths", None), (prop, 3, "edges", 12000), (prop, 3, "paths", 12000)]
