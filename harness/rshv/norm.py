"""From what rsh and the helpers write to the lines of spec/RshSem.tla."""
import re

SIGMSG = re.compile(r"^\[\d+\] .*\t\t")
TOLD = re.compile(r"^(<+)\[\d+\] \(\d+\) (?=[A-Z][a-z]+ )")
BG = re.compile(r"^\[(\d+)\] \((\d+)\) (\S+) (.*)$", re.S)
KV = re.compile(r"^([A-Za-z0-9_]|::)+=")
PATHLINE = re.compile(r"^/[^:]*$")
# messages that begin with a text of the user
MSG = re.compile(r"(\(os error \d+\)|: Command not found|: numeric argument required|: no such job|: readonly variable|: No such file or directory)$")


def line(x):
    """the line as a list (a set) of strings"""
    if MSG.search(x):
        return ["!"]
    if TOLD.match(x):                   # a notice that went through rd
        return [TOLD.sub(r"\1[J] ", x)]
    if x.startswith((">", "<", "E[")) or x == "E":
        return [x]
    m = BG.match(x)
    if m:
        return ["[J] %s %s" % (m.group(3), m.group(4))]
    if PATHLINE.match(x):
        return [x]
    if x.startswith("alias "):
        return ["#", x]
    if KV.match(x):
        return ["#", x]
    return ["!"]


def lines(text, root, drop_sig=True):
    text = text.replace(root, "/R").replace("\u00a0", "\f")
    if text == "":
        return []
    ls = text.split("\n")
    if ls[-1] == "":
        ls.pop()
    out = []
    for x in ls:
        if drop_sig and SIGMSG.match(x):
            continue
        n = line(x)
        if out and n == ["!"] and out[-1] == ["!"]:
            continue
        if out and n[0] == "#" and out[-1][0] == "#":
            out[-1] = out[-1] + [y for y in n[1:] if y not in out[-1]]
            continue
        out.append(n)
    return out
