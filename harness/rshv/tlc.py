"""Runs TLC."""
import json, os, re, shutil, subprocess, tempfile
from . import build

JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(build.VERIF, "spec")


def jars():
    import glob
    return ":".join([JAR] + glob.glob("/opt/veriftools/tla/CommunityModules*.jar"))


def tlc(module, cfg=None, env=None, workers=8, timeout=800, heap="8g", extra=(), change=None):
    """the lines printed with the prefix @@, as JSON, and the whole output"""
    meta = tempfile.mkdtemp(prefix="rshv.tlc.", dir="/tmp")
    e = dict(os.environ)
    e.update(env or {})
    cfg = cfg or module + ".cfg"
    if change:
        text = open(os.path.join(SPEC, cfg)).read()
        cfg = os.path.join(meta, cfg)
        with open(cfg, "w") as fh:
            fh.write(re.sub(change[0], change[1], text))
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-cp", jars(), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise build.ToolError("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    said = []
    rest = []
    for l in r.stdout.split("\n"):
        if l.startswith('"@@'):
            said.append(json.loads(json.loads(l)[2:]))
        else:
            rest.append(l)
    text = "\n".join(rest)
    if r.returncode not in (0, 12, 13):       # 12, 13: an invariant or a property does not hold
        raise build.ToolError("TLC %s: exit %d\n%s%s" % (module, r.returncode, text[-4000:], r.stderr[-2000:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    return {"said": said, "text": text, "rc": r.returncode,
            "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0}
