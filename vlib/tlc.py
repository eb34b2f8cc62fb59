"""Runs TLC (TLA+) on the specifications in /verif/spec."""
import json, os, re, shutil, subprocess, tempfile, time
from .build import VERIF, BUILD

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class TlcError(Exception):
    pass


class TlcResult:
    def __init__(self):
        self.ok = False
        self.violation = None
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.prints = []      # decoded PrintT strings starting with a tag
        self.coverage = {}    # action -> (distinct, generated)
        self.output = ""
        self.wall = 0.0


def _cfg_text(spec, consts, invariants, properties, constraint, action_constraint, view, postcondition, init, nxt, deadlock,
              symmetry, extra):
    out = []
    if spec:
        out.append("SPECIFICATION %s" % spec)
    else:
        out.append("INIT %s\nNEXT %s" % (init, nxt))
    for k, v in (consts or {}).items():
        out.append("CONSTANT %s = %s" % (k, v) if not str(v).startswith("<-") else "CONSTANT %s %s" % (k, v))
    for i in invariants or ():
        out.append("INVARIANT %s" % i)
    for i in properties or ():
        out.append("PROPERTY %s" % i)
    for nm, v in (("CONSTRAINT", constraint), ("ACTION_CONSTRAINT", action_constraint), ("VIEW", view),
                  ("POSTCONDITION", postcondition), ("SYMMETRY", symmetry)):
        if v:
            for x in ([v] if isinstance(v, str) else v):
                out.append("%s %s" % (nm, x))
    out.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
    out.append(extra or "")
    return "\n".join(out) + "\n"


def run(module, consts=None, invariants=None, properties=None, constraint=None, action_constraint=None, view=None,
        postcondition=None, spec="Spec", init=None, nxt=None, deadlock=False, workers=1, timeout=600, env=None,
        symmetry=None, extra="", heap="2g", simulate=None, seed=None, coverage=False, dfs_queue=False, c2=False):
    os.makedirs(os.path.join(BUILD, "tlc"), exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(BUILD, "tlc"))
    cfg = os.path.join(meta, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(_cfg_text(spec if not init else None, consts, invariants, properties, constraint, action_constraint, view,
                          postcondition, init, nxt, deadlock, symmetry, extra))
    cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
    if not c2:
        cmd += ["-XX:TieredStopAtLevel=1"]
    cmd += ["-Xss64m", "-Djava.io.tmpdir=" + meta, "-Dtlc2.TLC.stopAfter=%d" % timeout]
    if dfs_queue:
        cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
    cmd += ["-cp", JAR, "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(meta, "st"), "-workers", str(workers),
            "-noGenerateSpecTE", "-checkpoint", "0"]
    if coverage:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += ["-simulate", simulate]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    cmd += [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=SPEC,
                           timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        shutil.rmtree(meta, ignore_errors=True)
        raise TlcError("TLC timed out on " + module)
    r = TlcResult()
    r.wall = time.time() - t0
    r.output = p.stdout
    shutil.rmtree(meta, ignore_errors=True)
    for line in p.stdout.splitlines():
        if line.startswith('"') and line.endswith('"'):
            r.prints.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", p.stdout)
    if m:
        r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The depth of the complete state graph search is (\d+)", p.stdout)
    if m:
        r.depth = int(m[-1])
    for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", p.stdout, re.M):
        r.coverage[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    if "Model checking completed. No error has been found" in p.stdout or (simulate and p.returncode == 0):
        r.ok = True
    else:
        m = re.search(r"Error: (Invariant|Action property|Temporal properties|Deadlock|The postcondition|Postcondition)[^\n]*", p.stdout)
        if m:
            r.violation = m.group(0)
        else:
            tail = "\n".join(l for l in p.stdout.splitlines() if not l.startswith('"'))
            raise TlcError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, tail[-4000:]))
    return r


def transitions(module, consts, view="MView", spec="MSpec", tag="T", **kw):
    """Enumerates a bounded model and returns its labelled transition list.

    The module's ACTION_CONSTRAINT `MEmit` prints ToJson([f, a, t]) per transition
    and `MInitEmit` (a constraint evaluated on level 1) prints initial states.
    """
    r = run(module, consts, view=view, spec=spec, action_constraint="MEmit", constraint=["MInitEmit"] + list(kw.pop("cons", [])), **kw)
    if not r.ok:
        raise TlcError("model %s: %s\n%s" % (module, r.violation, r.output[-3000:]))
    inits, trans = [], []
    for p in r.prints:
        if p.startswith("I{") or p.startswith("I["):
            inits.append(json.loads(p[1:]))
        elif p.startswith("T{"):
            trans.append(json.loads(p[1:]))
    return r, inits, trans
