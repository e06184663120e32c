"""Shared machinery: building the harness, running cases through the real code, running TLC."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
MVH = os.path.join(TARGET, "debug", "mvh")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


def build():
    """Build the harness against /repo's current working tree. Returns whether the hook is in it: where
    the code around the observation points has changed such that they don't compile, everything else
    is still decided."""
    os.makedirs(BUILD, exist_ok=True)
    for flags in ("--cfg mollusc_verif", ""):
        env = dict(os.environ, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true",
                   RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
        env.pop("CARGO_TARGET_DIR", None)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", TARGET],
                           cwd=os.path.join(VERIF, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not r.returncode:
            return flags != ""
    raise ToolError("harness build failed:\n" + r.stdout[-4000:])


def limbs(v):
    """The specification's representation of a non-negative integer (see Bits.tla)."""
    assert v >= 0
    out = []
    while v:
        out.append(v & 0xFFFF)
        v >>= 16
    return out


def unlimbs(l):
    return sum(x << (16 * i) for i, x in enumerate(l))


def execute(cases, work, name, secs=60, jobs=4):
    """Run cases through the real code; returns one observation per case."""
    if not cases:
        return []
    jobs = max(1, min(jobs, len(cases) // 8))
    chunks = [cases[i::jobs] for i in range(jobs)]

    def one(i):
        ci = os.path.join(work, "%s.%d.cases" % (name, i))
        oi = os.path.join(work, "%s.%d.obs" % (name, i))
        with open(ci, "w") as f:
            for c in chunks[i]:
                f.write(json.dumps(c) + "\n")
        r = subprocess.run([MVH, "exec", ci, oi], env=dict(os.environ, MVH_CASE_SECS=str(secs)),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError("harness failed: " + r.stdout[-2000:])
        with open(oi) as f:
            obs = [json.loads(l) for l in f]
        if len(obs) != len(chunks[i]):
            raise ToolError("harness lost observations")
        os.unlink(ci), os.unlink(oi)
        return obs

    with ThreadPoolExecutor(jobs) as ex:
        parts = list(ex.map(one, range(jobs)))
    out = [None] * len(cases)
    for i, p in enumerate(parts):
        out[i::jobs] = p
    return out


class TlcResult:
    def __init__(self, text, rc):
        self.text, self.rc = text, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"distinct states found, (\d+) states left on queue", text)
        self.left = int(m[-1]) if m else 0
        self.ok = "Model checking completed. No error has been found" in text or (
            "Finished in" in text and "Error:" not in text and rc == 0)
        self.violated = re.findall(r"(?:Invariant|Action property|property) (\S+) (?:is|was) violated", text)


def tlc(module, work, cfg=None, env=None, workers=8, timeout=840, extra=(), heap="6g", cfgtext=None,
        stop=None):
    """Run TLC on spec/<module>.tla; the metadata stays below `work`. After `stop` seconds, what has
    been explored so far must do."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    if cfgtext is not None:
        cfg = os.path.join(meta, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfgtext)
    else:
        cfg = os.path.join(SPEC, cfg or module + ".cfg")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta] + (
           ["-Dtlc2.TLC.stopAfter=%d" % stop] if stop else []) + ["-cp",
           JAR + ":" + JAR.replace("tla2tools.jar", "CommunityModules-deps.jar"),
           "tlc2.TLC", "-metadir", os.path.join(meta, "states"), "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, JAVA_TOOL_OPTIONS="")
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.stdout, r.returncode)


def validate(module, traces, work, workers=2, shards=4, timeout=840, size=lambda t: 1):
    """Validate recorded behaviours against spec/<module>.tla: Init chooses the trace `c`, every event
    `l` is an action of the specification, and a completely consumed trace prints DONE.

    Returns ({index of a rejected trace: last event reached}, states, transitions)."""
    if not traces:
        return {}, 0, 0
    shards = max(1, min(shards, len(traces) // 4))
    order = sorted(range(len(traces)), key=lambda i: -size(traces[i]))
    parts = [order[i::shards] for i in range(shards)]

    def one(i):
        idx = parts[i]
        tf = os.path.join(work, "%s.%d.trace" % (module, i))
        with open(tf, "w") as f:
            for j in idx:
                f.write(json.dumps(traces[j], separators=(",", ":")) + "\n")
        r = tlc(module, work, env={"TRACE": tf}, workers=workers, timeout=timeout)
        if not r.ok:
            raise ToolError("TLC failed on %s:\n%s" % (module, r.text[r.text.find("Error:"):][:3000]))
        done = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', r.text)}
        bad = {}
        if len(done) < len(idx):
            cfg = open(os.path.join(SPEC, module + ".cfg")).read() + "\nINVARIANT At\n"
            with open(tf, "w") as f:
                rest = [k for k in range(len(idx)) if k + 1 not in done]
                for k in rest:
                    f.write(json.dumps(traces[idx[k]], separators=(",", ":")) + "\n")
            d = tlc(module, work, env={"TRACE": tf}, workers=workers, timeout=timeout, cfgtext=cfg)
            at = {}
            for m in re.finditer(r'<<"AT", (\d+), (\d+)>>', d.text):
                at[int(m[1])] = max(at.get(int(m[1]), 0), int(m[2]))
            for n, k in enumerate(rest):
                bad[idx[k]] = at.get(n + 1, 0)
        os.unlink(tf)
        return bad, r.distinct, r.generated

    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    bad = {}
    for b, _, _ in res:
        bad.update(b)
    return bad, sum(r[1] for r in res), sum(r[2] for r in res)
