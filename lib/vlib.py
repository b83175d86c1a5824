"""What the checks share: building from /repo, running TLC, replaying what it
produces on the real code, telling the result."""
import atexit
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
NCPU = max(2, min(8, os.cpu_count() or 2))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

T0 = time.time()


class Violation(Exception):
    """The code does not do what the specification says"""

    def __init__(self, msg, files=()):
        super().__init__(msg)
        self.files = list(files)


class Trouble(Exception):
    """The check cannot tell"""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------------------
# scratch space
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        os.environ["TMPDIR"] = _scratch
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


def _preexec():
    os.setsid()


def run(cmd, timeout, **kw):
    """Run a command, give (status, output); a status of None means it hung"""
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    p = subprocess.Popen(cmd, preexec_fn=_preexec, text=True, errors="replace", **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out or ""
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out or ""


# ---------------------------------------------------------------------------
# building
HARNESS = {"asan": "-O1 -g0 -fno-sanitize=undefined"}
FLAVOURS = {
    "asan": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=null,vptr,alignment,object-size,nonnull-attribute,returns-nonnull-attribute -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
    "tsan": "-O1 -g1 -fsanitize=thread",
    "plain": "-O0 -g1",
}


def build(targets, flavour="asan", timeout=600):
    """Configure and build targets of cpp/CMakeLists.txt from the working tree"""
    scratch()
    base = os.environ.get("VERIF_BUILD", os.path.join(tempfile.gettempdir() if False else "/tmp", "verif-build"))
    d = os.path.join(base, flavour)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    flags = FLAVOURS[flavour]
    last = ""
    for attempt in range(2):
        rc, out = run(["cmake", "-G", "Ninja", "-S", os.path.join(VERIF, "cpp"), "-B", d,
                       "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + flags, "-DPODIO_REPO=" + REPO,
                       "-DCMAKE_EXE_LINKER_FLAGS=", "-DVERIF_HARNESS_FLAGS=" + HARNESS.get(flavour, ""), "-Wno-dev"], 300, env=env)
        last = out
        if rc == 0:
            rc, out = run(["ninja", "-C", d, "-k", "4"] + list(targets), timeout, env=env)
            last = out
            if rc == 0:
                log("built", " ".join(targets), "(%s)" % flavour)
                return d
        if attempt == 0:
            log("build failed, once more from scratch")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
    f = os.path.join(sub("log"), "build.log")
    open(f, "w").write(last)
    err = [l for l in last.splitlines() if re.search(r"error|Error|FAILED", l)][:8]
    raise Violation("what the property is about cannot be built: " + " | ".join(err)[:1500], [f])


# ---------------------------------------------------------------------------
# TLC
class Seq(tuple):
    """A sequence in a configuration"""


class Tlc:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.runs = []


TOTAL = Tlc()


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    if isinstance(v, Seq):
        return "<<" + ", ".join(tla(x) for x in v) + ">>" if v else "<< >>"
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def cfg(consts, spec="Spec", invariants=(), properties=(), constraints=(), action_constraints=(), view=None,
        deadlock=False, init=None, next_=None):
    """Text of a TLC configuration"""
    l = []
    if init:
        l += ["INIT " + init, "NEXT " + next_]
    else:
        l.append("SPECIFICATION " + spec)
    if consts:
        l.append("CONSTANTS")
        for k, v in consts.items():
            if isinstance(v, (Seq, dict)):
                # not possible in a configuration, goes to a module of its own
                l.insert(0, "\\* DEF MC_%s == %s" % (k, tla(v)))
                l.append(" %s <- MC_%s" % (k, k))
            else:
                l.append(" %s = %s" % (k, tla(v)))
    for kw, xs in (("INVARIANT", invariants), ("PROPERTY", properties), ("CONSTRAINT", constraints),
                   ("ACTION_CONSTRAINT", action_constraints)):
        l += ["%s %s" % (kw, x) for x in xs]
    if view:
        l.append("VIEW " + view)
    l.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(l) + "\n"


def tlc(module, config, name, args=(), workers=1, timeout=600, mem="3g", files=()):
    """Run TLC on a module of spec/, give the path of its output. Fails if TLC
    does not come to an end without errors."""
    d = sub("tlc-" + name)
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        shutil.copy(f, d)
    for f in files:
        shutil.copy(f, d)
    open(os.path.join(d, name + ".cfg"), "w").write(config)
    defs = re.findall(r"^\\\* DEF (.*)$", config, re.M)
    if defs:
        mc = "MC" + module
        open(os.path.join(d, mc + ".tla"), "w").write(
            "---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (mc, module, "\n".join(defs)))
        module = mc
    outp = os.path.join(d, "out.txt")
    jar = "/opt/veriftools/tla/tla2tools.jar"
    cp = jar
    for c in glob.glob("/opt/veriftools/tla/*.jar"):
        if c != jar:
            cp += ":" + c
    cmd = ["java", "-Xmx" + mem, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-config", name + ".cfg"] + list(args) + [module + ".tla"]
    with open(outp, "w") as o:
        rc, _ = run(cmd, timeout, cwd=d, stdout=o, stderr=subprocess.STDOUT)
    info = []
    with open(outp, errors="replace") as f:
        for line in f:
            if line.startswith("<<"):
                continue
            info.append(line.rstrip("\n")[:2000])
    text = "\n".join(info)
    if rc != 0:
        keep = os.path.join(sub("log"), name + ".tlc")
        open(keep, "w").write(text)
        raise Trouble("TLC on %s (%s) ended with %s:\n%s" % (module, name, rc, text[text.find("Error:"):][:1500]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text.replace(",", "")) or \
        re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", text)
    gen = dist = 0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, \d+ states left", text)
    if m:
        gen, dist = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r"number of states generated: ([\d,]+)", text)
        if m:
            gen = int(m[-1].replace(",", ""))
        m = re.findall(r"Progress: ([\d,]+) states checked", text)
        if m:
            gen = max(gen, int(m[-1].replace(",", "")))
    TOTAL.states += gen
    TOTAL.distinct += dist
    TOTAL.runs.append({"module": module, "config": name, "generated": gen, "distinct": dist})
    return outp


def unquote(line, tag):
    """The strings and numbers of a tuple printed by PrintT"""
    body = line.rstrip("\n")
    assert body.startswith('<<"%s"' % tag) and body.endswith(">>"), body[:200]
    return body[2:-2]


def printed(path, tag):
    """Last component, a string, of all the <<tag, ..., string>> in TLC's output, with the numbers in between"""
    pre = '<<"%s", ' % tag
    with open(path, errors="replace") as f:
        for line in f:
            if not line.startswith(pre):
                continue
            body = line.rstrip("\n")[len(pre):]
            if not body.endswith('">>'):
                raise Trouble("garbled output of TLC: " + line[:200])
            body = body[:-2]
            q = body.index('"')
            nums = [int(x) for x in body[:q].split(",") if x.strip()]
            yield nums, json.loads(body[q:])


def simulate(module, consts, name, num, depth, seed, shards=None, timeout=600, invariants=("Inv",), var="Depth"):
    """Behaviours of length depth chosen at random, one NDJSON file per shard"""
    shards = shards or NCPU
    files = []

    def one(k):
        c = dict(consts, Sim=True, **{var: depth})
        # TLC evaluates emission when the behaviour has its full length
        out = tlc(module, cfg(c, invariants=list(invariants) + ["EmitHist"]), "%s-sim%d" % (name, k),
                  ["-simulate", "num=%d" % num, "-depth", str(depth * (8 if c.get("Script") else 1) + 1), "-seed", str(seed * 1000 + k)],
                  workers=1, timeout=timeout)
        seen = set()
        fn = os.path.join(sub("beh"), "%s-%d.ndjson" % (name, k))
        with open(fn, "w") as f:
            for _, s in printed(out, "BEH"):
                h = hashlib.md5(s.encode()).digest()
                if h in seen:
                    continue
                seen.add(h)
                f.write(s + "\n")
        os.unlink(out)
        return fn, len(seen)

    with cf.ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    n = sum(r[1] for r in res)
    if n == 0:
        raise Trouble("no behaviours from %s" % name)
    return [r[0] for r in res], n


def cover(module, consts, name, timeout=600, invariants=("Inv",), properties=(), constraints=("Short",), maxlen=60, shards=None, limit=None,
          workers=None, seed=1):
    """Explore all states within small bounds and give behaviours that go through all the transitions (or limit of
    them, chosen at random). Behaviours are lists of steps {act, <state>}."""
    import random
    shards = shards or NCPU
    c = dict(consts, Sim=False, Depth=0)
    out = tlc(module, cfg(c, invariants=list(invariants) + ["EmitState"], properties=properties,
                          constraints=constraints, action_constraints=["EmitEdge"], view="View"), name + "-all", workers=workers or NCPU,
              timeout=timeout, mem="6g")
    states = {}
    for nums, s in printed(out, "ST"):
        states[tuple(nums)] = s
    edges = {}
    nedges = 0
    seen = set()
    for nums, a in printed(out, "ED"):
        s, t = tuple(nums[:2]), tuple(nums[2:])
        k = (s, t, hash(a))
        if k in seen:
            continue
        seen.add(k)
        edges.setdefault(s, []).append((t, a))
        nedges += 1
    del seen
    os.unlink(out)
    # the initial state is the first one printed
    root = next(iter(states))
    # breadth first tree
    parent = {root: None}
    order = [root]
    for s in order:
        for t, a in edges.get(s, ()):
            if t not in parent and t in states:
                parent[t] = (s, a)
                order.append(t)

    states = {s: states[s] for s in parent}
    nedges = sum(len(edges.get(s, ())) for s in states)

    def path(s):
        p = []
        while parent[s] is not None:
            q, a = parent[s]
            p.append((a, s))
            s = q
        return p[::-1]

    rnd = random.Random(seed)
    todo = {s: [e for e in l if e[0] in states] for s, l in edges.items() if s in states}
    for l in todo.values():
        rnd.shuffle(l)
    if limit is not None and limit < nedges:
        starts = [s for s in order if todo.get(s)]
        rnd.shuffle(starts)
    else:
        # deep states first, their paths cover tree edges on the way
        starts = order[::-1]
    done = 0
    files = [open(os.path.join(sub("beh"), "%s-c%d.ndjson" % (name, k)), "w") for k in range(shards)]
    nb = nsteps = 0
    defined = [{} for _ in files]
    pos = {s: i for i, s in enumerate(starts)}

    def shard_of(s):
        return pos[s] * shards // len(starts)

    for s in starts:
        while todo.get(s) and (limit is None or done < limit):
            steps = path(s)
            cur = s
            while todo.get(cur) and len(steps) < maxlen:
                t, a = todo[cur].pop()
                done += 1
                steps.append((a, t))
                cur = t
            k = shard_of(s)
            for _, t in steps:
                if t not in defined[k]:
                    defined[k][t] = len(defined[k])
                    files[k].write('{"id":%d,"state":%s}\n' % (defined[k][t], states[t]))
            files[k].write("[" + ",".join('{"act":%s,"s":%d}' % (a, defined[k][t]) for a, t in steps) + "]\n")
            nb += 1
            nsteps += len(steps)
    for f in files:
        f.close()
    log("%s: %d states, %d transitions, %d of them in %d behaviours with %d steps" %
        (name, len(states), nedges, done, nb, nsteps))
    return [f.name for f in files], {"states": len(states), "edges": nedges, "replayed": done, "behaviours": nb,
                                     "steps": nsteps}


# ---------------------------------------------------------------------------
# replay
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:handle_abort=1",
            "UBSAN_OPTIONS": "print_stacktrace=1",
            "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1"}


def _drive(binary, fn, tag, timeout, extra=(), env=None):
    st = os.path.join(sub("status"), tag)
    rc, out = run([binary, fn, st] + list(extra), timeout, env=dict(os.environ, **ASAN_ENV, **(env or {})))
    return rc, out, st


def describe(rc, out):
    for l in out.splitlines():
        if l.startswith("MISMATCH"):
            return l[:1500]
    if rc is None:
        return "does not come to an end"
    for l in out.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "WARNING: ThreadSanitizer" in l or "terminate called" in l:
            return l[:600]
    return "ends with status %s: %s" % (rc, out[-500:])


def extract(fn, b, to):
    """Write behaviour number b of a file, on its own, to another file"""
    defs = {}
    n = -1
    with open(fn) as f:
        for l in f:
            if l.startswith('{"id":'):
                defs[int(l[6:l.index(",")])] = l
            elif l.strip():
                n += 1
                if n == b:
                    with open(to, "w") as o:
                        for i in sorted(set(int(x) for x in re.findall(r'"s":(\d+)}', l))):
                            if i in defs:
                                o.write(defs[i])
                        o.write(l)
                    return
    raise Trouble("no behaviour %d in %s" % (b, fn))


def replay(binary, files, timeout=400, extra=(), env=None, retry=2):
    """Replay behaviours on the real code. A mismatch counts if it can be seen again."""
    def one(fn):
        tag = os.path.basename(fn) + ".st"
        return fn, _drive(binary, fn, tag, timeout, extra, env)

    steps = behs = checks = 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, files))
    for fn, (rc, out, st) in res:
        if rc == 0:
            m = re.search(r"^OK behaviours (\d+) steps (\d+) checks (\d+)", out, re.M)
            if not m:
                raise Trouble("driver gave no summary: " + out[-500:])
            behs += int(m[1])
            steps += int(m[2])
            checks += int(m[3])
            continue
        if "driver:" in out and "MISMATCH" not in out and "Sanitizer" not in out:
            raise Trouble("driver trouble: " + out[-1500:])
        try:
            b = int(open(st).read().split()[0])
        except (OSError, ValueError, IndexError):
            raise Trouble("driver did not start: %s %s" % (rc, out[-1500:]))
        single = os.path.join(sub("log"), "failing.ndjson")
        extract(fn, b, single)
        for k in range(retry):
            rc2, out2, _ = _drive(binary, single, "single.st", timeout, extra, env)
            if rc2 != 0:
                raise Violation(describe(rc2, out2), [single])
        # perhaps it takes what has been done before
        rc2, out2, _ = _drive(binary, fn, "again.st", timeout, extra, env)
        if rc2 != 0:
            keep = os.path.join(sub("log"), "failing-all.ndjson")
            shutil.copy(fn, keep)
            raise Violation(describe(rc2, out2), [keep])
        log("a mismatch that could not be seen again: " + describe(rc, out))
    return {"behaviours": behs, "steps": steps, "checks": checks}


# ---------------------------------------------------------------------------
# results
def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m[1] == pid:
                res.append((m[2], m[3].strip()))
    return res


def finish(pid, tier, level, coverage, assumptions, violations, t0):
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": level, "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": violations}
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, pid + ".json"))


def keep_replay(pid, files, msg):
    """Keep what shows a violation, give its path"""
    os.makedirs(EVID, exist_ok=True)
    d = os.path.join(EVID, "replay-" + pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "what.txt"), "w").write(msg + "\n")
    for f in files:
        if os.path.exists(f):
            shutil.copy(f, d)
    return d
