"""Frames used by several threads. spec/FrameConc.tla is the protocol, explored
completely, and the source of schedules for the real code; what the threads see
has to be explained by spec/FrameLin.tla."""
import concurrent.futures as cf
import json
import os
import re
import vlib

PROPERTIES = {"P09": "model_checking", "P10": "model_checking"}

OPS = {"P09": ["get", "put", "avail", "ids", "setp", "getp", "keys", "write", "print"],
       "P10": ["get", "use", "write", "hand"]}


def schedules(pid, k, names, threads, nops, num, ops, keys):
    """Scenarios with free interleavings at the gates"""
    c = dict(Names=names, MaxRaw=len(names), Threads=list(range(1, threads + 1)), OpNames=ops, Keys=keys, NOps=nops,
             Locked=False, Sim=True)
    out = vlib.tlc("FrameConc", vlib.cfg(c, invariants=["Emit"]), "%s-sch%d" % (pid, k),
                   ["-simulate", "num=%d" % num, "-depth", "400", "-seed", str(vlib.SEED * 100 + k)])
    res = sorted({s for _, s in vlib.printed(out, "BEH")})
    os.unlink(out)
    return res


def all_schedules(pid, ops, nops=1):
    """All interleavings of two threads at the gates, for all small graphs"""
    c = dict(Names=["na", "nb"], MaxRaw=2, Threads=[1, 2], OpNames=ops, Keys=["k1"], NOps=nops, Locked=False, Sim=False)
    out = vlib.tlc("FrameConc", vlib.cfg(c, invariants=["Emit"]), "%s-all" % pid, workers=vlib.NCPU, mem="8g")
    res = sorted({s for _, s in vlib.printed(out, "BEH")})
    os.unlink(out)
    return res


def drive(drv, scen, mode, reps, tag):
    fn = os.path.join(vlib.sub("conc"), tag)
    with open(fn + ".in", "w") as f:
        f.write("\n".join(scen) + "\n")
    env = dict(os.environ, **vlib.ASAN_ENV)
    rc, out = vlib.run([drv, fn + ".in", fn + ".st", fn + ".hist", mode, str(reps)], 500, env=env)
    if rc != 0:
        if "driver:" in out or (rc is not None and "ThreadSanitizer" not in out and "terminate" not in out and rc not in (-6, -11, 134, 139)):
            raise vlib.Trouble("concurrency driver: %s %s" % (rc, out[-1500:]))
        if "unexpected memory mapping" in out:
            raise vlib.Trouble(out[-500:])
        with open(fn + ".out", "w") as f:
            f.write(out)
        no = int((open(fn + ".st").read().split() or ["0"])[0])
        with open(fn + ".scenario", "w") as f:
            f.write(scen[no] + "\n")
        m = re.findall(r"SUMMARY: (.*)", out)
        what = ("threads do not come to an end" if rc is None else m[0][:400] if m else out[-400:])
        raise vlib.Violation("%s, mode %s, scenario %s" % (what, mode, scen[no][:800]), [fn + ".scenario", fn + ".out"])
    return open(fn + ".hist").read().splitlines()


def explain(hist, tag):
    """Every history has to be explained by FrameLin"""
    if not hist:
        return
    fn = os.path.join(vlib.sub("conc"), tag)
    with open(fn + ".hist", "w") as f:
        f.write("\n".join(hist) + "\n")
    out = vlib.tlc("FrameLin", vlib.cfg(dict(TraceFile=fn + ".hist"), invariants=["Accept"]), "lin-" + tag, timeout=900)
    acc = {n[0] for n, _ in vlib.printed(out, "ACC")}
    os.unlink(out)
    for i, h in enumerate(hist):
        if i + 1 not in acc:
            with open(fn + ".history", "w") as f:
                f.write(h + "\n")
            raise vlib.Violation("no order of the calls explains the history " + h[:1500], [fn + ".history"])


def check(pid, tier, cov, assumptions):
    big = tier == "thorough"
    ops = OPS[pid]
    assumptions += ["histories are recorded with one atomic counter; schedules are followed at calls of the raw data and "
                    "of collections, as far as locks allow", "data races are those ThreadSanitizer sees"]
    d = vlib.build(["conc_driver"], "tsan")
    drv = d + "/conc_driver"
    # the protocol itself
    for c in [dict(Names=["na", "nb"], MaxRaw=2, Threads=[1, 2], NOps=1)] + \
             ([dict(Names=["na", "nb"], MaxRaw=2, Threads=[1, 2, 3], NOps=1), dict(Names=["na", "nb"], MaxRaw=2, Threads=[1, 2], NOps=2),
               dict(Names=["na", "nb", "nc"], MaxRaw=3, Threads=[1, 2], NOps=1)] if big else []):
        c.update(OpNames=["get", "put", "avail"], Keys=[], Locked=True, Sim=False)
        vlib.tlc("FrameConc", vlib.cfg(c, invariants=["Inv"], view="NoSched", deadlock=True), "%s-protocol" % pid,
                 workers=vlib.NCPU, timeout=1500, mem="12g")
    cov["states"] = vlib.TOTAL.distinct
    cov["transitions"] = vlib.TOTAL.states
    vlib.log("protocol explored, %d states" % cov["states"])
    names = ["na", "nb", "nc"]
    num = 900 if big else 110
    with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
        jobs = [ex.submit(schedules, pid, k, names, 3 if k % 2 else 2, 2 + k % 3 // 2, num, ops, ["k1", "k2"])
                for k in range(vlib.NCPU)]
        scen = [j.result() for j in jobs]
    if big:
        import random
        small = all_schedules(pid, ["get", "put", "avail"] if pid == "P09" else ["get", "use"])
        cov["interleavings_of_two_threads"] = len(small)
        random.Random(vlib.SEED).shuffle(small)
        small = [small[k::vlib.NCPU] for k in range(vlib.NCPU)]
    else:
        with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
            jobs = [ex.submit(schedules, pid, 50 + k, names[:2], 2, 1, 60, ["get", "put", "avail"] if pid == "P09" else ["get", "use"], ["k1"])
                    for k in range(vlib.NCPU)]
            small = [j.result() for j in jobs]
    cov["schedules_followed"] = sum(map(len, scen)) + sum(map(len, small))
    vlib.log("%d schedules" % cov["schedules_followed"])
    jobs = []
    with cf.ThreadPoolExecutor(4) as ex:
        for k in range(vlib.NCPU):
            jobs.append((k, ex.submit(drive, drv, scen[k], "spy", 1, "spy%d" % k)))
            jobs.append((k, ex.submit(drive, drv, scen[k], "real", 1, "real%d" % k)))
            jobs.append((k, ex.submit(drive, drv, scen[k], "realfree", 10 if big else 2, "free%d" % k)))
            jobs.append((k, ex.submit(drive, drv, small[k], "spy", 1, "small%d" % k)))
    hist = {}
    for k, j in jobs:
        hist.setdefault(k, []).extend(j.result())
    vlib.log("%d histories" % sum(map(len, hist.values())))
    chunks = [(k, i, h[i:i + 4000]) for k, h in hist.items() for i in range(0, len(h), 4000)]
    with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
        for j in [ex.submit(explain, h, "h%d-%d" % (k, i)) for k, i, h in chunks]:
            j.result()
    cov["traces_validated_against_impl"] = sum(map(len, hist.values()))
    cov["samples"] = [json.loads(s) for s in scen[1][:3]]
    vlib.log("%d histories explained" % cov["traces_validated_against_impl"])
