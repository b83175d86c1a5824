"""Properties decided with spec/Edm.tla: TLC explores everything within small
bounds, checking the invariants, and the real code has to follow behaviours that
go through the transitions found, as well as long random behaviours within
larger bounds."""
import concurrent.futures as cf
import json
import vlib

PROPERTIES = {p: "model_checking" for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08")}

ALL = ["Hit", "Node", "Item", "Holder", "One", "Many", "Vec", "HNLink", "NNLink", "NELink"]
OBJ = ["NewObj", "DropHandle", "ToConst", "HandleOps", "GetRel", "GetElem"]
FILL = ["SetField", "AddVec", "SetOne", "AddMany"]
COLL = ["NewColl", "Create", "Push", "Subset"]
COLLX = ["FromRange", "SetSubset", "Clear", "DropColl", "MoveColl", "MoveInto", "AtBad"]
FRAME = ["NewFrame", "Put", "Get"]
IO = ["Write", "Read"]

BASE = dict(Types=ALL, Names=["na", "nb", "nc", "nd"], Keys=[], MaxObj=60, MaxColl=30, MaxFrame=6, MaxStore=6,
            MaxVal=3, MaxRel=4, MaxEl=5, MaxLevel=0, Script=vlib.Seq())


def small(types, names, ops, obj, coll, frame=1, store=1, val=1, rel=1, el=2, keys=(), level=0, script=()):
    return dict(Types=types, Names=names, Keys=list(keys), Ops=ops, MaxObj=obj, MaxColl=coll, MaxFrame=frame,
                MaxStore=store, MaxVal=val, MaxRel=rel, MaxEl=el, MaxLevel=level, Script=vlib.Seq(script))


RT = ["Create", "NewColl", "NewFrame", "Put", "Write", "Read", "Get"]
START = ["NewColl", "NewColl", "NewFrame", "Create", "Create"]


def chain(types, n):
    """Relations over many collections, which are read again starting from any of them"""
    script = ["NewColl"] * n + ["Create"] * (n + 3) + ["AddMany"] * (n + 1) + ["SetOne"] * (n + 1) + ["NewFrame"] + ["Put"] * n + ["Write"] + ["Read", "Get"] * 3
    names = ["na", "nb", "nc", "nd", "ne", "nf", "ng"][:n]
    return (dict(BASE, Ops=sorted(set(script)), Types=types, Names=names, MaxEl=2, Script=vlib.Seq(script)), len(script))


def plan(pid, big):
    """(simulation configurations [(constants, depth)], exhaustive configurations) of a property"""
    def lv(quick, thorough):
        return thorough if big else quick
    if pid == "P01":
        ops = ["NewObj"] + FILL + ["NewColl", "Subset", "Create", "Push", "GetElem", "NewFrame", "Put", "PutParam",
                                   "Write", "Read", "Get"]
        return ([(dict(BASE, Ops=ops, Keys=["k1", "k2", "k3"]), 60),
                 (dict(BASE, Ops=ops, Types=["Node", "Hit", "HNLink"], MaxEl=8), 70)],
                [small(["Many", "One"], ["na", "nb"], RT + ["AddMany", "SetOne"], 4, 4, 2, 1, el=1, level=lv(10, 12),
                       script=START),
                 small(["Hit"], ["na", "nb"], RT + ["Subset", "Push"], 2, 4, 2, 1, level=lv(8, 9))])
    if pid == "P02":
        ops = FILL + ["NewColl", "Subset", "Create", "Push", "GetElem", "NewFrame", "Put", "Write", "WriteSome", "Read",
                      "ReadSome", "Get", "GetRel"]
        return ([(dict(BASE, Ops=ops), 60),
                 (dict(BASE, Ops=ops, Types=["Node", "Hit", "NNLink"], Names=["na", "nb", "nc", "nd", "ne"], MaxEl=3), 70),
                 chain(["Node"], 5), chain(["Node", "One", "Many", "Holder"], 7)],
                [small(["Many", "One"], ["na", "nb"], RT + ["AddMany", "SetOne", "ReadSome", "WriteSome"], 4, 4, 2, 1, el=1,
                       level=lv(10, 12), script=START),
                 small(["HNLink", "Hit"], ["na", "nb"], RT + ["SetOne", "GetElem", "ReadSome"], 4, 4, 2, 1, el=1,
                       level=lv(9, 11), script=START)])
    if pid == "P03":
        ops = ["NewColl", "Create", "SetField", "NewFrame", "Put", "Get", "PutParam", "DropFrame", "MoveFrame", "Write",
               "Read", "ReadSome", "GetElem", "DropColl"]
        return ([(dict(BASE, Ops=ops, Keys=["k1", "k2", "k3"], MaxFrame=12, MaxEl=3), 60)],
                [small(["Hit"], ["na", "nb"], ["NewColl", "Create", "NewFrame", "Put", "Get", "DropFrame", "MoveFrame", "Write",
                                               "Read", "ReadSome"], 2, 3, 2, 1, el=1, level=lv(10, 12)),
                 small(["Hit", "Vec"], ["na", "nb"], ["NewColl", "NewFrame", "Put", "Get", "PutParam", "DropFrame"], 0, 3, 2,
                       0, el=0, keys=["k1"], level=lv(9, 12))])
    if pid == "P04":
        ops = OBJ + ["SetField"] + COLL + COLLX + ["NewFrame", "Put", "Get"]
        return ([(dict(BASE, Ops=ops, MaxObj=90, MaxColl=40), 60),
                 (dict(BASE, Ops=ops + ["Write", "Read"], Types=["Node", "Hit", "NNLink"], MaxObj=90, MaxColl=40), 70)],
                [small(["Hit"], ["na"], ["NewObj", "ToConst", "GetElem", "DropHandle"] + COLL + COLLX, 3 if big else 2, 2, 0, 0),
                 small(["NNLink"], ["na"], ["NewObj", "ToConst", "DropHandle"] + COLL + COLLX, 2, 2, 0, 0),
                 small(["Vec"], ["na"], ["NewObj", "GetElem", "AddVec"] + COLL + COLLX, 2, 2, 0, 0, level=lv(7, 0))])
    if pid == "P05":
        ops = OBJ + FILL + COLL + COLLX + ["Clone"] + ["NewFrame", "Put", "DropFrame", "Get", "Write", "Read"]
        return ([(dict(BASE, Ops=ops, MaxObj=120, MaxColl=40), 70),
                 (dict(BASE, Ops=OBJ + FILL + COLL + ["Clear", "DropColl", "Clone"], MaxObj=120, MaxColl=40), 60)],
                [small(["Many", "One"], ["na"], ["NewObj", "DropHandle", "ToConst", "GetRel", "GetElem", "AddMany", "SetOne",
                                                 "Clone", "NewColl", "Push", "DropColl"], 3, 1, 0, 0, el=2, level=lv(9, 12)),
                 small(["HNLink", "Hit"], ["na"], ["NewObj", "DropHandle", "GetRel", "GetElem", "SetOne", "Clone",
                                                   "NewColl", "Push", "DropColl", "Clear"], 3, 1, 0, 0, el=2, level=lv(8, 11))])
    if pid == "P06":
        ops = OBJ + FILL + ["NewColl", "Create", "Push", "RelBad", "AtBad"]
        return ([(dict(BASE, Ops=ops, MaxObj=90, MaxColl=40), 60),
                 (dict(BASE, Ops=ops, Types=["Node", "Hit", "Item"], MaxObj=90, MaxColl=40, MaxVal=6), 80)],
                [small(["Vec"], ["na"], ["NewObj", "SetField", "AddVec", "ToConst", "NewColl", "Create", "Push"], 2, 1, 0, 0,
                       rel=2, level=lv(8, 10)),
                 small(["Many", "One"], ["na"], ["NewObj", "AddMany", "SetOne", "GetRel", "RelBad", "DropHandle"], 3, 0, 0, 0,
                       rel=2, level=lv(0, 0))])
    if pid == "P07":
        ops = OBJ + FILL + ["Clone", "NewColl", "Create", "Push", "DropColl"]
        return ([(dict(BASE, Ops=ops, MaxObj=120, MaxColl=40), 60),
                 (dict(BASE, Ops=ops + ["NewFrame", "Put", "Get", "Write", "Read"], Types=["Node", "Hit", "Holder", "NELink", "Item"],
                       MaxObj=120, MaxColl=40), 70)],
                [small(["Vec"], ["na"], ["NewObj", "SetField", "AddVec", "Clone", "NewColl", "Push"], 3, 1, 0, 0, rel=1,
                       level=lv(8, 10)),
                 small(["Many", "One"], ["na"], ["NewObj", "AddMany", "SetOne", "Clone", "DropHandle", "GetRel"], 4, 0, 0, 0,
                       rel=1, level=lv(8, 14))])
    if pid == "P08":
        ops = FILL + ["NewObj", "NewColl", "Subset", "Create", "Push", "GetElem", "NewFrame", "Put", "Write", "WriteSome",
                      "Read", "MoveFrame", "DropHandle", "SetSubset", "Clear"]
        return ([(dict(BASE, Ops=ops, MaxStore=12, MaxFrame=4), 70)],
                [small(["Many", "One"], ["na", "nb"], ["NewObj"] + RT + ["AddMany", "Push"], 4, 2, 2, 2, el=1, level=lv(10, 13),
                       script=["NewColl", "Create", "NewFrame", "NewObj"]),
                 small(["Hit"], ["na", "nb"], RT + ["Subset", "Push", "WriteSome"], 2, 4, 2, 2, level=lv(8, 9))])
    raise KeyError(pid)


def check(pid, tier, cov, assumptions):
    thorough = tier == "thorough"
    sims, exhaustive = plan(pid, thorough)
    assumptions += ["the persistent form is the one in memory of cpp/vm_store.h, made from getBuffers() and "
                    "handed back as read buffers, standing in for a file"]
    with cf.ThreadPoolExecutor(2) as ex:
        built = ex.submit(vlib.build, ["edm_driver"], "asan")
        _check(pid, thorough, cov, sims, exhaustive, lambda: built.result() + "/edm_driver")


def _check(pid, thorough, cov, sims, exhaustive, drv):
    cov.update(states=0, transitions=0, traces_validated_against_impl=0, samples=[], steps_replayed=0, comparisons=0)

    def add(r):
        cov["traces_validated_against_impl"] += r["behaviours"]
        cov["steps_replayed"] += r["steps"]
        cov["comparisons"] += r["checks"]

    todo = []
    for i, c in enumerate(exhaustive):
        files, info = vlib.cover("Edm", c, "%s-%d" % (pid, i), properties=("FramedStays",), seed=vlib.SEED,
                                 limit=None if thorough else 20000)
        cov["states"] += info["states"]
        cov["transitions"] += info["edges"]
        todo.append(files)
    num = (1200 if thorough else 60)
    for i, (c, depth) in enumerate(sims):
        files, n = vlib.simulate("Edm", c, "%s-%d" % (pid, i), num, depth, vlib.SEED + i)
        vlib.log("%d random behaviours" % n)
        if len(cov["samples"]) < 3:
            b = json.loads(open(files[0]).readline())
            cov["samples"].append([s["act"] for s in b])
        todo.append(files)
    drv = drv()
    for files in todo:
        r = vlib.replay(drv, files)
        add(r)
        vlib.log("replayed", r)
