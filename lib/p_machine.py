"""Properties decided with specifications that extend spec/Machine.tla: TLC
explores each of them within small bounds, checking its invariants, and the
real code, wrapped into a machine of cpp/m_*.cc, has to follow behaviours that
go through the transitions found and long random behaviours within larger
bounds."""
import concurrent.futures as cf
import json
import vlib

UD = ["float", "double", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t"]

HOPS = ["Take", "New", "Create", "Empty", "Convert", "As", "Assign", "MoveTo", "Swap", "Unlink", "Clone", "Set", "Push", "Drop"]

SCHEMA = ["AddComp", "AddData", "CopyData", "DropDef", "RenameDef", "AddM", "DropM", "RenameM", "Retype", "Move", "Reverse", "Evolve", "Explain",
          "Release", "Back", "Flip"]

MODEL = dict(CompNames=[], DataNames=[], IfaceNames=[], LinkNames=[], Names=[], Types=[], Sizes=[0], Defaults=[""], Units=[""], Descriptions=["what"],
             Flaws=[""], Given=False, MaxM=1, MaxDefs=2)
MODEL_OPS = ["AddDef", "DropDef", "AddM", "DropM", "Change", "Fields", "Ends", "Settings", "Undo"]
ALLTYPES = ["int", "long", "float", "double", "unsigned int", "unsigned", "unsigned long", "char", "short", "bool", "long long", "unsigned long long",
            "int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "uint8_t", "int_fast16_t", "uint_least32_t", "std::string",
            "a::b::C", "Nope"]

# property -> driver, module, small configurations, large configurations
# [(constants, depth)], temporal properties
PLAN = {
    "P11": dict(
        driver="core_driver", module="IdTable", num=150, props=("Stays", "SameHash"),
        small=lambda big: [dict(Ops=["New", "FromLists", "Add", "Move", "MoveInto", "Print"], Names=["a", "b", "f"], Explicit=["x0", "xm"],
                                MaxTab=2, MaxLen=2, MaxLevel=7 if big else 4),
                           dict(Ops=["New", "Add", "Move", "MoveInto"], Names=["a", "c", "d", "g"], Explicit=[], MaxTab=3,
                                MaxLen=0, MaxLevel=8 if big else 6)],
        large=lambda big: [(dict(Ops=["New", "FromLists", "Add", "Move", "MoveInto", "Print"], Names=["a", "b", "c", "d", "e", "f", "g"],
                                 Explicit=["x0", "x1", "xm", "xn", "xs"], MaxTab=6, MaxLen=4, MaxLevel=0), 40)]),
    "P12": dict(
        driver="core_driver", module="Params", num=120, props=("Frugal", "Keeps"),
        small=lambda big: [dict(Ops=["New", "Set1", "SetV", "Load", "Clear", "Copy", "Move", "MoveInto", "Print"], Types=["int", "string"],
                                Keys=["k1", "k2"], MaxVal=2, MaxLen=1, MaxGp=2, MaxLevel=5 if big else 4),
                           dict(Ops=["New", "Set1", "SetV", "Clear", "Print"], Types=["int", "float", "double", "string"],
                                Keys=["k1"], MaxVal=2, MaxLen=2, MaxGp=1, MaxLevel=5 if big else 4)],
        large=lambda big: [(dict(Ops=["New", "Set1", "SetV", "Load", "Clear", "Copy", "Move", "MoveInto", "Print"],
                                 Types=["int", "float", "double", "string"], Keys=["k1", "k2", "k3", "k4"], MaxVal=5, MaxLen=4,
                                 MaxGp=5, MaxLevel=0), 50)]),
    "P13": dict(
        driver="core_driver", module="UserData", props=("FramedStays",),
        small=lambda big: [dict(Ops=["New", "From", "Push", "Resize", "Set", "AtBad", "Clear", "Subset", "SetID", "Move", "MoveInto", "Drop",
                                     "Copy", "Put", "Get", "Print"], Types=["float", "int8_t"], Names=["a"], MaxVal=1, MaxLen=2,
                                MaxColl=2, MaxLevel=5 if big else 4)],
        large=lambda big: [(dict(Ops=["New", "From", "Push", "Resize", "Set", "AtBad", "Clear", "Subset", "SetID", "Move", "MoveInto", "Drop",
                                      "Copy", "Put", "Get", "Print"], Types=UD, Names=["a", "b", "c"], MaxVal=4, MaxLen=6,
                                 MaxColl=14, MaxLevel=0), 60)]),
    "P14": dict(
        driver="core_driver", module="Evolution", props=("UserStays",), invariants=("Inv", "Downward"),
        small=lambda big: [dict(Ops=["RegEv", "RegAll", "Evolve", "Unpack"], Types=["a"], MaxVer=3, MaxFn=5 if big else 4, MaxLevel=8 if big else 6),
                           dict(Ops=["RegMk", "Make"], Types=["a"], MaxVer=3, MaxFn=4 if big else 3, MaxLevel=8 if big else 5)],
        large=lambda big: [(dict(Ops=["RegEv", "RegAll", "Evolve", "Unpack", "RegMk", "Make"], Types=["a", "b", "c"], MaxVer=4, MaxFn=40,
                                 MaxLevel=0), 60)]),
    "P15": dict(
        driver="core_driver", module="Registry", num=200, props=("Stable",),
        small=lambda big: [dict(Ops=["Reg", "NewCollector", "Collect", "Hold"], Models=["A", "B"], Defs=["d1", "d2"], Versions=["v1", "v2"], MaxHold=1,
                                MaxColl=1, MaxLevel=6 if big else 5)],
        large=lambda big: [(dict(Ops=["Reg", "NewCollector", "Collect", "Hold"], Models=["A", "B", "C", "D"], Defs=["d1", "d2", "d3"], Versions=["v1", "v2"],
                                 MaxHold=3, MaxColl=3, MaxLevel=0), 30)]),
    "P16": dict(
        driver="vm_driver", module="Navigator", num=100, props=("Snapshot", "FixedStays"), limit=20000,
        small=lambda big: [dict(Ops=["Create", "SetFrom", "SetTo", "SetWeight", "Clear", "Navigate", "Some", "Clone", "Freeze"], Kinds=[k],
                                MaxObj=1, MaxLinks=2, MaxNav=1, MaxW=1, MaxLevel=7 if big else 5) for k in ("HitNode", "NodeNode", "NodeEnergetic")],
        large=lambda big: [(dict(Ops=["Create", "SetFrom", "SetTo", "SetWeight", "Clear", "Navigate", "Some", "Clone", "Freeze", "CopyNav", "MoveNav",
                                      "AssignNav", "DropNav"], Kinds=["HitNode", "NodeNode", "NodeEnergetic"], MaxObj=3, MaxLinks=7, MaxNav=4,
                                 MaxW=3, MaxLevel=0), 50)]),
    "P17": dict(
        driver="vm_driver", module="Handles", num=50, props=("Independent", "TrackedStay"), invariants=("Inv", "EqualIsEquivalence"), limit=30000,
        small=lambda big: [dict(Ops=HOPS, Types=["Hit"], MaxH=2, MaxObj=2, MaxVal=1, MaxLevel=6 if big else 4),
                           dict(Ops=["Take", "New", "Empty", "Convert", "As", "Assign", "Unlink", "Create"], Types=["Hit", "Item"], MaxH=3, MaxObj=2, MaxVal=0,
                                MaxLevel=6 if big else 5)],
        large=lambda big: [(dict(Ops=HOPS, Types=["Hit", "Node", "Item", "Link"], MaxH=6, MaxObj=14, MaxVal=3, MaxLevel=0), 60)]),
    "P18": dict(
        driver="py", module="Schema", num=15, props=("Calming",), limit=12000,
        small=lambda big: [dict(Ops=["AddM", "DropM", "RenameM", "Retype", "Move", "AddData", "Release", "Explain"], Comps=[], Datas=["D1"], Names=["a", "b"],
                                Plain=["int"], MaxM=2, MaxEvo=1, MaxLevel=8 if big else 6),
                           dict(Ops=["AddComp", "AddData", "CopyData", "DropDef", "RenameDef", "AddM", "Release", "Evolve"], Comps=["C1", "C2"], Datas=["D1", "D2", "D3"],
                                Names=["a"], Plain=["int"], MaxM=1, MaxEvo=1, MaxLevel=6 if big else 4)],
        large=lambda big: [(dict(Ops=SCHEMA, Comps=["C1", "C2", "C3"], Datas=["D1", "D2", "D3", "D4"], Names=["a", "b", "c", "d", "e"],
                                 Plain=["int", "double", "float"], MaxM=4, MaxEvo=4, MaxLevel=0), 60)]),
    "P19": dict(
        driver="py", module="Model", num=15, props=("Reordered", "Upstream"), limit=8000,
        small=lambda big: [dict(MODEL, Ops=["AddDef", "AddM", "DropM", "Change", "Fields", "Settings"], CompNames=["C1"], DataNames=["D1"], Names=["a", "b"],
                                Types=["int", "int16_t", "int8_t", "Nope", "U1", "UD1"], Sizes=[0, 2], Defaults=["", "d1"], Units=["", "mm"], Descriptions=["what"],
                                Flaws=["", "rest"], MaxM=1, MaxDefs=2, MaxLevel=5 if big else 3),
                           dict(MODEL, Ops=["AddDef", "DropDef", "Ends", "Fields", "Settings"], CompNames=["C1"], DataNames=["D1"], IfaceNames=["I1", "D1"],
                                LinkNames=["L1", "I1"], MaxM=0, MaxDefs=3, MaxLevel=6 if big else 4),
                           dict(MODEL, Ops=["AddM", "Undo"], CompNames=["C1"], DataNames=["D1"], Names=["a", "b"],
                                Types=["int"], Given=True, MaxM=2, MaxDefs=2, MaxLevel=5 if big else 4),
                           dict(MODEL, Ops=["Fields", "Settings"], CompNames=["C1"], DataNames=["D1"], Given=True, MaxLevel=5 if big else 3)],
        large=lambda big: [(dict(Ops=MODEL_OPS, CompNames=["C1", "ns::C2", "C3"], DataNames=["D1", "ns::D2", "D3"], IfaceNames=["I1", "ns::I2", "D1", "UD1"],
                                 LinkNames=["L1", "L2", "I1", "UI1", "D1"], Names=["a", "b", "c", "ux", "_e", "f_2"],
                                 Types=ALLTYPES, Sizes=[0, 1, 2, 13], Defaults=["", "d1", "d2", "d3", "d4", "d5", "d6"], Units=["", "mm", "u1", "u2", "u3"],
                                 Descriptions=["what", "", "t1", "t2", "t3", "t4"],
                                 Flaws=["", "noname", "badname", "twonames", "emptydef", "badunit", "openbrace", "rest"],
                                 Given=False, MaxM=5, MaxDefs=7, MaxLevel=0), 50)]),
}
PROPERTIES = {p: "model_checking" for p in PLAN}


def check(pid, tier, cov, assumptions):
    p = PLAN[pid]
    if p["driver"] == "py":
        explore(pid, p, tier == "thorough", cov, lambda: vlib.VERIF + "/py/driver.py")
        return
    with cf.ThreadPoolExecutor(2) as ex:
        built = ex.submit(vlib.build, [p["driver"]], "asan")
        explore(pid, p, tier == "thorough", cov, lambda: built.result() + "/" + p["driver"])


def explore(pid, p, thorough, cov, drv):
    cov.update(states=0, transitions=0, traces_validated_against_impl=0, samples=[], steps_replayed=0, comparisons=0)
    todo = []
    for i, c in enumerate(p["small"](thorough)):
        files, info = vlib.cover(p["module"], c, "%s-%d" % (pid, i), properties=p["props"],
                                 invariants=p.get("invariants", ("Inv",)), seed=vlib.SEED, limit=None if thorough else p.get("limit", 60000))
        cov["states"] += info["states"]
        cov["transitions"] += info["edges"]
        todo.append(files)
    for i, (c, depth) in enumerate(p["large"](thorough)):
        num = p.get("num", 400) * (20 if thorough else 1)
        files, n = vlib.simulate(p["module"], c, "%s-%d" % (pid, i), num, depth, vlib.SEED + i,
                                 invariants=p.get("invariants", ("Inv",)))
        vlib.log("%d random behaviours" % n)
        if len(cov["samples"]) < 3:
            b = json.loads(open(files[0]).readline())
            cov["samples"].append([s["act"] for s in b])
        todo.append(files)
    drv = drv()
    for files in todo:
        r = vlib.replay(drv, files, extra=(p["module"],))
        cov["traces_validated_against_impl"] += r["behaviours"]
        cov["steps_replayed"] += r["steps"]
        cov["comparisons"] += r["checks"]
        vlib.log("replayed", r)
