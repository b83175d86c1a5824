"""Comparing two versions of a datamodel, spec/Schema.tla"""
import contextlib
import io
import json
import os
import re
import subprocess
import sys
import tempfile
import yaml

import machine
from podio_gen.podio_config_reader import PodioConfigReader
import podio_schema_evolution as pse

CATS = {"m": "Members", "v": "VectorMembers", "o": "OneToOneRelations", "r": "OneToManyRelations"}
_dir = tempfile.mkdtemp(prefix="schema-")
_cache = {}


def cached(make, *key):
    k = json.dumps([make.__name__, *key])
    if k not in _cache:
        if len(_cache) > 3000:
            _cache.clear()
        _cache[k] = make(*key)
    return _cache[k]


def definition(model, version):
    """In the form of the yaml file"""
    def members(ms, extra):
        return ["%s %s%s" % (t, n, extra) for n, t in ms]
    res = {"schema_version": version, "options": {"exposePODMembers": False}, "components": {}, "datatypes": {}}
    for n, m in model["c"]:
        res["components"][n] = {"Members": members(m["m"], "")}
    for n, m in model["d"]:
        res["datatypes"][n] = {"Description": "d", "Author": "a",
                               **{CATS[k]: members(m[k], " // something") for k in CATS if m[k] or version % 2}}
    return res


def read(model, version):
    return PodioConfigReader.parse_model(definition(model, version), "dm")


def to_file(content):
    fd, p = tempfile.mkstemp(dir=_dir, suffix=".yaml")
    with os.fdopen(fd, "w") as f:
        yaml.safe_dump(content, f, sort_keys=False)
    return p


def evo_file(evo):
    mig = {}
    for c, k, f, t in evo:
        mig.setdefault(c, []).append({"from_version": 1, "to_version": 2, "rename_member" if k == "m" else "rename_datatype": {"from": f, "to": t}})
    return to_file({"migrations": mig})


class Machine:
    def __init__(self):
        self.old = {"c": [], "d": []}
        self.new = {"c": [], "d": []}
        self.evo = []

    def part(self, n):
        for f in "cd":
            for i, (m, d) in enumerate(self.new[f]):
                if m == n:
                    return f, i, d
        raise machine.DriverTrouble("no definition " + n)

    def perform(self, a):
        op = a["op"]
        self.new = json.loads(json.dumps(self.new))
        if op == "AddDef":
            comp = a["n"].startswith("C")
            d = [a["n"], {"m": []} if comp else {k: [] for k in CATS}]
            self.new["c" if comp else "d"].insert(0 if a["first"] else 1000, d)
        elif op == "CopyData":
            self.new["d"].append([a["t"], json.loads(json.dumps(self.part(a["n"])[2]))])
        elif op == "DropDef":
            f, i, _ = self.part(a["n"])
            del self.new[f][i]
        elif op == "RenameDef":
            f, i, _ = self.part(a["n"])
            self.new[f][i][0] = a["t"]
            for g in "cd":
                for _, d in self.new[g]:
                    for k in d:
                        d[k] = [[n, re.sub(r"\b%s\b" % a["n"], a["t"], t)] for n, t in d[k]]
        elif op == "AddM":
            self.part(a["c"])[2][a["k"]].append([a["n"], a["t"]])
        elif op == "DropM":
            d = self.part(a["c"])[2]
            d[a["k"]] = [m for m in d[a["k"]] if m[0] != a["n"]]
        elif op == "RenameM":
            for m in self.part(a["c"])[2][a["k"]]:
                if m[0] == a["n"]:
                    m[0] = a["t"]
        elif op == "Retype":
            for m in self.part(a["c"])[2][a["k"]]:
                if m[0] == a["n"]:
                    m[1] = a["t"]
        elif op == "Move":
            d = self.part(a["c"])[2]
            d[a["t"]] += [m for m in d[a["k"]] if m[0] == a["n"]]
            d[a["k"]] = [m for m in d[a["k"]] if m[0] != a["n"]]
        elif op == "Reverse":
            self.new = {k: v[::-1] for k, v in self.new.items()}
        elif op == "Evolve":
            self.evo = self.evo + [[a["c"], a["k"], a["f"], a["t"]]]
        elif op == "Release":
            self.old, self.evo = self.new, []
        elif op == "Back":
            self.new, self.evo = self.old, []
        elif op == "Flip":
            self.old, self.new = self.new, self.old
        else:
            raise machine.DriverTrouble(op)

    def observe(self, want):
        new = cached(read, self.new, 2)
        old = cached(read, self.old, 1)
        evo = cached(evo_file, self.evo) if self.evo else None
        return compare(new, old, evo, self)


def compare(new, old, evo, m=None):
    comparator = pse.DataModelComparator(new)
    detected = comparator.compare(old)
    judge = pse.SchemaEvolutionJudge(new, evolution_file=evo)
    results = judge.judge(old, list(detected))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ok = comparator.print_comparison(results)
    sample = machine.variant(331) == 0 and m is not None
    if sample:
        command_line(m, evo, out.getvalue(), ok)
    warnm, warnc = [], []
    for w in results.warnings:
        q = re.findall(r"'([^']*)'", w)
        if len(q) >= 3:
            warnm.append({"c": q[0], "f": q[1], "t": q[2]})
        elif len(q) == 2:
            warnc.append(q)
        else:
            machine.mismatch("a warning that does not tell what it is about: " + w)
    return {
        "set_changes": [change(c) for c in results.schema_changes],
        "set_warnm": warnm, "set_warnc": warnc,
        "set_errors": [of_error(e, detected) for e in results.errors],
        "groups": {k: len(v) for k, v in comparator.get_changed_schemata(results).items()},
        "set_renames": list(comparator.get_changed_schemata(results, pse.root_filter)),
        "ok": ok}


def change(c):
    k = type(c).__name__
    if k == "ChangedMemberType":
        return {"k": "Changed", "c": c.klassname, "m": c.old_member.name, "f": c.old_member.full_type, "t": c.new_member.full_type}
    if k == "RenamedMember":
        return {"k": k, "c": c.klassname, "f": c.member_name_old, "t": c.member_name_new}
    if k == "RenamedDataType":
        return {"k": k, "c": c.klassname, "f": c.name_old, "t": c.name_new}
    if hasattr(c, "member"):
        return {"k": k, "c": c.klassname, "m": c.member.name}
    return {"k": k, "c": c.klassname}


def of_error(e, detected):
    """The change an error is about"""
    cand = []
    for c in detected:
        d = change(c)
        if "f" in d and d["k"] == "Changed":
            if all("'%s'" % d[x] in e for x in "cmft"):
                cand.append(d)
        elif str(c) in e:
            cand.append(d)
    return cand[0] if len(cand) == 1 else e


def command_line(m, evo, text, ok):
    """podio_schema_evolution.py tells the same, whatever the hash seed"""
    a, b = to_file(definition(m.new, 2)), to_file(definition(m.old, 1))
    for seed in ("1", "77", "4242"):
        p = subprocess.run([sys.executable, os.path.join(machine.REPO, "python", "podio_schema_evolution.py"), a, b] + (["--evo", evo] if evo else []),
                           env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        machine.check(p.returncode == (0 if ok else 1), "podio_schema_evolution.py ends with %d: %s" % (p.returncode, p.stderr[-300:]))
        machine.check(p.stdout == text, "podio_schema_evolution.py tells %r instead of %r" % (p.stdout, text))
    os.unlink(a)
    os.unlink(b)
