"""Definitions that are read, spec/Model.tla"""
import copy
import json
import os
import subprocess
import sys
import tempfile
import yaml

import machine
from podio_gen.podio_config_reader import PodioConfigReader
from podio_gen.generator_utils import DataModelJSONEncoder, DefinitionError, DataType

CATS = {"m": "Members", "v": "VectorMembers", "o": "OneToOneRelations", "r": "OneToManyRelations"}
SECTION = {"c": "components", "d": "datatypes", "i": "interfaces", "l": "links"}
FIXED = ("int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "uint8_t", "int_fast16_t", "uint_least32_t")
# what stands for what
TEXTS = {"d1": "3", "d2": "3.14f", "d3": "1, 2", "d4": "{1, 2}, {3}", "d5": "f(x)[0]", "d6": "a b", "u1": "GeV", "u2": "cm^2", "u3": "m/s",
         "t1": "with {braces} // and [brackets]", "t2": "x{3} [mm] // y", "t3": "ends with }", "t4": "a: b, 'c' \"d\""}
IDS = {v: k for k, v in TEXTS.items()}
_dir = tempfile.mkdtemp(prefix="model-")
with open(os.path.join(_dir, "code.txt"), "w") as _f:
    _f.write("two")

FILE = "code.txt"
EXTRA = {"": {}, "text": {"ExtraCode": {"declaration": "one"}}, "file": {"ExtraCode": {"declarationFile": FILE}},
         "both": {"ExtraCode": {"declaration": "one", "declarationFile": FILE}},
         "incl": {"ExtraCode": {"includes": "three", "declarationFile": FILE}},
         "impl": {"ExtraCode": {"implementation": "one", "implementationFile": FILE, "includes": "three"}},
         "mutable": {"ExtraCode": {"declaration": "one"}, "MutableExtraCode": {"declarationFile": FILE, "declaration": "one", "implementationFile": FILE}},
         "bogus": {"ExtraCode": {"implementations": "one"}}, "bogus impl": {"ExtraCode": {"declaration": "one", "Includes": "three"}}}

UPSTREAM = {
    "schema_version": 4, "options": {"includeSubfolder": True, "exposePODMembers": False},
    "components": {"U1": {"Members": ["int a", "double ux"]}, "up::U2": {"Members": ["U1 uy"]}},
    "datatypes": {"UD1": {"Description": "d", "Author": "a", "Members": ["U1 u // something"]}, "up::UD2": {"Description": "d", "Author": "a"}},
    "interfaces": {"UI1": {"Description": "d", "Author": "a", "Types": ["UD1"], "Members": []}}}


def spelled(x, bare, pick):
    """A member in one of the ways it can be written down. pick(n, what): some number below n"""
    sp = lambda what: " " * pick(3, what)
    t = x["t"]
    if t in FIXED and pick(2, "std"):
        t = "std::" + t
    if x["a"]:
        t = sp("a") + "std::array" + sp("b") + "<" + sp("c") + t + sp("d") + "," + sp("e") + str(x["a"]) + sp("f") + ">"
    else:
        t = sp("a") + t
    flaw = x["flaw"]
    x = {k: TEXTS.get(v, v) for k, v in x.items()}
    if flaw:
        x = dict(x, desc="what", **{"def": "3"})  # nothing that makes sense of it
    if flaw == "noname" and " " in x["t"]:
        flaw = "badname"
    name = {"noname": "", "badname": "1" + x["n"], "twonames": x["n"] + " and"}.get(flaw, x["n"])
    s = t + " " + sp("g") + name + sp("h")
    if flaw == "emptydef":
        s += "{}"
    elif flaw == "openbrace":
        s += "{" + x["def"]
    elif x["def"]:
        s += "{" + x["def"] + "}"
    s += sp("i")
    if flaw == "badunit":
        s += "[1/mm]"
    elif x["unit"]:
        s += "[" + x["unit"] + "]"
    s += sp("j")
    if flaw == "rest":
        s += ", more "
    if x["has"]:
        s += "//" + sp("k") + x["desc"] + sp("l")
    return s


def definition(m, pick):
    """In the form of the yaml file"""
    res = {}
    if m["sv"] != "missing":
        res["schema_version"] = {"none": None, "'3'": "3", "1.0": 1.0}.get(m["sv"], int(m["sv"]) if m["sv"].lstrip("-").isdigit() else m["sv"])
    opts = {"exposePODMembers": m["expose"], "getSyntax": m["getters"], "includeSubfolder": m["sub"]}
    default = {"exposePODMembers": True, "getSyntax": False, "includeSubfolder": False}
    opts = {k: v for k, v in opts.items() if v != default[k] or pick(2, k)}
    if opts or pick(2, "opts"):
        res["options"] = opts
    for nd, d in enumerate(m["d"]):
        p = lambda n, what: pick(n, what + d["n"])
        content = {}
        if d["k"] != "c" or p(2, "desc"):
            content["Description"] = "What it is"
            content["Author"] = "Who"
        for k in CATS:
            if k in d:
                if d[k] or d["k"] in "ci" or p(2, "empty" + k):
                    content[CATS[k]] = [spelled(x, d["k"] == "c", lambda n, what: p(n, what + k + str(i))) for i, x in enumerate(d[k])]
        if d["k"] == "i":
            content["Types"] = list(d["types"])
        if d["k"] == "l":
            content["From"], content["To"] = d["from"], d["to"]
        extra = EXTRA[d["code"]]
        for sec, entries in extra.items():
            entries = dict(entries)
            for k in entries:
                if k.endswith("File") and not p(2, "rel" + k):
                    entries[k] = os.path.join(_dir, entries[k])
            if p(2, "turn" + sec):
                entries = dict(reversed(entries.items()))
            content[sec] = entries
        if d["lacks"]:
            content.pop(d["lacks"], None)
        if d["odd"]:
            content[d["odd"]] = [[], "something", {}][p(3, "odd")]
        if p(2, "turn"):
            content = dict(reversed(content.items()))
        res.setdefault(SECTION[d["k"]], {})[d["n"]] = content
    for s in SECTION.values():
        if pick(4, s) == 0:
            res.setdefault(s, {})
    return res


def member(x):
    return {"n": x.name, "def": IDS.get(x.default_val, x.default_val or ""), "unit": IDS.get(x.unit, x.unit or ""), "desc": IDS.get(x.description, x.description), "builtin": x.is_builtin or x.is_builtin_array,
            "t": x.full_type, "elem": x.array_type or "", "size": x.array_size or "", "jl": x.julia_type}


def code(d):
    """The entries of the extra code without its empty lines"""
    return ["%s.%s: %s" % (s, k, " ".join(v.split())) for s in ("ExtraCode", "MutableExtraCode") for k, v in d.get(s, {}).items()]


def no_code(x):
    return dict(x, defs=[{k: v for k, v in d.items() if k != "set_code"} for d in x["defs"]])


def understood(model, package):
    defs = []
    for n, d in model.components.items():
        defs.append({"k": "c", "n": n, "set_code": code(d), "m": [member(x) for x in d["Members"]]})
    for n, d in model.datatypes.items():
        defs.append({"k": "d", "n": n, "set_code": code(d), **{k: [member(x) for x in d[CATS[k]]] for k in CATS}})
        machine.check(d["Description"] == "What it is" and d["Author"] == "Who", "description or author of " + n)
    for n, d in model.interfaces.items():
        defs.append({"k": "i", "n": n, "m": [member(x) for x in d["Members"]], "types": [x.full_type for x in d["Types"]]})
        machine.check(all(isinstance(x, DataType) for x in d["Types"]), "types of " + n)
    for n, d in model.links.items():
        defs.append({"k": "l", "n": n, "from": d["From"].full_type, "to": d["To"].full_type})
    sub = model.options["includeSubfolder"]
    machine.check(sub in ("", package + "/"), "includeSubfolder became %r" % sub)
    return {"ok": True, "sv": model.schema_version, "expose": model.options["exposePODMembers"], "getters": model.options["getSyntax"],
            "sub": sub != "", "defs": defs}


_up = None


class Machine:
    def __init__(self):
        self.cur = None

    def perform(self, a):
        op = a["op"]
        if self.cur is None:
            given = [{"k": k, "n": n, "lacks": "", "odd": "", "code": "", **{c: [] for c in cs}} for k, n, cs in (("c", "C1", "m"), ("d", "D1", "mvor"))]
            self.cur = {"sv": "1", "expose": a["given"], "getters": False, "sub": False, "up": False, "d": given if a["given"] else []}
            self.good = self.cur
        m = dict(self.cur, d=list(self.cur["d"]))
        if op == "AddDef":
            m["d"].insert(0 if a["first"] else len(m["d"]), a["d"])
        elif op == "DropDef":
            del m["d"][a["i"] - 1]
        elif op == "Put":
            m["d"][a["i"] - 1] = a["d"]
        elif op == "Set":
            m[a["f"]] = a["x"]
        elif op == "Undo":
            m = self.good
        else:
            raise machine.DriverTrouble(op)
        self.cur = m

    def upstream(self):
        global _up
        if not self.cur["up"]:
            return None
        if _up is None:
            _up = PodioConfigReader.parse_model(copy.deepcopy(UPSTREAM), "upstream")
        return _up

    def observe(self, want):
        up = self.upstream()
        content = definition(self.cur, lambda n, what: machine.variant(n, sum(map(ord, what))))
        how = machine.variant(4, 1)
        try:
            if how == 0:
                model = self.from_file(content, up)
            else:
                model = PodioConfigReader.parse_model(copy.deepcopy(content), "pkg", up, _dir, ignore_extracode=False)
        except DefinitionError:
            if want["ok"]:
                raise
            return {"ok": False}
        if want["ok"]:
            self.good = self.cur
        res = understood(model, "pkg")
        self.embedded(model, up, res)
        if how == 1:
            # an old version, the files of which may be gone
            old = understood(PodioConfigReader.parse_model(copy.deepcopy(content), "pkg", up, "/nowhere", ignore_extracode=True), "pkg")
            r = machine.differs(no_code(res), no_code(old))
            if r:
                machine.mismatch("without the extra code, %s" % r)
        return res

    def from_file(self, content, up):
        fd, p = tempfile.mkstemp(dir=_dir, suffix=".yaml")
        with os.fdopen(fd, "w") as f:
            yaml.safe_dump(content, f, sort_keys=False, width=10000)
        try:
            return PodioConfigReader.read(p, "pkg", up)
        finally:
            os.unlink(p)

    def embedded(self, model, up, res):
        """The definition that goes into the generated code, and from there into files, says the same"""
        text = DataModelJSONEncoder().encode(model)
        again = PodioConfigReader.parse_model(json.loads(text), "pkg", up)
        r = machine.differs(res, understood(again, "pkg"))
        if r:
            machine.mismatch("read from the embedded definition, %s" % r)
        machine.check(DataModelJSONEncoder().encode(again) == text, "the embedded definition of the embedded definition is another one")
        if machine.variant(97, 2) == 0:
            p = subprocess.run([sys.executable, os.path.join(machine.REPO, "tools", "json-to-yaml")], input=text, stdout=subprocess.PIPE, text=True)
            machine.check(p.returncode == 0, "json-to-yaml fails")
            again = PodioConfigReader.parse_model(yaml.safe_load(p.stdout), "pkg", up)
            r = machine.differs(res, understood(again, "pkg"))
            if r:
                machine.mismatch("read from the output of json-to-yaml, %s" % r)
