#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, quant, why, files, mech, level="model_checking", technique="", note="",
         state=None, observe=None):
    P.append((pid, title, statement, over, quant, why, files, mech, level, technique, note, state, observe))


EDM = ("TLA+ (spec/Edm.tla), TLC: exhaustive within small bounds and simulation; every transition found / random "
       "behaviours replayed step by step on the real generated code (ASan+UBSan) with comparison of the complete "
       "observable state")
EDMNOTE = ("The model is explored completely within the small bounds of lib/p_edm.py; the binding to the code is by "
           "replaying a covering set (thorough: all) of its transitions plus random behaviours within larger bounds, for one data model.")

prop("P01", "Write / read round trip is faithful",
     "Whatever collections (of any generated, link or subset kind) and parameters a Frame holds when it is written, the "
     "Frame read back from what was written has exactly the same: the same collection names with the same types, sizes and "
     "order of elements, the same values of all members and vector members, and the same parameters. A relation, link end or "
     "subset element that led to an element of a collection of the frame leads to the element with the same index of the "
     "collection of the same name after reading, and to an empty handle if its target was in no collection that was written. "
     "Writing a frame that has been read gives the same again.",
     ["inputs", "histories"],
     "for all sequences of creating, filling, relating, putting, writing and reading collections of the types of a data model",
     "tests write a fixed event and compare selected members; combinations of relation patterns (cycles, relations into later "
     "collections, empty and shared targets, offsets of vector members over several elements) are unbounded",
     ["python/templates/CollectionData.cc.jinja2", "python/templates/Collection.cc.jinja2",
      "python/templates/macros/collections.jinja2", "include/podio/detail/LinkCollectionData.h",
      "include/podio/detail/RelationIOHelpers.h", "include/podio/Frame.h", "include/podio/CollectionBuffers.h"],
     [("flattening of relations and vector members", "CollectionData::prepareForWrite"),
      ("rebuilding of objects", "CollectionData::prepareAfterRead"),
      ("resolving of references", "CollectionData::setReferences, detail::addMultiRelation/addSingleRelation")],
     technique=EDM, note=EDMNOTE, observe=["Frame::get and getParameter of frames read back", "accessors and relations of the elements"])

prop("P02", "Unpacking on demand does not depend on order and is complete",
     "Collections of a frame that has been read are unpacked when first asked for, in any order, together with everything they "
     "refer to that is available; the result never depends on the order of the requests, each collection is taken from the raw "
     "data at most once, and repeated requests give the identical collection. If only some collections have been read, relations "
     "into the others are empty handles and everything else is as if all had been read.",
     ["inputs", "histories"],
     "for all reference graphs between collections (including cycles), all subsets of collections read, all orders of get calls",
     "tests read collections in a few fixed orders; recursion through cyclic references depends on the order",
     ["include/podio/Frame.h", "python/templates/CollectionData.cc.jinja2", "include/podio/detail/LinkCollectionData.h"],
     [("recursive unpacking", "Frame::FrameModel::doGet / get(id)"), ("references", "CollectionData::setReferences")],
     technique=EDM, note=EDMNOTE)

prop("P03", "A Frame is a consistent, write-once namespace",
     "A Frame gives back exactly the collections that were put into it or read, under their names: put makes the collection "
     "available (and immutable, with an ID that belongs to its name everywhere) or throws std::invalid_argument if a collection "
     "of that name is already there, unpacked or not, leaving the frame as it was. get of an unknown name gives a null pointer, or "
     "std::runtime_error if typed or of the wrong type; getAvailableCollections lists every collection exactly once. Moving a "
     "frame changes none of this, and destroying it destroys its collections and nothing else.",
     ["inputs", "histories"],
     "for all sequences of put, get, read, move and destruction of frames and collections",
     "refusals depend on the history (put, read, unpacked or not); tests try single cases",
     ["include/podio/Frame.h", "src/CollectionIDTable.cc"],
     [("namespace", "Frame::FrameModel::put/doGet/availableCollections"), ("IDs", "CollectionIDTable::add")],
     technique=EDM, note=EDMNOTE)

prop("P04", "Collections own their elements, subset collections never do",
     "An object belongs to at most one collection, which lists it at the index its ObjectID says; adding an object that already is "
     "in a collection to a (non-subset) collection, adding an immutable one to it, adding an object in no collection to a subset "
     "collection, creating elements in a subset collection and changing the kind of a non-empty collection are refused with an "
     "exception (std::invalid_argument or std::logic_error) and change nothing. Size, order, iteration (in both directions), "
     "indexed access, at() with its bounds check, column access and from() agree with the sequence of additions; clear, move construction, "
     "move assignment and destruction transfer or end ownership of exactly the owned elements.",
     ["inputs", "histories"],
     "for all sequences of operations on objects and collections",
     "ownership is a matter of the whole history of an object; tests check the refusals one by one",
     ["python/templates/Collection.cc.jinja2", "python/templates/Collection.h.jinja2",
      "include/podio/detail/LinkCollectionImpl.h", "python/templates/macros/iterator.jinja2"],
     [("adding elements", "Collection::push_back/create"), ("kinds", "Collection::setSubsetCollection"), ("clean up", "CollectionData::clear")],
     technique=EDM, note=EDMNOTE)

prop("P05", "Objects live exactly as long as something owns them",
     "An object outside of collections exists as long as any handle to it, or any relation of an existing object to it, exists; "
     "an object in a collection as long as the collection keeps it. Copying, moving, swapping, assigning and dropping handles, in any order and "
     "for mutable and immutable ones, never changes an object, never frees it too early (no access of freed memory) and never "
     "leaks it.",
     ["inputs", "histories"],
     "for all sequences of handle and collection operations (not building cycles of untracked objects)",
     "memory errors depend on the order in which handles and collections go away",
     ["include/podio/utilities/MaybeSharedPtr.h", "python/templates/Obj.cc.jinja2", "python/templates/CollectionData.cc.jinja2",
      "python/templates/MutableObject.cc.jinja2"],
     [("reference counting", "MaybeSharedPtr"), ("release to a collection", "MaybeSharedPtr::release"), ("relations", "Obj constructors and destructor")],
     technique=EDM + "; allocation balance per behaviour", note=EDMNOTE)

prop("P06", "Accessors read back what was set, and nothing else changes",
     "Every member, vector member and relation of a generated class reads back exactly the value last set or the sequence added, "
     "through every accessor that exists for it (getter, exposed component members, element access, ranges, columns), in mutable and "
     "immutable handles alike; setting one never changes another one or another object, members never set have the default from the "
     "data model, and indexed access to relations and vector members past the end throws std::out_of_range.",
     ["inputs", "histories"],
     "for all sequences of setting members of objects inside and outside of collections",
     "the accessors are generated per data model; mixing up two of them, or the begin/end bookkeeping of relations, shows only for particular combinations",
     ["python/templates/macros/implementations.jinja2", "python/templates/macros/declarations.jinja2",
      "python/templates/Data.h.jinja2", "python/podio_gen/generator_base.py"],
     [("setters and getters", "macros/implementations.jinja2"), ("relation ranges", "macros member_list, multi_relation")],
     technique=EDM, note=EDMNOTE)

prop("P07", "Clones are equal and independent",
     "clone() of any object, in a collection or not, read from a file or not, gives a mutable object that is in no collection and has the same "
     "values of all members and, unless clone(false) is used, the same vector members and relations to the same objects; with "
     "clone(false) vector members and relations are empty. Whatever is done to either of the two later never shows in the other, nor does the end of "
     "either.",
     ["inputs", "histories"],
     "for all histories before and after cloning",
     "sharing between clone and original shows only after a later modification of one of them, and differs for objects that were read",
     ["python/templates/MutableObject.cc.jinja2", "python/templates/Object.cc.jinja2", "python/templates/macros/implementations.jinja2",
      "python/templates/Obj.cc.jinja2", "include/podio/detail/Link.h"],
     [("cloning", "macros common_constructors / clone"), ("relation copies", "Obj copy constructor")],
     technique=EDM, note=EDMNOTE)

prop("P08", "Preparing for writing is repeatable and leaves no trace",
     "Preparing collections for writing, any number of times and for any number of writers with different selections of collections, "
     "always gives the same persistent form and changes nothing a user can see. If a one-to-many relation leads to an object in no "
     "collection, it throws std::runtime_error; once such objects have been put into a collection it works and gives the form that "
     "it would have given without the failed attempts.",
     ["inputs", "histories"],
     "for all histories of filling and (possibly failing) attempts to write",
     "tests write once; duplicates after repeated or failed attempts show only in the second one",
     ["python/templates/CollectionData.cc.jinja2", "python/templates/Collection.cc.jinja2", "include/podio/detail/LinkCollectionImpl.h",
      "include/podio/Frame.h"],
     [("prepare once", "Collection::prepareForWrite"), ("buffers", "CollectionData::prepareForWrite/getCollectionBuffers")],
     technique=EDM, note=EDMNOTE)

NA = []
for _x in sorted(os.listdir(os.path.join(V, "tools"))):
    if _x.startswith("props") and _x != "props.py" and _x.endswith(".py"):
        exec(open(os.path.join(V, "tools", _x)).read())

# keep the statement within three sentences
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for (pid, title, st, over, quant, why, files, mech, level, tech, note, state, observe) in P:
        a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
        if state:
            a["state"] = state
        if observe:
            a["observe_at"] = observe
        f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": quant},
                            "why_tests_cant": why, "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py",
     "checks": [{"property": p[0], "quick_cmd": "python3 /verif/check.py %s quick" % p[0],
                 "thorough_cmd": "python3 /verif/check.py %s thorough" % p[0],
                 "technique": p[9], "level": p[8], "level_note": p[10]} for p in P if p[0] not in [n["property"] for n in NA]],
     "not_applicable": NA,
     "notes": "Run the commands from /verif. VERIF_SEED chooses the random behaviours."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
