# executed by props.py
def pymachine(module):
    return ("TLA+ (spec/%s.tla), TLC: exhaustive within small bounds and simulation; all transitions found and random behaviours replayed "
            "step by step on the real Python code, with comparison of results and everything reported" % module)

prop("P18", "Schema comparison reports every change and judges it right",
     "Comparing two versions of a datamodel reports exactly the added, dropped and type-changed components, datatypes, members, vector members and relations, where member "
     "renames listed in the evolution file, and datatypes replaced by ones with the same members (listed renames first, then in the order of definition, each at most once), are renames instead. "
     "Unlisted pairs of a dropped and an added member of the same type in one definition, and dropped and added components with the same member names, are warnings; "
     "adding or dropping vector members or relations, changes between arrays and single values, and from or to a component (as element of an array too) are errors, nothing else is. "
     "podio_schema_evolution.py prints the same, fails exactly if there are errors, and depends on no hash seed.",
     ["inputs", "histories"],
     "for all pairs of datamodels and evolution files that list every member or datatype at most once on either side",
     "tests compare fourteen pairs of models with one change each; changes come together, in any order of definition",
     ["python/podio_schema_evolution.py", "python/podio_gen/schema_evolution.py"],
     [("comparison", "DataModelComparator.compare"), ("judgement", "SchemaEvolutionJudge._heuristics")], technique=pymachine("Schema"),
     note="The model is explored completely within the small bounds of lib/p_machine.py; links and interfaces are not part of a comparison.")
