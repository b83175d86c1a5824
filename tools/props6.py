# executed by props.py
prop("P19", "Datamodel definitions are accepted and understood as documented",
     "A definition is accepted exactly if its schema version is a positive integer, definitions have the required and no unknown fields, members are single-line definitions of a builtin or "
     "fixed width (16 to 64 bit) integer, a component of this or the upstream datamodel or an array of these (vector members: no arrays), relations, interface types and link ends refer to datatypes "
     "(relations and link ends: or interfaces) of either, no accessors of members clash (with exposePODMembers also those of components), and interfaces and links have names of their own; "
     "everything else is a DefinitionError. What is accepted is understood completely, whatever the spacing, the order of definitions and with or without std::, including names, types, array sizes, default "
     "values, units, descriptions (required but for components), extra code from text or file, and options. Encoding it as JSON, as embedded into files, and reading that (through json-to-yaml too) gives the same.",
     ["inputs", "histories"],
     "for all definitions, mistakes and upstream datamodels, at any point while they are edited",
     "tests have some sixty accepted and rejected strings and definitions with one mistake each; rules depend on other definitions, options and the upstream datamodel",
     ["python/podio_gen/podio_config_reader.py", "python/podio_gen/generator_utils.py", "tools/json-to-yaml"],
     [("parsing of members", "MemberParser.parse"), ("validation", "ClassDefinitionValidator.validate"), ("embedding", "DataModelJSONEncoder")],
     technique=pymachine("Model"),
     note="Interface members' types, clashes with names of relations, and cycles of components are not judged; they are left to the compiler.")
