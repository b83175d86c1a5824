# executed by props.py
def machine(module):
    return ("TLA+ (spec/%s.tla), TLC: exhaustive within small bounds and simulation; all transitions found and random behaviours replayed "
            "step by step on the real code (ASan+UBSan) with comparison of results and the complete observable state" % module)
MNOTE = ("The model is explored completely within the small bounds of lib/p_machine.py; the binding to the code is by replaying all transitions "
         "found and random behaviours within larger bounds.")

prop("P11", "Collection names and IDs are in stable one-to-one correspondence",
     "A CollectionIDTable maps every name it has to one ID and back, keeps that mapping whatever else is added, and adding a name again gives the ID it has. "
     "Names new to a table get the same ID in every table and every process (the MurmurHash3 32 bit hash, seed 0, of the name, whatever its length or "
     "characters), while a table made from lists of IDs and names has exactly these, in this order. Lookup of unknown names and IDs gives nothing, and moving a table moves all it has.",
     ["inputs", "histories"],
     "for all names, given IDs and histories of adding, moving and looking up",
     "files written by one process are read by another, with names nobody has tested",
     ["src/CollectionIDTable.cc", "include/podio/CollectionIDTable.h", "src/MurmurHash3.cpp", "src/MurmurHash3.h"],
     [("table", "CollectionIDTable"), ("hash", "MurmurHash3_x86_32")], technique=machine("IdTable"), note=MNOTE)

prop("P12", "Generic parameters keep what they were given, per type and key",
     "GenericParameters gives back under each key and type exactly the values set last: a single value is a list of one, the first value of a list "
     "is its single value, empty lists and strings are values too, types and keys do not affect each other. loadFrom adds keys that are not there "
     "yet and leaves the others, clear removes everything, copies are independent, moving moves everything; getKeys, getN, getKeysAndValues, getMap, empty and "
     "print tell the same.",
     ["inputs", "histories"],
     "for all types, keys, values and histories of setting, loading, copying, moving and clearing",
     "overloads for values, lists, initializer lists and C strings of four types have to agree in every combination",
     ["include/podio/GenericParameters.h", "src/GenericParameters.cc"],
     [("maps", "GenericParameters::getMap"), ("overloads", "GenericParameters::set")], technique=machine("Params"), note=MNOTE)

prop("P13", "User data collections behave like a vector that can be stored",
     "A UserDataCollection of any of the ten types has the sequence of values given to it by push_back, create, resize, from, a vector or element access, "
     "however it is accessed (indices, at, iterators of all kinds, vec), prints it as [a, b], throws std::out_of_range outside, and is never a subset "
     "collection. What a collection made from its buffers holds is the same, in a frame it stays as it is and can be had with its own type only, moving moves values and ID.",
     ["inputs", "histories"],
     "for all element types, values and histories of operations",
     "ten types with eight kinds of access are sampled by tests for one or two types",
     ["include/podio/UserDataCollection.h", "src/UserDataCollection.cc", "include/podio/Frame.h"],
     [("storage", "UserDataCollection::_vec"), ("buffers", "UserDataCollection::getBuffers")], technique=machine("UserData"), note=MNOTE)

prop("P14", "Buffers of older versions are evolved by the right function, once",
     "evolveBuffers applies to buffers of an older version of a known type exactly the function registered for that type and version, a user defined one in "
     "preference to an auto generated one in whichever order they are registered, and gives back unchanged buffers of the current, a later, no version or an unknown "
     "type; a Frame evolves what it unpacks once and never subset collections. createBuffers calls the creation function registered for that type and version, "
     "where a version not registered itself uses the one registered first for a later version, and gives nothing for other types and versions. Buffers that "
     "are not used are deleted once.",
     ["inputs", "histories"],
     "for all orders of registration, types and versions",
     "the order of registration depends on the order in which libraries are loaded",
     ["src/SchemaEvolution.cc", "include/podio/SchemaEvolution.h", "src/CollectionBufferFactory.cc", "include/podio/CollectionBufferFactory.h",
      "include/podio/CollectionBuffers.h", "include/podio/Frame.h"],
     [("evolution functions", "SchemaEvolution::registerEvolutionFunc"), ("creation functions", "CollectionBufferFactory::registerCreationFunc")],
     technique=machine("Evolution"), note=MNOTE)

prop("P15", "The datamodel registry keeps definitions, relations and versions",
     "Registering a datamodel gives it an index that stays, together with its definition, version and the names of relations and vector members of its types; "
     "another registration of the same name gives the same index and changes none of these. Definitions that are collected for writing are exactly those of the models of the "
     "collections written, and the reading side gives back the same by name; whatever is unknown gives an empty definition, name or list of relations.",
     ["inputs", "histories"],
     "for all orders of registering, collecting and reading of any number of datamodels",
     "tests register at most one or two models, in one order",
     ["src/DatamodelRegistry.cc", "include/podio/DatamodelRegistry.h", "src/DatamodelRegistryIOHelpers.cc",
      "include/podio/utilities/DatamodelRegistryIOHelpers.h"],
     [("registry", "DatamodelRegistry::registerDatamodel"), ("collector", "DatamodelDefinitionCollector"), ("holder", "DatamodelDefinitionHolder")],
     technique=machine("Registry"), note=MNOTE)
