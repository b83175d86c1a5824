# executed by props.py
prop("P16", "Links and their navigators give both ends and weights",
     "A link gives back the ends and the weight it was given, by name, type, index or structured binding, whatever kind of handle they were set with. A "
     "LinkNavigator answers for every object, in either direction, with exactly the objects and weights of all links that have it at that end when "
     "the navigator is made, duplicates included and nothing for others, through all overloads alike; later changes of the links, and copies and moves of the "
     "navigator, change no answer.",
     ["inputs", "histories"],
     "for all sets of links between the same or different types or interface types, with empty ends and duplicates",
     "tests look up a handful of links of one shape",
     ["include/podio/LinkNavigator.h", "include/podio/detail/Link.h", "include/podio/detail/LinkCollectionImpl.h"],
     [("maps", "LinkNavigator"), ("ends", "LinkT::getFrom")], technique=machine("Navigator"), note=MNOTE)

prop("P17", "A handle is what it refers to",
     "Two handles, of default, mutable or interface types, are equal exactly if they refer to the same object or are both empty (of the same type), and then have the same "
     "hash; < orders the handles of a type strictly and totally, up to equality, for as long as the objects live; so sets and maps of handles hold every object once. "
     "However a handle has been obtained (element access, conversion, copy, assignment, swap, move, interface, as), it shows that object's values, ID and availability; "
     "an interface handle is of exactly one type, and as of another one throws; unlinking or assigning one handle changes no other, and clones are new objects.",
     ["inputs", "histories"],
     "for all kinds of handles, ways to get them and histories of creating, collecting and rebinding them",
     "a dozen ways to get a handle for a dozen kinds of handles are sampled by tests pairwise",
     ["python/templates/Interface.h.jinja2", "python/templates/Object.h.jinja2", "python/templates/MutableObject.h.jinja2",
      "python/templates/macros/declarations.jinja2", "python/templates/macros/implementations.jinja2", "include/podio/utilities/MaybeSharedPtr.h",
      "include/podio/detail/OrderKey.h", "include/podio/detail/Link.h"],
     [("pointer", "MaybeSharedPtr"), ("interface", "Model::equal"), ("order", "getOrderKey")], technique=machine("Handles"), note=MNOTE)
