# executed by props.py
CONC = ("TLA+ (spec/FrameConc.tla, spec/FrameLin.tla), TLC: the locking protocol explored completely and its schedules forced on the "
        "real code (ThreadSanitizer build); recorded histories of free runs validated by TLC against the sequential specification "
        "(linearizability)")

prop("P09", "A Frame can be used by several threads at once",
     "Any number of threads may get and put collections, list them, look up names and IDs, read and set parameters and prepare "
     "collections for writing on one frame at the same time: every call takes effect at one point between its start and its end, as in some "
     "single-threaded order, and each collection of the raw data is unpacked once and only handed out with all its references resolved. "
     "There are no data races and no deadlocks.",
     ["schedules", "histories"],
     "for all interleavings of the calls of several threads on one frame",
     "tests of threads sample a handful of schedules and only check the outcome of each thread; windows are a few instructions wide",
     ["include/podio/Frame.h", "src/CollectionIDTable.cc", "include/podio/CollectionIDTable.h", "include/podio/GenericParameters.h"],
     [("locks", "Frame::FrameModel::m_mapMtx, m_dataMtx, m_inProgress"), ("ID table", "CollectionIDTable::m_mutex"),
      ("parameters", "GenericParameters::m_intMtx etc.")],
     technique=CONC, level="model_checking",
     note="The protocol is explored completely for two to three threads with two to three operations each; the binding is by forced "
          "schedules, random schedules and recorded histories, with ThreadSanitizer as observer of races.")

prop("P10", "Immutable data can be shared between threads",
     "Collections and objects that are no longer modified can be read, iterated over, copied, cloned, dropped, printed and prepared for writing "
     "by several threads at once, including objects in no collection whose handles are counted, with the results that one thread would get "
     "and without data races; the last handle dropped by any thread ends the object, once.",
     ["schedules", "histories"],
     "for all interleavings of reading operations of several threads on shared collections and objects",
     "races on caches, counters and lazily prepared buffers do not show as wrong results in tests",
     ["include/podio/utilities/MaybeSharedPtr.h", "python/templates/Collection.cc.jinja2", "python/templates/CollectionData.cc.jinja2",
      "include/podio/detail/LinkCollectionImpl.h", "include/podio/UserDataCollection.h"],
     [("atomic reference counter", "MaybeSharedPtr::ControlBlock"), ("storage lock", "Collection::m_storageMtx"), ("buffers", "Collection::getBuffers")],
     technique=CONC, level="model_checking",
     note="Forced and random schedules on the real code under ThreadSanitizer, results compared with the single-threaded ones of the specification.")
