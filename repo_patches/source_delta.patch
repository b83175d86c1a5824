From e62ef3c94df04788e9c69b6362d46e9bb0f7b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 01/22] fix: default collection ID of link and user data
 collections

Collections that have not been given an ID have to say so via hasID(); use
ObjectID::untracked as the generated collections do.
---
 include/podio/UserDataCollection.h        | 2 +-
 include/podio/detail/LinkCollectionImpl.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/podio/UserDataCollection.h b/include/podio/UserDataCollection.h
index 361bb00..1c0aedc 100644
--- a/include/podio/UserDataCollection.h
+++ b/include/podio/UserDataCollection.h
@@ -71,7 +71,7 @@ private:
   // simpler move-semantics this will be set and properly initialized on
   // demand during the call to getBuffers
   std::vector<BasicType>* _vecPtr{nullptr};
-  uint32_t m_collectionID{0};
+  uint32_t m_collectionID{static_cast<uint32_t>(podio::ObjectID::untracked)};
   CollRefCollection m_refCollections{};
   VectorMembersInfo m_vecmem_info{};
 
diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index cf498c3..ba37ab5 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -62,7 +62,7 @@ public:
   LinkCollection() = default;
 
   LinkCollection(CollectionDataT&& data, bool isSubsetColl) :
-      m_isSubsetColl(isSubsetColl), m_collectionID(0), m_storage(std::move(data)) {
+      m_isSubsetColl(isSubsetColl), m_storage(std::move(data)) {
   }
 
   // Move-only type
@@ -370,7 +370,7 @@ private:
 
   mutable bool m_isPrepared{false};
   bool m_isSubsetColl{false};
-  uint32_t m_collectionID{0};
+  uint32_t m_collectionID{static_cast<uint32_t>(podio::ObjectID::untracked)};
   mutable std::unique_ptr<std::mutex> m_storageMtx{std::make_unique<std::mutex>()};
   mutable CollectionDataT m_storage{};
 };
-- 
2.43.0


From f9c42ab6037f6b445fb5581e6e81ea6f6052d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 02/22] fix: release owned elements on collection move
 assignment

The defaulted move assignment dropped the pointers to the elements that the
target collection had owned so far without deleting them.
---
 include/podio/detail/LinkCollectionImpl.h | 13 ++++++++++++-
 python/templates/Collection.cc.jinja2     | 13 +++++++++++++
 python/templates/Collection.h.jinja2      |  2 +-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index ba37ab5..cab7856 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -69,7 +69,18 @@ public:
   LinkCollection(const LinkCollection&) = delete;
   LinkCollection& operator=(const LinkCollection&) = delete;
   LinkCollection(LinkCollection&&) = default;
-  LinkCollection& operator=(LinkCollection&&) = default;
+  LinkCollection& operator=(LinkCollection&& other) {
+    if (this != &other) {
+      // Need to release the elements that have been owned up to now
+      m_storage.clear(m_isSubsetColl);
+      m_isPrepared = other.m_isPrepared;
+      m_isSubsetColl = other.m_isSubsetColl;
+      m_collectionID = other.m_collectionID;
+      m_storageMtx = std::move(other.m_storageMtx);
+      m_storage = std::move(other.m_storage);
+    }
+    return *this;
+  }
 #if defined(__cpp_lib_containers_ranges)
   /// Constructor from range in order to enable the use of std::ranges::to see
   /// @ref from.
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 0acc2e7..c0abee2 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -32,6 +32,19 @@
 {{ collection_type }}::{{ collection_type }}({{ collection_type }}Data&& data, bool isSubsetColl) :
   m_isSubsetColl(isSubsetColl), m_storage(std::move(data)) {}
 
+{{ collection_type }}& {{ collection_type }}::operator=({{ collection_type }}&& other) {
+  if (this != &other) {
+    // Need to release the elements that have been owned up to now
+    m_storage.clear(m_isSubsetColl);
+    m_isPrepared = other.m_isPrepared;
+    m_isSubsetColl = other.m_isSubsetColl;
+    m_collectionID = other.m_collectionID;
+    m_storageMtx = std::move(other.m_storageMtx);
+    m_storage = std::move(other.m_storage);
+  }
+  return *this;
+}
+
 {{ collection_type }}::~{{ collection_type }}() {
   // Need to tell the storage how to clean-up
   m_storage.clear(m_isSubsetColl);
diff --git a/python/templates/Collection.h.jinja2 b/python/templates/Collection.h.jinja2
index c74a50d..ae3ee0c 100644
--- a/python/templates/Collection.h.jinja2
+++ b/python/templates/Collection.h.jinja2
@@ -61,7 +61,7 @@ public:
   {{ class.bare_type }}Collection(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection& operator=(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection({{ class.bare_type }}Collection&&) = default;
-  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&&) = default;
+  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&& other);
 
   ~{{ class.bare_type }}Collection() override;
 #if defined(__cpp_lib_containers_ranges)
-- 
2.43.0


From 0b5f56802f9c81a4db52e89296f3017f175c76d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 03/22] fix: make subset collection usable as owning collection
 again

setSubsetCollection(false) on an empty subset collection left the collection
without data buffers, such that writing it crashed.
---
 include/podio/detail/LinkCollectionImpl.h | 3 +++
 python/templates/Collection.cc.jinja2     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index cab7856..2d20729 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -318,6 +318,9 @@ public:
 
     if (setSubset) {
       m_storage.makeSubsetCollection();
+    } else if (m_isSubsetColl) {
+      // Need the data buffers again that a subset collection does not have
+      m_storage = CollectionDataT{};
     }
     m_isSubsetColl = setSubset;
   }
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index c0abee2..b363946 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -91,6 +91,9 @@ void {{ collection_type }}::setSubsetCollection(bool setSubset) {
 
   if (setSubset) {
     m_storage.makeSubsetCollection();
+  } else if (m_isSubsetColl) {
+    // Need the data buffers again that a subset collection does not have
+    m_storage = {{ collection_type }}Data();
   }
   m_isSubsetColl = setSubset;
 }
-- 
2.43.0


From 4292fb068fa5bebda798986b70c301a0336cc5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 04/22] fix: prepareForWrite can be repeated after it has
 failed

If a relation points to an untracked object prepareForWrite throws. Doing it
again afterwards appended to the buffers filled by the failed attempt.
---
 python/templates/CollectionData.cc.jinja2 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 0452da5..c597ddc 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -141,7 +141,12 @@ void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
     return;
   }
 
-  // Normal collections have to store the data and all the relations
+  // Normal collections have to store the data and all the relations. Start from
+  // empty buffers again in case an earlier attempt has failed
+  m_data->clear();
+{% for member in VectorMembers %}
+  m_vec_{{ member.name }}->clear();
+{% endfor %}
   m_data->reserve(entries.size());
   for (const auto& obj : entries) { m_data->push_back(obj->data); }
 
-- 
2.43.0


From d5a91598b4a5bdb8f21ee8d27c067149463f6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 05/22] fix: Frame::put refuses names that are still in the raw
 data

A collection put under the name of a collection that had not been unpacked yet
silently shadowed the latter.
---
 include/podio/Frame.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 1f83030..b63cc66 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -9,6 +9,7 @@
 #include "podio/SchemaEvolution.h"
 #include "podio/utilities/TypeHelpers.h"
 
+#include <algorithm>
 #include <concepts>
 #include <initializer_list>
 #include <memory>
@@ -143,6 +144,10 @@ class Frame {
   private:
     podio::CollectionBase* doGet(const std::string& name, bool setReferences = true) const;
 
+    /// Check whether there is a collection of this name in the raw data that has
+    /// not been unpacked yet
+    bool isInRawData(const std::string& name) const;
+
     using CollectionMapT = std::unordered_map<std::string, std::unique_ptr<podio::CollectionBase>>;
 
     mutable CollectionMapT m_collections{};                 ///< The internal map for storing unpacked collections
@@ -521,17 +526,29 @@ bool Frame::FrameModel<FrameDataT>::get(uint32_t collectionID, CollectionBase*&
   return false;
 }
 
+template <typename FrameDataT>
+bool Frame::FrameModel<FrameDataT>::isInRawData(const std::string& name) const {
+  // Everything that is in the raw data is also known to the id table
+  if (!m_idTable.present(name)) {
+    return false;
+  }
+  std::lock_guard lock{*m_dataMtx};
+  const auto available = m_data->getAvailableCollections();
+  return std::ranges::find(available, name) != available.end();
+}
+
 template <typename FrameDataT>
 const podio::CollectionBase* Frame::FrameModel<FrameDataT>::put(std::unique_ptr<podio::CollectionBase> coll,
                                                                 const std::string& name) {
   {
     std::lock_guard lock{*m_mapMtx};
+    if (isInRawData(name)) {
+      throw std::invalid_argument("An object with key " + name + " already exists in the frame");
+    }
     auto [it, success] = m_collections.try_emplace(name, std::move(coll));
     if (success) {
       // TODO: Check whether this collection is already known to the idTable
       // -> What to do on collision?
-      // -> Check before we emplace it into the internal map to prevent possible
-      //    collisions from collections that are potentially present from rawdata?
       it->second->setID(m_idTable.add(name));
       return it->second.get();
     } else {
-- 
2.43.0


From 9a2b6fa6a0ce4e4f0c313514c673d419678ccd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 06/22] fix: make getting collections from a Frame safe for
 several threads

A thread could get a nullptr for a collection that another thread was just
unpacking, or a collection whose references had not been set yet. The book
keeping of the IDs that have been retrieved was not synchronized at all, and
neither was copying the ID table while collections are added.
---
 include/podio/Frame.h | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index b63cc66..87f4396 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -135,7 +135,8 @@ class Frame {
     bool get(uint32_t collectionID, podio::CollectionBase*& collection) const override;
 
     podio::CollectionIDTable getIDTable() const override {
-      // Make a copy
+      // Make a copy, while nothing can be added
+      std::lock_guard lock{*m_mapMtx};
       return {m_idTable.ids(), m_idTable.names()};
     }
 
@@ -151,7 +152,10 @@ class Frame {
     using CollectionMapT = std::unordered_map<std::string, std::unique_ptr<podio::CollectionBase>>;
 
     mutable CollectionMapT m_collections{};                 ///< The internal map for storing unpacked collections
-    mutable std::unique_ptr<std::mutex> m_mapMtx{nullptr};  ///< The mutex for guarding the internal collection map
+    /// The mutex for guarding the internal collection map. It is held while a
+    /// collection is moved from the raw data to the map, including setting the
+    /// references, for which other collections need to be unpacked as well
+    mutable std::unique_ptr<std::recursive_mutex> m_mapMtx{nullptr};
     std::unique_ptr<FrameDataT> m_data{nullptr};            ///< The raw data read from file
     mutable std::unique_ptr<std::mutex> m_dataMtx{nullptr}; ///< The mutex for guarding the raw data
     podio::CollectionIDTable m_idTable{};                   ///< The collection ID table
@@ -429,7 +433,7 @@ const CollT& Frame::put(CollT&& coll, const std::string& name) {
 
 template <typename FrameDataT>
 Frame::FrameModel<FrameDataT>::FrameModel(std::unique_ptr<FrameDataT> data) :
-    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::mutex>()) {
+    m_mapMtx(std::make_unique<std::recursive_mutex>()), m_dataMtx(std::make_unique<std::mutex>()) {
   if (!data) {
     throw std::invalid_argument(
         "FrameData is a nullptr. If you are reading from a file it may be corrupted or you may reading beyond the end "
@@ -447,15 +451,16 @@ const podio::CollectionBase* Frame::FrameModel<FrameDataT>::get(const std::strin
 
 template <typename FrameDataT>
 podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& name, bool setReferences) const {
-  {
-    // First check whether the collection is in the map already
-    //
-    // Collections only land here if they are fully unpacked, i.e.
-    // prepareAfterRead has been called or it has been put into the Frame
-    std::lock_guard lock{*m_mapMtx};
-    if (const auto it = m_collections.find(name); it != m_collections.end()) {
-      return it->second.get();
-    }
+  // Other threads must neither see a collection before its references are set,
+  // nor miss one that has been taken from the raw data but is not yet in the map
+  std::lock_guard lock{*m_mapMtx};
+
+  // First check whether the collection is in the map already
+  //
+  // Collections only land here if they are fully unpacked, i.e.
+  // prepareAfterRead has been called or it has been put into the Frame
+  if (const auto it = m_collections.find(name); it != m_collections.end()) {
+    return it->second.get();
   }
 
   podio::CollectionBase* retColl = nullptr;
@@ -466,7 +471,7 @@ podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& n
     // briefly as possible
     std::optional<podio::CollectionReadBuffers> buffers;
     {
-      std::lock_guard lock{*m_dataMtx};
+      std::lock_guard dataLock{*m_dataMtx};
       buffers = unpack(m_data.get(), name);
     }
     if (buffers) {
@@ -484,13 +489,10 @@ podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& n
 
       coll->prepareAfterRead();
       coll->setID(m_idTable.collectionID(name).value());
-      {
-        std::lock_guard mapLock{*m_mapMtx};
-        auto [it, success] = m_collections.emplace(name, std::move(coll));
-        // TODO: Check success? Or simply assume that everything is fine at this point?
-        // TODO: Collision handling?
-        retColl = it->second.get();
-      }
+      auto [it, success] = m_collections.emplace(name, std::move(coll));
+      // TODO: Check success? Or simply assume that everything is fine at this point?
+      // TODO: Collision handling?
+      retColl = it->second.get();
 
       if (setReferences) {
         retColl->setReferences(this);
-- 
2.43.0


From 2095b6819b81bdd2c91dc211f7e6a2f1f28c2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 07/22] fix: hold the lock in GenericParameters::getKeys and
 print

---
 include/podio/GenericParameters.h |  2 +-
 src/GenericParameters.cc          | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index f21e15d..5d6ae5b 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -232,10 +232,10 @@ template <ValidGenericDataType T>
 std::vector<std::string> GenericParameters::getKeys() const {
   std::vector<std::string> keys;
   const auto& map = getMap<T>();
-  keys.reserve(map.size());
   {
     auto& mtx = getMutex<T>();
     std::lock_guard lock{mtx};
+    keys.reserve(map.size());
     std::transform(map.begin(), map.end(), std::back_inserter(keys), [](const auto& pair) { return pair.first; });
   }
 
diff --git a/src/GenericParameters.cc b/src/GenericParameters.cc
index 6befeb2..6889b8b 100644
--- a/src/GenericParameters.cc
+++ b/src/GenericParameters.cc
@@ -32,7 +32,8 @@ std::ostream& operator<<(std::ostream& os, const std::vector<T>& values) {
 }
 
 template <typename MapType>
-void printMap(const MapType& map, std::ostream& os) {
+void printMap(const MapType& map, std::mutex& mtx, std::ostream& os) {
+  std::lock_guard lock{mtx};
   const auto osflags = os.flags();
   os << std::left << std::setw(30) << "Key "
      << "Value " << '\n';
@@ -46,13 +47,13 @@ void printMap(const MapType& map, std::ostream& os) {
 
 void GenericParameters::print(std::ostream& os, bool flush) const {
   os << "int parameters\n\n";
-  printMap(getMap<int>(), os);
+  printMap(getMap<int>(), getMutex<int>(), os);
   os << "\nfloat parameters\n";
-  printMap(getMap<float>(), os);
+  printMap(getMap<float>(), getMutex<float>(), os);
   os << "\ndouble parameters\n";
-  printMap(getMap<double>(), os);
+  printMap(getMap<double>(), getMutex<double>(), os);
   os << "\nstd::string parameters\n";
-  printMap(getMap<std::string>(), os);
+  printMap(getMap<std::string>(), getMutex<std::string>(), os);
 
   if (flush) {
     os.flush();
-- 
2.43.0


From 81addb2673311c6d38438121e42886d9c9df0c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 08/22] fix: several writers can get the buffers of a
 collection at the same time

---
 include/podio/UserDataCollection.h        | 24 ++++++++++++++++-------
 python/templates/Collection.cc.jinja2     |  2 ++
 python/templates/CollectionData.cc.jinja2 |  7 +++++--
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/podio/UserDataCollection.h b/include/podio/UserDataCollection.h
index 1c0aedc..ea207b4 100644
--- a/include/podio/UserDataCollection.h
+++ b/include/podio/UserDataCollection.h
@@ -67,10 +67,10 @@ class UserDataCollection : public CollectionBase {
 
 private:
   std::vector<BasicType> _vec{};
-  // Pointer to the actual storage, necessary for I/O. In order to have
-  // simpler move-semantics this will be set and properly initialized on
-  // demand during the call to getBuffers
-  std::vector<BasicType>* _vecPtr{nullptr};
+  // Pointer to the actual storage, necessary for I/O. Always points to the
+  // storage of this collection, such that several writers can get the buffers
+  // concurrently
+  std::vector<BasicType>* _vecPtr{&_vec};
   uint32_t m_collectionID{static_cast<uint32_t>(podio::ObjectID::untracked)};
   CollRefCollection m_refCollections{};
   VectorMembersInfo m_vecmem_info{};
@@ -91,8 +91,19 @@ public:
   }
   UserDataCollection(const UserDataCollection&) = delete;
   UserDataCollection& operator=(const UserDataCollection&) = delete;
-  UserDataCollection(UserDataCollection&&) = default;
-  UserDataCollection& operator=(UserDataCollection&&) = default;
+  UserDataCollection(UserDataCollection&& other) :
+      _vec(std::move(other._vec)),
+      m_collectionID(other.m_collectionID),
+      m_refCollections(std::move(other.m_refCollections)),
+      m_vecmem_info(std::move(other.m_vecmem_info)) {
+  }
+  UserDataCollection& operator=(UserDataCollection&& other) {
+    _vec = std::move(other._vec);
+    m_collectionID = other.m_collectionID;
+    m_refCollections = std::move(other.m_refCollections);
+    m_vecmem_info = std::move(other.m_vecmem_info);
+    return *this;
+  }
   ~UserDataCollection() override = default;
 #if defined(__cpp_lib_containers_ranges)
   /// Constructor to enable construction via std::ranges::to. See @ref from
@@ -147,7 +158,6 @@ public:
 
   /// Get the collection buffers for this collection
   podio::CollectionWriteBuffers getBuffers() override {
-    _vecPtr = &_vec; // Set the pointer to the correct internal vector
     return {&_vecPtr, _vecPtr, &m_refCollections, &m_vecmem_info};
   }
 
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index b363946..0caa3bb 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -180,6 +180,8 @@ void {{ collection_type }}::push_back(const {{ class.bare_type }}& object) {
 }
 
 podio::CollectionWriteBuffers {{ collection_type }}::getBuffers() {
+  // Several writers might want to get the buffers at the same time
+  std::lock_guard lock{*m_storageMtx};
   return m_storage.getCollectionBuffers(m_isSubsetColl);
 }
 
diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index c597ddc..6b586f6 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -114,9 +114,12 @@ podio::CollectionWriteBuffers {{ class_type }}::getCollectionBuffers(bool isSubs
 {% if VectorMembers %}
   if (!isSubsetColl) {
     // Make sure these point to the right place, even if a collection has been
-    // moved since it has been created
+    // moved since it has been created. Leave them alone if they do already, as
+    // somebody else might be using them
 {% for member in VectorMembers %}
-    m_vecmem_info[{{ loop.index0 }}].second = &m_vec_{{ member.name }};
+    if (m_vecmem_info[{{ loop.index0 }}].second != &m_vec_{{ member.name }}) {
+      m_vecmem_info[{{ loop.index0 }}].second = &m_vec_{{ member.name }};
+    }
 {% endfor %}
   }
 {% endif -%}
-- 
2.43.0


From 4f2e75d37deccf831caa97011055bf8f3fe42c42 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:48:51 +0000
Subject: [PATCH 09/22] fix: user defined evolution functions take precedence
 whenever they are registered

---
 include/podio/SchemaEvolution.h |  9 ++++++++-
 src/SchemaEvolution.cc          | 10 ++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/podio/SchemaEvolution.h b/include/podio/SchemaEvolution.h
index 5eb82c6..ada09f8 100644
--- a/include/podio/SchemaEvolution.h
+++ b/include/podio/SchemaEvolution.h
@@ -33,7 +33,8 @@ class SchemaEvolution {
   /// Each datatype gets its own version "map" where the index defines the
   /// version from which the schema evolution has to start to end up in the
   /// current version
-  using EvolFuncVersionMapT = std::vector<EvolutionFuncT>;
+  struct EvolutionEntry;
+  using EvolFuncVersionMapT = std::vector<EvolutionEntry>;
 
   /// Helper struct combining the current schema version of each type and an
   /// index into the schema evolution "map" below
@@ -125,6 +126,12 @@ public:
 private:
   SchemaEvolution() = default;
 
+  /// An evolution function together with the priority it was registered with
+  struct EvolutionEntry {
+    EvolutionFuncT func{};
+    Priority priority{Priority::AutoGenerated};
+  };
+
   /// The map containing types and MapIndex structs
   VersionMapT m_versionMapIndices{};
   /// The "map" holding the evolution functions
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index f21bb4f..480478d 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -27,7 +27,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     if (fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
-      return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
+      return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
     }
   }
 
@@ -62,10 +62,12 @@ void SchemaEvolution::registerEvolutionFunc(const std::string& collType, SchemaV
     versionMap.resize(currentVersion);
   }
 
-  versionMap[fromVersion - 1] = evolutionFunc;
-  if (priority != Priority::UserDefined) {
-    //  std::cerr << "Not updating evolution function because priority is not UserDefined" << std::endl;
+  auto& entry = versionMap[fromVersion - 1];
+  if (entry.func && priority < entry.priority) {
+    // Never override user defined functions with auto generated ones
+    return;
   }
+  entry = {evolutionFunc, priority};
 }
 
 podio::CollectionReadBuffers SchemaEvolution::noOpSchemaEvolution(podio::CollectionReadBuffers&& buffers,
-- 
2.43.0


From fd7c34e9b8ef6368e38e1a9178b36ae0fce7698f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:48:51 +0000
Subject: [PATCH 10/22] fix: there is no schema version 0

---
 src/CollectionBufferFactory.cc | 2 +-
 src/SchemaEvolution.cc         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CollectionBufferFactory.cc b/src/CollectionBufferFactory.cc
index 8c48ea0..33ee245 100644
--- a/src/CollectionBufferFactory.cc
+++ b/src/CollectionBufferFactory.cc
@@ -15,7 +15,7 @@ std::optional<podio::CollectionReadBuffers>
 CollectionBufferFactory::createBuffers(const std::string& collType, SchemaVersionT version, bool subsetColl) const {
   if (const auto typeIt = m_funcMap.find(collType); typeIt != m_funcMap.end()) {
     const auto& [_, versionMap] = *typeIt;
-    if (versionMap.size() >= version) {
+    if (version > 0 && versionMap.size() >= version) {
       return versionMap[version - 1](subsetColl);
     }
   }
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index 480478d..4e78445 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -24,7 +24,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     }
 
     const auto& typeEvolFuncs = m_evolutionFuncs[mapIndex];
-    if (fromVersion < typeEvolFuncs.size()) {
+    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
       return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
-- 
2.43.0


From 30283059c49cde6ec32572e4c0b7701297e30eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 11/22] fix: schema comparison fails for a component that could
 be renamed

The warning about a possible renaming of a component used attributes that
the changes do not have, so the comparison ended with an AttributeError
instead.
---
 python/podio_schema_evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 55f0c14..c474cd0 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -442,7 +442,9 @@ class SchemaEvolutionJudge:
             for added in added_components:
                 added_members = {member.name: member for member in added.component["Members"]}
                 if set(dropped_members.keys()) == set(added_members.keys()):
-                    warnings.append(f"Potential rename of '{dropped.name}' into '{added.name}'.")
+                    warnings.append(
+                        f"Potential rename of '{dropped.klassname}' into '{added.klassname}'."
+                    )
 
         return schema_changes, warnings, errors
 
-- 
2.43.0


From c51a20d765d313d93a31af53964d2ea33ead1157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 12/22] fix: schema comparison fails if there are several
 candidates for a renamed datatype

As soon as a dropped datatype had the same members as more than one added
one, or the other way around, the same change was removed from the list of
changes twice, which ended in a ValueError. Which of the renames had been
found by then depended on the order of a set. Look for renames that are
known first and rename every datatype at most once.
---
 python/podio_schema_evolution.py | 45 ++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index c474cd0..6ede1d8 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -409,25 +409,32 @@ class SchemaEvolutionJudge:
                     sig.add((member.name, member.full_type))
             return sig
 
-        for dropped in dropped_datatypes:
-            dropped_sig = _member_signature(dropped.datatype)
-            is_known_evolution = False
-            for added in added_datatypes:
-                if dropped_sig == _member_signature(added.datatype):
-                    for schema_change in read_schema_changes:
-                        if isinstance(schema_change, RenamedDataType) and (
-                            schema_change.name_old == dropped.klassname
-                            and schema_change.name_new == added.klassname
-                        ):
-                            schema_changes.remove(dropped)
-                            schema_changes.remove(added)
-                            schema_changes.append(schema_change)
-                            is_known_evolution = True
-                    if not is_known_evolution:
-                        renamed = RenamedDataType(dropped.klassname, added.klassname)
-                        schema_changes.remove(dropped)
-                        schema_changes.remove(added)
-                        schema_changes.append(renamed)
+        known_renames = {
+            (change.name_old, change.name_new): change
+            for change in read_schema_changes
+            if isinstance(change, RenamedDataType)
+        }
+        possible_renames = [
+            (dropped, added)
+            for dropped in dropped_datatypes
+            for added in added_datatypes
+            if _member_signature(dropped.datatype) == _member_signature(added.datatype)
+        ]
+        # renames that are known come first, every datatype is renamed at most once
+        possible_renames.sort(
+            key=lambda pair: (pair[0].klassname, pair[1].klassname) not in known_renames
+        )
+        for dropped, added in possible_renames:
+            if dropped not in schema_changes or added not in schema_changes:
+                continue
+            schema_changes.remove(dropped)
+            schema_changes.remove(added)
+            schema_changes.append(
+                known_renames.get(
+                    (dropped.klassname, added.klassname),
+                    RenamedDataType(dropped.klassname, added.klassname),
+                )
+            )
 
         # are there dropped/added component pairs that could be interpreted as rename?
         dropped_components = [
-- 
2.43.0


From d045534bbd3bacf995f185b7cb526596beba6cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 13/22] fix: the order of schema changes depends on the hash
 seed

Added and dropped definitions and members were determined with sets of
names, such that the order of the reported changes, and which one of several
candidates is considered a renamed datatype, was different from run to run.
---
 python/podio_schema_evolution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 6ede1d8..8848fa5 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -617,9 +617,11 @@ class DataModelComparator:
     @staticmethod
     def _compare_keys(keys1, keys2):
         """compare keys of two given dicts. return added, dropped and overlapping keys"""
-        added = set(keys1).difference(keys2)
-        dropped = set(keys2).difference(keys1)
-        kept = set(keys1).intersection(keys2)
+        # keep the order of the definitions, to have results that do not depend
+        # on how the names are hashed
+        added = [key for key in keys1 if key not in keys2]
+        dropped = [key for key in keys2 if key not in keys1]
+        kept = [key for key in keys1 if key in keys2]
         return added, dropped, kept
 
     def get_changed_schemata(self, results, schema_filter=None):
-- 
2.43.0


From 9d30c5a5ee6bc4e047e3427d504d6c0d65bce22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 14/22] fix: a datatype with members of another kind is
 considered renamed

Members, VectorMembers and relations with the same name and type were taken
for the same when looking for renamed datatypes.
---
 python/podio_schema_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 8848fa5..59fae96 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -402,11 +402,11 @@ class SchemaEvolutionJudge:
         )
 
         def _member_signature(datatype_definition):
-            """Build a set of (name, full_type) tuples for all member fields of a datatype"""
+            """Build a set of (field, name, full_type) tuples for all members of a datatype"""
             sig = set()
             for field in _MEMBER_FIELDS:
                 for member in datatype_definition.get(field, []):
-                    sig.add((member.name, member.full_type))
+                    sig.add((field, member.name, member.full_type))
             return sig
 
         known_renames = {
-- 
2.43.0


From 150f8b01a1ede1497f2aca6dd6590645118d84ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 15/22] fix: members of a known rename are reported as
 potential renames

---
 python/podio_schema_evolution.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 59fae96..cfde76c 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -316,13 +316,15 @@ class SchemaEvolutionJudge:
         same_type_adds_drops = self.filter_types_with_adds_and_drops(
             added_members, dropped_members
         )
-        for added_member, dropped_member in same_type_adds_drops:
-            if (
-                self.check_rename(
-                    added_member, dropped_member, schema_changes, read_schema_changes
-                )
-                == self.RenameResult.UNHANDLED
-            ):
+        unhandled = [
+            (added_member, dropped_member)
+            for added_member, dropped_member in same_type_adds_drops
+            if self.check_rename(added_member, dropped_member, schema_changes, read_schema_changes)
+            == self.RenameResult.UNHANDLED
+        ]
+        for added_member, dropped_member in unhandled:
+            # members that are part of a known rename are accounted for
+            if added_member in schema_changes and dropped_member in schema_changes:
                 warnings.append(
                     f"Definition '{dropped_member.klassname}' has a potential "
                     f"rename: '{dropped_member.member.name}' -> "
-- 
2.43.0


From cf4298bb21c1259dc1cf24f1e946d983983c121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 16/22] fix: changes of members to a component are not detected
 as unsupported

---
 python/podio_schema_evolution.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index cfde76c..d2991a5 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -293,6 +293,15 @@ class SchemaEvolutionJudge:
 
         return self.RenameResult.UNHANDLED
 
+    def is_component_change(self, change, old_datamodel):
+        """Check whether the type of a member, or of the elements of an array, changes
+        from or to a component"""
+        old_type = change.old_member.array_type or change.old_member.full_type
+        new_type = change.new_member.array_type or change.new_member.full_type
+        return old_type != new_type and (
+            old_type in old_datamodel.components or new_type in self.datamodel_new.components
+        )
+
     def filter_types_with_adds_and_drops(self, added_members, dropped_members):
         """Filter all additions and removals and return pairs of additions /
         removals that happen on the same datatype"""
@@ -378,8 +387,8 @@ class SchemaEvolutionJudge:
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
                     f" to '{change.new_member.full_type}'"
                 )
-            # changing from one component type to another component type is forbidden
-            elif change.old_member.full_type in old_datamodel.components:
+            # changing from or to a component type is forbidden
+            elif self.is_component_change(change, old_datamodel):
                 errors.append(
                     f"Forbidden schema change in '{change.klassname}' for "
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
-- 
2.43.0


From e8b3bb42516bdd49c83f3307908cc9a1f848db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 17/22] fix: parts of a member definition are silently dropped

Without a description everything after the first part that looked like a
definition was ignored (e.g. 'int a, b' or 'long double x'), and default values
extended into comments with curly braces.
---
 python/podio_gen/podio_config_reader.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 928f5a3..003f9bf 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -47,8 +47,10 @@ class MemberParser:
     array_str = rf" *std::array *< *{type_str} *, *([0-9]+) *>"
 
     # Default values can be anything that in curly braces, but not the empty
-    # default initialization, since that is what we generate in any case
-    def_val_str = r"(?:{(.+)})?"
+    # default initialization, since that is what we generate in any case. They end
+    # at the first brace that can be the closing one, since the comment may have
+    # curly braces as well
+    def_val_str = r"(?:{(.+?)})?"
 
     array_re = re.compile(array_str)
     full_array_re = re.compile(
@@ -56,9 +58,10 @@ class MemberParser:
     )
     member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str} *{comment_str}")
 
-    # For cases where we don't require a description
-    bare_member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str}")
-    bare_array_re = re.compile(rf" *{array_str} +{name_str} *{def_val_str} *{unit_str}")
+    # For cases where we don't require a description. In this case there is nothing
+    # that may follow, otherwise (parts of) the definition would be dropped silently
+    bare_member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str} *$")
+    bare_array_re = re.compile(rf" *{array_str} +{name_str} *{def_val_str} *{unit_str} *$")
 
     @staticmethod
     def _parse_with_regexps(string, regexps_callbacks):
-- 
2.43.0


From 3386a305781696498dd133a728bfb83d3b0f8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 18/22] fix: members that are upstream components cannot be
 exposed

exposePODMembers (the default) made reading such a datamodel fail with a KeyError.
---
 python/podio_gen/cpp_generator.py       | 3 ++-
 python/podio_gen/generator_base.py      | 8 ++++++++
 python/podio_gen/podio_config_reader.py | 6 +++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 01c2b65..f9d56a9 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -436,7 +436,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for member in datatype["Members"]:
             if self.expose_pod_members and not member.is_builtin and not member.is_array:
-                member.sub_members = self.datamodel.components[member.full_type]["Members"]
+                component = self._get_definition(member.full_type, "components")
+                member.sub_members = component["Members"]
 
         for relation in datatype["OneToOneRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
diff --git a/python/podio_gen/generator_base.py b/python/podio_gen/generator_base.py
index e70b5fc..57e9d18 100644
--- a/python/podio_gen/generator_base.py
+++ b/python/podio_gen/generator_base.py
@@ -323,3 +323,11 @@ class ClassGeneratorBaseMixin:
                 getattr(self.upstream_edm, category)
             )
         return classname in all_classes
+
+    def _get_definition(self, classname, category):
+        """Get the definition of classname, which has to be in the category, from the
+        datamodel itself or from the upstream datamodel"""
+        own_classes = getattr(self.datamodel, category)
+        if classname in own_classes:
+            return own_classes[classname]
+        return getattr(self.upstream_edm, category)[classname]
diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 003f9bf..518225f 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -320,7 +320,11 @@ class ClassDefinitionValidator:
 
             all_members[member.name] = classname
             if expose_pod_members and not member.is_builtin and not member.is_array:
-                for sub_member in datamodel.components[member.full_type]["Members"]:
+                if member.full_type in datamodel.components:
+                    component = datamodel.components[member.full_type]
+                else:
+                    component = upstream_edm.components[member.full_type]
+                for sub_member in component["Members"]:
                     if sub_member.name in all_members:
                         raise DefinitionError(
                             f"'{sub_member.name}' clashes with another member name in class "
-- 
2.43.0


From 97d3596d9dbf0b1d41149262f1a3b100e9aa1f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 19/22] fix: code generation fails for relations to upstream
 interfaces

They pass the validation, but the definition was only looked up in the datamodel
itself.
---
 python/podio_gen/cpp_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index f9d56a9..f485c3e 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -441,7 +441,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for relation in datatype["OneToOneRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                interface = self._get_definition(relation.full_type, "interfaces")
+                relation.interface_types = interface["Types"]
             if self._needs_include(relation.full_type):
                 fwd_declarations[relation.namespace].append(relation.bare_type)
                 fwd_declarations[relation.namespace].append(f"Mutable{relation.bare_type}")
@@ -453,7 +454,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for relation in datatype["OneToManyRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                interface = self._get_definition(relation.full_type, "interfaces")
+                relation.interface_types = interface["Types"]
             if self._needs_include(relation.full_type):
                 includes.add(self._build_include(relation))
 
-- 
2.43.0


From 5e026c8d24bf55244a7aa499cb9ac22f3afd750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 20/22] fix: invalid definitions are not reported as such

Components without Members and an empty schema_version lead to a KeyError and a
TypeError instead of a DefinitionError.
---
 python/podio_gen/podio_config_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 518225f..85efebd 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -222,6 +222,9 @@ class ClassDefinitionValidator:
                             "Only 'declaration', 'declarationFile' and 'includes' are allowed here"
                         )
 
+            if "Members" not in component:
+                raise DefinitionError(f"component '{name}' does not define 'Members'")
+
             for member in component["Members"]:
                 is_builtin = member.is_builtin or member.is_builtin_array
                 is_component_array = member.is_array and cls._check_comp(
@@ -576,7 +579,7 @@ class PodioConfigReader:
         except KeyError:
             # pylint: disable-next=raise-missing-from
             raise DefinitionError("Please provide a 'schema_version' in your definition")
-        except ValueError:
+        except (TypeError, ValueError):
             # pylint: disable-next=raise-missing-from
             raise DefinitionError(
                 f"schema_version has to be convertible to int (is {model_dict['schema_version']})"
-- 
2.43.0


From 0d9331174f7f3426bcb65a7226ae04c7004bd715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 21/22] fix: embedded definitions with empty descriptions
 cannot be read again

The description was dropped completely, but it is required for members of
datatypes.
---
 python/podio_gen/generator_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 327a158..57cca9b 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -158,6 +158,7 @@ class MemberVariable:
     def __init__(self, name, **kwargs):
         self.name = name
         self.full_type = kwargs.pop("type", "")
+        self.has_description = "description" in kwargs
         self.description = kwargs.pop("description", "")
         self.default_val = kwargs.pop("default_val", None)
         self.unit = kwargs.pop("unit", None)
@@ -331,7 +332,8 @@ class MemberVariable:
         # The __str__ method is geared towards c++ too much, so we have to build
         # things again here from available information
         def_val = f"{{{self.default_val}}}" if self.default_val else ""
-        description = f" // {self.description}" if self.description else ""
+        # Also empty descriptions have to be kept, since they might be required
+        description = f" // {self.description}" if self.has_description else ""
         unit = f"[{self.unit}]" if self.unit else ""
         return f"{self.full_type} {self.name}{def_val}{unit}{description}"
 
-- 
2.43.0


From 1e1e760c8d907044aab1d5a205b257540f6ea0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 22/22] fix: unsigned and uint16_t do not become the right
 julia types

'unsigned' was not converted at all, and arrays of uint16_t became arrays of
UInt16Struct, which does not exist.
---
 python/podio_gen/generator_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 57cca9b..8dba798 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -40,6 +40,7 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
         "bool": "Bool",
         "long": "Int64",
         "unsigned int": "UInt32",
+        "unsigned": "UInt32",
         "unsigned long": "UInt64",
         "char": "Char",
         "short": "Int16",
@@ -61,10 +62,11 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
             return cpp_type
 
     else:
+        is_builtin = array_type in builtin_types_map or _is_fixed_width_type(array_type)
         array_type = get_julia_type(array_type)
         if "::" in array_type:
             array_type = array_type.split("::")[1]
-        if array_type not in builtin_types_map.values():
+        if not is_builtin:
             array_type = array_type + "Struct"
         return f"MVector{{{array_size}, {array_type}}}"
 
-- 
2.43.0

