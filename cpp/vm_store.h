// The persistent form of a frame, kept in memory: what a writer would write to
// a file and a reader would read from it.
#pragma once
#include "vm_types.h"
#include <map>
#include <mutex>
#include <nlohmann/json.hpp>

using json = nlohmann::json;

struct StoredColl {
  std::string type;
  podio::SchemaVersionT version{0};
  bool sub{false};
  std::vector<std::vector<podio::ObjectID>> refs;
  virtual ~StoredColl() = default;
  // fill fresh buffers the way a reader does
  virtual void fill(podio::CollectionReadBuffers& b) const = 0;
  virtual int typeNo() const = 0;
  // what it says: {t, sub, data, refs} with references as given by ref
  virtual json decode(const std::function<json(podio::ObjectID)>& ref) const = 0;
};

struct Malformed : std::runtime_error {
  using std::runtime_error::runtime_error;
};

template <class T>
struct StoredCollT : StoredColl {
  using Data = typename D<T>::Data;
  template <class Tuple>
  struct Vecs;
  template <class... Xs>
  struct Vecs<std::tuple<Xs...>> {
    std::tuple<std::vector<Xs>...> v;
  };
  std::vector<Data> data;
  Vecs<typename D<T>::VecTypes> vecs;

  explicit StoredCollT(const podio::CollectionBase& c) {
    type = c.getTypeName();
    version = c.getSchemaVersion();
    sub = c.isSubsetCollection();
    auto b = const_cast<podio::CollectionBase&>(c).getBuffers();
    if (!b.references)
      throw Malformed("no references buffer");
    for (const auto& r : *b.references)
      refs.push_back(*r);
    const size_t nrefs = sub ? 1 : D<T>::n1 + D<T>::nm;
    if (refs.size() != nrefs)
      throw Malformed("number of reference buffers is " + std::to_string(refs.size()));
    if (!sub) {
      if (!b.data || !b.vecPtr || *static_cast<std::vector<Data>**>(b.data) != b.vecPtr)
        throw Malformed("no data buffer");
      data = *b.template dataAsVector<Data>();
      if (D<T>::nv > 0 && (!b.vectorMembers || b.vectorMembers->size() != D<T>::nv))
        throw Malformed("wrong number of vector member buffers");
      size_t i = 0;
      std::apply([&](auto&... v) { ((v = **static_cast<std::remove_cvref_t<decltype(v)>**>((*b.vectorMembers)[i++].second)), ...); },
                 vecs.v);
    }
  }
  void fill(podio::CollectionReadBuffers& b) const override {
    if (sub) {
      if (b.data)
        throw Malformed("buffers for a subset collection have data");
    } else {
      if (!b.data)
        throw Malformed("buffers without data");
      *b.template dataAsVector<Data>() = data;
      size_t i = 0;
      std::apply(
          [&](const auto&... v) {
            ((*static_cast<std::remove_cvref_t<decltype(v)>*>((*b.vectorMembers)[i++].second) = v), ...);
          },
          vecs.v);
    }
    if (b.references->size() != refs.size())
      throw Malformed("wrong number of reference buffers to read into");
    for (size_t i = 0; i < refs.size(); ++i)
      *(*b.references)[i] = refs[i];
  }
  int typeNo() const override {
    return D<T>::no;
  }
  json decode(const std::function<json(podio::ObjectID)>& ref) const override {
    json j{{"t", typeNames[D<T>::no]}, {"sub", sub}, {"data", json::array()}, {"refs", json::array()}};
    if (sub) {
      for (const auto& r : refs[0])
        j["refs"].push_back(ref(r));
      return j;
    }
    std::vector<long> mEnd(D<T>::nm, 0), vEnd(D<T>::nv, 0);
    for (size_t n = 0; n < data.size(); ++n) {
      json e{{"f", slotsOf<T>(data[n])}, {"v", json::array()}, {"one", json::array()}, {"many", json::array()}};
      for (int k = 0; k < D<T>::nm; ++k) {
        const auto [b, end] = D<T>::manyRange(data[n], k + 1);
        if (b != mEnd[k] || end < b || size_t(end) > refs[k].size())
          throw Malformed("bad range of relation");
        mEnd[k] = end;
        json l = json::array();
        for (long i = b; i < end; ++i)
          l.push_back(ref(refs[k][i]));
        e["many"].push_back(l);
      }
      int k = 0;
      std::apply(
          [&](const auto&... v) {
            auto f = [&](const auto& vec) {
              const auto [b, end] = D<T>::vecRange(data[n], k + 1);
              if (b != vEnd[k] || end < b || size_t(end) > vec.size())
                throw Malformed("bad range of vector member");
              vEnd[k] = end;
              json l = json::array();
              for (long i = b; i < end; ++i)
                l.push_back(decVec(k + 1, vec[i]));
              e["v"].push_back(l);
              ++k;
            };
            (f(v), ...);
          },
          vecs.v);
      for (int o = 0; o < D<T>::n1; ++o) {
        if (refs[D<T>::nm + o].size() != data.size())
          throw Malformed("wrong number of references of one-to-one relation");
        e["one"].push_back(ref(refs[D<T>::nm + o][n]));
      }
      j["data"].push_back(e);
    }
    for (int k = 0; k < D<T>::nm; ++k)
      if (size_t(mEnd[k]) != refs[k].size())
        throw Malformed("left over references");
    int k = 0;
    std::apply(
        [&](const auto&... v) {
          auto f = [&](const auto& vec) {
            if (size_t(vEnd[k++]) != vec.size())
              throw Malformed("left over vector members");
          };
          (f(v), ...);
        },
        vecs.v);
    return j;
  }
};

struct Store {
  std::map<std::string, std::shared_ptr<StoredColl>> colls;
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  std::shared_ptr<podio::GenericParameters> params;
};

// The raw data of a frame: gives out each collection once
struct StoreData {
  std::shared_ptr<Store> store;
  std::set<std::string> left;
  std::shared_ptr<std::map<std::string, int>> taken;
  StoreData(std::shared_ptr<Store> s, std::set<std::string> limit, std::shared_ptr<std::map<std::string, int>> t) :
      store(std::move(s)), left(std::move(limit)), taken(std::move(t)) {
  }
  podio::CollectionIDTable getIDTable() const {
    return podio::CollectionIDTable(store->ids, store->names);
  }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name) {
    if (!left.erase(name))
      return std::nullopt;
    ++(*taken)[name];
    const auto& c = *store->colls.at(name);
    auto b = podio::CollectionBufferFactory::instance().createBuffers(c.type, c.version, c.sub);
    if (!b)
      throw Malformed("no buffers for " + c.type);
    if (b->type != c.type)
      throw Malformed("buffers for " + std::string(b->type) + " instead of " + c.type);
    c.fill(*b);
    return b;
  }
  std::vector<std::string> getAvailableCollections() const {
    return {left.begin(), left.end()};
  }
  std::unique_ptr<podio::GenericParameters> getParameters() {
    return std::make_unique<podio::GenericParameters>(*store->params);
  }
};
