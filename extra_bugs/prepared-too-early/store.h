// A persistent form in memory, standing in for a file
#pragma once
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#define CHECK(x)                                                                                                       \
  do {                                                                                                                 \
    if (!(x)) {                                                                                                        \
      std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x);                                                      \
      std::exit(1);                                                                                                    \
    }                                                                                                                  \
  } while (0)

struct Stored {
  std::string type;
  unsigned version{};
  bool sub{};
  std::vector<std::vector<podio::ObjectID>> refs;
  std::function<void(podio::CollectionReadBuffers&)> fillData;
};

// Vs: types of the vector members
template <class Data, class... Vs>
Stored stored(const podio::CollectionBase& c) {
  Stored s;
  s.type = c.getTypeName();
  s.version = c.getSchemaVersion();
  s.sub = c.isSubsetCollection();
  auto b = const_cast<podio::CollectionBase&>(c).getBuffers();
  for (auto& r : *b.references)
    s.refs.push_back(*r);
  if (!s.sub) {
    auto data = *b.template dataAsVector<Data>();
    std::tuple<std::vector<Vs>...> vecs;
    size_t i = 0;
    std::apply([&](auto&... v) { ((v = **static_cast<std::remove_reference_t<decltype(v)>**>((*b.vectorMembers)[i++].second)), ...); }, vecs);
    s.fillData = [data, vecs](podio::CollectionReadBuffers& r) {
      *r.template dataAsVector<Data>() = data;
      size_t k = 0;
      std::apply([&](const auto&... v) { ((*static_cast<std::remove_cvref_t<decltype(v)>*>((*r.vectorMembers)[k++].second) = v), ...); }, vecs);
    };
  }
  return s;
}

struct File {
  std::map<std::string, Stored> colls;
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  podio::GenericParameters params;
  template <class Data, class... Vs>
  void write(const podio::Frame& f, const std::string& name) {
    colls[name] = stored<Data, Vs...>(*f.getCollectionForWrite(name));
    auto t = f.getCollectionIDTableForWrite();
    ids = t.ids();
    names = t.names();
    params = podio::GenericParameters(f.getParameters());
  }
};

struct RawData {
  std::shared_ptr<File> file;
  std::set<std::string> left;
  RawData(std::shared_ptr<File> f, std::set<std::string> only = {}) : file(std::move(f)) {
    for (auto& [n, _] : file->colls)
      if (only.empty() || only.count(n))
        left.insert(n);
  }
  podio::CollectionIDTable getIDTable() const {
    return {file->ids, file->names};
  }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& n) {
    if (!left.erase(n))
      return std::nullopt;
    auto& s = file->colls.at(n);
    auto b = podio::CollectionBufferFactory::instance().createBuffers(s.type, s.version, s.sub);
    if (s.fillData)
      s.fillData(*b);
    for (size_t i = 0; i < s.refs.size(); ++i)
      *(*b->references)[i] = s.refs[i];
    return b;
  }
  std::vector<std::string> getAvailableCollections() const {
    return {left.begin(), left.end()};
  }
  std::unique_ptr<podio::GenericParameters> getParameters() {
    return std::make_unique<podio::GenericParameters>(file->params);
  }
};

inline podio::Frame readFrame(std::shared_ptr<File> f, std::set<std::string> only = {}) {
  return podio::Frame(std::make_unique<RawData>(std::move(f), std::move(only)));
}
