// spec/Registry.tla
#include "machine.h"
#include "podio/DatamodelRegistry.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
#include <deque>

static long g_run = 0;
static const podio::version::Version versions[] = {{1, 2, 3}, {65535, 0, 65535}};

struct FakeColl : podio::UserDataCollection<int> {
  size_t index;
  explicit FakeColl(size_t i) : index(i) {
  }
  size_t getDatamodelRegistryIndex() const override {
    return index;
  }
};

// lives as long as the program, as generated code's static data does
static std::string_view keep(const std::string& s) {
  static std::deque<std::string> d;
  return d.emplace_back(s);
}

struct RegistryMachine : Machine {
  std::string pre = "verif" + std::to_string(++g_run) + "_";
  std::vector<size_t> index; // real index of the models
  std::vector<std::string> models;
  std::vector<podio::DatamodelDefinitionCollector> collectors;
  std::vector<podio::DatamodelDefinitionHolder> holders;
  std::set<std::string> types;

  std::string text(const std::string& def) {
    return "{\"def\": \"" + pre + def + "\"}";
  }
  json back(std::string_view s) {
    if (s == "{}")
      return "{}";
    const auto p = s.find(pre);
    return p == s.npos ? json("unknown definition " + std::string(s)) : json(std::string(s.substr(p + pre.size(), s.size() - p - pre.size() - 2)));
  }
  json backName(const std::string& s) {
    return s.starts_with(pre) ? s.substr(pre.size()) : "unknown model " + s;
  }
  static json backVersion(const std::optional<podio::version::Version>& v) {
    if (!v)
      return "-";
    return *v == versions[0] ? "v1" : *v == versions[1] ? "v2" : "unknown version";
  }

  json perform(const json& a) override {
    const std::string op = a["op"];
    auto& reg = podio::DatamodelRegistry::mutInstance();
    if (op == "Reg") {
      const std::string n = a["n"];
      static std::deque<podio::RelationNameMapping> kept;
      const auto t = keep(pre + n + "::Type"), t2 = keep(pre + n + "::Typ");
      auto& rels = kept.emplace_back();
      if (a["rel"] == "r1") {
        rels = {{t, {"many", "one"}, {"vec", "vec2"}}, {t2, {}, {"only"}}};
      } else {
        rels = {{t2, {"x"}, {}}, {t, {"one", "many"}, {}}};
      }
      const auto def = keep(text(a["def"]));
      size_t i;
      if (a["ver"] == "-")
        i = reg.registerDatamodel(pre + n, def, rels);
      else
        i = reg.registerDatamodel(pre + n, def, rels, versions[a["ver"] == "v1" ? 0 : 1]);
      if (std::ranges::find(index, i) == index.end()) {
        index.push_back(i);
        models.push_back(n);
      }
      return std::ranges::find(index, i) - index.begin() + 1;
    } else if (op == "NewCollector") {
      collectors.emplace_back();
    } else if (op == "Collect") {
      const std::string n = a["n"];
      size_t i = podio::DatamodelRegistry::NoDefinitionNecessary;
      if (n == "lost")
        i = podio::DatamodelRegistry::NoDefinitionAvailable;
      else if (n != "user")
        i = index.at(std::ranges::find(models, n) - models.begin());
      const FakeColl c(i);
      Captured out;
      collectors.at(a["c"].get<int>() - 1).registerDatamodelDefinition(&c, "name");
      CHECK(out.err.str().empty() == (n != "lost"), "warning for " << n);
    } else if (op == "Hold") {
      auto d = collectors.at(a["c"].get<int>() - 1).getDatamodelDefinitionsToWrite();
      podio::DatamodelDefinitionHolder::VersionList v;
      for (const auto& [n, def] : d)
        if (const auto x = reg.getDatamodelVersion(n))
          v.emplace_back(n, *x);
      holders.emplace_back(std::move(d), std::move(v));
    } else {
      throw std::logic_error("driver: unknown op " + op);
    }
    return "ok";
  }

  json observe(const json& want) override {
    const auto& reg = podio::DatamodelRegistry::instance();
    json ms = json::array(), defs, vers, rels, tw = json::array(), hs = json::array();
    Captured quiet;
    for (auto i : index)
      ms.push_back({{"n", backName(reg.getDatamodelName(i))}, {"def", back(reg.getDatamodelDefinition(i))}});
    for (const auto& [n, _] : want["defs"].items()) {
      defs[n] = back(reg.getDatamodelDefinition(pre + n));
      vers[n] = backVersion(reg.getDatamodelVersion(pre + n));
      using V = std::vector<std::string_view>;
      auto of = [&](const std::string& type) {
        const auto r = reg.getRelationNames(type);
        const auto c = reg.getRelationNames(type + "Collection");
        CHECK(r.relations == c.relations && r.vectorMembers == c.vectorMembers, "relations of the collection type differ");
        return std::make_pair(r.relations, r.vectorMembers);
      };
      const auto a = of(pre + n + "::Type"), b = of(pre + n + "::Typ");
      CHECK(reg.getRelationNames(pre + n + "::TypeX").relations.empty() && reg.getRelationNames(pre + n).relations.empty(),
            "relations of something unknown");
      if (a.first == V{"many", "one"} && a.second == V{"vec", "vec2"} && b.first.empty() && b.second == V{"only"})
        rels[n] = "r1";
      else if (a.first == V{"one", "many"} && a.second.empty() && b.first == V{"x"} && b.second.empty())
        rels[n] = "r2";
      else if (a.first.empty() && a.second.empty() && b.first.empty() && b.second.empty())
        rels[n] = "none";
      else
        rels[n] = "something else";
    }
    const size_t wrong = podio::DatamodelRegistry::NoDefinitionNecessary - g_step % 3;
    const auto u = reg.getRelationNames("podio::UserDataCollection<float>");
    const auto l = reg.getRelationNames(g_step % 2 ? "podio::LinkCollection<A,B>" : "podio::Link<A,B>");
    const bool fromto = l.relations == std::vector<std::string_view>{"from", "to"} && l.vectorMembers.empty();
    for (const auto& c : collectors) {
      json d = json::array();
      for (const auto& [n, def] : c.getDatamodelDefinitionsToWrite())
        d.push_back({{"n", backName(n)}, {"def", back(def)}});
      tw.push_back({{"set_d", d}});
    }
    for (const auto& h : holders) {
      json av = json::array(), d, v;
      for (const auto& n : h.getAvailableDatamodels())
        av.push_back(backName(n));
      for (const auto& [n, _] : want["defs"].items()) {
        d[n] = back(h.getDatamodelDefinition(pre + n));
        v[n] = backVersion(h.getDatamodelVersion(pre + n));
      }
      hs.push_back({{"set_avail", av}, {"def", d}, {"ver", v}});
    }
    return {{"models", ms},
            {"defs", defs},
            {"vers", vers},
            {"rels", rels},
            {"unknown", {{"def", std::string(reg.getDatamodelDefinition(wrong))}, {"name", reg.getDatamodelName(wrong)}}},
            {"user", u.relations.empty() && u.vectorMembers.empty() ? "none" : "some"},
            {"link", fromto ? "fromto" : "wrong"},
            {"towrite", tw},
            {"hold", hs}};
  }
};
static const Register reg("Registry", [] { return std::make_unique<RegistryMachine>(); }, true);
