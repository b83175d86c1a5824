// spec/IdTable.tla
#include "machine.h"
#include "podio/CollectionIDTable.h"
#include <sstream>

// MurmurHash3_x86_32 with seed 0, from its definition
static uint32_t murmur3(const std::string& s) {
  auto rotl = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
  uint32_t h = 0;
  const uint32_t c1 = 0xcc9e2d51, c2 = 0x1b873593;
  const size_t nb = s.size() / 4;
  auto byte = [&](size_t i) { return static_cast<uint32_t>(static_cast<unsigned char>(s[i])); };
  for (size_t i = 0; i < nb; ++i) {
    uint32_t k = byte(4 * i) | byte(4 * i + 1) << 8 | byte(4 * i + 2) << 16 | byte(4 * i + 3) << 24;
    k *= c1;
    k = rotl(k, 15);
    k *= c2;
    h ^= k;
    h = rotl(h, 13);
    h = h * 5 + 0xe6546b64;
  }
  uint32_t k = 0;
  for (size_t i = s.size(); i > nb * 4; --i)
    k = (k << 8) | byte(i - 1);
  if (s.size() % 4) {
    k *= c1;
    k = rotl(k, 15);
    k *= c2;
    h ^= k;
  }
  h ^= static_cast<uint32_t>(s.size());
  h ^= h >> 16;
  h *= 0x85ebca6b;
  h ^= h >> 13;
  h *= 0xc2b2ae35;
  h ^= h >> 16;
  return h;
}

static const std::map<std::string, std::string>& names() {
  static const std::map<std::string, std::string> m{
      {"a", "hits"},
      {"b", ""},
      {"c", std::string(3000, 'x') + "y"},
      {"d", std::string("zero\0inside", 11)},
      {"e", "a b/c.d \xc3\xa4\xff\n"},
      {"f", "hit"},
      {"g", "hits2"},
  };
  return m;
}
static const std::map<std::string, uint32_t>& explicitIds() {
  static const std::map<std::string, uint32_t> m{{"x0", 7}, {"x1", 1}, {"xm", 0xffffffff}, {"xn", 0xfffffffe}, {"xs", 0x80000000}};
  return m;
}
static uint32_t id(const std::string& x) {
  return x[0] == 'h' ? murmur3(names().at(x.substr(1))) : explicitIds().at(x);
}
static json backId(std::optional<uint32_t> x) {
  if (!x)
    return "-";
  for (const auto& [k, v] : explicitIds())
    if (v == *x)
      return k;
  for (const auto& [k, v] : names())
    if (murmur3(v) == *x)
      return "h" + k;
  return "unknown ID " + std::to_string(*x);
}
static json backName(const std::optional<const std::string>& n) {
  if (!n)
    return "-";
  for (const auto& [k, v] : names())
    if (v == *n)
      return k;
  return "unknown name " + *n;
}

struct IdTableMachine : Machine {
  std::vector<std::unique_ptr<podio::CollectionIDTable>> tabs;

  json perform(const json& a) override {
    const std::string op = a["op"];
    auto T = [&](const char* k) -> std::unique_ptr<podio::CollectionIDTable>& { return tabs.at(a[k].get<int>() - 1); };
    if (op == "New") {
      tabs.push_back(std::make_unique<podio::CollectionIDTable>());
    } else if (op == "FromLists") {
      std::vector<uint32_t> ids;
      std::vector<std::string> ns;
      for (const auto& e : a["e"]) {
        ids.push_back(id(e["id"]));
        ns.push_back(names().at(e["n"]));
      }
      if (a["how"] == "copy") {
        tabs.push_back(std::make_unique<podio::CollectionIDTable>(ids, ns));
        CHECK(ids.size() == a["e"].size() && ns.size() == ids.size(), "lists have been changed");
      } else {
        tabs.push_back(std::make_unique<podio::CollectionIDTable>(std::move(ids), std::move(ns)));
      }
    } else if (op == "Add") {
      return backId(T("t")->add(names().at(a["n"])));
    } else if (op == "Move") {
      auto n = std::make_unique<podio::CollectionIDTable>(std::move(*T("t")));
      T("t").reset();
      tabs.push_back(std::move(n));
    } else if (op == "MoveInto") {
      *T("u") = std::move(*T("t"));
      T("t").reset();
    } else if (op == "Print") {
      std::string text;
      {
        Captured c;
        T("t")->print();
        text = c.out.str();
      }
      // one line per entry, in order
      std::string expect = "CollectionIDTable\n";
      for (const auto& e : a["res"])
        expect += "\t" + names().at(e["n"]) + " : " + std::to_string(id(e["id"])) + "\n";
      return text == expect ? a["res"] : json(text);
    } else {
      throw std::logic_error("driver: unknown op " + op);
    }
    return "ok";
  }

  json observe(const json& want) override {
    json r = json::array();
    for (const auto& t : tabs) {
      // what the specification tells about
      json w;
      for (const auto& x : want["tabs"])
        if (x["live"].get<bool>())
          w = x;
      if (!t) {
        r.push_back({{"live", false}});
        continue;
      }
      json ns = json::array(), ids = json::array(), look, back;
      for (const auto& n : t->names())
        ns.push_back(backName(n));
      for (auto i : t->ids())
        ids.push_back(backId(i));
      for (const auto& [k, n] : names()) {
        if (!w["look"].contains(k))
          continue;
        look[k] = backId(t->collectionID(n));
        CHECK(t->present(n) == (look[k] != "-"), "present(" << k << ")");
        back["h" + k] = backName(t->name(id("h" + k)));
        CHECK(t->present(id("h" + k)) == (back["h" + k] != "-"), "present(ID of " << k << ")");
      }
      for (const auto& [k, x] : explicitIds()) {
        if (!w["back"].contains(k))
          continue;
        back[k] = backName(t->name(x));
        CHECK(t->present(x) == (back[k] != "-"), "present(" << k << ")");
      }
      r.push_back({{"live", true}, {"names", ns}, {"ids", ids}, {"empty", t->empty()}, {"look", look}, {"back", back}});
    }
    return {{"tabs", r}};
  }
};
static const Register reg("IdTable", [] { return std::make_unique<IdTableMachine>(); });
