// spec/UserData.tla
#include "machine.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include "podio/UserDataCollection.h"
#include <limits>
#include <list>
#include <ranges>

template <class T>
T val(int x) {
  static const T v[] = {T{}, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest() == T{} ? T(std::numeric_limits<T>::max() - 1)
                                                                                 : std::numeric_limits<T>::lowest(),
                       T(65), T(3)};
  return v[x];
}
template <class T>
int back(T v) {
  for (int i = 0; i < 5; ++i)
    if (v == val<T>(i))
      return i;
  return -2;
}

struct Ops {
  using C = podio::CollectionBase;
  virtual ~Ops() = default;
  virtual std::unique_ptr<C> make() = 0;
  virtual std::unique_ptr<C> from(const std::string& how, const std::vector<int>& s) = 0;
  virtual void push(C&, const std::string& how, int x) = 0;
  virtual void resize(C&, size_t n) = 0;
  virtual void set(C&, const std::string& how, size_t i, int x) = 0;
  virtual void at(C&, bool con, size_t i) = 0;
  virtual std::unique_ptr<C> move(C&) = 0;
  virtual void moveInto(C& to, C& from) = 0;
  virtual std::unique_ptr<C> copy(const C&) = 0;
  virtual void put(podio::Frame&, C&, const std::string& n) = 0;
  virtual const C* get(const podio::Frame&, const std::string& n) = 0;
  virtual json els(const C&) = 0;
  virtual std::string text(const json& els) = 0;
  virtual std::string printed(const C&, unsigned how) = 0;
};

template <class T>
struct OpsOf : Ops {
  using U = podio::UserDataCollection<T>;
  static U& u(C& c) {
    return dynamic_cast<U&>(c);
  }
  static const U& u(const C& c) {
    return dynamic_cast<const U&>(c);
  }
  std::unique_ptr<C> make() override {
    return std::make_unique<U>();
  }
  std::unique_ptr<C> from(const std::string& how, const std::vector<int>& s) override {
    std::vector<T> v;
    for (int x : s)
      v.push_back(val<T>(x));
    if (how == "vector")
      return std::make_unique<U>(std::move(v));
    if (how == "range") {
      std::list<T> l(v.begin(), v.end());
      auto r = std::make_unique<U>(U::from(l));
      CHECK(std::ranges::equal(l, v), "range has been changed");
      return r;
    }
    return std::make_unique<U>(U::from(s | std::views::transform([](int x) { return val<T>(x); })));
  }
  void push(C& c, const std::string& how, int x) override {
    if (how == "push")
      u(c).push_back(val<T>(x));
    else if (how == "create")
      u(c).create() = val<T>(x);
    else
      u(c).vec().push_back(val<T>(x));
  }
  void resize(C& c, size_t n) override {
    u(c).resize(n);
  }
  void set(C& c, const std::string& how, size_t i, int x) override {
    auto& a = u(c);
    if (how == "at")
      a.at(i) = val<T>(x);
    else if (how == "index")
      a[i] = val<T>(x);
    else if (how == "iterator")
      *(a.begin() + i) = val<T>(x);
    else if (how == "reverse")
      *(a.rbegin() + (a.size() - 1 - i)) = val<T>(x);
    else
      a.vec()[i] = val<T>(x);
  }
  void at(C& c, bool con, size_t i) override {
    if (con)
      (void)static_cast<const U&>(u(c)).at(i);
    else
      (void)u(c).at(i);
  }
  std::unique_ptr<C> move(C& c) override {
    return std::make_unique<U>(std::move(u(c)));
  }
  void moveInto(C& to, C& from) override {
    u(to) = std::move(u(from));
  }
  std::unique_ptr<C> copy(const C& c) override {
    c.prepareForWrite();
    auto w = const_cast<C&>(c).getBuffers();
    auto& f = podio::CollectionBufferFactory::instance();
    auto b = f.createBuffers(std::string(c.getTypeName()), c.getSchemaVersion(), variant(2));
    CHECK(b && b->data, "no buffers for " << c.getTypeName());
    CHECK(b->schemaVersion == c.getSchemaVersion() && b->type == c.getTypeName(), "buffers are of another type or version");
    CHECK(w.references && w.references->empty() && w.vectorMembers && w.vectorMembers->empty(), "references or vector members");
    CHECK(*static_cast<std::vector<T>**>(w.data) == w.template dataAsVector<T>(), "data and vecPtr do not match");
    *b->template dataAsVector<T>() = *w.template dataAsVector<T>();
    auto n = b->createCollection(std::move(*b), false);
    n->prepareAfterRead();
    CHECK(n->setReferences(nullptr), "setReferences");
    return n;
  }
  void put(podio::Frame& f, C& c, const std::string& n) override {
    const auto& r = f.put(std::move(u(c)), n);
    CHECK(&r == f.get(n), "put returned something else than what is in the frame");
  }
  const C* get(const podio::Frame& f, const std::string& n) override {
    return &f.get<U>(n);
  }
  json els(const C& c) override {
    const auto& a = u(c);
    json r = json::array();
    for (auto x : a)
      r.push_back(back<T>(x));
    const auto n = a.size();
    CHECK(size_t(a.end() - a.begin()) == n && size_t(a.cend() - a.cbegin()) == n && size_t(a.rend() - a.rbegin()) == n &&
              size_t(a.crend() - a.crbegin()) == n && a.vec().size() == n,
          "different sizes");
    for (size_t i = 0; i < n; ++i)
      CHECK(a.at(i) == a[i] && a.vec()[i] == a[i] && *(a.begin() + i) == a[i] && *(a.cbegin() + i) == a[i] &&
                *(a.rbegin() + (n - 1 - i)) == a[i] && *(a.crbegin() + (n - 1 - i)) == a[i],
            "element " << i << " depends on how it is accessed");
    CHECK(c.getTypeName() == U::typeName && c.getValueTypeName() == U::valueTypeName && c.getDataTypeName() == U::dataTypeName &&
              c.getSchemaVersion() == 1 && c.getDatamodelRegistryIndex() == podio::DatamodelRegistry::NoDefinitionNecessary,
          "type information");
    CHECK(c.max_size() >= n, "max_size");
    return r;
  }
  std::string text(const json& e) override {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < e.size(); ++i)
      o << (i ? ", " : "") << val<T>(e[i]);
    o << "]";
    return o.str();
  }
  std::string printed(const C& c, unsigned how) override {
    std::ostringstream o;
    if (how == 0)
      o << u(c);
    else
      c.print(o, how == 1);
    return o.str();
  }
};

static std::map<std::string, std::unique_ptr<Ops>>& ops() {
  static std::map<std::string, std::unique_ptr<Ops>> m = [] {
    std::map<std::string, std::unique_ptr<Ops>> r;
    r["float"] = std::make_unique<OpsOf<float>>();
    r["double"] = std::make_unique<OpsOf<double>>();
    r["int8_t"] = std::make_unique<OpsOf<int8_t>>();
    r["int16_t"] = std::make_unique<OpsOf<int16_t>>();
    r["int32_t"] = std::make_unique<OpsOf<int32_t>>();
    r["int64_t"] = std::make_unique<OpsOf<int64_t>>();
    r["uint8_t"] = std::make_unique<OpsOf<uint8_t>>();
    r["uint16_t"] = std::make_unique<OpsOf<uint16_t>>();
    r["uint32_t"] = std::make_unique<OpsOf<uint32_t>>();
    r["uint64_t"] = std::make_unique<OpsOf<uint64_t>>();
    return r;
  }();
  return m;
}
static const std::map<std::string, uint32_t> givenIds{{"a", 17}, {"b", 0xfffffffd}};

struct UserDataMachine : Machine {
  struct Entry {
    std::string t;
    std::unique_ptr<podio::CollectionBase> own;
    const podio::CollectionBase* framed{nullptr};
    podio::CollectionBase& c() {
      return own ? *own : const_cast<podio::CollectionBase&>(*framed);
    }
    Ops& o() {
      return *ops().at(t);
    }
  };
  podio::Frame frame;
  std::vector<Entry> cs;
  std::map<std::string, int> inFrame;

  json perform(const json& a) override {
    const std::string op = a["op"];
    auto E = [&](const char* k) -> Entry& { return cs.at(a[k].get<int>() - 1); };
    auto add = [&](const std::string& t, std::unique_ptr<podio::CollectionBase> c) { cs.push_back({t, std::move(c)}); };
    if (op == "New") {
      add(a["t"], ops().at(a["t"])->make());
    } else if (op == "From") {
      add(a["t"], ops().at(a["t"])->from(a["how"], a["s"].get<std::vector<int>>()));
    } else if (op == "Push") {
      E("c").o().push(E("c").c(), a["how"], a["x"]);
    } else if (op == "Resize") {
      E("c").o().resize(E("c").c(), a["n"].get<size_t>());
    } else if (op == "Set") {
      E("c").o().set(E("c").c(), a["how"], a["i"].get<size_t>() - 1, a["x"]);
    } else if (op == "AtBad") {
      E("c").o().at(E("c").c(), a["con"], a["i"].get<size_t>());
    } else if (op == "Clear") {
      E("c").c().clear();
    } else if (op == "Subset") {
      E("c").c().setSubsetCollection(a["b"].get<bool>());
    } else if (op == "SetID") {
      E("c").c().setID(givenIds.at(a["x"]));
    } else if (op == "Move") {
      auto n = E("c").o().move(E("c").c());
      const auto t = E("c").t;
      E("c").own.reset();
      add(t, std::move(n));
    } else if (op == "MoveInto") {
      E("c").o().moveInto(E("d").c(), E("c").c());
      E("c").own.reset();
    } else if (op == "Drop") {
      E("c").own.reset();
    } else if (op == "Copy") {
      auto n = E("c").o().copy(E("c").c());
      add(E("c").t, std::move(n));
    } else if (op == "Put") {
      auto& e = E("c");
      auto own = std::move(e.own);
      const std::string n = a["n"];
      if (a["how"] == "move")
        e.o().put(frame, *own, n);
      else
        frame.put(std::move(own), n);
      e.framed = frame.get(n);
      CHECK(e.framed, "collection is not in the frame");
      inFrame[n] = a["c"];
    } else if (op == "Get") {
      const std::string n = a["n"];
      const auto* p = frame.get(n);
      if (!p)
        return 0;
      const auto c = inFrame.at(n);
      CHECK(cs[c - 1].framed == p, "another collection than before");
      try {
        const auto* q = ops().at(a["t"])->get(frame, n);
        CHECK(q == p, "another collection than without type");
      } catch (const std::runtime_error&) {
        return -1;
      }
      return c;
    } else if (op == "Print") {
      auto& e = E("c");
      const auto got = e.o().printed(e.c(), variant(3));
      return got == e.o().text(a["res"]) ? a["res"] : json(got);
    } else {
      throw std::logic_error("driver: unknown op " + op);
    }
    return "ok";
  }

  json observe(const json&) override {
    json r = json::array();
    for (auto& e : cs) {
      if (!e.own && !e.framed) {
        r.push_back({{"live", false}});
        continue;
      }
      const auto& c = e.c();
      std::string id = "unknown ID " + std::to_string(c.getID());
      if (c.getID() == static_cast<uint32_t>(podio::ObjectID::untracked))
        id = "none";
      for (const auto& [k, x] : givenIds)
        if (x == c.getID())
          id = k;
      if (e.framed) {
        const auto n = frame.getName(c.getID());
        id = n ? "h" + *n : "no name";
      }
      CHECK(c.hasID() == (id != "none"), "hasID");
      const auto els = e.o().els(c);
      r.push_back({{"live", true}, {"t", e.t}, {"el", els}, {"size", c.size()}, {"empty", c.empty()}, {"id", id},
                   {"subset", c.isSubsetCollection()},
                   {"names", std::string(c.getTypeName()) == "podio::UserDataCollection<" + e.t + ">" &&
                                 c.getValueTypeName() == e.t && c.getDataTypeName() == e.t}});
    }
    return {{"c", r}, {"set_frame", frame.getAvailableCollections()}};
  }
};
static const Register reg("UserData", [] { return std::make_unique<UserDataMachine>(); });
