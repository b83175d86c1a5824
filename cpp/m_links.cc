// spec/Navigator.tla
#include "vm_machine.h"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

static constexpr int kPool = 4;
/// The objects links can be between, in a frame of their own
struct Pool {
  podio::Frame frame;
  HitCollection* hits;
  NodeCollection* nodes;
  ns::ItemCollection* items;
  Pool() {
    auto h = std::make_unique<HitCollection>();
    auto n = std::make_unique<NodeCollection>();
    auto i = std::make_unique<ns::ItemCollection>();
    for (int k = 0; k < kPool; ++k) {
      h->create().tag(10 + k);
      n->create().tag(20 + k);
      i->create().tag(30 + k);
    }
    hits = h.get(), nodes = n.get(), items = i.get();
    frame.put(std::move(h), "h");
    frame.put(std::move(n), "n");
    frame.put(std::move(i), "i");
  }
};

static float weight(int x) {
  static const float v[] = {0.f, 1.f, -2.5f, 1e-42f, 3.4e38f};
  return v[x];
}
static int weightNo(float w) {
  for (int i = 0; i < 5; ++i)
    if (weight(i) == w)
      return i;
  return -1;
}

/// Handles by name, of any kind
template <class T>
struct By;
template <>
struct By<Hit> {
  static Hit get(Pool& p, const std::string& s) {
    return s == "-" ? Hit::makeEmpty() : Hit((*p.hits)[std::stoul(s.substr(1)) - 1]);
  }
  static MutableHit mut(Pool& p, const std::string& s) {
    return (*p.hits)[std::stoul(s.substr(1)) - 1];
  }
  static std::string name(Pool& p, const Hit& o) {
    if (!o.isAvailable())
      return "-";
    for (int i = 0; i < kPool; ++i)
      if (o == (*p.hits)[i] && o.tag() == 10 + i && o.getObjectID() == (*p.hits)[i].getObjectID())
        return "h" + std::to_string(i + 1);
    return "an unknown hit";
  }
};
template <>
struct By<Node> {
  static Node get(Pool& p, const std::string& s) {
    return s == "-" ? Node::makeEmpty() : Node((*p.nodes)[std::stoul(s.substr(1)) - 1]);
  }
  static MutableNode mut(Pool& p, const std::string& s) {
    return (*p.nodes)[std::stoul(s.substr(1)) - 1];
  }
  static std::string name(Pool& p, const Node& o) {
    if (!o.isAvailable())
      return "-";
    for (int i = 0; i < kPool; ++i)
      if (o == (*p.nodes)[i] && o.tag() == 20 + i && o.getObjectID() == (*p.nodes)[i].getObjectID())
        return "n" + std::to_string(i + 1);
    return "an unknown node";
  }
};
template <>
struct By<Energetic> {
  static Energetic get(Pool& p, const std::string& s) {
    if (s == "-")
      return Energetic::makeEmpty();
    if (s[0] == 'h')
      return Energetic((*p.hits)[std::stoul(s.substr(1)) - 1]);
    return Energetic(ns::Item((*p.items)[std::stoul(s.substr(1)) - 1]));
  }
  static std::string name(Pool& p, const Energetic& o) {
    if (!o.isAvailable())
      return "-";
    if (o.isA<Hit>())
      return By<Hit>::name(p, o.as<Hit>());
    for (int i = 0; i < kPool; ++i)
      if (o == Energetic((*p.items)[i]) && o.as<ns::Item>().tag() == 30 + i && o.getObjectID() == (*p.items)[i].getObjectID())
        return "i" + std::to_string(i + 1);
    return "an unknown item";
  }
};

struct LinkOps {
  virtual ~LinkOps() = default;
  virtual void create(const std::string& how, const std::string& f, const std::string& t, int x) = 0;
  virtual void setFrom(size_t l, const std::string& how, const std::string& f) = 0;
  virtual void setTo(size_t l, const std::string& how, const std::string& t) = 0;
  virtual void setWeight(size_t l, int x) = 0;
  virtual void clone(size_t l, bool rel) = 0;
  virtual void clear() = 0;
  virtual void freeze() = 0;
  virtual void navigate() = 0;
  virtual void some(const std::vector<int>& s) = 0;
  virtual void copyNav(size_t n) = 0;
  virtual void moveNav(size_t n) = 0;
  virtual void assignNav(size_t n, size_t m) = 0;
  virtual void dropNav(size_t n) = 0;
  virtual json links() = 0;
  virtual json navs(const json& want) = 0;
};

template <class C>
struct LinkOpsOf : LinkOps {
  using From = typename C::from_type;
  using To = typename C::to_type;
  using L = typename C::value_type;
  using ML = typename C::mutable_type;
  using Nav = podio::LinkNavigator<C>;
  static constexpr bool same = std::is_same_v<From, To>;
  static constexpr bool iface = std::is_same_v<To, Energetic>;
  Pool& p;
  podio::Frame frame;
  std::unique_ptr<C> own{new C};
  const C* fixed{nullptr};
  std::vector<std::unique_ptr<Nav>> ns_;
  explicit LinkOpsOf(Pool& pool) : p(pool) {
  }
  const C& coll() const {
    return own ? *own : *fixed;
  }
  void from(ML l, const std::string& how, const std::string& f) {
    if (how == "typed") {
      if constexpr (!same) {
        if (f != "-" && variant(2))
          l.set(From(By<From>::mut(p, f)));
        else
          l.set(By<From>::get(p, f));
        return;
      }
    }
    if (f != "-" && variant(2))
      l.setFrom(By<From>::mut(p, f));
    else
      l.setFrom(By<From>::get(p, f));
  }
  void to(ML l, const std::string& how, const std::string& t) {
    if constexpr (iface) {
      // a concrete type, a mutable one or the interface
      if (t != "-" && variant(3)) {
        const size_t i = std::stoul(t.substr(1)) - 1;
        auto give = [&](auto h) { how == "typed" ? l.set(h) : l.setTo(h); };
        if (t[0] == 'h')
          variant(3) == 1 ? give((*p.hits)[i]) : give(Hit((*p.hits)[i]));
        else
          variant(3) == 1 ? give((*p.items)[i]) : give(::ns::Item((*p.items)[i]));
        return;
      }
      how == "typed" ? l.set(By<To>::get(p, t)) : l.setTo(By<To>::get(p, t));
    } else {
      if constexpr (!same)
        if (how == "typed") {
          l.set(By<To>::get(p, t));
          return;
        }
      if (t != "-" && variant(2))
        l.setTo(By<To>::mut(p, t));
      else
        l.setTo(By<To>::get(p, t));
    }
  }
  void create(const std::string& how, const std::string& f, const std::string& t, int x) override {
    const auto n = own->size();
    if (how == "push") {
      ML l = variant(2) ? ML(weight(x)) : ML();
      if (!variant(2))
        CHECK(l.getWeight() == 1.f, "default weight is " << l.getWeight());
      l.setWeight(weight(x));
      // an end that is not set is the same as an empty one
      if (f != "-" || variant(2))
        from(l, "set", f);
      if (t != "-" || variant(2))
        to(l, "set", t);
      own->push_back(l);
      CHECK(own->size() == n + 1 && (*own)[n] == l, "not in the collection");
      return;
    }
    auto l = own->create();
    CHECK(l.getWeight() == 1.f, "default weight is " << l.getWeight());
    CHECK(!l.getFrom().isAvailable() && !l.getTo().isAvailable(), "a new link has ends");
    to(l, how, t);
    from(l, how, f);
    l.setWeight(weight(x));
    CHECK(own->size() == n + 1 && (*own)[n] == l, "not in the collection");
  }
  void setFrom(size_t l, const std::string& how, const std::string& f) override {
    from((*own)[l], how, f);
  }
  void setTo(size_t l, const std::string& how, const std::string& t) override {
    to(own->at(l), how, t);
  }
  void setWeight(size_t l, int x) override {
    (*own)[l].setWeight(weight(x));
  }
  void clone(size_t l, bool rel) override {
    own->push_back(variant(2) ? (*own)[l].clone(rel) : L((*own)[l]).clone(rel));
  }
  void clear() override {
    own->clear();
  }
  void freeze() override {
    fixed = &frame.put(std::move(*own), "links");
    own.reset();
  }
  void navigate() override {
    ns_.push_back(std::make_unique<Nav>(coll()));
  }
  void some(const std::vector<int>& s) override {
    C sub;
    sub.setSubsetCollection();
    for (int i : s)
      sub.push_back(coll()[i - 1]);
    ns_.push_back(std::make_unique<Nav>(sub));
  }
  void copyNav(size_t n) override {
    ns_.push_back(std::make_unique<Nav>(*ns_[n]));
  }
  void moveNav(size_t n) override {
    ns_.push_back(std::make_unique<Nav>(std::move(*ns_[n])));
    ns_[n].reset();
  }
  void assignNav(size_t n, size_t m) override {
    *ns_[n] = *ns_[m];
  }
  void dropNav(size_t n) override {
    ns_[n].reset();
  }
  json links() override {
    json r = json::array();
    const auto& c = coll();
    size_t i = 0;
    for (const auto& [f, t, w] : c) {
      const L l = c[i++];
      CHECK(l.getFrom() == f && l.getTo() == t && l.getWeight() == w, "structured binding");
      CHECK(l.template get<0>() == f && l.template get<1>() == t && l.template get<2>() == w, "get by index");
      if constexpr (!same)
        CHECK(l.template get<From>() == f && l.template get<To>() == t, "get by type");
      CHECK(l.getFrom().isAvailable() == f.isAvailable() && l.getTo().isAvailable() == t.isAvailable(), "availability");
      r.push_back({{"from", By<From>::name(p, f)}, {"to", By<To>::name(p, t)}, {"w", weightNo(w)}});
    }
    CHECK(i == c.size(), "number of links");
    return r;
  }
  template <class T, class V>
  json list(const V& v) {
    json r = json::array();
    for (const auto& x : v) {
      const auto& [o, w] = x;
      CHECK(x.o == o && x.weight == w, "structured binding");
      r.push_back({By<T>::name(p, o), weightNo(w)});
    }
    return r;
  }
  template <class V>
  static void agree(const V& a, const V& b) {
    CHECK(std::is_permutation(a.begin(), a.end(), b.begin(), b.end(), [](const auto& x, const auto& y) { return x == y; }),
          "the ways to ask give different answers");
  }
  json navs(const json& want) override {
    json r = json::array();
    for (size_t i = 0; i < ns_.size(); ++i) {
      if (!ns_[i] || !want[i].contains("to")) {
        r.push_back({{"live", ns_[i] != nullptr}});
        continue;
      }
      json to = json::object(), from = json::object();
      const auto& n = *ns_[i];
      for (const auto& [k, _] : want[i].at("to").items()) {
        const auto name = k.substr(4);
        const auto o = By<From>::get(p, name);
        const auto got = n.getLinkedTo(o);
        agree(got, n.getLinked(o, podio::ReturnTo));
        if constexpr (!same)
          agree(got, n.getLinked(o));
        if (name != "-") {
          const auto m = By<From>::mut(p, name);
          agree(got, n.getLinkedTo(m));
          agree(got, n.getLinked(m, podio::ReturnTo));
          if constexpr (!same)
            agree(got, n.getLinked(m));
        }
        to[k] = list<To>(got);
      }
      for (const auto& [k, _] : want[i].at("from").items()) {
        const auto name = k.substr(4);
        const auto o = By<To>::get(p, name);
        const auto got = n.getLinkedFrom(o);
        agree(got, n.getLinked(o, podio::ReturnFrom));
        if constexpr (!same)
          agree(got, n.getLinked(o));
        if constexpr (!iface)
          if (name != "-") {
            const auto m = By<To>::mut(p, name);
            agree(got, n.getLinkedFrom(m));
            agree(got, n.getLinked(m, podio::ReturnFrom));
            if constexpr (!same)
              agree(got, n.getLinked(m));
          }
        if constexpr (iface)
          if (name[0] == 'h')
            agree(got, n.getLinkedFrom(By<Hit>::mut(p, name)));
        from[k] = list<From>(got);
      }
      r.push_back({{"live", true}, {"to", to}, {"from", from}});
    }
    return r;
  }
};

struct NavigatorMachine : Machine {
  Pool pool;
  std::unique_ptr<LinkOps> ops;
  json perform(const json& a) override {
    const std::string op = a["op"];
    auto N = [&](const char* k) { return a[k].get<size_t>() - 1; };
    if (op == "Open") {
      const std::string k = a["k"];
      if (k == "HitNode")
        ops = std::make_unique<LinkOpsOf<HitNodeLinkCollection>>(pool);
      else if (k == "NodeNode")
        ops = std::make_unique<LinkOpsOf<NodeNodeLinkCollection>>(pool);
      else
        ops = std::make_unique<LinkOpsOf<NodeEnergeticLinkCollection>>(pool);
    } else if (op == "Create") {
      ops->create(a["how"], a["f"], a["t"], a["x"]);
    } else if (op == "SetFrom") {
      ops->setFrom(N("l"), a["how"], a["f"]);
    } else if (op == "SetTo") {
      ops->setTo(N("l"), a["how"], a["t"]);
    } else if (op == "SetWeight") {
      ops->setWeight(N("l"), a["x"]);
    } else if (op == "Clone") {
      ops->clone(N("l"), a["rel"]);
    } else if (op == "Clear") {
      ops->clear();
    } else if (op == "Freeze") {
      ops->freeze();
    } else if (op == "Navigate") {
      ops->navigate();
    } else if (op == "Some") {
      ops->some(a["s"].get<std::vector<int>>());
    } else if (op == "CopyNav") {
      ops->copyNav(N("n"));
    } else if (op == "MoveNav") {
      ops->moveNav(N("n"));
    } else if (op == "AssignNav") {
      ops->assignNav(N("n"), N("m"));
    } else if (op == "DropNav") {
      ops->dropNav(N("n"));
    } else if (op == "Look") {
    } else {
      throw std::logic_error("driver: unknown op " + op);
    }
    return "ok";
  }
  json observe(const json& want) override {
    if (!ops)
      return {{"links", json::array()}, {"navs", json::array()}};
    return {{"links", ops->links()}, {"navs", ops->navs(want["navs"])}};
  }
};
static const Register reg("Navigator", [] { return std::make_unique<NavigatorMachine>(); });
