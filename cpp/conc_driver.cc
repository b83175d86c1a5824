// Several threads use one frame. They are made to follow the schedules of
// spec/FrameConc.tla as far as the code lets them; what they see is written
// down as histories for spec/FrameLin.tla.
//
// Gates use relaxed atomics only, so that they do not order anything in the
// eyes of ThreadSanitizer.
#include "vm_store.h"
#include <atomic>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <thread>
#include <unistd.h>

static std::atomic<int> g_clock{0};
static std::atomic<size_t> g_pos{0};
static std::atomic<size_t> g_len{0};
static std::vector<int> g_sched;
static std::array<std::atomic<bool>, 16> g_done;
static std::atomic<int> g_ready{0};
static int g_patience = 1500; // us
thread_local int t_me = 0;

static void gate() {
  if (t_me == 0)
    return;
  using clock = std::chrono::steady_clock;
  auto since = clock::now();
  size_t seen = g_pos.load(std::memory_order_relaxed);
  for (int spin = 0;; ++spin) {
    size_t p = g_pos.load(std::memory_order_relaxed);
    if (p >= g_len.load(std::memory_order_relaxed))
      return;
    const int who = g_sched[p];
    if (who == t_me) {
      if (g_pos.compare_exchange_strong(p, p + 1, std::memory_order_relaxed))
        return;
      continue;
    }
    if (p != seen) {
      seen = p;
      since = clock::now();
      spin = 0;
    } else if (g_done[who].load(std::memory_order_relaxed) ||
               (spin > 50 && clock::now() - since > std::chrono::microseconds(g_patience))) {
      // it does not come here any more, or something keeps it from coming
      g_pos.compare_exchange_strong(p, p + 1, std::memory_order_relaxed);
      continue;
    }
    if (spin > 20)
      usleep(20);
  }
}

// ---------------------------------------------------------------------------
// A collection whose only content is what it refers to, and that has a gate
// wherever the frame calls it
struct SpyCollection : podio::CollectionBase {
  std::string name;
  uint32_t id{static_cast<uint32_t>(podio::ObjectID::untracked)};
  std::vector<uint32_t> refs;
  std::vector<std::string> refNames;
  std::vector<podio::CollectionBase*> targets;
  bool prepared{false};
  mutable std::mutex writeMtx;
  mutable int writes{0};

  void prepareForWrite() const override {
    std::lock_guard l{writeMtx};
    ++writes;
  }
  void prepareAfterRead() override {
    gate();
    prepared = true;
  }
  bool setReferences(const podio::ICollectionProvider* p) override {
    gate();
    targets.assign(refs.size(), nullptr);
    for (size_t i = 0; i < refs.size(); ++i) {
      gate();
      podio::CollectionBase* c = nullptr;
      if (p->get(refs[i], c))
        targets[i] = c;
    }
    return true;
  }
  void setID(uint32_t i) override {
    id = i;
  }
  uint32_t getID() const override {
    return id;
  }
  podio::CollectionWriteBuffers getBuffers() override {
    return {};
  }
  bool hasID() const override {
    return id != static_cast<uint32_t>(podio::ObjectID::untracked);
  }
  bool isValid() const override {
    return true;
  }
  size_t size() const override {
    return refs.size();
  }
  std::size_t max_size() const override {
    return 1000;
  }
  bool empty() const override {
    return refs.empty();
  }
  const std::string_view getTypeName() const override {
    return "SpyCollection";
  }
  const std::string_view getValueTypeName() const override {
    return "Spy";
  }
  const std::string_view getDataTypeName() const override {
    return "SpyData";
  }
  podio::SchemaVersionT getSchemaVersion() const override {
    return 1;
  }
  void clear() override {
  }
  bool isSubsetCollection() const override {
    return true;
  }
  void setSubsetCollection(bool) override {
  }
  void print(std::ostream&, bool) const override {
  }
  size_t getDatamodelRegistryIndex() const override {
    return 0;
  }
};

struct Scenario {
  std::map<std::string, std::vector<std::string>> graph;
  std::vector<std::string> raw;
  std::vector<std::vector<std::pair<std::string, std::string>>> progs;
  std::vector<int> sched;
};

static podio::CollectionIDTable tableOf(const Scenario& s) {
  podio::CollectionIDTable t;
  for (const auto& n : s.raw)
    t.add(n);
  return t;
}
static uint32_t idOf(const std::string& n) {
  podio::CollectionIDTable t;
  return t.add(n);
}

// Raw data with gates
template <class Fill>
struct GateData {
  const Scenario* sc;
  std::set<std::string> left;
  std::shared_ptr<std::map<std::string, std::atomic<int>>> takes;
  Fill fill;
  podio::CollectionIDTable getIDTable() const {
    return tableOf(*sc);
  }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& n) {
    gate();
    if (!left.erase(n))
      return std::nullopt;
    takes->at(n).fetch_add(1, std::memory_order_relaxed);
    return fill(n);
  }
  std::vector<std::string> getAvailableCollections() const {
    gate();
    return {left.begin(), left.end()};
  }
  std::unique_ptr<podio::GenericParameters> getParameters() {
    return std::make_unique<podio::GenericParameters>();
  }
};

struct SpyFill {
  const Scenario* sc;
  podio::CollectionReadBuffers operator()(const std::string& n) const {
    return podio::CollectionReadBuffers(
        nullptr, nullptr, nullptr, 1, "SpyCollection",
        [sc = sc, n](podio::CollectionReadBuffers&&, bool) -> std::unique_ptr<podio::CollectionBase> {
          auto c = std::make_unique<SpyCollection>();
          c->name = n;
          for (const auto& m : sc->graph.at(n)) {
            c->refs.push_back(idOf(m));
            c->refNames.push_back(m);
          }
          return c;
        },
        {});
  }
};

// real collections: two nodes each, their relations lead to one node per target
struct RealFill {
  std::shared_ptr<Store> store;
  podio::CollectionReadBuffers operator()(const std::string& n) const {
    const auto& c = *store->colls.at(n);
    auto b = podio::CollectionBufferFactory::instance().createBuffers(c.type, c.version, c.sub);
    c.fill(*b);
    auto f = std::move(b->createCollection);
    b->createCollection = [f](podio::CollectionReadBuffers&& x, bool s) {
      gate();
      auto r = f(std::move(x), s);
      gate();
      return r;
    };
    return std::move(*b);
  }
};

static int tagOf(const std::string& n, int i) {
  return n.back() * 10 + i;
}

// the last name, if nothing refers to it, is a subset or a link collection in some of the scenarios
static int kindOf(const Scenario& s, const std::string& n, long no) {
  if (n != s.raw.back() || s.graph.at(n).empty())
    return 0;
  for (const auto& m : s.graph.at(n))
    if (std::ranges::find(s.raw, m) == s.raw.end())
      return 0;
  for (const auto& [k, v] : s.graph)
    if (std::ranges::find(v, n) != v.end())
      return 0;
  return int(no % 3);
}

static std::shared_ptr<Store> realStore(const Scenario& s, long no) {
  auto st = std::make_shared<Store>();
  podio::Frame f;
  std::map<std::string, NodeCollection> nodes;
  std::set<std::string> all(s.raw.begin(), s.raw.end());
  for (const auto& [n, v] : s.graph)
    all.insert(v.begin(), v.end());
  std::map<std::string, std::vector<Node>> els;
  for (const auto& n : all)
    if (!s.graph.contains(n) || kindOf(s, n, no) == 0) {
      auto& c = nodes[n];
      for (int i = 0; i < 2; ++i) {
        auto e = c.create();
        e.tag(tagOf(n, i));
        els[n].push_back(e);
      }
    }
  for (const auto& [n, v] : s.graph)
    if (auto it = nodes.find(n); it != nodes.end()) {
      int i = 0;
      for (const auto& m : v) {
        it->second[0].addkids(els[m][i % 2]);
        it->second[1].next(els[m][1 - i % 2]);
        it->second[1].addkids(els[m][0]);
        it->second[1].addkids(els[m][1]);
        it->second[i % 2].addcounts(m.back());
        ++i;
      }
    }
  std::map<std::string, NodeCollection> subs;
  std::map<std::string, NodeNodeLinkCollection> links;
  for (const auto& [n, v] : s.graph) {
    if (kindOf(s, n, no) == 1) {
      subs[n].setSubsetCollection();
      for (const auto& m : v)
        subs[n].push_back(els[m][0]);
    } else if (kindOf(s, n, no) == 2) {
      for (const auto& m : v) {
        auto l = links[n].create();
        l.setFrom(els[m][0]);
        l.setTo(els[m][1]);
        l.setWeight(0.5f);
      }
    }
  }
  els.clear();
  for (auto& [n, c] : nodes)
    f.put(std::move(c), n);
  for (auto& [n, c] : subs)
    f.put(std::move(c), n);
  for (auto& [n, c] : links)
    f.put(std::move(c), n);
  for (const auto& n : s.raw) {
    const auto* c = f.getCollectionForWrite(n);
    if (dynamic_cast<const NodeCollection*>(c))
      st->colls[n] = std::make_shared<StoredCollT<Node>>(*c);
    else
      st->colls[n] = std::make_shared<StoredCollT<NNLink>>(*c);
  }
  return st;
}

static long ident(const Node& n) {
  return long(std::hash<Node>{}(n));
}

struct View {
  long id{0};
  bool ok{true};
  std::map<std::string, long> tgt;
};

static std::string nameOfTag(const Node& n) {
  return std::string("n") + char(n.tag() / 10);
}
static void seeTarget(View& s, const Node& e) {
  const auto n = nameOfTag(e);
  const int i = e.tag() % 10;
  if (i > 1 || e.getObjectID().index != i || e.getObjectID().collectionID != idOf(n)) {
    s.ok = false;
    return;
  }
  // the collection is known by its first element: see the other one that comes with it
  if (i == 0)
    s.tgt[n] = ident(e);
}

// everything there is to see in a collection that was in the raw data
static View lookReal(const Scenario& sc, const std::string& n, const podio::CollectionBase* c, long no) {
  View s;
  if (!c)
    return s;
  const auto& want = sc.graph.at(n);
  auto isRaw = [&](const std::string& m) { return std::ranges::find(sc.raw, m) != sc.raw.end(); };
  if (c->getID() != idOf(n))
    s.ok = false;
  switch (kindOf(sc, n, no)) {
  case 0: {
    const auto* p = dynamic_cast<const NodeCollection*>(c);
    if (!p || p->size() != 2 || p->isSubsetCollection()) {
      s.ok = false;
      s.id = long(reinterpret_cast<size_t>(c));
      return s;
    }
    s.id = ident((*p)[0]);
    const auto a = (*p)[0];
    const auto b = p->at(1);
    if (a.tag() != tagOf(n, 0) || b.tag() != tagOf(n, 1) || a.kids().size() != want.size() ||
        b.kids().size() != 2 * want.size() || a.counts().size() + b.counts().size() != want.size()) {
      s.ok = false;
      return s;
    }
    size_t i = 0;
    for (const auto& m : want) {
      const auto e = a.kids(i);
      const auto x = b.kids(2 * i);
      const auto y = b.kids(2 * i + 1);
      if (!isRaw(m)) {
        if (e.isAvailable() || x.isAvailable() || y.isAvailable())
          s.ok = false;
      } else if (!e.isAvailable() || !x.isAvailable() || !y.isAvailable() || nameOfTag(e) != m || x.tag() != tagOf(m, 0) ||
                 y.tag() != tagOf(m, 1) || (i % 2 ? y : x) != e) {
        s.ok = false;
      } else {
        seeTarget(s, x);
        seeTarget(s, y);
      }
      ++i;
    }
    if (want.empty() || !isRaw(want.back())) {
      if (b.next().isAvailable())
        s.ok = false;
    } else if (!b.next().isAvailable() || b.next() != b.kids(2 * (want.size() - 1) + (want.size() % 2)))
      s.ok = false;
    break;
  }
  case 1: {
    const auto* p = dynamic_cast<const NodeCollection*>(c);
    s.id = long(reinterpret_cast<size_t>(c));
    if (!p || p->size() != want.size() || !p->isSubsetCollection()) {
      s.ok = false;
      return s;
    }
    size_t i = 0;
    for (const auto& e : *p) {
      if (!e.isAvailable() || e.tag() != tagOf(want[i++], 0))
        s.ok = false;
      else
        seeTarget(s, e);
    }
    break;
  }
  default: {
    const auto* p = dynamic_cast<const NodeNodeLinkCollection*>(c);
    s.id = long(reinterpret_cast<size_t>(c));
    if (!p || p->size() != want.size()) {
      s.ok = false;
      return s;
    }
    size_t i = 0;
    for (const auto& l : *p) {
      const auto x = l.getFrom();
      const auto y = l.getTo();
      if (!x.isAvailable() || !y.isAvailable() || x.tag() != tagOf(want[i], 0) || y.tag() != tagOf(want[i], 1) ||
          l.getWeight() != 0.5f)
        s.ok = false;
      else
        seeTarget(s, x);
      ++i;
    }
  }
  }
  return s;
}

// a collection that has been put
static View lookPut(const podio::CollectionBase* c, const std::string& n, bool real) {
  View s;
  s.id = long(reinterpret_cast<size_t>(c));
  if (c->getID() != idOf(n))
    s.ok = false;
  if (real) {
    const auto* p = dynamic_cast<const NodeCollection*>(c);
    if (!p || p->size() != 2)
      s.ok = false;
    else {
      s.id = ident((*p)[0]);
      const auto x = (*p)[0];
      if (x.getObjectID() != podio::ObjectID{0, idOf(n)} || x.tag() < 100000 || x.kids().size() != 1 || x.kids(0) != (*p)[1])
        s.ok = false;
    }
  } else if (!dynamic_cast<const SpyCollection*>(c))
    s.ok = false;
  return s;
}

static View lookSpy(const Scenario& sc, const std::string& n, const podio::CollectionBase* c) {
  View s;
  if (!c)
    return s;
  const auto* p = dynamic_cast<const SpyCollection*>(c);
  s.id = long(reinterpret_cast<size_t>(c));
  if (!p || p->name != n || !p->prepared || p->id != idOf(n) || p->targets.size() != p->refs.size()) {
    s.ok = false;
    return s;
  }
  for (size_t i = 0; i < p->targets.size(); ++i)
    if (p->targets[i]) {
      s.tgt[p->refNames[i]] = long(reinterpret_cast<size_t>(p->targets[i]));
      const auto* q = dynamic_cast<const SpyCollection*>(p->targets[i]);
      // what it leads to must be complete as well
      if (!q || !q->prepared || q->targets.size() != q->refs.size())
        s.ok = false;
    }
  (void)sc;
  return s;
}

struct Event {
  int at{0}, till{0};
  int t{0};
  std::string op, n;
  View view;
  std::vector<std::string> list;
  long val{0};
  int kind{0}; // 0: seen, 1: list, 2: value
};

struct Hand {
  Node node;
  NodeNodeLink link;
};

template <class Frm>
static void runThread(Frm& frame, Hand hand, const Scenario& sc, int me, int nThreads, bool real, long no,
                      std::vector<Event>& out, const std::map<std::string, std::string>& persistent) {
  t_me = me;
  g_ready.fetch_add(1, std::memory_order_relaxed);
  while (g_ready.load(std::memory_order_relaxed) < nThreads) {
  }
  auto isRaw = [&](const std::string& m) { return std::ranges::find(sc.raw, m) != sc.raw.end(); };
  int k = 0;
  for (const auto& [op, n] : sc.progs[me - 1]) {
    ++k;
    Event e;
    e.t = me;
    e.op = op;
    e.n = n;
    gate();
    e.at = g_clock.fetch_add(1, std::memory_order_relaxed);
    if (op == "get" || op == "write" || op == "use") {
      const podio::CollectionBase* c = op == "write" ? frame.getCollectionForWrite(n) : frame.get(n);
      if (c && real && op == "get" && k % 2 == 0 && dynamic_cast<const NodeCollection*>(c)) {
        // typed access gives the same
        if (&frame.template get<NodeCollection>(n) != c)
          e.view.ok = false;
      }
      const bool before = e.view.ok;
      e.view = !c ? View{} : isRaw(n) ? (real ? lookReal(sc, n, c, no) : lookSpy(sc, n, c)) : lookPut(c, n, real);
      e.view.ok = e.view.ok && before;
      if (c && frame.getName(*c) != n)
        e.view.ok = false;
      if (c && real && op == "write") {
        // what would be written
        std::string s;
        auto ref = [&](podio::ObjectID id) {
          // references to what is not there are left as they were read, or empty
          for (const auto& m : sc.raw)
            if (id.index >= 0 && idOf(m) == id.collectionID)
              return json{{"i", id.index}, {"c", id.collectionID}};
          return json(nullptr);
        };
        try {
          if (dynamic_cast<const NodeCollection*>(c))
            s = StoredCollT<Node>(*c).decode(ref).dump();
          else
            s = StoredCollT<NNLink>(*c).decode(ref).dump();
        } catch (const Malformed&) {
          e.view.ok = false;
        }
        if (isRaw(n) && s != persistent.at(n))
          e.view.ok = false;
      }
      if (c && real && op == "use") {
        // handles come and go, and are cloned
        if (const auto* p = dynamic_cast<const NodeCollection*>(c)) {
          std::vector<Node> copies;
          for (int r = 0; r < 3; ++r)
            for (const auto& x : *p) {
              copies.push_back(x);
              for (const auto& y : x.kids())
                copies.push_back(y);
            }
          auto cl = (*p)[0].clone();
          cl.tag(7);
          cl.addkids((*p)[1]);
          auto assigned = copies.back();
          assigned = (*p)[0];
          if (assigned != (*p)[0] || (isRaw(n) && kindOf(sc, n, no) == 0 && (*p)[0].tag() != tagOf(n, 0)) ||
              cl.kids().size() != (*p)[0].kids().size() + 1)
            e.view.ok = false;
          std::ostringstream os;
          os << *p;
        } else if (const auto* l = dynamic_cast<const NodeNodeLinkCollection*>(c)) {
          std::vector<Node> copies;
          for (const auto& x : *l) {
            copies.push_back(x.getFrom());
            copies.push_back(x.template get<1>());
            auto cl = x.clone();
            cl.setWeight(3.f);
            if (x.getWeight() != 0.5f)
              e.view.ok = false;
          }
          std::ostringstream os;
          os << *l;
        }
      }
    } else if (op == "put") {
      std::unique_ptr<podio::CollectionBase> c;
      long id = 0;
      if (real) {
        auto p = std::make_unique<NodeCollection>();
        auto x = p->create();
        auto y = p->create();
        x.tag(100000 + me);
        x.addkids(y);
        id = ident(x);
        c = std::move(p);
      } else {
        auto p = std::make_unique<SpyCollection>();
        p->name = n;
        p->prepared = true;
        id = long(reinterpret_cast<size_t>(p.get()));
        c = std::move(p);
      }
      try {
        if (real && k % 2 == 0) {
          const auto& r = frame.put(std::move(static_cast<NodeCollection&>(*c)), n);
          e.view = lookPut(&r, n, real);
        } else {
          frame.put(std::move(c), n);
          e.view.id = id;
        }
      } catch (const std::invalid_argument&) {
        e.view.id = 0;
      }
    } else if (op == "avail") {
      e.kind = 1;
      e.list = frame.getAvailableCollections();
    } else if (op == "ids") {
      e.kind = 1;
      const auto t = frame.getCollectionIDTableForWrite();
      e.list = t.names();
      for (const auto& m : e.list)
        if (t.collectionID(m) != idOf(m) || t.name(idOf(m)) != m)
          e.list.push_back("wrong id of " + m);
    } else if (op == "setp") {
      e.kind = 2;
      e.val = me * 100 + k;
      if (n == "k1")
        frame.putParameter(n, std::string(20, 'a' + me) + std::to_string(e.val));
      else
        frame.putParameter(n, std::vector<int>(5, e.val));
    } else if (op == "getp") {
      e.kind = 2;
      if (n == "k1") {
        if (const auto v = frame.template getParameter<std::string>(n))
          e.val = v->size() < 21 ? -1 : std::stol(v->substr(20));
      } else if (const auto v = frame.template getParameter<std::vector<int>>(n)) {
        e.val = *v == std::vector<int>(5, v->empty() ? 0 : (*v)[0]) ? (*v)[0] : -1;
      }
    } else if (op == "keys") {
      e.kind = 1;
      if (n == "k1")
        e.list = frame.template getParameterKeys<std::string>();
      else if (k % 2 == 0)
        e.list = frame.template getParameterKeys<int>();
      else {
        const auto [keys, vals] = frame.getParameters().template getKeysAndValues<int>();
        e.list = keys;
        if (keys.size() != vals.size() || (!vals.empty() && vals[0] != std::vector<int>(5, vals[0].at(0))))
          e.list.push_back("values do not fit");
      }
    } else if (op == "print") {
      std::ostringstream os;
      frame.getParameters().print(os);
      e.view.ok = os.str().find("std::string parameters") != std::string::npos;
    } else if (op == "hand") {
      // handles of an object that belongs to nobody else
      for (int r = 0; r < 3; ++r) {
        Node x = hand.node;
        Node y = x.kids(0);
        y = x;
        std::vector<Node> more(3, x);
        more.pop_back();
        auto l = hand.link;
        auto z = l.getFrom();
        e.view.ok = e.view.ok && y.tag() == 5 && z.tag() == 6 && more.back() == x && z == x.kids(0);
        std::swap(x, z);
      }
    } else {
      std::cerr << "driver: unknown operation " << op << std::endl;
      _exit(9);
    }
    e.till = g_clock.fetch_add(1, std::memory_order_relaxed);
    gate();
    out.push_back(std::move(e));
  }
  g_done[me].store(true, std::memory_order_relaxed);
}

template <class Fill>
static json runScenario(const Scenario& sc, bool gated, bool real, long no, Fill fill,
                        const std::map<std::string, std::string>& persistent) {
  auto takes = std::make_shared<std::map<std::string, std::atomic<int>>>();
  for (const auto& n : sc.raw)
    (*takes)[n] = 0;
  using Data = GateData<Fill>;
  podio::Frame frame(std::unique_ptr<Data>(new Data{&sc, {sc.raw.begin(), sc.raw.end()}, takes, fill}));
  const int nt = int(sc.progs.size());
  g_clock = 0;
  g_sched = sc.sched;
  g_pos = 0;
  g_len = gated ? sc.sched.size() : 0;
  for (auto& d : g_done)
    d = false;
  g_ready = 0;
  std::vector<std::vector<Event>> evs(nt);
  std::vector<Hand> hands;
  {
    MutableNode a, b;
    a.tag(5);
    b.tag(6);
    a.addkids(b);
    MutableNodeNodeLink l;
    l.setFrom(b);
    l.setTo(a);
    for (int t = 0; t < nt; ++t)
      hands.push_back({a, l});
  }
  {
    std::vector<std::thread> ts;
    for (int t = 1; t <= nt; ++t)
      ts.emplace_back([&, t, h = std::move(hands[t - 1])]() mutable { runThread(frame, std::move(h), sc, t, nt, real, no, evs[t - 1], persistent); });
    for (auto& t : ts)
      t.join();
  }
  std::map<long, int> ids;
  auto intern = [&](long x) { return x == 0 ? 0 : ids.try_emplace(x, int(ids.size()) + 1).first->second; };
  std::map<int, json> order;
  json obj = json::object();
  for (const auto& l : evs)
    for (const auto& e : l) {
      json res = json::object();
      if (e.kind == 0) {
        json tgt = json::object();
        for (const auto& [n, i] : e.view.tgt)
          tgt[n] = i;
        res = {{"id", e.view.id}, {"ok", e.view.ok}, {"tgt", tgt}};
      } else if (e.kind == 1)
        res = {{"list", e.list}};
      else
        res = {{"val", e.val}};
      order[e.at] = {{"k", "c"}, {"t", e.t}, {"op", e.op}, {"n", e.n}, {"res", res}};
      order[e.till] = {{"k", "r"}, {"t", e.t}};
    }
  json ev = json::array();
  // the times do not matter, only the order
  for (auto& [at, e] : order) {
    if (e.contains("res") && e["res"].contains("id")) {
      e["res"]["id"] = intern(e["res"]["id"]);
      for (auto& [n, i] : e["res"]["tgt"].items())
        i = intern(i.get<long>());
    }
    ev.push_back(std::move(e));
  }
  json tk = json::object();
  for (const auto& [n, c] : *takes)
    tk[n] = c.load();
  ev.push_back({{"k", "e"}, {"takes", tk}, {"avail", frame.getAvailableCollections()}});
  return {{"threads", nt}, {"raw", sc.raw}, {"refs", sc.graph}, {"ev", ev}};
}

int main(int argc, char** argv) {
  if (argc < 6)
    return 2;
  // input status output mode repetitions [first]
  const int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  std::ifstream in(argv[1]);
  std::ofstream out(argv[3]);
  const std::string mode = argv[4];
  const int reps = atoi(argv[5]);
  const bool real = mode.starts_with("real");
  const bool gated = !mode.ends_with("free");
  std::string line;
  long no = 0;
  std::set<std::string> seen;
  while (std::getline(in, line)) {
    const json j = json::parse(line);
    Scenario sc;
    for (const auto& [n, v] : j["graph"].items())
      sc.graph[n] = v.get<std::vector<std::string>>();
    sc.raw = j["raw"].get<std::vector<std::string>>();
    for (const auto& p : j["progs"]) {
      sc.progs.emplace_back();
      for (const auto& o : p)
        sc.progs.back().emplace_back(o["op"], o["n"]);
    }
    sc.sched = j["sched"].get<std::vector<int>>();
    std::shared_ptr<Store> store;
    std::map<std::string, std::string> persistent;
    if (real) {
      store = realStore(sc, no);
      auto ref = [&](podio::ObjectID id) {
        // references to what is not in the raw data do not matter
        for (const auto& n : sc.raw)
          if (id.index >= 0 && idOf(n) == id.collectionID)
            return json{{"i", id.index}, {"c", id.collectionID}};
        return json(nullptr);
      };
      for (const auto& [n, c] : store->colls)
        persistent[n] = c->decode(ref).dump();
    }
    for (int r = 0; r < reps; ++r) {
      char buf[64];
      const int len = snprintf(buf, sizeof buf, "%ld %d\n", no, r);
      (void)!pwrite(fd, buf, len, 0);
      const json h = real ? runScenario(sc, gated, true, no, RealFill{store}, persistent)
                          : runScenario(sc, gated, false, no, SpyFill{&sc}, persistent);
      const auto text = h.dump();
      if (seen.insert(text).second)
        out << text << "\n" << std::flush;
    }
    ++no;
  }
  std::cout << "OK behaviours " << no << " steps " << no * reps << " checks " << seen.size() << std::endl;
  return 0;
}
