// Replays behaviours of spec/Edm.tla on the real code.
//
//   edm_driver BEHAVIOURS STATUS [first]
//
// BEHAVIOURS has one behaviour per line, a JSON array of steps
// {act, objs, colls, frames, stores}. Every step is performed, and what the
// call did as well as everything that can be observed afterwards is compared
// with what the specification says. Exit status 3 and a line starting with
// MISMATCH if something differs. STATUS always holds "behaviour step" of what
// is being done.
#include "edm_ops.h"
#include <atomic>

// ---------------------------------------------------------------------------
// allocation balance, to see that everything is given back
static std::atomic<long> g_live{0};
#ifndef NO_COUNTING
void* operator new(size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  ++g_live;
  return p;
}
void operator delete(void* p) noexcept {
  if (p)
    --g_live;
  std::free(p);
}
void operator delete(void* p, size_t) noexcept {
  if (p)
    --g_live;
  std::free(p);
}
void* operator new[](size_t n) {
  return operator new(n);
}
void operator delete[](void* p) noexcept {
  operator delete(p);
}
void operator delete[](void* p, size_t) noexcept {
  operator delete(p);
}
#endif

#define OPS(N) Ops* ops##N();
OPS(0) OPS(1) OPS(2) OPS(3) OPS(4) OPS(5) OPS(6) OPS(7) OPS(8) OPS(9)
Ops* ops(int t) {
  static Ops* const all[] = {ops0(), ops1(), ops2(), ops3(), ops4(), ops5(), ops6(), ops7(), ops8(), ops9()};
  return all[t];
}

// ---------------------------------------------------------------------------
static void setParam(podio::Frame& f, const std::string& k, int x) {
  if (k == "k1") {
    if (x == 1)
      f.putParameter(k, 17);
    else if (x == 2)
      f.putParameter(k, std::vector<int>{-1, 0, 2147483647});
    else
      f.putParameter(k, std::vector<int>{});
  } else if (k == "k2") {
    if (x == 1)
      f.putParameter(k, "a string\nwith \"everything\"");
    else if (x == 2)
      f.putParameter(k, {std::string(""), std::string("b"), std::string("", 1)});
    else
      f.putParameter(k, std::string());
  } else {
    if (x == 1)
      f.putParameter(k, 1e300);
    else if (x == 2)
      f.putParameter(k, {2.5, -0.0});
    else
      f.putParameter(k, 3.25);
  }
}
static void checkParam(const podio::Frame& f, const std::string& k, int x) {
  auto has = [&](const auto& v, const auto& vec) {
    using V = std::remove_cvref_t<decltype(v)>;
    const auto a = f.getParameter<V>(k);
    const auto b = f.getParameter<std::vector<V>>(k);
    if (x == 0) {
      CHECK(!a && !b, "parameter " << k << " should not be there");
    } else {
      CHECK(b && *b == vec, "parameter " << k << " has the wrong value");
      CHECK(vec.empty() ? !a : (a && *a == vec[0]), "parameter " << k << " has the wrong first value");
    }
    const auto keys = f.getParameterKeys<V>();
    CHECK(std::ranges::count(keys, k) == (x == 0 ? 0 : 1), "key " << k << " is listed wrongly");
  };
  if (k == "k1")
    has(int{}, x == 1 ? std::vector<int>{17} : x == 2 ? std::vector<int>{-1, 0, 2147483647} : std::vector<int>{});
  else if (k == "k2")
    has(std::string{}, x == 1     ? std::vector<std::string>{"a string\nwith \"everything\""}
                       : x == 2 ? std::vector<std::string>{"", "b", std::string("", 1)}
                                : std::vector<std::string>{""});
  else
    has(double{}, x == 1 ? std::vector<double>{1e300} : x == 2 ? std::vector<double>{2.5, -0.0} : std::vector<double>{3.25});
  CHECK(!f.getParameter<float>(k), "parameter " << k << " has a type it was not given");
}

static std::map<std::string, uint32_t> g_ids; // ID of each name, the same everywhere

void World::perform(const json& a, const json& before) {
  const std::string op = a["op"];
  auto O = [&] { return a["o"].get<int>(); };
  auto H = [&]() -> Any& { return *handles.at(a["o"].get<int>()); };
  auto oldT = [&](int o) { return before["objs"][o - 1]["t"].get<std::string>(); };
  auto collT = [&](int c) { return before["colls"][c - 1]["t"].get<std::string>(); };
  auto target = [&]() -> const Any* { return a["p"] == 0 ? nullptr : handles.at(a["p"].get<int>()).get(); };
  std::string res = "ok";
  try {
    if (op == "NewObj") {
      handles[O()] = ops(a["t"])->newObj(a["f"], a["x"].get<int>() < 0 ? 0 : 1);
      bind(O(), H());
    } else if (op == "SetField") {
      ops(oldT(O()))->setField(H(), a["i"], a["x"]);
    } else if (op == "AddVec") {
      ops(oldT(O()))->addVec(H(), a["i"], a["x"]);
    } else if (op == "SetOne") {
      ops(oldT(O()))->setOne(H(), a["k"], target());
    } else if (op == "AddMany") {
      ops(oldT(O()))->addMany(H(), a["k"], target());
    } else if (op == "Clone") {
      auto c = ops(oldT(O()))->clone(H(), a["rel"]);
      bind(a["n"], *c);
      handles[a["n"]] = std::move(c);
    } else if (op == "DropHandle") {
      handles.erase(O());
    } else if (op == "ToConst") {
      handles[O()] = ops(oldT(O()))->toConst(H());
    } else if (op == "HandleOps") {
      ops(oldT(O()))->handleOps(handles.at(O()));
    } else if (op == "GetOne" || op == "GetMany") {
      auto p = op == "GetOne" ? ops(oldT(O()))->getOne(H(), a["k"])
                              : ops(oldT(O()))->getMany(H(), a["k"], a["j"].get<int>() - 1);
      CHECK(p && p->type() == typeNo(oldT(a["p"])), "relation leads to the wrong type");
      handles[a["p"]] = std::move(p);
    } else if (op == "GetElem") {
      const int c = a["c"];
      const bool mut = before["colls"][c - 1]["fr"] == 0;
      auto& x = mut ? *local.at(c) : const_cast<podio::CollectionBase&>(*framed.at(c));
      auto p = ops(collT(c))->getElem(x, a["i"].get<int>() - 1, mut, g_step);
      handles[O()] = std::move(p);
    } else if (op == "AtBad") {
      const int c = a["c"];
      const bool mut = before["colls"][c - 1]["fr"] == 0;
      ops(collT(c))->atBad(mut ? *local.at(c) : const_cast<podio::CollectionBase&>(*framed.at(c)), mut);
    } else if (op == "RelBad") {
      ops(oldT(O()))->relBad(H());
    } else if (op == "NewColl") {
      auto c = ops(a["t"])->newColl();
      if (a["sub"])
        c->setSubsetCollection();
      local[a["c"]] = std::move(c);
    } else if (op == "Create") {
      const int c = a["c"];
      const std::vector<int> f = a["f"];
      auto h = ops(collT(c))->create(*local.at(c), a["args"], f);
      bind(O(), *h);
      handles[O()] = std::move(h);
    } else if (op == "Push") {
      ops(collT(a["c"]))->push(*local.at(a["c"]), H());
    } else if (op == "FromRange") {
      std::vector<const Any*> as;
      for (int o : a["s"])
        as.push_back(handles.at(o).get());
      local[a["c"]] = ops(a["t"])->from(a["m"], as);
    } else if (op == "SetSubset") {
      local.at(a["c"])->setSubsetCollection(a["sub"]);
    } else if (op == "Clear") {
      local.at(a["c"])->clear();
    } else if (op == "DropColl") {
      local.erase(a["c"]);
    } else if (op == "MoveColl") {
      ops(collT(a["c"]))->moveColl(local.at(a["c"]), g_step);
    } else if (op == "MoveInto") {
      ops(collT(a["c"]))->moveInto(*local.at(a["c"]), *local.at(a["d"]));
      local.erase(a["d"]);
    } else if (op == "NewFrame") {
      frames[a["f"]] = std::make_unique<podio::Frame>();
    } else if (op == "Put") {
      const int c = a["c"];
      auto& f = *frames.at(a["f"]);
      auto x = std::move(local.at(c));
      local.erase(c);
      const std::string n = a["n"];
      if (a["how"] == "move") {
        const auto* p = ops(collT(c))->put(f, *x, n);
        CHECK(p == f.get(n), "put returned something else than the collection in the frame");
      } else {
        f.put(std::move(x), n);
      }
      framed[c] = f.get(n);
      CHECK(framed[c], "collection put into the frame is not there");
    } else if (op == "Get") {
      const auto& f = *frames.at(a["f"]);
      const std::string n = a["n"];
      const int c = a["c"];
      const podio::CollectionBase* p = nullptr;
      if (a["how"] == "ptr") {
        p = f.get(n);
        if (!p)
          res = "null";
      } else if (a["how"] == "typed") {
        p = c ? ops(coll(c)["t"])->getTyped(f, n) : ops(tHit)->getTyped(f, n);
      } else {
        ops(c ? coll(c)["t"].get<std::string>() : "Hit")->getWrong(f, n);
      }
      if (c && p) {
        auto [it, isnew] = framed.try_emplace(c, p);
        CHECK(it->second == p, "frame gave out a different collection than before");
      }
    } else if (op == "PutParam") {
      setParam(*frames.at(a["f"]), a["k"], a["x"]);
    } else if (op == "DropFrame") {
      frames.erase(a["f"]);
    } else if (op == "MoveFrame") {
      auto& f = frames.at(a["f"]);
      if (g_step % 2) {
        f = std::make_unique<podio::Frame>(std::move(*f));
      } else {
        podio::Frame other;
        other = std::move(*f);
        *f = std::move(other);
      }
    } else if (op == "Write") {
      auto& f = *frames.at(a["f"]);
      std::vector<std::string> names = a["sel"];
      for (const auto& n : names)
        CHECK(f.get(n), "collection " << n << " is not there");
      auto s = std::make_shared<Store>();
      std::string fail = "ok";
      for (const auto& n : names) {
        try {
          const auto* c = f.getCollectionForWrite(n);
          CHECK(c, "collection " << n << " cannot be had for writing");
          s->colls[n] = nullptr;
          for (int t = 0; t < nTypes && !s->colls[n]; ++t) {
            auto probe = ops(t)->newColl();
            if (probe->getTypeName() == c->getTypeName())
              s->colls[n] = ops(t)->store(*c);
          }
          CHECK(s->colls[n], "collection " << n << " has unknown type " << c->getTypeName());
        } catch (...) {
          fail = exceptionName();
        }
      }
      res = fail;
      if (fail == "ok") {
        const auto table = f.getCollectionIDTableForWrite();
        s->ids = table.ids();
        s->names = table.names();
        s->params = std::make_shared<podio::GenericParameters>(f.getParameters());
        stores[a["s"]] = s;
        const auto& e = (*st)["stores"].back();
        std::set<std::string> en;
        for (const auto& n : e["ids"])
          en.insert(n);
        CHECK(std::set<std::string>(s->names.begin(), s->names.end()) == en && s->names.size() == en.size() &&
                  s->ids.size() == s->names.size(),
              "ID table has names " << json(s->names) << " instead of " << e["ids"]);
        auto ref = [&](podio::ObjectID id) {
          const auto n = table.name(id.collectionID);
          if (id.index < 0 || !n)
            return json{{"n", ""}, {"i", -1}};
          return json{{"n", *n}, {"i", id.index}};
        };
        // references that cannot be resolved are all the same
        std::function<json(const json&)> norm = [&](const json& j) -> json {
          if (j.is_object() && j.contains("n") && j.contains("i")) {
            if (j["i"] < 0 || !en.contains(j["n"]))
              return json{{"n", ""}, {"i", -1}};
            return j;
          }
          if (!j.is_structured())
            return j;
          json r = j.is_array() ? json::array() : json::object();
          for (const auto& [k, v] : j.items())
            if (j.is_array())
              r.push_back(norm(v));
            else
              r[k] = norm(v);
          return r;
        };
        for (const auto& [n, c] : s->colls) {
          const auto got = c->decode(ref);
          const auto want = norm(e["colls"][n]);
          CHECK(got == want, "persistent form of " << n << " is " << got << " instead of " << want);
        }
      }
    } else if (op == "Read") {
      auto s = stores.at(a["s"]);
      std::set<std::string> lim;
      for (const auto& n : a["lim"])
        lim.insert(n);
      auto t = std::make_shared<std::map<std::string, int>>();
      frames[a["f"]] = std::make_unique<podio::Frame>(std::make_unique<StoreData>(s, lim, t));
      taken[a["f"]] = t;
    } else {
      throw std::logic_error("driver: unknown op " + op);
    }
  } catch (...) {
    res = exceptionName();
  }
  expect(a, res);
}

// forget what the specification says is gone
void World::cleanup() {
  const auto& os = (*st)["objs"];
  std::erase_if(handles, [&](const auto& p) { return !os[p.first - 1]["live"].template get<bool>(); });
  std::erase_if(key, [&](const auto& p) { return !os[p.first - 1]["live"].template get<bool>(); });
  const auto& cs = (*st)["colls"];
  std::erase_if(framed, [&](const auto& p) { return !cs[p.first - 1]["live"].template get<bool>(); });
  CHECK(std::ranges::all_of(local, [&](const auto& p) { return cs[p.first - 1]["live"].template get<bool>(); }),
        "driver: collection left over");
}

void World::check() {
  // frames
  const auto& fs = (*st)["frames"];
  for (size_t i = 0; i < fs.size(); ++i) {
    const auto& e = fs[i];
    if (!e["live"].get<bool>())
      continue;
    const auto& f = *frames.at(i + 1);
    std::multiset<std::string> want, got;
    if (e["map"].is_object())
      for (const auto& [n, c] : e["map"].items()) {
        want.insert(n);
        // collections that have been brought in by something else
        if (!framed.contains(c.get<int>()))
          framed[c] = f.get(n);
        CHECK(framed[c], "collection " << n << " is not there");
      }
    for (const auto& n : e["avail"])
      want.insert(n);
    for (const auto& n : f.getAvailableCollections())
      got.insert(n);
    CHECK(got == want, "available collections of frame " << i + 1 << " are " << json(got) << " instead of " << json(want));
    for (const auto& [k, x] : e["par"].items())
      checkParam(f, k, x);
    const auto table = f.getCollectionIDTableForWrite();
    auto& known = frameIDs[i + 1];
    known.clear();
    for (const auto& n : e["ids"]) {
      const auto id = table.collectionID(n);
      CHECK(id, "name " << n << " has no ID");
      auto [it, isnew] = g_ids.try_emplace(n, *id);
      CHECK(it->second == *id, "name " << n << " has a different ID than elsewhere");
      known[n] = *id;
    }
    CHECK(table.names().size() == e["ids"].size(), "ID table has " << table.names().size() << " entries");
    if (taken.contains(i + 1))
      for (const auto& [n, k] : *taken.at(i + 1))
        CHECK(k == 1, "collection " << n << " has been taken from the raw data " << k << " times");
  }
  const auto& cs = (*st)["colls"];
  // first bind all new objects
  for (size_t i = 0; i < cs.size(); ++i)
    if (cs[i]["live"].get<bool>()) {
      const auto& c = local.contains(i + 1) ? *local.at(i + 1) : *framed.at(i + 1);
      ops(cs[i]["t"])->checkColl(*this, i + 1, c);
    }
  for (const auto& [o, h] : handles)
    ops(h->type())->checkHandle(*this, o, *h);
}

// States that many behaviours share are given once, {"id": number, "state":
// {...}}, and referred to as "s" by the steps
static std::unordered_map<size_t, std::string> g_stateText;
static std::unordered_map<size_t, std::shared_ptr<const json>> g_states;
static std::shared_ptr<const json> theState(const json& step) {
  if (!step.contains("s"))
    return {std::shared_ptr<const json>{}, &step};
  const size_t id = step["s"];
  auto& p = g_states[id];
  if (!p) {
    const auto& t = g_stateText.at(id);
    const auto from = t.find("\"state\":") + 8;
    auto n = std::make_shared<const json>(json::parse(t.substr(from, t.rfind('}') - from)));
    if (g_states.size() > 4000) {
      // only keep what has been used lately
      g_states.clear();
      g_states[id] = n;
      return n;
    }
    p = n;
  }
  return p;
}

static void runBehaviour(const json& beh, const std::vector<std::shared_ptr<const json>>& states) {
  World w;
  static const json empty{
      {"objs", json::array()}, {"colls", json::array()}, {"frames", json::array()}, {"stores", json::array()}};
  const json* before = &empty;
  g_step = 0;
  for (const auto& s : beh) {
    w.st = states[g_step].get();
    ++g_step;
    ++g_nsteps;
    status();
    w.perform(s["act"], *before);
    w.cleanup();
    w.check();
    before = w.st;
  }
  w.reset();
}

int main(int argc, char** argv) {
  if (argc < 3)
    return 2;
  g_statusFd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  std::ifstream in(argv[1]);
  std::string line;
  long n = 0;
  while (std::getline(in, line)) {
    if (line.empty())
      continue;
    if (line.starts_with("{\"id\":")) {
      g_stateText[std::stoul(line.substr(6))] = line;
      continue;
    }
    g_beh = n++;
    const json beh = json::parse(line);
    std::vector<std::shared_ptr<const json>> states;
    for (const auto& s : beh)
      states.push_back(theState(s));
    try {
      long leak = 0;
      // things initialised on first use stay; something lost is lost every time
      for (int attempt = 0; attempt < 3; ++attempt) {
        const long live = g_live;
        runBehaviour(beh, states);
        leak = g_live - live;
        if (leak == 0)
          break;
      }
      CHECK(leak == 0, leak << " allocations are not given back");
    } catch (const Mismatch& e) {
      std::cout << "MISMATCH behaviour " << g_beh << " step " << g_step << ": " << e.what() << std::endl;
      return 3;
    }
  }
  std::cout << "OK behaviours " << n << " steps " << g_nsteps << " checks " << g_nchecks << std::endl;
  return 0;
}
