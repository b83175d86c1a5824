// What the replay of behaviours of spec/Edm.tla does with each type, and the
// comparison of the real world with the state it has to be in.
#ifndef EDM_OPS_H
#define EDM_OPS_H
#include "vm_store.h"
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <unistd.h>

struct Mismatch : std::runtime_error {
  using std::runtime_error::runtime_error;
};
#define CHECK(C, MSG)                                                                                                  \
  do {                                                                                                                 \
    if (!(C)) {                                                                                                        \
      std::ostringstream m_;                                                                                           \
      m_ << MSG;                                                                                                       \
      throw Mismatch(m_.str());                                                                                        \
    }                                                                                                                  \
  } while (false)

inline int g_statusFd = -1;
inline long g_beh = 0, g_step = 0, g_nsteps = 0, g_nchecks = 0;
inline void status() {
  char buf[64];
  const int n = std::snprintf(buf, sizeof buf, "%20ld %10ld\n", g_beh, g_step);
  if (pwrite(g_statusFd, buf, n, 0) != n)
    std::abort();
}

inline std::string exceptionName() {
  try {
    throw;
  } catch (const Mismatch&) {
    throw;
  } catch (const Malformed& e) {
    throw Mismatch(std::string("malformed persistent form: ") + e.what());
  } catch (const std::out_of_range&) {
    return "out_of_range";
  } catch (const std::invalid_argument&) {
    return "invalid_argument";
  } catch (const std::logic_error& e) {
    if (std::string(e.what()).starts_with("driver:"))
      throw;
    return "logic_error";
  } catch (const std::runtime_error&) {
    return "runtime_error";
  } catch (const std::exception& e) {
    return std::string("other exception ") + e.what();
  }
}

// ---------------------------------------------------------------------------
struct World;
struct Ops {
  virtual ~Ops() = default;
  virtual AnyP newObj(const std::vector<int>& f, int how) = 0;
  virtual void setField(Any& a, int i, int x) = 0;
  virtual void addVec(Any& a, int i, int x) = 0;
  virtual void setOne(Any& a, int k, const Any* p) = 0;
  virtual void addMany(Any& a, int k, const Any* p) = 0;
  virtual AnyP clone(const Any& a, bool rel) = 0;
  virtual AnyP toConst(const Any& a) = 0;
  virtual AnyP getOne(const Any& a, int k) = 0;
  virtual AnyP getMany(const Any& a, int k, int j) = 0;
  virtual AnyP getElem(podio::CollectionBase& c, int i, bool mut, int how) = 0;
  virtual void atBad(podio::CollectionBase& c, bool mut) = 0;
  virtual void relBad(const Any& a) = 0;
  virtual std::unique_ptr<podio::CollectionBase> newColl() = 0;
  virtual AnyP create(podio::CollectionBase& c, bool args, const std::vector<int>& f) = 0;
  virtual void push(podio::CollectionBase& c, const Any& a) = 0;
  virtual std::unique_ptr<podio::CollectionBase> from(bool mut, const std::vector<const Any*>& as) = 0;
  virtual void moveColl(std::unique_ptr<podio::CollectionBase>& c, int how) = 0;
  virtual void moveInto(podio::CollectionBase& c, podio::CollectionBase& d) = 0;
  virtual const podio::CollectionBase* put(podio::Frame& f, podio::CollectionBase& c, const std::string& n) = 0;
  virtual const podio::CollectionBase* getTyped(const podio::Frame& f, const std::string& n) = 0;
  virtual void getWrong(const podio::Frame& f, const std::string& n) = 0;
  virtual void handleOps(AnyP& a) = 0;
  virtual size_t key(const Any& a) = 0;
  virtual void checkHandle(World& w, int o, const Any& a) = 0;
  virtual void checkColl(World& w, int c, const podio::CollectionBase& b) = 0;
  virtual std::shared_ptr<StoredColl> store(const podio::CollectionBase& c) = 0;
};
Ops* ops(int t);
inline Ops* ops(const std::string& t) {
  return ops(typeNo(t));
}
inline Ops* ops(const json& t) {
  return ops(t.get<std::string>());
}

struct World {
  const json* st{nullptr}; // the state we should be in
  std::map<int, AnyP> handles;
  std::map<int, size_t> key; // identity of each live object
  std::map<int, std::unique_ptr<podio::CollectionBase>> local;
  std::map<int, const podio::CollectionBase*> framed;
  std::map<int, std::unique_ptr<podio::Frame>> frames;
  std::map<int, std::shared_ptr<Store>> stores;
  std::map<int, std::map<std::string, uint32_t>> frameIDs; // what the frames' tables say, updated every step
  std::map<int, std::shared_ptr<std::map<std::string, int>>> taken;

  const json& obj(int o) const {
    return (*st)["objs"][o - 1];
  }
  const json& coll(int c) const {
    return (*st)["colls"][c - 1];
  }
  podio::CollectionBase& theColl(int c) {
    return *local.at(c);
  }
  std::optional<uint32_t> collID(int c) const {
    const int f = coll(c)["fr"];
    if (f == 0)
      return std::nullopt;
    const auto& ids = frameIDs.at(f);
    const auto it = ids.find(coll(c)["nm"].get_ref<const std::string&>());
    return it == ids.end() ? std::nullopt : std::optional(it->second);
  }
  // the object o is expected where s was seen
  void checkSeen(const Seen& s, int o, const std::string& where) {
    ++g_nchecks;
    if (o == 0) {
      CHECK(!s.avail, where << " should be empty but is not");
      return;
    }
    const auto& e = obj(o);
    if (!e["live"].get<bool>())
      return; // nothing may be known about it
    CHECK(s.avail, where << " should be object " << o << " but is empty");
    CHECK(s.type == typeNo(e["t"]), where << " should be of type " << e["t"] << ", but is " << s.type);
    auto [it, isnew] = key.try_emplace(o, s.key);
    if (isnew) {
      for (const auto& [p, k] : key)
        CHECK(p == o || k != s.key || !obj(p)["live"].get<bool>(), where << " should be the new object " << o << " but is " << p);
    }
    CHECK(it->second == s.key, where << " is not object " << o);
    checkID(s.id, o, where);
  }
  void checkID(podio::ObjectID id, int o, const std::string& where) {
    const auto& e = obj(o);
    const int c = e["col"];
    if (c == 0) {
      CHECK(id == podio::ObjectID{}, where << ": object outside of collections has ID " << id);
    } else {
      CHECK(id.index == e["ix"].get<int>(), where << ": index of object " << o << " is " << id.index << " not " << e["ix"]);
      if (const auto cid = collID(c)) {
        CHECK(id.collectionID == *cid, where << ": collection ID of object " << o << " is " << id.collectionID << " not "
                                             << *cid);
      }
    }
  }
  template <class H, class T>
  void checkValue(const H& h, int o, const std::string& where) {
    ++g_nchecks;
    const auto& e = obj(o);
    CHECK(h.isAvailable(), where << " is empty");
    checkID(h.id(), o, where);
    CHECK(h.id() == h.getObjectID(), where << ": id and getObjectID differ");
    CHECK(keyOf(T(h)) == key.at(o), where << " is not object " << o);
    const auto f = slotsOf<T>(D<T>::read(h));
    CHECK(json(f) == e["f"], where << " (object " << o << " " << e["t"] << ") has values " << json(f) << " instead of " << e["f"]);
    for (int i = 1; i <= D<T>::nv; ++i) {
      const auto v = D<T>::vec(h, i);
      CHECK(json(v) == e["v"][i - 1], where << " (object " << o << " " << e["t"] << ") has vector member " << i << " "
                                            << json(v) << " instead of " << e["v"][i - 1]);
    }
    for (int k = 1; k <= D<T>::n1; ++k)
      if (const int p = e["one"][k - 1]; p == 0 || obj(p)["live"].get<bool>())
        checkSeen(D<T>::one(h, k), p, where + ", relation " + std::to_string(k));
    for (int k = 1; k <= D<T>::nm; ++k) {
      const auto& l = e["many"][k - 1];
      CHECK(D<T>::manySize(h, k) == l.size(), where << " (object " << o << ") has " << long(D<T>::manySize(h, k))
                                                    << " elements in relation " << k << " instead of " << l.size());
      for (size_t j = 0; j < l.size(); ++j)
        if (const int p = l[j]; p == 0 || obj(p)["live"].get<bool>())
          checkSeen(D<T>::many(h, k, j, g_step + j), p, where + ", relation " + std::to_string(k) + "[" + std::to_string(j) + "]");
    }
  }
  void bind(int o, const Any& a) {
    const size_t k = ops(a.type())->key(a);
    for (const auto& [p, pk] : key)
      CHECK(pk != k || p == o, "object " << o << " is not new but object " << p);
    key[o] = k;
  }
  void perform(const json& act, const json& before);
  void expect(const json& act, const std::string& got) {
    CHECK(act["res"] == got, act["op"] << " gave " << got << " instead of " << act["res"]);
  }
  void cleanup();
  void check();
  void reset() {
    handles.clear();
    key.clear();
    local.clear();
    framed.clear();
    frames.clear();
    frameIDs.clear();
    stores.clear();
    taken.clear();
  }
};

template <class T>
struct OpsT : Ops {
  using M = typename T::mutable_type;
  using C = typename T::collection_type;
  static const AnyT<T>& h(const Any& a) {
    return dynamic_cast<const AnyT<T>&>(a);
  }
  static M& m(Any& a) {
    return dynamic_cast<AnyT<T>&>(a).m.value();
  }
  static C& cc(podio::CollectionBase& c) {
    return dynamic_cast<C&>(c);
  }
  static const C& cc(const podio::CollectionBase& c) {
    return dynamic_cast<const C&>(c);
  }
  static typename D<T>::Data data(const std::vector<int>& f) {
    typename D<T>::Data d{};
    for (size_t i = 0; i < f.size(); ++i)
      putSlot<T>(d, i + 1, f[i]);
    return d;
  }
  AnyP newObj(const std::vector<int>& f, int how) override {
    if (how == 0)
      return anyMut<T>(M());
    return anyMut<T>(D<T>::make(data(f)));
  }
  void setField(Any& a, int i, int x) override {
    auto d = D<T>::read(m(a));
    putSlot<T>(d, i, x);
    D<T>::write(m(a), i, d);
  }
  void addVec(Any& a, int i, int x) override {
    D<T>::addVec(m(a), i, x);
  }
  void setOne(Any& a, int k, const Any* p) override {
    D<T>::setOne(m(a), k, p);
  }
  void addMany(Any& a, int k, const Any* p) override {
    D<T>::addMany(m(a), k, p);
  }
  AnyP clone(const Any& a, bool rel) override {
    const auto& t = h(a);
    if (rel)
      return anyMut<T>(t.m ? t.m->clone() : t.c->clone(true));
    return anyMut<T>(t.m ? t.m->clone(false) : t.c->clone(false));
  }
  AnyP toConst(const Any& a) override {
    const T c = *h(a).m;
    CHECK(c == *h(a).m && *h(a).m == c, "immutable handle differs from the mutable one");
    return any(c);
  }
  AnyP getOne(const Any& a, int k) override {
    const auto& t = h(a);
    return t.m ? D<T>::oneAny(*t.m, k) : D<T>::oneAny(*t.c, k);
  }
  AnyP getMany(const Any& a, int k, int j) override {
    const auto& t = h(a);
    return t.m ? D<T>::manyAny(*t.m, k, j) : D<T>::manyAny(*t.c, k, j);
  }
  AnyP getElem(podio::CollectionBase& c, int i, bool mut, int how) override {
    C& x = cc(c);
    const C& cx = x;
    if (mut) {
      switch (how % 4) {
      case 0:
        return anyMut<T>(x[i]);
      case 1:
        return anyMut<T>(x.at(i));
      case 2:
        return anyMut<T>(*(x.begin() + i));
      default:
        return anyMut<T>(x.begin()[i]);
      }
    }
    switch (how % 4) {
    case 0:
      return any(cx[i]);
    case 1:
      return any(cx.at(i));
    case 2:
      return any(T(*(cx.begin() + i)));
    default:
      return any(T(cx.end()[i - long(cx.size())]));
    }
  }
  void atBad(podio::CollectionBase& c, bool mut) override {
    if (mut)
      (void)cc(c).at(c.size());
    else
      (void)const_cast<const C&>(cc(c)).at(c.size() + 2);
  }
  void relBad(const Any& a) override {
    const auto& t = h(a);
    // all of them have to refuse, the last one for the caller to see
    std::vector<std::function<void()>> fs;
    for (int k = 1; k <= D<T>::nm; ++k)
      if constexpr (D<T>::nm > 0)
        fs.push_back([&t, k] { t.m ? D<T>::manyBad(*t.m, k) : D<T>::manyBad(*t.c, k); });
    for (int k = 1; k <= D<T>::nv; ++k)
      if constexpr (D<T>::nv > 0)
        fs.push_back([&t, k] { t.m ? D<T>::vecBad(*t.m, k) : D<T>::vecBad(*t.c, k); });
    for (size_t i = 0; i < fs.size(); ++i) {
      if (i + 1 == fs.size())
        fs[i]();
      std::string r = "ok";
      try {
        fs[i]();
      } catch (...) {
        r = exceptionName();
      }
      CHECK(r == "out_of_range", "access past the end of relation or vector member " << i << " gave " << r);
    }
  }
  std::unique_ptr<podio::CollectionBase> newColl() override {
    return std::make_unique<C>();
  }
  AnyP create(podio::CollectionBase& c, bool args, const std::vector<int>& f) override {
    auto o = args ? D<T>::create(cc(c), data(f)) : cc(c).create();
    return anyMut<T>(o);
  }
  void push(podio::CollectionBase& c, const Any& a) override {
    const auto& t = h(a);
    if (t.m)
      cc(c).push_back(*t.m);
    else
      cc(c).push_back(*t.c);
  }
  std::unique_ptr<podio::CollectionBase> from(bool mut, const std::vector<const Any*>& as) override {
    if (mut) {
      std::vector<M> v;
      for (const auto* a : as)
        v.push_back(*h(*a).m);
      return std::make_unique<C>(C::from(v));
    }
    std::vector<T> v;
    for (const auto* a : as)
      v.push_back(h(*a).get());
    return std::make_unique<C>(C::from(v));
  }
  void moveColl(std::unique_ptr<podio::CollectionBase>& c, int how) override {
    if (how % 2) {
      auto n = std::make_unique<C>(std::move(cc(*c)));
      c = std::move(n);
    } else {
      C tmp(std::move(cc(*c)));
      auto n = std::make_unique<C>();
      *n = std::move(tmp);
      c = std::move(n);
    }
  }
  void moveInto(podio::CollectionBase& c, podio::CollectionBase& d) override {
    cc(c) = std::move(cc(d));
  }
  const podio::CollectionBase* put(podio::Frame& f, podio::CollectionBase& c, const std::string& n) override {
    return &f.put(std::move(cc(c)), n);
  }
  const podio::CollectionBase* getTyped(const podio::Frame& f, const std::string& n) override {
    return &f.get<C>(n);
  }
  void getWrong(const podio::Frame& f, const std::string& n) override {
    if constexpr (std::is_same_v<T, Hit>)
      f.get<NodeCollection>(n);
    else
      f.get<HitCollection>(n);
  }
  void handleOps(AnyP& a) override {
    auto go = [](auto& x) {
      using X = std::remove_cvref_t<decltype(x)>;
      auto copy = x;
      CHECK(copy == x && !(copy != x), "copied handle differs");
      X other = copy;
      other = x;
      X third(std::move(copy));
      CHECK(third == x, "moved handle differs");
      swap(third, other);
      CHECK(third == x && other == x, "swapped handle differs");
      x = std::move(third);
      x = other;
      auto& self = x;
      x = self;
      CHECK(other == x, "assigned handle differs");
    };
    auto& t = dynamic_cast<AnyT<T>&>(*a);
    if (t.m)
      go(*t.m);
    else
      go(*t.c);
    T e = T::makeEmpty();
    CHECK(!e.isAvailable(), "empty handle is available");
    CHECK(e.id() == podio::ObjectID{}, "empty handle has an ID");
    CHECK(!(e == t.get()), "empty handle equals another one");
    T u = t.get();
    u.unlink();
    CHECK(!u.isAvailable() && u == e, "unlinked handle is not empty");
  }
  size_t key(const Any& a) override {
    return keyOf(h(a).get());
  }
  void checkHandle(World& w, int o, const Any& a) override {
    const auto& t = h(a);
    const auto where = "handle of object " + std::to_string(o);
    if (t.m)
      w.checkValue<M, T>(*t.m, o, where);
    else
      w.checkValue<T, T>(*t.c, o, where);
  }
  void checkColl(World& w, int c, const podio::CollectionBase& b) override {
    const auto& e = w.coll(c);
    const auto where = "collection " + std::to_string(c);
    const auto* x = dynamic_cast<const C*>(&b);
    CHECK(x, where << " is not a " << C::typeName);
    CHECK(b.getTypeName() == C::typeName && b.getValueTypeName() == T::typeName, where << ": wrong type names");
    CHECK(b.size() == e["el"].size() && b.empty() == e["el"].empty(),
          where << " has size " << b.size() << " instead of " << e["el"].size());
    CHECK(b.isSubsetCollection() == e["sub"].get<bool>(), where << ": wrong subset flag");
    const auto id = w.collID(c);
    if (id) {
      CHECK(b.hasID() && b.getID() == *id, where << " does not have the ID of its name");
      const int f = e["fr"];
      CHECK(w.frames.at(f)->getName(b) == e["nm"].get<std::string>() &&
                w.frames.at(f)->getName(*id) == e["nm"].get<std::string>(),
            where << ": frame has a different name for it");
      CHECK(w.frames.at(f)->get(e["nm"].get<std::string>()) == &b, where << ": frame has another collection of its name");
      CHECK(&w.frames.at(f)->template get<C>(e["nm"].get<std::string>()) == &b, where << ": typed get differs");
    } else {
      CHECK(!b.hasID(), where << " has an ID without being in a frame");
    }
    bool dead = false;
    size_t i = 0;
    for (const auto el : *x) {
      const int o = e["el"][i];
      const auto at = where + "[" + std::to_string(i) + "]";
      if (o == 0) {
        CHECK(!el.isAvailable(), at << " should be empty");
        dead = true;
      } else if (!w.obj(o)["live"].get<bool>()) {
        dead = true;
      } else {
        w.checkSeen(see(el), o, at);
        w.checkValue<T, T>(el, o, at);
        CHECK((*x)[i] == el && x->at(i) == el && el == *(x->begin() + i), at << ": the ways to access it differ");
      }
      ++i;
    }
    CHECK(i == e["el"].size(), where << ": iteration ends early");
    if (!dead) {
      CHECK(D<T>::columns(*x), where << ": column access differs from its elements");
      for (auto it = x->rbegin(); it != x->rend(); ++it) {
        --i;
        CHECK((*it) == (*x)[i], where << ": reverse iteration differs at " << i);
      }
      CHECK(i == 0, where << ": reverse iteration ends early");
    }
  }
  std::shared_ptr<StoredColl> store(const podio::CollectionBase& c) override {
    return std::make_shared<StoredCollT<T>>(cc(c));
  }
};

#endif
