// The bridge between the abstract objects of spec/Edm.tla and the classes
// generated from model/vm.yaml: per type, how to get at its slots, vector
// members and relations through the public interface, and what its persistent
// form looks like.
#pragma once
#include "vm/vm.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include <bit>
#include <cstring>
#include <limits>
#include <optional>
#include <set>
#include <sstream>
#include <tuple>

// ---------------------------------------------------------------------------
// values: number k of slot i. 0 is what the yaml file says is the default.
template <class X>
X enc(int slot, int k, X dflt) {
  if (k == 0)
    return dflt;
  if constexpr (std::is_same_v<X, bool>) {
    return k != 0;
  } else if constexpr (std::is_integral_v<X>) {
    switch (k) {
    case 2:
      return X(std::numeric_limits<X>::max() - slot);
    case 3:
      return X(std::numeric_limits<X>::min() + (std::is_signed_v<X> ? 0 : 5) + slot);
    default:
      return X(slot * 10 + k);
    }
  } else {
    switch (k) {
    case 2:
      return std::numeric_limits<X>::max() / X(slot + 1);
    case 3:
      return -std::numeric_limits<X>::denorm_min() * X(slot + 1);
    default:
      return X(slot * 10 + k) + X(0.25);
    }
  }
}
constexpr int kMaxVal = 6;
template <class X>
int dec(int slot, X v, X dflt) {
  for (int k = 0; k <= kMaxVal; ++k) {
    const X e = enc<X>(slot, k, dflt);
    if (std::memcmp(&e, &v, sizeof(X)) == 0)
      return k;
  }
  return -1000;
}
template <class X>
struct VecVal {
  static X mk(int slot, int k) {
    return enc<X>(slot + 20, k + 3, X{});
  }
};
template <>
struct VecVal<char> {
  static char mk(int slot, int k) {
    return char('a' + 7 * slot + k);
  }
};
template <>
struct VecVal<Pt> {
  static Pt mk(int slot, int k) {
    return Pt{slot * 1000 + k, -(slot * 1000 + k * 10)};
  }
};
template <class X>
int decVec(int slot, const X& v) {
  for (int k = 0; k <= kMaxVal; ++k) {
    const X e = VecVal<X>::mk(slot, k);
    if (std::memcmp(&e, &v, sizeof(X)) == 0)
      return k;
  }
  return -1000;
}

// ---------------------------------------------------------------------------
enum TypeNo { tHit, tNode, tItem, tHolder, tOne, tMany, tVec, tHN, tNN, tNE, nTypes };
inline const char* const typeNames[nTypes] = {"Hit", "Node", "Item",   "Holder", "One",
                                              "Many", "Vec",  "HNLink", "NNLink", "NELink"};
inline int typeNo(const std::string& s) {
  for (int i = 0; i < nTypes; ++i)
    if (s == typeNames[i])
      return i;
  throw std::logic_error("driver: unknown type " + s);
}

template <class T>
struct D;

// What a handle to some object looks like from outside
struct Seen {
  bool avail{false};
  size_t key{0};
  podio::ObjectID id{};
  int type{-1};
};
template <class T>
size_t keyOf(const T& h) {
  return std::hash<T>{}(h);
}

// A user's handle to an object
struct Any {
  virtual ~Any() = default;
  virtual int type() const = 0;
  virtual bool isMutable() const = 0;
};
template <class T>
struct AnyT : Any {
  std::optional<T> c;
  std::optional<typename T::mutable_type> m;
  explicit AnyT(const T& h) : c(h) {
  }
  explicit AnyT(const typename T::mutable_type& h, int) : m(h) {
  }
  int type() const override {
    return D<T>::no;
  }
  bool isMutable() const override {
    return m.has_value();
  }
  T get() const {
    return m ? T(*m) : *c;
  }
};
using AnyP = std::unique_ptr<Any>;

template <class T>
Seen see(const T& h) {
  Seen s;
  s.avail = h.isAvailable();
  s.id = h.id();
  s.type = D<T>::no;
  s.key = s.avail ? keyOf(h) : 0;
  return s;
}
template <class I, class... Ts>
Seen seeI(const I& h) {
  Seen s;
  s.avail = h.isAvailable();
  s.id = h.id();
  if (s.avail) {
    int n = 0;
    ((h.template isA<Ts>() ? (++n, s.type = D<Ts>::no, s.key = keyOf(h.template as<Ts>())) : 0), ...);
    if (n != 1)
      s.type = -2;
  }
  return s;
}
template <class I, class... Ts>
AnyP anyI(const I& h) {
  AnyP p;
  ((h.template isA<Ts>() ? (p = std::make_unique<AnyT<Ts>>(h.template as<Ts>()), 0) : 0), ...);
  return p;
}
inline Seen see(const Energetic& h) {
  return seeI<Energetic, Hit, ns::Item>(h);
}
inline Seen see(const ns::Tagged& h) {
  return seeI<ns::Tagged, Hit, Node, ns::Item>(h);
}
template <class T>
AnyP any(const T& h) {
  return std::make_unique<AnyT<T>>(h);
}
template <class T>
AnyP anyMut(const typename T::mutable_type& h) {
  return std::make_unique<AnyT<T>>(h, 0);
}
inline AnyP any(const Energetic& h) {
  return anyI<Energetic, Hit, ns::Item>(h);
}
inline AnyP any(const ns::Tagged& h) {
  return anyI<ns::Tagged, Hit, Node, ns::Item>(h);
}
// calls f with the handle of a, mutable or not, if it is one of Ts; a null a
// is an empty handle of the first type
template <class F, class T, class... Ts>
void with(const Any* a, F&& f) {
  if (!a) {
    f(T::makeEmpty());
  } else if (a->type() == D<T>::no) {
    const auto& t = static_cast<const AnyT<T>&>(*a);
    if (t.m)
      f(*t.m);
    else
      f(*t.c);
  } else if constexpr (sizeof...(Ts) > 0) {
    with<F, Ts...>(a, std::forward<F>(f));
  } else {
    throw std::logic_error("driver: handle of unexpected type");
  }
}
#define WITH(A, H, BODY, ...)                                                                                          \
  do {                                                                                                                 \
    auto f_ = [&](const auto& H) { BODY; };                                                                            \
    with<decltype(f_)&, __VA_ARGS__>(A, f_);                                                                           \
  } while (false)

// ---------------------------------------------------------------------------
struct NoRels {
  static constexpr int n1 = 0, nm = 0;
  template <class H>
  static Seen one(const H&, int) {
    return {};
  }
  template <class H>
  static AnyP oneAny(const H&, int) {
    return {};
  }
  template <class H>
  static void setOne(H&, int, const Any*) {
  }
  template <class H>
  static size_t manySize(const H&, int) {
    return 0;
  }
  template <class H>
  static Seen many(const H&, int, size_t, int) {
    return {};
  }
  template <class H>
  static AnyP manyAny(const H&, int, size_t) {
    return {};
  }
  template <class H>
  static void addMany(H&, int, const Any*) {
  }
  template <class Dt>
  static std::pair<long, long> manyRange(const Dt&, int) {
    return {0, 0};
  }
};
struct NoVecs {
  using VecTypes = std::tuple<>;
  static constexpr int nv = 0;
  template <class H>
  static std::vector<int> vec(const H&, int) {
    return {};
  }
  template <class H>
  static void addVec(H&, int, int) {
  }
  template <class H>
  static void vecBad(const H&) {
  }
  template <class Dt>
  static std::pair<long, long> vecRange(const Dt&, int) {
    return {0, 0};
  }
};
// all the ways of looking at a vector member have to agree
template <class X, class R, class It, class At>
std::vector<int> vecSeen(int slot, const R& range, size_t size, It b, It e, At at) {
  std::vector<int> r;
  for (const auto& v : range)
    r.push_back(decVec<X>(slot, v));
  std::vector<int> r2, r3;
  for (auto it = b; it != e; ++it)
    r2.push_back(decVec<X>(slot, *it));
  for (size_t i = 0; i < size; ++i)
    r3.push_back(decVec<X>(slot, at(i)));
  if (r != r2 || r != r3 || range.size() != size || range.empty() != (size == 0))
    return {-2000};
  return r;
}
#define VECSEEN(X, SLOT, NAME)                                                                                         \
  vecSeen<X>(SLOT, h.NAME(), h.NAME##_size(), h.NAME##_begin(), h.NAME##_end(),                                        \
             [&](size_t i_) { return h.NAME(i_); })
// all the ways of looking at element j of a relation; how picks one of them
#define MANYSEEN(NAME)                                                                                                 \
  do {                                                                                                                 \
    switch (how % 4) {                                                                                                 \
    case 0:                                                                                                            \
      return see(h.NAME(j));                                                                                           \
    case 1:                                                                                                            \
      return see(h.NAME()[j]);                                                                                         \
    case 2:                                                                                                            \
      return see(*std::next(h.NAME##_begin(), j));                                                                     \
    default:                                                                                                           \
      return see(h.NAME().at(j));                                                                                      \
    }                                                                                                                  \
  } while (false)
#define MANYSIZE(NAME)                                                                                                 \
  (h.NAME().size() == h.NAME##_size() && size_t(std::distance(h.NAME##_begin(), h.NAME##_end())) == h.NAME##_size() && \
           h.NAME().empty() == (h.NAME##_size() == 0)                                                                  \
       ? h.NAME##_size()                                                                                               \
       : size_t(-1))
#define RANGE(NAME) std::pair<long, long>{d.NAME##_begin, d.NAME##_end}

template <>
struct D<Hit> : NoRels, NoVecs {
  static constexpr int no = tHit, nf = 3;
  using Data = HitData;
  using Coll = HitCollection;
  template <class A, class F>
  static void slots(A& d, F f) {
    f(1, d.cellID, std::uint64_t{0});
    f(2, d.tag, int{-7});
    f(3, d.energy, double{0});
  }
  template <class H>
  static Data read(const H& h) {
    Data d;
    d.cellID = h.cellID();
    d.tag = h.tag();
    d.energy = h.energy();
    return d;
  }
  static void write(MutableHit& h, int i, const Data& d) {
    switch (i) {
    case 1:
      h.cellID(d.cellID);
      break;
    case 2:
      h.tag() = d.tag;
      break;
    case 3:
      h.energy(d.energy);
      break;
    }
  }
  static MutableHit create(HitCollection& c, const Data& d) {
    return c.create(d.cellID, d.tag, d.energy);
  }
  static MutableHit make(const Data& d) {
    return MutableHit(d.cellID, d.tag, d.energy);
  }
  static bool columns(const HitCollection& c) {
    const auto a = c.cellID();
    const auto b = c.tag(0);
    const auto e = c.energy(2);
    if (a.size() != c.size() || b.size() != c.size() || e.size() != std::min<size_t>(2, c.size()))
      return false;
    for (size_t i = 0; i < c.size(); ++i)
      if (a[i] != c[i].cellID() || b[i] != c[i].tag() || (i < e.size() && e[i] != c[i].energy()))
        return false;
    return true;
  }
};

template <>
struct D<Node> {
  static constexpr int no = tNode, nf = 11, n1 = 3, nm = 3, nv = 3;
  using Data = NodeData;
  using Coll = NodeCollection;
  using VecTypes = std::tuple<int, double, Pt>;
  template <class A, class F>
  static void slots(A& d, F f) {
    f(1, d.tag, int{-7});
    f(2, d.w, float{1.5f});
    f(3, d.arr[0], std::int16_t{0});
    f(4, d.arr[1], std::int16_t{0});
    f(5, d.deep.p.x, int{0});
    f(6, d.deep.p.y, int{0});
    f(7, d.deep.a[0], int{0});
    f(8, d.deep.a[1], int{0});
    f(9, d.deep.a[2], int{0});
    f(10, d.deep.d, double{2.5});
    f(11, d.flag, false);
  }
  template <class H>
  static Data read(const H& h) {
    Data d;
    d.tag = h.tag();
    d.w = h.w();
    d.arr = {h.arr(0), h.arr()[1]};
    d.deep.p = h.p();
    d.deep.a = h.deep().a;
    d.deep.d = h.d();
    d.flag = h.flag();
    return d;
  }
  static void write(MutableNode& h, int i, const Data& d) {
    switch (i) {
    case 1:
      h.tag(d.tag);
      break;
    case 2:
      h.w(d.w);
      break;
    case 3:
      h.arr(0, d.arr[0]);
      break;
    case 4:
      h.arr()[1] = d.arr[1];
      break;
    case 5:
      h.p(Pt{d.deep.p.x, h.p().y});
      break;
    case 6: {
      auto deep = h.deep();
      deep.p.y = d.deep.p.y;
      h.deep(deep);
      break;
    }
    case 7: {
      auto a = h.a();
      a[0] = d.deep.a[0];
      h.a(a);
      break;
    }
    case 8:
      h.a()[1] = d.deep.a[1];
      break;
    case 9:
      h.deep().a[2] = d.deep.a[2];
      break;
    case 10:
      h.d(d.deep.d);
      break;
    case 11:
      h.flag(d.flag);
      break;
    }
  }
  static MutableNode create(NodeCollection& c, const Data& d) {
    return c.create(d.tag, d.w, d.arr, d.deep, d.flag);
  }
  static MutableNode make(const Data& d) {
    return MutableNode(d.tag, d.w, d.arr, d.deep, d.flag);
  }
  static bool columns(const NodeCollection& c) {
    const auto a = c.tag();
    const auto b = c.arr(c.size());
    const auto e = c.deep();
    const auto f = c.flag(1);
    const auto w = c.w();
    if (a.size() != c.size() || b.size() != c.size() || e.size() != c.size() || w.size() != c.size() ||
        f.size() != std::min<size_t>(1, c.size()))
      return false;
    for (size_t i = 0; i < c.size(); ++i)
      if (a[i] != c[i].tag() || b[i] != c[i].arr() || e[i].d != c[i].d() || e[i].a != c[i].a() || w[i] != c[i].w() ||
          (i < f.size() && f[i] != c[i].flag()))
        return false;
    return true;
  }
  template <class H>
  static Seen one(const H& h, int k) {
    return k == 1 ? see(h.next()) : k == 2 ? see(h.hit()) : see(h.item());
  }
  template <class H>
  static AnyP oneAny(const H& h, int k) {
    return k == 1 ? any(h.next()) : k == 2 ? any(h.hit()) : any(h.item());
  }
  static void setOne(MutableNode& h, int k, const Any* p) {
    if (k == 1)
      WITH(p, x, h.next(x), Node);
    else if (k == 2)
      WITH(p, x, h.hit(x), Hit);
    else
      WITH(p, x, h.item(x), ns::Item);
  }
  template <class H>
  static size_t manySize(const H& h, int k) {
    return k == 1 ? MANYSIZE(kids) : k == 2 ? MANYSIZE(hits) : MANYSIZE(friends);
  }
  template <class H>
  static Seen many(const H& h, int k, size_t j, int how) {
    if (k == 1)
      MANYSEEN(kids);
    else if (k == 2)
      MANYSEEN(hits);
    else
      MANYSEEN(friends);
  }
  template <class H>
  static AnyP manyAny(const H& h, int k, size_t j) {
    return k == 1 ? any(h.kids(j)) : k == 2 ? any(h.hits()[j]) : any(h.friends(j));
  }
  static void addMany(MutableNode& h, int k, const Any* p) {
    if (k == 1)
      WITH(p, x, h.addkids(x), Node);
    else if (k == 2)
      WITH(p, x, h.addhits(x), Hit);
    else
      WITH(p, x, h.addfriends(x), Node);
  }
  template <class H>
  static void manyBad(const H& h, int k) {
    if (k == 1)
      (void)h.kids(h.kids_size());
    else if (k == 2)
      (void)h.hits(h.hits_size() + 1);
    else
      (void)h.friends(h.friends_size());
  }
  template <class H>
  static std::vector<int> vec(const H& h, int i) {
    return i == 1 ? VECSEEN(int, 1, counts) : i == 2 ? VECSEEN(double, 2, ws) : VECSEEN(Pt, 3, pts);
  }
  static void addVec(MutableNode& h, int i, int x) {
    if (i == 1)
      h.addcounts(VecVal<int>::mk(1, x));
    else if (i == 2)
      h.addws(VecVal<double>::mk(2, x));
    else
      h.addpts(VecVal<Pt>::mk(3, x));
  }
  template <class H>
  static void vecBad(const H& h, int i) {
    if (i == 1)
      (void)h.counts(h.counts_size());
    else if (i == 2)
      (void)h.ws(h.ws_size());
    else
      (void)h.pts(h.pts_size() + 3);
  }
  static std::pair<long, long> manyRange(const Data& d, int k) {
    return k == 1 ? RANGE(kids) : k == 2 ? RANGE(hits) : RANGE(friends);
  }
  static std::pair<long, long> vecRange(const Data& d, int k) {
    return k == 1 ? RANGE(counts) : k == 2 ? RANGE(ws) : RANGE(pts);
  }
};

template <>
struct D<ns::Item> {
  static constexpr int no = tItem, nf = 7, n1 = 1, nm = 0, nv = 1;
  using Data = ns::ItemData;
  using Coll = ns::ItemCollection;
  using VecTypes = std::tuple<char>;
  template <class A, class F>
  static void slots(A& d, F f) {
    f(1, d.tag, int{-7});
    f(2, d.big, std::int64_t{42});
    f(3, d.pts[0].x, int{0});
    f(4, d.pts[0].y, int{0});
    f(5, d.pts[1].x, int{0});
    f(6, d.pts[1].y, int{0});
    f(7, d.energy, double{0});
  }
  template <class H>
  static Data read(const H& h) {
    Data d;
    d.tag = h.tag();
    d.big = h.big();
    d.pts = {h.pts()[0], h.pts(1)};
    d.energy = h.energy();
    return d;
  }
  static void write(ns::MutableItem& h, int i, const Data& d) {
    switch (i) {
    case 1:
      h.tag(d.tag);
      break;
    case 2:
      h.big() = d.big;
      break;
    case 3:
      h.pts(0, Pt{d.pts[0].x, h.pts(0).y});
      break;
    case 4:
      h.pts()[0].y = d.pts[0].y;
      break;
    case 5: {
      auto p = h.pts();
      p[1].x = d.pts[1].x;
      h.pts(p);
      break;
    }
    case 6:
      h.pts(1, Pt{h.pts(1).x, d.pts[1].y});
      break;
    case 7:
      h.energy(d.energy);
      break;
    }
  }
  static ns::MutableItem create(Coll& c, const Data& d) {
    return c.create(d.tag, d.big, d.pts, d.energy);
  }
  static ns::MutableItem make(const Data& d) {
    return ns::MutableItem(d.tag, d.big, d.pts, d.energy);
  }
  static bool columns(const Coll& c) {
    const auto a = c.tag();
    const auto b = c.big(1);
    const auto e = c.energy();
    const auto p = c.pts();
    if (a.size() != c.size() || b.size() != std::min<size_t>(1, c.size()) || e.size() != c.size() ||
        p.size() != c.size())
      return false;
    for (size_t i = 0; i < c.size(); ++i)
      if (a[i] != c[i].tag() || (i < b.size() && b[i] != c[i].big()) || e[i] != c[i].energy() ||
          p[i][1].y != c[i].pts()[1].y)
        return false;
    return true;
  }
  template <class H>
  static Seen one(const H& h, int) {
    return see(h.owner());
  }
  template <class H>
  static AnyP oneAny(const H& h, int) {
    return any(h.owner());
  }
  static void setOne(ns::MutableItem& h, int, const Any* p) {
    WITH(p, x, h.owner(x), Node);
  }
  template <class H>
  static size_t manySize(const H&, int) {
    return 0;
  }
  template <class H>
  static Seen many(const H&, int, size_t, int) {
    return {};
  }
  template <class H>
  static AnyP manyAny(const H&, int, size_t) {
    return {};
  }
  static void addMany(ns::MutableItem&, int, const Any*) {
  }
  template <class H>
  static void manyBad(const H&, int) {
  }
  template <class H>
  static std::vector<int> vec(const H& h, int) {
    return VECSEEN(char, 1, bytes);
  }
  static void addVec(ns::MutableItem& h, int, int x) {
    h.addbytes(VecVal<char>::mk(1, x));
  }
  template <class H>
  static void vecBad(const H& h, int) {
    (void)h.bytes(h.bytes_size());
  }
  static std::pair<long, long> manyRange(const Data&, int) {
    return {0, 0};
  }
  static std::pair<long, long> vecRange(const Data& d, int) {
    return RANGE(bytes);
  }
};

template <>
struct D<Holder> : NoVecs {
  static constexpr int no = tHolder, nf = 1, n1 = 2, nm = 2;
  using Data = HolderData;
  using Coll = HolderCollection;
  template <class A, class F>
  static void slots(A& d, F f) {
    f(1, d.tag, int{-7});
  }
  template <class H>
  static Data read(const H& h) {
    Data d;
    d.tag = h.tag();
    return d;
  }
  static void write(MutableHolder& h, int, const Data& d) {
    h.tag(d.tag);
  }
  static MutableHolder create(Coll& c, const Data& d) {
    return c.create(d.tag);
  }
  static MutableHolder make(const Data& d) {
    return MutableHolder(d.tag);
  }
  static bool columns(const Coll& c) {
    const auto a = c.tag();
    if (a.size() != c.size())
      return false;
    for (size_t i = 0; i < c.size(); ++i)
      if (a[i] != c[i].tag())
        return false;
    return true;
  }
  template <class H>
  static Seen one(const H& h, int k) {
    return k == 1 ? see(h.e1()) : see(h.t1());
  }
  template <class H>
  static AnyP oneAny(const H& h, int k) {
    return k == 1 ? any(h.e1()) : any(h.t1());
  }
  static void setOne(MutableHolder& h, int k, const Any* p) {
    if (k == 1)
      WITH(p, x, h.e1(x), Hit, ns::Item);
    else
      WITH(p, x, h.t1(x), Hit, Node, ns::Item);
  }
  template <class H>
  static size_t manySize(const H& h, int k) {
    return k == 1 ? MANYSIZE(es) : MANYSIZE(ts);
  }
  template <class H>
  static Seen many(const H& h, int k, size_t j, int how) {
    if (k == 1)
      MANYSEEN(es);
    else
      MANYSEEN(ts);
  }
  template <class H>
  static AnyP manyAny(const H& h, int k, size_t j) {
    return k == 1 ? any(h.es(j)) : any(h.ts(j));
  }
  static void addMany(MutableHolder& h, int k, const Any* p) {
    if (k == 1)
      WITH(p, x, h.addes(x), Hit, ns::Item);
    else
      WITH(p, x, h.addts(x), Hit, Node, ns::Item);
  }
  template <class H>
  static void manyBad(const H& h, int k) {
    if (k == 1)
      (void)h.es(h.es_size());
    else
      (void)h.ts(h.ts_size());
  }
  static std::pair<long, long> manyRange(const Data& d, int k) {
    return k == 1 ? RANGE(es) : RANGE(ts);
  }
};

template <>
struct D<One> : NoVecs {
  static constexpr int no = tOne, nf = 0, n1 = 1, nm = 0;
  using Data = OneData;
  using Coll = OneCollection;
  template <class A, class F>
  static void slots(A&, F) {
  }
  template <class H>
  static Data read(const H&) {
    return {};
  }
  static void write(MutableOne&, int, const Data&) {
  }
  static MutableOne create(Coll& c, const Data&) {
    return c.create();
  }
  static MutableOne make(const Data&) {
    return {};
  }
  static bool columns(const Coll&) {
    return true;
  }
  template <class H>
  static Seen one(const H& h, int) {
    return see(h.one());
  }
  template <class H>
  static AnyP oneAny(const H& h, int) {
    return any(h.one());
  }
  static void setOne(MutableOne& h, int, const Any* p) {
    WITH(p, x, h.one(x), Many);
  }
  template <class H>
  static size_t manySize(const H&, int) {
    return 0;
  }
  template <class H>
  static Seen many(const H&, int, size_t, int) {
    return {};
  }
  template <class H>
  static AnyP manyAny(const H&, int, size_t) {
    return {};
  }
  static void addMany(MutableOne&, int, const Any*) {
  }
  static std::pair<long, long> manyRange(const Data&, int) {
    return {0, 0};
  }
};

template <>
struct D<Many> : NoVecs {
  static constexpr int no = tMany, nf = 0, n1 = 0, nm = 1;
  using Data = ManyData;
  using Coll = ManyCollection;
  template <class A, class F>
  static void slots(A&, F) {
  }
  template <class H>
  static Data read(const H&) {
    return {};
  }
  static void write(MutableMany&, int, const Data&) {
  }
  static MutableMany create(Coll& c, const Data&) {
    return c.create();
  }
  static MutableMany make(const Data&) {
    return {};
  }
  static bool columns(const Coll&) {
    return true;
  }
  template <class H>
  static Seen one(const H&, int) {
    return {};
  }
  template <class H>
  static AnyP oneAny(const H&, int) {
    return {};
  }
  static void setOne(MutableMany&, int, const Any*) {
  }
  template <class H>
  static size_t manySize(const H& h, int) {
    return MANYSIZE(many);
  }
  template <class H>
  static Seen many(const H& h, int, size_t j, int how) {
    MANYSEEN(many);
  }
  template <class H>
  static AnyP manyAny(const H& h, int, size_t j) {
    return any(h.many(j));
  }
  static void addMany(MutableMany& h, int, const Any* p) {
    WITH(p, x, h.addmany(x), One);
  }
  template <class H>
  static void manyBad(const H& h, int) {
    (void)h.many(h.many_size());
  }
  static std::pair<long, long> manyRange(const Data& d, int) {
    return RANGE(many);
  }
};

template <>
struct D<Vec> : NoRels {
  static constexpr int no = tVec, nf = 1, nv = 2;
  using Data = VecData;
  using Coll = VecCollection;
  using VecTypes = std::tuple<float, std::uint64_t>;
  template <class A, class F>
  static void slots(A& d, F f) {
    f(1, d.n, std::uint32_t{0});
  }
  template <class H>
  static Data read(const H& h) {
    Data d;
    d.n = h.n();
    return d;
  }
  static void write(MutableVec& h, int, const Data& d) {
    h.n(d.n);
  }
  static MutableVec create(Coll& c, const Data& d) {
    return c.create(d.n);
  }
  static MutableVec make(const Data& d) {
    return MutableVec(d.n);
  }
  static bool columns(const Coll& c) {
    const auto a = c.n();
    if (a.size() != c.size())
      return false;
    for (size_t i = 0; i < c.size(); ++i)
      if (a[i] != c[i].n())
        return false;
    return true;
  }
  template <class H>
  static std::vector<int> vec(const H& h, int i) {
    return i == 1 ? VECSEEN(float, 1, fs) : VECSEEN(std::uint64_t, 2, us);
  }
  static void addVec(MutableVec& h, int i, int x) {
    if (i == 1)
      h.addfs(VecVal<float>::mk(1, x));
    else
      h.addus(VecVal<std::uint64_t>::mk(2, x));
  }
  template <class H>
  static void vecBad(const H& h, int i) {
    if (i == 1)
      (void)h.fs(h.fs_size());
    else
      (void)h.us(h.us_size());
  }
  static std::pair<long, long> vecRange(const Data& d, int k) {
    return k == 1 ? RANGE(fs) : RANGE(us);
  }
};

// Links
template <class L, int N, class F, class... To>
struct DLink : NoVecs {
  static constexpr int no = N, nf = 1, n1 = 2, nm = 0;
  using Data = podio::LinkData;
  using Coll = typename L::collection_type;
  using Mut = typename L::mutable_type;
  template <class A, class G>
  static void slots(A& d, G f) {
    f(1, d.weight, float{1.0f});
  }
  template <class H>
  static Data read(const H& h) {
    Data d;
    d.weight = h.getWeight();
    const float again = h.template get<2>();
    if (std::memcmp(&again, &d.weight, sizeof(float)) != 0)
      d.weight = 12345.f;
    return d;
  }
  static void write(Mut& h, int, const Data& d) {
    h.setWeight(d.weight);
  }
  static Mut create(Coll& c, const Data& d) {
    auto l = c.create();
    l.setWeight(d.weight);
    return l;
  }
  static Mut make(const Data& d) {
    return Mut(d.weight);
  }
  static bool columns(const Coll&) {
    return true;
  }
  static bool same(const Seen& a, const Seen& b) {
    return a.avail == b.avail && a.key == b.key && a.id == b.id && (!a.avail || a.type == b.type);
  }
  template <class H>
  static Seen one(const H& h, int k) {
    const auto& [from, to, weight] = h;
    Seen s = k == 1 ? see(h.getFrom()) : see(h.getTo());
    if (!same(s, k == 1 ? see(from) : see(to)) ||
        !same(s, k == 1 ? see(h.template get<0>()) : see(h.template get<1>())))
      s.type = -3;
    if constexpr (!std::is_same_v<decltype(h.getFrom()), decltype(h.getTo())>) {
      using FT = std::remove_cvref_t<decltype(h.getFrom())>;
      using TT = std::remove_cvref_t<decltype(h.getTo())>;
      if (!same(s, k == 1 ? see(h.template get<FT>()) : see(h.template get<TT>())))
        s.type = -4;
    }
    return s;
  }
  template <class H>
  static AnyP oneAny(const H& h, int k) {
    return k == 1 ? any(h.getFrom()) : any(h.getTo());
  }
  static void setOne(Mut& h, int k, const Any* p) {
    // set() is there only if the type tells the direction
    static int toggle = 0;
    constexpr bool typed = !std::is_same_v<decltype(h.getFrom()), decltype(h.getTo())>;
    const bool bySet = typed && (++toggle % 2);
    if (k == 1) {
      auto f = [&](const auto& x) {
        if constexpr (typed)
          bySet ? h.set(podio::detail::GetDefaultHandleType<std::remove_cvref_t<decltype(x)>>(x)) : h.setFrom(x);
        else
          h.setFrom(x);
      };
      with<decltype(f)&, F>(p, f);
    } else {
      auto f = [&](const auto& x) {
        if constexpr (typed)
          bySet ? h.set(podio::detail::GetDefaultHandleType<std::remove_cvref_t<decltype(x)>>(x)) : h.setTo(x);
        else
          h.setTo(x);
      };
      with<decltype(f)&, To...>(p, f);
    }
  }
  template <class H>
  static size_t manySize(const H&, int) {
    return 0;
  }
  template <class H>
  static Seen many(const H&, int, size_t, int) {
    return {};
  }
  template <class H>
  static AnyP manyAny(const H&, int, size_t) {
    return {};
  }
  static void addMany(Mut&, int, const Any*) {
  }
  static std::pair<long, long> manyRange(const Data&, int) {
    return {0, 0};
  }
};
using HNLink = HitNodeLinkCollection::value_type;
using NNLink = NodeNodeLinkCollection::value_type;
using NELink = NodeEnergeticLinkCollection::value_type;
template <>
struct D<HNLink> : DLink<HNLink, tHN, Hit, Node> {};
template <>
struct D<NNLink> : DLink<NNLink, tNN, Node, Node> {};
template <>
struct D<NELink> : DLink<NELink, tNE, Node, Hit, ns::Item> {};

template <class T>
std::vector<int> slotsOf(const typename D<T>::Data& d) {
  std::vector<int> r;
  D<T>::slots(d, [&](int i, const auto& v, auto dflt) { r.push_back(dec(i, std::remove_cvref_t<decltype(v)>(v), dflt)); });
  return r;
}
template <class T>
void putSlot(typename D<T>::Data& d, int slot, int k) {
  D<T>::slots(d, [&](int i, auto& v, auto dflt) {
    if (i == slot)
      v = enc(i, k, dflt);
  });
}
