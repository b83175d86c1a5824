// spec/Handles.tla
#include "vm_machine.h"
#include <unordered_set>
#include <variant>

// what the machine has to know about a type
template <class T>
struct H;
template <>
struct H<Hit> {
  static constexpr auto name = "Hit";
  static constexpr int base = 0;
  static int get(const Hit& h) {
    return h.tag();
  }
  static void set(MutableHit& h, int x) {
    h.tag(x);
  }
  template <class X>
  static X make(int x) {
    return X(7u, x, 1.5);
  }
};
template <>
struct H<Node> {
  static constexpr auto name = "Node";
  static int get(const Node& h) {
    return h.tag();
  }
  static void set(MutableNode& h, int x) {
    h.tag() = x;
  }
  template <class X>
  static X make(int x) {
    return X(x, 1.f, {1, 2}, ns::Deep{}, true);
  }
};
template <>
struct H<ns::Item> {
  static constexpr auto name = "Item";
  static int get(const ns::Item& h) {
    return h.tag();
  }
  static void set(ns::MutableItem& h, int x) {
    h.tag(x);
  }
  template <class X>
  static X make(int x) {
    return X(x, 5, {Pt{}, Pt{}}, 2.5);
  }
};
template <>
struct H<HitNodeLink> {
  static constexpr auto name = "Link";
  static int get(const HitNodeLink& h) {
    return int(h.getWeight());
  }
  static void set(MutableHitNodeLink& h, int x) {
    h.setWeight(float(x));
  }
  template <class X>
  static X make(int x) {
    return X(float(x));
  }
};

using HL = HitNodeLink;
using MHL = MutableHitNodeLink;
using Handle = std::variant<std::monostate, Hit, MutableHit, Node, MutableNode, ns::Item, ns::MutableItem, HL, MHL, Energetic, ns::Tagged>;
template <class T>
concept Interface = std::is_same_v<T, Energetic> || std::is_same_v<T, ns::Tagged>;
template <class T>
concept Usual = !Interface<T> && !std::is_same_v<T, std::monostate>;
template <class T>
using Default = typename T::collection_type::value_type;
template <class T>
inline constexpr bool isMut = false;
template <Usual T>
inline constexpr bool isMut<T> = !std::is_same_v<T, Default<T>>;
template <class To, class From>
concept Makes = !std::is_same_v<From, std::monostate> && !std::is_same_v<To, std::monostate> && std::is_convertible_v<const From&, To>;

template <class F>
void forType(const std::string& t, F f) {
  if (t == "Hit")
    f.template operator()<Hit>();
  else if (t == "Node")
    f.template operator()<Node>();
  else if (t == "Item")
    f.template operator()<ns::Item>();
  else if (t == "Link")
    f.template operator()<HL>();
  else
    throw std::logic_error("driver: type " + t);
}

struct HandlesMachine : Machine {
  std::tuple<HitCollection, NodeCollection, ns::ItemCollection, HitNodeLinkCollection> colls;
  std::vector<std::pair<std::string, int>> objs; ///< type, position in the collection, or -1
  std::vector<size_t> objOf;                      ///< of a handle
  std::vector<Handle> hs;

  template <class T>
  auto& coll() {
    return std::get<typename T::collection_type>(colls);
  }
  size_t add(Handle h, size_t obj) {
    size_t i = 0;
    while (i < hs.size() && hs[i].index() != 0)
      ++i;
    if (i == hs.size()) {
      hs.emplace_back();
      objOf.push_back(0);
    }
    hs[i] = std::move(h);
    objOf[i] = obj;
    return i;
  }
  size_t newObj(const std::string& t, int pos) {
    objs.emplace_back(t, pos);
    return objs.size();
  }
  HandlesMachine() {
    coll<Hit>().setID(101);
    coll<Node>().setID(102);
    coll<ns::Item>().setID(103);
    coll<HL>().setID(104);
  }

  json perform(const json& a) override {
    const std::string op = a["op"];
    auto N = [&](const char* k) { return a[k].get<size_t>() - 1; };
    const std::string cls = a.value("c", "");
    if (op == "Take") {
      const auto o = a["o"].get<size_t>();
      const int pos = objs.at(o - 1).second;
      forType(objs.at(o - 1).first, [&]<class T>() {
        auto& c = coll<T>();
        const auto& cc = c;
        using M = typename T::mutable_type;
        switch (variant(3)) {
        case 0:
          cls == "d" ? add(T(cc[pos]), o) : add(M(c[pos]), o);
          break;
        case 1:
          cls == "d" ? add(T(cc.at(pos)), o) : add(M(c.at(pos)), o);
          break;
        default:
          cls == "d" ? add(T(*std::next(cc.begin(), pos)), o) : add(M(*std::next(c.begin(), pos)), o);
        }
      });
    } else if (op == "New") {
      const int x = a["x"];
      const auto o = newObj(a["t"], -1);
      forType(a["t"], [&]<class T>() {
        using M = typename T::mutable_type;
        if (cls == "d") {
          add(H<T>::template make<T>(x), o);
        } else if (variant(2)) {
          add(H<T>::template make<M>(x), o);
        } else {
          M m;
          H<T>::set(m, x);
          add(m, o);
        }
      });
    } else if (op == "Create") {
      forType(a["t"], [&]<class T>() {
        auto& c = coll<T>();
        const auto o = newObj(a["t"], int(c.size()));
        auto m = c.create();
        H<T>::set(m, a["x"]);
        add(m, o);
      });
    } else if (op == "Empty") {
      if (cls == "E")
        add(Energetic::makeEmpty(), 0);
      else if (cls == "T")
        add(ns::Tagged::makeEmpty(), 0);
      else
        forType(a["t"], [&]<class T>() { add(T::makeEmpty(), 0); });
    } else if (op == "Convert") {
      const auto h = N("h");
      const Handle from = hs.at(h); // a copy, adding may move them
      std::visit(
          [&]<class T>(const T& x) {
            if constexpr (!std::is_same_v<T, std::monostate>) {
              if (cls == "m" || (cls == "d" && !isMut<T>)) {
                add(x, objOf[h]);
                return;
              }
              if constexpr (isMut<T>)
                if (cls == "d") {
                  add(Default<T>(x), objOf[h]);
                  return;
                }
              if constexpr (Makes<Energetic, T>)
                if (cls == "E") {
                  add(Energetic(x), objOf[h]);
                  return;
                }
              if constexpr (Makes<ns::Tagged, T>)
                if (cls == "T") {
                  add(ns::Tagged(x), objOf[h]);
                  return;
                }
            }
            throw std::logic_error("driver: conversion");
          },
          from);
    } else if (op == "As") {
      const auto h = N("h");
      const Handle from = hs.at(h);
      std::visit(
          [&]<class T>(const T& x) {
            if constexpr (Interface<T>) {
              if (a["t"] == "Hit")
                add(x.template as<Hit>(), objOf[h]);
              else if (a["t"] == "Item")
                add(x.template as<ns::Item>(), objOf[h]);
              else if constexpr (std::is_same_v<T, ns::Tagged>)
                add(x.template as<Node>(), objOf[h]);
            }
          },
          from);
    } else if (op == "Assign") {
      const auto h = N("h"), g = N("g");
      std::visit(
          [&]<class T, class U>(T& x, U& y) {
            if constexpr (Makes<T, U>)
              x = y;
            else
              throw std::logic_error("driver: assignment");
          },
          hs[h], hs[g]);
      objOf[h] = objOf[g];
    } else if (op == "MoveTo") {
      const auto h = N("h"), g = N("g");
      std::visit(
          [&]<class T, class U>(T& x, U& y) {
            if constexpr (std::is_same_v<T, U>)
              x = std::move(y);
          },
          hs[h], hs[g]);
      objOf[h] = objOf[g];
      hs[g] = {};
    } else if (op == "Swap") {
      const auto h = N("h"), g = N("g");
      std::visit(
          [&]<class T, class U>(T& x, U& y) {
            using std::swap;
            if constexpr (std::is_same_v<T, U>)
              swap(x, y);
          },
          hs[h], hs[g]);
      std::swap(objOf[h], objOf[g]);
    } else if (op == "Unlink") {
      std::visit(
          []<class T>(T& x) {
            if constexpr (!std::is_same_v<T, std::monostate>)
              x.unlink();
          },
          hs[N("h")]);
      objOf[N("h")] = 0;
    } else if (op == "Clone") {
      const Handle from = hs[N("h")];
      std::visit(
          [&]<class T>(const T& x) {
            if constexpr (Usual<T>)
              add(x.clone(a["rel"].get<bool>()), newObj(H<Default<T>>::name, -1));
          },
          from);
    } else if (op == "Set") {
      std::visit(
          [&]<class T>(T& x) {
            if constexpr (isMut<T>)
              H<Default<T>>::set(x, a["x"]);
          },
          hs[N("h")]);
    } else if (op == "Push") {
      std::visit(
          [&]<class T>(T& x) {
            if constexpr (isMut<T>) {
              auto& c = coll<Default<T>>();
              const int n = int(c.size());
              c.push_back(x);
              objs[objOf[N("h")] - 1].second = n;
            }
          },
          hs[N("h")]);
    } else if (op == "Drop") {
      hs[N("h")] = {};
      objOf[N("h")] = 0;
    } else {
      throw std::logic_error("driver: unknown op " + op);
    }
    return "ok";
  }

  template <class T>
  static void isA(const T& x, std::string& r) {
    int n = 0;
    auto is = [&]<class X>() {
      if (!x.template isA<X>())
        return false;
      ++n;
      r = H<X>::name;
      return true;
    };
    is.template operator()<Hit>();
    is.template operator()<ns::Item>();
    if constexpr (std::is_same_v<T, ns::Tagged>)
      is.template operator()<Node>();
    CHECK(n == 1, "an interface handle is of " << n << " types");
  }
  std::map<std::tuple<std::string, size_t, size_t>, bool> before;

  // Everything containers need of all the handles of one type
  template <class T>
  void contained() {
    std::vector<T> v;
    std::vector<size_t> o;
    std::set<size_t> available;
    bool empty = false;
    std::vector<std::string> types;
    for (size_t i = 0; i < hs.size(); ++i)
      if (auto* h = std::get_if<T>(&hs[i])) {
        v.push_back(*h);
        o.push_back(objOf[i]);
        h->isAvailable() ? (void)available.insert(objOf[i]) : (void)(empty = true);
      }
    const auto distinct = available.size() + empty;
    for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = 0; j < v.size(); ++j) {
        const bool lt = v[i] < v[j], gt = v[j] < v[i];
        CHECK(!(lt && gt) && (o[i] == o[j]) == (!lt && !gt), "order of two handles");
        if (o[i] && o[j] && o[i] != o[j]) {
          const auto [it, isNew] = before.emplace(std::make_tuple(std::string(T::typeName), o[i], o[j]), lt);
          CHECK(it->second == lt, "the order of two handles has changed");
        }
        for (size_t k = 0; k < v.size(); ++k)
          if (lt && v[j] < v[k])
            CHECK(v[i] < v[k], "the order is not transitive");
        if (v[i] == v[j])
          CHECK(std::hash<T>{}(v[i]) == std::hash<T>{}(v[j]), "hashes of equal handles are different");
      }
    std::set<T> s(v.begin(), v.end());
    CHECK(s.size() == distinct, "a set of " << distinct << " has " << s.size());
    std::unordered_set<T> u(v.begin(), v.end());
    if (!Interface<T> || !empty) // empty ones of different types are different
      CHECK(u.size() == distinct, "an unordered set of " << distinct << " has " << u.size());
    for (const auto& h : v)
      CHECK(s.count(h) == 1 && u.count(h) == 1, "not found in a set");
  }

  json observe(const json& want) override {
    while (hs.size() < want["h"].size()) {
      hs.emplace_back();
      objOf.push_back(0);
    }
    json r = json::array(), eq = json::array();
    for (size_t i = 0; i < hs.size(); ++i) {
      json row = json::array();
      for (size_t j = 0; j < hs.size(); ++j)
        row.push_back(std::visit(
            []<class T, class U>(const T& x, const U& y) -> std::string {
              if constexpr (std::is_same_v<T, std::monostate> || std::is_same_v<U, std::monostate>) {
                return ".";
              } else if constexpr (requires { x == y; }) {
                CHECK((x != y) == !(x == y), "!= is not the opposite of ==");
                return x == y ? "=" : "#";
              }
              return ".";
            },
            hs[i], hs[j]));
      eq.push_back(row);
      r.push_back(std::visit(
          [&]<class T>(const T& x) -> json {
            if constexpr (std::is_same_v<T, std::monostate>) {
              return {{"live", false}};
            } else {
              std::string c, t;
              int val = -1;
              const bool av = x.isAvailable();
              if constexpr (Interface<T>) {
                c = std::is_same_v<T, Energetic> ? "E" : "T";
                isA(x, t);
                if (av) {
                  if (t == "Hit")
                    val = x.template as<Hit>().tag();
                  else if (t == "Item")
                    val = x.template as<ns::Item>().tag();
                  if constexpr (std::is_same_v<T, ns::Tagged>) {
                    if (t == "Node")
                      val = x.template as<Node>().tag();
                    CHECK(x.tag() == val, "value through the interface");
                  } else {
                    CHECK(x.energy() == (t == "Hit" ? x.template as<Hit>().energy() : x.template as<ns::Item>().energy()),
                          "value through the interface");
                  }
                }
              } else {
                using DT = Default<T>;
                c = isMut<T> ? "m" : "d";
                t = H<DT>::name;
                if (av)
                  val = H<DT>::get(x);
              }
              const auto id = x.getObjectID();
              CHECK(id == x.id(), "id");
              int pos = id.index + 1;
              const uint32_t wantColl = t == "Hit" ? 101 : t == "Node" ? 102 : t == "Item" ? 103 : 104;
              if (pos <= 0) {
                CHECK(id == podio::ObjectID{}, "the ID of an untracked object or an empty handle is " << id);
                pos = 0;
              } else {
                CHECK(id.collectionID == wantColl, "collection ID is " << id.collectionID);
              }
              return {{"live", true}, {"cls", c}, {"isA", t}, {"avail", av}, {"id", pos}, {"val", val}};
            }
          },
          hs[i]));
    }
    contained<Hit>();
    contained<Node>();
    contained<ns::Item>();
    contained<HL>();
    contained<Energetic>();
    contained<ns::Tagged>();
    return {{"h", r}, {"eq", eq}};
  }
};
static const Register reg("Handles", [] { return std::make_unique<HandlesMachine>(); });
