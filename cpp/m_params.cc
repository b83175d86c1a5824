// spec/Params.tla
#include "machine.h"
#include "podio/GenericParameters.h"
#include <bit>
#include <cmath>
#include <limits>
#include <list>

static const std::map<std::string, std::string>& keys() {
  static const std::map<std::string, std::string> m{
      {"k1", "key"}, {"k2", ""}, {"k3", "a much longer key than any other one, with spaces and \xc3\xa4"}, {"k4", "key2"}};
  return m;
}

template <class T>
T value(int x);
template <>
int value<int>(int x) {
  static const int v[] = {0, 1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), -1, 42};
  return v[x];
}
template <>
float value<float>(int x) {
  static const float v[] = {0.f, 1.5f, std::numeric_limits<float>::max(), -0.f, std::numeric_limits<float>::denorm_min(), 0.1f};
  return v[x];
}
template <>
double value<double>(int x) {
  static const double v[] = {0., 1.5, std::numeric_limits<double>::max(), -0., std::numeric_limits<double>::denorm_min(), 0.1};
  return v[x];
}
template <>
std::string value<std::string>(int x) {
  static const std::string v[] = {"0", "", "some text", std::string("with\0zero", 9), "[a, b]", std::string(200, '"')};
  return v[x];
}
template <class T>
bool same(const T& a, const T& b) {
  if constexpr (std::is_floating_point_v<T>)
    return a == b && std::signbit(a) == std::signbit(b);
  else
    return a == b;
}
template <class T>
int back(const T& v) {
  for (int i = 1; i <= 5; ++i)
    if (same(v, value<T>(i)))
      return i;
  return -2;
}
template <class T>
std::vector<T> values(const json& j) {
  std::vector<T> r;
  for (int x : j)
    r.push_back(value<T>(x));
  return r;
}
template <class T>
json back(const std::vector<T>& v) {
  json r = json::array();
  for (const auto& x : v)
    r.push_back(back(x));
  return r;
}
static json backKey(const std::string& k) {
  for (const auto& [s, n] : keys())
    if (n == k)
      return s;
  return "unknown key " + k;
}

using GP = podio::GenericParameters;

// calls f with a value of the type
template <class F>
auto withType(const std::string& t, F&& f) {
  if (t == "int")
    return f(int{});
  if (t == "float")
    return f(float{});
  if (t == "double")
    return f(double{});
  return f(std::string{});
}

struct ParamsMachine : Machine {
  std::vector<std::unique_ptr<GP>> gps;

  json perform(const json& a) override {
    const std::string op = a["op"];
    auto G = [&](const char* k) -> std::unique_ptr<GP>& { return gps.at(a[k].get<int>() - 1); };
    if (op == "New") {
      gps.push_back(std::make_unique<GP>());
    } else if (op == "Set1") {
      const auto& k = keys().at(a["k"]);
      withType(a["t"], [&]<class T>(T) {
        if constexpr (std::is_same_v<T, std::string>) {
          // what cannot be given that way is given as a string
          const auto v = value<T>(a["x"]);
          if (a["how"] == "chars" && v.find('\0') == v.npos)
            G("g")->set(k, v.c_str());
          else
            G("g")->set(k, v);
        } else {
          G("g")->set(k, value<T>(a["x"]));
        }
      });
    } else if (op == "SetV") {
      const auto& k = keys().at(a["k"]);
      withType(a["t"], [&]<class T>(T) {
        auto v = values<T>(a["v"]);
        const auto orig = v;
        if (a["how"] == "move") {
          G("g")->set(k, std::move(v));
        } else if (a["how"] == "list" && v.size() == 2) {
          G("g")->set(k, {v[0], v[1]});
        } else if (a["how"] == "list" && v.size() == 3) {
          G("g")->set(k, {v[0], v[1], v[2]});
        } else {
          G("g")->set(k, v);
          CHECK(v == orig, "values have been changed");
        }
      });
    } else if (op == "Load") {
      withType(a["t"], [&]<class T>(T) {
        std::vector<std::string> ks;
        std::vector<std::vector<T>> vs;
        for (const auto& e : a["kv"]) {
          ks.push_back(keys().at(e["k"]));
          vs.push_back(values<T>(e["v"]));
        }
        if (variant(2))
          G("g")->loadFrom<T, std::vector>(std::move(ks), std::move(vs));
        else
          G("g")->loadFrom<T, std::vector>(ks, vs);
      });
    } else if (op == "Clear") {
      G("g")->clear();
    } else if (op == "Copy") {
      gps.push_back(std::make_unique<GP>(*G("g")));
    } else if (op == "Move") {
      auto n = std::make_unique<GP>(std::move(*G("g")));
      G("g").reset();
      gps.push_back(std::move(n));
    } else if (op == "MoveInto") {
      *G("h") = std::move(*G("g"));
      G("g").reset();
    } else if (op == "Print") {
      std::ostringstream os;
      G("g")->print(os, variant(2));
      const std::string text = os.str();
      std::string rest = text;
      // headings in order
      const char* heads[] = {"int parameters", "float parameters", "double parameters", "std::string parameters"};
      const char* types[] = {"int", "float", "double", "string"};
      size_t at[5];
      size_t pos = 0;
      for (int i = 0; i < 4; ++i) {
        at[i] = text.find(heads[i], pos);
        if (at[i] == text.npos)
          return std::string("no heading ") + heads[i];
        pos = at[i] + 1;
      }
      at[4] = text.size();
      json r;
      for (int i = 0; i < 4; ++i) {
        if (!a["res"].contains(types[i]))
          continue;
        const auto part = text.substr(at[i], at[i + 1] - at[i]);
        json lines = json::array();
        size_t nl = 0;
        for (const auto& e : a["res"][types[i]]["set_lines"]) {
          std::ostringstream v;
          withType(types[i], [&]<class T>(T) {
            v << "[";
            bool first = true;
            for (const auto& x : values<T>(e["v"])) {
              v << (first ? "" : ", ") << x;
              first = false;
            }
            v << "]";
          });
          std::string key = keys().at(e["k"]);
          if (key.size() < 30)
            key.resize(30, ' ');
          if (part.find("\n" + key + v.str() + "\n") != part.npos)
            lines.push_back(e);
        }
        // heading, titles and rule, and the lines
        for (char c : part)
          nl += c == '\n';
        const size_t extra = i == 0 ? 4 : 3;
        if (nl != lines.size() + extra + (i < 3 ? 1 : 0))
          lines.push_back("wrong number of lines: " + part);
        r[types[i]] = {{"set_lines", lines}};
      }
      return r;
    } else {
      throw std::logic_error("driver: unknown op " + op);
    }
    return "ok";
  }

  json observe(const json& want) override {
    json r = json::array();
    for (size_t i = 0; i < gps.size(); ++i) {
      if (!gps[i]) {
        r.push_back({{"live", false}});
        continue;
      }
      const auto& g = *gps[i];
      json m;
      const auto& w = want["gps"].size() > i && want["gps"][i].contains("m") ? want["gps"][i]["m"] : json::object();
      for (const auto& [t, wt] : w.items())
        withType(t, [&]<class T>(T) {
          json ks = json::array(), kv = json::array(), val, n, first;
          for (const auto& k : g.getKeys<T>())
            ks.push_back(backKey(k));
          const auto [k2, v2] = g.getKeysAndValues<T>();
          CHECK(k2.size() == v2.size(), "keys and values do not belong together");
          for (size_t j = 0; j < k2.size(); ++j)
            kv.push_back({{"k", backKey(k2[j])}, {"v", back(v2[j])}});
          CHECK(g.getMap<T>().size() == k2.size(), "getMap has a different size");
          for (const auto& [s, _] : wt["val"].items()) {
            const auto& k = keys().at(s);
            const auto v = g.get<std::vector<T>>(k);
            const auto x = g.get<T>(k);
            val[s] = v ? back(*v) : json::array({-1});
            first[s] = x ? back(*x) : -1;
            n[s] = g.getN<T>(k);
          }
          m[t] = {{"set_keys", ks}, {"set_kv", kv}, {"val", val}, {"n", n}, {"first", first}};
        });
      r.push_back({{"live", true}, {"empty", g.empty()}, {"m", m}});
    }
    return {{"gps", r}};
  }
};
static const Register reg("Params", [] { return std::make_unique<ParamsMachine>(); });
