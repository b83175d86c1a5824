#include "machine.h"
#include <algorithm>
#include <cxxabi.h>

long g_nchecks = 0, g_step = 0, g_beh = 0, g_nsteps = 0;
static std::atomic<long> g_live{0};
#ifndef NO_COUNTING
void* operator new(size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  ++g_live;
  return p;
}
void operator delete(void* p) noexcept {
  if (p)
    --g_live;
  std::free(p);
}
void operator delete(void* p, size_t) noexcept {
  if (p)
    --g_live;
  std::free(p);
}
void* operator new[](size_t n) {
  return operator new(n);
}
void operator delete[](void* p) noexcept {
  operator delete(p);
}
void operator delete[](void* p, size_t) noexcept {
  operator delete(p);
}
#endif

std::map<std::string, MachineKind>& machines() {
  static std::map<std::string, MachineKind> m;
  return m;
}

std::string exceptionName() {
  try {
    throw;
  } catch (const Mismatch&) {
    throw;
  } catch (const json::exception& e) {
    throw std::logic_error(std::string("driver: ") + e.what());
  } catch (const std::exception& e) {
    const std::string what = e.what();
    if (what.starts_with("driver:"))
      throw;
    int st = 0;
    char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string r = n ? n : typeid(e).name();
    std::free(n);
    return r.starts_with("std::") ? r.substr(5) : r;
  } catch (...) {
    return "exception";
  }
}

// Compare; empty functions and empty sequences are the same to TLC, and
// entries whose name starts with set_ have no order
static bool differs(const json& want, const json& got, const std::string& path, bool unordered, std::string& where) {
  auto say = [&] {
    where = path + " is " + got.dump(-1, ' ', false, json::error_handler_t::replace) + " instead of " + want.dump();
    return true;
  };
  if ((want.is_array() || want.is_object()) && (got.is_array() || got.is_object()) && want.empty() && got.empty())
    return false;
  if (want.is_array() && got.is_array()) {
    if (want.size() != got.size())
      return say();
    if (unordered) {
      std::vector<std::string> a, b;
      for (const auto& x : want)
        a.push_back(x.dump());
      for (const auto& x : got)
        b.push_back(x.dump(-1, ' ', false, json::error_handler_t::replace));
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      return a != b ? say() : false;
    }
    for (size_t i = 0; i < want.size(); ++i)
      if (differs(want[i], got[i], path + "[" + std::to_string(i) + "]", false, where))
        return true;
    return false;
  }
  if (want.is_object() && got.is_object()) {
    for (const auto& [k, v] : want.items()) {
      if (k.starts_with("_"))
        continue;
      if (!got.contains(k)) {
        where = path + "." + k + " is missing";
        return true;
      }
      if (differs(v, got[k], path.empty() ? k : path + "." + k, k.starts_with("set_"), where))
        return true;
    }
    for (const auto& [k, v] : got.items())
      if (!want.contains(k)) {
        where = path + "." + k + " should not be there: " + v.dump();
        return true;
      }
    return false;
  }
  ++g_nchecks;
  return want == got ? false : say();
}

static int g_statusFd = -1;
static void status() {
  char b[64];
  const int n = std::snprintf(b, sizeof b, "%ld %ld            \n", g_beh, g_step);
  if (g_statusFd >= 0 && pwrite(g_statusFd, b, n, 0) < 0)
    std::exit(2);
}

static std::unordered_map<size_t, std::string> g_stateText;
static std::unordered_map<size_t, std::shared_ptr<const json>> g_states;
static std::shared_ptr<const json> theState(const json& step) {
  if (!step.contains("s"))
    return {std::shared_ptr<const json>{}, &step["state"]};
  const size_t id = step["s"];
  auto& p = g_states[id];
  if (!p) {
    const auto& t = g_stateText.at(id);
    const auto from = t.find("\"state\":") + 8;
    auto n = std::make_shared<const json>(json::parse(t.substr(from, t.rfind('}') - from)));
    if (g_states.size() > 4000) {
      g_states.clear();
      g_states[id] = n;
      return n;
    }
    p = n;
  }
  return p;
}

static void runBehaviour(const MachineMaker& make, const json& beh, const std::vector<std::shared_ptr<const json>>& st) {
  g_step = 0;
  auto m = make();
  for (const auto& s : beh) {
    const json& want = *st[g_step];
    ++g_step;
    ++g_nsteps;
    status();
    const auto& act = s["act"];
    json res;
    try {
      res = m->perform(act);
    } catch (...) {
      res = exceptionName();
    }
    std::string where;
    ++g_nchecks;
    if (act.contains("res") && differs(act["res"], res, "result", false, where))
      mismatch(where + " in " + act.dump());
    if (differs(want, m->observe(want), "", false, where))
      mismatch(where + " after " + act.dump());
  }
}

int main(int argc, char** argv) {
  if (argc < 4)
    return 2;
  g_statusFd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  const auto it = machines().find(argv[3]);
  if (it == machines().end()) {
    std::cout << "driver: no machine " << argv[3] << std::endl;
    return 2;
  }
  std::ifstream in(argv[1]);
  std::string line;
  long n = 0;
  while (std::getline(in, line)) {
    if (line.empty())
      continue;
    if (line.starts_with("{\"id\":")) {
      g_stateText[std::stoul(line.substr(6))] = line;
      continue;
    }
    g_beh = n++;
    const json beh = json::parse(line);
    std::vector<std::shared_ptr<const json>> states;
    for (const auto& s : beh)
      states.push_back(theState(s));
    try {
      long leak = 0;
      for (int attempt = 0; attempt < 4; ++attempt) {
        const long live = g_live;
        runBehaviour(it->second.make, beh, states);
        leak = it->second.keeps ? 0 : g_live - live;
        if (leak == 0)
          break;
      }
      CHECK(leak == 0, leak << " allocations are not given back");
    } catch (const Mismatch& e) {
      std::cout << "MISMATCH behaviour " << g_beh << " step " << g_step << ": " << e.what() << std::endl;
      return 3;
    } catch (const std::exception& e) {
      std::cout << "driver: behaviour " << g_beh << " step " << g_step << ": " << e.what() << std::endl;
      return 2;
    }
  }
  std::cout << "OK behaviours " << n << " steps " << g_nsteps << " checks " << g_nchecks << std::endl;
  return 0;
}
