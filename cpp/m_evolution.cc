// spec/Evolution.tla
#include "machine.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include "podio/SchemaEvolution.h"
#include "podio/UserDataCollection.h"

using podio::CollectionReadBuffers;
static long g_run = 0;

struct Log {
  std::vector<int> fns;
  int deleted = 0, made = 0;
  bool sub = false;
};
static Log* g_log = nullptr;

static CollectionReadBuffers buffersOf(std::string_view type, unsigned version, bool sub) {
  return CollectionReadBuffers{sub ? nullptr : new std::vector<int>{1, 2, 3},
                               new podio::CollRefCollection(),
                               nullptr,
                               version,
                               type,
                               [](CollectionReadBuffers&& b, bool s) {
                                 g_log->made++;
                                 g_log->sub = s;
                                 std::vector<int> v;
                                 if (b.data)
                                   v = *b.dataAsVector<int>();
                                 return std::make_unique<podio::UserDataCollection<int>>(std::move(v));
                               },
                               [](CollectionReadBuffers& b) {
                                 if (b.references) {
                                   g_log->deleted++;
                                   delete b.references;
                                   b.references = nullptr;
                                   delete b.dataAsVector<int>();
                                   b.data = nullptr;
                                 }
                               }};
}

struct FakeData {
  std::string type;
  unsigned version;
  bool sub;
  bool taken = false;
  podio::CollectionIDTable getIDTable() const {
    return {std::vector<uint32_t>{5}, std::vector<std::string>{"c"}};
  }
  std::optional<CollectionReadBuffers> getCollectionBuffers(const std::string&) {
    if (taken)
      return std::nullopt;
    taken = true;
    return buffersOf(type, version, sub);
  }
  std::vector<std::string> getAvailableCollections() const {
    return taken ? std::vector<std::string>{} : std::vector<std::string>{"c"};
  }
  std::unique_ptr<podio::GenericParameters> getParameters() {
    return std::make_unique<podio::GenericParameters>();
  }
};

struct EvolutionMachine : Machine {
  std::string pre = "verif::T" + std::to_string(++g_run) + "_";
  Log log;
  EvolutionMachine() {
    g_log = &log;
  }
  std::string type(const json& a) {
    return pre + a["t"].get<std::string>() + "Collection";
  }

  json perform(const json& a) override {
    const std::string op = a["op"];
    auto& ev = podio::SchemaEvolution::mutInstance();
    auto fun = [&](int fn) {
      return [fn](CollectionReadBuffers&& b, podio::SchemaVersionT v) {
        g_log->fns.push_back(fn);
        CHECK(v == b.schemaVersion, "function got version " << v << " instead of " << b.schemaVersion);
        return std::move(b);
      };
    };
    using P = podio::SchemaEvolution::Priority;
    if (op == "RegEv") {
      if (a["p"] == "user" && variant(2))
        ev.registerEvolutionFunc(type(a), a["v"], a["N"], fun(a["fn"]));
      else
        ev.registerEvolutionFunc(type(a), a["v"], a["N"], fun(a["fn"]), a["p"] == "user" ? P::UserDefined : P::AutoGenerated);
    } else if (op == "RegAll") {
      for (unsigned v = 1; v <= a["N"].get<unsigned>(); ++v)
        ev.registerEvolutionFunc(type(a), v, a["N"], fun(a["fn"]), P::AutoGenerated);
    } else if (op == "Evolve") {
      log = {};
      Captured quiet;
      {
        auto b = buffersOf("some type", a["v"], false);
        void* const d = b.data;
        auto n = podio::SchemaEvolution::instance().evolveBuffers(std::move(b), a["v"], type(a));
        CHECK(log.fns.size() <= 1, "more than one function has been called");
        const bool same = n.data == d && n.references && n.schemaVersion == a["v"] && n.type == "some type" && n.createCollection &&
            n.deleteBuffers && !b.data && !b.references && log.deleted == 0;
        return {{"fn", log.fns.empty() ? 0 : log.fns[0]}, {"same", same}};
      }
    } else if (op == "Unpack") {
      log = {};
      Captured quiet;
      {
        podio::Frame f(std::make_unique<FakeData>(FakeData{type(a), a["v"], a["sub"]}));
        const auto* c = f.get("c");
        CHECK(c && c->getID() == 5 && c->size() == (a["sub"].get<bool>() ? 0u : 3u), "wrong collection");
        CHECK(f.get("c") == c && f.get<podio::UserDataCollection<int>>("c").getID() == 5, "not the same again");
      }
      return {{"fns", log.fns}, {"sub", log.sub}, {"made", log.made}, {"deleted", log.deleted}};
    } else if (op == "RegMk") {
      const int fn = a["fn"];
      podio::CollectionBufferFactory::mutInstance().registerCreationFunc(type(a), a["v"], [fn](bool sub) {
        g_log->fns.push_back(fn);
        g_log->sub = sub;
        return buffersOf("some type", 1000 + fn, sub);
      });
    } else if (op == "Make") {
      log = {};
      {
        auto b = podio::CollectionBufferFactory::instance().createBuffers(type(a), a["v"], a["sub"]);
        if (!b)
          CHECK(log.fns.empty(), "a function has been called");
        else
          CHECK(log.fns.size() == 1 && b->schemaVersion == 1000u + log.fns[0] && (b->data == nullptr) == a["sub"].get<bool>() &&
                    b->references && b->createCollection && b->deleteBuffers,
                "not the buffers the function has made");
      }
      CHECK(log.deleted == int(log.fns.size()), "buffers have not been deleted once");
      return {{"fn", log.fns.empty() ? 0 : log.fns[0]}, {"sub", log.sub}};
    } else {
      throw std::logic_error("driver: unknown op " + op);
    }
    return "ok";
  }
  json observe(const json&) override {
    return {{"nothing", 0}};
  }
};
static const Register reg("Evolution", [] { return std::make_unique<EvolutionMachine>(); }, true);
