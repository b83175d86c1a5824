#include "store.h"
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
int main() {
  auto file = std::make_shared<File>();
  {
    podio::Frame f;
    ExampleHitCollection h1, h2;
    auto a = h1.create(), b = h2.create();
    a.energy(1);
    b.energy(2);
    ExampleClusterCollection cl;
    auto c = cl.create(), d = cl.create();
    c.addHits(a);
    c.addHits(b);
    d.addHits(b);
    f.put(std::move(h1), "h1");
    f.put(std::move(h2), "h2");
    f.put(std::move(cl), "cl");
    file->write<ExampleHitData>(f, "h1");
    file->write<ExampleHitData>(f, "h2");
    file->write<ExampleClusterData>(f, "cl");
  }
  auto f = readFrame(file, {"h2", "cl"});
  auto& cl = f.get<ExampleClusterCollection>("cl");
  CHECK(cl[0].Hits_size() == 2);
  CHECK(!cl[0].Hits(0).isAvailable());
  CHECK(cl[0].Hits(1).isAvailable() && cl[0].Hits(1).energy() == 2);
  CHECK(cl[1].Hits(0).isAvailable() && cl[1].Hits(0).energy() == 2);
}
