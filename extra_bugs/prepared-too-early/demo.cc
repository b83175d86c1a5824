#include "store.h"
#include "datamodel/ExampleClusterCollection.h"
#include "datamodel/ExampleHitCollection.h"
int main() {
  auto file = std::make_shared<File>();
  podio::Frame f;
  MutableExampleHit h;
  h.energy(3);
  ExampleClusterCollection cl;
  cl.create().addHits(h);
  f.put(std::move(cl), "cl");
  bool refused = false;
  try {
    f.getCollectionForWrite("cl");
  } catch (const std::runtime_error&) {
    refused = true;
  }
  CHECK(refused);
  ExampleHitCollection hits;
  hits.push_back(h);
  f.put(std::move(hits), "hits");
  file->write<ExampleHitData>(f, "hits");
  file->write<ExampleClusterData>(f, "cl");
  auto r = readFrame(file);
  auto& c = r.get<ExampleClusterCollection>("cl");
  CHECK(c.size() == 1);
  CHECK(c[0].Hits_size() == 1);
  CHECK(file->colls["cl"].refs[0].size() == 1);
  CHECK(c[0].Hits(0).energy() == 3);
}
