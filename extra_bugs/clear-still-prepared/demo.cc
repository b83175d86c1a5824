#include "store.h"
#include "datamodel/ExampleHitCollection.h"
int main() {
  auto file = std::make_shared<File>();
  ExampleHitCollection hits;
  hits.create().energy(1);
  hits.prepareForWrite();
  hits.clear();
  hits.create().energy(2);
  hits.create().energy(3);
  podio::Frame f;
  f.put(std::move(hits), "hits");
  file->write<ExampleHitData>(f, "hits");
  auto r = readFrame(file);
  auto& h = r.get<ExampleHitCollection>("hits");
  CHECK(h.size() == 2);
  CHECK(h[0].energy() == 2 && h[1].energy() == 3);
}
