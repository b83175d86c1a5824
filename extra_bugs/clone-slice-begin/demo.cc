#include "store.h"
#include "datamodel/ExampleWithVectorMemberCollection.h"
int main() {
  auto file = std::make_shared<File>();
  {
    podio::Frame f;
    ExampleWithVectorMemberCollection c;
    auto a = c.create(), b = c.create();
    a.addcount(1);
    b.addcount(2);
    b.addcount(3);
    f.put(std::move(c), "c");
    file->write<ExampleWithVectorMemberData, int>(f, "c");
  }
  auto f = readFrame(file);
  auto& c = f.get<ExampleWithVectorMemberCollection>("c");
  auto x = c[1].clone();
  CHECK(x.count_size() == 2);
  CHECK(x.count(0) == 2 && x.count(1) == 3);
  x.addcount(4);
  CHECK(x.count_size() == 3 && x.count(2) == 4);
}
