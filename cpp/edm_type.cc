// The operations on one type, compiled once for each of them
#include "edm_ops.h"
using Types = std::tuple<Hit, Node, ns::Item, Holder, One, Many, Vec, HNLink, NNLink, NELink>;
#define CAT_(A, B) A##B
#define CAT(A, B) CAT_(A, B)
Ops* CAT(ops, TYPE)() {
  static OpsT<std::tuple_element_t<TYPE, Types>> o;
  return &o;
}
