// F2: CreateFromSiblingWiseXOR accepted keys.size() != arity and too many rows, then indexed out of bounds.
// F13: Create with a negative arity threw std::length_error.   (F14 needs a level of more than 2^31 nodes; not run.)
#include "distributed_vector_ole/ggm_tree.cpp"
#include <cstdio>
using namespace distributed_vector_ole;
int main() {
  int bad = 0;
  try {
    if (GGMTree::Create(-1, 4, 7).ok()) bad = 1;
  } catch (const std::exception& e) { printf("Create(-1, 4, 7) threw %s\n", e.what()); bad = 1; }
  auto t = GGMTree::Create(3, 9, 7).ValueOrDie();
  auto x = t->GetSiblingWiseXOR();
  std::vector<GGMTree::Block> k(t->keys().begin(), t->keys().end());
  auto x2 = x; x2.push_back(x.back());
  if (GGMTree::CreateFromSiblingWiseXOR(3, 9, 0, x2, k).ok()) { printf("one row too many accepted\n"); bad = 1; }
  k.pop_back();
  if (GGMTree::CreateFromSiblingWiseXOR(3, 9, 0, x, k).ok()) { printf("two keys for arity 3 accepted\n"); bad = 1; }
  return bad;
}
