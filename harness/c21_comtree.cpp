// Complete binary tree: index arithmetic for every node, storage, and element operations.
#include <vs.h>
#include <mathic/ComTree.h>
#include <vector>
template<unsigned S> struct Ent { unsigned char b[S]; };
template<class E> static E val(uint64_t v) { E e; for (unsigned i = 0; i < sizeof(E); ++i) e.b[i] = (unsigned char)(v >> (8 * (i % 4))); return e; }
template<class E> static bool eq(const E& a, uint64_t v) { bool r = true; for (unsigned i = 0; i < sizeof(E); ++i) r = r & (a.b[i] == (unsigned char)(v >> (8 * (i % 4)))); return r; }
template<unsigned S, bool F> struct A { typedef Ent<S> E; typedef mathic::ComTree<E, F> T; typedef typename T::Node Node;
  static Node at(uint64_t k) { return Node().next(k - 1); } // node number k, the root being 1
  static void arith() {
    uint64_t k = vs_range("node", 1, ((uint64_t)1 << vs_param("BITS", 40)) - 1); Node n = at(k);
    vs_assert(n.left() == at(2 * k), "the left child of node k is node 2k"); vs_assert(n.right() == at(2 * k + 1), "the right child of node k is node 2k+1");
    vs_assert((n.left().parent() == n) & (n.right().parent() == n), "the parent of a child is the node"); vs_assert(n.left().sibling() == n.right(), "the sibling of the left child is the right child"); vs_assert(n.right().sibling() == n.left(), "the sibling of the right child is the left child");
    vs_assert((n.left().leftSibling() == n.left()) & (n.right().leftSibling() == n.left()), "the left sibling of a child is the left child");
    vs_assert((n.left().isLeft() != 0) & (n.left().isRight() == 0) & (n.right().isRight() != 0) & (n.right().isLeft() == 0), "left and right children know their side");
    vs_assert((n.next().prev() == n) & (n.next() == at(k + 1)) & (n.left().next() == n.right()), "next and previous are inverse"); Node i = n; ++i; vs_assert(i == n.next(), "incrementing moves to the next node");
    vs_assert(n.isRoot() == (k == 1), "only the first node is the root"); bool odd = (k & 1) != 0; vs_assert(((n.isRight() != 0) == odd) & ((n.isLeft() != 0) == !odd), "odd nodes are right children");
    vs_assert((k == 1) | (n.parent() == at(k == 1 ? 1 : k / 2)), "the parent of node k is node k/2");
    uint64_t j = vs_range("other", 1, ((uint64_t)1 << vs_param("BITS", 40)) - 1); Node m = at(j);
    vs_assert(((n < m) == (k < j)) & ((n <= m) == (k <= j)) & ((n > m) == (k > j)) & ((n >= m) == (k >= j)) & ((n == m) == (k == j)) & ((n != m) == (k != j)), "nodes are ordered by their number");
    vs_cover("end"); }
  static void storage() { unsigned cap = vs_param("CAP", 20); T t(cap); vs_assert((t.capacity() == cap) & t.empty() & (t.size() == 0), "a new tree is empty and has the capacity asked for");
    for (unsigned i = 0; i < cap; ++i) { vs_assert(t.hasFreeCapacity(cap - i) & !t.hasFreeCapacity(cap - i + 1), "free capacity is what is left"); t.pushBackWithCapacity(val<E>(i)); }
    unsigned b = 1; while (cap >> b) ++b; uint64_t k = vs_sym("node", b); vs_assume((k >= 1) & (k <= cap)); E* base = &t[Node()]; const T& ct = t;
    vs_assert((uintptr_t)&t[at(k)] == (uintptr_t)base + (k - 1) * S, "node k is the k-th element of the array"); vs_assert(&ct[at(k)] == &t[at(k)], "const access reaches the same element");
    uint64_t j = vs_sym("other", b); vs_assume((j >= 1) & (j <= cap)); uint64_t v = vs_sym("value", 8); t[at(k)] = val<E>(v); vs_assert(eq(t[at(j)], j == k ? v : j - 1), "writing one node changes another"); vs_cover("end"); }
  static void same(const T& t, const std::vector<uint64_t>& m) { vs_assert((t.size() == m.size()) & (t.empty() == m.empty()), "size and empty are wrong"); vs_assert(t.capacity() >= m.size(), "more elements than capacity"); bool r = true; for (unsigned i = 0; i < m.size(); ++i) r = r & eq(t[at(i + 1)], m[i]); vs_assert(r, "elements differ from what was stored"); if (m.size()) vs_assert(t.lastLeaf() == at(m.size()), "the last leaf is the last element"); vs_assert(t.hasFreeCapacity(t.capacity() - t.size()) & !t.hasFreeCapacity(t.capacity() - t.size() + 1), "free capacity is what is left"); vs_out(t.size()); }
  static void ops() { T t((size_t)vs_param("CAP", 0)); std::vector<uint64_t> m; unsigned N = vs_param("N", 0); for (unsigned i = 0; i < N; ++i) { t.pushBack(val<E>(i * 37)); m.push_back(i * 37); }
    for (unsigned i = 0; i < (unsigned)vs_param("K", 2); ++i) { uint64_t v = vs_sym("value", 32); t.pushBack(val<E>(v)); m.push_back(v); } same(t, m);
    for (unsigned i = 0; i < (unsigned)vs_param("OPS", 2); ++i) {
      switch (vs_choice("op", 8)) {
      case 0: { uint64_t v = vs_sym("value", 32); t.pushBack(val<E>(v)); m.push_back(v); break; }
      case 1: if (m.empty()) break; t.popBack(); m.pop_back(); break;
      case 2: { size_t c = t.capacity(); t.increaseCapacity(); vs_assert(t.capacity() > c, "increasing the capacity does not"); break; }
      case 3: { size_t want = vs_choice("min", 2) ? m.size() + 3 : 0; T c(t, want); same(c, m); vs_assert(c.capacity() >= want, "a copy has less capacity than asked for"); uint64_t v = vs_sym("value", 32); c.pushBack(val<E>(v)); if (m.size()) c[Node()] = val<E>(v); same(t, m); break; }
      case 4: { T c(std::move(t)); same(c, m); vs_assert(t.empty() & (t.size() == 0), "a tree moved from is empty"); t.pushBack(val<E>(5)); vs_assert(t.size() == 1 && eq(t[Node()], 5), "a tree moved from is not usable"); same(c, m); t.swap(c); same(t, m); vs_assert(c.size() == 1 && eq(c[Node()], 5), "swapping loses the other tree"); break; }
      case 5: { T c; uint64_t v = vs_sym("value", 32); c.pushBack(val<E>(v)); c.swap(t); same(c, m); vs_assert(t.size() == 1 && eq(t[Node()], v), "swapping loses the other tree"); t.swap(c); same(t, m); break; }
      case 6: { size_t c = t.capacity(); t.clear(); m.clear(); vs_assert(t.capacity() == c, "clearing gives up capacity"); break; }
      case 7: { if (m.empty()) break; unsigned x = vs_choice("which", (unsigned)m.size()); uint64_t v = vs_sym("value", 32); t[at(x + 1)] = val<E>(v); m[x] = v; break; } }
      same(t, m); }
    vs_assert(t.getMemoryUse() == t.capacity() * S, "memory use differs from the capacity"); vs_cover("end"); } };
#define EACH(what) switch (vs_choice("layout", 9)) { case 0: A<1, true>::what(); break; case 1: A<4, true>::what(); break; case 2: A<8, true>::what(); break; case 3: A<64, true>::what(); break; case 4: A<1, false>::what(); break; case 5: A<3, false>::what(); break; case 6: A<8, false>::what(); break; case 7: A<24, false>::what(); break; case 8: A<2, true>::what(); break; }
VS_HARNESS(tree_arith) { EACH(arith) }
VS_HARNESS(tree_storage) { EACH(storage) }
VS_HARNESS(tree_ops) { switch (vs_choice("layout", 3)) { case 0: A<8, true>::ops(); break; case 1: A<8, false>::ops(); break; case 2: A<12, false>::ops(); break; } }
