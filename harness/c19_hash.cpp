// Hash table: a map for any hash function that agrees with key equality. Keys are arbitrary 8-bit values; each
// distinct key has an arbitrary hash (8 chosen bits of 64, spread so that they matter at different table sizes).
#include <vs.h>
#include <mathic/HashTable.h>
#include <vector>
static const unsigned MaxK = 128;
struct Key { uint32_t value; uint64_t hash; };
struct Val { uint32_t v; };
struct HConf { typedef ::Key Key; typedef Val Value;
  size_t hash(const Key& k) const { return (size_t)k.hash; }
  bool keysEqual(const Key& a, const Key& b) const { return a.value == b.value; } };
typedef mathic::HashTable<HConf> T; typedef T::Handle H;
struct Model { unsigned n; ::Key key[MaxK]; uint32_t val[MaxK]; bool held[MaxK]; H* handle[MaxK]; unsigned made; ::Key all[MaxK];
  Model() : n(0), made(0) {}
  ::Key fresh() { ::Key k; k.value = (uint32_t)vs_sym("key", 8); unsigned bits = vs_param("HB", 3); uint64_t h = vs_sym("hash", bits);
    static const unsigned place[5] = {0, 1, 63, 3, 5}; k.hash = 0; for (unsigned i = 0; i < bits; ++i) k.hash |= (h >> i & 1) << place[i];
    for (unsigned i = 0; i < made; ++i) vs_assume((all[i].value != k.value) | (all[i].hash == k.hash)); all[made++] = k; return k; }
  bool has(const ::Key& k) const { bool r = false; for (unsigned i = 0; i < n; ++i) r = r | (held[i] & (key[i].value == k.value)); return r; } };
static void lookupAll(T& t, Model& m) { for (unsigned i = 0; i < m.n; ++i) if (m.held[i]) { H* h = t.lookup(m.key[i]); vs_assert(h == m.handle[i], "a present key is found under its own handle"); vs_assert((h->key().value == m.key[i].value) & (h->value().v == m.val[i]), "the handle keeps its key and value"); } }
static void insertKey(T& t, Model& m, const ::Key& k) { Val v; v.v = (uint32_t)vs_sym("value", 16); bool had = m.has(k); std::pair<bool, H*> r = t.insert(k, v);
  vs_assert(r.first == !had, "insert tells whether the key is new"); vs_assert(r.second != 0, "insert returns a handle"); vs_assert(r.second->key().value == k.value, "insert returns the handle of its key");
  if (r.first) { for (unsigned i = 0; i < m.n; ++i) if (m.held[i]) vs_assert(m.handle[i] != r.second, "a new key gets its own handle"); m.key[m.n] = k; m.val[m.n] = v.v; m.held[m.n] = true; m.handle[m.n] = r.second; ++m.n; vs_assert(r.second->value().v == v.v, "the value inserted is stored"); vs_out(1); }
  else { bool own = false; for (unsigned i = 0; i < m.n; ++i) own = own | (m.held[i] & (m.handle[i] == r.second) & (m.key[i].value == k.value)); vs_assert(own, "inserting a present key returns its handle"); vs_out(0); } }
static void lookupKey(T& t, Model& m, const ::Key& k) { H* h = t.lookup(k); bool had = m.has(k); vs_assert((h != 0) == had, "a key is found if and only if it is held"); if (h) { bool own = false; for (unsigned i = 0; i < m.n; ++i) own = own | (m.held[i] & (m.handle[i] == h) & (m.key[i].value == k.value)); vs_assert(own, "lookup returns the handle of its key"); vs_out(h->value().v); } else vs_out(77777); }
static void run(T& t, Model& m) {
  unsigned N = vs_param("N", 0); for (unsigned i = 0; i < N; ++i) { ::Key k; k.value = 1000 + i; k.hash = i * vs_param("STEP", 5); Val v; v.v = i; std::pair<bool, H*> r = t.insert(k, v); vs_assert(r.first, "insert tells whether the key is new"); m.all[m.made++] = k; m.key[m.n] = k; m.val[m.n] = i; m.held[m.n] = true; m.handle[m.n++] = r.second; }
  unsigned K = vs_param("K", 2), OPS = vs_param("OPS", 1); unsigned long kinds = vs_param("KINDS", 15);
  for (unsigned i = 0; i < K; ++i) insertKey(t, m, m.fresh());
  for (unsigned i = 0; i < OPS; ++i) { unsigned ks[6], nk = 0; for (unsigned j = 0; j < 6; ++j) if (kinds >> j & 1) ks[nk++] = j;
    unsigned any[MaxK], na = 0; for (unsigned j = 0; j < m.n; ++j) if (m.held[j]) any[na++] = j;
    unsigned op = ks[vs_choice("op", nk)];
    if (op == 0) insertKey(t, m, m.fresh());
    else if (op == 1) lookupKey(t, m, m.fresh());
    else if (op == 2) { if (!na) continue; unsigned x = any[vs_choice("which", na)]; m.handle[x]->value().v = m.val[x] = (uint32_t)vs_sym("value", 16); }
    else if (op == 3) { if (!na) continue; unsigned x = any[vs_choice("which", na)]; H* h = m.handle[x]; t.remove(h); m.held[x] = false; }
    else if (op == 5) { t.hardReset(); for (unsigned j = 0; j < m.n; ++j) m.held[j] = false; m.n = 0; }
    else { for (unsigned j = 0; j < m.n; ++j) if (m.held[j]) { H* h = m.handle[j]; t.remove(h); m.held[j] = false; } t.reset(); m.n = 0; }
    lookupAll(t, m); }
  lookupAll(t, m); lookupKey(t, m, m.fresh()); vs_cover("end"); }
VS_HARNESS(hash_map) { HConf c; T t(c, (unsigned)vs_param("NBITS", 0)); Model m; run(t, m); }
