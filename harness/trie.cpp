// T01: the trie.
#include "sym.h"
#include <sim_ds/string_util/graph_util.hpp>
using sim_ds::graph_util::Trie;

struct Key { unsigned char b[4]; size_t n; std::string_view sv() const { return std::string_view((const char *)b, n); } };
static bool same(const Key &a, const Key &b) { if (a.n != b.n) return false; bool e = true; for (size_t i = 0; i < a.n; i++) e = e & (a.b[i] == b.b[i]); return e; }
static bool prefix(const Key &a, const Key &b, size_t l) { if (a.n < l || b.n < l) return false; bool e = true; for (size_t i = 0; i < l; i++) e = e & (a.b[i] == b.b[i]); return e; }
enum { ANY, QUERY, PICK2, PICK3 };
static void letters(Key &k, size_t n, int kind) { k.n = n; static const unsigned char A[3] = {'b', 'a', 0xff}; for (size_t i = 0; i < n; i++) k.b[i] = kind == QUERY ? sym_u8() : kind == ANY ? (unsigned char)sym_range(1, 255) : A[sym_pick(0, kind == PICK2 ? 1 : 2)]; }
template <class S> static void hist(size_t nk, size_t maxlen, int kind, size_t maxq) {
  STEPS(400000); Trie<uint64_t, S> t; std::vector<Key> ks; std::vector<uint64_t> vs;
  for (size_t j = 0; j < nk; j++) { Key k; letters(k, sym_pick(0, maxlen), kind); uint64_t v = sym_u64(); uint64_t *p = t.insert(k.sv(), v); ASSERT(p && *p == v, "insert returns the item it stored"); ks.push_back(k); vs.push_back(v); }
  // a query for any string
  Key q; letters(q, sym_pick(0, maxq), QUERY); uint64_t *r = t.traverse(q.sv());
  bool in = false; uint64_t want = 0; for (size_t j = 0; j < nk; j++) { bool e = same(ks[j], q); in = in | e; want = e ? vs[j] : want; }
  ASSERT((r != nullptr) == in, "traverse finds exactly the inserted keys"); if (r) ASSERT(*r == want, "traverse returns the item inserted last"); HIT(in, "found"); HIT(!in, "absent");
  // the walks: the number of nodes per depth is the number of distinct prefixes of that length plus the leaves of the keys one shorter
  size_t want_at[6] = {1, 0, 0, 0, 0, 0}, total = 1;
  for (size_t j = 0; j < nk; j++) for (size_t l = 1; l <= ks[j].n + 1; l++) { bool first = true; for (size_t i = 0; i < j; i++) first = first && !(l <= ks[j].n ? prefix(ks[i], ks[j], l) : same(ks[i], ks[j])); want_at[l] += first; total += first; }
  ASSERT(t.size() == total, "one node per distinct prefix and key");
  for (int walk = 0; walk < 2; walk++) {
    size_t at[6] = {}, seen = 0, leaves = 0; std::vector<const void *> nodes; bool inc = true; size_t last = 0, prev = 0; bool twice = false, step = true;
    auto act = [&](auto &n, size_t d) { seen++; if (d < 6) at[d]++; inc = inc && d >= last; last = d; step = step && d <= prev + 1; prev = d; for (auto p : nodes) twice = twice || p == (const void *)&n; nodes.push_back(&n); leaves += n.terminal(); };
    if (walk) t.bfs(act); else t.dfs(act);
    bool ok = seen == total; for (size_t d = 0; d < 6; d++) ok = ok && at[d] == want_at[d];
    ASSERT(ok && !twice, "the walk visits every node once, with its depth"); ASSERT(walk ? inc : step, "bfs visits by depth, dfs descends one step at a time");
    size_t distinct = 0; for (size_t j = 0; j < nk; j++) { bool first = true; for (size_t i = 0; i < j; i++) first = first && !same(ks[i], ks[j]); distinct += first; }
    ASSERT(leaves == distinct, "exactly the distinct keys are leaves");
  }
}
ENTRY(T01_one, "1 key of 0..3 non-NUL bytes, any item; any query of 0..4 bytes") { EXPECT("found"); EXPECT("absent"); hist<size_t>(1, 3, ANY, 4); }
ENTRY(T01_two, "2 keys of 0..2 non-NUL bytes, any items; any query of 0..3 (thorough 4) bytes") { EXPECT("found"); EXPECT("absent"); hist<size_t>(2, 2, ANY, TIER(3, 4)); }
ENTRY(T01_three, "3 keys of 0..1 non-NUL bytes, any items; any query of 0..2 (thorough 3) bytes") { EXPECT("found"); EXPECT("absent"); hist<size_t>(3, 1, ANY, TIER(2, 3)); }
ENTRY(T01_four, "4 keys of 0..1 non-NUL bytes, any items; any query of 0..1 (thorough 2) bytes") { EXPECT("found"); EXPECT("absent"); hist<size_t>(4, 1, ANY, TIER(1, 2)); }
ENTRY(T01_words, "3 insertions of words of 0..2 letters of {a, b} (thorough {a, b, 0xff}); any query of 0..2 (thorough 1) bytes") { EXPECT("found"); EXPECT("absent"); hist<size_t>(3, 2, TIER(PICK2, PICK3), TIER(2, 1)); }
ENTRY(T01_u32, "32-bit indices: 2 keys of 0..2 letters of {a, b, 0xff}; any query of 0..2 bytes") { EXPECT("found"); EXPECT("absent"); hist<uint32_t>(2, 2, PICK3, 2); }
// large tries: fixed words in fixed orders, some inserted twice; the query is a word with one byte symbolic
static uint64_t mix(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 29); }
static std::string word(size_t i, size_t kind) { uint64_t x = mix(i) >> 8; std::string w; if (kind == 0) { for (size_t l = 1 + x % 3; l-- > 0;) w += (char)(1 + (x = mix(x)) % 255); } else if (kind == 1) { for (size_t l = x % 14; l-- > 0;) w += "ab"[(x = mix(x)) >> 9 & 1]; } else if (kind == 2) { w = (char)(1 + i % 255); if (i >= 255) w += (char)(1 + (i / 255 + i) % 255); } else w = std::string(i % 600, 'x') + (char)(1 + i % 3); return w; }
template <class S> static void largeTrie(size_t n, size_t kind) { STEPS(200000000);
  Trie<uint64_t, S> t; std::map<std::string, uint64_t> r; for (size_t k = 0; k < n; k++) { std::string w = word(mix(k) % n, kind); uint64_t v = mix(k + 5); uint64_t *p = t.insert(w, v); ASSERT(p && *p == v, "insert returns the item it stored"); r[w] = v; }
  bool all = true; for (auto &e : r) { uint64_t *p = t.traverse(e.first); all = all && p && *p == e.second; } ASSERT(all, "traverse finds every key with the item inserted last");
  std::set<std::string> nodes; size_t total = 1; for (auto &e : r) { for (size_t l = 1; l <= e.first.size(); l++) total += kind == 3 ? 0 : nodes.insert(e.first.substr(0, l)).second; total++; } if (kind != 3) ASSERT(t.size() == total, "one node per distinct prefix and key");
  for (int walk = 0; walk < 2; walk++) { size_t seen = 0, leaves = 0, prev = 0; bool order = true; auto act = [&](auto &x, size_t d) { seen++; leaves += x.terminal(); order = order && (walk ? d >= prev && d <= prev + 1 : d <= prev + 1); prev = d; }; if (walk) t.bfs(act); else t.dfs(act); ASSERT(seen == t.size() && leaves == r.size() && order, "the walks visit every node once in order; exactly the distinct keys are leaves"); }
  size_t which = sym_pick(0, 2); auto it = r.begin(); for (size_t k = 0; k < which * (r.size() - 1) / 2; k++) ++it; std::string q = it->first; size_t at = sym_pick(0, 1) ? q.size() - 1 : 0; if (q.empty()) { q = "x"; at = 0; } uint8_t c = sym_u8();
  bool in = false; uint64_t want = 0; for (int k = 1; k < 256; k++) { q[at] = (char)k; auto f = r.find(q); if (f == r.end()) continue; bool e = c == k; in = in | e; want = e ? f->second : want; }
  q[at] = (char)c; uint64_t *p = t.traverse(q); ASSERT((p != nullptr) == in, "traverse finds exactly the inserted keys"); if (p) ASSERT(*p == want, "traverse returns the item inserted last"); HIT(in, "found"); HIT(!in, "absent");
}
#define LT " insertions of up to 3 any bytes, up to 13 letters of {a, b}, 1..2 bytes over all 255, or up to 600 equal letters, in fixed orders with repetitions; a query that differs from a key in any one byte"
ENTRY(T01_large, "30 and 300 (thorough 3000)" LT) { EXPECT("found"); EXPECT("absent"); size_t kind = sym_pick(0, 3); largeTrie<size_t>(sym_pick(0, 1) ? TIER(300, 3000) : 30, kind); }
ENTRY(T01_large_u32, "32-bit indices: 300" LT) { EXPECT("found"); EXPECT("absent"); size_t kind = sym_pick(0, 3); largeTrie<uint32_t>(300, kind); }

// ---- T02: walking from node to node
template <class S> static void navigate(size_t nk, size_t maxlen, int kind) { STEPS(400000);
  Trie<uint64_t, S> t; std::vector<Key> ks; for (size_t j = 0; j < nk; j++) { Key k; letters(k, sym_pick(0, maxlen), kind); t.insert(k.sv(), j); ks.push_back(k); } ASSERT(&t.root() == &t.node(0), "the root is node 0");
  Key q; letters(q, sym_pick(0, maxlen + 1), QUERY); size_t at = 0, l = 0; for (; l < q.n; l++) { size_t to = t.node(at).target(q.b[l]); if (to == 0) break; ASSERT(to < t.size(), "a target is a node"); if (q.b[l] == 0) { ASSERT(t.node(to).terminal(), "the edge 0 leads to a leaf"); l = q.n + 1; break; } ASSERT(!t.node(to).terminal(), "no other edge does"); at = to; }
  if (l > q.n) return; bool edge = false; for (auto &k : ks) { bool p = prefix(k, q, l); if (l < q.n) p = p & (k.n > l ? k.b[l] == q.b[l] : k.n == l && q.b[l] == 0); edge = edge | p; } if (l < q.n) ASSERT(!edge, "an edge that is missing belongs to no key"); else { ASSERT(nk == 0 || edge || q.n == 0, "the path spells a prefix of a key"); bool whole = false; for (auto &k : ks) whole = whole | same(k, q); ASSERT((t.node(at).target(0) != 0) == whole, "the edge 0 is there exactly for keys"); HIT(whole, "key"); }
  HIT(l < q.n, "stopped"); size_t last = 0; bool first = true, inc = true, tgt = true; t.node(at).for_each_edge([&](auto c, auto to) { inc = inc & (first || (size_t)c > last); last = c; first = false; tgt = tgt & (t.node(at).target(c) == to) & (to != 0); }); ASSERT(inc, "edges in increasing order of their labels"); ASSERT(tgt, "with their targets");
}
ENTRY(T02_one, "1 key of 0..2 non-NUL bytes, any path of 0..3 bytes") { EXPECT("key"); EXPECT("stopped"); navigate<size_t>(1, 2, ANY); }
ENTRY(T02_two, "2 keys of 0..1 non-NUL bytes, any path of 0..2 bytes") { EXPECT("key"); EXPECT("stopped"); navigate<size_t>(2, 1, ANY); }
ENTRY(T02_three, "3 words of 0..1 letters of {a, b, 0xff}, any path of 0..2 bytes") { EXPECT("key"); EXPECT("stopped"); navigate<size_t>(3, 1, PICK3); }
ENTRY(T02_words, "2 (thorough 3) words of 0..2 letters of {a, b}, any path of 0..3 bytes") { EXPECT("key"); EXPECT("stopped"); navigate<uint32_t>(TIER(2, 3), 2, PICK2); }
