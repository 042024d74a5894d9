#include <tuple>
// rrv: decision procedures for rational relations (finite-state transducers).
//
// The back end of the relational Hoare logic of /verif (see DESIGN.md): it
// receives the transducers that the real code built as plain arc lists, and
// decides inclusion, emptiness, functionality and equivalence over ALL strings.
// It shares no code with OpenFst/Pynini. Labels are ints, 0 is epsilon.
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <deque>
#include <map>
#include <queue>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef int32_t I;
typedef std::vector<I> V;
static const float INF = 1e30f;

struct Arc { I il, ol, to; float w; };
struct Fst {
  I start = -1;
  std::vector<std::vector<Arc>> a;
  std::vector<float> fin;  // INF: not final
  I add() { a.emplace_back(); fin.push_back(INF); return (I)a.size() - 1; }
  I n() const { return (I)a.size(); }
};

static std::vector<Fst*> H;
static int put(Fst* f) { H.push_back(f); return (int)H.size() - 1; }
static V W1, W2, W3;   // witness: input, output 1, output 2
static std::string MSG;
static int64_t LIMIT = 60000000;  // explored states; beyond it: undecided (-2)
static int64_t EXPLORED = 0, NSETS = 0;

struct VH { size_t operator()(const V& v) const {
  uint64_t h = 1469598103934665603ull;
  for (I x : v) { h ^= (uint32_t)x; h *= 1099511628211ull; h ^= h >> 29; }
  return h; } };

static void coacc(const Fst& f, std::vector<char>& co) {
  I n = f.n();
  std::vector<I> cnt(n + 1, 0);
  for (I s = 0; s < n; s++) for (auto& x : f.a[s]) cnt[x.to + 1]++;
  for (I s = 0; s < n; s++) cnt[s + 1] += cnt[s];
  std::vector<I> pos(cnt.begin(), cnt.end() - 1), src(cnt[n]);
  for (I s = 0; s < n; s++) for (auto& x : f.a[s]) src[pos[x.to]++] = s;
  co.assign(n, 0);
  std::vector<I> st;
  for (I s = 0; s < n; s++) if (f.fin[s] < INF) { co[s] = 1; st.push_back(s); }
  while (!st.empty()) {
    I s = st.back(); st.pop_back();
    for (I i = cnt[s]; i < (I)cnt[s + 1]; i++)
      if (!co[src[i]]) { co[src[i]] = 1; st.push_back(src[i]); }
  }
}

static Fst* trim(const Fst& f) {
  Fst* r = new Fst;
  if (f.start < 0) return r;
  std::vector<char> co; coacc(f, co);
  if (!co[f.start]) return r;
  std::vector<I> id(f.n(), -1);
  std::vector<I> q{f.start};
  id[f.start] = r->add();
  for (size_t i = 0; i < q.size(); i++)
    for (auto& x : f.a[q[i]])
      if (co[x.to] && id[x.to] < 0) { id[x.to] = r->add(); q.push_back(x.to); }
  for (I s : q) {
    r->fin[id[s]] = f.fin[s];
    for (auto& x : f.a[s]) if (co[x.to])
      r->a[id[s]].push_back({x.il, x.ol, id[x.to], x.w});
  }
  r->start = 0;
  return r;
}

static inline uint64_t pk(I a, I b) { return ((uint64_t)(uint32_t)a << 32) | (uint32_t)b; }

static Fst* compose(const Fst& A, const Fst& B) {
  // Set (and tropical) semantics: redundant epsilon paths are harmless.
  Fst* r = new Fst;
  if (A.start < 0 || B.start < 0) return r;
  std::vector<std::vector<Arc>> bs(B.n());
  for (I s = 0; s < B.n(); s++) { bs[s] = B.a[s];
    std::sort(bs[s].begin(), bs[s].end(), [](const Arc& x, const Arc& y) { return x.il < y.il; }); }
  // state: (p, q, m): m=1 after B moved alone on epsilon (A may not then move alone)
  std::unordered_map<uint64_t, I> id[2];
  std::vector<std::pair<uint64_t, int>> q;
  auto get = [&](I p, I s, int m) {
    auto it = id[m].find(pk(p, s));
    if (it != id[m].end()) return it->second;
    I k = r->add(); id[m][pk(p, s)] = k; q.push_back({pk(p, s), m});
    return k; };
  r->start = get(A.start, B.start, 0);
  for (size_t i = 0; i < q.size(); i++) {
    I p = q[i].first >> 32, s = (I)(uint32_t)q[i].first; int m = q[i].second; I me = (I)i;
    if (A.fin[p] < INF && B.fin[s] < INF) r->fin[me] = A.fin[p] + B.fin[s];
    for (auto& x : A.a[p]) {
      if (x.ol == 0) {
        if (m == 0) { I t = get(x.to, s, 0); r->a[me].push_back({x.il, 0, t, x.w}); }
      } else {
        auto lo = std::lower_bound(bs[s].begin(), bs[s].end(), x.ol,
            [](const Arc& y, I l) { return y.il < l; });
        for (; lo != bs[s].end() && lo->il == x.ol; ++lo) {
          I t = get(x.to, lo->to, 0); r->a[me].push_back({x.il, lo->ol, t, x.w + lo->w}); }
      }
    }
    for (auto& y : bs[s]) { if (y.il) break;
      I t = get(p, y.to, 1); r->a[me].push_back({0, y.ol, t, y.w}); }
  }
  Fst* t = trim(*r); delete r; return t;
}

// Epsilon closure over input-epsilon arcs.
static std::vector<I> STAMP; static I STAMPNOW = 0;
static void eclose(const Fst& f, V& s) {
  if ((I)STAMP.size() < f.n()) STAMP.resize(f.n(), 0);
  if (++STAMPNOW == INT32_MAX) { std::fill(STAMP.begin(), STAMP.end(), 0); STAMPNOW = 1; }
  size_t k = 0;
  for (size_t i = 0; i < s.size(); i++) if (STAMP[s[i]] != STAMPNOW) { STAMP[s[i]] = STAMPNOW; s[k++] = s[i]; }
  s.resize(k);
  for (size_t i = 0; i < s.size(); i++)
    for (auto& x : f.a[s[i]]) if (x.il == 0 && STAMP[x.to] != STAMPNOW) { STAMP[x.to] = STAMPNOW; s.push_back(x.to); }
  std::sort(s.begin(), s.end());
}
static bool anyfin(const Fst& f, const V& s) {
  for (I x : s) if (f.fin[x] < INF) return true;
  return false;
}
static void steps(const Fst& f, const V& s, std::vector<std::pair<I, V>>& out) {
  static std::vector<std::pair<I, I>> t; t.clear(); out.clear();
  for (I q : s) for (auto& x : f.a[q]) if (x.il) t.push_back({x.il, x.to});
  std::sort(t.begin(), t.end());
  for (size_t i = 0; i < t.size(); i++) {
    if (!i || t[i].first != t[i - 1].first) out.push_back({t[i].first, V()});
    else if (t[i].second == t[i - 1].second) continue;
    out.back().second.push_back(t[i].second); }
  for (auto& kv : out) eclose(f, kv.second);
}

// Determinizes the input language. Result is trimmed only if asked.
static Fst* det(const Fst& f) {
  Fst* r = new Fst;
  if (f.start < 0) return r;
  std::unordered_map<V, I, VH> id; std::vector<V> q;
  auto get = [&](V& s) { auto it = id.find(s); if (it != id.end()) return it->second;
    I k = r->add(); id[s] = k; q.push_back(s); r->fin[k] = anyfin(f, s) ? 0 : INF; return k; };
  V s0{f.start}; eclose(f, s0); r->start = get(s0);
  for (size_t i = 0; i < q.size(); i++) {
    if ((int64_t)q.size() > LIMIT) { delete r; return nullptr; }
    std::vector<std::pair<I, V>> o; V cur = q[i]; steps(f, cur, o);
    for (auto& kv : o) { I t = get(kv.second); r->a[i].push_back({kv.first, kv.first, t, 0}); }
  }
  return r;
}

// Moore/Hopcroft-like minimization of a deterministic acceptor (partition refinement).
static Fst* minimize(const Fst& f0) {
  Fst* f = trim(f0);
  I n = f->n(); if (!n) return f;
  for (I s = 0; s < n; s++) std::sort(f->a[s].begin(), f->a[s].end(), [](const Arc& x, const Arc& y) { return x.il < y.il; });
  std::vector<I> cls(n); for (I s = 0; s < n; s++) cls[s] = f->fin[s] < INF;
  size_t k = 0;
  while (true) {
    std::unordered_map<V, I, VH> m; std::vector<I> nc(n);
    for (I s = 0; s < n; s++) { V key{cls[s]}; for (auto& x : f->a[s]) { key.push_back(x.il); key.push_back(cls[x.to]); }
      auto it = m.emplace(key, (I)m.size()).first; nc[s] = it->second; }
    cls = nc; if (m.size() == k) break; k = m.size();
  }
  Fst* r = new Fst; for (size_t i = 0; i < k; i++) r->add();
  std::vector<char> done(k, 0);
  for (I s = 0; s < n; s++) if (!done[cls[s]]) { done[cls[s]] = 1; r->fin[cls[s]] = f->fin[s];
    for (auto& x : f->a[s]) r->a[cls[s]].push_back({x.il, x.il, cls[x.to], 0}); }
  r->start = cls[f->start]; delete f; return r;
}

// L(A) ⊆ L(B) (input sides). A: any; B: any (subset construction on the fly).
// 1 yes; 0 no (W1 = shortest witness); -2 undecided.
static int incl(const Fst& A, const Fst& B) {
  EXPLORED = 0;
  if (A.start < 0) return 1;
  std::vector<char> co; coacc(A, co);
  if (!co[A.start]) return 1;
  std::unordered_map<V, I, VH> sid; std::vector<V> sets; std::vector<std::vector<std::pair<I, I>>> memo; std::vector<char> sf;
  auto gs = [&](V& s) { auto it = sid.find(s); if (it != sid.end()) return it->second;
    I k = (I)sets.size(); sid[s] = k; sets.push_back(s); memo.emplace_back(); sf.push_back(anyfin(B, s)); return k; };
  V b0; if (B.start >= 0) { b0.push_back(B.start); eclose(B, b0); }
  std::vector<char> ex;  // expanded?
  auto step = [&](I k, I l) { if ((size_t)k >= ex.size()) ex.resize(sets.size(), 0);
    if (!ex[k]) { ex[k] = 1; std::vector<std::pair<I, V>> o; V cur = sets[k]; steps(B, cur, o);
      for (auto& kv : o) { I t = gs(kv.second); memo[k].push_back({kv.first, t}); } ex.resize(std::max(ex.size(), sets.size()), 0); }
    auto it = std::lower_bound(memo[k].begin(), memo[k].end(), std::make_pair(l, (I)-1)); if (it != memo[k].end() && it->first == l) return it->second; V e; return gs(e); };
  struct N { I p, k, par, l; };
  std::vector<N> q; std::unordered_map<uint64_t, char> seen;
  // 0-1 BFS by string length
  std::deque<I> dq;
  auto push = [&](I p, I k, I par, I l) { if (!co[p]) return; auto r = seen.emplace(pk(p, k), 1); if (!r.second) return;
    q.push_back({p, k, par, l}); if (l) dq.push_back((I)q.size() - 1); else dq.push_front((I)q.size() - 1); };
  push(A.start, gs(b0), -1, 0);
  while (!dq.empty()) {
    I i = dq.front(); dq.pop_front(); N c = q[i];
    if ((int64_t)q.size() > LIMIT || (int64_t)sets.size() > LIMIT / 10) return -2;
    if (A.fin[c.p] < INF && !sf[c.k]) {
      W1.clear(); for (I j = i; j >= 0; j = q[j].par) if (q[j].l) W1.push_back(q[j].l);
      std::reverse(W1.begin(), W1.end()); EXPLORED = q.size(); return 0; }
    for (auto& x : A.a[c.p]) { if (!co[x.to]) continue;
      if (x.il == 0) push(x.to, c.k, i, 0); else push(x.to, step(c.k, x.il), i, x.il); }
  }
  EXPLORED = q.size(); NSETS = sets.size();
  return 1;
}

// Open-addressing map from nonzero-able 64-bit keys to 0,1,2,...
struct IdMap {
  std::vector<uint64_t> k; std::vector<I> v; size_t n = 0, mask;
  IdMap() { k.assign(1 << 12, 0); v.assign(1 << 12, -1); mask = (1 << 12) - 1; }
  static size_t hash(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
  // id of key; the next number if new
  I get(uint64_t key, bool* fresh) {
    size_t h = hash(key) & mask;
    while (v[h] >= 0) { if (k[h] == key) { *fresh = false; return v[h]; } h = (h + 1) & mask; }
    k[h] = key; v[h] = (I)n++; *fresh = true; I r = v[h];
    if (n * 10 > (mask + 1) * 6) { std::vector<uint64_t> ok; std::vector<I> ov; ok.swap(k); ov.swap(v); mask = mask * 2 + 1; k.assign(mask + 1, 0); v.assign(mask + 1, -1);
      for (size_t i = 0; i < ov.size(); i++) if (ov[i] >= 0) { size_t g = hash(ok[i]) & mask; while (v[g] >= 0) g = (g + 1) & mask; k[g] = ok[i]; v[g] = ov[i]; } }
    return r; }
};

// For every input accepted by both A and B, every output of A equals every output of B.
// 1 yes; 0 no: W1 input, W2 output of A, W3 output of B.  -2 undecided.
static int agree(const Fst& A0, const Fst& B0) {
  EXPLORED = 0;
  Fst* Ap = trim(A0); Fst* Bp = trim(B0);
  const Fst &A = *Ap, &B = *Bp;
  int res = 1;
  struct E { I to, il, oa, ob; };
  if (A.start >= 0 && B.start >= 0) {
    std::vector<std::vector<Arc>> bs(B.n());
    for (I s = 0; s < B.n(); s++) { bs[s] = B.a[s];
      std::sort(bs[s].begin(), bs[s].end(), [](const Arc& x, const Arc& y) { return x.il < y.il; }); }
    IdMap id; std::vector<uint64_t> q; std::vector<E> g; std::vector<int64_t> off;
    auto get = [&](I p, I s) { bool f; I k = id.get(pk(p, s), &f); if (f) q.push_back(pk(p, s)); return k; };
    get(A.start, B.start);
    for (size_t i = 0; i < q.size(); i++) {
      off.push_back((int64_t)g.size());
      if ((int64_t)q.size() > LIMIT || (int64_t)g.size() > 3 * LIMIT) { delete Ap; delete Bp; return -2; }
      I p = q[i] >> 32, s = (I)(uint32_t)q[i];
      for (auto& x : A.a[p]) {
        if (x.il == 0) { I t = get(x.to, s); g.push_back({t, 0, x.ol, 0}); continue; }
        auto lo = std::lower_bound(bs[s].begin(), bs[s].end(), x.il, [](const Arc& y, I l) { return y.il < l; });
        for (; lo != bs[s].end() && lo->il == x.il; ++lo) { I t = get(x.to, lo->to); g.push_back({t, x.il, x.ol, lo->ol}); }
      }
      for (auto& y : bs[s]) { if (y.il) break; I t = get(p, y.to); g.push_back({t, 0, 0, y.ol}); }
    }
    off.push_back((int64_t)g.size());
    I n = (I)q.size(); EXPLORED = n;
    auto isfin = [&](I i) { return A.fin[q[i] >> 32] < INF && B.fin[(I)(uint32_t)q[i]] < INF; };
    // Co-accessibility; nxe: an edge of a shortest way to a final state.
    std::vector<I> dist(n, -1); std::vector<int64_t> nxe(n, -1);
    { std::vector<int64_t> ro(n + 1, 0); for (auto& e : g) ro[e.to + 1]++; for (I i = 0; i < n; i++) ro[i + 1] += ro[i];
      std::vector<I> rs(g.size()); std::vector<int64_t> re(g.size()); { std::vector<int64_t> pos(ro.begin(), ro.end() - 1);
        for (I i = 0; i < n; i++) for (int64_t e = off[i]; e < off[i + 1]; e++) { int64_t z = pos[g[e].to]++; rs[z] = i; re[z] = e; } }
      std::vector<I> bq; for (I i = 0; i < n; i++) if (isfin(i)) { dist[i] = 0; bq.push_back(i); }
      for (size_t k = 0; k < bq.size(); k++) for (int64_t z = ro[bq[k]]; z < ro[bq[k] + 1]; z++) if (dist[rs[z]] < 0) {
        dist[rs[z]] = dist[bq[k]] + 1; nxe[rs[z]] = re[z]; bq.push_back(rs[z]); } }
    // Delays: what A has written more than B, and B more than A; interned.
    std::map<std::pair<V, V>, I> did; std::vector<const std::pair<V, V>*> dv;
    auto intern = [&](const V& u, const V& v) { auto r = did.emplace(std::make_pair(u, v), (I)dv.size()); if (r.second) dv.push_back(&r.first->first); return r.first->second; };
    struct Key { I d, oa, ob; bool operator==(const Key& k) const { return d == k.d && oa == k.oa && ob == k.ob; } };
    struct KH { size_t operator()(const Key& k) const { return IdMap::hash(((uint64_t)k.d << 40) ^ ((uint64_t)k.oa << 20) ^ k.ob); } };
    std::unordered_map<Key, I, KH> memo;
    auto next = [&](I d, I oa, I ob) -> I {
      if (!oa && !ob) return d;
      auto it = memo.find({d, oa, ob}); if (it != memo.end()) return it->second;
      V u = dv[d]->first, v = dv[d]->second; if (oa) u.push_back(oa); if (ob) v.push_back(ob);
      size_t c = 0; while (c < u.size() && c < v.size() && u[c] == v[c]) c++;
      u.erase(u.begin(), u.begin() + c); v.erase(v.begin(), v.begin() + c);
      I r = !u.empty() && !v.empty() ? -1 : u.size() > 4000 || v.size() > 4000 ? -2 : intern(u, v);
      memo[{d, oa, ob}] = r; return r; };
    I d0 = intern(V(), V());
    std::vector<I> del(n, -1), par(n, -1); std::vector<int64_t> pe(n, -1);
    auto build = [&](I i, I viaFrom, int64_t viaEdge, bool complete) {
      std::vector<int64_t> path; I j = viaFrom >= 0 ? viaFrom : i;
      if (viaFrom >= 0) path.push_back(viaEdge);
      while (par[j] >= 0) { path.push_back(pe[j]); j = par[j]; }
      std::reverse(path.begin(), path.end());
      if (complete) for (j = i; nxe[j] >= 0; j = g[nxe[j]].to) path.push_back(nxe[j]);
      W1.clear(); W2.clear(); W3.clear();
      for (int64_t z : path) { auto& e = g[z]; if (e.il) W1.push_back(e.il); if (e.oa) W2.push_back(e.oa); if (e.ob) W3.push_back(e.ob); }
      return W2 != W3; };
    if (n && dist[0] >= 0) {
      del[0] = d0; std::vector<I> bq{0};
      for (size_t k = 0; k < bq.size() && res == 1; k++) {
        I i = bq[k];
        if (isfin(i) && del[i] != d0) { build(i, -1, -1, false); res = 0; break; }
        for (int64_t e = off[i]; e < off[i + 1]; e++) {
          auto& x = g[e]; if (dist[x.to] < 0) continue;
          I d = next(del[i], x.oa, x.ob);
          if (d == -2) { res = -2; break; }
          if (d == -1 || (del[x.to] >= 0 && d != del[x.to])) {
            // Two ways here with different delays cannot both end well; nor can a mismatch.
            bool ok = build(x.to, i, e, true);
            if (!ok && del[x.to] >= 0) ok = build(x.to, -1, -1, true);
            if (!ok) MSG = "internal: witness not confirmed";
            res = 0; break; }
          if (del[x.to] < 0) { del[x.to] = d; par[x.to] = i; pe[x.to] = e; bq.push_back(x.to); }
        }
      }
    }
  }
  delete Ap; delete Bp; return res;
}

// Does B simulate A on input labels? Then L(A) is within L(B); otherwise nothing is known.
// 1 yes, 0 no, -2 limit.
static int simulates(const Fst& A0, const Fst& B) {
  EXPLORED = 0; Fst* Ap = trim(A0); const Fst& A = *Ap;
  if (A.start < 0) { delete Ap; return 1; }
  if (B.start < 0) { delete Ap; return 0; }
  std::vector<char> co; coacc(B, co);
  IdMap id; std::vector<uint64_t> q;
  auto get = [&](I a, I b) { bool f; I k = id.get(pk(a, b), &f); if (f) q.push_back(pk(a, b)); return k; };
  std::vector<std::vector<Arc>> bs(B.n());
  for (I s = 0; s < B.n(); s++) { bs[s] = B.a[s]; std::sort(bs[s].begin(), bs[s].end(), [](const Arc& x, const Arc& y) { return x.il < y.il; }); }
  // One obligation per pair and arc of A; its candidates are pairs.
  std::vector<I> cnt, owner; std::vector<std::pair<I, I>> use;  // (pair, obligation)
  std::vector<char> bad; std::vector<I> dead; V cl;
  get(A.start, B.start);
  for (size_t i = 0; i < q.size(); i++) {
    if ((int64_t)q.size() > LIMIT || (int64_t)use.size() > 3 * LIMIT) { delete Ap; return -2; }
    I a = q[i] >> 32, b = (I)(uint32_t)q[i]; cl.assign(1, b); eclose(B, cl);
    bool wrong = false;
    if (A.fin[a] < INF) { bool f = false; for (I x : cl) if (B.fin[x] < INF) f = true; wrong = !f; }
    for (auto& x : A.a[a]) { if (wrong) break;
      I ob = (I)cnt.size(); cnt.push_back(0); owner.push_back((I)i);
      if (x.il == 0) { I t = get(x.to, b); use.push_back({t, ob}); cnt[ob]++; continue; }
      for (I y : cl) { auto lo = std::lower_bound(bs[y].begin(), bs[y].end(), x.il, [](const Arc& z, I l) { return z.il < l; });
        for (; lo != bs[y].end() && lo->il == x.il; ++lo) if (co[lo->to]) { I t = get(x.to, lo->to); use.push_back({t, ob}); cnt[ob]++; } }
      if (!cnt[ob]) wrong = true; }
    bad.push_back(wrong); if (wrong) dead.push_back((I)i);
  }
  EXPLORED = q.size(); I n = (I)q.size();
  std::vector<int64_t> off(n + 1, 0); for (auto& u : use) off[u.first + 1]++; for (I i = 0; i < n; i++) off[i + 1] += off[i];
  std::vector<I> us(use.size()); { std::vector<int64_t> pos(off.begin(), off.end() - 1); for (auto& u : use) us[pos[u.first]++] = u.second; }
  while (!dead.empty()) { I i = dead.back(); dead.pop_back();
    for (int64_t z = off[i]; z < off[i + 1]; z++) if (--cnt[us[z]] == 0) { I o = owner[us[z]]; if (!bad[o]) { bad[o] = 1; dead.push_back(o); } } }
  int r = !bad[0]; delete Ap; return r;
}

// R ⊆ S as relations, by simulation with bounded delay. 1 yes, 0 no (W1,W2 pair in R \ S), -2 undecided.
static int relincl(const Fst& R0, const Fst& S0, int maxdelay) {
  Fst* Rp = trim(R0); Fst* Sp = trim(S0); const Fst &R = *Rp, &S = *Sp;
  EXPLORED = 0;
  if (R.start < 0) { delete Rp; delete Sp; return 1; }
  // element: (s, inputs R consumed but S not yet, outputs likewise) or S ahead: we never let S run ahead:
  // S consumes only labels that R already produced, so the delay is R-ahead only.
  struct El { I s; V i, o; bool operator<(const El& b) const { return s != b.s ? s < b.s : i != b.i ? i < b.i : o < b.o; } };
  typedef std::set<El> Set;
  bool over = false;
  auto close = [&](Set& st) {
    std::vector<El> w(st.begin(), st.end());
    while (!w.empty()) { El c = w.back(); w.pop_back();
      if (c.s < 0) continue;
      for (auto& x : S.a[c.s]) {
        if (x.il && (c.i.empty() || c.i[0] != x.il)) continue;
        if (x.ol && (c.o.empty() || c.o[0] != x.ol)) continue;
        El d{x.to, c.i, c.o}; if (x.il) d.i.erase(d.i.begin()); if (x.ol) d.o.erase(d.o.begin());
        if (st.insert(d).second) w.push_back(d); } }
    // drop elements that lag too much
    for (auto it = st.begin(); it != st.end();) { if ((int)it->i.size() > maxdelay || (int)it->o.size() > maxdelay) { over = true; it = st.erase(it); } else ++it; } };
  // prune: an element with pending input is only useful if it can still move after more labels: kept (sound).
  std::map<std::pair<I, Set>, I> seen; struct N { I r; I par; I il, ol; };
  std::vector<N> q; std::vector<const Set*> qs;
  std::deque<I> dq;
  auto push = [&](I r, Set&& st, I par, I il, I ol) {
    auto ins = seen.emplace(std::make_pair(r, std::move(st)), (I)q.size());
    if (!ins.second) return; q.push_back({r, par, il, ol}); qs.push_back(&ins.first->first.second); dq.push_back((I)q.size() - 1); };
  Set s0; if (S.start >= 0) s0.insert({S.start, {}, {}}); close(s0);
  push(R.start, std::move(s0), -1, 0, 0);
  int res = 1;
  auto wit = [&](I i) { W1.clear(); W2.clear(); for (I j = i; j >= 0; j = q[j].par) { if (q[j].il) W1.push_back(q[j].il); if (q[j].ol) W2.push_back(q[j].ol); }
    std::reverse(W1.begin(), W1.end()); std::reverse(W2.begin(), W2.end()); };
  while (!dq.empty()) {
    I i = dq.front(); dq.pop_front(); const Set& st = *qs[i]; I r = q[i].r;
    if ((int64_t)q.size() > 4000000) { res = -2; break; }
    if (R.fin[r] < INF) { bool ok = false; for (auto& e : st) if (e.i.empty() && e.o.empty() && S.fin[e.s] < INF) { ok = true; break; }
      if (!ok) { wit(i); res = over ? -2 : 0; break; } }
    for (auto& x : R.a[r]) { Set t; for (auto& e : st) { El d = e; if (x.il) d.i.push_back(x.il); if (x.ol) d.o.push_back(x.ol); t.insert(d); }
      close(t); push(x.to, std::move(t), i, x.il, x.ol); }
  }
  EXPLORED = q.size(); delete Rp; delete Sp; return res;
}

// Bounded cost simulation: D[q1][q2] >= sup over strings z accepted from q2 of
// (best cost of z from q1) - (best cost of z from q2); CAPD means "no bound known".
// Sound for pruning: least fixed point over the length of z.
static const int CAPD = 100;
struct Sim {
  std::unordered_map<uint64_t, I> id; std::vector<uint64_t> q; std::vector<int> d;
  int get(I p, I s) const { auto it = id.find(pk(p, s)); return it == id.end() ? CAPD : d[it->second]; }
};
static void simulation(const Fst& f, Sim& S) {
  I n = f.n();
  struct T { I l; int w; I t; };
  std::vector<std::vector<T>> g(n); std::vector<int> fin(n, 10000);
  for (I s = 0; s < n; s++) {
    std::map<I, int> c; c[s] = 0; std::vector<I> wl{s};
    for (size_t i = 0; i < wl.size() && i < 100000; i++) { int w = c[wl[i]]; for (auto& x : f.a[wl[i]]) if (!x.il) { int v = w + (int)(x.w + 0.5f); auto it = c.find(x.to); if (it == c.end() || it->second > v) { c[x.to] = v; wl.push_back(x.to); } } }
    std::map<std::pair<I, I>, int> m;
    for (auto& kv : c) { if (f.fin[kv.first] < INF) fin[s] = std::min(fin[s], kv.second + (int)(f.fin[kv.first] + 0.5f));
      for (auto& x : f.a[kv.first]) if (x.il) { int v = kv.second + (int)(x.w + 0.5f); auto r = m.emplace(std::make_pair(x.il, x.to), v); if (!r.second && r.first->second > v) r.first->second = v; } }
    for (auto& kv : m) g[s].push_back({kv.first.first, kv.second, kv.first.second});
  }
  // Only pairs reachable on a common input matter (any order, eps closures included).
  auto get = [&](I p, I q) { auto it = S.id.find(pk(p, q)); if (it != S.id.end()) return it->second; I k = (I)S.q.size(); S.id[pk(p, q)] = k; S.q.push_back(pk(p, q)); S.d.push_back(-CAPD); return k; };
  auto both = [&](I p, I q) { std::set<I> a{p}, b{q}; std::vector<I> wl;
    for (auto* st : {&a, &b}) { wl.assign(st->begin(), st->end()); for (size_t i = 0; i < wl.size(); i++) for (auto& x : f.a[wl[i]]) if (!x.il && st->insert(x.to).second) wl.push_back(x.to); }
    for (I x : a) for (I y : b) { get(x, y); get(y, x); }
    for (I x : a) for (I y : a) get(x, y);
    for (I x : b) for (I y : b) get(x, y); };
  both(f.start, f.start);
  std::vector<std::vector<I>> users;
  struct Ed { I to; int c; I grp; };
  std::vector<std::vector<Ed>> es; std::vector<int> ng;
  for (size_t i = 0; i < S.q.size(); i++) {
    I p = S.q[i] >> 32, q = (I)(uint32_t)S.q[i]; std::vector<Ed> e; int grp = 0; size_t k0 = 0;
    for (auto& y : g[q]) { while (k0 < g[p].size() && g[p][k0].l < y.l) k0++;
      for (size_t k = k0; k < g[p].size() && g[p][k].l == y.l; k++) { both(g[p][k].t, y.t); e.push_back({get(g[p][k].t, y.t), g[p][k].w - y.w, grp}); }
      grp++; }
    es.push_back(e); ng.push_back(grp);
  }
  size_t N = S.q.size(); users.resize(N);
  for (size_t i = 0; i < N; i++) for (auto& e : es[i]) users[e.to].push_back((I)i);
  std::deque<I> wl; std::vector<char> in(N, 1); std::vector<int> ups(N, 0); for (size_t i = 0; i < N; i++) wl.push_back((I)i);
  while (!wl.empty()) { I i = wl.front(); wl.pop_front(); in[i] = 0; if (S.d[i] == CAPD) continue;
    I p = S.q[i] >> 32, q = (I)(uint32_t)S.q[i]; int v = -CAPD;
    if (fin[q] < 10000) v = fin[p] < 10000 ? fin[p] - fin[q] : CAPD;
    std::vector<int> b(ng[i], CAPD);
    for (auto& e : es[i]) { int d = S.d[e.to]; if (d < CAPD) b[e.grp] = std::min(b[e.grp], d <= -CAPD ? -CAPD : e.c + d); }
    for (int x : b) v = std::max(v, x);
    if (v > 8 || ++ups[i] > 200) v = CAPD;
    if (v > S.d[i]) { S.d[i] = v; for (I u : users[i]) if (!in[u]) { in[u] = 1; wl.push_back(u); } } }
}

// The best-path (tropical) function of a weighted transducer as a subsequential
// transducer. Ties between different outputs that are optimal for a complete
// input are counted in TIES, with the inputs in TIEW.
static int64_t TIES = 0; static std::vector<V> TIEW;
static Fst* best(const Fst& f0, int maxstates) {
  TIES = 0; TIEW.clear(); Fst* fp = trim(f0); const Fst& f = *fp;
  Fst* r = new Fst; if (f.start < 0) { delete fp; return r; }
  size_t n = f.n();
  std::vector<int8_t> D;
  if (n <= 12000) { Sim S; simulation(f, S); D.assign(n * n, CAPD); for (size_t i = 0; i < S.q.size(); i++) D[(S.q[i] >> 32) * n + (uint32_t)S.q[i]] = (int8_t)S.d[i]; }
  struct El { I q; int w; V o; char tie; };
  typedef std::vector<El> St;  // sorted by q
  struct Pre { I par, l; };
  std::vector<Pre> pre;
  std::vector<I> slot(n, -1);  // state -> index in the set under construction
  auto relax = [&](St& s, I q, int w, const V& o, char tie, std::vector<I>* wl) {
    I k = slot[q];
    if (k < 0) { slot[q] = (I)s.size(); s.push_back({q, w, o, tie}); if (wl) wl->push_back(q); return; }
    El& e = s[k];
    if (w < e.w) { e.w = w; e.o = o; e.tie = tie; if (wl) wl->push_back(q); return; }
    if (w == e.w) {
      bool c = false;
      if (o != e.o) { if (!e.tie) { e.tie = 1; c = true; } if (o < e.o) { e.o = o; c = true; } }
      else if (tie && !e.tie) { e.tie = 1; c = true; }
      if (c && wl) wl->push_back(q); } };
  auto finish = [&](St& s) {
    std::vector<I> wl; for (auto& e : s) wl.push_back(e.q);
    for (size_t i = 0; i < wl.size() && i < 1000000; i++) { I q = wl[i]; bool any = false; for (auto& x : f.a[q]) if (!x.il) { any = true; break; } if (!any) continue;
      El c = s[slot[q]];
      for (auto& x : f.a[q]) if (!x.il) { V o = c.o; if (x.ol) o.push_back(x.ol); relax(s, x.to, c.w + (int)(x.w + 0.5f), o, c.tie, &wl); } }
    for (auto& e : s) slot[e.q] = -1;
    if (!D.empty() && s.size() > 1) { St t; t.reserve(s.size()); for (auto& b : s) { bool dead = false; for (auto& a : s) { int d = D[(size_t)a.q * n + b.q]; if (d < CAPD && a.w + d < b.w && a.q != b.q) { dead = true; break; } } if (!dead) t.push_back(std::move(b)); } s.swap(t); }
    std::sort(s.begin(), s.end(), [](const El& a, const El& b) { return a.q < b.q; }); };
  auto norm = [&](St& s, V& lcp) { int mw = 1 << 29; bool first = true; lcp.clear();
    for (auto& e : s) { mw = std::min(mw, e.w);
      if (first) { lcp = e.o; first = false; } else { size_t c = 0; while (c < lcp.size() && c < e.o.size() && lcp[c] == e.o[c]) c++; lcp.resize(c); } }
    for (auto& e : s) { e.w -= mw; e.o.erase(e.o.begin(), e.o.begin() + lcp.size()); } };
  std::unordered_map<V, I, VH> id; std::vector<St> q;
  auto get = [&](St& s, Pre p) { V key; for (auto& e : s) { key.push_back(e.q); key.push_back(e.w); key.push_back(-1 - e.tie); key.push_back((I)e.o.size()); key.insert(key.end(), e.o.begin(), e.o.end()); }
    auto it = id.find(key); if (it != id.end()) return it->second; I k = r->add(); id[key] = k; q.push_back(s); pre.push_back(p); return k; };
  auto chain = [&](I from, I il, const V& o, I to) {
    if (o.size() <= 1) { r->a[from].push_back({il, o.empty() ? 0 : o[0], to, 0}); return; }
    I c = from; for (size_t i = 0; i < o.size(); i++) { I t = i + 1 == o.size() ? to : r->add();
      if (t != to) { q.emplace_back(); pre.push_back({-1, 0}); }
      r->a[c].push_back({i == 0 ? il : 0, o[i], t, 0}); c = t; } };
  auto prefix = [&](I i) { V v; for (; i >= 0; i = pre[i].par) if (pre[i].l) v.push_back(pre[i].l); std::reverse(v.begin(), v.end()); return v; };
  St s0; relax(s0, f.start, 0, V(), 0, nullptr); finish(s0); V l; norm(s0, l);
  I init = r->add(); q.emplace_back(); pre.push_back({-1, 0}); I k0 = get(s0, {-1, 0}); r->start = init; chain(init, 0, l, k0);
  I sink = r->add(); q.emplace_back(); pre.push_back({-1, 0}); r->fin[sink] = 0;
  std::map<I, std::vector<std::pair<I, const Arc*>>> by;
  for (size_t i = 0; i < q.size(); i++) {
    if ((int)q.size() > maxstates) { delete fp; delete r; return nullptr; }
    if (q[i].empty()) continue;
    St s = q[i];
    { int bw = 1 << 29; V bo; bool tie = false; for (auto& e : s) if (f.fin[e.q] < INF) { int w = e.w + (int)(f.fin[e.q] + 0.5f);
        if (w < bw) { bw = w; bo = e.o; tie = e.tie; } else if (w == bw) { if (e.tie) tie = true; if (e.o != bo) { tie = true; if (e.o < bo) bo = e.o; } } }
      if (bw < (1 << 29)) { if (tie) { TIES++; if (TIEW.size() < 1000) TIEW.push_back(prefix((I)i)); } chain((I)i, 0, bo, sink); } }
    by.clear();
    for (size_t k = 0; k < s.size(); k++) for (auto& x : f.a[s[k].q]) if (x.il) by[x.il].push_back({(I)k, &x});
    for (auto& kv : by) { St t; for (auto& pr : kv.second) { const El& e = s[pr.first]; V w = e.o; if (pr.second->ol) w.push_back(pr.second->ol); relax(t, pr.second->to, e.w + (int)(pr.second->w + 0.5f), w, e.tie, nullptr); }
      finish(t); V lc; norm(t, lc); I k = get(t, {(I)i, kv.first}); chain((I)i, kv.first, lc, k); }
  }
  delete fp; Fst* t = trim(*r); delete r; return t;
}


// The same relation, smaller: outputs are written as early as possible, and then
// bisimilar states merged. For (almost) sequential machines whose states differ in
// what they have not written yet. Null if there are weights.
static Fst* squeeze(const Fst& A0) {
  for (auto& v : A0.a) for (auto& x : v) if (x.w != 0) return nullptr;
  for (auto y : A0.fin) if (y < INF && y != 0) return nullptr;
  Fst* Ap = trim(A0); const Fst& A = *Ap; I n = A.n();
  if (A.start < 0) return Ap;
  // Interned strings.
  std::vector<V> str; std::unordered_map<V, I, VH> sid;
  auto intern = [&](const V& v) { auto r = sid.emplace(v, (I)str.size()); if (r.second) str.push_back(v); return r.first->second; };
  intern(V());
  std::unordered_map<uint64_t, I> mc, ml;
  auto cat = [&](I a, I b) { if (!a) return b; if (!b) return a; auto it = mc.find(pk(a, b)); if (it != mc.end()) return it->second;
    V v = str[a]; v.insert(v.end(), str[b].begin(), str[b].end()); return mc[pk(a, b)] = intern(v); };
  auto lcp = [&](I a, I b) { if (a == b) return a; if (!a || !b) return 0; auto it = ml.find(pk(a, b)); if (it != ml.end()) return it->second;
    size_t k = 0; const V &u = str[a], &v = str[b]; while (k < u.size() && k < v.size() && u[k] == v[k]) k++;
    return ml[pk(a, b)] = intern(V(u.begin(), u.begin() + k)); };
  // Arcs with strings; states that only write are skipped.
  struct T { I il, s, to; };
  std::vector<T> arcs; std::vector<int64_t> off(n + 1, 0);
  auto chain = [&](I s) { return A.fin[s] >= INF && A.a[s].size() == 1 && A.a[s][0].il == 0; };
  std::vector<I> jt(n, -1), js(n, 0);  // where a state leads without input, and what it writes
  { std::vector<I> st; for (I s = 0; s < n; s++) { I x = s; while (jt[x] < 0 && chain(x)) { st.push_back(x); x = A.a[x][0].to; }
      if (jt[x] < 0) jt[x] = x;
      while (!st.empty()) { I y = st.back(); st.pop_back(); I z = A.a[y][0].to; jt[y] = jt[z]; js[y] = cat(A.a[y][0].ol ? intern(V{A.a[y][0].ol}) : 0, js[z]); } } }
  for (I s = 0; s < n; s++) { off[s] = arcs.size(); if (jt[s] == s) for (auto& x : A.a[s]) arcs.push_back({x.il, cat(x.ol ? intern(V{x.ol}) : 0, js[x.to]), jt[x.to]}); }
  off[n] = arcs.size();
  I start = jt[A.start], pre = js[A.start];
  // Longest common prefixes of what states will write.
  std::vector<I> L(n, -1);
  { std::vector<int64_t> ro(n + 1, 0); for (auto& x : arcs) ro[x.to + 1]++; for (I s = 0; s < n; s++) ro[s + 1] += ro[s];
    std::vector<I> rs(arcs.size()); { std::vector<int64_t> pos(ro.begin(), ro.end() - 1); for (I s = 0; s < n; s++) for (int64_t e = off[s]; e < off[s + 1]; e++) rs[pos[arcs[e].to]++] = s; }
    std::deque<I> wl; std::vector<char> in(n, 0);
    for (I s = 0; s < n; s++) if (A.fin[s] < INF && jt[s] == s) { wl.push_back(s); in[s] = 1; }
    while (!wl.empty()) { I s = wl.front(); wl.pop_front(); in[s] = 0;
      I v = A.fin[s] < INF ? 0 : -1;
      for (int64_t e = off[s]; e < off[s + 1] && v != 0; e++) { I t = L[arcs[e].to]; if (t < 0) continue; I c = cat(arcs[e].s, t); v = v < 0 ? c : lcp(v, c); }
      if (v == L[s]) continue;
      L[s] = v;
      for (int64_t z = ro[s]; z < ro[s + 1]; z++) if (!in[rs[z]]) { in[rs[z]] = 1; wl.push_back(rs[z]); } } }
  for (auto& x : arcs) x.to = x.to;
  for (I s = 0; s < n; s++) for (int64_t e = off[s]; e < off[s + 1]; e++) { auto& x = arcs[e]; I c = cat(x.s, L[x.to]); const V& v = str[c];
    x.s = L[s] ? intern(V(v.begin() + str[L[s]].size(), v.end())) : c; }
  pre = cat(pre, L[start]);
  // Bisimulation by refinement on hashes; the result is checked exactly.
  std::vector<I> live; for (I s = 0; s < n; s++) if (jt[s] == s) live.push_back(s);
  std::vector<I> cls(n, 0), nx(n, 0); size_t k = 0;
  struct S2 { uint64_t a, b; bool operator==(const S2& o) const { return a == o.a && b == o.b; } };
  struct H2 { size_t operator()(const S2& x) const { return x.a ^ (x.b * 0x9e3779b97f4a7c15ull); } };
  auto mix = [](uint64_t x) { x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29; x *= 0x94d049bb133111ebull; x ^= x >> 32; return x; };
  std::vector<T> tmp;
  auto sig = [&](I s) { tmp.clear(); for (int64_t e = off[s]; e < off[s + 1]; e++) tmp.push_back({arcs[e].il, arcs[e].s, cls[arcs[e].to]});
    std::sort(tmp.begin(), tmp.end(), [](const T& x, const T& y) { return std::tie(x.il, x.s, x.to) < std::tie(y.il, y.s, y.to); });
    tmp.erase(std::unique(tmp.begin(), tmp.end(), [](const T& x, const T& y) { return x.il == y.il && x.s == y.s && x.to == y.to; }), tmp.end()); };
  for (I s : live) cls[s] = A.fin[s] < INF;
  k = 0;
  for (;;) {
    std::unordered_map<S2, I, H2> m;
    for (I s : live) { sig(s); uint64_t a = mix(cls[s] + 1), b = mix(cls[s] + 77);
      for (auto& x : tmp) { a = mix(a ^ mix(pk(x.il, x.s)) ^ (uint64_t)x.to * 0x9e3779b97f4a7c15ull); b = mix(b + mix(pk(x.to, x.il) + 13) + mix(x.s + 7)); }
      nx[s] = m.emplace(S2{a, b}, (I)m.size()).first->second; }
    std::swap(cls, nx);
    if (m.size() == k) break;
    k = m.size();
  }
  std::vector<I> rep(k, -1); std::vector<std::vector<T>> rt(k); bool good = true;
  for (I s : live) { sig(s); I c = cls[s]; if (rep[c] < 0) { rep[c] = s; rt[c] = tmp; continue; }
    auto& r = rt[c]; if (r.size() != tmp.size() || (A.fin[s] < INF) != (A.fin[rep[c]] < INF)) { good = false; break; }
    for (size_t i = 0; i < r.size(); i++) if (r[i].il != tmp[i].il || r[i].s != tmp[i].s || r[i].to != tmp[i].to) good = false;
    if (!good) break; }
  if (!good) { delete Ap; return nullptr; }
  Fst* r = new Fst; for (size_t c = 0; c < k; c++) { r->add(); if (A.fin[rep[c]] < INF) r->fin[c] = 0; }
  auto path = [&](I p, I il, const V& v, I q) { size_t m = std::max<size_t>(1, v.size()); for (size_t i = 0; i < m; i++) { I t = i + 1 == m ? q : r->add(); r->a[p].push_back({i ? 0 : il, i < v.size() ? v[i] : 0, t, 0}); p = t; } };
  for (size_t c = 0; c < k; c++) for (auto& x : rt[c]) path((I)c, x.il, str[x.s], x.to);
  I s0 = r->add(); path(s0, 0, str[pre], cls[start]); r->start = s0;
  delete Ap; Fst* z = trim(*r); delete r; return z;
}

extern "C" {
int rr_new(I n, I start, I narcs, const I* src, const I* il, const I* ol, const I* dst, const float* w, const float* fin) {
  Fst* f = new Fst; f->a.resize(n); f->fin.assign(fin, fin + n); f->start = start;
  for (I i = 0; i < narcs; i++) f->a[src[i]].push_back({il[i], ol[i], dst[i], w[i]});
  return put(f); }
void rr_free(int h) { delete H[h]; H[h] = nullptr; }
int rr_states(int h) { return H[h]->n(); }
int rr_start(int h) { return H[h]->start; }
int64_t rr_narcs(int h) { int64_t c = 0; for (auto& v : H[h]->a) c += v.size(); return c; }
void rr_dump(int h, I* src, I* il, I* ol, I* dst, float* w, float* fin) { int64_t k = 0; for (I s = 0; s < H[h]->n(); s++) { fin[s] = H[h]->fin[s];
  for (auto& x : H[h]->a[s]) { src[k] = s; il[k] = x.il; ol[k] = x.ol; dst[k] = x.to; w[k] = x.w; k++; } } }
int rr_compose(int a, int b) { return put(compose(*H[a], *H[b])); }
int rr_trim(int a) { return put(trim(*H[a])); }
int rr_invert(int a) { Fst* r = new Fst(*H[a]); for (auto& v : r->a) for (auto& x : v) std::swap(x.il, x.ol); return put(r); }
int rr_reverse(int a) { const Fst& A = *H[a]; Fst* r = new Fst; for (I s = 0; s <= A.n(); s++) r->add(); I st = A.n(); r->start = st;
  for (I s = 0; s < A.n(); s++) { if (A.fin[s] < INF) r->a[st].push_back({0, 0, s, A.fin[s]}); for (auto& x : A.a[s]) r->a[x.to].push_back({x.il, x.ol, s, x.w}); }
  if (A.start >= 0) r->fin[A.start] = 0; return put(r); }
int rr_sets() { return (int)NSETS; }
int rr_project(int a, int out) { Fst* r = new Fst(*H[a]); for (auto& v : r->a) for (auto& x : v) { if (out) x.il = x.ol; else x.ol = x.il; } return put(r); }
int rr_unweight(int a) { Fst* r = new Fst(*H[a]); for (auto& v : r->a) for (auto& x : v) x.w = 0; for (auto& y : r->fin) if (y < INF) y = 0; return put(r); }
int rr_union(int n, const I* hs) { Fst* r = new Fst; I s = r->add(); r->start = s; for (int i = 0; i < n; i++) { const Fst& f = *H[hs[i]]; if (f.start < 0) continue; I off = r->n();
  for (I k = 0; k < f.n(); k++) { r->add(); r->fin.back() = f.fin[k]; for (auto x : f.a[k]) { x.to += off; r->a.back().push_back(x); } } r->a[s].push_back({0, 0, f.start + off, 0}); } return put(r); }
int rr_concat(int a, int b) { const Fst &A = *H[a], &B = *H[b]; Fst* r = new Fst; if (A.start < 0 || B.start < 0) return put(r); *r = A; I off = r->n();
  for (I k = 0; k < B.n(); k++) { r->add(); r->fin.back() = B.fin[k]; for (auto x : B.a[k]) { x.to += off; r->a.back().push_back(x); } }
  for (I k = 0; k < off; k++) if (r->fin[k] < INF) { r->a[k].push_back({0, 0, B.start + off, r->fin[k]}); r->fin[k] = INF; } return put(r); }
int rr_star(int a) { const Fst& A = *H[a]; Fst* r = new Fst; if (A.start >= 0) *r = A; I s = r->add(); r->fin[s] = 0; 
  if (A.start >= 0) { for (I k = 0; k < A.n(); k++) if (r->fin[k] < INF) r->a[k].push_back({0, 0, s, r->fin[k]}); r->a[s].push_back({0, 0, A.start, 0}); } r->start = s; return put(r); }
int rr_det(int a) { Fst* f = det(*H[a]); return f ? put(f) : -2; }
int rr_min(int a) { Fst* f = det(*H[a]); if (!f) return -2; Fst* m = minimize(*f); delete f; return put(m); }
// complement of the (determinized) language of a within labels*
int rr_complement(int a, int nl, const I* labels) { Fst* d = det(*H[a]); if (!d) return -2; I sink = d->add(); if (d->start < 0) d->start = sink;
  for (I s = 0; s < d->n(); s++) { std::set<I> have; std::vector<Arc> keep; std::set<I> L(labels, labels + nl); for (auto& x : d->a[s]) if (L.count(x.il)) { have.insert(x.il); keep.push_back(x); }
    for (I l : L) if (!have.count(l)) keep.push_back({l, l, sink, 0}); d->a[s] = keep; }
  for (auto& y : d->fin) y = y < INF ? INF : 0; return put(d); }
// Same relation with the transitions merged as if (input, output) pairs were letters
// (weights must be zero).
// As an automaton over (input, output, weight) triples, determinized and minimized.
int rr_minpair(int a) { Fst f(*H[a]); std::map<std::tuple<I, I, float>, I> m; std::vector<std::tuple<I, I, float>> inv(1);
  auto code = [&](I il, I ol, float w) { auto r = m.emplace(std::make_tuple(il, ol, w), (I)inv.size()); if (r.second) inv.push_back(std::make_tuple(il, ol, w)); return r.first->second; };
  I n = f.n(), sup = -1;
  for (I s = 0; s < n; s++) { for (auto& x : f.a[s]) { if (!x.il && !x.ol && x.w == 0) continue; I c = code(x.il, x.ol, x.w); x.il = x.ol = c; x.w = 0; }
    if (f.fin[s] < INF && f.fin[s] != 0) { if (sup < 0) { sup = f.add(); f.fin[sup] = 0; } I c = code(0, 0, f.fin[s]); f.fin[s] = INF; f.a[s].push_back({c, c, sup, 0}); } }
  Fst* d = det(f); if (!d) return -2; Fst* k = minimize(*d); delete d;
  for (auto& v : k->a) for (auto& x : v) { auto p = inv[x.il]; x.il = std::get<0>(p); x.ol = std::get<1>(p); x.w = std::get<2>(p); } return put(k); }
int rr_squeeze(int a) { Fst* f = squeeze(*H[a]); return f ? put(f) : -3; }
int rr_incl(int a, int b) { return incl(*H[a], *H[b]); }
int rr_sim(int a, int b) { return simulates(*H[a], *H[b]); }
int rr_agree(int a, int b) { return agree(*H[a], *H[b]); }
int rr_relincl(int a, int b, int d) { return relincl(*H[a], *H[b], d); }
int rr_best(int a, int maxstates) { Fst* f = best(*H[a], maxstates); return f ? put(f) : -2; }
int64_t rr_ties() { return TIES; }
int rr_tie(int i) { if (i >= (int)TIEW.size()) return 0; W1 = TIEW[i]; return 1; }
int64_t rr_explored() { return EXPLORED; }
int rr_wlen(int k) { return (int)(k == 1 ? W1 : k == 2 ? W2 : W3).size(); }
void rr_wget(int k, I* out) { V& v = k == 1 ? W1 : k == 2 ? W2 : W3; std::copy(v.begin(), v.end(), out); }
// Expands labels >= 128 into UTF-8 byte chains on both sides.
static V enc(I c) { V b; if (c < 0x80) b.push_back(c); else if (c < 0x800) { b.push_back(0xC0 | c >> 6); b.push_back(0x80 | (c & 63)); }
  else if (c < 0x10000) { b.push_back(0xE0 | c >> 12); b.push_back(0x80 | (c >> 6 & 63)); b.push_back(0x80 | (c & 63)); }
  else { b.push_back(0xF0 | c >> 18); b.push_back(0x80 | (c >> 12 & 63)); b.push_back(0x80 | (c >> 6 & 63)); b.push_back(0x80 | (c & 63)); } return b; }
int rr_utf8(int a) { const Fst& A = *H[a]; Fst* r = new Fst; for (I s = 0; s < A.n(); s++) { r->add(); r->fin[s] = A.fin[s]; } r->start = A.start;
  for (I s = 0; s < A.n(); s++) for (auto& x : A.a[s]) { V i, o; if (x.il) i = enc(x.il); if (x.ol) o = enc(x.ol); size_t m = std::max(std::max(i.size(), o.size()), (size_t)1); I c = s;
    for (size_t k = 0; k < m; k++) { I t = k + 1 == m ? x.to : r->add(); r->a[c].push_back({k < i.size() ? i[k] : 0, k < o.size() ? o[k] : 0, t, k ? 0 : x.w}); c = t; } }
  return put(r); }
// Shortest accepted pair. 1 found (W1 input, W2 output), 0 empty.
int rr_shortest(int a) { const Fst& A = *H[a]; if (A.start < 0) return 0; struct N { I s, par, il, ol; }; std::vector<N> q; std::vector<char> seen(A.n(), 0); std::deque<I> dq;
  q.push_back({A.start, -1, 0, 0}); dq.push_back(0); std::vector<I> dist(A.n(), INT32_MAX); dist[A.start] = 0;
  while (!dq.empty()) { I i = dq.front(); dq.pop_front(); N c = q[i]; if (seen[c.s]) continue; seen[c.s] = 1;
    if (A.fin[c.s] < INF) { W1.clear(); W2.clear(); for (I j = i; j >= 0; j = q[j].par) { if (q[j].il) W1.push_back(q[j].il); if (q[j].ol) W2.push_back(q[j].ol); } std::reverse(W1.begin(), W1.end()); std::reverse(W2.begin(), W2.end()); return 1; }
    for (auto& x : A.a[c.s]) if (!seen[x.to]) { q.push_back({x.to, i, x.il, x.ol}); if (x.il) dq.push_back((I)q.size() - 1); else dq.push_front((I)q.size() - 1); } }
  return 0; }
// Reads a serialized OpenFst VectorFst<StdArc> (binary, no symbol tables). -1: not understood.
int rr_load(const char* p, int64_t len) {
  const char* e = p + len; bool ok = true;
  auto rd = [&](void* d, int64_t n) { if (e - p < n) { ok = false; memset(d, 0, n); return; } memcpy(d, p, n); p += n; };
  auto str = [&]() { int32_t n; rd(&n, 4); if (n < 0 || n > 64) { ok = false; return std::string(); } std::string t(n, 0); rd(&t[0], n); return t; };
  int32_t magic, ver, flags; uint64_t props; int64_t start, ns, na;
  rd(&magic, 4); if (magic != 2125659606) return -1;
  std::string ft = str(), at = str(); rd(&ver, 4); rd(&flags, 4); rd(&props, 8); rd(&start, 8); rd(&ns, 8); rd(&na, 8);
  if (!ok || ft != "vector" || at != "standard" || (flags & 3) || ns < 0) return -1;
  Fst* f = new Fst; f->a.resize(ns); f->fin.assign(ns, INF); f->start = (I)start;
  for (int64_t s = 0; s < ns && ok; s++) { float w; int64_t k; rd(&w, 4); rd(&k, 8); f->fin[s] = w > 1e29f ? INF : w; if (k < 0 || k > (e - p) / 16) { ok = false; break; }
    f->a[s].resize(k); for (auto& x : f->a[s]) { int32_t i, o, t; float v; rd(&i, 4); rd(&o, 4); rd(&v, 4); rd(&t, 4); x.il = i; x.ol = o; x.to = t; x.w = v; if (t < 0 || t >= ns || i < 0 || o < 0) ok = false; } }
  if (!ok || p != e) { delete f; return -1; }
  return put(f); }
void rr_limit(int64_t l) { LIMIT = l; }
}
