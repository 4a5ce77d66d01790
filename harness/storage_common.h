// The storage under test and its projection: every container dumped through every accessor it has.
#pragma once
#include <algorithm>
#include <set>
#include "mj.h"
#include "storage/storage.h"
#include "storage/persister/stream.h"
namespace st {
using mj::V;
// Keys are abstract integers 0..9: int keys are the integers, string keys "s<digit>" (over REST: and something which URLs do not like).
#ifdef STORAGE_REST
inline std::string KeyName(int k) { static const char* t[] = {" ", "%", "&", "?x=1", "/y", "#z", "+", "=", "\"", "."}; return "s" + std::to_string(k) + (k >= 0 && k < 10 ? t[k] : ""); }
#define OWN_KEY(x) void InitializeOwnKey() { x; }
#else
inline std::string KeyName(int k) { return "s" + std::to_string(k); }
#define OWN_KEY(x)
#endif
inline void Put(int32_t& x, int k) { x = k; }
inline void Put(std::string& x, int k) { x = KeyName(k); }
inline int Get(int32_t x) { return x; }
inline int Get(const std::string& x) { return x.size() >= 2 && x[0] == 's' && x == KeyName(x[1] - '0') ? x[1] - '0' : -1; }
CURRENT_STRUCT(DI) { CURRENT_FIELD(key, int32_t); CURRENT_FIELD(v, int32_t); OWN_KEY(key = v) };
CURRENT_STRUCT(DS) { CURRENT_FIELD(key, std::string); CURRENT_FIELD(v, int32_t); };
CURRENT_STRUCT(II) { CURRENT_FIELD(row, int32_t); CURRENT_FIELD(col, int32_t); CURRENT_FIELD(v, int32_t); OWN_KEY(row = v / 3; col = v % 3) };
CURRENT_STRUCT(IS) { CURRENT_FIELD(row, int32_t); CURRENT_FIELD(col, std::string); CURRENT_FIELD(v, int32_t); };
CURRENT_STRUCT(SI) { CURRENT_FIELD(row, std::string); CURRENT_FIELD(col, int32_t); CURRENT_FIELD(v, int32_t); };
#ifdef STORAGE_REST
#define STORAGE_CONTAINERS(F) F(Du, UnorderedDictionary, DI, 0, 0) F(Do, OrderedDictionary, DS, 1, 1) \
  F(Moo, OrderedManyToOrderedMany, II, 1, 1) F(Muo, UnorderedManyToOrderedMany, IS, 0, 1) \
  F(Ouu, UnorderedOneToUnorderedOne, II, 0, 0) F(Oou, OrderedOneToUnorderedOne, SI, 1, 0) \
  F(Noo, OrderedOneToOrderedMany, II, 1, 1) F(Nou, OrderedOneToUnorderedMany, SI, 1, 0)
#elif !defined(STORAGE_SMALL)
#define STORAGE_CONTAINERS(F) F(Du, UnorderedDictionary, DI, 0, 0) F(Do, OrderedDictionary, DS, 1, 1) \
  F(Muu, UnorderedManyToUnorderedMany, II, 0, 0) F(Moo, OrderedManyToOrderedMany, II, 1, 1) F(Muo, UnorderedManyToOrderedMany, IS, 0, 1) F(Mou, OrderedManyToUnorderedMany, SI, 1, 0) \
  F(Ouu, UnorderedOneToUnorderedOne, II, 0, 0) F(Ooo, OrderedOneToOrderedOne, II, 1, 1) F(Ouo, UnorderedOneToOrderedOne, IS, 0, 1) F(Oou, OrderedOneToUnorderedOne, SI, 1, 0) \
  F(Nuu, UnorderedOneToUnorderedMany, II, 0, 0) F(Noo, OrderedOneToOrderedMany, II, 1, 1) F(Nuo, UnorderedOneToOrderedMany, IS, 0, 1) F(Nou, OrderedOneToUnorderedMany, SI, 1, 0)
#else
#define STORAGE_CONTAINERS(F) F(Du, UnorderedDictionary, DI, 0, 0) F(Ouu, UnorderedOneToUnorderedOne, II, 0, 0)
#endif
#define ENTRY(n, C, T, ro, co) CURRENT_STORAGE_FIELD_ENTRY(C, T, E##n);
STORAGE_CONTAINERS(ENTRY)
CURRENT_STORAGE(S) {
#ifdef STORAGE_REST
  CURRENT_STORAGE_FIELD(Du, EDu); CURRENT_STORAGE_FIELD(Do, EDo); CURRENT_STORAGE_FIELD(Moo, EMoo); CURRENT_STORAGE_FIELD(Muo, EMuo);
  CURRENT_STORAGE_FIELD(Ouu, EOuu); CURRENT_STORAGE_FIELD(Oou, EOou); CURRENT_STORAGE_FIELD(Noo, ENoo); CURRENT_STORAGE_FIELD(Nou, ENou);
#elif !defined(STORAGE_SMALL)
  CURRENT_STORAGE_FIELD(Du, EDu); CURRENT_STORAGE_FIELD(Do, EDo);
  CURRENT_STORAGE_FIELD(Muu, EMuu); CURRENT_STORAGE_FIELD(Moo, EMoo); CURRENT_STORAGE_FIELD(Muo, EMuo); CURRENT_STORAGE_FIELD(Mou, EMou);
  CURRENT_STORAGE_FIELD(Ouu, EOuu); CURRENT_STORAGE_FIELD(Ooo, EOoo); CURRENT_STORAGE_FIELD(Ouo, EOuo); CURRENT_STORAGE_FIELD(Oou, EOou);
  CURRENT_STORAGE_FIELD(Nuu, ENuu); CURRENT_STORAGE_FIELD(Noo, ENoo); CURRENT_STORAGE_FIELD(Nuo, ENuo); CURRENT_STORAGE_FIELD(Nou, ENou);
#else
  CURRENT_STORAGE_FIELD(Du, EDu); CURRENT_STORAGE_FIELD(Ouu, EOuu);
#endif
};
using F_MEM = S<StreamInMemoryStreamPersister>;
using F_FILE = S<StreamStreamPersister>;

template <class T> auto Make(int r, int c, int v) -> decltype(T::key, T()) { T x; Put(x.key, r); x.v = v; return x; }
template <class T> auto Make(int r, int c, int v) -> decltype(T::row, T()) { T x; Put(x.row, r); Put(x.col, c); x.v = v; return x; }
template <class T> auto KeyV(const T& x) -> decltype(x.key, V()) { return V::arr().push(Get(x.key)).push(0); }
template <class T> auto KeyV(const T& x) -> decltype(x.row, V()) { return V::arr().push(Get(x.row)).push(Get(x.col)); }
template <class T> V KV(const T& x) { return V::arr().push(KeyV(x)).push(x.v); }
template <class K> V PairV(const K& k) { return V::arr().push(Get(k.first)).push(Get(k.second)); }
inline bool Less(const V& a, const V& b) {
  if (a.t != b.t) return a.t < b.t;
  if (a.t == V::Arr) { for (size_t i = 0; i < a.a.size() && i < b.a.size(); ++i) { if (Less(a.a[i], b.a[i])) return true; if (Less(b.a[i], a.a[i])) return false; } return a.a.size() < b.a.size(); }
  return a.i < b.i;
}
inline void Sort(V& v) { std::sort(v.a.begin(), v.a.end(), Less); }
// The different answers given to what should be the same question.
struct Alts {
  std::vector<std::string> seen; V v = V::arr();
  void add(const V& x) { const std::string s = x.str(); for (auto& y : seen) if (y == s) return; seen.push_back(s); v.push(x); }
};
const int K = 3;  // the key space: 0..K-1 (a dictionary: 0..K*K-1), accessors are also asked for key K (never used)
template <class C, class T, bool RO, bool CO> struct Dump;
template <class C> V Lm(const C& c, int64_t base, bool dict) {
  V lm = V::arr();
  typename C::key_t k;
  if constexpr (std::is_same_v<typename C::semantics_t, current::storage::semantics::Dictionary>) {
    for (int i = 0; i <= K * K; ++i) { Put(k, i); const auto x = c.LastModified(k); if (Exists(x)) lm.push(V::arr().push(V::arr().push(i).push(0)).push((long long)(Value(x).count() - base))); }
  } else {
    for (int r = 0; r <= K; ++r) for (int q = 0; q <= K; ++q) { Put(k.first, r); Put(k.second, q);
      const auto x = c.LastModified(k); const auto y = c.LastModified(k.first, k.second);
      if (Exists(x) != Exists(y) || (Exists(x) && Value(x) != Value(y))) lm.push("LastModified overloads disagree");
      if (Exists(x)) lm.push(V::arr().push(PairV(k)).push((long long)(Value(x).count() - base))); }
  }
  return lm;
}
// Inner map of a row / col: [[other key, value]...]
template <class M> V Inner(const M& m, bool byrow, bool ordered) {
  V l = V::arr();
  size_t n = 0;
  for (auto it = m.begin(); it != m.end(); ++it) { V k = KeyV(*it); l.push(V::arr().push(k.a[byrow ? 1 : 0]).push(it->v)); if (Get(it.key()) != k.a[byrow ? 1 : 0].i) l.push("key() is not the key"); ++n; }
  if (!ordered) Sort(l);
  if (m.Size() != n || m.Empty() != (n == 0)) l.push("Size/Empty disagree with the iteration");
  return l;
}
template <class T, bool RO, bool CO, class C> V DumpOf(const C& c, int64_t base) {
  using sem = typename C::semantics_t;
  using namespace current::storage::semantics;
  V d = V::obj();
  d.set("size", (long long)c.Size()).set("empty", c.Empty());
  V items = V::arr(); Alts look;
  typename C::key_t k;
  V one = V::arr(), two = V::arr(), three = V::arr();
  if constexpr (std::is_same_v<sem, Dictionary>) {
    for (auto it = c.begin(); it != c.end(); ++it) { items.push(KV(*it)); if (Get(it.key()) != Get((*it).key)) items.push("key() is not the key"); }
    if (!RO) Sort(items);
    for (int i = 0; i <= K * K; ++i) { Put(k, i); const auto x = c[k]; if (Exists(x)) one.push(KV(Value(x))); if (c.Has(k) != Exists(x)) one.push("Has disagrees"); }
    look.add(one);
    return d.set("items", items).set("look", look.v).set("lm", Lm(c, base, true));
  } else {
    for (auto it = c.begin(); it != c.end(); ++it) items.push(KV(*it));
    Sort(items);
    V free = V::arr();
    for (int r = 0; r <= K; ++r) for (int q = 0; q <= K; ++q) { Put(k.first, r); Put(k.second, q);
      const auto x = c[k]; const auto y = c.Get(k.first, k.second);
      if (Exists(x)) one.push(KV(Value(x))); if (Exists(y)) two.push(KV(Value(y)));
      if constexpr (!std::is_same_v<sem, OneToOne>) { if (c.Has(k) != Exists(x) || c.Has(k.first, k.second) != Exists(x)) one.push("Has disagrees"); }
      if constexpr (!std::is_same_v<sem, ManyToMany>) { const bool f = c.DoesNotConflict(k); if (f != c.DoesNotConflict(k.first, k.second)) free.push("DoesNotConflict overloads disagree"); if (f) free.push(PairV(k)); }
    }
    look.add(one); look.add(two);
    Alts rows, cols;
    // rows
    V a = V::arr(), b = V::arr(), e = V::arr();
    if constexpr (std::is_same_v<sem, OneToOne>) {
      for (auto it = c.Rows().begin(); it != c.Rows().end(); ++it) { a.push(V::arr().push(Get(it.key())).push(V::arr().push(V::arr().push(Get((*it).col)).push(it->v)))); if (Get(it.key()) != Get((*it).row)) a.push("row key is not the row"); }
      if (!RO) Sort(a);
      for (int r = 0; r <= K; ++r) { Put(k.first, r); const auto x = c.GetEntryFromRow(k.first); if (Exists(x)) b.push(V::arr().push(r).push(V::arr().push(V::arr().push(Get(Value(x).col)).push(Value(x).v)))); 
        const bool h = c.Rows().Has(k.first); if (h != Exists(x)) b.push("Rows().Has disagrees"); }
    } else {
      const auto rs = c.Rows();
      for (auto it = rs.begin(); it != rs.end(); ++it) a.push(V::arr().push(Get(it.OuterKeyForPartialHypermediaCollectionView())).push(Inner(*it, true, CO)));
      if (!RO) Sort(a);
      for (int r = 0; r <= K; ++r) { Put(k.first, r); const V x = Inner(c.Row(k.first), true, CO); if (!x.a.empty()) b.push(V::arr().push(r).push(x));
        const auto o = rs[k.first]; if (Exists(o)) e.push(V::arr().push(r).push(Inner(Value(o), true, CO))); if (rs.Has(k.first) != Exists(o)) e.push("Rows().Has disagrees"); }
      rows.add(e);
    }
    if (c.Rows().Size() != a.a.size() || c.Rows().Empty() != a.a.empty()) a.push("Rows().Size/Empty disagree");
    rows.add(a); rows.add(b);
    a = V::arr(); b = V::arr(); e = V::arr();
    if constexpr (std::is_same_v<sem, ManyToMany>) {
      const auto rs = c.Cols();
      for (auto it = rs.begin(); it != rs.end(); ++it) a.push(V::arr().push(Get(it.OuterKeyForPartialHypermediaCollectionView())).push(Inner(*it, false, RO)));
      if (!CO) Sort(a);
      for (int r = 0; r <= K; ++r) { Put(k.second, r); const V x = Inner(c.Col(k.second), false, RO); if (!x.a.empty()) b.push(V::arr().push(r).push(x));
        const auto o = rs[k.second]; if (Exists(o)) e.push(V::arr().push(r).push(Inner(Value(o), false, RO))); if (rs.Has(k.second) != Exists(o)) e.push("Cols().Has disagrees"); }
      cols.add(e);
    } else {
      for (auto it = c.Cols().begin(); it != c.Cols().end(); ++it) { a.push(V::arr().push(Get(it.key())).push(V::arr().push(V::arr().push(Get((*it).row)).push(it->v)))); if (Get(it.key()) != Get((*it).col)) a.push("col key is not the col"); }
      if (!CO) Sort(a);
      for (int r = 0; r <= K; ++r) { Put(k.second, r); const auto x = c.GetEntryFromCol(k.second); if (Exists(x)) b.push(V::arr().push(r).push(V::arr().push(V::arr().push(Get(Value(x).row)).push(Value(x).v))));
        if (c.Cols().Has(k.second) != Exists(x)) b.push("Cols().Has disagrees"); }
    }
    if (c.Cols().Size() != a.a.size() || c.Cols().Empty() != a.a.empty()) a.push("Cols().Size/Empty disagree");
    cols.add(a); cols.add(b);
    return d.set("items", items).set("look", look.v).set("rows", rows.v).set("cols", cols.v).set("free", free).set("lm", Lm(c, base, false));
  }
}
template <class FIELDS> V DumpAll(const FIELDS& f, const std::set<std::string>& names, int64_t base) {
  V d = V::obj();
#define DUMP(n, C, T, ro, co) if (names.count(#n)) d.set(#n, DumpOf<T, ro, co>(f.n, base));
  STORAGE_CONTAINERS(DUMP)
#undef DUMP
  return d;
}
template <class C> auto EraseRow(C& c, int r, int) -> decltype(c.EraseRow(std::declval<typename C::row_t>()), void()) { typename C::row_t k; Put(k, r); c.EraseRow(k); }
template <class C> void EraseRow(C&, int, long) {}
template <class C> auto EraseCol(C& c, int r, int) -> decltype(c.EraseCol(std::declval<typename C::col_t>()), void()) { typename C::col_t k; Put(k, r); c.EraseCol(k); }
template <class C> void EraseCol(C&, int, long) {}
template <class C> void Mutate(C& c, const std::string& op, int r, int q, int v) {
  typename C::key_t k;
  if constexpr (std::is_same_v<typename C::semantics_t, current::storage::semantics::Dictionary>) {
    Put(k, r);
    if (op == "add") c.Add(Make<typename C::entry_t>(r, q, v));
    else if (op == "erase" || op == "erase2") c.Erase(k);
    else if (op == "readd") { const auto x = c[k]; if (Exists(x)) c.Add(Value(x)); }  // the object given is the one inside of the container
  } else {
    Put(k.first, r); Put(k.second, q);
    if (op == "add") c.Add(Make<typename C::entry_t>(r, q, v));
    else if (op == "erase") c.Erase(k);
    else if (op == "erase2") c.Erase(k.first, k.second);
    else if (op == "readd") { const auto x = c[k]; if (Exists(x)) c.Add(Value(x)); }
    else if (op == "eraserow") EraseRow(c, r, 0);
    else if (op == "erasecol") EraseCol(c, q, 0);
  }
}
template <class FIELDS> void MutateField(FIELDS& f, const std::string& name, const std::string& op, int r, int q, int v) {
#define MUT(n, C, T, ro, co) if (name == #n) Mutate(f.n, op, r, q, v);
  STORAGE_CONTAINERS(MUT)
#undef MUT
}
// One journal entry.
template <class T> V MutV(const T& e, const char* name, int64_t base) {
  V m = V::obj().set("c", name).set("us", (long long)(e.us.count() - base));
  return m;
}
struct MutVisitor {
  V out = V::arr(); int64_t base;
#define VIS(n, C, T, ro, co) \
  void operator()(const E##n##Updated& e) { out.push(V::obj().set("c", #n).set("t", "U").set("key", KeyV(e.data)).set("v", e.data.v).set("us", (long long)(e.us.count() - base))); } \
  void operator()(const E##n##Deleted& e) { out.push(V::obj().set("c", #n).set("t", "D").set("key", DelKey(e.key)).set("v", 0).set("us", (long long)(e.us.count() - base))); }
  template <class K> static V DelKey(const K& k) { return V::arr().push(Get(k)).push(0); }
  template <class A, class B> static V DelKey(const std::pair<A, B>& k) { return PairV(k); }
  STORAGE_CONTAINERS(VIS)
#undef VIS
};
template <class TX> V TxV(const TX& t, int64_t us, int64_t base) {
  MutVisitor v; v.base = base;
  for (const auto& m : t.mutations) m.Call(v);
  V meta = V::arr();
  for (const auto& kv : t.meta.fields) meta.push(V::arr().push(kv.first).push(kv.second));
  return V::obj().set("us", (long long)(us - base)).set("begin", (long long)(t.meta.begin_us.count() - base)).set("end", (long long)(t.meta.end_us.count() - base)).set("meta", meta).set("muts", v.out);
}
}  // namespace st
