/* map/set/unordered_*: one cell per insert call, never reused, so that references stay valid until erased and
   a use after erasing is seen.  Sorted containers compute the successor by key when they are iterated. */
#ifndef VP_ASSOC
#define VP_ASSOC
#include "vpcore.h"
namespace std {
template <class S, class V, class R> struct vp_it { S *m; V *p; typedef V value_type; typedef R &reference; typedef R *pointer; typedef ptrdiff_t difference_type; typedef bidirectional_iterator_tag iterator_category;
  vp_it() : m(0), p(0) {} vp_it(const S *x, V *k) : m((S *)x), p(k) {} template <class Q> vp_it(const vp_it<S, V, Q> &o) : m(o.m), p(o.p) {}
  R &operator*() const { return *p; } R *operator->() const { return p; }
  vp_it &operator++() { p = m->nxt(p); return *this; } vp_it operator++(int) { vp_it t = *this; p = m->nxt(p); return t; }
  template <class Q> bool operator==(const vp_it<S, V, Q> &o) const { return p == o.p; } template <class Q> bool operator!=(const vp_it<S, V, Q> &o) const { return p != o.p; } };
template <class K, class V, class KO, bool SORTED> class vp_assoc {
  V *d[VP_MAPCAP]; bool us[VP_MAPCAP]; size_t n, tk;
  void init() { for (int i = 0; i < VP_MAPCAP; i++) { us[i] = false; d[i] = VP_CELL(V); } n = tk = 0; }
public:
  typedef K key_type; typedef V value_type; typedef vp_it<vp_assoc, V, V> iterator; typedef vp_it<vp_assoc, V, const V> const_iterator; typedef size_t size_type; typedef ptrdiff_t difference_type;
  vp_assoc() { init(); } ~vp_assoc() { clear(); }
  vp_assoc(const vp_assoc &o) { init(); copy(o); } vp_assoc &operator=(const vp_assoc &o) { if (this != &o) { clear(); init(); copy(o); } return *this; }
  void copy(const vp_assoc &o) { for (int i = 0; i < VP_MAPCAP; i++) if (o.us[i]) add(*o.d[i]); }
  void clear() { for (int i = 0; i < VP_MAPCAP; i++) if (us[i]) { us[i] = false; d[i]->~V(); vp_cell_free(d[i]); } n = 0; }
  V *add(const V &v) { VP_BOUND(tk < VP_MAPCAP); V *c = 0; for (int i = 0; i < VP_MAPCAP; i++) if ((size_t)i == tk) { c = d[i]; new (c) V(v); us[i] = true; } tk++; n++; return c; }
  V *look(const K &k) const { for (int i = 0; i < VP_MAPCAP; i++) if (us[i] && KO::key(*d[i]) == k) return d[i]; return 0; }
  V *above(const K &k, bool eq) const { V *b = 0; for (int i = 0; i < VP_MAPCAP; i++) if (us[i] && (k < KO::key(*d[i]) || (eq && !(KO::key(*d[i]) < k))) && (!b || KO::key(*d[i]) < KO::key(*b))) b = d[i]; return b; }
  V *fst() const { V *b = 0; for (int i = 0; i < VP_MAPCAP; i++) if (us[i] && (!b || (SORTED && KO::key(*d[i]) < KO::key(*b)))) b = d[i]; return b; }
  V *nxt(V *p) const { if (SORTED) return above(KO::key(*p), false); bool seen = false; for (int i = 0; i < VP_MAPCAP; i++) if (us[i]) { if (seen) return d[i]; if (d[i] == p) seen = true; } return 0; }
  void drop(V *p) { vp_assert(p != 0, "erase at the end of a container"); for (int i = 0; i < VP_MAPCAP; i++) if (us[i] && d[i] == p) us[i] = false; p->~V(); vp_cell_free(p); n--; }
  iterator begin() { return iterator(this, fst()); } iterator end() { return iterator(this, 0); } const_iterator begin() const { return const_iterator(this, fst()); } const_iterator end() const { return const_iterator(this, 0); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  size_t size() const { return n; } bool empty() const { return n == 0; } void reserve(size_t) {} void rehash(size_t) {}
  iterator find(const K &k) { return iterator(this, look(k)); } const_iterator find(const K &k) const { return const_iterator(this, look(k)); } size_t count(const K &k) const { return look(k) != 0; }
  iterator lower_bound(const K &k) { return iterator(this, above(k, true)); } iterator upper_bound(const K &k) { return iterator(this, above(k, false)); }
  pair<iterator, bool> insert(const V &v) { V *p = look(KO::key(v)); if (p) return pair<iterator, bool>(iterator(this, p), false); p = add(v); return pair<iterator, bool>(iterator(this, p), true); }
  template <class P, class = typename enable_if<!is_same<typename decay<P>::type, V>::value>::type> pair<iterator, bool> insert(P &&p) { return insert(V(p)); }
  iterator insert(const_iterator, const V &v) { return insert(v).first; }
  template <class I> void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
  template <class... X> pair<iterator, bool> emplace(X &&...x) { return insert(V(forward<X>(x)...)); }
  iterator erase(iterator i) { V *q = nxt(i.p); drop(i.p); return iterator(this, q); }
  size_t erase(const K &k) { V *p = look(k); if (!p) return 0; drop(p); return 1; }
  void swap(vp_assoc &o) { vp_assoc t(o); o = *this; *this = t; }
};
template <class V> struct vp_k1 { static auto key(const V &v) -> decltype((v.first)) { return v.first; } };
template <class V> struct vp_k0 { static const V &key(const V &v) { return v; } };
template <class K, class T, bool S> class vp_map : public vp_assoc<K, pair<const K, T>, vp_k1<pair<const K, T> >, S> { typedef pair<const K, T> P;
public: typedef T mapped_type;
  T &operator[](const K &k) { P *p = this->look(k); if (!p) p = this->add(P(k, T())); return p->second; }
  T &at(const K &k) { P *p = this->look(k); if (!p) throw out_of_range("map::at"); return p->second; } const T &at(const K &k) const { P *p = this->look(k); if (!p) throw out_of_range("map::at"); return p->second; } };
template <class K, class T, class C = less<K>, class A = allocator<K> > class map : public vp_map<K, T, true> {};
template <class K, class T, class H = hash<K>, class E = equal_to<K>, class A = allocator<K> > class unordered_map : public vp_map<K, T, false> {};
template <class K, class C = less<K>, class A = allocator<K> > class set : public vp_assoc<K, K, vp_k0<K>, true> {};
template <class K, class H = hash<K>, class E = equal_to<K>, class A = allocator<K> > class unordered_set : public vp_assoc<K, K, vp_k0<K>, false> {};
}
#endif
