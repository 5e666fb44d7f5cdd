/* A string of any length seen through one arbitrary but fixed position vp_ghost_k (a solver variable): its size and the
   character at that position.  For results that are only ever appended to; anything else is reported as VP-BOUND. */
#ifndef VP_GHOST_H
#define VP_GHOST_H
extern "C" size_t vp_ghost_k;
namespace std {
template <class C, class Tr = char_traits<C>, class Al = allocator<C> > class basic_string {
  size_t n; C c;
  void in(size_t at, const C *s, size_t l) { if (vp_ghost_k >= at && vp_ghost_k - at < l) c = s[vp_ghost_k - at]; }
public:
  typedef C value_type; typedef size_t size_type; typedef C &reference; typedef ptrdiff_t difference_type;
  static const size_t npos = (size_t)-1;
  basic_string() : n(0), c(0) {} basic_string(const basic_string &o) : n(o.n), c(o.c) {}
  basic_string(const C *s) : n(0), c(0) { append(s, Tr::length(s)); } basic_string(const C *s, size_t l) : n(0), c(0) { append(s, l); } basic_string(size_t l, C x) : n(0), c(0) { append(l, x); } basic_string(const C *a, const C *b) : n(0), c(0) { append(a, b - a); }
  basic_string &operator=(const basic_string &o) { n = o.n; c = o.c; return *this; } basic_string &operator=(const C *s) { return assign(s); }
  size_t size() const { return n; } size_t length() const { return n; } bool empty() const { return n == 0; } size_t capacity() const { return n; } void reserve(size_t = 0) {} void clear() { n = 0; } void shrink_to_fit() {} size_t max_size() const { return npos / 2; }
  C &operator[](size_t i) { VP_BOUND(i == vp_ghost_k); return c; } const C &operator[](size_t i) const { VP_BOUND(i == vp_ghost_k); return c; } C &at(size_t i) { if (i >= n) throw out_of_range("at"); return (*this)[i]; }
  void push_back(C x) { if (n == vp_ghost_k) c = x; n++; } void pop_back() { n--; } void resize(size_t m, C x = C()) { if (m > n) append(m - n, x); else n = m; }
  basic_string &append(const C *s, size_t l) { in(n, s, l); if (l) { vp_touch(s); vp_touch(s + (l - 1)); } n += l; return *this; }
  basic_string &append(const C *s) { return append(s, Tr::length(s)); } basic_string &append(const basic_string &o) { VP_BOUND(o.n == 0 || n == 0); if (n == 0) c = o.c; n += o.n; return *this; } basic_string &append(size_t l, C x) { if (vp_ghost_k >= n && vp_ghost_k - n < l) c = x; n += l; return *this; } basic_string &append(const C *a, const C *b) { return append(a, b - a); }
  basic_string &operator+=(const basic_string &o) { return append(o); } basic_string &operator+=(const C *s) { return append(s); } basic_string &operator+=(C x) { push_back(x); return *this; }
  basic_string &assign(const C *s, size_t l) { n = 0; return append(s, l); } basic_string &assign(const C *s) { n = 0; return append(s); } basic_string &assign(const basic_string &o) { return *this = o; } basic_string &assign(size_t l, C x) { n = 0; return append(l, x); }
  void swap(basic_string &o) { basic_string t(o); o = *this; *this = t; }
  const C *c_str() const { VP_BOUND(0); return 0; } const C *data() const { VP_BOUND(0); return 0; }
private: static void vp_touch(const C *p) { volatile C x = *p; (void)x; }
};
template <class C, class T, class A> const size_t basic_string<C, T, A>::npos;
typedef basic_string<char> string;
}
#endif
