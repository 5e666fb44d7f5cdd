/* Fixed-capacity models of the C++ standard library, used only on the solver side (the replay uses libstdc++).
   Storage is inline; exceeding a capacity is reported as VP-BOUND, never silently cut. */
#ifndef VP_CORE_H
#define VP_CORE_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifndef VP_STRCAP
#define VP_STRCAP 24
#endif
#ifndef VP_VECCAP
#define VP_VECCAP 6
#endif
#ifndef VP_MAPCAP
#define VP_MAPCAP 5
#endif
#ifndef VP_DEQCAP
#define VP_DEQCAP 8
#endif
extern "C" { void *vp_cell(const void *proto, size_t n); void vp_cell_free(void *); void vp_assert(int, const char *); void vp_assume(int); }
#define VP_BOUND(c) do { vp_assert(!!(c), "VP-BOUND model capacity"); vp_assume(!!(c)); } while (0)
inline void *operator new(size_t, void *p) noexcept { return p; }
inline void *operator new[](size_t, void *p) noexcept { return p; }
inline void operator delete(void *, void *) noexcept {}
template <class T> struct vp_proto { static T x; };
#define VP_CELL(T) ((T *)vp_cell(&vp_proto<T>::x, sizeof(T)))
namespace std {
typedef ::size_t size_t; typedef ::ptrdiff_t ptrdiff_t; typedef decltype(nullptr) nullptr_t;
struct nothrow_t {}; 
/* type traits */
template <class T> struct remove_reference { typedef T type; }; template <class T> struct remove_reference<T &> { typedef T type; }; template <class T> struct remove_reference<T &&> { typedef T type; };
template <class T> struct remove_const { typedef T type; }; template <class T> struct remove_const<const T> { typedef T type; };
template <class T> struct remove_cv { typedef typename remove_const<T>::type type; };
template <class T> struct decay { typedef typename remove_const<typename remove_reference<T>::type>::type type; };
template <bool B, class T = void> struct enable_if {}; template <class T> struct enable_if<true, T> { typedef T type; };
template <bool B, class T, class F> struct conditional { typedef T type; }; template <class T, class F> struct conditional<false, T, F> { typedef F type; };
template <class T, T v> struct integral_constant { static constexpr T value = v; typedef T value_type; constexpr operator T() const { return v; } };
typedef integral_constant<bool, true> true_type; typedef integral_constant<bool, false> false_type;
template <class A, class B> struct is_same : false_type {}; template <class A> struct is_same<A, A> : true_type {};
template <class T> struct is_integral : false_type {};
template <> struct is_integral<bool> : true_type {}; template <> struct is_integral<char> : true_type {}; template <> struct is_integral<signed char> : true_type {}; template <> struct is_integral<unsigned char> : true_type {};
template <> struct is_integral<short> : true_type {}; template <> struct is_integral<unsigned short> : true_type {}; template <> struct is_integral<int> : true_type {}; template <> struct is_integral<unsigned> : true_type {};
template <> struct is_integral<long> : true_type {}; template <> struct is_integral<unsigned long> : true_type {}; template <> struct is_integral<long long> : true_type {}; template <> struct is_integral<unsigned long long> : true_type {};
template <class T> struct is_pointer : false_type {}; template <class T> struct is_pointer<T *> : true_type {};
template <class T> struct is_arithmetic : integral_constant<bool, is_integral<T>::value || is_same<T, float>::value || is_same<T, double>::value> {};
template <class T> struct is_scalar : integral_constant<bool, is_arithmetic<T>::value || is_pointer<T>::value || __is_enum(T)> {};
template <class T> struct is_signed : integral_constant<bool, (T(-1) < T(0))> {};
template <class T> struct make_unsigned { typedef T type; }; template <> struct make_unsigned<char> { typedef unsigned char type; }; template <> struct make_unsigned<int> { typedef unsigned type; }; template <> struct make_unsigned<long> { typedef unsigned long type; };
template <class T> struct is_trivially_copyable : integral_constant<bool, __is_trivially_copyable(T)> {};
template <class T> struct is_pod : integral_constant<bool, __is_pod(T)> {};
/* utility */
template <class T> typename remove_reference<T>::type &&move(T &&t) noexcept { return static_cast<typename remove_reference<T>::type &&>(t); }
template <class T> T &&forward(typename remove_reference<T>::type &t) noexcept { return static_cast<T &&>(t); }
template <class T> T &&forward(typename remove_reference<T>::type &&t) noexcept { return static_cast<T &&>(t); }
template <class T> void swap(T &a, T &b) { T t(a); a = b; b = t; }
template <class T, size_t VN> void swap(T (&a)[VN], T (&b)[VN]) { for (size_t i = 0; i < VN; i++) swap(a[i], b[i]); }
template <class T> T exchange(T &a, T b) { T t(a); a = b; return t; }
template <class T> T *addressof(T &t) noexcept { return (T *)&(char &)t; }
template <class A, class B> struct pair {
  typedef A first_type; typedef B second_type; A first; B second;
  pair() : first(), second() {}
  pair(const A &a, const B &b) : first(a), second(b) {}
  template <class C, class D> pair(C &&c, D &&d) : first(c), second(d) {}
  template <class C, class D> pair(const pair<C, D> &p) : first(p.first), second(p.second) {}
  pair(const pair &) = default;
  pair &operator=(const pair &p) { first = p.first; second = p.second; return *this; }
  template <class C, class D> pair &operator=(const pair<C, D> &p) { first = p.first; second = p.second; return *this; }
};
template <class A, class B> pair<typename decay<A>::type, typename decay<B>::type> make_pair(A &&a, B &&b) { return pair<typename decay<A>::type, typename decay<B>::type>(a, b); }
template <class A, class B> bool operator==(const pair<A, B> &x, const pair<A, B> &y) { return x.first == y.first && x.second == y.second; }
template <class A, class B> bool operator!=(const pair<A, B> &x, const pair<A, B> &y) { return !(x == y); }
template <class A, class B> bool operator<(const pair<A, B> &x, const pair<A, B> &y) { return x.first < y.first || (!(y.first < x.first) && x.second < y.second); }
template <class E> class initializer_list { const E *a; size_t l; public: typedef E value_type; typedef const E *iterator; typedef const E *const_iterator; initializer_list() noexcept : a(0), l(0) {} size_t size() const noexcept { return l; } const E *begin() const noexcept { return a; } const E *end() const noexcept { return a + l; } };
template <class T> struct less { bool operator()(const T &a, const T &b) const { return a < b; } };
template <class T> struct greater { bool operator()(const T &a, const T &b) const { return b < a; } };
template <class T> struct equal_to { bool operator()(const T &a, const T &b) const { return a == b; } };
template <class T> struct hash { size_t operator()(const T &) const { return 0; } };
template <class T> struct allocator { typedef T value_type; };
template <class C> struct char_traits { typedef C char_type; static size_t length(const C *s) { size_t n = 0; while (s[n]) n++; return n; } };
struct random_access_iterator_tag {}; struct forward_iterator_tag {}; struct bidirectional_iterator_tag {}; struct input_iterator_tag {}; struct output_iterator_tag {};
template <class I> struct iterator_traits { typedef typename I::value_type value_type; typedef ptrdiff_t difference_type; typedef value_type &reference; typedef value_type *pointer; };
template <class T> struct iterator_traits<T *> { typedef T value_type; typedef ptrdiff_t difference_type; typedef T &reference; typedef T *pointer; typedef random_access_iterator_tag iterator_category; };
template <class T> struct iterator_traits<const T *> { typedef T value_type; typedef ptrdiff_t difference_type; typedef const T &reference; typedef const T *pointer; typedef random_access_iterator_tag iterator_category; };
/* reverse iterator */
template <class I> struct reverse_iterator { I i; typedef typename iterator_traits<I>::value_type value_type; reverse_iterator() {} explicit reverse_iterator(I x) : i(x) {} template <class J> reverse_iterator(const reverse_iterator<J> &o) : i(o.i) {}
  I base() const { return i; } auto operator*() const -> decltype(*i) { I t = i; --t; return *t; } value_type *operator->() const { I t = i; --t; return &*t; }
  reverse_iterator &operator++() { --i; return *this; } reverse_iterator operator++(int) { reverse_iterator t = *this; --i; return t; } reverse_iterator &operator--() { ++i; return *this; }
  bool operator==(const reverse_iterator &o) const { return i == o.i; } bool operator!=(const reverse_iterator &o) const { return i != o.i; } };
template <class C> auto begin(C &c) -> decltype(c.begin()) { return c.begin(); } template <class C> auto end(C &c) -> decltype(c.end()) { return c.end(); }
template <class C> auto begin(const C &c) -> decltype(c.begin()) { return c.begin(); } template <class C> auto end(const C &c) -> decltype(c.end()) { return c.end(); }
template <class T, size_t VN> T *begin(T (&a)[VN]) { return a; } template <class T, size_t VN> T *end(T (&a)[VN]) { return a + VN; }
template <class I> void advance(I &i, ptrdiff_t n) { for (; n > 0; n--) ++i; for (; n < 0; n++) --i; }
template <class I> ptrdiff_t distance(I a, I b) { ptrdiff_t n = 0; for (; !(a == b); ++a) n++; return n; }
template <class T> ptrdiff_t distance(T *a, T *b) { return b - a; }
template <class I> I next(I i, ptrdiff_t n = 1) { advance(i, n); return i; }
template <class I> I prev(I i, ptrdiff_t n = 1) { advance(i, -n); return i; }
/* algorithm */
template <class T> const T &min(const T &a, const T &b) { return b < a ? b : a; } template <class T> const T &max(const T &a, const T &b) { return a < b ? b : a; }
template <class T, class C> const T &min(const T &a, const T &b, C c) { return c(b, a) ? b : a; } template <class T, class C> const T &max(const T &a, const T &b, C c) { return c(a, b) ? b : a; }
template <class I, class O> O copy(I a, I b, O o) { for (; a != b; ++a, ++o) *o = *a; return o; }
template <class I, class O> O copy_n(I a, size_t n, O o) { for (size_t i = 0; i < n; ++a, ++o, i++) *o = *a; return o; }
template <class I, class O> O copy_backward(I a, I b, O o) { while (b != a) *--o = *--b; return o; }
template <class I, class T> void fill(I a, I b, const T &v) { for (; a != b; ++a) *a = v; } template <class I, class T> I fill_n(I a, size_t n, const T &v) { for (size_t i = 0; i < n; i++, ++a) *a = v; return a; }
template <class I, class T> I find(I a, I b, const T &v) { for (; a != b; ++a) if (*a == v) break; return a; }
template <class I, class P> I find_if(I a, I b, P p) { for (; a != b; ++a) if (p(*a)) break; return a; }
template <class I, class P> bool all_of(I a, I b, P p) { for (; a != b; ++a) if (!p(*a)) return false; return true; }
template <class I, class P> bool any_of(I a, I b, P p) { for (; a != b; ++a) if (p(*a)) return true; return false; }
template <class I, class P> bool none_of(I a, I b, P p) { return !any_of(a, b, p); }
template <class I, class T> size_t count(I a, I b, const T &v) { size_t n = 0; for (; a != b; ++a) if (*a == v) n++; return n; }
template <class I, class F> F for_each(I a, I b, F f) { for (; a != b; ++a) f(*a); return f; }
template <class I, class O, class F> O transform(I a, I b, O o, F f) { for (; a != b; ++a, ++o) *o = f(*a); return o; }
template <class I, class J> bool equal(I a, I b, J c) { for (; a != b; ++a, ++c) if (!(*a == *c)) return false; return true; }
template <class I, class J> void swap_ranges_(I a, I b, J c) { for (; a != b; ++a, ++c) swap(*a, *c); }
template <class I, class J> J swap_ranges(I a, I b, J c) { for (; a != b; ++a, ++c) swap(*a, *c); return c; }
template <class I> void reverse(I a, I b) { while (a != b && a != --b) { swap(*a, *b); ++a; } }
template <class I, class J> void iter_swap(I a, J b) { swap(*a, *b); }
template <class T> class unique_ptr { T *p; public: explicit unique_ptr(T *x = 0) : p(x) {} ~unique_ptr() { delete p; } unique_ptr(unique_ptr &&o) : p(o.p) { o.p = 0; } T *get() const { return p; } T &operator*() const { return *p; } T *operator->() const { return p; } T *release() { T *t = p; p = 0; return t; } void reset(T *x = 0) { delete p; p = x; } explicit operator bool() const { return p != 0; } private: unique_ptr(const unique_ptr &); };
template <class T> class unique_ptr<T[]> { T *p; public: explicit unique_ptr(T *x = 0) : p(x) {} ~unique_ptr() { delete[] p; } unique_ptr(unique_ptr &&o) : p(o.p) { o.p = 0; } T *get() const { return p; } T &operator[](size_t i) const { return p[i]; } T *release() { T *t = p; p = 0; return t; } void reset(T *x = 0) { delete[] p; p = x; } private: unique_ptr(const unique_ptr &); };
template <class T> struct numeric_limits { static constexpr T max() { return (T(-1) < T(0)) ? (T)((((T)1 << (sizeof(T) * 8 - 2)) - 1) * 2 + 1) : (T)-1; } static constexpr T min() { return (T(-1) < T(0)) ? (T)(-max() - 1) : (T)0; } };
template <class T, size_t VN> struct array { T d[VN ? VN : 1]; T &operator[](size_t i) { return d[i]; } const T &operator[](size_t i) const { return d[i]; } size_t size() const { return VN; } T *begin() { return d; } T *end() { return d + VN; } const T *begin() const { return d; } const T *end() const { return d + VN; } T *data() { return d; } const T *data() const { return d; } void fill(const T &v) { for (size_t i = 0; i < VN; i++) d[i] = v; } };
/* exceptions */
class exception { public: exception() noexcept {} exception(const exception &) noexcept {} virtual ~exception() noexcept {} virtual const char *what() const noexcept { return "std::exception"; } };
class bad_exception : public exception {};
class bad_alloc : public exception { public: const char *what() const noexcept { return "std::bad_alloc"; } };
#define VP_EXC(n, b) class n : public b { public: explicit n(const char *s) : b(s) {} template <class S> explicit n(const S &s) : b(s.c_str()) {} };
class logic_error : public exception { char m[24]; public: explicit logic_error(const char *s) { size_t i = 0; for (; i < 23 && s[i]; i++) m[i] = s[i]; m[i] = 0; } template <class S> explicit logic_error(const S &s) { m[0] = 0; } const char *what() const noexcept { return m; } };
class runtime_error : public exception { char m[24]; public: explicit runtime_error(const char *s) { size_t i = 0; for (; i < 23 && s[i]; i++) m[i] = s[i]; m[i] = 0; } template <class S> explicit runtime_error(const S &s) { m[0] = 0; } const char *what() const noexcept { return m; } };
VP_EXC(invalid_argument, logic_error) VP_EXC(out_of_range, logic_error) VP_EXC(length_error, logic_error) VP_EXC(domain_error, logic_error) VP_EXC(range_error, runtime_error) VP_EXC(overflow_error, runtime_error)
inline bool uncaught_exception() noexcept { return false; }
void terminate() noexcept;
}
#endif
