// auto_buffer (C19): the most general client of two buffers that never have
// more than MAXN elements, next to plain arrays that say what they must hold.
// KIND: 0 copies may throw, 1 copies do not throw, 2 trivial type
#include "user.hpp"
#include <boost/signals2/detail/auto_buffer.hpp>
#include <new>
#ifndef KIND
#define KIND 0
#endif
#ifndef ROOM
#define ROOM 2
#endif
#ifndef MAXN
#define MAXN 3
#endif
using user::check; using user::choose; using user::known;
namespace s2d = boost::signals2::detail;
static int live;
struct Ex {};
#if KIND == 2
typedef int El;
static int val(const El &e) { return e; }
#else
struct El {
  int v, mark;
  El() : v(0), mark(0) { may_throw(); mark = 77; ++live; }
  El(int x) : v(x), mark(77) { ++live; }
  El(const El &o)
#if KIND == 1
  noexcept
#endif
  : v(0), mark(0) { o.used(); may_throw(); v = o.v; mark = 77; ++live; }
  El &operator=(const El &o)
#if KIND == 1
  noexcept
#endif
  { used(); o.used(); may_throw(); v = o.v; return *this; }
  ~El() { check(mark == 77, "C19: an element that was not constructed, or was destroyed, is destroyed"); v = 0; mark = 0; --live; }
  void used() const { check(mark == 77, "C19: an element that was not constructed, or was destroyed, is used"); }
  static void may_throw() {
#if KIND == 0
    if(choose()) throw Ex();
#endif
  }
};
static int val(const El &e) { e.used(); return e.v; }
static bool operator==(const El &a, const El &b) { return val(a) == val(b); }
static bool operator<(const El &a, const El &b) { return val(a) < val(b); }
#endif
// what is allocated is given back, once and with the size it had
static long blocks, room;
template<class T> struct Al {
  typedef T value_type; typedef T *pointer; typedef const T *const_pointer; typedef T &reference; typedef const T &const_reference; typedef unsigned long size_type; typedef long difference_type;
  template<class U> struct rebind { typedef Al<U> other; };
  Al() {} Al(const Al &) {} template<class U> Al(const Al<U> &) {}
  T *allocate(unsigned long n) { check(n > ROOM, "C19: memory is allocated only if the object itself has no room"); T *p = static_cast<T *>(::operator new(n * sizeof(T))); ++blocks; room += (long)n; return p; }
  void deallocate(T *p, unsigned long n) { check(p != 0, "C19: memory is given back that was not allocated"); --blocks; room -= (long)n; ::operator delete(p); }
  bool operator==(const Al &) const { return true; } bool operator!=(const Al &) const { return false; }
};
typedef s2d::auto_buffer<El, s2d::store_n_objects<ROOM>, s2d::default_grow_policy, Al<El> > B;
struct Model { int n; int v[MAXN + 1]; };
static Model m[2];
static void put(Model &x, int v) { x.v[x.n++] = v; }
static void drop(Model &x) { x.v[--x.n] = 0; }
static void same(const B &b, Model &x) {
  check(b.size() == (unsigned)x.n, "C19: size() is the number of elements pushed and not removed");
  check(b.empty() == (x.n == 0), "C19: empty() says whether there are elements");
  check(b.size() <= b.capacity(), "C19: the capacity is not less than the size");
  check(b.full() == (b.size() == b.capacity()), "C19: full() says whether there is no room left");
  check(b.capacity() >= ROOM, "C19: the capacity is not less than that of the object itself");
  check(b.is_on_stack() == (b.capacity() <= ROOM), "C19: is_on_stack() says whether the elements are in the object itself");
  const char *lo = (const char *)&b, *hi = lo + sizeof(B), *p = (const char *)b.data();
  if(b.capacity()) check(known(p >= lo && p < hi) == (b.capacity() <= ROOM), "C19: elements are in the object itself exactly if there is room for them");
  check(b.end() - b.begin() == x.n, "C19: begin() and end() enclose the elements");
  for(int i = 0; i < x.n; ++i) { check(val(b[i]) == x.v[i], "C19: the elements are those pushed, in the order of pushing"); check(&b.begin()[i] == &const_cast<B &>(b)[i], "C19: begin() and end() enclose the elements"); }
  if(x.n) { check(val(b.front()) == x.v[0], "C19: front() is the first element"); check(val(b.back()) == x.v[x.n - 1], "C19: back() is the last element"); }
}
static void count(int n) {
#if KIND != 2
  check(live == n, "C19: each element is constructed and destroyed exactly once");
#endif
}
static void end() { count(0); check(blocks == 0, "C19: all memory allocated is given back"); check(room == 0, "C19: memory is given back with the size it was allocated with"); }
static int any() { return choose() ? 1 : 0; }
static void start() { live = 0; blocks = room = 0; for(int j = 0; j < 2; ++j) { m[j].n = 0; for(int i = 0; i <= MAXN; ++i) m[j].v[i] = 0; } }
// after an exception the contents are what the operation left, but a valid buffer all the same
static void resync(const B &b, Model &x) { int n = (int)b.size(); check(n <= MAXN, "C19: size() is the number of elements pushed and not removed"); for(int i = 0; i <= MAXN; ++i) x.v[i] = i < n ? val(b[i]) : 0; x.n = n; }
// pushing, popping and clearing one buffer, in any order
void h_buf_push() {
  start();
  { B b;
    same(b, m[0]);
    while(choose()) {
      Model old = m[0]; unsigned cap = b.capacity();
      try {
        if(m[0].n < MAXN && choose()) { int x = any(); b.push_back(El(x)); put(m[0], x); }
#if KIND != 2
        else if(m[0].n < MAXN && choose()) { b.push_back(); put(m[0], b.size() ? val(b.back()) : 0); }
#endif
        else if(m[0].n + 2 <= MAXN && choose()) { El r[2] = {El(any()), El(any())}; int p = val(r[0]), q = val(r[1]); b.push_back(r, r + 2); put(m[0], p); put(m[0], q); }
        else if(m[0].n && choose()) { b.pop_back(); drop(m[0]); check(b.capacity() == cap, "C19: removing elements does not move the others"); }
        else if(m[0].n > 1 && choose()) { b.pop_back_n(2); drop(m[0]); drop(m[0]); check(b.capacity() == cap, "C19: removing elements does not move the others"); }
        else if(m[0].n < MAXN && choose()) { int x = any(); El *p = b.uninitialized_grow(1); new(p) El(x); put(m[0], x); }
#if KIND != 2
        else if(m[0].n && choose()) { b.back().~El(); b.uninitialized_shrink(1); drop(m[0]); check(b.capacity() == cap, "C19: removing elements does not move the others"); }
#endif
        else if(choose()) { b.clear(); while(m[0].n) drop(m[0]); check(b.capacity() == cap, "C19: removing elements does not move the others"); }
        else if(choose()) { b.reserve(MAXN); check(b.capacity() >= MAXN, "C19: reserve() makes room"); }
        else if(choose()) { b.reserve_precisely(MAXN); check(b.capacity() >= MAXN, "C19: reserve() makes room"); }
        else { b.shrink_to_fit(); check(b.capacity() == (b.size() > ROOM ? b.size() : ROOM), "C19: shrink_to_fit() gives up the room not needed"); }
      } catch(Ex &) { m[0] = old; } catch(std::bad_alloc &) { m[0] = old; }      // (nothing has changed)
      same(b, m[0]); count(m[0].n);
    }
  }
  end();
}
// inserting and erasing
void h_buf_insert() {
  start();
  { B b;
    while(choose()) {
      try {
        if(m[0].n < MAXN && choose()) { int x = any(); b.push_back(El(x)); put(m[0], x); }
        else if(m[0].n < MAXN && choose()) { int at = 0; while(at < m[0].n && choose()) ++at; int x = any(); B::iterator i = b.insert(b.cbegin() + at, El(x)); for(int k = m[0].n; k > at; --k) m[0].v[k] = m[0].v[k - 1]; m[0].v[at] = x; ++m[0].n; check(i == b.begin() + at, "C19: insert() returns the position of the new element"); }
        else if(m[0].n && choose()) { int at = 0; while(at + 1 < m[0].n && choose()) ++at; B::iterator i = b.erase(b.cbegin() + at); for(int k = at; k + 1 < m[0].n; ++k) m[0].v[k] = m[0].v[k + 1]; drop(m[0]); check(i == b.begin() + at, "C19: erase() returns the position after the element erased"); }
        else if(choose()) { int at = 0; while(at < m[0].n && choose()) ++at; int to = at; while(to < m[0].n && choose()) ++to; B::iterator i = b.erase(b.cbegin() + at, b.cbegin() + to); check(i == b.begin() + at, "C19: erase() returns the position after the elements erased"); int d = to - at; for(int k = to; k < m[0].n; ++k) m[0].v[k - d] = m[0].v[k]; while(d--) drop(m[0]); }
        else if(m[0].n + 2 <= MAXN && choose()) { int at = 0; while(at < m[0].n && choose()) ++at; int x = any(); El e(x); b.insert(b.cbegin() + at, (B::size_type)2, e); for(int k = m[0].n + 1; k > at + 1; --k) m[0].v[k] = m[0].v[k - 2]; m[0].v[at] = m[0].v[at + 1] = x; m[0].n += 2; }
        else if(m[0].n + 2 <= MAXN && choose()) { int at = 0; while(at < m[0].n && choose()) ++at; int x = any(), y = any(); El e[2] = {El(x), El(y)}; b.insert(b.cbegin() + at, e, e + 2); for(int k = m[0].n + 1; k > at + 1; --k) m[0].v[k] = m[0].v[k - 2]; m[0].v[at] = x; m[0].v[at + 1] = y; m[0].n += 2; }
        else if(choose()) b.shrink_to_fit();
      } catch(Ex &) { resync(b, m[0]); } catch(std::bad_alloc &) { resync(b, m[0]); }
      same(b, m[0]); count(m[0].n);
    }
  }
  end();
}
// copying, assigning and swapping two buffers
static void fill(B &b, Model &x) {
  if(choose()) b.reserve(MAXN);
  while(x.n < MAXN && choose()) { int v = any(); b.push_back(El(v)); put(x, v); }
}
void h_buf_copy() {
  start();
  try { B b; fill(b, m[0]); { B c(b); same(c, m[0]); same(b, m[0]); count(2 * m[0].n); } same(b, m[0]); count(m[0].n); } catch(Ex &) {} catch(std::bad_alloc &) {}
  end();
}
void h_buf_range() {
  start();
  try { B b; fill(b, m[0]); { B c(b.begin(), b.end()); same(c, m[0]); same(b, m[0]); count(2 * m[0].n); } same(b, m[0]); count(m[0].n); } catch(Ex &) {} catch(std::bad_alloc &) {}
  end();
}
void h_buf_fill() {
  start();
  try { int n = 0; while(n < MAXN && choose()) ++n; int x = any(); { El e(x); B c((unsigned long)n, e); for(int i = 0; i < n; ++i) put(m[0], x); same(c, m[0]); count(n + 1); } } catch(Ex &) {} catch(std::bad_alloc &) {}
  end();
}
void h_buf_assign() {
  start();
  try { B b, c; fill(b, m[0]); fill(c, m[1]);
    try { b = c; same(b, m[1]); } catch(...) { resync(b, m[0]); same(b, m[0]); same(c, m[1]); throw; }
    same(c, m[1]); count(2 * m[1].n); b = *&b; same(b, m[1]); } catch(Ex &) {} catch(std::bad_alloc &) {}
  end();
}
void h_buf_swap() {
  start();
  try { B b, c; fill(b, m[0]); fill(c, m[1]); unsigned cb = b.capacity(), cc = c.capacity();
    try { b.swap(c); same(b, m[1]); same(c, m[0]); check(b.capacity() == cc && c.capacity() == cb, "C19: swap() exchanges the capacities"); } catch(...) { resync(b, m[0]); resync(c, m[1]); same(b, m[0]); same(c, m[1]); }
    count(m[0].n + m[1].n); } catch(Ex &) {} catch(std::bad_alloc &) {}
  end();
}
#if KIND != 2
void h_buf_compare() {
  start();
  try { B b, c; fill(b, m[0]); fill(c, m[1]);
    int r = 0, i = 0; while(r == 0 && i < m[0].n && i < m[1].n) { r = m[0].v[i] - m[1].v[i]; ++i; } if(r == 0) r = m[0].n - m[1].n;
    check((b == c) == (r == 0) && (b != c) == (r != 0), "C19: two buffers are equal if they have the same elements in the same order");
    check((b < c) == (r < 0) && (b > c) == (r > 0) && (b <= c) == (r <= 0) && (b >= c) == (r >= 0), "C19: buffers are ordered by their elements");
    i = m[0].n; for(B::reverse_iterator k = b.rbegin(); k != b.rend(); ++k) { check(i > 0 && val(*k) == m[0].v[i - 1], "C19: reverse iterators go through the elements from the last to the first"); --i; } check(i == 0, "C19: reverse iterators go through the elements from the last to the first"); } catch(Ex &) {} catch(std::bad_alloc &) {}
  end();
}
#endif
