// scoped_connection and connection as handles (C11, C25)
#include "sig.hpp"
using user::check; using user::choose; using user::may_disconnect;
typedef s2::connection C; typedef s2::scoped_connection SC;
static bool same(const C &a, const C &b) { return a == b; }
// C11
void h_scoped_dtor(const C &c) { { SC sc(c); check(same(sc, c), "C11: a scoped_connection refers to the connection it was made from"); may_disconnect(&c); } check(!c.connected(), "C11: destroying a scoped_connection disconnects its connection"); }
void h_scoped_from_rvalue(const C &c) { { C t(c); SC sc(std::move(t)); check(same(sc, c), "C11: a scoped_connection refers to the connection moved into it"); check(same(t, C()), "C11: a connection moved into a scoped_connection refers to none"); may_disconnect(&c); } check(!c.connected(), "C11: destroying a scoped_connection disconnects its connection"); }
void h_scoped_default(const C &c) { SC sc; check(same(sc, C()), "C11: a new scoped_connection refers to none"); SC e((C())); check(!e.connected(), "C11: an empty scoped_connection is not connected"); }
void h_scoped_release(const C &c) { C r; { SC sc(c); r = sc.release(); check(same(sc, C()), "C11: a released scoped_connection refers to none"); check(same(r, c), "C11: release() yields the connection"); } check(same(r, c), "C11: the released connection is left alone"); }
void h_scoped_release2(const C &c, const C &d) { SC sc(c); C r = sc.release(); sc = d; check(same(sc, d), "C11: a released scoped_connection can be assigned to"); may_disconnect(&d); }
void h_scoped_move(const C &c) { { SC sc(c); { SC to(std::move(sc)); check(same(sc, C()), "C11: a moved-from scoped_connection refers to none"); check(same(to, c), "C11: moving transfers the connection"); C r = to.release(); sc = SC(r); check(same(sc, c), "C11: move assignment transfers the connection"); } check(same(sc, c), "C11: the connection is still owned"); may_disconnect(&c); } check(!c.connected(), "C11: destroying a scoped_connection disconnects its connection"); }
void h_scoped_moved_from(const C &c) { C keep; { SC to; { SC sc(c); to = std::move(sc); check(same(sc, C()), "C11: a moved-from scoped_connection refers to none"); } check(same(to, c), "C11: move assignment transfers the connection"); keep = to.release(); } check(same(keep, c), "C11: a moved-from scoped_connection does not disconnect"); }
void h_scoped_assign(const C &c, const C &d) { SC sc(c); may_disconnect(&c); sc = d; check(!c.connected(), "C11: assigning to a scoped_connection disconnects the connection it referred to"); check(same(sc, d), "C11: assignment transfers the connection"); sc.release(); }
void h_scoped_assign_move(const C &c, const C &d) { SC sc(c); SC from(d); may_disconnect(&c); sc = std::move(from); check(!c.connected(), "C11: assigning to a scoped_connection disconnects the connection it referred to"); check(same(sc, d), "C11: move assignment transfers the connection"); check(same(from, C()), "C11: a moved-from scoped_connection refers to none"); sc.release(); }
void h_scoped_assign_rvalue(const C &c, const C &d) { SC sc(c); C from(d); may_disconnect(&c); sc = std::move(from); check(!c.connected(), "C11: assigning to a scoped_connection disconnects the connection it referred to"); check(same(sc, d), "C11: move assignment transfers the connection"); check(same(from, C()), "C11: a moved-from connection refers to none"); sc.release(); }
void h_scoped_self_move(const C &c) { SC sc(c); SC &alias = sc; sc = std::move(alias); check(same(sc, c), "C11: self-move has no effect"); C &base = sc; sc = std::move(base); check(same(sc, c), "C11: self-move has no effect"); sc.release(); }
void h_scoped_swap(const C &c, const C &d) { SC a(c), b(d); swap(a, b); check(same(a, d) && same(b, c), "C11: swap exchanges the connections"); a.swap(b); check(same(a, c) && same(b, d), "C11: swap exchanges the connections"); a.release(); b.release(); }
void h_scoped_to_connection(const C &c) { SC sc(c); C k(sc); check(same(k, c), "C11: copying out of a scoped_connection"); C m(std::move(sc)); check(same(m, c) && same(sc, C()), "C11: moving out of a scoped_connection leaves it without a connection"); }
void h_scoped_move_to_connection(const C &c) { SC sc(c); C m; m = std::move(sc); check(same(m, c) && same(sc, C()), "C11: moving out of a scoped_connection leaves it without a connection"); }
// C25
void h_conn_eq(const C &a, const C &b) {
  user::sequential(); bool ab = a == b, ba = b == a; check(ab == ba, "C25: == is symmetric"); check(a == a, "C25: == is reflexive"); check((a != b) == !ab, "C25: != is the negation of ==");
  bool lt = a < b, gt = b < a; check(!(lt && gt), "C25: < is asymmetric"); check(!(a < a), "C25: < is irreflexive"); check(ab == (!lt && !gt), "C25: < is consistent with ==");
}
void h_conn_copy(const C &a) { C b(a); check(b == a, "C25: a copy equals the original"); C d; check(d == C(), "C25: connections that refer to none are equal"); check(!(d < C()) && !(C() < d), "C25: connections that refer to none are equivalent"); d = a; check(d == a, "C25: copy assignment makes equal"); C &r = d; d = r; check(d == a, "C25: self-assignment has no effect"); d = std::move(r); check(d == a, "C25: self-move has no effect"); }
void h_conn_move(const C &a) { C s(a); C b(std::move(s)); check(b == a, "C25: moving transfers the reference"); check(s == C(), "C25: a moved-from connection refers to none"); C m; m = std::move(b); check(m == a, "C25: move assignment transfers the reference"); check(b == C(), "C25: a moved-from connection refers to none"); }
void h_conn_assign(const C &a, const C &b) { C s(a); s = b; check(s == b, "C25: assignment transfers the reference"); C t(a); t = C(b); check(t == b, "C25: assignment transfers the reference"); }
void h_conn_swap(const C &a, const C &b) { C s(a), t(b); swap(s, t); check(s == b && t == a, "C25: swap exchanges the references"); s.swap(t); check(s == a && t == b, "C25: swap exchanges the references"); s.swap(s); check(s == a, "C25: swapping a connection with itself has no effect"); }
