// shared_connection_block (C12)
#include "sig.hpp"
using user::check; using user::choose; using user::known;
typedef s2::connection C; typedef s2::shared_connection_block B;
static bool op(B &x, B &y, bool mine, bool other) {     // some operation on x; whether x blocks afterwards
  if(choose()) { x.block(); return true; }
  if(choose()) { x.unblock(); return false; }
  if(choose()) { x = y; return other; }
  if(choose()) { B t(x); check(t.blocking() == mine, "C12: a copy of a block blocks like the original"); if(choose()) { t.unblock(); check(!t.blocking(), "C12: unblock() ends blocking()"); } else { t.block(); check(t.blocking(), "C12: block() begins blocking()"); } return mine; }
  B &self = x; x = self; return mine;
}
// nobody else uses the connection: blocked exactly while a block blocks
void h_block_sequential(const C &c) {
  user::sequential(); bool before = known(c.blocked());
  {
    bool ma = known(choose()), mb = known(choose()); B a(c, ma), b(c, mb);
    while(choose()) {
      check(a.blocking() == ma && b.blocking() == mb, "C12: blocking() tells whether the block is blocking");
      check(c.blocked() == (before || ma || mb), "C12: the connection is blocked exactly while a block is blocking");
      if(choose()) ma = known(op(a, b, ma, mb)); else mb = known(op(b, a, mb, ma));
    }
  }
  check(c.blocked() == before, "C12: destroying the blocks ends blocking");
}
// others may block, unblock, disconnect and destroy the connection meanwhile
void h_block_concurrent(const C &c) {
  bool ma = known(choose()), mb = known(choose()); B a(c, ma), b(c, mb);
  while(choose()) {
    check(a.blocking() == ma && b.blocking() == mb, "C12: blocking() tells whether the block is blocking");
    bool bl = known(c.blocked()); check(bl || !(ma || mb), "C12: the connection is blocked while a block is blocking");
    if(choose()) ma = known(op(a, b, ma, mb)); else mb = known(op(b, a, mb, ma));
  }
}
void h_block_default() { B a; check(a.blocking(), "C12: a new block is blocking"); check(a.connection() == C(), "C12: a block made without a connection refers to none"); a.unblock(); check(!a.blocking(), "C12: unblock() ends blocking()"); B b(C(), false); check(!b.blocking(), "C12: a block is not blocking initially if asked so"); b.block(); check(b.blocking(), "C12: block() begins blocking()"); }
void h_block_refers(const C &c) { B a(c); check(a.connection() == c, "C12: a block refers to its connection"); B b(c, false); check(b.connection() == c, "C12: a block refers to its connection"); b = a; check(b.connection() == c, "C12: assignment copies the reference"); b.unblock(); check(b.connection() == c, "C12: unblock() keeps the reference"); }
void h_block_none() { C c; check(c.blocked(), "C12: an empty connection reports blocked"); }
void h_block_expired(const C &c) { user::sequential(); if(c == C()) check(c.blocked(), "C12: an empty or expired connection reports blocked"); }
