// scoped_connection cannot be copied; connections move without throwing (C11, C25)
#include <boost/signals2/connection.hpp>
#include <type_traits>
#include <utility>
namespace s2 = boost::signals2;
typedef s2::scoped_connection SC; typedef s2::connection C;
static_assert(!std::is_copy_constructible<SC>::value, "a scoped_connection must not be copy constructible");
static_assert(!std::is_copy_assignable<SC>::value, "a scoped_connection must not be copy assignable");
static_assert(std::is_move_constructible<SC>::value && std::is_move_assignable<SC>::value, "a scoped_connection can be moved");
static_assert(std::is_constructible<SC, const C&>::value && std::is_assignable<SC&, const C&>::value && std::is_convertible<C, SC>::value, "a connection can be given to a scoped_connection");
static_assert(std::is_nothrow_move_constructible<C>::value && std::is_nothrow_move_assignable<C>::value && std::is_nothrow_copy_constructible<C>::value && std::is_nothrow_copy_assignable<C>::value && std::is_nothrow_default_constructible<C>::value, "connections copy and move without throwing");
static_assert(noexcept(swap(std::declval<C&>(), std::declval<C&>())), "connections swap without throwing");
static_assert(noexcept(swap(std::declval<SC&>(), std::declval<SC&>())), "scoped connections swap without throwing");
static_assert(std::is_base_of<C, SC>::value, "a scoped_connection is a connection");
#ifdef REJECT_COPY
SC f(const SC &a) { return SC(a); }
#endif
#ifdef REJECT_ASSIGN
void f(SC &a, const SC &b) { a = b; }
#endif
#ifdef REJECT_COPY_NONCONST
SC f(SC &a) { return SC(a); }
#endif
