// neither mutexes nor the library's locks can be copied; dummy_mutex has no state (C18)
#include <boost/signals2/mutex.hpp>
#include <boost/signals2/dummy_mutex.hpp>
#include <boost/signals2/signal.hpp>
#include <type_traits>
#include <utility>
namespace s2 = boost::signals2;
static_assert(!std::is_copy_constructible<s2::mutex>::value && !std::is_copy_assignable<s2::mutex>::value, "a mutex must not be copyable");
static_assert(!std::is_move_constructible<s2::mutex>::value && !std::is_move_assignable<s2::mutex>::value, "a mutex must not be movable");
static_assert(std::is_default_constructible<s2::mutex>::value && std::is_default_constructible<s2::dummy_mutex>::value, "mutexes can be default constructed");
static_assert(std::is_empty<s2::dummy_mutex>::value && std::is_trivially_destructible<s2::dummy_mutex>::value, "dummy_mutex has no state");
static_assert(std::is_same<decltype(std::declval<s2::mutex &>().try_lock()), bool>::value && std::is_same<decltype(std::declval<s2::dummy_mutex &>().try_lock()), bool>::value, "try_lock() returns bool");
// the internal locks, as far as they exist
namespace boost { namespace signals2 { namespace detail { template<typename> class unique_lock; template<typename> class garbage_collecting_lock; } } }
template<class T, class = void> struct not_copyable : std::true_type {};
template<class T> struct not_copyable<T, decltype((void)sizeof(T))> : std::integral_constant<bool, !std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value && !std::is_move_constructible<T>::value> {};
static_assert(not_copyable<s2::detail::unique_lock<s2::mutex> >::value, "a lock must not be copyable");
static_assert(not_copyable<s2::detail::garbage_collecting_lock<s2::mutex> >::value, "a lock must not be copyable");
#ifdef REJECT_COPY
void f(s2::mutex &m) { s2::mutex n(m); }
#endif
#ifdef REJECT_ASSIGN
void f(s2::mutex &m, s2::mutex &n) { m = n; }
#endif
