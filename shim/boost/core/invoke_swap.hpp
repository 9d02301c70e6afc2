// Stand-in for boost/core/invoke_swap.hpp (new in Boost 1.84), which the
// installed Boost 1.83 lacks.  Only used to be able to parse and type-check
// the headers in /repo; Boost 1.83's boost::swap has the same semantics.
#ifndef VERIF_SHIM_BOOST_CORE_INVOKE_SWAP_HPP
#define VERIF_SHIM_BOOST_CORE_INVOKE_SWAP_HPP
#include <boost/core/swap.hpp>
namespace boost { namespace core {
template<class T1, class T2> inline void invoke_swap(T1 &left, T2 &right)
{
  ::boost_swap_impl::swap_impl(left, right);
}
}}
#endif
