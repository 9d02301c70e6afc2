// The tracked objects of a slot are a sequence that the analysis goes through one by one: algorithms of the
// standard library over them take their simple form, not the one unrolled for random access iterators.
#ifndef VERIF_SEQ_HPP
#define VERIF_SEQ_HPP
#include <iterator>
#include <vector>
#include <boost/variant/variant_fwd.hpp>
namespace std {
  template<class P, class... T, class A> struct iterator_traits<__gnu_cxx::__normal_iterator<P, vector<boost::variant<T...>, A> > > {
    typedef forward_iterator_tag iterator_category;
    typedef typename iterator_traits<P>::value_type value_type;
    typedef typename iterator_traits<P>::difference_type difference_type;
    typedef typename iterator_traits<P>::pointer pointer;
    typedef typename iterator_traits<P>::reference reference;
  };
}
#endif
