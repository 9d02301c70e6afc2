// signals2::mutex where there are no threads (C18)
#define BOOST_DISABLE_THREADS
#include "user.hpp"
#include <boost/signals2/mutex.hpp>
using user::check;
void h_mutex_nothreads() { boost::signals2::mutex m; m.lock(); check(m.try_lock(), "C18: try_lock() returns true where there are no threads"); m.unlock(); check(m.try_lock(), "C18: try_lock() returns true where there are no threads"); }
