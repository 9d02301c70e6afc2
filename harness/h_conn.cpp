#include "sig.hpp"
#include <boost/signals2/shared_connection_block.hpp>
void h_conn_disconnect(const s2::connection &c) { c.disconnect(); }
bool h_conn_connected(const s2::connection &c) { return c.connected(); }
bool h_conn_blocked(const s2::connection &c) { return c.blocked(); }
