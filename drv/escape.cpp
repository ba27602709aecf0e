// Analysis driver for exception propagation: connection layer, protocols and cache in one unit.
#include <server/memcached/memcached.cpp>
#include <server/memcached/proto_ascii.cpp>
#include <server/memcached/proto_binary.cpp>
#include <server/settings.cpp>
#include "net.cpp"
std::shared_ptr<Conv> drv_new_conv(Serv & s) { return s.new_conversation(); }
