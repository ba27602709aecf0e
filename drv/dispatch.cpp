// Analysis driver for the protocol selection. Never executed; compiled to LLVM IR only.
#include <server/memcached/proto_binary.cpp>
#include <server/memcached/memcached.cpp>
