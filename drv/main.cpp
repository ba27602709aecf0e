// Analysis driver for the server's start-up code.
#define main cachelotd_main
#include <server/main.cpp>
#undef main
size_t prb_memory() { return settings.cache.memory_limit; }
size_t prb_page() { return settings.cache.page_size; }
size_t prb_hashtable() { return settings.cache.initial_hash_table_size; }
uint16 prb_tcp() { return settings.net.TCP_port; }
uint16 prb_udp() { return settings.net.UDP_port; }
bool prb_evictions() { return settings.cache.has_evictions; }
