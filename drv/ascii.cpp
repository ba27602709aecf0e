// Analysis driver for the text protocol: the real translation unit plus layout probes.
// Never executed; compiled to LLVM IR only.
#include <server/memcached/proto_ascii.cpp>
#if __has_include(<cachelot/item.cpp>)
#include <cachelot/item.cpp>
#endif
using namespace cachelot;
using namespace cachelot::cache;
const char * prb_split_head_b(const tuple<slice, slice> & t) { return std::get<0>(t).begin(); }
const char * prb_split_head_e(const tuple<slice, slice> & t) { return std::get<0>(t).end(); }
const char * prb_split_tail_b(const tuple<slice, slice> & t) { return std::get<1>(t).begin(); }
const char * prb_split_tail_e(const tuple<slice, slice> & t) { return std::get<1>(t).end(); }
bool prb_cas_found(const tuple<bool, bool> & t) { return std::get<0>(t); }
bool prb_cas_stored(const tuple<bool, bool> & t) { return std::get<1>(t); }
bool prb_ar_found(const tuple<bool, uint64> & t) { return std::get<0>(t); }
uint64 prb_ar_value(const tuple<bool, uint64> & t) { return std::get<1>(t); }
// slice primitives the parser relies on
slice drv_search(const slice & s, slice what) { return s.search(what); }
tuple<slice, slice> drv_split(const slice & s, slice sep) { return s.split(sep); }
tuple<slice, slice> drv_split_char(const slice & s, char sep) { return s.split(sep); }
bool drv_eq(const slice & a, const slice & b) { return a == b; }
void drv_assign(Item & i, slice v) { i.assign_value(v); }
net::ConversationReply drv_ascii(io_buffer & r, io_buffer & s, Cache & c) { return memcached::ascii::handle_received_data(r, s, c); }
memcached::Command drv_parse(slice s) { return memcached::ascii::parse_command_name(s); }
net::ConversationReply drv_stats(slice args, io_buffer & s, Cache & c) { return memcached::ascii::handle_statistics_command(memcached::Command::STATS, args, s, c); }
#define DRV_STAT(T, name, description) T prb_stat_cache_##name() { return __stats__.cache.name; }
CACHE_STATS(DRV_STAT)
#undef DRV_STAT
#define DRV_STAT(T, name, description) T prb_stat_mem_##name() { return __stats__.mem.name; }
MEMORY_STATS(DRV_STAT)
#undef DRV_STAT
