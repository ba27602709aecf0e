// Analysis driver: one external entry per public operation of cachelot::cache::Cache.
// Never executed; compiled to LLVM IR only.
#include <cachelot/common.h>
#include <cachelot/cache.h>
#if __has_include(<cachelot/item.cpp>)
#include <cachelot/item.cpp>
#endif
using namespace cachelot;
using namespace cachelot::cache;

ConstItemPtr drv_get(Cache & c, slice k, hash_type h) { return c.do_get(k, h); }
void drv_set(Cache & c, ItemPtr i) { c.do_set(i); }
bool drv_add(Cache & c, ItemPtr i) { return c.do_add(i); }
bool drv_replace(Cache & c, ItemPtr i) { return c.do_replace(i); }
tuple<bool, bool> drv_cas(Cache & c, ItemPtr i, timestamp_type t) { return c.do_cas(i, t); }
bool drv_append(Cache & c, ItemPtr i) { return c.do_append(i); }
bool drv_prepend(Cache & c, ItemPtr i) { return c.do_prepend(i); }
bool drv_delete(Cache & c, slice k, hash_type h) { return c.do_delete(k, h); }
bool drv_touch(Cache & c, slice k, hash_type h, seconds s) { return c.do_touch(k, h, s); }
void drv_flush(Cache & c) { c.do_flush_all(); }
tuple<bool, uint64> drv_incr(Cache & c, slice k, hash_type h, uint64 d) { return c.do_incr(k, h, d); }
tuple<bool, uint64> drv_decr(Cache & c, slice k, hash_type h, uint64 d) { return c.do_decr(k, h, d); }
ItemPtr drv_create(Cache & c, slice k, hash_type h, size_t n, opaque_flags_type f, seconds s) { return c.create_item(k, h, n, f, s); }
void drv_destroy(Cache & c, ItemPtr i) { c.destroy_item(i); }
void drv_stats(Cache & c) { c.publish_stats(); }
void drv_dtor(Cache & c) { c.~Cache(); }

// result shapes
bool prb_cas_found(const tuple<bool, bool> & t) { return std::get<0>(t); }
bool prb_cas_stored(const tuple<bool, bool> & t) { return std::get<1>(t); }
bool prb_ar_found(const tuple<bool, uint64> & t) { return std::get<0>(t); }
uint64 prb_ar_value(const tuple<bool, uint64> & t) { return std::get<1>(t); }
// item views
bool prb_expired(const Item & i) { return i.is_expired(); }
seconds prb_ttl(const Item & i) { return i.ttl(); }
void prb_set_ttl(Item & i, seconds s) { i.set_ttl(s); }
void prb_assign(Item & i, slice v) { i.assign_value(v); }
void prb_compose(Item & i, slice a, slice b) { i.assign_compose(a, b); }
void prb_item_ctor(void * p, slice k, hash_type h, uint32 n, opaque_flags_type f, seconds s, timestamp_type t) { new (p) Item(k, h, n, f, s, t); }
const char * prb_key_begin(const Item & i) { return i.key().begin(); }
size_t prb_key_length(const Item & i) { return i.key().length(); }
const char * prb_value_begin(const Item & i) { return i.value().begin(); }
size_t prb_value_length(const Item & i) { return i.value().length(); }
size_t prb_size_required(slice k, size_t n) { return Item::CalcSizeRequired(k, n); }
ExpirationClock::time_point prb_now() { return ExpirationClock::now(); }
typedef decltype(std::declval<Cache::dict_type &>().entry_for(slice(), 0, false)) entry_for_result;
bool prb_ef_found(const entry_for_result & t) { return std::get<0>(t); }
const void * prb_ef_at(const entry_for_result & t) { return &std::get<1>(t); }
bool prb_evictions_enabled(const Cache & c) { return c.m_evictions_enabled; }
timestamp_type prb_newest(const Cache & c) { return c.m_newest_timestamp; }
size_t prb_page_size(const Cache & c) { return c.m_allocator.page_size; }
const void * prb_dict(const Cache & c) { return &c.m_dict; }
const void * prb_alloc(const Cache & c) { return &c.m_allocator; }
#define DRV_STAT(T, name, description) T prb_stat_cache_##name() { return __stats__.cache.name; }
CACHE_STATS(DRV_STAT)
#undef DRV_STAT
#define DRV_STAT(T, name, description) T prb_stat_mem_##name() { return __stats__.mem.name; }
MEMORY_STATS(DRV_STAT)
#undef DRV_STAT
