// Analysis driver: the hash table and the dictionary as the cache instantiates them.
// Never executed; compiled to LLVM IR only.
#include <cachelot/common.h>
#include <cachelot/cache.h>
using namespace cachelot;
using namespace cachelot::cache;
typedef Cache::dict_type dict_type;
typedef dict_type::hash_table_type table;
typedef dict_type::iterator iter;

extern "C" void drv_sink_found(bool found, uint32 pos);
extern "C" void drv_sink_iter(bool found, const table * t, uint32 pos);
extern "C" void drv_sink_value(bool found, const void * v);
extern "C" bool ext_pred(void * ctx, const void * v);

// hash table
void drv_t_entry_for(const table & t, slice k, uint32 h) { auto r = t.entry_for(k, h); drv_sink_found(std::get<0>(r), std::get<1>(r)); }
uint32 drv_t_insert(table & t, uint32 pos, slice k, uint32 h, ItemPtr v) { return t.insert(pos, k, h, v); }
void drv_t_remove(table & t, uint32 pos) { t.remove(pos); }
void drv_t_clear(table & t) { t.clear(); }
void drv_t_get(const table & t, slice k, uint32 h) { auto r = t.get(k, h); drv_sink_value(std::get<0>(r), std::get<1>(r)); }
bool drv_t_put(table & t, slice k, uint32 h, ItemPtr v) { return t.put(k, h, v); }
bool drv_t_del(table & t, slice k, uint32 h) { return t.del(k, h); }
bool drv_t_contains(const table & t, slice k, uint32 h) { return t.contains(k, h); }
void drv_t_remove_if(table & t, void * ctx) { t.remove_if([=](ItemPtr i) -> bool { return ext_pred(ctx, i); }); }
bool drv_t_threshold(const table & t) { return t.threshold_reached(); }
void drv_t_ctor(void * mem, uint32 n) { new (mem) table(n); }
uint32 drv_t_size(const table & t) { return t.size(); }
bool drv_t_empty(const table & t) { return t.empty(); }
bool drv_t_empty_at(const table & t, uint32 pos) { return t.empty_at(pos); }
uint32 drv_t_capacity(const table & t) { return t.capacity(); }
bool drv_t_ok(const table & t) { return t.ok(); }

// dictionary
void drv_d_entry_for(dict_type & d, slice k, uint32 h, bool ro) { auto r = d.entry_for(k, h, ro); iter i = std::get<1>(r); drv_sink_iter(std::get<0>(r), i.m_table, i.m_pos); }
void drv_d_insert(dict_type & d, table * t, uint32 pos, slice k, uint32 h, ItemPtr v) { iter w(t, pos); iter i = d.insert(w, k, h, v); drv_sink_iter(true, i.m_table, i.m_pos); }
void drv_d_remove(dict_type & d, table * t, uint32 pos) { d.remove(iter(t, pos)); }
void drv_d_get(const dict_type & d, slice k, uint32 h) { auto r = d.get(k, h); drv_sink_value(std::get<0>(r), std::get<1>(r)); }
bool drv_d_del(dict_type & d, slice k, uint32 h) { return d.del(k, h); }
bool drv_d_contains(const dict_type & d, slice k, uint32 h) { return d.contains(k, h); }
void drv_d_remove_if(dict_type & d, void * ctx) { d.remove_if([=](ItemPtr i) -> bool { return ext_pred(ctx, i); }); }
uint32 drv_d_size(const dict_type & d) { return d.size(); }
bool drv_d_empty(const dict_type & d) { return d.empty(); }
uint32 drv_d_capacity(const dict_type & d) { return d.capacity(); }
bool drv_d_expanding(const dict_type & d) { return d.is_expanding(); }
void drv_d_clear(dict_type & d) { d.clear(); }
void drv_d_ctor(void * mem, uint32 n) { new (mem) dict_type(n); }
const void * drv_i_value(const iter & i) { return i.value(); }
const char * drv_i_key(const iter & i) { return i.key().begin(); }
bool drv_i_bool(const iter & i) { return bool(i); }
void drv_i_replace(iter & i, slice k, uint32 h, ItemPtr v) { i.unsafe_replace_kv(k, h, v); }

// keys
bool drv_slice_eq(const slice & a, const slice & b) { return a == b; }
bool drv_key_eq(const slice & a, const slice & b) { return std::equal_to<slice>()(a, b); }
const char * prb_item_key(const Item & i) { return i.key().begin(); }
const char * prb_item_key_end(const Item & i) { return i.key().end(); }
