// Analysis driver: creation of caches, allocator arenas and index tables. Never executed; compiled to LLVM IR only.
#include <new>
#include <cachelot/common.h>
#include <cachelot/cache.h>
using namespace cachelot;
using namespace cachelot::cache;
typedef Cache::dict_type Dict;
typedef Dict::hash_table_type Table;
extern "C" void drv_sink_arena(memalloc *);
extern "C" void drv_sink_dict(Dict *);
void drv_cache_create(void * at, size_t limit, size_t page, size_t dict, bool evict) { new (at) Cache(Cache::Create(limit, page, dict, evict)); }
void drv_arena_create(size_t limit, uint32 page) { alignas(memalloc) char at[sizeof(memalloc)]; drv_sink_arena(new (at) memalloc(limit, page)); }
void drv_dict_create(Dict::size_type n) { alignas(Dict) char at[sizeof(Dict)]; drv_sink_dict(new (at) Dict(n)); }
bool drv_table_ok(const Table & t) { return t.ok(); }
