// Analysis driver: the allocator's public operations and the parts it is composed of.
// Never executed; compiled to LLVM IR only.
#include <cachelot/common.h>
#include <cachelot/memalloc.h>
using namespace cachelot;
typedef memalloc::block block;
typedef memalloc::pages pages;
typedef memalloc::free_blocks_by_size free_blocks;

extern "C" void ext_evicted(void * ctx, void * ptr);
void * drv_alloc(memalloc & m, size_t n, bool evict, void * ctx) { return m.alloc_or_evict(n, evict, [=](void * p) { ext_evicted(ctx, p); }); }
void * drv_plain_alloc(memalloc & m, size_t n) { return m.alloc(n); }
void drv_free(memalloc & m, void * p) { m.free(p); }
void * drv_realloc(memalloc & m, void * p, size_t n) { return m.realloc_inplace(p, n); }
void drv_touch(memalloc & m, void * p) { m.touch(p); }
size_t drv_actual(memalloc & m, void * p) { return m.reveal_actual_size(p); }
void drv_ctor(void * mem, size_t n, uint32 page) { new (mem) memalloc(n, page); }

block * drv_try_get(free_blocks & f, uint32 n) { return f.try_get_block(n); }
void drv_put(free_blocks & f, block * b) { f.put_block(b); }
void drv_remove(free_blocks & f, block * b) { f.remove_block(b); }
void drv_fb_ctor(void * mem, uint32 page) { new (mem) free_blocks(page); }

void drv_pg_touch(pages & p, const void * a) { p.touch(a); }
const uint8 * drv_reuse_begin(pages & p) { return std::get<0>(p.page_to_reuse()); }
const uint8 * drv_reuse_end(pages & p) { return std::get<1>(p.page_to_reuse()); }
const uint8 * drv_bound_begin(pages & p, const void * a) { return std::get<0>(p.page_boundaries_from_addr(a)); }
const uint8 * drv_bound_end(pages & p, const void * a) { return std::get<1>(p.page_boundaries_from_addr(a)); }
void drv_pg_ctor(void * mem, size_t page, uint8 * b, uint8 * e) { new (mem) pages(page, b, e); }

// shapes
void prb_block_ctor(void * mem, uint32 n, uint32 left) { new (mem) block(n, left); }
uint32 prb_size(const block & b) { return b.size(); }
bool prb_used(const block & b) { return b.is_used(); }
void * prb_memory(block & b) { return b.memory(); }
size_t prb_header() { return memalloc::header_size(); }
const void * prb_pages(const memalloc & m) { return &*m.m_pages; }
const void * prb_free_blocks(const memalloc & m) { return &*m.m_free_blocks; }
const void * prb_arena(const memalloc & m) { return m.m_arena.get(); }
size_t prb_arena_size(const memalloc & m) { return m.arena_size; }
uint32 prb_page_size(const memalloc & m) { return m.page_size; }
uint8 * prb_arena_end(const pages & p) { return p.arena_end; }
uint8 * prb_arena_begin(const pages & p) { return p.arena_begin; }
#define DRV_STAT(T, name, description) T prb_stat_mem_##name() { return __stats__.mem.name; }
MEMORY_STATS(DRV_STAT)
#undef DRV_STAT
