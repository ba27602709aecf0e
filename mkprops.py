#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json, os
P = []
BAD = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    BAD.append((id, len(title))) if len(title) > 80 else 0
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


CH, IT, ML, HT, DI = ("src/cachelot/cache.h", "src/cachelot/item.h", "src/cachelot/memalloc-inl.h",
                      "src/cachelot/hash_table.h", "src/cachelot/dict.h")
PA, CV, SS, SD, IO = ("src/server/memcached/proto_ascii.cpp", "src/server/memcached/conversation.h",
                      "src/server/socket_stream.h", "src/server/socket_datagram.h", "src/server/io_buffer.h")
CA = "src/cachelot/c_api.cpp"

# ---- cache core
p("C01", "Conditional store commands take effect exactly when their condition holds",
  "set always stores; add stores only when the key is absent (or expired); replace, append, prepend, incr and decr change only a present, unexpired key; cas stores only when the key is present and its unique number equals the given one; delete removes only a present key. "
  "The result returned to the caller (stored / not stored / not found / exists) is true exactly when the cache content was changed accordingly. No command changes any other key's entry.",
  ["inputs", "histories"], "for every key, item and prior cache content, on every path through each command, including exceptional ones",
  "Tests exercise each command once or twice from a nearly empty cache; the condition/effect/result agreement has to hold for every combination of found, expired, matching and allocation outcome.",
  [CH, DI], [("retrieve_item + insert_item_at / replace_item_at", CH), ("do_set/do_add/do_replace/do_cas/do_extend/do_delete/do_arithmetic", CH)],
  observe=["return values of the cache API", "content of the index"])
p("C02", "Every item is owned once: stored or released on every exit, never both",
  "An item handed to a store command is, when the command returns or throws, either reachable by its key or its memory has been released exactly once. An item that is displaced, deleted or found expired is removed from the index and released exactly once. Released memory is neither reachable by any key nor read again.",
  ["inputs", "histories", "fault_sequences"], "for every command, every outcome of lookup / allocation / index growth, and every exception raised inside a command",
  "Leaks and double releases on exceptional or rare branches are invisible to functional assertions; allocation failure inside a command is never provoked by the tests.",
  [CH, ML], [("ItemAutoDelete guard", CH), ("destroy_item / memalloc::free", CH), ("dict remove / replace", DI)],
  observe=["every exit of the cache API"])
p("C03", "An expired item is never visible and an unexpired one is never expired early",
  "A lookup by any command treats an item whose expiration time has been reached as absent, removes it, and never returns, modifies, extends or revives it. An item is considered expired exactly when its expiration time is not later than the current time of a steady clock; time-to-live zero means no expiration and any other time-to-live sets expiration to now plus that many seconds. flush_all removes only expired items, and all of them.",
  ["inputs", "histories", "schedules"], "for every command, key, time-to-live and moment in time",
  "Tests sleep a second or two for one or two keys through one command; no test covers each command against an expired key or the boundary tick.",
  [CH, IT, "src/cachelot/expiration_clock.h"], [("retrieve_item expiry branch", CH), ("Item::is_expired / set_ttl / ttl", IT), ("ExpirationClock::now", "src/cachelot/expiration_clock.h")])
p("C04", "Every stored version carries a fresh, never reused unique number",
  "Each newly created version of an item receives a unique number strictly greater than all numbers given out before by the same cache, and that number never changes during the item's life. A compare-and-swap succeeds only if the number presented equals the number of the version currently stored.",
  ["histories", "inputs"], "for every sequence of create / set / append / prepend / incr / decr / cas operations",
  "Uniqueness over all histories cannot be sampled; tests compare a couple of consecutive gets answers.",
  [CH, IT], [("++m_newest_timestamp at each construction", CH), ("do_cas comparison", CH), ("const Item::m_timestamp", IT)])
p("C05", "In-place modifications keep the item's other attributes and data order",
  "append stores old value followed by new data, prepend stores new data followed by old value, incr/decr store the decimal text of the new number; in all these cases key, hash, user flags and remaining time-to-live are those of the existing item. set, add, replace and cas store exactly the item supplied. The recorded value length equals the number of value bytes stored.",
  ["inputs", "histories"], "for every existing item and argument",
  "Tests never combine append/incr with non-zero flags or a time-to-live.",
  [CH, IT], [("do_extend item construction", CH), ("do_arithmetic item construction", CH), ("Item::assign_compose / assign_value", IT)])
p("C06", "incr and decr never wrap: increments stop at the maximum, decrements at zero",
  "incr yields old+delta when that fits in an unsigned 64-bit number and the maximal 64-bit number otherwise; decr yields old-delta when delta does not exceed the value and zero otherwise. The number reported is the number stored. A stored value that is not a decimal unsigned 64-bit number is reported as an error and left unchanged.",
  ["inputs"], "for every stored number and every delta",
  "The overflow boundary is a single point in a 2^128 input space.",
  [CH, "src/cachelot/string_conv.h"], [("do_arithmetic", CH), ("str_to_int / int_to_str", "src/cachelot/string_conv.h")])
p("C07", "Operation counters add up",
  "Each invocation of a cache command increases that command's counter by exactly one and, when it returns normally, exactly one of that command's outcome counters (hit / miss, stored / not stored, and so on) by exactly one, the one that matches the reported result. No command touches another command's counters and counters never decrease.",
  ["histories", "inputs"], "for every command and every outcome, including expired keys",
  "Tests check counters after one or two simple operations, not on every branch.",
  [CH, "src/cachelot/stats.h"], [("STAT_INCR in every do_ function", CH)])
p("C08", "Eviction happens only when enabled and drops complete, unindexed items",
  "When evictions are disabled and memory is exhausted, storing fails with an out-of-memory error and every stored item stays available. When enabled, every item living in the recycled memory is removed from the index and reported to the eviction callback before that memory is reused, and items elsewhere are untouched. append/prepend never evict.",
  ["histories", "configurations"], "for every fill level, item mix and eviction setting",
  "Tests fill a cache in one pattern; agreement of index and memory after arbitrary histories is not observable from a handful of runs.",
  [CH, ML], [("create_item on_delete callback", CH), ("alloc_or_evict page walk", ML), ("m_evictions_enabled", CH)])
p("C09", "No command uses an item or index slot after it may have been evicted or moved",
  "After any step that can evict items or restructure the index, a command does not read, modify, release or overwrite through an item reference or index position it obtained before that step.",
  ["histories", "configurations"], "for every fill level and index growth state in which a command runs",
  "The stale reference is harmful only if the eviction hits the page of the item being modified or the growing index moves its slot.",
  [CH, DI, ML], [("do_extend allocates without eviction", CH), ("do_arithmetic", CH)])
p("C10", "Using an item protects its page; the least recently used page is recycled",
  "Every command that finds an unexpired item marks its page as used, allocation marks the page it allocates from, and eviction always recycles the page at the least recently used end and moves it to the most recently used end. Marking a page used never loses or duplicates a page in the order and never moves it closer to eviction.",
  ["histories"], "for every access sequence", "Order after arbitrary histories cannot be sampled; tests touch two pages.",
  [CH, ML, "src/cachelot/intrusive_list.h"], [("pages::touch / page_to_reuse", ML), ("retrieve_item touch", CH), ("intrusive_list::move_front", "src/cachelot/intrusive_list.h")])
# ---- allocator
p("M01", "Items fit their memory: requests are bounded and blocks are big enough",
  "Every block handed out is at least as large as the requested size, and every item that the cache constructs fits in the memory it requested. A request that cannot fit in one page is refused with an error instead of being passed to the allocator.",
  ["inputs", "configurations"], "for every key length, value length and page size, through every command that creates items",
  "Sizes within one header of the page limit are never tried and overflow silently corrupts a neighbouring block.",
  [CH, IT, ML], [("create_item size checks", CH), ("Item::CalcSizeRequired vs layout", IT), ("try_get_block / split", ML)])
p("M02", "Neighbouring blocks always agree on their common boundary",
  "Whenever a block is split, merged or a page is rebuilt, the size of each block and the back-link of the block following it are updated together, so walking right by size and left by back-link are inverse. Blocks are merged only with free neighbours inside the same page, and nothing beyond the arena is written.",
  ["histories"], "for every allocation / free / resize history", "A wrong back-link only shows when that particular neighbour is merged much later.",
  [ML], [("block::split / block::merge", ML), ("merge_free_left / merge_free_right", ML), ("alloc_or_evict page rebuild", ML)])
p("M03", "A block is on a free list exactly while it is unused",
  "Memory returned to a caller is marked used and is on no free list; a released block is marked free and listed exactly once under its current size; a block absorbed by a merge or a page rebuild is removed from its list first. Left-over memory of a split is always listed.",
  ["histories"], "for every allocation / free / resize / evict history", "Tests allocate and free random sizes but detect only gross corruption.",
  [ML, "src/cachelot/intrusive_list.h"], [("checkout / free / realloc_inplace", ML), ("free_blocks_by_size put/remove/try_get", ML)])
p("M04", "The free-block index never hides a suitable block and never offers a small one",
  "Listing a free block marks its size class as non-empty in both index levels; a class mark is cleared only when the class is empty and the upper mark only when all its classes are empty; searching starts at the class of the requested size and goes only to larger classes; a block smaller than requested is never returned.",
  ["histories", "inputs"], "for every set of free blocks and requested size", "Requires particular combinations of class occupancy.",
  [ML, "src/cachelot/bits.h"], [("bit_index_mark_*", ML), ("next_non_empty / try_get_block", ML)])
p("M05", "Memory accounting balances",
  "The used-memory counter grows by the full block size when a block is handed out and shrinks by the same amount when it is released, resized away or evicted; each allocation, release and failure is counted exactly once.",
  ["histories"], "for every allocation history", "Needs a balance over every path, tests compare a few totals.",
  [ML, "src/cachelot/stats.h"], [("STAT_INCR/DECR in memalloc", ML)])
# ---- index
p("H01", "A lookup returns an entry only for an equal key, and finds every stored key",
  "The index reports a key as found only if the stored entry has the same hash and an equal key, and reports where that entry is. A lookup stops early only at an empty slot or at an entry closer to its home position than the probe, starting from the key's home position and visiting consecutive slots with wrap-around.",
  ["inputs", "histories"], "for every key set, collision pattern and table size", "Collision chains with wrap-around are rarely formed by test keys.",
  [HT, "src/cachelot/slice.h"], [("hash_table::entry_for", HT), ("get_distance / inc_pos", HT)])
p("H02", "Index slots stay consistent: hash, entry and element count change together",
  "Whenever an entry is placed in, moved between or taken from slots, its stored hash moves with it; an insertion adds exactly one element, loses none of the displaced ones, and reports the slot of the inserted key; a removal takes exactly one element and closes the gap so that all others remain reachable.",
  ["inputs", "histories"], "for every insertion/removal history and collision pattern", "Displacement chains depend on collisions.",
  [HT], [("hash_table::insert / remove / put / remove_if", HT)])
p("H03", "Index growth loses nothing: every key stays reachable while tables are migrated",
  "While the index is being enlarged every lookup, deletion, size query and iteration takes both tables into account; migrating an entry stores it in the new table and removes it from the old one; migration ends only when the old table is empty. If the larger table cannot be allocated the index keeps working with the old content.",
  ["histories", "fault_sequences"], "for every operation interleaved at every point of a migration, and for allocation failure",
  "The window in which both tables exist is short for test-sized data.",
  [DI, HT], [("search_primary / search_secondary / rehash_some / begin_expand / end_expand", DI)])
# ---- protocol
p("S01", "Each command's reply states what the cache actually did",
  "For every text-protocol command the reply line corresponds to the cache operation of that command and its outcome: STORED/NOT_STORED, EXISTS/NOT_FOUND for cas, DELETED/NOT_FOUND, TOUCHED/NOT_FOUND, the new number or NOT_FOUND for incr/decr, OK for flush_all. Each command name invokes its own operation with the arguments given by the client and no other.",
  ["inputs", "histories"], "for every well-formed request and cache outcome", "The python test covers a sample of outcomes; cas conflicts, decr, prepend or touch misses and long command names are combinations.",
  [PA, "src/server/memcached/proto_defs.h"], [("handle_*_command", PA), ("parse_command_name", PA), ("AsciiResponse", "src/server/memcached/proto_defs.h")])
p("S02", "noreply suppresses exactly the success reply",
  "A request carrying noreply that is executed produces no output bytes and no send; the same request without noreply produces exactly one reply and asks for it to be sent. Any other trailing argument is rejected before execution.",
  ["inputs"], "for every command that accepts noreply and every outcome", "noreply is exercised for few commands.",
  [PA], [("maybe_noreply", PA), ("reply_with_response", PA)])
p("S03", "A request takes effect only after it has been received and validated completely",
  "A command reads or changes the cache only after all of its arguments, and for storage commands the complete data block with its terminator, have been parsed and validated. An incomplete request leaves cache, input position and output untouched so that it can be retried when more data arrives. Exactly the bytes of the request are consumed.",
  ["inputs", "schedules"], "for every request text and every way of splitting it into packets", "Splits at every byte and every malformed argument cannot be enumerated by example.",
  [PA, IO], [("handle_storage_command", PA), ("handle_received_data rollback", PA)])
p("S04", "No request or network condition can terminate the server",
  "Whatever bytes arrive and whatever the cache or buffers report, errors are answered to the client or close that one connection; no exception leaves a handler that must not throw.",
  ["inputs", "fault_sequences"], "for every input byte sequence and every failing allocation or size limit", "Crash conditions need extreme inputs (tens of megabytes without a line end, out-of-memory).",
  [PA, CV, SS, SD, IO, CH], [("try/catch in handle_received_data / handle_data", PA), ("noexcept handlers", SS)])
p("S05", "A retrieval reply reports each found item completely and exactly once",
  "For every requested key that is found, get/gets emit one VALUE line with that item's key, flags and exact value length (gets also its unique number), then exactly the value bytes and a line end; keys not found emit nothing; the reply ends with one END line. All keys of the request are processed in order.",
  ["inputs", "histories"], "for every list of keys and stored items", "Only one or two keys and small values are tested.",
  [PA], [("handle_retrieval_command", PA)])
p("S06", "Errors discard partial output and are reported in the proper class",
  "When processing a request fails, everything already written for it is discarded and exactly one error line is sent: CLIENT_ERROR for protocol and number errors, ERROR for unknown or broken commands, SERVER_ERROR otherwise. Afterwards the connection keeps being served.",
  ["inputs", "fault_sequences"], "for every failing request", "Errors raised after partial output need multi-key requests with a late bad key.",
  [PA], [("catch blocks of handle_received_data", PA)])
p("S07", "I/O buffers never read or write outside their memory",
  "Data is written only into space reserved beforehand and at most that much is confirmed; growing keeps the content, respects the configured maximum and either provides the requested space or fails leaving the buffer intact; compaction and rollback preserve the unread bytes.",
  ["inputs", "histories"], "for every sequence of writes, reads, rollbacks and growths", "Boundary sizes need exact fill levels.",
  [IO, PA, CV], [("ensure_capacity / begin_write / confirm_write / compact", IO), ("operator<< serializers", PA)])
p("S08", "A connection lives as long as its pending operations and its buffers stay put",
  "Every pending network operation keeps its connection alive; the output buffer is not modified or sent again while a send of it is in progress; after each completed step the connection either starts its next operation or ends, and quit ends it.",
  ["schedules"], "for every order of completion events", "Overlap depends on socket timing.",
  [SS, SD, CV], [("async_receive_some / async_send_all", SS), ("shared_from_this capture", SS)])
p("S09", "Every UDP reply answers its own request",
  "A datagram shorter than the frame header or with unsupported framing produces no reply and no cache access; every reply starts with the header of the datagram it answers and contains nothing left over from earlier ones; each datagram is consumed completely.",
  ["inputs", "histories"], "for every sequence of datagrams", "UDP tests send well-formed single commands.",
  [CV, SD], [("UdpServer::handle_data / handle_udp_frame_header", CV), ("datagram_server::async_receive", SD)])
p("S10", "Text numbers are converted exactly or rejected",
  "Converting text to an unsigned integer succeeds exactly for non-empty digit strings whose value fits the type, and yields that value; anything else is reported as an error and never as a wrong number. Converting an integer to text produces its decimal digits within the space reserved for the type.",
  ["inputs"], "for every text and every integer of every supported width", "Boundary values per type and digit position.",
  ["src/cachelot/string_conv.h"], [("str_to_int family", "src/cachelot/string_conv.h"), ("int_to_str family", "src/cachelot/string_conv.h")])
# ---- library / configuration
p("L01", "No C++ exception crosses the C API, and failures always fill the error structure",
  "Every C entry point returns normally whatever happens inside; on failure it returns its failure value and, when an error structure was supplied, fills it with code, category and a terminated description; on success it clears the structure. A null error structure is always accepted.",
  ["inputs", "fault_sequences"], "for every entry point, argument and internal failure", "test_c_api.c drives the success path of each function.",
  [CA, "src/cachelot/c_api.h"], [("try/catch barrier in each function", CA), ("*_to_err_struct / none_error", CA)])
p("L02", "Each C API function performs its own cache operation and returns its outcome",
  "Every C entry point invokes exactly the cache operation it is named after with the caller's arguments unchanged (key, hash, item, unique number, delta, time-to-live) and hands back that operation's result; accessors return the corresponding attribute of the given item.",
  ["inputs", "histories"], "for every argument and outcome", "Each wrapper is called once.",
  [CA, "src/cachelot/c_api.h"], [("extern C wrappers", CA)])
p("L03", "Unusable configurations are rejected before anything is allocated",
  "Creating a cache with a memory limit, page size or initial index size that is zero, not a power of two, out of the supported range or mutually inconsistent fails with an error; every accepted configuration satisfies all size assumptions of allocator and index.",
  ["configurations"], "for every combination of configuration values", "Tests use a few valid configurations.",
  [CH, "src/server/main.cpp"], [("Cache::Create", CH)])

# ---- properties outside the reach of this family of technique
p("X01", "A value read back equals the value last stored for that key",
  "For every history of commands, a get that finds a key returns byte for byte the value produced by the latest successful modification of that key.",
  ["histories"], "for every history", "End-to-end equality over all histories.",
  [CH, HT, DI, ML], [("whole cache", CH)])
p("X02", "Retention and memory utilisation",
  "Under a working set smaller than the memory limit, recently used items survive and the memory lost to fragmentation stays bounded.",
  ["histories"], "for every workload", "Statistical behaviour.",
  [ML], [("allocator policy", ML)])
p("X03", "Bounded latency of cache operations",
  "Every cache operation finishes in time independent of the number of stored items, also while the index is being enlarged.",
  ["histories", "inputs"], "for every workload", "Timing.",
  [HT, DI, ML], [("incremental rehash", DI)])
p("X04", "Expired items disappear within one clock tick",
  "An item stored with a time-to-live of n seconds is available for at least n-1 and at most n+1 seconds of wall time.",
  ["schedules"], "for every n and moment", "Real-time behaviour of the steady clock.",
  [IT], [("ExpirationClock", "src/cachelot/expiration_clock.h")])

assert not BAD, BAD
if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
