From 32fd48c426efd6827a8f001e907c7aa6aafbe4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:33 +0000
Subject: [PATCH 01/22] fix: incr/decr used a stale index position after
 evicting items

---
 src/cachelot/cache.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 691644b..251e6d7 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -630,11 +630,17 @@ namespace cachelot {
             AsciiIntegerBuffer new_ascii_value;
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
+            // creation may evict items and rearrange the dict, so nothing that refers to the old item outlives it
             ItemPtr new_item;
-            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
-            replace_item_at(at, _item_uniq_ptr);
+            tie(found, at) = m_dict.entry_for(key, hash);
+            if (found) {
+                replace_item_at(at, _item_uniq_ptr);
+            } else {
+                insert_item_at(at, _item_uniq_ptr);
+            }
             return make_tuple(true, new_int_value);
         }
 
-- 
2.43.0


From ead7b381ac947d3dc2889b6c01fe2f034ba71a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:05 +0000
Subject: [PATCH 02/22] fix: hash_table::insert reported the slot of a
 displaced entry

---
 src/cachelot/hash_table.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 3a9c9d2..f3d903c 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -192,10 +192,15 @@ namespace cachelot {
             entry_type entry(key, value);
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
+            bool placed = false; size_type inserted_at = pos; // where the new entry itself (not the displaced one) ends up
             while (not empty_at(pos)) {
                 debug_assert( not eq(entry_at(pos).key(), entry.key()) ); // entry must be unique
                 const size_type existing_entry_distance = get_distance(pos, hash_at(pos));
                 if (existing_entry_distance < lookup_distance) {
+                    if (not placed) {
+                        placed = true;
+                        inserted_at = pos;
+                    }
                     std::swap(hash, m_hashes[pos]);
                     swap(entry, entry_at(pos));
                     lookup_distance = existing_entry_distance;
@@ -207,7 +212,7 @@ namespace cachelot {
             m_hashes[pos] = hash;
             std::swap(m_entries[pos], entry);
             m_size += 1;
-            return pos;
+            return placed ? inserted_at : pos;
         }
 
         /// remove element pos given pos
-- 
2.43.0


From 5cce0d8988ca8a3e7342ecf3f00ac24d9c499dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 03/22] fix: entries whose hash is zero were taken for empty
 slots of the hash table

---
 src/cachelot/dict.h       |  2 +-
 src/cachelot/hash_table.h | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index f7ccf4c..8de9e70 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -102,7 +102,7 @@ namespace cachelot {
             void unsafe_replace_kv(const key_type k, const hash_type h, mapped_type v) noexcept {
                 debug_assert(*this);
                 entry_type new_entry(k, v);
-                debug_assert(m_table->hash_at(m_pos) == h); (void)h;
+                debug_assert(m_table->hash_at(m_pos) == h || h == 0); (void)h; // zero hash is stored as non-zero
                 m_table->entry_at(m_pos).swap(new_entry);
             }
 
diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index f3d903c..9caeca6 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -99,7 +99,6 @@ namespace cachelot {
 
         /// retrieve stored value by its key
         tuple<bool, mapped_type> get(const key_type key, const hash_type hash) const noexcept {
-            debug_assert(hash != 0);
             bool found; size_type pos;
             tie(found, pos) = entry_for(key, hash);
             mapped_type result = found ? entry_at(pos).value() : mapped_type();
@@ -110,7 +109,6 @@ namespace cachelot {
         ///
         /// @return true if new value was inserted, false if existing value was updated
         bool put(key_type key, hash_type hash, mapped_type value) noexcept {
-            debug_assert(hash != 0);
             bool found; size_type pos;
             tie(found, pos) = entry_for(key, hash);
             if (found) {
@@ -160,7 +158,6 @@ namespace cachelot {
 
         /// check if given `key` is in the hash table
         bool contains(key_type key, hash_type hash) const noexcept {
-            debug_assert(hash != 0);
             bool found; size_t __;
             tie(found, __) = entry_for(key, hash);
             return found;
@@ -169,8 +166,8 @@ namespace cachelot {
         /// retrieve position of in table for the given `key`
         ///
         /// @return either `(true, existing_entry_pos)` if key exists, or `(false, position_to_insert_new_entry)` if key wasn't found
-        tuple<bool, size_type> entry_for(const key_type key, const hash_type hash) const noexcept {
-            debug_assert(hash != 0);
+        tuple<bool, size_type> entry_for(const key_type key, const hash_type the_hash) const noexcept {
+            const hash_type hash = stored_hash(the_hash);
             size_type pos = desired_position(hash);
             size_type distance = 0;
             // NOTE! we may give up before we find suitable slot, then `insert` will continue search from this point
@@ -188,7 +185,8 @@ namespace cachelot {
 
         /// insert entry starting from given pos that was returned by @ref hash_table::entry_for
         size_type insert(size_type pos, const key_type key, hash_type hash, mapped_type value) noexcept {
-            debug_assert(not threshold_reached()); debug_assert(hash != 0);
+            debug_assert(not threshold_reached());
+            hash = stored_hash(hash);
             entry_type entry(key, value);
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
@@ -283,6 +281,9 @@ namespace cachelot {
         constexpr size_type max_size() const noexcept { return static_cast<size_type>(capacity() * max_load_factor_percent / 100); }
 
     private:
+        /// hash value to keep in the table, zero is reserved to mark empty slots
+        static constexpr hash_type stored_hash(const hash_type hash) noexcept { return hash != 0 ? hash : 1; }
+
         /// return position in table which element with given `hash` would occupy
         constexpr size_type desired_position(const hash_type hash) const noexcept { return hash & mask; }
 
-- 
2.43.0


From 31290cecaf5d962c943a04561d2548212fbe4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:51 +0000
Subject: [PATCH 04/22] fix: dict lost its table when the memory for a bigger
 one could not be allocated

---
 src/cachelot/dict.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index 8de9e70..72673de 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -287,17 +287,16 @@ namespace cachelot {
 
         void begin_expand() {
             debug_assert(not is_expanding());
-            m_expand_pos = 0;
-            m_primary_tbl.swap(m_secondary_tbl);
-            m_primary_tbl.reset(new hash_table_type(pow2(m_hashpower + 1)));
-            if (m_primary_tbl && m_primary_tbl->ok()) {
-                m_hashpower += 1;
-                rehash_some();
-            } else {
-                m_primary_tbl.swap(m_secondary_tbl);
-                m_secondary_tbl.reset(nullptr);
+            // allocate the new table first, dict must stay intact if there is no memory
+            std::unique_ptr<hash_table_type> bigger_tbl(new hash_table_type(pow2(m_hashpower + 1)));
+            if (not bigger_tbl->ok()) {
                 throw std::bad_alloc();
             }
+            m_expand_pos = 0;
+            m_secondary_tbl = std::move(m_primary_tbl);
+            m_primary_tbl = std::move(bigger_tbl);
+            m_hashpower += 1;
+            rehash_some();
         }
 
         void end_expand() noexcept {
-- 
2.43.0


From c846114083c21970f76f20186de32de15dc40573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:02 +0000
Subject: [PATCH 05/22] fix: wrong page was computed for addresses beyond 4 GiB
 of the arena

---
 src/cachelot/memalloc-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index f9348ec..77f7dad 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -145,7 +145,7 @@ namespace cachelot {
         unsigned page_no_from_addr(const void * const ptr) const noexcept {
             debug_assert(valid_addr(ptr));
             auto ui8_ptr = reinterpret_cast<const uint8 * const>(ptr);
-            auto page_no = static_cast<unsigned>(ui8_ptr - arena_begin) >> log2_page_size;
+            auto page_no = static_cast<unsigned>(static_cast<size_t>(ui8_ptr - arena_begin) >> log2_page_size);
             debug_assert(page_no < num_pages);
             return page_no;
         }
-- 
2.43.0


From 91b04c5e004aeb3e459cbd9470256f35b09940e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:34 +0000
Subject: [PATCH 06/22] fix: Cache::Create accepted an empty initial dictionary

---
 src/cachelot/cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 251e6d7..5db3c87 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -372,6 +372,9 @@ namespace cachelot {
             if (memory_limit % mem_page_size != 0) {
                 throw std::invalid_argument("memory_limit must be divisible by mem_page_size");
             }
+            if (initial_dict_size == 0) {
+                throw std::invalid_argument("initial_dict_size must be non-zero");
+            }
             if (not ispow2(initial_dict_size)) {
                 throw std::invalid_argument("initial_dict_size must be power of 2");
             }
-- 
2.43.0


From fd2d5e19d95d61b8de3b808d2dd0ef73992c78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 07/22] fix: items that do not fit into a page were passed to
 the allocator

---
 src/cachelot/cache.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 5db3c87..3e58f1f 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -299,6 +299,11 @@ namespace cachelot {
             std::function<void (ConstItemPtr)> on_eviction;
 
         private:
+            /**
+             * Size of the biggest item that fits into a single page of memory
+             */
+            size_t max_allocation() const noexcept { return m_allocator.page_size - memalloc::header_size(); }
+
             /**
              * Extend (`prepend` or `append`) existing item with the new data
              *
@@ -519,6 +524,9 @@ namespace cachelot {
             if (found) {
                 auto old_item = at.value();
                 const size_t new_value_size = old_item->value().length() + piece->value().length();
+                if (Item::CalcSizeRequired(old_item->key(), new_value_size) > max_allocation()) {
+                    throw system_error(error::item_too_big);
+                }
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
                 if (memory != nullptr) {
@@ -653,10 +661,10 @@ namespace cachelot {
             if (key.length() > Item::max_key_length) {
                 throw system_error(error::key_too_long);
             }
-            const size_t size_required = Item::CalcSizeRequired(key, value_length);
-            if (size_required > m_allocator.page_size) {
+            if (value_length > max_allocation() || Item::CalcSizeRequired(key, value_length) > max_allocation()) {
                 throw system_error(error::item_too_big);
             }
+            const size_t size_required = Item::CalcSizeRequired(key, value_length);
             const auto on_delete = [=](void * ptr) noexcept -> void {
                 auto i = reinterpret_cast<Item *>(ptr);
                 debug_only(bool deleted = ) this->m_dict.del(i->key(), i->hash());
-- 
2.43.0


From c6a1b414745128d67a8bb8c4edf80d7a8f8e53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 08/22] fix: expiration time of items with a huge time-to-live
 wrapped around

---
 src/cachelot/item.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index e02683e..8908009 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -183,7 +183,9 @@ namespace cachelot {
             if (s == infinite_TTL) {
                 m_expiration_time = expiration_time_point::max();
             } else {
-                m_expiration_time = clock::now() + s;
+                const auto now = clock::now();
+                // don't let the far future wrap around
+                m_expiration_time = (s < expiration_time_point::max() - now) ? now + s : expiration_time_point::max();
             }
         }
 
-- 
2.43.0


From e81b7d106ae7507503614d0e1a70e76c4aa22f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:13 +0000
Subject: [PATCH 09/22] fix: append, prepend, incr and decr could make an item
 that is about to expire immortal

---
 src/cachelot/cache.h | 3 +++
 src/cachelot/item.h  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 3e58f1f..79f0a76 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -532,6 +532,7 @@ namespace cachelot {
                 if (memory != nullptr) {
                     auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
+                    new_item->set_expiration_time(old_item->expiration_time());
                     if (op == ExtendOperation::APPEND) {
                         new_item->assign_compose(old_item->value(), piece->value());
                         STAT_INCR(cache.append_stored, 1);
@@ -642,9 +643,11 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             // creation may evict items and rearrange the dict, so nothing that refers to the old item outlives it
+            const auto expiration_time = old_item->expiration_time();
             ItemPtr new_item;
             new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
             ItemAutoDelete _item_uniq_ptr(this, new_item);
+            new_item->set_expiration_time(expiration_time);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
             tie(found, at) = m_dict.entry_for(key, hash);
             if (found) {
diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index 8908009..134c34a 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -109,6 +109,9 @@ namespace cachelot {
             /// set new time to live
             void set_ttl(seconds secs) noexcept;
 
+            /// set new expiration time
+            void set_expiration_time(expiration_time_point t) noexcept { m_expiration_time = t; }
+
             /// check whether Item is expired
             bool is_expired() const noexcept { return m_expiration_time <= clock::now(); }
 
-- 
2.43.0


From 9b99589b78381eb928c9e3a1451a14a4268d42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 10/22] fix: a request that exceeds the receive buffer
 terminated the server

---
 src/server/socket_stream.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 3acc8ea..629c4f2 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -143,7 +143,15 @@ namespace cachelot { namespace net {
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_receive_some() noexcept {
         auto self = this->shared_from_this();
-        m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
+        char * dest;
+        try {
+            dest = m_recv_buf.begin_write();
+        } catch (const std::exception &) {
+            // there is no space left to receive the rest of the request
+            close();
+            return;
+        }
+        m_socket.async_read_some(asio::buffer(dest, m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
                 slice receive_result;
                 if (not error) {
-- 
2.43.0


From 22b6e32e418fe0a6ff96ed0203502879da7117b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 11/22] fix: replies were sent repeatedly or corrupted when the
 client reads slower than it writes

---
 src/server/socket_stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 629c4f2..8567f62 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -160,8 +160,9 @@ namespace cachelot { namespace net {
                     self->m_recv_buf.compact();
                     switch (reply) {
                     case SEND_REPLY_AND_READ:
+                        // receive will be continued as soon as the reply is sent
                         self->async_send_all();
-                        // there is no `break` so we'll continue receive
+                        break;
                     case READ_MORE:
                         self->async_receive_some();
                         break;
@@ -188,6 +189,7 @@ namespace cachelot { namespace net {
                     debug_assert(self->m_send_buf.non_read() == bytes_sent);
                     self->m_send_buf.confirm_read(bytes_sent);
                     self->m_send_buf.compact();
+                    self->async_receive_some();
                 }
             });
     }
-- 
2.43.0


From cbdfa67cc65cd6a20ac362fa7b7b40a813de7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:16 +0000
Subject: [PATCH 12/22] fix: pipelined requests were not processed until more
 data arrived

---
 src/server/socket_stream.h | 43 +++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 8567f62..92a93c2 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -62,6 +62,9 @@ namespace cachelot { namespace net {
         /// start asynchronous receive operation, call the Conversation::handle_data on complete
         void async_receive_some() noexcept;
 
+        /// call the Conversation::handle_data on every request that was received
+        void process_received() noexcept;
+
         /// start asynchronous send of the send buffer
         void async_send_all() noexcept;
 
@@ -156,19 +159,7 @@ namespace cachelot { namespace net {
                 slice receive_result;
                 if (not error) {
                     self->m_recv_buf.confirm_write(bytes_received);
-                    ConversationReply reply = handle_data(m_recv_buf, m_send_buf);
-                    self->m_recv_buf.compact();
-                    switch (reply) {
-                    case SEND_REPLY_AND_READ:
-                        // receive will be continued as soon as the reply is sent
-                        self->async_send_all();
-                        break;
-                    case READ_MORE:
-                        self->async_receive_some();
-                        break;
-                    case CLOSE_IMMEDIATELY:
-                        break;
-                    }
+                    self->process_received();
                 } else {
                     if (error == io_error::message_size) {
                         self->m_recv_buf.confirm_write(bytes_received);
@@ -179,6 +170,30 @@ namespace cachelot { namespace net {
     }
 
 
+    template <class Sock, class Conversation>
+    inline void stream_connection<Sock, Conversation>::process_received() noexcept {
+        ConversationReply reply;
+        size_t non_read;
+        do {
+            non_read = m_recv_buf.non_read();
+            reply = handle_data(m_recv_buf, m_send_buf);
+            // request was handled silently, proceed with the next one
+        } while (reply == READ_MORE && m_recv_buf.non_read() > 0 && m_recv_buf.non_read() < non_read);
+        m_recv_buf.compact();
+        switch (reply) {
+        case SEND_REPLY_AND_READ:
+            // the rest of requests will be processed as soon as the reply is sent
+            async_send_all();
+            break;
+        case READ_MORE:
+            async_receive_some();
+            break;
+        case CLOSE_IMMEDIATELY:
+            break;
+        }
+    }
+
+
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_send_all() noexcept {
         if (m_killed) { return; }
@@ -189,7 +204,7 @@ namespace cachelot { namespace net {
                     debug_assert(self->m_send_buf.non_read() == bytes_sent);
                     self->m_send_buf.confirm_read(bytes_sent);
                     self->m_send_buf.compact();
-                    self->async_receive_some();
+                    self->process_received();
                 }
             });
     }
-- 
2.43.0


From 689c02496cf2d57e5b3b1bef806093dc21d86462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:16 +0000
Subject: [PATCH 13/22] fix: UDP replies started with the headers of requests
 that were not replied

---
 src/server/memcached/conversation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/memcached/conversation.h b/src/server/memcached/conversation.h
index 3eecc29..c691e37 100644
--- a/src/server/memcached/conversation.h
+++ b/src/server/memcached/conversation.h
@@ -85,7 +85,12 @@ namespace cachelot {
                 auto w_savepoint = send_buf.write_savepoint();
                 try {
                     handle_udp_frame_header(recv_buf, send_buf);
-                    return handle_received_data(recv_buf, send_buf, cache_api);
+                    const auto reply = handle_received_data(recv_buf, send_buf, cache_api);
+                    if (reply != net::SEND_REPLY_AND_READ) {
+                        // there is nothing to send, discard the UDP header
+                        send_buf.rollback_write_transaction(w_savepoint);
+                    }
+                    return reply;
                 } catch (const std::exception & exc) {
                     send_buf.rollback_write_transaction(w_savepoint);
                     return net::READ_MORE;
-- 
2.43.0


From 10d17c5d2ee234904534f04de1b1573f3f02247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:16 +0000
Subject: [PATCH 14/22] fix: failure to write an error reply terminated the
 server instead of closing the connection

---
 src/server/memcached/proto_ascii.cpp | 2 +-
 src/server/memcached/proto_ascii.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 6c145c2..f29f5d1 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -124,7 +124,7 @@ namespace cachelot {
         #undef __DO_SERIALIZE_INTEGER_ASCII
 
 
-        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) noexcept {
+        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) {
             auto r_savepoint = recv_buf.read_savepoint();
             auto w_savepoint = send_buf.write_savepoint();
             try {
diff --git a/src/server/memcached/proto_ascii.h b/src/server/memcached/proto_ascii.h
index 2f8ad45..9956175 100644
--- a/src/server/memcached/proto_ascii.h
+++ b/src/server/memcached/proto_ascii.h
@@ -18,7 +18,7 @@ namespace cachelot { namespace memcached {
     namespace ascii {
 
         /// Main function that process ascii protocol packets
-        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) noexcept;
+        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api);
 
     } // namespace ascii
 
-- 
2.43.0


From f06c388ff4eac0e70fa9a970d20b374086af6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:16 +0000
Subject: [PATCH 15/22] fix: io_buffer lost its content when there was no
 memory to grow it

---
 src/server/io_buffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 4e3102a..9cb549f 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -161,8 +161,9 @@ namespace cachelot {
             // grow buffer
             const size_t new_capacity = capacity_advice(at_least);
             if (new_capacity - size() >= at_least) {
-                m_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
-                if (m_data != nullptr) {
+                auto new_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
+                if (new_data != nullptr) {
+                    m_data = new_data;
                     m_capacity = new_capacity;
                 } else {
                     throw std::bad_alloc();
-- 
2.43.0


From 158c397a82bbabb2aec0a3c5b05b66545e252b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:39 +0000
Subject: [PATCH 16/22] fix: valid 20-digit numbers were rejected as an
 overflow

---
 src/cachelot/string_conv.h | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 5c18e9a..2de32f7 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -236,32 +236,15 @@ namespace cachelot {
             }
 
             switch (length) {
-                case 20: // in ASCII max uint64 number length is 20
+                case 20: { // in ASCII max uint64 number length is 20
                     // check against the biggest uint64 number - 18446744073709551615
-                    if (str[ 0] > '1' ||
-                        str[ 1] > '8' ||
-                        str[ 2] > '4' ||
-                        str[ 3] > '4' ||
-                        str[ 4] > '6' ||
-                        str[ 5] > '7' ||
-                        str[ 6] > '4' ||
-                        str[ 7] > '4' ||
-                        str[ 8] > '0' ||
-                        str[ 9] > '7' ||
-                        str[10] > '3' ||
-                        str[11] > '7' ||
-                        str[12] > '0' ||
-                        str[13] > '9' ||
-                        str[14] > '5' ||
-                        str[15] > '5' ||
-                        str[16] > '1' ||
-                        str[17] > '6' ||
-                        str[18] > '1' ||
-                        str[19] > '5' ) {
+                    const uint64 head = str_to_big_unsigned_impl<ConstIterator, 19>::convert(0, str, length);
+                    if (head > 1844674407370955161ull || (head == 1844674407370955161ull && str[19] > '5')) {
                         out_error = error::numeric_overflow;
                         return NO_RESULT;
                     }
                     return str_to_big_unsigned_impl<ConstIterator, 20>::convert(0, str, length);
+                }
                 case 19:
                     return str_to_big_unsigned_impl<ConstIterator, 19>::convert(0, str, length);
                 case 18:
-- 
2.43.0


From 86769632c1c0782e669b020159253b886aa2081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:39 +0000
Subject: [PATCH 17/22] fix: C API left the error of a previous call in place
 when the operation succeeded

---
 src/cachelot/c_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index d16d06c..9570b0e 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -74,6 +74,7 @@ extern "C" {
     CachelotPtr cachelot_init(CachelotOptions opts, CachelotError * out_error) {
         try {
             cachelot_t * c = new cachelot_t{cache::Cache::Create(opts.memory_limit, opts.mem_page_size, opts.initial_dict_size, opts.enable_evictions)};
+            none_error(out_error);
             return c;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -97,6 +98,7 @@ extern "C" {
         try {
             auto new_item = c->cache.create_item(slice(k.key, k.keylen), k.hash, valuelen, 0, cache::Item::infinite_TTL);
             new_item->assign_value(slice(value, valuelen));
+            none_error(out_error);
             return reinterpret_cast<CachelotItemPtr>(new_item);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -292,6 +294,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -311,6 +314,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -326,6 +330,7 @@ extern "C" {
     void cachelot_flush_all(CachelotPtr c, CachelotError * out_error) {
         try {
             c->cache.do_flush_all();
+            none_error(out_error);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
         } catch(const std::exception & e) {
-- 
2.43.0


From b984d0664671c873759c38158e6fd984a18b35d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:30 +0000
Subject: [PATCH 18/22] fix: next UDP datagram was handled while the previous
 reply was still being sent

Replies shared one send buffer: the second reply was sent together with the
first one and the buffer could be re-allocated under the pending send.
---
 src/server/socket_datagram.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index c97af8b..9620850 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -90,7 +90,11 @@ namespace cachelot { namespace net {
                 if (not error) {
                     try {
                         if (handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ) {
+                            // next datagram is received as soon as this reply leaves the send buffer
+                            m_recv_buf.read_all();
+                            m_recv_buf.compact();
                             async_send_all(m_remote_endpoint);
+                            return;
                         }
                         m_recv_buf.compact();
                     } catch (const std::exception &) { /* swallow exception */ }
@@ -111,10 +115,15 @@ namespace cachelot { namespace net {
     inline void datagram_server<SocketType>::async_send_all(const typename protocol_type::endpoint to) noexcept {
         auto need_to_send = m_send_buf.non_read();
         m_socket.async_send_to(asio::buffer(m_send_buf.begin_read(), need_to_send), to,
-            [=](error_code /*error*/, size_t /*bytes_sent*/) {
+            [=](error_code error, size_t /*bytes_sent*/) {
                 // even data was not sent completely
                 m_send_buf.confirm_read(need_to_send);
                 m_send_buf.compact();
+                if (error == io_error::operation_aborted || not m_socket.is_open()) {
+                    // we were closed from the outside
+                    return;
+                }
+                this->async_receive();
             });
     }
 
-- 
2.43.0


From fe0fc78d14e3e20f8032a6cb2fa8231710bc88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:59 +0000
Subject: [PATCH 19/22] fix: a discarded UDP datagram reduced the space to
 receive the next one

---
 src/server/socket_datagram.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index 9620850..97f8c02 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -106,6 +106,7 @@ namespace cachelot { namespace net {
                 }
                 // we expect only one packet per datagram
                 m_recv_buf.read_all();
+                m_recv_buf.compact();
                 this->async_receive();
             });
     }
-- 
2.43.0


From 9187ff3b9babb378209c2efb54f68131a356cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:32 +0000
Subject: [PATCH 20/22] fix: growth threshold of hash tables with 2^26 slots
 and more overflowed

---
 src/cachelot/hash_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 9caeca6..900f20c 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -278,7 +278,7 @@ namespace cachelot {
         constexpr bool empty() const noexcept { return m_size == 0; }
 
         /// returns max number of elements that can be stored in table
-        constexpr size_type max_size() const noexcept { return static_cast<size_type>(capacity() * max_load_factor_percent / 100); }
+        constexpr size_type max_size() const noexcept { return static_cast<size_type>(static_cast<uint64>(capacity()) * max_load_factor_percent / 100); }
 
     private:
         /// hash value to keep in the table, zero is reserved to mark empty slots
-- 
2.43.0


From 91bf84bdd7973297f7ccd2b8489acd18d65074b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:08 +0000
Subject: [PATCH 21/22] fix: refuse memory amounts that do not fit 64 bits

'-m 17179869185G' wrapped around and silently started a server with 1 GB.
---
 src/server/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index e48c7af..d93f978 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -51,10 +51,14 @@ namespace  {
         }
         size_t memory_amount;
         try {
-            memory_amount = boost::lexical_cast<size_t>(s) * units;
+            memory_amount = boost::lexical_cast<size_t>(s);
         } catch (const boost::bad_lexical_cast &) {
             throw po::invalid_option_value(s);
         }
+        if (memory_amount > std::numeric_limits<size_t>::max() / units) {
+            throw invalid_configuration("memory amount is too big");
+        }
+        memory_amount *= units;
         if (memory_amount == 0) {
             throw invalid_configuration("zero memory amount");
         }
-- 
2.43.0


From bdfbd8ec6c3715217c48d531a29839e8ff95f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:08 +0000
Subject: [PATCH 22/22] fix: keep reacting to signals after SIGUSR1

The handler was installed once, so after SIGUSR1 (print statistics) the
server ignored SIGTERM, SIGINT and SIGQUIT.
---
 src/server/main.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index d93f978..23dbd04 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -191,18 +191,20 @@ int main(int argc, char * argv[]) {
         signals.add(SIGQUIT);
         signals.add(SIGUSR1);
 #endif
-        signals.async_wait([&reactor](const error_code& error, int signal_number) {
+        std::function<void (const error_code &, int)> on_signal = [&](const error_code & error, int signal_number) {
             if (error) { return; }
             switch (signal_number) {
 #if !defined(_MSC_VER)
             case SIGUSR1:
                 PrintStats();
+                signals.async_wait(on_signal); // keep waiting for the next signal
                 break;
 #endif
             default:
                 reactor.stop();
             }
-        });
+        };
+        signals.async_wait(on_signal);
 
         // Run reactor loop
         do {
-- 
2.43.0

