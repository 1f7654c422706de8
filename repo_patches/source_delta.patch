From 81fb9bf2d961d23a1f325cff05f4121c60545546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 01/72] fix: onoff_switch must re-test its flag after waking, a
 condition wait may return spuriously

---
 include/stxxl/bits/common/onoff_switch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/onoff_switch.h b/include/stxxl/bits/common/onoff_switch.h
index 2d87fa3..df6393f 100644
--- a/include/stxxl/bits/common/onoff_switch.h
+++ b/include/stxxl/bits/common/onoff_switch.h
@@ -61,14 +61,14 @@ public:
     void wait_for_on()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (!m_on)
+        while (!m_on)
             m_cond.wait(lock);
     }
     //! wait for switch to turn OFF
     void wait_for_off()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (m_on)
+        while (m_on)
             m_cond.wait(lock);
     }
     //! return true if switch is ON
-- 
2.43.0


From 05bba5e38daf6919227583c6e4dd22d001da2229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 02/72] fix: vector::resize(n, true) must return the blocks cut
 off, not an empty range

---
 include/stxxl/bits/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index d87be88..63415a7 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1149,7 +1149,7 @@ private:
             if (m_from != NULL)
                 m_from->set_size(new_bids_size * block_type::raw_size);
             else
-                m_bm->delete_blocks(m_bids.begin() + old_bids_size, m_bids.end());
+                m_bm->delete_blocks(m_bids.begin() + new_bids_size, m_bids.end());
 
             m_bids.resize(new_bids_size);
 
-- 
2.43.0


From 4afee119dc0be43c4485b0fdbf32d53467f638cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 03/72] fix: vector::resize(n, true) must drop the cached pages
 behind the new end from the cache

---
 include/stxxl/bits/containers/vector.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 63415a7..d092bfe 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1153,13 +1153,14 @@ private:
 
             m_bids.resize(new_bids_size);
 
-            // don't resize m_page_to_slot or m_page_status, because it is
-            // still needed to check page status and match the mapping
-            // m_slot_to_page
+            // evict the excess pages from the cache, they will be never written
+            for (size_t i = new_pages_size; i < m_page_status.size(); ++i) {
+                if (m_page_to_slot[i] != on_disk)
+                    m_free_slots.push(m_page_to_slot[i]);
+            }
 
-            // clear dirty flag, so these pages will be never written
-            std::fill(m_page_status.begin() + new_pages_size,
-                      m_page_status.end(), (unsigned char)valid_on_disk);
+            m_page_status.resize(new_pages_size);
+            m_page_to_slot.resize(new_pages_size);
         }
 
         m_size = n;
-- 
2.43.0


From 4bd8dcd17dc3469af706dc0a195f92770c25803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 04/72] fix: vector_bufwriter::finish must refresh its end
 iterator after shrinking the vector

Writing on after finish() took the freed tail for existing elements and lost
everything appended.
---
 include/stxxl/bits/containers/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index d092bfe..a90e0e8 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -2586,6 +2586,7 @@ public:
             vector_type& v = *m_iter.parent_vector();
             v.resize(m_iter - v.begin());
 
+            m_end = v.end();
             m_grown = false;
         }
     }
-- 
2.43.0


From 215e1aba2f6c2d35cee59c779ca96c22c8ee0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 05/72] fix: vector_bufwriter must mark the last block before
 growing the vector as updated

When the old end was at a block boundary the block written last stayed marked
as uninitialised (or as its old state) and reads returned garbage.
---
 include/stxxl/bits/containers/vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index a90e0e8..19fa643 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -2482,8 +2482,9 @@ public:
                 delete m_bufout;
                 m_bufout = NULL;
 
-                if (m_iter.block_offset() != 0)
-                    m_iter.block_externally_updated();
+                // the block written last, full or not, has been updated.
+                if (m_prevblk != m_iter)
+                    m_prevblk.block_externally_updated();
             }
 
             vector_type& v = *m_iter.parent_vector();
-- 
2.43.0


From 9045a2900a7bdf6709abeb5e98cf1ae3a722c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 06/72] fix: cancelling a request must not wait for the queue's
 semaphore while holding the queue mutex

The worker thread may have taken the token of the cancelled request already
and needs the mutex to find the queue empty and give the token back: deadlock.
---
 lib/io/linuxaio_queue.cpp          | 5 ++++-
 lib/io/request_queue_impl_1q.cpp   | 3 +++
 lib/io/request_queue_impl_qwqr.cpp | 6 ++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 08bc72d..ba45dc0 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -106,12 +106,15 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
         if (pos != waiting_requests.end())
         {
             waiting_requests.erase(pos);
+            // the post thread may already hold this request's token and needs
+            // the mutex to give it back: do not wait for it under lock
+            lock.unlock();
 
             // polymorphic_downcast to linuxaio_request,
             // request is canceled, but was not yet posted.
             dynamic_cast<linuxaio_request*>(req.get())->completed(false, true);
 
-            num_waiting_requests--; // will never block
+            num_waiting_requests--;
             return true;
         }
     }
diff --git a/lib/io/request_queue_impl_1q.cpp b/lib/io/request_queue_impl_1q.cpp
index 554978a..d38831e 100644
--- a/lib/io/request_queue_impl_1q.cpp
+++ b/lib/io/request_queue_impl_1q.cpp
@@ -96,6 +96,9 @@ bool request_queue_impl_1q::cancel_request(request_ptr& req)
         {
             m_queue.erase(pos);
             was_still_in_queue = true;
+            // the worker may already hold this request's token and needs the
+            // mutex to give it back: do not wait for the semaphore under lock
+            Lock.unlock();
             m_sem--;
         }
     }
diff --git a/lib/io/request_queue_impl_qwqr.cpp b/lib/io/request_queue_impl_qwqr.cpp
index 27e471d..9c0ece4 100644
--- a/lib/io/request_queue_impl_qwqr.cpp
+++ b/lib/io/request_queue_impl_qwqr.cpp
@@ -114,6 +114,9 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_read_queue.erase(pos);
             was_still_in_queue = true;
+            // the worker may already hold this request's token and needs the
+            // mutex to give it back: do not wait for the semaphore under lock
+            Lock.unlock();
             m_sem--;
         }
     }
@@ -127,6 +130,9 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_write_queue.erase(pos);
             was_still_in_queue = true;
+            // the worker may already hold this request's token and needs the
+            // mutex to give it back: do not wait for the semaphore under lock
+            Lock.unlock();
             m_sem--;
         }
     }
-- 
2.43.0


From 6034a5a302a5774140dc379f6d9059df48a22230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 07/72] fix: deques of different size are not equal

operator == compared the elements of the first deque only: a prefix was equal
to any longer deque, and a longer one read beyond the end of the other.
---
 include/stxxl/bits/containers/deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/deque.h b/include/stxxl/bits/containers/deque.h
index 93dc654..244861b 100644
--- a/include/stxxl/bits/containers/deque.h
+++ b/include/stxxl/bits/containers/deque.h
@@ -696,7 +696,7 @@ public:
 template <class ValueType, class VectorType>
 bool operator == (const deque<ValueType, VectorType>& a, const deque<ValueType, VectorType>& b)
 {
-    return std::equal(a.begin(), a.end(), b.begin());
+    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
 }
 
 template <class ValueType, class VectorType>
-- 
2.43.0


From 88db6ae0ecd1f15607debb6e44500d0bbd76cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 08/72] fix: btree node_cache::swap must exchange the dirty
 flags of the nodes too

---
 include/stxxl/bits/containers/btree/node_cache.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stxxl/bits/containers/btree/node_cache.h b/include/stxxl/bits/containers/btree/node_cache.h
index 69cbfd3..ea96d5f 100644
--- a/include/stxxl/bits/containers/btree/node_cache.h
+++ b/include/stxxl/bits/containers/btree/node_cache.h
@@ -565,6 +565,7 @@ public:
         change_btree_pointers(m_btree);
         obj.change_btree_pointers(obj.m_btree);
         std::swap(m_fixed, obj.m_fixed);
+        std::swap(m_dirty, obj.m_dirty);
         std::swap(m_free_nodes, obj.m_free_nodes);
         std::swap(m_bid2node, obj.m_bid2node);
         std::swap(m_pager, obj.m_pager);
-- 
2.43.0


From 210bd8baf49dcef561f66cdba731a7f9bb8ed4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 09/72] fix: hash_map::operator[] must count new elements and
 redirect iterators to the buffered value

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 0759bd2..ab222ee 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -766,10 +766,11 @@ public:
             external_size_type i_external = result.first;
             value_type found_value = result.second;
 
+            const bool found =
+                (i_external < bucket.n_external_ && _eq(found_value.first, key));
+
             value_type buffer_value =
-                (i_external < bucket.n_external_ && _eq(found_value.first, key))
-                ? found_value
-                : value_type(key, mapped_type());
+                found ? found_value : value_type(key, mapped_type());
 
             // add a new node to the buffer. this new node's value overwrites
             // the external value if it was found and otherwise is set to (key,
@@ -780,6 +781,12 @@ public:
                 : (bucket.list_ = _new_node(buffer_value, bucket.list_, false));
 
             ++buffer_size_;
+            if (!found)
+                ++num_total_;
+            else
+                // iterators to the external value must see the new node
+                iterator_map_.fix_iterators_2int(i_bucket, key, new_node);
+
             // note that we already checked the buffer-size in (*)
 
             return new_node->value_.second;
-- 
2.43.0


From f8a21869c10aa55b424c16cfae94fd44c33f3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 10/72] fix: bulk insertion into a hash_map must not drop
 different keys with equal hash values

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index ab222ee..09a7787 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -1225,7 +1225,8 @@ protected:
         {
             value_type v_old = *in_;
             ++in_;
-            while (!in_.empty() && v_old.first == (*in_).first)
+            while (!in_.empty() && v_old.first == (*in_).first &&
+                   map_._eq(v_old.second.first, (*in_).second.first))
                 ++in_;
         }
     };
-- 
2.43.0


From 550868d7064a222286970ba8969910d139f62352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 11/72] fix: hash_map must map the largest hash values to the
 last bucket, not behind it

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 09a7787..28324be 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -946,9 +946,11 @@ protected:
     {
         //! TODO maybe specialize double arithmetic to integer. the old code
         //! was faulty -tb.
-        return (internal_size_type)(
+        const internal_size_type i_bucket = (internal_size_type)(
             (double)n * ((double)hash_(key) / (double)std::numeric_limits<internal_size_type>::max())
             );
+        // hash values close to the maximum are rounded up to 1.0 * n
+        return (i_bucket < n || n == 0) ? i_bucket : n - 1;
     }
 
     /*!
-- 
2.43.0


From 35b458dbc8629e3d1500e72b146872e68f50d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 12/72] fix: swapping hash_maps must attach the iterators to
 the map that holds their elements

---
 include/stxxl/bits/containers/hash_map/iterator_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/iterator_map.h b/include/stxxl/bits/containers/hash_map/iterator_map.h
index 57555b3..571c577 100644
--- a/include/stxxl/bits/containers/hash_map/iterator_map.h
+++ b/include/stxxl/bits/containers/hash_map/iterator_map.h
@@ -236,8 +236,8 @@ private:
 public:
     void swap(iterator_map<HashMap>& obj)
     {
+        // each iterator_map stays with its hash_map
         std::swap(it_map_, obj.it_map_);
-        std::swap(map_, obj.map_);
 
         change_hash_map_pointers(map_);
         obj.change_hash_map_pointers(obj.map_);
-- 
2.43.0


From 7eddc83f87502bc334210ecb1af5415f9d5b6624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 13/72] fix: lookups, erasures and insertions must work on a
 hash_map without buckets

---
 .../stxxl/bits/containers/hash_map/hash_map.h  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 28324be..b0e7abc 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -373,6 +373,9 @@ public:
     //! \return iterator pointing to the inserted value
     iterator insert_oblivious(const value_type& value)
     {
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+
         internal_size_type i_bucket = _bkt_num(value.first);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, value.first);
@@ -451,6 +454,9 @@ public:
     //! \return number of values actually erased (0 or 1)
     external_size_type erase(const key_type& key)
     {
+        if (buckets_.size() == 0)
+            return 0;
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -505,6 +511,9 @@ public:
     //! \param key key for value to release
     void erase_oblivious(const key_type& key)
     {
+        if (buckets_.size() == 0)
+            return;
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -624,6 +633,9 @@ public:
         if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
             _rebuild_buckets();
 
+        if (buckets_.size() == 0)
+            return this->_end<iterator>();
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -678,6 +690,9 @@ public:
     //! \param key key for value to look up
     const_iterator find(const key_type& key) const
     {
+        if (buckets_.size() == 0)
+            return this->_end<const_iterator>();
+
         internal_size_type i_bucket = _bkt_num(key);
         const bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -745,6 +760,9 @@ public:
         if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
             _rebuild_buckets();
 
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
-- 
2.43.0


From 14672b7c64280ddecc8629d520048d31f1cb11ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 14/72] fix: erase_oblivious of unknown keys must not make the
 hash_map's size estimate underflow

---
 .../stxxl/bits/containers/hash_map/hash_map.h | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index b0e7abc..a76a51e 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -422,7 +422,7 @@ public:
     //! \param it iterator pointing to the value to erase
     void erase(const_iterator it)
     {
-        --num_total_;
+        _decrease_num_total();
         bucket_type& bucket = buckets_[it.i_bucket_];
 
         if (it.source_ == src_internal)
@@ -467,7 +467,7 @@ public:
             if (!node->deleted())
             {
                 node->set_deleted(true);
-                --num_total_;
+                _decrease_num_total();
                 iterator_map_.fix_iterators_2end(i_bucket, key);
                 return 1;
             }
@@ -486,7 +486,7 @@ public:
             // found in external memory; add delete-node
             if (i_external < bucket.n_external_ && _eq(ext_value.first, key))
             {
-                --num_total_;
+                _decrease_num_total();
 
                 if (node)
                     node->set_next(_new_node(value_type(key, mapped_type()), node->next(), true));
@@ -523,7 +523,7 @@ public:
         {
             if (!node->deleted())
             {
-                --num_total_;
+                _decrease_num_total();
                 node->set_deleted(true);
                 iterator_map_.fix_iterators_2end(i_bucket, key);
             }
@@ -532,7 +532,7 @@ public:
         else
         {
             oblivious_ = true;
-            --num_total_;
+            _decrease_num_total();
 
             if (node)
                 node->set_next(_new_node(value_type(key, mapped_type()), node->next(), true));
@@ -908,6 +908,14 @@ public:
     const_iterator end() const { return _end<const_iterator>(); }
 
 protected:
+    //! One value less. num_total_ is just an estimate after *_oblivious
+    //! methods, therefore it may already be zero.
+    void _decrease_num_total()
+    {
+        if (num_total_ > 0)
+            --num_total_;
+    }
+
     //! Allocate a new buffer-node
     node_type * _get_node()
     {
@@ -1149,6 +1157,10 @@ protected:
         internal_size_type n_new;
         n_new = (internal_size_type)ceil((double)num_total_ / ((double)subblock_size * (double)opt_load_factor()));
 
+        // the estimate may be zero although there are values
+        if (oblivious_ && n_new == 0)
+            n_new = 1;
+
         // ... but give the user the chance to request even more buckets
         if (n_desired > n_new)
             n_new = std::min<internal_size_type>(n_desired, max_bucket_count());
@@ -1348,6 +1360,9 @@ public:
         // calculate new number of buckets
         external_size_type num_total_new = num_total_ + (l - f);         // estimated number of elements
         external_size_type n_buckets_new = (external_size_type)ceil((double)num_total_new / ((double)subblock_size * (double)opt_load_factor()));
+        // the estimate may be zero although there are values
+        if (oblivious_ && n_buckets_new == 0)
+            n_buckets_new = 1;
         if (n_buckets_new > max_bucket_count())
             n_buckets_new = max_bucket_count();
 
-- 
2.43.0


From ad159bb52582781492058fe05704524d9367f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 15/72] fix: hash_map's buffered_reader must retain exactly the
 block it reads from

---
 include/stxxl/bits/containers/hash_map/util.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/util.h b/include/stxxl/bits/containers/hash_map/util.h
index ff31eb6..8cbcd7e 100644
--- a/include/stxxl/bits/containers/hash_map/util.h
+++ b/include/stxxl/bits/containers/hash_map/util.h
@@ -160,8 +160,10 @@ public:
         if (prefetch)
             enable_prefetching();
 
-        // will (amongst other things) set subblock_ and retain current block
-        skip_to(seq_begin, i_subblock);
+        // nothing retained yet which skip_to() could release
+        i_value_ = i_subblock * subblock_size;
+        subblock_ = cache_.get_subblock(*curr_bid_, i_subblock);
+        cache_.retain_block(*curr_bid_);
     }
 
     ~buffered_reader()
@@ -230,6 +232,8 @@ public:
             if (curr_bid_ == end_bid_)
                 return false;
 
+            // only cached blocks can be retained
+            subblock_ = cache_.get_subblock(*curr_bid_, 0);
             cache_.retain_block(*curr_bid_);
 
             // if a complete page has been consumed, prefetch the next one
@@ -246,7 +250,7 @@ public:
         }
 
         // entered new subblock
-        if (i_value_ % subblock_size == 0)
+        if (i_value_ != 0 && i_value_ % subblock_size == 0)
         {
             subblock_ = cache_.get_subblock(*curr_bid_, i_value_ / subblock_size);
         }
@@ -273,7 +277,10 @@ public:
         cache_.release_block(*curr_bid_);
 
         if (bid == end_bid_)
+        {
+            curr_bid_ = end_bid_;
             return;
+        }
 
         // skip to block
         while (curr_bid_ != bid) {
-- 
2.43.0


From f90517eba00c9adeba2b7be2166bd53ada624c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 16/72] fix: sorting a range ending at a block boundary must
 not overwrite the next block's BID (sort)

---
 include/stxxl/bits/algo/sort.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index 2a14fb4..e4c4873 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -879,8 +879,6 @@ void sort(ExtIterator first, ExtIterator last, StrictWeakOrdering cmp, unsigned_
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
-- 
2.43.0


From b85dae96c1ea1287e7c19b551d51c024f4f35ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 17/72] fix: sorting a range ending at a block boundary must
 not overwrite the next block's BID (ksort)

---
 include/stxxl/bits/algo/ksort.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 33ec8cf..1f229e3 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -922,8 +922,6 @@ void ksort(ExtIterator first, ExtIterator last, KeyExtractor keyobj, unsigned_ty
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
-- 
2.43.0


From 35c0d46bc2f434abaac3b697f0ed62818ead4c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 18/72] fix: sorting a part of a vector mapped to a file must
 leave its blocks in the file (sort)

---
 include/stxxl/bits/algo/sort.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index e4c4873..a643932 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -587,7 +587,10 @@ sort_blocks(InputBidIterator input_bids,
             runs_left -= runs2merge;
         }
         // allocate blocks for the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        // (the first input block may have been replaced by a managed one, the
+        // second then tells whether the input is a file)
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) &&
+            (!input_bids->is_managed() || !(input_bids + 1)->is_managed()))
         {
             // if we sort a file we can reuse the input bids for the output
             input_bid_iterator cur = input_bids;
-- 
2.43.0


From bbb7168df99ff86850c6fc3ec9a608d5235c31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 19/72] fix: sorting a part of a vector mapped to a file must
 leave its blocks in the file (ksort)

---
 include/stxxl/bits/algo/ksort.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 1f229e3..2db7a0e 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -630,7 +630,10 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
             runs_left -= runs2merge;
         }
         // allocate blocks in the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        // (the first input block may have been replaced by a managed one, the
+        // second then tells whether the input is a file)
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) &&
+            (!input_bids->is_managed() || !(input_bids + 1)->is_managed()))
         {
             // if we sort a file we can reuse the input bids for the output
             InputBidIterator cur = input_bids;
-- 
2.43.0


From 695eaa21887faa7ee203de6e0fbaab7e9c68b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 20/72] fix: ksort must form runs of at least one block, not
 divide by zero with the minimum memory

---
 include/stxxl/bits/algo/ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 2db7a0e..8cc8292 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -548,7 +548,7 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
                                 (block_type::raw_size + block_type::size * sizeof(type_key<type, key_type>));
     STXXL_VERBOSE("Reducing number of blocks in a run from " << m2 << " to " <<
                   m2_rf << " due to key size: " << sizeof(typename KeyExtractor::key_type) << " bytes");
-    m2 = m2_rf;
+    m2 = STXXL_MAX<unsigned_type>(m2_rf, 1);
     unsigned_type full_runs = _n / m2;
     unsigned_type partial_runs = ((_n % m2) ? 1 : 0);
     unsigned_type nruns = full_runs + partial_runs;
-- 
2.43.0


From 3b8a8cefa361997b9bff49d0924fd88cfa53dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 21/72] fix: ksort must not shift by a negative number of bits
 when runs hold less than four records

---
 include/stxxl/bits/algo/ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 8cc8292..9bf6d11 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -207,7 +207,7 @@ create_runs(
     key_type offset = 0;
     const int log_k1 = ilog2_ceil((m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) ?
                                   (m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) : 2);
-    const int log_k2 = ilog2_floor(m2 * Blocks1->size) - log_k1 - 1;
+    const int log_k2 = STXXL_MAX<int>((int)ilog2_floor(m2 * Blocks1->size) - log_k1 - 1, 0);
     STXXL_VERBOSE("log_k1: " << log_k1 << " log_k2:" << log_k2);
     const int_type k1 = int_type(1) << log_k1;
     const int_type k2 = int_type(1) << log_k2;
-- 
2.43.0


From a058d8c614425758894950cfd6eaac3da4dba12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 22/72] fix: stable_ksort did not read the partial last block
 of the range

---
 include/stxxl/bits/algo/stable_ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index bd05e8a..b552f0f 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -149,7 +149,7 @@ void distribute(
 
     int_type i = 0;
 
-    buf_istream_type in(first.bid(), last.bid() + ((first.block_offset()) ? 1 : 0),
+    buf_istream_type in(first.bid(), last.bid() + ((last.block_offset()) ? 1 : 0),
                         nread_buffers);
 
     buffered_writer<block_type> out(
-- 
2.43.0


From 11fac9eb665093f1be2cf21bab68b026547f1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 23/72] fix: stable_ksort accessed blocks of empty buckets

---
 include/stxxl/bits/algo/stable_ksort.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index b552f0f..366ca2e 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -370,21 +370,24 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
             // classify first nbucket_blocks-1 blocks, they are full
             type_key_* ref_ptr = refs1;
             key_type offset1 = offset + (key_type(1) << key_type(shift)) * key_type(k);
-            for (i = 0; i < nbucket_blocks - 1; i++)
+            for (i = 0; i + 1 < nbucket_blocks; i++)
             {
                 reqs1[i]->wait();
                 stable_ksort_local::classify_block(blocks1[i].begin(), blocks1[i].end(),
                                                    ref_ptr, bucket1, offset1, shift1 /*,k1*/);
             }
-            // last block might be non-full
-            const unsigned_type last_block_size =
-                (unsigned_type)(bucket_sizes[k] - (nbucket_blocks - 1) * block_type::size);
-            reqs1[i]->wait();
+            // last block might be non-full, an empty bucket has no blocks
+            if (nbucket_blocks > 0)
+            {
+                const unsigned_type last_block_size =
+                    (unsigned_type)(bucket_sizes[k] - (nbucket_blocks - 1) * block_type::size);
+                reqs1[i]->wait();
 
-            //STXXL_MSG("block_type::size: "<<block_type::size<<" last_block_size:"<<last_block_size);
+                //STXXL_MSG("block_type::size: "<<block_type::size<<" last_block_size:"<<last_block_size);
 
-            classify_block(blocks1[i].begin(), blocks1[i].begin() + last_block_size,
-                           ref_ptr, bucket1, offset1, shift1);
+                classify_block(blocks1[i].begin(), blocks1[i].begin() + last_block_size,
+                               ref_ptr, bucket1, offset1, shift1);
+            }
 
             exclusive_prefix_sum(bucket1, k1);
             classify(refs1, refs1 + bucket_sizes[k], refs2, bucket1, offset1, shift1);
-- 
2.43.0


From e7026804df4a0f0c031c4fc195925a25c33aba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 24/72] fix: stable_ksort underflowed the bucket count for
 small buckets

---
 include/stxxl/bits/algo/stable_ksort.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index 366ca2e..df761db 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -399,7 +399,9 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
                 type_key_* cEnd = refs2 + bucket1[i];
                 type_key_* dEnd = refs1 + bucket1[i];
 
-                const unsigned log_k2 = ilog2_floor(bucket1[i]) - 1;        // adaptive bucket size
+                // adaptive bucket size: at least one, and no more than distinct keys
+                const unsigned log_size = ilog2_floor(cEnd - c);
+                const unsigned log_k2 = STXXL_MIN<unsigned>(log_size > 0 ? log_size - 1 : 0, shift1);
                 const unsigned_type k2 = unsigned_type(1) << log_k2;
                 int_type* bucket2 = new int_type[k2];
                 const unsigned shift2 = shift1 - log_k2;
-- 
2.43.0


From a4feb43c0edf1a63963b379a4dba2e448cb0da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 25/72] fix: stable_ksort was not stable

---
 include/stxxl/bits/algo/stable_ksort.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index df761db..483692a 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -68,13 +68,14 @@ struct type_key
 template <typename Type>
 bool operator < (const type_key<Type>& a, const type_key<Type>& b)
 {
-    return a.key < b.key;
+    // pointers are ordered by input position: breaking ties keeps the sort stable
+    return a.key < b.key || (a.key == b.key && a.ptr < b.ptr);
 }
 
 template <typename Type>
 bool operator > (const type_key<Type>& a, const type_key<Type>& b)
 {
-    return a.key > b.key;
+    return b < a;
 }
 
 template <typename BIDType, typename AllocStrategy>
-- 
2.43.0


From d9a4e0fb14e63b0bd5ffa8c326725b1c092ddb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 26/72] fix: stable_ksort of an empty range accessed blocks

---
 include/stxxl/bits/algo/stable_ksort.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index 483692a..aa89219 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -231,6 +231,9 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
     typedef stable_ksort_local::bid_sequence<bid_type, alloc_strategy> bucket_bids_type;
     typedef stable_ksort_local::type_key<value_type> type_key_;
 
+    if (first == last)
+        return;
+
     first.flush();     // flush container
 
     double begin = timestamp();
-- 
2.43.0


From ce8d393490f2454a74581e13b9b575898f49509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 27/72] fix: random_shuffle of an empty range accessed blocks

---
 include/stxxl/bits/algo/random_shuffle.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/algo/random_shuffle.h b/include/stxxl/bits/algo/random_shuffle.h
index 531f6ce..7c781c7 100644
--- a/include/stxxl/bits/algo/random_shuffle.h
+++ b/include/stxxl/bits/algo/random_shuffle.h
@@ -206,6 +206,9 @@ void random_shuffle(
 
     STXXL_VERBOSE1("random_shuffle: Vector Version");
 
+    if (first == last)
+        return;
+
     // make sure we have at least 6 blocks + 1 page
     if (M < 6 * BlockSize + PageSize * BlockSize) {
         STXXL_ERRMSG("random_shuffle: insufficient memory, " << M << " bytes supplied,");
-- 
2.43.0


From ee1aff255cda7c6530a3b100dabdd9571ae47c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 28/72] fix: for_each_m lost its modifications of never written
 pages

---
 include/stxxl/bits/algo/scan.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/stxxl/bits/algo/scan.h b/include/stxxl/bits/algo/scan.h
index d769860..a88a3e4 100644
--- a/include/stxxl/bits/algo/scan.h
+++ b/include/stxxl/bits/algo/scan.h
@@ -149,6 +149,13 @@ UnaryFunction for_each_m(ExtIterator begin, ExtIterator end,
     buf_istream_type in(begin.bid(), end.bid() + ((end.block_offset()) ? 1 : 0), nbuffers / 2);
     // create buffered write stream for blocks
     buf_ostream_type out(begin.bid(), nbuffers / 2);
+
+    // the stream writes all blocks of the range: inform the container that
+    // they are valid on disk, even if never written before.
+    for (ExtIterator blk = begin - begin.block_offset(); blk < end;
+         blk += ExtIterator::block_type::size)
+        blk.block_externally_updated();
+
     // REMARK: these two streams do I/O while
     //         functor is being computed (overlapping for free)
 
-- 
2.43.0


From 1d093b1b18f6af394d869952a028f347c376de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 29/72] fix: runs_creator freed and reused buffers with
 outstanding writes

---
 include/stxxl/bits/stream/sort_stream.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 062ea87..83926af 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -571,6 +571,13 @@ public:
     //! Clear current state and remove all items.
     void clear()
     {
+        // the blocks must not be returned or reused while they are being written
+        for (unsigned_type i = 0; i < m_m2; ++i)
+        {
+            if (m_write_reqs[i].get() && !m_write_reqs[i]->cancel())
+                m_write_reqs[i]->wait();
+        }
+
         if (!m_result)
             m_result = new sorted_runs_data_type;
         else
@@ -578,12 +585,6 @@ public:
 
         m_result_computed = false;
         m_cur_el = 0;
-
-        for (unsigned_type i = 0; i < m_m2; ++i)
-        {
-            if (m_write_reqs[i].get())
-                m_write_reqs[i]->cancel();
-        }
     }
 
     //! Allocates input buffers and clears result.
@@ -607,6 +608,13 @@ public:
 
         if (m_blocks1)
         {
+            // the blocks must not be freed while they are being written
+            for (unsigned_type i = 0; i < m_m2; ++i)
+            {
+                if (m_write_reqs[i].get())
+                    m_write_reqs[i]->wait();
+            }
+
             delete[] ((m_blocks1 < m_blocks2) ? m_blocks1 : m_blocks2);
             m_blocks1 = m_blocks2 = NULL;
 
-- 
2.43.0


From 74f9574099af9130d0e04f11024e4025fff4fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 30/72] fix: transform of six different streams did not compile

---
 include/stxxl/bits/stream/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/stream/stream.h b/include/stxxl/bits/stream/stream.h
index 919ad46..684bc32 100644
--- a/include/stxxl/bits/stream/stream.h
+++ b/include/stxxl/bits/stream/stream.h
@@ -749,7 +749,7 @@ private:
 public:
     //! Construction.
     transform(Operation& o, Input1& i1_, Input2& i2_, Input3& i3_, Input4& i4_,
-              Input5& i5_, Input5& i6_)
+              Input5& i5_, Input6& i6_)
         : op(o), i1(i1_), i2(i2_), i3(i3_), i4(i4_), i5(i5_), i6(i6_)
     {
         if (!empty())
-- 
2.43.0


From be269b174877590a7fbc1c4eccaa4f13e0988981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 31/72] fix: copies of a vector_iterator2stream_sr deleted
 their streams twice

---
 include/stxxl/bits/stream/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/stream/stream.h b/include/stxxl/bits/stream/stream.h
index 684bc32..deed619 100644
--- a/include/stxxl/bits/stream/stream.h
+++ b/include/stxxl/bits/stream/stream.h
@@ -318,7 +318,8 @@ public:
     }
 
     vector_iterator2stream_sr(const self_type& a)
-        : vec_it_stream(a.vec_it_stream), it_stream(a.it_stream)
+        : vec_it_stream(a.vec_it_stream ? new vector_iterator2stream<InputIterator>(*a.vec_it_stream) : NULL),
+          it_stream(a.it_stream ? new iterator2stream<InputIterator>(*a.it_stream) : NULL)
     { }
 
     //! Standard stream method.
-- 
2.43.0


From 4b1fec3c0ae01258044dffdd62d081b3f2917c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 32/72] fix: block_manager::new_blocks: release blocks of other
 disks if one disk is full

When the allocation on one disk threw bad_ext_alloc, the blocks already
allocated on disks with lower index were lost for good.
---
 include/stxxl/bits/mng/block_manager.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 4e1514a..613ac46 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -213,7 +213,18 @@ void block_manager::new_blocks_int(
         if (bl[i])
         {
             disk_bids[i].resize(bl[i]);
-            disk_allocators[i]->new_blocks(disk_bids[i]);
+            try {
+                disk_allocators[i]->new_blocks(disk_bids[i]);
+            }
+            catch (...) {
+                // give back the blocks already allocated on the other disks
+                while (i > 0) {
+                    --i;
+                    for (int_type j = 0; j < bl[i]; ++j)
+                        disk_allocators[i]->delete_block(disk_bids[i][j]);
+                }
+                throw;
+            }
         }
     }
 
-- 
2.43.0


From 8cebf22c068d30c31f9dabadfb3867981bc78216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 33/72] fix: block_manager: protect the allocation counters
 against concurrent updates

Blocks are allocated and released by several threads; the unsynchronised
updates could get lost, leaving wrong counters for good.
---
 include/stxxl/bits/mng/block_manager.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 613ac46..5c83dc8 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -41,6 +41,7 @@
 #include <stxxl/bits/mng/bid.h>
 #include <stxxl/bits/mng/disk_allocator.h>
 #include <stxxl/bits/mng/block_alloc.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/mng/config.h>
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/common/simple_vector.h>
@@ -69,6 +70,9 @@ class block_manager : public singleton<block_manager>
     block_manager();
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    //! protects the counters below
+    mutable mutex m_count_mutex;
+
     //! total requested allocation in bytes
     uint64 m_total_allocation;
 
@@ -170,15 +174,24 @@ public:
 #if STXXL_MNG_COUNT_ALLOCATION
     //! return total requested allocation in bytes
     uint64 get_total_allocation() const
-    { return m_total_allocation; }
+    {
+        scoped_mutex_lock lock(m_count_mutex);
+        return m_total_allocation;
+    }
 
     //! return currently allocated bytes
     uint64 get_current_allocation() const
-    { return m_current_allocation; }
+    {
+        scoped_mutex_lock lock(m_count_mutex);
+        return m_current_allocation;
+    }
 
     //! return maximum number of bytes allocated during program run.
     uint64 get_maximum_allocation() const
-    { return m_maximum_allocation; }
+    {
+        scoped_mutex_lock lock(m_count_mutex);
+        return m_maximum_allocation;
+    }
 #endif // STXXL_MNG_COUNT_ALLOCATION
 };
 
@@ -240,6 +253,7 @@ void block_manager::new_blocks_int(
     }
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_count_mutex);
     m_total_allocation += nblocks * BIDType::size;
     m_current_allocation += nblocks * BIDType::size;
     m_maximum_allocation = STXXL_MAX(m_maximum_allocation, m_current_allocation);
@@ -261,6 +275,7 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
     disk_files[bid.storage->get_allocator_id()]->discard(bid.offset, bid.size);
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_count_mutex);
     m_current_allocation -= BlockSize;
 #endif // STXXL_MNG_COUNT_ALLOCATION
 }
-- 
2.43.0


From c55a4fb22e3f006ff5fff341c029b42b123036de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 34/72] fix: block_manager::delete_block: discard the block
 before releasing it

Once the disk allocator has the block back, another thread can be given
it; discarding it afterwards destroyed that thread's data.
---
 include/stxxl/bits/mng/block_manager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 5c83dc8..8d1d2cd 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -271,8 +271,9 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
         return;  // self managed disk
     STXXL_VERBOSE_BLOCK_LIFE_CYCLE("BLC:delete " << FMT_BID(bid));
     assert(bid.storage->get_allocator_id() >= 0);
-    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
+    // discard before the block can be handed out to another thread
     disk_files[bid.storage->get_allocator_id()]->discard(bid.offset, bid.size);
+    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
     scoped_mutex_lock lock(m_count_mutex);
-- 
2.43.0


From 98aa9fab9a902f9aa8fd41a1b158af715af205d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 35/72] fix: disk_allocator::new_blocks: release the first half
 if the second half fails

A request without contiguous region is split and the lock is released in
between; if other threads took the remaining space meanwhile, the blocks
of the first half were lost.
---
 include/stxxl/bits/mng/disk_allocator.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 59ad085..aa0de61 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -240,7 +240,15 @@ void disk_allocator::new_blocks(BID<BlockSize>* begin, BID<BlockSize>* end)
 
     BID<BlockSize>* middle = begin + ((end - begin) / 2);
     new_blocks(begin, middle);
-    new_blocks(middle, end);
+    try {
+        new_blocks(middle, end);
+    }
+    catch (...) {
+        // another thread may have taken the remaining space meanwhile
+        for ( ; begin != middle; ++begin)
+            delete_block(*begin);
+        throw;
+    }
 }
 
 //! \}
-- 
2.43.0


From 84bdce4d431d9d40e57c7fb84b84236055c5a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 36/72] fix: disk_allocator: take the lock when reporting byte
 counts

---
 include/stxxl/bits/mng/disk_allocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index aa0de61..bc1c509 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -56,7 +56,7 @@ class disk_allocator : private noncopyable
 
     typedef std::map<stxxl::int64, stxxl::int64> sortseq;
 
-    stxxl::mutex mutex;
+    mutable stxxl::mutex mutex;
     sortseq free_space;
     stxxl::int64 free_bytes;
     stxxl::int64 disk_bytes;
@@ -105,16 +105,19 @@ public:
 
     inline int64 get_free_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return free_bytes;
     }
 
     inline int64 get_used_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return disk_bytes - free_bytes;
     }
 
     inline int64 get_total_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return disk_bytes;
     }
 
-- 
2.43.0


From 562a6815dae1ce885250bd5cb925fe83b349654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 37/72] fix: config: determine the range of flash devices for
 disks added by the user

first_flash was only set when a configuration file was loaded; with
config::add_disk() it stayed uninitialised, so RC_disk and RC_flash used
arbitrary disk ranges.
---
 lib/mng/config.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index 66e92d9..c363462 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -13,6 +13,7 @@
  *  http://www.boost.org/LICENSE_1_0.txt)
  **************************************************************************/
 
+#include <algorithm>
 #include <fstream>
 #include <stxxl/bits/common/error_handling.h>
 #include <stxxl/bits/config.h>
@@ -60,6 +61,22 @@ void config::initialize()
         find_config();
     }
 
+    // disks may also have been added by the user: put flash devices after
+    // regular disks and remember where they start
+    disk_list_type flash_list;
+    disk_list_type::iterator out = disks_list.begin();
+
+    for (disk_list_type::iterator it = disks_list.begin();
+         it != disks_list.end(); ++it)
+    {
+        if (it->flash)
+            flash_list.push_back(*it);
+        else
+            *out++ = *it;
+    }
+    first_flash = (unsigned int)(out - disks_list.begin());
+    std::copy(flash_list.begin(), flash_list.end(), out);
+
     m_max_device_id = 0;
 
     is_initialized = true;
-- 
2.43.0


From 9e4f792d188a3bb6543ac029f0cc925ace0e0049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 38/72] fix: buffered_writer::flush: keep the block held by the
 user out of the free list

flush() marked all blocks as free, including the one handed out by
get_free_block() or write(), which was then handed out a second time and
overwritten before its contents had been written.
---
 include/stxxl/bits/mng/buf_writer.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/mng/buf_writer.h b/include/stxxl/bits/mng/buf_writer.h
index 2aa81b3..f9a6734 100644
--- a/include/stxxl/bits/mng/buf_writer.h
+++ b/include/stxxl/bits/mng/buf_writer.h
@@ -178,11 +178,12 @@ public:
         }
 
         assert(batch_write_blocks.empty());
-        free_write_blocks.clear();
-        busy_write_blocks.clear();
 
-        for (unsigned_type i = 0; i < nwriteblocks; i++)
-            free_write_blocks.push_back(i);
+        // only the blocks just written are free again: the one handed out by
+        // get_free_block() or write() still belongs to the user
+        free_write_blocks.insert(free_write_blocks.end(),
+                                 busy_write_blocks.begin(), busy_write_blocks.end());
+        busy_write_blocks.clear();
     }
 
     //! Flushes not yet written buffers and frees used memory.
-- 
2.43.0


From 2514b69adf470d953eff4e30c5255eb89a8129d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 39/72] fix: buffered_writer: keep the batch size below the
 number of buffers

With a batch as large as the number of buffers no buffer was left to
fill and none was being written, so get_free_block() waited forever.
---
 include/stxxl/bits/mng/buf_writer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/buf_writer.h b/include/stxxl/bits/mng/buf_writer.h
index f9a6734..f18f204 100644
--- a/include/stxxl/bits/mng/buf_writer.h
+++ b/include/stxxl/bits/mng/buf_writer.h
@@ -73,7 +73,9 @@ public:
     //!        order to flush write requests (bulk buffered writing)
     buffered_writer(unsigned_type write_buf_size, unsigned_type write_batch_size)
         : nwriteblocks((write_buf_size > 2) ? write_buf_size : 2),
-          writebatchsize(write_batch_size ? write_batch_size : 1)
+          // one block must remain for filling while a batch is accumulated
+          writebatchsize(write_batch_size == 0 ? 1 :
+                         write_batch_size < nwriteblocks ? write_batch_size : nwriteblocks - 1)
     {
         write_buffers = new block_type[nwriteblocks];
         write_reqs = new request_ptr[nwriteblocks];
-- 
2.43.0


From 25ad96581d7ef775ffad30baaed73bde8b8d810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 40/72] fix: offline_lru_prefetching: extracting a block that
 is still internal writes it back and detaches it

---
 include/stxxl/bits/mng/block_scheduler.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 091d9d8..84c3846 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1834,8 +1834,30 @@ public:
 
         SwappableBlockType& sblock = swappable_blocks[sbid];
         wait_on_write(sbid);
+        internal_block_type* iblock = NULL;
+        if (sblock.is_internal())
+        {
+            // => not evicted yet -> write it back and take the internal block away
+            scheduled_evictable_blocks.erase(sbid);
+            free_evictable_blocks.erase(sbid);
+            iblock = sblock.detach_internal_block();
+        }
+        external_block_type eblock = sblock.extract_external_block();
+        if (iblock)
+        {
+            if (shall_keep_internal_block(schedule_meta))
+                // => swappable_block shall keep its internal_block
+                schedule_meta->second.reserved_iblock = iblock;
+            else
+            {
+                // release internal block and give it to prefetcher
+                return_free_internal_block(iblock);
+                if (next_op_to_schedule != prediction_sequence.end())
+                    schedule_next_operations();
+            }
+        }
         operation_done(schedule_meta);
-        return sblock.extract_external_block();
+        return eblock;
     }
 };
 
-- 
2.43.0


From 09137a15437eccf81a74a242928aca9595b4a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 41/72] fix: offline_lru_prefetching: do not ignore a write
 still in flight when its block is given away or written again

---
 include/stxxl/bits/mng/block_scheduler.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 84c3846..19e89d9 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1206,10 +1206,19 @@ protected:
     //!
     //! The block becomes not dirty. if it was dirty, an entry in write_scheduled_blocks is made referencing the write_read_request.
     //! \param sbid block to write
-    //! \return pointer to the write_read_request
+    //! \return pointer to the write_read_request (possibly of an earlier write not waited for yet), NULL if there is nothing to write
     write_read_request * schedule_write(const swappable_block_identifier_type sbid)
     {
         SwappableBlockType& sblock = swappable_blocks[sbid];
+        write_scheduled_blocks_iterator pending = write_scheduled_blocks.find(sbid);
+        if (pending != write_scheduled_blocks.end())
+        {
+            // => an earlier write may still access the internal block
+            if (! sblock.is_dirty())
+                return pending->second;
+            // => block was changed since, write again
+            wait_on_write(pending);
+        }
         write_read_request* wrr = new write_read_request;
         wrr->write_req = sblock.clean_async(read_after_write(wrr));
         if (wrr->write_req.valid())
-- 
2.43.0


From 55690365fca4f4932b6188caca442e2f3bdff419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 42/72] fix: offline_lru_prefetching: synchronise the scheduler
 with its completion handler

---
 include/stxxl/bits/mng/block_scheduler.h | 32 ++++++++++++++++--------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 19e89d9..a0c6592 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -20,6 +20,7 @@
 #include <stxxl/bits/mng/block_manager.h>
 #include <stxxl/bits/mng/typed_block.h>
 #include <stxxl/bits/common/addressable_queues.h>
+#include <stxxl/bits/common/mutex.h>
 
 STXXL_BEGIN_NAMESPACE
 
@@ -144,7 +145,8 @@ public:
         #ifdef RW_VERBOSE
         STXXL_MSG("reading block");
         #endif
-        dirty = false;
+        if (dirty) // the prefetching completion handler (another thread) only reads blocks that are not dirty
+            dirty = false;
         return internal_data->read(external_data, on_cmpl);
     }
 
@@ -1151,6 +1153,7 @@ protected:
 
     struct write_read_request
     {
+        mutex mtx;                                     // protects the fields shared with read_after_write
         bool write_done_soon;                          // set by read_after_write, checked by schedule_read()
         bool shall_read;                               // checked by read_after_write, set by schedule_read()
         swappable_blocks_iterator block_to_start_read; // used by read_after_write, set by schedule_read()
@@ -1170,6 +1173,7 @@ protected:
 
         void operator () (request*)
         {
+            scoped_mutex_lock lock(wrr->mtx);
             wrr->write_done_soon = true;
             if (wrr->shall_read)
                 wrr->taker->second.read_req = wrr->block_to_start_read->read_async();
@@ -1240,11 +1244,14 @@ protected:
     //! \return if successful
     bool try_interrupt_read(const write_scheduled_blocks_iterator& writing_block)
     {
-        // stop read
-        writing_block->second->shall_read = false;
-        // check if stopped
-        if (! writing_block->second->write_done_soon)
-            return true;
+        {
+            scoped_mutex_lock lock(writing_block->second->mtx);
+            // stop read
+            writing_block->second->shall_read = false;
+            // check if stopped
+            if (! writing_block->second->write_done_soon)
+                return true;
+        }
         // => possibly to late
         scheduled_blocks_reference taker = *writing_block->second->taker;
         // wait
@@ -1343,11 +1350,16 @@ protected:
             {
                 // => there is a write scheduled
                 // tell the completion handler that we want a read
-                writing_block->second->block_to_start_read = swappable_blocks.begin() + block_to_read->first;
-                writing_block->second->taker = block_to_read;
-                writing_block->second->shall_read = true;
+                bool write_done_soon;
+                {
+                    scoped_mutex_lock lock(writing_block->second->mtx);
+                    writing_block->second->block_to_start_read = swappable_blocks.begin() + block_to_read->first;
+                    writing_block->second->taker = block_to_read;
+                    writing_block->second->shall_read = true;
+                    write_done_soon = writing_block->second->write_done_soon;
+                }
                 // and check if it is not to late
-                if (writing_block->second->write_done_soon)
+                if (write_done_soon)
                 {
                     // => the completion handler may have missed our wish to read
                     // so wait for it to finish and check
-- 
2.43.0


From 1131c9106b4d03190bf068be9e0d43b06ea15651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 43/72] fix: disk_config: parse_line resets raw_device and
 queue_length, too

---
 lib/mng/config.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index c363462..700ecf0 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -297,7 +297,9 @@ void disk_config::parse_line(const std::string& line)
     // flash is already set
     queue = file::DEFAULT_QUEUE;
     device_id = file::DEFAULT_DEVICE_ID;
+    raw_device = false;
     unlink_on_open = false;
+    queue_length = 0;
 
     // *** Save Basic Options ***
 
-- 
2.43.0


From 2d2e08b61f2fcc859723343caef2807561906cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 44/72] fix: disk_config: parse_fileio accepts the flash
 parameter written by fileio_string

---
 lib/mng/config.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index 700ecf0..f4c2435 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -405,6 +405,11 @@ void disk_config::parse_fileio()
                             "Invalid parameter '" << *p << "' in disk configuration file.");
             }
         }
+        else if (*p == "flash")
+        {
+            // same as flash= instead of disk=, printed by fileio_string()
+            flash = true;
+        }
         else if (eq[0] == "queue")
         {
             if (io_impl == "linuxaio") {
-- 
2.43.0


From 26687ae500de7311d37bc086153ba9976065bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 45/72] fix: disk_config: reject lines without fileio
 implementation

---
 lib/mng/config.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index f4c2435..8d8b699 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -336,13 +336,20 @@ void disk_config::parse_line(const std::string& line)
     // io_impl:
     io_impl = cmfield[2];
     parse_fileio();
+
+    if (io_impl.empty()) {
+        STXXL_THROW(std::runtime_error,
+                    "Missing fileio implementation in disk configuration '" << line << "'.");
+    }
 }
 
 void disk_config::parse_fileio()
 {
     // skip over leading spaces
     size_t leadspace = io_impl.find_first_not_of(' ');
-    if (leadspace > 0)
+    if (leadspace == std::string::npos)
+        io_impl.clear();
+    else if (leadspace > 0)
         io_impl = io_impl.substr(leadspace);
 
     // split off extra fileio parameters
-- 
2.43.0


From c44b9b05d0fa84d5e1233bf7da39f548d7939f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 46/72] fix: disk_config: reject missing and out-of-range
 numbers in parameters

---
 lib/mng/config.cpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index 8d8b699..f96888b 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -14,7 +14,10 @@
  **************************************************************************/
 
 #include <algorithm>
+#include <cerrno>
+#include <cstdlib>
 #include <fstream>
+#include <limits>
 #include <stxxl/bits/common/error_handling.h>
 #include <stxxl/bits/config.h>
 #include <stxxl/bits/io/file.h>
@@ -343,6 +346,21 @@ void disk_config::parse_line(const std::string& line)
     }
 }
 
+//! Parse the number in an extra parameter like queue=5, throws on errors.
+static int parse_number(const std::string& param, const std::string& value)
+{
+    char* endp;
+    errno = 0;
+    long n = strtol(value.c_str(), &endp, 10);
+    if (endp == value.c_str() || *endp != 0 || errno != 0 ||
+        n < std::numeric_limits<int>::min() || n > std::numeric_limits<int>::max())
+    {
+        STXXL_THROW(std::runtime_error,
+                    "Invalid parameter '" << param << "' in disk configuration file.");
+    }
+    return (int)n;
+}
+
 void disk_config::parse_fileio()
 {
     // skip over leading spaces
@@ -423,12 +441,7 @@ void disk_config::parse_fileio()
                 STXXL_THROW(std::runtime_error, "Parameter '" << *p << "' invalid for fileio '" << io_impl << "' in disk configuration file.");
             }
 
-            char* endp;
-            queue = (int)strtoul(eq[1].c_str(), &endp, 10);
-            if (endp && *endp != 0) {
-                STXXL_THROW(std::runtime_error,
-                            "Invalid parameter '" << *p << "' in disk configuration file.");
-            }
+            queue = parse_number(*p, eq[1]);
         }
         else if (eq[0] == "queue_length")
         {
@@ -438,21 +451,11 @@ void disk_config::parse_fileio()
                             "in disk configuration file.");
             }
 
-            char* endp;
-            queue_length = (int)strtoul(eq[1].c_str(), &endp, 10);
-            if (endp && *endp != 0) {
-                STXXL_THROW(std::runtime_error,
-                            "Invalid parameter '" << *p << "' in disk configuration file.");
-            }
+            queue_length = parse_number(*p, eq[1]);
         }
         else if (eq[0] == "device_id" || eq[0] == "devid")
         {
-            char* endp;
-            device_id = (int)strtoul(eq[1].c_str(), &endp, 10);
-            if (endp && *endp != 0) {
-                STXXL_THROW(std::runtime_error,
-                            "Invalid parameter '" << *p << "' in disk configuration file.");
-            }
+            device_id = parse_number(*p, eq[1]);
         }
         else if (*p == "raw_device")
         {
-- 
2.43.0


From bdc226c0449c4e59c7138bb63f1011872a6fc86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 47/72] fix: parse_SI_IEC_size: reject strings without a
 number, negative and too large sizes

---
 lib/common/utils.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/common/utils.cpp b/lib/common/utils.cpp
index c0b66f0..c407257 100644
--- a/lib/common/utils.cpp
+++ b/lib/common/utils.cpp
@@ -14,6 +14,9 @@
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/namespace.h>
 
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 #include <iomanip>
 
@@ -24,8 +27,12 @@ STXXL_BEGIN_NAMESPACE
 bool parse_SI_IEC_size(const std::string& str, uint64& size, char def_unit)
 {
     char* endptr;
-    size = strtoul(str.c_str(), &endptr, 10);
-    if (!endptr) return false;          // parse failed, no number
+    errno = 0;
+    size = strtoull(str.c_str(), &endptr, 10);
+    if (endptr == str.c_str()) return false;    // parse failed, no number
+    if (errno != 0) return false;               // number too large
+    if (str.find('-') < size_t(endptr - str.c_str()))
+        return false;                           // negative number
 
     while (endptr[0] == ' ') ++endptr;  // skip over spaces
 
@@ -86,7 +93,11 @@ bool parse_SI_IEC_size(const std::string& str, uint64& size, char def_unit)
 
     // multiply size
     for (unsigned int p = 0; p < power; ++p)
+    {
+        if (size > std::numeric_limits<uint64>::max() / base)
+            return false;               // size too large
         size *= base;
+    }
 
     return (endptr[0] == 0);
 }
-- 
2.43.0


From 8a0b6a3ba67d4c505c625e4a01c50742d2ac70f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 48/72] fix: cmdline_parser: refuse a single dash and short
 options with superfluous letters

---
 lib/common/cmdline.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/common/cmdline.cpp b/lib/common/cmdline.cpp
index 7c1999d..8a95b41 100644
--- a/lib/common/cmdline.cpp
+++ b/lib/common/cmdline.cpp
@@ -222,13 +222,15 @@ bool cmdline_parser::process(int argc, const char* const* argv, std::ostream& os
             {
                 // short option
                 if (arg[1] == 0) {
-                    os << "Invalid option \"" << arg << '"' << std::endl;
+                    os << "Error: Invalid option \"" << arg << "\"." << std::endl << std::endl;
+                    print_usage(os);
+                    return false;
                 }
                 else {
                     arglist_type::const_iterator oi = m_optlist.begin();
                     for ( ; oi != m_optlist.end(); ++oi)
                     {
-                        if (arg[1] == (*oi)->m_key)
+                        if (arg[1] == (*oi)->m_key && arg[2] == 0)
                         {
                             if (!(*oi)->process(argc, argv))
                             {
-- 
2.43.0


From 8d0cdffdb601949852e3e64ca3b68e27c7668f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 49/72] fix: cmdline_parser: refuse numbers with trailing
 garbage, unsigned numbers with a sign and numbers out of range

---
 include/stxxl/bits/common/cmdline.h | 19 ++++++++++-----
 lib/common/cmdline.cpp              | 37 +++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/common/cmdline.h b/include/stxxl/bits/common/cmdline.h
index 04ffdd1..c6e74d3 100644
--- a/include/stxxl/bits/common/cmdline.h
+++ b/include/stxxl/bits/common/cmdline.h
@@ -45,6 +45,13 @@ STXXL_BEGIN_NAMESPACE
 class cmdline_parser : private noncopyable
 {
 protected:
+    //! parse the whole string as a signed integer
+    static bool parse_int(const char* str, int& dest);
+    //! parse the whole string as an unsigned integer
+    static bool parse_uint(const char* str, unsigned int& dest);
+    //! parse the whole string as a floating point number
+    static bool parse_double(const char* str, double& dest);
+
     //! base class of all options and parameters
     struct argument
     {
@@ -156,11 +163,11 @@ protected:
         virtual const char * type_name() const
         { return "integer"; }
 
-        //! parse signed integer using sscanf.
+        //! parse signed integer.
         virtual bool process(int& argc, const char* const*& argv)
         {
             if (argc == 0) return false;
-            if (sscanf(argv[0], "%d", &m_dest) == 1) {
+            if (parse_int(argv[0], m_dest)) {
                 --argc, ++argv;
                 return true;
             }
@@ -190,11 +197,11 @@ protected:
         virtual const char * type_name() const
         { return "unsigned integer"; }
 
-        //! parse unsigned integer using sscanf.
+        //! parse unsigned integer.
         virtual bool process(int& argc, const char* const*& argv)
         {
             if (argc == 0) return false;
-            if (sscanf(argv[0], "%u", &m_dest) == 1) {
+            if (parse_uint(argv[0], m_dest)) {
                 --argc, ++argv;
                 return true;
             }
@@ -224,11 +231,11 @@ protected:
         virtual const char * type_name() const
         { return "double"; }
 
-        //! parse unsigned integer using sscanf.
+        //! parse floating point number.
         virtual bool process(int& argc, const char* const*& argv)
         {
             if (argc == 0) return false;
-            if (sscanf(argv[0], "%lf", &m_dest) == 1) {
+            if (parse_double(argv[0], m_dest)) {
                 --argc, ++argv;
                 return true;
             }
diff --git a/lib/common/cmdline.cpp b/lib/common/cmdline.cpp
index 8a95b41..3fed626 100644
--- a/lib/common/cmdline.cpp
+++ b/lib/common/cmdline.cpp
@@ -14,11 +14,48 @@
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/namespace.h>
 
+#include <cerrno>
+#include <cstdlib>
 #include <iomanip>
+#include <limits>
 #include <cstring>
 
 STXXL_BEGIN_NAMESPACE
 
+bool cmdline_parser::parse_int(const char* str, int& dest)
+{
+    char* endp;
+    errno = 0;
+    long value = strtol(str, &endp, 10);
+    if (endp == str || *endp != 0 || errno != 0 ||
+        value < std::numeric_limits<int>::min() || value > std::numeric_limits<int>::max())
+        return false;
+    dest = (int)value;
+    return true;
+}
+
+bool cmdline_parser::parse_uint(const char* str, unsigned int& dest)
+{
+    char* endp;
+    errno = 0;
+    unsigned long value = strtoul(str, &endp, 10);
+    if (endp == str || *endp != 0 || errno != 0 ||
+        (value != 0 && strchr(str, '-')) || value > std::numeric_limits<unsigned int>::max())
+        return false;
+    dest = (unsigned int)value;
+    return true;
+}
+
+bool cmdline_parser::parse_double(const char* str, double& dest)
+{
+    char* endp;
+    double value = strtod(str, &endp);
+    if (endp == str || *endp != 0)
+        return false;
+    dest = value;
+    return true;
+}
+
 void cmdline_parser::output_wrap(std::ostream& os, const std::string& text, size_t wraplen,
                                  size_t indent_first, size_t indent_rest,
                                  size_t current, size_t indent_newline)
-- 
2.43.0


From 5b951c5176a3f610f28063d295d950b8a30f8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 50/72] fix: cmdline_parser: output_wrap does not loop forever
 if the indent exceeds the line width

---
 lib/common/cmdline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/common/cmdline.cpp b/lib/common/cmdline.cpp
index 3fed626..653e5a0 100644
--- a/lib/common/cmdline.cpp
+++ b/lib/common/cmdline.cpp
@@ -68,7 +68,8 @@ void cmdline_parser::output_wrap(std::ostream& os, const std::string& text, size
 
         // scan forward in text until we hit a newline or wrap point
         while (to != text.size() &&
-               to + current + indent < t + wraplen &&
+               // at least one letter per line, even if the indent is too wide
+               (to == t || to + current + indent < t + wraplen) &&
                text[to] != '\n')
         {
             if (text[to] == ' ') lspace = to;
-- 
2.43.0


From 4a1f03c68e3cc48626417dbd5a8e51d99a89d45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 51/72] fix: binary_reader accepts lengths near SIZE_MAX
 although fewer bytes are available

---
 include/stxxl/bits/common/binary_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/binary_buffer.h b/include/stxxl/bits/common/binary_buffer.h
index 9cc2289..1a3a465 100644
--- a/include/stxxl/bits/common/binary_buffer.h
+++ b/include/stxxl/bits/common/binary_buffer.h
@@ -515,7 +515,7 @@ public:
     //! Check that n bytes are available at the cursor.
     inline bool cursor_available(size_t n) const
     {
-        return (m_curr + n <= m_size);
+        return (n <= m_size - m_curr);
     }
 
     //! Throws a std::underflow_error unless n bytes are available at the
-- 
2.43.0


From 2cf4d8c45f56bd0795c83bbdcf82b6c9df9ba6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 52/72] fix: binary_buffer::append of the buffer itself reads
 freed memory

---
 include/stxxl/bits/common/binary_buffer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/common/binary_buffer.h b/include/stxxl/bits/common/binary_buffer.h
index 1a3a465..14e9b7c 100644
--- a/include/stxxl/bits/common/binary_buffer.h
+++ b/include/stxxl/bits/common/binary_buffer.h
@@ -254,6 +254,9 @@ public:
     //! Append the contents of a different buffer object to this one.
     inline binary_buffer & append(const class binary_buffer& bb)
     {
+        // enlarge before taking the pointer, bb may be this object.
+        if (m_size + bb.size() > m_capacity) dynalloc(m_size + bb.size());
+
         return append(bb.data(), bb.size());
     }
 
-- 
2.43.0


From 1db212653d9a92bf53bd49781389c59333bf8b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 53/72] fix: winner_tree::double_num_slots loops beyond index
 zero and corrupts memory

---
 include/stxxl/bits/common/winner_tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/winner_tree.h b/include/stxxl/bits/common/winner_tree.h
index 598cd1e..9ce450c 100644
--- a/include/stxxl/bits/common/winner_tree.h
+++ b/include/stxxl/bits/common/winner_tree.h
@@ -251,8 +251,8 @@ public:
         size_t tree_size = (m_num_slots << 1) - 1;
         m_tree.resize(tree_size, invalid_key);
 
-        for (unsigned_type i = old_tree_size - 1; i >= 0; --i) {
-            size_t old_index = i;
+        for (unsigned_type i = old_tree_size; i > 0; --i) {
+            size_t old_index = i - 1;
             size_t old_level = ilog2_floor(old_index + 1);
             size_t new_index = old_index + (1 << old_level);
             m_tree[new_index] = m_tree[old_index];
-- 
2.43.0


From 0410c2fa910011f7c019260df231f0865c0e487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 54/72] fix: stable LoserTreeCopyUnguarded does not promote a
 smaller key of a later source

---
 include/stxxl/bits/parallel/losertree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/losertree.h b/include/stxxl/bits/parallel/losertree.h
index 218f8dd..342c19d 100644
--- a/include/stxxl/bits/parallel/losertree.h
+++ b/include/stxxl/bits/parallel/losertree.h
@@ -874,7 +874,9 @@ public:
         int source = losers[0].source;
         for (unsigned int pos = (k + source) / 2; pos > 0; pos /= 2)
         {
-            if (!comp(key, losers[pos].key) && losers[pos].source < source)
+            // the smaller one gets promoted, ties are broken by source
+            if (comp(losers[pos].key, key) ||
+                (!comp(key, losers[pos].key) && losers[pos].source < source))
             {
                 // the other one is smaller
                 swap(losers[pos].source, source);
-- 
2.43.0


From 7455301a0121cb858787582e40a57a490fb78140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 55/72] fix: LoserTreeCopyBase destroys its first node twice

---
 include/stxxl/bits/parallel/losertree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/losertree.h b/include/stxxl/bits/parallel/losertree.h
index 342c19d..16c07d7 100644
--- a/include/stxxl/bits/parallel/losertree.h
+++ b/include/stxxl/bits/parallel/losertree.h
@@ -95,7 +95,7 @@ public:
         for (size_type i = 0; i < (2 * k); ++i)
             losers[i].~Loser();
 
-        delete losers;
+        operator delete (losers);
     }
 
     void print(std::ostream& os)
-- 
2.43.0


From aff0b3c77c2186f6be689c0a4897149a908d77d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 56/72] fix: int_merger overruns its arrays when the arity is
 not a power of two

---
 include/stxxl/bits/containers/pq_int_merger.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/stxxl/bits/containers/pq_int_merger.h b/include/stxxl/bits/containers/pq_int_merger.h
index 28b276c..6df9c7b 100644
--- a/include/stxxl/bits/containers/pq_int_merger.h
+++ b/include/stxxl/bits/containers/pq_int_merger.h
@@ -37,7 +37,8 @@ public:
     //! comparator object type
     typedef CompareType compare_type;
 
-    enum { max_arity = MaxArity };
+    // max_arity / 2  <  arity  <=  max_arity
+    enum { arity = MaxArity, max_arity = 1UL << (LOG2<MaxArity>::ceil) };
 
     //! our type
     typedef int_merger<ValueType, CompareType, MaxArity> self_type;
@@ -67,13 +68,13 @@ protected:
     // 0..k-1
 
     //! pointer to current element
-    value_type* current[MaxArity];
+    value_type* current[max_arity];
     //! pointer to end of block for current element
-    value_type* current_end[MaxArity];
+    value_type* current_end[max_arity];
     //! start of Segments
-    value_type* segment[MaxArity];
+    value_type* segment[max_arity];
     //! just to count the internal memory consumption, in bytes
-    unsigned_type segment_size[MaxArity];
+    unsigned_type segment_size[max_arity];
 
     unsigned_type mem_cons_;
 
@@ -181,10 +182,10 @@ public:
     void swap(int_merger& obj)
     {
         std::swap(sentinel, obj.sentinel);
-        swap_1D_arrays(current, obj.current, MaxArity);
-        swap_1D_arrays(current_end, obj.current_end, MaxArity);
-        swap_1D_arrays(segment, obj.segment, MaxArity);
-        swap_1D_arrays(segment_size, obj.segment_size, MaxArity);
+        swap_1D_arrays(current, obj.current, max_arity);
+        swap_1D_arrays(current_end, obj.current_end, max_arity);
+        swap_1D_arrays(segment, obj.segment, max_arity);
+        swap_1D_arrays(segment_size, obj.segment_size, max_arity);
         std::swap(mem_cons_, obj.mem_cons_);
     }
 
-- 
2.43.0


From b57151ffeb1636e391760cc23dbce553a2de9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 57/72] fix: swap_vector::erase drops the last element when
 erasing the range before it

---
 include/stxxl/bits/common/swap_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/swap_vector.h b/include/stxxl/bits/common/swap_vector.h
index 7bf7e03..2caab17 100644
--- a/include/stxxl/bits/common/swap_vector.h
+++ b/include/stxxl/bits/common/swap_vector.h
@@ -237,7 +237,7 @@ public:
     {
         assert(first >= begin());
         assert(last <= end());
-        if (last < m_array + m_size - 1)
+        if (last < end())
         {
             // iteratively swap forward the elements behind last
             iterator f = first;
-- 
2.43.0


From f54937f2401ced84df1fadab83847057fc736c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 58/72] fix: disk_queues: protect the map of queues against
 concurrent first use of disks

---
 include/stxxl/bits/io/disk_queues.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/stxxl/bits/io/disk_queues.h b/include/stxxl/bits/io/disk_queues.h
index 9aa2312..563b153 100644
--- a/include/stxxl/bits/io/disk_queues.h
+++ b/include/stxxl/bits/io/disk_queues.h
@@ -18,6 +18,7 @@
 
 #include <map>
 
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/namespace.h>
 #include <stxxl/bits/singleton.h>
 #include <stxxl/bits/io/iostats.h>
@@ -43,6 +44,10 @@ class disk_queues : public singleton<disk_queues>
 
 protected:
     request_queue_map queues;
+
+    //! protects the map of queues, which grows on the first use of a disk
+    mutex m_queues_mutex;
+
     disk_queues()
     {
         stxxl::stats::get_instance(); // initialize stats before ourselves
@@ -54,8 +59,9 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
-        request_queue_map::iterator qi = queues.find(disk);
         request_queue* q;
+        scoped_mutex_lock lock(m_queues_mutex);
+        request_queue_map::iterator qi = queues.find(disk);
         if (qi == queues.end())
         {
             // create new request queue
@@ -70,6 +76,7 @@ public:
         }
         else
             q = qi->second;
+        lock.unlock();
 
         q->add_request(req);
     }
@@ -87,18 +94,15 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
-        if (queues.find(disk) != queues.end())
-            return queues[disk]->cancel_request(req);
-        else
-            return false;
+        request_queue* q = get_queue(disk);
+        return q ? q->cancel_request(req) : false;
     }
 
     request_queue * get_queue(DISKID disk)
     {
-        if (queues.find(disk) != queues.end())
-            return queues[disk];
-        else
-            return NULL;
+        scoped_mutex_lock lock(m_queues_mutex);
+        request_queue_map::iterator qi = queues.find(disk);
+        return (qi != queues.end()) ? qi->second : NULL;
     }
 
     ~disk_queues()
@@ -115,6 +119,7 @@ public:
     //!                 - NONE, read and write requests are served by turns, alternately
     void set_priority_op(request_queue::priority_op op)
     {
+        scoped_mutex_lock lock(m_queues_mutex);
         for (request_queue_map::iterator i = queues.begin(); i != queues.end(); i++)
             i->second->set_priority_op(op);
     }
-- 
2.43.0


From d148befd3500596badc1e44671df6439753037aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:46 +0000
Subject: [PATCH 59/72] fix: request_with_state::poll: do not read the error
 while the I/O thread may write it

---
 lib/io/request_with_state.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 4560286..f62db3b 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -73,9 +73,13 @@ bool request_with_state::poll()
 {
     const request_state s = m_state();
 
+    if (s != DONE && s != READY2DIE)
+        return false;
+
+    // the error belongs to the I/O thread until the request is done
     check_errors();
 
-    return s == DONE || s == READY2DIE;
+    return true;
 }
 
 void request_with_state::completed(bool canceled)
-- 
2.43.0


From 543e8dc63fa9e7fdf85e5b5f2a995d1f027c6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 60/72] fix: request cancel: do not use the file of a request
 that the I/O thread may be completing

---
 include/stxxl/bits/io/request_with_state.h |  8 +++++++-
 lib/io/linuxaio_request.cpp                |  8 ++------
 lib/io/request_with_state.cpp              | 21 +++++++++------------
 3 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/include/stxxl/bits/io/request_with_state.h b/include/stxxl/bits/io/request_with_state.h
index 0b6f78f..9536fa4 100644
--- a/include/stxxl/bits/io/request_with_state.h
+++ b/include/stxxl/bits/io/request_with_state.h
@@ -15,6 +15,7 @@
 #define STXXL_IO_REQUEST_WITH_STATE_HEADER
 
 #include <stxxl/bits/common/state.h>
+#include <stxxl/bits/io/file.h>
 #include <stxxl/bits/io/request.h>
 #include <stxxl/bits/io/request_with_waiters.h>
 #include <stxxl/bits/namespace.h>
@@ -34,6 +35,10 @@ protected:
 
     state<request_state> m_state;
 
+    //! queue of the file, kept because a request can be cancelled while the
+    //! I/O thread completes it and detaches it from the file
+    const int m_queue_id;
+
 protected:
     request_with_state(
         const completion_handler& on_cmpl,
@@ -43,7 +48,8 @@ protected:
         size_type b,
         request_type t)
         : request_with_waiters(on_cmpl, f, buf, off, b, t),
-          m_state(OP)
+          m_state(OP),
+          m_queue_id(f->get_queue_id())
     { }
 
 public:
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 464acc6..1a13ae9 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -97,11 +97,9 @@ bool linuxaio_request::cancel()
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] cancel()");
 
-    if (!m_file) return false;
-
     request_ptr req(this);
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
+        disk_queues::get_instance()->get_queue(m_queue_id)
         );
     return queue->cancel_request(req);
 }
@@ -111,11 +109,9 @@ bool linuxaio_request::cancel_aio()
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] cancel_aio()");
 
-    if (!m_file) return false;
-
     io_event event;
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
+        disk_queues::get_instance()->get_queue(m_queue_id)
         );
     long result = syscall(SYS_io_cancel, queue->get_io_context(), &cb, &event);
     if (result == 0)    //successfully canceled
diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index f62db3b..92110f9 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -51,20 +51,17 @@ void request_with_state::wait(bool measure_time)
 
 bool request_with_state::cancel()
 {
-    STXXL_VERBOSE3_THIS("request_with_state::cancel() " << m_file << " " << m_buffer << " " << m_offset);
+    STXXL_VERBOSE3_THIS("request_with_state::cancel() " << m_buffer << " " << m_offset);
 
-    if (m_file)
+    request_ptr rp(this);
+    if (disk_queues::get_instance()->cancel_request(rp, m_queue_id))
     {
-        request_ptr rp(this);
-        if (disk_queues::get_instance()->cancel_request(rp, m_file->get_queue_id()))
-        {
-            m_state.set_to(DONE);
-            notify_waiters();
-            m_file->delete_request_ref();
-            m_file = 0;
-            m_state.set_to(READY2DIE);
-            return true;
-        }
+        m_state.set_to(DONE);
+        notify_waiters();
+        m_file->delete_request_ref();
+        m_file = 0;
+        m_state.set_to(READY2DIE);
+        return true;
     }
     return false;
 }
-- 
2.43.0


From eb5f4e5a29a7784d0beb290a1668bfca1bcce639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 61/72] fix: wait_any: release the waiter switch from all
 requests when a failed request throws

---
 include/stxxl/bits/io/request_operations.h | 44 +++++++++++++---------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/include/stxxl/bits/io/request_operations.h b/include/stxxl/bits/io/request_operations.h
index 4d04828..660602b 100644
--- a/include/stxxl/bits/io/request_operations.h
+++ b/include/stxxl/bits/io/request_operations.h
@@ -109,34 +109,44 @@ RequestIterator wait_any(RequestIterator reqs_begin, RequestIterator reqs_end)
 
     RequestIterator cur = reqs_begin, result = reqs_end;
 
-    for ( ; cur != reqs_end; cur++)
+    try
     {
-        if ((request_ptr(*cur))->add_waiter(&sw))
+        for ( ; cur != reqs_end; cur++)
         {
-            // request is already done, no waiter was added to the request
-            result = cur;
-
-            if (cur != reqs_begin)
+            if ((request_ptr(*cur))->add_waiter(&sw))
             {
-                while (--cur != reqs_begin)
+                // request is already done, no waiter was added to the request
+                result = cur;
+
+                if (cur != reqs_begin)
+                {
+                    while (--cur != reqs_begin)
+                        (request_ptr(*cur))->delete_waiter(&sw);
+
                     (request_ptr(*cur))->delete_waiter(&sw);
+                }
+
+                (request_ptr(*result))->check_errors();
 
-                (request_ptr(*cur))->delete_waiter(&sw);
+                return result;
             }
+        }
 
-            (request_ptr(*result))->check_errors();
+        sw.wait_for_on();
 
-            return result;
+        for (cur = reqs_begin; cur != reqs_end; cur++)
+        {
+            (request_ptr(*cur))->delete_waiter(&sw);
+            if (result == reqs_end && (request_ptr(*cur))->poll())
+                result = cur;
         }
     }
-
-    sw.wait_for_on();
-
-    for (cur = reqs_begin; cur != reqs_end; cur++)
+    catch (...)
     {
-        (request_ptr(*cur))->delete_waiter(&sw);
-        if (result == reqs_end && (request_ptr(*cur))->poll())
-            result = cur;
+        // a failed request must not leave the switch registered in the others
+        for (cur = reqs_begin; cur != reqs_end; cur++)
+            (request_ptr(*cur))->delete_waiter(&sw);
+        throw;
     }
 
     return result;
-- 
2.43.0


From 8fb0d2d64e81a1524aa4e22db936b3036442992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 62/72] fix: disk queues: do not drop queued requests when shut
 down before the stop token arrived

---
 lib/io/request_queue_impl_1q.cpp   | 8 ++++----
 lib/io/request_queue_impl_qwqr.cpp | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/io/request_queue_impl_1q.cpp b/lib/io/request_queue_impl_1q.cpp
index d38831e..691ad61 100644
--- a/lib/io/request_queue_impl_1q.cpp
+++ b/lib/io/request_queue_impl_1q.cpp
@@ -139,12 +139,12 @@ void* request_queue_impl_1q::worker(void* arg)
             }
         }
 
-        // terminate if it has been requested and queues are empty
+        // terminate if it has been requested and the queue is empty; the
+        // semaphore does not tell, its stop token may not be there yet
         if (pthis->m_thread_state() == TERMINATING) {
-            if ((pthis->m_sem--) == 0)
+            scoped_mutex_lock Lock(pthis->m_queue_mutex);
+            if (pthis->m_queue.empty())
                 break;
-            else
-                pthis->m_sem++;
         }
     }
 
diff --git a/lib/io/request_queue_impl_qwqr.cpp b/lib/io/request_queue_impl_qwqr.cpp
index 9c0ece4..8f7a4d3 100644
--- a/lib/io/request_queue_impl_qwqr.cpp
+++ b/lib/io/request_queue_impl_qwqr.cpp
@@ -210,12 +210,13 @@ void* request_queue_impl_qwqr::worker(void* arg)
                 write_phase = true;
         }
 
-        // terminate if it has been requested and queues are empty
+        // terminate if it has been requested and both queues are empty; the
+        // semaphore does not tell, its stop token may not be there yet
         if (pthis->m_thread_state() == TERMINATING) {
-            if ((pthis->m_sem--) == 0)
+            scoped_mutex_lock WriteLock(pthis->m_write_mutex);
+            scoped_mutex_lock ReadLock(pthis->m_read_mutex);
+            if (pthis->m_write_queue.empty() && pthis->m_read_queue.empty())
                 break;
-            else
-                pthis->m_sem++;
         }
     }
 
-- 
2.43.0


From 037f06570c0e365d458aa2986784e82575a98da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 63/72] fix: ufs_file_base: close the descriptor when opening
 fails after open()

---
 include/stxxl/bits/io/ufs_file_base.h |  3 +++
 lib/io/ufs_file_base.cpp              | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/io/ufs_file_base.h b/include/stxxl/bits/io/ufs_file_base.h
index 962d5dd..d3e79d0 100644
--- a/include/stxxl/bits/io/ufs_file_base.h
+++ b/include/stxxl/bits/io/ufs_file_base.h
@@ -40,6 +40,9 @@ protected:
     bool m_is_device;      //!< is special device node
     ufs_file_base(const std::string& filename, int mode);
     void _after_open();
+
+    // same, but close the file again if this fails
+    void _after_open_or_close();
     offset_type _size();
     void _set_size(offset_type newsize);
     void close();
diff --git a/lib/io/ufs_file_base.cpp b/lib/io/ufs_file_base.cpp
index 18d661f..91872d3 100644
--- a/lib/io/ufs_file_base.cpp
+++ b/lib/io/ufs_file_base.cpp
@@ -98,7 +98,7 @@ ufs_file_base::ufs_file_base(
 
     if ((file_des = ::open(filename.c_str(), flags, perms)) >= 0)
     {
-        _after_open();
+        _after_open_or_close();
         return;
     }
 
@@ -112,7 +112,7 @@ ufs_file_base::ufs_file_base(
 
         if ((file_des = ::open(filename.c_str(), flags, perms)) >= 0)
         {
-            _after_open();
+            _after_open_or_close();
             return;
         }
     }
@@ -126,6 +126,18 @@ ufs_file_base::~ufs_file_base()
     close();
 }
 
+void ufs_file_base::_after_open_or_close()
+{
+    try {
+        _after_open();
+    }
+    catch (...) {
+        // the destructor does not run when the constructor throws
+        ::close(file_des);
+        throw;
+    }
+}
+
 void ufs_file_base::_after_open()
 {
     // stat file type
-- 
2.43.0


From 3cb6a7fcbf0d13cf33d1e3c2a5acb36c25e0864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 64/72] fix: wbtl_file: wait for the last backend write before
 freeing its buffers

---
 lib/io/wbtl_file.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index 310d76a..fa174e9 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -49,6 +49,18 @@ wbtl_file::wbtl_file(
 
 wbtl_file::~wbtl_file()
 {
+    // the write buffers and the backend are in use until this is done
+    if (backend_request.get())
+    {
+        try {
+            backend_request->wait(false);
+        }
+        catch (const io_error& ex) {
+            STXXL_ERRMSG("wbtl_file: last write failed: " << ex.what());
+        }
+        backend_request = request_ptr();
+    }
+
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[1]);
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[0]);
     delete storage;
-- 
2.43.0


From c08ff9544088432c2f855f3ced93962277c14b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 65/72] fix: iostats: take timestamps in the order in which the
 counters are updated

---
 lib/io/iostats.cpp | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/lib/io/iostats.cpp b/lib/io/iostats.cpp
index 348c2f8..2869885 100644
--- a/lib/io/iostats.cpp
+++ b/lib/io/iostats.cpp
@@ -122,14 +122,25 @@ void stats::reset()
 }
 #endif
 
-#if STXXL_IO_STATS
-void stats::write_started(unsigned_type size_, double now)
+//! Return the time to account an event with, which is called while holding the
+//! mutex of the counters: several threads may reach the mutex in a different
+//! order than they took their timestamps in, and the counters require that
+//! time does not go backwards.
+static inline double monotonic_timestamp(double now, double last)
 {
     if (now == 0.0)
         now = timestamp();
+    return (now < last) ? last : now;
+}
+
+#if STXXL_IO_STATS
+void stats::write_started(unsigned_type size_, double now)
+{
     {
         scoped_mutex_lock WriteLock(write_mutex);
 
+        now = monotonic_timestamp(now, p_begin_write);
+
         ++writes;
         volume_written += size_;
         double diff = now - p_begin_write;
@@ -140,6 +151,8 @@ void stats::write_started(unsigned_type size_, double now)
     {
         scoped_mutex_lock IOLock(io_mutex);
 
+        now = monotonic_timestamp(now, p_begin_io);
+
         double diff = now - p_begin_io;
         p_ios += (acc_ios++) ? diff : 0.0;
         p_begin_io = now;
@@ -159,10 +172,12 @@ void stats::write_canceled(unsigned_type size_)
 
 void stats::write_finished()
 {
-    double now = timestamp();
+    double now = 0.0;
     {
         scoped_mutex_lock WriteLock(write_mutex);
 
+        now = monotonic_timestamp(now, p_begin_write);
+
         double diff = now - p_begin_write;
         t_writes += double(acc_writes) * diff;
         p_begin_write = now;
@@ -171,6 +186,8 @@ void stats::write_finished()
     {
         scoped_mutex_lock IOLock(io_mutex);
 
+        now = monotonic_timestamp(now, p_begin_io);
+
         double diff = now - p_begin_io;
         p_ios += (acc_ios--) ? diff : 0.0;
         p_begin_io = now;
@@ -187,11 +204,11 @@ void stats::write_cached(unsigned_type size_)
 
 void stats::read_started(unsigned_type size_, double now)
 {
-    if (now == 0.0)
-        now = timestamp();
     {
         scoped_mutex_lock ReadLock(read_mutex);
 
+        now = monotonic_timestamp(now, p_begin_read);
+
         ++reads;
         volume_read += size_;
         double diff = now - p_begin_read;
@@ -202,6 +219,8 @@ void stats::read_started(unsigned_type size_, double now)
     {
         scoped_mutex_lock IOLock(io_mutex);
 
+        now = monotonic_timestamp(now, p_begin_io);
+
         double diff = now - p_begin_io;
         p_ios += (acc_ios++) ? diff : 0.0;
         p_begin_io = now;
@@ -221,10 +240,12 @@ void stats::read_canceled(unsigned_type size_)
 
 void stats::read_finished()
 {
-    double now = timestamp();
+    double now = 0.0;
     {
         scoped_mutex_lock ReadLock(read_mutex);
 
+        now = monotonic_timestamp(now, p_begin_read);
+
         double diff = now - p_begin_read;
         t_reads += double(acc_reads) * diff;
         p_begin_read = now;
@@ -233,6 +254,8 @@ void stats::read_finished()
     {
         scoped_mutex_lock IOLock(io_mutex);
 
+        now = monotonic_timestamp(now, p_begin_io);
+
         double diff = now - p_begin_io;
         p_ios += (acc_ios--) ? diff : 0.0;
         p_begin_io = now;
@@ -251,10 +274,11 @@ void stats::read_cached(unsigned_type size_)
 #ifndef STXXL_DO_NOT_COUNT_WAIT_TIME
 void stats::wait_started(wait_op_type wait_op)
 {
-    double now = timestamp();
     {
         scoped_mutex_lock WaitLock(wait_mutex);
 
+        double now = monotonic_timestamp(0.0, p_begin_wait);
+
         double diff = now - p_begin_wait;
         t_waits += double(acc_waits) * diff;
         p_begin_wait = now;
@@ -278,10 +302,11 @@ void stats::wait_started(wait_op_type wait_op)
 
 void stats::wait_finished(wait_op_type wait_op)
 {
-    double now = timestamp();
     {
         scoped_mutex_lock WaitLock(wait_mutex);
 
+        double now = monotonic_timestamp(0.0, p_begin_wait);
+
         double diff = now - p_begin_wait;
         t_waits += double(acc_waits) * diff;
         p_begin_wait = now;
-- 
2.43.0


From 7a08a75a2c47e12ef8471af792d4ab9f8216daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 66/72] fix: linuxaio_queue: halve, not double, the number of
 events the kernel refuses

---
 lib/io/linuxaio_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index ba45dc0..9deb81f 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -50,7 +50,7 @@ linuxaio_queue::linuxaio_queue(int desired_queue_length)
     while ((result = syscall(SYS_io_setup, max_events, &context)) == -1 &&
            errno == EAGAIN && max_events > 1)
     {
-        max_events <<= 1;               // try with half as many events
+        max_events >>= 1;               // try with half as many events
     }
     if (result != 0) {
         STXXL_THROW_ERRNO(io_error, "linuxaio_queue::linuxaio_queue"
-- 
2.43.0


From 1cf4723c2572d49990b4b7ebacc68f637d92f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 67/72] fix: linuxaio_request: count a transfer as started
 before it can complete

---
 lib/io/linuxaio_request.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 1a13ae9..755d78c 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -75,17 +75,27 @@ bool linuxaio_request::post()
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
         disk_queues::get_instance()->get_queue(m_file->get_queue_id())
         );
+    // the request may complete before io_submit returns
+    if (m_type == READ)
+        stats::get_instance()->read_started(m_bytes, now);
+    else
+        stats::get_instance()->write_started(m_bytes, now);
+
     long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
-    if (success == 1)
+    if (success != 1)
     {
+        int submit_errno = errno;
+
         if (m_type == READ)
-            stats::get_instance()->read_started(m_bytes, now);
+            stats::get_instance()->read_canceled(m_bytes);
         else
-            stats::get_instance()->write_started(m_bytes, now);
+            stats::get_instance()->write_canceled(m_bytes);
+
+        errno = submit_errno;
+        if (success == -1 && errno != EAGAIN)
+            STXXL_THROW_ERRNO(io_error, "linuxaio_request::post"
+                              " io_submit()");
     }
-    else if (success == -1 && errno != EAGAIN)
-        STXXL_THROW_ERRNO(io_error, "linuxaio_request::post"
-                          " io_submit()");
 
     return success == 1;
 }
-- 
2.43.0


From d6d53d7d404b5737dcc7f76ece8f19fe510756b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 68/72] fix: linuxaio_request: release the reference of a
 submission the kernel refused

---
 lib/io/linuxaio_request.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 755d78c..c0822a8 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -86,6 +86,9 @@ bool linuxaio_request::post()
     {
         int submit_errno = errno;
 
+        // the I/O system did not take the reference
+        delete reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(cb.aio_data));
+
         if (m_type == READ)
             stats::get_instance()->read_canceled(m_bytes);
         else
-- 
2.43.0


From c8649406dc93b96178334bc590c95122c9b12629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 69/72] fix: linuxaio_queue: do not wait for events in the
 posting thread, which may deadlock

---
 lib/io/linuxaio_queue.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 9deb81f..2f36249 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -128,7 +128,6 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
 void linuxaio_queue::post_requests()
 {
     request_ptr req;
-    io_event* events = new io_event[max_events];
 
     for ( ; ; ) // as long as thread is running
     {
@@ -151,17 +150,10 @@ void linuxaio_queue::post_requests()
             // polymorphic_downcast
             while (!dynamic_cast<linuxaio_request*>(req.get())->post())
             {
-                // post failed, so first handle events to make queues (more)
-                // empty, then try again.
-
-                // wait for at least one event to complete, no time limit
-                long num_events = syscall(SYS_io_getevents, context, 1, max_events, events, NULL);
-                if (num_events < 0) {
-                    STXXL_THROW_ERRNO(io_error, "linuxaio_queue::post_requests"
-                                      " io_getevents() nr_events=" << num_events);
-                }
-
-                handle_events(events, num_events, false);
+                // post failed due to lack of resources, try again later. The
+                // events are left to the wait thread: it may already have
+                // taken all of them, then waiting here would never end.
+                usleep(1000);
             }
 
             // request is finally posted
@@ -175,8 +167,6 @@ void linuxaio_queue::post_requests()
             num_waiting_requests++;
         }
     }
-
-    delete[] events;
 }
 
 void linuxaio_queue::handle_events(io_event* events, long num_events, bool canceled)
-- 
2.43.0


From eca111b1e7f272a423adcf7f49ad167e25915059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 70/72] fix: linuxaio: do not use the disk_queues singleton to
 post requests while it is being destroyed

---
 include/stxxl/bits/io/linuxaio_request.h | 2 +-
 lib/io/linuxaio_queue.cpp                | 2 +-
 lib/io/linuxaio_request.cpp              | 8 +++-----
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/io/linuxaio_request.h b/include/stxxl/bits/io/linuxaio_request.h
index 6ee20e5..d939dc7 100644
--- a/include/stxxl/bits/io/linuxaio_request.h
+++ b/include/stxxl/bits/io/linuxaio_request.h
@@ -57,7 +57,7 @@ public:
                                " type=" << type << ")");
     }
 
-    bool post();
+    bool post(aio_context_t context);
     bool cancel();
     bool cancel_aio();
     void completed(bool posted, bool canceled);
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 2f36249..29056cf 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -148,7 +148,7 @@ void linuxaio_queue::post_requests()
             num_free_events--; // might block because too many requests are posted
 
             // polymorphic_downcast
-            while (!dynamic_cast<linuxaio_request*>(req.get())->post())
+            while (!dynamic_cast<linuxaio_request*>(req.get())->post(context))
             {
                 // post failed due to lack of resources, try again later. The
                 // events are left to the wait thread: it may already have
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index c0822a8..bd38ae6 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -63,7 +63,7 @@ void linuxaio_request::fill_control_block()
 
 //! Submits an I/O request to the OS
 //! \returns false if submission fails
-bool linuxaio_request::post()
+bool linuxaio_request::post(aio_context_t context)
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] post()");
 
@@ -72,16 +72,14 @@ bool linuxaio_request::post()
     // io_submit might considerable time, so we have to remember the current
     // time before the call.
     double now = timestamp();
-    linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
-        );
+
     // the request may complete before io_submit returns
     if (m_type == READ)
         stats::get_instance()->read_started(m_bytes, now);
     else
         stats::get_instance()->write_started(m_bytes, now);
 
-    long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
+    long success = syscall(SYS_io_submit, context, 1, &cb_pointer);
     if (success != 1)
     {
         int submit_errno = errno;
-- 
2.43.0


From 469373319ae02083ca21a72ab6c9fe019d294a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 71/72] fix: linuxaio_queue: do not lose requests on shutdown

---
 lib/io/linuxaio_queue.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 29056cf..c90501b 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -69,6 +69,11 @@ linuxaio_queue::linuxaio_queue(int desired_queue_length)
 linuxaio_queue::~linuxaio_queue()
 {
     stop_thread(post_thread, post_thread_state, num_waiting_requests);
+
+    // wait for all posted requests to finish: then all events are free again
+    for (int e = 0; e < max_events; ++e)
+        num_free_events--;
+
     stop_thread(wait_thread, wait_thread_state, num_posted_requests);
     syscall(SYS_io_destroy, context);
 }
@@ -132,11 +137,7 @@ void linuxaio_queue::post_requests()
     for ( ; ; ) // as long as thread is running
     {
         // might block until next request or message comes in
-        int num_currently_waiting_requests = num_waiting_requests--;
-
-        // terminate if termination has been requested
-        if (post_thread_state() == TERMINATING && num_currently_waiting_requests == 0)
-            break;
+        num_waiting_requests--;
 
         scoped_mutex_lock lock(waiting_mtx);
         if (!waiting_requests.empty())
@@ -161,6 +162,12 @@ void linuxaio_queue::post_requests()
         }
         else
         {
+            // terminate if termination has been requested and all requests
+            // are posted; the semaphore does not tell, its stop token may not
+            // be there yet
+            if (post_thread_state() == TERMINATING)
+                break;
+
             lock.unlock();
 
             // num_waiting_requests-- was premature, compensate for that
-- 
2.43.0


From e363e63a984f1ed835b507ab1d76d13bada34818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 72/72] fix: linuxaio: report errors and incomplete transfers
 to the owner of the request

---
 include/stxxl/bits/io/linuxaio_request.h |  4 +++
 lib/io/linuxaio_queue.cpp                | 29 +++++++++++++------
 lib/io/linuxaio_request.cpp              | 36 ++++++++++++++++++++++++
 3 files changed, 61 insertions(+), 8 deletions(-)

diff --git a/include/stxxl/bits/io/linuxaio_request.h b/include/stxxl/bits/io/linuxaio_request.h
index d939dc7..27d3357 100644
--- a/include/stxxl/bits/io/linuxaio_request.h
+++ b/include/stxxl/bits/io/linuxaio_request.h
@@ -58,6 +58,10 @@ public:
     }
 
     bool post(aio_context_t context);
+    //! Fail a request that could not be posted.
+    void failed(const char* msg);
+    //! Check the result of a posted request, as reported by the OS.
+    void check_result(int64 result);
     bool cancel();
     bool cancel_aio();
     void completed(bool posted, bool canceled);
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index c90501b..33e47a4 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -149,16 +149,27 @@ void linuxaio_queue::post_requests()
             num_free_events--; // might block because too many requests are posted
 
             // polymorphic_downcast
-            while (!dynamic_cast<linuxaio_request*>(req.get())->post(context))
+            try
             {
-                // post failed due to lack of resources, try again later. The
-                // events are left to the wait thread: it may already have
-                // taken all of them, then waiting here would never end.
-                usleep(1000);
-            }
+                while (!dynamic_cast<linuxaio_request*>(req.get())->post(context))
+                {
+                    // post failed due to lack of resources, try again later.
+                    // The events are left to the wait thread: it may already
+                    // have taken all of them, then waiting here would never
+                    // end.
+                    usleep(1000);
+                }
 
-            // request is finally posted
-            num_posted_requests++;
+                // request is finally posted
+                num_posted_requests++;
+            }
+            catch (const io_error& ex)
+            {
+                // the request will never be posted, report that to its owner
+                dynamic_cast<linuxaio_request*>(req.get())->failed(ex.what());
+                num_free_events++;
+            }
+            req = request_ptr();
         }
         else
         {
@@ -182,6 +193,8 @@ void linuxaio_queue::handle_events(io_event* events, long num_events, bool cance
     {
         // unsigned_type is as long as a pointer, and like this, we avoid an icpc warning
         request_ptr* r = reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(events[e].data));
+        if (!canceled)
+            dynamic_cast<linuxaio_request*>(r->get())->check_result(events[e].res);
         r->get()->completed(canceled);
         delete r;              // release auto_ptr reference
         num_free_events++;
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index bd38ae6..9626ee3 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -22,6 +22,9 @@
 #include <unistd.h>
 #include <sys/syscall.h>
 
+#include <cstring>
+#include <sstream>
+
 STXXL_BEGIN_NAMESPACE
 
 void linuxaio_request::completed(bool posted, bool canceled)
@@ -101,6 +104,39 @@ bool linuxaio_request::post(aio_context_t context)
     return success == 1;
 }
 
+void linuxaio_request::failed(const char* msg)
+{
+    error_occured(msg);
+    request_with_state::completed(false);
+}
+
+void linuxaio_request::check_result(int64 result)
+{
+    if (result == (int64)m_bytes)
+        return;
+
+    std::ostringstream msg;
+    msg << "linuxaio_request: " << (m_type == READ ? "read" : "write")
+        << " this=" << this << " offset=" << m_offset
+        << " bytes=" << m_bytes << " : ";
+
+    if (result < 0)
+    {
+        error_occured(msg.str() + strerror((int)-result));
+    }
+    else if (m_type == READ && m_offset + (offset_type)result >= m_file->size())
+    {
+        // read beyond the end of the file: fill the rest with zeros, as
+        // syscall_file does
+        memset(static_cast<char*>(m_buffer) + result, 0, m_bytes - (size_type)result);
+    }
+    else
+    {
+        msg << "only " << result << " bytes were transferred";
+        error_occured(msg.str());
+    }
+}
+
 //! Cancel the request
 //!
 //! Routine is called by user, as part of the request interface.
-- 
2.43.0

