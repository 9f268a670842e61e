From 3027a8d801109f7d39cdf672dc549e4656cc9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:17 +0000
Subject: [PATCH 01/16] fix: don't over- or underflow when checking the flash
 range in the config constructors

---
 src/map.rs       | 2 +-
 src/queue/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 88a4bda..b4f210d 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -45,7 +45,7 @@ impl<S: NorFlash> MapConfig<S> {
             return Err(MapConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 2 pages are used
-        if flash_range.end - flash_range.start < S::ERASE_SIZE as u32 * 2 {
+        if (flash_range.end.saturating_sub(flash_range.start) as u64) < S::ERASE_SIZE as u64 * 2 {
             return Err(MapConfigError::RangeTooSmall);
         }
 
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ac65308..ce20449 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -39,7 +39,7 @@ impl<S: NorFlash> QueueConfig<S> {
             return Err(QueueConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 1 page is used
-        if flash_range.end - flash_range.start < (S::ERASE_SIZE as u32) {
+        if flash_range.end.saturating_sub(flash_range.start) < (S::ERASE_SIZE as u32) {
             return Err(QueueConfigError::RangeTooSmall);
         }
 
-- 
2.43.0


From d35cb07447bf307061dd38e2ebd37ce348e99a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:37 +0000
Subject: [PATCH 02/16] fix: limit the item data to the item length so foreign
 flash contents can't panic or leak stale buffer bytes into a value

---
 src/item.rs |  3 ++-
 src/map.rs  | 14 +++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 373ed90..7ba0dd8 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -156,9 +156,10 @@ impl ItemHeader {
                     let data_crc = adapted_crc32(data);
 
                     break if data_crc == header_crc {
+                        let length = self.length as usize;
                         Ok(MaybeItem::Present(Item {
                             header: self,
-                            item_data_buffer: data_buffer,
+                            item_data_buffer: &mut data_buffer[..length],
                         }))
                     } else {
                         if !retry {
diff --git a/src/map.rs b/src/map.rs
index b4f210d..2fe70d2 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -204,9 +204,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             None => K::get_len(&data_buffer[..data_len])?,
         };
 
-        let (value, _size) =
-            V::deserialize_from(&data_buffer[item_key_len..][..data_len - item_key_len])
-                .map_err(Error::SerializationError)?;
+        let value_data = data_buffer[..data_len]
+            .get(item_key_len..)
+            .ok_or(SerializationError::InvalidFormat)?;
+        let (value, _size) = V::deserialize_from(value_data).map_err(Error::SerializationError)?;
         Ok(Some(value))
     }
 
@@ -1116,8 +1117,11 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
 
         let data_len = item.header.length as usize;
         let (key, key_len) = K::deserialize_from(item.data())?;
-        let (value, _value_len) = V::deserialize_from(&data_buffer[..data_len][key_len..])
-            .map_err(Error::SerializationError)?;
+        let value_data = data_buffer[..data_len]
+            .get(key_len..)
+            .ok_or(SerializationError::InvalidFormat)?;
+        let (value, _value_len) =
+            V::deserialize_from(value_data).map_err(Error::SerializationError)?;
 
         Ok(Some((key, value)))
     }
-- 
2.43.0


From 9206a19666aae5c331bda10faf9752843dbd88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:37 +0000
Subject: [PATCH 03/16] fix: don't panic when a key pointers cache has room for
 zero keys

---
 src/cache/key_pointers.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cache/key_pointers.rs b/src/cache/key_pointers.rs
index 726eec1..2f3fb99 100644
--- a/src/cache/key_pointers.rs
+++ b/src/cache/key_pointers.rs
@@ -130,9 +130,12 @@ pub(crate) struct TrackedKeyPointers<'a, KEY: Eq> {
 
 impl<'a, KEY: Eq> TrackedKeyPointers<'a, KEY> {
     fn insert_front(&mut self, value: (KEY, NonZeroU32)) {
-        let len = self.key_pointers.len();
-        self.key_pointers[len - 1] = Some(value);
-        move_to_front(self.key_pointers, len - 1);
+        let Some(last_index) = self.key_pointers.len().checked_sub(1) else {
+            // There's no space for any key
+            return;
+        };
+        self.key_pointers[last_index] = Some(value);
+        move_to_front(self.key_pointers, last_index);
     }
 }
 
-- 
2.43.0


From 656a10f730a7e54884f543a5d6d0457c2f5e0881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 04/16] fix: drop a dirty cache before removing or iterating
 map items

---
 src/map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 2fe70d2..1374059 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -631,6 +631,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     where
         S: MultiwriteNorFlash,
     {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         if let Some(key) = &search_key {
             self.inner.cache.notice_key_erased(key);
         } else {
@@ -786,6 +790,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         &mut self,
         data_buffer: &mut [u8],
     ) -> Result<MapItemIter<'_, K, S, C>, Error<S::Error>> {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         // Get the first page index.
         // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-- 
2.43.0


From def432d868f319b538e41bf550d567ff0892e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 05/16] fix: invalidate the cache in erase_all

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 37fb23a..4298c7a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,6 +55,7 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
     ///
     /// This is just a thin helper function as it just calls the flash's erase function.
     pub async fn erase_all(&mut self) -> Result<(), Error<S::Error>> {
+        self.cache.invalidate_cache_state();
         self.flash
             .erase(self.flash_range.start, self.flash_range.end)
             .await
-- 
2.43.0


From 72a0ebb9848147efece03fc4090221914d5f7e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:24 +0000
Subject: [PATCH 06/16] fix: never write an item over the erased looking tail
 of a header whose write got interrupted

---
 src/item.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 7ba0dd8..fb44a02 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -629,12 +629,18 @@ impl ItemHeaderIter {
     /// Traverse headers until the callback returns false. If the callback returns true,
     /// the element is skipped and traversal continues.
     ///
-    /// If the end of the headers is reached, a `None` item header is returned.
+    /// If the end of the headers is reached, a `None` item header is returned together with the first address that
+    /// is free to write to.
     pub(crate) async fn traverse<S: NorFlash>(
         &mut self,
         flash: &mut S,
         callback: impl Fn(&ItemHeader, u32) -> bool,
     ) -> Result<(Option<ItemHeader>, u32), Error<S::Error>> {
+        // The end of the last corrupted header we've seen. It may be a header of which the write got interrupted,
+        // in which case its tail still looks erased. Nothing may be written there since that could turn it into
+        // a valid header again that hides the newly written data.
+        let mut corrupted_header_end = self.current_address;
+
         loop {
             match ItemHeader::read_new(flash, self.current_address, self.end_address).await {
                 Ok(Some(header)) => {
@@ -648,9 +654,10 @@ impl ItemHeaderIter {
                     }
                 }
                 Ok(None) => {
-                    return Ok((None, self.current_address));
+                    return Ok((None, self.current_address.max(corrupted_header_end)));
                 }
                 Err(Error::Corrupted { .. }) => {
+                    corrupted_header_end = ItemHeader::data_address::<S>(self.current_address);
                     self.current_address += S::WORD_SIZE as u32;
                 }
                 Err(e) => return Err(e),
-- 
2.43.0


From 25a532bd4a55420544696d517f93c5264c896f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 07/16] fix: let find_max_fit return a length that can be
 pushed, also on a single page queue

---
 src/queue/mod.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ce20449..ea7fd2b 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -355,24 +355,30 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
         // Check if we have space on the next page
         let next_page = self.inner.next_page(current_page);
-        match self.inner.get_page_state_cached(next_page).await? {
-            state @ PageState::Closed => {
-                if self.inner.is_page_empty(next_page, Some(state)).await? {
-                    self.inner.cache.unmark_dirty();
-                    return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
-                }
-            }
-            PageState::Open => {
-                self.inner.cache.unmark_dirty();
-                return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+        let single_page = next_page == current_page;
+        let next_page_empty = match (
+            self.inner.get_page_state_cached(next_page).await?,
+            single_page,
+        ) {
+            (PageState::Open, _) => true,
+            (PageState::Closed, _) | (PageState::PartialOpen, true) => {
+                // A push would erase and then reuse this page if all of its items are popped
+                self.inner
+                    .is_page_empty(next_page, Some(PageState::Closed))
+                    .await?
             }
-            PageState::PartialOpen => {
+            (PageState::PartialOpen, false) => {
                 // This should never happen
                 return Err(Error::Corrupted {
                     #[cfg(feature = "_test")]
                     backtrace: std::backtrace::Backtrace::capture(),
                 });
             }
+        };
+
+        if next_page_empty {
+            self.inner.cache.unmark_dirty();
+            return Ok(Self::max_data_length(calculate_page_size::<S>() as u32));
         }
 
         // See how much space we can find in the current page.
@@ -398,11 +404,17 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         };
 
         self.inner.cache.unmark_dirty();
-        Ok(ItemHeader::available_data_bytes::<S>(
+        Ok(Self::max_data_length(
             page_data_end_address - next_item_address,
         ))
     }
 
+    /// The length of the biggest data that can be stored as one item in the given amount of bytes
+    fn max_data_length(total_available: u32) -> Option<u32> {
+        ItemHeader::available_data_bytes::<S>(total_available)
+            .map(|available| available.min(u32::from(u16::MAX)))
+    }
+
     /// Calculate how much space is left free in the queue (in bytes).
     ///
     /// The number given back is accurate, however there are lots of things that add overhead and padding.
-- 
2.43.0


From 22ce7b52afb888cfea78ef152ee8d9c24a79326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:46 +0000
Subject: [PATCH 08/16] fix: reuse the page of a single page queue when all its
 items are popped

---
 src/queue/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ea7fd2b..1a81c21 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -233,7 +233,8 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                     if !allow_overwrite_old_data
                         && !self
                             .inner
-                            .is_page_empty(next_page, Some(next_page_state))
+                            // On a single page queue the page is partial open, so lie about it to have the items checked
+                            .is_page_empty(next_page, Some(PageState::Closed))
                             .await?
                     {
                         self.inner.cache.unmark_dirty();
-- 
2.43.0


From 8a1441cc163df4da6de705d4966132d87aa4532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:25 +0000
Subject: [PATCH 09/16] fix: make an interrupted erase of a single page queue
 recognizable

---
 src/queue/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 1a81c21..33b89ec 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -241,6 +241,11 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         return Err(Error::FullStorage);
                     }
 
+                    if single_page {
+                        // Mark the page as closed so an interrupted erase will be recognized as such.
+                        // Otherwise the page could look open while there's still old data on it.
+                        self.inner.close_page(current_page).await?;
+                    }
                     self.inner.open_page(next_page).await?;
                     if !single_page {
                         self.inner.close_page(current_page).await?;
@@ -528,6 +533,11 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
             return Ok(first_open_page);
         }
 
+        if self.inner.page_count().get() == 1 {
+            // The only page got closed right before it would be erased, but the erase didn't happen (yet)
+            return Ok(0);
+        }
+
         // All pages are closed... This is not correct.
         Err(Error::Corrupted {
             #[cfg(feature = "_test")]
-- 
2.43.0


From 4cd013ad150d074a4ddd41efebb4b94edd57de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:45 +0000
Subject: [PATCH 10/16] fix: report a too small buffer instead of an empty
 queue when draining or reading the RAM ring

---
 src/queue/buffered.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index d203068..ee3c4f6 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -250,10 +250,9 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let Some(data) = self.ram.peek_into(scratch) else {
+        let Some(len) = self.peek_ram(scratch)? else {
             return Ok(false);
         };
-        let len = data.len();
         self.storage.push(&scratch[..len], allow_overwrite).await?;
         self.ram.discard_oldest();
         Ok(true)
@@ -287,8 +286,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
-        if let Some(len) = len {
+        if let Some(len) = self.peek_ram(data_buffer)? {
             self.ram.discard_oldest();
             return Ok(Some(&mut data_buffer[..len]));
         }
@@ -311,13 +309,23 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
-        if let Some(len) = len {
+        if let Some(len) = self.peek_ram(data_buffer)? {
             return Ok(Some(&mut data_buffer[..len]));
         }
         Ok(None)
     }
 
+    /// Copy the oldest RAM item into `buf` and return its length, or `None` if the RAM ring is empty.
+    fn peek_ram(&self, buf: &mut [u8]) -> Result<Option<usize>, Error<S::Error>> {
+        let Some(len) = self.ram.oldest_len() else {
+            return Ok(None);
+        };
+        match self.ram.peek_into(buf) {
+            Some(_) => Ok(Some(len)),
+            None => Err(Error::BufferTooSmall(len)),
+        }
+    }
+
     /// Total capacity of the RAM ring in bytes (including 2-byte per-item length prefixes).
     pub const fn ram_capacity_bytes() -> usize {
         RAM_BYTES
@@ -440,12 +448,15 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self
-            .ring
-            .lock(|r| r.borrow().peek_into(scratch).map(|s| s.len()));
-        let Some(len) = len else {
+        let Some((len, fits)) = self.ring.lock(|r| {
+            let ring = r.borrow();
+            Some((ring.oldest_len()?, ring.peek_into(scratch).is_some()))
+        }) else {
             return Ok(false);
         };
+        if !fits {
+            return Err(Error::BufferTooSmall(len));
+        }
         storage.push(&scratch[..len], allow_overwrite).await?;
         self.ring.lock(|r| r.borrow_mut().discard_oldest());
         Ok(true)
-- 
2.43.0


From d62c14d4254ec577604733c3ae76b6a56d19ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:48 +0000
Subject: [PATCH 11/16] fix: don't lose a RAM ring item when an overwriting
 enqueue happens during a drain

---
 src/queue/buffered.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index ee3c4f6..bc298bf 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -47,6 +47,8 @@ struct RamRing<const N: usize> {
     /// Total bytes occupied (length prefixes + data).
     used: usize,
     item_count: usize,
+    /// Number of items discarded so far (wrapping). Identifies the item that's currently the oldest.
+    discarded: usize,
 }
 
 impl<const N: usize> RamRing<N> {
@@ -58,6 +60,7 @@ impl<const N: usize> RamRing<N> {
             write_pos: 0,
             used: 0,
             item_count: 0,
+            discarded: 0,
         }
     }
 
@@ -146,6 +149,7 @@ impl<const N: usize> RamRing<N> {
             self.read_pos = (self.read_pos + 2 + len) % N;
             self.used -= 2 + len;
             self.item_count -= 1;
+            self.discarded = self.discarded.wrapping_add(1);
         }
     }
 
@@ -448,9 +452,13 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let Some((len, fits)) = self.ring.lock(|r| {
+        let Some((len, fits, discarded)) = self.ring.lock(|r| {
             let ring = r.borrow();
-            Some((ring.oldest_len()?, ring.peek_into(scratch).is_some()))
+            Some((
+                ring.oldest_len()?,
+                ring.peek_into(scratch).is_some(),
+                ring.discarded,
+            ))
         }) else {
             return Ok(false);
         };
@@ -458,7 +466,14 @@ impl<const N: usize> SharedRamRing<N> {
             return Err(Error::BufferTooSmall(len));
         }
         storage.push(&scratch[..len], allow_overwrite).await?;
-        self.ring.lock(|r| r.borrow_mut().discard_oldest());
+        self.ring.lock(|r| {
+            let mut ring = r.borrow_mut();
+            // The item may already have been discarded by an overwriting enqueue while we were pushing it to flash.
+            // In that case the oldest item is another one that's not in flash yet.
+            if ring.discarded == discarded {
+                ring.discard_oldest();
+            }
+        });
         Ok(true)
     }
 
-- 
2.43.0


From 9771b59a8bb4854f11eb1c5e4766ca2c8e27b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:29 +0000
Subject: [PATCH 12/16] fix: forget the calculated page states when the last
 known open page gets closed

---
 src/cache/page_states.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cache/page_states.rs b/src/cache/page_states.rs
index eb3eab1..721752d 100644
--- a/src/cache/page_states.rs
+++ b/src/cache/page_states.rs
@@ -157,6 +157,10 @@ impl SealedPageStatesCache for CalculatedPageStates {
                     Some(PageState::Closed) => {
                         // We've rediscovered ourselves and that's great
                     }
+                    Some(PageState::PartialOpen) if self.open_pages <= 1 => {
+                        // We don't know of any other open page that could become the anchor, so forget everything
+                        self.invalidate_cache_state();
+                    }
                     Some(PageState::PartialOpen) => {
                         let anchor = self.anchor.as_mut().unwrap();
                         // The anchor moves one up
-- 
2.43.0


From 8b5d5b94bdeb3f2988b5c4fedf639b92789d2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:56 +0000
Subject: [PATCH 13/16] fix: repair and report errors when iterating the map
 items

The repair was never reached because the error was returned from the function directly
and errors while looking for the next page were silently ignored.
---
 src/map.rs | 97 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 51 insertions(+), 46 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 1374059..2d025cc 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -794,52 +794,8 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             self.inner.cache.invalidate_cache_state();
         }
 
-        // Get the first page index.
-        // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-            function = {
-                match self
-                    .inner
-                    .find_first_page(0, PageState::PartialOpen)
-                    .await?
-                {
-                    Some(last_used_page) => {
-                        // The next page of the `PartialOpen` page is the first page
-                        Ok(self.inner.next_page(last_used_page))
-                    }
-                    None => {
-                        // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
-                        // If the page one before that is closed, then that's the last used page.
-                        if let Some(first_open_page) =
-                            self.inner.find_first_page(0, PageState::Open).await?
-                        {
-                            let previous_page = self.inner.previous_page(first_open_page);
-                            if self
-                                .inner
-                                .get_page_state_cached(previous_page)
-                                .await?
-                                .is_closed()
-                            {
-                                // The previous page is closed, so the first_open_page is what we want
-                                Ok(first_open_page)
-                            } else {
-                                // The page before the open page is not closed, so it must be open.
-                                // This means that all pages are open and that we don't have any items yet.
-                                self.inner.cache.unmark_dirty();
-                                Ok(0)
-                            }
-                        } else {
-                            // There are no open pages, so everything must be closed.
-                            // Something is up and this should never happen.
-                            // To recover, we will just erase all the flash.
-                            Err(Error::Corrupted {
-                                #[cfg(feature = "_test")]
-                                backtrace: std::backtrace::Backtrace::capture(),
-                            })
-                        }
-                    }
-                }
-            },
+            function = self.find_first_used_page().await,
             repair = self.try_repair(data_buffer).await?
         )?;
 
@@ -857,6 +813,52 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         })
     }
 
+    /// Get the index of the page where an iteration over all items has to start
+    async fn find_first_used_page(&mut self) -> Result<usize, Error<S::Error>> {
+        // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
+        match self
+            .inner
+            .find_first_page(0, PageState::PartialOpen)
+            .await?
+        {
+            Some(last_used_page) => {
+                // The next page of the `PartialOpen` page is the first page
+                Ok(self.inner.next_page(last_used_page))
+            }
+            None => {
+                // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
+                // If the page one before that is closed, then that's the last used page.
+                if let Some(first_open_page) =
+                    self.inner.find_first_page(0, PageState::Open).await?
+                {
+                    let previous_page = self.inner.previous_page(first_open_page);
+                    if self
+                        .inner
+                        .get_page_state_cached(previous_page)
+                        .await?
+                        .is_closed()
+                    {
+                        // The previous page is closed, so the first_open_page is what we want
+                        Ok(first_open_page)
+                    } else {
+                        // The page before the open page is not closed, so it must be open.
+                        // This means that all pages are open and that we don't have any items yet.
+                        self.inner.cache.unmark_dirty();
+                        Ok(0)
+                    }
+                } else {
+                    // There are no open pages, so everything must be closed.
+                    // Something is up and this should never happen.
+                    // To recover, we will just erase all the flash.
+                    Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    })
+                }
+            }
+        }
+    }
+
     async fn migrate_items(
         &mut self,
         data_buffer: &mut [u8],
@@ -1118,7 +1120,10 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
                         );
                         break;
                     }
-                    _ => continue,
+                    Ok(PageState::Open) => continue,
+                    // The page is half-erased. What was in there is not used anymore.
+                    Err(Error::Corrupted { .. }) => continue,
+                    Err(e) => return Err(e),
                 }
             }
         };
-- 
2.43.0


From 4622946e946059bb187e8c77f3637700e89b5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 14/16] fix: redo an interrupted migration before removing
 items from the map

An interrupted remove could otherwise remove the original of an item that is not yet migrated
completely, after which the repair throws away the copy that fetch still returned.
---
 src/map.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 2d025cc..2937d6c 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -649,7 +649,25 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             .find_first_page(0, PageState::PartialOpen)
             .await?
         {
-            Some(last_used_page) => last_used_page,
+            Some(last_used_page) => {
+                if !self
+                    .inner
+                    .get_page_state_cached(self.inner.next_page(last_used_page))
+                    .await?
+                    .is_open()
+                {
+                    // The next page which serves as the buffer page is not open, so a migration got interrupted.
+                    // It will be redone by the repair, which starts with erasing the partial open page.
+                    // That has to happen first, because we could be interrupted after we've removed an item from the
+                    // buffer page and before we've removed its copy from the partial open page.
+                    return Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    });
+                }
+
+                last_used_page
+            }
             None => {
                 // Oh dear, there's no active partial open page. Seems like some operation was cancelled or didn't make it through.
                 // Instead, we're gonna have to find what should be the partial open page, which is the first open page after the closed pages.
-- 
2.43.0


From 6954bf5bfa892e14d311d781b2939537914cec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 15/16] fix: don't let items in a half erased open page come
 back

When the repair of an interrupted migration is interrupted while erasing the partial open page,
the page looks open but may still have items. Don't iterate those and include them in a remove.
---
 src/map.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 2937d6c..16d730e 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -641,6 +641,9 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             self.inner.cache.invalidate_cache_state();
         }
 
+        // Pages that look open have no items, unless their erase got interrupted
+        let mut skip_open_pages = true;
+
         // Search for the last used page. We're gonna erase from the one after this first.
         // If we get an early shutoff or cancellation, this will make it so that we don't return
         // an old version of the key on the next fetch.
@@ -673,6 +676,11 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                 // Instead, we're gonna have to find what should be the partial open page, which is the first open page after the closed pages.
                 // If there's no closed pages, we only have open pages,
                 // so we can fall back to just the 0 index after which the rest of the logic should work fine.
+
+                // The repair of an interrupted migration may have been interrupted itself while it was erasing the partial open page.
+                // Then there are still items in there which must not come back when the page is used again.
+                skip_open_pages = false;
+
                 self.inner
                     .find_last_page(0, PageState::Closed)
                     .await?
@@ -687,6 +695,7 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                 .get_page_state_cached(page_index)
                 .await?
                 .is_open()
+                && skip_open_pages
             {
                 // This page is open, we don't have to check it
                 continue;
@@ -856,8 +865,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                         .await?
                         .is_closed()
                     {
-                        // The previous page is closed, so the first_open_page is what we want
-                        Ok(first_open_page)
+                        // The previous page is closed, so the page after the first_open_page is what we want.
+                        // The first_open_page itself has no items. If its erase got interrupted there may still
+                        // be items in there, but those are not used anymore.
+                        Ok(self.inner.next_page(first_open_page))
                     } else {
                         // The page before the open page is not closed, so it must be open.
                         // This means that all pages are open and that we don't have any items yet.
-- 
2.43.0


From 91dd141bb36cb1bc2aabccd97aadf1d1b730c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:42 +0000
Subject: [PATCH 16/16] fix: let the queue reuse pages of which only corrupted
 items are left

A push without overwriting never reused a page with an item of which the write got interrupted,
not even after everything had been popped, so the queue stayed full forever.
---
 src/item.rs | 83 ++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 11 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index fb44a02..0a7b0bf 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -173,6 +173,49 @@ impl ItemHeader {
         }
     }
 
+    /// Check whether the data of this (not erased) item doesn't match its crc.
+    /// This doesn't need a buffer that fits all the data.
+    async fn is_data_corrupted<S: NorFlash>(
+        &self,
+        flash: &mut S,
+        address: u32,
+    ) -> Result<bool, Error<S::Error>> {
+        let data_address = ItemHeader::data_address::<S>(address);
+        let mut buffer = AlignedBuf([0; MAX_WORD_SIZE]);
+        let buffer_len = round_down_to_alignment_usize::<S>(MAX_WORD_SIZE);
+
+        // Just like when reading the item, we try it twice
+        for _ in 0..2 {
+            let mut crc = !CRC32_INITIAL;
+            let mut offset = 0;
+            let mut data_left = self.length as usize;
+
+            while data_left > 0 {
+                let data_len = data_left.min(buffer_len);
+                let read_len = round_up_to_alignment_usize::<S>(data_len);
+
+                flash
+                    .read(data_address + offset, &mut buffer[..read_len])
+                    .await
+                    .map_err(|e| Error::Storage {
+                        value: e,
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    })?;
+
+                crc = crc32_with_initial(&buffer[..data_len], !crc);
+                offset += read_len as u32;
+                data_left -= data_len;
+            }
+
+            if self.crc == Some(adapt_crc32(crc)) {
+                return Ok(false);
+            }
+        }
+
+        Ok(true)
+    }
+
     async fn write<S: NorFlash>(&self, flash: &mut S, address: u32) -> Result<(), Error<S::Error>> {
         let mut buffer = AlignedBuf([0xFF; MAX_WORD_SIZE]);
 
@@ -449,7 +492,11 @@ fn crc16(data: &[u8]) -> u16 {
 
 /// Calculate the crc32 of the data as used by the crate.
 fn adapted_crc32(data: &[u8]) -> NonZeroU32 {
-    match crc32(data) {
+    adapt_crc32(crc32(data))
+}
+
+fn adapt_crc32(crc: u32) -> NonZeroU32 {
+    match crc {
         // CRC may not be 0 as that already means 'erased'
         0 => NonZeroU32::new(1).unwrap(),
         // To aid in early shutoff/cancellation, we make sure that if the first byte of
@@ -462,10 +509,12 @@ fn adapted_crc32(data: &[u8]) -> NonZeroU32 {
     }
 }
 
+/// We use a modified initial value because the normal 0xFFFFFFF does not pass
+/// the `crc32_all_ones_resistant` test
+const CRC32_INITIAL: u32 = 0xEEEE_EEEE;
+
 fn crc32(data: &[u8]) -> u32 {
-    // We use a modified initial value because the normal 0xFFFFFFF does not pass
-    // the `crc32_all_ones_resistant` test
-    crc32_with_initial(data, 0xEEEE_EEEE)
+    crc32_with_initial(data, CRC32_INITIAL)
 }
 
 fn crc32_with_initial(data: &[u8], initial: u32) -> u32 {
@@ -529,7 +578,7 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
         }
     }
 
-    /// Checks if the page is open or closed with all items erased.
+    /// Checks if the page is open or closed with all items erased or corrupted.
     /// By definition a partial-open page is not empty since it can still be written.
     ///
     /// The page state can optionally be given if it's already known.
@@ -553,16 +602,28 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
                     calculate_page_end_address::<S>(self.flash_range.clone(), page_index)
                         - S::WORD_SIZE as u32;
 
-                Ok(ItemHeaderIter::new(
+                let mut item_headers = ItemHeaderIter::new(
                     self.cache
                         .first_item_after_erased(page_index)
                         .unwrap_or(page_data_start_address),
                     page_data_end_address,
-                )
-                .traverse(&mut self.flash, |header, _| header.crc.is_none())
-                .await?
-                .0
-                .is_none())
+                );
+
+                while let (Some(item_header), item_address) = item_headers
+                    .traverse(&mut self.flash, |header, _| header.crc.is_none())
+                    .await?
+                {
+                    // A corrupted item can never be read, so also not be erased.
+                    // It must not keep the page from being used again.
+                    if !item_header
+                        .is_data_corrupted(&mut self.flash, item_address)
+                        .await?
+                    {
+                        return Ok(false);
+                    }
+                }
+
+                Ok(true)
             }
             PageState::PartialOpen => Ok(false),
             PageState::Open => Ok(true),
-- 
2.43.0

