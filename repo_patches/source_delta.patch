From 42e13a4a75645f9e46105aacd02b646be488f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 01/98] fix: hash index could store a key twice after a
 deletion in its probe chain

A deleted slot was reused before the rest of the chain was checked for the
same key, and a table whose free slots are all deleted ones reported an
overflow on lookup.
---
 amelie/db/index/hash_store.h | 38 +++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/amelie/db/index/hash_store.h b/amelie/db/index/hash_store.h
index 8fea624..9f11532 100644
--- a/amelie/db/index/hash_store.h
+++ b/amelie/db/index/hash_store.h
@@ -64,16 +64,24 @@ hash_store_set(HashStore* self, Row* key)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	Row**    slot  = NULL;
 	do
 	{
 		auto ref = self->rows[pos];
-		if (!ref || ref == HT_DELETED)
+		if (! ref)
 		{
-			self->rows[pos] = key;
-			self->count++;
-			return NULL;
+			if (! slot)
+				slot = &self->rows[pos];
+			break;
 		}
 
+		if (ref == HT_DELETED)
+		{
+			// reuse first deleted slot, but only if the key
+			// does not exist further in the chain
+			if (! slot)
+				slot = &self->rows[pos];
+		} else
 		if (! compare(self->keys, ref, key))
 		{
 			self->rows[pos] = key;
@@ -83,8 +91,12 @@ hash_store_set(HashStore* self, Row* key)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
-	return false;
+	if (unlikely(! slot))
+		error("hashtable overflow");
+
+	*slot = key;
+	self->count++;
+	return NULL;
 }
 
 hot static inline Row*
@@ -119,17 +131,24 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	bool     slot  = false;
 	do
 	{
 		auto ref = self->rows[pos];
 		if (! ref)
 		{
-			*at = pos;
+			if (! slot)
+				*at = pos;
 			return NULL;
 		}
 		if (ref == HT_DELETED)
 		{
-			*at = pos;
+			// first deleted slot can be reused
+			if (! slot)
+			{
+				*at  = pos;
+				slot = true;
+			}
 		} else
 		{
 			if (! compare(self->keys, ref, key))
@@ -142,7 +161,8 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
+	if (unlikely(! slot))
+		error("hashtable overflow");
 	return NULL;
 }
 
-- 
2.43.0


From cacc3548a5ef1376e516221261a03c09fe09f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 02/98] fix: hash index lost rows of a probe chain during
 rehashing

Moving a row to the new table left an empty slot behind, which ended the
probe chains of other rows still stored in the previous table.
---
 amelie/db/index/hash.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 3802f17..3bb1a84 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -78,7 +78,8 @@ hash_rehash(Hash* self)
 			continue;
 		}
 		hash_store_set(self->current, ref);
-		prev->rows[self->rehashing_pos] = NULL;
+		// keep probe chains of the remaining rows
+		prev->rows[self->rehashing_pos] = HT_DELETED;
 		prev->count--;
 
 		self->rehashing_pos++;
@@ -131,7 +132,7 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 			{
 				// move to the current
 				self->current->rows[current_pos] = prev;
-				self->prev->rows[prev_pos] = NULL;
+				self->prev->rows[prev_pos] = HT_DELETED;
 				self->prev->count--;
 				self->current->count++;
 			}
-- 
2.43.0


From 94ab255667af5faab824403308eaaeb80deec746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 03/98] fix: hash index upsert returned a position in the wrong
 table when it started rehashing

---
 amelie/db/index/hash.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 3bb1a84..48be1f7 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -118,6 +118,11 @@ hash_set(Hash* self, Row* key)
 hot static inline bool
 hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 {
+	// start rehashing before the position is taken, since it must
+	// refer to the current table
+	if (!self->rehashing && hash_store_is_full(self->current))
+		hash_rehash_start(self);
+
 	Row* prev = NULL;
 	if (self->rehashing)
 	{
@@ -158,11 +163,6 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 		}
 
 		*pos = current_pos;
-		if (hash_store_is_full(self->current))
-		{
-			hash_rehash_start(self);
-			hash_rehash(self);
-		}
 	}
 
 	return prev != NULL;
-- 
2.43.0


From c7a4d57d9f1a5d358aeb6684e920e1a866931ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 04/98] fix: ordered index scan returned nothing for a start
 key in a gap between pages

---
 amelie/db/index/tree_iterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/db/index/tree_iterator.h b/amelie/db/index/tree_iterator.h
index 1fdf396..a3d9eb0 100644
--- a/amelie/db/index/tree_iterator.h
+++ b/amelie/db/index/tree_iterator.h
@@ -38,9 +38,14 @@ tree_iterator_open(TreeIterator* self, Row* key)
 	self->page_pos = pos.page_pos;
 	if (self->page_pos >= self->page->keys_count)
 	{
+		// key is greater than any key of the page, position to the
+		// next page
+		auto next = rbtree_next(&self->tree->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (! next)
+			return false;
+		self->page = container_of(next, TreePage, node);
 	}
 	self->current = self->page->rows[self->page_pos];
 	return match;
-- 
2.43.0


From 9d7b032e73fd1239299f7de686a898b5ca112691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 05/98] fix: ordered index with string keys used the wrong page

String comparison returns any positive or negative number, page search
expected exactly 1.
---
 amelie/db/index/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/tree.c b/amelie/db/index/tree.c
index 7af0a15..f66a069 100644
--- a/amelie/db/index/tree.c
+++ b/amelie/db/index/tree.c
@@ -91,7 +91,7 @@ tree_search_page_for_write(Tree*        self,
 	*page_rel = tree_find(&self->tree, self, key, page_ref);
 	assert(*page_ref != NULL);
 	TreePage* page = tree_of(*page_ref);
-	if (*page_rel == 1)
+	if (*page_rel > 0)
 	{
 		auto prev = rbtree_prev(&self->tree, *page_ref);
 		if (prev)
-- 
2.43.0


From 2ca61f83684a99235786aba62d90f7551527c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 06/98] fix: merged ordered scan ignored the order of string
 keys

---
 amelie/db/index/index_tree_merge.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/amelie/db/index/index_tree_merge.h b/amelie/db/index/index_tree_merge.h
index d917966..5d4af89 100644
--- a/amelie/db/index/index_tree_merge.h
+++ b/amelie/db/index/index_tree_merge.h
@@ -54,15 +54,10 @@ index_tree_merge_step(IndexTreeMerge* self)
 		}
 
 		auto rc = compare(current->tree->keys, min, row);
-		switch (rc) {
-		case 0:
-			break;
-		case 1:
+		if (rc > 0)
+		{
 			min_iterator = current;
 			min = row;
-			break;
-		case -1:
-			break;
 		}
 	}
 
-- 
2.43.0


From 1c6e2f03ea42c1a9c3cb9ccb54f788d815a6a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 07/98] fix: merged hash index scan stopped after the first
 partition

---
 amelie/db/index/index_hash_merge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/index_hash_merge.h b/amelie/db/index/index_hash_merge.h
index 4d65070..c4b2adc 100644
--- a/amelie/db/index/index_hash_merge.h
+++ b/amelie/db/index/index_hash_merge.h
@@ -81,7 +81,7 @@ index_hash_merge_next(Iterator* arg)
 	for (;;)
 	{
 		self->current_it_order++;
-		if (self->current_it_order < self->list_count)
+		if (self->current_it_order >= self->list_count)
 			break;
 		auto at = &list[self->current_it_order];
 		if (hash_iterator_has(at))
-- 
2.43.0


From 627164723bcb5a2e08176c07031ee5ba43e5fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 08/98] fix: a partition rolled back committed transactions
 when an abort followed them

---
 amelie/db/transaction/track.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/amelie/db/transaction/track.h b/amelie/db/transaction/track.h
index eae2a3f..65135fb 100644
--- a/amelie/db/transaction/track.h
+++ b/amelie/db/transaction/track.h
@@ -95,12 +95,30 @@ track_send(Track* self, Msg* msg)
 	task_send(self->backend, msg);
 }
 
+hot static inline void
+track_sync_commit(Track* self, uint64_t id)
+{
+	// commit all transactions <= commit
+	auto consensus_pod = &self->consensus_pod;
+	if (id > consensus_pod->commit)
+	{
+		tr_commit_list(&self->prepared, &self->cache, id);
+		consensus_pod->commit = id;
+	}
+}
+
 hot static inline void
 track_sync(Track* self, Consensus* consensus)
 {
 	auto consensus_pod = &self->consensus_pod;
 
-	// commit all transactions <= abort
+	// resolve transactions in the order they were prepared: decision with
+	// the lower id goes first
+	auto commit_first = consensus->commit < consensus->abort;
+	if (commit_first)
+		track_sync_commit(self, consensus->commit);
+
+	// abort all transactions <= abort
 	auto id = consensus->abort;
 	if (unlikely(id > consensus_pod->abort))
 	{
@@ -108,11 +126,6 @@ track_sync(Track* self, Consensus* consensus)
 		consensus_pod->abort = id;
 	}
 
-	// commit all transactions <= commit
-	id = consensus->commit;
-	if (id > consensus_pod->commit)
-	{
-		tr_commit_list(&self->prepared, &self->cache, id);
-		consensus_pod->commit = id;
-	}
+	if (! commit_first)
+		track_sync_commit(self, consensus->commit);
 }
-- 
2.43.0


From de9bd8b8299b7f6080b1539ff54b5a67c2afed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 09/98] fix: wal gc removed files still needed by a slot

---
 amelie/db/wal/wal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 019f238..880df27 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -50,7 +50,7 @@ wal_slots(Wal* self, uint64_t* min)
 	{
 		auto slot = list_at(WalSlot, link);
 		uint64_t lsn = atomic_u64_of(&slot->lsn);
-		if (*min < lsn)
+		if (lsn < *min)
 			*min = lsn;
 	}
 	mutex_unlock(&self->lock);
-- 
2.43.0


From 435058939e4d2bd1fec6cc65b964c506a22285dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 10/98] fix: wal worker lost shutdown and sync requests merged
 with create

---
 amelie/db/wal/wal_worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_worker.c b/amelie/db/wal/wal_worker.c
index d3e40c5..1ece784 100644
--- a/amelie/db/wal/wal_worker.c
+++ b/amelie/db/wal/wal_worker.c
@@ -35,9 +35,10 @@ wal_worker_main(void* arg)
 		self->pending = 0;
 		mutex_unlock(&self->lock);
 
+		// skip create, if wal is already recreated (keep other events)
 		if (events & WAL_CREATE)
 			if (! wal_overflow(self->wal))
-				continue;
+				events &= ~(WAL_CREATE|WAL_SYNC_CREATE);
 
 		// process events
 		error_catch
-- 
2.43.0


From ef4e6185faacc37ebcfed82ac920118e40c67089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 11/98] fix: wal file created by the wal worker could start
 after its lsn

---
 amelie/db/wal/wal.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 880df27..1d299a4 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -70,6 +70,13 @@ wal_overflow(Wal* self)
 void
 wal_create(Wal* self, uint64_t lsn)
 {
+	// block writers until the new file becomes current, the file must
+	// start with the next lsn
+	mutex_lock(&self->lock);
+	defer(mutex_unlock, &self->lock);
+	if (self->current)
+		lsn = state_lsn() + 1;
+
 	// create new wal file
 	WalFile* file = NULL;
 	auto on_error = error_catch
@@ -89,10 +96,8 @@ wal_create(Wal* self, uint64_t lsn)
 	id_mgr_add(&self->list, lsn);
 
 	// add to the list and set as current
-	mutex_lock(&self->lock);
 	auto file_prev = self->current;
 	self->current = file;
-	mutex_unlock(&self->lock);
 
 	// close prev file
 	if (! file_prev)
-- 
2.43.0


From e74ad5aaa464e027f5d38e9eb52d6a31aaaa8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 12/98] fix: wal cursor skipped records written just before the
 wal rotation

---
 amelie/db/wal/wal_cursor.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/amelie/db/wal/wal_cursor.c b/amelie/db/wal/wal_cursor.c
index 7c31223..c928fb3 100644
--- a/amelie/db/wal/wal_cursor.c
+++ b/amelie/db/wal/wal_cursor.c
@@ -119,16 +119,17 @@ wal_cursor_read(WalCursor* self)
 			return record;
 		}
 
+		// get the next file id first, there are no more writes to the
+		// current file after that
+		uint64_t id = UINT64_MAX;
+		if (self->file_next)
+			id = id_mgr_next(&wal->list, file->id);
+
 		// retry read if file size has changed
 		if (file_update_size(&file->file))
 			continue;
 
-		if (! self->file_next)
-			break;
-
 		// get to the next file id
-		uint64_t id;
-		id = id_mgr_next(&wal->list, file->id);
 		if (id == UINT64_MAX)
 			break;
 
-- 
2.43.0


From 3631f96090fc7be82220c6a7faccdb061b35be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 13/98] fix: wal files above 4 GiB could not be read to the end

---
 amelie/db/wal/wal_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index 47d183e..c002851 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -79,7 +79,7 @@ wal_file_write(WalFile* self, Iov* iov)
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint32_t size)
 {
 	return (offset + size) > self->file.size;
 }
-- 
2.43.0


From f087039e84aa2543d29bf0c08aa960d372c27b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 14/98] fix: writes after a crash were appended to an
 incomplete wal record

---
 amelie/db/wal/wal.c      | 22 ++++++++++++++++++++++
 amelie/db/wal/wal_file.h |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 1d299a4..6896987 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -255,6 +255,27 @@ wal_truncate(Wal* self, uint64_t lsn)
 	info("");
 }
 
+static void
+wal_repair(WalFile* file)
+{
+	// cut off incomplete record at the end of the file left
+	// after a crash
+	uint64_t offset = 0;
+	while (! wal_file_eof(file, offset, sizeof(Record)))
+	{
+		Record record;
+		file_pread(&file->file, &record, sizeof(record), offset);
+		if (record.size < sizeof(record) ||
+		    wal_file_eof(file, offset, record.size))
+			break;
+		offset += record.size;
+	}
+	if (offset == file->file.size)
+		return;
+	wal_file_truncate(file, offset);
+	info("wal: wal/%" PRIu64 " (incomplete record removed)", file->id);
+}
+
 void
 wal_open(Wal* self)
 {
@@ -285,6 +306,7 @@ reopen:
 	uint64_t last = id_mgr_max(&self->list);
 	self->current = wal_file_allocate(last);
 	wal_file_open(self->current);
+	wal_repair(self->current);
 	file_seek_to_end(&self->current->file);
 }
 
diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index c002851..1bbada9 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -96,6 +96,8 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	int start = buf_size(buf);
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((Record*)(buf->start + start))->size;
+	if (unlikely(size < size_header))
+		error("wal/%" PRIu64 " (invalid record size)", self->id);
 
 	// check for eof
 	if (wal_file_eof(self, offset, size))
-- 
2.43.0


From 8e74cab6fe6fcd908ffbe2146d019d7fa8e1182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 15/98] fix: wal write reported an error after the write was
 already accepted

---
 amelie/db/wal/wal.c     | 4 +++-
 amelie/db/wal/wal_mgr.c | 5 ++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 6896987..bb3d13d 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -370,7 +370,9 @@ wal_write(Wal* self, WriteList* list)
 	auto current = self->current;
 	auto current_offset = current->file.size;
 	auto on_error = error_catch(
-		list->lsn = wal_write_list(self, list)
+		list->lsn = wal_write_list(self, list);
+		if (opt_int_of(&config()->wal_sync_on_write))
+			wal_file_sync(current);
 	);
 	if (unlikely(on_error)) {
 		if (error_catch(wal_file_truncate(current, current_offset)))
diff --git a/amelie/db/wal/wal_mgr.c b/amelie/db/wal/wal_mgr.c
index f0da7e3..383b631 100644
--- a/amelie/db/wal/wal_mgr.c
+++ b/amelie/db/wal/wal_mgr.c
@@ -106,8 +106,7 @@ wal_mgr_write(WalMgr* self, WriteList* write_list)
 	if (! write_list->list_count)
 		return;
 	auto wal_rotate = wal_write(&self->wal, write_list);
-	if (opt_int_of(&config()->wal_sync_on_write))
-		wal_sync(&self->wal, false);
+	// write is complete, on error rotation will be retried by the next write
 	if (wal_rotate)
-		wal_mgr_create(self);
+		error_catch( wal_mgr_create(self) );
 }
-- 
2.43.0


From a9306d9ac1b92c8891d5d7d476cf4384f4fea797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 16/98] fix: recovery skipped ddl commands by the size of a row

---
 amelie/db/transaction/record.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index c23bef4..63bc435 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -56,9 +56,8 @@ record_data(Record* self)
 static inline void
 record_cmd_skip(RecordCmd* self, uint8_t** pos)
 {
-	auto end = *pos + self->size;
-	while (*pos < end)
-		*pos += row_size((Row*)*pos);
+	// rows or ops
+	*pos += self->size;
 }
 
 static inline bool
-- 
2.43.0


From 4875d144f4655dd16ccb921a251e2c397f64e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 17/98] fix: record validation read past the record when its
 command count is damaged

---
 amelie/db/transaction/record.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index 63bc435..34aba88 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -69,6 +69,9 @@ record_cmd_is_dml(RecordCmd* self)
 static inline bool
 record_validate(Record* self)
 {
+	// commands must fit the record
+	if (self->count > (self->size - sizeof(*self)) / sizeof(RecordCmd))
+		return false;
 	auto size = self->count * sizeof(RecordCmd);
 	auto crc  = runtime()->crc(0, (uint8_t*)self + sizeof(*self), size);
 	crc = runtime()->crc(crc, &self->lsn, sizeof(*self) - sizeof(self->crc));
-- 
2.43.0


From bf12a4436609a01cbdf15de04a3b4d766f1cc2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 18/98] fix: rows added during a heap snapshot changed the
 header being written

---
 amelie/db/heap/heap.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index 4dc8868..66d7c97 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -254,13 +254,14 @@ heap_add(Heap* self, int size)
 	chunk->is_shadow      = self->shadow != NULL;
 	chunk->is_shadow_free = false;
 
-	// update total used metrics
-	self->header->count_used++;
-	self->header->size_used += bucket->size;
+	// update total used metrics (main heap header must not change
+	// during snapshot)
+	heap->header->count_used++;
+	heap->header->size_used += bucket->size;
 
 	// support lru (place chunk on top of the list)
-	if (self->lru)
-		heap_push(self, chunk);
+	if (heap->lru)
+		heap_push(heap, chunk);
 
 	assert(misalign_of(chunk->data) == 0);
 	return chunk->data;
-- 
2.43.0


From 621993361d3e3ae26f9b69776d49e374daa6f891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 19/98] fix: rows above 512 KiB were written outside of their
 heap page

---
 amelie/db/heap/heap.c     | 4 +++-
 amelie/db/heap/page_mgr.h | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index 66d7c97..e9be817 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -154,7 +154,9 @@ static HeapGroup heap_log_to_bucket[20] =
 hot static inline HeapBucket*
 heap_bucket_of(Heap* self, int size)
 {
-	assert(size <= 1*1024*1024);
+	// max chunk size
+	if (unlikely(size > 1*1024*1024))
+		error("row size limit reached");
 
 	// calculate size log
 	int log2 = (8 * sizeof(unsigned long long) - __builtin_clzl((size)) - 1);
diff --git a/amelie/db/heap/page_mgr.h b/amelie/db/heap/page_mgr.h
index 9d16627..c0742e5 100644
--- a/amelie/db/heap/page_mgr.h
+++ b/amelie/db/heap/page_mgr.h
@@ -41,7 +41,8 @@ struct PageMgr
 static inline void
 page_mgr_init(PageMgr* self)
 {
-	self->page_size  = 512 * 1024;
+	// must fit the largest chunk (1 MiB) and its offset (21 bits)
+	self->page_size  = 2 * 1024 * 1024;
 	self->list_count = 0;
 	buf_init(&self->list);
 }
-- 
2.43.0


From 33b6a49648d3e718b45c750cbd017b4bd75f4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 20/98] fix: damaged heap page headers were used to read the
 page

---
 amelie/db/heap/heap_file.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/amelie/db/heap/heap_file.c b/amelie/db/heap/heap_file.c
index c927390..0a5fcdd 100644
--- a/amelie/db/heap/heap_file.c
+++ b/amelie/db/heap/heap_file.c
@@ -109,6 +109,15 @@ heap_open(Heap* self, Id* id, int state)
 		file_read(&file, page->pointer, sizeof(PageHeader));
 		auto page_header = (PageHeader*)page->pointer;
 
+		// validate page header
+		if (page_header->size  < sizeof(PageHeader) ||
+		    page_header->size  > (uint32_t)page_mgr->page_size ||
+		    page_header->last  > page_header->size ||
+		    page_header->order != i ||
+		    page_header->size_compressed > file.size)
+			error("heap: file '%s' has invalid page header",
+			      str_of(&file.path));
+
 		// decode page or read page as is
 		if (encoder_active(&ec))
 		{
-- 
2.43.0


From 0c2590d290538048a64672010416f9ad9399deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 21/98] fix: decompression aborted on data of an unexpected
 size

---
 amelie/runtime/lib/codec_compression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/codec_compression.c b/amelie/runtime/lib/codec_compression.c
index c2b3f4a..8be0bd8 100644
--- a/amelie/runtime/lib/codec_compression.c
+++ b/amelie/runtime/lib/codec_compression.c
@@ -137,7 +137,8 @@ codec_zstd_decode(Codec*   codec,
 	int rc = ZSTD_decompress(dst, dst_size, src, src_size);
 	if (unlikely(ZSTD_isError(rc)))
 		error("zstd: decode failed: %s", ZSTD_getErrorName(rc));
-	assert(rc == dst_size);
+	if (unlikely(rc != dst_size))
+		error("zstd: decode failed: unexpected size of the data");
 }
 
 static CodecIf codec_zstd =
-- 
2.43.0


From 7efb4796250604c6aa1ec9b45aceb7b27a92145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 22/98] fix: detach partitions from their volumes when a table
 is closed

part_mgr_free() freed the partitions but left them in the lists of their
volumes, so closing the catalog with any table in it failed the assertion
of volume_free().
---
 amelie/db/part/part_mgr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index 080dbf3..b742e3a 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -45,6 +45,7 @@ part_mgr_free(PartMgr* self)
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
+		part_mgr_remove(self, part);
 		part_free(part);
 	}
 	part_mapping_free(&self->mapping);
-- 
2.43.0


From 5c3b073aebeede5597f42fead19487e4880898a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 23/98] fix: release storages of a table which has no
 partitions yet

When creating a table failed on its second storage, dropping it returned
before the first one was dereferenced: that storage could never be dropped.
---
 amelie/db/part/part_mgr.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index b742e3a..2a87a70 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -97,9 +97,6 @@ part_mgr_close(PartMgr* self)
 void
 part_mgr_drop(PartMgr* self)
 {
-	if (! self->list_count)
-		return;
-
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
-- 
2.43.0


From bdf6d25a6099bab508e46886864c25fa2c9aa4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 24/98] fix: pass the created index to its undo function

table_index_add() passed the libc function index() instead, aborting a
transaction after CREATE INDEX crashed.
---
 amelie/db/catalog/table_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 52cc877..1c28362 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -62,7 +62,7 @@ table_index_add(Table* self, Tr* tr, IndexConfig* config)
 	table_config_index_add(self->config, config);
 
 	// update table
-	log_relation(&tr->log, &add_if, index, &self->rel);
+	log_relation(&tr->log, &add_if, config, &self->rel);
 
 	// use separate log command for create
 	// index processing
-- 
2.43.0


From 1c0744a1f2b256ef2d840a8a4941caa2c1a70ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 25/98] fix: detach objects from their volumes when a tier is
 closed

tier_free() freed the objects but left them in the lists of their volumes,
so closing the catalog with any tier in it failed the assertion of
volume_free().
---
 amelie/db/tier/tier.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index f542478..c2451af 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -35,6 +35,7 @@ tier_free(Tier* self)
 	list_foreach_safe(&self->list)
 	{
 		auto object = list_at(Object, link);
+		volume_remove(object->id.volume, &object->link_volume);
 		object_free(object);
 	}
 	am_free(self);
-- 
2.43.0


From f4d8a685d515c51540da668bd2461f6c51869033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 26/98] fix: restore the unlogged flag when its change is
 aborted

The undo inverted the flag, which is wrong when the statement set the
value the table already had.
---
 amelie/db/catalog/table_mgr_alter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_mgr_alter.c b/amelie/db/catalog/table_mgr_alter.c
index da57bc7..958dd8d 100644
--- a/amelie/db/catalog/table_mgr_alter.c
+++ b/amelie/db/catalog/table_mgr_alter.c
@@ -152,7 +152,10 @@ set_unlogged_if_abort(Log* self, LogOp* op)
 {
 	auto relation = log_relation_of(self, op);
 	auto table = table_of(relation->relation);
-	table_set_unlogged(table, !table->config->unlogged);
+	uint8_t* pos = relation->data;
+	bool value;
+	json_read_bool(&pos, &value);
+	table_set_unlogged(table, value);
 }
 
 static LogIf set_unlogged_if =
@@ -181,6 +184,9 @@ table_mgr_set_unlogged(TableMgr* self,
 	// update table
 	log_relation(&tr->log, &set_unlogged_if, NULL, &table->rel);
 
+	// save previous value
+	encode_bool(&tr->log.data, table->config->unlogged);
+
 	// set table and partitions as unlogged
 	table_set_unlogged(table, value);
 	return true;
-- 
2.43.0


From b3c39cc27004ceff3a406c52cce5fa3a67dfe325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 27/98] fix: keep dropped columns dropped in a copy of the
 columns

Every table of the catalog is created from a copy of its columns, so all
dropped columns came back after a restart.
---
 amelie/db/row/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/row/column.h b/amelie/db/row/column.h
index ceefd95..28c4128 100644
--- a/amelie/db/row/column.h
+++ b/amelie/db/row/column.h
@@ -77,6 +77,7 @@ column_copy(Column* self)
 	auto copy = column_allocate();
 	column_set_name(copy, &self->name);
 	column_set_type(copy, self->type, self->type_size);
+	column_set_dropped(copy, self->dropped);
 	constraints_copy(&self->constraints, &copy->constraints);
 	return copy;
 }
-- 
2.43.0


From e63927414379818f38bff8c69c80610fce9a46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 28/98] fix: honour IF EXISTS when altering a tier

ALTER TIER .. SET read the IF NOT EXISTS flag instead.
---
 amelie/db/catalog/catalog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/catalog/catalog.c b/amelie/db/catalog/catalog.c
index f1849a9..53c3577 100644
--- a/amelie/db/catalog/catalog.c
+++ b/amelie/db/catalog/catalog.c
@@ -477,8 +477,8 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 		auto table = table_mgr_find(&self->table_mgr, &db, &name, true);
 		auto config = tier_config_read(&config_pos);
 		defer(tier_config_free, config);
-		auto if_not_exists = ddl_if_not_exists(flags);
-		write = table_tier_set(table, tr, config, mask, if_not_exists);
+		auto if_exists = ddl_if_exists(flags);
+		write = table_tier_set(table, tr, config, mask, if_exists);
 		break;
 	}
 	case DDL_TIER_STORAGE_DROP:
-- 
2.43.0


From c3003fa0305edbd4337faabdc4f1c6b55782030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 29/98] fix: remove rows from the heap on TRUNCATE

Only the indexes were cleared: the rows stayed in the heap and were back
in an index created later and after a restart.
---
 amelie/db/part/part.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amelie/db/part/part.c b/amelie/db/part/part.c
index 428027f..1bfee65 100644
--- a/amelie/db/part/part.c
+++ b/amelie/db/part/part.c
@@ -84,6 +84,13 @@ part_open(Part* self)
 void
 part_truncate(Part* self)
 {
+	// remove rows
+	auto it = index_iterator(part_primary(self));
+	defer(iterator_close, it);
+	iterator_open(it, NULL);
+	for (; iterator_has(it); iterator_next(it))
+		heap_remove(self->heap, iterator_at(it));
+
 	for (auto index = self->indexes; index; index = index->next)
 		index_truncate(index);
 }
-- 
2.43.0


From 7ec26bc9d0266b083a76686a83643037e4dded54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 30/98] fix: never leave the catalog without a complete file

catalog.json was removed before its new version was renamed.  When the
rename failed, the next save began by removing catalog.json.incomplete,
the only copy left.
---
 amelie/db/catalog/catalog_file.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/amelie/db/catalog/catalog_file.c b/amelie/db/catalog/catalog_file.c
index a89f867..5b10778 100644
--- a/amelie/db/catalog/catalog_file.c
+++ b/amelie/db/catalog/catalog_file.c
@@ -254,14 +254,7 @@ catalog_write(Catalog* self)
 	if (opt_int_of(&config()->catalog_sync))
 		file_sync(&file);
 
-	// remove catalog.json file, if exsists
-	sfmt(path, sizeof(path), "%s/catalog.json",
-	     state_directory());
-
-	if (fs_exists("%s", path))
-		fs_unlink("%s", path);
-
-	// rename
+	// rename (atomically replace catalog.json)
 	sfmt(path, sizeof(path), "%s/catalog.json.incomplete",
 	     state_directory());
 	fs_rename(path, "%s/catalog.json", state_directory());
-- 
2.43.0


From eafef9c8316a22cbc305cac76d900a122ce45a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 31/98] fix: read the branches of an object before mapping it

tier_add() maps an object by the first row of its root branch, which was
read only after: creating or opening any tier crashed.
---
 amelie/db/tier/tier.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index c2451af..15921ea 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -174,11 +174,12 @@ tier_open_volume(Tier* self, Volume* volume)
 		{
 			// add object to the tier
 			auto object = object_allocate(&id);
-			tier_add(self, object);
+			errdefer(object_free, object);
 
 			// recover branches
 			object_open(object, STATE_COMPLETE);
 
+			tier_add(self, object);
 			break;
 		}
 		case STATE_INCOMPLETE:
-- 
2.43.0


From 6bc9de917c02045200c3562e882335d783e6767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 32/98] fix: write the object header crc which is expected on
 read

The reader skips the crc field itself, the writer included it: no object
file could be opened.
---
 amelie/db/object/meta_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/object/meta_writer.h b/amelie/db/object/meta_writer.h
index ad30d9e..2f927f6 100644
--- a/amelie/db/object/meta_writer.h
+++ b/amelie/db/object/meta_writer.h
@@ -97,7 +97,7 @@ meta_writer_stop(MetaWriter* self)
 		meta->size_regions_origin + meta->size_origin + sizeof(Meta);
 	meta->compression       = encoder_compression(encoder);
 	meta->crc_data          = encoder_iov_crc(encoder);
-	meta->crc               = runtime()->crc(0, meta, sizeof(Meta));
+	meta->crc               = runtime()->crc(0, (char*)meta + sizeof(uint32_t), sizeof(Meta) - sizeof(uint32_t));
 }
 
 static inline void
-- 
2.43.0


From e551cc09383188ea17ad2dbb5da4970d2f5ecb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 33/98] fix: validate the data read from a compressed object
 index

The crc is of the compressed data, but the still empty output buffer was
validated: no object file of a compressed storage could be opened.
---
 amelie/db/object/object.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 552f5ca..fce8321 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -46,9 +46,9 @@ object_free(Object* self)
 }
 
 static void
-object_validate_index(Object* self, Branch* branch)
+object_validate_index(Object* self, Branch* branch, Buf* data)
 {
-	uint32_t crc = runtime()->crc(0, branch->meta_data.start, buf_size(&branch->meta_data));
+	uint32_t crc = runtime()->crc(0, data->start, buf_size(data));
 	if (crc != branch->meta.crc_data)
 		error("object: file meta data '%s' crc mismatch",
 		      str_of(&self->file.path));
@@ -73,7 +73,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	if (! encoder_active(&encoder))
 	{
 		file_pread_buf(file, meta_data, meta->size, offset);
-		object_validate_index(self, branch);
+		object_validate_index(self, branch, meta_data);
 		return;
 	}
 
@@ -81,7 +81,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	auto buf = buf_create();
 	defer_buf(buf);
 	file_pread_buf(file, buf, meta->size, offset);
-	object_validate_index(self, branch);
+	object_validate_index(self, branch, buf);
 
 	// decompress index
 	buf_emplace(meta_data, meta->size_origin);
-- 
2.43.0


From f8c6625400eb265842d46fd4e156462da704aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 34/98] fix: cut unfinished branches from an object file on
 recovery

The condition was inverted: complete files were truncated to their size and
files which have the remains of an interrupted compaction were not.
---
 amelie/db/object/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index fce8321..5c0b165 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -150,7 +150,7 @@ object_open(Object* self, int state)
 
 	// cut branches that are not represented in its versions id
 	// (compaction crash)
-	if (offset == self->file.size)
+	if (offset < self->file.size)
 	{
 		file_truncate(&self->file, offset);
 		if (opt_int_of(&config()->storage_sync))
-- 
2.43.0


From 87adf7ceba81d3a65a95d65d720ea50f901a1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 35/98] fix: create one initial object per tier

A tier got an empty object for each of its volumes. The objects of a tier
divide its keys between them, so the second one could not be mapped and
creating a tier with two storages crashed. A tier interrupted between
creating its directory and its object was also left without any.
---
 amelie/db/tier/tier.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index 15921ea..efdb2b6 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -96,10 +96,12 @@ tier_find(Tier* self, uint64_t psn)
 }
 
 static void
-tier_create(Volume* volume)
+tier_create(Tier* self)
 {
-	// create volume directory
-	volume_mkdir(volume);
+	// choose volume
+	auto volume = volume_mgr_next(&self->config->volumes);
+	if (! volume)
+		return;
 
 	// create <id>.1.object.incomplete file
 	Id id =
@@ -109,7 +111,7 @@ tier_create(Volume* volume)
 		.volume  = volume,
 	};
 	auto object = object_allocate(&id);
-	defer(object_free, object);
+	errdefer(object_free, object);
 	object_create(object, STATE_INCOMPLETE);
 
 	// create empty branch
@@ -124,6 +126,11 @@ tier_create(Volume* volume)
 
 	// rename
 	object_rename(object, STATE_INCOMPLETE, STATE_COMPLETE);
+
+	// add object to the tier
+	file_close(&object->file);
+	object_open(object, STATE_COMPLETE);
+	tier_add(self, object);
 }
 
 static void
@@ -136,7 +143,10 @@ tier_open_volume(Tier* self, Volume* volume)
 	char path[PATH_MAX];
 	sfmt(path, PATH_MAX, "%s/storage/%s", state_directory(), id);
 	if (! fs_exists("%s", path))
-		tier_create(volume);
+	{
+		volume_mkdir(volume);
+		return;
+	}
 
 	// read directory
 	auto dir = opendir(path);
@@ -205,4 +215,8 @@ tier_open(Tier* self, StorageMgr* storage_mgr)
 		auto volume = list_at(Volume, link);
 		tier_open_volume(self, volume);
 	}
+
+	// create initial object
+	if (tier_empty(self))
+		tier_create(self);
 }
-- 
2.43.0


From 5c1a1973e8049e9ae0e1e8f9eca65b20e7eaa7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 36/98] fix: keep the objects of other storages when a tier
 storage is dropped

Only an empty storage can be dropped from a tier, but its commit deleted
every object of the tier.
---
 amelie/db/catalog/table_tier.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/amelie/db/catalog/table_tier.c b/amelie/db/catalog/table_tier.c
index 7c49393..bf6e085 100644
--- a/amelie/db/catalog/table_tier.c
+++ b/amelie/db/catalog/table_tier.c
@@ -308,7 +308,6 @@ storage_drop_if_commit(Log* self, LogOp* op)
 
 	auto volume = volume_mgr_find(&tier->config->volumes, &storage_name);
 	assert(volume);
-	tier_truncate(tier);
 	error_catch (
 		volume_rmdir(volume);
 	);
-- 
2.43.0


From 91753cc93c190adb72b220bc3e9b332bf669aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 37/98] fix: write the full size of uncompressed object regions
 and index

Without compression a region and the index are written from two buffers,
but only the size of the first one was stored: no object file of an
uncompressed storage could be read.
---
 amelie/db/object/meta_writer.h | 4 ++--
 amelie/db/storage/encoder.h    | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/amelie/db/object/meta_writer.h b/amelie/db/object/meta_writer.h
index 2f927f6..2aea86c 100644
--- a/amelie/db/object/meta_writer.h
+++ b/amelie/db/object/meta_writer.h
@@ -90,7 +90,7 @@ meta_writer_stop(MetaWriter* self)
 	meta->magic             = META_MAGIC;
 	meta->version           = META_VERSION;
 	meta->size_origin       = meta->size;
-	meta->size              = encoder_iov(encoder)->iov_len;
+	meta->size              = encoder_iov_size(encoder);
 	meta->size_total        =
 		meta->size_regions + meta->size + sizeof(Meta);
 	meta->size_total_origin =
@@ -109,7 +109,7 @@ meta_writer_add(MetaWriter*   self,
 	assert(region->rows > 0);
 
 	// get region size
-	uint32_t size = encoder_iov(&region_writer->encoder)->iov_len;
+	uint32_t size = encoder_iov_size(&region_writer->encoder);
 
 	// calculate region crc
 	uint32_t crc = 0;
diff --git a/amelie/db/storage/encoder.h b/amelie/db/storage/encoder.h
index 1a120a6..6e8ea29 100644
--- a/amelie/db/storage/encoder.h
+++ b/amelie/db/storage/encoder.h
@@ -108,6 +108,12 @@ encoder_iov(Encoder* self)
 	return iov_pointer(&self->iov);
 }
 
+static inline uint32_t
+encoder_iov_size(Encoder* self)
+{
+	return self->iov.size;
+}
+
 static inline int
 encoder_iov_count(Encoder* self)
 {
-- 
2.43.0


From 52d2835b60c23db1823260ceb90a58023bb89fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 38/98] fix: open empty objects of an uncompressed storage

The index of an empty branch is empty, and reading zero bytes is an error:
a tier on an uncompressed storage could not be created.
---
 amelie/db/object/object.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 5c0b165..796a36c 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -72,7 +72,9 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	// no compression
 	if (! encoder_active(&encoder))
 	{
-		file_pread_buf(file, meta_data, meta->size, offset);
+		// index of an empty branch has no data
+		if (meta->size > 0)
+			file_pread_buf(file, meta_data, meta->size, offset);
 		object_validate_index(self, branch, meta_data);
 		return;
 	}
-- 
2.43.0


From 2e924cc4ed9cd401764c4dc27204e7dac9d35dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:56 +0000
Subject: [PATCH 39/98] fix: attach the lock event before the lock can be
 granted

The event was attached to the bus of the task after the relation has been
unlocked. A lock granted by another thread in between was signaled without
a bus: the waiter was resumed from a wrong thread or never.
---
 amelie/runtime/runtime/lock_mgr.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index 4ed464b..8924503 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -101,6 +101,9 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	} else
 	{
 		// add lock to the relation wait list
+		//
+		// it can be granted and signaled as soon as the relation is unlocked
+		event_attach(&lock->event);
 		lock->waiting = true;
 		list_append(&rel->lock_wait, &lock->link);
 		rel->lock_wait_count++;
@@ -110,11 +113,7 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 
 	// wait for the lock
 	if (unlikely(! pass))
-	{
-		auto event = &lock->event;
-		event_attach(event);
-		event_wait(event, -1);
-	}
+		event_wait(&lock->event, -1);
 }
 
 hot static inline Lock*
-- 
2.43.0


From 57699ee1da26d683422b9a5bb6c40fc1985fbabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:56 +0000
Subject: [PATCH 40/98] fix: withdraw the lock request of a cancelled coroutine

The request stayed in the wait list of the relation after the coroutine
was gone: it was granted later to nobody and blocked the relation for good
(its memory is reused as well).
---
 amelie/runtime/runtime/lock_mgr.h | 73 ++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 15 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index 8924503..361d38a 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -81,6 +81,55 @@ lock_resolve(Relation* rel, LockId lock)
 	return false;
 }
 
+hot static inline void
+lock_mgr_wakeup(Relation* rel)
+{
+	// batch wakeup non-conflicting waiters
+	while (rel->lock_wait_count > 0)
+	{
+		auto lock = container_of(list_first(&rel->lock_wait), Lock, link);
+		if (lock_resolve(lock->rel, lock->rel_lock))
+		{
+			rel->lock_set[lock->rel_lock]++;
+			rel->lock_wait_count--;
+			lock->waiting = false;
+			list_unlink(&lock->link);
+			event_signal(&lock->event);
+			continue;
+		}
+		break;
+	}
+}
+
+static inline void
+lock_mgr_cancel(LockMgr* self, Lock* lock)
+{
+	auto rel = lock->rel;
+	spinlock_lock(&rel->lock);
+
+	// remove the request or release the lock, if it has been granted already
+	auto waiting = lock->waiting;
+	if (waiting)
+	{
+		list_unlink(&lock->link);
+		rel->lock_wait_count--;
+	} else {
+		rel->lock_set[lock->rel_lock]--;
+	}
+	lock_mgr_remove(self, lock);
+
+	// the requests behind might be no longer blocked
+	lock_mgr_wakeup(rel);
+
+	spinlock_unlock(&rel->lock);
+
+	// event must not be in use
+	while (atomic_u32_of(&lock->event.ipc.refs) > 0)
+		wait_event(&lock->event, am_self());
+
+	lock_free(lock);
+}
+
 hot static inline void
 lock_mgr_lock_of(LockMgr* self, Lock* lock)
 {
@@ -113,7 +162,14 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 
 	// wait for the lock
 	if (unlikely(! pass))
-		event_wait(&lock->event, -1);
+	{
+		auto on_error = error_catch( event_wait(&lock->event, -1) );
+		if (unlikely(on_error))
+		{
+			lock_mgr_cancel(self, lock);
+			rethrow();
+		}
+	}
 }
 
 hot static inline Lock*
@@ -201,20 +257,7 @@ lock_mgr_unlock(LockMgr* self, Lock* lock)
 	lock_mgr_remove(self, lock);
 
 	// batch wakeup non-conflicting waiters
-	while (rel->lock_wait_count > 0)
-	{
-		auto lock = container_of(list_first(&rel->lock_wait), Lock, link);
-		if (lock_resolve(lock->rel, lock->rel_lock))
-		{
-			rel->lock_set[lock->rel_lock]++;
-			rel->lock_wait_count--;
-			lock->waiting = false;
-			list_unlink(&lock->link);
-			event_signal(&lock->event);
-			continue;
-		}
-		break;
-	}
+	lock_mgr_wakeup(rel);
 
 	spinlock_unlock(&lock->rel->lock);
 
-- 
2.43.0


From 0175339394db149dda51838ce5800e01bfd99a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 41/98] fix: release locks taken several times in unlock_all

unlock() only drops a reference of such a lock, but the list of locks of
the coroutine was cleared anyway: the lock was never released and kept a
pointer to the coroutine.
---
 amelie/runtime/runtime/global.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/runtime/global.h b/amelie/runtime/runtime/global.h
index 88eaf5a..f155b21 100644
--- a/amelie/runtime/runtime/global.h
+++ b/amelie/runtime/runtime/global.h
@@ -174,6 +174,11 @@ unlock_all(void)
 	// unlock all locks taken by the coroutine
 	auto locks = &am_self()->locks;
 	list_foreach_reverse_safe(locks)
-		unlock(list_at(Lock, link));
+	{
+		// release the lock no matter how many times it was taken
+		auto self = list_at(Lock, link);
+		self->refs = 1;
+		unlock(self);
+	}
 	list_init(locks);
 }
-- 
2.43.0


From 2ea01251624e52963b029596c6bd8c288b142698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 42/98] fix: merge shared_rw and exclusive_ro access into an
 exclusive one

A program which writes a relation and reads it in a subquery took the
exclusive_ro lock only, which does not exclude other exclusive_ro holders:
two such programs wrote and read the same relation at the same time.
---
 amelie/runtime/runtime/access.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amelie/runtime/runtime/access.h b/amelie/runtime/runtime/access.h
index 347bcde..42f09d6 100644
--- a/amelie/runtime/runtime/access.h
+++ b/amelie/runtime/runtime/access.h
@@ -85,6 +85,12 @@ access_add(Access* self, Relation* rel, LockId lock)
 		auto record = access_at(self, i);
 		if (record->rel == rel)
 		{
+			// writing a relation and keeping other writers away from it
+			// requires an exclusive access
+			if ((record->lock == LOCK_SHARED_RW && lock == LOCK_EXCLUSIVE_RO) ||
+			    (record->lock == LOCK_EXCLUSIVE_RO && lock == LOCK_SHARED_RW))
+				record->lock = LOCK_EXCLUSIVE;
+			else
 			if (record->lock < lock)
 				record->lock = lock;
 			return;
-- 
2.43.0


From b22bd74d78cea52b80279470b54e7fc9c8222949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 43/98] fix: wait for every rpc of a set when cancelled

The cancellation received while waiting was thrown after the response to
the first rpc, and the set was freed while the others were in use.
---
 amelie/runtime/base/rpc_set.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/base/rpc_set.h b/amelie/runtime/base/rpc_set.h
index 9d53352..4b30f3b 100644
--- a/amelie/runtime/base/rpc_set.h
+++ b/amelie/runtime/base/rpc_set.h
@@ -66,8 +66,9 @@ rpc_set_add(RpcSet* self, int order, MsgId id, void* arg)
 static inline void
 rpc_set_wait(RpcSet* self)
 {
-	// collect responses
+	// collect responses (all of them, even if cancelled meanwhile)
 	Error* error = NULL;
+	cancel_pause();
 	for (auto at = 0; at < self->set_count; at++)
 	{
 		auto rpc = rpc_set_at(self, at);
@@ -75,6 +76,7 @@ rpc_set_wait(RpcSet* self)
 		if (rpc->error.code != ERROR_NONE && !error)
 			error = &rpc->error;
 	}
+	cancel_resume();
 
 	// rethrow error
 	if (unlikely(error))
-- 
2.43.0


From be5934e1b56a98ca62c3a12676ebd83ab27d3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 44/98] fix: do not cancel a coroutine which paused
 cancellation

A coroutine cancelled earlier (cleaning up in an error handler) left its
waits at once even inside of cancel_pause(): an rpc on the stack was freed
while it was in use by the other task, and the pause was never resumed.
---
 amelie/runtime/base/throw.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/base/throw.h b/amelie/runtime/base/throw.h
index b083772..7ab0fab 100644
--- a/amelie/runtime/base/throw.h
+++ b/amelie/runtime/base/throw.h
@@ -36,6 +36,7 @@ rethrow(void)
 static inline void
 cancellation_point(void)
 {
-	if (unlikely(am_self()->cancel))
+	auto self = am_self();
+	if (unlikely(self->cancel && !self->cancel_pause))
 		error_as(CANCEL, "cancelled");
 }
-- 
2.43.0


From f372bd8de65400c4f11fcdf071bed45b0899d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 45/98] fix: keep the waiter of a reused coroutine

A coroutine resumed by the exit of another one cleared the exit event only
after it was scheduled. If a new coroutine was created in between, it took
over the same object and its exit event: the waiter of the new coroutine
was forgotten and never woken up.
---
 amelie/runtime/base/wait.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/base/wait.h b/amelie/runtime/base/wait.h
index aba9402..f2717a4 100644
--- a/amelie/runtime/base/wait.h
+++ b/amelie/runtime/base/wait.h
@@ -40,8 +40,14 @@ wait_event(Event* event, Coroutine* coro)
 	event->wait = coro;
 	// wait for signal
 	coroutine_suspend(coro);
-	event->wait   = NULL;
-	event->signal = false;
+
+	// (the event of a completed coroutine could already be in use by the next
+	//  coroutine and its waiter)
+	if (event->wait == coro)
+	{
+		event->wait   = NULL;
+		event->signal = false;
+	}
 }
 
 hot static inline bool
-- 
2.43.0


From 4333f45c7d1c9178b29be0e2c2e3a2590da3ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 46/98] fix: do not start timers using the time cached before a
 poll

While another timer was pending, the time read before poller_step() stayed
cached during the next loop: a timer started by a coroutine woken up by an
event expired early, by the time spent in the poll.
---
 amelie/runtime/base/task.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/runtime/base/task.c b/amelie/runtime/base/task.c
index 26d4a85..f47341e 100644
--- a/amelie/runtime/base/task.c
+++ b/amelie/runtime/base/task.c
@@ -144,6 +144,9 @@ mainloop(Task* self)
 		}
 		poller_step(poller, timeout);
 		bus_set_sleep(bus, false);
+
+		// the time has passed, do not start timers using the cached time
+		timer_mgr_reset(timer_mgr);
 	}
 }
 
-- 
2.43.0


From a9c0de6cda5fddd2479457c53eeadbe3a77d3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 47/98] fix: do not lose a signal which arrives together with
 the timeout

If the timer fired before the coroutine resumed by the signal was scheduled,
wait_event_time() reported a timeout and cleared the signal.
---
 amelie/runtime/base/wait.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/base/wait.h b/amelie/runtime/base/wait.h
index f2717a4..e8c4e5c 100644
--- a/amelie/runtime/base/wait.h
+++ b/amelie/runtime/base/wait.h
@@ -71,7 +71,8 @@ wait_event_time(Event* event, TimerMgr* timer_mgr, Coroutine* coro, int time_ms)
 	coroutine_suspend(coro);
 	event->wait = NULL;
 
-	bool timedout = time_ms > 0 && !timer.active;
+	// (signal can arrive together with the timer)
+	bool timedout = time_ms > 0 && !timer.active && !event->signal;
 	if (unlikely(timer.active))
 		timer_stop(&timer);
 
-- 
2.43.0


From 9c45dc426a3cbd49e12df73e9a936682e4accb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 48/98] fix: complete an interrupted creation of partitions on
 restart

---
 amelie/db/part/part_mgr_recover.c | 33 ++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/amelie/db/part/part_mgr_recover.c b/amelie/db/part/part_mgr_recover.c
index 26342f6..d50b099 100644
--- a/amelie/db/part/part_mgr_recover.c
+++ b/amelie/db/part/part_mgr_recover.c
@@ -85,9 +85,33 @@ part_mgr_recover_volume(PartMgr* self, Volume* volume)
 	}
 }
 
+static bool
+part_mgr_has(PartMgr* self, int range_start)
+{
+	list_foreach(&self->list)
+	{
+		auto part = list_at(Part, link);
+		if (part->heap->header->hash_min == range_start)
+			return true;
+	}
+	return false;
+}
+
 static void
 part_mgr_create(PartMgr* self)
 {
+	// read hash ranges of existing partitions, if the previous creation
+	// was not completed
+	list_foreach(&self->list)
+	{
+		auto part = list_at(Part, link);
+		File file;
+		file_init(&file);
+		defer(file_close, &file);
+		id_open(&part->id, &file, STATE_COMPLETE);
+		file_read(&file, part->heap->header, sizeof(HeapHeader));
+	}
+
 	// create initial hash partitions
 	auto count = self->config->partitions;
 	if (count < 1 || count > PART_MAPPING_MAX)
@@ -99,6 +123,13 @@ part_mgr_create(PartMgr* self)
 	int range_start    = 0;
 	for (auto order = 0; order < count; order++)
 	{
+		// already created
+		if (part_mgr_has(self, range_start))
+		{
+			range_start += range_interval;
+			continue;
+		}
+
 		// choose next volume
 		auto volume = volume_mgr_next(&self->config->volumes);
 
@@ -155,6 +186,6 @@ part_mgr_recover(PartMgr* self)
 	}
 
 	// create initial partitions
-	if (! self->list_count)
+	if (!self->list_count || self->list_count < self->config->partitions)
 		part_mgr_create(self);
 }
-- 
2.43.0


From 22beed7c41024998a01c8191aa016915fb1e3415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 49/98] fix: recognize unfinished and snapshot partition files

---
 amelie/db/storage/id.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/amelie/db/storage/id.h b/amelie/db/storage/id.h
index 3f58677..19c85c2 100644
--- a/amelie/db/storage/id.h
+++ b/amelie/db/storage/id.h
@@ -79,21 +79,17 @@ id_of(const char* name, int64_t* id, int64_t* version)
 	if (! *name)
 		return STATE_COMPLETE;
 
-	// .
-	name++;
-	if (unlikely(! *name))
-		return -1;
-
-	// <version>[.]
-	if (isdigit(*name))
+	// .<version>[.]
+	if (isdigit(name[1]))
 	{
-		name = id_of_next(name, version);
+		name = id_of_next(name + 1, version);
 		if (! name)
 			return -1;
+		if (! *name)
+			return STATE_COMPLETE;
 	}
-	if (unlikely(! *name))
-		return STATE_COMPLETE;
 
+	// .state
 	return id_state_of(name);
 }
 
-- 
2.43.0


From 80247623a18fdcfde83fcb82974be566fa18b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:54 +0000
Subject: [PATCH 50/98] fix: remember an authenticated token as a whole

The cache of authenticated tokens was keyed by the signature alone, and
was looked up before verifying it: a token with a different header or
payload and a signature seen before was accepted.
---
 amelie/server/auth/auth.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/server/auth/auth.c b/amelie/server/auth/auth.c
index 5487726..c7894da 100644
--- a/amelie/server/auth/auth.c
+++ b/amelie/server/auth/auth.c
@@ -49,8 +49,8 @@ auth_run(Auth* self, Str* token)
 
 	int64_t now = time_ms() / 1000;
 
-	// check auth cache, if the digest is already authenticated
-	auto user_ref = auth_cache_find(&self->cache, &jwt->digest);
+	// check auth cache, if the token is already authenticated
+	auto user_ref = auth_cache_find(&self->cache, token);
 	if (user_ref)
 	{
 		// ensure cached token has not expired
@@ -94,8 +94,8 @@ auth_run(Auth* self, Str* token)
 	// validate digest using user secret
 	jwt_decode_validate(jwt, &user->config->secret);
 
-	// add user and token digest to the cache
-	auth_cache_add(&self->cache, user, &jwt->digest, exp);
+	// add user and token to the cache
+	auth_cache_add(&self->cache, user, token, exp);
 	return user;
 }
 
-- 
2.43.0


From 7fe934f1fc4675b9dbd41f881a288c84c595eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:54 +0000
Subject: [PATCH 51/98] fix: refuse tokens of users without a secret

A user without a secret could be authenticated with a token signed with
an empty key, which anyone can make.
---
 amelie/server/auth/jwt_decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/server/auth/jwt_decode.c b/amelie/server/auth/jwt_decode.c
index 4075dc8..6142517 100644
--- a/amelie/server/auth/jwt_decode.c
+++ b/amelie/server/auth/jwt_decode.c
@@ -160,6 +160,10 @@ jwt_decode_data(JwtDecode* self, Str* sub,
 hot void
 jwt_decode_validate(JwtDecode* self, Str* secret)
 {
+	// users without a secret cannot be authenticated
+	if (unlikely(str_empty(secret)))
+		error("jwt: user secret is not set");
+
 	// decode digest from base64url
 	buf_reset(&self->data);
 	base64url_decode(&self->data, &self->digest);
-- 
2.43.0


From 54d46d516e32995ec99404a16599dfa96f4ed151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:54 +0000
Subject: [PATCH 52/98] fix: replace the state file in one step

state_save() renamed the current file away before writing the new one: a
crash or a failed write in between left no state file behind.
---
 amelie/runtime/runtime/state.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/amelie/runtime/runtime/state.c b/amelie/runtime/runtime/state.c
index ec5d5ac..30eb474 100644
--- a/amelie/runtime/runtime/state.c
+++ b/amelie/runtime/runtime/state.c
@@ -85,24 +85,15 @@ state_save_to(State* self, const char* path)
 void
 state_save(State* self, const char* path)
 {
-	if (! fs_exists("%s", path))
-	{
-		state_save_to(self, path);
-		return;
-	}
-
-	// remove old saved state, if exists
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
-
-	// save existing state as a old
-	fs_rename(path, "%s.old", path);
-
-	// create state file
-	state_save_to(self, path);
+	// remove incomplete state file, if exists
+	char path_incomplete[PATH_MAX];
+	sfmt(path_incomplete, sizeof(path_incomplete), "%s.incomplete", path);
+	if (fs_exists("%s", path_incomplete))
+		fs_unlink("%s", path_incomplete);
 
-	// remove old state file
-	fs_unlink("%s.old", path);
+	// create state file and replace the existing one
+	state_save_to(self, path_incomplete);
+	fs_rename(path_incomplete, "%s", path);
 }
 
 void
-- 
2.43.0


From a371a9f324bd1e32af09fbbe215ef737b16e2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 53/98] fix: send the space between Bearer and the token

The last byte of the header prefix was cut off, no server could recognise
the authorization of a request made by the client.
---
 amelie/server/http/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 5d77933..6a2e8d0 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -311,7 +311,7 @@ http_begin_request(Http* self, Endpoint* endpoint, uint64_t size)
 	auto token = opt_string_of(&endpoint->token);
 	if (! str_empty(token))
 	{
-		buf_write(buf, "Authorization: Bearer ", 21);
+		buf_write(buf, "Authorization: Bearer ", 22);
 		buf_write_str(buf, token);
 		buf_write(buf, "\r\n", 2);
 	}
-- 
2.43.0


From 73708233ef623b009376854b23294a9ad6e3f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 54/98] fix: make the HTTP header limit independent of how
 bytes arrive

A header of 512 to 767 bytes was accepted or refused depending on the
pieces in which it was received.
---
 amelie/server/http/http.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 6a2e8d0..dc107fa 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -105,6 +105,8 @@ http_read_header(Http* self, Readahead* readahead)
 		{
 			int before_truncate = buf_size(&self->raw);
 			self->raw.position = end + 4;
+			if (unlikely(buf_size(&self->raw) > 512))
+				error("HTTP header size limit exceeded");
 
 			int pushback = before_truncate - buf_size(&self->raw);
 			readahead_pushback(readahead, pushback);
-- 
2.43.0


From 942d796249f3ffc1d3892c421355f7984ebc9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 55/98] fix: do not read the parts of a HTTP header across its
 lines

A header line without a colon swallowed the next line, hiding for example
the content length that follows it.
---
 amelie/server/http/http.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index dc107fa..b7f8a41 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -147,9 +147,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 	}
 
 	// a
-	while (pos < end && *pos != ' ')
+	while (pos < end && *pos != ' ' && *pos != '\r')
 		pos++;
-	if (unlikely(pos == end))
+	if (unlikely(pos == end || *pos != ' '))
 		goto error;
 	str_set_u8(a, start, pos - start);
 	pos++;
@@ -158,9 +158,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 
 	// b
 	start = pos;
-	while (pos < end && *pos != ' ')
+	while (pos < end && *pos != ' ' && *pos != '\r')
 		pos++;
-	if (unlikely(pos == end))
+	if (unlikely(pos == end || *pos != ' '))
 		goto error;
 	str_set_u8(b, start, pos - start);
 	pos++;
@@ -196,9 +196,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 
 		// <name>: value\r\n
 		start = pos;
-		while (pos < end && *pos != ':')
+		while (pos < end && *pos != ':' && *pos != '\r')
 			pos++;
-		if (unlikely(pos == end))
+		if (unlikely(pos == end || *pos != ':'))
 			goto error;
 		str_set_u8(&header->name, start, pos - start);
 		pos++;
-- 
2.43.0


From 1e0b32fb3412c910fad840f4805ab66556924d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 56/98] fix: refuse a HTTP content which does not fit into a
 buffer

The size was truncated to 32 bits: a message of 4 GiB and a few bytes was
read as one of a few bytes, the rest as the next messages.
---
 amelie/server/http/http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index b7f8a41..9c9b69d 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -241,6 +241,10 @@ http_read_content_limit(Http* self, Readahead* readahead, Buf* content,
 	if (unlikely((uint64_t)len >= limit))
 		return true;
 
+	// content size is limited by the buffer
+	if (unlikely(len >= INT_MAX))
+		error("HTTP content size limit exceeded");
+
 	buf_reserve(content, len + 1);
 	for (;;)
 	{
-- 
2.43.0


From 0fcb693bf3d65200b5b3c2efa36b632b09238243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:27 +0000
Subject: [PATCH 57/98] fix: do not let an uri argument replace the uri being
 parsed

An argument named uri (POST /v1/db/x?uri=..) freed the text which the
parser was reading.
---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index bbf8c3e..d29d3ff 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -249,7 +249,7 @@ uri_parse_args_set(Uri* self, Buf* buf, int name_size, int value_size)
 
 	// find and set endpoint option
 	auto opt = opts_find(&self->endpoint->opts, &name);
-	if (! opt)
+	if (!opt || opt == &self->endpoint->uri)
 		error("unknown uri argument '%.*s'", str_size(&name),
 		      str_of(&name));
 
-- 
2.43.0


From 54efc06a8799176553c1af7894d5ad9d6840da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:27 +0000
Subject: [PATCH 58/98] fix: look for the user of an uri before its path only

An address without a user and with @ in its path or arguments was split
at that place.
---
 amelie/server/http/uri.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index d29d3ff..ebc7bf2 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -58,8 +58,10 @@ static inline void
 uri_parse_user(Uri* self)
 {
 	// [user[:password]@]
-	char* at = strstr(self->pos, "@");
-	if (! at)
+	char* at = self->pos;
+	while (*at && *at != '@' && *at != '/' && *at != '?')
+		at++;
+	if (*at != '@')
 		return;
 	if (unlikely(at == self->pos))
 		uri_error();
-- 
2.43.0


From 05759dca48bdd9738d86ec1729a08df1e43277b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:27 +0000
Subject: [PATCH 59/98] fix: export the secret in an uri

The user was written in its place.
---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index ebc7bf2..572bd87 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -450,7 +450,7 @@ uri_export(Endpoint* self, Buf* buf)
 		if (! opt_string_empty(&self->secret))
 		{
 			buf_write(buf, ":", 1);
-			buf_write_str(buf, &self->user.string);
+			buf_write_str(buf, &self->secret.string);
 		}
 		buf_write(buf, "@", 1);
 	}
-- 
2.43.0


From 76f2a3a4dd0a9007c7f2ebd44d458b0c9b94aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:27 +0000
Subject: [PATCH 60/98] fix: export an IPv6 host of an uri in brackets

The exported address was refused or had another host.
---
 amelie/server/http/uri.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 572bd87..6be7f5b 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -460,7 +460,16 @@ uri_export(Endpoint* self, Buf* buf)
 	{
 		if (! opt_string_empty(&self->host))
 		{
-			buf_write_str(buf, &self->host.string);
+			auto host = &self->host.string;
+			if (memchr(str_of(host), ':', str_size(host)))
+			{
+				// [name]
+				buf_write(buf, "[", 1);
+				buf_write_str(buf, host);
+				buf_write(buf, "]", 1);
+			} else {
+				buf_write_str(buf, host);
+			}
 			buf_write(buf, ":", 1);
 			buf_printf(buf, "%d", (int)self->port.integer);
 		}
-- 
2.43.0


From a92bcf3cd3aa6090dc254eb4e225438988c1b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:27 +0000
Subject: [PATCH 61/98] fix: percent-encode the arguments of exported uris and
 requests

A value with %, &, a space and the like was read back as another value,
broke the uri or the request line.
---
 amelie/server/http/uri.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 6be7f5b..eafb684 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -412,15 +412,28 @@ uri_parse_endpoint(Endpoint* endpoint, Str* spec)
 	uri_parse_args(&self);
 }
 
+static inline void
+uri_export_value(Str* value, Buf* buf)
+{
+	// percent-encode
+	for (auto pos = value->pos; pos < value->end; pos++)
+	{
+		uint8_t c = *pos;
+		if (isalnum(c) || (c && strchr("-_.~,:/", c)))
+			buf_write(buf, &c, 1);
+		else
+			buf_printf(buf, "%%%02X", c);
+	}
+}
+
 void
 uri_export_arg(Opt* opt, Buf* buf, bool* first)
 {
 	if (opt_string_empty(opt))
 		return;
 	// [?|&]name=value
-	buf_printf(buf, "%c%s=%.*s", *first? '?': '&',
-	           str_of(&opt->name),
-	           str_size(&opt->string), str_of(&opt->string));
+	buf_printf(buf, "%c%s=", *first? '?': '&', str_of(&opt->name));
+	uri_export_value(&opt->string, buf);
 	*first = false;
 }
 
-- 
2.43.0


From f6c5243f285c30a54f703c02eb2e8c9564bf976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:39 +0000
Subject: [PATCH 62/98] fix: advance over the branches of an object in cursors

Lookups and scans of a table with a tier never left the first branch.
---
 amelie/db/part/cursor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/part/cursor.c b/amelie/db/part/cursor.c
index aa96196..7fcfb2c 100644
--- a/amelie/db/part/cursor.c
+++ b/amelie/db/part/cursor.c
@@ -58,6 +58,7 @@ cursor_lookup(PartMgr*     self,
 				iterator_close(it);
 				return &branch_it->it;
 			}
+			branch = branch->next;
 		}
 	}
 
@@ -104,6 +105,7 @@ cursor_scan(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
@@ -154,6 +156,7 @@ cursor_scan_cross(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
-- 
2.43.0


From c9ab99fa0c39ba4479f5b1eed3b827959124ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:39 +0000
Subject: [PATCH 63/98] fix: tell tables with tiers from those without

tier_mgr_created() was inverted: tables with tiers were read from their
heaps only, and a scan by a hash index of a table without tiers failed
the assertion meant for tables with tiers.
---
 amelie/db/tier/tier_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/tier/tier_mgr.h b/amelie/db/tier/tier_mgr.h
index ab307b0..8a21775 100644
--- a/amelie/db/tier/tier_mgr.h
+++ b/amelie/db/tier/tier_mgr.h
@@ -37,7 +37,7 @@ Buf*    tier_mgr_list(TierMgr*, Str*, int);
 static inline bool
 tier_mgr_created(TierMgr* self)
 {
-	return !self->list_count;
+	return self->list_count > 0;
 }
 
 static inline Tier*
-- 
2.43.0


From 6a64c95bd13dee602b6a9cda9a5bbf7a52361f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:39 +0000
Subject: [PATCH 64/98] fix: read each region of an object into an empty buffer

The second region of a scan was appended to the first one, which was then
returned (or decoded) again.
---
 amelie/db/object/reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index 9aedfb7..21958a3 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -62,6 +62,7 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	encoder_reset(encoder);
 
 	// read region data from file
+	buf_reset(&self->buf_read);
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
 	               meta_region->offset);
 
-- 
2.43.0


From f559f24e2de91e4527300e62d607c76d7c3c8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:39 +0000
Subject: [PATCH 65/98] fix: validate the checksum of a region of an object

The checksum was calculated and stored with every region, but never
compared: a damaged region was returned as it is.
---
 amelie/db/object/reader.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index 21958a3..0210b47 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -66,6 +66,14 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
 	               meta_region->offset);
 
+	// validate region crc (if it was calculated on write)
+	if (meta_region->crc)
+	{
+		uint32_t crc = runtime()->crc(0, self->buf_read.start, buf_size(&self->buf_read));
+		if (crc != meta_region->crc)
+			error("object: region crc mismatch");
+	}
+
 	// decrypt/decompress or read raw
 	Region* region = NULL;
 	if (encoder_active(&self->encoder))
-- 
2.43.0


From 300e18fc506fcd60b825d8786aa9f9a61bc1a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:36 +0000
Subject: [PATCH 66/98] fix: restore the object header crc as it was

The change of 6bc9de9 was not needed: this crc does not depend on leading
zero bytes, so the value was the same.
---
 amelie/db/object/meta_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/object/meta_writer.h b/amelie/db/object/meta_writer.h
index 2aea86c..9fab4a7 100644
--- a/amelie/db/object/meta_writer.h
+++ b/amelie/db/object/meta_writer.h
@@ -97,7 +97,7 @@ meta_writer_stop(MetaWriter* self)
 		meta->size_regions_origin + meta->size_origin + sizeof(Meta);
 	meta->compression       = encoder_compression(encoder);
 	meta->crc_data          = encoder_iov_crc(encoder);
-	meta->crc               = runtime()->crc(0, (char*)meta + sizeof(uint32_t), sizeof(Meta) - sizeof(uint32_t));
+	meta->crc               = runtime()->crc(0, meta, sizeof(Meta));
 }
 
 static inline void
-- 
2.43.0


From 10ee66c3c0ecd27fb50b32f5a70134f1e01d6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 67/98] fix: read a date column value as a date

---
 amelie/vm/value/value_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/vm/value/value_data.h b/amelie/vm/value/value_data.h
index 1346aea..5e915a5 100644
--- a/amelie/vm/value/value_data.h
+++ b/amelie/vm/value/value_data.h
@@ -200,7 +200,7 @@ value_data_decode(Value* self, Column* column, uint8_t* data, int data_size)
 	}
 	case TYPE_DATE:
 	{
-		value_set_timestamp(self, *(int32_t*)data);
+		value_set_date(self, *(int32_t*)data);
 		break;
 	}
 	case TYPE_DOUBLE:
-- 
2.43.0


From 7a4ba29a58ff1b98e5e4b147e27949553bde5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 68/98] fix: do not leave a row in the heap when its column
 cannot be NULL

The row was allocated before the constraint was checked, and stayed in
the heap: saved by the next checkpoint and loaded as a row on restart.
---
 amelie/vm/value/row.c        |  2 ++
 amelie/vm/value/value_data.h | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/amelie/vm/value/row.c b/amelie/vm/value/row.c
index 13aa604..ef007a3 100644
--- a/amelie/vm/value/row.c
+++ b/amelie/vm/value/row.c
@@ -28,6 +28,7 @@ row_create(Heap*  heap, Columns* columns,
 	{
 		auto column = list_at(Column, link);
 		auto value  = values + column->order;
+		value_data_validate(value, column, refs);
 		size += value_data_size(value, column, refs);
 	}
 
@@ -182,6 +183,7 @@ row_update_prepare(Row* self, Columns* columns, Value* values, int count)
 		// use value
 		if (value)
 		{
+			value_data_validate(value, column, NULL);
 			size += value_data_size(value, column, NULL);
 			continue;
 		}
diff --git a/amelie/vm/value/value_data.h b/amelie/vm/value/value_data.h
index 5e915a5..519c2cc 100644
--- a/amelie/vm/value/value_data.h
+++ b/amelie/vm/value/value_data.h
@@ -49,6 +49,20 @@ value_data_size(Value* self, Column* column, Value* refs)
 	return size;
 }
 
+hot static inline void
+value_data_validate(Value* self, Column* column, Value* refs)
+{
+	// use reference
+	if (self->type == TYPE_REF)
+		self = &refs[self->integer];
+
+	// NOT NULL constraint
+	auto cons = &column->constraints;
+	if (unlikely(self->type == TYPE_NULL && cons->not_null && !cons->as_identity))
+		error("column '%.*s' cannot be NULL", str_size(&column->name),
+		      str_of(&column->name));
+}
+
 hot static inline bool
 value_data_encode(Value*    self, Column* column,
                   Value*    refs,
-- 
2.43.0


From 84f9046595ff06812fa311f0b0c5de0ebb6022a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 69/98] fix: do not sync the identity sequence with negative
 values

The sequence is unsigned: a recovered row with the explicit identity -3
moved it to the end of its range.
---
 amelie/db/part/part_op.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/db/part/part_op.c b/amelie/db/part/part_op.c
index 1ab665b..2fe1d95 100644
--- a/amelie/db/part/part_op.c
+++ b/amelie/db/part/part_op.c
@@ -94,6 +94,8 @@ part_sync_sequence(Part* self, Row* row, Columns* columns)
 		value = *(int32_t*)row_column(row, columns->identity);
 	else
 		value = *(int64_t*)row_column(row, columns->identity);
+	if (value < 0)
+		return;
 	sequence_sync(self->arg->seq, value);
 }
 
-- 
2.43.0


From 409e281b845dde4dca3ae7ef5c65453069e5524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 70/98] fix: sync the identity sequence atomically with
 sequence_next()

A value taken between the comparison and the assignment was taken again.
---
 amelie/db/row/sequence.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amelie/db/row/sequence.h b/amelie/db/row/sequence.h
index 0966637..229c3e2 100644
--- a/amelie/db/row/sequence.h
+++ b/amelie/db/row/sequence.h
@@ -61,7 +61,14 @@ sequence_sync(Sequence* self, uint64_t value)
 {
 	spinlock_lock(&self->lock);
 	auto next = value + 1;
-	if (self->value < next)
-		self->value = next;
+	for (;;)
+	{
+		// sequence_next() does not take the lock
+		auto current = sequence_get(self);
+		if (current >= next)
+			break;
+		if (__sync_bool_compare_and_swap(&self->value, current, next))
+			break;
+	}
 	spinlock_unlock(&self->lock);
 }
-- 
2.43.0


From 6e4666cbb5c7c6f1ac9a794449edbf36d034a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:08 +0000
Subject: [PATCH 71/98] fix: read JSON numbers within their text and limits

The parser accepted a number without digits ('-', '.', '-e') as zero,
refused the smallest integer and integers of reals longer than it, and
read reals behind the end of their text, which is not terminated when it
is a column of a row: '1.5' followed by a string of 7 bytes was 1.51.
---
 amelie/runtime/json/json_parser.c | 35 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/amelie/runtime/json/json_parser.c b/amelie/runtime/json/json_parser.c
index 32c72de..1522a8e 100644
--- a/amelie/runtime/json/json_parser.c
+++ b/amelie/runtime/json/json_parser.c
@@ -145,6 +145,7 @@ json_integer_read(Json* self, int64_t* value, double* real)
 		self->pos++;
 	}
 	auto start = self->pos;
+	bool overflow = false;
 	while (self->pos < self->end)
 	{
 		if (*self->pos == '.' ||
@@ -156,21 +157,39 @@ json_integer_read(Json* self, int64_t* value, double* real)
 		}
 		if (! isdigit(*self->pos))
 			break;
-		if (unlikely(int64_mul_add_overflow(value, *value, 10, *self->pos - '0')))
-			error("JSON int overflow");
+		int digit = *self->pos - '0';
+		if (int64_mul_add_overflow(value, *value, 10, minus ? -digit : digit))
+			overflow = true;
 		self->pos++;
 	}
-	if (minus)
-		*value = -(*value);
+	if (unlikely(self->pos == start))
+		error("bad JSON number");
+	if (unlikely(overflow))
+		error("JSON int overflow");
 	return true;
 
-read_as_double:
+read_as_double:;
+	// text can be unterminated, limit the number by its end
+	int size = 0;
+	while ((start + size) < self->end &&
+	       (isdigit(start[size]) || memchr(".eE+-", start[size], 5)))
+		size++;
+	char  number_sz[64];
+	char* number = number_sz;
+	if (unlikely(size >= (int)sizeof(number_sz)))
+		number = am_malloc(size + 1);
+	memcpy(number, start, size);
+	number[size] = 0;
+
 	errno = 0;
 	char* end = NULL;
-	*real = strtod(start, &end);
-	if (errno == ERANGE)
+	*real = strtod(number, &end);
+	auto error_range = (errno == ERANGE);
+	self->pos = start + (end - number);
+	if (number != number_sz)
+		am_free(number);
+	if (unlikely(error_range || self->pos == start))
 		error("bad JSON float number");
-	self->pos = end;
 	if (minus)
 		*real = -(*real);
 	return false;
-- 
2.43.0


From 94c138effa51f2218efcc8f229f4ce4fd9205d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:08 +0000
Subject: [PATCH 72/98] fix: unescape every JSON escape sequence

For the escape sequences it does not know, unescape_str() left a byte of
uninitialized memory in the string: \/ and \uXXXX, which JSON defines,
and any other escaped character.
---
 amelie/runtime/json/escape.h | 61 ++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/amelie/runtime/json/escape.h b/amelie/runtime/json/escape.h
index 521db14..148df4e 100644
--- a/amelie/runtime/json/escape.h
+++ b/amelie/runtime/json/escape.h
@@ -11,6 +11,43 @@
 // AGPL-3.0 Licensed.
 //
 
+hot static inline int
+unescape_hex(char* pos, char* end)
+{
+	// XXXX
+	if (unlikely(end - pos < 4))
+		error("invalid unicode escape sequence");
+	int value = 0;
+	for (int i = 0; i < 4; i++)
+	{
+		if (unlikely(! isxdigit(pos[i])))
+			error("invalid unicode escape sequence");
+		int digit = isdigit(pos[i]) ? pos[i] - '0' : tolower(pos[i]) - 'a' + 10;
+		value = (value << 4) | digit;
+	}
+	return value;
+}
+
+hot static inline int
+unescape_unicode(char** pos, char* end)
+{
+	// uXXXX or uXXXX\uXXXX, set the position to the last character read
+	int code = unescape_hex(*pos + 1, end);
+	*pos += 4;
+	if (likely(code < 0xD800 || code > 0xDFFF))
+		return code;
+
+	// surrogate pair
+	if (unlikely(code > 0xDBFF || (end - *pos) < 7 ||
+	             (*pos)[1] != '\\' || (*pos)[2] != 'u'))
+		error("invalid unicode escape sequence");
+	int low = unescape_hex(*pos + 3, end);
+	if (unlikely(low < 0xDC00 || low > 0xDFFF))
+		error("invalid unicode escape sequence");
+	*pos += 6;
+	return 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+}
+
 hot static inline void
 unescape_str(Buf* self, Str* string)
 {
@@ -61,6 +98,30 @@ unescape_str(Buf* self, Str* string)
 		case 'v':
 			*result = '\v';
 			break;
+		case 'u':
+		{
+			auto code = unescape_unicode(&pos, end);
+			if (code < 0x80) {
+				*result = code;
+				break;
+			}
+			if (code < 0x800) {
+				*result++ = 0xC0 | (code >> 6);
+			} else
+			if (code < 0x10000) {
+				*result++ = 0xE0 | (code >> 12);
+				*result++ = 0x80 | ((code >> 6) & 0x3F);
+			} else {
+				*result++ = 0xF0 | (code >> 18);
+				*result++ = 0x80 | ((code >> 12) & 0x3F);
+				*result++ = 0x80 | ((code >> 6) & 0x3F);
+			}
+			*result = 0x80 | (code & 0x3F);
+			break;
+		}
+		default:
+			*result = *pos;
+			break;
 		}
 		slash = false;
 		result++;
-- 
2.43.0


From 30313e43eb92574a0466b683079128c87417bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:08 +0000
Subject: [PATCH 73/98] fix: escape control characters in exported JSON strings

---
 amelie/runtime/json/escape.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/json/escape.h b/amelie/runtime/json/escape.h
index 148df4e..408d608 100644
--- a/amelie/runtime/json/escape.h
+++ b/amelie/runtime/json/escape.h
@@ -160,7 +160,10 @@ escape_str(Buf* self, Str* raw)
 			buf_write(self, "\\t", 2);
 			break;
 		default:
-			buf_write(self, pos, 1);
+			if (unlikely((uint8_t)*pos < 0x20))
+				buf_printf(self, "\\u%04x", *pos);
+			else
+				buf_write(self, pos, 1);
 			break;
 		}
 	}
-- 
2.43.0


From 8a62d86ce61ad40f49c54bd95a99e30c5de70dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:08 +0000
Subject: [PATCH 74/98] fix: set a new key of a nested object once

After the key was added to the nested object, every object above it got
its own key in the path added for the second time.
---
 amelie/vm/value/update.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/vm/value/update.c b/amelie/vm/value/update.c
index 608bdf1..a533a7b 100644
--- a/amelie/vm/value/update.c
+++ b/amelie/vm/value/update.c
@@ -168,6 +168,7 @@ update_set_next(Update* self)
 
 		// value
 		value_encode(self->value, self->tz, buf);
+		self->found = true;
 	}
 	encode_obj_end(buf);
 }
-- 
2.43.0


From 84fa9e1f985e9b07a31cbdd27d49c401d22514d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:12 +0000
Subject: [PATCH 75/98] fix: find the time zone transition in force

The binary search read the transition table past its end, compared the
signed times as unsigned and could stop before the last transition, which
gave a wrong offset.
---
 amelie/runtime/lib/timezone.c | 36 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/amelie/runtime/lib/timezone.c b/amelie/runtime/lib/timezone.c
index 8b1b88a..faf925c 100644
--- a/amelie/runtime/lib/timezone.c
+++ b/amelie/runtime/lib/timezone.c
@@ -123,38 +123,22 @@ timezone_match(Timezone* self, time_t time)
 	if (self->header.timecnt == 0)
 		return &self->times[0];
 
-	int min = 1;
+	// find the first transition after the time, the table is signed
+	int min = 0;
 	int max = self->header.timecnt;
-	int mid = (min + max) / 2;
-	while (mid > min)
+	while (min < max)
 	{
-		if (min >= (int)self->header.timecnt)
-		{
-			mid = self->header.timecnt;
-			break;
-		}
-		if (min == mid)
-			break;
-
-		if (self->transition_times[mid] == time)
-		{
-			mid++;
-			break;
-		}
-		if (self->transition_times[mid] < time)
+		int mid = (min + max) / 2;
+		if ((int32_t)self->transition_times[mid] <= time)
 			min = mid + 1;
 		else
-			max = mid - 1;
-
-		mid = (min + max) / 2;
+			max = mid;
 	}
 
-	if (mid > (int)self->header.timecnt)
-		mid = self->header.timecnt;
-
-	if (time > self->transition_times[mid])
-		mid++;
+	// before the first transition
+	if (min == 0)
+		return &self->times[0];
 
-	auto type = self->transition_types[mid - 1];
+	auto type = self->transition_types[min - 1];
 	return &self->times[type];
 }
-- 
2.43.0


From c3d6e82f76c5e4e9f4abde8ff30678d47371471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:12 +0000
Subject: [PATCH 76/98] fix: convert local time near a time zone transition

The offset was looked up as if the local time were UTC, so that times
within an offset of a transition got the wrong one.
---
 amelie/runtime/lib/timestamp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index ed805c7..ee7256c 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -283,8 +283,12 @@ timestamp_get_unixtime(Timestamp* self, Timezone* timezone)
 	{
 		if (! zone_set)
 		{
+			// transitions are in UTC: match local time first to
+			// find the offset near it
 			auto tztime = timezone_match(timezone, time);
 			assert(tztime);
+			tztime = timezone_match(timezone, time - tztime->utoff);
+			assert(tztime);
 			time -= tztime->utoff;
 		}
 	} else
-- 
2.43.0


From 6e85ef7e879e6f7823b687c7c58aa07bba973757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:12 +0000
Subject: [PATCH 77/98] fix: do not read past the end of a timestamp text

The minimal size was checked before the leading whitespace was skipped.
---
 amelie/runtime/lib/timestamp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index ee7256c..205bd93 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -55,7 +55,7 @@ timestamp_parse(Timestamp* self, Str* str)
 	// whitespace
 	while (pos < end && isspace(*pos))
 		pos++;
-	if (pos == end)
+	if (unlikely(end - pos < 19))
 		goto error;
 
 	// year
-- 
2.43.0


From c59e6b11c95c9b52df778673f9ee6d1fe30f2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:13 +0000
Subject: [PATCH 78/98] fix: keep the seconds of a time zone offset

A timestamp written in a zone whose offset has seconds was read back as
another moment.
---
 amelie/runtime/lib/timestamp.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index 205bd93..206813a 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -44,7 +44,7 @@ timestamp_parse_part(Str* str, char* pos, char* pos_end)
 hot static void
 timestamp_parse(Timestamp* self, Str* str)
 {
-	// yyyy-mm-dd< |T>hh:mm:ss[.ssssss][+/-hh[:mm]|Z|]
+	// yyyy-mm-dd< |T>hh:mm:ss[.ssssss][+/-hh[:mm[:ss]]|Z|]
 	auto pos = str->pos;
 	auto end = str->end;
 
@@ -170,13 +170,27 @@ timestamp_parse(Timestamp* self, Str* str)
 		if (*pos == ':')
 			pos++;
 		pos_end = pos + 2;
-		if (unlikely(pos_end != end))
+		if (unlikely(pos_end > end))
 			goto error;
 		mm = timestamp_parse_part(str, pos, pos_end);
+		pos += 2;
+	}
+
+	// [:ss]
+	int ss = 0;
+	if (pos != end)
+	{
+		if (*pos != ':')
+			goto error;
+		pos++;
+		pos_end = pos + 2;
+		if (unlikely(pos_end != end))
+			goto error;
+		ss = timestamp_parse_part(str, pos, pos_end);
 	}
 
 	// store timezone offset in seconds
-	self->zone = hh * 60 * 60 + mm * 60;
+	self->zone = hh * 60 * 60 + mm * 60 + ss;
 	if (negative)
 		self->zone = -self->zone;
 
@@ -339,6 +353,11 @@ timestamp_get(int64_t value, Timezone* timezone, char* str, int str_size)
 		int offset = tztime->utoff * sign;
 		int hr     =  offset / 3600;
 		int min    = (offset - (3600 * hr)) / 60;
+		int sec    =  offset % 60;
+		if (sec != 0)
+			sfmt(timezone_sz, sizeof(timezone_sz), "%c%02d:%02d:%02d",
+			     sign > 0 ? '+' : '-', hr, min, sec);
+		else
 		if (min != 0)
 			sfmt(timezone_sz, sizeof(timezone_sz), "%c%02d:%02d",
 			     sign > 0 ? '+' : '-', hr, min);
-- 
2.43.0


From bf01b3308961f44cb7a4430dbf4649cf3446f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:13 +0000
Subject: [PATCH 79/98] fix: refuse timestamps out of range after arithmetic

Adding or subtracting a large interval wrapped around in the fields of
struct tm and in the conversion to microseconds, and could give a wrong
timestamp instead of an error.
---
 amelie/runtime/lib/timestamp.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index 206813a..f2a19b3 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -315,7 +315,7 @@ timestamp_get_unixtime(Timestamp* self, Timezone* timezone)
 	if (zone_set)
 		time -= self->zone;
 
-	if (unlikely(time < 0))
+	if (unlikely(time < 0 || time > TIMESTAMP_MAX / 1000000LL))
 		error("timestamp overflow");
 
 	int64_t value = time * 1000000ULL; // convert to us
@@ -389,6 +389,20 @@ timestamp_get(int64_t value, Timezone* timezone, char* str, int str_size)
 	return len;
 }
 
+static inline void
+timestamp_add_field(int* field, int64_t value)
+{
+	if (unlikely(__builtin_add_overflow(*field, value, field)))
+		error("timestamp overflow");
+}
+
+static inline void
+timestamp_sub_field(int* field, int64_t value)
+{
+	if (unlikely(__builtin_sub_overflow(*field, value, field)))
+		error("timestamp overflow");
+}
+
 void
 timestamp_add(Timestamp* self, Interval* iv)
 {
@@ -401,23 +415,23 @@ timestamp_add(Timestamp* self, Interval* iv)
 		int y = m / 12;
 		if (y != 0)
 		{
-			self->time.tm_year += y;
+			timestamp_add_field(&self->time.tm_year, y);
 			m = m % 12;
 		}
 		if (m != 0)
-			self->time.tm_mon += m;
+			timestamp_add_field(&self->time.tm_mon, m);
 	}
 
 	// weeks/days
 	if (iv->d != 0)
-		self->time.tm_mday += iv->d;
+		timestamp_add_field(&self->time.tm_mday, iv->d);
 
 	// hours
 	int64_t us = iv->us;
 	int64_t hours = us / (60LL * 60 * 1000 * 1000);
 	if (hours != 0)
 	{
-		self->time.tm_hour += hours;
+		timestamp_add_field(&self->time.tm_hour, hours);
 		us = us % (60LL * 60 * 1000 * 1000);
 	}
 
@@ -451,23 +465,23 @@ timestamp_sub(Timestamp* self, Interval* iv)
 		int y = m / 12;
 		if (y != 0)
 		{
-			self->time.tm_year -= y;
+			timestamp_sub_field(&self->time.tm_year, y);
 			m = m % 12;
 		}
 		if (m != 0)
-			self->time.tm_mon -= m;
+			timestamp_sub_field(&self->time.tm_mon, m);
 	}
 
 	// weeks/days
 	if (iv->d != 0)
-		self->time.tm_mday -= iv->d;
+		timestamp_sub_field(&self->time.tm_mday, iv->d);
 
 	// hours
 	int64_t us = iv->us;
 	int64_t hours = us / (60LL * 60 * 1000 * 1000);
 	if (hours != 0)
 	{
-		self->time.tm_hour -= hours;
+		timestamp_sub_field(&self->time.tm_hour, hours);
 		us = us % (60LL * 60 * 1000 * 1000);
 	}
 
-- 
2.43.0


From 941db6f71c970d8f93e9ccee255cd85094d37d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:13 +0000
Subject: [PATCH 80/98] fix: refuse intervals out of range

Reading, adding, subtracting and negating intervals wrapped around
instead of reporting an overflow.
---
 amelie/runtime/lib/interval.c | 88 +++++++++++++++++++++++++++--------
 1 file changed, 69 insertions(+), 19 deletions(-)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index ea50232..966dfef 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -32,6 +32,47 @@ interval_error_field(Str* str)
 	error("invalid interval field '%.*s'", str_size(str), str_of(str));
 }
 
+static inline void
+interval_error_overflow(void)
+{
+	error("interval overflow");
+}
+
+static inline int32_t
+interval_to_int32(int64_t value)
+{
+	if (unlikely(value < INT32_MIN || value > INT32_MAX))
+		interval_error_overflow();
+	return value;
+}
+
+static inline void
+interval_read_months(Interval* self, int64_t value, int64_t scale)
+{
+	int64_t result;
+	if (unlikely(int64_mul_add_overflow(&result, value, scale, self->m)))
+		interval_error_overflow();
+	self->m = interval_to_int32(result);
+}
+
+static inline void
+interval_read_days(Interval* self, int64_t value, int64_t scale)
+{
+	int64_t result;
+	if (unlikely(int64_mul_add_overflow(&result, value, scale, self->d)))
+		interval_error_overflow();
+	self->d = interval_to_int32(result);
+}
+
+static inline void
+interval_read_us(Interval* self, int64_t value, int64_t scale)
+{
+	int64_t result;
+	if (unlikely(int64_mul_add_overflow(&result, value, scale, self->us)))
+		interval_error_overflow();
+	self->us = result;
+}
+
 static inline void
 interval_read_type(Interval* self, Str* type, int64_t value)
 {
@@ -46,7 +87,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "minutes", 7) ||
 		    str_is(type, "minute", 6))
 		{
-			self->us += value * 60LL * 1000 * 1000;
+			interval_read_us(self, value, 60LL * 1000 * 1000);
 			return;
 		}
 
@@ -55,7 +96,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "months", 6) ||
 		    str_is(type, "month", 5))
 		{
-			self->m += value;
+			interval_read_months(self, value, 1);
 			return;
 		}
 
@@ -66,7 +107,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "milliseconds", 12) ||
 		    str_is(type, "millisecond", 11))
 		{
-			self->us += value * 1000LL;
+			interval_read_us(self, value, 1000LL);
 			return;
 		}
 
@@ -75,7 +116,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "microseconds", 12) ||
 		    str_is(type, "microsecond", 11))
 		{
-			self->us += value;
+			interval_read_us(self, value, 1);
 			return;
 		}
 		break;
@@ -83,7 +124,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		// us
 		if (str_is(type, "us", 2))
 		{
-			self->us += value;
+			interval_read_us(self, value, 1);
 			return;
 		}
 		break;
@@ -97,7 +138,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "seconds", 7) ||
 		    str_is(type, "second", 6))
 		{
-			self->us += value * 1000LL * 1000;
+			interval_read_us(self, value, 1000LL * 1000);
 			return;
 		}
 		break;
@@ -111,7 +152,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "hours", 5) ||
 		    str_is(type, "hour", 4))
 		{
-			self->us += value * 60LL * 60 * 1000 * 1000;
+			interval_read_us(self, value, 60LL * 60 * 1000 * 1000);
 			return;
 		}
 		break;
@@ -121,7 +162,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "days", 4) ||
 		    str_is(type, "day", 3))
 		{
-			self->d += value;
+			interval_read_days(self, value, 1);
 			return;
 		}
 		break;
@@ -131,7 +172,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "weeks", 5) ||
 		    str_is(type, "week", 4))
 		{
-			self->d += value * 7;
+			interval_read_days(self, value, 7);
 			return;
 		}
 		break;
@@ -141,7 +182,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "years", 5) ||
 		    str_is(type, "year", 4))
 		{
-			self->m += value * 12;
+			interval_read_months(self, value, 12);
 			return;
 		}
 		break;
@@ -301,25 +342,34 @@ interval_compare(Interval* a, Interval* b)
 void
 interval_add(Interval* result, Interval* a, Interval* b)
 {
-	result->m  = a->m + b->m;
-	result->d  = a->d + b->d;
-	result->us = a->us + b->us;
+	int64_t us;
+	if (unlikely(int64_add_overflow(&us, a->us, b->us)))
+		interval_error_overflow();
+	result->m  = interval_to_int32((int64_t)a->m + b->m);
+	result->d  = interval_to_int32((int64_t)a->d + b->d);
+	result->us = us;
 }
 
 void
 interval_sub(Interval* result, Interval* a, Interval* b)
 {
-	result->m  = a->m - b->m;
-	result->d  = a->d - b->d;
-	result->us = a->us - b->us;
+	int64_t us;
+	if (unlikely(int64_sub_overflow(&us, a->us, b->us)))
+		interval_error_overflow();
+	result->m  = interval_to_int32((int64_t)a->m - b->m);
+	result->d  = interval_to_int32((int64_t)a->d - b->d);
+	result->us = us;
 }
 
 void
 interval_neg(Interval* result, Interval* a)
 {
-	result->m  = -a->m;
-	result->d  = -a->d;
-	result->us = -a->us;
+	int64_t us;
+	if (unlikely(int64_sub_overflow(&us, 0, a->us)))
+		interval_error_overflow();
+	result->m  = interval_to_int32(-(int64_t)a->m);
+	result->d  = interval_to_int32(-(int64_t)a->d);
+	result->us = us;
 }
 
 typedef enum
-- 
2.43.0


From 37ffb09962a1c3e81cdb93aba258c4c71ced78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:13 +0000
Subject: [PATCH 81/98] fix: require a number in every part of an interval

"- day" was read as zero days.
---
 amelie/runtime/lib/interval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index 966dfef..960d2a6 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -215,6 +215,8 @@ interval_set(Interval* self, Str* str)
 		}
 
 		// cardinal
+		if (pos == end || !isdigit(*pos))
+			goto error;
 		int64_t cardinal = 0;
 		while (pos < end && isdigit(*pos))
 		{
-- 
2.43.0


From f7501e0bbba2175aaef42aabeae2f9adc3a391a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:13 +0000
Subject: [PATCH 82/98] fix: truncate and extract negative intervals

The unsigned units turned negative microseconds into huge positive
numbers.
---
 amelie/runtime/lib/interval.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index 960d2a6..e5d40fe 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -470,31 +470,31 @@ interval_trunc(Interval* self, Str* field)
 		break;
 	case INTERVAL_DAY:
 	{
-		const auto hour = 24ULL * 60 * 60 * 1000 * 1000;
+		const auto hour = 24LL * 60 * 60 * 1000 * 1000;
 		self->us = (self->us / hour) * hour;
 		break;
 	}
 	case INTERVAL_HOUR:
 	{
-		const auto min = 60ULL * 60 * 1000 * 1000;
+		const auto min = 60LL * 60 * 1000 * 1000;
 		self->us = (self->us / min) * min;
 		break;
 	}
 	case INTERVAL_MINUTE:
 	{
-		const auto sec = 60ULL * 1000 * 1000;
+		const auto sec = 60LL * 1000 * 1000;
 		self->us = (self->us / sec) * sec;
 		break;
 	}
 	case INTERVAL_SECOND:
 	{
-		const auto sec = 1000ULL * 1000;
+		const auto sec = 1000LL * 1000;
 		self->us = (self->us / sec) * sec;
 		break;
 	}
 	case INTERVAL_MILLISECOND:
 	{
-		const auto ms = 1000ULL;
+		const auto ms = 1000LL;
 		self->us = (self->us / ms) * ms;
 		break;
 	}
@@ -522,16 +522,16 @@ interval_extract(Interval* self, Str* field)
 		result = self->d;
 		break;
 	case INTERVAL_HOUR:
-		result = (self->us / (60ULL * 60 * 1000 * 1000));
+		result = (self->us / (60LL * 60 * 1000 * 1000));
 		break;
 	case INTERVAL_MINUTE:
-		result = (self->us % (60ULL * 60 * 1000 * 1000)) / (60ULL * 1000 * 1000);
+		result = (self->us % (60LL * 60 * 1000 * 1000)) / (60LL * 1000 * 1000);
 		break;
 	case INTERVAL_SECOND:
-		result = (self->us % (60ULL * 1000 * 1000)) / (1000ULL * 1000);
+		result = (self->us % (60LL * 1000 * 1000)) / (1000LL * 1000);
 		break;
 	case INTERVAL_MILLISECOND:
-		result = (self->us % (1000ULL * 1000)) / (1000ULL);
+		result = (self->us % (1000LL * 1000)) / (1000LL);
 		break;
 	case INTERVAL_MICROSECOND:
 		result = (self->us % (1000));
-- 
2.43.0


From 1fd20f6a43e4b1c99151e952f30ec51d24bb3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:13 +0000
Subject: [PATCH 83/98] fix: refuse text after a UUID

Anything which followed the first 36 characters was ignored.
---
 amelie/runtime/lib/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/uuid.c b/amelie/runtime/lib/uuid.c
index 243bb77..e684f51 100644
--- a/amelie/runtime/lib/uuid.c
+++ b/amelie/runtime/lib/uuid.c
@@ -29,7 +29,7 @@ struct uuid_bits
 int
 uuid_set_nothrow(Uuid* self, Str* src)
 {
-	if (unlikely(str_size(src) < (UUID_SZ - 1)))
+	if (unlikely(str_size(src) != (UUID_SZ - 1)))
 		return -1;
 
 	auto string = str_of(src);
-- 
2.43.0


From 1b9b05647641af6c66a85565af7c5dc3245854fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:18 +0000
Subject: [PATCH 84/98] fix: refuse invalid base64 text

The decoding tables have an entry for each ascii character and were indexed
with any byte, which read out of their bounds. Text with a single leftover
character, or with anything after the padding, was accepted as well.
---
 amelie/runtime/lib/base64.c    | 15 +++++++++++++++
 amelie/runtime/lib/base64url.c |  8 ++++++++
 2 files changed, 23 insertions(+)

diff --git a/amelie/runtime/lib/base64.c b/amelie/runtime/lib/base64.c
index 6cf47fb..13fb4fc 100644
--- a/amelie/runtime/lib/base64.c
+++ b/amelie/runtime/lib/base64.c
@@ -102,8 +102,19 @@ base64_decode(Buf* self, Str* str)
 	auto end       = (uint8_t*)str->end;
 	for (auto pos = str_u8(str); pos < end; pos++)
 	{
+		// padding, nothing else can follow
 		if (*pos == '=')
+		{
+			while (pos < end && *pos == '=')
+				pos++;
+			if (unlikely(pos != end))
+				goto error;
 			break;
+		}
+
+		// the table covers ascii only
+		if (unlikely(*pos >= sizeof(base64_decode_table)))
+			goto error;
 
 		auto c = base64_decode_table[*pos];
 		if (unlikely(c == 255))
@@ -128,6 +139,10 @@ base64_decode(Buf* self, Str* str)
 		order++;
 	}
 
+	// the last character has no complete byte
+	if (unlikely((order & 0x03) == 1))
+		goto error;
+
 	buf_advance(self, out_order);
 	return;
 error:
diff --git a/amelie/runtime/lib/base64url.c b/amelie/runtime/lib/base64url.c
index 5d4d5e3..fb6176a 100644
--- a/amelie/runtime/lib/base64url.c
+++ b/amelie/runtime/lib/base64url.c
@@ -130,6 +130,10 @@ base64url_decode(Buf* self, Str* str)
 	auto end       = (uint8_t*)str->end;
 	for (auto pos = str_u8(str); pos < end; pos++)
 	{
+		// the table covers ascii only
+		if (unlikely(*pos >= sizeof(base64url_decode_table)))
+			goto error;
+
 		auto c = base64url_decode_table[*pos];
 		if (unlikely(c == 255))
 			goto error;
@@ -152,6 +156,10 @@ base64url_decode(Buf* self, Str* str)
 		order++;
 	}
 
+	// the last character has no complete byte
+	if (unlikely((order & 0x03) == 1))
+		goto error;
+
 	buf_advance(self, out_order);
 	return;
 error:
-- 
2.43.0


From 0b62380fc32a8a89a6299d71875d7b7834555bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:21 +0000
Subject: [PATCH 85/98] fix: merge partitions by the sign of the comparison

Strings compare with any number of that sign (memcmp), the merge of ordered
sets took another row only for exactly 1: ordered results of strings from
several partitions came out of order, and DISTINCT returned duplicates.
---
 amelie/vm/set/union_iterator.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/amelie/vm/set/union_iterator.h b/amelie/vm/set/union_iterator.h
index 6300152..d01670f 100644
--- a/amelie/vm/set/union_iterator.h
+++ b/amelie/vm/set/union_iterator.h
@@ -85,16 +85,10 @@ union_iterator_step(UnionIterator* self)
 			continue;
 		}
 
-		auto rc = store_compare(&self->ref->store, min, row);
-		switch (rc) {
-		case 0:
-			break;
-		case 1:
+		if (store_compare(&self->ref->store, min, row) > 0)
+		{
 			min_iterator = current;
 			min = row;
-			break;
-		case -1:
-			break;
 		}
 	}
 
-- 
2.43.0


From 2dd9de92d6630fb32978a1b522c4928064493d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:21 +0000
Subject: [PATCH 86/98] fix: free distinct aggregate rows by their own size

Rows of the distinct set were freed with the number of values of a row of
the aggregate set: with more aggregates the following rows were freed before
they were merged, which lost their values and freed memory behind the set.
---
 amelie/vm/set/agg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/vm/set/agg.c b/amelie/vm/set/agg.c
index 2422edc..519479f 100644
--- a/amelie/vm/set/agg.c
+++ b/amelie/vm/set/agg.c
@@ -299,7 +299,7 @@ agg_merge_set_distinct(Agg* aggs, Set* set, Set* with)
 		}
 
 		// free with row
-		for (auto i = 0; i < with->store.columns_row; i++)
+		for (auto i = 0; i < distinct_with->store.columns_row; i++)
 			value_free(at_row + i);
 	}
 }
-- 
2.43.0


From 15004aed7acdeea54f9dda55e6c7a773a3c80371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:21 +0000
Subject: [PATCH 87/98] fix: average of negative integers

The sum was converted to unsigned by the division.
---
 amelie/runtime/lib/avg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/avg.h b/amelie/runtime/lib/avg.h
index 009bb61..4124875 100644
--- a/amelie/runtime/lib/avg.h
+++ b/amelie/runtime/lib/avg.h
@@ -45,7 +45,7 @@ avg_add_double(Avg* self, double value, int count)
 static inline int64_t
 avg_int(Avg* self)
 {
-	return self->sum_int / self->count;
+	return self->sum_int / (int64_t)self->count;
 }
 
 static inline double
-- 
2.43.0


From 31d27504ad1f6083e9ef46a5a9e318e93af9ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:21 +0000
Subject: [PATCH 88/98] fix: match % in LIKE with any number of characters

The first occurrence of the character after % was taken for good, so that
'aab' LIKE '%ab' was false. A pattern ending with an escape was read behind
its end.
---
 amelie/vm/value/like.c | 83 ++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/amelie/vm/value/like.c b/amelie/vm/value/like.c
index d9b1111..09c92ef 100644
--- a/amelie/vm/value/like.c
+++ b/amelie/vm/value/like.c
@@ -28,21 +28,21 @@ value_like(Value* result, Value* str, Value* pattern)
 	auto end_str = str->string.end;
 	auto pos = pattern->string.pos;
 	auto end = pattern->string.end;
-	while (pos < end)
+
+	// position after the last %, and the string position it is matched with
+	char* any = NULL;
+	char* any_str = NULL;
+	for (;;)
 	{
-		// match any single character
-		if (*pos == '_')
+		if (pos == end)
 		{
 			if (pos_str == end_str)
-				return;
-			utf8_forward(&pos_str);
-			pos++;
-			continue;
-		}
-
-		// match zero, one or multiple characters
+				goto match;
+		} else
 		if (*pos == '%')
 		{
+			// match zero, one or multiple characters
+
 			// combine % and _ together
 			while (pos < end && (*pos == '%' || *pos == '_'))
 				pos++;
@@ -51,47 +51,50 @@ value_like(Value* result, Value* str, Value* pattern)
 			if (pos == end)
 				goto match;
 
-			// match next character after %
-			if (*pos == '\\')
+			any = pos;
+			any_str = pos_str;
+			continue;
+		} else
+		if (*pos == '_')
+		{
+			// match any single character
+			if (pos_str < end_str)
+			{
+				utf8_forward(&pos_str);
 				pos++;
-			if (pos == end)
+				continue;
+			}
+		} else
+		{
+			// \% \_
+			auto at = pos;
+			if (*at == '\\')
+				at++;
+			if (at == end)
 				return;
 
-			auto pos_size = utf8_sizeof(*pos);
-			bool match = false;
-			while (pos_str < end_str)
+			// match exact single character
+			if (pos_str < end_str)
 			{
+				auto pos_size = utf8_sizeof(*at);
 				auto pos_str_size = utf8_sizeof(*pos_str);
-				match = pos_str_size == pos_size && !memcmp(pos, pos_str, pos_size);
-				pos_str += pos_str_size;
-				if (match)
-					break;
+				if (pos_str_size == pos_size && !memcmp(at, pos_str, pos_size))
+				{
+					pos_str += pos_str_size;
+					pos = at + pos_size;
+					continue;
+				}
 			}
-			if (! match)
-				return;
-			pos += pos_size;
-			continue;
 		}
 
-		// \% \_
-		if (*pos == '\\')
-			pos++;
-
-		// match exact single character
-		if (pos_str == end_str)
+		// try next character after %
+		if (!any || any_str == end_str)
 			return;
-
-		auto pos_str_size = utf8_sizeof(*pos_str);
-		auto pos_size = utf8_sizeof(*pos);
-		if (! (pos_str_size == pos_size && !memcmp(pos, pos_str, pos_size)))
-			return;
-		pos_str += pos_str_size;
-		pos += pos_size;
+		utf8_forward(&any_str);
+		pos_str = any_str;
+		pos = any;
 	}
 
-	if (pos_str != end_str)
-		return;
-
 match:
 	value_set_bool(result, true);
 }
-- 
2.43.0


From 00fe58789df015ef2a3b1c3b3d5501aa40ec96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:21 +0000
Subject: [PATCH 89/98] fix: group 0.0 and -0.0 together

They compare as equal, but had different hashes.
---
 amelie/vm/set/set_hash.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amelie/vm/set/set_hash.h b/amelie/vm/set/set_hash.h
index ae4b229..1cf8e3e 100644
--- a/amelie/vm/set/set_hash.h
+++ b/amelie/vm/set/set_hash.h
@@ -91,8 +91,9 @@ set_hash_resize(SetHash* self)
 hot static inline uint32_t
 set_hash_value(Value* value, uint32_t hash)
 {
-	int   data_size = 0;
-	void* data = NULL;
+	int    data_size = 0;
+	void*  data = NULL;
+	double zero = 0.0;
 	switch (value->type) {
 	case TYPE_INT:
 	case TYPE_BOOL:
@@ -106,7 +107,8 @@ set_hash_value(Value* value, uint32_t hash)
 		data_size = sizeof(value->interval);
 		break;
 	case TYPE_DOUBLE:
-		data = &value->dbl;
+		// 0.0 and -0.0 are equal
+		data = value->dbl == 0.0 ? &zero : &value->dbl;
 		data_size = sizeof(value->dbl);
 		break;
 	case TYPE_STRING:
-- 
2.43.0


From 2dca1dcfc1ff677c894a9338fa3a7772dea90824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:21 +0000
Subject: [PATCH 90/98] fix: keep colliding nodes of a hash table after a
 delete

A deleted node left a hole, and a node placed behind it because of a
collision could no longer be found.
---
 amelie/runtime/lib/hash_table.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/hash_table.h b/amelie/runtime/lib/hash_table.h
index 11d343a..1123989 100644
--- a/amelie/runtime/lib/hash_table.h
+++ b/amelie/runtime/lib/hash_table.h
@@ -94,6 +94,18 @@ hashtable_delete(Hashtable* self, HashtableNode* node)
 	assert(index[node->pos] == node);
 	index[node->pos] = NULL;
 	self->count--;
+
+	// add the nodes which follow again, they might be placed
+	// after this one because of a collision
+	uint32_t pos = (node->pos + 1) % self->size;
+	while (index[pos])
+	{
+		auto next = index[pos];
+		index[pos] = NULL;
+		self->count--;
+		hashtable_set(self, next);
+		pos = (pos + 1) % self->size;
+	}
 }
 
 hot static inline HashtableNode*
@@ -111,7 +123,6 @@ hashtable_get(Hashtable*       self,
 		if (current == NULL || current->hash != hash)
 			break;
 			*/
-		/* todo: if first is deleted, second will not be found? */
 		if (current == NULL)
 			break;
 		if (current->hash == hash && compare(current, compare_arg))
-- 
2.43.0


From ca3d80247ecd1d06cfa7a86c3ae4d0ae70cd57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:21 +0000
Subject: [PATCH 91/98] fix: do not keep buffers over the limit of the cache

Because of a misplaced parenthesis only the truth of the capacity was
compared with the limit.
---
 amelie/runtime/base/buf_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/base/buf_cache.h b/amelie/runtime/base/buf_cache.h
index da40628..be7abab 100644
--- a/amelie/runtime/base/buf_cache.h
+++ b/amelie/runtime/base/buf_cache.h
@@ -56,7 +56,7 @@ buf_cache_pop(BufCache* self)
 static inline void
 buf_cache_push(BufCache* self, Buf* buf)
 {
-	if (unlikely(buf_capacity(buf)) >= self->limit_buf)
+	if (unlikely(buf_capacity(buf) >= self->limit_buf))
 	{
 		buf_free_memory(buf);
 		return;
-- 
2.43.0


From 92a737d5851aa060cd9ccc1f48107de9f8a3a7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:37 +0000
Subject: [PATCH 92/98] fix: use the pattern of every call of a regular
 expression

The pattern of the first row was used for all of them, also if it comes
from a column.
---
 amelie/vm/func/fn_regexp.c | 41 +++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/amelie/vm/func/fn_regexp.c b/amelie/vm/func/fn_regexp.c
index 85259d2..10bbe98 100644
--- a/amelie/vm/func/fn_regexp.c
+++ b/amelie/vm/func/fn_regexp.c
@@ -23,24 +23,42 @@
 #define PCRE2_CODE_UNIT_WIDTH 8
 #include <pcre2.h>
 
+typedef struct
+{
+	pcre2_code* re;
+	Str         pattern;
+} FnRegexp;
+
 static inline pcre2_code*
 fn_regexp_init(Fn* self, Str* pattern)
 {
-	pcre2_code* re = *self->context;
-	if (re)
-		return re;
+	// reuse the last pattern
+	FnRegexp* context = *self->context;
+	if (context && str_compare(&context->pattern, pattern))
+		return context->re;
+
 	int        error_number = 0;
 	PCRE2_SIZE error_offset = 0;
-	re = pcre2_compile((PCRE2_SPTR)str_of(pattern), str_size(pattern), PCRE2_UTF,
-	                   &error_number,
-	                   &error_offset, NULL);
+	auto re = pcre2_compile((PCRE2_SPTR)str_of(pattern), str_size(pattern), PCRE2_UTF,
+	                        &error_number,
+	                        &error_offset, NULL);
 	if (! re)
 	{
 		PCRE2_UCHAR msg[256];
 		pcre2_get_error_message(error_number, msg, sizeof(msg));
 		fn_error(self, "regexp: %s", msg);
 	}
-	*self->context = re;
+	if (context)
+	{
+		pcre2_code_free(context->re);
+		str_free(&context->pattern);
+	} else
+	{
+		context = am_malloc(sizeof(FnRegexp));
+		*self->context = context;
+	}
+	context->re = re;
+	str_copy(&context->pattern, pattern);
 	return re;
 }
 
@@ -49,8 +67,13 @@ fn_regexp_cleanup(Fn* self)
 {
 	if (self->action != FN_CLEANUP)
 		return false;
-	pcre2_code* re = *self->context;
-	pcre2_code_free(re);
+	FnRegexp* context = *self->context;
+	if (context)
+	{
+		pcre2_code_free(context->re);
+		str_free(&context->pattern);
+		am_free(context);
+	}
 	*self->context = NULL;
 	return true;
 }
-- 
2.43.0


From b58089caed12d84e71511767533bc4ba894dac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:37 +0000
Subject: [PATCH 93/98] fix: report a wrong replacement of regexp_replace()

Errors other than a lack of space were ignored, and memory which was never
written returned as the result.
---
 amelie/vm/func/fn_regexp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amelie/vm/func/fn_regexp.c b/amelie/vm/func/fn_regexp.c
index 10bbe98..d9d5ef6 100644
--- a/amelie/vm/func/fn_regexp.c
+++ b/amelie/vm/func/fn_regexp.c
@@ -252,6 +252,13 @@ fn_regexp_replace(Fn* self)
 			buf_reserve(buf, outlen);
 			continue;
 		}
+		if (rc < 0)
+		{
+			buf_free(buf);
+			PCRE2_UCHAR msg[256];
+			pcre2_get_error_message(rc, msg, sizeof(msg));
+			fn_error(self, "regexp: %s", msg);
+		}
 
 		buf_advance(buf, outlen);
 		break;
-- 
2.43.0


From e223c16bc6968ed7d6a1278f83265f94af73dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:37 +0000
Subject: [PATCH 94/98] fix: bounds of substr()

A negative position was taken as the start with characters behind the end
of the string added, and the count was cut to 32 bits.
---
 amelie/vm/func/fn_string.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/vm/func/fn_string.c b/amelie/vm/func/fn_string.c
index 257c5e2..2a427d4 100644
--- a/amelie/vm/func/fn_string.c
+++ b/amelie/vm/func/fn_string.c
@@ -200,21 +200,21 @@ fn_substr(Fn* self)
 	auto pos = argv[1].integer;
 
 	// position starts from 1
-	if (pos == 0)
+	if (pos <= 0)
 		fn_error_arg(self, 1, "position is out of bounds");
 	pos--;
 
-	int size = utf8_strlen(src);
+	int64_t size = utf8_strlen(src);
 	if (pos >= size)
 		fn_error_arg(self, 1, "position is out of bounds");
 
 	// (string, pos, count)
-	int count = size - pos;
+	int64_t count = size - pos;
 	if (self->argc == 3)
 	{
 		fn_expect_arg(self, 2, TYPE_INT);
 		count = argv[2].integer;
-		if ((pos + count) > size)
+		if (count > size - pos)
 			fn_error_arg(self, 2, "position is out of bounds");
 	}
 
-- 
2.43.0


From 89b8d6543c083d98c6a35090eca2b80760b47164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:37 +0000
Subject: [PATCH 95/98] fix: greatest() and least() of strings

Strings compare with any number of that sign, only 1 and -1 were seen.
---
 amelie/vm/func/fn_math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/vm/func/fn_math.c b/amelie/vm/func/fn_math.c
index 30648cb..6b778f3 100644
--- a/amelie/vm/func/fn_math.c
+++ b/amelie/vm/func/fn_math.c
@@ -549,7 +549,7 @@ fn_greatest(Fn* self)
 			max = &self->argv[i];
 			continue;
 		}
-		if (value_compare(&self->argv[i], max) == 1)
+		if (value_compare(&self->argv[i], max) > 0)
 			max = &self->argv[i];
 	}
 	if (max)
@@ -571,7 +571,7 @@ fn_least(Fn* self)
 			max = &self->argv[i];
 			continue;
 		}
-		if (value_compare(&self->argv[i], max) == -1)
+		if (value_compare(&self->argv[i], max) < 0)
 			max = &self->argv[i];
 	}
 	if (max)
-- 
2.43.0


From cdfd3747840a650ddea04329aaba85e1c7575fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:37 +0000
Subject: [PATCH 96/98] fix: mod() of the smallest integer and -1

The division overflows, which ended the process.
---
 amelie/vm/func/fn_math.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amelie/vm/func/fn_math.c b/amelie/vm/func/fn_math.c
index 6b778f3..1bbea4f 100644
--- a/amelie/vm/func/fn_math.c
+++ b/amelie/vm/func/fn_math.c
@@ -124,7 +124,10 @@ fn_mod(Fn* self)
 	fn_expect_arg(self, 1, TYPE_INT);
 	if (argv[1].integer == 0)
 		fn_error_arg(self, 1, "zero division");
-	int64_t result = argv[0].integer % argv[1].integer;
+	// the division overflows for the minimum
+	int64_t result = 0;
+	if (argv[1].integer != -1)
+		result = argv[0].integer % argv[1].integer;
 	value_set_int(self->result, result);
 }
 
-- 
2.43.0


From dd3e752cfdbbdc0e9a0f39d15b4e33f17d3b17ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:37 +0000
Subject: [PATCH 97/98] fix: check the second argument of interval_trunc()

The third one was checked, which does not exist.
---
 amelie/vm/func/fn_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/vm/func/fn_time.c b/amelie/vm/func/fn_time.c
index 9fedfd5..ae65642 100644
--- a/amelie/vm/func/fn_time.c
+++ b/amelie/vm/func/fn_time.c
@@ -179,7 +179,7 @@ fn_interval_trunc(Fn* self)
 	}
 	if (argv[0].type == TYPE_STRING)
 	{
-		fn_expect_arg(self, 2, TYPE_INTERVAL);
+		fn_expect_arg(self, 1, TYPE_INTERVAL);
 		Interval iv = argv[1].interval;
 		interval_trunc(&iv, &argv[0].string);
 		value_set_interval(self->result, &iv);
-- 
2.43.0


From 6bd3b5de841c89448100b4402d094ea0f8a81a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:29 +0000
Subject: [PATCH 98/98] fix: array index of put() and remove() beyond 32 bits

---
 amelie/vm/value/json_array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/vm/value/json_array.h b/amelie/vm/value/json_array.h
index c34ea8d..90c82cd 100644
--- a/amelie/vm/value/json_array.h
+++ b/amelie/vm/value/json_array.h
@@ -85,7 +85,7 @@ value_array_pop_back(Value* result, uint8_t* json)
 static inline void
 value_array_put(Value*   result, Timezone* tz,
                 uint8_t* json,
-                int      idx,
+                int64_t  idx,
                 Value*   value)
 {
 	json_read_array(&json);
@@ -109,14 +109,14 @@ value_array_put(Value*   result, Timezone* tz,
 
 	// extend by one
 	if (idx < 0 || idx >= i)
-		error("put: array index %d is out of bounds", idx);
+		error("put: array index %" PRIi64 " is out of bounds", idx);
 	encode_array_end(buf);
 
 	value_set_json_buf(result, buf);
 }
 
 static inline void
-value_array_remove(Value* result, uint8_t* json, int idx)
+value_array_remove(Value* result, uint8_t* json, int64_t idx)
 {
 	json_read_array(&json);
 
@@ -134,7 +134,7 @@ value_array_remove(Value* result, uint8_t* json, int idx)
 		i++;
 	}
 	if (idx < 0 || idx >= i)
-		error("remove: array index %d is out of bounds", idx);
+		error("remove: array index %" PRIi64 " is out of bounds", idx);
 	encode_array_end(buf);
 
 	value_set_json_buf(result, buf);
-- 
2.43.0

