From 4bb6d042487a7c00de94e0b64514af73f028b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 01/76] fix: Deque::containsKey() returned an int and coerced
 non-int offsets

---
 teds_deque.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/teds_deque.c b/teds_deque.c
index 41edae1..285af1a 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -837,10 +837,11 @@ PHP_METHOD(Teds_Deque, containsKey)
 		Z_PARAM_ZVAL(offset_zv)
 	ZEND_PARSE_PARAMETERS_END();
 
-	zend_long offset;
-	CONVERT_OFFSET_TO_LONG_OR_THROW(offset, offset_zv);
+	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
+		RETURN_FALSE;
+	}
 
-	RETURN_LONG(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
+	RETURN_BOOL(((zend_ulong) Z_LVAL_P(offset_zv)) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
 }
 
 static zval *teds_deque_read_dimension(zend_object *object, zval *offset_zv, int type, zval *rv)
-- 
2.43.0


From 17be559ab08f23f45376fc284cd1630c096e7223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 02/76] fix: cloning a Deque allocated fewer slots than its
 capacity (heap overflow on push)

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 285af1a..10246cd 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -245,7 +245,7 @@ static void teds_deque_entries_copy_ctor(teds_deque_entries *to, const teds_dequ
 	}
 
 	const uint32_t capacity = teds_deque_next_pow2_capacity(size);
-	to->circular_buffer = safe_emalloc(size, sizeof(zval), 0);
+	to->circular_buffer = safe_emalloc(capacity, sizeof(zval), 0);
 	to->size = size;
 	to->mask = capacity - 1;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(to, true);
-- 
2.43.0


From 92ff6b2f7174b5f99d9ee146bf31792f9b683c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 03/76] fix: Deque get_gc reported the wrong entries when the
 buffer wraps around

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 10246cd..db9cb6b 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -325,7 +325,7 @@ static HashTable* teds_deque_get_gc(zend_object *obj, zval **table, int *n)
 	}
 
 	for (uint32_t i = 0, len = offset + size - capacity; i < len; i++) {
-		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[len]);
+		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[i]);
 	}
 
 	/* This replaces table and n. */
-- 
2.43.0


From 6727d0faec2edd90b43f5628a2e605ea4c0f21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 04/76] fix: Deque::clear() forgot live iterators and allowed a
 second __construct()

---
 teds_deque.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teds_deque.c b/teds_deque.c
index db9cb6b..7e4b828 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -508,6 +508,8 @@ PHP_METHOD(Teds_Deque, clear)
 	/* Immediately make the original storage inaccessible and set count/capacity to 0 in case destructors modify the deque */
 	teds_deque_entries old_array = intern->array;
 	memset(&intern->array, 0, sizeof(intern->array));
+	intern->array.circular_buffer = (zval *)empty_entry_list;
+	intern->array.active_iterators = old_array.active_iterators;
 	teds_deque_entries_dtor(&old_array);
 	if (intern->std.properties) {
 		zend_hash_clean(intern->std.properties);
-- 
2.43.0


From 6b053501759b997ace80d5e3d3399467e2229e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:39 +0000
Subject: [PATCH 05/76] fix: BitVector::indexOf() and contains() read one byte
 past the end of a full buffer

---
 teds_bitvector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 859518a..0556001 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -993,6 +993,9 @@ PHP_METHOD(Teds_BitVector, indexOf)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		RETURN_NULL();
+	}
 	// TODO: builtin_clz?
 	uint8_t v = entries_bits[i >> 3] + value;
 	while (i < len) {
@@ -1035,6 +1038,9 @@ PHP_METHOD(Teds_BitVector, contains)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		RETURN_FALSE;
+	}
 	const uint8_t v = entries_bits[i >> 3] + value;
 	RETURN_BOOL(v & ((1 << (len & 7)) - 1));
 }
-- 
2.43.0


From 7388648ba0e90bb22a8f8cec5aaf5624e4957199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:08 +0000
Subject: [PATCH 06/76] fix: IntVector::popFront() moved the wrong number of
 bytes

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 8430c46..6691dc6 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2301,7 +2301,7 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	array->size--;
-	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element + (old_size - 1));
+	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
 		const size_t size = old_size - 1;
-- 
2.43.0


From 4d353d84e69d65feb901d29bc3770e9c47f1dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:37 +0000
Subject: [PATCH 07/76] fix: LowMemoryVector::set() at an invalid offset
 changed the representation before throwing

---
 teds_lowmemoryvector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f972d4e..d1315fe 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1436,14 +1436,13 @@ PHP_METHOD(Teds_LowMemoryVector, contains)
 }
 
 static void teds_lowmemoryvector_entries_set_value_at_offset(teds_lowmemoryvector_entries *array, zend_long offset, const zval *value, bool is_update) {
-	if (is_update) {
-		teds_lowmemoryvector_entries_update_type_tag(array, value);
-	}
-
 	if (UNEXPECTED(!teds_offset_within_size_t(offset, array->size))) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (is_update) {
+		teds_lowmemoryvector_entries_update_type_tag(array, value);
+	}
 	switch (array->type_tag) {
 		case LMV_TYPE_BOOL_OR_NULL: {
 			array->entries_uint8[offset] = teds_lowmemoryvector_entries_get_type(value);
-- 
2.43.0


From ac3fabd45bec85c1d5d1af081f38f74d0746bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:15 +0000
Subject: [PATCH 08/76] fix: compact vectors freed a static buffer (or leaked)
 when converting an empty representation

---
 teds_intvector.c       |  7 ++++---
 teds_lowmemoryvector.c | 25 +++++++++++++------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 6691dc6..a3c6be0 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1796,6 +1796,9 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 #define TEDS_INTVECTOR_PROMOTE_INT_TYPE_AND_RETURN(int_smaller, entries_smaller, int_larger, entries_larger, TEDS_INTVECTOR__TYPE_LARGER) do { \
 		ZEND_ASSERT(sizeof(int_smaller) < sizeof(int_larger)); \
 		array->type_tag = TEDS_INTVECTOR__TYPE_LARGER; \
+		if (array->capacity == 0) { \
+			return; \
+		} \
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
@@ -1808,9 +1811,7 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
-			teds_intvector_efree_byte_array(original_entries); \
-		} \
+		teds_intvector_efree_byte_array(original_entries); \
 		return; \
 	} while (0)
 
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index d1315fe..662410a 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -86,6 +86,9 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 #define TEDS_LMV_PROMOTE_INT_TYPE_AND_RETURN(int_smaller, entries_smaller, int_larger, entries_larger, TEDS_LMV__TYPE_LARGER) do { \
 		ZEND_ASSERT(sizeof(int_smaller) < sizeof(int_larger)); \
 		array->type_tag = TEDS_LMV__TYPE_LARGER; \
+		if (array->capacity == 0) { \
+			return; \
+		} \
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
@@ -98,9 +101,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
-			efree(original_entries); \
-		} \
+		efree(original_entries); \
 		return; \
 	} while (0)
 
@@ -1596,6 +1597,9 @@ static void teds_lowmemoryvector_entries_init_type_tag(teds_lowmemoryvector_entr
 
 static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_to_zval(teds_lowmemoryvector_entries *array) {
 	array->type_tag = LMV_TYPE_ZVAL;
+	if (array->capacity == 0) {
+		return;
+	}
 	uint8_t *const original_types = array->entries_uint8;
 	const uint8_t *src = original_types;
 	const size_t size = array->size;
@@ -1608,15 +1612,15 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	for (; dst < end; dst++, src++) {
 		teds_lowmemoryvector_entries_set_type(dst, *src);
 	}
-	if (array->capacity > 0) {
-		efree(original_types);
-	}
-	return;
+	efree(original_types);
 }
 
 static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zval(teds_lowmemoryvector_entries *array)
 {
 	array->type_tag = LMV_TYPE_ZVAL;
+	if (array->capacity == 0) {
+		return;
+	}
 	double *const original_entries = array->entries_double;
 	const double *src = original_entries;
 	const size_t size = array->size;
@@ -1629,9 +1633,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	for (; dst < end; dst++, src++) {
 		ZVAL_DOUBLE(dst, *src);
 	}
-	if (array->capacity > 0) {
-		efree(original_entries);
-	}
+	efree(original_entries);
 }
 
 #define TEDS_RETURN_IF_LVAL_FITS_IN_TYPE(intx_t) do {  \
@@ -1644,9 +1646,8 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	const intx_t *src = original_entries; \
 	const uint32_t size = array->size; \
 	const uint32_t old_capacity = array->capacity; \
-	const uint32_t capacity = old_capacity >= 4 ? old_capacity : 4; \
-	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0); \
 	if (old_capacity > 0) { \
+		zval *const entries_zval = safe_emalloc(old_capacity, sizeof(zval), 0); \
 		const zval *const end = entries_zval + size; \
 		zval *dst = entries_zval; \
 		array->entries_zval = entries_zval; \
-- 
2.43.0


From 5b07e15d130d90fc77244eb6d4f79c197fc9a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:35 +0000
Subject: [PATCH 09/76] fix: StrictHashSet/StrictHashMap iteration ended at
 once after removing the first entry, and skipped or repeated entries after
 removals

---
 teds_stricthashmap.c | 53 ++++++++++++++++++++++----------------------
 teds_stricthashset.c | 53 ++++++++++++++++++++++----------------------
 2 files changed, 52 insertions(+), 54 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 7570ebc..3cf927a 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -380,34 +380,37 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
-		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
-			continue;
-		}
-		// old_position < nNumUsed
-		uint32_t new_current = (uint32_t) -1;
-		for (uint32_t i = 0; i <= old_position; i++) {
-			if (!Z_ISUNDEF(entries[i].key)) {
-				new_current++;
+		if (old_position < nNumUsed) {
+			uint32_t new_current = (uint32_t) -1;
+			for (uint32_t i = 0; i <= old_position; i++) {
+				if (!Z_ISUNDEF(entries[i].key)) {
+					new_current++;
+				}
 			}
+			// fprintf(stderr, "new_current=%d\n", new_current);
+			it->current = new_current;
+			ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
+		} else if (old_position != (uint32_t) -1) {
+			it->current = array->nNumOfElements;
 		}
-		// fprintf(stderr, "new_current=%d\n", new_current);
-		it->current = new_current;
-		ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
 
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
 }
 
-static void teds_stricthashmap_iterators_shift_to_new_end(teds_stricthashmap_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
+/* Move iterators pointing to the removed entry to the previous entry, which may be before the start of the data (in which case calling next() would make it valid again).
+ * Iterators which were past the end stay past the end. */
+static void teds_stricthashmap_iterators_adjust_after_remove(teds_stricthashmap_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
 {
 	const uint32_t nNumUsed = array->nNumUsed;
-	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current == removed_idx) {
+			do {
+				it->current--;
+			} while (it->current != (uint32_t) -1 && Z_ISUNDEF(array->arData[it->current].key));
+		} else if (it->current > nNumUsed && it->current != (uint32_t) -1) {
+			it->current = nNumUsed;
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -746,7 +749,7 @@ static void teds_stricthashmap_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashmap_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashmap_it*)iter)->current = 0;
+	((teds_stricthashmap_it*)iter)->current = Z_STRICTHASHMAP_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashmap_it_valid(zend_object_iterator *iter)
@@ -813,12 +816,9 @@ static void teds_stricthashmap_it_move_forward(zend_object_iterator *iter)
 		it->current = array->nNumUsed;
 	} else {
 		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
@@ -1163,10 +1163,9 @@ static bool teds_stricthashmap_entries_remove_key(teds_stricthashmap_entries *ar
 		do {
 			array->nNumUsed--;
 		} while (array->nNumUsed > 0 && (UNEXPECTED(Z_TYPE(array->arData[array->nNumUsed-1].key) == IS_UNDEF)));
-
-		if (UNEXPECTED(array->active_iterators.first)) {
-			teds_stricthashmap_iterators_shift_to_new_end(array, array->active_iterators.first, idx);
-		}
+	}
+	if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashmap_iterators_adjust_after_remove(array, array->active_iterators.first, idx);
 	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 4ff33ea..79bbfa8 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -346,34 +346,37 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
-		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
-			continue;
-		}
-		// old_position < nNumUsed
-		uint32_t new_current = (uint32_t) -1;
-		for (uint32_t i = 0; i <= old_position; i++) {
-			if (!Z_ISUNDEF(entries[i].key)) {
-				new_current++;
+		if (old_position < nNumUsed) {
+			uint32_t new_current = (uint32_t) -1;
+			for (uint32_t i = 0; i <= old_position; i++) {
+				if (!Z_ISUNDEF(entries[i].key)) {
+					new_current++;
+				}
 			}
+			// fprintf(stderr, "new_current=%d\n", new_current);
+			it->current = new_current;
+			ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
+		} else if (old_position != (uint32_t) -1) {
+			it->current = array->nNumOfElements;
 		}
-		// fprintf(stderr, "new_current=%d\n", new_current);
-		it->current = new_current;
-		ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
 
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
 }
 
-static void teds_stricthashset_iterators_shift_to_new_end(teds_stricthashset_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
+/* Move iterators pointing to the removed entry to the previous entry, which may be before the start of the data (in which case calling next() would make it valid again).
+ * Iterators which were past the end stay past the end. */
+static void teds_stricthashset_iterators_adjust_after_remove(teds_stricthashset_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
 {
 	const uint32_t nNumUsed = array->nNumUsed;
-	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current == removed_idx) {
+			do {
+				it->current--;
+			} while (it->current != (uint32_t) -1 && Z_ISUNDEF(array->arData[it->current].key));
+		} else if (it->current > nNumUsed && it->current != (uint32_t) -1) {
+			it->current = nNumUsed;
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -707,7 +710,7 @@ static void teds_stricthashset_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashset_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashset_it*)iter)->current = 0;
+	((teds_stricthashset_it*)iter)->current = Z_STRICTHASHSET_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashset_it_valid(zend_object_iterator *iter)
@@ -774,12 +777,9 @@ static void teds_stricthashset_it_move_forward(zend_object_iterator *iter)
 		it->current = array->nNumUsed;
 	} else {
 		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
@@ -966,10 +966,9 @@ static bool teds_stricthashset_entries_remove_key(teds_stricthashset_entries *ar
 		do {
 			array->nNumUsed--;
 		} while (array->nNumUsed > 0 && (UNEXPECTED(Z_TYPE(array->arData[array->nNumUsed-1].key) == IS_UNDEF)));
-
-		if (UNEXPECTED(array->active_iterators.first)) {
-			teds_stricthashset_iterators_shift_to_new_end(array, array->active_iterators.first, idx);
-		}
+	}
+	if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashset_iterators_adjust_after_remove(array, array->active_iterators.first, idx);
 	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
-- 
2.43.0


From eca8cffa4f1479c56719bcf545634571351a5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:12 +0000
Subject: [PATCH 10/76] fix: tree map/set removal broke the red-black invariant
 when the successor had a child (crash or lost balance)

---
 teds_stricttreemap.c | 4 ++++
 teds_stricttreeset.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 89efe4f..144a5d9 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1191,6 +1191,10 @@ static zend_always_inline teds_stricttreemap_node *teds_stricttreemap_node_remov
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREEMAP_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
 			node->right = NULL;
+			/* The red child takes over the black color of the removed node, so that no path loses a black node.
+			 * The removed node itself is given the color of the node that it replaces by the caller. */
+			TEDS_STRICTTREEMAP_NODE_COLOR(right) = TEDS_STRICTTREEMAP_NODE_COLOR(node);
+			TEDS_STRICTTREEMAP_NODE_COLOR(node) = TEDS_NODE_RED;
 		}
 		if (parent->left == node) {
 			parent->left = right;
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 748c478..713bb1c 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -999,6 +999,10 @@ static zend_always_inline teds_stricttreeset_node *teds_stricttreeset_node_remov
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREESET_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
 			node->right = NULL;
+			/* The red child takes over the black color of the removed node, so that no path loses a black node.
+			 * The removed node itself is given the color of the node that it replaces by the caller. */
+			TEDS_STRICTTREESET_NODE_COLOR(right) = TEDS_STRICTTREESET_NODE_COLOR(node);
+			TEDS_STRICTTREESET_NODE_COLOR(node) = TEDS_NODE_RED;
 		}
 		if (parent->left == node) {
 			parent->left = right;
-- 
2.43.0


From 68fe7d25d7148f01c6c9d53c4ecb6dafbcbc38b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:44 +0000
Subject: [PATCH 11/76] fix: cloning a StrictTreeMap/StrictTreeSet lost the
 node colors, later removals could crash

---
 teds_stricttreemap.c | 1 +
 teds_stricttreeset.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 144a5d9..75f001b 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -458,6 +458,7 @@ cleanup_iter:
 static teds_stricttreemap_node *teds_stricttreemap_node_copy_ctor_recursive(const teds_stricttreemap_node *from, teds_stricttreemap_node *parent, teds_stricttreemap_node *left_parent_node, teds_stricttreemap_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreemap_node *copy = teds_stricttreemap_node_alloc(&from->key, &from->value, parent);
+	TEDS_STRICTTREEMAP_NODE_COLOR(copy) = TEDS_STRICTTREEMAP_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreemap_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 713bb1c..a5a490c 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -426,6 +426,7 @@ cleanup_iter:
 static teds_stricttreeset_node *teds_stricttreeset_node_copy_ctor_recursive(const teds_stricttreeset_node *from, teds_stricttreeset_node *parent, teds_stricttreeset_node *left_parent_node, teds_stricttreeset_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreeset_node *copy = teds_stricttreeset_node_alloc(&from->key, parent);
+	TEDS_STRICTTREESET_NODE_COLOR(copy) = TEDS_STRICTTREESET_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreeset_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
-- 
2.43.0


From 0e23bc84ba108181c3dcadda324806c540e7b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:56 +0000
Subject: [PATCH 12/76] fix: unserializing an empty StrictTreeMap read past an
 empty buffer

---
 teds_stricttreemap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 75f001b..a6176cf 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -859,6 +859,9 @@ PHP_METHOD(Teds_StrictTreeMap, __unserialize)
 	}
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
+	if (raw_size == 0) {
+		return;
+	}
 
 	zend_string *str;
 	zval key;
-- 
2.43.0


From a64878ceade11451378f8089a697c2052cf8f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:32 +0000
Subject: [PATCH 13/76] fix: StrictMaxHeap::__set_state() returned a
 StrictMinHeap

---
 teds_strictheap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 38456fa..1b5bd16 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -450,9 +450,9 @@ PHP_METHOD(Teds_StrictMaxHeap, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_strictheap_new(teds_ce_StrictMinHeap);
+	zend_object *object = teds_strictheap_new(teds_ce_StrictMaxHeap);
 	teds_strictheap *intern = teds_strictheap_from_object(object);
-	teds_strictheap_entries_init_from_array(&intern->array, array_ht, true);
+	teds_strictheap_entries_init_from_array(&intern->array, array_ht, false);
 
 	RETURN_OBJ(object);
 }
-- 
2.43.0


From 8a12cd2bbf7fc4d6b158dc9c6f133ac98a4aff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:01 +0000
Subject: [PATCH 14/76] fix: StrictMinHeap/StrictMaxHeap removal used a
 different parent/child layout than insertion, yielding elements out of order

---
 teds_strictheap.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 1b5bd16..8eeb356 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -467,16 +467,18 @@ static zend_always_inline void teds_strictheap_entries_remove_top(teds_stricthea
 	zval *replacement = &entries[len];
 	uint32_t offset = 0;
 
-	/*    0
-	 *  1   2
-	 * 3 4 5 6 */
+	/* The parent of a node is at offset/2, as in teds_strictheap_entries_insert().
+	 *      0
+	 *      1
+	 *   2     3
+	 * 4   5 6   7 */
 	while (true) {
-		uint32_t new_offset = offset * 2 + 1;
+		uint32_t new_offset = offset > 0 ? offset * 2 : 1;
 		if (new_offset >= len) {
 			break;
 		}
 		zval *new_entry = &entries[new_offset];
-		if (new_offset + 1 < len) {
+		if (offset > 0 && new_offset + 1 < len) {
 			if (teds_strictheap_should_be_above(new_entry + 1, new_entry, is_min_heap)) {
 				new_offset++;
 				new_entry++;
-- 
2.43.0


From c38da3931e9313608d3fa788010c457a851dfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:14 +0000
Subject: [PATCH 15/76] fix: cloning an ImmutableSortedStringSet left the
 substring table unset (crash on use)

---
 teds_immutablesortedstringset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 1482d43..f3878f9 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -244,9 +244,10 @@ static void teds_immutablesortedstringset_entries_copy_ctor(teds_immutablesorted
 		return;
 	}
 
-	/* FIXME copy the entry instead */
 	to->size = from->size;
 	to->raw_bytes = from->raw_bytes;
+	to->substring_infos = safe_emalloc(size, sizeof(teds_immutablesortedstringset_substring_info), 0);
+	memcpy(to->substring_infos, from->substring_infos, size * sizeof(teds_immutablesortedstringset_substring_info));
 	zend_string *str = teds_immutablesortedstringset_entries_get_backing_zend_string(from);
 	if (str) {
 		zend_string_addref(str);
-- 
2.43.0


From 5372e75ada812ab458951c9d099f3c662b8e48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:14 +0000
Subject: [PATCH 16/76] fix: ImmutableSortedStringSet used strings of a
 Traversable after the iterator released them

---
 teds_immutablesortedstringset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index f3878f9..507ec0e 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -215,7 +215,8 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 				raw_zend_strings = emalloc(capacity * sizeof(zend_string *));
 			}
 		}
-		raw_zend_strings[size++] = value;
+		/* The iterator may release the value when it moves forward */
+		raw_zend_strings[size++] = zend_string_copy(value);
 
 		iter->index++;
 		funcs->move_forward(iter);
@@ -229,6 +230,9 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 
 cleanup:
 	if (raw_zend_strings) {
+		for (uint32_t i = 0; i < size; i++) {
+			zend_string_release(raw_zend_strings[i]);
+		}
 		efree(raw_zend_strings);
 	}
 	if (iter) {
-- 
2.43.0


From 20008f95a5ec8192f883471aa49abbe7c373e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:14 +0000
Subject: [PATCH 17/76] fix: iterating over an ImmutableSortedStringSet leaked
 every string

---
 teds_immutablesortedstringset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 507ec0e..1f957a7 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -405,6 +405,7 @@ PHP_METHOD(Teds_ImmutableSortedStringSet, getIterator)
 
 static void teds_immutablesortedstringset_it_dtor(zend_object_iterator *iter)
 {
+	zval_ptr_dtor(&((teds_immutablesortedstringset_it*)iter)->tmp);
 	zval_ptr_dtor(&iter->data);
 }
 
@@ -434,6 +435,8 @@ static zval *teds_immutablesortedstringset_it_get_current_data(zend_object_itera
 		teds_throw_invalid_sequence_index_exception();
 		return &EG(uninitialized_zval);
 	}
+	/* Release the string created by the previous call */
+	zval_ptr_dtor(&iterator->tmp);
 	return teds_immutablesortedstringset_entries_read_offset(array, iterator->current, &iterator->tmp);
 }
 
@@ -484,6 +487,7 @@ zend_object_iterator *teds_immutablesortedstringset_get_iterator(zend_class_entr
 	zend_iterator_init((zend_object_iterator*)iterator);
 
 	ZVAL_OBJ_COPY(&iterator->intern.data, Z_OBJ_P(object));
+	ZVAL_UNDEF(&iterator->tmp);
 	iterator->intern.funcs = &teds_immutablesortedstringset_it_funcs;
 
 	return &iterator->intern;
-- 
2.43.0


From 9845a842a2397e1e553202887977522118c47f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:14 +0000
Subject: [PATCH 18/76] fix: ImmutableSortedStringSet unserialize leaked its
 table on malformed lengths

---
 teds_immutablesortedstringset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 1f957a7..8e40dd6 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -530,6 +530,7 @@ not_enough_data:
 		/* it and num_strings are read and moved by reference */
 		if (!teds_serialize_read_variable_len_size(&it, end, &substr_len)) {
 			ZEND_ASSERT(EG(exception));
+			efree(substring_infos);
 			return;
 		}
 		// fprintf(stderr, "substr_len=%d end=%p it=%p end-it=%d\n", substr_len, end, it, (int)(end-it));
-- 
2.43.0


From 1a653e96038a1fbad23dbe022c301a500b7aad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 19/76] fix: SortedIntVectorSet::indexOf() returned false
 instead of null for values wider than the representation

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index a3c6be0..e26f16e 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1619,7 +1619,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, indexOf)
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: { \
 			const intx_t target = value; \
-			if (target != value) { RETURN_FALSE; } \
+			if (target != value) { RETURN_NULL(); } \
 			const intx_t *const entries = array->entries_intx; \
 			const intx_t *start = entries; \
 			const intx_t *end = start + len; \
-- 
2.43.0


From 6a3658274f7e67c84dfc7d25aa4dceda27b864fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 20/76] fix: SortedIntVectorSet::add()/remove() did not adjust
 live iterators

---
 teds_intvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index e26f16e..17e3487 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1950,6 +1950,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_add(teds_intvecto
 				else { return false; /* Already exists */ } \
 			} \
 			/* The value at *start is > target */ \
+			teds_intvector_maybe_adjust_iterators_before_insert(array, start - entries, 1); \
 			memmove(start + 1, start, (entries + old_size - start) * sizeof(intx_t)); \
 			*start = target; \
 			break; \
@@ -1981,6 +1982,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_remove(teds_intve
 				if (target < *mid) { end = mid; }  \
 				else if (target > *mid) { start = mid + 1; }  \
 				else { \
+					teds_intvector_maybe_adjust_iterators_before_remove(array, mid - entries); \
 					memmove(mid, mid + 1, (entries + old_size - (mid + 1)) * sizeof(intx_t)); \
 					goto after_remove; \
 				} \
-- 
2.43.0


From fb9d9059ecfe11c126144fe374a0b4cf6d4d3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 21/76] fix: cloning an ImmutableSortedIntSet created an object
 without its storage (memory corruption)

---
 teds_intvector.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 17e3487..8b56545 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -482,7 +482,7 @@ static zend_object *teds_sortedintvectorset_new(zend_class_entry *class_type)
 	return teds_sortedintvectorset_new_ex(class_type, NULL, 0);
 }
 
-static zend_object *teds_immutablesortedintset_new(zend_class_entry *class_type)
+static zend_object *teds_immutablesortedintset_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
 {
 	teds_intvector *intern;
 
@@ -494,12 +494,22 @@ static zend_object *teds_immutablesortedintset_new(zend_class_entry *class_type)
 	object_properties_init(&intern->std, class_type);
 	intern->std.handlers = &teds_handler_ImmutableSortedIntSet;
 
-	intern->array.entries_raw = NULL;
-	intern->array.type_tag = TEDS_INTVECTOR_TYPE_UNINITIALIZED;
+	if (orig && clone_orig) {
+		teds_intvector *other = teds_intvector_from_object(orig);
+		teds_intvector_entries_copy_ctor(&intern->array, &other->array);
+	} else {
+		intern->array.entries_raw = NULL;
+		intern->array.type_tag = TEDS_INTVECTOR_TYPE_UNINITIALIZED;
+	}
 
 	return &intern->std;
 }
 
+static zend_object *teds_immutablesortedintset_new(zend_class_entry *class_type)
+{
+	return teds_immutablesortedintset_new_ex(class_type, NULL, 0);
+}
+
 static zend_object *teds_intvector_clone(zend_object *old_object)
 {
 	zend_object *new_object = teds_intvector_new_ex(old_object->ce, old_object, 1);
@@ -518,6 +528,15 @@ static zend_object *teds_sortedintvectorset_clone(zend_object *old_object)
 	return new_object;
 }
 
+static zend_object *teds_immutablesortedintset_clone(zend_object *old_object)
+{
+	zend_object *new_object = teds_immutablesortedintset_new_ex(old_object->ce, old_object, 1);
+
+	teds_assert_object_has_empty_member_list(new_object);
+
+	return new_object;
+}
+
 static TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_intvector_count_elements(zend_object *object, zend_long *count)
 {
 	const teds_intvector *intern = teds_intvector_from_object(object);
@@ -2467,7 +2486,7 @@ PHP_MINIT_FUNCTION(teds_intvector)
 	memcpy(&teds_handler_ImmutableSortedIntSet, &std_object_handlers, sizeof(zend_object_handlers));
 
 	teds_handler_ImmutableSortedIntSet.offset          = XtOffsetOf(teds_intvector, std);
-	// teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
+	teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
 	teds_handler_ImmutableSortedIntSet.count_elements  = teds_intvector_count_elements;
 	teds_handler_ImmutableSortedIntSet.get_properties_for = teds_intvector_get_properties_for;
 	teds_handler_ImmutableSortedIntSet.get_gc          = teds_intvector_get_gc;
-- 
2.43.0


From 241b0ff065d0da819ba5ed64969a368eca2b0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 22/76] fix:
 SortedIntVectorSet/ImmutableSortedIntSet::__set_state() created objects of
 class IntVector

---
 teds_intvector.c         | 18 +++++++++++++++++-
 teds_intvector.stub.php  |  3 +--
 teds_intvector_arginfo.h |  7 +++++--
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 8b56545..2cb124b 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1380,7 +1380,23 @@ PHP_METHOD(Teds_SortedIntVectorSet, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_sortedintvectorset_new(teds_ce_IntVector);
+	zend_object *object = teds_sortedintvectorset_new(teds_ce_SortedIntVectorSet);
+	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
+	teds_intvector_entries_init_from_array_values(array, array_ht);
+
+	teds_intvector_entries_sort_and_deduplicate(array);
+
+	RETURN_OBJ(object);
+}
+
+PHP_METHOD(Teds_ImmutableSortedIntSet, __set_state)
+{
+	zend_array *array_ht;
+
+	ZEND_PARSE_PARAMETERS_START(1, 1)
+		Z_PARAM_ARRAY_HT(array_ht)
+	ZEND_PARSE_PARAMETERS_END();
+	zend_object *object = teds_immutablesortedintset_new(teds_ce_ImmutableSortedIntSet);
 	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
 	teds_intvector_entries_init_from_array_values(array, array_ht);
 
diff --git a/teds_intvector.stub.php b/teds_intvector.stub.php
index b8d0412..ea5144f 100644
--- a/teds_intvector.stub.php
+++ b/teds_intvector.stub.php
@@ -197,7 +197,7 @@ final class SortedIntVectorSet implements \IteratorAggregate, Set, \JsonSerializ
     /**
      * Create a SortedIntVectorSet of unique values from an array
      */
-    public static function __set_state(array $array): IntVector {}
+    public static function __set_state(array $array): SortedIntVectorSet {}
 
     /**
      * @throws \UnderflowException if there are no more elements
@@ -311,7 +311,6 @@ final class ImmutableSortedIntSet implements \IteratorAggregate, Set, \JsonSeria
 
     /**
      * Create an ImmutableSortedIntSet of unique integers from an array
-     * @implementation-alias Teds\SortedIntVectorSet::__set_state
      */
     public static function __set_state(array $array): ImmutableSortedIntSet {}
 
diff --git a/teds_intvector_arginfo.h b/teds_intvector_arginfo.h
index ab69827..1b2d9e6 100644
--- a/teds_intvector_arginfo.h
+++ b/teds_intvector_arginfo.h
@@ -125,7 +125,9 @@ ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet___unserialize arginfo_class_Teds_IntVector___unserialize
 
-#define arginfo_class_Teds_SortedIntVectorSet___set_state arginfo_class_Teds_IntVector___set_state
+ZEND_BEGIN_ARG_WITH_RETURN_OBJ_INFO_EX(arginfo_class_Teds_SortedIntVectorSet___set_state, 0, 1, Teds\\SortedIntVectorSet, 0)
+	ZEND_ARG_TYPE_INFO(0, array, IS_ARRAY, 0)
+ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet_pop arginfo_class_Teds_IntVector_count
 
@@ -223,6 +225,7 @@ ZEND_METHOD(Teds_IntVector, contains);
 ZEND_METHOD(Teds_SortedIntVectorSet, __construct);
 ZEND_METHOD(Teds_SortedIntVectorSet, __unserialize);
 ZEND_METHOD(Teds_SortedIntVectorSet, __set_state);
+ZEND_METHOD(Teds_ImmutableSortedIntSet, __set_state);
 ZEND_METHOD(Teds_SortedIntVectorSet, add);
 ZEND_METHOD(Teds_SortedIntVectorSet, remove);
 ZEND_METHOD(Teds_SortedIntVectorSet, indexOf);
@@ -305,7 +308,7 @@ static const zend_function_entry class_Teds_ImmutableSortedIntSet_methods[] = {
 	ZEND_MALIAS(Teds_IntVector, isEmpty, isEmpty, arginfo_class_Teds_ImmutableSortedIntSet_isEmpty, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, __serialize, arginfo_class_Teds_ImmutableSortedIntSet___serialize, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, __unserialize, arginfo_class_Teds_ImmutableSortedIntSet___unserialize, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_SortedIntVectorSet, __set_state, __set_state, arginfo_class_Teds_ImmutableSortedIntSet___set_state, ZEND_ACC_PUBLIC|ZEND_ACC_STATIC)
+	ZEND_ME(Teds_ImmutableSortedIntSet, __set_state, arginfo_class_Teds_ImmutableSortedIntSet___set_state, ZEND_ACC_PUBLIC|ZEND_ACC_STATIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, add, arginfo_class_Teds_ImmutableSortedIntSet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_ImmutableSortedIntSet, remove, add, arginfo_class_Teds_ImmutableSortedIntSet_remove, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, clear, arginfo_class_Teds_ImmutableSortedIntSet_clear, ZEND_ACC_PUBLIC)
-- 
2.43.0


From 174324f1e462a3f935e93be248e6f384c315861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:22 +0000
Subject: [PATCH 23/76] fix: IntVector and the sorted int sets accepted invalid
 type tags when unserializing (undefined behaviour)

---
 teds_intvector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 2cb124b..f05f6a0 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1107,7 +1107,7 @@ PHP_METHOD(Teds_IntVector, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\IntVector unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1151,7 +1151,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\SortedIntVectorSet unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1203,7 +1203,7 @@ PHP_METHOD(Teds_ImmutableSortedIntSet, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\ImmutableSortedIntSet unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1244,9 +1244,15 @@ PHP_METHOD(Teds_IntVector, unserialize)
 	} else {
 		if (len < 2) {
 			zend_throw_exception(spl_ce_RuntimeException, "IntVector::unserialize expected at least 2 bytes", 0);
+			zend_object_release(new_object);
 			RETURN_THROWS();
 		}
 		const uint8_t type_tag = ZSTR_VAL(zstr)[len - 1];
+		if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\IntVector unserialize got unsupported type tag %d", (int)type_tag);
+			zend_object_release(new_object);
+			RETURN_THROWS();
+		}
 		teds_intvector_entries_unserialize_from_string(array, ZSTR_VAL(zstr), len - 1, type_tag);
 	}
 	RETURN_OBJ(new_object);
-- 
2.43.0


From b9b68fdfa75e075836d3589ee5b9202625fb1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:22 +0000
Subject: [PATCH 24/76] fix: unserializing an empty binary string into
 IntVector and the sorted int sets leaked, and a bad length left a type tag
 behind

---
 teds_intvector.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index f05f6a0..26a88be 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -937,7 +937,6 @@ zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *ob
 static void teds_intvector_entries_unserialize_from_string(teds_intvector_entries *array, const char *strval, const size_t str_byte_length, const uint8_t type_tag)
 {
 	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -953,7 +952,12 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "IntVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
+			array->type_tag = type_tag;
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
 			array->capacity = num_elements;
@@ -1002,7 +1006,6 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intvector_entries *array, zend_string *src_str, const uint8_t type_tag)
 {
 	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -1019,9 +1022,13 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "ImmutableSortedIntSet Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
+			array->type_tag = type_tag;
 			array->size = num_elements;
 			array->capacity = num_elements;
-			/* FIXME assert result is sorted */
 #ifdef WORDS_BIGENDIAN
 			/* TODO: Can probably optimize this with C restrict keyword to indicate memory doesn't overlap? */
 			if (type_tag != TEDS_INTVECTOR_TYPE_INT8) {
-- 
2.43.0


From 93fc735d9a51bf92969935f9596295b8d7121987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:22 +0000
Subject: [PATCH 25/76] fix: SortedIntVectorSet/ImmutableSortedIntSet kept
 unsorted contents after rejecting them in __unserialize()

---
 teds_intvector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 26a88be..7828b69 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1179,9 +1179,10 @@ PHP_METHOD(Teds_SortedIntVectorSet, __unserialize)
 	}
 	if (!teds_intvector_entries_is_sorted(type_tag, array->entries_uint8, array->size)) {
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\SortedIntVectorSet expected sorted values in __unserialize", 0);
+		efree(array->entries_raw);
+		teds_intvector_entries_set_empty_list(array);
 		RETURN_THROWS();
 	}
-	/* FIXME Throw if not sorted */
 }
 
 PHP_METHOD(Teds_ImmutableSortedIntSet, __unserialize)
@@ -1231,9 +1232,10 @@ PHP_METHOD(Teds_ImmutableSortedIntSet, __unserialize)
 	}
 	if (!teds_intvector_entries_is_sorted(type_tag, array->entries_uint8, array->size)) {
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\ImmutableSortedIntSet expected sorted values in __unserialize", 0);
+		teds_immutablesortedintset_entries_clear(array);
+		teds_intvector_entries_set_empty_list(array);
 		RETURN_THROWS();
 	}
-	/* FIXME Throw if not sorted */
 }
 
 PHP_METHOD(Teds_IntVector, unserialize)
-- 
2.43.0


From b6c9c59c7fbf3b53302d7ffa48b6ac0249104a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:20 +0000
Subject: [PATCH 26/76] fix: CachedIterable::toPairs() returned only the
 elements fetched before the call

---
 teds_cachediterable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 7a6aa51..2874707 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -972,12 +972,12 @@ PHP_METHOD(Teds_CachedIterable, contains)
 
 static void teds_cachediterable_entries_return_pairs(zval *return_value, teds_cachediterable_entries *array)
 {
+	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
+
 	const uint32_t len = array->size;
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
-
 	zval_pair *entries = array->entries;
 	RETURN_ARR(teds_zval_pairs_to_refcounted_pairs(entries, len));
 }
-- 
2.43.0


From 6867f764b42d6869678d3a5bd27222da0e1a4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:21 +0000
Subject: [PATCH 27/76] fix:
 CachedIterable::indexOfKey()/indexOfValue()/containsKey()/contains() compared
 every newly fetched element as if it were the first

---
 teds_cachediterable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 2874707..2fbbdd0 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -876,6 +876,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -906,6 +907,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfValue)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -936,6 +938,7 @@ PHP_METHOD(Teds_CachedIterable, containsKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
@@ -966,6 +969,7 @@ PHP_METHOD(Teds_CachedIterable, contains)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From d56c826a3f17212754602d472ce516235b965ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:23 +0000
Subject: [PATCH 28/76] fix: count($cachedIterable) counted only the elements
 fetched so far, unlike CachedIterable::count()

---
 teds_cachediterable.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 2fbbdd0..9fd2a2c 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -416,8 +416,16 @@ static zend_object *teds_cachediterable_new(zend_class_entry *class_type)
 
 TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_size_t_count_elements(zend_object *object, zend_long *count)
 {
-	const teds_cachediterable *intern = teds_cachediterable_from_object(object);
-	*count = intern->array.size;
+	teds_cachediterable_entries *array = &teds_cachediterable_from_object(object)->array;
+	if (array->iter) {
+		teds_cachediterable_entries_fetch_all(array);
+	} else if (UNEXPECTED(array->end_exception)) {
+		teds_cachediterable_entries_throw_end_exception(array);
+	}
+	if (UNEXPECTED(EG(exception))) {
+		return FAILURE;
+	}
+	*count = array->size;
 	return SUCCESS;
 }
 
-- 
2.43.0


From f4f62f1eafdabf8fddc132875c373b48cbe3c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:25 +0000
Subject: [PATCH 29/76] fix: CachedIterable looped forever when its source
 re-entered an operation that fetches all elements

---
 teds_cachediterable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 9fd2a2c..523cf58 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -242,7 +242,9 @@ handle_exception:
 static zend_always_inline void teds_cachediterable_entries_fetch_all(teds_cachediterable_entries *array)
 {
 	while (array->iter) {
-		teds_cachediterable_entries_lazy_fetch_next(array);
+		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
+			break;
+		}
 	}
 }
 
-- 
2.43.0


From 239b840f0b8627e3e0c15d6504bb2280b9ede86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:26 +0000
Subject: [PATCH 30/76] fix: CachedIterable read an uninitialized key when
 key() threw, and a stale value when key() changed the source

---
 teds_cachediterable.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 523cf58..6df156c 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -192,19 +192,22 @@ handle_exception:
 		if (UNEXPECTED(EG(exception))) {
 			goto handle_exception;
 		}
-		zval *value = funcs->get_current_data(iter);
+		zval *current = funcs->get_current_data(iter);
 		if (UNEXPECTED(EG(exception))) {
 			goto handle_exception;
 		}
+		/* get_current_key() may run userland code which invalidates the current data. */
+		zval value;
+		ZVAL_COPY_DEREF(&value, current);
 		zval key;
+		ZVAL_NULL(&key);
 		if (funcs->get_current_key) {
 			funcs->get_current_key(iter, &key);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&value);
 				zval_ptr_dtor(&key);
 				goto handle_exception;
 			}
-		} else {
-			ZVAL_NULL(&key);
 		}
 
 		const uint32_t size = array->size;
@@ -229,7 +232,7 @@ handle_exception:
 		zval_pair *entries = array->entries;
 		/* The key's reference count was already increased */
 		ZVAL_COPY_VALUE(&entries[size].key, &key);
-		ZVAL_COPY_DEREF(&entries[size].value, value);
+		ZVAL_COPY_VALUE(&entries[size].value, &value);
 		array->size++;
 		array->is_calling_inner = false;
 		return true;
-- 
2.43.0


From 0d64c22fafeb518e6f4c407edabe9c4a1d345cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:28 +0000
Subject: [PATCH 31/76] fix: unserializing an empty CachedIterable leaked
 memory

---
 teds_cachediterable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 6df156c..e23c12f 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -647,6 +647,10 @@ PHP_METHOD(Teds_CachedIterable, __unserialize)
 	ZEND_ASSERT(array->entries == NULL);
 
 	const uint32_t num_entries = raw_size / 2;
+	if (num_entries == 0) {
+		teds_cachediterable_entries_set_empty_list(array);
+		return;
+	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
 
-- 
2.43.0


From 5ea91255534bdfa1fc85ee67649656900b0581b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:06 +0000
Subject: [PATCH 32/76] fix: StrictTreeSet::__unserialize() stored PHP
 references as members

---
 teds_stricttreeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index a5a490c..4aab82a 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -843,6 +843,7 @@ PHP_METHOD(Teds_StrictTreeSet, __unserialize)
 			RETURN_THROWS();
 		}
 
+		ZVAL_DEREF(val);
 		if (nodes != NULL) {
 			if (EXPECTED(sorted_nodes_count == 0 || teds_stable_compare(val, &prev->key) > 0)) {
 				prev = teds_stricttreeset_node_alloc(val, NULL);
-- 
2.43.0


From cf7169d850b6f71eecd21db5015a6d168a32ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:08 +0000
Subject: [PATCH 33/76] fix: unserializing an empty ImmutableSequence,
 ImmutableIterable or MutableIterable leaked memory

---
 teds_immutableiterable.c | 4 ++++
 teds_immutablesequence.c | 4 ++++
 teds_mutableiterable.c   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 54fb123..1dab555 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -582,6 +582,10 @@ PHP_METHOD(Teds_ImmutableIterable, __unserialize)
 	ZEND_ASSERT(intern->array.entries == NULL);
 
 	const uint32_t num_entries = raw_size / 2;
+	if (num_entries == 0) {
+		teds_immutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 110210b..5bc9e90 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -564,6 +564,10 @@ PHP_METHOD(Teds_ImmutableSequence, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (num_entries == 0) {
+		teds_immutablesequence_entries_set_empty_list(&intern->array);
+		return;
+	}
 	zval *const entries = safe_emalloc(num_entries, sizeof(zval), 0);
 	zval *it = entries;
 
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 2a890c1..8d4fbc2 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -711,6 +711,10 @@ PHP_METHOD(Teds_MutableIterable, __unserialize)
 	ZEND_ASSERT(intern->array.entries == NULL);
 
 	const uint32_t num_entries = raw_size / 2;
+	if (num_entries == 0) {
+		teds_mutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
 
-- 
2.43.0


From 3e70baf6af130bfb9d91b782bd9e08ebc447c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:54 +0000
Subject: [PATCH 34/76] fix: BitVector accepted serialized data without any
 bits and got a count of up to 2^64-1

---
 teds_bitvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 0556001..5223c7d 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -667,7 +667,7 @@ PHP_METHOD(Teds_BitVector, __unserialize)
 	const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 	const size_t byte_count = ZSTR_LEN(zstr) - 1;
 	const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-	if (modulo_bit_len >= 8) {
+	if (modulo_bit_len >= 8 || byte_count == 0) {
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 		RETURN_THROWS();
 	}
@@ -801,7 +801,7 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 		const size_t byte_count = ZSTR_LEN(zstr) - 1;
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-		if (modulo_bit_len >= 8) {
+		if (modulo_bit_len >= 8 || byte_count == 0) {
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 			RETURN_THROWS();
 		}
-- 
2.43.0


From 4b26a94295ba3fb1fb76ea5c939ba1444110d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:56 +0000
Subject: [PATCH 35/76] fix: BitVector::unserialize() leaked the new object
 when it refused its input

---
 teds_bitvector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 5223c7d..70a7884 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -803,6 +803,7 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
 		if (modulo_bit_len >= 8 || byte_count == 0) {
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
+			zend_object_release(new_object);
 			RETURN_THROWS();
 		}
 
-- 
2.43.0


From 27bebac79fec1d2c9d21c028f326929838a88454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:49 +0000
Subject: [PATCH 36/76] fix: StrictTreeMap/StrictTreeSet::clear() left active
 iterators pointing to freed nodes

---
 teds_stricttreemap.c | 10 ++++++++++
 teds_stricttreeset.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index a6176cf..ff54617 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -830,6 +830,7 @@ zend_object_iterator *teds_stricttreemap_get_iterator(zend_class_entry *ce, zval
 	ZVAL_OBJ_COPY(&iterator->intern.data, obj);
 	iterator->intern.funcs = &teds_stricttreemap_it_funcs;
 	iterator->node = teds_stricttreemap_tree_get_first(&Z_STRICTTREEMAP_P(object)->tree);
+	iterator->is_before_first = iterator->node == NULL;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreemap_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
@@ -1712,6 +1713,15 @@ static void teds_stricttreemap_tree_clear(teds_stricttreemap_tree *tree) {
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
 
+	/* No active iterator may keep pointing to a freed node. As if the nodes were removed one by one, move the iterators before the first node. */
+	for (teds_intrusive_dllist_node *it_node = tree->active_iterators.first; it_node != NULL; it_node = it_node->next) {
+		teds_stricttreemap_it *it = teds_stricttreemap_it_from_dllist_node(it_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
+
 	teds_stricttreemap_tree_dtor(&array_copy);
 	/* Could call teds_stricttreemap_get_properties but properties tree is typically not initialized unless var_dump or other inefficient functionality is used */
 }
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 4aab82a..87fd7a2 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -794,6 +794,7 @@ zend_object_iterator *teds_stricttreeset_get_iterator(zend_class_entry *ce, zval
 	iterator->intern.funcs = &teds_stricttreeset_it_funcs;
 	teds_stricttreeset_node *node = teds_stricttreeset_tree_get_first(&Z_STRICTTREESET_P(object)->tree);
 	iterator->node = node;
+	iterator->is_before_first = node == NULL;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreeset_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
@@ -1379,6 +1380,15 @@ static void teds_stricttreeset_tree_clear(teds_stricttreeset_tree *tree) {
 
 	teds_stricttreeset_tree_set_empty_tree(tree);
 
+	/* No active iterator may keep pointing to a freed node. As if the nodes were removed one by one, move the iterators before the first node. */
+	for (teds_intrusive_dllist_node *it_node = tree->active_iterators.first; it_node != NULL; it_node = it_node->next) {
+		teds_stricttreeset_it *it = teds_stricttreeset_it_from_dllist_node(it_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
+
 	teds_stricttreeset_tree_dtor(&array_copy);
 	/* Could call teds_stricttreeset_get_properties but properties tree is typically not initialized unless var_dump or other inefficient functionality is used */
 }
-- 
2.43.0


From ae27c71349da5cbeb889ba5766f6a0b6d7c7f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:21 +0000
Subject: [PATCH 37/76] fix: LowMemoryVector iterators before the first element
 skipped inserted elements

---
 teds_lowmemoryvector.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 662410a..20b49e1 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -641,10 +641,12 @@ static zend_always_inline void teds_lowmemoryvector_maybe_adjust_iterators_befor
 static void teds_lowmemoryvector_adjust_iterators_before_insert(teds_lowmemoryvector_entries *const array, teds_intrusive_dllist_node *node, const size_t inserted_offset, const uint32_t n)
 {
 	const zend_object *const obj = teds_lowmemoryvector_to_object(array);
+	const size_t old_size = array->size;
+	ZEND_ASSERT(inserted_offset <= old_size);
 	do {
 		teds_lowmemoryvector_it *it = teds_lowmemoryvector_it_from_node(node);
 		if (Z_OBJ(it->intern.data) == obj) {
-			if (it->current >= inserted_offset) {
+			if (it->current >= inserted_offset && it->current < old_size) {
 				it->current += n;
 			}
 		}
-- 
2.43.0


From d7b072231c766c22dac3f53a1faade3f2f8f1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:33 +0000
Subject: [PATCH 38/76] fix: Teds\any(), all(), none(), find(), fold(),
 binary_search(): hold own copies of the arguments passed to callbacks, free
 callback results

---
 teds.c | 77 +++++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/teds.c b/teds.c
index d5ae4ad..91cfcda 100644
--- a/teds.c
+++ b/teds.c
@@ -139,8 +139,12 @@ static int teds_traversable_reduce_elem(zend_object_iterator *iter, void *puser)
 	ZVAL_COPY(&reduce_data->args[1], operand);
 	ZVAL_NULL(fci->retval);
 	int result = zend_call_function(&reduce_data->fci, &reduce_data->fcc);
-	zval_ptr_dtor(operand);
+	/* The callback may have changed or freed the storage that operand points into, but not the copy in args. */
+	zval_ptr_dtor(&reduce_data->args[1]);
 	zval_ptr_dtor(&reduce_data->args[0]);
+	if (UNEXPECTED(Z_ISREF_P(fci->retval))) {
+		zend_unwrap_reference(fci->retval);
+	}
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
 	}
@@ -187,12 +191,15 @@ static inline void php_array_until(zval *return_value, HashTable *htbl, zend_fca
 
 			/* Treat the operand like an array of size 1  */
 			result = zend_call_function(&fci, &fci_cache);
-			zval_ptr_dtor(operand);
-			if (result == FAILURE) {
+			zval_ptr_dtor(&args[0]);
+			if (UNEXPECTED(result == FAILURE || Z_TYPE(retval) == IS_UNDEF)) {
 				return;
 			}
 			const bool retval_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
+			if (UNEXPECTED(EG(exception))) {
+				return;
+			}
 			/* The user-provided callback rarely returns refcounted values. */
 			if (retval_true == stop_value) {
 				RETURN_BOOL(stop_value ^ negate);
@@ -232,16 +239,15 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
 		}
-		ZVAL_DEREF(operand);
-		fci.retval = &retval;
+		/* Use a copy like an array of size 1: The callback can change or free the storage operand points into. */
+		zval arg;
+		ZVAL_COPY_DEREF(&arg, operand);
 		fci.param_count = 1;
-		/* Use the operand like an array of size 1 */
-		fci.params = operand;
+		fci.params = &arg;
 		fci.retval = &retval;
-		Z_TRY_ADDREF_P(operand);
 		result = zend_call_function(&fci, &until_info->fcc);
-		zval_ptr_dtor(operand);
-		if (result == FAILURE) {
+		zval_ptr_dtor(&arg);
+		if (UNEXPECTED(result == FAILURE || Z_TYPE(retval) == IS_UNDEF)) {
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
 		}
@@ -255,7 +261,6 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 		}
 		ZVAL_DEREF(operand);
 		stop = zend_is_true(operand) == until_info->stop_value;
-		zval_ptr_dtor(operand);
 	}
 	if (stop) {
 		until_info->found = true;
@@ -580,9 +585,9 @@ packed_search_start:
 			ZVAL_COPY_VALUE(&args[1], &operator);
 
 			zend_result result = zend_call_function(fci, fci_cache);
-			zval_ptr_dtor(&operator);
-			zval_ptr_dtor(target);
-			if (UNEXPECTED(result == FAILURE)) {
+			zval_ptr_dtor(&args[1]);
+			zval_ptr_dtor(&args[0]);
+			if (UNEXPECTED(result == FAILURE || Z_TYPE_P(retval) == IS_UNDEF)) {
 				return NULL;
 			}
 			comparison_result = zval_get_long(retval);
@@ -653,9 +658,9 @@ bucket_search_start:
 			ZVAL_COPY_VALUE(&args[1], &operator);
 
 			zend_result result = zend_call_function(fci, fci_cache);
-			zval_ptr_dtor(&operator);
-			zval_ptr_dtor(target);
-			if (UNEXPECTED(result == FAILURE)) {
+			zval_ptr_dtor(&args[1]);
+			zval_ptr_dtor(&args[0]);
+			if (UNEXPECTED(result == FAILURE || Z_TYPE_P(retval) == IS_UNDEF)) {
 				return NULL;
 			}
 			comparison_result = zval_get_long(retval);
@@ -767,19 +772,28 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 		fci.param_count = 1;
 
 		ZEND_HASH_FOREACH_VAL(htbl, operand) {
-			fci.params = operand;
-			Z_TRY_ADDREF_P(operand);
+			zval arg;
+			ZVAL_COPY(&arg, operand);
+			fci.params = &arg;
 
-			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
+			if (zend_call_function(&fci, &fci_cache) == SUCCESS && Z_TYPE(retval) != IS_UNDEF) {
 				bool found = zend_is_true(&retval);
+				zval_ptr_dtor(&retval);
+				if (UNEXPECTED(EG(exception))) {
+					zval_ptr_dtor(&arg);
+					return;
+				}
 				if (found) {
-					ZVAL_COPY_VALUE(return_value, operand);
+					ZVAL_COPY_VALUE(return_value, &arg);
+					if (UNEXPECTED(Z_ISREF_P(return_value))) {
+						zend_unwrap_reference(return_value);
+					}
 					return;
 				} else {
-					zval_ptr_dtor(operand);
+					zval_ptr_dtor(&arg);
 				}
 			} else {
-				zval_ptr_dtor(operand);
+				zval_ptr_dtor(&arg);
 				return;
 			}
 		} ZEND_HASH_FOREACH_END();
@@ -811,27 +825,28 @@ static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /
 	if (UNEXPECTED(!operand || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
 	}
-	ZVAL_DEREF(operand);
-    // Treat this as a 1-element array.
-	fci->params = operand;
+	/* Treat a copy as a 1-element array: The callback can change or free the storage operand points into. */
+	zval arg;
+	ZVAL_COPY_DEREF(&arg, operand);
+	fci->params = &arg;
 	fci->retval = &retval;
-	Z_TRY_ADDREF_P(operand);
 	int result = zend_call_function(&find_data->fci, &find_data->fcc);
-	if (UNEXPECTED(result == FAILURE || EG(exception))) {
+	if (UNEXPECTED(result == FAILURE || Z_TYPE(retval) == IS_UNDEF)) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
-	fci->retval = &retval;
 	bool found = zend_is_true(&retval);
 	zval_ptr_dtor(&retval);
 	if (UNEXPECTED(EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
 	if (found) {
-		ZVAL_COPY_VALUE(find_data->return_value, operand);
+		ZVAL_COPY_VALUE(find_data->return_value, &arg);
 		find_data->found = 1;
 		return ZEND_HASH_APPLY_STOP;
 	}
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&arg);
 	return ZEND_HASH_APPLY_KEEP;
 }
 
-- 
2.43.0


From 55bd2b6c1d4ba1aaf8acbfc08dc46426c008c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 39/76] fix: toArray() of mutable maps and sets used entries
 that an error handler may have removed

---
 teds_mutableiterable.c       | 26 +++++++++-----------------
 teds_stricthashmap.c         | 19 ++++++++++---------
 teds_stricthashset.c         | 19 ++++++++++---------
 teds_strictsortedvectormap.c | 23 +++++++++--------------
 teds_strictsortedvectorset.c | 23 +++++++++--------------
 teds_stricttreemap.c         | 19 ++++++++++---------
 teds_stricttreeset.c         | 19 ++++++++++---------
 teds_util.c                  | 20 ++++++++++++++++++++
 teds_util.h                  |  2 ++
 9 files changed, 89 insertions(+), 81 deletions(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 8d4fbc2..708ff06 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -987,23 +987,15 @@ PHP_METHOD(Teds_MutableIterable, toArray)
 	if (!array->size) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
-
-	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
-		zval_pair *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+	const uint32_t len = array->size;
+	zval_pair *copy = safe_emalloc(len, sizeof(zval_pair), 0);
+	for (uint32_t i = 0; i < len; i++) {
+		ZVAL_COPY(&copy[i].key, &array->entries[i].key);
+		ZVAL_COPY(&copy[i].value, &array->entries[i].value);
+	}
+	zend_array *values = teds_move_zval_pairs_to_array(copy, len);
+	if (UNEXPECTED(!values)) {
+		RETURN_THROWS();
 	}
 	RETURN_ARR(values);
 }
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 3cf927a..676d5d3 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -1354,18 +1354,19 @@ PHP_METHOD(Teds_StrictHashMap, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->nNumOfElements);
+	const uint32_t len = array->nNumOfElements;
+	uint32_t i = 0;
+	zval_pair *copy = safe_emalloc(len, sizeof(zval_pair), 0);
 	zval *key, *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHMAP_FOREACH_KEY_VAL(array, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&copy[i].key, key);
+		ZVAL_COPY(&copy[i].value, val);
+		i++;
 	} TEDS_STRICTHASHMAP_FOREACH_END();
+	zend_array *values = teds_move_zval_pairs_to_array(copy, len);
+	if (UNEXPECTED(!values)) {
+		RETURN_THROWS();
+	}
 	RETURN_ARR(values);
 }
 
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 79bbfa8..b647ed0 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -912,18 +912,19 @@ PHP_METHOD(Teds_StrictHashSet, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->nNumOfElements);
+	const uint32_t len = array->nNumOfElements;
+	uint32_t i = 0;
+	zval_pair *copy = safe_emalloc(len, sizeof(zval_pair), 0);
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHSET_FOREACH_VAL(array, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&copy[i].key, val);
+		ZVAL_COPY(&copy[i].value, val);
+		i++;
 	} TEDS_STRICTHASHSET_FOREACH_END();
+	zend_array *values = teds_move_zval_pairs_to_array(copy, len);
+	if (UNEXPECTED(!values)) {
+		RETURN_THROWS();
+	}
 	RETURN_ARR(values);
 }
 
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 5b0a443..2cc2bb7 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -1036,20 +1036,15 @@ PHP_METHOD(Teds_StrictSortedVectorMap, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->size);
-	for (uint32_t i = 0; i < array->size; i++) {
-		teds_strictsortedvectormap_entry *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+	const uint32_t len = array->size;
+	zval_pair *copy = safe_emalloc(len, sizeof(zval_pair), 0);
+	for (uint32_t i = 0; i < len; i++) {
+		ZVAL_COPY(&copy[i].key, &array->entries[i].key);
+		ZVAL_COPY(&copy[i].value, &array->entries[i].value);
+	}
+	zend_array *values = teds_move_zval_pairs_to_array(copy, len);
+	if (UNEXPECTED(!values)) {
+		RETURN_THROWS();
 	}
 	RETURN_ARR(values);
 }
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 348a58f..075c357 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -525,20 +525,15 @@ PHP_METHOD(Teds_StrictSortedVectorSet, toArray)
 	if (!array->size) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
-
-	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
-		zval *key = &array->entries[i];
-
-		Z_TRY_ADDREF_P(key);
-		array_set_zval_key(values, key, key);
-		zval_ptr_dtor_nogc(key);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+	const uint32_t len = array->size;
+	zval_pair *copy = safe_emalloc(len, sizeof(zval_pair), 0);
+	for (uint32_t i = 0; i < len; i++) {
+		ZVAL_COPY(&copy[i].key, &array->entries[i]);
+		ZVAL_COPY(&copy[i].value, &array->entries[i]);
+	}
+	zend_array *values = teds_move_zval_pairs_to_array(copy, len);
+	if (UNEXPECTED(!values)) {
+		RETURN_THROWS();
 	}
 	RETURN_ARR(values);
 }
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index ff54617..9c27a96 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1610,22 +1610,23 @@ PHP_METHOD(Teds_StrictTreeMap, toArray)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
 	teds_stricttreemap_tree *const tree = &Z_STRICTTREEMAP_P(ZEND_THIS)->tree;
-	uint32_t len = tree->nNumOfElements;
+	const uint32_t len = tree->nNumOfElements;
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *values = zend_new_array(len);
+	uint32_t i = 0;
+	zval_pair *copy = safe_emalloc(len, sizeof(zval_pair), 0);
 
 	zval *key, *val;
 	TEDS_STRICTTREEMAP_FOREACH_KEY_VAL(tree, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&copy[i].key, key);
+		ZVAL_COPY(&copy[i].value, val);
+		i++;
 	} TEDS_STRICTTREEMAP_FOREACH_END();
+	zend_array *values = teds_move_zval_pairs_to_array(copy, len);
+	if (UNEXPECTED(!values)) {
+		RETURN_THROWS();
+	}
 	RETURN_ARR(values);
 }
 
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 87fd7a2..5649fb4 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -952,18 +952,19 @@ PHP_METHOD(Teds_StrictTreeSet, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(tree->nNumOfElements);
+	const uint32_t len = tree->nNumOfElements;
+	uint32_t i = 0;
+	zval_pair *copy = safe_emalloc(len, sizeof(zval_pair), 0);
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTTREESET_FOREACH_KEY(tree, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&copy[i].key, val);
+		ZVAL_COPY(&copy[i].value, val);
+		i++;
 	} TEDS_STRICTTREESET_FOREACH_END();
+	zend_array *values = teds_move_zval_pairs_to_array(copy, len);
+	if (UNEXPECTED(!values)) {
+		RETURN_THROWS();
+	}
 	RETURN_ARR(values);
 }
 
diff --git a/teds_util.c b/teds_util.c
index c00aa9c..1bea919 100644
--- a/teds_util.c
+++ b/teds_util.c
@@ -23,4 +23,24 @@ HashTable *teds_internaliterator_get_gc(zend_object_iterator *iter, zval **table
 	return NULL;
 }
 
+/* Builds the result of toArray() from copies of the keys and values of a collection, and frees the copies.
+ * array_set_zval_key() can emit notices, so a user-defined error handler may modify the collection while this runs. */
+zend_array *teds_move_zval_pairs_to_array(zval_pair *pairs, uint32_t len)
+{
+	zend_array *values = zend_new_array(len);
+	for (uint32_t i = 0; i < len; i++) {
+		if (EXPECTED(!EG(exception))) {
+			array_set_zval_key(values, &pairs[i].key, &pairs[i].value);
+		}
+		zval_ptr_dtor(&pairs[i].key);
+		zval_ptr_dtor(&pairs[i].value);
+	}
+	efree(pairs);
+	if (UNEXPECTED(EG(exception))) {
+		zend_array_destroy(values);
+		return NULL;
+	}
+	return values;
+}
+
 const zval teds_empty_entry_list[1];
diff --git a/teds_util.h b/teds_util.h
index 25e36e1..3d6b626 100644
--- a/teds_util.h
+++ b/teds_util.h
@@ -5,6 +5,7 @@
 #include "Zend/zend_string.h"
 #include "Zend/zend_types.h"
 #include "Zend/zend_object_handlers.h"
+#include "teds_zval_pair.h"
 #define TEDS_NODE_RED 0
 #define TEDS_NODE_BLACK 1
 
@@ -266,6 +267,7 @@ static zend_always_inline int teds_has_dimension_helper(zval *value, int check_e
  * Returns absence of zvals or hash table to garbage collect.
  * (e.g. for collections that are immutable or made of scalars instead of zvals)
  */
+zend_array *teds_move_zval_pairs_to_array(zval_pair *pairs, uint32_t len);
 HashTable* teds_noop_get_gc(zend_object *obj, zval **table, int *n);
 /**
  * Returns the immutable empty array in a get_properties handler.
-- 
2.43.0


From 79fbde5e16144634f29d4cd96396879f612b8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:19 +0000
Subject: [PATCH 40/76] fix: constructing a collection from a Traversable:
 empty sources left the object unconstructed, re-entrant use of the object
 while constructing it corrupted it

---
 teds_deque.c                 | 21 ++++++++++++++++-----
 teds_immutableiterable.c     | 10 ++++++----
 teds_immutablesequence.c     | 10 ++++++----
 teds_mutableiterable.c       | 24 +++++++++++++++++++-----
 teds_strictheap.c            |  2 +-
 teds_strictsortedvectormap.c |  4 ++--
 teds_strictsortedvectorset.c | 28 +++++++++++++++++++++-------
 teds_vector.c                | 25 +++++++++++++++++++------
 8 files changed, 90 insertions(+), 34 deletions(-)

diff --git a/teds_deque.c b/teds_deque.c
index 7e4b828..47c2d73 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -167,15 +167,19 @@ static void teds_deque_entries_init_from_array(teds_deque_entries *array, zend_a
 	}
 }
 
+static void teds_deque_entries_dtor(teds_deque_entries *array);
+
 static void teds_deque_entries_init_from_traversable(teds_deque_entries *array, zend_object *obj)
 {
 	zend_class_entry *ce = obj->ce;
 	zend_object_iterator *iter;
 	uint32_t size = 0;
 	size_t capacity = 0;
+	/* This object counts as initialized from now on, code run by the iterator can't construct it again. */
 	array->size = 0;
 	array->offset = 0;
-	array->circular_buffer = NULL;
+	array->mask = 0;
+	array->circular_buffer = (zval *)empty_entry_list;
 	zval *circular_buffer = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -223,10 +227,17 @@ static void teds_deque_entries_init_from_traversable(teds_deque_entries *array,
 		}
 	}
 
-	array->size = size;
-	array->mask = capacity > 0 ? capacity - 1 : 0;
-	array->circular_buffer = circular_buffer;
-	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(array, true);
+	if (EXPECTED(size > 0)) {
+		/* Code run by the iterator may have added values to this object. */
+		teds_deque_entries old = *array;
+
+		array->size = size;
+		array->offset = 0;
+		array->mask = capacity - 1;
+		array->circular_buffer = circular_buffer;
+		TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(array, true);
+		teds_deque_entries_dtor(&old);
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 1dab555..f00b1e3 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -131,8 +131,8 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 	zend_class_entry *ce = obj->ce;
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
-	array->size = 0;
-	array->entries = NULL;
+	/* This object counts as initialized from now on, code run by the iterator can't construct it again. */
+	teds_immutableiterable_entries_set_empty_list(array);
 	zval_pair *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -200,8 +200,10 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 		entries = erealloc(entries, size * sizeof(zval_pair));
 	}
 
-	array->size = size;
-	array->entries = entries;
+	if (EXPECTED(size > 0)) {
+		array->size = size;
+		array->entries = entries;
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 5bc9e90..162701a 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -127,8 +127,8 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 	zend_class_entry *ce = obj->ce;
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
-	array->size = 0;
-	array->entries = NULL;
+	/* This object counts as initialized from now on, code run by the iterator can't construct it again. */
+	teds_immutablesequence_entries_set_empty_list(array);
 	zval *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -180,8 +180,10 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 		entries = erealloc(entries, size * sizeof(zval));
 	}
 
-	array->size = size;
-	array->entries = entries;
+	if (EXPECTED(size > 0)) {
+		array->size = size;
+		array->entries = entries;
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 708ff06..9de1283 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -164,8 +164,8 @@ static void teds_mutableiterable_entries_init_from_traversable(teds_mutableitera
 	zend_class_entry *ce = obj->ce;
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
-	array->size = 0;
-	array->entries = NULL;
+	/* This object counts as initialized from now on, code run by the iterator can't construct it again. */
+	teds_mutableiterable_entries_set_empty_list(array);
 	zval_pair *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -229,9 +229,23 @@ static void teds_mutableiterable_entries_init_from_traversable(teds_mutableitera
 		entries = erealloc(entries, size * sizeof(zval_pair));
 	}
 
-	array->size = size;
-	array->capacity = size;
-	array->entries = entries;
+	if (EXPECTED(size > 0)) {
+		/* Code run by the iterator may have added entries to this object. */
+		zval_pair *const old_entries = array->entries;
+		const uint32_t old_size = array->size;
+		const bool has_old_entries = !teds_mutableiterable_entries_empty_capacity(array);
+
+		array->size = size;
+		array->capacity = size;
+		array->entries = entries;
+		if (UNEXPECTED(has_old_entries)) {
+			for (uint32_t i = 0; i < old_size; i++) {
+				zval_ptr_dtor(&old_entries[i].key);
+				zval_ptr_dtor(&old_entries[i].value);
+			}
+			efree(old_entries);
+		}
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
diff --git a/teds_strictheap.c b/teds_strictheap.c
index 8eeb356..bef182b 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -144,7 +144,7 @@ static void teds_strictheap_entries_init_from_traversable(teds_strictheap_entrie
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (zval *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 2cc2bb7..5447935 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -167,7 +167,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable(teds_strict
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
@@ -538,7 +538,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 075c357..5f0ebe0 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -215,9 +215,10 @@ static void teds_strictsortedvectorset_entries_init_from_traversable(teds_strict
 	zend_class_entry *ce = obj->ce;
 	zend_object_iterator *iter;
 	zend_long size = 0, capacity = 0;
+	/* This object counts as initialized from now on, code run by the iterator can't construct it again. */
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (zval *)empty_entry_list;
 	zval *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -265,12 +266,25 @@ static void teds_strictsortedvectorset_entries_init_from_traversable(teds_strict
 		}
 	}
 
-	array->size = size;
-	array->capacity = capacity;
-	array->entries = entries;
-	TEDS_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
-	if (size > 1) {
-		teds_strictsortedvectorset_entries_sort_and_deduplicate(array);
+	if (EXPECTED(size > 0)) {
+		/* Code run by the iterator may have added values to this object. */
+		zval *const old_entries = array->entries;
+		const uint32_t old_size = array->size;
+		const bool has_old_entries = !teds_strictsortedvectorset_entries_empty_capacity(array);
+
+		array->size = size;
+		array->capacity = capacity;
+		array->entries = entries;
+		TEDS_SET_SHOULD_REBUILD_PROPERTIES(array, true);
+		if (size > 1) {
+			teds_strictsortedvectorset_entries_sort_and_deduplicate(array);
+		}
+		if (UNEXPECTED(has_old_entries)) {
+			for (uint32_t i = 0; i < old_size; i++) {
+				zval_ptr_dtor(&old_entries[i]);
+			}
+			efree(old_entries);
+		}
 	}
 cleanup_iter:
 	if (iter) {
diff --git a/teds_vector.c b/teds_vector.c
index 8f9a36c..407f269 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -137,8 +137,8 @@ static void teds_vector_entries_init_from_traversable(teds_vector_entries *array
 	zend_object_iterator *iter;
 	uint32_t size = 0;
 	size_t capacity = 0;
-	array->size = 0;
-	array->entries = NULL;
+	/* This object counts as initialized from now on, code run by the iterator can't construct it again. */
+	teds_vector_entries_set_empty_list(array);
 	zval *entries = NULL;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
@@ -207,10 +207,23 @@ static void teds_vector_entries_init_from_traversable(teds_vector_entries *array
 		entries = erealloc(entries, size * sizeof(zval));
 	}
 
-	array->size = size;
-	TEDS_VECTOR_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
-	array->capacity = size;
-	array->entries = entries;
+	if (EXPECTED(size > 0)) {
+		/* Code run by the iterator may have added values to this object. */
+		zval *const old_entries = array->entries;
+		const uint32_t old_size = array->size;
+		const bool has_old_entries = !teds_vector_entries_empty_capacity(array);
+
+		array->size = size;
+		TEDS_VECTOR_SET_SHOULD_REBUILD_PROPERTIES(array, true);
+		array->capacity = size;
+		array->entries = entries;
+		if (UNEXPECTED(has_old_entries)) {
+			for (uint32_t i = 0; i < old_size; i++) {
+				zval_ptr_dtor(&old_entries[i]);
+			}
+			efree(old_entries);
+		}
+	}
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
-- 
2.43.0


From 4a0d2de19c0254be5f1215d9420cd39faa6cb68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:22 +0000
Subject: [PATCH 41/76] fix: fromPairs() leaked the iterator when rewind()
 threw, and its buffer when the first pair was invalid

---
 teds_immutableiterable.c     | 9 ++++++++-
 teds_mutableiterable.c       | 9 ++++++++-
 teds_stricthashmap.c         | 1 +
 teds_strictsortedvectormap.c | 1 +
 teds_stricttreemap.c         | 1 +
 5 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index f00b1e3..2c90367 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -683,6 +683,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
@@ -716,7 +717,13 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 			break;
 		}
 	}
-	if (capacity > size) {
+	if (UNEXPECTED(!size)) {
+		/* This is either empty or the first value wasn't a valid pair */
+		if (entries) {
+			efree(entries);
+		}
+		entries = (zval_pair *)empty_entry_list;
+	} else if (capacity > size) {
 		/* Shrink allocated value to actual required size */
 		entries = erealloc(entries, size * sizeof(zval_pair));
 	}
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 9de1283..3f9316e 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -829,6 +829,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
@@ -862,7 +863,13 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 			break;
 		}
 	}
-	if (capacity > size) {
+	if (UNEXPECTED(!size)) {
+		/* This is either empty or the first value wasn't a valid pair */
+		if (entries) {
+			efree(entries);
+		}
+		entries = (zval_pair *)empty_entry_list;
+	} else if (capacity > size) {
 		/* Shrink allocated value to actual required size */
 		entries = erealloc(entries, size * sizeof(zval_pair));
 	}
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 676d5d3..def96f6 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -972,6 +972,7 @@ static void teds_stricthashmap_entries_init_from_traversable_pairs(teds_strictha
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 5447935..c1503e6 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -552,6 +552,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 9c27a96..e5dd3ed 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -974,6 +974,7 @@ static void teds_stricttreemap_tree_init_from_traversable_pairs(teds_stricttreem
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
-- 
2.43.0


From 3e96ba3593574410482cb631a0162f33b0459a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:23 +0000
Subject: [PATCH 42/76] fix: ImmutableIterable and MutableIterable built from
 no pairs could be constructed a second time

---
 teds_immutableiterable.c | 5 ++---
 teds_mutableiterable.c   | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 2c90367..ef58a8c 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -638,8 +638,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->entries = NULL;
+		teds_immutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -655,7 +654,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		entries = (zval_pair *)empty_entry_list;
 	}
 
 	array->entries = entries;
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 3f9316e..718dc45 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -780,9 +780,7 @@ static void teds_mutableiterable_entries_init_from_array_pairs(teds_mutableitera
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->capacity = 0;
-		array->entries = NULL;
+		teds_mutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -798,7 +796,7 @@ static void teds_mutableiterable_entries_init_from_array_pairs(teds_mutableitera
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		entries = (zval_pair *)empty_entry_list;
 		num_entries = 0;
 	}
 
-- 
2.43.0


From 56d3d4c374d344cdf8459af3820529c459ab65d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:55 +0000
Subject: [PATCH 43/76] fix: map() and filter() released the wrong entries when
 the callback threw, and map() stored references

---
 teds_immutablesequence.c | 13 +++++++++----
 teds_vector.c            | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 162701a..7ea9e97 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -831,8 +831,8 @@ PHP_METHOD(Teds_ImmutableSequence, filter)
 				zval_ptr_dtor(&operand);
 cleanup:
 				if (entries) {
-					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+					while (size > 0) {
+						zval_ptr_dtor(&entries[--size]);
 					}
 					efree(entries);
 				}
@@ -841,6 +841,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -956,13 +957,17 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				for (; size > 0; size--) {
-					zval_ptr_dtor(&entries[size]);
+				while (size > 0) {
+					zval_ptr_dtor(&entries[--size]);
 				}
 				efree(entries);
 			}
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			/* The callback returned by reference */
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < intern->array.size);
 
diff --git a/teds_vector.c b/teds_vector.c
index 407f269..09a7a80 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -927,8 +927,8 @@ PHP_METHOD(Teds_Vector, filter)
 				zval_ptr_dtor(&operand);
 cleanup:
 				if (entries) {
-					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+					while (size > 0) {
+						zval_ptr_dtor(&entries[--size]);
 					}
 					efree(entries);
 				}
@@ -937,6 +937,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -1053,13 +1054,17 @@ PHP_METHOD(Teds_Vector, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				for (; size > 0; size--) {
-					zval_ptr_dtor(&entries[size]);
+				while (size > 0) {
+					zval_ptr_dtor(&entries[--size]);
 				}
 				efree(entries);
 			}
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			/* The callback returned by reference */
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < array->size);
 
-- 
2.43.0


From 0425ff459e2e1a0cb373829aed95571d78c9cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:58 +0000
Subject: [PATCH 44/76] fix: Deque::__set_state([]) and
 LowMemoryVector::clear() left an object that could be constructed again

---
 teds_deque.c           | 2 +-
 teds_lowmemoryvector.c | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/teds_deque.c b/teds_deque.c
index 47c2d73..67dab53 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -714,7 +714,7 @@ static void teds_deque_entries_init_from_array_values(teds_deque_entries *array,
 	if (num_entries == 0) {
 		array->size = 0;
 		array->mask = 0;
-		array->circular_buffer = NULL;
+		array->circular_buffer = (zval *)empty_entry_list;
 		return;
 	}
 	const size_t capacity = teds_deque_next_pow2_capacity(num_entries);
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 20b49e1..eb1382b 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -372,7 +372,6 @@ static void teds_lowmemoryvector_clear(teds_lowmemoryvector *intern)
 		ZEND_ASSERT(type_tag == LMV_TYPE_ZVAL);
 
 		zval *it = entries;
-		array->entries_zval = NULL;
 		for (zval *const end = it + size; it < end; it++) {
 			zval_ptr_dtor(it);
 		}
-- 
2.43.0


From 82f2e8b584ef5c1f00bc1b2ab41cf67f0da24bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:10 +0000
Subject: [PATCH 45/76] fix: map() leaked the last result when releasing the
 argument threw

---
 teds_immutablesequence.c | 7 ++++---
 teds_vector.c            | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 7ea9e97..5725c17 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -957,9 +957,10 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				while (size > 0) {
-					zval_ptr_dtor(&entries[--size]);
-				}
+				/* The last result is undefined if the callback threw, but not if releasing the argument threw. */
+				do {
+					zval_ptr_dtor(&entries[size]);
+				} while (size-- > 0);
 				efree(entries);
 			}
 			return;
diff --git a/teds_vector.c b/teds_vector.c
index 09a7a80..1400b50 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -1054,9 +1054,10 @@ PHP_METHOD(Teds_Vector, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				while (size > 0) {
-					zval_ptr_dtor(&entries[--size]);
-				}
+				/* The last result is undefined if the callback threw, but not if releasing the argument threw. */
+				do {
+					zval_ptr_dtor(&entries[size]);
+				} while (size-- > 0);
 				efree(entries);
 			}
 			return;
-- 
2.43.0


From 9d19cfc9b6f1b2621f275d45eae952bd74b77ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:03 +0000
Subject: [PATCH 46/76] fix: building a map from a Traversable went on with a
 pending exception when key() or the destructor of a replaced value threw

---
 teds_stricthashmap.c         | 15 +++++++++------
 teds_strictsortedvectormap.c |  6 +++++-
 teds_stricttreemap.c         | 15 +++++++++------
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index def96f6..f4d4671 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -271,15 +271,18 @@ void teds_stricthashmap_entries_init_from_traversable(teds_stricthashmap *intern
 		} else {
 			ZVAL_NULL(&key);
 		}
+		if (UNEXPECTED(EG(exception))) {
+			zval_ptr_dtor(&key);
+			break;
+		}
 
 		ZVAL_DEREF(value);
 		/* The key's reference count was already increased by get_current_key. We need to free it after attempting to update the entry */
-		const bool created_new_entry = teds_stricthashmap_entries_insert(array, &key, value, false);
+		teds_stricthashmap_entries_insert(array, &key, value, false);
 		zval_ptr_dtor(&key);
-		if (!created_new_entry) {
-			if (UNEXPECTED(EG(exception))) {
-				break;
-			}
+		/* The destructor of a value that was replaced may throw. */
+		if (UNEXPECTED(EG(exception))) {
+			break;
 		}
 
 		iter->index++;
@@ -985,7 +988,7 @@ static void teds_stricthashmap_entries_init_from_traversable_pairs(teds_strictha
 			break;
 		}
 
-		if (!teds_stricthashmap_entries_insert_from_pair(array, pair)) {
+		if (!teds_stricthashmap_entries_insert_from_pair(array, pair) || UNEXPECTED(EG(exception))) {
 			break;
 		}
 
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index c1503e6..e6525a4 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -209,6 +209,10 @@ static void teds_strictsortedvectormap_entries_init_from_traversable(teds_strict
 		teds_strictsortedvectormap_entries_insert(array, &key, value, false);
 		/* existing key was updated */
 		zval_ptr_dtor(&key);
+		/* The destructor of a value that was replaced may throw. */
+		if (UNEXPECTED(EG(exception))) {
+			break;
+		}
 
 		iter->index++;
 		funcs->move_forward(iter);
@@ -565,7 +569,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 			break;
 		}
 
-		if (!teds_strictsortedvectormap_entries_insert_from_pair(array, pair)) {
+		if (!teds_strictsortedvectormap_entries_insert_from_pair(array, pair) || UNEXPECTED(EG(exception))) {
 			break;
 		}
 
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index e5dd3ed..700d1c4 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -428,15 +428,18 @@ void teds_stricttreemap_tree_init_from_traversable(teds_stricttreemap_tree *tree
 		} else {
 			ZVAL_NULL(&key);
 		}
+		if (UNEXPECTED(EG(exception))) {
+			zval_ptr_dtor(&key);
+			break;
+		}
 
 		ZVAL_DEREF(value);
 		/* The key's reference count was already increased by get_current_key. We need to free it after attempting to update the entry */
-		const bool created_new_entry = teds_stricttreemap_tree_insert(tree, &key, value, false);
+		teds_stricttreemap_tree_insert(tree, &key, value, false);
 		zval_ptr_dtor(&key);
-		if (!created_new_entry) {
-			if (UNEXPECTED(EG(exception))) {
-				break;
-			}
+		/* The destructor of a value that was replaced may throw. */
+		if (UNEXPECTED(EG(exception))) {
+			break;
 		}
 
 		iter->index++;
@@ -987,7 +990,7 @@ static void teds_stricttreemap_tree_init_from_traversable_pairs(teds_stricttreem
 			break;
 		}
 
-		if (!teds_stricttreemap_tree_insert_from_pair(tree, pair)) {
+		if (!teds_stricttreemap_tree_insert_from_pair(tree, pair) || UNEXPECTED(EG(exception))) {
 			break;
 		}
 
-- 
2.43.0


From 584cd9ddfb01e103dc0c9166739333483d0c8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:08 +0000
Subject: [PATCH 47/76] fix: Vector::filter() wrote out of bounds when the
 callback removed entries

---
 teds_vector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_vector.c b/teds_vector.c
index 1400b50..4041be6 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -950,7 +950,8 @@ cleanup:
 
 			if (size >= capacity) {
 				if (entries) {
-					capacity = size + array->size - i;
+					/* The callback may have removed entries */
+					capacity = size + (array->size > i ? array->size - i : 1);
 					if (UNEXPECTED(capacity >= TEDS_MAX_ZVAL_COLLECTION_SIZE)) {
 						teds_error_noreturn_max_vector_capacity();
 						ZEND_UNREACHABLE();
-- 
2.43.0


From 3a48fc055e79d0a80d5f2af0a07e46a01910cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:55 +0000
Subject: [PATCH 48/76] fix: BitVector::insert()/pushFront() moved iterators
 although the value was refused

---
 teds_bitvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 70a7884..9d2e9b8 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -1360,10 +1360,10 @@ PHP_METHOD(Teds_BitVector, pushFront)
 	}
 
 	/* TODO: Optimize this for large varargs case */
-	teds_bitvector_maybe_adjust_iterators_before_insert(array, 0, argc);
 	for (uint32_t i = 0; i < argc; i++) {
 		zend_long new_value;
 		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
+		teds_bitvector_maybe_adjust_iterators_before_insert(array, 0, 1);
 		teds_bitvector_entries_unshift_single(array, new_value);
 	}
 	TEDS_RETURN_VOID();
@@ -1397,10 +1397,10 @@ PHP_METHOD(Teds_BitVector, insert)
 	}
 
 	/* TODO: Optimize this for large varargs case */
-	teds_bitvector_maybe_adjust_iterators_before_insert(array, inserted_offset, argc);
 	for (uint32_t i = 0; i < argc; i++) {
 		zend_long new_value;
 		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
+		teds_bitvector_maybe_adjust_iterators_before_insert(array, inserted_offset + i, 1);
 		teds_bitvector_entries_insert_single(array, inserted_offset + i, new_value);
 	}
 	TEDS_RETURN_VOID();
-- 
2.43.0


From 7ee10cf23d978cb5f234506d50f9853b663c90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:37 +0000
Subject: [PATCH 49/76] fix: CachedIterable::keyAt()/valueAt() evaluated the
 whole source for a negative offset

---
 teds_cachediterable.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index e23c12f..c9afe2c 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -837,7 +837,8 @@ PHP_METHOD(Teds_CachedIterable, keyAt)
 	teds_cachediterable_entries *array = Z_CACHEDITERABLE_ENTRIES_P(ZEND_THIS);
 	const uint32_t len = array->size;
 	if ((zend_ulong) offset >= len) {
-		if (!teds_cachediterable_entries_ensure_offset_exists(array, (size_t)offset)) {
+		/* Negative offsets never exist, so don't evaluate any elements for those. */
+		if (offset < 0 || !teds_cachediterable_entries_ensure_offset_exists(array, (size_t)offset)) {
 			if (!EG(exception)) {
 				teds_throw_invalid_collection_offset_exception();
 			}
@@ -857,7 +858,8 @@ PHP_METHOD(Teds_CachedIterable, valueAt)
 	teds_cachediterable_entries *array = Z_CACHEDITERABLE_ENTRIES_P(ZEND_THIS);
 	const uint32_t len = array->size;
 	if ((zend_ulong) offset >= len) {
-		if (!teds_cachediterable_entries_ensure_offset_exists(array, (size_t)offset)) {
+		/* Negative offsets never exist, so don't evaluate any elements for those. */
+		if (offset < 0 || !teds_cachediterable_entries_ensure_offset_exists(array, (size_t)offset)) {
 			if (!EG(exception)) {
 				teds_throw_invalid_collection_offset_exception();
 			}
-- 
2.43.0


From 9d63fce111fdd8fbae6bfe251c0a6a2f9ba35d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 50/76] fix: CachedIterable iteration and searches silently
 ended at the element whose evaluation had thrown

---
 teds_cachediterable.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index c9afe2c..4a4db7a 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -276,6 +276,16 @@ static zend_always_inline bool teds_cachediterable_entries_ensure_offset_exists(
 	} \
 } while(0)
 
+/* The elements after the exception are unknown, so don't claim that they don't exist. */
+#define TEDS_CACHEDITERABLE_ENTRIES_THROW_IF_INCOMPLETE(array) do { \
+	if (UNEXPECTED((array)->end_exception)) { \
+		if (!EG(exception)) { \
+			teds_cachediterable_entries_throw_end_exception((array)); \
+		} \
+		RETURN_THROWS(); \
+	} \
+} while(0)
+
 static void teds_cachediterable_entries_init_from_traversable(teds_cachediterable_entries *array, zend_object *obj)
 {
 	zend_class_entry *ce = obj->ce;
@@ -533,6 +543,9 @@ static int teds_cachediterable_it_valid(zend_object_iterator *iter)
 		return SUCCESS;
 	}
 	if (!array->iter) {
+		if (UNEXPECTED(array->end_exception)) {
+			teds_cachediterable_entries_throw_end_exception(array);
+		}
 		return FAILURE;
 	}
 	if (!teds_cachediterable_entries_ensure_offset_exists(array, iterator->current)) {
@@ -897,6 +910,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfKey)
 		}
 		i++;
 	}
+	TEDS_CACHEDITERABLE_ENTRIES_THROW_IF_INCOMPLETE(array);
 	RETURN_NULL();
 }
 
@@ -928,6 +942,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfValue)
 		}
 		i++;
 	}
+	TEDS_CACHEDITERABLE_ENTRIES_THROW_IF_INCOMPLETE(array);
 	RETURN_NULL();
 }
 
@@ -959,6 +974,7 @@ PHP_METHOD(Teds_CachedIterable, containsKey)
 		}
 		i++;
 	}
+	TEDS_CACHEDITERABLE_ENTRIES_THROW_IF_INCOMPLETE(array);
 	RETURN_FALSE;
 }
 
@@ -990,6 +1006,7 @@ PHP_METHOD(Teds_CachedIterable, contains)
 		}
 		i++;
 	}
+	TEDS_CACHEDITERABLE_ENTRIES_THROW_IF_INCOMPLETE(array);
 	RETURN_FALSE;
 }
 
-- 
2.43.0


From 18773605468072ff04eff1a4968dbc988bffcac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:52 +0000
Subject: [PATCH 51/76] fix: CachedIterable took an exception from the source's
 valid() for the end of the source

---
 teds_cachediterable.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 4a4db7a..ef03bb2 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -188,10 +188,11 @@ handle_exception:
 			return false;
 		}
 	}
-	if (funcs->valid(iter) == SUCCESS) {
-		if (UNEXPECTED(EG(exception))) {
-			goto handle_exception;
-		}
+	const bool valid = funcs->valid(iter) == SUCCESS;
+	if (UNEXPECTED(EG(exception))) {
+		goto handle_exception;
+	}
+	if (valid) {
 		zval *current = funcs->get_current_data(iter);
 		if (UNEXPECTED(EG(exception))) {
 			goto handle_exception;
-- 
2.43.0


From e25698f442e5ccf2f5a5b9bc74a509cd57aa4f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:33 +0000
Subject: [PATCH 52/76] fix: CachedIterable methods went on after throwing for
 a source that had failed earlier

---
 teds_cachediterable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index ef03bb2..39b52d4 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -274,6 +274,7 @@ static zend_always_inline bool teds_cachediterable_entries_ensure_offset_exists(
 		} \
 	} else if (UNEXPECTED((array)->end_exception)) {  \
 		teds_cachediterable_entries_throw_end_exception((array)); \
+		RETURN_THROWS(); \
 	} \
 } while(0)
 
-- 
2.43.0


From bd697eb6f832aa3e4862820c4aaa7a3c44104792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:35 +0000
Subject: [PATCH 53/76] fix: unique_values() released immutable arrays it
 returned unchanged (e.g. constants with opcache)

---
 teds.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/teds.c b/teds.c
index 91cfcda..16ea45c 100644
--- a/teds.c
+++ b/teds.c
@@ -462,8 +462,9 @@ static zend_always_inline bool teds_is_list_of_non_references(HashTable *ht) {
 	return true;
 }
 
-static inline void teds_array_unique_values(HashTable *ht, zval *return_value)
+static inline void teds_array_unique_values(zval *input, zval *return_value)
 {
+	HashTable *const ht = Z_ARRVAL_P(input);
 	const uint32_t ht_size = zend_hash_num_elements(ht);
 	if (ht_size <= 1) {
 		if (ht_size == 0) {
@@ -479,8 +480,7 @@ static inline void teds_array_unique_values(HashTable *ht, zval *return_value)
 			zend_ulong num_index;
 			if (zend_hash_get_current_key_ex(ht, &str_index, &num_index, &start) == HASH_KEY_IS_LONG && num_index == 0) {
 				/* The input array is already a single-element list of non-references of size 1 */
-				GC_TRY_ADDREF(ht);
-				RETURN_ARR(ht);
+				RETURN_COPY(input); /* This is not refcounted if it is immutable */
 			}
 		}
 		HashTable *result = zend_new_array(1);
@@ -496,9 +496,8 @@ static inline void teds_array_unique_values(HashTable *ht, zval *return_value)
 	ZEND_ASSERT(array.nNumOfElements <= ht_size);
 	if (ht_size == array.nNumOfElements && teds_is_list_of_non_references(ht)) {
 		/* Save memory by returning the original list when it's safe to do so. */
-		GC_TRY_ADDREF(ht);
 		teds_stricthashset_entries_dtor(&array);
-		RETURN_ARR(ht);
+		RETURN_COPY(input); /* This is not refcounted if it is immutable */
 	}
 	RETURN_ARR(teds_move_zend_array_from_entries(&array));
 }
@@ -527,7 +526,7 @@ PHP_FUNCTION(Teds_unique_values)
 
 	switch (Z_TYPE_P(iterable)) {
 		case IS_ARRAY:
-			teds_array_unique_values(Z_ARRVAL_P(iterable), return_value);
+			teds_array_unique_values(iterable, return_value);
 			return;
 		case IS_OBJECT: {
 			ZEND_ASSERT(instanceof_function(Z_OBJCE_P(iterable), zend_ce_traversable));
-- 
2.43.0


From c081f8381bf63bc57f18e0104658cb63a8486bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:38 +0000
Subject: [PATCH 54/76] fix: appending to the result of unique_values() skipped
 offsets unset at the end of the input

---
 teds.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teds.c b/teds.c
index 16ea45c..8b36576 100644
--- a/teds.c
+++ b/teds.c
@@ -459,7 +459,8 @@ static zend_always_inline bool teds_is_list_of_non_references(HashTable *ht) {
 		}
 		i++;
 	} ZEND_HASH_FOREACH_END();
-	return true;
+	/* Elements appended to this must be assigned the next offset, even if elements were unset from the end */
+	return ht->nNextFreeElement == i;
 }
 
 static inline void teds_array_unique_values(zval *input, zval *return_value)
@@ -478,7 +479,7 @@ static inline void teds_array_unique_values(zval *input, zval *return_value)
 		} else {
 			zend_string *str_index;
 			zend_ulong num_index;
-			if (zend_hash_get_current_key_ex(ht, &str_index, &num_index, &start) == HASH_KEY_IS_LONG && num_index == 0) {
+			if (zend_hash_get_current_key_ex(ht, &str_index, &num_index, &start) == HASH_KEY_IS_LONG && num_index == 0 && ht->nNextFreeElement == 1) {
 				/* The input array is already a single-element list of non-references of size 1 */
 				RETURN_COPY(input); /* This is not refcounted if it is immutable */
 			}
-- 
2.43.0


From 8e12d5a18976e65d7637dcfd5a5b28b7148aac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:40 +0000
Subject: [PATCH 55/76] fix: EmptySequence::offsetGet/offsetExists/containsKey
 returned null for offsets such as "0" or true

---
 teds_emptycollection.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 29b0c57..9c734d1 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -232,7 +232,9 @@ PHP_METHOD(Teds_EmptySequence, offsetGet)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	teds_throw_invalid_sequence_index_exception();
 }
@@ -279,7 +281,9 @@ PHP_METHOD(Teds_EmptySequence, offsetExists)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From c7f0fd26f17e820602e5fc58eeeaf8a6a7876e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 56/76] fix: EmptySequence::contains() and EmptySet::contains()
 rejected values that are not valid offsets

---
 teds_emptycollection.stub.php  | 3 +--
 teds_emptycollection_arginfo.h | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 240f340..7cb1919 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -115,7 +115,6 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     public function indexOf(mixed $value): ?int {}
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
      */
     public function contains(mixed $value): bool {}
 
@@ -304,7 +303,7 @@ enum EmptySet implements \Iterator, Set, \JsonSerializable
 
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
+     * @implementation-alias Teds\EmptySequence::contains
      */
     public function contains(mixed $value): bool {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 28f9770..4f25a9e 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 5f15d481b4e91cfc2590a84139279e5d4d4f0ecd */
+ * Stub hash: 219030b063e1694938823ccd038124c5e17fc5dc */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -393,7 +393,7 @@ static const zend_function_entry class_Teds_EmptySequence_methods[] = {
 	ZEND_ME(Teds_EmptySequence, offsetSet, arginfo_class_Teds_EmptySequence_offsetSet, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetUnset, arginfo_class_Teds_EmptySequence_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, indexOf, arginfo_class_Teds_EmptySequence_indexOf, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptySequence, contains, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, map, arginfo_class_Teds_EmptySequence_map, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, filter, arginfo_class_Teds_EmptySequence_filter, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySequence_jsonSerialize, ZEND_ACC_PUBLIC)
@@ -440,7 +440,7 @@ static const zend_function_entry class_Teds_EmptySet_methods[] = {
 	ZEND_MALIAS(Teds_StrictMinHeap, clear, rewind, arginfo_class_Teds_EmptySet_clear, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, toArray, toArray, arginfo_class_Teds_EmptySet_toArray, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, values, toArray, arginfo_class_Teds_EmptySet_values, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, add, offsetUnset, arginfo_class_Teds_EmptySet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, remove, contains, arginfo_class_Teds_EmptySet_remove, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySet_jsonSerialize, ZEND_ACC_PUBLIC)
-- 
2.43.0


From 5749007fbd3faa0dcb79dfc495a714834bd29f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:43 +0000
Subject: [PATCH 57/76] fix: unset() of a key of EmptyMap threw
 ArgumentCountError

---
 teds_emptycollection.stub.php  | 1 -
 teds_emptycollection_arginfo.h | 7 +++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 7cb1919..c87529e 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -212,7 +212,6 @@ enum EmptyMap implements \Iterator, Map, \JsonSerializable
     public function offsetSet(mixed $key, mixed $value): never {}
     /**
      * No-op for empty map.
-     * @implementation-alias Teds\StrictMinHeap::rewind
      */
     public function offsetUnset(mixed $key): void {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 4f25a9e..a0f8d39 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 219030b063e1694938823ccd038124c5e17fc5dc */
+ * Stub hash: cf4a56a254cae15264d4acaa381720fa07436386 */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -362,6 +362,9 @@ ZEND_METHOD(Teds_EmptySequence, valid);
 ZEND_METHOD(Teds_EmptyMap, offsetGet);
 #endif
 #if PHP_VERSION_ID >= 80100
+ZEND_METHOD(Teds_EmptyMap, offsetUnset);
+#endif
+#if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptySequence, contains);
 #endif
 #if PHP_VERSION_ID >= 80100
@@ -418,7 +421,7 @@ static const zend_function_entry class_Teds_EmptyMap_methods[] = {
 	ZEND_ME(Teds_EmptyMap, offsetGet, arginfo_class_Teds_EmptyMap_offsetGet, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetExists, contains, arginfo_class_Teds_EmptyMap_offsetExists, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetSet, offsetSet, arginfo_class_Teds_EmptyMap_offsetSet, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_StrictMinHeap, offsetUnset, rewind, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptyMap, offsetUnset, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptyMap_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, containsKey, contains, arginfo_class_Teds_EmptyMap_containsKey, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptyMap, get, arginfo_class_Teds_EmptyMap_get, ZEND_ACC_PUBLIC)
-- 
2.43.0


From 828d790e01a474d6523e367b13c43027fceb3545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:45 +0000
Subject: [PATCH 58/76] fix: EmptyMap::offsetGet() returned null instead of
 throwing

---
 teds_emptycollection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 9c734d1..3128a0a 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -246,7 +246,7 @@ PHP_METHOD(Teds_EmptyMap, offsetGet)
 		Z_PARAM_ZVAL(offset_zv)
 	ZEND_PARSE_PARAMETERS_END();
 
-	RETURN_NULL();
+	TEDS_THROW_MISSING_MAP_KEY_EXCEPTION();
 }
 
 PHP_METHOD(Teds_EmptyMap, offsetUnset)
-- 
2.43.0


From 2557c33145289dd59a8d1d0df8b8497c2d90720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:20 +0000
Subject: [PATCH 59/76] fix: EmptySequence::first() and last() threw
 OutOfBoundsException instead of the documented UnderflowException

---
 teds_emptycollection.c         |  9 +++++++++
 teds_emptycollection.stub.php  | 12 ++++++------
 teds_emptycollection_arginfo.h | 17 ++++++++++-------
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 3128a0a..77923a6 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -216,6 +216,15 @@ ZEND_COLD PHP_METHOD(Teds_EmptySequence, pop)
 }
 
 ZEND_COLD PHP_METHOD(Teds_EmptySequence, first)
+{
+	if (zend_parse_parameters_none() == FAILURE) {
+		RETURN_THROWS();
+	}
+	zend_throw_exception(spl_ce_UnderflowException, "Cannot get element of empty Teds\\EmptySequence", 0);
+	RETURN_THROWS();
+}
+
+ZEND_COLD PHP_METHOD(Teds_EmptySequence, current)
 {
 	if (zend_parse_parameters_none() == FAILURE) {
 		RETURN_THROWS();
diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index c87529e..3b101b3 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -135,11 +135,11 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     public function valid(): bool { }
 
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @throws \OutOfBoundsException unconditionally
      */
     public function current(): never { }
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function key(): never { }
     /**
@@ -247,11 +247,11 @@ enum EmptyMap implements \Iterator, Map, \JsonSerializable
     public function valid(): bool { }
 
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function current(): never { }
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function key(): never { }
     /**
@@ -331,11 +331,11 @@ enum EmptySet implements \Iterator, Set, \JsonSerializable
      */
     public function valid(): bool { }
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function current(): never { }
     /**
-     * @implementation-alias Teds\EmptySequence::first
+     * @implementation-alias Teds\EmptySequence::current
      */
     public function key(): never { }
     /**
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index a0f8d39..1b0150f 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: cf4a56a254cae15264d4acaa381720fa07436386 */
+ * Stub hash: 08603856dbf101cef60a25da85d7d47d6b55486e */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -359,6 +359,9 @@ ZEND_METHOD(Teds_EmptySequence, filter);
 ZEND_METHOD(Teds_EmptySequence, valid);
 #endif
 #if PHP_VERSION_ID >= 80100
+ZEND_METHOD(Teds_EmptySequence, current);
+#endif
+#if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptyMap, offsetGet);
 #endif
 #if PHP_VERSION_ID >= 80100
@@ -401,8 +404,8 @@ static const zend_function_entry class_Teds_EmptySequence_methods[] = {
 	ZEND_ME(Teds_EmptySequence, filter, arginfo_class_Teds_EmptySequence_filter, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySequence_jsonSerialize, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, valid, arginfo_class_Teds_EmptySequence_valid, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, current, first, arginfo_class_Teds_EmptySequence_current, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, key, first, arginfo_class_Teds_EmptySequence_key, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptySequence, current, arginfo_class_Teds_EmptySequence_current, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, key, current, arginfo_class_Teds_EmptySequence_key, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, next, rewind, arginfo_class_Teds_EmptySequence_next, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, rewind, rewind, arginfo_class_Teds_EmptySequence_rewind, ZEND_ACC_PUBLIC)
 	ZEND_FE_END
@@ -427,8 +430,8 @@ static const zend_function_entry class_Teds_EmptyMap_methods[] = {
 	ZEND_ME(Teds_EmptyMap, get, arginfo_class_Teds_EmptyMap_get, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptyMap_jsonSerialize, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, valid, valid, arginfo_class_Teds_EmptyMap_valid, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, current, first, arginfo_class_Teds_EmptyMap_current, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, key, first, arginfo_class_Teds_EmptyMap_key, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, current, current, arginfo_class_Teds_EmptyMap_current, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, key, current, arginfo_class_Teds_EmptyMap_key, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, next, rewind, arginfo_class_Teds_EmptyMap_next, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, rewind, rewind, arginfo_class_Teds_EmptyMap_rewind, ZEND_ACC_PUBLIC)
 	ZEND_FE_END
@@ -448,8 +451,8 @@ static const zend_function_entry class_Teds_EmptySet_methods[] = {
 	ZEND_MALIAS(Teds_EmptySequence, remove, contains, arginfo_class_Teds_EmptySet_remove, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySet_jsonSerialize, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, valid, valid, arginfo_class_Teds_EmptySet_valid, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, current, first, arginfo_class_Teds_EmptySet_current, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, key, first, arginfo_class_Teds_EmptySet_key, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, current, current, arginfo_class_Teds_EmptySet_current, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, key, current, arginfo_class_Teds_EmptySet_key, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, next, rewind, arginfo_class_Teds_EmptySet_next, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_StrictMinHeap, rewind, rewind, arginfo_class_Teds_EmptySet_rewind, ZEND_ACC_PUBLIC)
 	ZEND_FE_END
-- 
2.43.0


From ad750492a5ee527e52a50d44806c21383b8667be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:25 +0000
Subject: [PATCH 60/76] fix: cloning a BitVector allocated its size in bytes
 once per bit

---
 teds_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 9d2e9b8..ad6bc64 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -272,7 +272,7 @@ static void teds_bitvector_entries_copy_ctor(teds_bitvector_entries *to, const t
 	to->bit_size = 0; /* reset bit_size in case emalloc() fails */
 	to->bit_capacity = 0;
 	const size_t bytes_needed = BYTES_FOR_BIT_SIZE(bit_size);
-	to->entries_bits = safe_emalloc(bit_size, bytes_needed, 0);
+	to->entries_bits = emalloc(bytes_needed);
 	to->bit_size = bit_size;
 	to->bit_capacity = bytes_needed * 8;
 
-- 
2.43.0


From dfc91f8a1d91afe96a8964ec6bb4da77421532f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:18 +0000
Subject: [PATCH 61/76] fix: removing entries of a StrictHashSet/StrictHashMap
 while iterating over it took quadratic time

---
 teds_stricthashmap.c | 41 ++++++++++++++++++++++++-----------------
 teds_stricthashset.c | 41 ++++++++++++++++++++++++-----------------
 2 files changed, 48 insertions(+), 34 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index f4d4671..e8232cb 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -401,19 +401,20 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 	} while (dllist_node != NULL);
 }
 
-/* Move iterators pointing to the removed entry to the previous entry, which may be before the start of the data (in which case calling next() would make it valid again).
+/* Iterators pointing to the removed entry are on the previous entry, which may be before the start of the data (in which case calling next() would make it valid again).
+ * They stay at the gap until they are used again, because looking for the previous entry would make removing every entry in a loop take quadratic time.
  * Iterators which were past the end stay past the end. */
 static void teds_stricthashmap_iterators_adjust_after_remove(teds_stricthashmap_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
 {
 	const uint32_t nNumUsed = array->nNumUsed;
 	do {
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
-		if (it->current == removed_idx) {
-			do {
-				it->current--;
-			} while (it->current != (uint32_t) -1 && Z_ISUNDEF(array->arData[it->current].key));
-		} else if (it->current > nNumUsed && it->current != (uint32_t) -1) {
-			it->current = nNumUsed;
+		if (it->current == (uint32_t) -1) {
+			/* Already before the start */
+		} else if (it->current < array->nFirstUsed) {
+			it->current = (uint32_t) -1;
+		} else if (it->current >= nNumUsed) {
+			it->current = it->current <= removed_idx ? nNumUsed - 1 : nNumUsed;
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -755,26 +756,32 @@ static void teds_stricthashmap_it_rewind(zend_object_iterator *iter)
 	((teds_stricthashmap_it*)iter)->current = Z_STRICTHASHMAP_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
+/* Move an iterator from the gap left by a removed entry to the previous entry, or to before the start of the data */
+static zend_always_inline void teds_stricthashmap_it_skip_gap(const teds_stricthashmap_entries *array, teds_stricthashmap_it *iterator)
+{
+	while (iterator->current < array->nNumUsed && Z_ISUNDEF(array->arData[iterator->current].key)) {
+		iterator->current--;
+	}
+}
+
 static int teds_stricthashmap_it_valid(zend_object_iterator *iter)
 {
-	const teds_stricthashmap_it      *iterator = (teds_stricthashmap_it*)iter;
+	teds_stricthashmap_it            *iterator = (teds_stricthashmap_it*)iter;
 	const teds_stricthashmap_entries *array    = Z_STRICTHASHMAP_ENTRIES_P(&iter->data);
 
 	ZEND_ASSERT((array->nNumUsed > 0) == (array->nNumOfElements > 0));
 	ZEND_ASSERT(array->nFirstUsed <= array->nNumUsed);
 
+	teds_stricthashmap_it_skip_gap(array, iterator);
 	return iterator->current < array->nNumUsed && iterator->current >= array->nFirstUsed ? SUCCESS : FAILURE;
 }
 
 static teds_stricthashmap_entry *teds_stricthashmap_it_read_offset_helper(const teds_stricthashmap *intern, teds_stricthashmap_it *iterator)
 {
 	teds_stricthashmap_entry *const arData = intern->array.arData;
-	while (EXPECTED(iterator->current < intern->array.nNumUsed)) {
-		const zval *v = &arData[iterator->current].key;
-		if (EXPECTED(Z_TYPE_P(v) != IS_UNDEF)) {
-			return &arData[iterator->current];
-		}
-		iterator->current++;
+	teds_stricthashmap_it_skip_gap(&intern->array, iterator);
+	if (EXPECTED(iterator->current < intern->array.nNumUsed)) {
+		return &arData[iterator->current];
 	}
 	zend_throw_exception(spl_ce_OutOfBoundsException, "Attempting to access iterator after the end of the Teds\\StrictHashMap", 0);
 	return NULL;
@@ -1168,9 +1175,6 @@ static bool teds_stricthashmap_entries_remove_key(teds_stricthashmap_entries *ar
 			array->nNumUsed--;
 		} while (array->nNumUsed > 0 && (UNEXPECTED(Z_TYPE(array->arData[array->nNumUsed-1].key) == IS_UNDEF)));
 	}
-	if (UNEXPECTED(array->active_iterators.first)) {
-		teds_stricthashmap_iterators_adjust_after_remove(array, array->active_iterators.first, idx);
-	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
 			ZEND_ASSERT(array->nNumUsed == 0);
@@ -1183,6 +1187,9 @@ static bool teds_stricthashmap_entries_remove_key(teds_stricthashmap_entries *ar
 			ZEND_ASSERT(array->nFirstUsed < array->nNumUsed);
 		}
 	}
+	if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashmap_iterators_adjust_after_remove(array, array->active_iterators.first, idx);
+	}
 	zval old_key;
 	zval old_value;
 	ZVAL_COPY_VALUE(&old_key, &entry->key);
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index b647ed0..68f68a1 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -364,19 +364,20 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 	} while (dllist_node != NULL);
 }
 
-/* Move iterators pointing to the removed entry to the previous entry, which may be before the start of the data (in which case calling next() would make it valid again).
+/* Iterators pointing to the removed entry are on the previous entry, which may be before the start of the data (in which case calling next() would make it valid again).
+ * They stay at the gap until they are used again, because looking for the previous entry would make removing every entry in a loop take quadratic time.
  * Iterators which were past the end stay past the end. */
 static void teds_stricthashset_iterators_adjust_after_remove(teds_stricthashset_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
 {
 	const uint32_t nNumUsed = array->nNumUsed;
 	do {
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
-		if (it->current == removed_idx) {
-			do {
-				it->current--;
-			} while (it->current != (uint32_t) -1 && Z_ISUNDEF(array->arData[it->current].key));
-		} else if (it->current > nNumUsed && it->current != (uint32_t) -1) {
-			it->current = nNumUsed;
+		if (it->current == (uint32_t) -1) {
+			/* Already before the start */
+		} else if (it->current < array->nFirstUsed) {
+			it->current = (uint32_t) -1;
+		} else if (it->current >= nNumUsed) {
+			it->current = it->current <= removed_idx ? nNumUsed - 1 : nNumUsed;
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -713,26 +714,32 @@ static void teds_stricthashset_it_rewind(zend_object_iterator *iter)
 	((teds_stricthashset_it*)iter)->current = Z_STRICTHASHSET_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
+/* Move an iterator from the gap left by a removed entry to the previous entry, or to before the start of the data */
+static zend_always_inline void teds_stricthashset_it_skip_gap(const teds_stricthashset_entries *array, teds_stricthashset_it *iterator)
+{
+	while (iterator->current < array->nNumUsed && Z_ISUNDEF(array->arData[iterator->current].key)) {
+		iterator->current--;
+	}
+}
+
 static int teds_stricthashset_it_valid(zend_object_iterator *iter)
 {
-	const teds_stricthashset_it      *iterator = (teds_stricthashset_it*)iter;
+	teds_stricthashset_it            *iterator = (teds_stricthashset_it*)iter;
 	const teds_stricthashset_entries *array   = Z_STRICTHASHSET_ENTRIES_P(&iter->data);
 
 	ZEND_ASSERT((array->nNumUsed > 0) == (array->nNumOfElements > 0));
 	ZEND_ASSERT(array->nFirstUsed <= array->nNumUsed);
 
+	teds_stricthashset_it_skip_gap(array, iterator);
 	return iterator->current < array->nNumUsed && iterator->current >= array->nFirstUsed ? SUCCESS : FAILURE;
 }
 
 static teds_stricthashset_entry *teds_stricthashset_it_read_offset_helper(teds_stricthashset *intern, teds_stricthashset_it *iterator)
 {
 	teds_stricthashset_entry *const arData = intern->array.arData;
-	while (EXPECTED(iterator->current < intern->array.nNumUsed)) {
-		const zval *v = &arData[iterator->current].key;
-		if (EXPECTED(Z_TYPE_P(v) != IS_UNDEF)) {
-			return &arData[iterator->current];
-		}
-		iterator->current++;
+	teds_stricthashset_it_skip_gap(&intern->array, iterator);
+	if (EXPECTED(iterator->current < intern->array.nNumUsed)) {
+		return &arData[iterator->current];
 	}
 	zend_throw_exception(spl_ce_OutOfBoundsException, "Attempting to access iterator after the end of the Teds\\StrictHashSet", 0);
 	return NULL;
@@ -968,9 +975,6 @@ static bool teds_stricthashset_entries_remove_key(teds_stricthashset_entries *ar
 			array->nNumUsed--;
 		} while (array->nNumUsed > 0 && (UNEXPECTED(Z_TYPE(array->arData[array->nNumUsed-1].key) == IS_UNDEF)));
 	}
-	if (UNEXPECTED(array->active_iterators.first)) {
-		teds_stricthashset_iterators_adjust_after_remove(array, array->active_iterators.first, idx);
-	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
 			ZEND_ASSERT(array->nNumUsed == 0);
@@ -983,6 +987,9 @@ static bool teds_stricthashset_entries_remove_key(teds_stricthashset_entries *ar
 			ZEND_ASSERT(array->nFirstUsed < array->nNumUsed);
 		}
 	}
+	if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashset_iterators_adjust_after_remove(array, array->active_iterators.first, idx);
+	}
 	zval old_key;
 	ZVAL_COPY_VALUE(&old_key, &entry->key);
 	ZEND_ASSERT(array->nNumOfElements <= array->nNumUsed);
-- 
2.43.0


From 3412aa33afe1c31d419535f1d2ae68a445968a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:44 +0000
Subject: [PATCH 62/76] fix: IntVector used more memory per element because of
 values it had refused to store

---
 teds_intvector.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 7828b69..ab2b339 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1738,14 +1738,14 @@ TEDS_INTVECTOR__GENERATE_INT_CASES()
 }
 
 static zend_always_inline void teds_intvector_entries_set_value_at_offset(teds_intvector_entries *const array, const zend_long offset, const zend_long value, const bool check_type_tag) {
-	if (check_type_tag) {
-		teds_intvector_entries_update_type_tag(array, value);
-	}
 	const size_t len = array->size;
 	if (UNEXPECTED((zend_ulong) offset >= len)) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (check_type_tag) {
+		teds_intvector_entries_update_type_tag(array, value);
+	}
 	switch (array->type_tag) {
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: \
@@ -2168,7 +2168,10 @@ PHP_METHOD(Teds_IntVector, pushFront)
 			v = Z_LVAL_P(arg);
 		}
 		longs[i] = v;
-		teds_intvector_entries_update_type_tag(array, v);
+	}
+	/* Only change the representation once all of the arguments are known to be valid. */
+	for (uint32_t i = 0; i < argc; i++) {
+		teds_intvector_entries_update_type_tag(array, longs[i]);
 	}
 	const size_t old_size = array->size;
 	const size_t new_size = old_size + argc;
@@ -2231,7 +2234,10 @@ PHP_METHOD(Teds_IntVector, insert)
 			v = Z_LVAL_P(arg);
 		}
 		longs[i] = v;
-		teds_intvector_entries_update_type_tag(array, v);
+	}
+	/* Only change the representation once all of the arguments are known to be valid. */
+	for (uint32_t i = 0; i < argc; i++) {
+		teds_intvector_entries_update_type_tag(array, longs[i]);
 	}
 
 	const uint8_t memory_per_element = teds_intvector_entries_compute_memory_per_element(array);
-- 
2.43.0


From deffff803c38e093a3c32dc1a8e1b0893c42be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:15 +0000
Subject: [PATCH 63/76] fix: iterating over SortedIntVectorSet and
 ImmutableSortedIntSet was undefined behaviour (false assertion about the
 class)

---
 teds_intvector.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index ab2b339..64aeb1e 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -913,8 +913,7 @@ static zend_always_inline void teds_intvector_maybe_adjust_iterators_before_inse
 
 zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *object, int by_ref)
 {
-	// This is final
-	ZEND_ASSERT(ce == teds_ce_IntVector);
+	(void) ce;
 	teds_intvector_it *iterator;
 
 	if (UNEXPECTED(by_ref)) {
-- 
2.43.0


From bc7452625b9101879e944043ef11cc4504a647db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:18 +0000
Subject: [PATCH 64/76] fix: growing a BitVector up to its capacity was
 undefined behaviour (false assertion)

---
 teds_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index ad6bc64..3b08079 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -366,7 +366,7 @@ PHP_METHOD(Teds_BitVector, isEmpty)
 
 static void teds_bitvector_set_range(teds_bitvector_entries *const array, const size_t start_bit, const size_t end_bit, const bool value_bool) {
 	ZEND_ASSERT(start_bit < end_bit);
-	ZEND_ASSERT(end_bit < array->bit_capacity);
+	ZEND_ASSERT(end_bit <= array->bit_capacity);
 	uint8_t *const entries_bits = array->entries_bits;
 	ZEND_ASSERT(entries_bits != NULL);
 
-- 
2.43.0


From dbd341b16d98cbb119f38b82717d0d479a4513e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:22 +0000
Subject: [PATCH 65/76] fix: popFront() of an IntVector/LowMemoryVector filled
 to its capacity was undefined behaviour (false assertion)

---
 teds_intvector.c       | 2 +-
 teds_lowmemoryvector.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 64aeb1e..ca99b57 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2357,8 +2357,8 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_maybe_adjust_iterators_before_remove(array, 0);
 
-	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	array->size--;
+	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index eb1382b..5f3a9c9 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1970,8 +1970,8 @@ PHP_METHOD(Teds_LowMemoryVector, popFront)
 
 	teds_lowmemoryvector_maybe_adjust_iterators_before_remove(array, 0);
 
-	teds_lowmemoryvector_entries_copy_offset(array, 0, return_value, false, true);
 	array->size--;
+	teds_lowmemoryvector_entries_copy_offset(array, 0, return_value, false, true);
 	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
-- 
2.43.0


From 189a91c746eb3108e424345b99537d6317ceed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:24 +0000
Subject: [PATCH 66/76] fix: Vector/MutableIterable::setSize() chose the
 capacity to shrink to from the old size

---
 teds_mutableiterable.c | 1 -
 teds_vector.c          | 1 -
 2 files changed, 2 deletions(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 718dc45..a386fc3 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -544,7 +544,6 @@ PHP_METHOD(Teds_MutableIterable, setSize)
 
 		/* If only a quarter of the reserved space is used, then shrink the capacity but leave some room to grow. */
 		if ((zend_ulong) size < (intern->array.capacity >> 2)) {
-			const uint32_t size = old_size - 1;
 			const uint32_t capacity = size > 2 ? size * 2 : 4;
 			if (capacity < intern->array.capacity) {
 				teds_mutableiterable_shrink_capacity(&intern->array, size, capacity, old_entries);
diff --git a/teds_vector.c b/teds_vector.c
index 4041be6..5324a3f 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -559,7 +559,6 @@ PHP_METHOD(Teds_Vector, setSize)
 
 		/* If only a quarter of the reserved space is used, then shrink the capacity but leave some room to grow. */
 		if ((zend_ulong) size < (array->capacity >> 2)) {
-			const uint32_t size = old_size - 1;
 			const uint32_t capacity = size > 2 ? size * 2 : 4;
 			if (capacity < array->capacity) {
 				teds_vector_shrink_capacity(array, size, capacity, old_entries);
-- 
2.43.0


From ddf849b29add6a2e9aa7122da1f114c572e7cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:27 +0000
Subject: [PATCH 67/76] fix: StrictTreeMap/StrictTreeSet leaked elements added
 to them before they were unserialized

---
 teds_stricttreemap.c | 8 ++------
 teds_stricttreemap.h | 1 -
 teds_stricttreeset.c | 8 ++------
 teds_stricttreeset.h | 1 -
 4 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 700d1c4..35ded9e 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -277,12 +277,8 @@ static zend_always_inline teds_stricttreemap_it *teds_stricttreemap_it_from_dlli
 
 static zend_always_inline bool teds_stricttreemap_tree_uninitialized(teds_stricttreemap_tree *tree)
 {
-	if (tree->initialized) {
-		return false;
-	}
-	ZEND_ASSERT(tree->root == NULL);
-	ZEND_ASSERT(tree->nNumOfElements == 0);
-	return true;
+	/* When unserializing, other objects may have added elements before this object was initialized. */
+	return !tree->initialized && tree->root == NULL;
 }
 
 static zend_always_inline void teds_stricttreemap_tree_set_empty_tree(teds_stricttreemap_tree *tree)
diff --git a/teds_stricttreemap.h b/teds_stricttreemap.h
index e8e0396..e91d3f2 100644
--- a/teds_stricttreemap.h
+++ b/teds_stricttreemap.h
@@ -167,7 +167,6 @@ static zend_always_inline bool teds_stricttreemap_tree_empty_size(const teds_str
 {
 	if (tree->nNumOfElements > 0) {
 		ZEND_ASSERT(tree->root != NULL);
-		ZEND_ASSERT(tree->initialized);
 		return false;
 	}
 	ZEND_ASSERT(tree->root == NULL);
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 5649fb4..065f512 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -264,12 +264,8 @@ static zend_always_inline teds_stricttreeset_it *teds_stricttreeset_it_from_dlli
 
 static zend_always_inline bool teds_stricttreeset_tree_uninitialized(teds_stricttreeset_tree *tree)
 {
-	if (tree->initialized) {
-		return false;
-	}
-	ZEND_ASSERT(tree->root == NULL);
-	ZEND_ASSERT(tree->nNumOfElements == 0);
-	return true;
+	/* When unserializing, other objects may have added elements before this object was initialized. */
+	return !tree->initialized && tree->root == NULL;
 }
 
 static zend_always_inline void teds_stricttreeset_tree_set_empty_tree(teds_stricttreeset_tree *tree)
diff --git a/teds_stricttreeset.h b/teds_stricttreeset.h
index a7ff7a4..3eb3ac4 100644
--- a/teds_stricttreeset.h
+++ b/teds_stricttreeset.h
@@ -157,7 +157,6 @@ static zend_always_inline bool teds_stricttreeset_tree_empty_size(const teds_str
 {
 	if (tree->nNumOfElements > 0) {
 		ZEND_ASSERT(tree->root != NULL);
-		ZEND_ASSERT(tree->initialized);
 		return false;
 	}
 	ZEND_ASSERT(tree->root == NULL);
-- 
2.43.0


From ddd4a3f3e587ac93977054d5f1e479ccb25948e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 68/76] fix: json_encode() of a non-empty
 StrictMinHeap/StrictMaxHeap was undefined behaviour

---
 teds_vector.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/teds_vector.c b/teds_vector.c
index 5324a3f..b62e6b6 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -378,11 +378,9 @@ HashTable* teds_vector_get_properties_for(zend_object *obj, zend_prop_purpose pu
 #endif
 		case ZEND_PROP_PURPOSE_ARRAY_CAST:
 		case ZEND_PROP_PURPOSE_SERIALIZE:
-			return teds_vector_entries_to_refcounted_array(array);
-		case ZEND_PROP_PURPOSE_JSON: /* jsonSerialize and get_properties() is used instead. */
+		case ZEND_PROP_PURPOSE_JSON: /* Vector::jsonSerialize() is used instead, but StrictMinHeap and StrictMaxHeap do not have it. */
 		default:
-			ZEND_UNREACHABLE();
-			return NULL;
+			return teds_vector_entries_to_refcounted_array(array);
 	}
 }
 
-- 
2.43.0


From 14767351118232444cabcb533be90cdcc354bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:04 +0000
Subject: [PATCH 69/76] fix: iterators of a StrictHashMap/StrictHashSet whose
 constructor failed kept positions past its end

---
 teds_stricthashmap.c | 2 +-
 teds_stricthashset.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index e8232cb..48e9347 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -1388,6 +1388,7 @@ static void teds_stricthashmap_clear(teds_stricthashmap *intern) {
 	}
 	teds_stricthashmap_entries array_copy = *array;
 
+	teds_stricthashmap_iterators_maybe_reset(array);
 	teds_stricthashmap_entries_set_empty_entry_list(array);
 	if (intern->std.properties) {
 		zend_hash_clean(intern->std.properties);
@@ -1401,7 +1402,6 @@ PHP_METHOD(Teds_StrictHashMap, clear)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
 	teds_stricthashmap *intern = Z_STRICTHASHMAP_P(ZEND_THIS);
-	teds_stricthashmap_iterators_maybe_reset(&intern->array);
 	teds_stricthashmap_clear(intern);
 	TEDS_RETURN_VOID();
 }
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 68f68a1..86ba438 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -1055,6 +1055,7 @@ static void teds_stricthashset_clear(teds_stricthashset *intern) {
 	}
 	teds_stricthashset_entries array_copy = *array;
 
+	teds_stricthashset_iterators_maybe_reset(array);
 	teds_stricthashset_entries_set_empty_entry_list(array);
 	if (intern->std.properties) {
 		zend_hash_clean(intern->std.properties);
@@ -1068,7 +1069,6 @@ PHP_METHOD(Teds_StrictHashSet, clear)
 {
 	ZEND_PARSE_PARAMETERS_NONE();
 	teds_stricthashset *intern = Z_STRICTHASHSET_P(ZEND_THIS);
-	teds_stricthashset_iterators_maybe_reset(&intern->array);
 	teds_stricthashset_clear(intern);
 	TEDS_RETURN_VOID();
 }
-- 
2.43.0


From 30b4e75b8bce739a82a27f88b43a0c3d3f5599b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:45 +0000
Subject: [PATCH 70/76] fix: iterators of a StrictHashSet whose constructor
 failed kept positions past its end

---
 teds_stricthashset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 86ba438..2cc4d2e 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -1044,6 +1044,7 @@ static void teds_stricthashset_entries_clear(teds_stricthashset_entries *array)
 		return;
 	}
 	teds_stricthashset_entries array_copy = *array;
+	teds_stricthashset_iterators_maybe_reset(array);
 	teds_stricthashset_entries_set_empty_entry_list(array);
 	teds_stricthashset_entries_dtor(&array_copy);
 }
-- 
2.43.0


From f21e83baa30c064bbc91d92507654e29074c8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:56 +0000
Subject: [PATCH 71/76] fix: unique_values() left the iterator list of its
 temporary set uninitialized

---
 teds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds.c b/teds.c
index 8b36576..1fe101d 100644
--- a/teds.c
+++ b/teds.c
@@ -489,7 +489,7 @@ static inline void teds_array_unique_values(zval *input, zval *return_value)
 		zend_hash_next_index_insert(result, value);
 		RETURN_ARR(result);
 	}
-	teds_stricthashset_entries array;
+	teds_stricthashset_entries array = {0};
 	teds_stricthashset_entries_init_from_array(&array, ht);
 	if (UNEXPECTED(EG(exception))) {
 		RETURN_THROWS();
@@ -505,7 +505,7 @@ static inline void teds_array_unique_values(zval *input, zval *return_value)
 
 static inline void teds_traversable_unique_values(zend_object *obj, zval *return_value)
 {
-	teds_stricthashset_entries array;
+	teds_stricthashset_entries array = {0};
 	teds_stricthashset_entries_init_from_traversable(&array, obj);
 	if (UNEXPECTED(EG(exception))) {
 		RETURN_THROWS();
-- 
2.43.0


From d2024ffc4dffd0cb81563444cd783643f4c59e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:58 +0000
Subject: [PATCH 72/76] fix: reading a 16-bit size of serialized data read two
 bytes beyond it

teds_serialize_read_uint16_t() added data[2] and data[3], which may lie beyond the end of the string (visible in builds without optimization), and shifted into the sign bit.
---
 teds_serialize_util.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/teds_serialize_util.h b/teds_serialize_util.h
index 9b2c007..5a943fb 100644
--- a/teds_serialize_util.h
+++ b/teds_serialize_util.h
@@ -14,9 +14,7 @@ static zend_always_inline HashTable *teds_create_serialize_pair(const uint8_t ty
 static zend_always_inline uint16_t teds_serialize_read_uint16_t(const uint8_t *data) {
 	return
 		(data[0] << 0) +
-		(data[1] << 8) +
-		(data[2] << 16) +
-		(data[3] << 24);
+		(data[1] << 8);
 }
 
 static zend_always_inline void teds_serialize_write_uint16_t(uint8_t *dst, uint16_t value)
-- 
2.43.0


From fcd64acd2d18d99c06d74d718d43b8c7ee667be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:14 +0000
Subject: [PATCH 73/76] fix: reading CachedIterable iterators before checking
 valid() threw for existing elements

Elements are only fetched by valid(), so that current() and key() of an
iterator that was just created or advanced claimed that the offset was out of
range.
---
 teds_cachediterable.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 39b52d4..feb1667 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -564,7 +564,16 @@ static zval_pair *teds_cachediterable_read_offset_helper(teds_cachediterable *in
 {
 	/* we have to return NULL on error here to avoid memleak because of
 	 * ZE duplicating uninitialized_zval_ptr */
-	if (UNEXPECTED(offset >= intern->array.size)) {
+	teds_cachediterable_entries *array = &intern->array;
+	/* The iterator may be read without checking if it is valid first. */
+	if (UNEXPECTED(offset >= array->size) && !teds_cachediterable_entries_ensure_offset_exists(array, offset)) {
+		if (EG(exception)) {
+			return NULL;
+		}
+		if (UNEXPECTED(array->end_exception)) {
+			teds_cachediterable_entries_throw_end_exception(array);
+			return NULL;
+		}
 		teds_throw_invalid_collection_offset_exception();
 		return NULL;
 	} else {
-- 
2.43.0


From c3f17988ec335d17fe085028b1ee9909a8cc4a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:52 +0000
Subject: [PATCH 74/76] fix: LowMemoryVector::offsetExists() leaked a reference
 to the value

---
 teds_lowmemoryvector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 5f3a9c9..5da6abc 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1208,9 +1208,10 @@ PHP_METHOD(Teds_LowMemoryVector, offsetExists)
 		RETURN_FALSE;
 	}
 	ZEND_ASSERT(offset >= 0);
+	/* Unlike get(), this does not add a reference to the value. */
 	zval tmp;
-	teds_lowmemoryvector_get_value_at_offset(&tmp, ZEND_THIS, offset);
-	RETURN_BOOL(Z_TYPE(tmp) != IS_NULL);
+	const zval *const val = teds_lowmemoryvector_entries_read_offset(array, offset, &tmp);
+	RETURN_BOOL(Z_TYPE_P(val) != IS_NULL);
 }
 
 PHP_METHOD(Teds_LowMemoryVector, containsKey)
-- 
2.43.0


From eccab2521fe0a4807db1446936775922efad5f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:52 +0000
Subject: [PATCH 75/76] fix: report the collection held by LowMemoryVector,
 ImmutableSequence and ImmutableIterable iterators to the garbage collector

---
 teds_immutableiterable.c | 2 +-
 teds_immutablesequence.c | 2 +-
 teds_lowmemoryvector.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index ef58a8c..6d6c10f 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -536,7 +536,7 @@ static const zend_object_iterator_funcs teds_immutableiterable_it_funcs = {
 	teds_immutableiterable_it_move_forward,
 	teds_immutableiterable_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 5725c17..e65f8e2 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -523,7 +523,7 @@ static const zend_object_iterator_funcs teds_immutablesequence_it_funcs = {
 	teds_immutablesequence_it_move_forward,
 	teds_immutablesequence_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 5da6abc..e6b7777 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -609,7 +609,7 @@ static const zend_object_iterator_funcs teds_lowmemoryvector_it_funcs = {
 	teds_lowmemoryvector_it_move_forward,
 	teds_lowmemoryvector_it_rewind,
 	NULL,
-	NULL,
+	teds_internaliterator_get_gc,
 };
 
 static void teds_lowmemoryvector_adjust_iterators_before_remove(teds_lowmemoryvector_entries *array, teds_intrusive_dllist_node *node, const size_t removed_offset)
-- 
2.43.0


From aa4022384435cee5e4859604c442be70f0203950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:19 +0000
Subject: [PATCH 76/76] fix: unserializing an empty LowMemoryVector with a type
 tag leaked memory and broke an assertion

---
 teds_lowmemoryvector.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index e6b7777..0dc363e 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -687,6 +687,10 @@ zend_object_iterator *teds_lowmemoryvector_get_iterator(zend_class_entry *ce, zv
 
 static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_lowmemoryvector_entries *array, HashTable *ht) {
 	const uint32_t num_entries = zend_hash_num_elements(ht);
+	if (UNEXPECTED(num_entries == 0)) {
+		teds_lowmemoryvector_entries_set_empty_list(array);
+		return;
+	}
 	zval *entries = emalloc(num_entries * sizeof(zval));
 	zval *it = entries;
 	zval *val;
@@ -867,6 +871,10 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "LowMemoryVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				RETURN_THROWS();
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_lowmemoryvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
-- 
2.43.0

