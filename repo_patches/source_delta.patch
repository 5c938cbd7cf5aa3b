From 4999639693533a7d93cf6ccd1bd21a9cddef3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:14 +0000
Subject: [PATCH 01/60] fix: any/all/none without a callback released a value
 the Traversable still owns

---
 teds.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds.c b/teds.c
index d5ae4ad..d014e01 100644
--- a/teds.c
+++ b/teds.c
@@ -255,7 +255,6 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 		}
 		ZVAL_DEREF(operand);
 		stop = zend_is_true(operand) == until_info->stop_value;
-		zval_ptr_dtor(operand);
 	}
 	if (stop) {
 		until_info->found = true;
-- 
2.43.0


From ce320a12deea9dabc616dad102af38cdfe5142d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:14 +0000
Subject: [PATCH 02/60] fix: fold/find/any/all/none used a Traversable's
 element after the callback freed it, and find leaked it on exceptions

---
 teds.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/teds.c b/teds.c
index d014e01..d9b41f5 100644
--- a/teds.c
+++ b/teds.c
@@ -139,7 +139,7 @@ static int teds_traversable_reduce_elem(zend_object_iterator *iter, void *puser)
 	ZVAL_COPY(&reduce_data->args[1], operand);
 	ZVAL_NULL(fci->retval);
 	int result = zend_call_function(&reduce_data->fci, &reduce_data->fcc);
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&reduce_data->args[1]);
 	zval_ptr_dtor(&reduce_data->args[0]);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
@@ -233,14 +233,15 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 			return ZEND_HASH_APPLY_STOP;
 		}
 		ZVAL_DEREF(operand);
-		fci.retval = &retval;
+		/* Copy the operand, the callback may free the storage of what is being iterated over */
+		zval arg;
+		ZVAL_COPY(&arg, operand);
 		fci.param_count = 1;
-		/* Use the operand like an array of size 1 */
-		fci.params = operand;
+		/* Use the copy like an array of size 1 */
+		fci.params = &arg;
 		fci.retval = &retval;
-		Z_TRY_ADDREF_P(operand);
 		result = zend_call_function(&fci, &until_info->fcc);
-		zval_ptr_dtor(operand);
+		zval_ptr_dtor(&arg);
 		if (result == FAILURE) {
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
@@ -812,25 +813,28 @@ static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /
 	}
 	ZVAL_DEREF(operand);
     // Treat this as a 1-element array.
-	fci->params = operand;
+	// Copy it, the callback may free the storage of what is being iterated over.
+	zval arg;
+	ZVAL_COPY(&arg, operand);
+	fci->params = &arg;
 	fci->retval = &retval;
-	Z_TRY_ADDREF_P(operand);
 	int result = zend_call_function(&find_data->fci, &find_data->fcc);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
-	fci->retval = &retval;
 	bool found = zend_is_true(&retval);
 	zval_ptr_dtor(&retval);
 	if (UNEXPECTED(EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
 	if (found) {
-		ZVAL_COPY_VALUE(find_data->return_value, operand);
+		ZVAL_COPY_VALUE(find_data->return_value, &arg);
 		find_data->found = 1;
 		return ZEND_HASH_APPLY_STOP;
 	}
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&arg);
 	return ZEND_HASH_APPLY_KEEP;
 }
 
-- 
2.43.0


From cfb38ea69a03c4c9add1d98d570c52d24d366612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:14 +0000
Subject: [PATCH 03/60] fix: find() on an array leaked the callback's return
 value and returned references

---
 teds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds.c b/teds.c
index d9b41f5..e4b096e 100644
--- a/teds.c
+++ b/teds.c
@@ -772,8 +772,12 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 
 			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
 				bool found = zend_is_true(&retval);
+				zval_ptr_dtor(&retval);
 				if (found) {
 					ZVAL_COPY_VALUE(return_value, operand);
+					if (UNEXPECTED(Z_ISREF_P(return_value))) {
+						zend_unwrap_reference(return_value);
+					}
 					return;
 				} else {
 					zval_ptr_dtor(operand);
-- 
2.43.0


From e1ed38183d2845a10c857cd95100f48799198059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:02 +0000
Subject: [PATCH 04/60] fix: map/filter released an uninitialised slot and
 leaked the first result when the callback threw

---
 teds_immutablesequence.c | 4 ++--
 teds_vector.c            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 110210b..0fdafb5 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -826,7 +826,7 @@ PHP_METHOD(Teds_ImmutableSequence, filter)
 cleanup:
 				if (entries) {
 					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+						zval_ptr_dtor(&entries[size - 1]);
 					}
 					efree(entries);
 				}
@@ -951,7 +951,7 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
 				for (; size > 0; size--) {
-					zval_ptr_dtor(&entries[size]);
+					zval_ptr_dtor(&entries[size - 1]);
 				}
 				efree(entries);
 			}
diff --git a/teds_vector.c b/teds_vector.c
index 8f9a36c..e6f23e7 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -915,7 +915,7 @@ PHP_METHOD(Teds_Vector, filter)
 cleanup:
 				if (entries) {
 					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+						zval_ptr_dtor(&entries[size - 1]);
 					}
 					efree(entries);
 				}
@@ -1041,7 +1041,7 @@ PHP_METHOD(Teds_Vector, map)
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
 				for (; size > 0; size--) {
-					zval_ptr_dtor(&entries[size]);
+					zval_ptr_dtor(&entries[size - 1]);
 				}
 				efree(entries);
 			}
-- 
2.43.0


From e69ba62a7b72caadb2ecd838a8f1cdb29537af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:02 +0000
Subject: [PATCH 05/60] fix: map() stored the reference returned by a callback
 that returns by reference

---
 teds_immutablesequence.c | 3 +++
 teds_vector.c            | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 0fdafb5..d1c322d 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -957,6 +957,9 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 			}
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < intern->array.size);
 
diff --git a/teds_vector.c b/teds_vector.c
index e6f23e7..25ff44c 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -1047,6 +1047,9 @@ PHP_METHOD(Teds_Vector, map)
 			}
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < array->size);
 
-- 
2.43.0


From 6bcbfbd5a07ef4f47b549001dd7ad4fb3f613f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:03 +0000
Subject: [PATCH 06/60] fix: cloning a Deque allocated less than the capacity
 it recorded

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 41edae1..5cc5cd9 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -245,7 +245,7 @@ static void teds_deque_entries_copy_ctor(teds_deque_entries *to, const teds_dequ
 	}
 
 	const uint32_t capacity = teds_deque_next_pow2_capacity(size);
-	to->circular_buffer = safe_emalloc(size, sizeof(zval), 0);
+	to->circular_buffer = safe_emalloc(capacity, sizeof(zval), 0);
 	to->size = size;
 	to->mask = capacity - 1;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(to, true);
-- 
2.43.0


From 724c335f691767e291e072b9824dee769963d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:03 +0000
Subject: [PATCH 07/60] fix: Deque reported the wrong slots to the garbage
 collector when its buffer wraps around

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 5cc5cd9..3c86822 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -325,7 +325,7 @@ static HashTable* teds_deque_get_gc(zend_object *obj, zval **table, int *n)
 	}
 
 	for (uint32_t i = 0, len = offset + size - capacity; i < len; i++) {
-		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[len]);
+		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[i]);
 	}
 
 	/* This replaces table and n. */
-- 
2.43.0


From 0ecd087b6e57620ba295fd70b7228f158a3ec21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:03 +0000
Subject: [PATCH 08/60] fix: Deque::clear forgot the active iterators and
 allowed __construct to be called again

---
 teds_deque.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 3c86822..5c78263 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -507,7 +507,11 @@ PHP_METHOD(Teds_Deque, clear)
 	}
 	/* Immediately make the original storage inaccessible and set count/capacity to 0 in case destructors modify the deque */
 	teds_deque_entries old_array = intern->array;
-	memset(&intern->array, 0, sizeof(intern->array));
+	intern->array.circular_buffer = (zval *)empty_entry_list;
+	intern->array.offset = 0;
+	intern->array.size = 0;
+	intern->array.mask = 0;
+	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(&intern->array, true);
 	teds_deque_entries_dtor(&old_array);
 	if (intern->std.properties) {
 		zend_hash_clean(intern->std.properties);
-- 
2.43.0


From 3f23a3b53415f933d611e9da865ec61f68fe18a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:03 +0000
Subject: [PATCH 09/60] fix: Deque::containsKey returned an int and accepted
 offsets that are not ints

---
 teds_deque.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/teds_deque.c b/teds_deque.c
index 5c78263..f961f06 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -841,10 +841,12 @@ PHP_METHOD(Teds_Deque, containsKey)
 		Z_PARAM_ZVAL(offset_zv)
 	ZEND_PARSE_PARAMETERS_END();
 
-	zend_long offset;
-	CONVERT_OFFSET_TO_LONG_OR_THROW(offset, offset_zv);
+	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
+		RETURN_FALSE;
+	}
 
-	RETURN_LONG(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
+	const zend_long offset = Z_LVAL_P(offset_zv);
+	RETURN_BOOL(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
 }
 
 static zval *teds_deque_read_dimension(zend_object *object, zval *offset_zv, int type, zval *rv)
-- 
2.43.0


From a1f67ef111f973bf09d4a6169135356e82a86a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:20 +0000
Subject: [PATCH 10/60] fix: a collection built from an empty Traversable could
 be constructed again

---
 teds_deque.c                 | 4 ++--
 teds_immutableiterable.c     | 7 +++----
 teds_immutablesequence.c     | 2 +-
 teds_mutableiterable.c       | 8 +++-----
 teds_strictheap.c            | 2 +-
 teds_strictsortedvectormap.c | 4 ++--
 teds_strictsortedvectorset.c | 2 +-
 teds_vector.c                | 2 +-
 8 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/teds_deque.c b/teds_deque.c
index f961f06..8ac6a00 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -225,7 +225,7 @@ static void teds_deque_entries_init_from_traversable(teds_deque_entries *array,
 
 	array->size = size;
 	array->mask = capacity > 0 ? capacity - 1 : 0;
-	array->circular_buffer = circular_buffer;
+	array->circular_buffer = circular_buffer ? circular_buffer : (zval *)empty_entry_list;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(array, true);
 cleanup_iter:
 	if (iter) {
@@ -705,7 +705,7 @@ static void teds_deque_entries_init_from_array_values(teds_deque_entries *array,
 	if (num_entries == 0) {
 		array->size = 0;
 		array->mask = 0;
-		array->circular_buffer = NULL;
+		array->circular_buffer = (zval *)empty_entry_list;
 		return;
 	}
 	const size_t capacity = teds_deque_next_pow2_capacity(num_entries);
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 54fb123..d06451e 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -201,7 +201,7 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -632,8 +632,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->entries = NULL;
+		teds_immutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -716,7 +715,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index d1c322d..74f851d 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -181,7 +181,7 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 2a890c1..c845812 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -231,7 +231,7 @@ static void teds_mutableiterable_entries_init_from_traversable(teds_mutableitera
 
 	array->size = size;
 	array->capacity = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -762,9 +762,7 @@ static void teds_mutableiterable_entries_init_from_array_pairs(teds_mutableitera
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->capacity = 0;
-		array->entries = NULL;
+		teds_mutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -851,7 +849,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 
 	array->size = size;
 	array->capacity = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_strictheap.c b/teds_strictheap.c
index 38456fa..3825395 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -144,7 +144,7 @@ static void teds_strictheap_entries_init_from_traversable(teds_strictheap_entrie
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (zval *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 5b0a443..908ed22 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -167,7 +167,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable(teds_strict
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
@@ -538,7 +538,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 348a58f..6e54043 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -267,7 +267,7 @@ static void teds_strictsortedvectorset_entries_init_from_traversable(teds_strict
 
 	array->size = size;
 	array->capacity = capacity;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval *)empty_entry_list;
 	TEDS_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
 	if (size > 1) {
 		teds_strictsortedvectorset_entries_sort_and_deduplicate(array);
diff --git a/teds_vector.c b/teds_vector.c
index 25ff44c..ded94f4 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -210,7 +210,7 @@ static void teds_vector_entries_init_from_traversable(teds_vector_entries *array
 	array->size = size;
 	TEDS_VECTOR_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
 	array->capacity = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
-- 
2.43.0


From 7dceaa565e1e1d6229f9157c96bea50ce407412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:31 +0000
Subject: [PATCH 11/60] fix: fromPairs() leaked the iterator when rewinding it
 threw

---
 teds_immutableiterable.c     | 1 +
 teds_mutableiterable.c       | 1 +
 teds_stricthashmap.c         | 1 +
 teds_strictsortedvectormap.c | 1 +
 teds_stricttreemap.c         | 1 +
 5 files changed, 5 insertions(+)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index d06451e..0bb57b3 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -676,6 +676,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index c845812..90f3957 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -809,6 +809,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 7570ebc..b4f63a9 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -972,6 +972,7 @@ static void teds_stricthashmap_entries_init_from_traversable_pairs(teds_strictha
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 908ed22..b60991d 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -552,6 +552,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 89efe4f..d0eebf2 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -969,6 +969,7 @@ static void teds_stricttreemap_tree_init_from_traversable_pairs(teds_stricttreem
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
-- 
2.43.0


From 5794986efdff9f27df4463972ed48f3044141501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:10 +0000
Subject: [PATCH 12/60] fix: IntVector::popFront moved too few bytes for
 elements wider than a byte

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 8430c46..6691dc6 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2301,7 +2301,7 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	array->size--;
-	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element + (old_size - 1));
+	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
 		const size_t size = old_size - 1;
-- 
2.43.0


From fb66c0af63a8eaf1d5b487853b0d6e36e8be485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:10 +0000
Subject: [PATCH 13/60] fix: SortedIntVectorSet::indexOf returned false instead
 of null for a value wider than the stored ints

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 6691dc6..1bb0137 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1619,7 +1619,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, indexOf)
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: { \
 			const intx_t target = value; \
-			if (target != value) { RETURN_FALSE; } \
+			if (target != value) { RETURN_NULL(); } \
 			const intx_t *const entries = array->entries_intx; \
 			const intx_t *start = entries; \
 			const intx_t *end = start + len; \
-- 
2.43.0


From 446428f3d1315044592b8854baddb5c5e4933cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:10 +0000
Subject: [PATCH 14/60] fix: IntVector freed the static empty list when
 promoting the int type of an empty vector

---
 teds_intvector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 1bb0137..927ac67 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1799,7 +1799,8 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
-		const size_t capacity = array->capacity >= 2 ? array->capacity : 4; \
+		const size_t old_capacity = array->capacity; \
+		const size_t capacity = old_capacity >= 2 ? old_capacity : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = teds_intvector_emalloc_byte_array(capacity, sizeof(int_larger)); \
 		const int_larger *const end = entries_larger + size; \
@@ -1808,7 +1809,7 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			teds_intvector_efree_byte_array(original_entries); \
 		} \
 		return; \
-- 
2.43.0


From c00255834c15eb9b0183efcbb972aaa4cb74e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:46 +0000
Subject: [PATCH 15/60] fix: unserializing an IntVector with an unknown type
 tag was undefined, and failures and empty payloads leaked

---
 teds_intvector.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 927ac67..c9cc39e 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -917,8 +917,6 @@ zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *ob
 
 static void teds_intvector_entries_unserialize_from_string(teds_intvector_entries *array, const char *strval, const size_t str_byte_length, const uint8_t type_tag)
 {
-	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -934,7 +932,12 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "IntVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (num_elements == 0) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
+			array->type_tag = type_tag;
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
 			array->capacity = num_elements;
@@ -976,14 +979,12 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 			break;
 		}
 		default:
-			ZEND_UNREACHABLE();
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\IntVector unserialize got unsupported type tag %d", (int)type_tag);
 	}
 }
 
 static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intvector_entries *array, zend_string *src_str, const uint8_t type_tag)
 {
-	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -1000,6 +1001,11 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "ImmutableSortedIntSet Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (num_elements == 0) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
+			array->type_tag = type_tag;
 			array->size = num_elements;
 			array->capacity = num_elements;
 			/* FIXME assert result is sorted */
@@ -1058,7 +1064,7 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 			break;
 		}
 		default:
-			ZEND_UNREACHABLE();
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\ImmutableSortedIntSet unserialize got unsupported type tag %d", (int)type_tag);
 	}
 }
 
@@ -1217,18 +1223,22 @@ PHP_METHOD(Teds_IntVector, unserialize)
 		Z_PARAM_STR(zstr)
 	ZEND_PARSE_PARAMETERS_END();
 
+	const size_t len = ZSTR_LEN(zstr);
+	if (UNEXPECTED(len == 1)) {
+		zend_throw_exception(spl_ce_RuntimeException, "IntVector::unserialize expected at least 2 bytes", 0);
+		RETURN_THROWS();
+	}
 	zend_object *new_object = teds_intvector_new(teds_ce_IntVector);
 	teds_intvector_entries *array = teds_intvector_entries_from_object(new_object);
-	const size_t len = ZSTR_LEN(zstr);
 	if (len == 0) {
 		teds_intvector_entries_set_empty_list(array);
 	} else {
-		if (len < 2) {
-			zend_throw_exception(spl_ce_RuntimeException, "IntVector::unserialize expected at least 2 bytes", 0);
-			RETURN_THROWS();
-		}
 		const uint8_t type_tag = ZSTR_VAL(zstr)[len - 1];
 		teds_intvector_entries_unserialize_from_string(array, ZSTR_VAL(zstr), len - 1, type_tag);
+		if (UNEXPECTED(EG(exception))) {
+			zend_object_release(new_object);
+			RETURN_THROWS();
+		}
 	}
 	RETURN_OBJ(new_object);
 }
-- 
2.43.0


From bc903101c63b40cbd0d2f1ff49569199580f4a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:46 +0000
Subject: [PATCH 16/60] fix: cloning an ImmutableSortedIntSet produced an empty
 set

---
 teds_intvector.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index c9cc39e..2c0f920 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -509,6 +509,28 @@ static zend_object *teds_intvector_clone(zend_object *old_object)
 	return new_object;
 }
 
+static zend_object *teds_immutablesortedintset_clone(zend_object *old_object)
+{
+	zend_object *new_object = teds_immutablesortedintset_new(old_object->ce);
+	const teds_intvector_entries *const from = teds_intvector_entries_from_object(old_object);
+	teds_intvector_entries *const to = teds_intvector_entries_from_object(new_object);
+	if (from->is_string_backed) {
+		/* The values are immutable, so the backing string can be shared */
+		zend_string_addref(teds_immutablesortedintset_entries_get_backing_zend_string(from));
+		to->type_tag = from->type_tag;
+		to->size = from->size;
+		to->capacity = from->capacity;
+		to->entries_raw = from->entries_raw;
+		to->is_string_backed = true;
+	} else {
+		teds_intvector_entries_copy_ctor(to, from);
+	}
+
+	teds_assert_object_has_empty_member_list(new_object);
+
+	return new_object;
+}
+
 static zend_object *teds_sortedintvectorset_clone(zend_object *old_object)
 {
 	zend_object *new_object = teds_sortedintvectorset_new_ex(old_object->ce, old_object, 1);
@@ -2475,7 +2497,7 @@ PHP_MINIT_FUNCTION(teds_intvector)
 	memcpy(&teds_handler_ImmutableSortedIntSet, &std_object_handlers, sizeof(zend_object_handlers));
 
 	teds_handler_ImmutableSortedIntSet.offset          = XtOffsetOf(teds_intvector, std);
-	// teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
+	teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
 	teds_handler_ImmutableSortedIntSet.count_elements  = teds_intvector_count_elements;
 	teds_handler_ImmutableSortedIntSet.get_properties_for = teds_intvector_get_properties_for;
 	teds_handler_ImmutableSortedIntSet.get_gc          = teds_intvector_get_gc;
-- 
2.43.0


From 959abd334614d3fa9e991e63b82ad6a0ae7d365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:00 +0000
Subject: [PATCH 17/60] fix: __set_state of the sorted int sets returned an
 IntVector

---
 teds_intvector.c         | 5 ++++-
 teds_intvector.stub.php  | 2 +-
 teds_intvector_arginfo.h | 6 ++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 2c0f920..2ad3f2f 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1393,7 +1393,10 @@ PHP_METHOD(Teds_SortedIntVectorSet, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_sortedintvectorset_new(teds_ce_IntVector);
+	/* Also used by ImmutableSortedIntSet::__set_state */
+	zend_object *object = zend_get_called_scope(execute_data) == teds_ce_ImmutableSortedIntSet
+		? teds_immutablesortedintset_new(teds_ce_ImmutableSortedIntSet)
+		: teds_sortedintvectorset_new(teds_ce_SortedIntVectorSet);
 	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
 	teds_intvector_entries_init_from_array_values(array, array_ht);
 
diff --git a/teds_intvector.stub.php b/teds_intvector.stub.php
index b8d0412..b8e43ed 100644
--- a/teds_intvector.stub.php
+++ b/teds_intvector.stub.php
@@ -197,7 +197,7 @@ final class SortedIntVectorSet implements \IteratorAggregate, Set, \JsonSerializ
     /**
      * Create a SortedIntVectorSet of unique values from an array
      */
-    public static function __set_state(array $array): IntVector {}
+    public static function __set_state(array $array): SortedIntVectorSet {}
 
     /**
      * @throws \UnderflowException if there are no more elements
diff --git a/teds_intvector_arginfo.h b/teds_intvector_arginfo.h
index ab69827..03437c4 100644
--- a/teds_intvector_arginfo.h
+++ b/teds_intvector_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 2a4293ac607ff32bddac6c9564f497ffc23b1d0f */
+ * Stub hash: 0fcb1f152d931fd56be7be1df68676509781c9f6 */
 
 ZEND_BEGIN_ARG_INFO_EX(arginfo_class_Teds_IntVector___construct, 0, 0, 0)
 	ZEND_ARG_OBJ_TYPE_MASK(0, iterator, Traversable, MAY_BE_ARRAY, "[]")
@@ -125,7 +125,9 @@ ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet___unserialize arginfo_class_Teds_IntVector___unserialize
 
-#define arginfo_class_Teds_SortedIntVectorSet___set_state arginfo_class_Teds_IntVector___set_state
+ZEND_BEGIN_ARG_WITH_RETURN_OBJ_INFO_EX(arginfo_class_Teds_SortedIntVectorSet___set_state, 0, 1, Teds\\SortedIntVectorSet, 0)
+	ZEND_ARG_TYPE_INFO(0, array, IS_ARRAY, 0)
+ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet_pop arginfo_class_Teds_IntVector_count
 
-- 
2.43.0


From 3a73a57e262be4b5e0cc4524ec65ac2ce3f206bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:26 +0000
Subject: [PATCH 18/60] fix: iterating over a StrictHashMap/StrictHashSet
 yielded nothing after the first entry was removed

---
 teds_stricthashmap.c | 2 +-
 teds_stricthashset.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index b4f63a9..a781e0d 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -746,7 +746,7 @@ static void teds_stricthashmap_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashmap_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashmap_it*)iter)->current = 0;
+	((teds_stricthashmap_it*)iter)->current = Z_STRICTHASHMAP_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashmap_it_valid(zend_object_iterator *iter)
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 4ff33ea..ee8df72 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -707,7 +707,7 @@ static void teds_stricthashset_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashset_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashset_it*)iter)->current = 0;
+	((teds_stricthashset_it*)iter)->current = Z_STRICTHASHSET_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashset_it_valid(zend_object_iterator *iter)
-- 
2.43.0


From 5c7b123c7dbe4ee5fed6f703e21e3e9d5cf474c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:26 +0000
Subject: [PATCH 19/60] fix: removing the current entry while iterating over a
 StrictHashMap/StrictHashSet skipped the next one

---
 teds_stricthashmap.c | 9 +++------
 teds_stricthashset.c | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index a781e0d..e288f2f 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -812,13 +812,10 @@ static void teds_stricthashmap_it_move_forward(zend_object_iterator *iter)
 		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
-		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		/* Move to the next valid position. If the current entry was removed, that's the first remaining entry after it. */
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index ee8df72..37e003a 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -773,13 +773,10 @@ static void teds_stricthashset_it_move_forward(zend_object_iterator *iter)
 		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
-		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		/* Move to the next valid position. If the current entry was removed, that's the first remaining entry after it. */
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
-- 
2.43.0


From af2b3a48b960da7157d39b8ff60cbe2ce4031f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:26 +0000
Subject: [PATCH 20/60] fix: adding to a StrictHashMap/StrictHashSet with an
 exhausted iterator could loop forever, and iterators before the start or at
 the end moved to the wrong entry

---
 teds_stricthashmap.c | 27 +++++++++++++--------------
 teds_stricthashset.c | 27 +++++++++++++--------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index e288f2f..17391df 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -380,20 +380,19 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
-		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
-			continue;
-		}
-		// old_position < nNumUsed
-		uint32_t new_current = (uint32_t) -1;
-		for (uint32_t i = 0; i <= old_position; i++) {
-			if (!Z_ISUNDEF(entries[i].key)) {
-				new_current++;
+		if (old_position < nNumUsed) {
+			uint32_t new_current = (uint32_t) -1;
+			for (uint32_t i = 0; i <= old_position; i++) {
+				if (!Z_ISUNDEF(entries[i].key)) {
+					new_current++;
+				}
 			}
+			// fprintf(stderr, "new_current=%d\n", new_current);
+			it->current = new_current;
+			ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
+		} else if (old_position != (uint32_t) -1) {
+			it->current = array->nNumOfElements;
 		}
-		// fprintf(stderr, "new_current=%d\n", new_current);
-		it->current = new_current;
-		ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
 
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -405,9 +404,9 @@ static void teds_stricthashmap_iterators_shift_to_new_end(teds_stricthashmap_ent
 	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
+		if (it->current >= nNumUsed && it->current != (uint32_t) -1) {
 			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+			it->current = (it->current > removed_idx ? nNumUsed : nNumUsed - 1);
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 37e003a..fff4208 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -346,20 +346,19 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
-		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
-			continue;
-		}
-		// old_position < nNumUsed
-		uint32_t new_current = (uint32_t) -1;
-		for (uint32_t i = 0; i <= old_position; i++) {
-			if (!Z_ISUNDEF(entries[i].key)) {
-				new_current++;
+		if (old_position < nNumUsed) {
+			uint32_t new_current = (uint32_t) -1;
+			for (uint32_t i = 0; i <= old_position; i++) {
+				if (!Z_ISUNDEF(entries[i].key)) {
+					new_current++;
+				}
 			}
+			// fprintf(stderr, "new_current=%d\n", new_current);
+			it->current = new_current;
+			ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
+		} else if (old_position != (uint32_t) -1) {
+			it->current = array->nNumOfElements;
 		}
-		// fprintf(stderr, "new_current=%d\n", new_current);
-		it->current = new_current;
-		ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
 
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -371,9 +370,9 @@ static void teds_stricthashset_iterators_shift_to_new_end(teds_stricthashset_ent
 	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
+		if (it->current >= nNumUsed && it->current != (uint32_t) -1) {
 			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+			it->current = (it->current > removed_idx ? nNumUsed : nNumUsed - 1);
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
-- 
2.43.0


From d02a0d03d0ff3cec7ec8c54ba340646c84b4a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:20 +0000
Subject: [PATCH 21/60] fix: StrictTreeMap/StrictTreeSet::clear left active
 iterators pointing at freed nodes

---
 teds_stricttreemap.c | 8 ++++++++
 teds_stricttreeset.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index d0eebf2..fe93d2a 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1704,6 +1704,14 @@ static void teds_stricttreemap_tree_clear(teds_stricttreemap_tree *tree) {
 	teds_stricttreemap_tree array_copy = *tree;
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
+	/* The nodes that the active iterators point to are about to be freed. */
+	for (teds_intrusive_dllist_node *dllist_node = tree->active_iterators.first; dllist_node != NULL; dllist_node = dllist_node->next) {
+		teds_stricttreemap_it *it = teds_stricttreemap_it_from_dllist_node(dllist_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
 
 	teds_stricttreemap_tree_dtor(&array_copy);
 	/* Could call teds_stricttreemap_get_properties but properties tree is typically not initialized unless var_dump or other inefficient functionality is used */
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 748c478..d7a49bd 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -1372,6 +1372,14 @@ static void teds_stricttreeset_tree_clear(teds_stricttreeset_tree *tree) {
 	teds_stricttreeset_tree array_copy = *tree;
 
 	teds_stricttreeset_tree_set_empty_tree(tree);
+	/* The nodes that the active iterators point to are about to be freed. */
+	for (teds_intrusive_dllist_node *dllist_node = tree->active_iterators.first; dllist_node != NULL; dllist_node = dllist_node->next) {
+		teds_stricttreeset_it *it = teds_stricttreeset_it_from_dllist_node(dllist_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
 
 	teds_stricttreeset_tree_dtor(&array_copy);
 	/* Could call teds_stricttreeset_get_properties but properties tree is typically not initialized unless var_dump or other inefficient functionality is used */
-- 
2.43.0


From 665e10f34614c6ee13b43685e989e429ae082193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:20 +0000
Subject: [PATCH 22/60] fix: unserializing an empty StrictTreeMap wrote past
 the end of an empty buffer

---
 teds_stricttreemap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index fe93d2a..dfbc388 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -858,6 +858,9 @@ PHP_METHOD(Teds_StrictTreeMap, __unserialize)
 	}
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
+	if (raw_size == 0) {
+		return;
+	}
 
 	zend_string *str;
 	zval key;
-- 
2.43.0


From e95e13e58eebc870d1851b30a79d1b6f8d02be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:20 +0000
Subject: [PATCH 23/60] fix: cloning a StrictTreeMap/StrictTreeSet lost the
 colors that keep the tree balanced

---
 teds_stricttreemap.c | 1 +
 teds_stricttreeset.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index dfbc388..f29db06 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -458,6 +458,7 @@ cleanup_iter:
 static teds_stricttreemap_node *teds_stricttreemap_node_copy_ctor_recursive(const teds_stricttreemap_node *from, teds_stricttreemap_node *parent, teds_stricttreemap_node *left_parent_node, teds_stricttreemap_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreemap_node *copy = teds_stricttreemap_node_alloc(&from->key, &from->value, parent);
+	TEDS_STRICTTREEMAP_NODE_COLOR(copy) = TEDS_STRICTTREEMAP_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreemap_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index d7a49bd..48beb2d 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -426,6 +426,7 @@ cleanup_iter:
 static teds_stricttreeset_node *teds_stricttreeset_node_copy_ctor_recursive(const teds_stricttreeset_node *from, teds_stricttreeset_node *parent, teds_stricttreeset_node *left_parent_node, teds_stricttreeset_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreeset_node *copy = teds_stricttreeset_node_alloc(&from->key, parent);
+	TEDS_STRICTTREESET_NODE_COLOR(copy) = TEDS_STRICTTREESET_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreeset_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
-- 
2.43.0


From fa5ae3b78d88f73a0842bd3480df879b0aa17101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:20 +0000
Subject: [PATCH 24/60] fix: StrictTreeSet::__unserialize stored references

---
 teds_stricttreeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 48beb2d..7559b1d 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -843,6 +843,7 @@ PHP_METHOD(Teds_StrictTreeSet, __unserialize)
 			RETURN_THROWS();
 		}
 
+		ZVAL_DEREF(val);
 		if (nodes != NULL) {
 			if (EXPECTED(sorted_nodes_count == 0 || teds_stable_compare(val, &prev->key) > 0)) {
 				prev = teds_stricttreeset_node_alloc(val, NULL);
-- 
2.43.0


From 848e582c3f3473ae935617daa6d4bd34a55c5563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:11 +0000
Subject: [PATCH 25/60] fix: CachedIterable looped forever when the underlying
 Traversable used it while it was fetching

---
 teds_cachediterable.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 7a6aa51..f69160c 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -242,7 +242,10 @@ handle_exception:
 static zend_always_inline void teds_cachediterable_entries_fetch_all(teds_cachediterable_entries *array)
 {
 	while (array->iter) {
-		teds_cachediterable_entries_lazy_fetch_next(array);
+		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
+			/* Reached the end, or an exception was thrown */
+			return;
+		}
 	}
 }
 
-- 
2.43.0


From cf76ec218711f8f61d0b064a853b44ce069df9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:11 +0000
Subject: [PATCH 26/60] fix: CachedIterable forgot an exception thrown by
 valid() of the underlying Traversable and ended early instead

---
 teds_cachediterable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index f69160c..b10a5df 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -234,6 +234,9 @@ handle_exception:
 		array->is_calling_inner = false;
 		return true;
 	}
+	if (UNEXPECTED(EG(exception))) {
+		goto handle_exception;
+	}
 	array->is_calling_inner = false;
 	teds_cachediterable_entries_free_inner_traversable(array);
 	return false;
-- 
2.43.0


From 63f4e0a4437fc965ca2547350057571eacb46b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:11 +0000
Subject: [PATCH 27/60] fix: count() of a CachedIterable ignored the elements
 that were not fetched yet

---
 teds_cachediterable.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index b10a5df..c7d7de2 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -422,8 +422,15 @@ static zend_object *teds_cachediterable_new(zend_class_entry *class_type)
 
 TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_size_t_count_elements(zend_object *object, zend_long *count)
 {
-	const teds_cachediterable *intern = teds_cachediterable_from_object(object);
-	*count = intern->array.size;
+	teds_cachediterable_entries *array = &teds_cachediterable_from_object(object)->array;
+	teds_cachediterable_entries_fetch_all(array);
+	if (UNEXPECTED(array->end_exception && !EG(exception))) {
+		teds_cachediterable_entries_throw_end_exception(array);
+	}
+	if (UNEXPECTED(EG(exception))) {
+		return FAILURE;
+	}
+	*count = array->size;
 	return SUCCESS;
 }
 
-- 
2.43.0


From e5af39b759ef0568b55314a0bb242c7121004d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:45 +0000
Subject: [PATCH 28/60] fix: CachedIterable::contains/indexOf* only looked at
 the first element they fetched

---
 teds_cachediterable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index c7d7de2..211e557 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -889,6 +889,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -919,6 +920,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfValue)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -949,6 +951,7 @@ PHP_METHOD(Teds_CachedIterable, containsKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
@@ -979,6 +982,7 @@ PHP_METHOD(Teds_CachedIterable, contains)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From 5fb152319bdc2128142b8aab9d23fe52df05c03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 29/60] fix: BitVector::indexOf/contains read one byte past the
 end of a vector made of whole bytes

---
 teds_bitvector.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 859518a..45733c4 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -993,6 +993,10 @@ PHP_METHOD(Teds_BitVector, indexOf)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		/* There are no bits left in a partially used byte */
+		RETURN_NULL();
+	}
 	// TODO: builtin_clz?
 	uint8_t v = entries_bits[i >> 3] + value;
 	while (i < len) {
@@ -1035,6 +1039,10 @@ PHP_METHOD(Teds_BitVector, contains)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		/* There are no bits left in a partially used byte */
+		RETURN_FALSE;
+	}
 	const uint8_t v = entries_bits[i >> 3] + value;
 	RETURN_BOOL(v & ((1 << (len & 7)) - 1));
 }
-- 
2.43.0


From aff75805a188deeb132f3b765441735b468e02ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 30/60] fix: unserializing a BitVector made of only the count
 of wasted bits produced a negative size

---
 teds_bitvector.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 45733c4..5d27f97 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -618,6 +618,14 @@ zend_object_iterator *teds_bitvector_get_iterator(zend_class_entry *ce, zval *ob
 
 static void teds_bitvector_initialize_from_bytes(teds_bitvector_entries *array, const uint8_t *bytes, const size_t byte_count, const uint8_t modulo_bit_len)
 {
+	if (UNEXPECTED(byte_count == 0)) {
+		if (modulo_bit_len > 0) {
+			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector unserialize got more wasted bits than bits", 0);
+			return;
+		}
+		teds_bitvector_entries_set_empty_list(array);
+		return;
+	}
 	const size_t bit_size = byte_count * 8 - modulo_bit_len;
 	ZEND_ASSERT(bit_size > 0);
 	const size_t bit_capacity = teds_bitvector_compute_next_valid_capacity(bit_size);
@@ -803,10 +811,15 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
 		if (modulo_bit_len >= 8) {
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
+			zend_object_release(new_object);
 			RETURN_THROWS();
 		}
 
 		teds_bitvector_initialize_from_bytes(&bitvector->array, bytes, byte_count, modulo_bit_len);
+		if (UNEXPECTED(EG(exception))) {
+			zend_object_release(new_object);
+			RETURN_THROWS();
+		}
 	}
 	RETURN_OBJ(new_object);
 }
-- 
2.43.0


From f58b41f3cd41c3ca2c9fc3032de208f45919582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 31/60] fix: cloning a BitVector allocated quadratic memory

---
 teds_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 5d27f97..6c8b43c 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -272,7 +272,7 @@ static void teds_bitvector_entries_copy_ctor(teds_bitvector_entries *to, const t
 	to->bit_size = 0; /* reset bit_size in case emalloc() fails */
 	to->bit_capacity = 0;
 	const size_t bytes_needed = BYTES_FOR_BIT_SIZE(bit_size);
-	to->entries_bits = safe_emalloc(bit_size, bytes_needed, 0);
+	to->entries_bits = emalloc(bytes_needed);
 	to->bit_size = bit_size;
 	to->bit_capacity = bytes_needed * 8;
 
-- 
2.43.0


From e28fb4a0c2e644fc5f072d82e1b62f95a4b6bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:52 +0000
Subject: [PATCH 32/60] fix: StrictMinHeap/StrictMaxHeap extracted values out
 of order because removing used other parents than adding

---
 teds_strictheap.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 3825395..16ee5b7 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -467,16 +467,18 @@ static zend_always_inline void teds_strictheap_entries_remove_top(teds_stricthea
 	zval *replacement = &entries[len];
 	uint32_t offset = 0;
 
-	/*    0
-	 *  1   2
-	 * 3 4 5 6 */
+	/* The parent of an offset is (offset >> 1), the same as in teds_strictheap_entries_insert
+	 *        0
+	 *        1
+	 *    2       3
+	 *  4   5   6   7 */
 	while (true) {
-		uint32_t new_offset = offset * 2 + 1;
+		uint32_t new_offset = offset > 0 ? offset * 2 : 1;
 		if (new_offset >= len) {
 			break;
 		}
 		zval *new_entry = &entries[new_offset];
-		if (new_offset + 1 < len) {
+		if (offset > 0 && new_offset + 1 < len) {
 			if (teds_strictheap_should_be_above(new_entry + 1, new_entry, is_min_heap)) {
 				new_offset++;
 				new_entry++;
-- 
2.43.0


From 31571a54a183c308c1a42f8e2c11b19bf78d06cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:52 +0000
Subject: [PATCH 33/60] fix: StrictMaxHeap::__set_state returned a
 StrictMinHeap

---
 teds_strictheap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 16ee5b7..73bc6f2 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -450,9 +450,9 @@ PHP_METHOD(Teds_StrictMaxHeap, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_strictheap_new(teds_ce_StrictMinHeap);
+	zend_object *object = teds_strictheap_new(teds_ce_StrictMaxHeap);
 	teds_strictheap *intern = teds_strictheap_from_object(object);
-	teds_strictheap_entries_init_from_array(&intern->array, array_ht, true);
+	teds_strictheap_entries_init_from_array(&intern->array, array_ht, false);
 
 	RETURN_OBJ(object);
 }
-- 
2.43.0


From 8ab308e4236046ab412ec7341ab8a257cdc17aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:32 +0000
Subject: [PATCH 34/60] fix: LowMemoryVector freed the static empty list, or
 leaked, when promoting the type of an empty vector

---
 teds_lowmemoryvector.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f972d4e..bb6c73d 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -89,6 +89,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
+		const size_t old_capacity = array->capacity; \
 		const size_t capacity = size >= 2 ? size * 2 : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = safe_emalloc(capacity, sizeof(int_larger), 0); \
@@ -98,7 +99,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			efree(original_entries); \
 		} \
 		return; \
@@ -1600,6 +1601,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	uint8_t *const original_types = array->entries_uint8;
 	const uint8_t *src = original_types;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1609,7 +1611,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	for (; dst < end; dst++, src++) {
 		teds_lowmemoryvector_entries_set_type(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_types);
 	}
 	return;
@@ -1621,6 +1623,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	double *const original_entries = array->entries_double;
 	const double *src = original_entries;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1630,7 +1633,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	for (; dst < end; dst++, src++) {
 		ZVAL_DOUBLE(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_entries);
 	}
 }
@@ -1647,13 +1650,14 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	const uint32_t old_capacity = array->capacity; \
 	const uint32_t capacity = old_capacity >= 4 ? old_capacity : 4; \
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0); \
+	const zval *const end = entries_zval + size; \
+	zval *dst = entries_zval; \
+	array->capacity = capacity; \
+	array->entries_zval = entries_zval; \
+	for (; dst < end; dst++, src++) { \
+		ZVAL_LONG(dst, *src); \
+	} \
 	if (old_capacity > 0) { \
-		const zval *const end = entries_zval + size; \
-		zval *dst = entries_zval; \
-		array->entries_zval = entries_zval; \
-		for (; dst < end; dst++, src++) { \
-			ZVAL_LONG(dst, *src); \
-		} \
 		efree(original_entries); \
 	} \
 	return; \
-- 
2.43.0


From 058540e49cb75fff06dff22f7318043236278f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:32 +0000
Subject: [PATCH 35/60] fix: LowMemoryVector::offsetExists leaked a reference
 to the value

---
 teds_lowmemoryvector.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index bb6c73d..96e0eb2 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1208,8 +1208,7 @@ PHP_METHOD(Teds_LowMemoryVector, offsetExists)
 	}
 	ZEND_ASSERT(offset >= 0);
 	zval tmp;
-	teds_lowmemoryvector_get_value_at_offset(&tmp, ZEND_THIS, offset);
-	RETURN_BOOL(Z_TYPE(tmp) != IS_NULL);
+	RETURN_BOOL(Z_TYPE_P(teds_lowmemoryvector_entries_read_offset(array, offset, &tmp)) != IS_NULL);
 }
 
 PHP_METHOD(Teds_LowMemoryVector, containsKey)
-- 
2.43.0


From 8b5113943ad1fe9c391e6d16acfbd19c6341a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:32 +0000
Subject: [PATCH 36/60] fix: unserializing a LowMemoryVector with an empty
 payload leaked an empty buffer

---
 teds_lowmemoryvector.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 96e0eb2..f6a0a30 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -686,6 +686,10 @@ zend_object_iterator *teds_lowmemoryvector_get_iterator(zend_class_entry *ce, zv
 
 static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_lowmemoryvector_entries *array, HashTable *ht) {
 	const uint32_t num_entries = zend_hash_num_elements(ht);
+	if (UNEXPECTED(num_entries == 0)) {
+		teds_lowmemoryvector_entries_set_empty_list(array);
+		return;
+	}
 	zval *entries = emalloc(num_entries * sizeof(zval));
 	zval *it = entries;
 	zval *val;
@@ -866,6 +870,10 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "LowMemoryVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				RETURN_THROWS();
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_lowmemoryvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
-- 
2.43.0


From 91925b5e0fa6007c7e6b6b816f3012a6ead888f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:53 +0000
Subject: [PATCH 37/60] fix: a LowMemoryVector of mixed values could be
 constructed again after clear()

---
 teds_lowmemoryvector.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f6a0a30..c80f604 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -372,7 +372,6 @@ static void teds_lowmemoryvector_clear(teds_lowmemoryvector *intern)
 		ZEND_ASSERT(type_tag == LMV_TYPE_ZVAL);
 
 		zval *it = entries;
-		array->entries_zval = NULL;
 		for (zval *const end = it + size; it < end; it++) {
 			zval_ptr_dtor(it);
 		}
-- 
2.43.0


From 50cde5f2081c50cf3a763140ee5210ae51427649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:50 +0000
Subject: [PATCH 38/60] fix: cloning an ImmutableSortedStringSet left the
 offsets of its strings uninitialised

---
 teds_immutablesortedstringset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 1482d43..371bb02 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -244,7 +244,8 @@ static void teds_immutablesortedstringset_entries_copy_ctor(teds_immutablesorted
 		return;
 	}
 
-	/* FIXME copy the entry instead */
+	to->substring_infos = safe_emalloc(size, sizeof(teds_immutablesortedstringset_substring_info), 0);
+	memcpy(to->substring_infos, from->substring_infos, size * sizeof(teds_immutablesortedstringset_substring_info));
 	to->size = from->size;
 	to->raw_bytes = from->raw_bytes;
 	zend_string *str = teds_immutablesortedstringset_entries_get_backing_zend_string(from);
-- 
2.43.0


From b61fe768925ce9c864149301dd2f581af7c411c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:50 +0000
Subject: [PATCH 39/60] fix: ImmutableSortedStringSet used strings of a
 Traversable after they were freed

---
 teds_immutablesortedstringset.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 371bb02..d4aed5f 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -215,7 +215,7 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 				raw_zend_strings = emalloc(capacity * sizeof(zend_string *));
 			}
 		}
-		raw_zend_strings[size++] = value;
+		raw_zend_strings[size++] = zend_string_copy(value);
 
 		iter->index++;
 		funcs->move_forward(iter);
@@ -224,11 +224,15 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 		}
 	}
 
-	/* free excess capacity */
-	teds_immutablesortedstringset_entries_sort_and_deduplicate_and_set_list(array, raw_zend_strings, size);
+	if (size > 0) {
+		teds_immutablesortedstringset_entries_sort_and_deduplicate_and_set_list(array, raw_zend_strings, size);
+	}
 
 cleanup:
 	if (raw_zend_strings) {
+		for (uint32_t i = 0; i < size; i++) {
+			zend_string_release(raw_zend_strings[i]);
+		}
 		efree(raw_zend_strings);
 	}
 	if (iter) {
-- 
2.43.0


From d4b7cc03ad0ae4b3159dbae54b885262820791ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:50 +0000
Subject: [PATCH 40/60] fix: iterating over an ImmutableSortedStringSet leaked
 every string it yielded

---
 teds_immutablesortedstringset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index d4aed5f..5601826 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -405,6 +405,7 @@ PHP_METHOD(Teds_ImmutableSortedStringSet, getIterator)
 
 static void teds_immutablesortedstringset_it_dtor(zend_object_iterator *iter)
 {
+	zval_ptr_dtor(&((teds_immutablesortedstringset_it*)iter)->tmp);
 	zval_ptr_dtor(&iter->data);
 }
 
@@ -434,6 +435,7 @@ static zval *teds_immutablesortedstringset_it_get_current_data(zend_object_itera
 		teds_throw_invalid_sequence_index_exception();
 		return &EG(uninitialized_zval);
 	}
+	zval_ptr_dtor(&iterator->tmp);
 	return teds_immutablesortedstringset_entries_read_offset(array, iterator->current, &iterator->tmp);
 }
 
@@ -485,6 +487,7 @@ zend_object_iterator *teds_immutablesortedstringset_get_iterator(zend_class_entr
 
 	ZVAL_OBJ_COPY(&iterator->intern.data, Z_OBJ_P(object));
 	iterator->intern.funcs = &teds_immutablesortedstringset_it_funcs;
+	ZVAL_UNDEF(&iterator->tmp);
 
 	return &iterator->intern;
 }
-- 
2.43.0


From bebb7ce2099198f4fcec65436c44a7af1f401adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:50 +0000
Subject: [PATCH 41/60] fix: unserializing an ImmutableSortedStringSet leaked
 when a string length was truncated

---
 teds_immutablesortedstringset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 5601826..dc15336 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -529,6 +529,7 @@ not_enough_data:
 		/* it and num_strings are read and moved by reference */
 		if (!teds_serialize_read_variable_len_size(&it, end, &substr_len)) {
 			ZEND_ASSERT(EG(exception));
+			efree(substring_infos);
 			return;
 		}
 		// fprintf(stderr, "substr_len=%d end=%p it=%p end-it=%d\n", substr_len, end, it, (int)(end-it));
-- 
2.43.0


From 0c372c1cad82dc35392f2f0332cbcde107a1b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:36 +0000
Subject: [PATCH 42/60] fix: EmptySequence::offsetGet/offsetExists returned
 null for offsets that convert to an int

---
 teds_emptycollection.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 29b0c57..9c734d1 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -232,7 +232,9 @@ PHP_METHOD(Teds_EmptySequence, offsetGet)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	teds_throw_invalid_sequence_index_exception();
 }
@@ -279,7 +281,9 @@ PHP_METHOD(Teds_EmptySequence, offsetExists)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From c1dcc5d34d2a54abd676150669e07eb6e1df18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:03 +0000
Subject: [PATCH 43/60] fix: EmptySequence::contains and EmptySet::contains
 threw for values that are not offsets

---
 teds_emptycollection.stub.php  |  3 +--
 teds_emptycollection_arginfo.h | 12 ++++++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 240f340..7cb1919 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -115,7 +115,6 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     public function indexOf(mixed $value): ?int {}
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
      */
     public function contains(mixed $value): bool {}
 
@@ -304,7 +303,7 @@ enum EmptySet implements \Iterator, Set, \JsonSerializable
 
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
+     * @implementation-alias Teds\EmptySequence::contains
      */
     public function contains(mixed $value): bool {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 28f9770..9db6e7d 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 5f15d481b4e91cfc2590a84139279e5d4d4f0ecd */
+ * Stub hash: 219030b063e1694938823ccd038124c5e17fc5dc */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -350,6 +350,9 @@ ZEND_METHOD(Teds_EmptySequence, offsetUnset);
 ZEND_METHOD(Teds_EmptySequence, indexOf);
 #endif
 #if PHP_VERSION_ID >= 80100
+ZEND_METHOD(Teds_EmptySequence, contains);
+#endif
+#if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptySequence, map);
 #endif
 #if PHP_VERSION_ID >= 80100
@@ -362,9 +365,6 @@ ZEND_METHOD(Teds_EmptySequence, valid);
 ZEND_METHOD(Teds_EmptyMap, offsetGet);
 #endif
 #if PHP_VERSION_ID >= 80100
-ZEND_METHOD(Teds_EmptySequence, contains);
-#endif
-#if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptyMap, get);
 #endif
 
@@ -393,7 +393,7 @@ static const zend_function_entry class_Teds_EmptySequence_methods[] = {
 	ZEND_ME(Teds_EmptySequence, offsetSet, arginfo_class_Teds_EmptySequence_offsetSet, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetUnset, arginfo_class_Teds_EmptySequence_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, indexOf, arginfo_class_Teds_EmptySequence_indexOf, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptySequence, contains, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, map, arginfo_class_Teds_EmptySequence_map, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, filter, arginfo_class_Teds_EmptySequence_filter, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySequence_jsonSerialize, ZEND_ACC_PUBLIC)
@@ -440,7 +440,7 @@ static const zend_function_entry class_Teds_EmptySet_methods[] = {
 	ZEND_MALIAS(Teds_StrictMinHeap, clear, rewind, arginfo_class_Teds_EmptySet_clear, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, toArray, toArray, arginfo_class_Teds_EmptySet_toArray, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, values, toArray, arginfo_class_Teds_EmptySet_values, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, add, offsetUnset, arginfo_class_Teds_EmptySet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, remove, contains, arginfo_class_Teds_EmptySet_remove, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySet_jsonSerialize, ZEND_ACC_PUBLIC)
-- 
2.43.0


From a1538a0d99416b09c907648590c4f03868d535df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:03 +0000
Subject: [PATCH 44/60] fix: unset() of a key of an EmptyMap threw an
 ArgumentCountError

---
 teds_emptycollection.stub.php  | 1 -
 teds_emptycollection_arginfo.h | 7 +++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 7cb1919..c87529e 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -212,7 +212,6 @@ enum EmptyMap implements \Iterator, Map, \JsonSerializable
     public function offsetSet(mixed $key, mixed $value): never {}
     /**
      * No-op for empty map.
-     * @implementation-alias Teds\StrictMinHeap::rewind
      */
     public function offsetUnset(mixed $key): void {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 9db6e7d..f240096 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 219030b063e1694938823ccd038124c5e17fc5dc */
+ * Stub hash: cf4a56a254cae15264d4acaa381720fa07436386 */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -365,6 +365,9 @@ ZEND_METHOD(Teds_EmptySequence, valid);
 ZEND_METHOD(Teds_EmptyMap, offsetGet);
 #endif
 #if PHP_VERSION_ID >= 80100
+ZEND_METHOD(Teds_EmptyMap, offsetUnset);
+#endif
+#if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptyMap, get);
 #endif
 
@@ -418,7 +421,7 @@ static const zend_function_entry class_Teds_EmptyMap_methods[] = {
 	ZEND_ME(Teds_EmptyMap, offsetGet, arginfo_class_Teds_EmptyMap_offsetGet, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetExists, contains, arginfo_class_Teds_EmptyMap_offsetExists, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetSet, offsetSet, arginfo_class_Teds_EmptyMap_offsetSet, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_StrictMinHeap, offsetUnset, rewind, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptyMap, offsetUnset, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptyMap_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, containsKey, contains, arginfo_class_Teds_EmptyMap_containsKey, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptyMap, get, arginfo_class_Teds_EmptyMap_get, ZEND_ACC_PUBLIC)
-- 
2.43.0


From 0b064ba21f23b66ca82aaf4ba9b854e7bd246086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:36 +0000
Subject: [PATCH 45/60] fix: removing a tree node whose successor has a red
 child corrupted the red-black tree

---
 teds_stricttreemap.c | 3 ++-
 teds_stricttreeset.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index f29db06..cd4b969 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1195,7 +1195,8 @@ static zend_always_inline teds_stricttreemap_node *teds_stricttreemap_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREEMAP_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The red child takes the place of its black parent. node->right is kept so that the caller can tell that no rebalancing is needed. */
+			TEDS_STRICTTREEMAP_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 7559b1d..17d081b 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -1000,7 +1000,8 @@ static zend_always_inline teds_stricttreeset_node *teds_stricttreeset_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREESET_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The red child takes the place of its black parent. node->right is kept so that the caller can tell that no rebalancing is needed. */
+			TEDS_STRICTTREESET_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
-- 
2.43.0


From b0c0768f55136e328d86747146e6b397ad477e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:49 +0000
Subject: [PATCH 46/60] fix: CachedIterable::toPairs and jsonSerialize left out
 the elements that were not fetched yet

---
 teds_cachediterable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 211e557..248fb91 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -989,11 +989,11 @@ PHP_METHOD(Teds_CachedIterable, contains)
 
 static void teds_cachediterable_entries_return_pairs(zval *return_value, teds_cachediterable_entries *array)
 {
+	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
 	const uint32_t len = array->size;
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
 
 	zval_pair *entries = array->entries;
 	RETURN_ARR(teds_zval_pairs_to_refcounted_pairs(entries, len));
-- 
2.43.0


From 7fdc06014dea562817c869d4ebb9d22f6f33fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:50 +0000
Subject: [PATCH 47/60] fix: keep iterators of a SortedIntVectorSet in place
 when values are added or removed

---
 teds_intvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index 2ad3f2f..3116bcb 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1985,6 +1985,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_add(teds_intvecto
 				else { return false; /* Already exists */ } \
 			} \
 			/* The value at *start is > target */ \
+			teds_intvector_maybe_adjust_iterators_before_insert(array, start - entries, 1); \
 			memmove(start + 1, start, (entries + old_size - start) * sizeof(intx_t)); \
 			*start = target; \
 			break; \
@@ -2016,6 +2017,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_remove(teds_intve
 				if (target < *mid) { end = mid; }  \
 				else if (target > *mid) { start = mid + 1; }  \
 				else { \
+					teds_intvector_maybe_adjust_iterators_before_remove(array, mid - entries); \
 					memmove(mid, mid + 1, (entries + old_size - (mid + 1)) * sizeof(intx_t)); \
 					goto after_remove; \
 				} \
-- 
2.43.0


From ca6a82e2b113481e7821ca3d9c6d97697febdd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:16 +0000
Subject: [PATCH 48/60] fix: do not move a LowMemoryVector iterator whose first
 element was removed when values are inserted

---
 teds_lowmemoryvector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index c80f604..3b6ba7e 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -639,11 +639,12 @@ static zend_always_inline void teds_lowmemoryvector_maybe_adjust_iterators_befor
 
 static void teds_lowmemoryvector_adjust_iterators_before_insert(teds_lowmemoryvector_entries *const array, teds_intrusive_dllist_node *node, const size_t inserted_offset, const uint32_t n)
 {
+	const size_t old_size = array->size;
 	const zend_object *const obj = teds_lowmemoryvector_to_object(array);
 	do {
 		teds_lowmemoryvector_it *it = teds_lowmemoryvector_it_from_node(node);
 		if (Z_OBJ(it->intern.data) == obj) {
-			if (it->current >= inserted_offset) {
+			if (it->current >= inserted_offset && it->current < old_size) {
 				it->current += n;
 			}
 		}
-- 
2.43.0


From 13eafc1c21e954a5341a4a8bd65bebe63d011407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:53 +0000
Subject: [PATCH 49/60] fix: BitVector insert/pushFront with an invalid later
 argument moved iterators by more elements than were inserted

---
 teds_bitvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 6c8b43c..d6430ac 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -1374,10 +1374,10 @@ PHP_METHOD(Teds_BitVector, pushFront)
 	}
 
 	/* TODO: Optimize this for large varargs case */
-	teds_bitvector_maybe_adjust_iterators_before_insert(array, 0, argc);
 	for (uint32_t i = 0; i < argc; i++) {
 		zend_long new_value;
 		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
+		teds_bitvector_maybe_adjust_iterators_before_insert(array, 0, 1);
 		teds_bitvector_entries_unshift_single(array, new_value);
 	}
 	TEDS_RETURN_VOID();
@@ -1411,10 +1411,10 @@ PHP_METHOD(Teds_BitVector, insert)
 	}
 
 	/* TODO: Optimize this for large varargs case */
-	teds_bitvector_maybe_adjust_iterators_before_insert(array, inserted_offset, argc);
 	for (uint32_t i = 0; i < argc; i++) {
 		zend_long new_value;
 		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
+		teds_bitvector_maybe_adjust_iterators_before_insert(array, inserted_offset + i, 1);
 		teds_bitvector_entries_insert_single(array, inserted_offset + i, new_value);
 	}
 	TEDS_RETURN_VOID();
-- 
2.43.0


From b45e45a8f2bb89a9bdee67289c884267bb13f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:23 +0000
Subject: [PATCH 50/60] fix: EmptyMap::offsetGet returned null although it is
 declared never to return

---
 teds_emptycollection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 9c734d1..4191ecd 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -246,7 +246,8 @@ PHP_METHOD(Teds_EmptyMap, offsetGet)
 		Z_PARAM_ZVAL(offset_zv)
 	ZEND_PARSE_PARAMETERS_END();
 
-	RETURN_NULL();
+	(void)offset_zv;
+	TEDS_THROW_MISSING_MAP_KEY_EXCEPTION();
 }
 
 PHP_METHOD(Teds_EmptyMap, offsetUnset)
-- 
2.43.0


From 71df751621a6f1f1e0003a2ddc3ad2b37e18727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:06 +0000
Subject: [PATCH 51/60] fix: CachedIterable iterator current()/key() threw
 OutOfBoundsException when valid() had not been called first

---
 teds_cachediterable.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 248fb91..5f567ba 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -550,7 +550,13 @@ static zval_pair *teds_cachediterable_read_offset_helper(teds_cachediterable *in
 	/* we have to return NULL on error here to avoid memleak because of
 	 * ZE duplicating uninitialized_zval_ptr */
 	if (UNEXPECTED(offset >= intern->array.size)) {
-		teds_throw_invalid_collection_offset_exception();
+		/* The iterator may be asked for this element before (or without) checking valid() */
+		if (intern->array.iter && teds_cachediterable_entries_ensure_offset_exists(&intern->array, offset)) {
+			return &intern->array.entries[offset];
+		}
+		if (!EG(exception)) {
+			teds_throw_invalid_collection_offset_exception();
+		}
 		return NULL;
 	} else {
 		return &intern->array.entries[offset];
-- 
2.43.0


From 38442fa9ecc9ae86043175cd40d863cec84b2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:28 +0000
Subject: [PATCH 52/60] fix: CachedIterable contains/indexOf and iteration
 reported the elements fetched before the source failed as if they were all

---
 teds_cachediterable.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 5f567ba..8c8b747 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -532,7 +532,8 @@ static int teds_cachediterable_it_valid(zend_object_iterator *iter)
 	if (iterator->current < array->size) {
 		return SUCCESS;
 	}
-	if (!array->iter) {
+	if (UNEXPECTED(array->end_exception)) {
+		teds_cachediterable_entries_throw_end_exception(array);
 		return FAILURE;
 	}
 	if (!teds_cachediterable_entries_ensure_offset_exists(array, iterator->current)) {
@@ -551,7 +552,7 @@ static zval_pair *teds_cachediterable_read_offset_helper(teds_cachediterable *in
 	 * ZE duplicating uninitialized_zval_ptr */
 	if (UNEXPECTED(offset >= intern->array.size)) {
 		/* The iterator may be asked for this element before (or without) checking valid() */
-		if (intern->array.iter && teds_cachediterable_entries_ensure_offset_exists(&intern->array, offset)) {
+		if (teds_cachediterable_entries_ensure_offset_exists(&intern->array, offset)) {
 			return &intern->array.entries[offset];
 		}
 		if (!EG(exception)) {
@@ -887,6 +888,10 @@ PHP_METHOD(Teds_CachedIterable, indexOfKey)
 			}
 		}
 	}
+	if (UNEXPECTED(array->end_exception)) {
+		teds_cachediterable_entries_throw_end_exception(array);
+		RETURN_THROWS();
+	}
 	while (array->iter) {
 		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
 			break;
@@ -918,6 +923,10 @@ PHP_METHOD(Teds_CachedIterable, indexOfValue)
 			}
 		}
 	}
+	if (UNEXPECTED(array->end_exception)) {
+		teds_cachediterable_entries_throw_end_exception(array);
+		RETURN_THROWS();
+	}
 	while (array->iter) {
 		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
 			break;
@@ -949,6 +958,10 @@ PHP_METHOD(Teds_CachedIterable, containsKey)
 			}
 		}
 	}
+	if (UNEXPECTED(array->end_exception)) {
+		teds_cachediterable_entries_throw_end_exception(array);
+		RETURN_THROWS();
+	}
 	while (array->iter) {
 		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
 			break;
@@ -980,6 +993,10 @@ PHP_METHOD(Teds_CachedIterable, contains)
 			}
 		}
 	}
+	if (UNEXPECTED(array->end_exception)) {
+		teds_cachediterable_entries_throw_end_exception(array);
+		RETURN_THROWS();
+	}
 	while (array->iter) {
 		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
 			break;
-- 
2.43.0


From fa8756b35c1577900fb5d8075d3be4c55833f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:01 +0000
Subject: [PATCH 53/60] fix: CachedIterable went on working on the partial
 contents after throwing for a failed source

---
 teds_cachediterable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 8c8b747..c89dec3 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -274,6 +274,7 @@ static zend_always_inline bool teds_cachediterable_entries_ensure_offset_exists(
 		} \
 	} else if (UNEXPECTED((array)->end_exception)) {  \
 		teds_cachediterable_entries_throw_end_exception((array)); \
+		RETURN_THROWS(); \
 	} \
 } while(0)
 
-- 
2.43.0


From b333a6c19eb3f9137965074c9eda9e927749d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:45 +0000
Subject: [PATCH 54/60] fix: unserializing an empty iterable or
 ImmutableSequence leaked an allocation

---
 teds_cachediterable.c    | 4 ++++
 teds_immutableiterable.c | 4 ++++
 teds_immutablesequence.c | 4 ++++
 teds_mutableiterable.c   | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index c89dec3..ba6d907 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -655,6 +655,10 @@ PHP_METHOD(Teds_CachedIterable, __unserialize)
 	ZEND_ASSERT(array->entries == NULL);
 
 	const uint32_t num_entries = raw_size / 2;
+	if (num_entries == 0) {
+		teds_cachediterable_entries_set_empty_list(array);
+		return;
+	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
 
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 0bb57b3..2748a78 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -582,6 +582,10 @@ PHP_METHOD(Teds_ImmutableIterable, __unserialize)
 	ZEND_ASSERT(intern->array.entries == NULL);
 
 	const uint32_t num_entries = raw_size / 2;
+	if (num_entries == 0) {
+		teds_immutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 74f851d..9cc5888 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -564,6 +564,10 @@ PHP_METHOD(Teds_ImmutableSequence, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (num_entries == 0) {
+		teds_immutablesequence_entries_set_empty_list(&intern->array);
+		return;
+	}
 	zval *const entries = safe_emalloc(num_entries, sizeof(zval), 0);
 	zval *it = entries;
 
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 90f3957..a4acb57 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -711,6 +711,10 @@ PHP_METHOD(Teds_MutableIterable, __unserialize)
 	ZEND_ASSERT(intern->array.entries == NULL);
 
 	const uint32_t num_entries = raw_size / 2;
+	if (num_entries == 0) {
+		teds_mutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
 
-- 
2.43.0


From 90d9893ce0bcb66077e67e454a17aa3b6a0c0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:14 +0000
Subject: [PATCH 55/60] fix: MutableIterable/ImmutableIterable::fromPairs()
 leaked when the first value of a Traversable was not a pair

---
 teds_immutableiterable.c | 10 ++++++++--
 teds_mutableiterable.c   | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 2748a78..6f61f6c 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -715,8 +715,14 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 		}
 	}
 	if (capacity > size) {
-		/* Shrink allocated value to actual required size */
-		entries = erealloc(entries, size * sizeof(zval_pair));
+		if (size > 0) {
+			/* Shrink allocated value to actual required size */
+			entries = erealloc(entries, size * sizeof(zval_pair));
+		} else {
+			/* The first value was not a valid pair */
+			efree(entries);
+			entries = NULL;
+		}
 	}
 
 	array->size = size;
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index a4acb57..fd1176d 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -848,8 +848,14 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 		}
 	}
 	if (capacity > size) {
-		/* Shrink allocated value to actual required size */
-		entries = erealloc(entries, size * sizeof(zval_pair));
+		if (size > 0) {
+			/* Shrink allocated value to actual required size */
+			entries = erealloc(entries, size * sizeof(zval_pair));
+		} else {
+			/* The first value was not a valid pair */
+			efree(entries);
+			entries = NULL;
+		}
 	}
 
 	array->size = size;
-- 
2.43.0


From bd9a02d2f2519feb6edece63a04ebff85c1d2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:39 +0000
Subject: [PATCH 56/60] fix: a sorted int set whose __unserialize() was refused
 kept the unsorted values

---
 teds_intvector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index 3116bcb..f26ca44 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1180,6 +1180,8 @@ PHP_METHOD(Teds_SortedIntVectorSet, __unserialize)
 		RETURN_THROWS();
 	}
 	if (!teds_intvector_entries_is_sorted(type_tag, array->entries_uint8, array->size)) {
+		teds_intvector_entries_clear(array);
+		teds_intvector_entries_set_empty_list(array);
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\SortedIntVectorSet expected sorted values in __unserialize", 0);
 		RETURN_THROWS();
 	}
@@ -1232,6 +1234,9 @@ PHP_METHOD(Teds_ImmutableSortedIntSet, __unserialize)
 		RETURN_THROWS();
 	}
 	if (!teds_intvector_entries_is_sorted(type_tag, array->entries_uint8, array->size)) {
+		teds_immutablesortedintset_entries_clear(array);
+		array->is_string_backed = false;
+		teds_intvector_entries_set_empty_list(array);
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\ImmutableSortedIntSet expected sorted values in __unserialize", 0);
 		RETURN_THROWS();
 	}
-- 
2.43.0


From 4fb4698294c259155a41e8c2861edb69acc81f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:14 +0000
Subject: [PATCH 57/60] fix: Deque built from an iterable starts at offset 0
 even if user code reached it while it was filled

---
 teds_deque.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_deque.c b/teds_deque.c
index 8ac6a00..893cf98 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -224,6 +224,7 @@ static void teds_deque_entries_init_from_traversable(teds_deque_entries *array,
 	}
 
 	array->size = size;
+	array->offset = 0;
 	array->mask = capacity > 0 ? capacity - 1 : 0;
 	array->circular_buffer = circular_buffer ? circular_buffer : (zval *)empty_entry_list;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(array, true);
-- 
2.43.0


From dc3980e49888d6fe3ea940977756a429b002916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:14 +0000
Subject: [PATCH 58/60] fix: let the garbage collector see what iterators over
 LowMemoryVector and immutable sequences refer to

---
 teds_immutableiterable.c | 2 +-
 teds_immutablesequence.c | 2 +-
 teds_lowmemoryvector.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 6f61f6c..0013790 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -534,7 +534,7 @@ static const zend_object_iterator_funcs teds_immutableiterable_it_funcs = {
 	teds_immutableiterable_it_move_forward,
 	teds_immutableiterable_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 9cc5888..f46846b 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -521,7 +521,7 @@ static const zend_object_iterator_funcs teds_immutablesequence_it_funcs = {
 	teds_immutablesequence_it_move_forward,
 	teds_immutablesequence_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 3b6ba7e..9b6d798 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -609,7 +609,7 @@ static const zend_object_iterator_funcs teds_lowmemoryvector_it_funcs = {
 	teds_lowmemoryvector_it_move_forward,
 	teds_lowmemoryvector_it_rewind,
 	NULL,
-	NULL,
+	teds_internaliterator_get_gc,
 };
 
 static void teds_lowmemoryvector_adjust_iterators_before_remove(teds_lowmemoryvector_entries *array, teds_intrusive_dllist_node *node, const size_t removed_offset)
-- 
2.43.0


From 21cfa051e335a6edc22165e9177e68ef664769c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:14 +0000
Subject: [PATCH 59/60] fix: Vector::filter overflowed its result when the
 callback removed elements from the vector

---
 teds_vector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_vector.c b/teds_vector.c
index ded94f4..53c7d98 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -936,7 +936,8 @@ cleanup:
 
 			if (size >= capacity) {
 				if (entries) {
-					capacity = size + array->size - i;
+					/* The callback may have removed elements from the vector */
+					capacity = (size_t)size + (array->size > i ? array->size - i : 1);
 					if (UNEXPECTED(capacity >= TEDS_MAX_ZVAL_COLLECTION_SIZE)) {
 						teds_error_noreturn_max_vector_capacity();
 						ZEND_UNREACHABLE();
-- 
2.43.0


From 5d499da5c1f0b9e06adaf791dda0a938dfe52129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:14 +0000
Subject: [PATCH 60/60] fix: release values in map and filter when a destructor
 throws

---
 teds_immutablesequence.c | 1 +
 teds_vector.c            | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index f46846b..088fff8 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -839,6 +839,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
diff --git a/teds_vector.c b/teds_vector.c
index 53c7d98..2de443d 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -924,6 +924,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -1040,6 +1041,8 @@ PHP_METHOD(Teds_Vector, map)
 		fci.retval = &entries[size];
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
+			/* The destructor of the operand may have thrown after the callback returned a value */
+			zval_ptr_dtor(&entries[size]);
 			if (entries) {
 				for (; size > 0; size--) {
 					zval_ptr_dtor(&entries[size - 1]);
-- 
2.43.0

