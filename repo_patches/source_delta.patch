From 38adf287a75f770daf1a1f39a45576ab4c67c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 01/85] fix: array_shift_up & multi_array_shift_up overflow on
 large amounts

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index ca3199c..a07709a 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -599,7 +599,7 @@ static inline bool array_shift_up(void *const restrict buf, size_t *const restri
 		j = index
 	;
 	uint8_t *const restrict b = buf;
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		memmove(&b[j * datasize], &b[i * datasize], (*len - j) * datasize);
 		memset(&b[*len * datasize], 0, amount * datasize);
@@ -627,7 +627,7 @@ static inline bool multi_array_shift_up(size_t *const restrict len, size_t const
 		j = index
 	;
 	
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		size_t const cur_len = *len;
 		for( size_t n=0; n < n_buffers; n++ ) {
-- 
2.43.0


From 6295f7f27d24680995a25ef329ed62e1c7ebb4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 02/85] fix: bytes_bitmask shifts an int, wrong from 4 bytes on

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index a07709a..04d14c0 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1113,7 +1113,7 @@ static inline NEVER_NULL(1) void harbol_trilink_set_c(void *const p, void *const
 
 
 static inline size_t bytes_bitmask(size_t const bytes) {
-	return (1 << (bytes * CHAR_BIT)) - 1;
+	return bytes >= sizeof(size_t)? SIZE_MAX : (( size_t )(1) << (bytes * CHAR_BIT)) - 1;
 }
 
 #endif /** HARBOL_COMMON_INCLUDES_INCLUDED */
-- 
2.43.0


From 03e40aae58c091ac4473b91bcf894b4773cd3869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 03/85] fix: base_10/base_N_num_chars_int negate the minimum
 integer in signed arithmetic

---
 harbol_common_includes.h | 28 ++--------------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 04d14c0..0ab1882 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -753,19 +753,7 @@ static inline size_t base_10_num_chars_uint(size_t const x) {
 	return base_10_digits(x) + 1;
 }
 static inline size_t base_10_num_chars_int(ssize_t const x) {
-#ifdef C11
-	ssize_t const y = _Generic(x, int: abs(x), long: labs(x), long long: llabs(x));
-#else
-	ssize_t const y = 
-#	if SIZE_MAX==UINT_MAX
-		abs(x)
-#	elif SIZE_MAX==ULONG_MAX
-		labs(x)
-#	elif SIZE_MAX==ULLONG_MAX
-		llabs(x)
-#	endif
-	;
-#endif
+	size_t const y = x < 0? 0 - ( size_t )(x) : ( size_t )(x);
 	return base_10_digits(y) + 2; /// 2 for the negative sign symbol.
 }
 
@@ -881,19 +869,7 @@ static inline size_t base_N_num_chars_int(
 	size_t const powers_of_N[const static 1]
 #endif
 ) {
-#ifdef C11
-	ssize_t const y = _Generic( x, int: abs(x), long: labs(x), long long: llabs(x) );
-#else
-	ssize_t const y = 
-#	if SIZE_MAX==UINT_MAX
-		abs(x)
-#	elif SIZE_MAX==ULONG_MAX
-		labs(x)
-#	elif SIZE_MAX==ULLONG_MAX
-		llabs(x)
-#	endif
-	;
-#endif
+	size_t const y = x < 0? 0 - ( size_t )(x) : ( size_t )(x);
 	return base_N_digits(y, logN_table, powers_of_N) + 2; /// 2 for the negative sign symbol.
 }
 
-- 
2.43.0


From 360671745e070ce2500500586aa72c017c143651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 04/85] fix: harbol_link_add_to_tail leaves a stale next link
 when the list is empty

---
 harbol_common_includes.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 0ab1882..30abfee 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -972,6 +972,7 @@ static inline NO_NULL void harbol_link_add_to_tail(void *const h, void *const n,
 		(*tail)->a = node;
 		*tail = node;
 	} else {
+		node->a = NULL;
 		*head = node;
 		*tail = node;
 	}
-- 
2.43.0


From f9c0f7487288756a964cade1662d405e3e7bff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 05/85] fix: harbol_recalloc frees the block on size 0, leaks
 it when old_size is 0 and overflows the byte count

---
 harbol_common_includes.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 30abfee..a4dbe95 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -174,13 +174,17 @@
 
 
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
-	if( arr==NULL || old_size==0 ) {
+	if( arr==NULL ) {
 		return calloc(new_size, element_size);
+	} else if( element_size != 0 && new_size > SIZE_MAX / element_size ) {
+		return NULL;
 	}
+	/// realloc'ing to zero bytes frees the block, never do that behind the caller's back.
+	size_t const bytes = new_size * element_size;
 #ifdef __cplusplus
-	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, new_size * element_size));
+	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, bytes==0? 1 : bytes));
 #else
-	uint8_t *const restrict new_block = realloc(arr, new_size * element_size);
+	uint8_t *const restrict new_block = realloc(arr, bytes==0? 1 : bytes);
 #endif
 	if( new_block==NULL ) {
 		return NULL;
-- 
2.43.0


From 050c08e3a8c124c8fb5bafabdaf23d6c89f70a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 06/85] fix: harbol_multi_recalloc frees the caller's buffers
 when it fails

---
 harbol_common_includes.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index a4dbe95..3f536b1 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -247,10 +247,18 @@ static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old
 	va_list cp; va_copy(cp, ap);
 	bool res = true;
 	void **bufs = calloc(n_buffers, sizeof *bufs);
+	if( bufs==NULL ) {
+		va_end(ap);
+		va_end(cp);
+		return false;
+	}
 	for( size_t i=0; i < n_buffers; i++ ) {
 		void **buf = va_arg(ap, void**);
 		size_t const elem_size = va_arg(ap, size_t);
-		bufs[i] = harbol_recalloc(*buf, new_size, elem_size, old_size);
+		bufs[i] = calloc(new_size, elem_size);
+		if( bufs[i] != NULL && *buf != NULL ) {
+			memcpy(bufs[i], *buf, (old_size < new_size? old_size : new_size) * elem_size);
+		}
 		res &= bufs[i] != NULL;
 	}
 	va_end(ap);
@@ -263,7 +271,7 @@ static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old
 		for( size_t i=0; i < n_buffers; i++ ) {
 			void **buf = va_arg(cp, void**);
 			va_arg(cp, size_t);
-			*buf = bufs[i];
+			free(*buf); *buf = bufs[i];
 		}
 	}
 	free(bufs); bufs = NULL;
-- 
2.43.0


From f18e08f96e39dc77baf517f6c8f29d9a9976cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 07/85] fix: make_buffer_from_file does not terminate the text
 it hands out

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 3f536b1..fd968e0 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -460,9 +460,9 @@ static inline NO_NULL uint8_t *make_buffer_from_file(FILE *const restrict file,
 	}
 	
 #ifdef __cplusplus
-	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize, sizeof *stream));
+	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize + 1, sizeof *stream));
 #else
-	uint8_t *restrict stream = calloc(filesize, sizeof *stream);
+	uint8_t *restrict stream = calloc(filesize + 1, sizeof *stream);
 #endif
 	if( stream==NULL ) {
 		*bytes = SIZE_MAX;
-- 
2.43.0


From 0b2d62dac7141f7f35d0e4a6506937cc5b79770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 08/85] fix: harbol_array_resize below the length leaves the
 length past the storage

---
 array/array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array/array.c b/array/array.c
index e36bf8e..05b04e6 100644
--- a/array/array.c
+++ b/array/array.c
@@ -17,6 +17,9 @@ static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec,
 	}
 	vec->table = new_table;
 	vec->cap   = new_size;
+	if( vec->len > new_size ) {
+		vec->len = new_size;
+	}
 	return true;
 }
 
-- 
2.43.0


From 6024458cd5abf4e3a4b9b60f4c8fbb0e32e70798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 09/85] fix: deleting from an empty harbol array underflows its
 length

---
 array/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array/array.c b/array/array.c
index 05b04e6..615ebf4 100644
--- a/array/array.c
+++ b/array/array.c
@@ -273,7 +273,7 @@ HARBOL_EXPORT size_t harbol_array_index_of(struct HarbolArray const *const vec,
 HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size_t const index, size_t const datasize) {
 	if( vec->table==NULL ) {
 		return false;
-	} else if( index==vec->len-1 ) {
+	} else if( vec->len > 0 && index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
 		return true;
 	}
@@ -285,7 +285,7 @@ HARBOL_EXPORT bool harbol_array_del_by_range(struct HarbolArray *const vec, size
 	} else if( index==0 && (index + range >= vec->len) ) {
 		harbol_array_wipe(vec, datasize);
 		return true;
-	} else if( index==vec->len-1 ) {
+	} else if( vec->len > 0 && index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
 		return true;
 	}
-- 
2.43.0


From a93be462f9c407f4758e93bfa70e06bb8c268913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 10/85] fix: bistack allocations larger than the margin wrap
 around and hand out memory outside the stack

---
 allocators/bistack/bistack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 32e032a..3c1f936 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -46,7 +46,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// front end arena is too high!
-	if( bistk->front + aligned_size >= bistk->back ) {
+	if( aligned_size < size || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	size_t const f = bistk->front;
@@ -61,7 +61,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_back(struct HarbolBiStack *const restri
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// back end arena is too low
-	if( bistk->back - aligned_size <= bistk->front ) {
+	if( aligned_size < size || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	bistk->back -= aligned_size;
-- 
2.43.0


From a2169974a10eba205fc5ef729b10eb4e95cd0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 11/85] fix: objpool_free accepts the one-past-the-end pointer

---
 allocators/objpool/objpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index d4f4de6..72cbee0 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -81,7 +81,7 @@ HARBOL_EXPORT void *harbol_objpool_alloc(struct HarbolObjPool *const objpool) {
 
 HARBOL_EXPORT void harbol_objpool_free(struct HarbolObjPool *const restrict objpool, void *const restrict ptr) {
 	uintptr_t const p = ( uintptr_t )(ptr);
-	if( ptr==NULL || p < objpool->mem || p > objpool->mem + (objpool->size * objpool->objsize) ) {
+	if( ptr==NULL || p < objpool->mem || p >= objpool->mem + (objpool->size * objpool->objsize) ) {
 		return;
 	}
 	/// when we free our pointer, we recycle the pointer space to store the previous index
-- 
2.43.0


From 5bbbc28b47076c9f4f916baa21b30c941547b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 12/85] fix: objpool_init accepts an object size that aligns to
 zero

---
 allocators/objpool/objpool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index 72cbee0..8d4dc45 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -11,6 +11,9 @@ HARBOL_EXPORT NO_NULL bool harbol_objpool_init(struct HarbolObjPool *const objpo
 	}
 	
 	size_t const aligned_objsize = harbol_align_size(objsize, sizeof(size_t));
+	if( aligned_objsize < objsize ) {
+		return false;
+	}
 	objpool->mem = ( uintptr_t )(calloc(len, aligned_objsize));
 	if( objpool->mem==NIL ) {
 		return false;
-- 
2.43.0


From bb400bf5b9c8c498f2d62cc2d898785a7e477adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 13/85] fix: tree_set overflows the node's buffer with a larger
 value

---
 tree/tree.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index ab3546d..9fbd799 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -59,11 +59,12 @@ HARBOL_EXPORT bool harbol_tree_set(struct HarbolTree *const restrict tree, void
 		return false;
 	}
 	
-	if( tree->data==NULL ) {
-		tree->data = calloc(datasize, sizeof *tree->data);
-		if( tree->data==NULL ) {
+	if( tree->data==NULL || tree->len < datasize ) {
+		uint8_t *const new_data = realloc(tree->data, datasize);
+		if( new_data==NULL ) {
 			return false;
 		}
+		tree->data = new_data;
 	}
 	memcpy(tree->data, val, datasize);
 	tree->len = datasize;
-- 
2.43.0


From b57f894407a55c1bb4aca009f29c6be610c5f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 14/85] fix: tree value lookups ignore the size of the value
 searched for

---
 tree/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index 9fbd799..ab5030c 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -107,7 +107,7 @@ HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, vo
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			harbol_tree_free(child_ref);
 			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
 		}
@@ -126,7 +126,7 @@ HARBOL_EXPORT struct HarbolTree *harbol_tree_get_node_by_val(struct HarbolTree c
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			return *child_ref;
 		}
 	}
-- 
2.43.0


From 1a72531334fc6e5ba31ff86985c728b9a3144280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 15/85] fix: tuple_init accepts layouts its 16-bit sizes and
 offsets cannot hold, fields overlap

---
 tuple/tuple.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 27e8b70..1523106 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -35,6 +35,10 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		prev_size=0
 	;
 	for( size_t i=0; i < len; i++ ) {
+		/// sizes & offsets are kept as 16-bit.
+		if( sizes[i] > UINT16_MAX || total_size > UINT16_MAX - sizes[i] ) {
+			return false;
+		}
 		total_size += sizes[i];
 		if( packed || len==1 ) {
 			continue;
-- 
2.43.0


From 0ed0eaf0efb54b7136a5e7cb605903d8091b6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 16/85] fix: tuple_init reports success without its field table
 when memory runs out

---
 tuple/tuple.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 1523106..8cbde2c 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -56,7 +56,12 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	}
 	
 	tuple->len = packed? total_size : aligned_total;
-	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
+	bool res = false;
+	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &res);
+	if( !res ) {
+		harbol_tuple_clear(tuple);
+		return false;
+	}
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
 		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
-- 
2.43.0


From 16cb9c8978e84b1fdd615cfb7fd02397a84fd33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 17/85] fix: tuple_init never records that a tuple is packed

---
 tuple/tuple.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 8cbde2c..bfee2ae 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -62,6 +62,7 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		harbol_tuple_clear(tuple);
 		return false;
 	}
+	tuple->packed = packed;
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
 		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
-- 
2.43.0


From 0b959b73ce10d6692b5a42ef2440ba182be31ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 18/85] fix: first node of a deque keeps stale links from the
 free list

---
 deque/deque.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index 05177dc..3d6e4a2 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -144,6 +144,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->head==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->nexts[i] = deque->head;
@@ -167,6 +168,7 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->tail==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->prevs[i] = deque->tail;
-- 
2.43.0


From 7003035f3b08b1a8a1c60c04866403cc322e5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 19/85] fix: deque inserts an element without data when memory
 runs out

---
 deque/deque.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index 3d6e4a2..f4ddf88 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -143,6 +143,10 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->head==SIZE_MAX ) {
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
@@ -167,6 +171,10 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->tail==SIZE_MAX ) {
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
-- 
2.43.0


From 65c12c4311635532bdd20bc4872821e15ccaa71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 20/85] fix: deque_reset does not reset the length

---
 deque/deque.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deque/deque.c b/deque/deque.c
index f4ddf88..5953f29 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -46,6 +46,7 @@ HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
 	}
 	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
 	deque->freed = deque->cap - 1;
+	deque->len = 0;
 }
 
 HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
-- 
2.43.0


From 87977afe008887d761a87f35b32971bb4202b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 21/85] fix: deque_init of size 0 writes before its buffers

---
 deque/deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deque/deque.c b/deque/deque.c
index 5953f29..51db43a 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -14,7 +14,7 @@ HARBOL_EXPORT struct HarbolDeque *harbol_deque_new(size_t const init_size) {
 }
 
 HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t const init_size) {
-	if( !harbol_multi_recalloc(init_size, deque->cap, 3,
+	if( init_size==0 || !harbol_multi_recalloc(init_size, deque->cap, 3,
 						&deque->nexts, sizeof *deque->nexts,
 						&deque->prevs, sizeof *deque->prevs,
 						&deque->datum, sizeof *deque->datum) ) {
-- 
2.43.0


From 2cd95e9e2ced70dd9053afd2243cc3dbd30cfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 22/85] fix: bytebuffer insert_obj & insert_zeros wrap the
 length on huge sizes

---
 bytebuffer/bytebuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index d31a1b9..aef3377 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -103,7 +103,7 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_cstr(struct HarbolByteBuf *const res
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const restrict buf, void const *const obj, size_t const size) {
-	if( buf->len + size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + size) ) {
+	if( size > SIZE_MAX - buf->len || (buf->len + size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + size)) ) {
 		return false;
 	}
 	memcpy(&buf->table[buf->len], obj, size);
@@ -112,7 +112,7 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const rest
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *const buf, size_t const amount) {
-	if( buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount) ) {
+	if( amount > SIZE_MAX - buf->len || (buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount)) ) {
 		return false;
 	}
 	memset(&buf->table[buf->len], 0, amount);
-- 
2.43.0


From 45940368351df63d753f8aa7d77580358f9e7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 23/85] fix: map lookups never probe the first bucket after the
 last, probing assumes power of 2 sizes

---
 map/map.c | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/map/map.c b/map/map.c
index 905fcad..07782f6 100644
--- a/map/map.c
+++ b/map/map.c
@@ -63,27 +63,18 @@ HARBOL_EXPORT void harbol_map_free(struct HarbolMap **const map_ref) {
 
 
 HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const map, void const *const key, size_t const keylen) {
-	uint8_t const *const restrict desired_key = key;
-	size_t const hash    = array_hash(desired_key, keylen, map->seed);
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = hash & mask;
-	size_t const val_idx = map->buckets[bkt_idx];
-	if( val_idx==SIZE_MAX ) {
+	if( map->len==0 ) {
 		return SIZE_MAX;
-	} else if( map->keys[val_idx][0]==desired_key[0] && map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
-		return val_idx;
 	}
 	
-	for( size_t i = bkt_idx+1; i != bkt_idx; (i = (i+1 >= mask)? ((i+1) & mask) : i+1) ) {
-		/// sometimes the `bkt_idx` is at the mask index. Account for that.
-		if( i > mask ) {
-			continue;
-		}
-		
-		size_t const idx = map->buckets[i];
+	uint8_t const *const restrict desired_key = key;
+	size_t const hash    = array_hash(desired_key, keylen, map->seed);
+	size_t const bkt_idx = hash % map->cap;
+	for( size_t i=0; i < map->cap; i++ ) {
+		size_t const idx = map->buckets[(bkt_idx + i) % map->cap];
 		if( idx==SIZE_MAX ) {
-			continue;
-		} else if( map->keys[idx][0]==desired_key[0] && map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
+			break;
+		} else if( map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
 			return idx;
 		}
 	}
@@ -99,13 +90,9 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t       bkt_idx = map->hashes[n] & mask;
+	size_t bkt_idx = map->hashes[n] % map->cap;
 	while( map->buckets[bkt_idx] != SIZE_MAX ) {
-		bkt_idx++;
-		if( bkt_idx >= mask ) {
-			bkt_idx &= mask;
-		}
+		bkt_idx = (bkt_idx + 1) % map->cap;
 	}
 	map->buckets[bkt_idx] = n;
 	return true;
-- 
2.43.0


From 6e4e220d22f868982f5a7727c50f7a2008ca7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 24/85] fix: map removal clears the wrong bucket & leaves the
 others pointing at shifted entries

---
 map/map.c | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/map/map.c b/map/map.c
index 07782f6..a71abc1 100644
--- a/map/map.c
+++ b/map/map.c
@@ -86,7 +86,7 @@ HARBOL_EXPORT bool harbol_map_has_key(struct HarbolMap const *const map, void co
 }
 
 static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n) {
-	if( map->len >= map->cap ) {
+	if( n >= map->cap ) {
 		return false;
 	}
 	
@@ -98,6 +98,16 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 	return true;
 }
 
+/// (re)builds the buckets from the entries.
+static void _harbol_map_fill_buckets(struct HarbolMap *const map) {
+	for( size_t i=0; i < map->cap; i++ ) {
+		map->buckets[i] = SIZE_MAX;
+	}
+	for( size_t i=0; i < map->len; i++ ) {
+		_harbol_map_insert_entry(map, i);
+	}
+}
+
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
 	if( !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
@@ -110,15 +120,8 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 	}
 	
 	map->cap = new_size;
-	for( size_t i=0; i < map->cap; i++ ) {
-		map->buckets[i] = SIZE_MAX;
-	}
-	
-	bool res = false;
-	for( size_t i=0; i < map->len; i++ ) {
-		res |= _harbol_map_insert_entry(map, i);
-	}
-	return res;
+	_harbol_map_fill_buckets(map);
+	return true;
 }
 
 HARBOL_EXPORT bool harbol_map_insert(struct HarbolMap *const restrict map, void const *const key, size_t const keylen, void const *const val, size_t const datasize) {
@@ -219,23 +222,17 @@ HARBOL_EXPORT bool harbol_map_idx_rm(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = map->hashes[n] & mask;
-	size_t const val_idx = map->buckets[bkt_idx];
-	if( val_idx==SIZE_MAX ) {
-		return false;
-	}
-	
 	free(map->keys[n]);  map->keys[n]  = NULL;
 	free(map->datum[n]); map->datum[n] = NULL;
 	map->hashes[n] = map->keylens[n] = map->datalens[n] = 0;
-	map->buckets[bkt_idx] = SIZE_MAX;
 	
-	return multi_array_shift_up(&map->len, n, 1, 5,
+	multi_array_shift_up(&map->len, n, 1, 5,
 			map->keys,     sizeof *map->keys,
 			map->datum,    sizeof *map->datum,
 			map->hashes,   sizeof *map->hashes,
 			map->keylens,  sizeof *map->keylens,
 			map->datalens, sizeof *map->datalens
 	);
+	_harbol_map_fill_buckets(map);
+	return true;
 }
\ No newline at end of file
-- 
2.43.0


From eabd3a4434e73f58498ba3328dd8dd158cacca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 25/85] fix: harbol_map_idx_set does not update the size of the
 value

---
 map/map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/map/map.c b/map/map.c
index a71abc1..ad1db70 100644
--- a/map/map.c
+++ b/map/map.c
@@ -209,6 +209,7 @@ HARBOL_EXPORT bool harbol_map_idx_set(struct HarbolMap *const restrict map, size
 	}
 	free(map->datum[index]);
 	map->datum[index] = data;
+	map->datalens[index] = datasize;
 	return true;
 }
 
-- 
2.43.0


From a20316ae6ddf081a3d335ba4b957752da0fe541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 26/85] fix: harbol_map_rehash accepts sizes below the number
 of entries, maps of size 0 never grow

---
 map/map.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/map/map.c b/map/map.c
index ad1db70..38cb022 100644
--- a/map/map.c
+++ b/map/map.c
@@ -109,6 +109,10 @@ static void _harbol_map_fill_buckets(struct HarbolMap *const map) {
 }
 
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
+	if( new_size==0 || new_size < map->len ) {
+		return false;
+	}
+	
 	if( !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
@@ -125,7 +129,7 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 }
 
 HARBOL_EXPORT bool harbol_map_insert(struct HarbolMap *const restrict map, void const *const key, size_t const keylen, void const *const val, size_t const datasize) {
-	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, map->cap << 1)) ) {
+	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, map->cap==0? 1 : map->cap << 1)) ) {
 		return false;
 	}
 	
-- 
2.43.0


From 6fd43e0b633ff38266f405f928ddce06c216f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 27/85] fix: harbol_map_idx_val reads a byte of zero-sized
 values

---
 map/map.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/map/map.c b/map/map.c
index 38cb022..d1b09ac 100644
--- a/map/map.c
+++ b/map/map.c
@@ -175,8 +175,7 @@ HARBOL_EXPORT size_t harbol_map_idx_val(struct HarbolMap const *const map, void
 	}
 	
 	for( size_t i=0; i < map->len; i++ ) {
-		uint8_t const *const restrict desired_val = val;
-		if( map->datum[i][0]==desired_val[0] && map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
+		if( map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
 			return i;
 		}
 	}
-- 
2.43.0


From fbfa8d5f0748e504d7b2907f03c60d823637600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 28/85] fix: harbol_string_add_char_rep wraps the length on
 huge amounts & writes out of bounds

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 8953ce6..53fce96 100644
--- a/str/str.c
+++ b/str/str.c
@@ -66,7 +66,7 @@ HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char c
 }
 
 HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, char const c, size_t const amount) {
-	if( !_harbol_resize_string(str, str->len + amount) ) {
+	if( amount >= SIZE_MAX - str->len || !_harbol_resize_string(str, str->len + amount) ) {
 		return false;
 	}
 	for( size_t i=0; i < amount; i++ ) {
-- 
2.43.0


From a9760706aae90a4923198d7fb9fbb8bc107e3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 29/85] fix: harbol_string_add_str overlaps when a string is
 added to itself

---
 str/str.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 53fce96..5aebf88 100644
--- a/str/str.c
+++ b/str/str.c
@@ -76,10 +76,11 @@ HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, ch
 }
 
 HARBOL_EXPORT bool harbol_string_add_str(struct HarbolString *const strA, struct HarbolString const *const strB) {
-	if( strB->cstr==NULL || !_harbol_resize_string(strA, strA->len + strB->len) ) {
+	size_t const lenA = strA->len, lenB = strB->len;
+	if( strB->cstr==NULL || !_harbol_resize_string(strA, lenA + lenB) ) {
 		return false;
 	}
-	strncat(strA->cstr, strB->cstr, strB->len);
+	memcpy(&strA->cstr[lenA], strB->cstr, lenB);
 	return true;
 }
 
-- 
2.43.0


From ce987d97a6a73fd04c91a33ee351649a899a1aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 30/85] fix: harbol_string_new loses the text silently when
 memory runs out

---
 str/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 5aebf88..1b3a568 100644
--- a/str/str.c
+++ b/str/str.c
@@ -15,11 +15,13 @@ static NO_NULL bool _harbol_resize_string(struct HarbolString *const restrict st
 }
 
 HARBOL_EXPORT struct HarbolString *harbol_string_new(char const cstr[]) {
-	struct HarbolString *restrict str = calloc(1, sizeof *str);
+	struct HarbolString *str = calloc(1, sizeof *str);
 	if( str==NULL ) {
 		return NULL;
 	}
-	harbol_string_init(str, cstr);
+	if( !harbol_string_init(str, cstr) && cstr != NULL && cstr[0] != 0 ) {
+		free(str); str = NULL;
+	}
 	return str;
 }
 
-- 
2.43.0


From 5be809558a6786f3380a750c1a925920e2049eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 31/85] fix: harbol_string_rm_char does not update the length

---
 str/str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/str/str.c b/str/str.c
index 1b3a568..25c83d5 100644
--- a/str/str.c
+++ b/str/str.c
@@ -386,12 +386,17 @@ HARBOL_EXPORT bool harbol_string_reverse(struct HarbolString *const str) {
 
 
 HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char const c) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
+	
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( str->cstr[i] != c ) {
 			str->cstr[j++] = str->cstr[i];
 		} else {
 			counts++;
+			str->len--;
 		}
 	}
 	str->cstr[j] = 0;
-- 
2.43.0


From f48544b5d4c186ed2814010e990279fdaf756802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 32/85] fix: trim_spaces & find_char crash on strings without
 text

---
 str/str.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 25c83d5..b7990d8 100644
--- a/str/str.c
+++ b/str/str.c
@@ -405,6 +405,10 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 
 
 HARBOL_EXPORT size_t harbol_string_trim_spaces(struct HarbolString *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
+	
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( !isspace(str->cstr[i]) ) {
@@ -425,7 +429,7 @@ static NO_NULL size_t _find_chr(char const src[const static 1], char const c) {
 }
 
 HARBOL_EXPORT size_t harbol_string_find_char(struct HarbolString const *const str, char const c) {
-	return _find_chr(str->cstr, c);
+	return( str->cstr==NULL )? SIZE_MAX : _find_chr(str->cstr, c);
 }
 
 
-- 
2.43.0


From fb5e1fc1ac8b2e8e559c968d641be28752b002c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 33/85] fix: harbol_string_read_from_file does not terminate
 text shorter than the previous one

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index b7990d8..7f41919 100644
--- a/str/str.c
+++ b/str/str.c
@@ -212,6 +212,7 @@ HARBOL_EXPORT bool harbol_string_read_from_file(struct HarbolString *const str,
 		return false;
 	}
 	str->len = fread(str->cstr, sizeof *str->cstr, filesize, file);
+	str->cstr[str->len] = 0;
 	return true;
 }
 
-- 
2.43.0


From 7eb353d11095ea522a2f69a4322689a1e0f58837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 34/85] fix: harbol_string_count_cstr never ends on an empty
 substring

---
 str/str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/str/str.c b/str/str.c
index 7f41919..a6f010e 100644
--- a/str/str.c
+++ b/str/str.c
@@ -319,6 +319,9 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 	
 	size_t occurrences = 0;
 	size_t const occ_len = strlen(occurrence);
+	if( occ_len==0 ) {
+		return 0;
+	}
 	char const *pos = strstr(str->cstr, occurrence);
 	while( pos != NULL ) {
 		occurrences++;
-- 
2.43.0


From 8f9279b7b3b959bf890e351661576787dd2414bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 35/85] fix: harbol_string_cstr_offsets yields garbage when
 there are fewer occurrences than offsets

---
 str/str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index a6f010e..024f956 100644
--- a/str/str.c
+++ b/str/str.c
@@ -337,8 +337,13 @@ HARBOL_EXPORT NO_NULL bool harbol_string_cstr_offsets(struct HarbolString const
 	
 	size_t offset = 0;
 	for( size_t i=0; i < offsets_len; i++ ) {
-		size_t const curr_offs = offset;
-		offset += _subcstr_diff(&str->cstr[curr_offs], occurrence);
+		size_t const diff = ( offset > str->len )? SIZE_MAX : _subcstr_diff(&str->cstr[offset], occurrence);
+		if( diff==SIZE_MAX ) {
+			/// no more occurrences.
+			offsets[i] = SIZE_MAX;
+			continue;
+		}
+		offset += diff;
 		offsets[i] = offset;
 		offset++;
 	}
-- 
2.43.0


From 067566c20ec6753c3a637205afcd8b780a1d4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 36/85] fix: harbol_string_replace_cstr replaces one occurrence
 more than asked for & overflows

---
 str/str.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/str/str.c b/str/str.c
index 024f956..b03961d 100644
--- a/str/str.c
+++ b/str/str.c
@@ -252,7 +252,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	}
 	
 	size_t const counts = harbol_string_count_cstr(str, to_replace);
-	if( counts==0 ) {
+	if( counts==0 || amount==0 ) {
 		return false;
 	} else if( amount > counts ) {
 		amount = counts;
@@ -264,7 +264,9 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
 	size_t const len_calc = str->len + (amount * (with_len - replace_len));
-	_harbol_resize_string(&rep_str, len_calc);
+	if( !_harbol_resize_string(&rep_str, len_calc) ) {
+		return false;
+	}
 	size_t rep_len = 0;
 	/// first copy contents up to the first offset.
 	strncpy(&rep_str.cstr[0], &str->cstr[0], offset);
@@ -273,7 +275,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	strcpy(&rep_str.cstr[rep_len], with);
 	rep_len += with_len;
-	for( size_t i=0; i < amount; i++ ) {
+	for( size_t i=1; i < amount; i++ ) {
 		size_t const saved_offset = offset;
 		size_t const relative_offs = _subcstr_diff(&str->cstr[saved_offset], to_replace);
 		if( relative_offs==SIZE_MAX ) {
-- 
2.43.0


From a67e3d7638631b6692619d2d40ca23b50d7bbd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 37/85] fix: harbol_string_replace_range reads out of bounds
 when the range ends at the length

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index b03961d..f2e201c 100644
--- a/str/str.c
+++ b/str/str.c
@@ -449,7 +449,7 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	if( upper > str->len ) {
+	if( upper >= str->len ) {
 		upper = str->len - 1;
 	}
 	
-- 
2.43.0


From 37d174c655d362f326eec0bb315055bd5bb1214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 38/85] fix: harbol_string_replace_range truncates the text
 when memory runs out

---
 str/str.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/str/str.c b/str/str.c
index f2e201c..8a5ea54 100644
--- a/str/str.c
+++ b/str/str.c
@@ -458,13 +458,16 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	char *start = &str->cstr[lower];
-	start[0] = 0;
-	char const *end = &str->cstr[upper];
+	char const *end = &str->cstr[upper + 1];
+	size_t const with_len = strlen(with);
+	size_t const end_len  = str->len - (upper + 1);
 	struct HarbolString s = {0};
-	harbol_string_add_cstr(&s, str->cstr);
-	harbol_string_add_cstr(&s, with);
-	harbol_string_add_cstr(&s, &end[1]);
+	if( !_harbol_resize_string(&s, lower + with_len + end_len) ) {
+		return false;
+	}
+	memcpy(&s.cstr[0],                str->cstr, lower);
+	memcpy(&s.cstr[lower],            with,      with_len);
+	memcpy(&s.cstr[lower + with_len], end,       end_len);
 	harbol_string_clear(str);
 	*str = s;
 	return true;
-- 
2.43.0


From 51b641376811c6564a4d14162ba007202d675945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 39/85] fix: skip_string_literal & skip_multiquote_string run
 past a text ending in an escape

---
 lex/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index c8dc42c..eaf55df 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -102,7 +102,7 @@ HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char con
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	return str;
 }
@@ -169,7 +169,7 @@ HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_
 HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char const quote[static 1], size_t const quote_len, char const esc) {
 	while( *str != 0 && strncmp(quote, str, quote_len) != 0 ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	if( *str != 0 ) {
 		str += quote_len;
-- 
2.43.0


From ee4d9d28c2d140f04c107ef8e7a58a8621e212eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 40/85] fix: single line comment scanners run past the text
 when its last line has a backslash

---
 lex/lex.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index eaf55df..13fa592 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -111,10 +111,13 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	char const *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
-			if( *begin=='\n' ) {
-				++*lines;
+			while( *begin != 0 && *begin != '\n' ) {
+				begin++;
 			}
+			if( *begin==0 ) {
+				break;
+			}
+			++*lines;
 		}
 		begin++;
 	}
@@ -138,7 +141,12 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 	char *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
+			while( *begin != 0 && *begin != '\n' ) {
+				begin++;
+			}
+			if( *begin==0 ) {
+				break;
+			}
 			memset(str, ' ', begin-str);
 			str = ++begin;
 		} else {
@@ -181,12 +189,13 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 	while( *str != 0 && *str != '\n' ) {
 		if( *str=='\\' ) {
 			harbol_string_add_char(buf, *str);
-			while( *++str != '\n' ) {
+			while( *++str != 0 && *str != '\n' ) {
 				harbol_string_add_char(buf, *str);
 			}
-			if( *str=='\n' ) {
-				++*lines;
+			if( *str==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		harbol_string_add_char(buf, *str++);
 	}
-- 
2.43.0


From bc336fc132daa957a42ebb119211e6ef20dcb878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 41/85] fix: lex_multiquote_string adds every newline twice

---
 lex/lex.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 13fa592..1c0a0ce 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -230,7 +230,6 @@ HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **
 		} else if( c=='\n' ) {
 			/// make sure you converted all carriage returns '\r' to '\n'.
 			++*line;
-			harbol_string_add_char(buf, c);
 		}
 		harbol_string_add_char(buf, *str);
 		str++;
-- 
2.43.0


From 0174d528bdf350c1bc7129b77f6fa858459eead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 42/85] fix: get_str_rune_len runs past a text ending in a
 truncated character

---
 lex/lex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 1c0a0ce..e1f5cd5 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -61,7 +61,9 @@ HARBOL_EXPORT size_t get_str_rune_len(char const cstr[const static 1]) {
 	size_t runes = 0;
 	for( size_t i=0; cstr[i] != 0; ) {
 		size_t const read = get_utf8_len(cstr[i]);
-		i += read;
+		for( size_t n=0; n < read && cstr[i] != 0; n++ ) {
+			i++;
+		}
 		runes++;
 	}
 	return runes;
-- 
2.43.0


From 18092f6b33e1bb9a8f7809e0a80cc9d472618c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 43/85] fix: utf8_to_rune_iter reads past the end of a
 truncated character

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index e1f5cd5..3b90c0b 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -404,7 +404,7 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 		return -1;
 	}
 	int32_t rune = -1;
-	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len, &rune);
+	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len - *idx, &rune);
 	if( bytes_read > 0 ) {
 		*idx += bytes_read;
 	}
-- 
2.43.0


From b84656d6a44f999b530d5861f36471831ce1e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 44/85] fix: string lexing runs past a text ending in a
 backslash

---
 lex/lex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 3b90c0b..2b0aa23 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1411,7 +1411,10 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 			goto lex_str_err;
 		} else if( c=='\\' ) {
 			char const esc = *++str;
-			if( raw ) {
+			if( esc==0 ) {
+				result = HarbolLexSuddenEoFStr;
+				goto lex_str_err;
+			} else if( raw ) {
 				harbol_string_add_char(buf, c);
 				harbol_string_add_char(buf, esc);
 			} else {
-- 
2.43.0


From 346bbe16c283a1485217bdeabfb95f6d0e6338aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 45/85] fix: number scanners step past the text when it ends
 before the base prefix

---
 lex/lex.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 2b0aa23..d8a368e 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -503,7 +503,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 	
 	if( *str != 'x' && *str != 'X' ) {
 		/// missing following `x`.
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_c_style_hex_err;
 	} else {
@@ -700,7 +702,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 	}
 	
 	if( *str != 'x' && *str != 'X' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_go_style_hex_err;
 	} else {
@@ -899,7 +903,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 	}
 	
 	if( *str != 'o' && *str != 'O' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingO;
 		goto lex_go_style_octal_err;
 	} else {
@@ -959,7 +965,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 	}
 	
 	if( *str != 'b' && *str != 'B' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingB;
 		goto lex_c_style_binary_err;
 	} else {
@@ -1052,7 +1060,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 	
 	if( *str != 'b' && *str != 'B' ) {
 		result = HarbolLexMissingB;
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		goto lex_go_style_binary_err;
 	} else {
 		harbol_string_add_char(buf, *str++);
-- 
2.43.0


From a389a948483aee0c83b467891791f9147f56825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 46/85] fix: convert_runes_to_base_int is declared but not
 defined

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index d8a368e..61962fa 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1650,7 +1650,7 @@ HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const r
 }
 
  
-HARBOL_EXPORT intmax_t convert_runes_to_base(
+HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 	int32_t const        runes[const restrict static 1],
 	uint_fast8_t const   base,
 	int32_t const        numerals[const restrict static 1],
-- 
2.43.0


From 862b7715bf199c6e8af01e5a759b9a5c08f8663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 47/85] fix: hex escapes overflow & octal escapes leave their
 end unset when out of range

---
 lex/lex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 61962fa..2479e7d 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -420,6 +420,10 @@ HARBOL_EXPORT int32_t lex_hex_escape_char(char const str[static 1], char const *
 	} else {
 		for( ; *str != 0; count++ ) {
 			int_fast8_t const c = *str;
+			if( is_hex(c) && r > 0x10FFFF >> 4 ) {
+				r = -1; /// out of range.
+				goto exit;
+			}
 			switch( c ) {
 				case '0': case '1': case '2': case '3': case '4':
 				case '5': case '6': case '7': case '8': case '9':
@@ -448,7 +452,8 @@ HARBOL_EXPORT int32_t lex_octal_escape_char(char const str[static 1], char const
 		for( ; *str != 0; count++ ) {
 			int_fast8_t const c = *str;
 			if( count > 3 ) {
-				return -1; /// out of range.
+				r = -1; /// out of range.
+				goto exit;
 			} else {
 				switch( c ) {
 					case '0': case '1': case '2': case '3':
-- 
2.43.0


From f0d364418cd6696ffe0e17ebc0a004583a202a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 48/85] fix: unicode escapes overflow & accept code points
 above U+10FFFF

---
 lex/lex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 2479e7d..9c592bf 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -37,7 +37,7 @@ HARBOL_EXPORT bool is_valid_unicode(int32_t const u) {
 	/// It's not allowed to encode ASCII characters using \U or \u.
 	/// Some characters not in the basic character set (C11 5.2.1p3)
 	/// are allowed as exceptions.
-	return 0xA0u <= c || c=='$' || c=='@' || c=='`';
+	return (0xA0u <= c && c <= 0x10FFFFu) || c=='$' || c=='@' || c=='`';
 }
 
 HARBOL_EXPORT bool check_is_char(char const str[static 1], size_t const len, size_t const idx, int32_t const c) {
@@ -472,7 +472,7 @@ exit:;
 }
 
 HARBOL_EXPORT int32_t lex_unicode_char(char const str[static 1], char const **const end, size_t const encoding) {
-	int32_t r = 0;
+	uint32_t r = 0;
 	for( size_t i=0; i < encoding*2; i++ ) {
 		int_fast8_t const c = *str;
 		switch( c ) {
@@ -490,7 +490,7 @@ HARBOL_EXPORT int32_t lex_unicode_char(char const str[static 1], char const **co
 	}
 exit:;
 	*end = str;
-	return !is_valid_unicode(r)? -1 : r;
+	return !is_valid_unicode(r)? -1 : ( int32_t )(r);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
-- 
2.43.0


From 16ede75b15ff6cf0ff7a69f5dbfc33f75a733de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 49/85] fix: number scanners take a sign behind the number for
 part of it

---
 lex/lex.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 9c592bf..d7c7cd9 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -566,11 +566,13 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 				break;
 			case '+': case '-':
 				if( lit_flags & math_op ) {
-					goto lex_c_style_hex_err;
+					goto lex_c_style_hex_done;
 				} else if( !(lit_flags & (exponent_p|flt_dot)) ) { /// bad +/- placement.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexBadPlusMinusPlace;
 					goto lex_c_style_hex_err;
+				} else if( str[-1] != 'p' && str[-1] != 'P' ) { /// only an exponent can have a sign, the number ends here.
+					goto lex_c_style_hex_done;
 				} else if( !is_decimal(str[1]) && !(lit_flags & math_op) ) { /// no number after exponent?
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexNoNumAfterExp;
@@ -679,6 +681,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		}
 		str++;
 	}
+lex_c_style_hex_done:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// missing exponent...
 		result = HarbolLexHexFltNoExp;
 		goto lex_c_style_hex_err;
@@ -754,8 +757,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				}
 				break;
 			case '+': case '-':
-				if( lit_flags & math_op ) {
-					goto lex_go_style_hex_err;
+				if( str[-1] != 'p' && str[-1] != 'P' ) { /// only an exponent can have a sign, the number ends here.
+					goto lex_go_style_hex_done;
 				} else if( lit_flags & (exponent_p|flt_dot) ) {
 					if( !is_decimal(str[1]) ) { /// no number after exponent?
 						result = HarbolLexNoNumAfterExp;
@@ -766,7 +769,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 						harbol_string_add_char(buf, chr);
 					}
 				} else {
-					goto lex_go_style_hex_err;
+					goto lex_go_style_hex_done;
 				}
 				break;
 			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
@@ -796,6 +799,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		}
 		str++;
 	}
+lex_go_style_hex_done:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
@@ -1148,9 +1152,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & (math_op|got_exp_num)) || lit_flags==0 ) {
-					goto lex_c_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
+				if( (lit_flags & (math_op|got_exp_num)) || !(lit_flags & flt_e_flag) ) { /// only an exponent can have a sign, the number ends here.
+					goto lex_c_style_decimal_done;
+				} else {
 					if( !is_decimal(str[1]) ) { /// no number after exponent?
 						harbol_string_add_char(buf, chr);
 						result = HarbolLexNoNumAfterExp;
@@ -1267,6 +1271,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		str++;
 	}
 	
+lex_c_style_decimal_done:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
@@ -1311,9 +1316,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & math_op) || lit_flags==0 ) {
-					goto lex_go_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
+				if( (lit_flags & (math_op|got_exp_num)) || !(lit_flags & flt_e_flag) ) { /// only an exponent can have a sign, the number ends here.
+					goto lex_go_style_decimal_done;
+				} else {
 					if( !is_decimal(str[1]) ) { /// no number after exponent?
 						harbol_string_add_char(buf, chr);
 						result = HarbolLexNoNumAfterExp;
@@ -1366,6 +1371,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		str++;
 	}
 	
+lex_go_style_decimal_done:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
-- 
2.43.0


From dbfe3d25f3cf5ce0a0b0d27f18803ab68cf528ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 50/85] fix: utf8_str_to_rune reads through the null text of an
 empty string

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index d7c7cd9..3ae2553 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -379,7 +379,7 @@ HARBOL_EXPORT int32_t *utf8_cstr_to_rune(char const cstr[const restrict static 1
 }
 
 HARBOL_EXPORT int32_t *utf8_str_to_rune(struct HarbolString const *const str, size_t *const rune_len) {
-	return utf8_cstr_to_rune(str->cstr, str->len, rune_len);
+	return utf8_cstr_to_rune(str->cstr==NULL? "" : str->cstr, str->len, rune_len);
 }
 
 HARBOL_EXPORT char *rune_to_utf8_cstr(int32_t const runes[static 1], size_t *const cstr_len) {
-- 
2.43.0


From 8d800f04bba361fc169d5e5bc6a58d76a1561e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 51/85] fix: lex_c_style_decimal accepts dots & suffixes in the
 wrong place

---
 lex/lex.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 3ae2553..ddc960f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1137,10 +1137,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		int_fast8_t const chr = *str;
 		switch( chr ) {
 			case '.':
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_e_flag|flt_f_flag) ) { /// too many float dots.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_c_style_decimal_err;
+				} else if( lit_flags & (uflag|long1) ) { /// int suffix before dot.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_decimal_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// digit sep before or after dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
@@ -1170,7 +1174,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexMissingDotOrExp;
 					goto lex_c_style_decimal_err;
-				} else if( lit_flags & flt_f_flag ) { /// already have an F float suffix.
+				} else if( lit_flags & (flt_f_flag|long1) ) { /// already have an F or L float suffix.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltSuffix;
 					goto lex_c_style_decimal_err;
@@ -1196,6 +1200,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNotSepDigits;
 					goto lex_c_style_decimal_err;
+				} else if( lit_flags & (uflag|long1) ) { /// int suffix before exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_decimal_err;
 				} else {
 					lit_flags |= flt_e_flag;
 					harbol_string_add_char(buf, chr);
@@ -1225,10 +1233,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyLs;
 					goto lex_c_style_decimal_err;
-				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long2|uflag)) ) { /// int suffix on float literal.
+				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long1|uflag|flt_f_flag)) ) { /// int suffix on float literal.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexIntSuffixOnFlt;
 					goto lex_c_style_decimal_err;
+				} else if( (lit_flags & flt_e_flag) && !(lit_flags & got_exp_num) ) { /// l suffix but no exponent numbers after e?
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexFltSuffixAfterExpNoDigits;
+					goto lex_c_style_decimal_err;
 				} else {
 					lit_flags |= ( (lit_flags & long1)? long2 : long1 );
 					harbol_string_add_char(buf, chr);
-- 
2.43.0


From c229916bf4cc5e9b4ea9dad0fdd045e8bdaffa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 52/85] fix: lex_go_style_decimal accepts a dot in the exponent

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index ddc960f..2ee87e0 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1314,7 +1314,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_e_flag) ) { /// too many float dots.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_go_style_decimal_err;
-- 
2.43.0


From af7ff0e51c363c57deb4082ce794b418644761f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 53/85] fix: lex_c_style_octal accepts a separator or suffix
 before the dot

---
 lex/lex.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index 2ee87e0..0a22d2f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -845,6 +845,15 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1],
 				}
 				break;
 			case '.':
+				if( lit_flags & digit_sep ) { /// digit sep before dot.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexDigitSepNearDot;
+					goto lex_c_style_octal_err;
+				} else if( lit_flags & (uflag|long1) ) { /// int suffix before dot.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_octal_err;
+				}
 				return lex_c_style_decimal(str, end, buf, is_float);
 			case 'U': case 'u':
 				if( lit_flags & uflag ) { /// too many Us.
-- 
2.43.0


From c10b84b316e59efeed39875448b417304f55769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 54/85] fix: lex_go_style_hex accepts several dots & exponents
 and exponents without decimal digits

---
 lex/lex.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 0a22d2f..a0650d5 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -732,7 +732,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
+				if( lit_flags & (flt_dot|exponent_p) ) { /// too many float dots.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_go_style_hex_err;
+				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
 					goto lex_go_style_hex_err;
@@ -743,7 +747,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				break;
 			case 'P': case 'p':
 				*is_float = true;
-				if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
+				if( lit_flags & exponent_p ) { /// too many P's.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexTooManyPs;
+					goto lex_go_style_hex_err;
+				} else if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexHexNoDigitsB4Exp;
 					goto lex_go_style_hex_err;
@@ -776,6 +784,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 			case 'A': case 'B': case 'C': case 'D': case 'E': case 'F':
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9':
+				if( (lit_flags & exponent_p) && !is_decimal(chr) ) { /// exponents are decimal.
+					result = HarbolLexBadGylph;
+					harbol_string_add_char(buf, chr);
+					goto lex_go_style_hex_err;
+				}
 				if( !(lit_flags & one_hex) ) {
 					lit_flags |= one_hex;
 				}
@@ -800,7 +813,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		str++;
 	}
 lex_go_style_hex_done:;
-	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
+	if( (lit_flags & exponent_p) && (str[-1]=='p'||str[-1]=='P') ) { /// p mark missing exponent!
+		result = HarbolLexNoNumAfterExp;
+		goto lex_go_style_hex_err;
+	} else if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
-- 
2.43.0


From 610bc8747b0ef03869afd9a9143a3e6541365405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 55/85] fix: lex_c_style_hex accepts several dots, integer
 suffixes on floats & hex digits in the exponent

---
 lex/lex.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index a0650d5..52033b0 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -534,7 +534,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( !(lit_flags & one_hex) ) { /// missing at least one hex number before float dot.
+				if( lit_flags & (flt_dot|exponent_p) ) { /// too many float dots.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_c_style_hex_err;
+				} else if( !(lit_flags & one_hex) ) { /// missing at least one hex number before float dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexMissingHexB4dot;
 					goto lex_c_style_hex_err;
@@ -591,6 +595,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexUBetweenLs;
 					goto lex_c_style_hex_err;
+				} else if( lit_flags & (exponent_p|flt_dot) ) { /// int suffix on float literal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_hex_err;
 				} else {
 					lit_flags |= uflag;
 					harbol_string_add_char(buf, chr);
@@ -601,6 +609,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyLs;
 					goto lex_c_style_hex_err;
+				} else if( (lit_flags & (exponent_p|flt_dot)) && (lit_flags & (long1|f_suffix)) ) { /// int suffix on float literal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_hex_err;
 				} else {
 					lit_flags |= ( (lit_flags & long1)? long2 : long1 );
 					harbol_string_add_char(buf, chr);
@@ -615,7 +627,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 						goto lex_c_style_hex_err;
 					} else if( (chr=='F'||chr=='f') ) { /// invalid hex float suffix!
 						harbol_string_add_char(buf, chr);
-						if( lit_flags & f_suffix ) {
+						if( lit_flags & (f_suffix|long1) ) {
 							result = HarbolLexFltExtraSuffix;
 							goto lex_c_style_hex_err;
 						} else {
@@ -626,6 +638,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 						result = HarbolLexFltExtraSuffix;
 						harbol_string_add_char(buf, chr);
 						goto lex_c_style_hex_err;
+					} else { /// exponents are decimal.
+						result = HarbolLexBadGylph;
+						harbol_string_add_char(buf, chr);
+						goto lex_c_style_hex_err;
 					}
 				}
 				if( !(lit_flags & one_hex) ) {
-- 
2.43.0


From 497464a2213194bfb656d9f085039ce9f3333de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 56/85] fix: lex_c_style_hex accepts an exponent without digits
 before it

---
 lex/lex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index 52033b0..72b7c21 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -558,6 +558,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyPs;
 					goto lex_c_style_hex_err;
+				} else if( !(lit_flags & (one_hex|flt_dot)) ) { /// missing at least one hex number before hex exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexHexNoDigitsB4Exp;
+					goto lex_c_style_hex_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// digit sep before or after exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearExp;
-- 
2.43.0


From 2bda4e2656f51f43a4e196f0ee93d7d944a6f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 57/85] fix: harbol_mempool_mem_remaining subtracts the
 untouched space

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 21cf32d..9db052c 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -294,7 +294,7 @@ HARBOL_EXPORT bool harbol_mempool_cleanup(struct HarbolMemPool *const restrict m
 }
 
 HARBOL_EXPORT size_t harbol_mempool_mem_remaining(struct HarbolMemPool const *mempool) {
-	size_t total_remaining = mempool->stack.mem - (mempool->stack.mem + mempool->stack.offs);
+	size_t total_remaining = harbol_region_remaining(&mempool->stack);
 	for( struct HarbolMemNode *n = mempool->large.head; n != NULL; n = n->next ) {
 		total_remaining += n->size;
 	}
-- 
2.43.0


From 380606d6b29eb01580af51510f7b67695feaf2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 58/85] fix: harbol_mempool_init reports success without memory

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 9db052c..8773f71 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -165,7 +165,7 @@ HARBOL_EXPORT bool harbol_mempool_init(struct HarbolMemPool *const mempool, size
 		return false;
 	
 	mempool->stack = harbol_region_make(size);
-	return true;
+	return mempool->stack.mem != NULL;
 }
 
 HARBOL_EXPORT struct HarbolMemPool harbol_mempool_make(size_t const size, bool *const res) {
-- 
2.43.0


From 646c3f3b2d0c7a5cea2bc5104ac01b7d3f6dec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 59/85] fix: harbol_mempool_free reads in front of & behind the
 allocated part of the pool

---
 allocators/mempool/mempool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 8773f71..3865dbe 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -266,13 +266,13 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 	}
 	/// behind the actual pointer data is the allocation info.
 	struct HarbolMemNode *mem_node = ( struct HarbolMemNode* )(( uint8_t* )(ptr) - sizeof *mem_node);
-	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	
 	/// make sure the pointer data is valid.
-	if( !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size), ( uintptr_t )(mempool->stack.offs))
+	if( !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size) - sizeof *mem_node, ( uintptr_t )(mempool->stack.mem + mempool->stack.offs))
 			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode)) )
 		return false;
 	
+	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	/// if the mem_node is right at the stack base ptr, then add it to the stack.
 	if( ( uintptr_t )(mem_node)==mempool->stack.offs ) {
 		mempool->stack.offs += mem_node->size;
-- 
2.43.0


From 1ced57f378fd74d9ab4f6a811875d98cb8959116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 60/85] fix: mempool never gives freed blocks back to the
 untouched space

---
 allocators/mempool/mempool.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 3865dbe..d9c604c 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -52,16 +52,6 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 	}
 	
 	for( struct HarbolMemNode *iter = list->head; iter != NULL; iter = iter->next ) {
-		if( ( uintptr_t )(iter)==mempool->stack.offs ) {
-			mempool->stack.offs += iter->size;
-			harbol_freelist_remove(list, iter);
-			iter = list->head;
-			if( iter==NULL ) {
-				list->head = node;    
-				return;
-            }
-			continue;
-		}
 		uintptr_t const inode = ( uintptr_t )(node);
 		uintptr_t const iiter = ( uintptr_t )(iter);
 		uintptr_t const iter_end = iiter + iter->size;
@@ -260,6 +250,19 @@ HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict
 	return resized_block;
 }
 
+static NO_NULL bool _give_back_freenode(struct HarbolMemPool *const mempool) {
+	for( size_t i=0; i <= HARBOL_BUCKET_SIZE; i++ ) {
+		struct HarbolFreeList *const list = ( i < HARBOL_BUCKET_SIZE )? &mempool->buckets[i] : &mempool->large;
+		for( struct HarbolMemNode *node = list->head; node != NULL; node = node->next ) {
+			if( ( uintptr_t )(node)==( uintptr_t )(mempool->stack.mem + mempool->stack.offs) ) {
+				mempool->stack.offs += harbol_freelist_remove(list, node)->size;
+				return true;
+			}
+		}
+	}
+	return false;
+}
+
 HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict mempool, void *const ptr) {
 	if( ptr==NULL || ( uintptr_t )(ptr) - sizeof(struct HarbolMemNode) < ( uintptr_t )(mempool->stack.mem) ) {
 		return false;
@@ -274,8 +277,10 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 	
 	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	/// if the mem_node is right at the stack base ptr, then add it to the stack.
-	if( ( uintptr_t )(mem_node)==mempool->stack.offs ) {
+	if( ( uintptr_t )(mem_node)==( uintptr_t )(mempool->stack.mem + mempool->stack.offs) ) {
 		mempool->stack.offs += mem_node->size;
+		/// free nodes that are at the stack base ptr now go back as well.
+		while( _give_back_freenode(mempool) );
 	} else {
 		/// try to place it into bucket or large freelist.
 		struct HarbolFreeList *const list = ( slot < HARBOL_BUCKET_SIZE )? &mempool->buckets[slot] : &mempool->large;
-- 
2.43.0


From 319d5d700f968f674839a8fc2d4380930f95ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 61/85] fix: harbol_freelist_insert drops blocks by linking the
 list into the new block

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index d9c604c..64ab6e5 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -105,7 +105,7 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 				}
 				return;
 			} else {
-				harbol_freelist_insert_before(list, node, iter);
+				harbol_freelist_insert_before(list, iter, node);
 				list->len++;
 				return;
 			}
-- 
2.43.0


From fb8e3d19efa74b76ba63a98e8938e60cd7c058f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 62/85] fix: merged free blocks of the mempool keep stale links

---
 allocators/mempool/mempool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 64ab6e5..4514808 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -40,6 +40,7 @@ HARBOL_EXPORT void harbol_freelist_insert_before(struct HarbolFreeList *const li
 static void _harbol_freelist_transfer_node(struct HarbolMemPool *const mempool, struct HarbolMemNode *const node) {
 	size_t const slot = (node->size >> HARBOL_BUCKET_BITS) - 1;
 	struct HarbolFreeList *const l = (slot < HARBOL_BUCKET_SIZE)? &mempool->buckets[slot] : &mempool->large;
+	node->next = node->prev = NULL;
 	harbol_freelist_insert(mempool, l, node, (slot < HARBOL_BUCKET_SIZE));
 }
 
@@ -86,6 +87,9 @@ HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, s
 					node->size += list->head->size;
 					node->next = list->head->next;
 					node->prev = NULL;
+					if( node->next != NULL ) {
+						node->next->prev = node;
+					}
 					list->head = node;
 					if( is_bucket ) {
 						_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, list->head));
-- 
2.43.0


From 750bc768972d877a638f70598b1cd2409e5e3872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 63/85] fix: harbol_mempool_free takes a block that was merged
 into another one twice

---
 allocators/mempool/mempool.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 4514808..87a3cc4 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -254,6 +254,18 @@ HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict
 	return resized_block;
 }
 
+static NO_NULL bool _is_free(struct HarbolMemPool const *const mempool, struct HarbolMemNode const *const node) {
+	for( size_t i=0; i <= HARBOL_BUCKET_SIZE; i++ ) {
+		struct HarbolFreeList const *const list = ( i < HARBOL_BUCKET_SIZE )? &mempool->buckets[i] : &mempool->large;
+		for( struct HarbolMemNode const *n = list->head; n != NULL; n = n->next ) {
+			if( ( uintptr_t )(node) >= ( uintptr_t )(n) && ( uintptr_t )(node) - ( uintptr_t )(n) < n->size ) {
+				return true;
+			}
+		}
+	}
+	return false;
+}
+
 static NO_NULL bool _give_back_freenode(struct HarbolMemPool *const mempool) {
 	for( size_t i=0; i <= HARBOL_BUCKET_SIZE; i++ ) {
 		struct HarbolFreeList *const list = ( i < HARBOL_BUCKET_SIZE )? &mempool->buckets[i] : &mempool->large;
@@ -276,7 +288,8 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 	
 	/// make sure the pointer data is valid.
 	if( !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size) - sizeof *mem_node, ( uintptr_t )(mempool->stack.mem + mempool->stack.offs))
-			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode)) )
+			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode))
+			|| _is_free(mempool, mem_node) )
 		return false;
 	
 	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
-- 
2.43.0


From ec89832f69fb0f2e6cf6e6fd36531847e0d9d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 64/85] fix: harbol_mempool_free takes stale pointers when
 nothing is allocated

---
 allocators/mempool/mempool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 87a3cc4..eb912c7 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -287,7 +287,8 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 	struct HarbolMemNode *mem_node = ( struct HarbolMemNode* )(( uint8_t* )(ptr) - sizeof *mem_node);
 	
 	/// make sure the pointer data is valid.
-	if( !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size) - sizeof *mem_node, ( uintptr_t )(mempool->stack.mem + mempool->stack.offs))
+	if( mempool->stack.size < mempool->stack.offs + sizeof *mem_node
+			|| !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size) - sizeof *mem_node, ( uintptr_t )(mempool->stack.mem + mempool->stack.offs))
 			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode))
 			|| _is_free(mempool, mem_node) )
 		return false;
-- 
2.43.0


From 3edd9ce83e51371af89b0ddd084213099f642a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 65/85] fix: math parser writes past its token buffer when a
 number is long

---
 math/math_parser.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index fd733da..dc32162 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -38,14 +38,21 @@ struct HarbolMathLexer {
 };
 
 
+/// Keeps the lexeme terminated, characters which don't fit are left out.
+static NO_NULL void _harbol_math_add_char(struct HarbolMathLexer *const restrict ls, char const c) {
+	if( ls->tok.size < LEXEME_SIZE - 1 ) {
+		ls->tok.lexeme[ls->tok.size] = c;
+		ls->tok.size++;
+	}
+}
+
 static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
 	bool has_dot = false;
 	while( expression[ls->idx] != 0 && (isalnum(expression[ls->idx]) || expression[ls->idx]=='.') ) {
 		switch( expression[ls->idx] ) {
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_add_char(ls, expression[ls->idx]);
 				ls->idx++;
 				break;
 			}
@@ -54,15 +61,13 @@ static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restr
 					//LogError("ConfigMap-Math :: extra dot in decimal literal");
 					return false;
 				}
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_add_char(ls, expression[ls->idx]);
 				ls->idx++;
 				has_dot = true;
 				break;
 			}
 			default: {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_add_char(ls, expression[ls->idx]);
 				//LogError("ConfigMap-Math :: invalid decimal literal: '%s'", ls->tok.lexeme);
 				return false;
 			}
@@ -87,9 +92,10 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			case '5': case '6': case '7': case '8': case '9': {
 				ls->tok.tag = TokenNum;
 				/// Decimal/Float.
+				char const *const number = &expression[ls->idx];
 				bool const res = _harbol_math_lex_decimal(ls, expression);
 				if( res ) {
-					ls->tok.val = strtofmax(ls->tok.lexeme, NULL);
+					ls->tok.val = strtofmax(number, NULL);
 				}
 				return res;
 			}
-- 
2.43.0


From ccbef00442b33ef2e581e335811afb8b148ba9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 66/85] fix: math parser hands unterminated names of 64
 characters to the resolver

---
 math/math_parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index dc32162..cdadb48 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -164,13 +164,16 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			}
 			default: {
 				bool got_something = false;
-				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE ) {
+				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE - 1 ) {
 					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
 					ls->idx++;
 					ls->tok.size++;
 					got_something = true;
 				}
-				if( got_something ) {
+				if( isalnum(expression[ls->idx]) ) {
+					//LogError("ConfigMap-Math :: name is too long '%s'.", ls->tok.lexeme);
+					return false;
+				} else if( got_something ) {
 					ls->tok.tag = TokenVar;
 					return true;
 				}			
-- 
2.43.0


From a784255d60284826ea5c68683408172dd9a03079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 67/85] fix: config parser crashes on empty string values & on
 math without its end

---
 cfg/cfg.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 69ddaa3..ec06503 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -261,17 +261,16 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&keystr);
 			return false;
 		}
-		char *math_marker = strstr(str->cstr, "<math");
-		if( math_marker != NULL ) {
+		char *math_marker = harbol_string_empty(str)? NULL : strstr(str->cstr, "<math");
+		char *const math_end = (math_marker==NULL)? NULL : strchr(math_marker, '>');
+		if( math_marker != NULL && math_end==NULL ) {
+			/// missing ending '>'. Forgot it?
+			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: ending '>' for math expression\n");
+		} else if( math_marker != NULL ) {
 			char *const math_start = math_marker + sizeof "<math"-1;
-			char *const math_end = strchr(math_start, '>');
-			if( math_end != NULL ) {
-				*math_end = 0;
-			}
+			*math_end = 0;
 			floatmax_t const expr_result = harbol_math_parse_expr(math_start, _harbol_cfg_math_var_func, parse_state, sizeof *parse_state);
-			if( math_end != NULL ) {
-				*math_end = '>';
-			}
+			*math_end = '>';
 			char *number = sprintf_alloc("%" PRIfMAX "", expr_result);
 			harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
 			free(number); number = NULL;
-- 
2.43.0


From 4124fd24b90f4b5aeb1536863e8eca71a2490906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 68/85] fix: inline math in a key replaces the wrong part &
 cuts off long results

---
 cfg/cfg.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index ec06503..422120d 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -131,9 +131,11 @@ static NO_NULL floatmax_t _harbol_cfg_parse_inline_math(struct HarbolString *con
 	math_end[0] = '>';
 	if( replace_str_with_res ) {
 		size_t const start = ( size_t )(math_str - str->cstr);
-		char result_str[30] = {0};
-		snprintf(&result_str[0],  sizeof result_str - 1,  "%" PRIfMAX "", result);
-		harbol_string_replace_range(str, start, (math_end==NULL)? SIZE_MAX : ( size_t )(math_end - math_str), result_str);
+		char *result_str = sprintf_alloc("%" PRIfMAX "", result);
+		if( result_str != NULL ) {
+			harbol_string_replace_range(str, start, ( size_t )(math_end - str->cstr), result_str);
+		}
+		free(result_str); result_str = NULL;
 	}
 	return result;
 }
-- 
2.43.0


From 7d1e50d62f09e407de4ebf4ab78d47351e5129ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 69/85] fix: config parser converts malformed numbers of colors
 & vectors

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 422120d..d27e7a7 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -303,7 +303,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			struct HarbolString numstr = {0};
 			enum HarbolCfgType type = HarbolCfgType_Null;
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
-			if( iterations < 4 ) {
+			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
 					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
 				} else {
-- 
2.43.0


From 3d158fafed989aa963fa7451645d0aff52c2ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 70/85] fix: config parser leaks values it fails to read or to
 insert

---
 cfg/cfg.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index d27e7a7..2cf7fb3 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -77,6 +77,7 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 }
 
 static NO_NULL bool harbol_cfg_parse_section(struct HarbolMap *cfg, char const **code_ref, HarbolCfgState *parse_state);
+static NO_NULL bool _harbol_cfg_insert(struct HarbolMap *map, struct HarbolString const *key, struct HarbolVariant *var);
 static NO_NULL bool harbol_cfg_parse_number(struct HarbolMap *cfg, struct HarbolString const *key, char const **code_ref, HarbolCfgState *parse_state);
 
 
@@ -184,6 +185,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &file_path);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", file_path.cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_clear(&file_path);
 			harbol_string_clear(&keystr);
 			return false;
 		}
@@ -197,7 +199,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return true;
 		} else {
 			struct HarbolVariant var = harbol_variant_make(&included_cfg, sizeof included_cfg, HarbolCfgType_Map, &( bool ){0});
-			bool const inclusion_res = harbol_map_insert(map, file_path.cstr, file_path.len+1, &var, sizeof var);
+			bool const inclusion_res = _harbol_cfg_insert(map, &file_path, &var);
 			harbol_string_clear(&file_path);
 			return inclusion_res;
 		}
@@ -260,6 +262,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, str);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", str->cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_free(&str);
 			harbol_string_clear(&keystr);
 			return false;
 		}
@@ -278,8 +281,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			free(number); number = NULL;
 		}
 		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-		harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
-		res = true;
+		res = _harbol_cfg_insert(map, &keystr, &var);
 	} else if( **cfgcoderef=='c' || **cfgcoderef=='v' ) {
 		/// color or vector value!
 		char const valtype = *(*cfgcoderef)++;
@@ -334,7 +336,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		struct HarbolVariant var = (valtype=='c')?
 			  harbol_variant_make(&matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color, &( bool ){0})
 			: harbol_variant_make(&matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &var);
 	} else if( **cfgcoderef=='t' ) {
 		/// true bool value.
 		if( strncmp("true", *cfgcoderef, sizeof("true")-1) ) {
@@ -344,7 +346,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		*cfgcoderef += sizeof("true") - 1;
 		struct HarbolVariant var = harbol_variant_make(&( bool ){true}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &var);
 	} else if( **cfgcoderef=='f' ) {
 		/// false bool value
 		if( strncmp("false", *cfgcoderef, sizeof("false")-1) ) {
@@ -354,7 +356,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		*cfgcoderef += sizeof("false") - 1;
 		struct HarbolVariant var = harbol_variant_make(&( bool ){false}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &var);
 	} else if( **cfgcoderef=='n' ) {
 		/// null value.
 		if( strncmp("null", *cfgcoderef, sizeof("null")-1) ) {
@@ -364,7 +366,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		*cfgcoderef += sizeof("null") - 1;
 		struct HarbolVariant var = harbol_variant_make(&( char ){0}, sizeof(char), HarbolCfgType_Null, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &var);
 	} else if( **cfgcoderef=='I' ) {
 		/// local iota value.
 		if( strncmp("IOTA", *cfgcoderef, sizeof("IOTA")-1) ) {
@@ -375,7 +377,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		*cfgcoderef += sizeof("IOTA") - 1;
 		struct HarbolVariant var = harbol_variant_make(&parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int, &( bool ){0});
 		parse_state->global_iota++;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &var);
 	} else if( **cfgcoderef=='i' ) {
 		/// local iota value.
 		if( strncmp("iota", *cfgcoderef, sizeof("iota")-1) ) {
@@ -386,7 +388,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		*cfgcoderef += sizeof("iota") - 1;
 		struct HarbolVariant var = harbol_variant_make(parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int, &( bool ){0});
 		++*parse_state->local_iota;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &var);
 	} else if( is_decimal(**cfgcoderef) || **cfgcoderef=='.' || **cfgcoderef=='-' || **cfgcoderef=='+' ) {
 		/// numeric value.
 		res = harbol_cfg_parse_number(map, &keystr, cfgcoderef, parse_state);
@@ -407,7 +409,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			
 			harbol_string_copy_cstr(str, ( parse_state->cfg_filename==NULL )? "C-string-cfg" : parse_state->cfg_filename);
 			struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-			res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+			res = _harbol_cfg_insert(map, &keystr, &var);
 			*cfgcoderef += file_cstr_len;
 		} else {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unknown control/command '%c'.\n", (*cfgcoderef)[1]);
@@ -440,7 +442,7 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
 	}
 	harbol_string_clear(&numstr);
-	return harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var);
+	return _harbol_cfg_insert(map, key, &var);
 }
 
 /// section = '{' <keyval> '}' ;
@@ -521,7 +523,7 @@ union ConfigVal {
 	struct HarbolVec4D   *restrict v;
 };
 
-static void _harbol_cfgkey_clear(struct HarbolVariant *const var) {
+static NO_NULL void _harbol_cfgkey_clear(struct HarbolVariant *const var) {
 	union ConfigVal cv = {var->data};
 	switch( var->tag ) {
 		case HarbolCfgType_Map:       harbol_cfg_free(cv.section); break;
@@ -531,6 +533,15 @@ static void _harbol_cfgkey_clear(struct HarbolVariant *const var) {
 	harbol_variant_clear(var);
 }
 
+/// takes over the variant's value, even if it can't be inserted.
+static NO_NULL bool _harbol_cfg_insert(struct HarbolMap *const restrict map, struct HarbolString const *const key, struct HarbolVariant *const restrict var) {
+	if( !harbol_map_insert(map, key->cstr, key->len+1, var, sizeof *var) ) {
+		_harbol_cfgkey_clear(var);
+		return false;
+	}
+	return true;
+}
+
 HARBOL_EXPORT void harbol_cfg_free(struct HarbolMap **const cfg_ref) {
 	if( *cfg_ref==NULL )
 		return;
-- 
2.43.0


From 11e0b66e12cb396d59c8bfd87deb07574d72ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 71/85] fix: config parser misreads numbers with digit
 separators & binary numbers

---
 cfg/cfg.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 2cf7fb3..63fb982 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -72,10 +72,25 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 		return false;
 	}
 	*strref = end;
+	harbol_string_rm_char(str, '\'');
 	*typeref = (is_float)? HarbolCfgType_Float : HarbolCfgType_Int;
 	return str->len > 0;
 }
 
+/// 'strtoll' doesn't necessarily know binary numbers.
+static NO_NULL intmax_t _number_to_int(struct HarbolString const *const str) {
+	char const *digits = str->cstr;
+	bool const negative = *digits=='-';
+	if( *digits=='-' || *digits=='+' ) {
+		digits++;
+	}
+	if( digits[0]=='0' && (digits[1]=='b' || digits[1]=='B') ) {
+		intmax_t const i = strtoll(&digits[2], NULL, 2);
+		return negative? -i : i;
+	}
+	return strtoll(str->cstr, NULL, 0);
+}
+
 static NO_NULL bool harbol_cfg_parse_section(struct HarbolMap *cfg, char const **code_ref, HarbolCfgState *parse_state);
 static NO_NULL bool _harbol_cfg_insert(struct HarbolMap *map, struct HarbolString const *key, struct HarbolVariant *var);
 static NO_NULL bool harbol_cfg_parse_number(struct HarbolMap *cfg, struct HarbolString const *key, char const **code_ref, HarbolCfgState *parse_state);
@@ -307,7 +322,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
 			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
-					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
+					matrix_value.color.array[iterations] = ( uint8_t )(_number_to_int(&numstr));
 				} else {
 					switch( iterations ) {
 						case 0: matrix_value.vec4d.x = lex_string_to_float(&numstr); break;
@@ -438,7 +453,7 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		floatmax_t f = lex_string_to_float(&numstr);
 		var = harbol_variant_make(&f, sizeof f, type, &( bool ){0});
 	} else {
-		intmax_t i = strtoll(numstr.cstr, NULL, 0);
+		intmax_t i = _number_to_int(&numstr);
 		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
 	}
 	harbol_string_clear(&numstr);
-- 
2.43.0


From cb0ff83c9669ee08c932f2983fe733afa7108971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 72/85] fix: config paths stop at a section named like their
 last part & walk through plain values

---
 cfg/cfg.c | 60 ++++++++++++-------------------------------------------
 1 file changed, 13 insertions(+), 47 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 63fb982..2ecf273 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -623,34 +623,6 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 	return cfg_str;
 }
 
-static NO_NULL bool harbol_cfg_parse_target_path(char const key[static 1], struct HarbolString *const restrict str) {
-	/// parse something like: "root.section1.section2.section3.\\.dotsection"
-	char const *iter = key;
-	iter += strlen(key) - 1;
-	while( iter != key ) {
-		if( *iter=='.' ) {
-			if( iter[-1]=='\\' ) {
-				iter--;
-			} else {
-				iter++;
-				break;
-			}
-		} else {
-			iter--;
-		}
-	}
-	
-	/// now we save the target section and then use the resulting string.
-	while( *iter != 0 ) {
-		if( *iter=='\\' ) {
-			iter++;
-			continue;
-		}
-		harbol_string_add_char(str, *iter++);
-	}
-	return str->len > 0;
-}
-
 static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgmap, char const key[const]) {
 	/// first check if we're getting a singular value OR we iterate through a sectional path.
 	char const *dot = strchr(key, '.');
@@ -662,42 +634,36 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 	}
 	
 	/// ok, not a singular value, iterate to the specific map section then.
-	/// parse the target key first.
 	char const *iter = key;
-	struct HarbolString
-		sectionstr = {0},
-		targetstr = {0}
-	;
-	
-	harbol_cfg_parse_target_path(key, &targetstr);
+	struct HarbolString sectionstr = {0};
 	struct HarbolMap const *itermap = cfgmap;
 	struct HarbolVariant *restrict var = NULL;
 	while( itermap != NULL ) {
 		harbol_string_clear(&sectionstr);
 		/// Patch: allow keys to use dot without interfering with dot path.
-		while( *iter != 0 ) {
-			if( *iter=='\\' && iter[1] != 0 && iter[1]=='.' ) {
-				iter++;
-				harbol_string_add_char(&sectionstr, *iter++);
-			} else if( *iter=='.' ) {
+		while( *iter != 0 && *iter != '.' ) {
+			if( *iter=='\\' && iter[1]=='.' ) {
 				iter++;
-				break;
-			} else {
-				harbol_string_add_char(&sectionstr, *iter++);
 			}
+			harbol_string_add_char(&sectionstr, *iter++);
 		}
 		if( harbol_string_empty(&sectionstr) ) {
 			break;
 		}
 		var = harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
-		if( var==NULL || !harbol_string_cmpstr(&sectionstr, &targetstr) ) {
+		if( var==NULL || *iter==0 || iter[1]==0 ) {
+			break;
+		}
+		
+		/// there are more names so this has to be a section.
+		iter++;
+		if( var->tag != HarbolCfgType_Map ) {
+			var = NULL;
 			break;
-		} else if( var->tag==HarbolCfgType_Map ) {
-			itermap = *( struct HarbolMap const** )(var->data);
 		}
+		itermap = *( struct HarbolMap const** )(var->data);
 	}
 	harbol_string_clear(&sectionstr);
-	harbol_string_clear(&targetstr);
 	return var;
 }
 
-- 
2.43.0


From f59e1379714b346babe61a9cca0ae2446ef97eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 73/85] fix: config lookups don't unescape the dots of a lone
 name & don't find null entries outside of sections

---
 cfg/cfg.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 2ecf273..d2b3d84 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -627,10 +627,8 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 	/// first check if we're getting a singular value OR we iterate through a sectional path.
 	char const *dot = strchr(key, '.');
 	
-	/// Patch: dot and escaped dot glitching out the hashmap hashing...
-	if( dot==NULL || (dot > key && (dot[-1] == '\\')) ) {
-		struct HarbolVariant *const restrict var = harbol_map_key_get(cfgmap, key, strlen(key)+1);
-		return( var==NULL || var->tag==HarbolCfgType_Null )? NULL : var;
+	if( dot==NULL ) {
+		return harbol_map_key_get(cfgmap, key, strlen(key)+1);
 	}
 	
 	/// ok, not a singular value, iterate to the specific map section then.
@@ -648,6 +646,7 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 			harbol_string_add_char(&sectionstr, *iter++);
 		}
 		if( harbol_string_empty(&sectionstr) ) {
+			var = NULL;
 			break;
 		}
 		var = harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
-- 
2.43.0


From aba816c2d9303ee31739dda835cf080d7ac4f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 74/85] fix: config strings can't be set to the empty string

---
 cfg/cfg.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index d2b3d84..a6bc66f 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -720,7 +720,7 @@ HARBOL_EXPORT enum HarbolCfgType harbol_cfg_get_type(struct HarbolMap const *con
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
-	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr, override_convert);
+	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr==NULL? "" : str.cstr, override_convert);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap, char const key[static 1], char const cstr[static 1], bool const override_convert) {
@@ -736,8 +736,12 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		}
 		return false;
 	}
-	harbol_string_copy_cstr(*( struct HarbolString** )(var->data), cstr);
-	return true;
+	struct HarbolString *const str = *( struct HarbolString** )(var->data);
+	if( *cstr==0 ) {
+		harbol_string_clear(str);
+		return true;
+	}
+	return harbol_string_copy_cstr(str, cstr);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap, char const key[static 1], floatmax_t const val, bool const override_convert) {
-- 
2.43.0


From 1b8709e37a6206934a985da52e6e7eba9ca01d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 75/85] fix: quotes & escapes in config text are written as
 they are

---
 cfg/cfg.c | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index a6bc66f..ab3fbe5 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -568,6 +568,27 @@ HARBOL_EXPORT void harbol_cfg_free(struct HarbolMap **const cfg_ref) {
 	harbol_map_free(cfg_ref);
 }
 
+/// escapes what the parser wouldn't read back as is.
+static NEVER_NULL(1) void _concat_quoted(struct HarbolString *const str, char const text[const]) {
+	harbol_string_add_char(str, '"');
+	for( char const *iter=text; iter != NULL && *iter != 0; iter++ ) {
+		char const esc = *iter;
+		switch( esc ) {
+			case '"':
+			case '\\': harbol_string_add_char(str, '\\'); harbol_string_add_char(str, esc); break;
+			case '\a': harbol_string_add_cstr(str, "\\a"); break;
+			case '\b': harbol_string_add_cstr(str, "\\b"); break;
+			case '\t': harbol_string_add_cstr(str, "\\t"); break;
+			case '\n': harbol_string_add_cstr(str, "\\n"); break;
+			case '\v': harbol_string_add_cstr(str, "\\v"); break;
+			case '\f': harbol_string_add_cstr(str, "\\f"); break;
+			case '\r': harbol_string_add_cstr(str, "\\r"); break;
+			default:   harbol_string_add_char(str, esc);
+		}
+	}
+	harbol_string_add_char(str, '"');
+}
+
 static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const tabs) {
 	for( size_t i=0; i < tabs; i++ ) {
 		harbol_string_add_cstr(str, "\t");
@@ -583,7 +604,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 		union ConfigVal const cv = { var->data };
 		
 		_concat_tabs(str, tabs);
-		harbol_string_format(str, false, "\"%s\": ", ( char const* )(map->keys[i]));
+		_concat_quoted(str, ( char const* )(map->keys[i]));
+		harbol_string_add_cstr(str, ": ");
 		switch( var->tag ) {
 			case HarbolCfgType_Null:
 				harbol_string_add_cstr(str, "null\n");
@@ -601,7 +623,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				break;
 			}
 			case HarbolCfgType_String:
-				harbol_string_format(str, false, "\"%s\"\n", (*cv.str)->cstr);
+				_concat_quoted(str, (*cv.str)->cstr);
+				harbol_string_add_cstr(str, "\n");
 				break;
 			case HarbolCfgType_Float:
 				harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
@@ -836,6 +859,13 @@ HARBOL_EXPORT bool harbol_cfg_set_to_null(struct HarbolMap *const restrict cfgma
 	return true;
 }
 
+static NEVER_NULL(1) void _write_quoted(FILE *const file, char const text[const]) {
+	struct HarbolString str = {0};
+	_concat_quoted(&str, text);
+	fputs(str.cstr, file);
+	harbol_string_clear(&str);
+}
+
 static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
 	for( size_t i=0; i < tabs; i++ ) {
 		fputs("\t", file);
@@ -848,7 +878,8 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 		int32_t const type = v->tag;
 		_write_tabs(file, tabs);
 		/// using double pointer iterators as we need the key.
-		fprintf(file, "\"%s\": ", ( char const* )(map->keys[i]));
+		_write_quoted(file, ( char const* )(map->keys[i]));
+		fputs(": ", file);
 		
 		union ConfigVal const cv = { v->data };
 		switch( type ) {
@@ -861,7 +892,10 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 				fputs("}\n", file);
 				break;
 			
-			case HarbolCfgType_String: fprintf(file, "\"%s\"\n", (*cv.str)->cstr);       break;
+			case HarbolCfgType_String:
+				_write_quoted(file, (*cv.str)->cstr);
+				fputs("\n", file);
+				break;
 			case HarbolCfgType_Float:  fprintf(file, "%" PRIfMAX "\n", *cv.f);           break;
 			case HarbolCfgType_Int:    fprintf(file, "%" PRIiMAX "\n", *cv.i);           break;
 			case HarbolCfgType_Bool:   fprintf(file, "%s\n", (*cv.b)? "true" : "false"); break;
-- 
2.43.0


From 8d3858e381a32825513922a667493a854ff26f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:50 +0000
Subject: [PATCH 76/85] fix: config comments whose text starts with a slash end
 at it

---
 cfg/cfg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index ab3fbe5..b9e733f 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -43,7 +43,8 @@ static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *co
 				*strref = skip_single_line_comment(*strref, &parse_state->curr_line);
 				parse_state->curr_line++;
 			} else if( **strref=='/' && (*strref)[1]=='*' ) {
-				*strref = skip_multi_line_comment(*strref, "*/", sizeof "*/"-1, &parse_state->curr_line);
+				/// the opening's asterisk doesn't end the comment.
+				*strref = skip_multi_line_comment(*strref + 1, "*/", sizeof "*/"-1, &parse_state->curr_line);
 			} else if( **strref==':' || **strref==',' ) {
 				(*strref)++;
 			}
-- 
2.43.0


From b89e98e546947242056ac69456cf172042b27524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 77/85] fix: message spans crash on sources that can't be read

---
 msg_span/msg_span.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 21fbc8e..e21055b 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -25,7 +25,10 @@ HARBOL_EXPORT struct HarbolMsgSpan harbol_msg_span_make(char const cstr[const re
 }
 
 HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msgspan, char const cstr[const restrict static 1], bool const is_filename, bool const free_src_str) {
-	(( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
+	bool const got_src = (( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
+	if( !got_src && (is_filename || *cstr != 0) ) {
+		return false;
+	}
 	if( is_filename ) {
 		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
 	}
-- 
2.43.0


From d8ac0a4786a5317c715af7c3e981876bb25b3822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 78/85] fix: message spans lose the first character of a source
 without newlines

---
 msg_span/msg_span.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index e21055b..2fd84cf 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -34,12 +34,8 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	}
 	lex_fix_newlines(&msgspan->src.code, true);
 	
-	size_t newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
-	if( newlines==0 ) {
-		newlines = 1;
-	}
-	
-	size_t *newline_offs = calloc(newlines, sizeof *newline_offs);
+	size_t const newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
+	size_t *newline_offs = calloc(newlines + 1, sizeof *newline_offs);
 	if( newline_offs==NULL ) {
 		harbol_string_clear(&msgspan->src.code);
 		return false;
@@ -60,11 +56,10 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	
 	msgspan->src.len = newlines + 1;
 	harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
-	for( size_t i=1; i < newlines; i++ ) {
+	for( size_t i=1; i <= newlines; i++ ) {
 		size_t const offs = newline_offs[i-1] + 1;
 		harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
 	}
-	harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
-- 
2.43.0


From 3017d2112788ea20d24efe5eb2b8c4a1976338df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 79/85] fix: the source kept by a message span ends at its
 first line

---
 msg_span/msg_span.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 2fd84cf..03e6d63 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -60,6 +60,10 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 		size_t const offs = newline_offs[i-1] + 1;
 		harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
 	}
+	/// the source stays readable as a whole.
+	for( size_t i=0; i < newlines; i++ ) {
+		msgspan->src.code.cstr[newline_offs[i]] = '\n';
+	}
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
-- 
2.43.0


From 8b29b8ae04c3a750c9fa4b8d6321ee722b60a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 80/85] fix: clearing a message span twice crashes

---
 msg_span/msg_span.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 03e6d63..c620287 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -103,6 +103,7 @@ HARBOL_EXPORT void harbol_msg_span_clear(struct HarbolMsgSpan *const msgspan) {
 		harbol_string_clear(&msgspan->src.lines[i]);
 	}
 	free(msgspan->src.lines); msgspan->src.lines = NULL;
+	msgspan->src.len = 0;
 	_harbol_msg_span_purge_labels(msgspan, true);
 	_harbol_msg_span_purge_notes(msgspan, true);
 }
-- 
2.43.0


From d9e9db2c3dce9ab78d649f53b7f5ba609636b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 81/85] fix: emitting labels crashes on lines outside of the
 source & prints null strings

---
 msg_span/msg_span.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index c620287..3242177 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -186,11 +186,18 @@ static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char
 
 
 static NO_NULL void _output_span(struct HarbolMsgSpan const *const msgspan, struct HarbolTokenSpan const span, size_t const len, FILE *const stream) {
-	for( uint32_t line = span.line_start; line <= span.line_end; line++ ) {
+	for( size_t line = span.line_start; line <= span.line_end; line++ ) {
+		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
+		if( code_line==NULL ) {
+			/// not a line of the source.
+			if( line==0 ) {
+				continue;
+			}
+			break;
+		}
 		struct HarbolString line_num_pad = {0};
 		harbol_string_add_char_rep(&line_num_pad, ' ', len - base_10_digits(line));
-		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
-		fprintf(stream, "%u%s|%s\n", line, line_num_pad.cstr, code_line->cstr);
+		fprintf(stream, "%zu%s|%s\n", line, line_num_pad.cstr, code_line->cstr==NULL? "" : code_line->cstr);
 		harbol_string_clear(&line_num_pad);
 	}
 }
@@ -249,12 +256,12 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 			/// here we emit the label msgs.
 			struct HarbolString colm_pad={0}, hilighter={0};
 			harbol_string_add_char_rep(&colm_pad, ' ', span.colm_start);
-			for( size_t n=0; n < (span.colm_end - span.colm_start); n++ ) {
+			for( size_t n=span.colm_start; n < span.colm_end; n++ ) {
 				write_utf8_str(&hilighter, labels[i].sym);
 			}
 			
 			char const *const restrict sym_color = labels[i].sym_color;
-			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
+			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr==NULL? "" : colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr==NULL? "" : hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
 			harbol_string_clear(&colm_pad);
 			harbol_string_clear(&hilighter);
 		}
-- 
2.43.0


From 1785b9ae46b4caa4b3eaac0560e137d76076e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:03 +0000
Subject: [PATCH 82/85] fix: message spans declare optional names & colors as
 never null

---
 msg_span/msg_span.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 3242177..cb3df67 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -149,7 +149,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_label(struct HarbolMsgSpan *const restric
 	return res;
 }
 
-HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict msgspan, char const msg_color[const restrict static 1], char const msg[const restrict static 1], ...) {
+HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict msgspan, char const msg_color[const restrict], char const msg[const restrict static 1], ...) {
 	struct HarbolString note = {0};
 	if( harbol_array_full(&msgspan->notes) && !harbol_array_grow(&msgspan->notes, sizeof note) ) {
 		return false;
@@ -172,7 +172,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict
 }
 
 
-static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char const filename[const restrict static 1], uint32_t const *const restrict line, uint32_t const *const restrict col) {
+static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char const filename[const restrict], uint32_t const *const restrict line, uint32_t const *const restrict col) {
 	if( filename != NULL ) {
 		fprintf(stream, "\n--> %s", filename);
 		if( line != NULL ) {
-- 
2.43.0


From 35c69586965c641ca9bc2ee93871c869066cabb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 83/85] fix: plugins load without their path when it can't be
 allocated

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 868a5f5..312f783 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -14,7 +14,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 	
 	pl->path = dup_cstr(strlen(path), path);
 	struct stat result;
-	if( !stat(path, &result) ) {
+	if( pl->path != NULL && !stat(path, &result) ) {
 		pl->last_write = result.st_mtime;
 	} else {
 		MODULE_CLOSE(pl->dll); pl->dll = NULL;
-- 
2.43.0


From a5fab4981ffcb399eccdf2b5ce75bbd203e78c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 84/85] fix: opening a plugin directory never ends on entries
 that can't be read

---
 plugins/plugins.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 312f783..389fb7a 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -118,7 +118,8 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	while( dir->has_next ) {
 		tinydir_file *file = &( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
-			continue;
+			/// advance past entries that can't be read.
+			goto dir_iter_loop;
 		} else if( file->is_dir ) {
 			if( file->name[0]=='.' ) {
 				/// advance if parent dir dot.
-- 
2.43.0


From f754a592b14aa4ad5ee2f77884fa4bdb95f70de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 85/85] fix: the optional plugin extension is declared as never
 null

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 389fb7a..0882f21 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -143,7 +143,7 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	tinydir_close(dir);
 }
 
-HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const custom_ext[static 1]) {
+HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const custom_ext[]) {
 	/// 'FILENAME_MAX' is defined in stdio.h
 	char currdir[FILENAME_MAX] = {0};
 #ifdef OS_WINDOWS
-- 
2.43.0

