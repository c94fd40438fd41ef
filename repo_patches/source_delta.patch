From d63d0ece493c212775ea945c2c1f3568cc939de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 01/58] fix: thpool_destroy waits until the last worker has
 released the pool's lock

---
 src/thread/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index ad47491..658a370 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -241,6 +241,10 @@ void thpool_destroy(thpool_* thpool_p){
 		sleep(1);
 	}
 
+	/* The last thread counts itself out while it holds this lock: let it leave before the pool is freed */
+	pthread_mutex_lock(&thpool_p->thcount_lock);
+	pthread_mutex_unlock(&thpool_p->thcount_lock);
+
 	/* Job queue cleanup */
 	jobqueue_destroy(&thpool_p->jobqueue);
 	/* Deallocs */
-- 
2.43.0


From a14ec232302df0018a7239eda1cd69e7a0f18260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 02/58] fix: thpool wakes every thread that waits in
 thpool_wait

---
 src/thread/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 658a370..43f393b 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -396,7 +396,7 @@ static void* thread_do(struct thread* thread_p){
 		pthread_mutex_lock(&thpool_p->thcount_lock);
 		thpool_p->num_threads_working--;
 		if (!thpool_p->num_threads_working) {
-			pthread_cond_signal(&thpool_p->threads_all_idle);
+			pthread_cond_broadcast(&thpool_p->threads_all_idle);
 		}
 		pthread_mutex_unlock(&thpool_p->thcount_lock);
 	}
-- 
2.43.0


From b71223aea341970ca73916460f980912e5002ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 03/58] fix: thpool_init fails instead of waiting for threads
 that could not be created

---
 src/thread/thpool.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 43f393b..7831af1 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -164,7 +164,15 @@ struct thpool_* thpool_init(int num_threads){
 	/* Thread init */
 	int n;
 	for (n=0; n<num_threads; n++){
-		thread_init(thpool_p, &thpool_p->threads[n], n);
+		if (thread_init(thpool_p, &thpool_p->threads[n], n) != 0){
+			err("thpool_init(): Could not create thread %d\n", n);
+			/* the threads created so far are the whole pool: end it */
+			while (thpool_p->num_threads_alive != n) {
+				usleep(1000);
+			}
+			thpool_destroy(thpool_p);
+			return NULL;
+		}
 #if THPOOL_DEBUG
 			printf("THPOOL_DEBUG: Created thread %d in pool \n", n);
 #endif
@@ -319,7 +327,12 @@ static int thread_init (thpool_* thpool_p, struct thread** thread_p, int id){
 	(*thread_p)->thpool_p = thpool_p;
 	(*thread_p)->id       = id;
 
-	pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p));
+	if (pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p)) != 0){
+		err("thread_init(): Could not create thread\n");
+		free(*thread_p);
+		*thread_p = NULL;
+		return -1;
+	}
 	pthread_detach((*thread_p)->pthread);
 	return 0;
 }
-- 
2.43.0


From 06643a53aeef04cd89fe78e056227d4b4f84066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 04/58] fix: queue handlers are not created without the
 semaphore their thread waits on

---
 src/ring/fixed_msg_queue_handler.c | 6 +++---
 src/ring/msg_queue_handler.c       | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ring/fixed_msg_queue_handler.c b/src/ring/fixed_msg_queue_handler.c
index d543cef..07efab1 100644
--- a/src/ring/fixed_msg_queue_handler.c
+++ b/src/ring/fixed_msg_queue_handler.c
@@ -94,12 +94,12 @@ fixed_msg_queue_handler fixed_msg_queue_handler_create(__in uint32_t max_msg_cap
 	memcpy(&handler->param, init_param_p, sizeof(fixed_msg_queue_handler_init_param_t));
 	handler->token_counter = 0;
 	handler->min_valid_token = 0;
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	int sem_ret = portable_sem_init(&(handler->semaphore), 0, 0);
 	handler->msg_queue_p = fixed_msg_queue_create(sizeof(fixed_handler_msg_t), max_msg_capacity);
-	if (!handler->msg_queue_p || 
+	if (0 != sem_ret || !handler->msg_queue_p || 
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_fun_handle_msg, handler))
 	{
-		LOGE("error on create thread or queue!");
+		LOGE("error on create semaphore or thread or queue!");
 		fixed_msg_queue_handler_destroy(&handler);
 		handler = NULL;
 	}
diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 9ccc864..4c16156 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -128,12 +128,12 @@ msg_queue_handler msg_queue_handler_create(__in uint32_t queue_buf_size,
 	}
 	handler->flag2exit = false;
 	memcpy(&(handler->param), param_p, sizeof(msg_queue_handler_init_param_t));
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	int sem_ret = portable_sem_init(&(handler->semaphore), 0, 0);
 	handler->msg_queue_p = msg_queue_create(queue_buf_size);
-	if (!handler->msg_queue_p ||
+	if (0 != sem_ret || !handler->msg_queue_p ||
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_worker_handle_msg, handler))
 	{
-		LOGE("error on create thread or queue!");
+		LOGE("error on create semaphore or thread or queue!");
 		msg_queue_handler_destroy(&handler);
 		handler = NULL;
 	}
-- 
2.43.0


From 75ad6f8444b00655ab38f2ef0aba70d66bad92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 05/58] fix: msg_queue_destroy accepts a handle that is already
 NULL

---
 src/ring/msg_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 697e1c8..2c19a93 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -119,7 +119,7 @@ uint32_t msg_queue_available_push_bytes(__in msg_queue msg_queue_p)
 
 void msg_queue_destroy(__inout msg_queue* msg_queue_pp)
 {
-	if (!msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
+	if (!msg_queue_pp || !(*msg_queue_pp))
 	{
 		return;
 	}
-- 
2.43.0


From 7dcd4315bc42f623a4b514cefb664d082f2dbe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 06/58] fix: msg_queue_pop tells the caller the size of the
 popped message

---
 src/ring/msg_queue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 2c19a93..2ff8333 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -96,6 +96,7 @@ msg_q_code_e msg_queue_pop(__in msg_queue msg_queue_p, __out void* msg_p, __inou
 	ASSERT_ABORT(read_bytes == sizeof(msg_header_t));
 	read_bytes = RingBuffer_read(msg_queue_p->ring_buf_p, msg_p, header.msg_size);
 	ASSERT_ABORT(read_bytes == header.msg_size);
+	*msg_size_p = header.msg_size;
 	return MSG_Q_CODE_SUCCESS;
 }
 
-- 
2.43.0


From b983a5586d24b24d23a8f075034dcfe5b25632ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 07/58] fix: hashmap_foreach stops when the callback says so

---
 src/data/hashmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index c90b6cd..386e552 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -381,10 +381,11 @@ void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 			Entry* next = entry->next;
 			if (!callback(entry->key, entry->value, context))
 			{
-				break;
+				goto finished;
 			}
 			entry = next;
 		}
 	}
+finished:
 	hashmap_leave(map);
 }
-- 
2.43.0


From 216d340fa3b6039f66cf36c698e011f9994805ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 08/58] fix: hashmap_put does not report ENOMEM for an entry it
 has stored

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index 386e552..a71aaac 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -133,10 +133,12 @@ static void expandIfNecessary(hashmap_t* map)
 	}
 	// Start off with a 0.33 load factor.
 	size_t newBucketCount = map->bucketCount << 1;
+	int saved_errno = errno;
 	Entry** newBuckets = (Entry**)(calloc(newBucketCount, sizeof(Entry*)));
 	if (newBuckets == NULL)
 	{
-		// Abort expansion.
+		// Abort expansion. The new entry is stored, so this is not an error for the caller.
+		errno = saved_errno;
 		return;
 	}
 	// Move over existing entries.
-- 
2.43.0


From fc5f5b0586e195dee1552f2c4646786b68407e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 09/58] fix: base64 encodes a single byte

---
 src/data/base64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/base64.c b/src/data/base64.c
index 2d7b613..40c06bd 100644
--- a/src/data/base64.c
+++ b/src/data/base64.c
@@ -24,13 +24,13 @@ int lcu_base64_encode(char* out_buf_encoded, const char* src_buf_plain, const si
 {
 	size_t i;
 	char* p;
-    if (src_buf_len < 2)
+    if (src_buf_len < 1)
     {
         return -1;
     }
 
 	p = out_buf_encoded;
-	for (i = 0; i < src_buf_len - 2; i += 3)
+	for (i = 0; i + 2 < src_buf_len; i += 3)
 	{
 		*p++ = basis_64[(src_buf_plain[i] >> 2) & 0x3F];
 		*p++ = basis_64[((src_buf_plain[i] & 0x3) << 4) |
-- 
2.43.0


From 799683503371860e66aaf7e05d8ec216ec9375f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 10/58] fix: integer_rounddown_pow_of_two works above 2^31

---
 src/data/integer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/integer.c b/src/data/integer.c
index 44a3815..6babec5 100644
--- a/src/data/integer.c
+++ b/src/data/integer.c
@@ -37,5 +37,6 @@ uint32_t integer_rounddown_pow_of_two(uint32_t i)
 	{
 		return roundup_integer;
 	}
-	return (roundup_integer >> 1);
+	// above 2^31 the next power of two does not fit in 32 bits
+	return roundup_integer ? (roundup_integer >> 1) : 0x80000000U;
 }
-- 
2.43.0


From 29b5bf877cce8874375816320c51a9b0beecb5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 11/58] fix: tracked allocations refuse sizes that overflow

---
 src/mem/allocator.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index ad0f4f4..352f3d6 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -18,6 +18,7 @@
  ******************************************************************************/
 
 #include "mem/mem_debug.h"
+#include <stdint.h> /* for SIZE_MAX */
 #include <stdlib.h>
 #include <string.h>
 #include "mem/allocator.h"
@@ -92,6 +93,10 @@ char* lcu_strndup(const char* str, size_t len)
 void* lcu_malloc_trace(size_t size, const char* file_path, const char* func_name, int file_line)
 {
 	size_t real_size = allocation_tracker_resize_for_canary(size);
+	if (real_size < size)
+	{
+		return NULL; // no room for the canaries
+	}
 	void* ptr = malloc(real_size);
 	if (!ptr)
 	{
@@ -107,8 +112,16 @@ void* lcu_malloc(size_t size)
 
 void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_path, const char* func_name, int file_line)
 {
+	if (item_size && item_count > SIZE_MAX / item_size)
+	{
+		return NULL;
+	}
 	size_t request_size = item_count * item_size;
 	size_t real_size = allocation_tracker_resize_for_canary(request_size);
+	if (real_size < request_size)
+	{
+		return NULL; // no room for the canaries
+	}
 	void* ptr = calloc(1, real_size);
 	if (!ptr)
 	{
@@ -140,6 +153,11 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return NULL;
 	}
 
+	if (size > SIZE_MAX - 2048U)
+	{
+		return NULL;
+	}
+
 	if (NULL == ptr)
 	{
 		/* a little trick: give more memory than you need, for maybe reduce realloc times */
-- 
2.43.0


From 1e376d81b90f5eeae8256c6926a9b6d64ce52e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 12/58] fix: lcu_realloc keeps the contents when the tracker is
 not in use

---
 src/mem/allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 352f3d6..23a6b7d 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -164,6 +164,12 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
+	if (0 == allocation_tracker_resize_for_canary(0))
+	{
+		//nothing is tracked: ptr is a plain block whose size is unknown here.
+		return realloc(ptr, size);
+	}
+
 	size_t cur_ptr_size = allocation_tracker_ptr_size(ALLOCTOR_ID, ptr);
 	if (cur_ptr_size && size <= cur_ptr_size)
 	{
-- 
2.43.0


From 8448fd5292f085e74401dcca6934db5753568771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 13/58] fix: the allocation tracker publishes only complete
 entries

---
 src/mem/allocation_tracker.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mem/allocation_tracker.c b/src/mem/allocation_tracker.c
index 5bba3c6..c6cbec5 100644
--- a/src/mem/allocation_tracker.c
+++ b/src/mem/allocation_tracker.c
@@ -152,7 +152,8 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	return_ptr += canary_size;
 
 	allocation_t* allocation = (allocation_t*)hashmap_get(allocations, return_ptr);
-	if (allocation)
+	const bool is_new = (NULL == allocation);
+	if (!is_new)
 	{
 		ASSERT_ABORT(allocation->freed); // Must have been freed before
 	}
@@ -160,7 +161,6 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	{
 		allocation = (allocation_t*)calloc(1, sizeof(allocation_t));
 		ASSERT_ABORT(allocation);
-		hashmap_put(allocations, return_ptr, allocation);
 	}
 	allocation->allocator_id = allocator_id;
 	allocation->freed = false;
@@ -179,6 +179,11 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	// Add the canary on both sides
 	memcpy(return_ptr - canary_size, canary, canary_size);
 	memcpy(return_ptr + requested_size, canary, canary_size);
+	if (is_new)
+	{
+		// other threads may look at the entry from now on, so it must be complete
+		hashmap_put(allocations, return_ptr, allocation);
+	}
 	return return_ptr;
 }
 
-- 
2.43.0


From c6fde0adc8265ae814ceef73a790f35fb0af3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 14/58] fix: str_char2hex stays within its buffer and keeps the
 last digit

---
 src/mem/strings.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index bf405eb..35fdc2f 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -201,17 +201,26 @@ size_t str_char2hex(char* out_hex_str, size_t out_hex_str_capacity,
 {
 #define ONE_HEX_STR_SIZE (3U)
 	size_t len_hex_str = 0U;
+	if (0U == out_hex_str_capacity)
+	{
+		return 0U;
+	}
 	out_hex_str[0] = '\0';
 
 	if (chars_count * ONE_HEX_STR_SIZE >= out_hex_str_capacity)
 	{
-		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity - 1U, "hex truncated(%zu):", chars_count);
-		chars_count = out_hex_str_capacity / ONE_HEX_STR_SIZE - 1U;
+		int ret_title = snprintf(out_hex_str, out_hex_str_capacity, "hex truncated(%zu):", chars_count);
+		if (ret_title < 0 || (size_t)ret_title >= out_hex_str_capacity)
+		{
+			return strlen(out_hex_str); // even the title doesn't fit
+		}
+		len_hex_str = (size_t)ret_title;
+		chars_count = (out_hex_str_capacity - len_hex_str - 1U) / ONE_HEX_STR_SIZE;
 	}
 	for (size_t chars_index = 0U; chars_index < chars_count; ++chars_index)
 	{
 		int ret_sn = snprintf(out_hex_str + len_hex_str,
-			out_hex_str_capacity - len_hex_str - 1,
+			out_hex_str_capacity - len_hex_str,
 			" %02x", (unsigned char)chars[chars_index]);
 		if (ONE_HEX_STR_SIZE != ret_sn /*ret_sn < 0*/) /* should be ONE_HEX_STR_SIZE */
 		{
-- 
2.43.0


From a7331e40413fded2ee04a27d8d272510fbb3a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 15/58] fix: strreplace returns for an empty pattern

---
 src/mem/strings.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 35fdc2f..402c1b5 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -108,7 +108,10 @@ char* strreplace(char const* const original,
 	size_t const replen = strlen(replacement);
 	size_t const patlen = strlen(pattern);
 	size_t const orilen = strlen(original);
-
+	if (0 == patlen)
+	{
+		return strdup(original); // nothing to look for, nothing to replace
+	}
 	size_t patcnt = 0;
 	const char* oriptr;
 	const char* patloc;
-- 
2.43.0


From 12cbeb46ca2e2fa3a902a17d1d19373a8ba4b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 16/58] fix: stringbuilder_appendnstr appends no more than the
 string has

---
 src/mem/stringbuilder.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index a64fd98..bdabf12 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -111,10 +111,7 @@ int stringbuilder_appendnstr(stringbuilder_t* sb, const char* str, size_t len)
 	{
 		return -1;
 	}
-	if (len == 0)
-	{
-		len = strlen(str);
-	}
+	len = (len == 0) ? strlen(str) : strnlen(str, len);
 	if (len == 0)
 	{
 		return -2;
-- 
2.43.0


From 288643f31a7d6b4759b771581f1db7fa1c0bac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 17/58] fix: stringbuilder_appendf refuses a format that fails

---
 src/mem/stringbuilder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index bdabf12..c1d8332 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -137,12 +137,13 @@ int stringbuilder_appendf(stringbuilder_t* sb, const char* format, ...)
 
 	va_start(va, format);
 	// first we get the string length that will write. ('\0' is not belong of the length)
-	size_t len = vsnprintf(NULL, 0, format, va);
+	const int format_len = vsnprintf(NULL, 0, format, va);
 	va_end(va);
-	if (len < 1)
+	if (format_len < 1)
 	{
 		return -2;
 	}
+	const size_t len = (size_t)format_len;
 
 	if (sb_ensure_space(sb, len) != 0)
 	{
-- 
2.43.0


From b36495a112e1d73779df854b14d03878bafd8c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 18/58] fix: strnutf8len does not read beyond its limit

---
 src/mem/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 402c1b5..6e9ce97 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -190,7 +190,7 @@ size_t strnutf8len(const char* utf8str, size_t max_count)
 {
 	size_t code_points = 0;
 	size_t chars_count = 0;
-	while (*utf8str && chars_count < max_count) 
+	while (chars_count < max_count && *utf8str) 
 	{
 		code_points += ((*utf8str & 0xC0) != 0x80);
 		++utf8str;
-- 
2.43.0


From 5c4c4a0ad675f43e1a926395fbb46c9504e145d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 19/58] fix: str_params_create_str copes with repeated keys and
 missing memory

---
 src/mem/str_params.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 0407bd2..4b60302 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -128,8 +128,21 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 			key = strdup(kvpair);
 			value = strdup("");
 		}
-		/* we replaced a value */
-		old_val = hashmap_put(parms->map, key, value);
+		errno = 0;
+		old_val = (key && value) ? hashmap_put(parms->map, key, value) : NULL;
+		if (!key || !value || (!old_val && errno == ENOMEM))
+		{
+			free(key);
+			free(value);
+			free(str);
+			goto label_err_strdup;
+		}
+		if (old_val)
+		{
+			/* we replaced a value, the map goes on with the key it already has */
+			free(key);
+			key = NULL;
+		}
 		RELEASE_OWNERSHIP(value);
 		RELEASE_OWNERSHIP(old_val);
 		RELEASE_OWNERSHIP(key);
-- 
2.43.0


From 1b2b57e2ef369faf5e17f5606afa7efe53f655b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 20/58] fix: str_params_add_double keeps all digits of large
 numbers

---
 src/mem/str_params.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 4b60302..e15d7cf 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -6,6 +6,7 @@
 #include "mem/str_params.h"
 
 #include <errno.h>
+#include <float.h>
 #include <stdint.h>
 #include "mem/strings.h"
 #include "data/hashmap.h"
@@ -238,10 +239,10 @@ int str_params_add_int(str_params_ptr params, const char* key, int value)
 
 int str_params_add_double(str_params_ptr params, const char* key, double value)
 {
-	char val_str[32];
+	char val_str[DBL_MAX_10_EXP + 16]; /* sign, digits, point, decimals, '\0' */
 	int ret;
 	ret = snprintf(val_str, sizeof(val_str), "%.10f", value);
-	if (ret < 0)
+	if (ret < 0 || (size_t)ret >= sizeof(val_str))
 	{
 		return -EINVAL;
 	}
-- 
2.43.0


From f85c268a56b859175b69117a5a98a3f87bd45878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 21/58] fix: str_params does not deliver numbers that do not
 fit

---
 src/mem/str_params.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index e15d7cf..6ac1f25 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -7,6 +7,7 @@
 
 #include <errno.h>
 #include <float.h>
+#include <limits.h>
 #include <stdint.h>
 #include "mem/strings.h"
 #include "data/hashmap.h"
@@ -283,8 +284,12 @@ int str_params_get_long(str_params_ptr params, const char* key, long* out_val)
 	{
 		return -ENOENT;
 	}
+	int saved_errno = errno;
+	errno = 0;
 	long val = strtol(value, &end, 0);
-	if (*value == '\0' || *end != '\0')
+	bool out_of_range = (errno == ERANGE);
+	errno = saved_errno;
+	if (*value == '\0' || *end != '\0' || out_of_range)
 	{
 		return -EINVAL;
 	}
@@ -298,7 +303,11 @@ int str_params_get_int(str_params_ptr params, const char* key, int* out_val)
 	int ret = str_params_get_long(params, key, &long_num);
 	if (ret == 0)
 	{
-		*out_val = long_num;
+		if (long_num < INT_MIN || long_num > INT_MAX)
+		{
+			return -EINVAL;
+		}
+		*out_val = (int)long_num;
 	}
 	return ret;
 }
-- 
2.43.0


From 438939b13853509e2b47e9dd600e89b448967178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 22/58] fix: str_params_to_str reports missing memory instead
 of an empty text

---
 src/mem/str_params.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 6ac1f25..8b0e6a6 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -345,6 +345,7 @@ typedef struct
 {
 	char* str;
 	str_params_ptr params_ptr;
+	bool failed;
 }combine_strings_ctx;
 
 static bool combine_strings(void* key, void* value, void* context)
@@ -371,6 +372,7 @@ static bool combine_strings(void* key, void* value, void* context)
 		new_str = NULL;
 	}
 	combine_ctx->str = NULL;
+	combine_ctx->failed = true;
 	return false;
 }
 
@@ -380,8 +382,13 @@ char* str_params_to_str(str_params_ptr params)
 	{
 	   .str = NULL,
 	   .params_ptr = params,
+	   .failed = false,
 	};
 	hashmap_foreach(params->map, combine_strings, &ctx);
+	if (ctx.failed)
+	{
+		return NULL;
+	}
 	return (ctx.str != NULL) ? ctx.str : strdup("");
 }
 
-- 
2.43.0


From 3c82d830d43229ac12908e142baafd43ab785079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 23/58] fix: ini_parser_delete_section forgets the deleted
 section

---
 src/file/ini_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 957cf5c..e56645d 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -422,6 +422,10 @@ ini_parser_code_e ini_parser_delete_section(ini_parser_handle parser_p, const ch
 	{
 		return INI_PARSER_CODE_NOT_FOUND_SECTION_KEY;
 	}
+	if (p_section == parser_p->p_last_used_section)
+	{
+		parser_p->p_last_used_section = NULL;
+	}
 	list_free(p_section->plist_section);
 	return list_remove(parser_p->plist_sections, p_section) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
-- 
2.43.0


From 635d538f262899e870fb529e804e0341890c834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 24/58] fix: ini_parser_foreach stops when the handler says so

---
 src/file/ini_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index e56645d..48c981c 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -219,9 +219,9 @@ static bool iter_foreach_section(void* data, void* context)
 		return true; // just ignored empty section and continue
 	}
 
-	list_foreach(context_p->p_section_info->plist_section,
+	// list_foreach returns the node where the handler broke the chain
+	return NULL == list_foreach(context_p->p_section_info->plist_section,
 		iter_foreach_section_key_value, context_p);
-	return true;
 }
 
 ini_parser_code_e ini_parser_foreach(ini_parser_handle parser_p, ini_parser_handler handler, void* user)
-- 
2.43.0


From ceaf38c19f9db92bf976f7429b3814b60abb18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 25/58] fix: ini_parser_put_string refuses what it cannot store

---
 src/file/ini_parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 48c981c..f02c127 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -9,7 +9,7 @@
 #include <stdlib.h>      /* for atoi/atol/atof */
 
 #define INI_VALUE_STACK_SIZE (256)
-#define SECTION_NAME_MAX_SIZE (INI_VALUE_STACK_SIZE / 4)
+#define SECTION_NAME_MAX_SIZE (INI_VALUE_STACK_SIZE) /* any name that fits into a line */
 
 typedef enum
 {
@@ -307,7 +307,7 @@ static key_value_t* iter_section_for_search_target_kv(list_t* section, const cha
 ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	const char* section, const char* key, const char* value)
 {
-	if (!parser_p || !key || '\0' == key[0])
+	if (!parser_p || !section || !key || '\0' == key[0])
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
@@ -317,6 +317,11 @@ ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
+	if (section_len >= SECTION_NAME_MAX_SIZE || key_len >= SECTION_NAME_MAX_SIZE
+		|| (value && strlen(value) >= INI_VALUE_STACK_SIZE))
+	{
+		return INI_PARSER_CODE_INVALID_PARAM;
+	}
 	section_info_t* target_section = search_target_section(parser_p, true, section, section_len);
 	if (!target_section)
 	{
-- 
2.43.0


From 039a0716265008e316e7ec0bed95db048eae5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 26/58] fix: ini_parser frees the key list of a section it
 cannot add

---
 src/file/ini_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index f02c127..438340e 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -279,6 +279,7 @@ static section_info_t* search_target_section(ini_parser_handle parser_p, bool au
 		strlcpy(target_section->section_name, section, sizeof(target_section->section_name));
 		if (false == list_append(parser_p->plist_sections, target_section))
 		{
+			list_free(target_section->plist_section);
 			allocator_my_free(target_section);
 			return NULL;
 		}
-- 
2.43.0


From f2025b5ecd68122e023e8575250b70a0c96b1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 27/58] fix: ini_parser dumps fail when a section line cannot
 be appended

---
 src/file/ini_parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 438340e..c2927d0 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -468,10 +468,17 @@ static bool iter_section_for_dump(void* data, void* context)
 	{
 		return false; // error occurred on foreach last section, break chain.
 	}
-	stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name);
+	dump_ctx->ret_code = stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name);
+	if (0 != dump_ctx->ret_code)
+	{
+		return false;
+	}
 	list_foreach(p_section->plist_section, iter_key_value_for_dump, dump_ctx);
-	stringbuilder_appendstr(dump_ctx->sb, "\r\n");
-	return true;
+	if (0 == dump_ctx->ret_code)
+	{
+		dump_ctx->ret_code = stringbuilder_appendstr(dump_ctx->sb, "\r\n");
+	}
+	return 0 == dump_ctx->ret_code;
 }
 
 static stringbuilder_t* pri_dump_ini(ini_parser_handle parser_p)
-- 
2.43.0


From 04f9f5cd0753c6b36bc0344e63eaf5893de220e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 28/58] fix: ini_parser_save keeps the old file when there is
 nothing to write and reports write errors

---
 src/file/ini_parser.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index c2927d0..be0ddae 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -562,11 +562,6 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-	FILE* fp = fopen(file_path, "wb");
-	if (!fp)
-	{
-		return INI_PARSER_CODE_INVALID_PARAM;
-	}
 	char* ini_str = ini_parser_dump(parser_p);
 	if (!ini_str || '\0' == ini_str[0])
 	{
@@ -576,11 +571,17 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 		}
 		return INI_PARSER_CODE_FAILED;
 	}
+	FILE* fp = fopen(file_path, "wb");
+	if (!fp)
+	{
+		free(ini_str);
+		return INI_PARSER_CODE_INVALID_PARAM;
+	}
 	size_t ini_str_len = strlen(ini_str);
-	fwrite(ini_str, 1, ini_str_len, fp);
+	bool succeed = (ini_str_len == fwrite(ini_str, 1, ini_str_len, fp)) && (0 == fflush(fp));
 	free(ini_str);
 	fclose(fp);
-	return INI_PARSER_CODE_SUCCEED;
+	return succeed ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
 
 ini_parser_code_e ini_parser_has_section_key(ini_parser_handle parser_p, const char* section, const char* key)
-- 
2.43.0


From 732c85b76b74b1e1bdb6952870a3aaf808a2463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 29/58] fix: ini_parser does not deliver numbers that do not
 fit

---
 src/file/ini_parser.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index be0ddae..07e2974 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -7,6 +7,8 @@
 #include "mem/stringbuilder.h"
 #include <stdio.h>       /* for fopen */
 #include <stdlib.h>      /* for atoi/atol/atof */
+#include <errno.h>       /* for ERANGE */
+#include <limits.h>      /* for INT_MAX/LONG_MAX */
 
 #define INI_VALUE_STACK_SIZE (256)
 #define SECTION_NAME_MAX_SIZE (INI_VALUE_STACK_SIZE) /* any name that fits into a line */
@@ -657,8 +659,19 @@ ini_parser_code_e ini_parser_destroy(ini_parser_handle* parser_pp)
 static long long parse_str2longlong(ini_parser_code_e* code_p, char* str_value)
 {
 	char* end_ptr = NULL;
+	errno = 0;
 	long long result = strtoll(str_value, &end_ptr, 0); // <-- when 0 == radix, it will auto detect radix 
-	*code_p = (!end_ptr || '\0' != *end_ptr) ? INI_PARSER_CODE_FAILED : INI_PARSER_CODE_SUCCEED;
+	*code_p = (!end_ptr || '\0' != *end_ptr || ERANGE == errno) ? INI_PARSER_CODE_FAILED : INI_PARSER_CODE_SUCCEED;
+	return result;
+}
+
+static long long parse_str2longlong_within(ini_parser_code_e* code_p, char* str_value, long long min, long long max)
+{
+	long long result = parse_str2longlong(code_p, str_value);
+	if (result < min || result > max)
+	{
+		*code_p = INI_PARSER_CODE_FAILED;
+	}
 	return result;
 }
 
@@ -708,7 +721,7 @@ if (!end_ptr || *end_ptr != '\0') { ret = INI_PARSER_CODE_FAILED; break; }\
 				result = false;
 				break;
 			}
-			int num = (int)parse_str2longlong(&ret, str_value);
+			long long num = parse_str2longlong(&ret, str_value);
 			if (INI_PARSER_CODE_SUCCEED == ret)
 			{
 				result = (0 == num ? false : true);
@@ -728,10 +741,10 @@ if (!end_ptr || *end_ptr != '\0') { ret = INI_PARSER_CODE_FAILED; break; }\
 	}
 	break;
 	case INI_VALUE_TYPE_INT:
-		*((int*)value) = (int)parse_str2longlong(&ret, str_value);
+		*((int*)value) = (int)parse_str2longlong_within(&ret, str_value, INT_MIN, INT_MAX);
 		break;
 	case INI_VALUE_TYPE_LONG:
-		*((long*)value) = (long)parse_str2longlong(&ret, str_value);
+		*((long*)value) = (long)parse_str2longlong_within(&ret, str_value, LONG_MIN, LONG_MAX);
 		break;
 	case INI_VALUE_TYPE_LONG_LONG:
 		*((long long*)value) = parse_str2longlong(&ret, str_value);
-- 
2.43.0


From 232e80e382e4146799ad21e31db601acd4442612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 30/58] fix: ini_reader delivers names without a value after an
 error, too

---
 src/file/ini_reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 634a4d3..9ae4bcd 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -220,7 +220,7 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, value) && !error)
                     error = lineno;
             }
-            else if (!error) {
+            else {
                 /* No '=' or ':' found on name[=:]value line */
 #if INI_ALLOW_NO_VALUE
                 *end = '\0';
@@ -228,7 +228,8 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, NULL) && !error)
                     error = lineno;
 #else
-                error = lineno;
+                if (!error)
+                    error = lineno;
 #endif
             }
         }
-- 
2.43.0


From 409d6c869ba498795b50347806a97cdf9f49e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 31/58] fix: file_util_append_slash_on_path_if_needed leaves
 the path alone when there is no room

---
 src/file/file_util.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 1f859e4..93d5faa 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -44,14 +44,20 @@ int file_util_append_slash_on_path_if_needed(__inout char* folder_path, __in con
 		return -2;
 	}
 	const char slash_char = (NULL != strstr(folder_path, "\\")) ? '\\' : '/';
-	if (folder_path[path_len - 1] == slash_char)
+	if ('/' == folder_path[path_len - 1] || '\\' == folder_path[path_len - 1])
 	{
+		if (path_len < folder_path_size)
+		{
+			folder_path[path_len] = '\0'; // cut the blanks behind the slash
+		}
 		return 0;
 	}
-	const size_t slash_location = (path_len + 1) < folder_path_size ?
-		path_len : (path_len - 1);
-	folder_path[slash_location] = slash_char;
-	folder_path[slash_location + 1] = '\0';
+	if (path_len + 1 >= folder_path_size)
+	{
+		return -3; // no room for slash
+	}
+	folder_path[path_len] = slash_char;
+	folder_path[path_len + 1] = '\0';
 	return 0;
 }
 
-- 
2.43.0


From 773b6e049a4b2c48478a4f635d0da5a7e95b095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 32/58] fix: file_util_mkdirs refuses a path that fills its
 buffer completely

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 93d5faa..ed36bd6 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -77,7 +77,7 @@ int file_util_mkdirs(__in const char* folder_path)
 	}
 	int ret;
 	size_t dir_path_len = strlen(folder_path);
-	if (dir_path_len > MAX_FOLDER_PATH_LEN)
+	if (dir_path_len >= MAX_FOLDER_PATH_LEN)
 	{
 		return -2; // dir too long
 	}
-- 
2.43.0


From c8f63e5cc2977258166665b1179f40f6a8015194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 33/58] fix: file_util_mkdirs copes with a folder that somebody
 else creates meanwhile

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index ed36bd6..4b5b10b 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -95,7 +95,7 @@ int file_util_mkdirs(__in const char* folder_path)
 			//folder already exists
 			continue;
 		}
-		if (0 != (ret = MKDIR(tmp_dir_path)))
+		if (0 != (ret = MKDIR(tmp_dir_path)) && 0 != ACCESS(tmp_dir_path, 0))
 		{
 			//error occurred on mkdir
 			return ret;
-- 
2.43.0


From b25a3a0da2a2de8bf1acb41638bbf9bbf4ebc770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 34/58] fix: file_util_read_txt reports read errors

---
 src/file/file_util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 4b5b10b..7502a25 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -200,6 +200,10 @@ int file_util_read_txt(__in const char* file_path,
 			break;
 		}
 	}
+	if (0 == ret && ferror(fp))
+	{
+		ret = -2; // not all lines could be read
+	}
 	fclose(fp);
 	return ret;
 }
-- 
2.43.0


From 16ab902b00051ad2b3dea2b49eed29786b0e8828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 35/58] fix: file_iterator_foreach does not end silently at an
 entry it cannot examine

---
 src/file/file_iterator.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/file/file_iterator.c b/src/file/file_iterator.c
index a8ec870..9250783 100644
--- a/src/file/file_iterator.c
+++ b/src/file/file_iterator.c
@@ -55,7 +55,8 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		return 1;
 	}
 
-	while (NULL != (direntp = readdir(dirp)))
+	int ret = 0;
+	while (errno = 0, NULL != (direntp = readdir(dirp)))
 	{
 		size_t d_name_len = strlen(direntp->d_name);
 		if (d_name_len < 3)
@@ -71,7 +72,11 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		}
 		snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
 		stats = pri_get_file_stat(path_buf, &statbuf);
-		if (stats == -1) break;
+		if (stats == -1)
+		{
+			ret = 1; // report it, and go on with the other entries
+			continue;
+		}
 		/*if (FILE_ITERATOR_TYPE_FILE == stats)
 		{
 			LOGD("file:%s", path_buf);
@@ -89,6 +94,11 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		};
 		if (0 != handler(&info, user_data)) break;
 	}
+	if (NULL == direntp && 0 != errno)
+	{
+		LOGE("error on read dir \"%s\": %d", dir, errno);
+		ret = 1;
+	}
 	closedir(dirp);
-	return 0;
+	return ret;
 }
-- 
2.43.0


From ed3056e83422c91d868585fcfc30aaaa8af0f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 36/58] fix: portable_mutex_unlock refuses a mutex that is not
 initialised

---
 src/thread/portable_thread_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 5b656ea..9709b1c 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -131,7 +131,7 @@ int portable_mutex_lock(portable_mutex_t* mutex)
 
 int portable_mutex_unlock(portable_mutex_t* mutex)
 {
-	if (NULL == mutex)
+	if (NULL == mutex || NULL == *mutex)
 	{
 		return -1;
 	}
-- 
2.43.0


From 590de2d99ef95ac927bbf4052c9627adee11e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 37/58] fix: time_util_fast_second2date is right after 2038 and
 before 1970

---
 src/time/time_util.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 0955a69..f15a311 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -186,18 +186,25 @@ int time_util_zone_offset_seconds_to_utc()
  */
 int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int timezone_hour)
 {
-	#define kHoursInDay         (24)
 	#define kMinutesInHour      (60)
 	#define kDaysFromUnixTime   (2472632)
 	#define kDaysFromYear       (153)
 	#define kMagicUnkonwnFirst  (146097)
 	#define kMagicUnkonwnSec    (1461)
-	lt->tm_sec = (*p_unix_sec) % kMinutesInHour;
-	int minutes = ((int)(*p_unix_sec) / kMinutesInHour);
+	#define kSecondsInDay       (86400)
+	const int64_t local_sec = (int64_t)(*p_unix_sec) + (int64_t)timezone_hour * 3600;
+	int days = (int)(local_sec / kSecondsInDay);
+	int second_of_day = (int)(local_sec % kSecondsInDay);
+	if (second_of_day < 0)
+	{
+		second_of_day += kSecondsInDay;
+		--days;
+	}
+	lt->tm_sec = second_of_day % kMinutesInHour;
+	int minutes = second_of_day / kMinutesInHour;
 	lt->tm_min = minutes % kMinutesInHour; //nn
-	int hours = minutes / kMinutesInHour + timezone_hour;
-	lt->tm_hour = hours % kHoursInDay; // hh
-	lt->tm_mday = hours / kHoursInDay;
+	lt->tm_hour = minutes / kMinutesInHour; // hh
+	lt->tm_mday = days;
 	int a = lt->tm_mday + kDaysFromUnixTime;
 	int b = (a * 4 + 3) / kMagicUnkonwnFirst;
 	int c = (-b * kMagicUnkonwnFirst) / 4 + a;
-- 
2.43.0


From dec369ced365a88407dedef0f715ee2f1928c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 38/58] fix: the time string cache is not valid before it is
 filled

---
 src/time/time_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index f15a311..e2584bd 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -31,8 +31,8 @@ typedef struct
 
 static time_cache_t g_time_caches[2] =
 {
-	{.rw_lock = NULL, },
-	{.rw_lock = NULL, },
+	{.rw_lock = NULL, .tval = {.tv_sec = -1, }, },
+	{.rw_lock = NULL, .tval = {.tv_sec = -1, }, },
 };
 
 #endif // USE_TIME_CACHE
-- 
2.43.0


From b09b01cc92c92eb434f71ed3796e707e02640e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 39/58] fix: time_util_zone_offset_seconds_to_utc is right
 around changes of daylight saving

---
 src/time/time_util.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index e2584bd..c0c82f5 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -166,18 +166,21 @@ int time_util_global_cleanup()
 int time_util_zone_offset_seconds_to_utc()
 {
 	time_t rawtime = time(NULL);
-	struct tm buf;
-
-#if defined(_MSC_VER)
-	gmtime_s(&buf, &rawtime);
-#else
-	gmtime_r(&rawtime, &buf);
-#endif
-	// Request that mktime() looksup dst in timezone database
-	buf.tm_isdst = -1;
-	time_t gmt = mktime(&buf);
-
-	return (int)difftime(rawtime, gmt);//seconds
+	struct tm utc;
+	struct tm local;
+
+#ifndef _WIN32
+	tzset(); // localtime_r need not look for a changed time zone
+#endif // !_WIN32
+	gmtime_r(&rawtime, &utc);
+	localtime_r(&rawtime, &local);
+	int days = local.tm_yday - utc.tm_yday;
+	if (local.tm_year != utc.tm_year)
+	{
+		days = local.tm_year > utc.tm_year ? 1 : -1;
+	}
+	int minutes = (days * 24 + local.tm_hour - utc.tm_hour) * 60 + local.tm_min - utc.tm_min;
+	return minutes * 60 + local.tm_sec - utc.tm_sec;//seconds
 }
 
 /**
-- 
2.43.0


From 888120e35d14d584f69e64378f73c9d8645bc860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 40/58] fix: auto-cover buffer does not report the position of
 the next byte as covered

---
 src/ring/autocover_buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index e468983..f689404 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -69,8 +69,8 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 	if (ring_write_off - ring_read_off == ring_available_data)
 	{
 		//current ring read from "out --> in"
-		//so "cover_read_off" should big(or equal) than "ring_read_off", small than "ring_write_off"
-		if (cover_read_off >= ring_read_off && cover_read_off < ring_write_off)
+		//so "cover_read_off" should big(or equal) than "ring_read_off", small than(or equal: no data yet) "ring_write_off"
+		if (cover_read_off >= ring_read_off && cover_read_off <= ring_write_off)
 		{
 			real_can_read_len = ring_available_data - (cover_read_off - ring_read_off);
 		}
-- 
2.43.0


From 9b68bebcd5cf4dc1a5996f2f7232515afab6a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 41/58] fix: log pieces begun in the same millisecond overwrote
 one another

---
 src/log/file_logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 78e2601..c5a794a 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -220,7 +220,8 @@ static int handle_log_queue_msg(queue_msg_t* msg_p, void* user_data)
 		path_buffer[MAX_FULL_PATH_SIZE - 1] = '\0';
 		snprintf(path_buffer, MAX_FULL_PATH_SIZE - 1, "%s%s%s.log", 
 			handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix, cur_time);
-		handle->cur_fp = fopen(path_buffer, "wb");
+		// append: a piece which began in same millisecond has the same name
+		handle->cur_fp = fopen(path_buffer, "ab");
 		handle->cur_log_file_size_counter = 0U;
 	}
 	if (!handle->cur_fp)
-- 
2.43.0


From c62820a03b109c29b0716ad29a823da7181fad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 42/58] fix: file logger crashed when there was no memory for
 its folder path

---
 src/log/file_logger.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index c5a794a..f99b492 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -94,6 +94,13 @@ file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 		return NULL;
 	}
 	char* log_folder_path_formatted = strreplace(cfg_p->log_folder_path, "\\", "/");
+	if (NULL == log_folder_path_formatted)
+	{
+		msg_queue_handler_destroy(&(handle->msg_queue));
+		free(msg);
+		free(handle);
+		return NULL;
+	}
 	strlcpy(cfg_p->log_folder_path, log_folder_path_formatted, MAX_LOG_FOLDER_PATH_SIZE);
 	free(log_folder_path_formatted);
 	size_t log_folder_path_len = strlen(cfg_p->log_folder_path);
-- 
2.43.0


From 3c3d3937a898b8279a6b7f49e66888368612d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 43/58] fix: a lost log was not kept when the log folder did
 not exist yet

---
 src/log/file_logger.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index f99b492..fc483d6 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -172,6 +172,7 @@ int file_logger_log(file_logger_handle handle, void* log_msg, size_t msg_size)
 		snprintf(path_buffer, sizeof(path_buffer) - 1, "%s%s_lost.log",
 			handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix);
 		MY_LOGE(" warning: lost log, you can see it on *_lost.log");
+		file_util_mkdirs(handle->cfg.log_folder_path); // maybe no log file has been created yet
 		FILE* f_lost = fopen(path_buffer, "a");
 		if (f_lost)
 		{
-- 
2.43.0


From 589161e376c536f95a493ab67c4a49f832e2074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 44/58] fix: xlog cut thread ids of more than five digits

---
 src/log/xlog.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 436cdfc..d0b0b37 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -348,8 +348,17 @@ static inline int print_tid(char* buffer, int tid)
 	}
 	buffer[0] = '(';
 	++buffer;
-#define MAX_TID_WIDTH (5)
-	int num_count = MAX_TID_WIDTH;
+#define MIN_TID_WIDTH (5)
+	int tid_width = 1;
+	for (int tid_walker = tid; tid_walker >= 10; tid_walker /= 10)
+	{
+		++tid_width;
+	}
+	if (tid_width < MIN_TID_WIDTH)
+	{
+		tid_width = MIN_TID_WIDTH;
+	}
+	int num_count = tid_width;
 	for (; num_count > 0 && tid > 0; --num_count, tid /= 10)
 	{
 		buffer[num_count - 1] = '0' + tid % 10;
@@ -358,10 +367,10 @@ static inline int print_tid(char* buffer, int tid)
 	{
 		memset(buffer, ' ', num_count);
 	}
-	buffer += MAX_TID_WIDTH;
+	buffer += tid_width;
 	buffer[0] = ')';
 	buffer[1] = '\0';
-	return 7;
+	return tid_width + 2;
 }
 
 static inline int my_int2str(int num, char* str)
-- 
2.43.0


From 373c4cac4d6d810194fb521f9f0ac5ffcf526cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 45/58] fix: xlog wrote a very long function name beyond its
 buffer

---
 src/log/xlog.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index d0b0b37..2e70d38 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -404,12 +404,17 @@ static inline int my_int2str(int num, char* str)
 }
 
 // (func:line)  
-static inline int print_func_line(char* buffer, const char* func, int line_num)
+static inline int print_func_line(char* buffer, size_t buffer_size, const char* func, int line_num)
 {
+#define FUNC_LINE_EXCEPT_NAME_MAX_SIZE (sizeof("(:2147483647) "))
 	char *str = buffer;
 	str[0] = '(';
 	++str;
 	size_t len_func = strlen(func);
+	if (len_func > buffer_size - FUNC_LINE_EXCEPT_NAME_MAX_SIZE)
+	{
+		len_func = buffer_size - FUNC_LINE_EXCEPT_NAME_MAX_SIZE; // too long, cut it
+	}
 	memcpy(str, func, len_func);
 	str += len_func;
 	str[0] = ':';
@@ -493,7 +498,7 @@ void __xlog_internal_print(LogLevel level, const char* tag, const char* func_nam
 #if(defined(USE_SNPRINTF_HEADER) && USE_SNPRINTF_HEADER)
 			buffer_strlen += snprintf(buffer_log + buffer_strlen, default_buffer_remaining_size, "(%s:%d) ", func_name, file_line);
 #else
-			buffer_strlen += print_func_line(buffer_log + buffer_strlen, func_name, file_line);
+			buffer_strlen += print_func_line(buffer_log + buffer_strlen, default_buffer_remaining_size, func_name, file_line);
 #endif // USE_SNPRINTF_HEADER
 	    }
 
-- 
2.43.0


From b0de50c1c1b1f898f0851e1db23437852a8b2bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 46/58] fix: stdout stayed closed after a redirection that
 failed

---
 src/log/slog.c | 13 +++++++++----
 src/log/xlog.c | 16 ++++++++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/log/slog.c b/src/log/slog.c
index 10483db..39196c2 100644
--- a/src/log/slog.c
+++ b/src/log/slog.c
@@ -49,8 +49,14 @@ void slog_stdout2file(char* file_path)
 		fclose(g_slog.fp_out);
 	}
 	fflush(stdout);
-	g_slog.fp_out = freopen(file_path, "w", stdout);
-	if (!g_slog.fp_out)
+	// if freopen failed, stdout is closed. so make sure the file can be opened first
+	FILE* fp_try = fopen(file_path, "a");
+	if (fp_try)
+	{
+		fclose(fp_try);
+		g_slog.fp_out = freopen(file_path, "w", stdout);
+	}
+	if (!fp_try || !g_slog.fp_out)
 	{
 		fprintf(stderr, "[slog] (%s:%d) Error: failed on freopen to file(%s)\n", __func__, __LINE__, file_path);
 	}
@@ -62,9 +68,8 @@ void slog_back2stdout()
 	{
 		return;
 	}
-	// must close current stream first, and then reopen it
+	// freopen close current stream first, and then reopen it
 	fflush(g_slog.fp_out);
-	fclose(g_slog.fp_out);
 	g_slog.fp_out = NULL;
 	if (!freopen(_STDOUT_NODE, "w", stdout))
 	{
diff --git a/src/log/xlog.c b/src/log/xlog.c
index 2e70d38..3bb0eca 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -151,12 +151,17 @@ void xlog_stdout2file(char* file_path)
 	if (g_xlog_cfg.fp_out)
 	{
 		fprintf(stderr, "[XLog] (%s:%d) warn: did you forgot to close the redirect stdout file stream!" _LOG_SUFFIX, __func__, __LINE__);
-		fflush(g_xlog_cfg.fp_out);
-		fclose(g_xlog_cfg.fp_out);
 	}
 	fflush(stdout);
-	g_xlog_cfg.fp_out = freopen(file_path, "w", stdout);
-	if (!g_xlog_cfg.fp_out)
+	// if freopen failed, stdout is closed. so make sure the file can be opened first
+	FILE* fp_try = fopen(file_path, "a");
+	if (fp_try)
+	{
+		fclose(fp_try);
+		// freopen close current stream by itself, we shouldn't close it
+		g_xlog_cfg.fp_out = freopen(file_path, "w", stdout);
+	}
+	if (!fp_try || !g_xlog_cfg.fp_out)
 	{
 		fprintf(stderr, "[XLog] (%s:%d) err: failed on freopen stdout to file(%s)" _LOG_SUFFIX, __func__, __LINE__, file_path);
 	}
@@ -170,9 +175,8 @@ void xlog_back2stdout()
 		return;
 	}
 	XLOG_LOCK();
-	// must close current stream first, and then reopen it
+	// freopen close current stream first, and then reopen it
 	fflush(g_xlog_cfg.fp_out);
-	fclose(g_xlog_cfg.fp_out);
 	g_xlog_cfg.fp_out = NULL;
 	if (!freopen(_STDOUT_NODE, "w", stdout))
 	{
-- 
2.43.0


From 74b40374dcb97798263717cacdbe872e38ebf755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 47/58] fix: global initialisation reported success when one of
 its locks could not be made

---
 src/log/xlog.c       | 3 +--
 src/time/time_util.c | 5 +++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 3bb0eca..5f8cd20 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -121,8 +121,7 @@ int xlog_global_init()
 	{
 		return 1;
 	}
-	portable_mutex_init(&g_xlog_mutex, NULL);
-	return 0;
+	return portable_mutex_init(&g_xlog_mutex, NULL);
 }
 
 int xlog_global_cleanup()
diff --git a/src/time/time_util.c b/src/time/time_util.c
index c0c82f5..d267029 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -133,6 +133,7 @@ int gettimeofday(struct timeval* tp, struct timezone* tzp)
 
 int time_util_global_init()
 {
+	int ret = 0;
 #if(defined(USE_TIME_CACHE) && USE_TIME_CACHE)
 	for (int i = 0; i < ARRAY_LEN(g_time_caches); ++i)
 	{
@@ -140,10 +141,10 @@ int time_util_global_init()
 		{
 			continue;
 		}
-		portable_rwlock_init(&(g_time_caches[i].rw_lock), NULL);
+		ret |= portable_rwlock_init(&(g_time_caches[i].rw_lock), NULL);
 	}
 #endif // USE_TIME_CACHE  
-	return 0;
+	return ret;
 }
 
 int time_util_global_cleanup()
-- 
2.43.0


From 4aa1266a04c4153ffec296cb99107a790e91bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:12 +0000
Subject: [PATCH 48/58] fix: a ring in more than 2 GB of the caller's memory
 had no capacity

---
 src/ring/ringbuffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ring/ringbuffer.c b/src/ring/ringbuffer.c
index 17debbc..4bba587 100644
--- a/src/ring/ringbuffer.c
+++ b/src/ring/ringbuffer.c
@@ -75,7 +75,8 @@ ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_
 	if (!pri_is_power_of_2(ring_buf_size))
 	{
 		RING_LOGW("%s buf_size=%u is not power of 2", __func__, ring_buf_size);
-		ring_buf_size = (pri_roundup_pow_of_two(ring_buf_size) >> 1);
+		// previous power of 2 is the half of next one. (above 2^31 the next one does not fit in uint32_t)
+		ring_buf_size = ring_buf_size > 0x80000000U ? 0x80000000U : (pri_roundup_pow_of_two(ring_buf_size) >> 1);
 		RING_LOGW("%s changed buf_size to %u ", __func__, ring_buf_size);
 	}
 	ring_buffer_handle ring_buffer_p = (ring_buffer_handle)buf;
-- 
2.43.0


From e7503812237a24e40e7b4bcd038cd556fc33835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:19 +0000
Subject: [PATCH 49/58] fix: creating a thread pool woke the paused workers of
 another pool

---
 src/thread/thpool.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 7831af1..08c0848 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -124,7 +124,6 @@ static void  bsem_wait(struct bsem *bsem_p);
 /* Initialize thread pool */
 struct thpool_* thpool_init(int num_threads){
 
-	threads_on_hold   = 0;
 	//threads_keepalive = 1;
 
 	if (num_threads < 0){
-- 
2.43.0


From 087633a6b4b6491bf071dbd5bf25cb78245ec4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:19 +0000
Subject: [PATCH 50/58] fix: a fixed-size queue held fewer messages than it was
 created for (none at all in small ones)

---
 src/ring/fixed_msg_queue.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/ring/fixed_msg_queue.c b/src/ring/fixed_msg_queue.c
index ff41210..ac9567e 100644
--- a/src/ring/fixed_msg_queue.c
+++ b/src/ring/fixed_msg_queue.c
@@ -7,6 +7,7 @@ struct _fixed_msg_queue_s
 {
     ring_buffer_handle ring_buf_p;
     uint32_t one_msg_byte_size;
+    uint32_t max_msg_capacity;
 };
 
 fixed_msg_queue fixed_msg_queue_create(__in uint32_t one_msg_byte_size,
@@ -16,16 +17,20 @@ fixed_msg_queue fixed_msg_queue_create(__in uint32_t one_msg_byte_size,
     {
         return NULL;
     }
-    const size_t expect_mem_size = sizeof(struct _fixed_msg_queue_s) + one_msg_byte_size * max_msg_capacity;
-    char *raw_mem = (char *)malloc(expect_mem_size);
-    if (!raw_mem)
+    if (max_msg_capacity > UINT32_MAX / one_msg_byte_size)
+    {
+        return NULL;
+    }
+    fixed_msg_queue msg_queue_p = (fixed_msg_queue)malloc(sizeof(struct _fixed_msg_queue_s));
+    if (!msg_queue_p)
     {
         return NULL;
     }
-    fixed_msg_queue msg_queue_p = (fixed_msg_queue)raw_mem;
     msg_queue_p->one_msg_byte_size = one_msg_byte_size;
-    msg_queue_p->ring_buf_p = RingBuffer_create_with_mem(raw_mem + sizeof(struct _fixed_msg_queue_s),
-        (uint32_t)(expect_mem_size - sizeof(struct _fixed_msg_queue_s)));
+    msg_queue_p->max_msg_capacity = max_msg_capacity;
+    // the ring may be larger than this (4 bytes at least), but never smaller.
+    const uint32_t expect_buf_size = one_msg_byte_size * max_msg_capacity;
+    msg_queue_p->ring_buf_p = RingBuffer_create(expect_buf_size < 4 ? 4 : expect_buf_size);
     if (!msg_queue_p->ring_buf_p)
     {
         free(msg_queue_p);
@@ -70,8 +75,8 @@ extern inline uint32_t fixed_msg_queue_available_pop_amount(__in fixed_msg_queue
 
 extern inline uint32_t fixed_msg_queue_available_push_amount(__in fixed_msg_queue msg_queue) 
 {
-    return RingBuffer_available_write(msg_queue->ring_buf_p) /
-           msg_queue->one_msg_byte_size;
+    return msg_queue->max_msg_capacity -
+           fixed_msg_queue_available_pop_amount(msg_queue);
 }
 
 extern inline bool fixed_msg_queue_is_empty(__in fixed_msg_queue msg_queue) 
-- 
2.43.0


From 7c3611c642b4c055b6be2e373838398714fb0cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:16 +0000
Subject: [PATCH 51/58] fix: in memory-check builds, string parameters and
 strreplace gave memory that its free() aborts on

---
 src/mem/str_params.c | 24 +++++++++++++-----------
 src/mem/strings.c    |  5 +++--
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 8b0e6a6..ef4fc25 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -1,8 +1,4 @@
-#if defined(__GNUC__) && !defined(_GNU_SOURCE)
-#define _GNU_SOURCE /* needed for (v)asprintf, affects '#include <stdio.h>' */
-#endif // __GNUC__
 #include "mem/mem_debug.h"
-#include "mem/asprintf.h"
 #include "mem/str_params.h"
 
 #include <errno.h>
@@ -54,11 +50,17 @@ static int str_hash_fn(const void* str)
 	return (int)hash;
 }
 
+/* with memory check enabled(mem_debug.h), "free" is a macro with argument: its name alone is not the function which matches strdup */
+static void str_free(void* str)
+{
+	free(str);
+}
+
 str_params_ptr str_params_create(const char* delimiter)
 {
 	str_params_ptr s = (str_params_ptr)calloc(1, sizeof(struct str_params));
 	if (!s) return NULL;
-	s->map = hashmap_create(16, str_hash_fn, free, free, str_eq, NULL);
+	s->map = hashmap_create(16, str_hash_fn, str_free, str_free, str_eq, NULL);
 	if (!s->map)
 	{
 		free(s);
@@ -351,12 +353,12 @@ typedef struct
 static bool combine_strings(void* key, void* value, void* context)
 {
 	combine_strings_ctx* combine_ctx = (combine_strings_ctx*)context;
-	char* new_str = NULL;
-	int ret = asprintf(&new_str, "%s%s%s=%s",
-		combine_ctx->str ? combine_ctx->str : "",
-		combine_ctx->str ? combine_ctx->params_ptr->delimiter : "",
-		(char*)key,
-		(char*)value);
+	const char* old_str = combine_ctx->str ? combine_ctx->str : "";
+	const char* delimiter = combine_ctx->str ? combine_ctx->params_ptr->delimiter : "";
+	/* not asprintf: memory from it is unknown to memory check(mem_debug.h), the free of it aborts */
+	size_t new_str_size = strlen(old_str) + strlen(delimiter) + strlen((char*)key) + 1U + strlen((char*)value) + 1U;
+	char* new_str = (char*)malloc(new_str_size);
+	int ret = new_str ? snprintf(new_str, new_str_size, "%s%s%s=%s", old_str, delimiter, (char*)key, (char*)value) : -1;
 	if (combine_ctx->str)
 	{
 		free(combine_ctx->str);
diff --git a/src/mem/strings.c b/src/mem/strings.c
index 6e9ce97..eb899da 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -1,7 +1,8 @@
+#include "mem/mem_debug.h"
 #include "mem/strings.h"
 #include <malloc.h>
 
-#ifdef _WIN32
+#if defined(_WIN32) && !defined(strndup)
 char* strndup(const char* s, size_t n)
 {
 	if (!s)
@@ -28,7 +29,7 @@ char* strndup(const char* s, size_t n)
 	target_str[target_len] = '\0';
 	return target_str;
 }
-#endif // _WIN32
+#endif // _WIN32 && !strndup
 
 #if defined(__GLIBC__) || defined(_WIN32)
 /* Implementation of strlcpy() for platforms that don't already have it. */
-- 
2.43.0


From fa572613f9ca1e9c036428bd5efa8098b2c6b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:16 +0000
Subject: [PATCH 52/58] fix: in a folder with a very long path the walk
 described an entry by another one

---
 src/file/file_iterator.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/file_iterator.c b/src/file/file_iterator.c
index 9250783..8a3597e 100644
--- a/src/file/file_iterator.c
+++ b/src/file/file_iterator.c
@@ -70,8 +70,9 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 				continue;
 			}
 		}
-		snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
-		stats = pri_get_file_stat(path_buf, &statbuf);
+		int path_len = snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
+		// a path which was cut is the path of something else
+		stats = (path_len > 0 && path_len < (int)sizeof(path_buf) - 1) ? pri_get_file_stat(path_buf, &statbuf) : -1;
 		if (stats == -1)
 		{
 			ret = 1; // report it, and go on with the other entries
-- 
2.43.0


From 9cbe988ec9c057744d03ea20dbe35e812adbcf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:32 +0000
Subject: [PATCH 53/58] fix: LOG_BACK2STD() did not compile with LCU_XLOG_OFF

---
 inc/log/xlog.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/log/xlog.h b/inc/log/xlog.h
index 97e1e58..152d0fa 100644
--- a/inc/log/xlog.h
+++ b/inc/log/xlog.h
@@ -179,7 +179,7 @@ extern "C" {
 #endif // !_LOG_NOTHING
 
 #define LOG_STD2FILE(file_path)  do { (void)(file_path); } while (0)
-#define LOG_BACK2STD()           _LOG_NOTHING
+#define LOG_BACK2STD()           _LOG_NOTHING()
 
 #define TLOGV(tag, fmt, ...) _LOG_NOTHING()
 #define TLOGD(tag, fmt, ...) _LOG_NOTHING()
-- 
2.43.0


From 344b7c0099a072059b040b006f47b9892a78c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:32 +0000
Subject: [PATCH 54/58] fix: _LCU_LOGGER_DISABLE worked the wrong way round

---
 inc/log/logger_facade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/log/logger_facade.h b/inc/log/logger_facade.h
index a6a612a..9043a4b 100644
--- a/inc/log/logger_facade.h
+++ b/inc/log/logger_facade.h
@@ -48,7 +48,7 @@
 #undef LOGE_HEX
 //================CLEANUP PREVIOUS DEFINITION================
 
-#if(!defined(_LCU_LOGGER_DISABLE) || 0 != _LCU_LOGGER_DISABLE)
+#if(!defined(_LCU_LOGGER_DISABLE) || 0 == _LCU_LOGGER_DISABLE)
 
 #ifndef _LOG_TAG
 #error "You should define \"_LOG_TAG\" before include <logger_facade_xx.h>"
-- 
2.43.0


From d0632144ab0a923cb999bd74fa515d14ec5b1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:32 +0000
Subject: [PATCH 55/58] fix: LOG_GET_MIN_LEVEL() was no value with logging
 disabled

---
 inc/log/logger_facade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/log/logger_facade.h b/inc/log/logger_facade.h
index 9043a4b..da12ebe 100644
--- a/inc/log/logger_facade.h
+++ b/inc/log/logger_facade.h
@@ -120,7 +120,7 @@
 #define LOG_GLOBAL_INIT(params)      _LOG_NOTHING()
 #define LOG_GLOBAL_CLEANUP(params)   _LOG_NOTHING()
 #define LOG_SET_MIN_LEVEL(min_level) _LOG_NOTHING()
-#define LOG_GET_MIN_LEVEL()          _LOG_NOTHING()
+#define LOG_GET_MIN_LEVEL()          (LOG_LEVEL_OFF)
 #define LOG_STD2FILE(file_path)      _LOG_NOTHING()
 #define LOG_BACK2STD()               _LOG_NOTHING()
 
-- 
2.43.0


From df7bde32ecc882908beed390c0c3742bc6ff45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:54 +0000
Subject: [PATCH 56/58] fix: the ini reader did not link with INI_USE_STACK 0

---
 src/file/ini_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 9ae4bcd..82e0fa1 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -120,7 +120,7 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
     int error = 0;
 
 #if !INI_USE_STACK
-    line = (char*)ini_malloc(INI_INITIAL_ALLOC);
+    line = (char*)ini_reader_malloc(INI_INITIAL_ALLOC);
     if (!line) {
         return -2;
     }
-- 
2.43.0


From 0d730be28ffae64b0951c463b3dabf1a54a1f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:17 +0000
Subject: [PATCH 57/58] fix: without stdout redirection xlog.h and slog.h still
 offered it

---
 inc/log/slog.h | 4 ++--
 inc/log/xlog.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/log/slog.h b/inc/log/slog.h
index e5719fc..896a88e 100644
--- a/inc/log/slog.h
+++ b/inc/log/slog.h
@@ -15,11 +15,11 @@ extern "C" {
 
 	LogLevel slog_get_min_level();
 
-#if(!defined(_LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT)
+#if(!defined(_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT)
 	void slog_stdout2file(char* file_path);
 
 	void slog_back2stdout();
-#endif // !_LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT
+#endif // !_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT
 
 	void __slog_internal_hex_print(int level, const char* tag, const char* chars, size_t chars_count);
 	
diff --git a/inc/log/xlog.h b/inc/log/xlog.h
index 152d0fa..e8f0e0b 100644
--- a/inc/log/xlog.h
+++ b/inc/log/xlog.h
@@ -219,13 +219,13 @@ extern "C" {
 
 #else
 
-#if(!defined(_LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT)
+#if(!defined(_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT) || 0 == _LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT)
 #define LOG_STD2FILE(file_path)       do { xlog_stdout2file(file_path); } while(0)
 #define LOG_BACK2STD()                do { xlog_back2stdout(); } while(0)   
 #else
 #define LOG_STD2FILE(file_path)       do { (void)(file_path); } while (0)
 #define LOG_BACK2STD()                do {} while (0)
-#endif // !_LCU_LOGGER_UNSUPPORT_PRINTF_REDIRECT
+#endif // !_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT
 
 // better 'define LOG_TAG "xxx"' before include "xlog.h"
 // if not, we use default TAG, which you called on xlog_set_default_tag
-- 
2.43.0


From e9f2540cc3fb77e8493dd0c8a8c270552b9e4a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:09 +0000
Subject: [PATCH 58/58] fix: PTR_TO_UINT() and PTR_TO_INT() had unbalanced
 parentheses

---
 inc/common_macro.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/common_macro.h b/inc/common_macro.h
index 898182f..9c0dbb3 100644
--- a/inc/common_macro.h
+++ b/inc/common_macro.h
@@ -247,9 +247,9 @@ typedef intptr_t ssize_t;
  // (never in C++ code). 
  // Whenever integers need to be passed as a pointer, use these macros. 
  // for compatible with 64bit OS, suggest use PTR_TO_LONG64 and LONG64_TO_PTR
-#define PTR_TO_UINT(p)    ((uintptr_t) (p)))
+#define PTR_TO_UINT(p)    ((uintptr_t) (p))
 #define UINT_TO_PTR(u)    ((void *) ((uintptr_t) (u)))
-#define PTR_TO_INT(p)     (((intptr_t) (p))
+#define PTR_TO_INT(p)     ((intptr_t) (p))
 #define INT_TO_PTR(i)     ((void *) ((intptr_t) (i)))
 #define PTR_TO_LONG64(p)  ((long long) ((intptr_t) (p)))
 #define LONG64_TO_PTR(i)  ((void *) ((intptr_t) (i)))
-- 
2.43.0

