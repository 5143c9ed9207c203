From 1903b45e99e518127806f6413346eb8a53cae450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:02 +0000
Subject: [PATCH 1/5] fix: list_insert_sorted() crashed or looped when
 inserting in the middle

---
 list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.c b/list.c
index b38535e..287d59f 100644
--- a/list.c
+++ b/list.c
@@ -215,7 +215,7 @@ _list_prepend_new_sorted(List *list, void *data)
 		}
 		else
 		{
-			ptr = &(*ptr)->prev->next;
+			ptr = &(*ptr)->next;
 		}
 	}
 
-- 
2.43.0


From ce582f7d4907976aa1cec43f9bf216b53ddbe951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:02 +0000
Subject: [PATCH 2/5] fix: initialise the stack of an iterator over an empty
 red-black tree

---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index 6fbaa6c..91458bb 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -875,6 +875,7 @@ rbtree_iter_init(const RBTree *tree, RBTreeIter *iter)
 	iter->tree = tree;
 	iter->stack_size = tree->count + 1;
 	iter->sp = NULL;
+	iter->stack = NULL;
 	iter->finished = false;
 
 	if(tree->root)
-- 
2.43.0


From 8ed39c12dd83e6c268ddbee05c0c340e06786de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:02 +0000
Subject: [PATCH 3/5] fix: buffer_fill_from_fd() overflowed the stack for large
 counts

---
 buffer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buffer.c b/buffer.c
index 8c218b5..89783ee 100644
--- a/buffer.c
+++ b/buffer.c
@@ -195,7 +195,13 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 	RETURN_VAL_IF_INVALID(buf, 0);
 
 	ssize_t bytes;
-	char data[count];
+	char *data = (char *)malloc(count ? count : 1);
+
+	if(!data)
+	{
+		perror("malloc()");
+		abort();
+	}
 
 	if((bytes = read(fd, data, count)) > 0)
 	{
@@ -209,6 +215,8 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 		perror("read()");
 	}
 
+	free(data);
+
 	return bytes;
 }
 
-- 
2.43.0


From 0ed4af01417b61e78b75d5be1fd036018276ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:02 +0000
Subject: [PATCH 4/5] fix: async_queue_pop_timeout() ignored sub-second
 timeouts and blocked forever for 0 ms

---
 asyncqueue.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 05a517f..505f277 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -132,7 +132,7 @@ _async_queue_try_lock(AsyncQueue *queue)
 }
 
 static bool
-_async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
+_async_queue_cond_wait(AsyncQueue *queue, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -142,17 +142,9 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 	{
 		++queue->waiting;
 
-		if(ms)
+		if(deadline)
 		{
-			struct timespec val;
-			struct timeval now;
-
-			gettimeofday(&now, NULL);
-
-			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = 0;
-
-			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
+			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, deadline);
 		}
 		else
 		{
@@ -170,7 +162,7 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 }
 
 static bool
-_async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
+_async_queue_pop(AsyncQueue *queue, void *data, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -179,7 +171,7 @@ _async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
 	if(_async_queue_try_lock(queue))
 	{
 		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));
+			|| (_async_queue_cond_wait(queue, deadline) && queue_pop(&queue->queue, data));
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
@@ -192,13 +184,27 @@ async_queue_pop(AsyncQueue *queue, void *data)
 {
 	assert(queue != NULL);
 
-	return _async_queue_pop(queue, data, 0);
+	return _async_queue_pop(queue, data, NULL);
 }
 
 bool
 async_queue_pop_timeout(AsyncQueue *queue, void *data, uint32_t ms)
 {
-	return _async_queue_pop(queue, data, ms);
+	struct timespec deadline;
+	struct timeval now;
+
+	gettimeofday(&now, NULL);
+
+	deadline.tv_sec = now.tv_sec + (ms / 1000);
+	deadline.tv_nsec = now.tv_usec * 1000 + (ms % 1000) * 1000000;
+
+	if(deadline.tv_nsec >= 1000000000)
+	{
+		++deadline.tv_sec;
+		deadline.tv_nsec -= 1000000000;
+	}
+
+	return _async_queue_pop(queue, data, &deadline);
 }
 
 void
-- 
2.43.0


From 3b9ea8a7960dc81df4f3a14efce4f4b1f10b55b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:02 +0000
Subject: [PATCH 5/5] fix: popping from an async queue gave up after a spurious
 or stolen wake-up

---
 asyncqueue.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 505f277..8276b0e 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -167,11 +167,17 @@ _async_queue_pop(AsyncQueue *queue, void *data, const struct timespec *deadline)
 	assert(queue != NULL);
 
 	bool success = false;
+	bool waiting = true;
 
 	if(_async_queue_try_lock(queue))
 	{
-		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, deadline) && queue_pop(&queue->queue, data));
+		success = queue_pop(&queue->queue, data);
+
+		while(!success && waiting)
+		{
+			waiting = _async_queue_cond_wait(queue, deadline);
+			success = queue_pop(&queue->queue, data);
+		}
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
-- 
2.43.0

