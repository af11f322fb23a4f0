From faf97aca62908b4bacca543b0b78d22413c1410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 1/5] fix: sorted insertion into a doubly-linked list walks
 forward

_list_prepend_new_sorted() advanced with &(*ptr)->prev->next, which
dereferences the NULL prev link of the head and never moves past the
second item.
---
 list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.c b/list.c
index b38535e..287d59f 100644
--- a/list.c
+++ b/list.c
@@ -215,7 +215,7 @@ _list_prepend_new_sorted(List *list, void *data)
 		}
 		else
 		{
-			ptr = &(*ptr)->prev->next;
+			ptr = &(*ptr)->next;
 		}
 	}
 
-- 
2.43.0


From 0152b295c01c9600797243ea5cf25ad0ddfd980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 2/5] fix: initialise the stack of an iterator on an empty
 red-black tree

rbtree_iter_init() left iter->stack uninitialised when the tree had no
root; rbtree_iter_free() and rbtree_iter_reuse() then passed garbage to
free() or realloc().
---
 rbtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rbtree.c b/rbtree.c
index 6fbaa6c..f28800b 100644
--- a/rbtree.c
+++ b/rbtree.c
@@ -873,6 +873,7 @@ rbtree_iter_init(const RBTree *tree, RBTreeIter *iter)
 	assert(iter != NULL);
 
 	iter->tree = tree;
+	iter->stack = NULL;
 	iter->stack_size = tree->count + 1;
 	iter->sp = NULL;
 	iter->finished = false;
-- 
2.43.0


From 7e1c0250abc7e91a7ee1eb42d53558978a99dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:47 +0000
Subject: [PATCH 3/5] fix: read from descriptors into heap memory

buffer_fill_from_fd() read into a variable length array of the requested
size, which overflowed the stack for large counts and is undefined for a
count of zero.
---
 buffer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buffer.c b/buffer.c
index 8c218b5..89783ee 100644
--- a/buffer.c
+++ b/buffer.c
@@ -195,7 +195,13 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 	RETURN_VAL_IF_INVALID(buf, 0);
 
 	ssize_t bytes;
-	char data[count];
+	char *data = (char *)malloc(count ? count : 1);
+
+	if(!data)
+	{
+		perror("malloc()");
+		abort();
+	}
 
 	if((bytes = read(fd, data, count)) > 0)
 	{
@@ -209,6 +215,8 @@ buffer_fill_from_fd(Buffer *buf, int fd, size_t count)
 		perror("read()");
 	}
 
+	free(data);
+
 	return bytes;
 }
 
-- 
2.43.0


From 51fe8f46bcb5737b3b3053f16a435be3395fe727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:53 +0000
Subject: [PATCH 4/5] fix: timed pop waits for the whole timeout

The deadline was cut to whole seconds, so that async_queue_pop_timeout()
gave up to one second too early, or at once for timeouts below a second.
---
 asyncqueue.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index 05a517f..cee0472 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -149,8 +149,10 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 
 			gettimeofday(&now, NULL);
 
-			val.tv_sec = now.tv_sec + (ms / 1000);
-			val.tv_nsec = 0;
+			long nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;
+
+			val.tv_sec = now.tv_sec + (ms / 1000) + nsec / 1000000000L;
+			val.tv_nsec = nsec % 1000000000L;
 
 			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
 		}
-- 
2.43.0


From b8ea598edeaf118daf8148a75a972ee10cd11bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:21 +0000
Subject: [PATCH 5/5] fix: a waiting pop goes back to waiting when it was woken
 in vain

A consumer woken spuriously, or whose element another consumer took
first, returned without an element: a blocking pop failed and a timed
pop gave up early. Wait in a loop until an element is there or the
deadline, computed once, has passed; an element pushed as the timeout
expires is still taken.
---
 asyncqueue.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/asyncqueue.c b/asyncqueue.c
index cee0472..fc32876 100644
--- a/asyncqueue.c
+++ b/asyncqueue.c
@@ -131,8 +131,24 @@ _async_queue_try_lock(AsyncQueue *queue)
 	return !rc;
 }
 
+static struct timespec
+_async_queue_deadline(uint32_t ms)
+{
+	struct timespec val;
+	struct timeval now;
+
+	gettimeofday(&now, NULL);
+
+	long nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;
+
+	val.tv_sec = now.tv_sec + (ms / 1000) + nsec / 1000000000L;
+	val.tv_nsec = nsec % 1000000000L;
+
+	return val;
+}
+
 static bool
-_async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
+_async_queue_cond_wait(AsyncQueue *queue, const struct timespec *deadline)
 {
 	assert(queue != NULL);
 
@@ -142,19 +158,9 @@ _async_queue_cond_wait(AsyncQueue *queue, uint32_t ms)
 	{
 		++queue->waiting;
 
-		if(ms)
+		if(deadline)
 		{
-			struct timespec val;
-			struct timeval now;
-
-			gettimeofday(&now, NULL);
-
-			long nsec = now.tv_usec * 1000L + (ms % 1000) * 1000000L;
-
-			val.tv_sec = now.tv_sec + (ms / 1000) + nsec / 1000000000L;
-			val.tv_nsec = nsec % 1000000000L;
-
-			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, &val);
+			success = !pthread_cond_timedwait(&queue->cond, &queue->mutex, deadline);
 		}
 		else
 		{
@@ -177,11 +183,21 @@ _async_queue_pop(AsyncQueue *queue, void *data, uint32_t ms)
 	assert(queue != NULL);
 
 	bool success = false;
+	struct timespec deadline;
+
+	if(ms)
+	{
+		deadline = _async_queue_deadline(ms);
+	}
 
 	if(_async_queue_try_lock(queue))
 	{
-		success = queue_pop(&queue->queue, data)
-			|| (_async_queue_cond_wait(queue, ms) && queue_pop(&queue->queue, data));
+		bool wait = true;
+
+		while(!(success = queue_pop(&queue->queue, data)) && wait)
+		{
+			wait = _async_queue_cond_wait(queue, ms ? &deadline : NULL);
+		}
 
 		PTHREAD_CRITICAL_CALL(pthread_mutex_unlock, &queue->mutex);
 	}
-- 
2.43.0

