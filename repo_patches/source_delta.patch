From 7c7cd18bc932e2477e124bdf58fa46653564e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 01/56] fix: arena walks past its end, never merges blocks
 freed in order and truncates sizes to 24 bits

---
 runtime/arena.c | 91 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 35 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 50b05fa..688443d 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -32,9 +32,8 @@
 #include <string.h>
 
 struct gracht_header {
-    uint32_t length    : 24;
+    uint32_t length    : 31;
     uint32_t allocated : 1;
-    uint32_t flags     : 7;
     uint32_t payload[1];
 };
 
@@ -51,6 +50,9 @@ struct gracht_arena {
 #define GET_HEADER(ptr)      ((struct gracht_header*)((char*)(ptr) - HEADER_SIZE))
 #define GET_NEXT_HEADER(hdr) ((struct gracht_header*)((char*)(hdr) + (HEADER_SIZE + (hdr)->length)))
 
+// the largest arena (and allocation) that can be described by a header
+#define ARENA_MAX_SIZE 0x7FFFFFFF
+
 void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size);
 
 int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
@@ -58,7 +60,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     struct gracht_arena* arena;
     void*                base;
 
-    if (!size || !arenaOut) {
+    if (size <= HEADER_SIZE || size > ARENA_MAX_SIZE || !arenaOut) {
         errno = EINVAL;
         return -1;
     }
@@ -81,8 +83,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     arena->length = size;
 
     // initialize the first header
-    arena->base->length = (uint32_t)(size & 0x00FFFFFF) - HEADER_SIZE;
-    arena->base->flags  = 0;
+    arena->base->length = (uint32_t)(size - HEADER_SIZE);
     arena->base->allocated = 0;
 
     *arenaOut = arena;
@@ -106,7 +107,6 @@ static inline void create_header(void* memory, uint32_t size)
     struct gracht_header* header = memory;
     header->length = size - HEADER_SIZE;
     header->allocated = 0;
-    header->flags = 0;
 }
 
 static inline void move_header(struct gracht_header* header, long byteCount)
@@ -117,24 +117,37 @@ static inline void move_header(struct gracht_header* header, long byteCount)
     memmove(target, header, HEADER_SIZE);
 }
 
+// the last block ends where the arena ends and has no next header
+static inline struct gracht_header* next_header(struct gracht_arena* arena, struct gracht_header* header)
+{
+    struct gracht_header* next = GET_NEXT_HEADER(header);
+    if ((char*)next >= (char*)arena->base + arena->length) {
+        return NULL;
+    }
+    return next;
+}
+
 static inline struct gracht_header* find_free_header(struct gracht_arena* arena, uint32_t size)
 {
-    struct gracht_header* itr    = arena->base;
-    uint32_t              length = 0;
+    struct gracht_header* itr = arena->base;
 
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
-    while (length < arena->length) {
+    while (itr) {
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
-        if (!itr->allocated && itr->length >= size) {
-            return itr;
-        }
-
-        if (!itr->length) {
-            break;
+        if (!itr->allocated) {
+            // merge with the free blocks that follow, they were not merged when they were
+            // freed if the blocks were freed in address order
+            struct gracht_header* next = next_header(arena, itr);
+            while (next && !next->allocated) {
+                itr->length += next->length + HEADER_SIZE;
+                next = next_header(arena, itr);
+            }
+
+            if (itr->length >= size) {
+                return itr;
+            }
         }
-
-        length += itr->length;
-        itr = GET_NEXT_HEADER(itr);
+        itr = next_header(arena, itr);
     }
     return NULL;
 }
@@ -142,27 +155,35 @@ static inline struct gracht_header* find_free_header(struct gracht_arena* arena,
 void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t size)
 {
     struct gracht_header* allocHeader;
-    uint32_t              correctedSize = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              correctedSize = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_allocate(arena=0x%p, allocation=0x%p, size=%u)"), arena, allocation, correctedSize);
 
-    if (!arena || !size) {
+    if (!arena || !size || size > arena->length) {
         return NULL;
     }
 
     mtx_lock(&arena->mutex);
     if (allocation) {
         struct gracht_header* header     = GET_HEADER(allocation);
-        struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
+        struct gracht_header* nextHeader = next_header(arena, header);
 
-        if (!nextHeader || nextHeader->allocated) {
-            // we must reallocate the memory space to somewhere else
-            correctedSize += header->length;
-
-            allocHeader = find_free_header(arena, correctedSize);
-            memcpy(&allocHeader->payload[0], &header->payload[0], header->length);
+        if (!nextHeader || nextHeader->allocated || (nextHeader->length + HEADER_SIZE) < correctedSize) {
+            void* relocated;
 
-            // what consequences could this call have
-            gracht_arena_free(arena, allocation, header->length);
+            // we must reallocate the memory space to somewhere else
+            relocated = gracht_arena_allocate(arena, NULL, (size_t)header->length + correctedSize);
+            if (relocated) {
+                memcpy(relocated, &header->payload[0], header->length);
+                gracht_arena_free(arena, allocation, 0);
+            }
+            mtx_unlock(&arena->mutex);
+            return relocated;
+        }
+        else if ((nextHeader->length + HEADER_SIZE) - correctedSize < ALLOCATION_SPILLOVER_THRESHOLD) {
+            // too little would be left of the next block, take it all
+            header->length += nextHeader->length + HEADER_SIZE;
+            mtx_unlock(&arena->mutex);
+            return &header->payload[0];
         }
         else {
             // we are able to safely extend the current allocation
@@ -195,7 +216,7 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
 
     // update current header
     allocHeader->allocated = 1;
-    allocHeader->length = (uint32_t)(correctedSize & 0x00FFFFFF);
+    allocHeader->length = correctedSize;
     GRTRACE(GRSTR("gracht_arena_allocate returns=%p"), &allocHeader->payload[0]);
     mtx_unlock(&arena->mutex);
     return &allocHeader->payload[0];
@@ -205,7 +226,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 {
     struct gracht_header* header;
     struct gracht_header* nextHeader;
-    uint32_t              allocLength = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              allocLength = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_free(arena=0x%p, memory=0x%p, size=%u)"), arena, memory, allocLength);
 
     if (!arena || !memory) {
@@ -214,11 +235,11 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
     mtx_lock(&arena->mutex);
     header     = GET_HEADER(memory);
-    nextHeader = GET_NEXT_HEADER(header);
+    nextHeader = next_header(arena, header);
 
     // currently we only merge in forward direction, to merge in backwards
     // direction without iterating we need to add an allocation footer
-    if (allocLength != 0 && header->length != allocLength) {
+    if (allocLength != 0 && allocLength < header->length) {
         // must free atleast enough, otherwise skip partial-free operation
         if (allocLength < sizeof(struct gracht_header)) {
             mtx_unlock(&arena->mutex);
@@ -231,7 +252,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
         // either we must adjust the header link or create a new
         // based on whether its free or not
-        if (!nextHeader->allocated) {
+        if (nextHeader && !nextHeader->allocated) {
             long negated = 0 - (long)allocLength;
             GRTRACE(GRSTR("%p=moving by %li bytes"), nextHeader, negated);
 
@@ -246,7 +267,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
     }
     else {
         header->allocated = 0;
-        if (!nextHeader->allocated) {
+        if (nextHeader && !nextHeader->allocated) {
             header->length += nextHeader->length + HEADER_SIZE;
         }
     }
-- 
2.43.0


From 94f348d00f442e909995c8954937b3bee95609c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 02/56] fix: lock-free stack loses and duplicates buffers when
 pushed concurrently or grown

---
 include/stack.h |  9 ++++---
 runtime/stack.c | 69 ++++++++++++++-----------------------------------
 2 files changed, 25 insertions(+), 53 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 3ae0581..71a3a08 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -20,13 +20,14 @@
 #ifndef __GRACHT_STACK_H__
 #define __GRACHT_STACK_H__
 
-#include "gatomic.h"
+#include "thread_api.h"
 #include <stddef.h>
 
 struct stack {
-    atomic_uintptr_t elements;
-    atomic_uint      index;
-    size_t           count;
+    void** elements;
+    size_t index;
+    size_t count;
+    mtx_t  lock;
 };
 
 int   stack_construct(struct stack* stack, size_t initialCount);
diff --git a/runtime/stack.c b/runtime/stack.c
index 7014364..60a13e8 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -14,35 +14,28 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Thread-safe stack implementation
  */
 
 #include <errno.h>
 #include "stack.h"
-#include <stdint.h>
 #include <stdlib.h>
-#include <string.h>
-
-#ifdef _WIN32
-typedef uintptr_t uint_loaded_t;
-#else
-typedef unsigned int uint_loaded_t;
-#endif
 
 int stack_construct(struct stack* stack, size_t initialCount)
 {
-    uintptr_t space;
+    void** space;
     if (!stack || !initialCount) {
         errno = EINVAL;
         return -1;
     }
 
-    space = (uintptr_t)malloc(sizeof(uintptr_t) * initialCount);
+    space = malloc(sizeof(void*) * initialCount);
     if (!space) {
         errno = ENOMEM;
         return -1;
     }
 
+    mtx_init(&stack->lock, mtx_plain);
     stack->elements = space;
     stack->index    = 0;
     stack->count    = initialCount;
@@ -55,71 +48,49 @@ void stack_destroy(struct stack* stack)
         return;
     }
 
-    free((void*)atomic_load(&stack->elements));
+    mtx_destroy(&stack->lock);
+    free(stack->elements);
 }
 
-int stack_resize(struct stack* stack, size_t newSize)
+static int stack_resize(struct stack* stack, size_t newSize)
 {
-    uintptr_t original = atomic_load(&stack->elements);
-    uintptr_t resized  = (uintptr_t)malloc(sizeof(uintptr_t) * newSize);
-    int       result;
+    void** resized = realloc(stack->elements, sizeof(void*) * newSize);
 
     if (!resized) {
         errno = ENOMEM;
         return -1;
     }
 
-    memcpy((void*)resized, (const void*)original, sizeof(uintptr_t) * stack->count);
-    
-    result = atomic_compare_exchange_strong(&stack->elements, &original, resized);
-    if (!result) {
-        // try again, someone else beat us to it
-        free((void*)resized);
-        return 0;
-    }
-
-    stack->count = newSize;
+    stack->elements = resized;
+    stack->count    = newSize;
     return 0;
 }
 
 void stack_push(struct stack* stack, void* pointer)
 {
-    uint_loaded_t index;
-
     if (!stack || !pointer) {
         return;
     }
 
-perform_push:
-    index = atomic_fetch_add(&stack->index, 1);
-    if (index >= stack->count) {
-        if (stack_resize(stack, stack->count * 2)) {
-            return;
-        }
-        goto perform_push;
+    mtx_lock(&stack->lock);
+    if (stack->index < stack->count || !stack_resize(stack, stack->count * 2)) {
+        stack->elements[stack->index++] = pointer;
     }
-
-    ((uintptr_t*)atomic_load(&stack->elements))[index] = (uintptr_t)pointer;
+    mtx_unlock(&stack->lock);
 }
 
 void* stack_pop(struct stack* stack)
 {
-    uint_loaded_t index;
-    int           result;
+    void* pointer = NULL;
 
     if (!stack) {
         return NULL;
     }
 
-perform_pop:
-    index = atomic_load(&stack->index);
-    if (!index) {
-        return NULL;
-    }
-
-    result = atomic_compare_exchange_strong(&stack->index, &index, index - 1);
-    if (!result) {
-        goto perform_pop;
+    mtx_lock(&stack->lock);
+    if (stack->index) {
+        pointer = stack->elements[--stack->index];
     }
-    return (void*)((uintptr_t*)atomic_load(&stack->elements))[index - 1];
+    mtx_unlock(&stack->lock);
+    return pointer;
 }
-- 
2.43.0


From da43f531bd7ad888b4cc0a587c4c44b769e5ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 03/56] fix: worker pool drops messages when a queue is full,
 crashes on spurious wakeups and misses shutdown

---
 runtime/dispatch_generic.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 3f76a4d..87a224c 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -37,6 +37,7 @@ struct gracht_worker {
     mtx_t           sync_object;
     struct gr_queue job_queue;
     cnd_t           signal;
+    cnd_t           space;
     int             state;
 };
 
@@ -103,8 +104,10 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 
     // destroy pool of workers
     for (i = 0; i < pool->worker_count; i++) {
+        mtx_lock(&pool->workers[i].sync_object);
         pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
         cnd_signal(&pool->workers[i].signal);
+        mtx_unlock(&pool->workers[i].sync_object);
 
         // wait for cleanup
         thrd_join(pool->workers[i].id, &exitCode);
@@ -126,7 +129,10 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
 
     worker = &pool->workers[pool->rr_index];
     mtx_lock(&worker->sync_object);
-    gr_queue_enqueue(&worker->job_queue, recvMessage);
+    while (gr_queue_enqueue(&worker->job_queue, recvMessage)) {
+        // the queue is full, wait for the worker to catch up instead of losing the message
+        cnd_wait(&worker->space, &worker->sync_object);
+    }
     mtx_unlock(&worker->sync_object);
     cnd_signal(&worker->signal);
 
@@ -153,6 +159,7 @@ static void initialize_worker(struct gracht_server* server, struct gracht_worker
     gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
+    cnd_init(&worker->space);
     worker->state = WORKER_STARTUP;
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
@@ -164,6 +171,7 @@ static void cleanup_worker(struct gracht_worker* worker)
 {
     mtx_destroy(&worker->sync_object);
     cnd_destroy(&worker->signal);
+    cnd_destroy(&worker->space);
     gr_queue_destroy(&worker->job_queue);
 }
 
@@ -175,21 +183,17 @@ static int worker_dowork(void* context)
     GRTRACE(GRSTR("worker_dowork: running"));
 
     worker = workerContext->worker;
-    worker->state = WORKER_ALIVE;
-    while (1) {
-        mtx_lock(&worker->sync_object);
+    mtx_lock(&worker->sync_object);
+    if (worker->state == WORKER_STARTUP) {
+        worker->state = WORKER_ALIVE;
+    }
+    while (worker->state != WORKER_SHUTDOWN_REQUEST) {
         job = gr_queue_dequeue(&worker->job_queue);
         if (!job) {
             cnd_wait(&worker->signal, &worker->sync_object);
-            if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-                worker->state = WORKER_SHUTDOWN;
-                mtx_unlock(&worker->sync_object);
-                break;
-            }
-
-            job = gr_queue_dequeue(&worker->job_queue);
-            // assert(job_header != NULL);
+            continue;
         }
+        cnd_signal(&worker->space);
         mtx_unlock(&worker->sync_object);
 
         // handle the job
@@ -197,12 +201,10 @@ static int worker_dowork(void* context)
         server_invoke_action(workerContext->server, job);
         server_cleanup_message(workerContext->server, job);
 
-        // check again at exit of iteration
-        if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-            worker->state = WORKER_SHUTDOWN;
-            break;
-        }
+        mtx_lock(&worker->sync_object);
     }
+    worker->state = WORKER_SHUTDOWN;
+    mtx_unlock(&worker->sync_object);
     GRTRACE(GRSTR("worker_dowork: shutting down"));
 
     job = gr_queue_dequeue(&worker->job_queue);
-- 
2.43.0


From 624f9fdc0b504007509dab208b771e014fd84320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 04/56] fix: server dereferences NULL and keeps its lock when
 receive memory is exhausted, and leaks receive buffers

---
 runtime/server.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index dd6a2bb..0139afc 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -293,7 +293,7 @@ static struct gracht_message* get_in_buffer_st(struct gracht_server* server)
 {
     struct gracht_message* message = (struct gracht_message*)server->recvBuffer;
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
@@ -322,8 +322,12 @@ static void dispatch_mt(struct gracht_server* server, struct gracht_message* mes
     else {
         uint32_t messageLength  = *((uint32_t*)&message->payload[message->index + MSG_INDEX_LEN]);
         uint32_t metaDatalength = sizeof(struct gracht_message) + message->index;
+        uint32_t unusedLength   = server->allocationSize - messageLength - metaDatalength;
 
-        gracht_arena_free(server->arena, message, server->allocationSize - messageLength - metaDatalength);
+        // zero would mean freeing the entire message
+        if (unusedLength) {
+            gracht_arena_free(server->arena, message, unusedLength);
+        }
         gracht_worker_pool_dispatch(server->worker_pool, message);
     }
 }
@@ -332,14 +336,17 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 {
     struct gracht_message* message;
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
+    if (!message) {
+        return NULL;
+    }
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
 static void put_message_mt(struct gracht_server* server, struct gracht_message* message)
 {
-    gracht_arena_free(server->arena, message, server->allocationSize);
+    gracht_arena_free(server->arena, message, 0);
 }
 
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
@@ -349,6 +356,11 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
     
     while (1) {
         struct gracht_message* message = server->ops->get_incoming_buffer(server);
+        if (!message) {
+            // leave it on the link untill the workers have caught up
+            errno = ENOMEM;
+            return -1;
+        }
 
         status = link->ops.server.recv(link, message, 0);
         if (status) {
@@ -393,7 +405,8 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
         while (entry) {
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
-                GRERROR(GRSTR("handle_client_event ran out of receiving buffers"));
+                // leave it on the link untill the workers have caught up
+                rwlock_r_unlock(&server->clients_lock);
                 errno = ENOMEM;
                 return -1;
             }
-- 
2.43.0


From 341881fcdb0916186904e987838c0096a39c8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 05/56] fix: server leaks the send buffer when the receiving
 client is gone

---
 runtime/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index 0139afc..08ea02a 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -659,6 +659,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         rwlock_r_unlock(&messageContext->server->clients_lock);
         link = get_link_by_conn(messageContext->server, messageContext->link);
         if (!link) {
+            stack_push(&messageContext->server->bufferStack, message->data);
             errno = ENODEV;
             return -1;
         }
@@ -691,6 +692,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
+        stack_push(&server->bufferStack, message->data);
         errno = ENOENT;
         return -1;
     }
-- 
2.43.0


From 348b896e723d0404d23a9669a1d134c87167e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 06/56] fix: undefined shift for the subscription bit of
 services 31, 63, ..

---
 runtime/server.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 08ea02a..2a01cf8 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -823,7 +823,7 @@ static void client_subscribe(struct gracht_server_client* client, uint8_t id)
         return;
     }
 
-    client->subscriptions[block] |= (1 << offset);
+    client->subscriptions[block] |= (1u << offset);
 }
 
 static void client_unsubscribe(struct gracht_server_client* client, uint8_t id)
@@ -837,14 +837,14 @@ static void client_unsubscribe(struct gracht_server_client* client, uint8_t id)
         return;
     }
 
-    client->subscriptions[block] &= ~(1 << offset);
+    client->subscriptions[block] &= ~(1u << offset);
 }
 
 static int client_is_subscribed(struct gracht_server_client* client, uint8_t id)
 {
     int block  = id / 32;
     int offset = id % 32;
-    return (client->subscriptions[block] & (1 << offset)) != 0;
+    return (client->subscriptions[block] & (1u << offset)) != 0;
 }
 
 // Server control protocol implementation
-- 
2.43.0


From 4b1f203b56eee14a87454ac502f5a6046d5993b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 07/56] fix: data race on the server state between a shutdown
 request and the server thread

---
 runtime/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index 2a01cf8..8cc236a 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -23,6 +23,7 @@
 #include <errno.h>
 #include "aio.h"
 #include "arena.h"
+#include "gatomic.h"
 #include "logging.h"
 #include "gracht/server.h"
 #include "thread_api.h"
@@ -69,7 +70,7 @@ enum server_state {
 };
 
 typedef struct gracht_server {
-    enum server_state              state;
+    atomic_uint                    state; // enum server_state, shutdown is requested from any thread
     struct server_operations*      ops;
     struct gracht_server_callbacks callbacks;
     struct gracht_worker_pool*     worker_pool;
-- 
2.43.0


From 0f6a97aeb036aa7ea4bfa096089b9bdc30c9f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 08/56] fix: requests sent before a disconnect are lost,
 disconnects are announced for unknown clients and subscriptions race with
 broadcasts

---
 runtime/server.c | 75 +++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 8cc236a..36419f1 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -393,38 +393,41 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
     int status;
     GRTRACE(GRSTR("handle_client_event %" F_CONN_T ", 0x%x"), handle, events);
     
-    // Check for control event. On non-passive sockets, control event is the
-    // disconnect event.
-    if (events & GRACHT_AIO_EVENT_DISCONNECT) {
-        client_destroy(server, handle);
-    }
-    else if ((events & GRACHT_AIO_EVENT_IN) || !events) {
+    if ((events & (GRACHT_AIO_EVENT_IN | GRACHT_AIO_EVENT_DISCONNECT)) || !events) {
         struct client_wrapper* entry;
+        struct client_wrapper  client;
         
+        // only this thread adds or removes clients, so the client stays valid after releasing
+        // the lock. We must not hold it while dispatching messages, as those may change the client.
         rwlock_r_lock(&server->clients_lock);
         entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = handle });
+        if (entry) {
+            client = *entry;
+        }
+        rwlock_r_unlock(&server->clients_lock);
+
         while (entry) {
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
                 // leave it on the link untill the workers have caught up
-                rwlock_r_unlock(&server->clients_lock);
                 errno = ENOMEM;
                 return -1;
             }
             
-            status = entry->link->ops.server.recv_client(entry->client, message, 0);
+            status = client.link->ops.server.recv_client(client.client, message, 0);
             if (status) {
+                int reason = errno;
                 server->ops->put_message(server, message);
-                rwlock_r_unlock(&server->clients_lock);
 
                 // silence the three below error codes, those are expected
-                if (errno != ENODATA && errno != EAGAIN && errno != EFAULT) {
-                    GRERROR(GRSTR("handle_client_event server_object.link->recv_client returned %i"), errno);
+                if (reason != ENODATA && reason != EAGAIN && reason != EFAULT) {
+                    GRERROR(GRSTR("handle_client_event server_object.link->recv_client returned %i"), reason);
                 }
 
                 // detect cases of disconnection or transmission failures that are fatal.
-                // in these cases we expect the underlying link to specify EFAULT
-                if (errno == EFAULT) {
+                // in these cases we expect the underlying link to specify EFAULT. Messages that were
+                // sent before a disconnect must be handled before the client is destroyed.
+                if (reason == EFAULT || (events & GRACHT_AIO_EVENT_DISCONNECT)) {
                     GRTRACE(GRSTR("handle_client_event client disconnected, cleaning up"));
                     client_destroy(server, handle);
                 }
@@ -433,7 +436,6 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
 
             server->ops->dispatch(server, message);
         }
-        rwlock_r_unlock(&server->clients_lock);
     }
     return 0;
 }
@@ -800,6 +802,13 @@ static void client_destroy(struct gracht_server* server, gracht_conn_t client)
 {
     struct client_wrapper* entry;
 
+    rwlock_r_lock(&server->clients_lock);
+    entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
+    rwlock_r_unlock(&server->clients_lock);
+    if (!entry) {
+        return;
+    }
+
     if (server->callbacks.clientDisconnected) {
         server->callbacks.clientDisconnected(client);
     }
@@ -859,46 +868,34 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
     // that connection-less clients aren't considered connected unless they subscribe to some protocol - even
     // if they actually use the functions provided by the protocol. It is also possible to receive targetted
     // events that come in response to a function call even without subscribing.
-    rwlock_r_lock(&message->server->clients_lock);
+    // Subscriptions are read by any thread that broadcasts events, so the write-lock is needed to change them.
+    rwlock_w_lock(&message->server->clients_lock);
     entry = gr_hashtable_get(&message->server->clients, &(struct client_wrapper){ .handle = message->client });
     if (!entry) {
-        // So, client did not have a record, at this point we then know this message was received on a 
-        // connection-less stream, meaning we do not currently hold another _read_lock on this thread, thus we can
-        // release our reader lock and acqurie the write-lock
-        rwlock_r_unlock(&message->server->clients_lock);
-
         // lookup the connection as the client wasn't recorded on a specific link
         newEntry.link = get_link_by_conn(message->server, message->link);
-        if (newEntry.link->ops.server.create_client(newEntry.link, (struct gracht_message*)message, &newEntry.client)) {
+        if (!newEntry.link ||
+            newEntry.link->ops.server.create_client(newEntry.link, (struct gracht_message*)message, &newEntry.client)) {
+            rwlock_w_unlock(&message->server->clients_lock);
             GRERROR(GRSTR("gracht_control_subscribe_invocation server_object.link->create_client returned error"));
             return;
         }
 
         newEntry.handle = message->client;
-
-        // this does not have to be serialized with the above read lock due to the fact that all
-        // write-locks are only acquired by this thread. So any changes made are only the ones we make
-        // right now
-        rwlock_w_lock(&message->server->clients_lock);
+        client_subscribe(newEntry.client, protocol);
         gr_hashtable_set(&message->server->clients, &newEntry);
         rwlock_w_unlock(&message->server->clients_lock);
 
         if (message->server->callbacks.clientConnected) {
             message->server->callbacks.clientConnected(message->client);
         }
-
-        // not really neccessary but for correctness
-        rwlock_r_lock(&message->server->clients_lock);
-        
-        // set the entry pointer
-        entry = &newEntry;
-    } else {
-        // make sure if they were marked cleanup that we remove that
-        entry->client->flags &= ~(GRACHT_CLIENT_FLAG_CLEANUP);
+        return;
     }
 
+    // make sure if they were marked cleanup that we remove that
+    entry->client->flags &= ~(GRACHT_CLIENT_FLAG_CLEANUP);
     client_subscribe(entry->client, protocol);
-    rwlock_r_unlock(&message->server->clients_lock);
+    rwlock_w_unlock(&message->server->clients_lock);
 }
 
 void gracht_control_unsubscribe_invocation(const struct gracht_message* message, const uint8_t protocol)
@@ -906,10 +903,10 @@ void gracht_control_unsubscribe_invocation(const struct gracht_message* message,
     struct client_wrapper* entry;
     int                    cleanup = 0;
     
-    rwlock_r_lock(&message->server->clients_lock);
+    rwlock_w_lock(&message->server->clients_lock);
     entry = gr_hashtable_get(&message->server->clients, &(struct client_wrapper){ .handle = message->client });
     if (!entry) {
-        rwlock_r_unlock(&message->server->clients_lock);
+        rwlock_w_unlock(&message->server->clients_lock);
         return;
     }
 
@@ -923,7 +920,7 @@ void gracht_control_unsubscribe_invocation(const struct gracht_message* message,
             cleanup = 1;
         }
     }
-    rwlock_r_unlock(&message->server->clients_lock);
+    rwlock_w_unlock(&message->server->clients_lock);
 
     // when receiving unsubscribe events on connection-less links we must check
     // after handling messages whether a client has been marked for cleanup
-- 
2.43.0


From f00d654867943351a5cba90534d0f9c1f2b41886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:33 +0000
Subject: [PATCH 09/56] fix: malformed lengths overrun the receive buffers and
 messages arriving in pieces block the server or garble the stream

---
 runtime/link/socket/client.c    | 28 ++--------------
 runtime/link/socket/server.c    | 33 +++++++++++--------
 runtime/link/socket/shared.c    | 57 +++++++++++++++++++++++++++++++++
 runtime/link/socket/socket_os.h | 12 +++++++
 4 files changed, 91 insertions(+), 39 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 79c1dbd..82ba966 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -47,33 +47,10 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
 static int socket_link_recv_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message, unsigned int flags)
 {
-    size_t   bytesRead;
-    uint32_t missingData;
-    
-    GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
-    bytesRead = recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytesRead == 0) {
-            errno = (ENODATA);
-        }
-        else {
-            errno = (EPIPE);
-        }
+    GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message"));
+    if (socket_recv_message(link->base.connection, &link->partial, &message->data[0], message->index, (int)flags)) {
         return -1;
     }
-    
-    missingData = *((uint32_t*)&message->data[4]) - GRACHT_MESSAGE_HEADER_SIZE;
-    if (missingData) {
-        GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
-        bytesRead = recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
-        if (bytesRead != missingData) {
-            // do not process incomplete requests
-            GRERROR(GRSTR("[gracht_connection_recv_message] did not read full amount of bytes (%u, expected %u)"),
-                  (uint32_t)bytesRead, missingData);
-            errno = (EPIPE);
-            return -1; 
-        }
-    }
 
     message->index = 0;
     return 0;
@@ -201,6 +178,7 @@ static void socket_link_destroy(struct gracht_link_socket* link)
     if (link->base.connection != GRACHT_CONN_INVALID) {
         close(link->base.connection);
     }
+    free(link->partial.data);
     free(link);
 }
 
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 01ccb1f..9ac0c34 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -37,6 +37,7 @@ struct socket_link_client {
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
+    struct socket_partial       partial;
 #ifdef _WIN32
     WSABUF                      waitbuf;
     uint8_t                     headerbuf[GRACHT_MESSAGE_HEADER_SIZE];
@@ -120,12 +121,10 @@ static int socket_link_send_client(struct socket_link_client* client,
 static int socket_link_recv_client(struct socket_link_client* client,
     struct gracht_message* context, unsigned int flags)
 {
-    unsigned int socketFlags = get_socket_flags(flags);
-    intmax_t     bytesRead;
-    uint32_t     missingData;
-    
     GRTRACE(GRSTR("socket_link_recv_client reading message header"));
 #ifdef _WIN32
+    intmax_t bytesRead;
+    uint32_t missingData;
     DWORD overlappedFlags;
     DWORD overlappedLength;
     BOOL  status;
@@ -153,18 +152,14 @@ static int socket_link_recv_client(struct socket_link_client* client,
             return -1;
         }
     }
-#else
-    bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytesRead == 0) {
-            errno = ENODATA;
-        }
-        return -1;
-    }
-#endif
-    
+
     GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
         *((uint32_t*)&context->payload[0]), *((uint32_t*)&context->payload[4]));
+    if (*((uint32_t*)&context->payload[4]) < GRACHT_MESSAGE_HEADER_SIZE ||
+        *((uint32_t*)&context->payload[4]) > context->index) {
+        errno = EFAULT;
+        return -1;
+    }
     missingData = *((uint32_t*)&context->payload[4]) - GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
@@ -178,6 +173,14 @@ static int socket_link_recv_client(struct socket_link_client* client,
             return -1;
         }
     }
+#else
+    // the rest of the message may not have been sent yet, so never wait for it as that would
+    // block all other clients
+    if (socket_recv_message(client->base.handle, &client->partial, (char*)&context->payload[0],
+            context->index, (int)get_socket_flags(flags))) {
+        return -1;
+    }
+#endif
 
     // ->server is set by server
     context->link   = client->link;
@@ -244,6 +247,7 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         }
     }
     status = close(client->base.handle);
+    free(client->partial.data);
     free(client);
     return status;
 }
@@ -414,6 +418,7 @@ static int socket_link_accept(
         return -1;
     }
     client->base.handle = client->socket;
+    client->link        = link->base.connection;
     client->streaming   = 1;
     
     status = socket_aio_add(set_handle, client->socket);
diff --git a/runtime/link/socket/shared.c b/runtime/link/socket/shared.c
index 0e2c903..b600d13 100644
--- a/runtime/link/socket/shared.c
+++ b/runtime/link/socket/shared.c
@@ -63,6 +63,63 @@ int gracht_link_socket_cleanup(void)
 extern void gracht_link_client_socket_api(struct gracht_link_socket* link);
 extern void gracht_link_server_socket_api(struct gracht_link_socket* link);
 
+int socket_recv_message(gracht_conn_t socket, struct socket_partial* partial, char* buffer, uint32_t capacity, int flags)
+{
+    uint32_t received = partial->length;
+    uint32_t expected = GRACHT_MESSAGE_HEADER_SIZE;
+
+    // continue where we left off
+    if (received) {
+        memcpy(buffer, partial->data, received);
+    }
+
+    while (1) {
+        long bytesRead;
+
+        if (received >= GRACHT_MESSAGE_HEADER_SIZE) {
+            expected = *((uint32_t*)&buffer[MSG_INDEX_LEN]);
+            if (expected < GRACHT_MESSAGE_HEADER_SIZE || expected > capacity) {
+                errno = EFAULT;
+                return -1;
+            }
+
+            if (received == expected) {
+                break;
+            }
+        }
+
+        bytesRead = (long)recv(socket, &buffer[received], expected - received, flags);
+        if (bytesRead <= 0) {
+            int   reason = bytesRead == 0 ? ENODATA : errno;
+            char* data;
+
+            if (reason == EINTR) {
+                continue;
+            }
+
+            // keep what has been received untill the rest arrives
+            if (received > partial->length) {
+                data = realloc(partial->data, received);
+                if (!data) {
+                    errno = EFAULT;
+                    return -1;
+                }
+                memcpy(data, buffer, received);
+                partial->data   = data;
+                partial->length = received;
+            }
+            errno = reason;
+            return -1;
+        }
+        received += (uint32_t)bytesRead;
+    }
+
+    free(partial->data);
+    partial->data   = NULL;
+    partial->length = 0;
+    return 0;
+}
+
 int gracht_link_socket_create(struct gracht_link_socket** linkOut)
 {
     struct gracht_link_socket* link;
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index 48cc463..46f477c 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -144,12 +144,24 @@ static inline void __set_nonblocking_if_needed(gracht_conn_t socket, unsigned in
 
 #endif
 
+// the part of a message that has been received so far on a stream socket
+struct socket_partial {
+    char*    data;
+    uint32_t length;
+};
+
+// receives one message from a stream socket. Fails with EAGAIN untill all of the message has been
+// received, with ENODATA if the connection was closed, and with EFAULT if the data is not a message
+// that fits into the buffer.
+int socket_recv_message(gracht_conn_t socket, struct socket_partial* partial, char* buffer, uint32_t capacity, int flags);
+
 struct gracht_link_socket {
     struct gracht_link      base;
     int                     listen;
     int                     domain;
     struct sockaddr_storage address;
     socklen_t               address_length;
+    struct socket_partial   partial;
 #ifdef _WIN32
     WSABUF                  waitbuf;
     DWORD                   recvFlags;
-- 
2.43.0


From 9b49d0427adf86c84e68959a3b50571986cba1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 10/56] fix: sending to a closed connection kills the process,
 and partial or concurrent sends garble the stream

---
 runtime/link/socket/client.c    |  8 ++------
 runtime/link/socket/server.c    | 19 ++++++++++++-------
 runtime/link/socket/shared.c    | 18 ++++++++++++++++++
 runtime/link/socket/socket_os.h |  5 +++++
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 82ba966..a938f5f 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -32,12 +32,8 @@
 static int socket_link_send_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message)
 {
-    long byteCount;
-    
-    byteCount = (long)send(link->base.connection, &message->data[0], message->index, 0);
-    if ((uint32_t)byteCount != message->index) {
-        GRERROR(GRSTR("link_client: failed to send message, bytes sent: %li, expected: %u (%i)"),
-              byteCount, message->index, errno);
+    if (socket_send_message(link->base.connection, &message->data[0], message->index, 0)) {
+        GRERROR(GRSTR("link_client: failed to send message of %u bytes (%i)"), message->index, errno);
         errno = (EPIPE);
         return -1;
     }
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 9ac0c34..ea53e00 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -26,6 +26,7 @@
 #include "logging.h"
 #include "crc.h"
 #include "server_private.h"
+#include "thread_api.h"
 #include <stdlib.h>
 #include <string.h>
 
@@ -38,6 +39,7 @@ struct socket_link_client {
     gracht_conn_t               link;
     int                         streaming;
     struct socket_partial       partial;
+    mtx_t                       send_lock;
 #ifdef _WIN32
     WSABUF                      waitbuf;
     uint8_t                     headerbuf[GRACHT_MESSAGE_HEADER_SIZE];
@@ -69,6 +71,7 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
 
     client->base.handle = client->socket;
     client->streaming   = 1;
+    mtx_init(&client->send_lock, mtx_plain);
     client->waitbuf.buf = &client->headerbuf[0];
     client->waitbuf.len = GRACHT_MESSAGE_HEADER_SIZE;
 
@@ -103,19 +106,18 @@ static unsigned int get_socket_flags(unsigned int flags)
 static int socket_link_send_client(struct socket_link_client* client,
     struct gracht_buffer* message, unsigned int flags)
 {
-    unsigned int socketFlags = get_socket_flags(flags);
-    intmax_t     bytesWritten;
+    int status;
 
 #ifdef _WIN32
     __set_nonblocking_if_needed(client->base.handle, flags);
 #endif
 
+    // messages are sent from any thread, and large messages are not sent at once by the socket
     GRTRACE(GRSTR("[socket_link_send] sending message"));
-    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
-    if (bytesWritten != message->index) {
-        return -1;
-    }
-    return 0;
+    mtx_lock(&client->send_lock);
+    status = socket_send_message(client->base.handle, &message->data[0], message->index, (int)get_socket_flags(flags));
+    mtx_unlock(&client->send_lock);
+    return status;
 }
 
 static int socket_link_recv_client(struct socket_link_client* client,
@@ -222,6 +224,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     client->base.handle = message->client;
     client->socket      = link->base.connection;
     client->streaming   = 0;
+    mtx_init(&client->send_lock, mtx_plain);
 
     address = (struct sockaddr_storage*)&message->payload[0];
     memcpy(&client->address, address, (size_t)link->address_length);
@@ -247,6 +250,7 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         }
     }
     status = close(client->base.handle);
+    mtx_destroy(&client->send_lock);
     free(client->partial.data);
     free(client);
     return status;
@@ -420,6 +424,7 @@ static int socket_link_accept(
     client->base.handle = client->socket;
     client->link        = link->base.connection;
     client->streaming   = 1;
+    mtx_init(&client->send_lock, mtx_plain);
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
diff --git a/runtime/link/socket/shared.c b/runtime/link/socket/shared.c
index b600d13..6e0e0c5 100644
--- a/runtime/link/socket/shared.c
+++ b/runtime/link/socket/shared.c
@@ -120,6 +120,24 @@ int socket_recv_message(gracht_conn_t socket, struct socket_partial* partial, ch
     return 0;
 }
 
+int socket_send_message(gracht_conn_t socket, const char* buffer, uint32_t length, int flags)
+{
+    uint32_t sent = 0;
+
+    while (sent < length) {
+        long bytesSent = (long)send(socket, &buffer[sent], length - sent, flags | MSG_NOSIGNAL);
+        if (bytesSent < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            return -1;
+        }
+        sent  += (uint32_t)bytesSent;
+        flags &= ~MSG_DONTWAIT;
+    }
+    return 0;
+}
+
 int gracht_link_socket_create(struct gracht_link_socket** linkOut)
 {
     struct gracht_link_socket* link;
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index 46f477c..be42f20 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -65,6 +65,7 @@ static int socket_aio_add(int aio, int iod) {
 #define close closesocket
 
 #define MSG_DONTWAIT 0
+#define MSG_NOSIGNAL 0
 
 struct iocp_socket {
     SOCKET              socket;
@@ -155,6 +156,10 @@ struct socket_partial {
 // that fits into the buffer.
 int socket_recv_message(gracht_conn_t socket, struct socket_partial* partial, char* buffer, uint32_t capacity, int flags);
 
+// sends all of a message on a stream socket. A message that has been sent in part must be completed
+// even if the flags does not allow it to block, otherwise everything sent afterwards is garbled.
+int socket_send_message(gracht_conn_t socket, const char* buffer, uint32_t length, int flags);
+
 struct gracht_link_socket {
     struct gracht_link      base;
     int                     listen;
-- 
2.43.0


From 19908ae7e1eac1be6da9714bc56fb5e2725a3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 11/56] fix: datagram responses and events are never sent to
 the client, and malformed datagrams are executed

---
 runtime/link/socket/client.c | 33 +++++++++++---------------
 runtime/link/socket/server.c | 46 +++++++++++++++++++++++++-----------
 2 files changed, 46 insertions(+), 33 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index a938f5f..72841d5 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -58,7 +58,7 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
     GRTRACE(GRSTR("link_client: send message (%u)"), message->index);
 
-    byteCount = send(link->base.connection, &message->data[0], message->index, 0);
+    byteCount = send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
     if (byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u"),
               (uint32_t)byteCount, message->index);
@@ -70,27 +70,22 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
 static int socket_link_recv_packet(struct gracht_link_socket* link, struct gracht_buffer* message, unsigned int flags)
 {
-    socklen_t addrlen = link->address_length;
-    char*     base    = &message->data[addrlen];
-    size_t    len     = message->index - addrlen;
-    long      bytes_read;
-    
-    message->index = addrlen;
-    
+    long bytes_read;
+
     // Packets are atomic, either the full packet is there, or none is. So avoid
-    // the use of MSG_WAITALL here.
+    // the use of MSG_WAITALL here. The socket is connected, so packets only come from the server.
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading full message"));
-    bytes_read = (long)recvfrom(link->base.connection, base, len, flags, 
-        (struct sockaddr*)&message->data[0], &addrlen);
-    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytes_read == 0) {
-            errno = (ENODATA);
+    do {
+        bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, (int)flags);
+        if (bytes_read < 0) {
+            return -1;
         }
-        else {
-            errno = (EPIPE);
-        }
-        return -1;
-    }
+
+        // discard packets that are not exactly one message
+    } while (bytes_read < GRACHT_MESSAGE_HEADER_SIZE ||
+             *((uint32_t*)&message->data[MSG_INDEX_LEN]) != (uint32_t)bytes_read);
+
+    message->index = 0;
     return 0;
 }
 
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index ea53e00..2a92dff 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -35,6 +35,7 @@
 struct socket_link_client {
     struct gracht_server_client base;
     struct sockaddr_storage     address;
+    socklen_t                   address_length;
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
@@ -114,6 +115,12 @@ static int socket_link_send_client(struct socket_link_client* client,
 
     // messages are sent from any thread, and large messages are not sent at once by the socket
     GRTRACE(GRSTR("[socket_link_send] sending message"));
+    if (!client->streaming) {
+        long bytesWritten = (long)sendto(client->socket, &message->data[0], message->index,
+            (int)get_socket_flags(flags), (const struct sockaddr*)&client->address, client->address_length);
+        return bytesWritten == (long)message->index ? 0 : -1;
+    }
+
     mtx_lock(&client->send_lock);
     status = socket_send_message(client->base.handle, &message->data[0], message->index, (int)get_socket_flags(flags));
     mtx_unlock(&client->send_lock);
@@ -223,11 +230,13 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     memset(client, 0, sizeof(struct socket_link_client));
     client->base.handle = message->client;
     client->socket      = link->base.connection;
+    client->link        = link->base.connection;
     client->streaming   = 0;
     mtx_init(&client->send_lock, mtx_plain);
 
     address = (struct sockaddr_storage*)&message->payload[0];
     memcpy(&client->address, address, (size_t)link->address_length);
+    client->address_length = link->address_length;
     
     *clientOut = client;
     return 0;
@@ -235,21 +244,22 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
 
 static int socket_link_destroy_client(struct socket_link_client* client, gracht_handle_t set_handle)
 {
-    int status;
+    int status = 0;
     
     if (!client) {
         errno = (EINVAL);
         return -1;
     }
     
-    // remove the client if the client is a streaming one
+    // remove the client if the client is a streaming one, otherwise the socket is the one of the link
+    // and the handle identifies the address of the client
     if (client->streaming) {
         status = socket_aio_remove(set_handle, client->socket);
         if (status) {
             GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
         }
+        status = close(client->base.handle);
     }
-    status = close(client->base.handle);
     mtx_destroy(&client->send_lock);
     free(client->partial.data);
     free(client);
@@ -478,19 +488,27 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
         return -1;
     }
 #else
+    intmax_t bytesRead;
+
+receivePacket:
     // Packets are atomic, either the full packet is there, or none is. So avoid
-    // the use of MSG_WAITALL here.
-    intmax_t bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
+    // the use of MSG_WAITALL here. The address may be shorter than the space we reserve for it.
+    addrlen = link->address_length;
+    memset(&context->payload[0], 0, (size_t)addrlen);
+    bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
         socketFlags, (struct sockaddr*)&context->payload[0], &addrlen);
-    if (bytesRead <= 0) {
-        if (bytesRead == 0) {
-            errno = (ENODATA);
-        }
+    if (bytesRead < 0) {
         return -1;
     }
+
+    // discard packets that are not exactly one message
+    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&base[MSG_INDEX_LEN]) != (uint32_t)bytesRead) {
+        GRWARNING(GRSTR("socket_link_recv_packet discarding malformed packet of %li bytes"), (long)bytesRead);
+        goto receivePacket;
+    }
 #endif
 
-    addressCrc = crc32_generate((const unsigned char*)&context->payload[0], (size_t)addrlen);
+    addressCrc = crc32_generate((const unsigned char*)&context->payload[0], (size_t)link->address_length);
     GRTRACE(GRSTR("socket_link_recv_packet read [%u/%u] addr bytes, %p"),
             addrlen, link->address_length, &context->payload[0]);
     GRTRACE(GRSTR("socket_link_recv_packet read %lu bytes"), bytesRead);
@@ -498,8 +516,8 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
     // ->server is set by server
     context->link   = link->base.connection;
     context->client = (int)addressCrc;
-    context->index  = addrlen;
-    context->size   = (uint32_t)bytesRead + (uint32_t)addrlen;
+    context->index  = link->address_length;
+    context->size   = (uint32_t)bytesRead + (uint32_t)link->address_length;
 
 #ifdef _WIN32
     // queue up another read
@@ -519,14 +537,14 @@ static int socket_link_send_packet(struct gracht_link_socket* link,
     struct gracht_message* messageContext, struct gracht_buffer* message)
 {
     long bytesWritten;
-    (void)messageContext;
 
     if (link->base.type != gracht_link_packet_based) {
         errno = ENOSYS;
         return -1;
     }
     
-    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL);
+    bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL,
+        (const struct sockaddr*)&messageContext->payload[0], link->address_length);
     if (bytesWritten != message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
-- 
2.43.0


From a0df36a2178bd77d7801977b460abad59b9577ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 12/56] fix: socket is leaked when a server link can not be
 bound

---
 runtime/link/socket/server.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 2a92dff..d2fb30d 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -285,7 +285,7 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            goto error;
         }
         
         status = socket_aio_add(set_handle, link->base.connection);
@@ -324,13 +324,13 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            goto error;
         }
         
         // Enable listening for connections, with a maximum of 2 on backlog
         status = listen(link->base.connection, 2);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            goto error;
         }
         
         status = socket_aio_add(set_handle, link->base.connection);
@@ -347,7 +347,9 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         return link->base.connection;
     }
     
-    errno = (ENOTSUP);
+error:
+    close(link->base.connection);
+    link->base.connection = GRACHT_CONN_INVALID;
     return GRACHT_CONN_INVALID;
 }
 
-- 
2.43.0


From 166c2602225bdd3c556eee42d61f43b6de7a4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 13/56] fix: asking for the result of a call in progress loses
 its response

---
 runtime/client.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 841eaa6..646745d 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -521,7 +521,7 @@ int gracht_client_get_status_buffer(
     
     // guard against already checked
     mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_remove(
+    descriptor = gr_hashtable_get(
             &client->messages,
             &(struct gracht_message_descriptor) {
                     .id = context->message_id
@@ -536,12 +536,22 @@ int gracht_client_get_status_buffer(
     status = descriptor->status;
     buffer->data = descriptor->buffer.data;
     buffer->index = descriptor->buffer.index;
+
+    // the descriptor must be kept untill the response has been received
+    if (status != GRACHT_MESSAGE_INPROGRESS) {
+        gr_hashtable_remove(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = context->message_id
+                }
+        );
+    }
     mtx_unlock(&client->messages_lock);
 
     // immediately cleanup the buffer if an error has ocurred
-    if (descriptor->status == GRACHT_MESSAGE_ERROR) {
-        if (descriptor->buffer.data) {
-            gracht_arena_free(client->arena, descriptor->buffer.data, 0);
+    if (status == GRACHT_MESSAGE_ERROR) {
+        if (buffer->data) {
+            gracht_arena_free(client->arena, buffer->data, 0);
         }
     }
     return status;
-- 
2.43.0


From c2194bdf06f83c82ae7a556c110b534ff0ba465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:28 +0000
Subject: [PATCH 14/56] fix: client waits return early, never return or use
 freed memory when messages are received by other threads or the connection is
 lost

---
 include/thread_api.h         |   7 +
 runtime/client.c             | 447 +++++++++++++----------------------
 runtime/link/socket/shared.c |   5 +
 3 files changed, 171 insertions(+), 288 deletions(-)

diff --git a/include/thread_api.h b/include/thread_api.h
index e50074a..fca301e 100644
--- a/include/thread_api.h
+++ b/include/thread_api.h
@@ -56,6 +56,7 @@ typedef pthread_t thrd_t;
 #define cnd_destroy   pthread_cond_destroy
 #define cnd_wait      pthread_cond_wait
 #define cnd_signal    pthread_cond_signal
+#define cnd_broadcast pthread_cond_broadcast
 
 #define thrd_join(thr, ret)          pthread_join(thr, (void**)ret)
 #define thrd_create(thrp, func, arg) pthread_create(thrp, NULL, func, arg)
@@ -109,6 +110,12 @@ static inline int cnd_signal(cnd_t* cnd)
     return thrd_success;
 }
 
+static inline int cnd_broadcast(cnd_t* cnd)
+{
+    WakeAllConditionVariable(cnd);
+    return thrd_success;
+}
+
 static inline int cnd_wait(cnd_t* cnd, mtx_t* mtx)
 {
     BOOL status = SleepConditionVariableCS(cnd, mtx, INFINITE);
diff --git a/runtime/client.c b/runtime/client.c
index 646745d..334fc98 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -39,32 +39,16 @@
 // On recieving:
 // N+M buffers. One for each event received and for each call in air
 
-struct gracht_message_awaiter {
-    uint32_t      id;
-    unsigned int  flags;
-    cnd_t         event;
-    mtx_t         mutex;
-    int           current_count;
-    int           count;
-};
-
-struct gracht_message_awaiter_entry {
-    uint32_t                       id;
-    struct gracht_message_awaiter* awaiter;
-};
-
 // descriptor | message | params
 struct gracht_message_descriptor {
     uint32_t        id;
     int             status;
-    uint32_t        awaiter_id;
     gracht_buffer_t buffer;
 };
 
 typedef struct gracht_client {
     gracht_conn_t        iod;
     uint32_t             current_message_id;
-    uint32_t             current_awaiter_id;
     struct gracht_link*  link;
     struct gracht_arena* arena;
     int                  max_message_size;
@@ -74,9 +58,9 @@ typedef struct gracht_client {
     gr_hashtable_t       protocols;
     gr_hashtable_t       messages;
     mtx_t                messages_lock;
-    gr_hashtable_t       awaiters;
-    mtx_t                awaiters_lock;
-    mtx_t                wait_lock;
+    cnd_t                messages_event; // signalled each time a message has been received
+    bool                 listening;      // whether a thread is currently listening for messages
+    bool                 disconnected;
 } gracht_client_t;
 
 #define MESSAGE_STATUS_EXECUTED(status) (status == GRACHT_MESSAGE_ERROR || status == GRACHT_MESSAGE_COMPLETED)
@@ -89,12 +73,8 @@ GRACHTAPI int gracht_client_invoke(gracht_client_t*, struct gracht_message_conte
 
 // static methods
 static uint32_t get_message_id(gracht_client_t*);
-static uint32_t get_awaiter_id(gracht_client_t*);
-static void     mark_awaiters(gracht_client_t*, uint32_t);
 static uint64_t message_hash(const void* element);
 static int      message_cmp(const void* element1, const void* element2);
-static uint64_t awaiter_hash(const void* element);
-static int      awaiter_cmp(const void* element1, const void* element2);
 
 static int __add_message(
         gracht_client_t*                   client,
@@ -196,7 +176,6 @@ static int __handle_response(
         struct gracht_buffer* buffer)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     GRTRACE(GRSTR("__handle_response()"));
 
     mtx_lock(&client->messages_lock);
@@ -206,7 +185,7 @@ static int __handle_response(
                 .id = GB_MSG_ID(buffer)
             }
     );
-    if (!descriptor) {
+    if (!descriptor || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("[gracht_client_wait_message] no-one was listening for message %u"), GB_MSG_ID(buffer));
@@ -217,194 +196,176 @@ static int __handle_response(
     descriptor->buffer.data  = buffer->data;
     descriptor->buffer.index = buffer->index + GRACHT_MESSAGE_HEADER_SIZE;
     descriptor->status = GRACHT_MESSAGE_COMPLETED;
-    awaiterID = descriptor->awaiter_id;
     mtx_unlock(&client->messages_lock);
-
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
     return 0;
 }
 
-int gracht_client_wait_message(
-        gracht_client_t*               client,
-        struct gracht_message_context* context,
-        unsigned int                   flags)
+// Receives and handles a single message, and must only be called by the thread that has set the client
+// in listening state, which is then left again. Returns 0 if a message was handled, 1 if it was ignored.
+static int __listen(
+        gracht_client_t* client,
+        unsigned int     flags)
 {
-    struct gracht_buffer buffer = { 0 };
-    uint32_t             messageId = 0;
-    uint8_t              messageFlags;
+    struct gracht_buffer buffer;
+    uint8_t              messageType = 0;
+    bool                 invoke = false;
+    int                  reason = 0;
     int                  status;
-    GRTRACE(GRSTR("gracht_client_wait_message()"));
-
-    if (!client) {
-        errno = (EINVAL);
-        return -1;
-    }
-
-    // We must acquire hold of the client mutex as the mutex must be thread-safe in case
-    // of multiple calling threads. Only one thread can listen for client events at a time, and that
-    // means all other threads must queue up and wait for the thread that listens currently.
-listenForMessage:
-    // check message status
-    if (context) {
-        struct gracht_message_descriptor* descriptor;
-
-        mtx_lock(&client->messages_lock);
-        descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                        .id = context->message_id
-                }
-        );
-        if (!descriptor) {
-            mtx_unlock(&client->messages_lock);
-            errno = ENOENT;
-            return -1;
-        }
-        if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
-            mtx_unlock(&client->messages_lock);
-            return 0;
-        }
-        mtx_unlock(&client->messages_lock);
-    }
-
-    if (mtx_trylock(&client->wait_lock) != thrd_success) {
-        if (!(flags & GRACHT_MESSAGE_BLOCK)) {
-            errno = EBUSY;
-            return -1;
-        }
-
-        if (mtx_lock(&client->wait_lock) != thrd_success) {
-            return -1;
-        }
-    }
 
-    // initialize buffer, after this point NO returning, only jump to listenOrExit
     buffer.data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
     buffer.index = client->max_message_size;
-
-    if (!buffer.data) {
-        mtx_unlock(&client->wait_lock);
+    if (buffer.data) {
+        status = client->link->ops.client.recv(client->link, &buffer, flags);
+        reason = errno;
+    } else {
         // out of memory. client should handle messages
-        errno = ENOMEM;
         status = -1;
-        goto listenOrExit;
+        reason = ENOMEM;
     }
 
-    status = client->link->ops.client.recv(client->link, &buffer, flags);
-    mtx_unlock(&client->wait_lock);
-    if (status) {
-        // In case of any recieving errors we must exit immediately
-        goto listenOrExit;
-    }
-
-    messageFlags = GB_MSG_FLG(&buffer);
+    if (!status) {
+        uint32_t unused = client->max_message_size - (buffer.index + GB_MSG_LEN(&buffer));
+        if (unused) {
+            gracht_arena_free(client->arena, buffer.data, unused);
+        }
 
-    // If the message is not an event, then do not invoke any actions. In any case if a context is provided
-    // we expect the caller wanting to listen for that specific message. That means any incoming event and/or
-    // response we recieve should be for that, or we should keep waiting.
-    GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
-            messageFlags, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
-    if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
-        status = __invoke_action(client, &buffer);
-    } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
-        status = __handle_response(client, &buffer);
-        if (status) {
-            goto listenForMessage;
+        messageType = MESSAGE_FLAG_TYPE(GB_MSG_FLG(&buffer));
+        GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
+                messageType, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
+
+        // the status of messages must be updated before any other thread is allowed to listen
+        if (messageType == MESSAGE_FLAG_RESPONSE) {
+            if (__handle_response(client, &buffer)) {
+                status = 1;
+            } else {
+                // zero the buffer pointer, so it does not get freed, freeing is now handled by
+                // the awaiter
+                buffer.data = NULL;
+            }
+        } else if (messageType == MESSAGE_FLAG_EVENT) {
+            if (GB_MSG_SID(&buffer) == SERVICE_GRACHT_CONTROL_ID) {
+                (void)__invoke_action(client, &buffer);
+            } else {
+                invoke = true;
+            }
         }
+    }
 
-        // set message id handled
-        messageId = GB_MSG_ID(&buffer);
+    mtx_lock(&client->messages_lock);
+    client->listening = false;
+    if (status == -1 && client->link->type == gracht_link_stream_based &&
+        reason != EAGAIN && reason != EWOULDBLOCK && reason != ENOMEM) {
+        client->disconnected = true;
+    }
+    cnd_broadcast(&client->messages_event);
+    mtx_unlock(&client->messages_lock);
 
-        // zero the buffer pointer, so it does not get freed, freeing is now handled by
-        // the awaiter
-        buffer.data = NULL;
+    // events are invoked when other threads can listen again, as the application may decide to take
+    // any time it wants. Events that are not supported are ignored
+    if (invoke) {
+        (void)__invoke_action(client, &buffer);
     }
 
-listenOrExit:
     if (buffer.data) {
         gracht_arena_free(client->arena, buffer.data, 0);
     }
 
-    if (context) {
-        // In case a context was provided the meaning is that we should wait
-        // for a specific message. Make sure that the message we've handled were
-        // the one that was requested.
-        if (messageId != 0 && context->message_id != messageId) {
-            goto listenForMessage;
-        }
+    if (status == -1) {
+        errno = reason;
     }
     return status;
 }
 
-static struct gracht_message_awaiter* __awaiter_new(
-        gracht_client_t* client,
-        unsigned int     flags,
-        int              contextCount)
+int gracht_client_wait_message(
+        gracht_client_t*               client,
+        struct gracht_message_context* context,
+        unsigned int                   flags)
 {
-    struct gracht_message_awaiter* awaiter;
+    int status;
+    GRTRACE(GRSTR("gracht_client_wait_message()"));
 
-    awaiter = malloc(sizeof(struct gracht_message_awaiter));
-    if (!awaiter) {
-        return NULL;
+    if (!client) {
+        errno = (EINVAL);
+        return -1;
     }
 
-    awaiter->id            = get_awaiter_id(client);
-    awaiter->flags         = flags;
-    awaiter->count         = contextCount;
-    awaiter->current_count = 0;
-    cnd_init(&awaiter->event);
-    mtx_init(&awaiter->mutex, mtx_plain);
-    return awaiter;
-}
+    // Only one thread can listen for client events at a time, and that means all other threads must queue
+    // up and wait for the thread that listens currently.
+listenForMessage:
+    mtx_lock(&client->messages_lock);
+    while (1) {
+        // check message status
+        if (context) {
+            struct gracht_message_descriptor* descriptor = gr_hashtable_get(
+                    &client->messages,
+                    &(struct gracht_message_descriptor) {
+                            .id = context->message_id
+                    }
+            );
+            if (!descriptor) {
+                mtx_unlock(&client->messages_lock);
+                errno = ENOENT;
+                return -1;
+            }
+            if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
+                mtx_unlock(&client->messages_lock);
+                return 0;
+            }
+        }
 
-static inline void __await_add(
-        gracht_client_t*               client,
-        struct gracht_message_awaiter* awaiter)
-{
-    mtx_lock(&client->awaiters_lock);
-    gr_hashtable_set(&client->awaiters, &(struct gracht_message_awaiter_entry) {
-        .id = awaiter->id,
-        .awaiter = awaiter
-    });
-    mtx_unlock(&client->awaiters_lock);
-}
+        if (client->disconnected) {
+            mtx_unlock(&client->messages_lock);
+            errno = EPIPE;
+            return -1;
+        }
 
-static inline void __await_remove(
-        gracht_client_t*               client,
-        struct gracht_message_awaiter* awaiter)
-{
-    mtx_lock(&client->awaiters_lock);
-    gr_hashtable_remove(&client->awaiters, &(struct gracht_message_awaiter_entry) {
-            .id = awaiter->id
-    });
-    mtx_unlock(&client->awaiters_lock);
+        if (!client->listening) {
+            break;
+        }
+
+        if (!(flags & GRACHT_MESSAGE_BLOCK)) {
+            mtx_unlock(&client->messages_lock);
+            errno = EBUSY;
+            return -1;
+        }
+        cnd_wait(&client->messages_event, &client->messages_lock);
+    }
+    client->listening = true;
+    mtx_unlock(&client->messages_lock);
+
+    // If a context is provided we expect the caller wanting to listen for that specific message. That means
+    // any incoming event and/or response we recieve should be for that, or we should keep waiting.
+    status = __listen(client, flags);
+    if (status == 1 || (status == 0 && context)) {
+        goto listenForMessage;
+    }
+    return status;
 }
 
-static inline void __await_loop(
+// messages_lock must be held
+static bool __await_completed(
         gracht_client_t*                client,
         struct gracht_message_context** contexts,
-        struct gracht_message_awaiter*  awaiter)
+        int                             contextCount,
+        unsigned int                    flags)
 {
-    while (awaiter->current_count < awaiter->count) {
-        gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK);
+    int completed = 0;
 
-        // update status
-        mtx_lock(&client->messages_lock);
-        awaiter->current_count = 0;
-        for (int i = 0; i < awaiter->count; i++) {
-            struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                    &client->messages,
-                    &(struct gracht_message_descriptor) {
-                            .id = contexts[i]->message_id
-                    }
-            );
-            if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-                awaiter->current_count++;
-            }
+    for (int i = 0; i < contextCount; i++) {
+        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = contexts[i]->message_id
+                }
+        );
+
+        // we could be waiting for a non-existant message, in theory it could
+        // have dissappeared?
+        if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
+            completed++;
         }
-        mtx_unlock(&client->messages_lock);
     }
+    return (!(flags & GRACHT_AWAIT_ALL) && completed > 0) || completed == contextCount;
 }
 
 int gracht_client_await_multiple(
@@ -413,77 +374,41 @@ int gracht_client_await_multiple(
         int                             contextCount,
         unsigned int                    flags)
 {
-    struct gracht_message_awaiter* awaiter;
-    int                            i;
-    bool                           bail;
+    int status = 0;
     GRTRACE(GRSTR("gracht_client_await_multiple()"));
     
-    if (!client || !contexts || !contextCount) {
+    if (!client || !contexts || contextCount <= 0) {
         errno = (EINVAL);
         return -1;
     }
 
-    // create the awaiter
-    awaiter = __awaiter_new(client, flags, contextCount);
-    if (awaiter == NULL) {
-        return -1;
-    }
-
-    // first step is to get a status of all messages we are awaiting
     mtx_lock(&client->messages_lock);
-    for (i = 0; i < contextCount; i++) {
-        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                    .id = contexts[i]->message_id
-                }
-        );
-        if (!descriptor) {
-            // we were waiting for a non-existant message, in theory it could
-            // have dissappeared?
-            awaiter->current_count++;
-            continue;
+    while (!__await_completed(client, contexts, contextCount, flags)) {
+        if (client->disconnected) {
+            errno = EPIPE;
+            status = -1;
+            break;
         }
 
-        descriptor->awaiter_id = awaiter->id;
-        if (MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-            awaiter->current_count++;
+        // in async mode we expect another thread to do the event pumping, otherwise we are a single
+        // threaded application (maybe) and we should also handle the pumping of messages. If another
+        // thread already does that, then wait for what it receives
+        if ((flags & GRACHT_AWAIT_ASYNC) || client->listening) {
+            cnd_wait(&client->messages_event, &client->messages_lock);
+            continue;
         }
-    }
-
-    // calculate here whether we can bail early, so we can skip time
-    // not adding the awaiter
-    bail = (!(flags & GRACHT_AWAIT_ALL) && awaiter->current_count > 0) || awaiter->current_count == awaiter->count;
 
-    // add the awaiter while we hold the message lock to avoid a data-race
-    // between those
-    if (!bail) {
-        __await_add(client, awaiter);
+        client->listening = true;
+        mtx_unlock(&client->messages_lock);
+        status = __listen(client, GRACHT_MESSAGE_BLOCK);
+        mtx_lock(&client->messages_lock);
+        if (status == -1) {
+            break;
+        }
+        status = 0;
     }
     mtx_unlock(&client->messages_lock);
-
-    // early bail?
-    if (bail) {
-        goto cleanup;
-    }
-    
-    // in async bail mode we expect another thread to do the event pumping,
-    // and thus we should just use the awaiter
-    if (flags & GRACHT_AWAIT_ASYNC) {
-        mtx_lock(&awaiter->mutex);
-        cnd_wait(&awaiter->event, &awaiter->mutex);
-        mtx_unlock(&awaiter->mutex);
-    } else {
-        // otherwise we are a single threaded application (maybe) and we should also
-        // handle the pumping of messages.
-        __await_loop(client, contexts, awaiter);
-    }
-    __await_remove(client, awaiter);
-
-cleanup:
-    // cleanup the awaiter
-    free(awaiter);
-    return 0;
+    return status;
 }
 
 int gracht_client_await(gracht_client_t* client, struct gracht_message_context* context, unsigned int flags)
@@ -593,16 +518,13 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     
     memset(client, 0, sizeof(gracht_client_t));
     mtx_init(&client->send_buffer_lock, mtx_plain);
-    mtx_init(&client->wait_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
-    mtx_init(&client->awaiters_lock, mtx_plain);
+    cnd_init(&client->messages_event);
     gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
     gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
-    gr_hashtable_construct(&client->awaiters, 0, sizeof(struct gracht_message_awaiter_entry), awaiter_hash, awaiter_cmp);
 
     client->link = config->link;
     client->iod = GRACHT_CONN_INVALID;
-    client->current_awaiter_id = 1;
     client->current_message_id = 1;
 
     // handle memory sizes
@@ -665,6 +587,7 @@ int gracht_client_connect(gracht_client_t* client)
         GRERROR(GRSTR("gracht_client: failed to connect client"));
         return -1;
     }
+    client->disconnected = false;
     return 0;
 }
 
@@ -687,13 +610,11 @@ void gracht_client_shutdown(gracht_client_t* client)
         gracht_arena_destroy(client->arena);
     }
     
-    gr_hashtable_destroy(&client->awaiters);
     gr_hashtable_destroy(&client->messages);
     gr_hashtable_destroy(&client->protocols);
-    mtx_destroy(&client->wait_lock);
     mtx_destroy(&client->send_buffer_lock);
     mtx_destroy(&client->messages_lock);
-    mtx_destroy(&client->awaiters_lock);
+    cnd_destroy(&client->messages_event);
     free(client);
 }
 
@@ -727,47 +648,14 @@ void gracht_client_unregister_protocol(gracht_client_t* client, gracht_protocol_
     gr_hashtable_remove(&client->protocols, protocol);
 }
 
-static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
-{
-    struct gracht_message_awaiter_entry* entry;
-    struct gracht_message_awaiter*       awaiter;
-
-    mtx_lock(&client->awaiters_lock);
-    entry = gr_hashtable_get(
-            &client->awaiters,
-            &(struct gracht_message_awaiter_entry) { .id = awaiterID }
-    );
-    if (!entry) {
-        mtx_unlock(&client->awaiters_lock);
-        return;
-    }
-    awaiter = entry->awaiter;
-    mtx_unlock(&client->awaiters_lock);
-
-    awaiter->current_count++;
-    if (awaiter->flags & GRACHT_AWAIT_ALL) {
-        if (awaiter->current_count == awaiter->count) {
-            cnd_signal(&awaiter->event);
-        }
-    } else {
-        cnd_signal(&awaiter->event);
-    }
-}
-
 static uint32_t get_message_id(gracht_client_t* client)
 {
     return client->current_message_id++;
 }
 
-static uint32_t get_awaiter_id(gracht_client_t* client)
-{
-    return client->current_awaiter_id++;
-}
-
 void gracht_control_error_invocation(gracht_client_t* client, const uint32_t messageId, const int errorCode)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     (void)errorCode;
 
     mtx_lock(&client->messages_lock);
@@ -777,7 +665,7 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
                 .id = messageId
             }
     );
-    if (!descriptor) {
+    if (!descriptor || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("gracht_control_error_invocation no-one was listening for message %u"), messageId);
@@ -786,11 +674,7 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
     
     // set status
     descriptor->status = GRACHT_MESSAGE_ERROR;
-    awaiterID = descriptor->awaiter_id;
     mtx_unlock(&client->messages_lock);
-    
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
 }
 
 static uint64_t message_hash(const void* element)
@@ -805,16 +689,3 @@ static int message_cmp(const void* element1, const void* element2)
     const struct gracht_message_descriptor* message2 = element2;
     return message1->id == message2->id ? 0 : 1;
 }
-
-static uint64_t awaiter_hash(const void* element)
-{
-    const struct gracht_message_awaiter_entry* awaiter = element;
-    return awaiter->id;
-}
-
-static int awaiter_cmp(const void* element1, const void* element2)
-{
-    const struct gracht_message_awaiter_entry* awaiter1 = element1;
-    const struct gracht_message_awaiter_entry* awaiter2 = element2;
-    return awaiter1->id == awaiter2->id ? 0 : 1;
-}
diff --git a/runtime/link/socket/shared.c b/runtime/link/socket/shared.c
index 6e0e0c5..d9bb2c3 100644
--- a/runtime/link/socket/shared.c
+++ b/runtime/link/socket/shared.c
@@ -93,6 +93,11 @@ int socket_recv_message(gracht_conn_t socket, struct socket_partial* partial, ch
             int   reason = bytesRead == 0 ? ENODATA : errno;
             char* data;
 
+#ifdef _WIN32
+            if (bytesRead < 0) {
+                reason = WSAGetLastError() == WSAEWOULDBLOCK ? EAGAIN : EPIPE;
+            }
+#endif
             if (reason == EINTR) {
                 continue;
             }
-- 
2.43.0


From eeef9c2abe2afd16a6d0666c38f9046fabfe9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:32 +0000
Subject: [PATCH 15/56] fix: client can not hold a received message of the
 maximum size while receiving another

---
 runtime/client.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/client.c b/runtime/client.c
index 334fc98..2ff8938 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -538,6 +538,9 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
         arenaSize = client->max_message_size * 2;
     }
 
+    // make room for the bookkeeping, so that two messages of the maximum size do fit
+    arenaSize += 64;
+
     // handle send buffer configuration
     client->send_buffer = config->send_buffer;
     if (!client->send_buffer) {
-- 
2.43.0


From 2150645ce708af58b3e2e9a6379d3f798655e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 16/56] fix: client leaks its link if it was never connected

---
 runtime/client.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index 2ff8938..714c42b 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -566,6 +566,7 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     goto exit;
     
 error:
+    client->link = NULL; // still owned by the caller
     gracht_client_shutdown(client);
     status = -1;
 
@@ -601,7 +602,8 @@ void gracht_client_shutdown(gracht_client_t* client)
         return;
     }
     
-    if (client->iod != GRACHT_CONN_INVALID) {
+    // also a link that was never connected is owned by us
+    if (client->link) {
         client->link->ops.client.destroy(client->link);
     }
 
-- 
2.43.0


From 54cfd9c5b484dc0a7181084042357104685cfbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 17/56] fix: subscribe requests without a service subscribe to
 whatever follows the message in memory

---
 runtime/control.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/control.c b/runtime/control.c
index 0b1d22a..fd4da06 100644
--- a/runtime/control.c
+++ b/runtime/control.c
@@ -75,6 +75,9 @@ void __gracht_error_internal(gracht_client_t* __client, gracht_buffer_t* __buffe
 void __gracht_subscribe_internal(struct gracht_message* __message, gracht_buffer_t* __buffer)
 {
     uint8_t __protocol;
+    if (__buffer->index + sizeof(uint8_t) > __message->size) {
+        return;
+    }
     __protocol = deserialize_uint8_t(__buffer);
     gracht_control_subscribe_invocation(__message, __protocol);
 }
@@ -82,6 +85,9 @@ void __gracht_subscribe_internal(struct gracht_message* __message, gracht_buffer
 void __gracht_unsubscribe_internal(struct gracht_message* __message, gracht_buffer_t* __buffer)
 {
     uint8_t __protocol;
+    if (__buffer->index + sizeof(uint8_t) > __message->size) {
+        return;
+    }
     __protocol = deserialize_uint8_t(__buffer);
     gracht_control_unsubscribe_invocation(__message, __protocol);
 }
-- 
2.43.0


From ac125f84ebdd998d13d671cb21356667a1276d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:00 +0000
Subject: [PATCH 18/56] fix: server is leaked when shutdown is requested before
 the main loop is entered

---
 runtime/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index 36419f1..a945254 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -592,7 +592,8 @@ int gracht_server_main_loop(gracht_server_t* server)
         return -1;
     }
 
-    if (server->state != RUNNING) {
+    // a shutdown that was requested before we got here must still release the server
+    if (server->state == SHUTDOWN) {
         errno = EPERM;
         return -1;
     }
-- 
2.43.0


From 4589edd9ae746bca4ec866d5428c3d631786c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:44 +0000
Subject: [PATCH 19/56] fix: responses and errors for a departed client are
 delivered to the client that reuses its handle

---
 include/control.h          |  2 +-
 include/gracht/link/link.h |  1 +
 include/gracht/types.h     |  1 +
 runtime/control.c          |  8 ++++----
 runtime/server.c           | 13 ++++++++++++-
 5 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/control.h b/include/control.h
index 11dc0a2..ebc9c27 100644
--- a/include/control.h
+++ b/include/control.h
@@ -43,7 +43,7 @@ struct gracht_transfer_complete_event {
 void gracht_control_subscribe_invocation(const struct gracht_message* message, const uint8_t protocol);
 void gracht_control_unsubscribe_invocation(const struct gracht_message* message, const uint8_t protocol);
 
-int gracht_control_event_error_single(gracht_server_t* server, const gracht_conn_t client, const uint32_t messageId, const int errorCode);
+int gracht_control_event_error_single(struct gracht_message* message, const uint32_t messageId, const int errorCode);
 int gracht_control_event_error_all(gracht_server_t* server, const uint32_t messageId, const int errorCode);
 
 // Client part of the internal control protocol
diff --git a/include/gracht/link/link.h b/include/gracht/link/link.h
index ad52090..a52583e 100644
--- a/include/gracht/link/link.h
+++ b/include/gracht/link/link.h
@@ -38,6 +38,7 @@ enum gracht_link_type {
 struct gracht_server_client {
     gracht_conn_t handle;
     uint32_t      flags;
+    uint64_t      instance; // handles are reused, this is unique for each connection
     uint32_t      subscriptions[8]; // 32 bytes to cover 255 bits
 };
 
diff --git a/include/gracht/types.h b/include/gracht/types.h
index 9b38682..0eaa48e 100644
--- a/include/gracht/types.h
+++ b/include/gracht/types.h
@@ -114,6 +114,7 @@ struct gracht_message {
     gracht_conn_t    client;  // client context on the link
     uint32_t         size;    // size of the payload
     uint32_t         index;   // used internally for payload storage
+    uint64_t         instance; // used internally to tell apart clients when their handle is reused
     uint8_t          payload[]; // payload follows this message header
 };
 
diff --git a/runtime/control.c b/runtime/control.c
index fd4da06..3c2a05b 100644
--- a/runtime/control.c
+++ b/runtime/control.c
@@ -60,7 +60,7 @@ gracht_protocol_t gracht_control_client_protocol = GRACHT_PROTOCOL_INIT(0, "grac
 gracht_protocol_t gracht_control_server_protocol = GRACHT_PROTOCOL_INIT(0, "gracht_control", 2, server_control_callbacks);
 
 extern int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
-extern int gracht_server_send_event(gracht_server_t*, gracht_conn_t client, gracht_buffer_t*, unsigned int flags);
+extern int gracht_server_respond(struct gracht_message*, gracht_buffer_t*);
 extern int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int flags);
 
 void __gracht_error_internal(gracht_client_t* __client, gracht_buffer_t* __buffer)
@@ -92,12 +92,12 @@ void __gracht_unsubscribe_internal(struct gracht_message* __message, gracht_buff
     gracht_control_unsubscribe_invocation(__message, __protocol);
 }
 
-int gracht_control_event_error_single(gracht_server_t* server, const gracht_conn_t client, const uint32_t messageId, const int errorCode)
+int gracht_control_event_error_single(struct gracht_message* message, const uint32_t messageId, const int errorCode)
 {
     gracht_buffer_t __buffer;
     int             __status;
 
-    __status = gracht_server_get_buffer(server, &__buffer);
+    __status = gracht_server_get_buffer(message->server, &__buffer);
     if (__status) {
         return __status;
     }
@@ -109,7 +109,7 @@ int gracht_control_event_error_single(gracht_server_t* server, const gracht_conn
     serialize_uint8_t(&__buffer, MESSAGE_FLAG_EVENT);
     serialize_uint32_t(&__buffer, messageId);
     serialize_int(&__buffer, errorCode);
-    __status = gracht_server_send_event(server, client, &__buffer, 0);
+    __status = gracht_server_respond(message, &__buffer);
     return __status;
 }
 
diff --git a/runtime/server.c b/runtime/server.c
index a945254..5077f52 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -84,6 +84,7 @@ typedef struct gracht_server {
     struct rwlock                  protocols_lock;
     gr_hashtable_t                 clients;
     struct rwlock                  clients_lock;
+    uint64_t                       client_instances;
     struct link_table              link_table;
 } gracht_server_t;
 
@@ -273,6 +274,7 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
     // this is a streaming client, which means we handle them differently if they should
     // unsubscribe to certain protocols. Streaming clients are subscribed to all from start
     client->flags |= GRACHT_CLIENT_FLAG_STREAM;
+    client->instance = ++server->client_instances;
     memset(&client->subscriptions[0], 0xFF, sizeof(client->subscriptions));
     
     rwlock_w_lock(&server->clients_lock);
@@ -363,6 +365,7 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
             return -1;
         }
 
+        message->instance = 0;
         status = link->ops.server.recv(link, message, 0);
         if (status) {
             if (errno != ENODATA) {
@@ -414,6 +417,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
                 return -1;
             }
             
+            message->instance = client.client->instance;
             status = client.link->ops.server.recv_client(client.client, message, 0);
             if (status) {
                 int reason = errno;
@@ -533,7 +537,7 @@ void server_invoke_action(struct gracht_server* server, struct gracht_message* r
     rwlock_r_unlock(&server->protocols_lock);
     if (!function) {
         GRWARNING(GRSTR("server_invoke_action failed to invoke server action"));
-        gracht_control_event_error_single(server, recvMessage->client, messageId, ENOENT);
+        gracht_control_event_error_single(recvMessage, messageId, ENOENT);
         return;
     }
 
@@ -669,6 +673,12 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         }
         status = link->ops.server.send(link, messageContext, message);
     }
+    else if (entry->client->instance != messageContext->instance) {
+        // the client that sent the request is gone, and another client has been given its handle
+        rwlock_r_unlock(&messageContext->server->clients_lock);
+        errno  = ENODEV;
+        status = -1;
+    }
     else {
         status = entry->link->ops.server.send_client(entry->client, message, GRACHT_MESSAGE_BLOCK);
         rwlock_r_unlock(&messageContext->server->clients_lock);
@@ -883,6 +893,7 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
         }
 
         newEntry.handle = message->client;
+        newEntry.client->instance = message->instance;
         client_subscribe(newEntry.client, protocol);
         gr_hashtable_set(&message->server->clients, &newEntry);
         rwlock_w_unlock(&message->server->clients_lock);
-- 
2.43.0


From 96bb13e8befb8b225228c47bbe5b87ae9251a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:27 +0000
Subject: [PATCH 20/56] fix: start of a datagram that exceeds the receive
 buffer is executed when its stated length matches

---
 runtime/link/socket/server.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index d2fb30d..5b68313 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -494,17 +494,18 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 
 receivePacket:
     // Packets are atomic, either the full packet is there, or none is. So avoid
-    // the use of MSG_WAITALL here. The address may be shorter than the space we reserve for it.
+    // the use of MSG_WAITALL here. The address may be shorter than the space we reserve for it. Ask
+    // for the real length of the packet, to not mistake the start of a larger packet for a message.
     addrlen = link->address_length;
     memset(&context->payload[0], 0, (size_t)addrlen);
     bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
-        socketFlags, (struct sockaddr*)&context->payload[0], &addrlen);
+        (int)(socketFlags | MSG_TRUNC), (struct sockaddr*)&context->payload[0], &addrlen);
     if (bytesRead < 0) {
         return -1;
     }
 
     // discard packets that are not exactly one message
-    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&base[MSG_INDEX_LEN]) != (uint32_t)bytesRead) {
+    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || bytesRead > (intmax_t)len || *((uint32_t*)&base[MSG_INDEX_LEN]) != (uint32_t)bytesRead) {
         GRWARNING(GRSTR("socket_link_recv_packet discarding malformed packet of %li bytes"), (long)bytesRead);
         goto receivePacket;
     }
-- 
2.43.0


From a5dc7c457ed9da0954dd8d5e5563323244bf8aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:40 +0000
Subject: [PATCH 21/56] fix: awaiting without a context dereferences NULL

---
 runtime/client.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/client.c b/runtime/client.c
index 714c42b..2c83927 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -382,6 +382,13 @@ int gracht_client_await_multiple(
         return -1;
     }
 
+    for (int i = 0; i < contextCount; i++) {
+        if (!contexts[i]) {
+            errno = (EINVAL);
+            return -1;
+        }
+    }
+
     mtx_lock(&client->messages_lock);
     while (!__await_completed(client, contexts, contextCount, flags)) {
         if (client->disconnected) {
-- 
2.43.0


From 6b948d90eccf733c7bd7793713108e8d4629ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:33 +0000
Subject: [PATCH 22/56] fix: copying a structure copies only part of its arrays
 of values

---
 generator/languages/langc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 85d2960..8689ece 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -1046,7 +1046,7 @@ def write_structure_copy_function_members(service: ServiceObject, prefix, struct
             outfile.indent_dec()
             outfile.writeln("}")
         else:
-            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}_count);")
+            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, sizeof({get_c_typename(service, member.get_typename())}) * in->{prefix}{member.get_name()}_count);")
         outfile.indent_dec()
         outfile.writeln("} else {")
         outfile.indent_inc()
-- 
2.43.0


From c5c36cd2364b33c663321cf00cc0e3c11860bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:33 +0000
Subject: [PATCH 23/56] fix: hexadecimal numbers with lowercase digits are
 rejected

---
 generator/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index 05843c4..5a2d1ab 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -791,7 +791,7 @@ def parse_digit(scanner, data):
     if data[startIdx] == '0' and data[startIdx + 1] == 'x':
         scanner.consume(2)
         while scanner.has_next():
-            if scanner.current() not in "0123456789ABCDEF":
+            if scanner.current() not in "0123456789ABCDEFabcdef":
                 break
             scanner.consume()
         return str2int(data[startIdx: scanner.index()])
-- 
2.43.0


From 14662d97fd92c4e3dffeaf2e85a3ad99fafbeeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:33 +0000
Subject: [PATCH 24/56] fix: events without parameters are rejected

---
 generator/parser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/generator/parser.py b/generator/parser.py
index 5a2d1ab..0c79fba 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -569,12 +569,15 @@ def handle_event(context, tokens):
     else:
         # create sublist
         tokens.pop(0)  # consume LPARENTHESIS
-        rparen = next((x for x in tokens if x.token_type() == TOKENS.RPARENTHESIS), None)
-        if rparen is None:
-            error("expected ')' at end of parameter list")
-        endOfParams = tokens.index(rparen) + 1
-        parse_scope(context, tokens[:endOfParams], get_param_scope_syntax())
-        del tokens[:endOfParams]
+        if tokens[0].token_type() != TOKENS.RPARENTHESIS:
+            rparen = next((x for x in tokens if x.token_type() == TOKENS.RPARENTHESIS), None)
+            if rparen is None:
+                error("expected ')' at end of parameter list")
+            endOfParams = tokens.index(rparen) + 1
+            parse_scope(context, tokens[:endOfParams], get_param_scope_syntax())
+            del tokens[:endOfParams]
+        else:
+            tokens.pop(0)  # consume RPARENTHESIS
 
     tokens.pop(0)  # consume EQUAL
     actionId = tokens[0].value()
-- 
2.43.0


From 4a0bbe988b5c91d12f2d5a5aa8c4ba393753d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:33 +0000
Subject: [PATCH 25/56] fix: events of a builtin type generate code that does
 not compile

---
 generator/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index 0c79fba..fb16241 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -564,7 +564,9 @@ def handle_event(context, tokens):
     tokens.pop(0)  # consume COLON
 
     if tokens[0].token_type() == TOKENS.IDENTIFIER:
-        context.create_member(tokens[0].value(), tokens[0].value(), False)
+        # the parameter is named after its type, which is not possible for builtin types like 'int'
+        typeName = tokens[0].value()
+        context.create_member(typeName, "value" if typeName in BUILTIN_TYPES else typeName, False)
         tokens.pop(0)  # consume IDENTIFIER
     else:
         # create sublist
-- 
2.43.0


From 91759215ea35d1045426a95be6201e78951f8969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:14 +0000
Subject: [PATCH 26/56] fix: variants with builtin, enum or string entries
 generate code that does not compile

---
 generator/languages/langc.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 8689ece..f196f59 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -530,9 +530,8 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
     if member.get_is_variable():
         write_variable_struct_member_deserializer(service, member, outfile)
     elif typename.lower() == "string":
-        outfile.writeln(f"uint32_t _{name}_length = *((uint32_t*)&buffer->data[buffer->index]);")
-        outfile.writeln(f"out->{name} = malloc(_{name}_length + 1);")
-        outfile.writeln(f"assert(out->{name} != NULL);")
+        outfile.writeln(f"out->{prefix}{name} = malloc(*((uint32_t*)&buffer->data[buffer->index]) + 1);")
+        outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
         outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
     elif service.typename_is_struct(typename):
         struct_type = service.lookup_struct(typename)
@@ -897,15 +896,11 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
             struct_type = service.lookup_struct(entry.get_typename())
             member_name = get_scoped_name(struct_type)
             outfile.writeln(f"{member_name}_copy({entry.get_name()}, &in->{variant.get_name()}.{entry.get_name()});")
-            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         elif entry.get_typename() == "string":
-            outfile.writeln(f"if ({entry.get_typename()} != NULL) {{")
-            outfile.indent_inc()
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = strdup({entry.get_typename()});")
-            outfile.indent_dec()
-            outfile.writeln("}")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()} != NULL ? strdup({entry.get_name()}) : NULL;")
         else:
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_typename()};")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()};")
+        outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
         outfile.writeln("}")
         outfile.writeln("")
-- 
2.43.0


From 249fe62de8dcbd4570811e83260fdb53bb3cb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:06 +0000
Subject: [PATCH 27/56] fix: generated code copies from and to NULL for arrays
 without elements

---
 generator/languages/langc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index f196f59..a498da2 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -335,9 +335,13 @@ def write_variable_struct_member_serializer(service: ServiceObject, member, outf
         print("error: variable string arrays are not supported at this moment for the C-code generator")
         exit(-1)
     else:
+        outfile.writeln(f"if (in->{name}_count) {{")
+        outfile.indent_inc()
         outfile.writeln(
             f"memcpy(&buffer->data[buffer->index], &in->{name}[0], sizeof({get_c_typename(service, typename)}) * in->{name}_count);")
         outfile.writeln(f"buffer->index += sizeof({get_c_typename(service, typename)}) * in->{name}_count;")
+        outfile.indent_dec()
+        outfile.writeln("}")
 
 
 def write_variable_member_serializer(service: ServiceObject, member, outfile: CodeWriter):
@@ -500,7 +504,11 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
     else:
         outfile.writeln(f"if (__count) {{")
         outfile.indent_inc()
+        outfile.writeln(f"if ({name}_count) {{")
+        outfile.indent_inc()
         outfile.writeln(f"memcpy(&{name}_out[0], &__buffer.data[__buffer.index], sizeof({get_c_typename(service, typename)}) * GRMIN(__count, {name}_count));")
+        outfile.indent_dec()
+        outfile.writeln("}")
         outfile.writeln(f"__buffer.index += sizeof({get_c_typename(service, typename)}) * __count;")
         outfile.indent_dec()
         outfile.writeln("}")
-- 
2.43.0


From 5f90c560e9cb9e59364b098e2ac94c2a56342618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:06 +0000
Subject: [PATCH 28/56] fix: values after an array of structures that does not
 fit the caller's array are read from the wrong place

---
 generator/languages/langc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index a498da2..867a210 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -495,6 +495,14 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
         outfile.writeln(f"deserialize_{struct_name}(&__buffer, &{name}_out[__i]);")
         outfile.indent_dec()
         outfile.writeln("}")
+        # elements there is no room for must still be consumed to get to the values that follow
+        outfile.writeln(f"for (uint32_t __i = {name}_count; __i < __count; __i++) {{")
+        outfile.indent_inc()
+        outfile.writeln(f"{get_scoped_typename(struct_type)} __skipped;")
+        outfile.writeln(f"deserialize_{struct_name}(&__buffer, &__skipped);")
+        outfile.writeln(f"{struct_name}_destroy(&__skipped);")
+        outfile.indent_dec()
+        outfile.writeln("}")
     elif typename.lower() == "string":
         outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
         outfile.indent_inc()
-- 
2.43.0


From cb952235ddcb39efa665d1baf54654b28af349db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:06 +0000
Subject: [PATCH 29/56] fix: responses with arrays of strings generate code
 that does not compile

---
 generator/languages/langc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 867a210..e29a892 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -504,9 +504,15 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
         outfile.indent_dec()
         outfile.writeln("}")
     elif typename.lower() == "string":
-        outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
+        # the buffer is released again once the status has been read, so the strings must be copied
+        outfile.writeln(f"for (uint32_t __i = 0; __i < __count; __i++) {{")
         outfile.indent_inc()
-        outfile.writeln(f"{name}_out[__i] = deserialize_string_nocopy(&__buffer);")
+        outfile.writeln("char* __string = deserialize_string_nocopy(&__buffer);")
+        outfile.writeln(f"if (__i < {name}_count) {{")
+        outfile.indent_inc()
+        outfile.writeln(f"{name}_out[__i] = strdup(__string);")
+        outfile.indent_dec()
+        outfile.writeln("}")
         outfile.indent_dec()
         outfile.writeln("}")
     else:
-- 
2.43.0


From db9b7fbd0f1bf3bfff0a71b4ecebcc69f00a7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:06 +0000
Subject: [PATCH 30/56] fix: reading a string of a response with a max_length
 of 0 writes past the caller's buffer

---
 generator/languages/langc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index e29a892..e5c3f49 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -554,7 +554,7 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
     elif typename.lower() == "string":
         outfile.writeln(f"out->{prefix}{name} = malloc(*((uint32_t*)&buffer->data[buffer->index]) + 1);")
         outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
-        outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
+        outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], *((uint32_t*)&buffer->data[buffer->index]) + 1);")
     elif service.typename_is_struct(typename):
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
@@ -762,11 +762,13 @@ static inline void serialize_string(gracht_buffer_t* buffer, const char* string)
 
 static inline void deserialize_string_copy(gracht_buffer_t* buffer, char* out, uint32_t maxLength) {
     uint32_t length = *((uint32_t*)&buffer->data[buffer->index]);
-    uint32_t clampedLength = GRMIN(length, maxLength - 1);
-    if (clampedLength > 0) {
-        memcpy(out, &buffer->data[buffer->index + sizeof(uint32_t)], clampedLength);
+    if (maxLength > 0) {
+        uint32_t clampedLength = GRMIN(length, maxLength - 1);
+        if (clampedLength > 0) {
+            memcpy(out, &buffer->data[buffer->index + sizeof(uint32_t)], clampedLength);
+        }
+        out[clampedLength] = 0;
     }
-    out[clampedLength] = 0;
     buffer->index += sizeof(uint32_t) + length + 1;
 }
 
-- 
2.43.0


From bc3a5909f229e502fb27f2edcd0ebf7025dfc85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:01 +0000
Subject: [PATCH 31/56] fix: defined types that a service does not use generate
 code that does not compile

---
 generator/languages/langc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index e5c3f49..4afe5e9 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -794,6 +794,9 @@ static inline char* deserialize_string_nocopy(gracht_buffer_t* buffer) {
 
 def define_type_serializers(service: ServiceObject, outfile: CodeWriter):
     for defined_type in service.get_types():
+        # headers are only included for the types the service uses
+        if defined_type.get_type_source() not in service.get_imports():
+            continue
         guard_name = defined_type.get_namespace().upper() + "_" + defined_type.get_type_name().upper()
         outfile.write(f"#ifndef __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"#define __GRACHT_{guard_name}_DEFINED__\n")
-- 
2.43.0


From cf29fa59c99b8cf8588d98a0190c9e874b5279b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:01 +0000
Subject: [PATCH 32/56] fix: structure extensions are left out of the
 consolidation of structures

---
 generator/passes/consolidate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/passes/consolidate.py b/generator/passes/consolidate.py
index aa43b5a..47e8943 100644
--- a/generator/passes/consolidate.py
+++ b/generator/passes/consolidate.py
@@ -12,7 +12,7 @@ def consolidate_struct_member(service: ServiceObject, done: list, struct: Struct
         if struct_target is None:
             raise ValueError(f"Type {typename} cannot be resolved")
         if not struct_target in done:
-            consolidate_struct(struct_target)
+            consolidate_struct(service, done, struct_target)
         
         mems = struct.get_members()
         index = mems.index(member)
@@ -24,9 +24,9 @@ def consolidate_struct_member(service: ServiceObject, done: list, struct: Struct
 
 def consolidate_struct(service: ServiceObject, done: list, struct: StructureObject):
     if struct in done:
-        return
+        return done
     
-    for member in struct.get_members():
+    for member in list(struct.get_members()):
         consolidate_struct_member(service, done, struct, member)
     done.append(struct)
     return done
-- 
2.43.0


From 98c4ef5f1c5411630ae8e31c608ae5307f5bd499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 33/56] fix: definitions with an unterminated quote are
 accepted

---
 generator/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index fb16241..59ab081 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -784,7 +784,7 @@ def parse_quoted(scanner, data):
         unquoted += scanner.current()
         scanner.consume()
 
-    if scanner.index == len(data):
+    if scanner.index() >= len(data):
         error("expected closing '\"' but found end of file")
 
     scanner.consume()  # consume closing quote
-- 
2.43.0


From 4dee89f15e525f3115727f74ad9eed5f95fc75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 34/56] fix: definitions with an unterminated comment are
 accepted

---
 generator/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/parser.py b/generator/parser.py
index 59ab081..e5500c4 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -433,6 +433,7 @@ def skip_until(scanner: Scanner, data, marker):
                 scanner.consume(len(marker))
                 return
         scanner.consume()
+    error(f"expected '{marker}' but found end of file")
 
 
 def handle_import(context, tokens):
-- 
2.43.0


From b3df53c828624f4a473b2f50e96928e7afae1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 35/56] fix: malformed numbers are accepted as no number at all

---
 generator/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/parser.py b/generator/parser.py
index e5500c4..833cf73 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -866,6 +866,8 @@ def create_tokens_from_text(data):
             tokens.append(Token(scanner, TOKENS.QUOTE, unquoted))
         elif el.isdigit() or el == '-':
             digit = parse_digit(scanner, data)
+            if digit is None:
+                error(f"malformed number at line {scanner.line_no()}:{scanner.line_index()}")
             tokens.append(Token(scanner, TOKENS.DIGIT, digit))
         elif el.isalpha() or el == '_':
             ident = parse_identifier(scanner)
-- 
2.43.0


From 003ccb92ae577312bf55dc8f8d67baf88444718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 36/56] fix: order of the generated includes differs from run
 to run

---
 generator/passes/validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/passes/validate.py b/generator/passes/validate.py
index c06c53d..18d1553 100644
--- a/generator/passes/validate.py
+++ b/generator/passes/validate.py
@@ -35,8 +35,8 @@ def resolve_all_types(service: ServiceObject):
         for member in struct.get_members():
             service_imports = resolve_type(service, service_imports, member)
 
-    unique_imports = set(service_imports)
-    service.set_imports(list(unique_imports))
+    # sorted, as the order of a set differs from run to run
+    service.set_imports(sorted(set(service_imports)))
     return
 
 def pass_validate(service: ServiceObject):
-- 
2.43.0


From 517bdc2885f0bbea78397a11024a907dd2d7e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:25 +0000
Subject: [PATCH 37/56] fix: rejected arrays of strings leave partial output
 behind

---
 generator/passes/validate.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/generator/passes/validate.py b/generator/passes/validate.py
index 18d1553..4c3fa25 100644
--- a/generator/passes/validate.py
+++ b/generator/passes/validate.py
@@ -21,6 +21,25 @@ def resolve_type(service: ServiceObject, service_imports: list, param):
         raise ValueError(f"Type {param.get_typename()} cannot be resolved")
     return service_imports
 
+def is_string_array(param):
+    return (not isinstance(param, VariableVariantObject)
+            and param.get_is_variable() and param.get_typename() == "string")
+
+def validate_string_arrays(service: ServiceObject):
+    # only responses can have arrays of strings, and this must be known before any output is produced
+    for func in service.get_functions():
+        for param in func.get_request_params():
+            if is_string_array(param):
+                raise ValueError(f"Parameter {param.get_name()} of {func.get_name()}: string arrays are only supported in responses")
+    for evt in service.get_events():
+        for param in evt.get_params():
+            if is_string_array(param):
+                raise ValueError(f"Parameter {param.get_name()} of {evt.get_name()}: string arrays are only supported in responses")
+    for struct in service.get_structs():
+        for member in struct.get_members():
+            if is_string_array(member):
+                raise ValueError(f"Member {member.get_name()} of {struct.get_name()}: string arrays are only supported in responses")
+
 def resolve_all_types(service: ServiceObject):
     service_imports = service.get_imports()
     for func in service.get_functions():
@@ -59,5 +78,7 @@ def pass_validate(service: ServiceObject):
             raise ValueError(f"The id of event {evt.get_name()} must be in range of 1..255")
         ids_parsed.append(evt.get_id())
 
+    validate_string_arrays(service)
+
     # also resolve all external types to gather a list of imports or usings
     resolve_all_types(service)
-- 
2.43.0


From f3746e8401ba201193821560cd90136cff1188ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:25 +0000
Subject: [PATCH 38/56] fix: variants with several entries of one type generate
 code that does not compile

---
 generator/passes/validate.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/generator/passes/validate.py b/generator/passes/validate.py
index 4c3fa25..a89d85a 100644
--- a/generator/passes/validate.py
+++ b/generator/passes/validate.py
@@ -40,6 +40,16 @@ def validate_string_arrays(service: ServiceObject):
             if is_string_array(member):
                 raise ValueError(f"Member {member.get_name()} of {struct.get_name()}: string arrays are only supported in responses")
 
+def validate_variants(service: ServiceObject):
+    # the functions generated for the entries of a variant are named by the types of the entries
+    for struct in service.get_structs():
+        for member in struct.get_members():
+            if isinstance(member, VariableVariantObject):
+                typenames = [entry.get_typename() for entry in member.get_entries()]
+                for typename in typenames:
+                    if typenames.count(typename) > 1:
+                        raise ValueError(f"Variant {member.get_name()} of {struct.get_name()} has several entries of type {typename}")
+
 def resolve_all_types(service: ServiceObject):
     service_imports = service.get_imports()
     for func in service.get_functions():
@@ -79,6 +89,7 @@ def pass_validate(service: ServiceObject):
         ids_parsed.append(evt.get_id())
 
     validate_string_arrays(service)
+    validate_variants(service)
 
     # also resolve all external types to gather a list of imports or usings
     resolve_all_types(service)
-- 
2.43.0


From a30cdd8a88130cc2558c6a653a155a98e5daad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:50 +0000
Subject: [PATCH 39/56] fix: error events without content fail whatever call is
 named by old memory

---
 runtime/client.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index 2c83927..29b4cc2 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -244,7 +244,10 @@ static int __listen(
             }
         } else if (messageType == MESSAGE_FLAG_EVENT) {
             if (GB_MSG_SID(&buffer) == SERVICE_GRACHT_CONTROL_ID) {
-                (void)__invoke_action(client, &buffer);
+                // errors consist of the id of the failed message and the reason, never go by shorter ones
+                if (GB_MSG_LEN(&buffer) >= GRACHT_MESSAGE_HEADER_SIZE + sizeof(uint32_t) + sizeof(int)) {
+                    (void)__invoke_action(client, &buffer);
+                }
             } else {
                 invoke = true;
             }
-- 
2.43.0


From 1c5b20993712588e7ab116372a15cb6c2cd2651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:55 +0000
Subject: [PATCH 40/56] fix: queue hands out the wrong items once its indices
 overflow

---
 runtime/queue.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/queue.c b/runtime/queue.c
index be6ca96..d90f6a9 100644
--- a/runtime/queue.c
+++ b/runtime/queue.c
@@ -92,5 +92,11 @@ void* gr_queue_dequeue(struct gr_queue* queue)
     }
 
     index = (queue->dequeue_index++) % queue->capacity;    
+
+    // keep the indices small, once they overflow they would not continue with the next element
+    if (queue->dequeue_index == queue->capacity) {
+        queue->dequeue_index = 0;
+        queue->queue_index  -= queue->capacity;
+    }
     return (void*)queue->elements[index];
 }
-- 
2.43.0


From af6dbe985055376181adc82f9ae67915a8572df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:26 +0000
Subject: [PATCH 41/56] fix: a client that keeps sending starves the other
 clients and prevents shutdown

---
 runtime/server.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 5077f52..9421a8b 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -38,6 +38,9 @@
 
 #define GRACHT_SERVER_MAX_LINKS 4
 
+// the number of messages that are handled for one client or link, before the other clients get their turn
+#define GRACHT_SERVER_MESSAGES_PER_EVENT 64
+
 #define GRACHT_CLIENT_FLAG_STREAM  0x1
 #define GRACHT_CLIENT_FLAG_CLEANUP 0x2
 
@@ -354,10 +357,12 @@ static void put_message_mt(struct gracht_server* server, struct gracht_message*
 
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
 {
-    int status;
+    int status = 0;
+    int i;
     GRTRACE(GRSTR("handle_packet"));
     
-    while (1) {
+    // the link is reported again if there are more packets
+    for (i = 0; i < GRACHT_SERVER_MESSAGES_PER_EVENT && server->state == RUNNING; i++) {
         struct gracht_message* message = server->ops->get_incoming_buffer(server);
         if (!message) {
             // leave it on the link untill the workers have caught up
@@ -394,6 +399,7 @@ static struct gracht_link* get_link_by_conn(struct gracht_server* server, gracht
 static int handle_client_event(struct gracht_server* server, gracht_conn_t handle, uint32_t events)
 {
     int status;
+    int i;
     GRTRACE(GRSTR("handle_client_event %" F_CONN_T ", 0x%x"), handle, events);
     
     if ((events & (GRACHT_AIO_EVENT_IN | GRACHT_AIO_EVENT_DISCONNECT)) || !events) {
@@ -409,7 +415,8 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
         }
         rwlock_r_unlock(&server->clients_lock);
 
-        while (entry) {
+        // the client is reported again if it has sent more messages
+        for (i = 0; entry && i < GRACHT_SERVER_MESSAGES_PER_EVENT && server->state == RUNNING; i++) {
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
                 // leave it on the link untill the workers have caught up
-- 
2.43.0


From 2105d843ed16f420913693f8a772ab9ccbb16f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:26 +0000
Subject: [PATCH 42/56] fix: malformed datagrams that keep coming starve the
 clients and prevent shutdown

---
 runtime/link/socket/server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 5b68313..52083bf 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -492,7 +492,6 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 #else
     intmax_t bytesRead;
 
-receivePacket:
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here. The address may be shorter than the space we reserve for it. Ask
     // for the real length of the packet, to not mistake the start of a larger packet for a message.
@@ -507,7 +506,8 @@ receivePacket:
     // discard packets that are not exactly one message
     if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE || bytesRead > (intmax_t)len || *((uint32_t*)&base[MSG_INDEX_LEN]) != (uint32_t)bytesRead) {
         GRWARNING(GRSTR("socket_link_recv_packet discarding malformed packet of %li bytes"), (long)bytesRead);
-        goto receivePacket;
+        errno = EAGAIN;
+        return -1;
     }
 #endif
 
-- 
2.43.0


From ef8131d77632e72be17aa30b1e79942140efd902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:51 +0000
Subject: [PATCH 43/56] fix: a datagram client is taken for a stream client if
 the checksum of its address equals the descriptor

---
 runtime/link/socket/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 52083bf..62214b6 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -518,7 +518,8 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 
     // ->server is set by server
     context->link   = link->base.connection;
-    context->client = (int)addressCrc;
+    // must never be the handle of a client that is connected to another link, those are descriptors
+    context->client = (int)(addressCrc | 0x80000000);
     context->index  = link->address_length;
     context->size   = (uint32_t)bytesRead + (uint32_t)link->address_length;
 
-- 
2.43.0


From 85be5b030eb3d4a8f52a70e588f3bdacbf6313b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:53 +0000
Subject: [PATCH 44/56] fix: imports of paths that contain .gr elsewhere than
 at the end

---
 generator/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index 833cf73..4f2c0dd 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -438,7 +438,7 @@ def skip_until(scanner: Scanner, data, marker):
 
 def handle_import(context, tokens):
     fileToImport = tokens[1].value()
-    if ".gr" not in fileToImport:
+    if not fileToImport.endswith(".gr"):
         fileToImport += ".gr"
 
     trace(f"importing {fileToImport}")
-- 
2.43.0


From 91cbd19726dda6660a439f4cf998802422e722b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:53 +0000
Subject: [PATCH 45/56] fix: a type defined by several namespaces gave code
 that does not compile

---
 generator/languages/langc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 4afe5e9..a2bc933 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -797,7 +797,8 @@ def define_type_serializers(service: ServiceObject, outfile: CodeWriter):
         # headers are only included for the types the service uses
         if defined_type.get_type_source() not in service.get_imports():
             continue
-        guard_name = defined_type.get_namespace().upper() + "_" + defined_type.get_type_name().upper()
+        # these are types of C, and have no namespace
+        guard_name = defined_type.get_type_name()
         outfile.write(f"#ifndef __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"#define __GRACHT_{guard_name}_DEFINED__\n")
         outfile.write(f"SERIALIZE_VALUE({defined_type.get_type_name()}, {defined_type.get_type_name()})\n")
-- 
2.43.0


From 4f7ddfdf6e78433f837cd4d230cee721909a5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:41 +0000
Subject: [PATCH 46/56] fix: a server that can not be created leaves its
 workers and descriptor behind

---
 runtime/server.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index 9421a8b..ebab994 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -150,8 +150,16 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
 
     status = configure_server(server, config);
     if (status) {
+        int reason = errno;
         GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
+        if (server->worker_pool) {
+            gracht_worker_pool_destroy(server->worker_pool);
+        }
+        if (server->set_handle != GRACHT_HANDLE_INVALID && !server->set_handle_provided) {
+            gracht_aio_destroy(server->set_handle);
+        }
         free(server);
+        errno = reason;
         return -1;
     }
 
-- 
2.43.0


From 61d0a7fdf12d71d5967aa3a77753da8dab2675e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 47/56] fix: size of the client's receive memory overflows for
 large message sizes

---
 runtime/client.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 29b4cc2..4b14452 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -511,7 +511,7 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
 {
     gracht_client_t* client;
     int              status;
-    int              arenaSize;
+    size_t           arenaSize;
     
     if (!config || !config->link || !clientOut) {
         GRERROR(GRSTR("[gracht] [client] config or config link was null"));
@@ -543,9 +543,9 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
         client->max_message_size = GRACHT_DEFAULT_MESSAGE_SIZE;
     }
     
-    arenaSize = config->recv_buffer_size;
-    if (arenaSize < (client->max_message_size * 2)) {
-        arenaSize = client->max_message_size * 2;
+    arenaSize = config->recv_buffer_size > 0 ? (size_t)config->recv_buffer_size : 0;
+    if (arenaSize < ((size_t)client->max_message_size * 2)) {
+        arenaSize = (size_t)client->max_message_size * 2;
     }
 
     // make room for the bookkeeping, so that two messages of the maximum size do fit
@@ -563,7 +563,7 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
         client->free_send_buffer = 1;
     }
     
-    status = gracht_arena_create((size_t)arenaSize, &client->arena);
+    status = gracht_arena_create(arenaSize, &client->arena);
     if (status) {
         GRERROR(GRSTR("gracht_client: failed to create the memory pool"));
         errno = (ENOMEM);
-- 
2.43.0


From 56556064c3f12f0006169c0975207a7e041d913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 48/56] fix: hash tables that can not be resized lose the
 element that is inserted or keep the one that is removed

---
 include/hashtable.h |  7 +++++++
 runtime/hashtable.c | 32 ++++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/include/hashtable.h b/include/hashtable.h
index 292bd22..8113497 100644
--- a/include/hashtable.h
+++ b/include/hashtable.h
@@ -63,6 +63,13 @@ int gr_hashtable_construct(gr_hashtable_t* hashtable, size_t requestCapacity, si
  */
 void gr_hashtable_destroy(gr_hashtable_t* hashtable);
 
+/**
+ * Makes sure there is room for another element, which gr_hashtable_set will then not fail to insert.
+ * @param hashtable The hashtable an element is about to be inserted into.
+ * @return          0 if there is room for another element, -1 if out of memory.
+ */
+int gr_hashtable_reserve(gr_hashtable_t* hashtable);
+
 /**
  * Inserts or replaces the element with the calculated hash. 
  * @param hashtable The hashtable the element should be inserted into.
diff --git a/runtime/hashtable.c b/runtime/hashtable.c
index 095323c..244ee62 100644
--- a/runtime/hashtable.c
+++ b/runtime/hashtable.c
@@ -35,7 +35,7 @@ struct hashtable_element {
     uint8_t  payload[];
 };
 
-#define SHOULD_GROW(hashtable)        (hashtable->element_count == hashtable->grow_count)
+#define SHOULD_GROW(hashtable)        (hashtable->element_count >= hashtable->grow_count)
 #define SHOULD_SHRINK(hashtable)      (hashtable->element_count == hashtable->shrink_count)
 
 #define GET_ELEMENT_ARRAY(hashtable, elements, index) (struct hashtable_element*)&((uint8_t*)elements)[index * hashtable->element_size]
@@ -105,6 +105,24 @@ void gr_hashtable_destroy(gr_hashtable_t* hashtable)
     }
 }
 
+int gr_hashtable_reserve(gr_hashtable_t* hashtable)
+{
+    if (!hashtable) {
+        errno = EINVAL;
+        return -1;
+    }
+
+    // Only resize on entry - that way we avoid any unneccessary resizing. If there is no memory for that, then
+    // continue with the free slots that are left, but the last one must stay free as it ends lookups
+    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1)) {
+        if (hashtable->element_count + 1 >= hashtable->capacity) {
+            errno = ENOMEM;
+            return -1;
+        }
+    }
+    return 0;
+}
+
 void* gr_hashtable_set(gr_hashtable_t* hashtable, const void* element)
 {
     if (!hashtable) {
@@ -116,9 +134,7 @@ void* gr_hashtable_set(gr_hashtable_t* hashtable, const void* element)
     struct hashtable_element* iterElement = (struct hashtable_element*)&elementBuffer[0];
     size_t                    index;
 
-    // Only resize on entry - that way we avoid any unneccessary resizing
-    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1)) {
-        errno = ENOMEM;
+    if (gr_hashtable_reserve(hashtable)) {
         return NULL;
     }
 
@@ -204,10 +220,10 @@ void* gr_hashtable_remove(gr_hashtable_t* hashtable, const void* key)
         return NULL;
     }
 
-    // Only resize on entry to avoid any unncessary resizes
-    if (SHOULD_SHRINK(hashtable) && hashtable_resize(hashtable, hashtable->capacity >> 1)) {
-        errno = ENOMEM;
-        return NULL;
+    // Only resize on entry to avoid any unncessary resizes. If there is no memory for a smaller table
+    // then keep the current one, the element must be removed in any case
+    if (SHOULD_SHRINK(hashtable)) {
+        (void)hashtable_resize(hashtable, hashtable->capacity >> 1);
     }
 
     hash  = hashtable->hash(key);
-- 
2.43.0


From fc20389f2ca0c96dcc40a7dc5a9bfc9a404e9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:38 +0000
Subject: [PATCH 49/56] fix: workers that can not be created were used and
 joined all the same

---
 runtime/dispatch_generic.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 87a224c..c55be06 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -53,7 +53,7 @@ struct gracht_worker_pool {
 };
 
 static int  worker_dowork(void*);
-static void initialize_worker(struct gracht_server*, struct gracht_worker*);
+static int  initialize_worker(struct gracht_server*, struct gracht_worker*);
 static void cleanup_worker(struct gracht_worker*);
 
 int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers, struct gracht_worker_pool** poolOut)
@@ -83,10 +83,16 @@ int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers,
     }
 
     pool->workers = workers;
-    pool->worker_count = numberOfWorkers;
+    pool->worker_count = 0;
     pool->rr_index = 0;
     for (i = 0; i < numberOfWorkers; i++) {
-        initialize_worker(server, &pool->workers[i]);
+        if (initialize_worker(server, &pool->workers[i])) {
+            int reason = errno;
+            gracht_worker_pool_destroy(pool);
+            errno = reason;
+            return -1;
+        }
+        pool->worker_count++;
     }
 
     *poolOut = pool;
@@ -143,20 +149,25 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
     }
 }
 
-static void initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
+static int initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
 {
     struct gracht_worker_context* context;
 
     context = malloc(sizeof(struct gracht_worker_context));
     if (!context) {
         GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker context"));
-        return;
+        errno = ENOMEM;
+        return -1;
     }
 
     context->worker = worker;
     context->server = server;
 
-    gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
+    if (gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE)) {
+        GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker queue"));
+        free(context);
+        return -1;
+    }
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
     cnd_init(&worker->space);
@@ -164,7 +175,12 @@ static void initialize_worker(struct gracht_server* server, struct gracht_worker
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
         GRERROR(GRSTR("initialize_worker: failed to create worker-thread"));
+        cleanup_worker(worker);
+        free(context);
+        errno = EAGAIN;
+        return -1;
     }
+    return 0;
 }
 
 static void cleanup_worker(struct gracht_worker* worker)
-- 
2.43.0


From 9f386e360080bd51b2f7f74ff9327aaca374aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 50/56] fix: server leaks a send buffer that it has no memory
 to keep

---
 include/stack.h  |  2 ++
 runtime/server.c |  6 ++++++
 runtime/stack.c  | 21 +++++++++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/include/stack.h b/include/stack.h
index 71a3a08..bce6176 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -27,11 +27,13 @@ struct stack {
     void** elements;
     size_t index;
     size_t count;
+    size_t reserved; // number of elements there must be room for
     mtx_t  lock;
 };
 
 int   stack_construct(struct stack* stack, size_t initialCount);
 void  stack_destroy(struct stack* stack);
+int   stack_reserve(struct stack* stack); // makes sure that one more element can be pushed without failing
 void  stack_push(struct stack* stack, void* pointer);
 void* stack_pop(struct stack* stack);
 
diff --git a/runtime/server.c b/runtime/server.c
index ebab994..b04de62 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -651,6 +651,12 @@ int gracht_server_get_buffer(gracht_server_t* server, gracht_buffer_t* buffer)
             errno = ENOMEM;
             return -1;
         }
+
+        // once it is returned there must be room to keep it
+        if (stack_reserve(&server->bufferStack)) {
+            free(data);
+            return -1;
+        }
     }
 
     // this should always return a safe buffer to use for the request
diff --git a/runtime/stack.c b/runtime/stack.c
index 60a13e8..348cd58 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -39,6 +39,7 @@ int stack_construct(struct stack* stack, size_t initialCount)
     stack->elements = space;
     stack->index    = 0;
     stack->count    = initialCount;
+    stack->reserved = 0;
     return 0;
 }
 
@@ -66,6 +67,26 @@ static int stack_resize(struct stack* stack, size_t newSize)
     return 0;
 }
 
+int stack_reserve(struct stack* stack)
+{
+    int status = 0;
+
+    if (!stack) {
+        errno = EINVAL;
+        return -1;
+    }
+
+    mtx_lock(&stack->lock);
+    if (stack->reserved == stack->count) {
+        status = stack_resize(stack, stack->count * 2);
+    }
+    if (!status) {
+        stack->reserved++;
+    }
+    mtx_unlock(&stack->lock);
+    return status;
+}
+
 void stack_push(struct stack* stack, void* pointer)
 {
     if (!stack || !pointer) {
-- 
2.43.0


From e27547ff64789e0ded97b414f90a9030fb2844e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:29 +0000
Subject: [PATCH 51/56] fix: a server is created without the tables and memory
 it could not get

---
 runtime/server.c | 65 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index b04de62..9bef516 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -134,6 +134,7 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
 {
     gracht_server_t* server;
     int              status;
+    int              reason;
 
     if (!config || !serverOut) {
         errno = EINVAL;
@@ -148,35 +149,63 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     memset(server, 0, sizeof(gracht_server_t));
     server->set_handle = GRACHT_HANDLE_INVALID;
 
+    // initialize static members of the instance
+    rwlock_init(&server->protocols_lock);
+    rwlock_init(&server->clients_lock);
+    status = stack_construct(&server->bufferStack, 8);
+    if (status) {
+        goto error;
+    }
+
+    status = gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
+    if (status) {
+        goto error;
+    }
+
+    status = gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp);
+    if (status) {
+        goto error;
+    }
+
     status = configure_server(server, config);
     if (status) {
-        int reason = errno;
         GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
-        if (server->worker_pool) {
-            gracht_worker_pool_destroy(server->worker_pool);
-        }
-        if (server->set_handle != GRACHT_HANDLE_INVALID && !server->set_handle_provided) {
-            gracht_aio_destroy(server->set_handle);
-        }
-        free(server);
-        errno = reason;
-        return -1;
+        goto error;
     }
 
-    // initialize static members of the instance
-    rwlock_init(&server->protocols_lock);
-    rwlock_init(&server->clients_lock);
-    gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp);
-    stack_construct(&server->bufferStack, 8);
-
     // everything is set up - update state before registering control protocol
     server->state = RUNNING;
 
-    gracht_server_register_protocol(server, &gracht_control_server_protocol);
+    status = gracht_server_register_protocol(server, &gracht_control_server_protocol);
+    if (status) {
+        goto error;
+    }
 
     *serverOut = server;
     return 0;
+
+error:
+    reason = errno;
+    if (server->worker_pool) {
+        gracht_worker_pool_destroy(server->worker_pool);
+    }
+    if (server->set_handle != GRACHT_HANDLE_INVALID && !server->set_handle_provided) {
+        gracht_aio_destroy(server->set_handle);
+    }
+    if (server->arena) {
+        gracht_arena_destroy(server->arena);
+    }
+    free(server->recvBuffer);
+    gr_hashtable_destroy(&server->clients);
+    gr_hashtable_destroy(&server->protocols);
+    if (server->bufferStack.elements) {
+        stack_destroy(&server->bufferStack);
+    }
+    rwlock_destroy(&server->clients_lock);
+    rwlock_destroy(&server->protocols_lock);
+    free(server);
+    errno = reason;
+    return -1;
 }
 
 static int configure_server(struct gracht_server* server, gracht_server_configuration_t* configuration)
-- 
2.43.0


From 74b5d573bc3d1470aeef0793cd2df81421135757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:29 +0000
Subject: [PATCH 52/56] fix: a client is created without the tables it could
 not get

---
 runtime/client.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 4b14452..aac8e40 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -530,8 +530,12 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     mtx_init(&client->send_buffer_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
     cnd_init(&client->messages_event);
-    gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
+    if (gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
+        gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp)) {
+        GRERROR(GRSTR("gracht_client: failed to allocate memory for protocols and messages"));
+        errno = (ENOMEM);
+        goto error;
+    }
 
     client->link = config->link;
     client->iod = GRACHT_CONN_INVALID;
-- 
2.43.0


From 78f1d69ff0acff0f0b065718d00d55a95634d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:29 +0000
Subject: [PATCH 53/56] fix: calls and protocols there is no memory to keep
 were accepted all the same

---
 runtime/client.c | 12 +++++++++++-
 runtime/server.c |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index aac8e40..5c19fe0 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -90,6 +90,10 @@ static int __add_message(
     entry.status = GRACHT_MESSAGE_INPROGRESS;
 
     mtx_lock(&client->messages_lock);
+    if (gr_hashtable_reserve(&client->messages)) {
+        mtx_unlock(&client->messages_lock);
+        return -1;
+    }
     gr_hashtable_set(&client->messages, &entry);
     mtx_unlock(&client->messages_lock);
     return 0;
@@ -575,7 +579,10 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     }
 
     // register the control protocol
-    gracht_client_register_protocol(client, &gracht_control_client_protocol);
+    status = gracht_client_register_protocol(client, &gracht_control_client_protocol);
+    if (status) {
+        goto error;
+    }
     *clientOut = client;
     goto exit;
     
@@ -653,6 +660,9 @@ int gracht_client_register_protocol(gracht_client_t* client, gracht_protocol_t*
         return -1;
     }
     
+    if (gr_hashtable_reserve(&client->protocols)) {
+        return -1;
+    }
     gr_hashtable_set(&client->protocols, protocol);
     return 0;
 }
diff --git a/runtime/server.c b/runtime/server.c
index 9bef516..68dfaaa 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -812,6 +812,10 @@ int gracht_server_register_protocol(gracht_server_t* server, gracht_protocol_t*
         errno = EEXIST;
         return -1;
     }
+    if (gr_hashtable_reserve(&server->protocols)) {
+        rwlock_w_unlock(&server->protocols_lock);
+        return -1;
+    }
     gr_hashtable_set(&server->protocols, protocol);
     rwlock_w_unlock(&server->protocols_lock);
     return 0;
-- 
2.43.0


From a00238cec7125b8b6b3d69c3682ed8a1b097088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 54/56] fix: sockets that can not be polled were accepted and
 served never

---
 runtime/link/socket/server.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 62214b6..25faa04 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -290,7 +290,8 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            goto error;
         }
 
 #ifdef _WIN32
@@ -335,7 +336,8 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            goto error;
         }
 
 #ifdef _WIN32
@@ -440,7 +442,13 @@ static int socket_link_accept(
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
-        GRWARNING(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        int reason = errno;
+        GRERROR(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        close(client->socket);
+        mtx_destroy(&client->send_lock);
+        free(client);
+        errno = reason;
+        return -1;
     }
     
     *clientOut = &client->base;
-- 
2.43.0


From 1de85e894a7619bdb538679000f781614b7b4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 55/56] fix: a client the server has no memory to keep is lost
 or served half

---
 runtime/server.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index 68dfaaa..5ef5a50 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -318,6 +318,13 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
     memset(&client->subscriptions[0], 0xFF, sizeof(client->subscriptions));
     
     rwlock_w_lock(&server->clients_lock);
+    if (gr_hashtable_reserve(&server->clients)) {
+        rwlock_w_unlock(&server->clients_lock);
+        GRERROR(GRSTR("gracht_server: no memory to keep the client"));
+        link->ops.server.destroy_client(client, server->set_handle);
+        errno = ENOMEM;
+        return -1;
+    }
     gr_hashtable_set(&server->clients, &(struct client_wrapper) { 
         .handle = client->handle,
         .link = link,
@@ -939,7 +946,7 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
     if (!entry) {
         // lookup the connection as the client wasn't recorded on a specific link
         newEntry.link = get_link_by_conn(message->server, message->link);
-        if (!newEntry.link ||
+        if (!newEntry.link || gr_hashtable_reserve(&message->server->clients) ||
             newEntry.link->ops.server.create_client(newEntry.link, (struct gracht_message*)message, &newEntry.client)) {
             rwlock_w_unlock(&message->server->clients_lock);
             GRERROR(GRSTR("gracht_control_subscribe_invocation server_object.link->create_client returned error"));
-- 
2.43.0


From 0b9fdea32a6e673d34d23b9438f8c9aae1692db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 56/56] fix: a message that is sent in part garbles all that
 follow it

---
 runtime/link/socket/shared.c    | 7 +++++++
 runtime/link/socket/socket_os.h | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/runtime/link/socket/shared.c b/runtime/link/socket/shared.c
index d9bb2c3..85a755f 100644
--- a/runtime/link/socket/shared.c
+++ b/runtime/link/socket/shared.c
@@ -135,6 +135,13 @@ int socket_send_message(gracht_conn_t socket, const char* buffer, uint32_t lengt
             if (errno == EINTR) {
                 continue;
             }
+
+            // the rest of a message never follows, so neither must any other message
+            if (sent) {
+                int reason = errno;
+                shutdown(socket, SHUT_RDWR);
+                errno = reason;
+            }
             return -1;
         }
         sent  += (uint32_t)bytesSent;
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index be42f20..b4f34aa 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -58,6 +58,8 @@ static int socket_aio_add(int aio, int iod) {
 #elif defined(_WIN32)
 #include <windows.h>
 #include <mswsock.h>
+
+#define SHUT_RDWR SD_BOTH
 #include "aio.h"
 #include <io.h>
 #include <stdlib.h>
-- 
2.43.0

