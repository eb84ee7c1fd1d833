From f98d776dd644116c61de3734df5dd347e93d29b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 01/46] fix: cache shard index is negative for the smallest
 integer key

abs(INT_MIN) is not representable, so the remainder could be negative and
select memory before the first shard. Take the remainder first.
---
 cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index 279e989..997f734 100644
--- a/cache.c
+++ b/cache.c
@@ -385,7 +385,7 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 	fiftyoneDegreesException *exception) {
 	CacheNode *node;
 	int64_t keyHash = cache->hash(key);
-	CacheShard *shard = &cache->shards[abs((int)keyHash) % cache->concurrency];
+	CacheShard *shard = &cache->shards[abs((int)keyHash % cache->concurrency)];
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_LOCK(&shard->lock);
-- 
2.43.0


From ad1abf59c1ee03168e27b5b9b2f283eaf78088f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:39 +0000
Subject: [PATCH 02/46] fix: cache entry lost for ever when its loader fails

The entry stayed marked as active although the collection that asked for it
never releases an entry it got with an exception, so every failed load took
one entry out of the cache until nothing could be loaded any more.
---
 cache.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index 997f734..7071cff 100644
--- a/cache.c
+++ b/cache.c
@@ -206,6 +206,25 @@ static void cacheAddToHead(CacheNode *node) {
 	assert(node->shard->last->listNext == NULL);
 }
 
+/**
+ * Adds the node into the linked list at the tail so that it's the first node
+ * to be used for another entry.
+ * @param node to add
+ */
+static void cacheAddToTail(CacheNode *node) {
+	CacheShard *shard = node->shard;
+	assert(node->listNext == NULL);
+	assert(node->listPrevious == NULL);
+	node->listPrevious = shard->last;
+	if (shard->last != NULL) {
+		shard->last->listNext = node;
+	}
+	else {
+		shard->first = node;
+	}
+	shard->last = node;
+}
+
 /**
  * Returns the next free node from the cache which can be used to add a
  * new entry to. Once the cache is full then the node returned is the one
@@ -263,7 +282,7 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
  * @param shard dictated by the key
  * @param key to get or load
  * @return pointer to the node with data for the key, or NULL if there are no 
- * free nodes
+ * free nodes or the data could not be loaded
  */
 static CacheNode* cacheLoad(
 	CacheShard *shard, 
@@ -286,6 +305,13 @@ static CacheNode* cacheLoad(
 			node->tree.key = shard->cache->hash(key);
 			TreeInsert(&node->tree);
 		}
+		else {
+			// The caller has nothing to release, so make the node available
+			// for another key.
+			node->activeCount = 0;
+			cacheAddToTail(node);
+			node = NULL;
+		}
 	}
 	return node;
 }
-- 
2.43.0


From 144159b7754e388c3623ed0500c5e4fbbf67033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 03/46] fix: file pool reports success when the file length can
 not be found

A failed seek or tell gives a length of -1 which was taken for a valid one.
---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index b518a4b..9401b00 100644
--- a/file.c
+++ b/file.c
@@ -975,7 +975,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			freeFileHandle,
 			exception) != NULL &&
 		EXCEPTION_OKAY) {
-		if (setLength(filePool, exception) == 0) {
+		if (setLength(filePool, exception) <= 0) {
 			status = FILE_FAILURE;
 		}
 	}
-- 
2.43.0


From e9ef88c52bc8dca3a69b1b2a596ed7fdd67cd0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 04/46] fix: pool with the largest concurrency overruns its
 stack

65535 plus the null item does not fit the 16 bit counters, so no memory was
allocated for the items written.
---
 pool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pool.c b/pool.c
index d23cd84..94d3f54 100644
--- a/pool.c
+++ b/pool.c
@@ -31,13 +31,13 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 	fiftyoneDegreesPoolResourceCreate resourceCreate,
 	fiftyoneDegreesPoolResourceFree resourceFree,
 	fiftyoneDegreesException *exception) {
-	uint16_t i = 1;
+	uint32_t i = 1;
 	PoolItem *item;
 
 	// Add one to the concurrency value so that a NULL marker can be 
 	// written as the last item in the linked list that if returned
 	// indicates that the concurrency has been exceeded.
-	uint16_t listItems = concurrency + 1;
+	uint32_t listItems = (uint32_t)concurrency + 1;
 
 	// Set the stack and head of the linked list.
 	pool->count = 0;
@@ -62,7 +62,7 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 			item->resource = resourceCreate(pool, state, exception);
 			pool->count++;
 			item->next = pool->head.values.index;
-			pool->head.values.index = i;
+			pool->head.values.index = (uint16_t)i;
 			i++;
 		}
 	}
@@ -133,7 +133,7 @@ void fiftyoneDegreesPoolReset(fiftyoneDegreesPool *pool) {
 
 void fiftyoneDegreesPoolFree(fiftyoneDegreesPool *pool) {
 	void *resource;
-	uint16_t i;
+	uint32_t i;
 	if (pool->stack != NULL) {
 		if (pool->resourceFree != NULL) {
 			for (i = 0; i <= pool->count; i++) {
-- 
2.43.0


From 1e54d86f0744ca80928fdfc5e7e425a2d86a4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 05/46] fix: resource handle used after free and lost when
 replaced concurrently

Acquiring a handle read the counter of a handle that another thread could
already have freed. A retired handle could be incremented and freed again, and
the result of the compare and swap of the active handle in the replace method
was ignored, so that concurrent replacements lost a resource. Running out of
memory for a handle dereferenced null.
---
 resource.c | 163 +++++++++++++++++++++++++++++++----------------------
 resource.h |   7 +++
 2 files changed, 103 insertions(+), 67 deletions(-)

diff --git a/resource.c b/resource.c
index 833140c..4550405 100644
--- a/resource.c
+++ b/resource.c
@@ -137,6 +137,10 @@ static void setupResource(
 		MallocAligned(
 			sizeof(InterlockDoubleWidth),
 			sizeof(ResourceHandle));
+	if (handle == NULL) {
+		*resourceHandle = NULL;
+		return;
+	}
 
 	// Set the handle and the number of users of the resource to zero.
 	handle->counter = emptyCounter();
@@ -160,10 +164,52 @@ static void setupResource(
 }
 
 static void freeHandle(volatile ResourceHandle *handle) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	// The handle is not the active one any more, but another thread could have
+	// read it from the manager just before it was replaced and be about to
+	// find out that it has been retired. Wait until no thread can be doing so.
+	ResourceManager *manager = (ResourceManager*)handle->manager;
+	if (manager != NULL) {
+		while (INTERLOCK_EXCHANGE(manager->acquiring, 0, 0) != 0) {}
+	}
+#endif
 	handle->freeResource((void*)handle->resource);
 	FreeAligned((void*)handle);
 }
 
+/**
+ * Marks a handle which is no longer the active handle of its manager as
+ * retired by setting the self pointer in its counter to null. No more users can
+ * be added to a retired handle, and the user who decrements its counter to zero
+ * is the only one that frees it. The caller must be a user of the handle.
+ * @param handle to be retired
+ */
+static void retireHandle(volatile ResourceHandle *handle) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	COUNTER retired;
+	COUNTER compare;
+	do {
+		compare = handle->counter;
+		retired = compare;
+		setHandle(&retired, NULL);
+#ifdef _MSC_VER
+// Disable warning against the difference in the use of 'volatile' qualifier.
+// Casting won't resolve the issue which is described above with the definitions 
+// of COUNTER and HANDLE macros.
+#pragma warning (disable: 4090)
+#endif
+	} while (FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
+		handle->counter,
+		retired,
+		compare) == false);
+#ifdef _MSC_VER
+#pragma warning (default: 4090)
+#endif
+#else
+	setHandle(&handle->counter, NULL);
+#endif
+}
+
 void fiftyoneDegreesResourceManagerInit(
 	fiftyoneDegreesResourceManager *manager,
 	void *resource,
@@ -173,6 +219,9 @@ void fiftyoneDegreesResourceManagerInit(
 	// Initialise the manager with the resource ensuring that the resources
 	// handle is set before it's made the active resource.
 	setupResource(manager, resource, resourceHandle, freeResource);
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	manager->acquiring = 0;
+#endif
 	manager->active = *resourceHandle;
 }
 
@@ -181,28 +230,25 @@ void fiftyoneDegreesResourceManagerFree(
 	// Unlike IncUse and DecUse, Free should not be
 	// called at the same time as a reload so the 
 	// active handle won't change at this point.
-	// Thus, it is safe to perform assertion directly
-	// to the active handle here. 
-	assert(getInUse(&manager->active->counter) >= 0);
 	if (manager->active != NULL) {
+		ResourceHandle *handle = ResourceHandleIncUse(manager);
+		manager->active = NULL;
 
-		ResourceHandle* newHandlePointer;
-		fiftyoneDegreesResourceReplace(
-			manager,
-			NULL,
-			&newHandlePointer);
-		FreeAligned(newHandlePointer);
+		// The manager might not exist any more when the last user releases
+		// the handle.
+		handle->manager = NULL;
+		retireHandle(handle);
+		ResourceHandleDecUse(handle);
 	}
 }
 
 void fiftyoneDegreesResourceHandleDecUse(
 	fiftyoneDegreesResourceHandle *handle) {
-	// When modifying this method, it is important to note the reason for using
-	// two separate compareand swaps. The first compare and swap ensures that
-	// we are certain the handle is ready to be released i.e. the inUse counter
-	// is zero, and the handle is no longer active in the manager. The second
-	// compare and swap ensures that we are certain the handle can be freed by
-	// THIS thread. See below for an example of when this can happen.
+	// When modifying this method, it is important to note that the handle must
+	// not be used after the counter has been decremented, unless this is the
+	// thread that has to free it. The decrement which results in a counter with
+	// zero users and the self pointer set to null happens exactly once because
+	// users can't be added to a handle that has been retired.
 	COUNTER decremented;
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	COUNTER compare;
@@ -233,40 +279,8 @@ void fiftyoneDegreesResourceHandleDecUse(
 #endif
 	assert(getInUse(&decremented) >= 0);
 	if (getInUse(&decremented) == 0 &&  // Am I the last user of the handle?
-		handle->manager->active != getHandle(&decremented)) { // Is the handle still active?
-#ifndef FIFTYONE_DEGREES_NO_THREADING
-		// Atomically set the handle's self pointer to null to ensure only
-		// one thread can get into the freeHandle method.
-		// Consider the scenario where between the decrement this if statement:
-		// 1. another thread increments and decrements the counter, then
-		// 2. the active handle is replaced.
-		// In this case, both threads will make it into here, so access to
-		// the freeHandle method must be limted to one by atomically nulling
-		// the self pointer. We will still have access to the pointer for
-		// freeing through the decremented copy.
-		COUNTER empty = emptyCounter();
-		assert((uintptr_t)&getHandle(&decremented)->counter % ALIGN_SIZE == 0);
-		assert((uintptr_t)&empty % ALIGN_SIZE == 0);
-		assert((uintptr_t)&decremented % ALIGN_SIZE == 0);
-#ifdef _MSC_VER
-// Disable warning against the difference in the use of 'volatile' qualifier.
-// Casting won't resolve the issue which is described above with the definitions 
-// of COUNTER and HANDLE macros.
-#pragma warning (disable: 4090)
-#endif
-		if (FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
-			getHandle(&decremented)->counter,
-			empty,
-			decremented)) {
-#ifdef _MSC_VER
-#pragma warning (default: 4090)
-#endif
-			assert(handle != handle->manager->active);
-			freeHandle(getHandle(&decremented));
-		}
-#else
-		freeHandle(getHandle(&decremented));
-#endif
+		getHandle(&decremented) == NULL) { // Has the handle been retired?
+		freeHandle(handle);
 	}
 }
 
@@ -275,27 +289,40 @@ fiftyoneDegreesResourceHandle* fiftyoneDegreesResourceHandleIncUse(
 	COUNTER incremented;
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	COUNTER compare;
+	volatile ResourceHandle *handle;
+
+	// Prevent the handle being freed until its counter has been incremented.
+	INTERLOCK_INC(&manager->acquiring);
 	do {
-		compare = manager->active->counter;
+		handle = (volatile ResourceHandle*)INTERLOCK_EXCHANGE_PTR(
+			manager->active,
+			NULL,
+			NULL);
+		compare = handle->counter;
 		assert(getInUse(&compare) >= 0);
 		incremented = compare;
 		add(&incremented, 1);
-		assert((uintptr_t)&manager->active->counter % ALIGN_SIZE == 0);
+		assert((uintptr_t)&handle->counter % ALIGN_SIZE == 0);
 		assert((uintptr_t)&incremented % ALIGN_SIZE == 0);
 		assert((uintptr_t)&compare % ALIGN_SIZE == 0);
+
+		// If the handle was retired after being read from the manager then
+		// there is another active handle.
 #ifdef _MSC_VER
 // Disable warning against the difference in the use of 'volatile' qualifier.
 // Casting won't resolve the issue which is described above with the definitions 
 // of COUNTER and HANDLE macros.
 #pragma warning (disable: 4090)
 #endif
-	} while (FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
-		manager->active->counter,
+	} while (getHandle(&compare) == NULL ||
+		FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
+		handle->counter,
 		incremented,
 		compare) == false);
 #ifdef _MSC_VER
 #pragma warning (default: 4090)
 #endif
+	INTERLOCK_DEC(&manager->acquiring);
 #else
 	add(&manager->active->counter, 1);
 	incremented = manager->active->counter;
@@ -324,35 +351,37 @@ void fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle) {
-	HANDLE* oldHandle = NULL;
-	
+	HANDLE* oldHandle = ResourceHandleIncUse(manager);
+
 	// Add the new resource to the manager replacing the existing one.
 	setupResource(
 		manager,
 		newResource,
 		newResourceHandle,
-		manager->active->freeResource);
+		oldHandle->freeResource);
+	if (*newResourceHandle == NULL) {
+		ResourceHandleDecUse(oldHandle);
+		return;
+	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	// Switch the active handle for the manager to the newly created one.
-	do {
-		if (oldHandle != NULL) {
-			ResourceHandleDecUse(oldHandle);
-		}
-		oldHandle = ResourceHandleIncUse(manager);
-	} while (INTERLOCK_EXCHANGE_PTR(
+	while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) == false);
+		oldHandle) != oldHandle) {
+		ResourceHandleDecUse(oldHandle);
+		oldHandle = ResourceHandleIncUse(manager);
+	}
 #else
-	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
 #endif
-	// Release the existing resource can be freed. If nothing else is
-	// holding onto a reference to it then free it will be freed.
+	// Release the existing resource so it can be freed. If nothing else is
+	// holding onto a reference to it then it will be freed.
+	retireHandle(oldHandle);
 	ResourceHandleDecUse(oldHandle);
 }
 #ifdef _MSC_VER
 #pragma warning (default: 4090)
-#endif
\ No newline at end of file
+#endif
diff --git a/resource.h b/resource.h
index 3300772..0b89505 100644
--- a/resource.h
+++ b/resource.h
@@ -175,6 +175,9 @@ typedef struct fiftyone_degrees_resource_manager_t {
     volatile fiftyoneDegreesResourceHandle *active; /**< Current handle
                                                     for resource used 
                                                     by the manager. */
+    volatile long acquiring; /**< Number of threads reading the active handle
+                             in order to increment its counter. A handle is
+                             not freed while there are any. */
 #else
 	fiftyoneDegreesResourceHandle *active; /**< Non volatile current handle for
 										   the resource used by the manager. */
@@ -187,6 +190,8 @@ typedef struct fiftyone_degrees_resource_manager_t {
  * The resourceHandle parameter must point to the handle within the resource
  * under management so that the handle can be assigned to the resource before
  * the resource is placed under management.
+ * If there is insufficient memory for the handle then it is set to NULL, and
+ * the resource is not managed.
  *
  * @param manager the resource manager to initialise with the resource
  * @param resource pointer to the resource which the manager should manage
@@ -243,6 +248,8 @@ EXTERNAL int32_t fiftyoneDegreesResourceHandleGetUse(
  * Replaces the resource with the new resource. If the existing resource is 
  * not being used it will be freed. Otherwise it is left to the decrement 
  * function to free the resource when the usage count is zero.
+ * If there is insufficient memory for the new handle then it is set to NULL,
+ * and the existing resource is not replaced.
  * @param manager the resource manager to initialise with the resource
  * @param newResource pointer to the resource which the manager should manage
  * access to
-- 
2.43.0


From 7a5eb6eb92d768986781e2d9bc086edba2eb7c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 06/46] fix: failed collection reads return other items,
 dangling memory or no error

A partly loaded collection returned the previous contents of the item when the
next collection failed to get it. The memory freed by a failed read, or owned by
the cache, stayed in the item to be reused. Running out of memory in the cache
loader, and a cache without capacity, were not reported.
---
 collection.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/collection.c b/collection.c
index 5014005..fb05b35 100644
--- a/collection.c
+++ b/collection.c
@@ -106,6 +106,9 @@ static void releaseNothing(Item *item) {
 static void releaseCache(Item *item) {
 	if (item->handle != NULL) {
 		CacheRelease((CacheNode*)item->handle);
+
+		// The memory belongs to the cache and must not be reused by the item.
+		DataReset(&item->data);
 		item->handle = NULL;
 	}
 }
@@ -238,7 +241,11 @@ static void* getPartialVariable(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, offset, item, exception);
+		return collection->next->get(
+			collection->next,
+			offset,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_OFFSET_OUT_OF_RANGE);
@@ -261,7 +268,11 @@ static void* getPartialFixed(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, index, item, exception);
+		return collection->next->get(
+			collection->next,
+			index,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
@@ -337,6 +348,12 @@ static void* getFromCache(
 	else {
 		item->data.used = 0;
 		item->handle = NULL;
+
+		// If the cache does not have the capacity for another item then it
+		// returns NULL without an exception.
+		if (EXCEPTION_OKAY) {
+			EXCEPTION_SET(COLLECTION_FAILURE);
+		}
 	}
 
 	return ptr;
@@ -372,11 +389,13 @@ static void loaderCache(
 
 		// If the item from the source collection has bytes then copy them into
 		// the cache node item ensuring sufficient memory is allocated first.
-		if (item.data.used > 0 &&
-			DataMalloc(data, item.data.allocated) != NULL) {
+		if (item.data.used > 0) {
+			if (DataMalloc(data, item.data.allocated) == NULL) {
+				EXCEPTION_SET(INSUFFICIENT_MEMORY);
+			}
 
 			// Copy the data from the collection into the cache.
-			if (memcpy(
+			else if (memcpy(
 				data->ptr,
 				item.data.ptr,
 				item.data.used) == data->ptr) {
@@ -1014,6 +1033,7 @@ void* fiftyoneDegreesCollectionReadFileFixed(
 					// The read failed so free the memory allocated and set the
 					// status code.
 					Free(data->ptr);
+					DataReset(data);
 					EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 				}
 			}
@@ -1078,6 +1098,7 @@ static void* readFileVariable(
 					}
 					else {
 						Free(data->ptr);
+						DataReset(data);
 						EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 					}
 				}
-- 
2.43.0


From 4dde8858ea6ea9ba69b403846afabeffc511bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 07/46] fix: collection creation crashes or leaks when memory
 or the file fails

---
 collection.c | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/collection.c b/collection.c
index fb05b35..679795d 100644
--- a/collection.c
+++ b/collection.c
@@ -177,6 +177,11 @@ static void freeCacheCollection(Collection *collection) {
 		// Free the cache itself.
 		CacheFree(cache->cache);
 	}
+	else if (cache->source != NULL) {
+
+		// The cache was not created so only the source needs to be freed.
+		cache->source->freeCollection(cache->source);
+	}
 	freeCollection(collection);
 }
 
@@ -536,6 +541,9 @@ static CollectionFile* readFile(CollectionFile *fileCollection, FILE *file) {
 
 	// Record the offset in the source file to the collection.
 	fileCollection->offset = ftell(file);
+	if (fileCollection->offset < 0) {
+		return NULL;
+	}
 
 	// Move the file handle past the collection.
 	if (fseek(file, fileCollection->collection->size, SEEK_CUR) != 0) {
@@ -555,6 +563,9 @@ static Collection* createFromFile(
 	Collection *collection = createCollection(
 		sizeof(CollectionFile),
 		header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionFile *fileCollection = (CollectionFile*)collection->state;
 	fileCollection->collection = collection;
 	fileCollection->reader = reader;
@@ -587,9 +598,18 @@ static Collection* createFromFilePartial(
 
 	// Create a file collection to populate the memory collection.
 	Collection *source = createFromFile(file, reader, header, read);
+	if (source == NULL) {
+		return NULL;
+	}
 
 	// Allocate the memory for the collection and implementation.
-	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	Collection *collection = createCollection(
+		sizeof(CollectionMemory),
+		header);
+	if (collection == NULL) {
+		source->freeCollection(source);
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 	memory->memoryToFree = NULL;
 	memory->collection = collection;
@@ -669,7 +689,12 @@ static Collection* createFromFileCached(
 	CollectionFileRead read) {
 
 	// Allocate the memory for the collection and implementation.
-	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	Collection *collection = createCollection(
+		sizeof(CollectionCache),
+		header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionCache *cache = (CollectionCache*)collection->state;
 	cache->cache = NULL;
 
@@ -789,6 +814,9 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromMemory(
 	Collection *collection = createCollection(
 		sizeof(CollectionMemory),
 		&header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 
 	// Configure the fields for the collection.
@@ -870,6 +898,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 #ifndef FIFTYONE_DEGREES_MEMORY_ONLY
 
 	Collection **next = &result;
+	long position = 0;
 
 	if (config->loaded > 0) {
 
@@ -890,11 +919,18 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 		}
 		// Point to the next collection to create.
 		next = &result->next;
+
+		// Find the end of the collection in the file.
+		position = ftell(file);
+		if (position < 0) {
+			result->freeCollection(result);
+			return NULL;
+		}
 	}
 
 	if (result == NULL || (
 		result->count == config->loaded &&
-		(long)result->size < (long)(ftell(file) - header.startPosition))) {
+		(long)result->size < (long)(position - header.startPosition))) {
 
 		// Create the next collection if one is needed.
 		*next = createFromFileSecond(file, reader, config, header, read);
@@ -933,13 +969,13 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 
 	// Position the file reader at the start of the collection.
 	if (fseek(file, header.startPosition, SEEK_SET) != 0) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
 	// Read the portion of the file into memory.
 	if (fread(memory.startByte, 1, header.length, file) != header.length) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
@@ -947,7 +983,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	result = CollectionCreateFromMemory(&memory, header);
 
 	if (result == NULL) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
-- 
2.43.0


From 8a3857d5c28a67cf40db55358f9692ab81f4df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:35 +0000
Subject: [PATCH 08/46] fix: truncated collection headers and items are read
 out of bounds

---
 collection.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/collection.c b/collection.c
index 679795d..93ee463 100644
--- a/collection.c
+++ b/collection.c
@@ -778,14 +778,21 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 	uint32_t elementSize,
 	bool isCount) {
 	CollectionHeader header;
+	uint32_t sizeOrCount = 0;
+
+	// Get the size or count if there are enough bytes left.
+	if ((size_t)(reader->lastByte - reader->current) >= sizeof(uint32_t)) {
+		sizeOrCount = *(const uint32_t*)reader->current;
+	}
+
 	if (isCount) {
 		// The next integer is the count of items in the data structure.
-		header.count = *(uint32_t*)reader->current;
+		header.count = sizeOrCount;
 		header.length = header.count * elementSize;
 	}
 	else {
 		// The next integer is the size of the data structure.
-		header.length = *(const uint32_t*)reader->current;
+		header.length = sizeOrCount;
 		header.count = elementSize > 0 ? header.length / elementSize : 0;
 	}
 
@@ -862,6 +869,10 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	bool isCount) {
 	fiftyoneDegreesCollectionHeader header;
 	uint32_t sizeOrCount;
+	long position;
+
+	// The start position is zero if the header can not be read.
+	memset(&header, 0, sizeof(header));
 
 	// Get the size or count of the data structure in bytes.
 	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1) {
@@ -875,10 +886,8 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 			header.length = sizeOrCount;
 			header.count = elementSize > 0 ? header.length / elementSize : 0;
 		}
-		header.startPosition = (uint32_t)ftell(file);
-	}
-	else {
-		header.startPosition = 0;
+		position = ftell(file);
+		header.startPosition = position < 0 ? 0 : (uint32_t)position;
 	}
 
 	return header;
@@ -895,6 +904,12 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	fiftyoneDegreesCollectionFileRead read) {
 	Collection *result = NULL;
 
+	// The header always comes before the items so if the start position is not
+	// set then the header could not be read.
+	if (header.startPosition == 0) {
+		return NULL;
+	}
+
 #ifndef FIFTYONE_DEGREES_MEMORY_ONLY
 
 	Collection **next = &result;
@@ -1112,10 +1127,15 @@ static void* readFileVariable(
 			// Calculate the number of bytes needed to store the item.
 			bytesNeeded = getFinalSize(initial);
 
+			// The item can't be smaller than the part already read.
+			if (bytesNeeded < initialSize) {
+				EXCEPTION_SET(CORRUPT_DATA);
+			}
+
 			// Ensure sufficient memory is allocated for the item being
 			// read and that the header is copied to the data buffer
 			// provided by the caller.
-			if (DataMalloc(data, bytesNeeded) != NULL &&
+			else if (DataMalloc(data, bytesNeeded) != NULL &&
 				memcpy(data->ptr, initial, initialSize) == data->ptr) {
 
 				// Read the rest of the item into the item's data 
-- 
2.43.0


From 0e390a22c6cedb99f486a0cf6c650738375547b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 09/46] fix: binary search keeps the item when the comparer
 fails

---
 collection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collection.c b/collection.c
index 93ee463..3e4e0a4 100644
--- a/collection.c
+++ b/collection.c
@@ -1279,6 +1279,7 @@ long fiftyoneDegreesCollectionBinarySearch(
 		// just returned.
 		comparisonResult = comparer(state, item, middle, exception);
 		if (EXCEPTION_OKAY == false) {
+			COLLECTION_RELEASE(collection, item);
 			return 0;
 		}
 
-- 
2.43.0


From ef65653afb3e0893845c26cc2bdffd07a01f064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:08 +0000
Subject: [PATCH 10/46] fix: data set reload uses the replaced data set after
 it may be freed

---
 dataset.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/dataset.c b/dataset.c
index c0f0ec9..098a49d 100644
--- a/dataset.c
+++ b/dataset.c
@@ -35,13 +35,15 @@ static StatusCode allocate(
 
 static StatusCode replace(
 	ResourceManager *manager,
+	ResourceHandle *existing,
 	DataSetBase *replacement) {
 
 	// Switch the active data set for the new one.
 	ResourceReplace(manager, replacement, &replacement->handle);
 	if (replacement->handle == NULL) {
-		DataSetFree(replacement);
-		Free(replacement);
+		// Free all the replacement, including the parts this base data set
+		// does not know about.
+		existing->freeResource((void*)replacement);
 		return INSUFFICIENT_MEMORY;
 	}
 
@@ -270,13 +272,16 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. The existing data set must not be freed by another reload
+	// while they are being used.
+	ResourceHandle *existing = ResourceHandleIncUse(manager);
+	properties.existing = ((DataSetBase*)existing->resource)->available;
+	config = ((DataSetBase*)existing->resource)->config;
 
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
+		ResourceHandleDecUse(existing);
 		return status;
 	}
 
@@ -295,10 +300,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 		exception);
 	if (status != SUCCESS) {
 		Free(replacement);
+		ResourceHandleDecUse(existing);
 		return status;
 	}
 	
-	return replace(manager, replacement);
+	status = replace(manager, existing, replacement);
+	ResourceHandleDecUse(existing);
+	return status;
 }
 
 fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
@@ -312,13 +320,16 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. The existing data set must not be freed by another reload
+	// while they are being used.
+	ResourceHandle *existing = ResourceHandleIncUse(manager);
+	properties.existing = ((DataSetBase*)existing->resource)->available;
+	config = ((DataSetBase*)existing->resource)->config;
 	
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
+		ResourceHandleDecUse(existing);
 		return status; 
 	}
 
@@ -330,8 +341,11 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 		fileName,
 		exception);
 	if (status != SUCCESS) {
+		ResourceHandleDecUse(existing);
 		return status;
 	}
 	
-	return replace(manager, replacement);
+	status = replace(manager, existing, replacement);
+	ResourceHandleDecUse(existing);
+	return status;
 }
\ No newline at end of file
-- 
2.43.0


From 328d6b89e840d7883a5de8bf6c4ee861f70a6a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:53 +0000
Subject: [PATCH 11/46] fix: header creation leaks or overruns its array when a
 read or allocation fails

---
 headers.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/headers.c b/headers.c
index 4b50964..665438d 100644
--- a/headers.c
+++ b/headers.c
@@ -199,7 +199,11 @@ static bool setHeaderFromDataSet(
 	header->isDataSet = true;
 	header->uniqueId = uniqueId;
 	header->segments = createSegmentArray(header->name);
-	return header->segments != NULL;
+	if (header->segments == NULL) {
+		Free((void*)header->name);
+		return false;
+	}
+	return true;
 }
 
 /**
@@ -274,12 +278,16 @@ static bool addHeadersFromDataSet(
 			countHeaderSegments(name) > 0 &&
 			getHeaderIndex(headers, name, nameLength) < 0) {
 
-			// Set the next header from the data set name item.
-			if (setHeaderFromDataSet(
+			// Set the next header from the data set name item. There is no
+			// space for it if an item could not be read when the headers were
+			// counted.
+			if (headers->count >= headers->capacity ||
+				setHeaderFromDataSet(
 				&headers->items[headers->count],
 				name,
 				nameLength,
 				(HeaderID)uniqueId) == false) {
+				COLLECTION_RELEASE(item.collection, &item);
 				return false;
 			}
 
@@ -311,7 +319,8 @@ static bool addHeadersFromSegments(HeaderArray* headers) {
 			segment = &header->segments->items[s];
 			existing = getHeader(headers, segment->segment, segment->length);
 			if (existing == NULL) {
-				if (setHeaderFromSegment(
+				if (headers->count >= headers->capacity ||
+					setHeaderFromSegment(
 					&headers->items[headers->count],
 					segment) == false) {
 					return false;
-- 
2.43.0


From 771ee38954e9665c1f5ca60364635194cadc056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:53 +0000
Subject: [PATCH 12/46] fix: property creation crashes or overruns its array
 when a name can not be read

---
 properties.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/properties.c b/properties.c
index 4443158..6bc56ce 100644
--- a/properties.c
+++ b/properties.c
@@ -109,7 +109,10 @@ static bool resultsContain(
 static void addRequiredProperty(
 	PropertiesAvailable *available,
 	uint32_t propertyIndex) {
-	if (resultsContain(available, propertyIndex) == false) {
+	// There is no space for the property if a name could not be read when the
+	// properties were counted.
+	if (available->count < available->capacity &&
+		resultsContain(available, propertyIndex) == false) {
 		available->items[available->count++].propertyIndex = propertyIndex;
 	}
 }
@@ -358,7 +361,10 @@ static int comparePropertyNamesAscending(const void *a, const void *b) {
 	PropertyAvailable *bi = (PropertyAvailable*)b;
 	const char *as = STRING(ai->name.data.ptr);
 	const char *bs = STRING(bi->name.data.ptr);
-	assert(as != NULL && bs != NULL);
+	// Names which could not be read come last.
+	if (as == NULL || bs == NULL) {
+		return (as == NULL ? 1 : 0) - (bs == NULL ? 1 : 0);
+	}
 	return _stricmp(as, bs);
 }
 
-- 
2.43.0


From bee3e727a5b02f182392197ffdee73a8a7734f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 13/46] fix: temporary file is copied to every path instead of
 the first usable one

---
 file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 9401b00..7dee2f5 100644
--- a/file.c
+++ b/file.c
@@ -839,8 +839,13 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 			}
 		}
 
+		// Stop at the first path which can be used.
+		if (status == SUCCESS) {
+			return status;
+		}
+
 		// Reset the destination
-		if (status != SUCCESS && length > 0) {
+		if (length > 0) {
 			memset(destination, 0, length);
 		}
 	}
-- 
2.43.0


From 2b1eea3a787800b06cb3102f9d2cc72f2007c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 14/46] fix: data set reload reads the replacement after it may
 be freed

---
 dataset.c  | 3 +--
 resource.c | 5 +++--
 resource.h | 6 +++++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/dataset.c b/dataset.c
index 098a49d..e422063 100644
--- a/dataset.c
+++ b/dataset.c
@@ -39,8 +39,7 @@ static StatusCode replace(
 	DataSetBase *replacement) {
 
 	// Switch the active data set for the new one.
-	ResourceReplace(manager, replacement, &replacement->handle);
-	if (replacement->handle == NULL) {
+	if (ResourceReplace(manager, replacement, &replacement->handle) == false) {
 		// Free all the replacement, including the parts this base data set
 		// does not know about.
 		existing->freeResource((void*)replacement);
diff --git a/resource.c b/resource.c
index 4550405..ddf973c 100644
--- a/resource.c
+++ b/resource.c
@@ -347,7 +347,7 @@ int32_t fiftyoneDegreesResourceHandleGetUse(
 // of COUNTER and HANDLE macros.
 #pragma warning (disable: 4090)
 #endif
-void fiftyoneDegreesResourceReplace(
+bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle) {
@@ -361,7 +361,7 @@ void fiftyoneDegreesResourceReplace(
 		oldHandle->freeResource);
 	if (*newResourceHandle == NULL) {
 		ResourceHandleDecUse(oldHandle);
-		return;
+		return false;
 	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
@@ -381,6 +381,7 @@ void fiftyoneDegreesResourceReplace(
 	// holding onto a reference to it then it will be freed.
 	retireHandle(oldHandle);
 	ResourceHandleDecUse(oldHandle);
+	return true;
 }
 #ifdef _MSC_VER
 #pragma warning (default: 4090)
diff --git a/resource.h b/resource.h
index 0b89505..2a74fff 100644
--- a/resource.h
+++ b/resource.h
@@ -136,6 +136,7 @@
 
 #include <stdlib.h>
 #include <stdint.h>
+#include <stdbool.h>
 #include <assert.h>
 #include "threading.h"
 #include "common.h"
@@ -255,8 +256,11 @@ EXTERNAL int32_t fiftyoneDegreesResourceHandleGetUse(
  * access to
  * @param newResourceHandle points to the location the new handle should be
  * stored
+ * @return true if the resource was replaced. The new resource and its handle
+ * must not be used to find this out, as another thread could have replaced and
+ * freed them already
  */
-EXTERNAL void fiftyoneDegreesResourceReplace(
+EXTERNAL bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle);
-- 
2.43.0


From 3e020c9a36416e432ffc5545287987774e3ecbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 15/46] fix: file copy, write and read ignore errors when
 seeking, reading or closing

---
 file.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/file.c b/file.c
index 7dee2f5..9c997e9 100644
--- a/file.c
+++ b/file.c
@@ -148,19 +148,22 @@ static StatusCode fileOpen(
 
 static StatusCode fileCopy(FILE *source, FILE *destination) {
 	unsigned char buffer[8192];
-	size_t lengthRead, lengthWritten = 0;
-	if (fseek(source, 0L, SEEK_END) == 0) {
-		fseek(source, 0L, SEEK_SET);
-		lengthRead = fread(buffer, 1, sizeof(buffer), source);
-		while (lengthRead > 0) {
-			lengthWritten = fwrite(buffer, 1, lengthRead, destination);
-			if (lengthWritten != lengthRead) {
-				return FILE_COPY_ERROR;
-			}
-			lengthRead = fread(buffer, 1, sizeof(buffer), source);
+	size_t lengthRead, lengthCopied = 0;
+	long size = fileGetSize(source);
+	if (size < 0 || fseek(source, 0L, SEEK_SET) != 0) {
+		return FILE_COPY_ERROR;
+	}
+	lengthRead = fread(buffer, 1, sizeof(buffer), source);
+	while (lengthRead > 0) {
+		if (fwrite(buffer, 1, lengthRead, destination) != lengthRead) {
+			return FILE_COPY_ERROR;
 		}
+		lengthCopied += lengthRead;
+		lengthRead = fread(buffer, 1, sizeof(buffer), source);
 	}
-	return SUCCESS;
+	// No more bytes are read at the end of the source, but also when reading
+	// it fails.
+	return lengthCopied == (size_t)size ? SUCCESS : FILE_COPY_ERROR;
 }
 
 /**
@@ -584,10 +587,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileWrite(
 	FILE *file;
 	StatusCode status = fileOpen(fileName, &file, "wb");
 	if (status == SUCCESS) {
-		if (fwrite(data, length, 1, file) != 1) {
+		if (length > 0 && fwrite(data, length, 1, file) != 1) {
+			status = FILE_FAILURE;
+		}
+		// The last bytes might not be written until the file is closed.
+		if (fclose(file) != 0) {
 			status = FILE_FAILURE;
 		}
-		fclose(file);
 	}
 	return status;
 }
@@ -1036,7 +1042,10 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 			return status;
 		}
 		status = fileCopy(sourceFile, destinationFile);
-		fclose(destinationFile);
+		// The last bytes might not be written until the file is closed.
+		if (fclose(destinationFile) != 0 && status == SUCCESS) {
+			status = FILE_COPY_ERROR;
+		}
 		// Delete the destination file if the status code is not success.
 		if (status != SUCCESS) {
 			FileDelete(destination);
@@ -1064,6 +1073,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 	if (status == SUCCESS) {
 		// Get the size of the file and allocate sufficient memory.
 		reader->length = fileGetSize(sourceFile);
+		if (reader->length < 0) {
+			fclose(sourceFile);
+			reader->startByte = NULL;
+			reader->current = NULL;
+			reader->length = 0;
+			return FILE_FAILURE;
+		}
 		reader->current = reader->startByte = (byte*)Malloc(
 			sizeof(char) * reader->length);
 		if (reader->current != NULL) {
@@ -1072,7 +1088,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 				// The file could not be loaded into memory. Release the 
 				// memory allocated earlier and set the status to file 
 				// failure.
-				free(reader->current);
+				Free(reader->current);
 				reader->startByte = NULL;
 				reader->current = NULL;
 				reader->length = 0;
-- 
2.43.0


From f13c9ac5040356a0699d6a7f1b058cbabf05aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 16/46] fix: temporary file clean up and reuse look in one
 directory, accept other files and miss users

---
 file.c | 140 ++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 78 insertions(+), 62 deletions(-)

diff --git a/file.c b/file.c
index 9c997e9..2dc9691 100644
--- a/file.c
+++ b/file.c
@@ -268,7 +268,7 @@ static bool compareFiles(
 
 	// Compare the sizes.
 	size = FileGetSize(fileName);
-	if (size > 0 && size != FileGetSize(otherFileName)) {
+	if (size < 0 || size != FileGetSize(otherFileName)) {
 		return false;
 	}
 	// Open both files.
@@ -282,12 +282,14 @@ static bool compareFiles(
 		return false;
 	}
 
-	while (ftell(file) < size &&
-		(bytesToCompare < 0 || ftell(file) < bytesToCompare)) {
-		read = bytesToCompare > 0 ? bytesToCompare : (long)sizeof(buffer);
-		if (size - ftell(file) < read) {
-			read = size - ftell(file);
-		}
+	// Limit the comparison to the number of bytes requested.
+	if (bytesToCompare >= 0 && bytesToCompare < size) {
+		size = bytesToCompare;
+	}
+
+	while (size > 0) {
+		read = size < (long)sizeof(buffer) ? size : (long)sizeof(buffer);
+		size -= read;
 
 		if (fread(buffer, read, 1, file) != 1) {
 			fclose(file);
@@ -358,9 +360,13 @@ static bool iterateFiles(
 	fileMatch match) {
 	char tempPath[FIFTYONE_DEGREES_FILE_MAX_PATH];
 	size_t nameStart;
+	nameStart = strlen(path);
+	// Check there is space for the path, a slash and the null terminator.
+	if (nameStart + 2 > FIFTYONE_DEGREES_FILE_MAX_PATH) {
+		return false;
+	}
 	// Append a slash to the path if one is not there already.
 	strcpy(tempPath, path);
-	nameStart = strlen(path);
 	if (nameStart != 0 &&
 		tempPath[nameStart - 1] != '/' &&
 		tempPath[nameStart - 1] != '\\') {
@@ -418,10 +424,16 @@ static bool iterateFiles(
 #else
 	DIR *dir;
 	struct dirent *ent;
-	dir = opendir(path);
+	// An empty path is the working directory.
+	dir = opendir(nameStart == 0 ? "." : path);
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
+			// Ignore any files with a path which is too long.
+			if (nameStart + strlen(ent->d_name) + 1 >
+				FIFTYONE_DEGREES_FILE_MAX_PATH) {
+				continue;
+			}
 			// Append the name to the path.
 			strcpy(tempPath + nameStart, ent->d_name);
 			// Call match and return if the file is a match.
@@ -489,57 +501,61 @@ static bool iteratorFileMatch(const char *fileName, void *state) {
 static bool isFileInUse(const char *pathName) {
 	DIR *procDir;
 	struct dirent *ent1, *ent2;
+	struct stat fileStat, fdStat;
+	bool inUse = false;
 	char fdPath[FILE_MAX_PATH];
 	char linkFile[FILE_MAX_PATH];
-	char linkPath[FILE_MAX_PATH];
 	procDir = opendir("/proc");
-	if (procDir != NULL) {
-		// Iterate over all directories in /proc
-		while ((ent1 = readdir(procDir)) != NULL) {
-			// Get the path to the file descriptor directory for a PID
-			Snprintf(fdPath, FILE_MAX_PATH, "/proc/%s/fd", ent1->d_name);
-			DIR *fdDir = opendir(fdPath);
-			if (fdDir != NULL) {
-				while ((ent2 = readdir(fdDir)) != NULL) {
-					// Check that the file is not '.' or '..'
-					if (strcmp(ent2->d_name, ".") != 0 &&
-						strcmp(ent2->d_name, "..") != 0) {
-						// Get the path which the symlink is pointing to
-						if (Snprintf(
-							linkFile,
-							FILE_MAX_PATH,
-							"%s/%s",
-							fdPath,
-							ent2->d_name) >= 0) {
-							ssize_t written =
-								readlink(linkFile, linkPath, FILE_MAX_PATH);
-							if (written >= 0) {
-								linkPath[written] = '\0';
-								size_t linkPathLen = strlen(linkPath);
-								size_t pathNameLen = strlen(pathName);
-								if (pathNameLen <= linkPathLen &&
-									strncmp(linkPath + linkPathLen - pathNameLen,
-										pathName,
-										pathNameLen) == 0) {
-									closedir(fdDir);
-									closedir(procDir);
-									return true;
-								}
-							}
-						}
+	if (procDir == NULL || stat(pathName, &fileStat) != 0) {
+		// This method cannot be used to determine whether the file is in use.
+		// So to be safe, lets report true so it is not deleted.
+		if (procDir != NULL) {
+			closedir(procDir);
+		}
+		return true;
+	}
+	// Iterate over all directories in /proc
+	while (inUse == false && (ent1 = readdir(procDir)) != NULL) {
+		// Get the path to the file descriptor directory for a PID
+		Snprintf(fdPath, FILE_MAX_PATH, "/proc/%s/fd", ent1->d_name);
+		DIR *fdDir = opendir(fdPath);
+		if (fdDir == NULL) {
+			// Either this is not a process, it has ended, or it belongs to
+			// another user and cannot be inspected. For any other reason it
+			// is not known if the process uses the file.
+			inUse = errno != ENOENT && errno != ENOTDIR &&
+				errno != EACCES && errno != EPERM;
+			continue;
+		}
+		while (inUse == false && (ent2 = readdir(fdDir)) != NULL) {
+			// Check that the file is not '.' or '..'
+			if (strcmp(ent2->d_name, ".") != 0 &&
+				strcmp(ent2->d_name, "..") != 0) {
+				// Check if the file which the symlink is pointing to is the
+				// one provided. The paths can't be compared as there can be
+				// many paths to the same file.
+				if (Snprintf(
+					linkFile,
+					FILE_MAX_PATH,
+					"%s/%s",
+					fdPath,
+					ent2->d_name) >= 0) {
+					if (stat(linkFile, &fdStat) == 0) {
+						inUse = fdStat.st_dev == fileStat.st_dev &&
+							fdStat.st_ino == fileStat.st_ino;
+					}
+					else {
+						// The file has been closed, or it is not known which
+						// file it is.
+						inUse = errno != ENOENT && errno != EACCES;
 					}
 				}
 			}
-			closedir(fdDir);
 		}
-		closedir(procDir);
-	}
-	else {
-		// This method cannot be used to determine whether the file is in use.
-		// So to be safe, lets report true so it is not deleted.
-		return true;
+		closedir(fdDir);
 	}
-	return false;
+	closedir(procDir);
+	return inUse;
 }
 #endif
 
@@ -548,8 +564,8 @@ static bool isFileInUse(const char *pathName) {
 #endif
 
 /**
- * Deletes the file is it is not in use. The first byte of state->destination
- * is used as a counter to indicate how many files were successfully deleted.
+ * Deletes the file is it is not in use. The integer state->destination points
+ * to is used as a counter to indicate how many files were successfully deleted.
  * @param fileName path to matching file
  * @param state pointer to the file iterator state with the destination pointer
  * @return false to indicate that the search should continue
@@ -566,7 +582,7 @@ static bool iteratorFileDelete(const char *fileName, void *state) {
 	if (isFileInUse(fileName) == false) {
 #endif
 		if (fiftyoneDegreesFileDelete(fileName) == SUCCESS) {
-			((byte*)fileState->destination)[0]++;
+			(*(int*)fileState->destination)++;
 		}
 #ifdef __linux__
 	}
@@ -631,7 +647,7 @@ static fiftyoneDegreesStatusCode getBasenameWithoutExtension(
 	size_t length) {
 	StatusCode status = NOT_SET;
 	const char* pos = getNameFromPath(path);
-	char* dot = strrchr(path, '.');
+	const char* dot = strrchr(pos, '.');
 	size_t end = strlen(pos);
 	if (dot != NULL) {
 		end = dot - pos;
@@ -654,11 +670,11 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 	int count,
 	long bytesToCompare) {
 	int i;
-	byte deleted = 0;
+	int deleted = 0;
 	fileIteratorState state;
 	state.masterFileName = masterFileName;
-	// The iteratorFileDelete method will use the first byte of
-	// state.destination to keep track of the number of files deleted. This is
+	// The iteratorFileDelete method will use the memory state.destination
+	// points to to keep track of the number of files deleted. This is
 	// a slight misuse of the structure, but we'll allow it as the structure
 	// is internal only.
 	state.destination = (const char*)&deleted;
@@ -681,13 +697,13 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileDelete);
 		}
 	}
-	return (int)deleted;
+	return deleted;
 }
 
 bool fiftyoneDegreesFileGetExistingTempFile(
@@ -719,7 +735,7 @@ bool fiftyoneDegreesFileGetExistingTempFile(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			if (iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileMatch) == true) {
-- 
2.43.0


From 162f8d231eb258b733747df8ae7f748d39c69110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 17/46] fix: temporary files created at the same time can share
 a name and overrun the destination by one

---
 file.c | 124 +++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 81 insertions(+), 43 deletions(-)

diff --git a/file.c b/file.c
index 2dc9691..9b1f2ec 100644
--- a/file.c
+++ b/file.c
@@ -103,13 +103,14 @@ static StatusCode fileOpen(
 	// Open the file and hold on to the data.ptr.
 #ifndef _MSC_FULL_VER
 	unsigned int originalMask = 0;
-	if (strcmp(mode, "wb") == 0) {
+	if (mode[0] == 'w') {
 		originalMask = umask(0);
 	}
 
+	errno = 0;
 	*handle = fopen(fileName, mode);
 
-	if (strcmp(mode, "wb") == 0) {
+	if (mode[0] == 'w') {
 		umask(originalMask);
 	}
 	
@@ -120,6 +121,9 @@ static StatusCode fileOpen(
 		else if (strcmp(mode, "wb") == 0) {
 			return FILE_WRITE_ERROR;
 		}
+		else if (strcmp(mode, "wbx") == 0) {
+			return errno == EEXIST ? FILE_EXISTS_ERROR : FILE_WRITE_ERROR;
+		}
 		else {
 			return FILE_FAILURE;
 		}
@@ -166,6 +170,44 @@ static StatusCode fileCopy(FILE *source, FILE *destination) {
 	return lengthCopied == (size_t)size ? SUCCESS : FILE_COPY_ERROR;
 }
 
+/**
+ * Copies the source file to the destination, which is deleted if the copy is
+ * not complete.
+ * @param source path to the file to copy
+ * @param destination path to the file to write
+ * @param mode to open the destination with. "wbx" refuses to write to a file
+ * which already exists and returns #FIFTYONE_DEGREES_STATUS_FILE_EXISTS_ERROR
+ * @return the result of the copy
+ */
+static StatusCode fileCopyWithMode(
+	const char *source,
+	const char *destination,
+	const char *mode) {
+	FILE *sourceFile = NULL;
+	FILE *destinationFile = NULL;
+	StatusCode status = FileOpen(
+		source,
+		&sourceFile);
+	if (status == SUCCESS) {
+		status = fileOpen(destination, &destinationFile, mode);
+		if (status != SUCCESS) {
+			fclose(sourceFile);
+			return status;
+		}
+		status = fileCopy(sourceFile, destinationFile);
+		// The last bytes might not be written until the file is closed.
+		if (fclose(destinationFile) != 0 && status == SUCCESS) {
+			status = FILE_COPY_ERROR;
+		}
+		// Delete the destination file if the status code is not success.
+		if (status != SUCCESS) {
+			FileDelete(destination);
+		}
+		fclose(sourceFile);
+	}
+	return status;
+}
+
 /**
  * Attempts to open a file to determine whether or not it exists.
  * @param fileName name of the file to check
@@ -777,7 +819,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileAddTempFileName(
 		if (charsAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charsAdded > length) {
+		else if ((size_t)charsAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
@@ -808,13 +850,17 @@ fiftyoneDegreesStatusCode createTempFileWithoutPaths(
 	char* destination,
 	size_t length) {
 	const char* masterFileName = getNameFromPath(masterFile);
-	StatusCode status = fiftyoneDegreesFileAddTempFileName(
-		masterFileName, destination, 0, length);
-	if (status != SUCCESS) {
-		return status;
-	}
+	StatusCode status;
+	do {
+		status = fiftyoneDegreesFileAddTempFileName(
+			masterFileName, destination, 0, length);
+		if (status != SUCCESS) {
+			return status;
+		}
 
-	status = FileCopy(masterFile, destination);
+		// Use another name if a file with this one was created meanwhile.
+		status = fileCopyWithMode(masterFile, destination, "wbx");
+	} while (status == FILE_EXISTS_ERROR);
 	if (status != SUCCESS && length > 0) {
 		memset(destination, 0, length);
 	}
@@ -849,16 +895,25 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 		if (charAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charAdded > length) {
+		else if ((size_t)charAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
-			status = fiftyoneDegreesFileAddTempFileName(
-				masterFileName, destination, nameStart, length - nameStart - 1);
-			if (status == SUCCESS) {
-				// Create the temp file
-				status = FileCopy(masterFile, destination);
-			}
+			do {
+				status = fiftyoneDegreesFileAddTempFileName(
+					masterFileName,
+					destination,
+					nameStart,
+					length - nameStart - 1);
+				if (status == SUCCESS) {
+					// Create the temp file. Use another name if a file with
+					// this one was created meanwhile.
+					status = fileCopyWithMode(
+						masterFile,
+						destination,
+						"wbx");
+				}
+			} while (status == FILE_EXISTS_ERROR);
 		}
 
 		// Stop at the first path which can be used.
@@ -906,8 +961,11 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 	char tempPath[FIFTYONE_DEGREES_FILE_MAX_PATH];
 
 	if (paths == NULL || count == 0) {
-		getUniqueLegacyFileName(TEMP_UNIQUE_STRING_LENGTH, fileName, 0);
-		status = FileCopy(masterFile, fileName);
+		// Use another name if a file with the one found was created meanwhile.
+		do {
+			getUniqueLegacyFileName(TEMP_UNIQUE_STRING_LENGTH, fileName, 0);
+			status = fileCopyWithMode(masterFile, fileName, "wbx");
+		} while (status == FILE_EXISTS_ERROR);
 		if (status == SUCCESS) {
 			strcpy((char*)destination, fileName);
 			return status;
@@ -923,8 +981,10 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 				tempPath[nameStart++] = '/';
 			}
 			if (nameStart + TEMP_UNIQUE_STRING_LENGTH < FIFTYONE_DEGREES_FILE_MAX_PATH) {
-				getUniqueLegacyFileName(TEMP_UNIQUE_STRING_LENGTH, tempPath, nameStart);
-				status = FileCopy(masterFile, tempPath);
+				do {
+					getUniqueLegacyFileName(TEMP_UNIQUE_STRING_LENGTH, tempPath, nameStart);
+					status = fileCopyWithMode(masterFile, tempPath, "wbx");
+				} while (status == FILE_EXISTS_ERROR);
 				if (status == SUCCESS) {
 					strcpy((char*)destination, tempPath);
 					return status;
@@ -1046,29 +1106,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileDelete(const char *fileName) {
 fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 	const char *source,
 	const char *destination) {
-	FILE *sourceFile = NULL;
-	FILE *destinationFile = NULL;
-	StatusCode status = FileOpen(
-		source,
-		&sourceFile);
-	if (status == SUCCESS) {
-		status = fileOpen(destination, &destinationFile, "wb");
-		if (status != SUCCESS) {
-			fclose(sourceFile);
-			return status;
-		}
-		status = fileCopy(sourceFile, destinationFile);
-		// The last bytes might not be written until the file is closed.
-		if (fclose(destinationFile) != 0 && status == SUCCESS) {
-			status = FILE_COPY_ERROR;
-		}
-		// Delete the destination file if the status code is not success.
-		if (status != SUCCESS) {
-			FileDelete(destination);
-		}
-		fclose(sourceFile);
-	}
-	return status;
+	return fileCopyWithMode(source, destination, "wb");
 }
 
 long fiftyoneDegreesFileGetSize(const char *source) {
-- 
2.43.0


From a7d3fb92d6baa7bb17a99ce4a624570e2564a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 18/46] fix: text file reader loses lines, adds empty lines and
 reads out of bounds depending on the buffer size

---
 textfile.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/textfile.c b/textfile.c
index 60fc7fe..42d258d 100644
--- a/textfile.c
+++ b/textfile.c
@@ -51,6 +51,15 @@ static char* returnNextLine(
 	return current;
 }
 
+// Skips any line ending characters at the start of the buffer. These are the
+// rest of the ending of the previous line if it was split between two reads.
+static char* skipLineEnding(char* buffer, char* end) {
+	while (buffer < end && (*buffer == '\r' || *buffer == '\n')) {
+		buffer++;
+	}
+	return buffer;
+}
+
 void fiftyoneDegreesTextFileIterateWithLimit(
 	const char *fileName,
 	char *buffer,
@@ -68,24 +77,34 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 			(bufferRead = fread(current, sizeof(char), end - current, handle))
 			== (size_t)(end - current)) {
 
-			// Return the next line.
-			current = returnNextLine(buffer, end, buffer, state, callback);
-			counter++;
+			// Return the next line, unless the rest of the ending of the
+			// previous one has to be removed from the buffer first.
+			current = counter > 0 ? skipLineEnding(buffer, end) : buffer;
+			if (current == buffer) {
+				current = returnNextLine(buffer, end, buffer, state, callback);
+				counter++;
+			}
 
 			// Shift the buffer to the left and load the next characters.
 			size_t shift = end - current;
 			memmove(buffer, current, shift);
 			current = buffer + shift;
 		}
-		// Update end to the last line read
+		// Update end to the last line read, and return to the start of the
+		// characters which have not been returned yet.
 		end = current + bufferRead;
-		if ((limit < 0 || counter < limit) && 
+		current = counter > 0 ? skipLineEnding(buffer, end) : buffer;
+		buffer = current;
+		if ((limit < 0 || counter < limit) &&
+			buffer < end &&
+			ferror(handle) == 0 &&
 			(*(end - 1) != '\r' && *(end - 1) != '\n')) {
 			// If there isn't a new line or carriage return at the end
 			// we won't be able to determine the end of last line, so
 			// set the end byte to '\n' and increase the end by 1.
 			// This is safe as the buffer read at this point is always
-			// smaller than the allocated size.
+			// smaller than the allocated size. If the file could not be read
+			// then this is not the end of the last line.
 			*end = '\n';
 			end++;
 		}
-- 
2.43.0


From 11beeeb3c246231c2ca02ce7ec046bba03bc5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 19/46] fix: YAML reader ignores read errors and reads or
 writes outside of the pairs

---
 yamlfile.c | 63 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 6a5933c..fa5a3a1 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -55,12 +55,12 @@ static StatusCode readNextBlock(FileState* fileState) {
 		sizeof(char),
 		fileState->bufferLength,
 		fileState->handle);
-	if (bytesRead == 0 && !feof(fileState->handle)) {
-		status = INSUFFICIENT_MEMORY;
-	}
-	else if (ferror(fileState->handle)) {
+	if (ferror(fileState->handle)) {
 		status = FILE_READ_ERROR;
 	}
+	else if (bytesRead == 0 && !feof(fileState->handle)) {
+		status = INSUFFICIENT_MEMORY;
+	}
 	else if (bytesRead == 0) {
 		status = FILE_END_OF_FILE;
 	}
@@ -70,18 +70,28 @@ static StatusCode readNextBlock(FileState* fileState) {
 }
 
 // Read the next character or null if there are no more characters to be read.
-static char* readNext(FileState* fileState) {
-	StatusCode status = SUCCESS;
+// If that isn't because the end of the file was reached then the status is set.
+static char* readNext(FileState* fileState, StatusCode* status) {
+	StatusCode blockStatus;
 	fileState->current++;
 	if (fileState->current > fileState->end) {
-		status = readNextBlock(fileState);
-		if (status != SUCCESS) {
+		blockStatus = readNextBlock(fileState);
+		if (blockStatus != SUCCESS) {
+			if (blockStatus != FILE_END_OF_FILE) {
+				*status = blockStatus;
+			}
 			return NULL;
 		}
 	}
 	return fileState->current;
 }
 
+// True if the index is one of the pairs. It isn't before the first line of a
+// document, or when there are more lines than pairs available.
+static bool isPair(PairState* state) {
+	return state->index >= 0 && state->index < state->size;
+}
+
 // Sets the current and end pointers to the current key.
 static void setCurrentKey(PairState* state) {
 	KeyValuePair* current = state->pairs + state->index;
@@ -99,16 +109,24 @@ static void setCurrentValue(PairState* state) {
 // Switches from writing to the current key to the current value. Ensures that
 // the current string being written is null terminated.
 static void switchKeyValue(PairState* state) {
-	*state->current = '\0';
-	setCurrentValue(state);
+	if (isPair(state)) {
+		*state->current = '\0';
+		setCurrentValue(state);
+	}
 }
 
 // Advances to the next key value pair. Ensures that the current string being 
 // written is null terminated.
 static void nextPair(PairState* state) {
-	*state->current = '\0';
-	state->index++;
-	setCurrentKey(state);
+	if (isPair(state)) {
+		*state->current = '\0';
+	}
+	if (state->index < state->size) {
+		state->index++;
+	}
+	if (isPair(state)) {
+		setCurrentKey(state);
+	}
 }
 
 // Sets the counters for a new line.
@@ -142,8 +160,8 @@ static void addCharacter(
 	PairState* pairState, 
 	FileState* fileState, 
 	char* current) {
-	if (pairState->current < pairState->end &&
-		pairState->index < pairState->size &&
+	if (isPair(pairState) &&
+		pairState->current < pairState->end &&
 		isValue(fileState)) {
 		*pairState->current = *current;
 		pairState->current++;
@@ -176,7 +194,9 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		0,
 		0, 
 		0,
-		0,
+		// Start at the beginning of a line so that there is no pair to end if
+		// the file is empty, or starts with an empty line.
+		1,
 		0,
 		0,
 		false };
@@ -194,8 +214,12 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		limit = INT_MAX;
 	}
 
-	while (true) {
-		current = readNext(&fileState);
+	while (count < limit) {
+		current = readNext(&fileState, &status);
+		if (status != SUCCESS) {
+			// The file can't be read so the document is not complete.
+			break;
+		}
 
 		// If EOF or the first new line then move to the next pair.
 		if (!current || *current == '\n' || *current == '\r') {
@@ -204,6 +228,9 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
+					isPair(&pairState) &&
+					pairState.current >
+						keyValuePairs[pairState.index].value &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
-- 
2.43.0


From 0c791c7122ebaeaac75aabd6759e8543dd1c585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 20/46] fix: memory tracking races when first used, crashes
 when memory runs out and truncates sizes

---
 memory.c | 86 ++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 25 deletions(-)

diff --git a/memory.c b/memory.c
index 50ba167..beb8100 100644
--- a/memory.c
+++ b/memory.c
@@ -35,11 +35,16 @@
 
 static int shardDivider = sizeof(void*) * 3;
 
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+/* 0 before, 1 during and 2 after the trackers are initialised */
+static volatile long initialised = 0;
+#else
 static bool initialised = false;
+#endif
 
 typedef struct memory_allocation_t {
 	fiftyoneDegreesTreeNode tree; /* Tree node data structure */
-	uint32_t size; /* The amount of memory allocated at pointer */
+	size_t size; /* The amount of memory allocated at pointer */
 } allocation;
 
 typedef struct memory_allocation_tree_t {
@@ -101,17 +106,49 @@ static int getShardFromPointer(void *pointer) {
 #endif
 }
 
+/**
+ * Initialises the trackers if that has not been done already. Only one of the
+ * threads which call this at the same time initialises them, and the others
+ * wait for it.
+ */
 static void tryInit() {
-	if (initialised == false) {
-		MemoryTrackingReset();
+	int i;
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	if (initialised == 2) {
+		return;
 	}
+	if (FIFTYONE_DEGREES_INTERLOCK_EXCHANGE(initialised, 1, 0) != 0) {
+		while (initialised != 2) {
+			// Wait for the thread which is initialising the trackers.
+		}
+		return;
+	}
+#else
+	if (initialised) {
+		return;
+	}
+#endif
+	for (i = 0; i < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS; i++) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+		FIFTYONE_DEGREES_MUTEX_CREATE(state.locks[i]);
+#endif
+		fiftyoneDegreesTreeRootInit(&state.roots[i]);
+	}
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	FIFTYONE_DEGREES_MUTEX_CREATE(state.lock);
+	FIFTYONE_DEGREES_INTERLOCK_EXCHANGE(initialised, 2, 1);
+#else
+	initialised = true;
+#endif
 }
 
-static void trackAllocation(void* pointer, size_t size) {
+static bool trackAllocation(void* pointer, size_t size) {
 	// Create a new tree node to record the allocation.
 	allocation* record = (allocation*)malloc(sizeof(allocation));
 	int shard = getShardFromPointer(pointer);
-	assert(record != NULL);
+	if (record == NULL) {
+		return false;
+	}
 	assert(shard < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS);
 	fiftyoneDegreesTreeNodeInit(&record->tree, &state.roots[shard]);
 #ifdef __GNUC__
@@ -122,7 +159,7 @@ static void trackAllocation(void* pointer, size_t size) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	record->size = (uint32_t)size;
+	record->size = size;
 
 	// Update the tracking tree with the new allocation.
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -144,11 +181,11 @@ static void trackAllocation(void* pointer, size_t size) {
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.lock);
 #endif
-
+	return true;
 }
 
 static void untrackAllocation(void *pointer) {
-	uint32_t size;
+	size_t size;
 	int shard = getShardFromPointer(pointer);
 
 	// Get the size of the memory being freed and free the tracking memory.
@@ -194,7 +231,11 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size + size % alignment);
+	if (pointer != NULL &&
+		trackAllocation(pointer, size + size % alignment) == false) {
+		MemoryStandardFreeAligned(pointer);
+		pointer = NULL;
+	}
 	return pointer;
 }
 
@@ -207,7 +248,10 @@ void* fiftyoneDegreesMemoryTrackingMalloc(size_t size) {
 	void* pointer = MemoryStandardMalloc(size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size);
+	if (pointer != NULL && trackAllocation(pointer, size) == false) {
+		MemoryStandardFree(pointer);
+		pointer = NULL;
+	}
 	return pointer;
 }
 
@@ -224,13 +268,17 @@ void fiftyoneDegreesMemoryStandardFreeAligned(void* pointer) {
 }
 
 void fiftyoneDegreesMemoryTrackingFree(void *pointer) {
-	untrackAllocation(pointer);
+	if (pointer != NULL) {
+		untrackAllocation(pointer);
+	}
 	// Finally free the pointer.
 	MemoryStandardFree(pointer);
 }
 
 void fiftyoneDegreesMemoryTrackingFreeAligned(void* pointer) {
-	untrackAllocation(pointer);
+	if (pointer != NULL) {
+		untrackAllocation(pointer);
+	}
 	// Finally free the pointer.
 	MemoryStandardFreeAligned(pointer);
 }
@@ -244,21 +292,9 @@ size_t fiftyoneDegreesMemoryTrackingGetAllocated() {
 }
 
 void fiftyoneDegreesMemoryTrackingReset() {
-	int i;
-	if (initialised == false) {
-		for (i = 0; i < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS; i++) {
-#ifndef FIFTYONE_DEGREES_NO_THREADING
-			FIFTYONE_DEGREES_MUTEX_CREATE(state.locks[i]);
-#endif
-			fiftyoneDegreesTreeRootInit(&state.roots[i]);
-		}
-#ifndef FIFTYONE_DEGREES_NO_THREADING
-		FIFTYONE_DEGREES_MUTEX_CREATE(state.lock);
-#endif
-	}
+	tryInit();
 	state.allocated = 0;
 	state.max = 0;
-	initialised = true;
 }
 
 void fiftyoneDegreesSetUpMemoryTracking() {
-- 
2.43.0


From ba754caf1e3940bd5a058b87a0781285f66d767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 21/46] fix: closed signal is not freed

---
 threading.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/threading.c b/threading.c
index f91e787..03d58a3 100644
--- a/threading.c
+++ b/threading.c
@@ -111,6 +111,7 @@ void fiftyoneDegreesSignalClose(fiftyoneDegreesSignal *signal) {
 	if (signal != NULL) {
 		pthread_mutex_destroy(&signal->mutex);
 		pthread_cond_destroy(&signal->cond);
+		Free(signal);
 	}
 }
 
-- 
2.43.0


From ad55940f076f102b89fc84cc36f790ae5a39c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:39 +0000
Subject: [PATCH 22/46] fix: property search releases names from the wrong
 collection and ignores read errors

---
 property.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/property.c b/property.c
index 9ee0eb6..60dc0a1 100644
--- a/property.c
+++ b/property.c
@@ -137,7 +137,14 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				}
 
 				// Release the property name as this is not needed again.
-				COLLECTION_RELEASE(properties, &propertyNameItem);
+				COLLECTION_RELEASE(strings, &propertyNameItem);
+			}
+			else {
+
+				// The name could not be read so the property can't be
+				// compared and is not needed.
+				property = NULL;
+				COLLECTION_RELEASE(properties, item);
 			}
 		}
 	}
-- 
2.43.0


From a7386f4ef061631ec8e8f79d1ad676caa2007c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:39 +0000
Subject: [PATCH 23/46] fix: profile iteration reads past the values, releases
 from the wrong collection and does not stop

---
 profile.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/profile.c b/profile.c
index 8a1a2c0..d73421f 100644
--- a/profile.c
+++ b/profile.c
@@ -128,8 +128,8 @@ static uint32_t iterateValues(
 	// Loop through until the last value for the property has been returned
 	// or the callback doesn't need to continue.
 	while (cont == true &&
-		*valueIndex <= property->lastValueIndex &&
 		valueIndex < maxValueIndex &&
+		*valueIndex <= property->lastValueIndex &&
 		EXCEPTION_OKAY) {
 
 		// Reset the items as they should never share the same memory.
@@ -154,19 +154,22 @@ uint32_t* fiftyoneDegreesProfileGetOffsetForProfileId(
 	uint32_t *profileOffset,
 	fiftyoneDegreesException *exception) {
 	Item profileOffsetItem;
+	const uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
 	DataReset(&profileOffsetItem.data);
 
 	if (profileId == 0) {
 		EXCEPTION_SET(PROFILE_EMPTY);
 	}
-	else if (CollectionBinarySearch(
+	else if (profileOffsetsCount > 0 &&
+		CollectionBinarySearch(
 		profileOffsets,
 		&profileOffsetItem,
 		0,
-		CollectionGetCount(profileOffsets) - 1,
+		profileOffsetsCount - 1,
 		(void*)&profileId,
 		compareProfileId,
-		exception) >= 0) {
+		exception) >= 0 &&
+		EXCEPTION_OKAY) {
 		*profileOffset = ((ProfileOffset*)profileOffsetItem.data.ptr)->offset;
 		COLLECTION_RELEASE(profileOffsets, &profileOffsetItem);
 		return profileOffset;
@@ -281,6 +284,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 	fiftyoneDegreesProfileIterateMethod callback,
 	fiftyoneDegreesException *exception) {
 	uint32_t i, count = 0;
+	bool cont = true;
 	Item propertyItem, offsetItem, profileItem;
 	uint32_t *profileValueIndex, *maxProfileValueIndex;
 	Property *property;
@@ -304,7 +308,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount; i++) {
+			for (i = 0;
+				i < profileOffsetsCount && cont == true && EXCEPTION_OKAY;
+				i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
@@ -323,19 +329,19 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 						if (profileValueIndex != NULL) {
 							maxProfileValueIndex = ((uint32_t*)(profile + 1)) +
 								profile->valueCount;
-							while (*profileValueIndex <=
-								property->lastValueIndex &&
-								profileValueIndex < maxProfileValueIndex) {
+							while (profileValueIndex < maxProfileValueIndex &&
+								*profileValueIndex <=
+								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
-									callback(state, &profileItem);
+									cont = callback(state, &profileItem);
 									count++;
 									break;
 								}
 								profileValueIndex++;
 							}
 						}
-						COLLECTION_RELEASE(profileOffsets, &profileItem);
+						COLLECTION_RELEASE(profiles, &profileItem);
 					}
 					COLLECTION_RELEASE(profileOffsets, &offsetItem);
 				}
-- 
2.43.0


From 5654fe2a2ccbde637d977437784510efebabc2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:39 +0000
Subject: [PATCH 24/46] fix: value search ignores properties without values and
 failed allocations

---
 value.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/value.c b/value.c
index 16bdbbc..ad207b0 100644
--- a/value.c
+++ b/value.c
@@ -78,10 +78,14 @@ static int compareCoordinate(String *value, const char *target) {
  * @param value the current String item
  * @param target the target search value. This should
  * be in string readable format of an IP address.
+ * @param exception set if there is not enough memory to parse the target
  * @return 0 if they are equal, otherwise negative
  * for smaller and positive for bigger
  */
-static int compareIpAddress(String *value, const char *target) {
+static int compareIpAddress(
+	String *value,
+	const char *target,
+	Exception *exception) {
 	int result = 0;
 	fiftyoneDegreesEvidenceIpAddress *ipAddress
 		= fiftyoneDegreesIpParseAddress(
@@ -116,6 +120,9 @@ static int compareIpAddress(String *value, const char *target) {
 		}
 		Free(ipAddress);
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
 	return result;
 }
 
@@ -141,7 +148,10 @@ static int compareValueByName(void *state, Item *item, long curIndex, Exception
 			result = compareCoordinate(value,search->valueName);
 			break;
 		case FIFTYONE_DEGREES_STRING_IP_ADDRESS:
-			result = compareIpAddress(value, search->valueName);
+			result = compareIpAddress(
+				value,
+				search->valueName,
+				exception);
 			break;
 		default:
 			result = strcmp(&value->value, search->valueName);
@@ -204,6 +214,9 @@ long fiftyoneDegreesValueGetIndexByName(
 	Item item;
 	valueSearch search;
 	long index;
+	if ((int)property->firstValueIndex == -1) {
+		return -1;
+	}
 	DataReset(&item.data);
 	search.valueName = valueName;
 	search.strings = strings;
@@ -215,7 +228,7 @@ long fiftyoneDegreesValueGetIndexByName(
 		(void*)&search,
 		compareValueByName,
 		exception);
-	if (EXCEPTION_OKAY) {
+	if (index >= 0 && EXCEPTION_OKAY) {
 		COLLECTION_RELEASE(values, &item);
 	}
 	return index;
-- 
2.43.0


From 22f068a01ad5f823d465f28267fd8ffda164807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:39 +0000
Subject: [PATCH 25/46] fix: component lists ignore failed allocations and
 pairs past the end are given

---
 component.c | 5 ++++-
 list.c      | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/component.c b/component.c
index 34de863..725d3eb 100644
--- a/component.c
+++ b/component.c
@@ -67,7 +67,7 @@ const fiftyoneDegreesComponentKeyValuePair* fiftyoneDegreesComponentGetKeyValueP
 	uint16_t index,
 	fiftyoneDegreesException *exception) {
 #ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
-	if (index > component->keyValuesCount) {
+	if (index >= component->keyValuesCount) {
 		EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
 		return NULL;
 	}
@@ -121,4 +121,7 @@ void fiftyoneDegreesComponentInitList(
 			}
 		}
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
 }
diff --git a/list.c b/list.c
index 14c73fc..aa8f791 100644
--- a/list.c
+++ b/list.c
@@ -27,12 +27,12 @@
 fiftyoneDegreesList* fiftyoneDegreesListInit(
 	fiftyoneDegreesList *list, 
 	uint32_t capacity) {
+	ListReset(list);
 	list->items = (Item*)Malloc(capacity * sizeof(Item));
 	if (list->items == NULL) {
 		return NULL;
 	}
 	list->capacity = capacity;
-	list->count = 0;
 	return list;
 }
 
-- 
2.43.0


From e1475fe2652de1aa10ebe2b01d57ab277144f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:29 +0000
Subject: [PATCH 26/46] fix: status and exception messages dereference a failed
 allocation

---
 exceptionsc.c | 18 ++++++++++--------
 status.c      |  4 +++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/exceptionsc.c b/exceptionsc.c
index ad5db21..614545c 100644
--- a/exceptionsc.c
+++ b/exceptionsc.c
@@ -44,14 +44,16 @@ const char* fiftyoneDegreesExceptionGetMessage(
 		length += exception->func != NULL ? strlen(exception->func) : 0;
 		length += 10; // add 10 for line number
 		exceptionMessage = (char*)Malloc(length);
-		Snprintf(
-			exceptionMessage,
-			length,
-			format,
-			statusMessage,
-			exception->file,
-			exception->func,
-			exception->line);
+		if (exceptionMessage != NULL) {
+			Snprintf(
+				exceptionMessage,
+				length,
+				format,
+				statusMessage,
+				exception->file,
+				exception->func,
+				exception->line);
+		}
 		Free((void*)statusMessage);
 	}
 	return exceptionMessage;
diff --git a/status.c b/status.c
index 8ba7735..fa30e0f 100644
--- a/status.c
+++ b/status.c
@@ -155,7 +155,9 @@ const char* fiftyoneDegreesStatusGetMessage(
 	if( message == NULL) {
 		messageSize = sizeof(defaultMessage) + 5;
 		message = (char*)Malloc(messageSize);
-		Snprintf(message, messageSize, defaultMessage, (int)status);
+		if (message != NULL) {
+			Snprintf(message, messageSize, defaultMessage, (int)status);
+		}
 	}
 	return message;
 }
\ No newline at end of file
-- 
2.43.0


From 7599153f96aa3848b48a0c0112aa9a7576d99d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:29 +0000
Subject: [PATCH 27/46] fix: override is left without storage when its value
 cannot be allocated

---
 overrides.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/overrides.c b/overrides.c
index 675e84c..08e70c2 100644
--- a/overrides.c
+++ b/overrides.c
@@ -158,6 +158,16 @@ bool fiftyoneDegreesOverridesAdd(
 		copy = (String*)fiftyoneDegreesDataMalloc(
 			&override->string,
 			sizeof(String) + length);
+		if (copy == NULL) {
+			// There is no memory for the value so remove the override. The
+			// last item takes the place of the one removed.
+			values->count--;
+			override->requiredPropertyIndex =
+				values->items[values->count].requiredPropertyIndex;
+			override->string = values->items[values->count].string;
+			DataReset(&values->items[values->count].string);
+			return false;
+		}
 
 		// Copy the string from the evidence pair to the override data 
 		// item.
-- 
2.43.0


From 0ceb64334eeba23b63675e3136c442900cad7d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:29 +0000
Subject: [PATCH 28/46] fix: header count misses the full header of a name with
 one separated segment

---
 headers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/headers.c b/headers.c
index 665438d..ec72636 100644
--- a/headers.c
+++ b/headers.c
@@ -70,9 +70,9 @@ static int countAllSegments(void* state, HeadersGetMethod get) {
 		segments = countHeaderSegments(STRING(name.data.ptr));
 		count += segments;
 
-		// If there are more than one segment then this is a pseudo header and 
-		// the count should also include the full header.
-		if (segments > 1) {
+		// If the name contains a separator then its segments differ from the
+		// full header, which the count should also include.
+		if (HeadersIsPseudo(STRING(name.data.ptr))) {
 			count++;
 		}
 		COLLECTION_RELEASE(name.collection, &name);
-- 
2.43.0


From b1f8518a738c613ad2d281c7ea5616b2010e9473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:29 +0000
Subject: [PATCH 29/46] fix: properties ignore a failed allocation of the
 evidence properties

---
 properties.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/properties.c b/properties.c
index 6bc56ce..b0ed440 100644
--- a/properties.c
+++ b/properties.c
@@ -329,7 +329,7 @@ static void setPropertyNames(
 	}
 }
 
-static void setEvidenceProperties(
+static bool setEvidenceProperties(
 	propertiesSource* source,
 	PropertiesAvailable* available) {
 	uint32_t i, count;
@@ -353,7 +353,11 @@ static void setEvidenceProperties(
 				available->items[i].evidenceProperties);
 			available->items[i].evidenceProperties->count = count;
 		}
+		else {
+			return false;
+		}
 	}
+	return true;
 }
 
 static int comparePropertyNamesAscending(const void *a, const void *b) {
@@ -377,7 +381,7 @@ static void sortRequiredProperties(
 		comparePropertyNamesAscending);
 }
 
-static void initRequiredProperties(
+static bool initRequiredProperties(
 	propertiesSource *source,
 	PropertiesAvailable *available) {
 	uint32_t i;
@@ -387,7 +391,9 @@ static void initRequiredProperties(
 	setPropertyNames(source, available);
 
 	// Set the evidence properties for each of the properties.
-	setEvidenceProperties(source, available);
+	if (setEvidenceProperties(source, available) == false) {
+		return false;
+	}
 
 	// Sort these names in ascending order.
 	sortRequiredProperties(available);
@@ -402,6 +408,7 @@ static void initRequiredProperties(
 				string->size - 1);
 		}
 	}
+	return true;
 }
 
 static int comparePropertyNamesAscendingSearch(const void *a, const void *b) {
@@ -453,8 +460,10 @@ fiftyoneDegreesPropertiesAvailable* fiftyoneDegreesPropertiesCreate(
 
 	// Set the require property name strings to match the require property
 	// index.
-	if (available != NULL) {
-		initRequiredProperties(&source, available);
+	if (available != NULL &&
+		initRequiredProperties(&source, available) == false) {
+		PropertiesFree(available);
+		return NULL;
 	}
 
 	return available;
-- 
2.43.0


From d5c63805eb5cc66fa3c3d749af13c426c5f49eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:29 +0000
Subject: [PATCH 30/46] fix: IP address list leaks its nodes and addresses with
 too many segments overflow

---
 ip.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ip.c b/ip.c
index aebc4ab..885a3d4 100644
--- a/ip.c
+++ b/ip.c
@@ -66,6 +66,20 @@ static byte getIpByte(int parsedValue) {
 	return (byte)parsedValue;
 }
 
+/*
+ * Adds the byte to the address if there is still room for it. There is none
+ * if the string contains more segments than an address of its type.
+ */
+static void addByte(EvidenceIpAddress *address, byte value) {
+	size_t length = address->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+		FIFTYONE_DEGREES_IPV4_LENGTH :
+		FIFTYONE_DEGREES_IPV6_LENGTH;
+	if ((size_t)(address->current - address->address) < length) {
+		*address->current = value;
+		address->current++;
+	}
+}
+
 static void parseIpV6Segment(
 	EvidenceIpAddress *address,
 	const char *start,
@@ -75,8 +89,7 @@ static void parseIpV6Segment(
 	if (start > end) {
 		// This is an abbreviation, so fill it in.
 		for (i = 0; i < 16 - address->bytesPresent; i++) {
-			*address->current = (byte)0;
-			address->current++;
+			addByte(address, 0);
 		}
 	}
 	else {
@@ -90,10 +103,8 @@ static void parseIpV6Segment(
 			if (i < 2) second[1 - i] = val;
 			else first[3 - i] = val;
 		}
-		*address->current = getIpByte((int)strtol(first, NULL, 16));
-		address->current++;
-		*address->current = getIpByte((int)strtol(second, NULL, 16));
-		address->current++;
+		addByte(address, getIpByte((int)strtol(first, NULL, 16)));
+		addByte(address, getIpByte((int)strtol(second, NULL, 16)));
 	}
 }
 
@@ -104,8 +115,7 @@ static void callbackIpAddressBuild(
 	const char *end) {
 	EvidenceIpAddress *address = (EvidenceIpAddress*)state;
 	if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) {
-		*address->current = getIpByte(atoi(start));
-		address->current++;
+		addByte(address, getIpByte(atoi(start)));
 	}
 	else if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
 		parseIpV6Segment(address, start, end);
@@ -202,7 +212,7 @@ void fiftyoneDegreesIpFreeAddresses(
 	while (current != NULL) {
 		prev = current;
 		current = current->next;
-		free(prev->address);
+		free(prev);
 	}
 }
 
-- 
2.43.0


From f835fa555f9653d792ad4e889018ad0df5f8803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 31/46] fix: status exceptions lose their code when there is no
 message or from a fatal exception

---
 Exceptions.cpp | 43 +++++++++++++++++++++++--------------------
 Exceptions.hpp |  6 ++++++
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/Exceptions.cpp b/Exceptions.cpp
index fd9d9e0..f2a4d3d 100644
--- a/Exceptions.cpp
+++ b/Exceptions.cpp
@@ -25,30 +25,36 @@
 
 using namespace FiftyoneDegrees::Common;
 
-StatusCodeException::StatusCodeException() {}
+StatusCodeException::StatusCodeException() :
+	statusCode(FIFTYONE_DEGREES_STATUS_NOT_SET) {
+}
 
 StatusCodeException::StatusCodeException(
-	fiftyoneDegreesStatusCode code) : exception() {
-	const char *statusMessage = StatusGetMessage(code, nullptr);
-	if (statusMessage != nullptr) {
-		message.append(statusMessage);
-		Free((void*)statusMessage);
-		this->statusCode = code;
-	}
+	fiftyoneDegreesStatusCode code) : exception(), statusCode(code) {
+	setMessage(StatusGetMessage(code, nullptr));
 }
 
 StatusCodeException::StatusCodeException(
 	fiftyoneDegreesStatusCode code,
-	const char *fileName) : exception() {
-	const char *statusMessage = StatusGetMessage(code, fileName);
-	if (statusMessage != nullptr) {
-		message.append(statusMessage);
-		Free((void*)statusMessage);
-		this->statusCode = code;
-	}
+	const char *fileName) : exception(), statusCode(code) {
+	setMessage(StatusGetMessage(code, fileName));
 }
+
 StatusCodeException::~StatusCodeException() {}
 
+void StatusCodeException::setMessage(const char *allocated) {
+	if (allocated != nullptr) {
+		try {
+			message.assign(allocated);
+		}
+		catch (...) {
+			Free((void*)allocated);
+			throw;
+		}
+		Free((void*)allocated);
+	}
+}
+
 const char* StatusCodeException::what() const noexcept {
 	return message.c_str();
 }
@@ -59,11 +65,8 @@ fiftyoneDegreesStatusCode StatusCodeException::getCode() const noexcept {
 
 FatalException::FatalException(
 	fiftyoneDegreesException *exception) : StatusCodeException() {
-	const char *exceptionMessage = ExceptionGetMessage(exception);
-	if (exceptionMessage != nullptr) {
-		message.append(exceptionMessage);
-		Free((void*)exceptionMessage);
-	}
+	statusCode = exception->status;
+	setMessage(ExceptionGetMessage(exception));
 }
 
 NotImplementedException::NotImplementedException() 
diff --git a/Exceptions.hpp b/Exceptions.hpp
index 84b55b3..5e016c9 100644
--- a/Exceptions.hpp
+++ b/Exceptions.hpp
@@ -82,6 +82,12 @@ namespace FiftyoneDegrees {
 			 */
 			StatusCodeException();
 
+			/**
+			 * Set the message to the one provided, which is then freed.
+			 * @param allocated message to copy and free, may be null
+			 */
+			void setMessage(const char *allocated);
+
 			/** Status code */
 			fiftyoneDegreesStatusCode statusCode;
 
-- 
2.43.0


From 522c3243ed997009c9a14028dea992f3ebb9f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 32/46] fix: meta data strings leak the collection item when
 the copy fails

---
 EntityMetaDataBuilder.hpp | 10 +++++++++-
 MetaData.cpp              |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/EntityMetaDataBuilder.hpp b/EntityMetaDataBuilder.hpp
index 4a13b66..43063e2 100644
--- a/EntityMetaDataBuilder.hpp
+++ b/EntityMetaDataBuilder.hpp
@@ -69,7 +69,15 @@ namespace FiftyoneDegrees {
 					exception);
 				FIFTYONE_DEGREES_EXCEPTION_THROW;
 					if (str != nullptr) {
-						result.append(&str->value);
+						try {
+							result.append(&str->value);
+						}
+						catch (...) {
+							FIFTYONE_DEGREES_COLLECTION_RELEASE(
+								stringsCollection,
+								&item);
+							throw;
+						}
 					}
 					FIFTYONE_DEGREES_COLLECTION_RELEASE(
 						stringsCollection,
diff --git a/MetaData.cpp b/MetaData.cpp
index 81cf0e6..5a98886 100644
--- a/MetaData.cpp
+++ b/MetaData.cpp
@@ -48,7 +48,13 @@ string MetaData::getString(
 		exception);
 	EXCEPTION_THROW;
 	if (str != nullptr) {
-		result.append(&str->value);
+		try {
+			result.append(&str->value);
+		}
+		catch (...) {
+			COLLECTION_RELEASE(strings, &item);
+			throw;
+		}
 	}
 	COLLECTION_RELEASE(strings, &item);
 	return result;
-- 
2.43.0


From e63773ba0d3bdf2888291290ae25969709417291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 33/46] fix: temporary directories leak when set twice and
 ignore a failed allocation

---
 ConfigBase.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ConfigBase.cpp b/ConfigBase.cpp
index 1b827c0..d054d7d 100644
--- a/ConfigBase.cpp
+++ b/ConfigBase.cpp
@@ -21,6 +21,7 @@
  * ********************************************************************* */
 
 #include "ConfigBase.hpp"
+#include "Exceptions.hpp"
 
 #include "fiftyone.h"
 
@@ -48,6 +49,8 @@ void ConfigBase::setReuseTempFile(bool reuse) {
 
 void ConfigBase::setTempDirectories(
 	vector<string> newTempDirs) {
+	// The directories set previously are pointed to by the configuration.
+	freeTempDirectories();
 	this->tempDirs = newTempDirs;
 	mapTempDirectories();
 }
@@ -81,10 +84,18 @@ void ConfigBase::freeTempDirectories() {
 }
 
 void ConfigBase::mapTempDirectories() {
-	config->tempDirCount = (int)tempDirs.size();
-	config->tempDirs = (const char**)Malloc(
-		config->tempDirCount * sizeof(const char*));
-	for (int i = 0; i < config->tempDirCount; i++) {
-		config->tempDirs[i] = tempDirs.at(i).c_str();
+	// Free any directories which were set previously.
+	freeTempDirectories();
+	if (tempDirs.empty() == false) {
+		config->tempDirs = (const char**)Malloc(
+			tempDirs.size() * sizeof(const char*));
+		if (config->tempDirs == NULL) {
+			throw StatusCodeException(
+				FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY);
+		}
+		config->tempDirCount = (int)tempDirs.size();
+		for (int i = 0; i < config->tempDirCount; i++) {
+			config->tempDirs[i] = tempDirs.at(i).c_str();
+		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 5addb77c7d0c9062e396e69ec5599121888672ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 34/46] fix: required properties are changed by reading them
 and ignore failed allocations

---
 RequiredPropertiesConfig.cpp | 80 +++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 24 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 3e7c1c2..42121f1 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -21,6 +21,7 @@
  * ********************************************************************* */
 
 #include "RequiredPropertiesConfig.hpp"
+#include "Exceptions.hpp"
 
 #include "fiftyone.h"
 
@@ -34,6 +35,33 @@ using namespace FiftyoneDegrees::Common;
 #define _strnicmp strncasecmp
 #endif
 
+/**
+ * Copy the string provided to memory which must be freed by the caller.
+ */
+static const char* copyString(const char *source) {
+	char *copy = (char*)Malloc(strlen(source) + 1);
+	if (copy == nullptr) {
+		throw StatusCodeException(
+			FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY);
+	}
+	strcpy(copy, source);
+	return copy;
+}
+
+/**
+ * Get the next property name in the comma separated string without changing
+ * the string.
+ * @param current set to the first character after the name
+ * @param length set to the length of the name
+ * @return the start of the name, or null if there are no more names
+ */
+static const char* nextProperty(const char **current, size_t *length) {
+	const char *start = *current + strspn(*current, ",");
+	*length = strcspn(start, ",");
+	*current = start + *length;
+	return *length > 0 ? start : nullptr;
+}
+
 RequiredPropertiesConfig::RequiredPropertiesConfig() {
 	conf.count = 0;
 	conf.array = nullptr;
@@ -44,12 +72,17 @@ RequiredPropertiesConfig::RequiredPropertiesConfig() {
 RequiredPropertiesConfig::RequiredPropertiesConfig(
 	vector<string> *properties) : RequiredPropertiesConfig() {
 	if (properties != nullptr) {
-		conf.count = (int)properties->size();
+		int count = (int)properties->size();
 		conf.array = (const char**)Malloc(
-			conf.count * sizeof(const char*));
-		for (int i = 0; i < conf.count; i++) {
-			conf.array[i] = (char*)Malloc((*properties)[i].size() + 1);
-			strcpy((char*)conf.array[i], (*properties)[i].c_str());
+			count * sizeof(const char*));
+		if (conf.array == nullptr && count > 0) {
+			throw StatusCodeException(
+				FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY);
+		}
+		while (conf.count < count) {
+			conf.array[conf.count] = copyString(
+				(*properties)[conf.count].c_str());
+			conf.count++;
 		}
 	}
 }
@@ -62,8 +95,7 @@ RequiredPropertiesConfig::RequiredPropertiesConfig(
 RequiredPropertiesConfig::RequiredPropertiesConfig(
 	const char *properties) : RequiredPropertiesConfig() {
 	if (properties != nullptr) {
-		conf.string = (const char*)Malloc(strlen(properties) + 1);
-		strcpy((char*)conf.string, properties);
+		conf.string = copyString(properties);
 	}
 }
 
@@ -90,7 +122,8 @@ RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 
 vector<string> RequiredPropertiesConfig::getProperties() const {
 	int i;
-	char *current;
+	size_t length;
+	const char *current, *name;
 	vector<string> result;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
@@ -98,10 +131,9 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			result.insert(result.end(), current);
-			current = strtok(NULL, ",");
+		current = conf.string;
+		while ((name = nextProperty(&current, &length)) != nullptr) {
+			result.insert(result.end(), string(name, length));
 		}
 	}
 	return result;
@@ -110,7 +142,8 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 bool RequiredPropertiesConfig::containsProperty(
 	const char *property) const {
 	int i;
-	char *current;
+	size_t length, propertyLength;
+	const char *current, *name;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
 			if (_stricmp(property, conf.array[i]) == 0) {
@@ -119,12 +152,13 @@ bool RequiredPropertiesConfig::containsProperty(
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			if (_stricmp(property, current) == 0) {
+		propertyLength = strlen(property);
+		current = conf.string;
+		while ((name = nextProperty(&current, &length)) != nullptr) {
+			if (length == propertyLength &&
+				_strnicmp(property, name, length) == 0) {
 				return true;
 			}
-			current = strtok(NULL, ",");
 		}
 	}
 	return false;
@@ -137,18 +171,16 @@ bool RequiredPropertiesConfig::containsProperty(
 
 int RequiredPropertiesConfig::getCount() const {
 	int count;
-	char *current;
+	size_t length;
+	const char *current;
 	if (conf.array != nullptr) {
 		return conf.count;
 	}
 	else if (conf.string != nullptr) {
 		count = 0;
-		current = (char*)conf.string;
-		while (*current != '\0') {
-			if (*current == ',') {
-				count++;
-			}
-			current++;
+		current = conf.string;
+		while (nextProperty(&current, &length) != nullptr) {
+			count++;
 		}
 		return count;
 	}
-- 
2.43.0


From f3863140e0ad5114df8ca2adaf78a23e3bce2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:14 +0000
Subject: [PATCH 35/46] fix: concurrent file creation leaves the process with
 another file mode creation mask

---
 file.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/file.c b/file.c
index 9b1f2ec..e223f1c 100644
--- a/file.c
+++ b/file.c
@@ -102,18 +102,21 @@ static StatusCode fileOpen(
 	const char *mode) {
 	// Open the file and hold on to the data.ptr.
 #ifndef _MSC_FULL_VER
-	unsigned int originalMask = 0;
-	if (mode[0] == 'w') {
-		originalMask = umask(0);
-	}
+	bool created = mode[0] == 'w' && access(fileName, F_OK) != 0;
 
 	errno = 0;
 	*handle = fopen(fileName, mode);
-
-	if (mode[0] == 'w') {
-		umask(originalMask);
+#ifndef __MINGW32__
+	// The permissions of a new file do not depend on the file mode creation
+	// mask. The mask belongs to the process so can't be changed here without
+	// affecting the files which other threads create meanwhile.
+	if (created && *handle != NULL) {
+		fchmod(
+			fileno(*handle),
+			S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
 	}
-	
+#endif
+
 	if (*handle == NULL) {
 		if (strcmp(mode, "rb") == 0) {
 			return FILE_NOT_FOUND;
-- 
2.43.0


From 7ba360d956455f09ce8becfb48f8ede1d84d35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:08 +0000
Subject: [PATCH 36/46] fix: pseudo evidence was added for headers not counted
 as pseudo headers, past the storage made for it

---
 pseudoheader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index c2f14ec..20560b7 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -179,8 +179,9 @@ fiftyoneDegreesPseudoHeadersAddEvidence(
             i < acceptedHeaders->count && EXCEPTION_OKAY;
             i++) {
             header = &acceptedHeaders->items[i];
-            // Only add evidence for pseudo header
-            if (HeadersIsPseudo(header->name)) {
+            // Only add evidence for pseudo headers, which are the ones that are
+            // counted as such and have more than one segment.
+            if (header->segments->count > 1) {
                 // Prioritise the supplied evidence. If an evidence exists
                 // for a pseudo header then don't construct the evidence
                 // for it.
-- 
2.43.0


From 6e16a9b047d454f33b1d165524f16d8dd8799380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:08 +0000
Subject: [PATCH 37/46] fix: pseudo evidence was added although a segment after
 a truncated one has no value

---
 pseudoheader.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index 20560b7..5e5945b 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -112,7 +112,16 @@ static int constructPseudoEvidence(
 		}
 		else if (added >= max - current) {
             // Don't nullify the buffer in this case, just report that
-            // it is truncated.
+            // it is truncated. There is still no evidence if one of the
+            // remaining segments has no value.
+            while (++i < header->segments->count) {
+                segment = &header->segments->items[i];
+                if (getEvidenceValueForHeader(
+                    segment, evidence, prefix) == NULL) {
+                    memset(buffer, '\0', bufferSize);
+                    return 0;
+                }
+            }
             return (int)(current - buffer + added);
         }
         current += added;
-- 
2.43.0


From b1a5c91f17db90c29b28dd5338d3688be11c91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:19 +0000
Subject: [PATCH 38/46] fix: a string that ends with the start of another was
 reported to contain it

---
 string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.c b/string.c
index 180eb69..9395b56 100644
--- a/string.c
+++ b/string.c
@@ -101,7 +101,7 @@ char *fiftyoneDegreesStringSubString(const char *a, const char *b) {
 					break;
 				}
 			}
-			if (d == 0) {
+			if (d == 0 && *b1 == '\0') {
 				return (char *)a;
 			}
 		}
-- 
2.43.0


From 63022719dd652aa0e9699a6602646c51f0dde508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:19 +0000
Subject: [PATCH 39/46] fix: properties whose name could not be read were made
 available without name or index

---
 properties.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/properties.c b/properties.c
index b0ed440..24def89 100644
--- a/properties.c
+++ b/properties.c
@@ -316,17 +316,22 @@ static PropertiesAvailable* initAllProperties(
 	return available;
 }
 
-static void setPropertyNames(
+static bool setPropertyNames(
 	propertiesSource* source,
 	PropertiesAvailable* available) {
 	uint32_t i;
+	bool result = true;
 	for (i = 0; i < available->count; i++) {
 		DataReset(&available->items[i].name.data);
 		source->getName(
 			source->state,
 			available->items[i].propertyIndex,
 			&available->items[i].name);
+		if (available->items[i].name.data.ptr == NULL) {
+			result = false;
+		}
 	}
+	return result;
 }
 
 static bool setEvidenceProperties(
@@ -385,10 +390,13 @@ static bool initRequiredProperties(
 	propertiesSource *source,
 	PropertiesAvailable *available) {
 	uint32_t i;
+	int propertyIndex;
 	String *string;
 
 	// Set the names for each of the properties.
-	setPropertyNames(source, available);
+	if (setPropertyNames(source, available) == false) {
+		return false;
+	}
 
 	// Set the evidence properties for each of the properties.
 	if (setEvidenceProperties(source, available) == false) {
@@ -401,12 +409,14 @@ static bool initRequiredProperties(
 	// The property indexes are now invalid so need to be reset from the names.
 	for (i = 0; i < available->count; i++) {
 		string = (String*)available->items[i].name.data.ptr;
-		if (string != NULL) {
-			available->items[i].propertyIndex = getPropertyIndex(
-				source,
-				&string->value,
-				string->size - 1);
+		propertyIndex = getPropertyIndex(
+			source,
+			&string->value,
+			string->size - 1);
+		if (propertyIndex < 0) {
+			return false;
 		}
+		available->items[i].propertyIndex = propertyIndex;
 	}
 	return true;
 }
-- 
2.43.0


From 9aad68fd108b8b664bf81d7ccd1c6ba2252c69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:19 +0000
Subject: [PATCH 40/46] fix: the bytes of an incomplete IP address were left to
 what the memory held before

---
 ip.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ip.c b/ip.c
index 885a3d4..9d8e01a 100644
--- a/ip.c
+++ b/ip.c
@@ -239,6 +239,13 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 		address->current = (byte*)(address + 1);
 		address->bytesPresent = (byte)count;
 		address->type = type;
+		// Segments missing from the source value are zero.
+		memset(
+			address->address,
+			0,
+			type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+			FIFTYONE_DEGREES_IPV4_LENGTH :
+			FIFTYONE_DEGREES_IPV6_LENGTH);
 		// Add the bytes from the source value and get the type of address.
 		iterateIpAddress(
 			start,
-- 
2.43.0


From 15576127254ce68122e7b83199a78a705e5751b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:16 +0000
Subject: [PATCH 41/46] fix: a temporary file whose name another creation had
 just given up kept the mask's permissions

---
 file.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index e223f1c..2939294 100644
--- a/file.c
+++ b/file.c
@@ -102,7 +102,9 @@ static StatusCode fileOpen(
 	const char *mode) {
 	// Open the file and hold on to the data.ptr.
 #ifndef _MSC_FULL_VER
-	bool created = mode[0] == 'w' && access(fileName, F_OK) != 0;
+	// In exclusive mode a file that can be opened is always a new one.
+	bool created = mode[0] == 'w' && (
+		strcmp(mode, "wbx") == 0 || access(fileName, F_OK) != 0);
 
 	errno = 0;
 	*handle = fopen(fileName, mode);
-- 
2.43.0


From a475a12c31893ee0af5e9e375c6d157e461c89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:59 +0000
Subject: [PATCH 42/46] fix: the copy of an IP address held as many bytes as
 the number of its type

---
 IpAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IpAddress.cpp b/IpAddress.cpp
index a3933d0..36d3368 100644
--- a/IpAddress.cpp
+++ b/IpAddress.cpp
@@ -74,8 +74,8 @@ void IpAddress::init(const unsigned char * const ipAddressData,
 
 void IpAddress::getCopyOfIpAddress(unsigned char copy[], const uint32_t size) const {
     const uint32_t dataSize = ((type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4)
-        ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4
-        : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6);
+        ? FIFTYONE_DEGREES_IPV4_LENGTH
+        : FIFTYONE_DEGREES_IPV6_LENGTH);
 	const uint32_t copySize = (size < dataSize) ? size : dataSize;
 	memcpy(copy, ipAddress, copySize);
 }
-- 
2.43.0


From 782b7323a20c07168efe26bbf9bea3f0e2e7ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:13 +0000
Subject: [PATCH 43/46] fix: a property with a name of one character could not
 be overridden with the 51D_ prefix

---
 overrides.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/overrides.c b/overrides.c
index 08e70c2..d58f68e 100644
--- a/overrides.c
+++ b/overrides.c
@@ -94,7 +94,7 @@ static bool startsWith(String *string, String *prefix) {
  */
 static const char* skipPrefix(bool prefixed, const char *field) {
 	char *result = (char*)field;
-	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) &&
+	if (prefixed == true && strlen(result) >= sizeof(OVERRIDE_PREFIX) &&
 		StringCompareLength(
 			field,
 			OVERRIDE_PREFIX,
-- 
2.43.0


From 4161b8e315b8e71966c1131ebdca865df2294c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:36 +0000
Subject: [PATCH 44/46] fix: the file name of a path without a separator lost
 its first character

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 2939294..f399359 100644
--- a/file.c
+++ b/file.c
@@ -1177,8 +1177,8 @@ void fiftyoneDegreesFilePoolReset(fiftyoneDegreesFilePool *filePool) {
 
 const char* fiftyoneDegreesFileGetFileName(const char *filePath) {
 	char *c = (char*)filePath + strlen(filePath);
-	while (*c != '\\' && *c != '/' && c != filePath) {
+	while (c != filePath && *(c - 1) != '\\' && *(c - 1) != '/') {
 		c--;
 	}
-	return c + 1;
+	return c;
 }
-- 
2.43.0


From 3893a83ba7e56ae0ef3c6f089e4b3f04737cc69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:42 +0000
Subject: [PATCH 45/46] fix: a temporary file was named by uninitialised or
 rejected characters when the clock could not be read

---
 file.c | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/file.c b/file.c
index f399359..45fdd6a 100644
--- a/file.c
+++ b/file.c
@@ -292,7 +292,7 @@ static int getUniqueLegacyFileName(
 	int charAdded = 0;
 	do {
 		charAdded = getRandomString(length, destination + nameStart);
-	} while (fileExists(destination) && (charAdded >= 0 && charAdded <= (int)length));
+	} while (charAdded >= 0 && fileExists(destination));
 	return charAdded;
 }
 
@@ -810,25 +810,26 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileAddTempFileName(
 
 	do {
 		if (getRandomString(TEMP_UNIQUE_STRING_LENGTH + 1, uniqueString) < 0) {
-			return TEMP_FILE_ERROR;
-		}
-
-		int charsAdded = Snprintf(
-			destination + nameStart,
-			length,
-			"%s-%" PRId64 "-%s",
-			basename,
-			processId,
-			uniqueString);
-	
-		if (charsAdded < 0) {
-			status = ENCODING_ERROR;
-		}
-		else if ((size_t)charsAdded >= length) {
-			status = INSUFFICIENT_MEMORY;
+			status = TEMP_FILE_ERROR;
 		}
 		else {
-			status = SUCCESS;
+			int charsAdded = Snprintf(
+				destination + nameStart,
+				length,
+				"%s-%" PRId64 "-%s",
+				basename,
+				processId,
+				uniqueString);
+
+			if (charsAdded < 0) {
+				status = ENCODING_ERROR;
+			}
+			else if ((size_t)charsAdded >= length) {
+				status = INSUFFICIENT_MEMORY;
+			}
+			else {
+				status = SUCCESS;
+			}
 		}
 	
 		// Discard any changes to the destination if error occurred
@@ -968,8 +969,10 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 	if (paths == NULL || count == 0) {
 		// Use another name if a file with the one found was created meanwhile.
 		do {
-			getUniqueLegacyFileName(TEMP_UNIQUE_STRING_LENGTH, fileName, 0);
-			status = fileCopyWithMode(masterFile, fileName, "wbx");
+			status = getUniqueLegacyFileName(
+				TEMP_UNIQUE_STRING_LENGTH, fileName, 0) < 0 ?
+				TEMP_FILE_ERROR :
+				fileCopyWithMode(masterFile, fileName, "wbx");
 		} while (status == FILE_EXISTS_ERROR);
 		if (status == SUCCESS) {
 			strcpy((char*)destination, fileName);
@@ -987,8 +990,10 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 			}
 			if (nameStart + TEMP_UNIQUE_STRING_LENGTH < FIFTYONE_DEGREES_FILE_MAX_PATH) {
 				do {
-					getUniqueLegacyFileName(TEMP_UNIQUE_STRING_LENGTH, tempPath, nameStart);
-					status = fileCopyWithMode(masterFile, tempPath, "wbx");
+					status = getUniqueLegacyFileName(
+						TEMP_UNIQUE_STRING_LENGTH, tempPath, nameStart) < 0 ?
+						TEMP_FILE_ERROR :
+						fileCopyWithMode(masterFile, tempPath, "wbx");
 				} while (status == FILE_EXISTS_ERROR);
 				if (status == SUCCESS) {
 					strcpy((char*)destination, tempPath);
-- 
2.43.0


From e427e0c469ea601c32f541a11a19374ba555dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:44 +0000
Subject: [PATCH 46/46] fix: a YAML key that starts with dashes or dots lost
 them

The characters at the start of a line which could be a document control
were dropped when the control length was not reached.
---
 yamlfile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamlfile.c b/yamlfile.c
index fa5a3a1..77a6cef 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -253,6 +253,8 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		// and reset ready for the next set.
 		else if (*current == '-' && fileState.position == fileState.dashCount) {
 			advance(&fileState);
+			// Part of a key unless the control length is reached.
+			addCharacter(&pairState, &fileState, current);
 			fileState.dashCount++;
 			if (fileState.dashCount == CONTROL_LENGTH) {
 				if (pairState.index > 0)
@@ -270,6 +272,8 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		// If a dot and control length then return and exit.
 		else if (*current == '.' && fileState.position == fileState.dotCount) {
 			advance(&fileState);
+			// Part of a key unless the control length is reached.
+			addCharacter(&pairState, &fileState, current);
 			fileState.dotCount++;
 			if (fileState.dotCount == CONTROL_LENGTH) {
 				if (pairState.index > 0)
-- 
2.43.0

