From 0d55668511fe2fafadf3d817a1b6553483e76c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:48 +0000
Subject: [PATCH 01/58] fix: array_list_clear kept the old capacity after
 shrinking the data block

A cleared list or set wrote past its one-element block when it was refilled.
---
 modules/collections/src/list.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 18b2b5b..f146828 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -280,7 +280,11 @@ void array_list_clear(ArrayList* list, int32_t resize)
 {
 	list->size = 0;
 	if(resize) {
-		list->data = realloc(list->data, list->step);
+		void* data = realloc(list->data, list->step);
+		if(data != NULL) {
+			list->data = data;
+			list->max_size = 1;
+		}
 	}
 }
 
-- 
2.43.0


From 6aee2d4cea53a9c3b9e5ee4799bdaf9c287438a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:48 +0000
Subject: [PATCH 02/58] fix: a list lost its elements when growing it failed

The only pointer to the data was overwritten with NULL, and array_list_insert_at
went on writing as if the list had grown.
---
 modules/collections/src/list.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index f146828..eb81653 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -119,12 +119,13 @@ int32_t array_list_value_at(ArrayList* list, size_t pos, void* data)
 int32_t array_list_grow(ArrayList* list){
 
 	size_t newmax = highestPowerof2(list->max_size*2);
-	list->data = realloc(list->data, newmax * list->step);
+	void* data = realloc(list->data, newmax * list->step);
 
-	if(list->data == NULL){
+	if(data == NULL){
 		return -1;
 	}
 
+	list->data = data;
 	list->max_size = newmax;
 
 	return 1;
@@ -208,7 +209,9 @@ int32_t array_list_append(ArrayList* list, void* data)
 int32_t array_list_insert_at(ArrayList* list, void* data, size_t pos) {
 
 	if(list->size == list->max_size) {
-       array_list_grow(list);
+       if(array_list_grow(list) < 0) {
+           return 0;
+       }
     }
 
     size_t t1 = pos * list->step;					// Beginning of the source
-- 
2.43.0


From c7a9b0a15410e7826801607bed122d10189e305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:48 +0000
Subject: [PATCH 03/58] fix: array_list_insert_at accepted positions past the
 end

The shift length wrapped around and corrupted the heap; the other positional
operations already reject such positions.
---
 modules/collections/src/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index eb81653..297bdca 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -208,6 +208,10 @@ int32_t array_list_append(ArrayList* list, void* data)
 
 int32_t array_list_insert_at(ArrayList* list, void* data, size_t pos) {
 
+	if(pos > list->size) {
+		return 0;
+	}
+
 	if(list->size == list->max_size) {
        if(array_list_grow(list) < 0) {
            return 0;
-- 
2.43.0


From 2df453e047379f39548adf22932618e08d852ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 04/58] fix: unhooking a linked list node lost the predecessor

The node's prev was cleared before it was used, so removing an inner node cut the
backward chain and removing the last one left the list without a tail.
---
 modules/collections/src/linkedlist.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ccbb195..ab7c9fd 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -257,7 +257,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->prev != NULL)
     {
         nd->prev->next = nd->next;
-        nd->prev = NULL;
     } else { // this is the first node
         list->head = nd->next;
 
@@ -271,7 +270,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->next != NULL)
     {
         nd->next->prev = nd->prev;
-        nd->next = NULL;
     } else { // This is the las node
         list->tail = nd->prev;
         if(list->tail != NULL)
@@ -279,6 +277,9 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
             list->tail->next = NULL;
         }
     }
+
+    nd->prev = NULL;
+    nd->next = NULL;
     list->size--;
 }
 
-- 
2.43.0


From 5d2cbc8548b43449b3d1749f91f3798cf8096c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 05/58] fix: linkedlist_lookup leaked the node it removed

---
 modules/collections/src/linkedlist.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ab7c9fd..3d1404f 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -290,13 +290,17 @@ void* linkedlist_lookup(linkedlist *list, void* data, int32_t remove, int32_t (*
 {
     node* tmp = linkedlist_lookup_helper(list, data, d_compare);
 
-    // Unhook the node from the list
-    if(remove == 1)
+    void* found = tmp ? tmp->data : NULL;
+
+    // Unhook the node from the list. The caller owns the data now
+    // but can not reach the node
+    if(remove == 1 && tmp != NULL)
     {
         linkedlist_node_unhook(list, tmp);
+        free(tmp);
     }
 
-    return tmp ? tmp->data : tmp;
+    return found;
 }
 
 /**
-- 
2.43.0


From d35136d5bff0c1afdb3046a00db814afac09a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 06/58] fix: hashtable_remove lost entries of the same bucket

The entry's prev was cleared before the next entry was linked to it; removing that
next entry afterwards dropped everything in front of it.
---
 modules/collections/src/hashtable.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index e9b6d9c..46f5d2a 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -297,7 +297,6 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->prev != NULL)
     {
         entry->prev->next = entry->next;
-        entry->prev = NULL;
     } else { // this is the first entry
         htbl->table[bucket] = entry->next;
         if(htbl->table[bucket] != NULL)
@@ -309,12 +308,6 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->next != NULL)
     {
         entry->next->prev = entry->prev;
-        entry->next = NULL;
-    } else {
-        if(entry->prev != NULL)
-        {
-            entry->prev->next = NULL;
-        }
     }
 
     // destroy the node and get the data
-- 
2.43.0


From 56dd10ea7acb4705d1afd7c0d761edd24e3fb1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 07/58] fix: hashtable_remove copied the value with the size of
 the key

Values wider than keys came back truncated and narrower ones were read out of bounds.
---
 modules/collections/src/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 46f5d2a..08f7297 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -311,7 +311,7 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     }
 
     // destroy the node and get the data
-    hashtable_entry_destroy(entry, data, get_htype_size(htbl->ktype));
+    hashtable_entry_destroy(entry, data, get_htype_size(htbl->dtype));
     htbl->size--;    
     set_remove(htbl->keys, key);
 
-- 
2.43.0


From 65f9b54c6f5b99d6789af24f3aebda14cced6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 08/58] fix: hashtable_clear destroyed the wrong keys when keys
 collide

Every entry of a bucket was cleared with the key of the first one: that key was
destroyed repeatedly, the others never, and later keys were hashed after they had
been destroyed.
---
 modules/collections/src/hashtable.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 08f7297..0063ca5 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -329,30 +329,23 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
  */
 int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*value_destroy)(void *value))
 {
-    void* key = malloc(get_htype_size(htbl->ktype));
+    size_t ksize = get_htype_size(htbl->ktype);
+    void* key = malloc(ksize);
     size_t dsize = get_htype_size(htbl->dtype);
     void* data = malloc(dsize);
     hashtable_entry* entry = NULL;
     hashtable_entry* tmp = NULL;
 
-    for(size_t i = 0; i < set_size(htbl->keys); i++)
+    for(size_t i = 0; i < htbl->buckets; i++)
     {
-        set_value_at(htbl->keys, i, key);
-        size_t bucket = htbl->key_hash(key, htbl->buckets);
-        entry = htbl->table[bucket];
-        htbl->table[bucket] = NULL; /// unhook the entries from the bucket
-
-        /// The colliding entries will be removed as well 
-        /// so check to make sure we do not attempt to remove again.
-        if(entry == NULL)
-        {
-            continue;
-        }
+        entry = htbl->table[i];
+        htbl->table[i] = NULL; /// unhook the entries from the bucket
 
         while(entry)
         {
             tmp = entry;
             entry = entry->next;
+            memcpy(key, tmp->key, ksize);
             hashtable_entry_destroy(tmp, data, dsize);
 
             if(key_destroy != NULL && *(void **)key != NULL)
-- 
2.43.0


From 742b24f244aa9ebdbfa16574aeaac6acf16ba6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 09/58] fix: find_prime_less_than returned 0 for many primes

The search went right when the number was the predecessor of the probed prime.
---
 modules/collections/src/primes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index d1270b8..fa19e00 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -83,7 +83,7 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
         // If element is smaller than mid, then 
         // it can only be present in left subarray
 
-        if (primes[mid] > x && primes[mid - 1] > x) {
+        if (primes[mid] > x && primes[mid - 1] >= x) {
             return binary_search_primes(l, mid - 1, x); 
         } 
   
-- 
2.43.0


From edebd9b6b67576d3c7b4230df09a9aef2adbc30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 10/58] fix: get_prime returned min + 1 whether or not it is
 prime

---
 modules/collections/src/primes.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index fa19e00..0735041 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -38,25 +38,29 @@
  */
 #include "collections/primes.h"
 
-int32_t get_prime(int32_t min)
+static int32_t is_prime(int32_t num)
 {
-    int32_t prime, n_primes = 0;
+    if(num < 2) {
+        return 0;
+    }
 
-    for(int i = min + 1; n_primes < INT_MAX; i++)
+    for(int32_t i = 2; i <= num / i; i++)
     {
-        for (int j = 0; i < n_primes; i++)
-        {
-            if (i % primes[j] == 0) {
-                goto not_prime;
-            }
+        if(num % i == 0) {
+            return 0;
         }
+    }
+
+    return 1;
+}
 
-        // Once we have found a prime, then we need to exit the loop
-        prime = i;
-        break;
-        
-        not_prime:
-            ;
+int32_t get_prime(int32_t min)
+{
+    int32_t prime = min < 2 ? 2 : min + 1;
+
+    while(!is_prime(prime))
+    {
+        prime++;
     }
 
     return prime;
-- 
2.43.0


From 8217cbeb0dac719370b4304d10bd43625d5c9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:11 +0000
Subject: [PATCH 11/58] fix: find_prime_less_than returned 0 beyond the end of
 its table

---
 .../collections/include/collections/primes.h    |  2 +-
 modules/collections/src/primes.c                | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/modules/collections/include/collections/primes.h b/modules/collections/include/collections/primes.h
index df7efb4..67cc299 100644
--- a/modules/collections/include/collections/primes.h
+++ b/modules/collections/include/collections/primes.h
@@ -72,7 +72,7 @@ int32_t get_prime(int32_t min);
  */
 int32_t binary_search_primes(int32_t l, int32_t r, int32_t x) ;
 
-#define p_sz 200
+#define p_sz 198
 // Creating an array of prime numbers for creating key hashes
 // We only need 120 primes from 29 to 409. If we need more we
 // will have to calculate them.
diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index 0735041..e188118 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -106,10 +106,17 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
  */ 
 int32_t find_prime_less_than(int32_t num)
 {
-    //if(num > primes[sz-1])
-   // {
-   //     return get_prime(num);
-   // } else {
+    if(num > primes[p_sz-1])
+    {
+        int32_t prime = num - 1;
+
+        while(!is_prime(prime))
+        {
+            prime--;
+        }
+
+        return prime;
+    }
+
     return binary_search_primes(0, p_sz-1, num);
-    //}
 }
\ No newline at end of file
-- 
2.43.0


From cb1a9aabe0c14c70b14619dc5b2381f826cdaa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 12/58] fix: core distances were wrong when distances tie

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 8e1fbb5..0a96f3f 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -245,6 +245,7 @@ void distance_get_core_distances(distance *dis)
 				if (sortedDistance[mid] > t) {
 					high = mid;
 				} else if (sortedDistance[mid] == t) {
+					low = mid;
 					break;
 				} else {
 					low = (index_t)(mid + 1);
-- 
2.43.0


From 0f95c418819be92cfc24ddbd1dfbed6dd5d6c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:47 +0000
Subject: [PATCH 13/58] fix: triangular offsets overflowed for 65536 rows and
 more

---
 modules/utils/include/hdbscan/utils.h | 4 ++--
 src/distance.c                        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/utils/include/hdbscan/utils.h b/modules/utils/include/hdbscan/utils.h
index e28f6c5..178853b 100644
--- a/modules/utils/include/hdbscan/utils.h
+++ b/modules/utils/include/hdbscan/utils.h
@@ -160,9 +160,9 @@ int32_t ptr_ptr_compare(const void * ptr_a, const void * ptr_b);
  * @brief Calculate the triangular number of n
  * 
  * @param n 
- * @return uint 
+ * @return size_t 
  */
-inline uint TRIANGULAR_H(uint n) {
+inline size_t TRIANGULAR_H(size_t n) {
 	return (n * n + n) / 2;
 }
 
diff --git a/src/distance.c b/src/distance.c
index 0a96f3f..80c7412 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -114,12 +114,12 @@ void distance_clean(distance* d){
 distance_t distance_get(distance* dis, index_t row, index_t col) {
 	size_t idx;
 	if (row < col) {
-		idx = (size_t) ((size_t)(dis->rows * row + col) - (size_t)TRIANGULAR_H((uint)(row + 1)));
+		idx = (size_t)dis->rows * row + col - TRIANGULAR_H((size_t)row + 1);
 
 	} else if (row == col) {
 		return 0;
 	} else {
-		idx = (size_t)((size_t)(dis->rows * col + row) - (size_t)TRIANGULAR_H((uint)(col + 1)));
+		idx = (size_t)dis->rows * col + row - TRIANGULAR_H((size_t)col + 1);
 	}
 	return dis->distances[idx];
 }
@@ -139,7 +139,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 	
 	dis->rows = rows;
     dis->cols = cols;
-    size_t sub = (size_t)(rows * rows -rows)/2;
+    size_t sub = ((size_t)rows * rows - rows) / 2;
     dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
 	distance_t sum, diff;
@@ -192,7 +192,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 
 			// Calculate the linearised upper triangular matrix offset
 			size_t offset = i * dis->rows + j;
-			size_t c = offset - TRIANGULAR_H((uint)i + 1);		
+			size_t c = offset - TRIANGULAR_H(i + 1);		
 			dis->distances[c] = sum;			
 		}
 	}
-- 
2.43.0


From 8c1a3627c99cc9f059378095f1e25afb76e3fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:47 +0000
Subject: [PATCH 14/58] fix: differences of int and long values overflowed

---
 src/distance.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 80c7412..a6631ec 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -170,11 +170,14 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 				} else if(dis->datatype == H_INT) {
 
 					int* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((int64_t)dt[i * dis->cols + k] - dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_LONG) {
 
 					long* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					long a = dt[i * dis->cols + k];
+					long b = dt[j * dis->cols + k];
+					// The difference may not fit in a long
+					diff = (distance_t)(a > b ? (unsigned long)a - (unsigned long)b : (unsigned long)b - (unsigned long)a);
 				} else if(dis->datatype == H_SHORT) {
 
 					short* dt = dataset;
-- 
2.43.0


From 7037c2c38754debc0d022bc38943174c27a73d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:12 +0000
Subject: [PATCH 15/58] fix: the spanning tree without self edges wrote past
 its vertex list

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1d31614..b80b13f 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -945,7 +945,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 		//Attach the closest point found in this iteration to the tree:
 		attachedPoints[nearestMRDPoint] = TRUE;
-		others[numAttachedPoints] = numAttachedPoints;
+		others[numAttachedPoints - 1] = (index_t)(numAttachedPoints - 1);
 		currentPoint = (index_t)nearestMRDPoint;
 	}
 
-- 
2.43.0


From 4bdd3d880b9c7e5d3f70d50f84206027f2340671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 16/58] fix: hdbscan_init left members unset that hdbscan_clean
 frees

---
 src/hdbscan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b80b13f..b74a03e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -127,6 +127,9 @@ hdbscan* hdbscan_init(hdbscan* sc, index_t minPoints){
 		sc->clusters = NULL;
 		sc->coreDistances = NULL;
 		sc->outlierScores = NULL;
+		sc->mst = NULL;
+		sc->numPoints = 0;
+		distance_init(&sc->distanceFunction, _EUCLIDEAN, H_DOUBLE);
 	}
 
 	return sc;
-- 
2.43.0


From 2235bd01ca7d5b44b281306adfc4fa35fa719bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 17/58] fix: hdbscan_run aborted for data sets of fewer than
 five points

---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b74a03e..3be13e6 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -240,7 +240,7 @@ int hdbscan_do_run(hdbscan* sc){
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = 4;
 	}
 	
 	sc->hierarchy = hashtable_init(csize, H_LONG, H_PTR, long_compare);
@@ -324,7 +324,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = 4;
 	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
-- 
2.43.0


From c4108aaa777a19f8e8d231eba6f11f9ef757edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 18/58] fix: hdbscan_create_cluster_map aborted for fewer than
 three labels

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 3be13e6..884c5a1 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1226,7 +1226,7 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		hashtable_lookup(clusterTable, lb, &clusterList);
 
 		if(clusterList == NULL){
-			clusterList = array_list_init(size/3, sizeof(index_t), NULL);
+			clusterList = array_list_init(size/3 + 1, sizeof(index_t), NULL);
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
-- 
2.43.0


From 39a4c6b707165171971b1e5a25d72867a1d1fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 19/58] fix: hdbscan_run leaked the results of an earlier run

---
 src/hdbscan.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 884c5a1..d29d0da 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -316,6 +316,11 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 		return HDBSCAN_ERROR;
 	}
 	
+	// Release the results of an earlier run
+	if(sc->clusters != NULL){
+		hdbscan_clean(sc);
+	}
+
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-- 
2.43.0


From cdb62c5197ea24119b13d12dd16b47edaa565a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 20/58] fix: hdbscan_run read past the distances of a data set
 that is not rowwise

---
 src/hdbscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index d29d0da..b3cd464 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -324,7 +324,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-	distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
+	// Every element is a point of its own unless the data set is rowwise
+	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1));
 
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
-- 
2.43.0


From e3b5a6bdbd945aa1a8d87d7eb74e15fab66fa33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 21/58] fix: infinite cluster stability was never reported

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b3cd464..5d39dc9 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1042,7 +1042,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 		currentCluster = ((cluster **)sc->clusters->data)[x];
 		cluster_propagate(currentCluster);
 
-		if(currentCluster->stability == D_MAX){
+		if(isinf(currentCluster->stability)){
 			infiniteStability = TRUE;
 		}
 		if(currentCluster->parent != NULL){
-- 
2.43.0


From 9efce8ae700ff6959944c9744752ec2e00c7fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 22/58] fix: a root cluster without children gave outlier
 scores far outside 0 to 1

---
 src/cluster.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 441b432..f174c58 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -148,11 +148,13 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
  */
 void cluster_propagate(cluster* cl){
 
+	//A cluster without children has only its own death level:
+	if (cl->propagatedLowestChildDeathLevel == D_MAX){
+		cl->propagatedLowestChildDeathLevel = cl->deathLevel;
+	}
+
 	if (cl->parent != NULL) {
 		//Propagate lowest death level of any descendants:
-        if (cl->propagatedLowestChildDeathLevel == D_MAX){
-        	cl->propagatedLowestChildDeathLevel = cl->deathLevel;
-		}
 
 		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel){
 			cl->parent->propagatedLowestChildDeathLevel = cl->propagatedLowestChildDeathLevel;
-- 
2.43.0


From 4d9ad4cb49e8a2d80cb3bda9cbde17c6fafba230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 23/58] fix: variances accumulated into uninitialised memory

---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 5d39dc9..c36e477 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1450,6 +1450,8 @@ void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_s
 	stats->intraDistanceValues.mean = stats->intraDistanceValues.mean/stats->count;
 
 	/// Calculate the variance
+	stats->coreDistanceValues.variance = 0;
+	stats->intraDistanceValues.variance = 0;
 	distance_t sum_sc = 0;
 	distance_t sum_sd = 0;
 	distance_t sum_dc = 0;
-- 
2.43.0


From 371de2c1e18853bd1d5b5d2090fb6dad1b64dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 24/58] fix: hdbscan_sort_by_similarity sorted the given
 clusters by the distances of others

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c36e477..e3775c1 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1699,7 +1699,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 #pragma omp parallel for private(key, dv, conf)
 #endif
 		for(size_t i = 0; i < clusters->size; i++){
-			key = ((label_t *)distanceMap->keys->data)[i];			
+			key = ((label_t *)clusters->data)[i];
 			hashtable_lookup(distanceMap, &key, &dv);
 			
 			if(distanceType == CORE_DISTANCE_TYPE){
-- 
2.43.0


From 1a2cb48453209f17b8b59249198a99997bef2891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 25/58] fix: sorting clusters aborted when given no or an empty
 list

---
 src/hdbscan.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index e3775c1..2112bcd 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1654,7 +1654,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 		distances = array_list_init(hashtable_size(distanceMap), sizeof(distance_t), NULL);
 
 	} else{
-		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		distances = array_list_init(clusters->size > 0 ? clusters->size : hashtable_size(distanceMap), sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
@@ -1727,7 +1727,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
  */
 ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
-	assert(clusterTable != NULL && clusters != NULL);
+	assert(clusterTable != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
@@ -1742,7 +1742,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
 		lengths = array_list_init(hashtable_size(clusterTable), sizeof(distance_t), NULL);
 	} else{
-		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		lengths = array_list_init(clusters->size > 0 ? clusters->size : hashtable_size(clusterTable), sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
-- 
2.43.0


From 49ede5475f01c07b5f700223c83d37fa45a5f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 26/58] fix: hdbscan_sort_by_length read labels out of the key
 set structure

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 2112bcd..b110a6e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1758,7 +1758,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		for(size_t i = 0; i < hashtable_size(clusterTable); i++)
 		{
 			ArrayList *lst = NULL;
-			key = ((label_t *)clusterTable->keys)[i];
+			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
 			array_list_append(clusters, &key);
 			distance_t tmp = (distance_t)lst->size;
-- 
2.43.0


From b113c89fd7b71e7de60a37cff8f17c2f5bb3c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 27/58] fix: the minimum core distance of a cluster depended on
 the order of its points

---
 src/hdbscan.c   | 2 +-
 src/hdbscan.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b110a6e..ca05799 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1296,7 +1296,7 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 				hashtable_insert(distanceMap, &key, &dl);
 			} else {
 
-				if(dl->min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl->min_cr > core[index] || dl->min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl->min_cr = core[index];
 				}
 
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e4b3b75..7f596e3 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -125,7 +125,7 @@ map<label_t, distance_values> getMinMaxDistances(hdbscan& scan, map_t& clusterTa
 			} else{
 				distance_values& dl = iter->second;
 				// min core distance
-				if(dl.min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl.min_cr > core[index] || dl.min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl.min_cr = core[index];
 				}
 
-- 
2.43.0


From 714c8c2e16f6ff8ff5d22d93526f037f6bbcca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 28/58] fix: threads raced on the newest cluster and on the
 skewness and kurtosis

---
 src/hdbscan.c | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index ca05799..741ac71 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -676,14 +676,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		}
 
 		// Assign offsets and calculate the number of constraints satisfied:
-		cluster* newCluster = NULL;
-		
 		#ifdef _OPENMP
 		#pragma omp parallel for
 		#endif
 		for(i = 0; i < array_list_size(newClusters); i++)
 		{
-			newCluster = ((cluster**)newClusters->data)[i];
+			cluster* newCluster = ((cluster**)newClusters->data)[i];
 			newCluster->offset = lineCount;
 		}
 		
@@ -1348,19 +1346,12 @@ void hdbscan_destroy_distance_map(hashtable* table){
  */
 void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	//int32_t N = stats->count;
 	stats->coreDistanceValues.skewness = (distance_t)(sum_sc / (stats->count * pow(stats->coreDistanceValues.standardDev, 3)));
 	stats->intraDistanceValues.skewness = (distance_t)(sum_sd / (stats->count * pow(stats->intraDistanceValues.standardDev, 3)));
 
 	stats->coreDistanceValues.kurtosis = (distance_t)((sum_dc / (stats->count * pow(stats->coreDistanceValues.standardDev, 4))) - 3);
 	stats->intraDistanceValues.kurtosis = (distance_t)((sum_dd / (stats->count *pow(stats->intraDistanceValues.standardDev, 4))) - 3);
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
@@ -1377,10 +1368,6 @@ void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t
 void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
 
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	index_t N = stats->count;
 	
 	// Calculate the skewness
@@ -1409,9 +1396,6 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
 		stats->coreDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 		stats->intraDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 	}
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
-- 
2.43.0


From 3bc84753c5e6ad695bac3ef156749c137afef230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 29/58] fix: print functions wrote past their buffers

---
 src/distance.c | 2 +-
 src/hdbscan.c  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index a6631ec..ef87cfd 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -280,7 +280,7 @@ void distance_get_core_distances(distance *dis)
  */
 void distances_print(distance *dis) {
 	
-	char s[20];
+	char s[400];
 	for (index_t i = 0; i < dis->rows; i++) {
 		logger_write(NONE, "[");
 
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 741ac71..6d48f94 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1906,7 +1906,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
 	
-	char s[100];
+	char s[800];
 	logger_write(NONE, "\n////////////////////////////////////////////////////// Printing outlier Scores //////////////////////////////////////////////////////\n");
 
 	for(index_t i = 0; i < numPoints; i++) {
@@ -1925,7 +1925,7 @@ void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
  * @param distancesMap 
  */
 void hdbscan_print_distance_map(hashtable* distancesMap){
-	char s[512];
+	char s[2560];
 	logger_write(NONE, "\n/////////////////////////////////////////////////////// Printing Distances ///////////////////////////////////////////////////////\n");
 
 	for(size_t i = 0; i < hashtable_size(distancesMap); i++)
@@ -1952,7 +1952,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
  * \param stats 
  */
 void hdbscan_print_stats(clustering_stats* stats){
-	char s[1200];
+	char s[5120];
 	sprintf(s, "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
 	sprintf(s + strlen(s), "Cluster Count 					: %d\n", stats->count);
 	sprintf(s + strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
-- 
2.43.0


From 37decfe942c27bc5cae0c9652518812bd4da3b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:58 +0000
Subject: [PATCH 30/58] fix: hdbscan_print_hierarchies appended to
 uninitialised file names

---
 src/hdbscan.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 6d48f94..dda211c 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1850,16 +1850,18 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 	if(filename != NULL){
 
-		char visFilename[300];
-		strcat(visFilename, filename);
+		char visFilename[strlen(filename) + sizeof("_visualization.vis")];
+		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
-		fprintf(visFile, "1\n");
-		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
-		fclose(visFile);
+		if(visFile != NULL){
+			fprintf(visFile, "1\n");
+			fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
+			fclose(visFile);
+		}
 
-		char hierarchyFilename[100];
-		strcat(hierarchyFilename, filename);
+		char hierarchyFilename[strlen(filename) + sizeof("_hierarchy.csv")];
+		strcpy(hierarchyFilename, filename);
 		strcat(hierarchyFilename, "_hierarchy.csv");
 		hierarchyFile = fopen(hierarchyFilename, "w");
 	}
-- 
2.43.0


From 6859118526311a25a043a9e7b2f9f5095238573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:58 +0000
Subject: [PATCH 31/58] fix: C++ clean() freed the object itself

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 7f596e3..30fc045 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -85,7 +85,7 @@ void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* poin
 }
 
 void hdbscan::clean(){
-	hdbscan_destroy(this);
+	hdbscan_clean(this);
 }
 
 map_t createClusterMap(label_t* labels, index_t begin, index_t end){
-- 
2.43.0


From a96ce0bb1b5b422acd7894967070fd4e3de906b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:58 +0000
Subject: [PATCH 32/58] fix: C++ sorting aborted for no clusters

---
 src/hdbscan.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 30fc045..c355cb5 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -317,6 +317,10 @@ void sortByLength(map_t& clusterTable, vector<label_t>& clusters)
  */
 void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t left, index_t right)
 {
+	if(clusters.empty()){
+		return;
+	}
+
 	ArrayList* d_data = array_list_init(clusters.size(), sizeof(distance_t), NULL);
 	if(sizeof(distance_t) == sizeof(double)) {
 		d_data->compare = double_compare;
-- 
2.43.0


From 1d10f9580740e47ae9cfab7d8e191f8536362e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:58 +0000
Subject: [PATCH 33/58] fix: C and C++ disagreed on the layout of structures

---
 include/hdbscan/cluster.h          | 2 +-
 include/hdbscan/constraint.h       | 2 +-
 include/hdbscan/outlier_score.h    | 2 +-
 include/hdbscan/undirected_graph.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hdbscan/cluster.h b/include/hdbscan/cluster.h
index 4e53711..0f4431f 100644
--- a/include/hdbscan/cluster.h
+++ b/include/hdbscan/cluster.h
@@ -87,7 +87,7 @@ public:
 	 */
 	Cluster(label_t label, Cluster* parent, distance_t birthLevel, index_t numPoints);
 
-	virtual ~Cluster();
+	~Cluster();
 
 	/**
 	 * @brief Removes the specified number of points from this cluster at the given edge level, which will
diff --git a/include/hdbscan/constraint.h b/include/hdbscan/constraint.h
index 8d97014..adae753 100644
--- a/include/hdbscan/constraint.h
+++ b/include/hdbscan/constraint.h
@@ -80,7 +80,7 @@ public:
 	 * @param type The CONSTRAINT_TYPE of the constraint
 	 */
 	Constraint(int pointA, int pointB, CONSTRAINT_TYPE type);
-	virtual ~Constraint();
+	~Constraint();
 #endif
 
 
diff --git a/include/hdbscan/outlier_score.h b/include/hdbscan/outlier_score.h
index 5ff5923..71b8efa 100644
--- a/include/hdbscan/outlier_score.h
+++ b/include/hdbscan/outlier_score.h
@@ -76,7 +76,7 @@ public:
 	 * @brief Destroy the Outlier Score object
 	 * 
 	 */
-	virtual ~OutlierScore();
+	~OutlierScore();
 
 	// ------------------------------ PUBLIC METHODS ------------------------------
 	/**
diff --git a/include/hdbscan/undirected_graph.h b/include/hdbscan/undirected_graph.h
index d7a6c1d..d4e9a03 100644
--- a/include/hdbscan/undirected_graph.h
+++ b/include/hdbscan/undirected_graph.h
@@ -56,7 +56,7 @@ struct UndirectedGraph {
 
 #ifdef __cplusplus
 public:
-	virtual ~UndirectedGraph();
+	~UndirectedGraph();
 	// ------------------------------ CONSTRUCTORS ------------------------------
 
 	/**
-- 
2.43.0


From 6866057e60e7ba31189fdb863558ac6d6101153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:55 +0000
Subject: [PATCH 34/58] fix: sorting by similarity did not terminate when a
 confidence is not a number

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index dda211c..8bf978e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1556,7 +1556,7 @@ void partition(label_t *c_data, distance_t *d_data, int lower, int upper, int* p
 	int down = upper; /* index will go down */
 
 	while(up < down){
-		while((up < down) && (d_data[up] <= x)) {
+		while((up < down) && !(d_data[up] > x)) {
 			up++;
 		}
 
-- 
2.43.0


From 80b3bdcbff1152290c042b79bf6c5e65163dbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:52 +0000
Subject: [PATCH 35/58] fix: graph_print wrote past its buffer for very large
 weights

---
 src/undirected_graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 5e0d6f8..33a9f38 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -268,7 +268,7 @@ void graph_print(UndirectedGraph* g) {
 	index_t* da = g->verticesA->data;
 	index_t* db = g->verticesB->data;
 
-	char s[300];
+	char s[400];
 	sprintf(s,
 			"numVertices: %d, verticesA.length: %ld,  verticesB.length: %ld, edgeWeights.length: %ld, edges.length: %d\n",
 			g->numVertices, g->verticesA->size, g->verticesB->size, g->edgeWeights->size, g->numVertices);
-- 
2.43.0


From 3b1824baa6c3efd90cc3c80eaea68ead2a8835ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:20 +0000
Subject: [PATCH 36/58] fix: C++ calculateOutlierScores did nothing

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index c355cb5..7bcafde 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -81,7 +81,7 @@ void hdbscan::findProminentClusters(boolean infiniteStability){
 }
 
 void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* pointLastClusters, boolean infiniteStability){
-	// TODO
+	hdbscsan_calculate_outlier_scores(this, pointNoiseLevels, pointLastClusters, infiniteStability);
 }
 
 void hdbscan::clean(){
-- 
2.43.0


From a52e71380c45f57adbf103963a30ed217f3b3dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:20 +0000
Subject: [PATCH 37/58] fix: the C++ graph constructor read through null lists

---
 src/undirected_graph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/undirected_graph.cpp b/src/undirected_graph.cpp
index 2404ad3..3c1b4bd 100644
--- a/src/undirected_graph.cpp
+++ b/src/undirected_graph.cpp
@@ -40,7 +40,9 @@
 namespace clustering {
 
 UndirectedGraph::UndirectedGraph(){
-	graph_init(this, 0, NULL, NULL, NULL);
+	// A graph without vertices and edges
+	graph_init(this, 0, array_list_init(1, sizeof(index_t), NULL), array_list_init(1, sizeof(index_t), NULL),
+			array_list_init(1, sizeof(distance_t), NULL));
 }
 
 UndirectedGraph::~UndirectedGraph(){
-- 
2.43.0


From d2fd81fe7ac2624e7820e62579e5f8a09e922393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:10 +0000
Subject: [PATCH 38/58] fix: print_distances wrote past its buffer in debug
 builds

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 8bf978e..a2bf7cc 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -745,7 +745,7 @@ hierarchy_entry* hdbscan_create_hierarchy_entry(){
 void print_distances(hdbscan* sc){
 	for (index_t i = 0; i < sc->numPoints; i++) {
 	#ifdef DEBUG
-		char s[50];
+		char s[400];
 		logger_write(INFO, "[");
 	#else
 		printf("[");
-- 
2.43.0


From 8f4e0e4bd622ba237661aad4f3693c4d1e8ed7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:19 +0000
Subject: [PATCH 39/58] fix: hdbscan_print_cluster_map read point indices as
 labels

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index a2bf7cc..3f0fd25 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1805,7 +1805,7 @@ void hdbscan_print_cluster_map(hashtable* table){
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
-			dpointer = ((label_t *)clusterList->data)[j];
+			dpointer = ((index_t *)clusterList->data)[j];
 			sprintf(s, "%d ", dpointer);
 			logger_write(NONE, s);
 		}
-- 
2.43.0


From 6c7e96d0920738229c57232b92e91e6008146bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:56 +0000
Subject: [PATCH 40/58] fix: the Java binding leaked the results of the
 previous clustering object

---
 modules/java/src/Hdbscan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index b00d8a1..60e2265 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -45,6 +45,7 @@ using namespace clustering;
 hdbscan scan;
 
 JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env, jobject obj, jint minPoints){
+	scan.clean(); // Release the results of an earlier object
 	hdbscan_init(&scan, minPoints);
 }
 
-- 
2.43.0


From b43a5cad7545f015de7082b3d2243f354807b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:56 +0000
Subject: [PATCH 41/58] fix: the Java binding released its copy of the data set
 with the wrong operator

---
 modules/java/src/Hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index 60e2265..fc05166 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -83,7 +83,7 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 	}
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
-	delete dset;
+	delete[] dset;
 	
 	return getLabelsArray(env, scan.clusterLabels, rows);
 }
-- 
2.43.0


From 9dbaadc65a1520b954d64721038cfbcfc7a9884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:56 +0000
Subject: [PATCH 42/58] fix: the Java binding never gave the rows of the data
 set back to the JVM

---
 modules/java/src/Hdbscan.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index fc05166..aaf7d7c 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -80,6 +80,9 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 			dset[dIdx] = row[j];
 			dIdx++;
 		}
+
+		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
+		env->DeleteLocalRef(dim);
 	}
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
-- 
2.43.0


From f6cc3a1292139316bda6c2bc39c62443665603da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:14 +0000
Subject: [PATCH 43/58] fix: the Java binding read past the rows of ragged data
 sets

---
 modules/java/src/Hdbscan.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index aaf7d7c..a8754d3 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -64,11 +64,38 @@ jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
 	return labels;
 }
 
+/**
+ * The length that all the rows of the data set share, 0 if there is none.
+ */
+int getNumColumns(JNIEnv *env, jobjectArray dataset){
+	int rows = dataset == NULL ? 0 : env->GetArrayLength(dataset);
+	int cols = 0;
+
+	for(int i = 0; i < rows; i++){
+		jdoubleArray dim = (jdoubleArray)env->GetObjectArrayElement(dataset, i);
+		int length = dim == NULL ? 0 : env->GetArrayLength(dim);
+		env->DeleteLocalRef(dim);
+
+		if(length == 0 || (i > 0 && length != cols)){
+			return 0;
+		}
+		cols = length;
+	}
+
+	return cols;
+}
+
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env, jobject obj, jobjectArray dataset){
 	
+	int cols = getNumColumns(env, dataset);
+
+	if(cols == 0){
+		env->ThrowNew(env->FindClass("java/lang/IllegalArgumentException"), "The rows of the data set must have the same length, at least one.");
+		return NULL;
+	}
+
 	int rows = env->GetArrayLength(dataset);
-	jdoubleArray dim=  (jdoubleArray)env->GetObjectArrayElement(dataset, 0);
-	int cols = env -> GetArrayLength(dim);
+	jdoubleArray dim;
 	double *dset = new double[rows * cols];
 	long dIdx = 0;
 
-- 
2.43.0


From 98f80ed9694406c990ec8a653267d7c1b0eda69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:14 +0000
Subject: [PATCH 44/58] fix: cleanHdbscan of the Java class had no native
 implementation

---
 modules/java/src/Hdbscan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index a8754d3..aeaeeac 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -124,6 +124,6 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *en
 	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
 }
 
-JNIEXPORT void JNICALL Java_hdbscan_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
-	//scan.clean();
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
+	scan.clean();
 }
-- 
2.43.0


From cc142c6f112c340e8f89f8daac734f0d5f671c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:29 +0000
Subject: [PATCH 45/58] fix: all objects of the Python binding shared one
 clustering object

---
 modules/python/src/PyHdbscan.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index a2a08e1..cdd6049 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -54,8 +54,6 @@
             PyModuleDef_HEAD_INIT, name, doc, -1, methods, }; \
         ob = PyModule_Create(&PyHdbscanNodule);
 
-hdbscan* scan = NULL;
-
 /**
  * @brief PyHdbscan object
  * 
@@ -65,6 +63,7 @@ typedef struct {
 	PyObject* labels;
     PyObject* clusterMap;
     PyObject* hierarchy;
+    hdbscan* scan;
 	index_t minPoints, cols, rows;
 } PyHdbscan;
 
@@ -74,7 +73,9 @@ typedef struct {
  * @param self 
  */
 static void PyHdbscan_dealloc(PyHdbscan* self){
-	hdbscan_clean(scan);
+	if(self->scan != NULL){
+		hdbscan_destroy(self->scan);
+	}
     Py_XDECREF(self->labels);
     Py_XDECREF(self->clusterMap);
     Py_XDECREF(self->hierarchy);
@@ -99,6 +100,7 @@ PyHdbscan_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
         self->labels = NULL;
         self->clusterMap = NULL;
         self->hierarchy = NULL;
+        self->scan = NULL;
 		self->minPoints = 0;
 		self->rows = 0;
 		self->cols = 0;
@@ -136,7 +138,11 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 		return -1;
 	} 
 	
-    scan = hdbscan_init(NULL, self->minPoints);
+    if(self->scan != NULL){
+        hdbscan_destroy(self->scan);
+    }
+
+    self->scan = hdbscan_init(NULL, self->minPoints);
 	
     return 0;
 }
@@ -227,10 +233,10 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     }
 	
     void *dset = PyArray_DATA(d_arr); /// The contigous array
-	int err = hdbscan_run(scan, dset, self->rows, self->cols, TRUE, datatype);
+	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
 
     Py_INCREF(self->labels);
     Py_XDECREF(dataset); // Release the dataset memory
@@ -255,7 +261,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 		return NULL;
 	} 
 	
-	int err = hdbscan_rerun(scan, self->minPoints);
+	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
     enum NPY_TYPES tp = NPY_SHORT;
@@ -266,7 +272,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
         tp = NPY_LONG;
     }
 
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
     Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
@@ -287,7 +293,7 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    hashtable* tmp = hdbscan_create_cluster_map(scan->clusterLabels, begin, end);
+    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
     self->clusterMap = PyDict_New();
     label_t label;
 
@@ -321,11 +327,11 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
     int64_t level;
 	hierarchy_entry* data;
 
-    for(size_t i = 0; i < hashtable_size(scan->hierarchy); i++) {
+    for(size_t i = 0; i < hashtable_size(self->scan->hierarchy); i++) {
         
-		set_value_at(scan->hierarchy->keys, i, &level);
-        hashtable_lookup(scan->hierarchy, &level, &data);
-        npy_intp dims[] = {scan->numPoints, 1};
+		set_value_at(self->scan->hierarchy->keys, i, &level);
+        hashtable_lookup(self->scan->hierarchy, &level, &data);
+        npy_intp dims[] = {self->scan->numPoints, 1};
         PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
-- 
2.43.0


From b2932b9f4ddfa2252a0494e277e6268ac8a250f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:30 +0000
Subject: [PATCH 46/58] fix: too small minPoints in the Python binding failed
 without an exception and lost the labels

---
 modules/python/src/PyHdbscan.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index cdd6049..1890abd 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -122,21 +122,17 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 {
     static char *kwlist[] = {"minPoints", NULL};
 
-    char* c;
-    if(sizeof(index_t) == sizeof(int)) {
-        c = "I";
-    } else if(sizeof(index_t) == sizeof(long)) {
-        c = "k";
-    } else {
-        c ="H";
-    }
+    int minPoints;
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &self->minPoints))
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "i", kwlist, &minPoints))
         return -1;
     
-    if(self->minPoints < 2){
+    if(minPoints < 2){
+		PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
 		return -1;
 	} 
+
+    self->minPoints = (index_t)minPoints;
 	
     if(self->scan != NULL){
         hdbscan_destroy(self->scan);
@@ -252,15 +248,18 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
  * @return PyObject* 
  */
 static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
-	Py_XDECREF(self->labels); 
-    if (!PyArg_ParseTuple(args, "i", &self->minPoints))
+	int minPoints;
+
+    if (!PyArg_ParseTuple(args, "i", &minPoints))
         return NULL;
     
-    if(self->minPoints < 2){
-        printf("minPts must be greater than 2.\n");
+    if(minPoints < 2){
+        PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
 		return NULL;
 	} 
 	
+	Py_XDECREF(self->labels); 
+	self->minPoints = (index_t)minPoints;
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
-- 
2.43.0


From ffaa63d00bc6ef0decd56a5d6f15e98cd75ea188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:30 +0000
Subject: [PATCH 47/58] fix: unsuitable data sets crashed the Python binding or
 failed without an exception

---
 modules/python/src/PyHdbscan.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 1890abd..dc21738 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -181,7 +181,12 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         return NULL;
 	}
     
-    int typenum = PyArray_TYPE(dataset);
+    if(!PyArray_Check(dataset)) {
+        PyErr_SetString(PyExc_TypeError, "The data set must be a numpy array.");
+        return NULL;
+    }
+
+    int typenum = PyArray_TYPE((PyArrayObject*)dataset);
     uint datatype;
 
     /// Determine the datatype from the array
@@ -206,7 +211,12 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         datatype = H_SHORT;
     }
     else{
-        printf("Unsupported datatype.\n");
+        PyErr_SetString(PyExc_TypeError, "Unsupported datatype.");
+        return NULL;
+    }
+
+    if(PyArray_NDIM((PyArrayObject*)dataset) < 1 || PyArray_NDIM((PyArrayObject*)dataset) > 2 || PyArray_SIZE((PyArrayObject*)dataset) == 0) {
+        PyErr_SetString(PyExc_ValueError, "The data set must be a non-empty array of one or two dimensions.");
         return NULL;
     }
 
-- 
2.43.0


From 3432d11b93103e861d10a14be734a2e087e6a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:30 +0000
Subject: [PATCH 48/58] fix: the Python binding never released labels and data
 sets

---
 modules/python/src/PyHdbscan.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index dc21738..7fa9ae7 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -159,10 +159,13 @@ void get_labels(PyHdbscan *self, label_t *labels){
         c ="H";
     }
     
+    Py_XDECREF(self->labels);
     self->labels = PyList_New(0);
 
-	for(uint i = 0; i < self->rows; i++){
-		PyList_Append(self->labels, Py_BuildValue(c, labels[i]));
+	for(index_t i = 0; i < self->scan->numPoints; i++){
+		PyObject* label = Py_BuildValue(c, labels[i]);
+		PyList_Append(self->labels, label);
+		Py_DECREF(label);
 	}
 }
 
@@ -241,10 +244,9 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     void *dset = PyArray_DATA(d_arr); /// The contigous array
 	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
-    npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
     get_labels(self, self->scan->clusterLabels);
 
-    Py_INCREF(self->labels);
+    Py_XDECREF(d_arr);
     Py_XDECREF(dataset); // Release the dataset memory
 
 	return Py_BuildValue("i", err);
@@ -268,21 +270,10 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 		return NULL;
 	} 
 	
-	Py_XDECREF(self->labels); 
 	self->minPoints = (index_t)minPoints;
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
-    npy_intp dims[] = {self->rows, 1};
-    enum NPY_TYPES tp = NPY_SHORT;
-
-    if(sizeof(label_t) == sizeof(int)) {
-        tp = NPY_INT;
-    } else if (sizeof(label_t) == sizeof(long)) {
-        tp = NPY_LONG;
-    }
-
     get_labels(self, self->scan->clusterLabels);
-    Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
 }
-- 
2.43.0


From 05cc48be986fa38bf6bba1a54eda7fb720b99e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:30 +0000
Subject: [PATCH 49/58] fix: the Python binding crashed when no data set had
 been clustered

---
 modules/python/src/PyHdbscan.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 7fa9ae7..7d9b60c 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -143,6 +143,21 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
     return 0;
 }
 
+/**
+ * @brief Raise an exception unless the data has been clustered
+ * 
+ * @param self 
+ * @return int 
+ */
+static int has_run(PyHdbscan *self){
+    if(self->scan == NULL || self->scan->clusterLabels == NULL) {
+        PyErr_SetString(PyExc_RuntimeError, "No data set has been clustered.");
+        return 0;
+    }
+
+    return 1;
+}
+
 /**
  * @brief Get the labels object
  * 
@@ -179,6 +194,11 @@ void get_labels(PyHdbscan *self, label_t *labels){
 static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
 	
 	PyObject *dataset;
+
+    if(self->scan == NULL) {
+        PyErr_SetString(PyExc_RuntimeError, "The object has not been initialised.");
+        return NULL;
+    }
 	    
     if (! PyArg_ParseTuple(args, "O", &dataset)){
         return NULL;
@@ -269,6 +289,9 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
         PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
 		return NULL;
 	} 
+
+	if(!has_run(self))
+		return NULL;
 	
 	self->minPoints = (index_t)minPoints;
 	int err = hdbscan_rerun(self->scan, self->minPoints);
@@ -284,6 +307,9 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "ii", &begin, &end))
         return NULL;
 
+    if(!has_run(self))
+        return NULL;
+
     enum NPY_TYPES tp = NPY_SHORT;
 
     if(sizeof(label_t) == sizeof(int)) {
@@ -313,6 +339,9 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
+    if(!has_run(self))
+        return NULL;
+
     Py_XDECREF(self->hierarchy); 
     enum NPY_TYPES tp = NPY_SHORT;
 
-- 
2.43.0


From ce6760daaeb38268b73c970b32ef70e3bd1533d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:30 +0000
Subject: [PATCH 50/58] fix: cluster maps of the Python binding read past the
 labels and were never released

---
 modules/python/src/PyHdbscan.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 7d9b60c..28f0025 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -302,7 +302,6 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
-    Py_XDECREF(self->clusterMap); 
     int32_t begin, end;
     if (!PyArg_ParseTuple(args, "ii", &begin, &end))
         return NULL;
@@ -310,16 +309,21 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     if(!has_run(self))
         return NULL;
 
+    if(begin < 0 || end < begin || (index_t)end > self->scan->numPoints) {
+        PyErr_SetString(PyExc_IndexError, "The range is not within the labels.");
+        return NULL;
+    }
+
     enum NPY_TYPES tp = NPY_SHORT;
 
-    if(sizeof(label_t) == sizeof(int)) {
+    if(sizeof(index_t) == sizeof(int)) {
         tp = NPY_INT;
-    } else if (sizeof(label_t) == sizeof(long)) {
+    } else if (sizeof(index_t) == sizeof(long)) {
         tp = NPY_LONG;
     }
 
-    int err = 1;
     hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
+    Py_XDECREF(self->clusterMap); 
     self->clusterMap = PyDict_New();
     label_t label;
 
@@ -329,11 +333,15 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         ArrayList* lst;
         hashtable_lookup(tmp, &label, &lst);
         npy_intp dims[] = {lst->size, 1};
-        label_t* labels = lst->data;
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, labels);
+        PyObject* value = PyArray_SimpleNew(1, dims, tp);
+        memcpy(PyArray_DATA((PyArrayObject*)value), lst->data, lst->size * sizeof(index_t));
         PyDict_SetItem(self->clusterMap, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
 
+    hdbscan_destroy_cluster_map(tmp);
+
     Py_INCREF(self->clusterMap);
     return self->clusterMap;
 }
-- 
2.43.0


From d1847a6a2a53ef009fd672c44f5bc739f33376b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:30 +0000
Subject: [PATCH 51/58] fix: hierarchies of the Python binding used memory that
 the next run releases

---
 modules/python/src/PyHdbscan.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 28f0025..ba9aa06 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -369,12 +369,14 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
 		set_value_at(self->scan->hierarchy->keys, i, &level);
         hashtable_lookup(self->scan->hierarchy, &level, &data);
         npy_intp dims[] = {self->scan->numPoints, 1};
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
+        PyObject* value = PyArray_SimpleNew(1, dims, tp);
+        memcpy(PyArray_DATA((PyArrayObject*)value), data->labels, self->scan->numPoints * sizeof(label_t));
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
     
-    Py_INCREF(self->hierarchy);
     return Py_BuildValue("i", err);
 }
 
-- 
2.43.0


From 0e82b409087bfa25b6317ba42919b3a7c15fb8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:32 +0000
Subject: [PATCH 52/58] fix: members of the Python class were read as int
 whatever the index type

---
 modules/python/src/PyHdbscan.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index ba9aa06..e674484 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -392,6 +392,9 @@ static PyMethodDef PyHdbscan_methods[] = {
     {NULL}  /* Sentinel */
 };
 
+/// The member type of an index_t
+#define T_INDEX (sizeof(index_t) == sizeof(int) ? T_UINT : sizeof(index_t) == sizeof(long) ? T_ULONG : T_USHORT)
+
 /**
  * @brief PyHdbscan members
  * 
@@ -400,9 +403,9 @@ static PyMemberDef PyHdbscan_members[] = {
     {"labels", T_OBJECT_EX, offsetof(PyHdbscan, labels), 0, "Cluster labels"},
     {"clusterMap", T_OBJECT_EX, offsetof(PyHdbscan, clusterMap), 0, "Dictionary of the clusters and the points"},
     {"hierarchy", T_OBJECT_EX, offsetof(PyHdbscan, hierarchy), 0, "Dictionary of the hierarchies"},
-    {"minPoints", T_INT, offsetof(PyHdbscan, minPoints), 0, "Minimum number of point in a cluster"},
-    {"rows", T_INT, offsetof(PyHdbscan, rows), 0, "number of data points"},
-    {"cols", T_INT, offsetof(PyHdbscan, cols), 0, "The size of each data point"},
+    {"minPoints", T_INDEX, offsetof(PyHdbscan, minPoints), 0, "Minimum number of point in a cluster"},
+    {"rows", T_INDEX, offsetof(PyHdbscan, rows), 0, "number of data points"},
+    {"cols", T_INDEX, offsetof(PyHdbscan, cols), 0, "The size of each data point"},
     {NULL}  /* Sentinel */
 };
 
-- 
2.43.0


From 8de03f2ebbfb63bbb045a21a71c40010d7ddfe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 53/58] fix: detaching more points than a cluster has wrapped
 its number of points around

---
 src/cluster.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index f174c58..e1f6688 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -121,18 +121,19 @@ void cluster_destroy(cluster* cl){
  */
 int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
 
+	if(numPoints > cl->numPoints){
+		
+		char s[200];
+		sprintf(s, "cluster_detach_points - Cluster %lu has %lu points, can not detach %lu.\n", (unsigned long)cl->label, (unsigned long)cl->numPoints, (unsigned long)numPoints);
+		logger_write(FATAL, s);
+		return CLUSTER_ERROR;
+	}
+
 	cl->numPoints = (index_t)(cl->numPoints - numPoints);
 	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
 
 	if (cl->numPoints == 0)
 		cl->deathLevel = level;
-	else if (cl->numPoints < 0){
-		
-		char s[100];
-		sprintf(s, "cluster_detach_points - Cluster %d has %d points.\n", cl->label, cl->numPoints);
-		logger_write(FATAL, s);
-		return CLUSTER_ERROR;
-	}
 
 	return CLUSTER_SUCCESS;
 }
-- 
2.43.0


From b45afbeaa9b1288a2ed57ef0a33120f0480de2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 54/58] fix: releasing the virtual child of a cluster destroyed
 its parent

---
 src/cluster.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index e1f6688..ae574ee 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -232,8 +232,9 @@ void cluster_add_constraints_satisfied(cluster* cl, index_t numConstraints){
 
 void cluster_release_virtual_child(cluster* cl){
 
-	if(cl->parent != NULL){
-		cluster_destroy(cl->parent);
+	if(cl->virtualChildCluster != NULL){
+		set_delete(cl->virtualChildCluster);
+		cl->virtualChildCluster = NULL;
 	}
 }
 
-- 
2.43.0


From 702585709b1ec4c2eb2f9671cd00cb0d40a34f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 55/58] fix: far apart point numbers compared in the wrong
 order in outlier scores

---
 src/outlier_score.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outlier_score.c b/src/outlier_score.c
index b60937b..0915f91 100644
--- a/src/outlier_score.c
+++ b/src/outlier_score.c
@@ -77,7 +77,7 @@ int outlier_score_compare(const void* score1, const void* score2){
 		else if (s1.coreDistance < s2.coreDistance)
 			return -1;
 		else
-			return (int) (s1.id - s2.id);
+			return s1.id > s2.id ? 1 : s1.id < s2.id ? -1 : 0;
 	}
 }
 
-- 
2.43.0


From ed28d294dd4709e0dd59e9050d8db3dbdb3f4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:46 +0000
Subject: [PATCH 56/58] fix: edge weights of the graph overflowed the buffer of
 the debug log

---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 3f0fd25..9f79954 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -782,7 +782,7 @@ void print_distances(hdbscan* sc){
 void print_graph_components(ArrayList *nearestMRDNeighbors, ArrayList *otherVertexIndices, ArrayList *nearestMRDDistances){
 #ifdef DEBUG
 	logger_write(INFO, ">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>nearestMRDNeighbors>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>");
-	char s[100];
+	char s[400];
 #else
 	printf(">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>nearestMRDNeighbors>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>\n");
 #endif
@@ -795,7 +795,7 @@ void print_graph_components(ArrayList *nearestMRDNeighbors, ArrayList *otherVert
 		
 	#ifdef DEBUG
 		sprintf(s,"%ld --- (%d, %d) : %f\n", i, a, b, d);
-		logger_write(INFO, "[");
+		logger_write(INFO, s);
 	#else
 		printf("%ld --- (%d, %d) : %f\n", i, a, b, d);
 	#endif
-- 
2.43.0


From 05924ebd866aebc5a38ea10578bb8c2c2be1bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:46 +0000
Subject: [PATCH 57/58] fix: builds without optimisation failed to link the
 distance table

---
 modules/utils/include/hdbscan/utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/hdbscan/utils.h b/modules/utils/include/hdbscan/utils.h
index 178853b..142c8a7 100644
--- a/modules/utils/include/hdbscan/utils.h
+++ b/modules/utils/include/hdbscan/utils.h
@@ -162,7 +162,7 @@ int32_t ptr_ptr_compare(const void * ptr_a, const void * ptr_b);
  * @param n 
  * @return size_t 
  */
-inline size_t TRIANGULAR_H(size_t n) {
+static inline size_t TRIANGULAR_H(size_t n) {
 	return (n * n + n) / 2;
 }
 
@@ -172,7 +172,7 @@ inline size_t TRIANGULAR_H(size_t n) {
  * @param p 
  * @return uint 
  */
-inline uint hostFistTriangleNum(uint p)
+static inline uint hostFistTriangleNum(uint p)
 {
     return (uint)ceil((sqrt(8 * p + 1) - 1) / 2);
 }
-- 
2.43.0


From 7cff48ef9870caa9b41a48f1c70ae020981b073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:13 +0000
Subject: [PATCH 58/58] fix: attach points beyond the largest distance to the
 first point of the tree

A point whose distance to every other point overflows kept 0 as its
neighbour, so point 0 hung on itself and the tree fell apart.
---
 src/hdbscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 9f79954..e4a492e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -893,7 +893,8 @@ int hdbscan_construct_mst(hdbscan* sc){
 	for(index_t i = 0; i < ssize; i++) {
 		
 		distances[i] = D_MAX;
-		neighbours[i] = 0;
+		// A point that no distance below D_MAX reaches hangs on the first point of the tree
+		neighbours[i] = (index_t)(size - 1);
 		others[i] = 0;
 	}
 
-- 
2.43.0

