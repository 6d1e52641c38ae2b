From 38cd9ff93e4a5015227cfd4d904362655655bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 01/52] fix: shm::hash_map: detach on disconnect and stay
 usable after a failed connect

disconnect() cleared shmem_p before passing it to shmdt(), so the segment
was never detached, and it returned early when only the semaphores had been
connected, so that after a failed connect() the object refused every later
connect() with 'sem already connected'.
---
 coda/shm_hash_map.tcc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 07d85d0..2653faf 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -442,18 +442,14 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 {
-	if (!is_connected())
+	if (is_connected())
 	{
-		return;
+		shmdt(shmem_p);
+		detach();
 	}
 
-	detach();
-
 	sem_id = -1;
 	shm_id = -1;
-
-	shmdt(shmem_p);
-	shmem_p = 0;
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
-- 
2.43.0


From e453cadca82116ec7cf6e6e1baf74f67e6fdf090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 02/52] fix: shm::hash_map: a failed lock in connect must not
 release somebody else's lock

---
 coda/shm_hash_map.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 2653faf..aff0388 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -418,6 +418,7 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 	{
 		connect_sem(key_fname);
 		connect_shm(key_fname);
+		lock_write_rw();
 	}
 	catch (const std::exception& e)
 	{
@@ -427,7 +428,6 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 
 	try
 	{
-		lock_write_rw();
 		attach(shmem_p);
 		unlock_write_rw();
 	}
-- 
2.43.0


From 5dcc737cf424ba83a47f0fd0fce322c0cc8199bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 03/52] fix: shm::hash_map: do not reset semaphores another
 process may hold already

---
 coda/shm_hash_map.tcc | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index aff0388..7deb76d 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -398,16 +398,8 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_sem(const char *key
 			throw coda_error("error getting sem: %s", coda_strerror(errno));
 		}
 
-		// now set initial values for _GUARD semaphores
-		if (-1 == semctl(sem_id, mySEM_R, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, mySEM_W, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
+		// a new set starts with zeroes; it must not be touched here, because
+		// another process can already have locked it
 	}
 }
 
-- 
2.43.0


From 4058b64377aaaae2272bf2d2befa4f3034bb418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 04/52] fix: shm::hash_map: never wipe a segment that exists
 already

---
 coda/shm_hash_map.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 7deb76d..34c88c4 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -348,7 +348,7 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_shm(const char *key
 	if (-1 == (shm_id = shmget(key, required_space(), 0666)))
 	{
 		// not created? creating...
-		if (-1 == (shm_id = shmget(key, required_space(), IPC_CREAT | 0666)))
+		if (-1 == (shm_id = shmget(key, required_space(), IPC_CREAT | IPC_EXCL | 0666)))
 		{
 			unlock_write_rw();
 			throw coda_error("error creating queue shm: %s", coda_strerror(errno));
-- 
2.43.0


From f4f3911e226670307d3396e9971998b4462d91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 05/52] fix: shm::hash_map: order the stores of clear and free
 for the death of a process

---
 coda/shm_hash_map.tcc | 6 +++++-
 coda/shm_pool.tcc     | 3 ++-
 coda/shm_stack.tcc    | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 34c88c4..77eb2d4 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -202,13 +202,17 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::clear()
 {
 	lock_write_rw();
 
-	nodes_pool.clear();
+	// a process killed in here must not leave nodes both linked and free
 
 	for (uint32_t i = 0; i < _HASH_SIZE; i++)
 	{
 		hash[i] = (uint32_t) -1;
 	}
 
+	__asm__ __volatile__ ("" : : : "memory");
+
+	nodes_pool.clear();
+
 	unlock_write_rw();
 }
 
diff --git a/coda/shm_pool.tcc b/coda/shm_pool.tcc
index e624030..3c8d7af 100644
--- a/coda/shm_pool.tcc
+++ b/coda/shm_pool.tcc
@@ -96,7 +96,8 @@ size_t shm::pool<_Type, _OBJECTS_NUM>::allocated_objects()
 template <typename _Type, int _OBJECTS_NUM>
 void shm::pool<_Type, _OBJECTS_NUM>::clear()
 {
-	*current = 0;
 	free_nodes.clear();
+	__asm__ __volatile__ ("" : : : "memory");
+	*current = 0;
 }
 
diff --git a/coda/shm_stack.tcc b/coda/shm_stack.tcc
index 67b1b7c..9e270e7 100644
--- a/coda/shm_stack.tcc
+++ b/coda/shm_stack.tcc
@@ -79,7 +79,9 @@ inline bool shm::stack<_Type, _OBJECTS_NUM>::push(const _Type& el)
 	}
 	else
 	{
-		data[++(*current)] = el;
+		data[*current + 1] = el;
+		__asm__ __volatile__ ("" : : : "memory");
+		++*current;
 
 		return true;
 	}
-- 
2.43.0


From e7b3cf04ac2327a9daa0ccef92e9a8f337e0c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 06/52] fix: shm::queue: an interrupted wait for the lock must
 not be taken for the lock

---
 coda/shm_queue.tcc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 9e2942f..e659aba 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -389,7 +389,14 @@ void shm_queue::queue<_T>::lock_queue()
 	sem.sem_num = SEM_ID_0;
 	sem.sem_op = -1;
 	sem.sem_flg = SEM_UNDO;
-	semop(sem_id, &sem, 1);
+
+	while (-1 == semop(sem_id, &sem, 1))
+	{
+		if (EINTR != errno)
+		{
+			throw coda_error("shm_queue::queue<>: error locking queue: %s", coda_strerror(errno));
+		}
+	}
 }
 
 template <typename _T>
-- 
2.43.0


From 648a78239233a23424571d5b5826047f3bcedc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 07/52] fix: shm::queue: racing first connects must not reset
 the semaphores of a queue in use

---
 coda/shm_queue.tcc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index e659aba..9d88bdb 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -201,17 +201,20 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 
 	if (-1 == (sem_id = semget(key, 2, 0)))
 	{
-		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
+		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | IPC_EXCL | 0666)))
 		{
-			throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
-		}
+			// somebody else has been faster?
+			if (EEXIST != errno || -1 == (sem_id = semget(key, 2, 0)))
+			{
+				throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
+			}
 
-		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1)))
-		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
+			return;
 		}
 
-		if (-1 == semctl(sem_id, SEM_ID_QUEUE_COUNT, SETVAL, (0)))
+		// a new set starts with zeroes: the queue stays locked (and SEM_ID_QUEUE_COUNT
+		// needs no value) until its only creator opens it here
+		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1)))
 		{
 			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
 		}
-- 
2.43.0


From 4db88966695010151984174a6ad49ae065b2a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 08/52] fix: shm::queue: a failed connect must release the
 lock, detach and leave the object usable

---
 coda/shm_queue.tcc | 52 +++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 9d88bdb..e5d09a8 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -131,16 +131,12 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 		throw coda_error("shm_queue::queue<>: error creating key from file '%s': %s", key_fname, coda_strerror(errno));
 	}
 
-	int created = 0;
-
 	if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
 	{
 		if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
 		{
 			throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
 		}
-
-		created = 1;
 	}
 
 	uint8_t *ptr = (uint8_t *) shmat(shm_id, 0, 0);
@@ -152,9 +148,9 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	info = (shm_queue::queue_info *) ptr;
 
-	if (created)
+	// a new segment starts with zeroes; whoever created it may have failed to attach it
+	if (0 == info->size)
 	{
-		memset(ptr, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
 		info->size = MAX_BOXES_IN_QUEUE;
 	}
@@ -163,10 +159,12 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if ((BOX_SIZE != info->box_size) || (MAX_BOXES_IN_QUEUE != info->size))
 	{
+		uint32_t box_size = info->box_size;
+
 		shmdt(info);
 		info = 0;
 
-		throw coda_error("box_size(%d) in queue is not equal to %d", info->box_size, BOX_SIZE);
+		throw coda_error("box_size(%d) in queue is not equal to %d", box_size, BOX_SIZE);
 	}
 
 	boxes = ptr;
@@ -224,27 +222,47 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 template <typename _T>
 void shm_queue::queue<_T>::connect(const char *key_fname, uint32_t bs, uint32_t mbiq)
 {
+	if (boxes)
+	{
+		throw coda_error("shm_queue::queue<>: queue already connected");
+	}
+
 	BOX_SIZE = bs;
 	MAX_BOXES_IN_QUEUE = mbiq;
 
-	connect_sem(key_fname);
-	lock_queue();
-	connect_shm(key_fname);
-	unlock_queue();
+	bool locked = false;
+
+	try
+	{
+		connect_sem(key_fname);
+		lock_queue();
+		locked = true;
+		connect_shm(key_fname);
+		unlock_queue();
+	}
+	catch (...)
+	{
+		if (locked)
+		{
+			unlock_queue();
+		}
+
+		disconnect();
+		throw;
+	}
 }
 
 template <typename _T>
 void shm_queue::queue<_T>::disconnect()
 {
-	if (NULL == info)
+	if (info)
 	{
-		return;
+		shmdt(info);
+		info = NULL;
+		boxes = NULL;
+		current_box.deallocate();
 	}
 
-	shmdt(info);
-	info = NULL;
-	boxes = NULL;
-	current_box.deallocate();
 	sem_id = -1;
 	shm_id = -1;
 	BOX_SIZE = 0;
-- 
2.43.0


From 6daa2ff91bd9dd92be9f15b6d448b0e724ed5543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 09/52] fix: synque: an exception while an element is stored or
 copied must not leave the queue locked

---
 coda/synque.hpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/coda/synque.hpp b/coda/synque.hpp
index e246177..61c45ba 100644
--- a/coda/synque.hpp
+++ b/coda/synque.hpp
@@ -14,6 +14,14 @@ class synque
 	pthread_mutex_t m;
 	std::deque<_T>  d;
 
+	/* unlocks on every way out, also when an element throws while it is copied */
+	struct guard
+	{
+		pthread_mutex_t *m;
+		guard(pthread_mutex_t *i_m) : m(i_m) { pthread_mutex_lock(m); }
+		~guard() { pthread_mutex_unlock(m); }
+	};
+
 public:
 	synque()
 	{
@@ -29,28 +37,25 @@ public:
 
 	void add(const _T& e)
 	{
-		pthread_mutex_lock(&m);
+		guard g(&m);
 		d.push_front(e);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	void signal()
 	{
-		pthread_mutex_lock(&m);
+		guard g(&m);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	int get(_T& e, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		guard g(&m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 
@@ -58,7 +63,6 @@ public:
 
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -66,26 +70,22 @@ public:
 		e = d.back();
 		d.pop_back();
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
 	int get(std::deque<_T>& out, ssize_t max_count, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		guard g(&m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 			pthread_cond_wait(&c, &m);
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -100,16 +100,13 @@ public:
 			d.pop_back();
 		}
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
 	size_t size()
 	{
-		pthread_mutex_lock(&m);
+		guard g(&m);
 		size_t sz = d.size();
-		pthread_mutex_unlock(&m);
 		return sz;
 	}
 };
-- 
2.43.0


From 7e66cf029e275513236873d80727f143bb4ed2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 10/52] fix: cache: a very long lifetime must not overflow into
 immediate expiry

---
 coda/cache.hpp |  1 +
 coda/cache.tcc | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/coda/cache.hpp b/coda/cache.hpp
index 811034e..a5c2e0f 100644
--- a/coda/cache.hpp
+++ b/coda/cache.hpp
@@ -45,6 +45,7 @@ class coda_cache
 	size_t size_max;
 	size_t time_max;
 
+	bool outdated(const elem_t &e) const;
 	void drop_last_unused();
 
 public:
diff --git a/coda/cache.tcc b/coda/cache.tcc
index e2dac3b..55d24a5 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -1,5 +1,18 @@
+#include <inttypes.h>
 #include <sstream> /* this is needed for dbg() output */
 
+template <typename Key, typename Val>
+bool coda_cache<Key, Val>::outdated(const elem_t &e) const
+{
+	if (0 == time_max) return false;
+
+	/* the clock could have been stepped back; time_max could be any number */
+
+	intmax_t age = (intmax_t) time(NULL) - (intmax_t) e.time;
+
+	return age > 0 && (uintmax_t) age > time_max;
+}
+
 template <typename Key, typename Val>
 const Val *coda_cache<Key, Val>::get(const Key &key)
 {
@@ -7,7 +20,7 @@ const Val *coda_cache<Key, Val>::get(const Key &key)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		if (outdated(it->second))
 		{
 			erase(it);
 			return NULL;
@@ -28,7 +41,7 @@ void coda_cache<Key, Val>::get(const Key &key, Val &val)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		if (outdated(it->second))
 		{
 			erase(it);
 		}
-- 
2.43.0


From 1a25c0003064abc6dd5b5b56d75e5813957e66db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 11/52] fix: cache: overwriting an element with a bigger one
 must keep the size limit, too

---
 coda/cache.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index 55d24a5..3192bd0 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -79,6 +79,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 				res.first->second.time = time(NULL);
 			}
 
+			drop_last_unused();
+
 			return;
 		}
 
@@ -109,6 +111,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 			res.first->second.time = time(NULL);
 		}
 
+		drop_last_unused();
+
 		return;
 	}
 
-- 
2.43.0


From ba22f26b959c1d544e7bafd9d0d41da7e45882b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:21 +0000
Subject: [PATCH 12/52] fix: cache: a failed store must not leave a default
 value behind

---
 coda/cache.hpp |  1 +
 coda/cache.tcc | 33 ++++++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/coda/cache.hpp b/coda/cache.hpp
index a5c2e0f..5da6666 100644
--- a/coda/cache.hpp
+++ b/coda/cache.hpp
@@ -46,6 +46,7 @@ class coda_cache
 	size_t time_max;
 
 	bool outdated(const elem_t &e) const;
+	void assign(typename data_t::iterator it, const Val &val);
 	void drop_last_unused();
 
 public:
diff --git a/coda/cache.tcc b/coda/cache.tcc
index 3192bd0..8da817c 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -52,6 +52,25 @@ void coda_cache<Key, Val>::get(const Key &key, Val &val)
 	}
 }
 
+template <typename Key, typename Val>
+void coda_cache<Key, Val>::assign(typename data_t::iterator it, const Val &val)
+{
+	try
+	{
+		it->second.elem = val;
+	}
+	catch (...)
+	{
+		/* neither the old nor the new value is there */
+		erase(it);
+		throw;
+	}
+
+	size_cur -= it->second.size;
+	it->second.size = estimate_capacity(val);
+	size_cur += it->second.size;
+}
+
 template <typename Key, typename Val>
 void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_time)
 {
@@ -69,10 +88,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		}
 		else
 		{
-			size_cur -= res.first->second.size;
-			res.first->second.elem = val;
-			res.first->second.size = estimate_capacity(val);
-			size_cur += res.first->second.size;
+			assign(res.first, val);
 
 			if (do_update_time)
 			{
@@ -101,10 +117,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		endp->second.next = &*res.first;
 		endp = &*res.first;
 
-		size_cur -= res.first->second.size;
-		res.first->second.elem = val;
-		res.first->second.size = estimate_capacity(val);
-		size_cur += res.first->second.size;
+		assign(res.first, val);
 
 		if (do_update_time)
 		{
@@ -130,9 +143,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		begp = endp;
 	}
 
-	res.first->second.elem = val;
-	res.first->second.size = estimate_capacity(val);
-	size_cur += res.first->second.size;
+	assign(res.first, val);
 
 	drop_last_unused();
 }
-- 
2.43.0


From c8ac5abda21f580688fdaaa548e2667a89b4feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 13/52] fix: logger: log_create must not write to the caller's
 path

---
 coda/logger.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/coda/logger.c b/coda/logger.c
index a51975a..b6680c4 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -2,6 +2,8 @@
 #include <errno.h>
 #include <fcntl.h>
 #include <stdarg.h>
+#include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <pthread.h>
 #include "logger.h"
@@ -38,7 +40,15 @@ int log_levels(const char* level)
 
 int log_create(const char* path, int level)
 {
-	if (0 > coda_mkpath((char *) path)) return -1;
+	int rc;
+	char* copy = strdup(path); /* coda_mkpath writes to its argument */
+
+	if (NULL == copy) return -1;
+
+	rc = coda_mkpath(copy);
+	free(copy);
+
+	if (0 > rc) return -1;
 	if (0 > coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY)) return -1;
 
 	log_level = level;
-- 
2.43.0


From 87fb876573d1249e5e95b862620b87aa8b97e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 14/52] fix: system: coda_fdmove must not report failure after
 the descriptor has been replaced

---
 coda/system.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/coda/system.c b/coda/system.c
index a60cf60..588530e 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -14,10 +14,7 @@ int coda_fdmove(int fd, int nd) /* if nd is ebadf or eq-to-fd => fd is returned
 	nd = dup2(fd, nd);
 	if (0 > nd) return -1;
 
-	if (0 > close(fd))
-	{
-		return -1;
-	}
+	close(fd); /* nd refers to the file already: not a failure of the move */
 
 	return nd;
 }
-- 
2.43.0


From 493e7f75972d0e4d3724bf11f12582d8d05a8236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 15/52] fix: system: coda_fdopen must not leak the opened file
 when it can't be moved

---
 coda/system.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index 588530e..f1d724a 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -26,7 +26,10 @@ int coda_fdopen(int fd, const char* path, int flags)
 	td = open(path, flags, 0644);
 	if (0 > td) return -1;
 
-	return coda_fdmove(td, fd);
+	fd = coda_fdmove(td, fd);
+	if (0 > fd) close(td);
+
+	return fd;
 }
 
 int coda_mkpath(char* path)
-- 
2.43.0


From 3ce21ab9801a37c2e290abfb1fc783bfb4e7d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 16/52] fix: logger: log_err, log_ret and log_die must not add
 an empty line

---
 coda/logger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/logger.h b/coda/logger.h
index 08dc849..9997814 100644
--- a/coda/logger.h
+++ b/coda/logger.h
@@ -26,9 +26,9 @@ extern "C" {
 #define LOG_debug   8  /* DBG: debug message                     */
 
 #define log_msg(lev,fmt,...) log_fmt(stderr,LOG_##lev,#lev,fmt,##__VA_ARGS__)
-#define log_err(err,fmt,...) log_msg(error,fmt " (%d: %s)\n", ##__VA_ARGS__, err, coda_strerror(err))
-#define log_ret(err,fmt,...) log_msg(error,fmt " (%d: %s)\n", ##__VA_ARGS__, err, coda_strerror(err)), err
-#define log_die(err,fmt,...) log_msg(emerg,fmt " (%d: %s)\n", ##__VA_ARGS__, err, coda_strerror(err)); exit(EXIT_FAILURE)
+#define log_err(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err))
+#define log_ret(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)), err
+#define log_die(err,fmt,...) log_msg(emerg,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)); exit(EXIT_FAILURE)
 
 #define log_access( fmt,...) log_msg(access,fmt,##__VA_ARGS__)
 #define log_emerg(  fmt,...) log_msg(emerg, fmt,##__VA_ARGS__)
-- 
2.43.0


From d6ba464a847e19162ad796f3818c7165deca8e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:59 +0000
Subject: [PATCH 17/52] fix: system: a failed coda_mkpidf must not leave a part
 of the pid file behind

---
 coda/system.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/coda/system.c b/coda/system.c
index f1d724a..2c7312d 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -94,21 +94,20 @@ int coda_mkpidf(const char* path)
 		return -1;
 	}
 
-	if (0 > write(fd, buf, nb))
-	{
-		flock(fd, LOCK_UN);
-		close(fd);
-		return -1;
-	}
+	/* whatever is left in the file after a failure prevents the next start */
 
-	if (0 > flock(fd, LOCK_UN))
+	if (nb != write(fd, buf, nb) || 0 > flock(fd, LOCK_UN))
 	{
+		nb = ftruncate(fd, 0);
+		flock(fd, LOCK_UN);
 		close(fd);
+		if (0 > nb) log_emerg("can't clean pid-file %s", path);
 		return -1;
 	}
 
 	if (0 > close(fd))
 	{
+		unlink(path);
 		return -1;
 	}
 
-- 
2.43.0


From 58fd3721e4da8e09e95c7a88e3955e957e175956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:59 +0000
Subject: [PATCH 18/52] fix: system: coda_mkpidf must not log into the pid file
 when standard error is closed

---
 coda/system.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/system.c b/coda/system.c
index 2c7312d..8552fb9 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -64,8 +64,8 @@ int coda_mkpidf(const char* path)
 
 	if (0 > flock(fd, LOCK_EX|LOCK_NB))
 	{
+		close(fd); /* it may be the standard error */
 		log_emerg("can't lock pid-file %s", path);
-		close(fd);
 		return -1;
 	}
 
@@ -73,17 +73,17 @@ int coda_mkpidf(const char* path)
 
 	if (0 > fstat(fd, &st))
 	{
-		log_emerg("can't stat locked pid-file %s", path);
 		flock(fd, LOCK_UN);
 		close(fd);
+		log_emerg("can't stat locked pid-file %s", path);
 		return -1;
 	}
 
 	if (st.st_size > 0)
 	{
-		log_emerg("pid-file %s exists", path);
 		flock(fd, LOCK_UN);
 		close(fd);
+		log_emerg("pid-file %s exists", path);
 		return -1;
 	}
 
-- 
2.43.0


From 2d542c2b03c3386a35ca52225f478b511fe7b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:17 +0000
Subject: [PATCH 19/52] fix: daemon: the signal handler must not change errno
 of the interrupted code

---
 coda/daemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coda/daemon.c b/coda/daemon.c
index c2f5477..092581a 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -1,4 +1,5 @@
 #define _GNU_SOURCE
+#include <errno.h>
 #include <fcntl.h>
 #include <getopt.h>
 #include <stdlib.h>
@@ -200,11 +201,15 @@ volatile int coda_changebin = 0;
 static
 void coda_signal_handle(int sig)
 {
+    int errsave = errno; /* logging changes it under the interrupted code */
+
     switch (sig)
     {
     CODA_SIG_LIST(CODA_SIG_CASE)
 	CODA_SIG_CASE_DEFAULT(sig)
     }
+
+    errno = errsave;
 }
 
 int coda_signal_init()
-- 
2.43.0


From 007ee697e7ab764b408222698ade07d7a1919d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:17 +0000
Subject: [PATCH 20/52] fix: daemon: a signal must not deadlock in the logger's
 pthread_once

---
 coda/daemon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/daemon.c b/coda/daemon.c
index 092581a..3ba1a76 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -214,12 +214,14 @@ void coda_signal_handle(int sig)
 
 int coda_signal_init()
 {
+    log_thread_name_get(); /* the handler must not be the first to log, pthread_once can't be reentered */
     CODA_SIG_LIST(CODA_SIG_INIT, coda_signal_handle)
     return 0;
 }
 
 int coda_signal_init_norestart()
 {
+	log_thread_name_get(); /* the handler must not be the first to log, pthread_once can't be reentered */
 	CODA_SIG_LIST(CODA_SIG_INIT_NORESTART, coda_signal_handle);
 	return 0;
 }
-- 
2.43.0


From e872867990f40893b3ca92573b9929a3e3ec9ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 21/52] fix: system: coda_mkpath must not run past the end of
 an empty path

---
 coda/system.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index 8552fb9..94c1966 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -35,7 +35,9 @@ int coda_fdopen(int fd, const char* path, int flags)
 int coda_mkpath(char* path)
 {
 	int rc;
-	char* p = path + 1;
+	char* p = path;
+
+	if (*p) ++p; /* the path may be empty */
 
 	for (; *p; ++p)
 	{
-- 
2.43.0


From 806f49e7e2b39049644f2d1005b3bd3018d245dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 22/52] fix: system: coda_mmap must not leak the mapping when
 close fails

---
 coda/system.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coda/system.c b/coda/system.c
index 94c1966..c25fb08 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -176,6 +176,7 @@ int coda_mmap(coda_strp area, int prot_flags, int mmap_flags, const char* filena
 
 	if (0 > close(fd))
 	{
+		munmap(area->data, area->size);
 		return -1;
 	}
 
-- 
2.43.0


From f4d53ccf325123ea6026c141c1bc9f239ba5c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 23/52] fix: system: coda_mkpath must fail if a parent exists
 but is not a directory

---
 coda/system.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index c25fb08..c1811b3 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -43,11 +43,17 @@ int coda_mkpath(char* path)
 	{
 		if (*p != '/') continue;
 
+		struct stat st;
+
 		*p = 0;
 		rc = mkdir(path, 0755);
+		if (0 > rc && EEXIST == errno && 0 == stat(path, &st)) /* it may be something else than a directory */
+		{
+			if (S_ISDIR(st.st_mode)) rc = 0; else errno = ENOTDIR;
+		}
 		*p = '/';
 
-		if (0 > rc && EEXIST != errno)
+		if (0 > rc)
 		{
 			return -1;
 		}
-- 
2.43.0


From cdbcef0c577b631ad8661b5e3caf6f40bed82504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 24/52] fix: socket: receive timeouts of a second and more

---
 coda/socket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/socket.h b/coda/socket.h
index eecfcaa..9976eb4 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -32,8 +32,8 @@ int coda_set_socket_timeout(int s, long timeout)
 {
 	struct timeval tv;
 
-	tv.tv_sec = 0;
-	tv.tv_usec = timeout;
+	tv.tv_sec = timeout / 1000000; /* a second or more in tv_usec is an error */
+	tv.tv_usec = timeout % 1000000;
 
 	return setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, (struct timeval *) &tv, sizeof(tv));
 }
-- 
2.43.0


From 977ad0f7781f4fba02febcc91906d5aec20ebf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 25/52] fix: random: a short read is no seed, a failed one must
 not leak the descriptor

---
 coda/random.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/random.c b/coda/random.c
index d74da55..d066a3f 100644
--- a/coda/random.c
+++ b/coda/random.c
@@ -20,10 +20,10 @@ int coda_random_init()
 	uint32_t rnd_from_device;
 
 	int rc = read(fd, &rnd_from_device, sizeof(rnd_from_device));
-	if (0 > rc) return -1;
-
 	close(fd);
 
+	if (rc != (int) sizeof(rnd_from_device)) return -1;
+
 	srandom(rnd_from_device);
 	coda_random_inited = 1;
 
-- 
2.43.0


From 91a12ba02fa47af0a156d2e354da548834c25692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 26/52] fix: txml: an exception in a handler must not pass
 through expat

---
 coda/txml.cpp | 51 +++++++++++++++++++++++++++++++++++++++++++++++----
 coda/txml.hpp |  2 ++
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index 1434912..81871b1 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -59,17 +59,53 @@ void coda::txml_determination_object::load_from_string(const char* str, size_t l
 
 static void cb_characters(void* vThis, const char* szData, int iLength)
 {
-	((coda::txml_parser*) vThis)->characters(szData, iLength);
+	coda::txml_parser* p = (coda::txml_parser*) vThis;
+
+	if (p->error) return;
+
+	try
+	{
+		p->characters(szData, iLength);
+	}
+	catch (...)
+	{
+		p->error = std::current_exception();
+		XML_StopParser(p->p, XML_FALSE);
+	}
 }
 
 static void cb_begelement(void* vThis, const char* const szName, const char** pszAttributes)
 {
-	((coda::txml_parser*) vThis)->begelement(szName, pszAttributes);
+	coda::txml_parser* p = (coda::txml_parser*) vThis;
+
+	if (p->error) return;
+
+	try
+	{
+		p->begelement(szName, pszAttributes);
+	}
+	catch (...)
+	{
+		p->error = std::current_exception();
+		XML_StopParser(p->p, XML_FALSE);
+	}
 }
 
 static void cb_endelement(void* vThis, const char* const szName)
 {
-	((coda::txml_parser*) vThis)->endelement(szName);
+	coda::txml_parser* p = (coda::txml_parser*) vThis;
+
+	if (p->error) return;
+
+	try
+	{
+		p->endelement(szName);
+	}
+	catch (...)
+	{
+		p->error = std::current_exception();
+		XML_StopParser(p->p, XML_FALSE);
+	}
 }
 
 static int  cb_encunknown(void*, const XML_Char*, XML_Encoding*)
@@ -96,7 +132,14 @@ void coda::txml_parser::parse(const char* szDataSource, unsigned int iDataLength
 {
 	int iFinal = bIsFinal;
 
-	if (XML_STATUS_ERROR == XML_Parse(p, szDataSource, iDataLength, iFinal))
+	XML_Status rc = XML_Parse(p, szDataSource, iDataLength, iFinal);
+
+	if (error)
+	{
+		std::rethrow_exception(error);
+	}
+
+	if (XML_STATUS_ERROR == rc)
 	{
 		raise(XML_ErrorString(XML_GetErrorCode(p)));
 	}
diff --git a/coda/txml.hpp b/coda/txml.hpp
index c0d47a8..0f4bf47 100644
--- a/coda/txml.hpp
+++ b/coda/txml.hpp
@@ -3,6 +3,7 @@
 
 #include <stdint.h>
 #include <expat.h>
+#include <exception>
 #include <string>
 #include <vector>
 #include <list>
@@ -42,6 +43,7 @@ struct txml_parser
 	std::string current_value;
 	std::vector<level_desc> levels;
 	std::vector<level_desc>::iterator det_iter;
+	std::exception_ptr error; /* what a handler has thrown, it must not pass through expat */
 
 	void parse(const char* szDataSource, unsigned int iDataLength, bool bIsFinal = true);
 	void raise(const char* err);
-- 
2.43.0


From 662f0ae212819ccf945df51fe01b63425efb7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 27/52] fix: txml: a failed XML_ParserCreate must be reported

---
 coda/txml.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index 81871b1..2cf4c2b 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -117,6 +117,12 @@ coda::txml_parser::txml_parser(coda::txml_determination_object* d)
 	: data(d)
 {
 	p = XML_ParserCreate("UTF-8");
+
+	if (!p)
+	{
+		throw coda_error("Can't create XML parser: not enough memory");
+	}
+
 	XML_SetUserData(p, this);
 	XML_SetUnknownEncodingHandler(p, cb_encunknown, NULL);
 	XML_SetElementHandler(p, cb_begelement, cb_endelement);
-- 
2.43.0


From efd95b2c3d06c2071e9abcf4bb770d49b0a7a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:57 +0000
Subject: [PATCH 28/52] fix: stringstorage: a failed allocation must not crash
 or lose the strings added before

---
 coda/stringstorage.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index c832f39..125e6b6 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -76,6 +76,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	uint8_t common_bytes = 0;
 	size_t len;
 	char *newvalue;
+	void *grown;
 
 	while (begin < end)
 	{
@@ -107,26 +108,35 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	if (doadd == 0) return 0;
 
 	/* 3. insert string after begin */
-	r->children = allocate_reallocate_array(r->children, r->child_count, sizeof(struct string_struct));
-	if (r->children == 0) return 0;
-	if (begin != r->child_count)
-	{
-		memmove(&r->children[begin + 1], &r->children[begin],
-		  (r->child_count - begin) * sizeof(struct string_struct));
-	}
-
 	len = strlen(s) + 1;
 	if ((sb->current == 0) || (sb->used_bytes + 1 + len + sb->user_data_size > STORAGE_BLOCK_SIZE))
 	{
 		char *newcurrent = (char*)calloc(1, STORAGE_BLOCK_SIZE);
-		sb->blocks = allocate_reallocate_array(sb->blocks, sb->block_count, sizeof(char*));
-		if (sb->blocks == 0) return 0;
+		if (newcurrent == 0) return 0;
+
+		grown = allocate_reallocate_array(sb->blocks, sb->block_count, sizeof(char*));
+		if (grown == 0)
+		{
+			free(newcurrent);
+			return 0;
+		}
 
+		sb->blocks = (char**)grown;
 		sb->blocks[sb->block_count++] = newcurrent;
 		sb->current = newcurrent;
 		sb->used_bytes = 0;
 	}
 
+	grown = allocate_reallocate_array(r->children, r->child_count, sizeof(struct string_struct));
+	if (grown == 0) return 0;
+
+	r->children = (struct string_struct*)grown;
+	if (begin != r->child_count)
+	{
+		memmove(&r->children[begin + 1], &r->children[begin],
+		  (r->child_count - begin) * sizeof(struct string_struct));
+	}
+
 	newvalue = sb->current + sb->used_bytes;
 	r->children[begin].value = newvalue;
 	r->children[begin].child_count = 0;
-- 
2.43.0


From 11b257771efa253ad971ce5fe8d64b463c52641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:10 +0000
Subject: [PATCH 29/52] fix: stringstorage: the biggest string must not be
 written past the end of its block

---
 coda/stringstorage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 125e6b6..51bb72e 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -152,7 +152,7 @@ void *string_storage_add(string_storage *ss, const char *s)
 {
 	size_t len = strlen(s) + 1;
 
-	if (len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
+	if (1 + len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
 
 	return internal_find_add(&ss->sb, &ss->root, 0, s, 1);
 }
-- 
2.43.0


From 938dd6a2269ce36797d47003d3e2928f2614579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 30/52] fix: stringstorage: a string must only be put below one
 it shares its beginning with

---
 coda/stringstorage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 51bb72e..7854ff2 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -98,7 +98,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	}
 
 	/* 2. check how many bytes common with previous string */
-	if (begin != 0) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+	if (begin != 0 && *(uint8_t*)(r->children[begin - 1].value) == prev_bytes) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
 
 	if (common_bytes > 8)
 	{
-- 
2.43.0


From 84ef868a8dad66feedcf370bb6bd8b9d05446cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:16 +0000
Subject: [PATCH 31/52] fix: base58: a failed allocation in encode must not
 crash

---
 coda/base58.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/coda/base58.c b/coda/base58.c
index 56d863d..01ba33d 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -8,7 +8,7 @@ static inline unsigned char to_uchar (char ch)
     return ch;
 }
 
-void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
+static bool base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
 {
     static const char b58str[58] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
 
@@ -25,6 +25,8 @@ void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
     char* b58_begin = NULL;
     char* b58_curr = NULL;
     b58_begin = b58_curr = (char*)calloc(b58len, sizeof(unsigned char));
+    if (!b58_begin)
+        return false;
 
     while (inlen)
     {
@@ -56,6 +58,13 @@ void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
     if (outlen) *out = '\0';
 
     free(b58_begin);
+    return true;
+}
+
+void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
+{
+    if (!base58_encode (in, inlen, out, outlen) && outlen)
+        *out = '\0';
 }
 
 size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
@@ -74,7 +83,13 @@ size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
     if (!*out)
         return outlen;
 
-    coda_base58_encode (in, inlen, *out, outlen);
+    if (!base58_encode (in, inlen, *out, outlen))
+    {
+        free (*out);
+        *out = NULL;
+        return outlen;
+    }
+
     return outlen - 1;
 }
 
-- 
2.43.0


From 8b0caf98d44496a069cc583957295cc4024d4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:16 +0000
Subject: [PATCH 32/52] fix: base58: an error at the first character must not
 be reported as an empty result

---
 coda/base58.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/coda/base58.c b/coda/base58.c
index 01ba33d..1f1a3b7 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -252,7 +252,7 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
     char *b256_curr = NULL;
     b256_begin = b256_curr = (char*)calloc (b256len, sizeof(char));
     if (!b256_begin)
-        return -_inlen + inlen;
+        return -_inlen + inlen - 1;
 
     while (inlen)
     {
@@ -268,14 +268,17 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
             carry /= 256;
         }
         if (carry)
-            return -_inlen + inlen;
+        {
+            free(b256_begin);
+            return -_inlen + inlen - 1;
+        }
         inlen--;
     }
 
     if (inlen != 0)
     {
         free(b256_begin);
-        return -_inlen + inlen;
+        return -_inlen + inlen - 1; // minus the number of the offending character, counting from 1
     }
 
     while (b256len && !*b256_curr)
@@ -310,7 +313,7 @@ ssize_t coda_base58_decode_alloc (const char *in, size_t inlen, char **out)
     size_t needlen = zeroes + b256len * 733 / 1000 + 1;
     *out = malloc (needlen);
     if (!*out)
-        return true;
+        return -1;
 
     ssize_t ret = coda_base58_decode (in, inlen, *out);
     if (ret < 0)
-- 
2.43.0


From 85da84947cf7c6f5cdcd1078d042fa78a1d69865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:48 +0000
Subject: [PATCH 33/52] fix: url_parser: assigning a URL to itself must not
 read freed memory

---
 coda/url_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 7a0ab27..564d49b 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -36,6 +36,11 @@ coda_url::coda_url(const coda_url &u)
 
 coda_url &coda_url::operator= (const coda_url &u)
 {
+	if (this == &u)
+	{
+		return *this;
+	}
+
 	if (allocated())
 	{
 		free(val_str);
-- 
2.43.0


From 6b1332e50214a53c4971082238cf12d286a25e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:48 +0000
Subject: [PATCH 34/52] fix: url_parser: a failed allocation must not crash

---
 coda/url_parser.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 564d49b..46015ec 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -28,6 +28,14 @@ coda_url::coda_url(const coda_url &u)
 		dom_len = u.dom_len;
 
 		val_str = (char *) malloc(val_len + dom_len + 2);
+
+		if (NULL == val_str)
+		{
+			dom_str = NULL;
+			val_len = dom_len = 0;
+			return;
+		}
+
 		memcpy(val_str, u.val_str, val_len + dom_len + 2);
 
 		dom_str = val_str + val_len + 1;
@@ -60,6 +68,14 @@ coda_url &coda_url::operator= (const coda_url &u)
 		dom_len = u.dom_len;
 
 		val_str = (char *) malloc(val_len + dom_len + 2);
+
+		if (NULL == val_str)
+		{
+			dom_str = NULL;
+			val_len = dom_len = 0;
+			return *this;
+		}
+
 		memcpy(val_str, u.val_str, val_len + dom_len + 2);
 
 		dom_str = val_str + val_len + 1;
@@ -99,6 +115,11 @@ int coda_url::create_absolute(const char *u, size_t sz, uint32_t flags)
 
 	val_str = (char *) malloc(2 + 2 * sz + 9); // val + 0 + dom + 0 + "http[s]://" + "/"
 
+	if (NULL == val_str)
+	{
+		return -1;
+	}
+
 	create_scheme(u, sz, flags);
 
 	return 0;
@@ -114,6 +135,11 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
 
+	if (NULL == val_str)
+	{
+		return -1;
+	}
+
 	if (coda_strxstr(u, "http://", 7) || coda_strxstr(u, "https://", 8))
 	{
 		create_scheme(u, sz, flags);
-- 
2.43.0


From a99f96cdefa57cf6ed0e3a0afec9626fea5e2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:48 +0000
Subject: [PATCH 35/52] fix: url_parser: a short URL must not be read past its
 end

---
 coda/url_parser.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 46015ec..16f6081 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -6,6 +6,12 @@
 #include "string.h"
 #include "url_parser.hpp"
 
+static bool starts_with(const char *u, size_t sz, const char *prefix)
+{
+	size_t len = strlen(prefix);
+	return len <= sz && 0 == strncasecmp(u, prefix, len);
+}
+
 coda_url::coda_url()
 {
 	val_str = dom_str = NULL;
@@ -140,7 +146,7 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 		return -1;
 	}
 
-	if (coda_strxstr(u, "http://", 7) || coda_strxstr(u, "https://", 8))
+	if (starts_with(u, sz, "http://") || starts_with(u, sz, "https://"))
 	{
 		create_scheme(u, sz, flags);
 
@@ -164,13 +170,13 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 int coda_url::create_scheme(const char *u, size_t sz, uint32_t flags)
 {
-	if (coda_strxstr(u, "https://", 8))
+	if (starts_with(u, sz, "https://"))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 8, flags);
 	}
 
-	if (coda_strxstr(u, "http://", 7))
+	if (starts_with(u, sz, "http://"))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 7, flags);
@@ -372,8 +378,8 @@ int coda_url::assign_refers(char *beg, uint32_t flags)
 
 int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda_url &parent)
 {
-	if (NULL != coda_strxstr(u, "mailto:", 7)) return -1;
-	if (NULL != coda_strxstr(u, "javascript:", 11)) return -1;
+	if (starts_with(u, sz, "mailto:")) return -1;
+	if (starts_with(u, sz, "javascript:")) return -1;
 	if ( '#' == *u) return -1;
 
 	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
-- 
2.43.0


From a00d42d07416e8be092a76bc4d18ca283a66fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:16 +0000
Subject: [PATCH 36/52] fix: string: an exception while text is added must not
 leak the buffer

---
 coda/string.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 890671c..d98ee01 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -75,7 +75,16 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 			bytes = num;
 		}
 
-		out.append(BUF, bytes);
+		try
+		{
+			out.append(BUF, bytes);
+		}
+		catch (...)
+		{
+			delete [] BUF;
+			va_end(ap);
+			throw;
+		}
 
 		delete [] BUF;
 	}
@@ -114,7 +123,16 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 			bytes = num;
 		}
 
-		out.insert(pos, BUF, bytes);
+		try
+		{
+			out.insert(pos, BUF, bytes);
+		}
+		catch (...)
+		{
+			delete [] BUF;
+			va_end(ap);
+			throw;
+		}
 
 		delete [] BUF;
 	}
-- 
2.43.0


From d790229df3d26fc4f3c7923e2741b8bed41ca8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:27 +0000
Subject: [PATCH 37/52] Revert "fix: txml: a failed XML_ParserCreate must be
 reported"

This reverts commit 662f0ae212819ccf945df51fe01b63425efb7f08.
---
 coda/txml.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index 2cf4c2b..81871b1 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -117,12 +117,6 @@ coda::txml_parser::txml_parser(coda::txml_determination_object* d)
 	: data(d)
 {
 	p = XML_ParserCreate("UTF-8");
-
-	if (!p)
-	{
-		throw coda_error("Can't create XML parser: not enough memory");
-	}
-
 	XML_SetUserData(p, this);
 	XML_SetUnknownEncodingHandler(p, cb_encunknown, NULL);
 	XML_SetElementHandler(p, cb_begelement, cb_endelement);
-- 
2.43.0


From 1aa54e3654417f177a0b4f04724a9747fe730cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 38/52] fix: coda_get_uint64set inserted an indeterminate value
 for an element that is not a number

---
 coda/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index d98ee01..e2914d7 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -175,8 +175,10 @@ void coda_get_uint64set(const char* str, std::set<uint64_t>& result)
 	while (i)
 	{
 		uint64_t temp;
-		sscanf(i, "%" PRIu64, &temp);
-		result.insert(temp);
+		if (1 == sscanf(i, "%" PRIu64, &temp))
+		{
+			result.insert(temp);
+		}
 		i = strchr(i, ',');
 		if (i)
 		{
-- 
2.43.0


From dbed66e3347f008d41c666ef67afff037a8a9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:41 +0000
Subject: [PATCH 39/52] fix: a failed mapping keeps the area's size

---
 coda/system.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/coda/system.c b/coda/system.c
index c1811b3..8ab9da5 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -136,6 +136,7 @@ int coda_mmap(coda_strp area, int prot_flags, int mmap_flags, const char* filena
 {
 	int fd;
 	int open_flags;
+	size_t size = area->size;
 
 	if (NULL == filename) /* MAP_ANONYMOUS */
 	{
@@ -168,10 +169,10 @@ int coda_mmap(coda_strp area, int prot_flags, int mmap_flags, const char* filena
 			return -1;
 		}
 
-		area->size = st.st_size;
+		size = st.st_size;
 	}
 
-	area->data = mmap(NULL, area->size, prot_flags,
+	area->data = mmap(NULL, size, prot_flags,
 		mmap_flags, fd, 0);
 
 	if (MAP_FAILED == area->data)
@@ -182,10 +183,12 @@ int coda_mmap(coda_strp area, int prot_flags, int mmap_flags, const char* filena
 
 	if (0 > close(fd))
 	{
-		munmap(area->data, area->size);
+		munmap(area->data, size);
 		return -1;
 	}
 
+	area->size = size; /* not before, a repeated call would resize the file */
+
 	return 0;
 }
 
-- 
2.43.0


From 3b11242ab6270386b5732dba50004734636a56b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:19 +0000
Subject: [PATCH 40/52] fix: shm_queue: a process that dies between two stores
 must not leave an index out of range

---
 coda/shm_queue.tcc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index e5d09a8..5703bdd 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -308,8 +308,7 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 		current_box.copy_from(ptr);
 		memset(ptr, 0, info->box_size);
 
-		info->start++;
-		info->start %= info->size;
+		info->start = (info->start + 1) % info->size;
 
 		unlock_queue();
 
@@ -341,8 +340,7 @@ void shm_queue::queue<_T>::flush()
 		{
 			uint8_t *ptr = boxes + info->end * info->box_size;
 			current_box.copy_to(ptr);
-			info->end++;
-			info->end %= info->size;
+			info->end = (info->end + 1) % info->size;
 
 			struct sembuf sem;
 			sem.sem_num = SEM_ID_QUEUE_COUNT;
-- 
2.43.0


From 6a9bd27c25048a1625097a53e00e43121ed0c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:54 +0000
Subject: [PATCH 41/52] fix: shm::hash_map: a process killed while it
 initialises the segment must leave it new

The fields that tell a new map from an existing one were set before the hash
table was filled. They are set last now, so that the next process to connect
starts over.
---
 coda/shm_hash_map.tcc | 9 +++++++--
 coda/shm_pool.tcc     | 5 +++--
 coda/shm_stack.tcc    | 5 +++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 77eb2d4..198e93c 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -50,10 +50,9 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::attach(void * mem_begin) th
 	int map_data_size = floor1024(nodes_pool.data_size());
 	uint8_t *hash_p = mem_p + map_header_size + map_stacks_size + map_data_size;
 
-	if (0 == *objects_num && 0 == *item_size && 0 == *hash_size)
+	if (0 == *objects_num)
 	{
 		// kto perviy vstal togo i tapki!
-		*objects_num = _OBJECTS_NUM;
 		*item_size = sizeof(_Type);
 		*hash_size = _HASH_SIZE;
 
@@ -61,6 +60,12 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::attach(void * mem_begin) th
 		{
 			((uint32_t *) hash_p)[i] = (uint32_t)(-1);
 		}
+
+		// set last: a process killed in here leaves a map that is still new
+
+		__asm__ __volatile__ ("" : : : "memory");
+
+		*objects_num = _OBJECTS_NUM;
 	}
 	else if (_OBJECTS_NUM != *objects_num || sizeof(_Type) != *item_size || _HASH_SIZE != *hash_size)
 	{
diff --git a/coda/shm_pool.tcc b/coda/shm_pool.tcc
index 3c8d7af..97e5138 100644
--- a/coda/shm_pool.tcc
+++ b/coda/shm_pool.tcc
@@ -24,12 +24,13 @@ void shm::pool<_Type, _OBJECTS_NUM>::attach(void *header_begin, void *stack_begi
 
 	data = (_Type *) objects_begin;
 
-	if (0 == *reserved && 0 == *item_size)
+	if (0 == *reserved)
 	{
 		//kto perviy vstal togo i tapki!
-		*reserved = _OBJECTS_NUM;
 		*item_size = sizeof(_Type);
 		*current = 0;
+		__asm__ __volatile__ ("" : : : "memory");
+		*reserved = _OBJECTS_NUM; // set last, a process can be killed in here
 	}
 	else if (_OBJECTS_NUM != *reserved || sizeof(_Type) != *item_size)
 	{
diff --git a/coda/shm_stack.tcc b/coda/shm_stack.tcc
index 9e270e7..e721a7d 100644
--- a/coda/shm_stack.tcc
+++ b/coda/shm_stack.tcc
@@ -22,12 +22,13 @@ inline void shm::stack<_Type, _OBJECTS_NUM>::attach(void * header_begin, void *
 
 	data = (_Type *) block_begin;
 
-	if (0 == *reserved && 0 == *item_size)
+	if (0 == *reserved)
 	{
 		//kto perviy vstal togo i tapki!
-		*reserved = _OBJECTS_NUM;
 		*item_size = sizeof(_Type);
 		*current = (uint32_t)(-1);
+		__asm__ __volatile__ ("" : : : "memory");
+		*reserved = _OBJECTS_NUM; // set last, a process can be killed in here
 	}
 	else if (_OBJECTS_NUM != *reserved || sizeof(_Type) != *item_size)
 	{
-- 
2.43.0


From 7844ec074be0fa231572de4e450d6432508b1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:58 +0000
Subject: [PATCH 42/52] fix: coda_strnappend, coda_strnprintf: a limit of 2^31
 or more cut the result or threw length_error

---
 coda/string.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/coda/string.cpp b/coda/string.cpp
index e2914d7..e274b2e 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -68,6 +68,14 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 	}
 	else
 	{
+		va_list aq;
+
+		va_copy(aq, ap); /* the limit may be more than any result needs */
+		bytes = vsnprintf(NULL, 0, fmt, aq);
+		va_end(aq);
+
+		if (0 <= bytes && (size_t) bytes < num) num = bytes;
+
 		char* BUF = new char [num + 1];
 
 		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
@@ -116,6 +124,14 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 	}
 	else
 	{
+		va_list aq;
+
+		va_copy(aq, ap); /* the limit may be more than any result needs */
+		bytes = vsnprintf(NULL, 0, fmt, aq);
+		va_end(aq);
+
+		if (0 <= bytes && (size_t) bytes < num) num = bytes;
+
 		char* BUF = new char [num + 1];
 
 		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
-- 
2.43.0


From 5aca08399dd099d8eda71edd327425a56b59c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:58 +0000
Subject: [PATCH 43/52] fix: shm::hash_map: sizes of maps over 2 GB did not fit
 their integers

---
 coda/shm_hash_map.tcc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 198e93c..37f7fe7 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -3,9 +3,9 @@
 #define mySEM_R 0
 #define mySEM_W 1
 
-inline uint32_t floor1024(uint32_t param)
+inline size_t floor1024(size_t param)
 {
-	return (param + 1023) & ~(1023);
+	return (param + 1023) & ~(size_t) 1023;
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
@@ -39,15 +39,15 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::attach(void * mem_begin) th
 	// some memory usage arrangement
 
 	uint8_t *nodes_header_p = mem_p + 3 * sizeof(uint32_t);
-	int map_header_size = floor1024(3 * sizeof(uint32_t) + nodes_pool.header_size());
+	size_t map_header_size = floor1024(3 * sizeof(uint32_t) + nodes_pool.header_size());
 
 	uint8_t *nodes_stack_p = mem_p + map_header_size;
-	int map_stacks_size = floor1024(nodes_pool.stack_size());
+	size_t map_stacks_size = floor1024(nodes_pool.stack_size());
 
 	uint8_t *nodes_pool_p = mem_p + map_header_size + map_stacks_size;
 	objects = (node *) nodes_pool_p;
 
-	int map_data_size = floor1024(nodes_pool.data_size());
+	size_t map_data_size = floor1024(nodes_pool.data_size());
 	uint8_t *hash_p = mem_p + map_header_size + map_stacks_size + map_data_size;
 
 	if (0 == *objects_num)
@@ -97,9 +97,9 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::detach()
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 size_t shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::required_space()const
 {
-	int map_header_size = floor1024(3 * sizeof(uint32_t) + nodes_pool.header_size());
-	int map_stacks_size = floor1024(nodes_pool.stack_size());
-	int map_data_size = floor1024(nodes_pool.data_size());
+	size_t map_header_size = floor1024(3 * sizeof(uint32_t) + nodes_pool.header_size());
+	size_t map_stacks_size = floor1024(nodes_pool.stack_size());
+	size_t map_data_size = floor1024(nodes_pool.data_size());
 
 	return map_header_size + map_stacks_size + map_data_size + sizeof(uint32_t) * _HASH_SIZE;
 }
-- 
2.43.0


From a732524eff7fb07a703ec18a02c446b5b99a11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:58 +0000
Subject: [PATCH 44/52] fix: shm_queue: sizes and offsets of rings over 4 GB
 wrapped

---
 coda/shm_queue.tcc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 5703bdd..211db66 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -131,9 +131,9 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 		throw coda_error("shm_queue::queue<>: error creating key from file '%s': %s", key_fname, coda_strerror(errno));
 	}
 
-	if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
+	if (-1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
 	{
-		if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
+		if (-1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
 		{
 			throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
 		}
@@ -176,7 +176,7 @@ void shm_queue::queue<_T>::reset_queue()
 {
 	if (info)
 	{
-		memset(info, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
+		memset(info, 0, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
 		info->size = MAX_BOXES_IN_QUEUE;
 	}
@@ -304,7 +304,7 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 
 		lock_queue();
 
-		uint8_t *ptr = boxes + info->start * info->box_size;
+		uint8_t *ptr = boxes + (size_t) info->start * info->box_size;
 		current_box.copy_from(ptr);
 		memset(ptr, 0, info->box_size);
 
@@ -338,7 +338,7 @@ void shm_queue::queue<_T>::flush()
 		lock_queue();
 		if ((info->end + 1) % info->size != info->start)
 		{
-			uint8_t *ptr = boxes + info->end * info->box_size;
+			uint8_t *ptr = boxes + (size_t) info->end * info->box_size;
 			current_box.copy_to(ptr);
 			info->end = (info->end + 1) % info->size;
 
-- 
2.43.0


From 5e7b54373142f441cefc2d3f884ae7b9c2ba1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:27 +0000
Subject: [PATCH 45/52] fix: coda_signal_init_norestart kept the one-shot flag
 of an earlier handler

---
 coda/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/daemon.c b/coda/daemon.c
index 3ba1a76..3e8ced0 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -181,7 +181,7 @@ int coda_daemon_stop(coda_getopt_t* opt)
 #define CODA_SIG_INIT_NORESTART(name,hand,glob_hand) do { \
     struct sigaction sa;                                  \
     if (0 > sigaction((SIG##name), NULL, &sa)) return -1; \
-    sa.sa_flags &= ~SA_RESTART;                           \
+    sa.sa_flags &= ~(SA_RESTART|SA_RESETHAND);            \
     sa.sa_handler = (glob_hand);                          \
     if (0 > sigaction((SIG##name), &sa, NULL)) return -1; \
 } while (0);
-- 
2.43.0


From 18500ccd617b3e6745c58a8fd1629b6056233ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:27 +0000
Subject: [PATCH 46/52] fix: stringstorage: strings with more than 255 common
 characters were lost or mixed up

---
 coda/stringstorage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 7854ff2..d02b8b2 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -73,7 +73,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 {
 	size_t begin = 0;
 	size_t end = r->child_count;
-	uint8_t common_bytes = 0;
+	size_t common_bytes = 0;
 	size_t len;
 	char *newvalue;
 	void *grown;
@@ -99,6 +99,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 
 	/* 2. check how many bytes common with previous string */
 	if (begin != 0 && *(uint8_t*)(r->children[begin - 1].value) == prev_bytes) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+	if (common_bytes > (size_t) (UINT8_MAX - prev_bytes)) common_bytes = UINT8_MAX - prev_bytes; /* it is kept in one byte */
 
 	if (common_bytes > 8)
 	{
-- 
2.43.0


From dfc73a09dfa338ef3f67a6202da2da61cb57884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:27 +0000
Subject: [PATCH 47/52] fix: txml: strings of 2 GB and more were cut or refused

---
 coda/txml.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index 81871b1..3549e0e 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -7,6 +7,7 @@
 #include "txml.hpp"
 
 #define BUFSZ 4096
+#define PIECE (1 << 20)
 
 void coda::txml_determination_object::load_from_file(const char* filename)
 {
@@ -47,13 +48,18 @@ void coda::txml_determination_object::load_from_file(const char* filename)
 
 void coda::txml_determination_object::load_from_string(const char* str)
 {
-	coda::txml_parser p (this);
-	p.parse(str, strlen(str), true);
+	load_from_string(str, strlen(str));
 }
 
 void coda::txml_determination_object::load_from_string(const char* str, size_t len)
 {
 	coda::txml_parser p (this);
+
+	for (; len > PIECE; str += PIECE, len -= PIECE) /* expat takes lengths up to INT_MAX */
+	{
+		p.parse(str, PIECE, false);
+	}
+
 	p.parse(str, len, true);
 }
 
-- 
2.43.0


From 1cbb42620783a36477bd1e8ed6998ddeab028b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:27 +0000
Subject: [PATCH 48/52] fix: synque: a get whose element could not be copied
 used up the wake-up of a waiting one

---
 coda/synque.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/coda/synque.hpp b/coda/synque.hpp
index 61c45ba..0be65b1 100644
--- a/coda/synque.hpp
+++ b/coda/synque.hpp
@@ -67,7 +67,16 @@ public:
 			}
 		}
 
-		e = d.back();
+		try
+		{
+			e = d.back();
+		}
+		catch (...)
+		{
+			pthread_cond_signal(&c); /* the element stays, another one may wait for it */
+			throw;
+		}
+
 		d.pop_back();
 
 		return 0;
@@ -96,7 +105,16 @@ public:
 
 		for (size_t i = 0; i < quantity; ++i)
 		{
-			out.push_back(d.back());
+			try
+			{
+				out.push_back(d.back());
+			}
+			catch (...)
+			{
+				pthread_cond_signal(&c); /* the element stays, another one may wait for it */
+				throw;
+			}
+
 			d.pop_back();
 		}
 
-- 
2.43.0


From 6da9be874264c174a624aa8835b5967b124e86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:27 +0000
Subject: [PATCH 49/52] fix: shm_queue: a box that could not be counted stayed
 in the ring

---
 coda/shm_queue.tcc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 211db66..cfcd7e3 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -340,13 +340,19 @@ void shm_queue::queue<_T>::flush()
 		{
 			uint8_t *ptr = boxes + (size_t) info->end * info->box_size;
 			current_box.copy_to(ptr);
-			info->end = (info->end + 1) % info->size;
+
+			uint32_t end = info->end;
+			info->end = (end + 1) % info->size;
 
 			struct sembuf sem;
 			sem.sem_num = SEM_ID_QUEUE_COUNT;
 			sem.sem_op = 1;
 			sem.sem_flg = 0;
-			semop(sem_id, &sem, 1);
+
+			if (-1 == semop(sem_id, &sem, 1))
+			{
+				info->end = end; // no reader would ever get to it, the count is at its maximum
+			}
 		}
 		else
 		{
-- 
2.43.0


From 95f7c2e734fa8e754a632a09ce66372c61deda73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:27 +0000
Subject: [PATCH 50/52] fix: coda_strprintf cut at a zero character; long
 results overflowed the stack

---
 coda/string.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index e274b2e..5bd3c3d 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -17,13 +17,14 @@ std::string coda_strprintf(const char *fmt, ...)
 
 	if (BUFSZ <= bytes)
 	{
-		BUF = (char *) alloca(bytes + 1);
+		std::string out(bytes, 0);
 		va_start(ap, fmt);
-		vsnprintf(BUF, bytes + 1, fmt, ap);
+		vsnprintf(&out[0], bytes + 1, fmt, ap);
 		va_end(ap);
+		return out;
 	}
 
-	return BUF;
+	return 0 > bytes ? std::string(BUF) : std::string(BUF, bytes);
 }
 
 int coda_strappend(std::string& out, const char* fmt, ...)
@@ -37,10 +38,12 @@ int coda_strappend(std::string& out, const char* fmt, ...)
 
 	if (BUFSZ <= bytes)
 	{
-		BUF = (char *) alloca(bytes + 1);
+		std::string big(bytes, 0); /* the stack may be too small */
 		va_start(ap, fmt);
-		vsnprintf(BUF, bytes + 1, fmt, ap);
+		vsnprintf(&big[0], bytes + 1, fmt, ap);
 		va_end(ap);
+		out.append(big);
+		return bytes;
 	}
 
 	out.append(BUF, bytes);
-- 
2.43.0


From fb830d39032c1c88cad4ed9ee09eb1af0edf40ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:15 +0000
Subject: [PATCH 51/52] fix: logger: messages over 8 KB were split by a
 rotation or by other processes

---
 coda/logger.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 coda/logger.h |  5 +++--
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/coda/logger.c b/coda/logger.c
index b6680c4..6759338 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -55,6 +55,48 @@ int log_create(const char* path, int level)
 	return STDERR_FILENO;
 }
 
+/* message */
+
+#define BUFSZ 4096
+
+int log_write(FILE* fp, const char* fmt, ...)
+{
+	int bytes;
+	char stack[BUFSZ];
+	char* buf = stack;
+	va_list ap;
+
+	va_start(ap, fmt);
+	bytes = vsnprintf(buf, BUFSZ, fmt, ap);
+	va_end(ap);
+
+	if (0 > bytes) return -1;
+
+	if (BUFSZ <= bytes)
+	{
+		if (NULL != (buf = malloc((size_t) bytes + 1)))
+		{
+			va_start(ap, fmt);
+			vsnprintf(buf, (size_t) bytes + 1, fmt, ap);
+			va_end(ap);
+		}
+		else
+		{
+			va_start(ap, fmt);
+			bytes = vfprintf(fp, fmt, ap);
+			va_end(ap);
+
+			return bytes;
+		}
+	}
+
+	/* one write, while vfprintf splits what exceeds its own buffer */
+	if ((size_t) bytes != fwrite(buf, 1, bytes, fp)) bytes = -1;
+	if (stack != buf) free(buf);
+
+	return bytes;
+}
+
 /* thread */
 
 pthread_key_t  log_thread_name;
diff --git a/coda/logger.h b/coda/logger.h
index 9997814..c5e5b1f 100644
--- a/coda/logger.h
+++ b/coda/logger.h
@@ -60,12 +60,12 @@ extern "C" {
                                                                             \
         if (NULL != (tname = log_thread_name_get()))                        \
         {                                                                   \
-            fprintf(fp, LOG_FORMAT(lvstr,"%s",fmt),                         \
+            log_write(fp, LOG_FORMAT(lvstr,"%s",fmt),                       \
                 LOG_VALUES(tmloc,tv,tname,##__VA_ARGS__));                  \
         }                                                                   \
         else                                                                \
         {                                                                   \
-            fprintf(fp, LOG_FORMAT(lvstr,"%lu",fmt),                        \
+            log_write(fp, LOG_FORMAT(lvstr,"%lu",fmt),                      \
                 LOG_VALUES(tmloc,tv,(unsigned long)pthread_self(),##__VA_ARGS__)); \
         }                                                                   \
     }                                                                       \
@@ -75,6 +75,7 @@ extern "C" {
 extern volatile int log_level;
 int log_levels(const char* level);
 int log_create(const char* path, int level);
+int log_write(FILE* fp, const char* fmt, ...) __attribute__ ((format (printf, 2, 3)));
 int log_thread_name_set(const char* name);
 const char* log_thread_name_get();
 
-- 
2.43.0


From 51a013806688c7453d04bc014fbdfb07f62086e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:32 +0000
Subject: [PATCH 52/52] fix: coda_random_init: threads that arrived together
 seeded the generator twice

---
 coda/random.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/coda/random.c b/coda/random.c
index d066a3f..7ea3041 100644
--- a/coda/random.c
+++ b/coda/random.c
@@ -1,4 +1,5 @@
 #include <fcntl.h>
+#include <pthread.h>
 #include <stdint.h>
 #include <sys/stat.h>
 #include <sys/types.h>
@@ -6,14 +7,10 @@
 #include "random.h"
 
 static volatile int coda_random_inited = 0;
+static pthread_mutex_t coda_random_mutex = PTHREAD_MUTEX_INITIALIZER;
 
-int coda_random_init()
+static int coda_random_seed()
 {
-	if (coda_random_inited)
-	{
-		return 0;
-	}
-
 	int fd = open("/dev/urandom", O_RDONLY);
 	if (0 > fd) return -1;
 
@@ -30,3 +27,19 @@ int coda_random_init()
 	return 0;
 }
 
+int coda_random_init()
+{
+	int rc;
+
+	if (coda_random_inited)
+	{
+		return 0;
+	}
+
+	pthread_mutex_lock(&coda_random_mutex);
+	rc = coda_random_inited ? 0 : coda_random_seed();
+	pthread_mutex_unlock(&coda_random_mutex);
+
+	return rc;
+}
+
-- 
2.43.0

