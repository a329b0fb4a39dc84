From e8189abc1dffda2e8fc99b002198d90162d77881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:19 +0000
Subject: [PATCH 01/42] fix: pthread_mutex_timedlock must record the owner of
 an uncontended robust normal mutex

The uncontended path skipped ptw32_robust_mutex_add(), so the locker could not
unlock the mutex (EPERM) and its death went unnoticed.
---
 pthread_mutex_timedlock.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index 13372e3..36c1119 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -254,6 +254,8 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                         }
 	            }
 
+	        }
+
                   if (0 == result || EOWNERDEAD == result)
                     {
                       /*
@@ -262,7 +264,6 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                        */
                       ptw32_robust_mutex_add(mutex, self);
                     }
-	        }
             }
           else
             {
-- 
2.43.0


From 857b3741d9b8516ddde2f65e32c67bd6989c363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:39 +0000
Subject: [PATCH 02/42] fix: destroying a robust recursive mutex held by the
 caller must be refused

Robust kinds are stored negated, so the recursion check never matched and the
locked mutex was freed.
---
 pthread_mutex_destroy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index 82cc088..3312bb8 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -70,7 +70,10 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
        */
       if (0 == result || ENOTRECOVERABLE == result)
 	{
-	  if (mx->kind != PTHREAD_MUTEX_RECURSIVE || 1 == mx->recursive_count)
+	  /* Robust kinds are stored as (-kind - 1). */
+	  if (ENOTRECOVERABLE == result
+	      || (mx->kind != PTHREAD_MUTEX_RECURSIVE && mx->kind != -PTHREAD_MUTEX_RECURSIVE - 1)
+	      || 1 == mx->recursive_count)
 	    {
 	      /*
 	       * FIXME!!!
-- 
2.43.0


From d72d157dc790e0ffbe274af142ea81365206e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:54 +0000
Subject: [PATCH 03/42] fix: pthread_mutex_unlock must report a destroyed mutex
 as invalid

Like the lock functions do; it dereferenced the null handle instead.
---
 pthread_mutex_unlock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 4ccfb41..8a09828 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -55,6 +55,11 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
   int kind;
   int result = 0;
 
+  if (mx == NULL)
+    {
+      return EINVAL;
+    }
+
   /*
    * If the thread calling us holds the mutex then there is no
    * race condition. If another thread holds the
-- 
2.43.0


From 9b5c7e078ee44cad2fa7868498c5b1359037d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 04/42] fix: inner unlock of a recursive robust mutex must not
 make it unrecoverable

Only the unlock that gives up ownership of an inconsistent mutex does.
---
 pthread_mutex_unlock.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 8a09828..82bb914 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -133,9 +133,12 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
            */
           if (pthread_equal (mx->ownerThread, self))
             {
-              PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
+              if (PTHREAD_MUTEX_RECURSIVE != kind || 1 == mx->recursive_count)
+                {
+                  PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
+                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
+                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
+                }
               if (PTHREAD_MUTEX_NORMAL == kind)
                 {
                   ptw32_robust_mutex_remove(mutex, NULL);
-- 
2.43.0


From d0f70f9db60525523c7bf54c49c1d97b5c497a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 05/42] fix: robust mutex waiters must neither miss the
 unrecoverable state nor lose a wake-up

A locker that found the lock word free after the mutex had become
unrecoverable acquired it with result 0, and inheriting the lock from a
dead owner (or being told it is unrecoverable) could overwrite the
contended mark so that nobody woke the other waiters.
---
 implement.h                |  1 +
 pthread_mutex_consistent.c | 44 ++++++++++++++++++++++++++++++++++++++
 pthread_mutex_lock.c       | 17 +++++++++------
 pthread_mutex_timedlock.c  | 28 +++++++++++-------------
 pthread_mutex_trylock.c    | 10 ++++++---
 5 files changed, 75 insertions(+), 25 deletions(-)

diff --git a/implement.h b/implement.h
index 1a5d20d..d839a4e 100644
--- a/implement.h
+++ b/implement.h
@@ -713,6 +713,7 @@ PTW32_BEGIN_C_DECLS
   int ptw32_spinlock_check_need_init (pthread_spinlock_t * lock);
 
   int ptw32_robust_mutex_inherit(pthread_mutex_t * mutex);
+  int ptw32_robust_mutex_settle(pthread_mutex_t* mutex, int result);
   void ptw32_robust_mutex_add(pthread_mutex_t* mutex, pthread_t self);
   void ptw32_robust_mutex_remove(pthread_mutex_t* mutex, ptw32_thread_t* otp);
 
diff --git a/pthread_mutex_consistent.c b/pthread_mutex_consistent.c
index b9c8221..b19764a 100755
--- a/pthread_mutex_consistent.c
+++ b/pthread_mutex_consistent.c
@@ -106,6 +106,50 @@ ptw32_robust_mutex_inherit(pthread_mutex_t * mutex)
   return result;
 }
 
+/*
+ * Completes an attempt to take a robust mutex. 'result' is 0 if the
+ * lock word was taken or else what ptw32_robust_mutex_inherit() said.
+ */
+INLINE
+int
+ptw32_robust_mutex_settle(pthread_mutex_t* mutex, int result)
+{
+  pthread_mutex_t mx = *mutex;
+
+  if (EOWNERDEAD == result)
+    {
+      /*
+       * Other threads may be waiting, but the lock word we inherit need
+       * not say so. Make sure that our unlock wakes one of them.
+       */
+      (void) PTW32_INTERLOCKED_EXCHANGE_LONG(
+               (PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+               (PTW32_INTERLOCKED_LONG)-1);
+    }
+  else if (0 == result
+           && (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
+                       PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+                         (PTW32_INTERLOCKED_LONGPTR)&mx->robustNode->stateInconsistent,
+                         (PTW32_INTERLOCKED_LONG)0))
+    {
+      /*
+       * The mutex became not recoverable after we had checked.
+       */
+      (void) PTW32_INTERLOCKED_EXCHANGE_LONG(
+               (PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+               (PTW32_INTERLOCKED_LONG)0);
+      result = ENOTRECOVERABLE;
+    }
+
+  if (ENOTRECOVERABLE == result)
+    {
+      /* Unblock the next thread */
+      SetEvent(mx->event);
+    }
+
+  return result;
+}
+
 /*
  * The next two internal support functions depend on being
  * called only by the thread that owns the robust mutex. This
diff --git a/pthread_mutex_lock.c b/pthread_mutex_lock.c
index 847477c..7176d57 100644
--- a/pthread_mutex_lock.c
+++ b/pthread_mutex_lock.c
@@ -196,6 +196,7 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                         }
                     }
                 }
+              result = ptw32_robust_mutex_settle(mutex, result);
               if (0 == result || EOWNERDEAD == result)
                 {
                   /*
@@ -212,12 +213,15 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                            (PTW32_INTERLOCKED_LONG) 1,
                            (PTW32_INTERLOCKED_LONG) 0) == 0)
                 {
-                  mx->recursive_count = 1;
-                  /*
-                   * Add mutex to the per-thread robust mutex currently-held list.
-                   * If the thread terminates, all mutexes in this list will be unlocked.
-                   */
-                  ptw32_robust_mutex_add(mutex, self);
+                  if (0 == (result = ptw32_robust_mutex_settle(mutex, 0)))
+                    {
+                      mx->recursive_count = 1;
+                      /*
+                       * Add mutex to the per-thread robust mutex currently-held list.
+                       * If the thread terminates, all mutexes in this list will be unlocked.
+                       */
+                      ptw32_robust_mutex_add(mutex, self);
+                    }
                 }
               else
                 {
@@ -256,6 +260,7 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                             }
                         }
 
+                      result = ptw32_robust_mutex_settle(mutex, result);
                       if (0 == result || EOWNERDEAD == result)
                         {
                           mx->recursive_count = 1;
diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index 36c1119..7a82f0b 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -256,6 +256,7 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
 
 	        }
 
+                  result = ptw32_robust_mutex_settle(mutex, result);
                   if (0 == result || EOWNERDEAD == result)
                     {
                       /*
@@ -272,12 +273,15 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
 		           (PTW32_INTERLOCKED_LONG) 1,
 		           (PTW32_INTERLOCKED_LONG) 0))
 	        {
-	          mx->recursive_count = 1;
-                  /*
-                   * Add mutex to the per-thread robust mutex currently-held list.
-                   * If the thread terminates, all mutexes in this list will be unlocked.
-                   */
-                  ptw32_robust_mutex_add(mutex, self);
+                  if (0 == (result = ptw32_robust_mutex_settle(mutex, 0)))
+                    {
+                      mx->recursive_count = 1;
+                      /*
+                       * Add mutex to the per-thread robust mutex currently-held list.
+                       * If the thread terminates, all mutexes in this list will be unlocked.
+                       */
+                      ptw32_robust_mutex_add(mutex, self);
+                    }
 	        }
               else
 	        {
@@ -305,16 +309,8 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
 		            }
 		        }
 
-                      if ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
-                                  PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
-                                    (PTW32_INTERLOCKED_LONGPTR)statePtr,
-                                    (PTW32_INTERLOCKED_LONG)0))
-                        {
-                          /* Unblock the next thread */
-                          SetEvent(mx->event);
-                          result = ENOTRECOVERABLE;
-                        }
-                      else if (0 == result || EOWNERDEAD == result)
+                      result = ptw32_robust_mutex_settle(mutex, result);
+                      if (0 == result || EOWNERDEAD == result)
                         {
                           mx->recursive_count = 1;
                           /*
diff --git a/pthread_mutex_trylock.c b/pthread_mutex_trylock.c
index f994fae..f1dcaa7 100644
--- a/pthread_mutex_trylock.c
+++ b/pthread_mutex_trylock.c
@@ -130,11 +130,14 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
         	         (PTW32_INTERLOCKED_LONG) 1,
         	         (PTW32_INTERLOCKED_LONG) 0))
         {
-          if (kind != PTHREAD_MUTEX_NORMAL)
+          if (0 == (result = ptw32_robust_mutex_settle(mutex, 0)))
             {
-              mx->recursive_count = 1;
+              if (kind != PTHREAD_MUTEX_NORMAL)
+                {
+                  mx->recursive_count = 1;
+                }
+              ptw32_robust_mutex_add(mutex, self);
             }
-          ptw32_robust_mutex_add(mutex, self);
         }
       else
         {
@@ -147,6 +150,7 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
             {
               if (EOWNERDEAD == (result = ptw32_robust_mutex_inherit(mutex)))
                 {
+                  (void) ptw32_robust_mutex_settle(mutex, result);
                   mx->recursive_count = 1;
                   ptw32_robust_mutex_add(mutex, self);
                 }
-- 
2.43.0


From 976d40d4a8a9bcb283d3ac07ba6ee6a723e47969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 06/42] fix: a cancelled semaphore wait must not swallow or
 mislay a post

---
 sem_timedwait.c | 18 +++++++++++-------
 sem_wait.c      | 11 +++++------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/sem_timedwait.c b/sem_timedwait.c
index 5a7cbe2..c202708 100644
--- a/sem_timedwait.c
+++ b/sem_timedwait.c
@@ -68,15 +68,19 @@ ptw32_sem_timedwait_cleanup (void * args)
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
-   * We either timed out or were cancelled.
-   * If someone has posted between then and now we try to take the semaphore.
-   * Otherwise the semaphore count may be wrong after we
-   * return. In the case of a cancellation, it is as if we
-   * were cancelled just before we return (after taking the semaphore)
-   * which is ok.
+   * We either timed out (the result is set) or were cancelled.
+   * If someone has posted between then and now and we timed out we try
+   * to take the semaphore. If we were cancelled, a post that was made
+   * for us as well goes back into the value for somebody else, and
+   * otherwise any W32 sema counts belong to the remaining waiters.
    */
-  if (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
+  if ((*(a->resultPtr) != 0 || s->value >= 0)
+      && WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
     {
+      if (*(a->resultPtr) == 0)
+        {
+          s->value++;
+        }
       /* We got the semaphore on the second attempt */
       *(a->resultPtr) = 0;
     }
diff --git a/sem_wait.c b/sem_wait.c
index 1fd9259..8e34bd3 100644
--- a/sem_wait.c
+++ b/sem_wait.c
@@ -61,13 +61,12 @@ ptw32_sem_wait_cleanup(void * sem)
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
-   * If sema is destroyed do nothing, otherwise:-
-   * If the sema is posted between us being canceled and us locking
-   * the sema again above then we need to consume that post but cancel
-   * anyway. If we don't get the semaphore we indicate that we're no
-   * longer waiting.
+   * Indicate that we're no longer waiting. If the sema has been posted
+   * for every waiter, i.e. also for us, before we could lock it again
+   * above, then that post goes back into the value for somebody else.
+   * Otherwise any W32 sema counts belong to the remaining waiters.
    */
-  if (*((sem_t *)sem) != NULL && !(WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0))
+  if (s->value < 0 || WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
     {
       ++s->value;
 #if defined(NEED_SEM)
-- 
2.43.0


From a72d83a0492fd187ecda7e7581b2881b5ec27ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 07/42] fix: sem_destroy must not fail while a thread is just
 leaving sem_post

The thread released by sem_post may destroy the semaphore at once; it got
a transient EBUSY. pthread_cond_destroy after a broadcast then reported
EBUSY although the condition variable was gone already.
---
 sem_destroy.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/sem_destroy.c b/sem_destroy.c
index 99d0b35..48a7dd2 100644
--- a/sem_destroy.c
+++ b/sem_destroy.c
@@ -91,26 +91,28 @@ sem_destroy (sem_t * sem)
       ptw32_mcs_local_node_t node;
       s = *sem;
 
-      if ((result = ptw32_mcs_lock_try_acquire(&s->lock, &node)) == 0)
+      /*
+       * Wait for a thread that is just leaving sem_post() etc. as the one
+       * it has released may be destroying the semaphore already.
+       */
+      ptw32_mcs_lock_acquire(&s->lock, &node);
+      if (s->value < 0)
         {
-          if (s->value < 0)
-            {
-              result = EBUSY;
-            }
-          else
+          result = EBUSY;
+        }
+      else
+        {
+          /*
+           * There are no threads currently blocked on this semaphore
+           * however there could be threads about to wait behind us.
+           * It is up to the application to ensure this is not the case.
+           */
+          if (!CloseHandle (s->sem))
             {
-              /*
-               * There are no threads currently blocked on this semaphore
-               * however there could be threads about to wait behind us.
-               * It is up to the application to ensure this is not the case.
-               */
-              if (!CloseHandle (s->sem))
-                {
-                  result = EINVAL;
-                }
+              result = EINVAL;
             }
-          ptw32_mcs_lock_release(&node);
         }
+      ptw32_mcs_lock_release(&node);
     }
 
   if (result != 0)
-- 
2.43.0


From 7b0817dc9842e43983dd6a7a2c8478843cb4189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 08/42] fix: a timed out or cancelled condition wait must not
 give away another waiter's signal

---
 pthread_cond_wait.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pthread_cond_wait.c b/pthread_cond_wait.c
index 926ca7a..6cbd0d3 100644
--- a/pthread_cond_wait.c
+++ b/pthread_cond_wait.c
@@ -274,6 +274,7 @@ typedef struct
   pthread_mutex_t *mutexPtr;
   pthread_cond_t cv;
   int *resultPtr;
+  int unblocked;		/* got a count of semBlockQueue */
 } ptw32_cond_wait_cleanup_args_t;
 
 static void PTW32_CDECL
@@ -300,7 +301,20 @@ ptw32_cond_wait_cleanup (void *args)
 
   if (0 != (nSignalsWasLeft = cv->nWaitersToUnblock))
     {
-      --(cv->nWaitersToUnblock);
+      if (!cleanup_args->unblocked && cv->nWaitersBlocked > 0)
+	{
+	  /*
+	   * Timed out or canceled, while there are waiters that have not been
+	   * signaled: leave as one of those. The outstanding signals, and the
+	   * closed gate, belong to the waiters that stay.
+	   */
+	  --(cv->nWaitersBlocked);
+	  nSignalsWasLeft = 0;
+	}
+      else
+	{
+	  --(cv->nWaitersToUnblock);
+	}
     }
   else if (INT_MAX / 2 == ++(cv->nWaitersGone))
     {
@@ -404,6 +418,7 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
   cleanup_args.mutexPtr = mutex;
   cleanup_args.cv = cv;
   cleanup_args.resultPtr = &result;
+  cleanup_args.unblocked = PTW32_FALSE;
 
 #if defined(PTW32_CONFIG_MSVC7)
 #pragma inline_depth(0)
@@ -436,6 +451,10 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
 	{
 	  result = PTW32_GET_ERRNO();
 	}
+      else
+	{
+	  cleanup_args.unblocked = PTW32_TRUE;
+	}
     }
 
   /*
-- 
2.43.0


From 6d2cfb8ebc88e4ce9352d1221174d139fb9415ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:36 +0000
Subject: [PATCH 09/42] fix: a thread leaving a barrier must not touch it once
 another thread may destroy it

The barrier height was read after the thread had counted itself out; the
last thread out may have destroyed the barrier by then.
---
 pthread_barrier_wait.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pthread_barrier_wait.c b/pthread_barrier_wait.c
index e2b313f..39fa398 100644
--- a/pthread_barrier_wait.c
+++ b/pthread_barrier_wait.c
@@ -50,6 +50,7 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
 {
   int result;
   pthread_barrier_t b;
+  unsigned int height;
 
   ptw32_mcs_local_node_t node;
 
@@ -61,6 +62,11 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
   ptw32_mcs_lock_acquire(&(*barrier)->lock, &node);
 
   b = *barrier;
+  /*
+   * Once we have counted ourselves out below, another thread may
+   * destroy the barrier, so remember what we need to compare with.
+   */
+  height = b->nInitialBarrierHeight;
   if (--b->nCurrentBarrierHeight == 0)
     {
       /*
@@ -95,7 +101,7 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
     }
 
   if ((PTW32_INTERLOCKED_LONG)PTW32_INTERLOCKED_INCREMENT_LONG((PTW32_INTERLOCKED_LONGPTR)&b->nCurrentBarrierHeight)
-		  == (PTW32_INTERLOCKED_LONG)b->nInitialBarrierHeight)
+		  == (PTW32_INTERLOCKED_LONG)height)
     {
       /*
        * We are the last thread to cross this barrier
-- 
2.43.0


From ea9c7130482170357683011452c57a7d7e3db131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 10/42] fix: pthread_rwlock_destroy must report a write-locked
 rwlock as busy instead of blocking

The writer itself deadlocked in it; another thread destroyed the rwlock as
soon as the writer let go.
---
 pthread_rwlock_destroy.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pthread_rwlock_destroy.c b/pthread_rwlock_destroy.c
index 3288d20..d2802da 100644
--- a/pthread_rwlock_destroy.c
+++ b/pthread_rwlock_destroy.c
@@ -66,13 +66,18 @@ pthread_rwlock_destroy (pthread_rwlock_t * rwlock)
 	  return EINVAL;
 	}
 
-      if ((result = pthread_mutex_lock (&(rwl->mtxExclusiveAccess))) != 0)
+      /*
+       * A writer, or a thread waiting to become one, holds these for as
+       * long as it uses the rwlock, so report "BUSY" instead of waiting
+       * (for ever, if we are the writer).
+       */
+      if ((result = pthread_mutex_trylock (&(rwl->mtxExclusiveAccess))) != 0)
 	{
 	  return result;
 	}
 
       if ((result =
-	   pthread_mutex_lock (&(rwl->mtxSharedAccessCompleted))) != 0)
+	   pthread_mutex_trylock (&(rwl->mtxSharedAccessCompleted))) != 0)
 	{
 	  (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
 	  return result;
-- 
2.43.0


From 3e333b53ea0f2af9d8906cd47a85250236ca6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 11/42] fix: pthread_spin_destroy must report a held spin lock
 as busy on multiprocessors

It reported EINVAL there, and EBUSY only on a single processor; EBUSY is
what the manual documents.
---
 pthread_spin_destroy.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pthread_spin_destroy.c b/pthread_spin_destroy.c
index 30a7bac..f30361b 100644
--- a/pthread_spin_destroy.c
+++ b/pthread_spin_destroy.c
@@ -62,12 +62,22 @@ pthread_spin_destroy (pthread_spinlock_t * lock)
 	{
 	  result = pthread_mutex_destroy (&(s->u.mutex));
 	}
-      else if ((PTW32_INTERLOCKED_LONG) PTW32_SPIN_UNLOCKED !=
-	       PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR) &s->interlock,
+      else
+	{
+	  switch ((long)
+		  PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR) &s->interlock,
 						   (PTW32_INTERLOCKED_LONG) PTW32_SPIN_INVALID,
 						   (PTW32_INTERLOCKED_LONG) PTW32_SPIN_UNLOCKED))
-	{
-	  result = EINVAL;
+	    {
+	    case PTW32_SPIN_UNLOCKED:
+	      break;
+	    case PTW32_SPIN_LOCKED:
+	      result = EBUSY;
+	      break;
+	    default:
+	      result = EINVAL;
+	      break;
+	    }
 	}
 
       if (0 == result)
-- 
2.43.0


From fd12a7c011022cc7a83ddd2b9d3e7bcb08e45be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 12/42] fix: detaching a thread that is just ending must not
 release its storage a second time

---
 pthread_detach.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pthread_detach.c b/pthread_detach.c
index df19c64..17b3733 100644
--- a/pthread_detach.c
+++ b/pthread_detach.c
@@ -110,11 +110,11 @@ pthread_detach (pthread_t thread)
       ptw32_mcs_lock_acquire (&tp->stateLock, &stateLock);
       if (tp->state < PThreadStateLast)
         {
+          /*
+           * The thread has not passed its final state change yet, it
+           * will release its own storage.
+           */
           tp->detachState = PTHREAD_CREATE_DETACHED;
-          if (tp->state == PThreadStateExiting)
-          {
-            destroyIt = PTW32_TRUE;
-          }
         }
       else if (tp->detachState != PTHREAD_CREATE_DETACHED)
         {
-- 
2.43.0


From 7cbd9e6bde2f4a1f25c32e2fd3bf9b6f3f5cce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 13/42] fix: pthread_cancel and pthread_kill must not use,
 interrupt or leak a thread that is ending or queued on a library lock

---
 implement.h      |  2 ++
 pthread_cancel.c | 94 +++++++++++++++++++++++++++++++++++++++---------
 pthread_kill.c   | 62 +++++++++++++++++++++++++-------
 3 files changed, 129 insertions(+), 29 deletions(-)

diff --git a/implement.h b/implement.h
index d839a4e..93da89a 100644
--- a/implement.h
+++ b/implement.h
@@ -727,6 +727,8 @@ PTW32_BEGIN_C_DECLS
 
   void ptw32_threadDestroy (pthread_t tid);
 
+  int ptw32_suspend (ptw32_thread_t * tp, ptw32_mcs_local_node_t * reuseLock, ptw32_mcs_local_node_t * stateLock);
+
   void ptw32_pop_cleanup_all (int execute);
 
   pthread_t ptw32_new (void);
diff --git a/pthread_cancel.c b/pthread_cancel.c
index 0e1a5cc..e4b97da 100644
--- a/pthread_cancel.c
+++ b/pthread_cancel.c
@@ -82,6 +82,54 @@ ptw32_RegisterCancellation (PAPCFUNC unused1, HANDLE threadH, DWORD unused2)
   return 0;
 }
 
+/*
+ * Suspend a thread that is about to be redirected or terminated.
+ * The caller holds ptw32_thread_reuse_lock and the thread's stateLock, so
+ * the thread can't hold either of them, but it may be queued behind the
+ * caller for one of them. Interrupting it there would leave a dead node in
+ * the queue. In that case the thread is left running and false returned
+ * after letting the queues drain: the caller still holds the reuse lock, but
+ * not the stateLock, and has to validate the thread again.
+ */
+int
+ptw32_suspend (ptw32_thread_t * tp,
+	       ptw32_mcs_local_node_t * reuseLock,
+	       ptw32_mcs_local_node_t * stateLock)
+{
+  HANDLE threadH = tp->threadH;
+
+  if ((DWORD) -1 != SuspendThread (threadH))
+    {
+#ifndef ENABLE_WINRT
+      CONTEXT context;
+
+      /* The suspension is not complete before the context can be read. */
+      context.ContextFlags = CONTEXT_CONTROL;
+      GetThreadContext (threadH, &context);
+#endif
+      if (PTW32_INTERLOCKED_EXCHANGE_ADD_SIZE((PTW32_INTERLOCKED_SIZEPTR)&ptw32_thread_reuse_lock, (PTW32_INTERLOCKED_SIZE)0)
+	    != (PTW32_INTERLOCKED_SIZE)reuseLock
+	  || PTW32_INTERLOCKED_EXCHANGE_ADD_SIZE((PTW32_INTERLOCKED_SIZEPTR)&tp->stateLock, (PTW32_INTERLOCKED_SIZE)0)
+	    != (PTW32_INTERLOCKED_SIZE)stateLock)
+	{
+	  ResumeThread (threadH);
+	  ptw32_mcs_lock_release (stateLock);
+	  ptw32_mcs_lock_release (reuseLock);
+
+	  /* Don't queue up, or two threads doing this to each other never get on. */
+	  do
+	    {
+	      Sleep (0);
+	    }
+	  while (0 != ptw32_mcs_lock_try_acquire (&ptw32_thread_reuse_lock, reuseLock));
+
+	  return PTW32_FALSE;
+	}
+    }
+
+  return PTW32_TRUE;
+}
+
 int
 pthread_cancel (pthread_t thread)
      /*
@@ -106,23 +154,13 @@ pthread_cancel (pthread_t thread)
       * ------------------------------------------------------
       */
 {
-  int result;
+  int result = 0;
   int cancel_self;
   pthread_t self;
   ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t reuseLock;
   ptw32_mcs_local_node_t stateLock;
 
-  /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
-   */
-  result = pthread_kill (thread, 0);
-  if (0 != result)
-    {
-      return result;
-    }
-
   if ((self = pthread_self ()).p == NULL)
     {
       return ENOMEM;
@@ -136,8 +174,23 @@ pthread_cancel (pthread_t thread)
    */
   cancel_self = pthread_equal (thread, self);
 
+  /*
+   * Validate the thread id, and keep the thread's storage from being
+   * released and recycled while it is being used.
+   */
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
+ retry:
   tp = (ptw32_thread_t *) thread.p;
 
+  if (NULL == tp
+      || thread.x != tp->ptHandle.x
+      || NULL == tp->threadH)
+    {
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
+    }
+
   /*
    * Lock for async-cancel safety.
    */
@@ -153,6 +206,7 @@ pthread_cancel (pthread_t thread)
 	  tp->cancelState = PTHREAD_CANCEL_DISABLE;
 
 	  ptw32_mcs_lock_release (&stateLock);
+	  ptw32_mcs_lock_release (&reuseLock);
 	  ptw32_throw (PTW32_EPS_CANCEL);
 
 	  /* Never reached */
@@ -161,7 +215,10 @@ pthread_cancel (pthread_t thread)
 	{
 	  HANDLE threadH = tp->threadH;
 
-	  SuspendThread (threadH);
+	  if (!ptw32_suspend (tp, &reuseLock, &stateLock))
+	    {
+	      goto retry;
+	    }
 
 	  if (WaitForSingleObject (threadH, 0) == WAIT_TIMEOUT)
 	    {
@@ -174,9 +231,13 @@ pthread_cancel (pthread_t thread)
 	       * the threadH arg will be used.
 	       */
 	      ptw32_register_cancellation ((PAPCFUNC)ptw32_cancel_callback, threadH, 0);
-	      ptw32_mcs_lock_release (&stateLock);
 	      ResumeThread (threadH);
 	    }
+	  else
+	    {
+	      /* The thread has already ended. */
+	      result = ESRCH;
+	    }
 	}
     }
   else
@@ -196,9 +257,10 @@ pthread_cancel (pthread_t thread)
 	{
 	  result = ESRCH;
 	}
-
-      ptw32_mcs_lock_release (&stateLock);
     }
 
+  ptw32_mcs_lock_release (&stateLock);
+  ptw32_mcs_lock_release (&reuseLock);
+
   return (result);
 }
diff --git a/pthread_kill.c b/pthread_kill.c
index fd713d2..7d39b01 100644
--- a/pthread_kill.c
+++ b/pthread_kill.c
@@ -83,6 +83,7 @@ pthread_kill (pthread_t thread, int sig)
       */
 {
   int result = 0;
+  BOOL destroyIt = PTW32_FALSE;
   ptw32_thread_t * tp;
   ptw32_mcs_local_node_t node;
 
@@ -97,8 +98,10 @@ pthread_kill (pthread_t thread, int sig)
       result = ESRCH;
     }
 
-  ptw32_mcs_lock_release(&node);
-
+  /*
+   * The thread's storage must not be released and recycled while it is
+   * being used below, so keep the lock.
+   */
   if (0 == result && 0 != sig)
     {
       /*
@@ -133,31 +136,64 @@ pthread_kill (pthread_t thread, int sig)
           ptw32_mcs_lock_acquire(&tp->stateLock, &stateLock);
 
           // Only terminate the thread when it is still running:
-          if (tp->state < PThreadStateLast)
+          while (tp->state < PThreadStateLast)
           {
+              HANDLE threadH = tp->threadH;
+
+              if (tp->thread == GetCurrentThreadId())
+              {
+                  tp->state = PThreadStateLast;
+                  tp->cancelState = PTHREAD_CANCEL_DISABLE;
+                  if (tp->exitStatus == NULL)
+                      tp->exitStatus = PTHREAD_CANCELED;
+                  destroyIt = (tp->detachState == PTHREAD_CREATE_DETACHED);
+                  ptw32_mcs_lock_release(&stateLock);
+                  ptw32_mcs_lock_release(&node);
+                  if (destroyIt)
+                      ptw32_threadDestroy(thread);
+                  TerminateThread(GetCurrentThread(), (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
+                  /* Never reached */
+              }
+
+              if (!ptw32_suspend (tp, &node, &stateLock))
+              {
+                  if (thread.x != tp->ptHandle.x || NULL == tp->threadH)
+                  {
+                      /* It has ended and has been released meanwhile. */
+                      ptw32_mcs_lock_release(&node);
+                      return 0;
+                  }
+                  ptw32_mcs_lock_acquire(&tp->stateLock, &stateLock);
+                  continue;
+              }
+
               tp->state = PThreadStateLast;
               tp->cancelState = PTHREAD_CANCEL_DISABLE;
-              ptw32_mcs_lock_release(&stateLock);
-
-              result = TerminateThread(tp->threadH, (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
-              result = (result != 0) ? 0 : EINVAL;
+              destroyIt = (tp->detachState == PTHREAD_CREATE_DETACHED);
 
               // Set exit to CANCELED (KILLED) when it hasn't been set already.
+              // A thread joining it may read this as soon as it is terminated.
               if (tp->exitStatus == NULL)
                   tp->exitStatus = PTHREAD_CANCELED;
-          }
-          else
-          {
-              ptw32_mcs_lock_release(&stateLock);
 
-              // TODO: ? flag the call as not-necessary-any-more because thread has already terminated ?
-              result = 0;
+              result = TerminateThread(threadH, (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
+              result = (result != 0) ? 0 : EINVAL;
           }
+
+          ptw32_mcs_lock_release(&stateLock);
       }
           break;
       }
     }
 
+  ptw32_mcs_lock_release(&node);
+
+  if (destroyIt)
+    {
+      /* Nobody else will release a detached thread that has been terminated. */
+      ptw32_threadDestroy (thread);
+    }
+
   return result;
 
 }				/* pthread_kill */
-- 
2.43.0


From 96db375c99a26c60e0fb00746bda7afa77fb143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 14/42] fix: scheduling and naming calls must not act on
 recycled thread storage

---
 pthread_getname_np.c    | 26 ++++++++++++++----------
 pthread_getschedparam.c | 25 +++++++++++++++--------
 pthread_setname_np.c    | 45 ++++++++++++++++++++++++-----------------
 pthread_setschedparam.c | 34 +++++++++++++++++++++----------
 4 files changed, 82 insertions(+), 48 deletions(-)

diff --git a/pthread_getname_np.c b/pthread_getname_np.c
index d5efeb6..402a492 100644
--- a/pthread_getname_np.c
+++ b/pthread_getname_np.c
@@ -45,30 +45,34 @@ int
 pthread_getname_np(pthread_t thr, char *name, int len)
 {
   ptw32_mcs_local_node_t threadLock;
+  ptw32_mcs_local_node_t reuseLock;
   ptw32_thread_t * tp;
   char * s, * d;
-  int result;
 
   /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
+   * Validate the thread id, and keep the thread's storage from being
+   * released and recycled while it is being used.
    */
-  result = pthread_kill (thr, 0);
-  if (0 != result)
-    {
-      return result;
-    }
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
 
   tp = (ptw32_thread_t *) thr.p;
 
+  if (NULL == tp
+      || thr.x != tp->ptHandle.x
+      || NULL == tp->threadH)
+    {
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
+    }
+
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
-  for (s = tp->name, d = name; *s && d < &name[len - 1]; *d++ = *s++)
+  for (s = tp->name, d = name; s != NULL && *s && d < &name[len - 1]; *d++ = *s++)
     {}
 
   *d = '\0';
   ptw32_mcs_lock_release (&threadLock);
+  ptw32_mcs_lock_release (&reuseLock);
 
-  return result;
+  return 0;
 }
diff --git a/pthread_getschedparam.c b/pthread_getschedparam.c
index 24d97f2..494ffd4 100644
--- a/pthread_getschedparam.c
+++ b/pthread_getschedparam.c
@@ -49,21 +49,28 @@ int
 pthread_getschedparam (pthread_t thread, int *policy,
 		       struct sched_param *param)
 {
-  int result;
+  ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t reuseLock;
 
   /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
+   * Validate the thread id, and keep the thread's storage from being
+   * released and recycled while it is being used.
    */
-  result = pthread_kill (thread, 0);
-  if (0 != result)
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
+  tp = (ptw32_thread_t *) thread.p;
+
+  if (NULL == tp
+      || thread.x != tp->ptHandle.x
+      || NULL == tp->threadH)
     {
-      return result;
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
     }
 
   if (policy == NULL)
     {
+      ptw32_mcs_lock_release (&reuseLock);
       return EINVAL;
     }
 
@@ -76,7 +83,9 @@ pthread_getschedparam (pthread_t thread, int *policy,
    * for the target thread. It must not return the actual thread
    * priority as altered by any system priority adjustments etc.
    */
-  param->sched_priority = ((ptw32_thread_t *)thread.p)->sched_priority;
+  param->sched_priority = tp->sched_priority;
+
+  ptw32_mcs_lock_release (&reuseLock);
 
   return 0;
 }
diff --git a/pthread_setname_np.c b/pthread_setname_np.c
index 25a0339..a06d78f 100644
--- a/pthread_setname_np.c
+++ b/pthread_setname_np.c
@@ -80,8 +80,8 @@ int
 pthread_setname_np(pthread_t thr, const char *name, void *arg)
 {
   ptw32_mcs_local_node_t threadLock;
+  ptw32_mcs_local_node_t reuseLock;
   int len;
-  int result;
   char tmpbuf[PTHREAD_MAX_NAMELEN_NP];
   char * newname;
   char * oldname;
@@ -91,14 +91,19 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
 #endif
 
   /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
+   * Validate the thread id, and keep the thread's storage from being
+   * released and recycled while it is being used.
    */
-  result = pthread_kill (thr, 0);
-  if (0 != result)
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
+  tp = (ptw32_thread_t *) thr.p;
+
+  if (NULL == tp
+      || thr.x != tp->ptHandle.x
+      || NULL == tp->threadH)
     {
-      return result;
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
     }
 
   /*
@@ -114,6 +119,7 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
   tmpbuf[PTHREAD_MAX_NAMELEN_NP-1] = '\0';
   if (len < 0)
     {
+      ptw32_mcs_lock_release (&reuseLock);
       return EINVAL;
     }
 
@@ -127,8 +133,6 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 #endif
 
-  tp = (ptw32_thread_t *) thr.p;
-
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
   oldname = tp->name;
@@ -139,6 +143,7 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 
   ptw32_mcs_lock_release (&threadLock);
+  ptw32_mcs_lock_release (&reuseLock);
 
   return 0;
 }
@@ -147,7 +152,7 @@ int
 pthread_setname_np(pthread_t thr, const char *name)
 {
   ptw32_mcs_local_node_t threadLock;
-  int result;
+  ptw32_mcs_local_node_t reuseLock;
   char * newname;
   char * oldname;
   ptw32_thread_t * tp;
@@ -156,14 +161,19 @@ pthread_setname_np(pthread_t thr, const char *name)
 #endif
 
   /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
+   * Validate the thread id, and keep the thread's storage from being
+   * released and recycled while it is being used.
    */
-  result = pthread_kill (thr, 0);
-  if (0 != result)
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
+  tp = (ptw32_thread_t *) thr.p;
+
+  if (NULL == tp
+      || thr.x != tp->ptHandle.x
+      || NULL == tp->threadH)
     {
-      return result;
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
     }
 
   newname = ptw32_strdup(name);
@@ -177,8 +187,6 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 #endif
 
-  tp = (ptw32_thread_t *) thr.p;
-
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
   oldname = tp->name;
@@ -189,6 +197,7 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 
   ptw32_mcs_lock_release (&threadLock);
+  ptw32_mcs_lock_release (&reuseLock);
 
   return 0;
 }
diff --git a/pthread_setschedparam.c b/pthread_setschedparam.c
index 808ef5f..df846a3 100644
--- a/pthread_setschedparam.c
+++ b/pthread_setschedparam.c
@@ -50,31 +50,43 @@ pthread_setschedparam (pthread_t thread, int policy,
 		       const struct sched_param *param)
 {
   int result;
+  ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t reuseLock;
 
   /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
+   * Validate the thread id, and keep the thread's storage from being
+   * released and recycled while it is being used.
    */
-  result = pthread_kill (thread, 0);
-  if (0 != result)
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
+  tp = (ptw32_thread_t *) thread.p;
+
+  if (NULL == tp
+      || thread.x != tp->ptHandle.x
+      || NULL == tp->threadH)
     {
-      return result;
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
     }
 
   /* Validate the scheduling policy. */
   if (policy < SCHED_MIN || policy > SCHED_MAX)
     {
-      return EINVAL;
+      result = EINVAL;
     }
-
   /* Ensure the policy is SCHED_OTHER. */
-  if (policy != SCHED_OTHER)
+  else if (policy != SCHED_OTHER)
     {
-      return ENOTSUP;
+      result = ENOTSUP;
+    }
+  else
+    {
+      result = ptw32_setthreadpriority (thread, policy, param->sched_priority);
     }
 
-  return (ptw32_setthreadpriority (thread, policy, param->sched_priority));
+  ptw32_mcs_lock_release (&reuseLock);
+
+  return result;
 }
 
 
-- 
2.43.0


From 26a7af5196741f179621a451ff13712e34a0f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 15/42] fix: a thread that is exiting must not be cancelled
 again in its cleanup handlers and destructors

---
 ptw32_threadStart.c | 22 +++++++++++++++++++---
 ptw32_throw.c       | 13 +++++++++++--
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index 45aadbf..92dacd1 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -108,6 +108,22 @@ using
 
 #endif /* PTW32_CLEANUP_CXX */
 
+/*
+ * The start routine has returned. The thread must not be cancelled any
+ * more, least of all asynchronously, while it is winding up.
+ */
+static void
+ptw32_threadExiting (ptw32_thread_t * sp)
+{
+  ptw32_mcs_local_node_t stateLock;
+
+  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  sp->state = PThreadStateExiting;
+  sp->cancelState = PTHREAD_CANCEL_DISABLE;
+  ResetEvent (sp->cancelEvent);
+  ptw32_mcs_lock_release (&stateLock);
+}
+
 /*
  * MSVC6 does not optimize ptw32_threadStart() safely
  * (i.e. tests/context1.c fails with "abnormal program
@@ -180,7 +196,7 @@ ptw32_threadStart (void *vthreadParms)
            * Run the caller's routine;
            */
           status = sp->exitStatus = (*start) (arg);
-          sp->state = PThreadStateExiting;
+          ptw32_threadExiting (sp);
 
 #if defined(_UWIN)
           if (--pthread_count <= 0)
@@ -231,7 +247,7 @@ ptw32_threadStart (void *vthreadParms)
        * Run the caller's routine;
        */
       status = sp->exitStatus = (*start) (arg);
-      sp->state = PThreadStateExiting;
+      ptw32_threadExiting (sp);
     }
   else
     {
@@ -256,7 +272,7 @@ ptw32_threadStart (void *vthreadParms)
   try
   {
     status = sp->exitStatus = (*start) (arg);
-    sp->state = PThreadStateExiting;
+    ptw32_threadExiting (sp);
   }
   catch (ptw32_exception_cancel &)
   {
diff --git a/ptw32_throw.c b/ptw32_throw.c
index 2ae0339..3d1b7f3 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -80,8 +80,17 @@ ptw32_throw (DWORD exception)
 #if defined(PTW32_CLEANUP_SEH)
   ULONG_PTR exceptionInformation[3];
 #endif
-  if( sp )
-    sp->state = PThreadStateExiting;
+  if (sp != NULL)
+    {
+      ptw32_mcs_local_node_t stateLock;
+
+      /* From here on the thread can't be cancelled any more. */
+      ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+      sp->state = PThreadStateExiting;
+      sp->cancelState = PTHREAD_CANCEL_DISABLE;
+      ResetEvent (sp->cancelEvent);
+      ptw32_mcs_lock_release (&stateLock);
+    }
 
   if (exception != PTW32_EPS_CANCEL && exception != PTW32_EPS_EXIT)
     {
-- 
2.43.0


From b0b1951faebf563f0399d0251e6b93d92a15e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 16/42] fix: a cancellation request that overtakes the start of
 the thread must stay pending

---
 ptw32_threadStart.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index 92dacd1..d4637cd 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -183,7 +183,11 @@ ptw32_threadStart (void *vthreadParms)
    * has the new handle.
    */
   ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
-  sp->state = PThreadStateRunning;
+  if (sp->state < PThreadStateCancelPending)
+    {
+      /* Don't lose a cancellation request that has overtaken the start. */
+      sp->state = PThreadStateRunning;
+    }
   ptw32_mcs_lock_release (&stateLock);
 
 #if defined(PTW32_CLEANUP_SEH)
-- 
2.43.0


From 1713b381631c085e382df4797ef8ff801dee3415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 17/42] fix: thread sequence numbers must be unique

---
 ptw32_new.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptw32_new.c b/ptw32_new.c
index 1039c75..b0e8235 100644
--- a/ptw32_new.c
+++ b/ptw32_new.c
@@ -51,6 +51,7 @@ ptw32_new (void)
   pthread_t t;
   pthread_t nil = {NULL, 0};
   ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t node;
 
   /*
    * If there's a reusable pthread_t then use it.
@@ -77,7 +78,9 @@ ptw32_new (void)
     }
 
   /* Set default state. */
+  ptw32_mcs_lock_acquire(&ptw32_thread_reuse_lock, &node);
   tp->seqNumber = ++ptw32_threadSeqNumber;
+  ptw32_mcs_lock_release(&node);
   tp->sched_priority = THREAD_PRIORITY_NORMAL;
   tp->detachState = PTHREAD_CREATE_JOINABLE;
   tp->cancelState = PTHREAD_CANCEL_ENABLE;
-- 
2.43.0


From 3efc1989663aae5887f55467f2ecff9dc607fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 18/42] fix: a thread's name must be released together with the
 thread

---
 ptw32_reuse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ptw32_reuse.c b/ptw32_reuse.c
index 5a2bbd3..d5fbfd3 100644
--- a/ptw32_reuse.c
+++ b/ptw32_reuse.c
@@ -128,6 +128,7 @@ ptw32_threadReusePush (pthread_t thread)
   ptw32_mcs_lock_acquire(&ptw32_thread_reuse_lock, &node);
 
   t = tp->ptHandle;
+  free(tp->name);
   memset(tp, 0, sizeof(ptw32_thread_t));
 
   /* Must restore the original POSIX handle that we just wiped. */
-- 
2.43.0


From 7dd575f7f8af6947f9a2081c49ebc2ac60c9fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 19/42] fix: joining is a cancellation point even when the
 target has ended

---
 pthread_join.c         | 1 +
 pthread_timedjoin_np.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pthread_join.c b/pthread_join.c
index 7a2fdfa..5426351 100644
--- a/pthread_join.c
+++ b/pthread_join.c
@@ -136,6 +136,7 @@ pthread_join (pthread_t thread, void **value_ptr)
 	   * pthreadCancelableWait will not return if we
 	   * are canceled.
 	   */
+	  pthread_testcancel ();
 	  result = pthreadCancelableWait (tp->threadH);
 
 	  if (0 == result)
diff --git a/pthread_timedjoin_np.c b/pthread_timedjoin_np.c
index 8d6fb7e..78a43c7 100755
--- a/pthread_timedjoin_np.c
+++ b/pthread_timedjoin_np.c
@@ -162,6 +162,7 @@ pthread_timedjoin_np (pthread_t thread, void **value_ptr, const struct timespec
            * pthreadCancelableTimedWait will not return if we
            * are canceled.
            */
+          pthread_testcancel ();
           result = pthreadCancelableTimedWait (tp->threadH, milliseconds);
 
           if (0 == result)
-- 
2.43.0


From d4988a5ca0961586ed127d5c9c3e45d746241770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 20/42] fix: deadlines must not be rounded down, nor wrap for
 clock values after 2038 or unrepresentable seconds

---
 ptw32_relmillisecs.c | 31 ++++++++++++++++++++-----------
 ptw32_timespec.c     |  2 +-
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/ptw32_relmillisecs.c b/ptw32_relmillisecs.c
index 7123d7d..9f70043 100644
--- a/ptw32_relmillisecs.c
+++ b/ptw32_relmillisecs.c
@@ -47,6 +47,7 @@
 static const int64_t NANOSEC_PER_SEC = 1000000000;
 static const int64_t NANOSEC_PER_MILLISEC = 1000000;
 static const int64_t MILLISEC_PER_SEC = 1000;
+static const int64_t MAX_SEC = 9000000000; /* fits an int64_t in nanoseconds */
 
 #if defined(PTW32_BUILD_INLINED)
 INLINE 
@@ -76,7 +77,19 @@ ptw32_relmillisecs (const struct timespec * abstime)
    *
    * Assume all integers are unsigned, i.e. cannot test if less than 0.
    */
-  tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
+  if ((int64_t)abstime->tv_sec > MAX_SEC)
+    {
+      /* Not representable in nanoseconds: as far ahead as possible */
+      tmpAbsNanoseconds = MAX_SEC * NANOSEC_PER_SEC;
+    }
+  else if ((int64_t)abstime->tv_sec < -3)
+    {
+      tmpAbsNanoseconds = 0;
+    }
+  else
+    {
+      tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
+    }
 
   /* get current system time */
 
@@ -95,14 +108,18 @@ ptw32_relmillisecs (const struct timespec * abstime)
     {
       int64_t deltaNanoseconds = tmpAbsNanoseconds - tmpCurrNanoseconds;
 
-      if (deltaNanoseconds >= ((int64_t)INFINITE * NANOSEC_PER_MILLISEC))
+      if (deltaNanoseconds >= ((int64_t)(INFINITE - 1) * NANOSEC_PER_MILLISEC))
          {
            /* Timeouts must be finite */
            milliseconds = INFINITE - 1;
          }
        else
          {
-           milliseconds = (DWORD)(deltaNanoseconds / NANOSEC_PER_MILLISEC);
+           /*
+            * Round up: the wait must not end before abstime, and must
+            * not be empty if abstime is in the future.
+            */
+           milliseconds = (DWORD)((deltaNanoseconds + NANOSEC_PER_MILLISEC - 1) / NANOSEC_PER_MILLISEC);
          }
     }
   else
@@ -111,14 +128,6 @@ ptw32_relmillisecs (const struct timespec * abstime)
       milliseconds = 0;
     }
 
-  if (milliseconds == 0 && tmpAbsNanoseconds > tmpCurrNanoseconds) {
-     /*
-      * millisecond granularity was too small to represent the wait time.
-      * return the minimum time in milliseconds.
-      */
-     milliseconds = 1;
- }
-
   return milliseconds;
 }
 
diff --git a/ptw32_timespec.c b/ptw32_timespec.c
index a1e3ac1..4119a0c 100644
--- a/ptw32_timespec.c
+++ b/ptw32_timespec.c
@@ -78,7 +78,7 @@ ptw32_filetime_to_timespec (const FILETIME * ft, struct timespec *ts)
       */
 {
   ts->tv_sec =
-    (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
+    (time_t) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
   ts->tv_nsec =
     (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET -
 	    ((uint64_t) ts->tv_sec * (uint64_t) 10000000UL)) * 100);
-- 
2.43.0


From c38fff51853674d5ceda6ba70f5b94f790a92e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 21/42] fix: deadlines further ahead than the longest Windows
 wait must not time out early

---
 pthread_mutex_timedlock.c | 27 ++++++++++++++++-----------
 pthread_timedjoin_np.c    |  6 ++++++
 sem_timedwait.c           |  9 +++++++++
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index 7a82f0b..e11be19 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -79,19 +79,24 @@ ptw32_timed_eventwait (HANDLE event, const struct timespec *abstime)
     }
   else
     {
-      if (abstime == NULL)
+      do
 	{
-	  milliseconds = INFINITE;
-	}
-      else
-	{
-	  /* 
-	   * Calculate timeout as milliseconds from current system time. 
-	   */
-	  milliseconds = ptw32_relmillisecs (abstime);
-	}
+	  if (abstime == NULL)
+	    {
+	      milliseconds = INFINITE;
+	    }
+	  else
+	    {
+	      /* 
+	       * Calculate timeout as milliseconds from current system time. 
+	       */
+	      milliseconds = ptw32_relmillisecs (abstime);
+	    }
 
-      status = WaitForSingleObject (event, milliseconds);
+	  status = WaitForSingleObject (event, milliseconds);
+	}
+      /* abstime may be further ahead than the longest possible wait */
+      while (status == WAIT_TIMEOUT && milliseconds == INFINITE - 1);
 
       if (status != WAIT_OBJECT_0)
         {
diff --git a/pthread_timedjoin_np.c b/pthread_timedjoin_np.c
index 78a43c7..58b10cb 100755
--- a/pthread_timedjoin_np.c
+++ b/pthread_timedjoin_np.c
@@ -164,6 +164,12 @@ pthread_timedjoin_np (pthread_t thread, void **value_ptr, const struct timespec
            */
           pthread_testcancel ();
           result = pthreadCancelableTimedWait (tp->threadH, milliseconds);
+          while (ETIMEDOUT == result && INFINITE - 1 == milliseconds)
+            {
+              /* abstime is further ahead than the longest possible wait */
+              milliseconds = ptw32_relmillisecs (abstime);
+              result = pthreadCancelableTimedWait (tp->threadH, milliseconds);
+            }
 
           if (0 == result)
             {
diff --git a/sem_timedwait.c b/sem_timedwait.c
index c202708..35a2018 100644
--- a/sem_timedwait.c
+++ b/sem_timedwait.c
@@ -196,6 +196,15 @@ sem_timedwait (sem_t * sem, const struct timespec *abstime)
       timedout =
 #endif
           result = pthreadCancelableTimedWait (s->sem, milliseconds);
+      while (result == ETIMEDOUT && milliseconds == INFINITE - 1)
+        {
+          /* abstime is further ahead than the longest possible wait */
+          milliseconds = ptw32_relmillisecs (abstime);
+#if defined(NEED_SEM)
+          timedout =
+#endif
+          result = pthreadCancelableTimedWait (s->sem, milliseconds);
+        }
       pthread_cleanup_pop(result);
 #if defined(PTW32_CONFIG_MSVC7)
 #pragma inline_depth()
-- 
2.43.0


From a39c6af831b4f7a7e7dcfbc88510fe5447d7b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 22/42] fix: pthread_delay_np must not wrap round and return
 early for long intervals

---
 pthread_delay_np.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/pthread_delay_np.c b/pthread_delay_np.c
index ac094d6..0dc7923 100644
--- a/pthread_delay_np.c
+++ b/pthread_delay_np.c
@@ -89,8 +89,7 @@ int
 pthread_delay_np (struct timespec *interval)
 {
   DWORD wait_time;
-  DWORD secs_in_millisecs;
-  DWORD millisecs;
+  int64_t wait_millisecs;
   DWORD status;
   pthread_t self;
   ptw32_thread_t * sp;
@@ -108,25 +107,21 @@ pthread_delay_np (struct timespec *interval)
       return (0);
     }
 
-  /* convert secs to millisecs */
-  secs_in_millisecs = (DWORD)interval->tv_sec * 1000L;
-
-  /* convert nanosecs to millisecs (rounding up) */
-  millisecs = (interval->tv_nsec + 999999L) / 1000000L;
+  /* the interval must not wrap round */
+  if (interval->tv_sec > INT_MAX / 1000 || interval->tv_sec < -(INT_MAX / 1000))
+    {
+      return EINVAL;
+    }
 
-#if defined(__WATCOMC__)
-#pragma disable_message (124)
-#endif
+  /* convert secs to millisecs, and nanosecs to millisecs (rounding up) */
+  wait_millisecs = (int64_t)interval->tv_sec * 1000 + ((int64_t)interval->tv_nsec + 999999) / 1000000;
 
-  wait_time = secs_in_millisecs + millisecs;
-  if (0 > (int)wait_time)
+  if (wait_millisecs < 0 || wait_millisecs > INT_MAX)
     {
       return EINVAL;
     }
 
-#if defined(__WATCOMC__)
-#pragma enable_message (124)
-#endif
+  wait_time = (DWORD)wait_millisecs;
 
   if (NULL == (self = pthread_self ()).p)
     {
-- 
2.43.0


From 9baed85ac617680ae61d8ee68735ce5839167d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 23/42] fix: a failed pthread_mutex_init must not write through
 the missing mutex

---
 pthread_mutex_init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pthread_mutex_init.c b/pthread_mutex_init.c
index 4fac214..8b4ce8d 100644
--- a/pthread_mutex_init.c
+++ b/pthread_mutex_init.c
@@ -139,7 +139,7 @@ pthread_mutex_init (pthread_mutex_t * mutex, const pthread_mutexattr_t * attr)
 	}
     }
 
-  if (0 != result)
+  if (0 != result && NULL != mx)
     {
       if (NULL != mx->robustNode)
 	{
-- 
2.43.0


From 6879a85e7bf605a2c53fca673dc7ce07a5af1481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 24/42] fix: a static initialiser must survive a failed first
 use

---
 ptw32_cond_check_need_init.c     | 12 +++++++++++-
 ptw32_mutex_check_need_init.c    | 15 ++++++++++++---
 ptw32_rwlock_check_need_init.c   | 12 +++++++++++-
 ptw32_spinlock_check_need_init.c | 12 +++++++++++-
 4 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/ptw32_cond_check_need_init.c b/ptw32_cond_check_need_init.c
index 616a891..dc3b9ad 100644
--- a/ptw32_cond_check_need_init.c
+++ b/ptw32_cond_check_need_init.c
@@ -67,7 +67,17 @@ ptw32_cond_check_need_init (pthread_cond_t * cond)
    */
   if (*cond == PTHREAD_COND_INITIALIZER)
     {
-      result = pthread_cond_init (cond, NULL);
+      /*
+       * Leave the static initialiser in place if this fails, so that the
+       * object can still come to life later.
+       */
+      pthread_cond_t newobj = *cond;
+
+      result = pthread_cond_init (&newobj, NULL);
+      if (result == 0)
+        {
+          *cond = newobj;
+        }
     }
   else if (*cond == NULL)
     {
diff --git a/ptw32_mutex_check_need_init.c b/ptw32_mutex_check_need_init.c
index 98744a5..e74c195 100644
--- a/ptw32_mutex_check_need_init.c
+++ b/ptw32_mutex_check_need_init.c
@@ -73,15 +73,15 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
 
   if (mtx == PTHREAD_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, NULL);
+      result = pthread_mutex_init (&mtx, NULL);
     }
   else if (mtx == PTHREAD_RECURSIVE_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_recursive_mutexattr);
+      result = pthread_mutex_init (&mtx, &ptw32_recursive_mutexattr);
     }
   else if (mtx == PTHREAD_ERRORCHECK_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_errorcheck_mutexattr);
+      result = pthread_mutex_init (&mtx, &ptw32_errorcheck_mutexattr);
     }
   else if (mtx == NULL)
     {
@@ -93,6 +93,15 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
       result = EINVAL;
     }
 
+  /*
+   * If the initialisation failed then leave the static initialiser in place,
+   * so that the mutex can still come to life later.
+   */
+  if (result == 0)
+    {
+      *mutex = mtx;
+    }
+
   ptw32_mcs_lock_release(&node);
 
   return (result);
diff --git a/ptw32_rwlock_check_need_init.c b/ptw32_rwlock_check_need_init.c
index 3d2c447..3926b53 100644
--- a/ptw32_rwlock_check_need_init.c
+++ b/ptw32_rwlock_check_need_init.c
@@ -66,7 +66,17 @@ ptw32_rwlock_check_need_init (pthread_rwlock_t * rwlock)
    */
   if (*rwlock == PTHREAD_RWLOCK_INITIALIZER)
     {
-      result = pthread_rwlock_init (rwlock, NULL);
+      /*
+       * Leave the static initialiser in place if this fails, so that the
+       * object can still come to life later.
+       */
+      pthread_rwlock_t newobj = *rwlock;
+
+      result = pthread_rwlock_init (&newobj, NULL);
+      if (result == 0)
+        {
+          *rwlock = newobj;
+        }
     }
   else if (*rwlock == NULL)
     {
diff --git a/ptw32_spinlock_check_need_init.c b/ptw32_spinlock_check_need_init.c
index 7a49b87..de7b5fa 100644
--- a/ptw32_spinlock_check_need_init.c
+++ b/ptw32_spinlock_check_need_init.c
@@ -67,7 +67,17 @@ ptw32_spinlock_check_need_init (pthread_spinlock_t * lock)
    */
   if (*lock == PTHREAD_SPINLOCK_INITIALIZER)
     {
-      result = pthread_spin_init (lock, PTHREAD_PROCESS_PRIVATE);
+      /*
+       * Leave the static initialiser in place if this fails, so that the
+       * object can still come to life later.
+       */
+      pthread_spinlock_t newobj = *lock;
+
+      result = pthread_spin_init (&newobj, PTHREAD_PROCESS_PRIVATE);
+      if (result == 0)
+        {
+          *lock = newobj;
+        }
     }
   else if (*lock == NULL)
     {
-- 
2.43.0


From ef9b7ed785f241a61bc5e7f00acb664731abfabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 25/42] fix: a failed pthread_spin_init must not destroy
 attributes it never made

---
 pthread_spin_init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pthread_spin_init.c b/pthread_spin_init.c
index 46dfc32..c46f88d 100644
--- a/pthread_spin_init.c
+++ b/pthread_spin_init.c
@@ -112,8 +112,8 @@ pthread_spin_init (pthread_spinlock_t * lock, int pshared)
 	    {
 	      s->interlock = PTW32_SPIN_USE_MUTEX;
 	    }
+	  (void) pthread_mutexattr_destroy (&ma);
 	}
-      (void) pthread_mutexattr_destroy (&ma);
     }
 
   if (0 == result)
-- 
2.43.0


From 0a0cde2c3fa191eb5e1eb17155bcb7d7451840a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 26/42] fix: pthread_self must not leak or crash when a
 thread's identity cannot be made

---
 pthread_self.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pthread_self.c b/pthread_self.c
index c758b7a..b2b8487 100644
--- a/pthread_self.c
+++ b/pthread_self.c
@@ -95,7 +95,11 @@ pthread_self (void)
       self = ptw32_new ();
       sp = (ptw32_thread_t *) self.p;
 
-      if (sp != NULL)
+      if (sp == NULL)
+        {
+    	  return nil;
+        }
+      else
         {
     	  /*
     	   * This is a non-POSIX thread which has chosen to call
@@ -162,18 +166,25 @@ pthread_self (void)
     	       * because the new handle is not yet public.
     	       */
     	      sp->sched_priority = GetThreadPriority (sp->threadH);
-    	      pthread_setspecific (ptw32_selfThreadKey, (void *) sp);
+    	      if (!fail && 0 != pthread_setspecific (ptw32_selfThreadKey, (void *) sp))
+    	        {
+    	          fail = PTW32_TRUE;
+    	        }
+    	    }
+    	  else
+    	    {
+    	      sp->threadH = 0;	// [i_a]
     	    }
         }
 
       if (fail)
         {
     	  /*
-    	   * Thread structs are never freed but are reused so if this
-    	   * continues to fail at least we don't leak memory.
+    	   * Release what has been created so far. Thread structs are never
+    	   * freed but are reused so if this continues to fail at least we
+    	   * don't leak memory.
     	   */
-		  sp->threadH = 0;	// [i_a]
-    	  ptw32_threadReusePush (self);
+    	  ptw32_threadDestroy (self);
     	  /*
     	   * As this is a win32 thread calling us and we have failed,
     	   * return a value that makes sense to win32.
-- 
2.43.0


From 5f10b5fa8db8e564b19696e9510b2af364bd8b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 27/42] fix: owner-tracking mutexes must not be locked by a
 thread without an identity

---
 pthread_mutex_lock.c      | 12 ++++++++++++
 pthread_mutex_timedlock.c | 12 ++++++++++++
 pthread_mutex_trylock.c   | 21 +++++++++++++++++----
 3 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/pthread_mutex_lock.c b/pthread_mutex_lock.c
index 7176d57..83dc334 100644
--- a/pthread_mutex_lock.c
+++ b/pthread_mutex_lock.c
@@ -104,6 +104,12 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
         {
           pthread_t self = pthread_self();
 
+          if (self.p == NULL)
+            {
+              /* The calling thread could not be given an identity. */
+              return ENOMEM;
+            }
+
           if ((PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
                        (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
 		       (PTW32_INTERLOCKED_LONG) 1,
@@ -166,6 +172,12 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
         {
           pthread_t self = pthread_self();
 
+          if (self.p == NULL)
+            {
+              /* The calling thread could not be given an identity. */
+              return ENOMEM;
+            }
+
           kind = -kind - 1; /* Convert to non-robust range */
     
           if (PTHREAD_MUTEX_NORMAL == kind)
diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index e11be19..f35ac7c 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -172,6 +172,12 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
         {
           pthread_t self = pthread_self();
 
+          if (self.p == NULL)
+            {
+              /* The calling thread could not be given an identity. */
+              return ENOMEM;
+            }
+
           if ((PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
                        (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
 		       (PTW32_INTERLOCKED_LONG) 1,
@@ -230,6 +236,12 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
         {
           pthread_t self = pthread_self();
 
+          if (self.p == NULL)
+            {
+              /* The calling thread could not be given an identity. */
+              return ENOMEM;
+            }
+
           kind = -kind - 1; /* Convert to non-robust range */
 
           if (PTHREAD_MUTEX_NORMAL == kind)
diff --git a/pthread_mutex_trylock.c b/pthread_mutex_trylock.c
index f1dcaa7..9ab5f6c 100644
--- a/pthread_mutex_trylock.c
+++ b/pthread_mutex_trylock.c
@@ -80,6 +80,14 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
   if (kind >= 0)
     {
       /* Non-robust */
+      pthread_t self = {NULL, 0};
+
+      if (kind != PTHREAD_MUTEX_NORMAL && (self = pthread_self ()).p == NULL)
+        {
+          /* The calling thread could not be given an identity. */
+          return ENOMEM;
+        }
+
       if (0 == (PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG (
 		         (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
 		         (PTW32_INTERLOCKED_LONG) 1,
@@ -88,13 +96,13 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
           if (kind != PTHREAD_MUTEX_NORMAL)
 	    {
 	      mx->recursive_count = 1;
-	      mx->ownerThread = pthread_self ();
+	      mx->ownerThread = self;
 	    }
         }
       else
         {
           if (kind == PTHREAD_MUTEX_RECURSIVE &&
-	      pthread_equal (mx->ownerThread, pthread_self ()))
+	      pthread_equal (mx->ownerThread, self))
 	    {
 	      mx->recursive_count++;
 	    }
@@ -122,7 +130,12 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
           return ENOTRECOVERABLE;
         }
 
-      self = pthread_self();
+      if ((self = pthread_self()).p == NULL)
+        {
+          /* The calling thread could not be given an identity. */
+          return ENOMEM;
+        }
+
       kind = -kind - 1; /* Convert to non-robust range */
 
       if (0 == (PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG (
@@ -142,7 +155,7 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
       else
         {
           if (PTHREAD_MUTEX_RECURSIVE == kind &&
-              pthread_equal (mx->ownerThread, pthread_self ()))
+              pthread_equal (mx->ownerThread, self))
             {
               mx->recursive_count++;
             }
-- 
2.43.0


From d82d6ec10b6a2debc35f18a9874c6f16c44e81dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 28/42] fix: cleanup handlers must not be lost when a thread's
 identity cannot be made

---
 pthread_setspecific.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pthread_setspecific.c b/pthread_setspecific.c
index cc0f64a..55e04c1 100644
--- a/pthread_setspecific.c
+++ b/pthread_setspecific.c
@@ -83,10 +83,14 @@ pthread_setspecific (pthread_key_t key, const void *value)
        * thread if one wasn't explicitly created
        */
       self = pthread_self ();
-      if (self.p == NULL)
+      if (self.p == NULL && key != ptw32_cleanupKey)
 	{
 	  return ENOENT;
 	}
+      /*
+       * A thread without an identity must still be able to
+       * establish and remove its cleanup handlers.
+       */
     }
   else
     {
-- 
2.43.0


From f5f7272a74a2293bafd297f8c126fd096268aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 29/42] fix: a queued library lock must still wait its turn
 when no event can be created

---
 ptw32_MCS_lock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ptw32_MCS_lock.c b/ptw32_MCS_lock.c
index dc13061..d69b765 100644
--- a/ptw32_MCS_lock.c
+++ b/ptw32_MCS_lock.c
@@ -159,6 +159,16 @@ ptw32_mcs_flag_wait (HANDLE * flag)
 
           CloseHandle(e);
       }
+      else
+      {
+          /* no event to wait on. poll the flag until it has been set. */
+          while ((PTW32_INTERLOCKED_SIZE)0 ==
+                   PTW32_INTERLOCKED_EXCHANGE_ADD_SIZE((PTW32_INTERLOCKED_SIZEPTR)flag,
+                                                       (PTW32_INTERLOCKED_SIZE)0))
+          {
+              sched_yield();
+          }
+      }
     }
 }
 
-- 
2.43.0


From a19a64bd6bc7c69c4d65016cbdcb47a5f2f86c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 30/42] fix: running out of memory for a thread name must be
 reported

---
 create.c                  |  7 +++++--
 pthread_attr_setname_np.c |  8 ++++++++
 pthread_setname_np.c      | 10 ++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/create.c b/create.c
index 1e15a90..cb3a7dc 100644
--- a/create.c
+++ b/create.c
@@ -168,8 +168,11 @@ pthread_create (pthread_t * tid,
       stackSize = (unsigned int)a->stacksize;
       tp->detachState = a->detachstate;
       priority = a->param.sched_priority;
-      if (a->thrname != NULL)
-        tp->name = ptw32_strdup(a->thrname);
+      if (a->thrname != NULL
+          && NULL == (tp->name = ptw32_strdup(a->thrname)))
+        {
+          goto FAIL0;
+        }
 
 #if (THREAD_PRIORITY_LOWEST > THREAD_PRIORITY_NORMAL)
       /* WinCE */
diff --git a/pthread_attr_setname_np.c b/pthread_attr_setname_np.c
index 2ab34de..7a80b13 100644
--- a/pthread_attr_setname_np.c
+++ b/pthread_attr_setname_np.c
@@ -70,6 +70,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
@@ -88,6 +92,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name)
   char * oldname;
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
diff --git a/pthread_setname_np.c b/pthread_setname_np.c
index a06d78f..ddb83c1 100644
--- a/pthread_setname_np.c
+++ b/pthread_setname_np.c
@@ -124,6 +124,11 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      ptw32_mcs_lock_release (&reuseLock);
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
@@ -177,6 +182,11 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      ptw32_mcs_lock_release (&reuseLock);
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
-- 
2.43.0


From 9945af78ea2d07c878176c28b357928ed658385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 31/42] fix: pthread_attr_destroy must release the name

---
 pthread_attr_destroy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pthread_attr_destroy.c b/pthread_attr_destroy.c
index e1a8b48..243f97a 100644
--- a/pthread_attr_destroy.c
+++ b/pthread_attr_destroy.c
@@ -79,6 +79,10 @@ pthread_attr_destroy (pthread_attr_t * attr)
    * Set the attribute object to a specific invalid value.
    */
   (*attr)->valid = 0;
+  if ((*attr)->thrname != NULL)
+    {
+      free ((*attr)->thrname);
+    }
   free (*attr);
   *attr = NULL;
 
-- 
2.43.0


From fa201f7db24658cb5165defb0abeaadf77b8dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 32/42] fix: failed library start-up must be undone and
 reported

---
 pthread_cond_init.c       | 5 ++++-
 ptw32_processInitialize.c | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pthread_cond_init.c b/pthread_cond_init.c
index 9cc9acf..cd27cf3 100644
--- a/pthread_cond_init.c
+++ b/pthread_cond_init.c
@@ -83,7 +83,10 @@ pthread_cond_init (pthread_cond_t * cond, const pthread_condattr_t * attr)
       return EINVAL;
     }
 
-  ptw32_processInitialize ();
+  if (!ptw32_processInitialize ())
+    {
+      return ENOMEM;
+    }
 
   if ((attr != NULL && *attr != NULL) &&
       ((*attr)->pshared == PTHREAD_PROCESS_SHARED))
diff --git a/ptw32_processInitialize.c b/ptw32_processInitialize.c
index b73206e..7788d6e 100644
--- a/ptw32_processInitialize.c
+++ b/ptw32_processInitialize.c
@@ -150,7 +150,12 @@ ptw32_processInitialize (void)
   if ((pthread_key_create (&ptw32_selfThreadKey, NULL) != 0) ||
       (pthread_key_create (&ptw32_cleanupKey, NULL) != 0))
     {
-      ptw32_processTerminate ();
+      if (ptw32_selfThreadKey != NULL)
+        {
+          pthread_key_delete (ptw32_selfThreadKey);
+          ptw32_selfThreadKey = NULL;
+        }
+      return PTW32_FALSE;
     }
   ptw32_processInitialized = PTW32_TRUE;
   return (ptw32_processInitialized);
-- 
2.43.0


From dffd222a52bb3d174fd3dbd00c5266fd4183fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 33/42] fix: pthread_attr_getname_np must return the name;
 thread naming attributes and scope must reject invalid objects

---
 pthread_attr_getname_np.c | 22 ++++++++++++----------
 pthread_attr_getscope.c   |  5 +++++
 pthread_attr_setname_np.c | 10 ++++++++++
 pthread_attr_setscope.c   |  5 +++++
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/pthread_attr_getname_np.c b/pthread_attr_getname_np.c
index b707410..92c2d86 100644
--- a/pthread_attr_getname_np.c
+++ b/pthread_attr_getname_np.c
@@ -45,16 +45,18 @@
 int
 pthread_attr_getname_np(pthread_attr_t * attr, char *name, int len)
 {
-  //strncpy_s(name, len - 1, (*attr)->thrname, len - 1);
-#if defined(_MSVCRT_)
-# pragma warning(suppress:4996)
-  strncpy(name, (*attr)->thrname, len - 1);
-  (*attr)->thrname[len - 1] = '\0';
-#else // _MSVCRT_
-  (void)attr;
-  (void)name;
-  (void)len;
-#endif // _MSVCRT_
+  const char * s;
+  char * d;
+
+  if (ptw32_is_attr (attr) != 0 || name == NULL || len <= 0)
+    {
+      return EINVAL;
+    }
+
+  for (s = (*attr)->thrname, d = name; s != NULL && *s && d < &name[len - 1]; *d++ = *s++)
+    {}
+
+  *d = '\0';
 
   return 0;
 }
diff --git a/pthread_attr_getscope.c b/pthread_attr_getscope.c
index 0136c4b..2c67ca6 100644
--- a/pthread_attr_getscope.c
+++ b/pthread_attr_getscope.c
@@ -53,6 +53,11 @@ int
 pthread_attr_getscope (const pthread_attr_t * attr, int *contentionscope)
 {
 #if defined(_POSIX_THREAD_PRIORITY_SCHEDULING)
+  if (ptw32_is_attr (attr) != 0 || contentionscope == NULL)
+    {
+      return EINVAL;
+    }
+
   *contentionscope = (*attr)->contentionscope;
   return 0;
 #else
diff --git a/pthread_attr_setname_np.c b/pthread_attr_setname_np.c
index 7a80b13..22a0d3b 100644
--- a/pthread_attr_setname_np.c
+++ b/pthread_attr_setname_np.c
@@ -53,6 +53,11 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
   char * newname;
   char * oldname;
 
+  if (ptw32_is_attr (attr) != 0 || name == NULL)
+    {
+      return EINVAL;
+    }
+
   /*
    * According to the MSDN description for snprintf()
    * where count is the second parameter:
@@ -91,6 +96,11 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name)
   char * newname;
   char * oldname;
 
+  if (ptw32_is_attr (attr) != 0 || name == NULL)
+    {
+      return EINVAL;
+    }
+
   newname = ptw32_strdup(name);
   if (newname == NULL)
     {
diff --git a/pthread_attr_setscope.c b/pthread_attr_setscope.c
index ddf8b11..554ba54 100644
--- a/pthread_attr_setscope.c
+++ b/pthread_attr_setscope.c
@@ -53,6 +53,11 @@ int
 pthread_attr_setscope (pthread_attr_t * attr, int contentionscope)
 {
 #if defined(_POSIX_THREAD_PRIORITY_SCHEDULING)
+  if (ptw32_is_attr (attr) != 0)
+    {
+      return EINVAL;
+    }
+
   switch (contentionscope)
     {
     case PTHREAD_SCOPE_SYSTEM:
-- 
2.43.0


From 3914cc479998997af1252a4a0bbeca6dcdc45bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 34/42] fix: pthread_rwlock_init must accept a default
 attributes object

---
 pthread_rwlock_init.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pthread_rwlock_init.c b/pthread_rwlock_init.c
index 6b12a34..0e46148 100644
--- a/pthread_rwlock_init.c
+++ b/pthread_rwlock_init.c
@@ -58,9 +58,10 @@ pthread_rwlock_init (pthread_rwlock_t * rwlock,
       return EINVAL;
     }
 
-  if (attr != NULL && *attr != NULL)
+  if (attr != NULL && *attr != NULL
+      && (*attr)->pshared == PTHREAD_PROCESS_SHARED)
     {
-      result = EINVAL;		/* Not supported */
+      result = ENOSYS;		/* Not supported */
       goto DONE;
     }
 
-- 
2.43.0


From 6fe43c88869f7197a771fc98ce852d714b6b15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 35/42] fix: affinities recorded for new and restricted threads
 must match what the system applied

---
 create.c              | 17 ++++++++++++++++-
 pthread_setaffinity.c | 12 ++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/create.c b/create.c
index cb3a7dc..d70a237 100644
--- a/create.c
+++ b/create.c
@@ -250,7 +250,22 @@ pthread_create (pthread_t * tid,
 
 #if defined(HAVE_CPU_AFFINITY)
 
-      SetThreadAffinityMask(tp->threadH, tp->cpuset);
+      {
+        DWORD_PTR vProcessMask, vSystemMask;
+
+        /*
+         * A thread can only run on the processors available to the process.
+         */
+        if (GetProcessAffinityMask(GetCurrentProcess(), &vProcessMask, &vSystemMask))
+          {
+            tp->cpuset &= vProcessMask;
+            if (0 == tp->cpuset)
+              {
+                tp->cpuset = vProcessMask;
+              }
+          }
+        SetThreadAffinityMask(tp->threadH, tp->cpuset);
+      }
 
 #endif
 
diff --git a/pthread_setaffinity.c b/pthread_setaffinity.c
index 7926b9e..08fe46d 100644
--- a/pthread_setaffinity.c
+++ b/pthread_setaffinity.c
@@ -227,6 +227,18 @@ pthread_getaffinity_np (pthread_t thread, size_t cpusetsize, cpu_set_t *cpuset)
 			   * affinity and try to do so in a reasonable way.
 			   */
 			  DWORD_PTR vThreadMask = SetThreadAffinityMask(tp->threadH, tp->cpuset);
+			  if (0 == vThreadMask)
+			    {
+				  /*
+				   * The recorded CPUs are no longer all available to the process.
+				   */
+				  DWORD_PTR vProcessMask, vSystemMask;
+
+				  if (GetProcessAffinityMask(GetCurrentProcess(), &vProcessMask, &vSystemMask))
+				    {
+					  vThreadMask = SetThreadAffinityMask(tp->threadH, vProcessMask);
+				    }
+			    }
 			  if (vThreadMask && vThreadMask != tp->cpuset)
 			    {
 				  (void) SetThreadAffinityMask(tp->threadH, vThreadMask);
-- 
2.43.0


From 04277d7c3f635ce9a43955fda5724216ddeceea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:53 +0000
Subject: [PATCH 36/42] fix: a Win32 thread that exits or is cancelled must run
 its cleanup handlers

---
 ptw32_throw.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ptw32_throw.c b/ptw32_throw.c
index 3d1b7f3..4541939 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -123,6 +123,12 @@ ptw32_throw (DWORD exception)
         }
 #endif
 
+#if defined(PTW32_CLEANUP_C)
+
+      ptw32_pop_cleanup_all (1);
+
+#endif
+
 #if defined(PTW32_STATIC_LIB)
 
       pthread_win32_thread_detach_np ();
-- 
2.43.0


From 746708b65faa14ea302a89536cc8092831b7d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 37/42] fix: a mutex must not be freed before the previous
 owner has left pthread_mutex_unlock

---
 implement.h                      |   4 ++
 pthread_mutex_destroy.c          |  10 +++
 pthread_mutex_unlock.c           | 101 +++++++++++++++----------------
 pthread_win32_attach_detach_np.c |   7 +++
 4 files changed, 70 insertions(+), 52 deletions(-)

diff --git a/implement.h b/implement.h
index 93da89a..5a67afc 100644
--- a/implement.h
+++ b/implement.h
@@ -326,6 +326,10 @@ struct pthread_mutex_t_
   pthread_t ownerThread;
   HANDLE event;			/* Mutex release notification to waiting
 				   threads. */
+  LONG releasing;		/* Number of threads that have released the
+				   lock, or are about to, and that still have
+				   to set the event. The mutex can't be freed
+				   before they have. */
   ptw32_robust_node_t*
                     robustNode; /* Extra state for robust mutexes  */
 };
diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index 3312bb8..0d1925d 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -88,6 +88,16 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
 
 	      if (0 == result)
 		{
+		  /*
+		   * The thread that had the lock before us may not have left
+		   * pthread_mutex_unlock() yet.
+		   */
+		  while (PTW32_INTERLOCKED_EXCHANGE_ADD_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->releasing,
+							      (PTW32_INTERLOCKED_LONG)0) != 0)
+		    {
+		      Sleep (0);
+		    }
+
                   if (mx->robustNode != NULL)
                     {
                       free(mx->robustNode);
diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 82bb914..77ed5b5 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -45,6 +45,50 @@
 #include "implement.h"
 
 
+/*
+ * Makes the lock word free. Returns 0, EPERM if it was free already, or
+ * EINVAL if the threads that may be waiting could not be notified.
+ *
+ * As soon as the lock word is free another thread can take the lock, give
+ * it back and destroy the mutex. Unless there is nothing left to do for us
+ * (the common case) we must tell that we aren't finished yet.
+ */
+static int
+ptw32_mutex_release (pthread_mutex_t mx)
+{
+  int result = 0;
+  LONG idx;
+
+  idx = (LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+							(PTW32_INTERLOCKED_LONG)0,
+							(PTW32_INTERLOCKED_LONG)1);
+
+  if (idx < 0)
+    {
+      (void) PTW32_INTERLOCKED_INCREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->releasing);
+
+      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+						  (PTW32_INTERLOCKED_LONG)0) < 0)
+	{
+	  /*
+	   * Someone may be waiting on that mutex.
+	   */
+	  if (SetEvent (mx->event) == 0)
+	    {
+	      result = EINVAL;
+	    }
+	}
+
+      (void) PTW32_INTERLOCKED_DECREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->releasing);
+    }
+  else if (0 == idx)
+    {
+      result = EPERM;
+    }
+
+  return result;
+}
+
 int PTW32_CDECL
 pthread_mutex_unlock (pthread_mutex_t * mutex)
 {
@@ -73,27 +117,8 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
         {
           if (kind == PTHREAD_MUTEX_NORMAL)
 	    {
-	      LONG idx;
-
-	      idx = (LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
-							    (PTW32_INTERLOCKED_LONG)0);
-	      if (idx != 0)
-	        {
-	          if (idx < 0)
-		    {
-		      /*
-		       * Someone may be waiting on that mutex.
-		       */
-		      if (SetEvent (mx->event) == 0)
-		        {
-		          result = EINVAL;
-		        }
-		    }
-	        }
-	      else	/* [i_a] when unlocking an unlocked mutex, pthread_mutex_unlock() should always produce EPERM for any type of mutex -- see test mutex7.c */
-	        {
-	          result = EPERM;
-	        }
+	      /* [i_a] when unlocking an unlocked mutex, pthread_mutex_unlock() should always produce EPERM for any type of mutex -- see test mutex7.c */
+	      result = ptw32_mutex_release (mx);
 	    }
           else
 	    {
@@ -104,15 +129,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
 		    {
 		      mx->ownerThread.p = NULL;
 
-		      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
-							          (PTW32_INTERLOCKED_LONG)0) < 0L)
-		        {
-		          /* Someone may be waiting on that mutex */
-		          if (SetEvent (mx->event) == 0)
-			    {
-			      result = EINVAL;
-			    }
-		        }
+		      result = ptw32_mutex_release (mx);
 		    }
 	        }
 	      else
@@ -143,17 +160,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                 {
                   ptw32_robust_mutex_remove(mutex, NULL);
 
-                  if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                             (PTW32_INTERLOCKED_LONG) 0) < 0)
-                    {
-                      /*
-                       * Someone may be waiting on that mutex.
-                       */
-                      if (SetEvent (mx->event) == 0)
-                        {
-                          result = EINVAL;
-                        }
-                    }
+                  result = ptw32_mutex_release (mx);
                 }
               else
                 {
@@ -162,17 +169,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                     {
                       ptw32_robust_mutex_remove(mutex, NULL);
 
-                      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                                 (PTW32_INTERLOCKED_LONG) 0) < 0)
-                        {
-                          /*
-                           * Someone may be waiting on that mutex.
-                           */
-                          if (SetEvent (mx->event) == 0)
-                            {
-                              result = EINVAL;
-                            }
-                        }
+                      result = ptw32_mutex_release (mx);
                     }
                 }
             }
diff --git a/pthread_win32_attach_detach_np.c b/pthread_win32_attach_detach_np.c
index d6d5023..dec61b8 100644
--- a/pthread_win32_attach_detach_np.c
+++ b/pthread_win32_attach_detach_np.c
@@ -251,6 +251,11 @@ pthread_win32_thread_detach_np ()
             {
               pthread_mutex_t mx = sp->robustMxList->mx;
               ptw32_robust_mutex_remove(&mx, sp);
+              /*
+               * The next owner may destroy the mutex before we have finished.
+               */
+              (void) PTW32_INTERLOCKED_INCREMENT_LONG(
+                       (PTW32_INTERLOCKED_LONGPTR)&mx->releasing);
               (void) PTW32_INTERLOCKED_EXCHANGE_LONG(
                        (PTW32_INTERLOCKED_LONGPTR)&mx->robustNode->stateInconsistent,
                        (PTW32_INTERLOCKED_LONG)-1);
@@ -260,6 +265,8 @@ pthread_win32_thread_detach_np ()
                * See pthread_mutex_lock.c.
                */
               SetEvent(mx->event);
+              (void) PTW32_INTERLOCKED_DECREMENT_LONG(
+                       (PTW32_INTERLOCKED_LONGPTR)&mx->releasing);
             }
 
 
-- 
2.43.0


From ff2a8a115a303927157c00286a6e76d5a3df5741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 38/42] fix: semaphore operations must reject null and
 destroyed semaphores and counts of no posts

---
 sem_destroy.c       |  4 ++++
 sem_getvalue.c      | 10 +++++++++-
 sem_post.c          | 10 +++++++++-
 sem_post_multiple.c | 10 +++++++++-
 sem_trywait.c       | 10 +++++++++-
 sem_wait.c          | 10 +++++++++-
 6 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/sem_destroy.c b/sem_destroy.c
index 48a7dd2..7150210 100644
--- a/sem_destroy.c
+++ b/sem_destroy.c
@@ -111,6 +111,10 @@ sem_destroy (sem_t * sem)
             {
               result = EINVAL;
             }
+          else
+            {
+              *sem = NULL;
+            }
         }
       ptw32_mcs_lock_release(&node);
     }
diff --git a/sem_getvalue.c b/sem_getvalue.c
index 952dea2..e358c9e 100644
--- a/sem_getvalue.c
+++ b/sem_getvalue.c
@@ -87,7 +87,15 @@ sem_getvalue (sem_t * sem, int *sval)
   int result = 0;
 
   ptw32_mcs_local_node_t node;
-  sem_t s = *sem;
+  sem_t s;
+
+  if (sem == NULL || *sem == NULL)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   *sval = s->value;
diff --git a/sem_post.c b/sem_post.c
index eed9568..b8c8403 100644
--- a/sem_post.c
+++ b/sem_post.c
@@ -83,7 +83,15 @@ sem_post (sem_t * sem)
   int result = 0;
 
   ptw32_mcs_local_node_t node;
-  sem_t s = *sem;
+  sem_t s;
+
+  if (sem == NULL || *sem == NULL)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   if (s->value < SEM_VALUE_MAX)
diff --git a/sem_post_multiple.c b/sem_post_multiple.c
index 1095971..458e0bf 100644
--- a/sem_post_multiple.c
+++ b/sem_post_multiple.c
@@ -86,7 +86,15 @@ sem_post_multiple (sem_t * sem, int count)
   ptw32_mcs_local_node_t node;
   int result = 0;
   long waiters;
-  sem_t s = *sem;
+  sem_t s;
+
+  if (sem == NULL || *sem == NULL || count <= 0)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
 
diff --git a/sem_trywait.c b/sem_trywait.c
index 3f3ed62..dfdf07a 100644
--- a/sem_trywait.c
+++ b/sem_trywait.c
@@ -84,9 +84,17 @@ sem_trywait (sem_t * sem)
  */
 {
   int result = 0;
-  sem_t s = *sem;
+  sem_t s;
   ptw32_mcs_local_node_t node;
 
+  if (sem == NULL || *sem == NULL)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
+
   ptw32_mcs_lock_acquire(&s->lock, &node);
 
   if (s->value > 0)
diff --git a/sem_wait.c b/sem_wait.c
index 8e34bd3..69bbd6d 100644
--- a/sem_wait.c
+++ b/sem_wait.c
@@ -118,7 +118,15 @@ sem_wait (sem_t * sem)
   ptw32_mcs_local_node_t node;
   int v;
   int result = 0;
-  sem_t s = *sem;
+  sem_t s;
+
+  if (sem == NULL || *sem == NULL)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
+  s = *sem;
 
   pthread_testcancel();
 
-- 
2.43.0


From ccc8f0ac72cf36d216df7f8431af03b3ec52a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 39/42] fix: thread names must not be read from nor written to
 nowhere

---
 pthread_getname_np.c |  5 +++++
 pthread_setname_np.c | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pthread_getname_np.c b/pthread_getname_np.c
index 402a492..d55fe0f 100644
--- a/pthread_getname_np.c
+++ b/pthread_getname_np.c
@@ -49,6 +49,11 @@ pthread_getname_np(pthread_t thr, char *name, int len)
   ptw32_thread_t * tp;
   char * s, * d;
 
+  if (NULL == name || len < 1)
+    {
+      return EINVAL;
+    }
+
   /*
    * Validate the thread id, and keep the thread's storage from being
    * released and recycled while it is being used.
diff --git a/pthread_setname_np.c b/pthread_setname_np.c
index ddb83c1..db6ad02 100644
--- a/pthread_setname_np.c
+++ b/pthread_setname_np.c
@@ -90,6 +90,11 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
   DWORD Win32ThreadID;
 #endif
 
+  if (NULL == name)
+    {
+      return EINVAL;
+    }
+
   /*
    * Validate the thread id, and keep the thread's storage from being
    * released and recycled while it is being used.
@@ -165,6 +170,11 @@ pthread_setname_np(pthread_t thr, const char *name)
   DWORD Win32ThreadID;
 #endif
 
+  if (NULL == name)
+    {
+      return EINVAL;
+    }
+
   /*
    * Validate the thread id, and keep the thread's storage from being
    * released and recycled while it is being used.
-- 
2.43.0


From d9704e68e04b2abd52934ca1f0f131bc7cbad16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 40/42] fix: a null thread-specific data key must be reported
 as invalid

---
 pthread_key_delete.c  | 4 ++++
 pthread_setspecific.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pthread_key_delete.c b/pthread_key_delete.c
index f36f7f2..fc8d5b1 100644
--- a/pthread_key_delete.c
+++ b/pthread_key_delete.c
@@ -127,6 +127,10 @@ pthread_key_delete (pthread_key_t key)
 #endif
       free (key);
     }
+  else
+    {
+      result = EINVAL;
+    }
 
   return (result);
 }
diff --git a/pthread_setspecific.c b/pthread_setspecific.c
index 55e04c1..f2fb949 100644
--- a/pthread_setspecific.c
+++ b/pthread_setspecific.c
@@ -173,6 +173,10 @@ pthread_setspecific (pthread_key_t key, const void *value)
 	    }
 	}
     }
+  else
+    {
+      result = EINVAL;
+    }
 
   return (result);
 }				/* pthread_setspecific */
-- 
2.43.0


From 0440f4eb52accc3fb9facff0d7ea6848e3400967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:20 +0000
Subject: [PATCH 41/42] fix: a cleanup handler run by pthread_cleanup_pop that
 ends the thread ran twice

Pop it before it runs, and let it throw in the C++ build.
---
 cleanup.c | 7 +++++--
 pthread.h | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cleanup.c b/cleanup.c
index 4b20d5a..6c114ab 100644
--- a/cleanup.c
+++ b/cleanup.c
@@ -89,6 +89,11 @@ ptw32_pop_cleanup (int execute)
 
   if (cleanup != NULL)
     {
+      /*
+       * Pop it first: if the routine ends the thread it must not run again.
+       */
+      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
+
       if (execute && (cleanup->routine != NULL))
 	{
 
@@ -96,8 +101,6 @@ ptw32_pop_cleanup (int execute)
 
 	}
 
-      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
-
     }
 
   return (cleanup);
diff --git a/pthread.h b/pthread.h
index d57a38d..6902e81 100644
--- a/pthread.h
+++ b/pthread.h
@@ -701,7 +701,14 @@ struct ptw32_cleanup_t
             {
             }
 
+          /*
+           * The cleanup routine may end the thread, i.e. throw, if it is
+           * run by pthread_cleanup_pop().
+           */
           ~PThreadCleanup()
+#if __cplusplus >= 201103L || (defined(_MSC_VER) && _MSC_VER >= 1900)
+            noexcept(false)
+#endif
             {
               if ( executeIt && ((void *) cleanUpRout != (void *) 0) )
                 {
-- 
2.43.0


From ecc326614ea22708b716a9d2b7c6c4bd9c0976e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:30 +0000
Subject: [PATCH 42/42] fix: pthread_rwlock_timedrdlock that times out in
 renormalising the reader counts corrupted them

It counted itself as a reader that has left without holding the mutex
that protects that count (a concurrent unlock's update could be lost, and
every later writer then waits for ever), and left the other count beyond
its limit.  Take back its own increment instead.
---
 pthread_rwlock_timedrdlock.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pthread_rwlock_timedrdlock.c b/pthread_rwlock_timedrdlock.c
index 65b3756..aafa663 100644
--- a/pthread_rwlock_timedrdlock.c
+++ b/pthread_rwlock_timedrdlock.c
@@ -93,10 +93,7 @@ pthread_rwlock_timedrdlock (pthread_rwlock_t * rwlock,
 	   pthread_mutex_timedlock (&(rwl->mtxSharedAccessCompleted),
 				    abstime)) != 0)
 	{
-	  if (result == ETIMEDOUT)
-	    {
-	      ++rwl->nCompletedSharedAccessCount;
-	    }
+	  --rwl->nSharedAccessCount;
 	  (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
 	  return result;
 	}
-- 
2.43.0

