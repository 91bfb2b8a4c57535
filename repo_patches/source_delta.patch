From 9709872d6564b7a9ce5403e9ccbafbe1a34e335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 01/19] fix: return the result of the timed wait of a POSIX
 semaphore

---
 include/oqpi/synchronization/posix/posix_semaphore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore.hpp b/include/oqpi/synchronization/posix/posix_semaphore.hpp
index 4d840dc..891c866 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore.hpp
@@ -91,7 +91,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         bool waitFor(const std::chrono::duration<_Rep, _Period> &relTime)
         {
-            sem_.waitFor(relTime);
+            return sem_.waitFor(relTime);
         }
 
     private:
-- 
2.43.0


From 534360d2479f6f9467af64f1503fe888089d674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 02/19] fix: keep the nanoseconds of a timed wait's deadline in
 range

---
 .../posix/posix_semaphore_wrapper.hpp                | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 7008dad..219e4a4 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -131,6 +131,18 @@ namespace oqpi {
             t.tv_sec            += secs.count();
             t.tv_nsec           += nanoseconds.count();
 
+            // The nanosecond part has to stay in [0, 1s[, otherwise the deadline is invalid
+            if (t.tv_nsec >= 1000000000)
+            {
+                t.tv_nsec       -= 1000000000;
+                ++t.tv_sec;
+            }
+            else if (t.tv_nsec < 0)
+            {
+                t.tv_nsec       += 1000000000;
+                --t.tv_sec;
+            }
+
             const auto error    = sem_timedwait(handle_, &t);
             if(error == -1 && errno != ETIMEDOUT)
             {
-- 
2.43.0


From 2feb118dc87c26e1ee60700193858dcb3c2b4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 03/19] fix: resume waiting on a POSIX semaphore after a signal
 interrupted the wait

---
 .../posix/posix_semaphore_wrapper.hpp              | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 219e4a4..da47541 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -106,7 +106,12 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool wait()
         {
-            const auto error = sem_wait(handle_);
+            auto error = sem_wait(handle_);
+            // Being interrupted by a signal is not a reason to stop waiting
+            while (error == -1 && errno == EINTR)
+            {
+                error = sem_wait(handle_);
+            }
             if (error == -1)
             {
                 oqpi_error("sem_wait failed with error code %d", errno);
@@ -143,7 +148,12 @@ namespace oqpi {
                 --t.tv_sec;
             }
 
-            const auto error    = sem_timedwait(handle_, &t);
+            auto error          = sem_timedwait(handle_, &t);
+            // The deadline is absolute, so simply resume waiting if a signal interrupted us
+            while (error == -1 && errno == EINTR)
+            {
+                error           = sem_timedwait(handle_, &t);
+            }
             if(error == -1 && errno != ETIMEDOUT)
             {
                 oqpi_error("sem_timedwait failed with error code %d", errno);
-- 
2.43.0


From e3a84332d18e2ab1705ba0c9674020766ddf5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 04/19] fix: moving onto a valid POSIX semaphore releases it
 instead of ignoring the move

---
 include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index da47541..f256069 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -57,8 +57,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper &operator =(posix_semaphore_wrapper &&rhs)
         {
-            if (this != &rhs && !isValid())
+            if (this != &rhs)
             {
+                release();
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
                 rhs.handle_ = nullptr;
-- 
2.43.0


From d01e722fbf13c96fc7d0fc0e72270b322de526d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 05/19] fix: don't destroy a POSIX semaphore whose
 initialization failed

---
 include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index f256069..40b4b3d 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -183,6 +183,9 @@ namespace oqpi {
             if (error == -1)
             {
                 oqpi_error("sem_init failed with error %d", errno);
+                // There is no semaphore to destroy, only the memory has to be released
+                delete handle_;
+                handle_ = nullptr;
                 return false;
             }
 
-- 
2.43.0


From e6fc9a88ecafbcb5c0d026f3cedc7f3a1efc2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 06/19] fix: opening an existing POSIX semaphore never creates
 one

---
 .../posix/posix_semaphore_wrapper.hpp                | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 40b4b3d..e053c9d 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -204,13 +204,10 @@ namespace oqpi {
 
             // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the given
             // name already exists. Otherwise it creates it.
-            handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
-
-            if (handle_ != SEM_FAILED && creationOption == sync_object_creation_options::open_existing)
+            handle_ = SEM_FAILED;
+            if (creationOption != sync_object_creation_options::open_existing)
             {
-                // We've created a semaphore even though given the open_existing creation option.
-                oqpi_error("Trying to open an existing semaphore that doesn't exist.");
-                return false;
+                handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
             }
 
             // Open a semaphore
@@ -218,12 +215,13 @@ namespace oqpi {
                 (creationOption == sync_object_creation_options::open_existing
                     || creationOption == sync_object_creation_options::open_or_create))
             {
-                handle_ = sem_open(name_.c_str(), O_CREAT, S_IRUSR | S_IWUSR, 0);
+                handle_ = sem_open(name_.c_str(), 0);
             }
 
             if (handle_ == SEM_FAILED)
             {
                 oqpi_error("sem_open failed with error %d", errno);
+                handle_ = nullptr;
                 return false;
             }
 
-- 
2.43.0


From 7b145019d06af2f3778384968325c1ab44c0bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 07/19] fix: only the creator of a named POSIX semaphore
 removes its name

---
 .../posix/posix_semaphore_wrapper.hpp              | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index e053c9d..6dd7d67 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -15,12 +15,14 @@ namespace oqpi {
         posix_semaphore_wrapper()
             : handle_(nullptr)
             , name_()
+            , isCreator_(false)
         {}
 
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper(const std::string &name, sync_object_creation_options creationOption, int32_t initCount)
             : handle_(nullptr)
             , name_(name.empty() ? "" : "/" + name)
+            , isCreator_(false)
         {
             const auto isLocalSyncObject = name_.empty();
             if (isLocalSyncObject && creationOption != sync_object_creation_options::open_existing)
@@ -50,6 +52,7 @@ namespace oqpi {
         posix_semaphore_wrapper(posix_semaphore_wrapper &&other)
             : handle_(other.handle_)
             , name_(other.name_)
+            , isCreator_(other.isCreator_)
         {
             other.handle_ = nullptr;
         }
@@ -62,6 +65,7 @@ namespace oqpi {
                 release();
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
+                isCreator_  = rhs.isCreator_;
                 rhs.handle_ = nullptr;
             }
             return (*this);
@@ -208,6 +212,7 @@ namespace oqpi {
             if (creationOption != sync_object_creation_options::open_existing)
             {
                 handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
+                isCreator_ = (handle_ != SEM_FAILED);
             }
 
             // Open a semaphore
@@ -267,7 +272,11 @@ namespace oqpi {
         void releaseGlobalSemaphore()
         {
             sem_close(handle_);
-            sem_unlink(name_.c_str());
+            // The name belongs to whoever created the semaphore, others only opened it
+            if (isCreator_)
+            {
+                sem_unlink(name_.c_str());
+            }
         }
 
 
@@ -283,6 +292,9 @@ namespace oqpi {
         sem_t       *handle_;
         //------------------------------------------------------------------------------------------
         std::string name_;
+        //------------------------------------------------------------------------------------------
+        // Whether this object created the (named) semaphore and thus has to unlink its name
+        bool        isCreator_;
     };
 
 } /*oqpi*/
-- 
2.43.0


From 4086d98c14d6d96849841c2a18005aa8a9e66690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 08/19] fix: resetting a manual reset event never blocks

---
 include/oqpi/synchronization/posix/posix_event.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index 3485d70..a50ed34 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -140,19 +140,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void reset(posix_semaphore_wrapper &sem)
         {
-            auto semValue = sem.getValue();
-
             // Decrement internal counter to 0. Event is unsignaled.
-            while (semValue != 0)
-            {
-                if (!sem.wait())
-                {
-                    oqpi_error("Was not able to reset event.");
-                    break;
-                }
-
-                semValue = sem.getValue();
-            }
+            // This must not block, someone else may consume the token we are about to take.
+            while (sem.tryWait());
         }
     };
 
-- 
2.43.0


From 717b869827b1a0c974b9ce909c6290e9af77152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 09/19] fix: signaling a POSIX event twice doesn't release two
 waits

---
 include/oqpi/synchronization/posix/posix_event.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index a50ed34..1fe2f65 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -70,7 +70,11 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void notify()
         {
-            sem_.post();
+            // Signaling an event that's already signaled has no effect
+            if (sem_.getValue() < 1)
+            {
+                sem_.post();
+            }
         }
 
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From dbeb4f4fbf2d9ffd1722e1afcfab4a0cf255a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 10/19] fix: lock the concurrent queue while checking if it is
 empty

---
 include/oqpi/concurrent_queue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/concurrent_queue.hpp b/include/oqpi/concurrent_queue.hpp
index f4071bd..c508a75 100644
--- a/include/oqpi/concurrent_queue.hpp
+++ b/include/oqpi/concurrent_queue.hpp
@@ -35,10 +35,11 @@ public:
 
     bool empty() const
     {
+        lock_t __l(mutex_);
         return queue_.empty();
     }
 
 private:
-    std::mutex      mutex_;
-    std::queue<T>   queue_;
+    mutable std::mutex  mutex_;
+    std::queue<T>       queue_;
 };
-- 
2.43.0


From 3d3ee890ccd747fbde24a6ef7e4cabc5b7548aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 11/19] fix: a parallel group limited to one task at a time
 doesn't run two

---
 include/oqpi/scheduling/parallel_group.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index 8ae89c8..c2974f9 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -92,15 +92,14 @@ namespace oqpi {
                 size_t i = 0;
                 int32_t scheduledTasks = 0;
 
-                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
+                // One of the simultaneous tasks is the first one, executed below by this very thread
+                while ((maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_ - 1)
+                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                 {
                     if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                     {
                         this->scheduler_.add(tasks_[i]);
-                        if (maxSimultaneousTasks_ > 0 && ++scheduledTasks >= maxSimultaneousTasks_-1)
-                        {
-                            break;
-                        }
+                        ++scheduledTasks;
                     }
                 }
 
-- 
2.43.0


From 90f91fa8f5b2cda27511df4173d249ef1b6c6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 12/19] fix: the atomic partitioner covers ranges that don't
 start at 0

---
 include/oqpi/parallel_algorithms/atomic_partitioner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
index 1263cc9..417312f 100644
--- a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
+++ b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
@@ -46,7 +46,7 @@ namespace oqpi {
                 // Get a copy of where we're at in the array
                 auto expectedIndex = sharedIndex_.load();
                 // Compute how many indices we could grab
-                const auto count = std::min<int32_t>(elementCount_ - expectedIndex, indicesToGrab_);
+                const auto count = std::min<int32_t>(lastIndex_ - expectedIndex, indicesToGrab_);
                 if (count > 0)
                 {
                     // There's still something to grab, try to do it, by being the one to increment the shared index.
-- 
2.43.0


From fbc917387d937ac4f444079488b42ebb810d3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 13/19] fix: single threaded execution leaves a group grabbed
 by someone else alone

---
 include/oqpi/scheduling/parallel_group.hpp | 15 ++++++---------
 include/oqpi/scheduling/sequence_group.hpp |  9 +++------
 include/oqpi/scheduling/task_group.hpp     | 14 +++++++++-----
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index c2974f9..9a41f71 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -46,19 +46,16 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            const auto taskCount = tasks_.size();
+            if (oqpi_ensure(taskCount > 0))
             {
-                const auto taskCount = tasks_.size();
-                if (oqpi_ensure(taskCount > 0))
+                oqpi_check(taskCount == activeTasksCount_);
+                for (size_t i = 0; i < taskCount; ++i)
                 {
-                    oqpi_check(taskCount == activeTasksCount_);
-                    for (size_t i = 0; i < taskCount; ++i)
-                    {
-                        tasks_[i].executeSingleThreaded();
-                    }
+                    tasks_[i].executeSingleThreaded();
                 }
-                tasks_.clear();
             }
+            tasks_.clear();
         }
 
         //------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/sequence_group.hpp b/include/oqpi/scheduling/sequence_group.hpp
index 94ca50c..90ace90 100644
--- a/include/oqpi/scheduling/sequence_group.hpp
+++ b/include/oqpi/scheduling/sequence_group.hpp
@@ -38,13 +38,10 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            while (!empty())
             {
-                while (!empty())
-                {
-                    auto hTask = popTask();
-                    hTask.executeSingleThreaded();
-                }
+                auto hTask = popTask();
+                hTask.executeSingleThreaded();
             }
         }
 
diff --git a/include/oqpi/scheduling/task_group.hpp b/include/oqpi/scheduling/task_group.hpp
index 2b4e4a1..6384f25 100644
--- a/include/oqpi/scheduling/task_group.hpp
+++ b/include/oqpi/scheduling/task_group.hpp
@@ -57,12 +57,16 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         virtual void executeSingleThreaded() override final
         {
-            _GroupContext::group_onPreExecute();
-            executeSingleThreadedImpl();
-            _GroupContext::group_onPostExecute();
+            // Whoever grabbed this group is responsible for its execution and completion
+            if (task_base::tryGrab())
+            {
+                _GroupContext::group_onPreExecute();
+                executeSingleThreadedImpl();
+                _GroupContext::group_onPostExecute();
 
-            task_base::setDone();
-            notifier_type::notify();
+                task_base::setDone();
+                notifier_type::notify();
+            }
         }
 
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From df5cab4ad11fb3b28c2ee46e111406da2194c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 14/19] fix: moving a task moves its result along

---
 include/oqpi/scheduling/task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/oqpi/scheduling/task.hpp b/include/oqpi/scheduling/task.hpp
index 0508f71..6f2cc80 100644
--- a/include/oqpi/scheduling/task.hpp
+++ b/include/oqpi/scheduling/task.hpp
@@ -36,6 +36,7 @@ namespace oqpi {
         // Movable
         task(self_type &&other)
             : task_base(std::move(other))
+            , task_result_type(std::move(other))
             , _TaskContext(std::move(other))
             , notifier_type(std::move(other))
             , func_(std::move(other.func_))
@@ -47,6 +48,7 @@ namespace oqpi {
             if (this != &rhs)
             {
                 task_base::operator =(std::move(rhs));
+                task_result_type::operator =(std::move(rhs));
                 _TaskContext::operator =(std::move(rhs));
                 notifier_type::operator =(std::move(rhs));
                 func_ = std::move(rhs.func_);
-- 
2.43.0


From 02930d445de96ce789173838df403b5d1c3f2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 15/19] fix: stop the workers before stopping to hand out tasks

---
 include/oqpi/scheduling/scheduler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index e2839df..3000635 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -113,13 +113,14 @@ namespace oqpi {
         // Stops the workers and waits on them
         void stop()
         {
-            running_.store(false);
-
+            // The workers have to know they must stop before we stop giving them tasks to work on
             for (auto &upWorker : workers_)
             {
                 upWorker->stop();
             }
 
+            running_.store(false);
+
             wakeUpAllWorkers();
 
             for (auto &upWorker : workers_)
-- 
2.43.0


From eaff04fe51f124cc7a623e41dbbfa7b4b29cbdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 16/19] fix: a worker executes the task it grabbed even when
 being stopped

---
 include/oqpi/scheduling/scheduler.hpp | 2 +-
 include/oqpi/scheduling/worker.hpp    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index 3000635..307b141 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -289,7 +289,7 @@ namespace oqpi {
                 task_handle hTask = waitForNextTask(w);
 
                 // We could have been waken up to stop
-                if (!running_.load())
+                if (!hTask.isValid())
                 {
                     return;
                 }
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index cee6369..57845e6 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -106,8 +106,9 @@ namespace oqpi {
                 // We consider ourselves active either way
                 _WorkerContext::worker_onActive();
 
-                // Check if we've waken up to work on a new task
-                if (isRunning())
+                // Check if we've waken up to work on a new task, which has to be executed even if we've
+                // been asked to stop in the meantime as nobody else can grab it anymore
+                if (!worker_base::isAvailable())
                 {
                     if (oqpi_ensure(worker_base::hTask_.isValid()))
                     {
-- 
2.43.0


From 5a212b6c458fa028456164b7ee41ceed64daf662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 17/19] fix: a thread whose creation failed is not joinable

---
 include/oqpi/threading/posix_thread.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index ebf615a..72076f5 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -147,15 +147,17 @@ namespace oqpi {
 
             error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
 
-            if(error != 0)
+            if(pThreadAttr != nullptr)
             {
-                oqpi_error("pthread_create failed with error number: %d", error);
-                return false;
+                pthread_attr_destroy(pThreadAttr);
             }
 
-            if(pThreadAttr != nullptr)
+            if(error != 0)
             {
-                pthread_attr_destroy(pThreadAttr);
+                oqpi_error("pthread_create failed with error number: %d", error);
+                // The content of the handle is undefined when the creation fails
+                handle_ = 0;
+                return false;
             }
 
             setCoreAffinityMask(attributes.coreAffinityMask_);
-- 
2.43.0


From fe50de3be133250836e1a5f31b2e078d690624d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 18/19] fix: sleep with a function that exists on POSIX

---
 include/oqpi/threading/posix_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 72076f5..fd350a9 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <chrono>
+#include <thread>
 #include <pthread.h>
 #include <unistd.h>
 #include <math.h>
@@ -405,7 +406,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         inline void sleep_for(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            pthread_sleep(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
+            std::this_thread::sleep_for(relTime);
         }
         //------------------------------------------------------------------------------------------
         inline uint32_t get_current_core()
-- 
2.43.0


From fed641da55988ee4ed2442bf9a40147685aa2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 19/19] fix: affinity masks are checked on machines with 64 or
 more processors

---
 include/oqpi/threading/posix_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index fd350a9..41d6347 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -297,7 +297,7 @@ namespace oqpi {
             memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));
 
             // Make sure the selected mask is valid
-            oqpi_check(static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
+            oqpi_check(hardware_concurrency() >= 64u || static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
 
             const auto error = pthread_setaffinity_np(handle, sizeof(cpu_set_t), &set);
             if(error != 0)
-- 
2.43.0

