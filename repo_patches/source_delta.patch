From b6f4b85429c235e273e719324159ef2494ebb285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 01/39] fix: thread_pool destructor deadlocked with its own
 workers

The destructor joined the worker threads while it held the mutex that
they need to look at the task queue.
---
 threads/thread_pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 21278a7..bd4fff9 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -59,7 +59,8 @@ thread_pool::thread_pool(unsigned num_threads) {
  * Stop the scheduler and terminate the threads used to execute tasks.
  */
 thread_pool::~thread_pool() {
-    write_lock_guard guard(_task_mutex);
+    // workers need the mutex to leave their loop, don't hold it here
+
     this->_running = false;
     for (auto& thread : _thread_list) {
         thread.join();
-- 
2.43.0


From 96841118db6f1c1c3177278eaedd816c308a160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 02/39] fix: thread_task assigned the same id to concurrently
 created tasks

Reading and incrementing the next id were separate steps.
---
 threads/thread_task.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index 2dbd9c7..61552f8 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -7,7 +7,6 @@
 #include <usml/threads/thread_task.h>
 
 #include <iostream>
-#include <limits>
 
 using namespace usml::threads;
 using namespace std;
@@ -23,12 +22,7 @@ std::atomic<std::size_t> thread_task::_num_active = 0;
  */
 thread_task::thread_task() {
     _abort = false;
-    _id = _id_next;
-    if (_id_next == std::numeric_limits<std::size_t>::max()) {
-        _id_next = 0;
-    } else {
-        ++_id_next;
-    }
+    _id = _id_next++;  // wraps back to zero at the max size of size_t
     ++_num_active;
 }
 
-- 
2.43.0


From 253dd01d5bacbed87789adc1822624d911784237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 03/39] fix: tasks discarded without running stayed active
 forever

A task which was dropped, or still waiting when its pool was destroyed,
was never removed from the number of active tasks, so that
thread_task::wait() waited for it without end.
---
 threads/thread_pool.cc |  7 +++++++
 threads/thread_task.cc |  2 +-
 threads/thread_task.h  | 17 +++++++++++++++--
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index bd4fff9..29fb28c 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -65,6 +65,13 @@ thread_pool::~thread_pool() {
     for (auto& thread : _thread_list) {
         thread.join();
     }
+
+    // tasks that are still waiting are discarded, and not active any more
+
+    while (!_task_queue.empty()) {
+        _task_queue.front()->finish();
+        _task_queue.pop();
+    }
 }
 
 /**
diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index 61552f8..d00775a 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -38,5 +38,5 @@ void thread_task::start() {
         cerr << "Uncaught exception in thread_task" << endl;
     }
     // After run is completed decrement number of active tasks counter.
-    --_num_active;
+    finish();
 }
diff --git a/threads/thread_task.h b/threads/thread_task.h
index 5bf92ca..f27f325 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -59,9 +59,9 @@ class USML_DECLSPEC thread_task {
     thread_task();
 
     /**
-     * Virtual destructor.
+     * Virtual destructor.  Tasks that never ran are no longer active.
      */
-    virtual ~thread_task() {}
+    virtual ~thread_task() { finish(); }
 
     /**
      * Automatically assigned identification number for this task.
@@ -134,6 +134,19 @@ class USML_DECLSPEC thread_task {
      */
     void start();
 
+    /**
+     * Decrements the number of active tasks, once per task, when the task
+     * has run or when it is discarded without running.
+     */
+    void finish() {
+        if (!_finished.exchange(true)) {
+            --_num_active;
+        }
+    }
+
+    /// Set to true when this task is not counted as active any more.
+    std::atomic<bool> _finished{false};
+
     /// Next identification number to be assigned to a task.
     static std::atomic<std::size_t> _id_next;
 
-- 
2.43.0


From deed21a60a0283e60a71ba03319ada8483186abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 04/39] fix: abort and done flags of thread_task are shared
 between threads

They are set by one thread while another one polls them.
---
 threads/thread_task.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/threads/thread_task.h b/threads/thread_task.h
index f27f325..e83861f 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -121,10 +121,10 @@ class USML_DECLSPEC thread_task {
 
    protected:
     /// Indication that task needs to abort.
-    bool _abort;
+    std::atomic<bool> _abort;
 
     /// Set to true when this task complete.
-    bool _done{false};
+    std::atomic<bool> _done{false};
 
    private:
     /**
-- 
2.43.0


From b2d6132c291e3c4737a73add651c9ac811bd7b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 05/39] fix: host of a platform after refused attachment and
 after detachment

A refused add_child() changed the host of the platform that was not
attached, and remove_child() left the former host in place.
---
 platforms/platform_model.cc | 6 +++++-
 platforms/platform_model.h  | 9 +++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index cd26d47..5061b24 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -78,7 +78,8 @@ platform_model::key_type platform_model::add_child(
     const platform_model::sptr& child, const bvector& pos,
     const orientation& orient) {
     write_lock_guard guard(mutex());
-    _child_manager.add(std::make_shared<linkage>(this, child, pos, orient));
+    _child_manager.add(std::make_shared<linkage>(child, pos, orient));
+    child->_host = this;  // unless add() has thrown an exception
     update_internals(_time, _position, _orient, _speed, NO_UPDATE);
     return child->keyID();
 }
@@ -88,6 +89,9 @@ platform_model::key_type platform_model::add_child(
  */
 bool platform_model::remove_child(platform_model::key_type keyID) {
     write_lock_guard guard(mutex());
+    linkage::sptr link = _child_manager.find(keyID);
+    if (link == nullptr) return false;
+    link->child->_host = nullptr;
     return _child_manager.remove(keyID);
 }
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 7a084db..f75c6e4 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -185,19 +185,16 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
          * already been assigned a keyID and description, and these values can
          * be reused for this map.
          *
-         * @param host		Reference to the platform that owns this child.
          * @param child		Reference to the child to be linked to the host.
          * @param pos		Position of child relative to host.
          * @param orient	Orientation of child relative to host.
          */
-        linkage(const platform_model* host, platform_model::sptr child,
-                const bvector& pos, const orientation& orient)
+        linkage(platform_model::sptr child, const bvector& pos,
+                const orientation& orient)
             : managed_obj(child->keyID(), child->description()),
               child(child),
               position(pos),
-              orient(orient) {
-            child->_host = host;
-        }
+              orient(orient) {}
 
         /// Reference to the child platform.
         platform_model::sptr child;
-- 
2.43.0


From dbee0e5b92ca44af77838c264a1f53c309b75993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 06/39] fix: listeners could change while they were notified by
 another thread

Adding or removing wavefront and update listeners, for instance by adding or
removing sensors, raced with notifications from background tasks. Removal now
also waits for calls in progress, so that the listener can be destroyed.
---
 managed/listener_list.h       | 120 ++++++++++++++++++++++++++++++++++
 managed/update_notifier.h     |  13 ++--
 wavegen/wavefront_notifier.cc |   8 +--
 wavegen/wavefront_notifier.h  |   5 +-
 4 files changed, 132 insertions(+), 14 deletions(-)
 create mode 100644 managed/listener_list.h

diff --git a/managed/listener_list.h b/managed/listener_list.h
new file mode 100644
index 0000000..0b1a662
--- /dev/null
+++ b/managed/listener_list.h
@@ -0,0 +1,120 @@
+/**
+ * @file listener_list.h
+ * Set of listeners that can change while notifications are in progress.
+ */
+#pragma once
+
+#include <algorithm>
+#include <condition_variable>
+#include <list>
+#include <mutex>
+#include <set>
+#include <thread>
+#include <utility>
+
+namespace usml {
+namespace managed {
+
+/// @ingroup managed
+/// @{
+
+/**
+ * Set of listeners that can change while notifications are in progress. The
+ * set is not locked while a listener is being called, so that listeners can
+ * use the objects that notify them. A listener that has been removed is not
+ * called any more when remove() returns, so that it can be destroyed. This
+ * means that remove() waits for calls to this listener that are in progress in
+ * other threads.
+ *
+ * @param listener_type  Type of object to notify.
+ */
+template <typename listener_type>
+class listener_list {
+   public:
+    /// Add a listener to this list, ignored if already there.
+    void add(listener_type* listener) {
+        std::lock_guard<std::mutex> guard(_mutex);
+        _listeners.insert(listener);
+    }
+
+    /// Remove a listener from this list.
+    void remove(listener_type* listener) {
+        std::unique_lock<std::mutex> guard(_mutex);
+        _listeners.erase(listener);
+        _idle.wait(guard, [&] {
+            return std::none_of(
+                _active.begin(), _active.end(), [&](const call_type& call) {
+                    return call.first == listener &&
+                           call.second != std::this_thread::get_id();
+                });
+        });
+    }
+
+    /**
+     * Calls each of the listeners.
+     *
+     * @param func  Function to call with a pointer to each listener.
+     */
+    template <typename function>
+    void notify(function func) const {
+        std::set<listener_type*> listeners;
+        {
+            std::lock_guard<std::mutex> guard(_mutex);
+            listeners = _listeners;
+        }
+        for (auto* listener : listeners) {
+            call_guard call(this, listener);
+            if (call.found()) {
+                func(listener);
+            }
+        }
+    }
+
+   private:
+    /// Listener being called and the thread that is calling it.
+    using call_type = std::pair<listener_type*, std::thread::id>;
+
+    /// Marks a listener as being called, unless it has been removed.
+    class call_guard {
+       public:
+        call_guard(const listener_list* list, listener_type* listener)
+            : _list(list) {
+            std::lock_guard<std::mutex> guard(_list->_mutex);
+            _found = _list->_listeners.count(listener) > 0;
+            if (_found) {
+                _call = _list->_active.insert(
+                    _list->_active.end(),
+                    call_type(listener, std::this_thread::get_id()));
+            }
+        }
+        ~call_guard() {
+            if (_found) {
+                std::lock_guard<std::mutex> guard(_list->_mutex);
+                _list->_active.erase(_call);
+                _list->_idle.notify_all();
+            }
+        }
+        bool found() const { return _found; }
+
+       private:
+        const listener_list* _list;
+        bool _found;
+        typename std::list<call_type>::iterator _call;
+    };
+
+    /// Locks changes to the members of this object.
+    mutable std::mutex _mutex;
+
+    /// Signals the end of a call to a listener.
+    mutable std::condition_variable _idle;
+
+    /// List of active listeners.
+    std::set<listener_type*> _listeners;
+
+    /// Calls in progress.
+    mutable std::list<call_type> _active;
+};
+
+/// @}
+}  // namespace managed
+}  // namespace usml
diff --git a/managed/update_notifier.h b/managed/update_notifier.h
index 63d48e9..1353bf4 100755
--- a/managed/update_notifier.h
+++ b/managed/update_notifier.h
@@ -4,11 +4,10 @@
  */
 #pragma once
 
+#include <usml/managed/listener_list.h>
 #include <usml/managed/update_listener.h>
 #include <usml/usml_config.h>
 
-#include <set>
-
 namespace usml {
 namespace managed {
 
@@ -32,13 +31,13 @@ class USML_DECLSPEC update_notifier {
     /**
      * Add an update listener to this object.
      */
-    void add_listener(listener_type* listener) { _listeners.insert(listener); }
+    void add_listener(listener_type* listener) { _listeners.add(listener); }
 
     /**
      * Remove an update listener to this object.
      */
     void remove_listener(listener_type* listener) {
-        _listeners.erase(listener);
+        _listeners.remove(listener);
     }
 
     /**
@@ -47,14 +46,14 @@ class USML_DECLSPEC update_notifier {
      * @param object    Reference to the object that has been updated.
      */
     virtual void notify_update(const obj_type* object) const {
-        for (auto listener : _listeners) {
+        _listeners.notify([object](listener_type* listener) {
             listener->notify_update(object);
-        }
+        });
     }
 
    private:
     /// List of active managed listeners.
-    std::set<listener_type*> _listeners;
+    listener_list<listener_type> _listeners;
 };
 
 /// @}
diff --git a/wavegen/wavefront_notifier.cc b/wavegen/wavefront_notifier.cc
index 7c69b83..7a39729 100644
--- a/wavegen/wavefront_notifier.cc
+++ b/wavegen/wavefront_notifier.cc
@@ -13,7 +13,7 @@ using namespace usml::wavegen;
  * Add an wavefront listener to this object.
  */
 void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
-    _listeners.insert(listener);
+    _listeners.add(listener);
 }
 
 /**
@@ -21,7 +21,7 @@ void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
  */
 void wavefront_notifier::remove_wavefront_listener(
     wavefront_listener* listener) {
-    _listeners.erase(listener);
+    _listeners.remove(listener);
 }
 
 /**
@@ -30,7 +30,7 @@ void wavefront_notifier::remove_wavefront_listener(
 void wavefront_notifier::notify_wavefront_listeners(
     const sensor_model* sensor, const eigenray_collection::csptr& eigenrays,
     const eigenverb_collection::csptr& eigenverbs) {
-    for (wavefront_listener* listener : _listeners) {
+    _listeners.notify([&](wavefront_listener* listener) {
         listener->update_wavefront_data(sensor, eigenrays, eigenverbs);
-    }
+    });
 }
diff --git a/wavegen/wavefront_notifier.h b/wavegen/wavefront_notifier.h
index a51d185..5dbb555 100644
--- a/wavegen/wavefront_notifier.h
+++ b/wavegen/wavefront_notifier.h
@@ -6,11 +6,10 @@
 
 #include <usml/eigenrays/eigenray_collection.h>
 #include <usml/eigenverbs/eigenverb_collection.h>
+#include <usml/managed/listener_list.h>
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_listener.h>
 
-#include <set>
-
 namespace usml {
 namespace wavegen {
 
@@ -45,7 +44,7 @@ class USML_DECLSPEC wavefront_notifier {
     /**
      * List of active wavefront listeners.
      */
-    std::set<wavefront_listener*> _listeners;
+    usml::managed::listener_list<wavefront_listener> _listeners;
 };
 
 /// @}
-- 
2.43.0


From 52e3441963145141f32b16ebcbe8348ba27ded22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 07/39] fix: pairs of a removed receiver stayed in the sensor
 manager

remove_multistatic_receiver() searched for the sources of the receiver in the
list of receivers.
---
 sensors/sensor_manager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 0c2415b..6fc1eef 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -282,7 +282,7 @@ void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
     update_listener<sensor_pair>* listener) {
     auto receiverID = receiver->keyID();
-    for (auto sourceID : _rcv_list) {
+    for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = platform_manager::instance()->find(sourceID);
             auto hash_key =
-- 
2.43.0


From 4f28c0fdb629d6edef99ad73c0a27272cc2e39df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 08/39] fix: deadlock between adding and updating a sensor

add_sensor() holds the mutex of the manager when it asks the sensor for its
roles, an update of the sensor holds the mutex of the sensor when it asks the
manager for its frequencies.
---
 sensors/sensor_manager.cc | 7 ++++---
 sensors/sensor_manager.h  | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 6fc1eef..923aa9e 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -52,7 +52,7 @@ void sensor_manager::reset() {
  * Frequencies over which propagation is computed (Hz).
  */
 seq_vector::csptr sensor_manager::frequencies() const {
-    read_lock_guard guard(_mutex);
+    read_lock_guard guard(_freq_mutex);
     return _frequencies;
 }
 
@@ -60,7 +60,7 @@ seq_vector::csptr sensor_manager::frequencies() const {
  * Frequencies over which propagation is computed (Hz).
  */
 void sensor_manager::frequencies(const seq_vector::csptr& freq) {
-    write_lock_guard guard(_mutex);
+    write_lock_guard guard(_freq_mutex);
     _frequencies = freq;
 }
 
@@ -70,7 +70,8 @@ void sensor_manager::frequencies(const seq_vector::csptr& freq) {
 void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
                                 update_listener<sensor_pair>* listener) {
     write_lock_guard guard(_mutex);
-    if (_frequencies == nullptr || _frequencies->size() < 1) {
+    const auto freq = frequencies();
+    if (freq == nullptr || freq->size() < 1) {
         throw freq_missing();
     }
     if (sensor->time_maximum() == 0.0) {
diff --git a/sensors/sensor_manager.h b/sensors/sensor_manager.h
index df69ebc..3cdfbf7 100644
--- a/sensors/sensor_manager.h
+++ b/sensors/sensor_manager.h
@@ -200,6 +200,9 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
     /// Mutex for singleton access.
     static read_write_lock _mutex;
 
+    /// Mutex for frequencies, sensors read them while they are being updated.
+    mutable read_write_lock _freq_mutex;
+
     /// Frequencies over which propagation is computed (Hz).
     seq_vector::csptr _frequencies;
 
-- 
2.43.0


From 0125e7098ad4da64700176834f8470ba958a79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 09/39] fix: pairs were destroyed while the sensor manager was
 locked

Destroying a pair waits for notifications in progress, and their listeners may
need the sensor manager.
---
 sensors/sensor_manager.cc | 49 +++++++++++++++++++++------------------
 sensors/sensor_manager.h  | 12 +++++-----
 2 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 923aa9e..bd281c1 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -43,8 +43,9 @@ sensor_manager* sensor_manager::instance() {
  * Reset the sensor_manager instance to empty.
  */
 void sensor_manager::reset() {
+    std::unique_ptr<sensor_manager> old;  // destroyed after mutex released
     write_lock_guard guard(_mutex);
-    _instance.reset();
+    old.swap(_instance);
     usml::platforms::platform_manager::reset();
 }
 
@@ -117,22 +118,30 @@ void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
  */
 void sensor_manager::remove_sensor(const sensor_model::sptr& sensor,
                                    update_listener<sensor_pair>* listener) {
-    write_lock_guard guard(_mutex);
+    pair_list removed;  // destroyed after mutex has been released
+    {
+        write_lock_guard guard(_mutex);
 
-    // remove sensor from the lists of active sources and receivers
+        // remove sensor from the lists of active sources and receivers
 
-    _src_list.erase(sensor->keyID());
-    _rcv_list.erase(sensor->keyID());
+        _src_list.erase(sensor->keyID());
+        _rcv_list.erase(sensor->keyID());
 
-    // search for pairs to remove
+        // search for pairs to remove
 
-    remove_monostatic_pair(sensor, listener);
-    remove_multistatic_source(sensor, listener);
-    remove_multistatic_receiver(sensor, listener);
+        remove_monostatic_pair(sensor, &removed);
+        remove_multistatic_source(sensor, &removed);
+        remove_multistatic_receiver(sensor, &removed);
 
-    // remove reference from platform_manager
+        // remove reference from platform_manager
 
-    platform_manager::instance()->remove(sensor->keyID());
+        platform_manager::instance()->remove(sensor->keyID());
+    }
+    if (listener != nullptr) {
+        for (const auto& pair : removed) {
+            pair->remove_listener(listener);
+        }
+    }
 }
 
 /**
@@ -240,15 +249,13 @@ void sensor_manager::add_multistatic_receiver(
  * sensor_manager::remove_sensor().
  */
 void sensor_manager::remove_monostatic_pair(
-    const sensor_model::sptr& sensor, update_listener<sensor_pair>* listener) {
+    const sensor_model::sptr& sensor, pair_list* removed) {
     auto sensorID = sensor->keyID();
     auto hash_key = sensor_pair::generate_hash_key(sensorID, sensorID);
     auto pair = find(hash_key);
     if (pair != nullptr) {
         remove(hash_key);
-        if (listener != nullptr) {
-            pair->remove_listener(listener);
-        }
+        removed->push_back(pair);
     }
 }
 
@@ -257,7 +264,7 @@ void sensor_manager::remove_monostatic_pair(
  * sensor_manager::remove_sensor().
  */
 void sensor_manager::remove_multistatic_source(
-    const sensor_model::sptr& source, update_listener<sensor_pair>* listener) {
+    const sensor_model::sptr& source, pair_list* removed) {
     auto sourceID = source->keyID();
     for (auto receiverID : _rcv_list) {
         if (sourceID != receiverID) {
@@ -267,9 +274,7 @@ void sensor_manager::remove_multistatic_source(
             auto pair = find(hash_key);
             if (pair != nullptr) {
                 remove(hash_key);
-                if (listener != nullptr) {
-                    pair->remove_listener(listener);
-                }
+                removed->push_back(pair);
             }
         }
     }
@@ -281,7 +286,7 @@ void sensor_manager::remove_multistatic_source(
  */
 void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
-    update_listener<sensor_pair>* listener) {
+    pair_list* removed) {
     auto receiverID = receiver->keyID();
     for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
@@ -291,9 +296,7 @@ void sensor_manager::remove_multistatic_receiver(
             auto pair = find(hash_key);
             if (pair != nullptr) {
                 remove(hash_key);
-                if (listener != nullptr) {
-                    pair->remove_listener(listener);
-                }
+                removed->push_back(pair);
             }
         }
     }
diff --git a/sensors/sensor_manager.h b/sensors/sensor_manager.h
index 3cdfbf7..b205325 100644
--- a/sensors/sensor_manager.h
+++ b/sensors/sensor_manager.h
@@ -167,30 +167,30 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
      * sensor_manager::remove_sensor().
      *
      * @param sensor 	Monostatic sensor to be removed.
-     * @param listener	Update listener for sensor_pair objects.
+     * @param removed	Pairs that have been removed.
      */
     void remove_monostatic_pair(const sensor_model::sptr& sensor,
-                                update_listener<sensor_pair>* listener);
+                                pair_list* removed);
 
     /**
      * Removes all multistatic pairs with the provided source. Called from
      * sensor_manager::remove_sensor().
      *
      * @param source 	Multistatic source to be removed.
-     * @param listener	Update listener for sensor_pair objects.
+     * @param removed	Pairs that have been removed.
      */
     void remove_multistatic_source(const sensor_model::sptr& source,
-                                   update_listener<sensor_pair>* listener);
+                                   pair_list* removed);
 
     /**
      * Removes all multistatic pairs with he provided receiver. Called from
      * sensor_manager::remove_sensor().
      *
      * @param receiver 	Multistatic receiver to be removed.
-     * @param listener	Update listener for sensor_pair objects.
+     * @param removed	Pairs that have been removed.
      */
     void remove_multistatic_receiver(const sensor_model::sptr& receiver,
-                                     update_listener<sensor_pair>* listener);
+                                     pair_list* removed);
 
     /**
      * The singleton access pointer.
-- 
2.43.0


From e7164cf3bbf9815347ad8cd5937616163ae92b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 10/39] fix: wavefront generator used sensors that had been
 destroyed

A sensor could be removed, and destroyed, while its wavefront calculation was
still waiting or executing.
---
 sensors/sensor_model.h         | 6 ++++--
 wavegen/wavefront_generator.cc | 6 +++++-
 wavegen/wavefront_generator.h  | 8 ++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_model.h b/sensors/sensor_model.h
index 5b3b6e9..a5d5566 100644
--- a/sensors/sensor_model.h
+++ b/sensors/sensor_model.h
@@ -75,8 +75,10 @@ using namespace usml::wavegen;
  * listeners when eigenray and eigenverb data has changed. Does not notify
  * listeners when other fields like position and orientation change.
  */
-class USML_DECLSPEC sensor_model : public platform_model,
-                                   public wavefront_notifier {
+class USML_DECLSPEC sensor_model
+    : public platform_model,
+      public wavefront_notifier,
+      public std::enable_shared_from_this<sensor_model> {
    public:
     /**
      * Form of the shared pointer that supports access to sensor_model
diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index ba0f041..8e9fe68 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -33,6 +33,8 @@ wavefront_generator::wavefront_generator(
     int max_bottom, int max_surface, const std::string& wavefront_file)
     : _ocean(ocean_shared::current()),
       _source(source),
+      _source_ref(source->weak_from_this()),
+      _source_shared(!_source_ref.expired()),
       _source_position(source->position()),
       _target_positions(target_positions),
       _targetIDs(targetIDs),
@@ -51,8 +53,10 @@ wavefront_generator::wavefront_generator(
  */
 void wavefront_generator::run() {
     // check to see if task has already been aborted
+    // or if the source was destroyed, keep it alive during execution
 
-    if (_abort) {
+    const auto source_ref = _source_ref.lock();
+    if (_abort || (_source_shared && source_ref == nullptr)) {
         cout << "task #" << id()
              << " wavefront_generator *** aborted before execution ***" << endl;
         return;
diff --git a/wavegen/wavefront_generator.h b/wavegen/wavefront_generator.h
index fda1f92..4785659 100644
--- a/wavegen/wavefront_generator.h
+++ b/wavegen/wavefront_generator.h
@@ -12,6 +12,7 @@
 #include <usml/usml_config.h>
 
 #include <boost/numeric/ublas/matrix.hpp>
+#include <memory>
 
 namespace usml {
 namespace sensors {
@@ -81,6 +82,13 @@ class USML_DECLSPEC wavefront_generator : public thread_task {
     /// Also the destination of wavefront_listener callbacks.
     sensor_model* _source;
 
+    /// Detects sources that have been destroyed before execution.
+    /// Empty if the source is not owned by a shared pointer.
+    std::weak_ptr<sensor_model> _source_ref;
+
+    /// True if the source is owned by a shared pointer.
+    bool _source_shared;
+
     /// Position of the source at the time of invocation.
     /// Cached to avoid change while the calculation is being performed.
     const wposition1 _source_position;
-- 
2.43.0


From bd91a05d3d1a9e58b6bf3e368b544306d7ae8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:01 +0000
Subject: [PATCH 11/39] fix: direct paths computed by the receiver were not
 described from source to receiver

Identifiers and position of the target were those of the source, and the angles
of the reversed rays pointed backwards.
---
 sensors/sensor_pair.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index c7cd34f..61b15f8 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -19,6 +19,7 @@
 #include <usml/types/wposition1.h>
 
 #include <boost/numeric/ublas/matrix.hpp>
+#include <cmath>
 #include <sstream>
 
 using namespace usml::sensors;
@@ -83,24 +84,22 @@ void sensor_pair::update_wavefront_data(
         // eigenray collection has eigenray list for all targets near this
         // sensor find the eigenray list specific to this pair
 
-        auto sourceID = _source->keyID();
-        auto targetID = _receiver->keyID();
-        wposition1 source_pos(_source->position());
-        wposition1 receiver_pos(_receiver->position());
+        const auto sourceID = _source->keyID();
+        const auto targetID = _receiver->keyID();
+        const wposition1 receiver_pos(_receiver->position());
         eigenray_list raylist = eigenrays->find_eigenrays(targetID);
 
         // swap source/receiver sense of direct path eigenrays, if needed
+        // angles at each end are those of a ray travelling the other way
 
-        if (_source != _receiver && sensor->keyID() == _receiver->keyID()) {
-            sourceID = _receiver->keyID();
-            targetID = _source->keyID();
-            source_pos = _receiver->position();
-            receiver_pos = _source->position();
+        if (_source != _receiver && sensor->keyID() == targetID) {
             eigenray_list new_list;
-            for (const auto& ray : eigenrays->find_eigenrays(targetID)) {
+            for (const auto& ray : eigenrays->find_eigenrays(sourceID)) {
                 auto* copy = new eigenray_model(*ray);
-                std::swap(copy->source_de, copy->target_de);
-                std::swap(copy->source_az, copy->target_az);
+                copy->source_de = -ray->target_de;
+                copy->source_az = fmod(ray->target_az + 180.0, 360.0);
+                copy->target_de = -ray->source_de;
+                copy->target_az = fmod(ray->source_az + 180.0, 360.0);
                 new_list.push_back(eigenray_model::csptr(copy));
             }
             raylist = new_list;  // replace original list
-- 
2.43.0


From cca5cc7295f205451b8500faf28067b0c2985c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 12/39] fix: pairs without transmit schedule never notified
 their listeners, and crashed when it was set early

Listeners were not notified of finished reverberation without transmit schedule.
Setting a schedule before the bistatic eigenverbs were computed started a time
series calculation without them.
---
 sensors/sensor_model.cc |  3 +-
 sensors/sensor_pair.cc  | 61 +++++++++++++++++++++++------------------
 sensors/sensor_pair.h   |  9 ++++++
 3 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 7edf8ce..a207148 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -137,8 +137,7 @@ void sensor_model::transmit_schedule(const transmit_list& schedule,
     if (old_schedule.empty() || update_type == FORCE_UPDATE) {
         sensor_manager* sensor_mgr = sensor_manager::instance();
         for (const sensor_pair::sptr& pair : sensor_mgr->find_source(keyID())) {
-            biverb_collection::csptr biverbs = pair->biverbs();
-            pair->notify_update(&biverbs);
+            pair->update_rvbts();
         }
     }
 }
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 61b15f8..2ea5f4a 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -160,42 +160,49 @@ void sensor_pair::update_wavefront_data(
  * background task.
  */
 void sensor_pair::notify_update(const biverb_collection::csptr* object) {
-    bool notify_early{true};
     {
         write_lock_guard guard(_mutex);
         _biverbs = *object;
-        if (_source->transmit_schedule().empty()) {
-            return;
-        }
-
-        // compute treverb from transmit schedule
+    }
+    if (!update_rvbts()) {
+        notify_update(this);
+    }
+}
 
-        const double treverb_min = 0.1;
-        double treverb = 0.0;
-        for (const auto& transmit : _source->transmit_schedule()) {
-            if (treverb == 0.0) {
-                treverb = transmit->duration;
-            } else {
-                treverb = std::min(treverb, transmit->duration);
-            }
-        }
-        treverb = std::max(treverb_min, treverb / 2.0);
+/**
+ * Launches a new rvbts_generator to compute reverberation time series.
+ */
+bool sensor_pair::update_rvbts() {
+    write_lock_guard guard(_mutex);
+    const auto schedule = _source->transmit_schedule();
+    if (_biverbs == nullptr || schedule.empty()) {
+        return false;
+    }
 
-        // launch a new reverberation time series generator background task
+    // compute treverb from transmit schedule
 
-        notify_early = false;
-        if (_rvbts_task != nullptr) {  // abort incomplete tasks
-            _rvbts_task->abort();
+    const double treverb_min = 0.1;
+    double treverb = 0.0;
+    for (const auto& transmit : schedule) {
+        if (treverb == 0.0) {
+            treverb = transmit->duration;
+        } else {
+            treverb = std::min(treverb, transmit->duration);
         }
-        sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-        _rvbts_task = std::make_shared<rvbts_generator>(
-            reference, _source, _receiver, treverb, _biverbs);
-        thread_controller::instance()->run(_rvbts_task);
-        _rvbts_task.reset();  // destroy background task shared pointer
     }
-    if (notify_early) {
-        notify_update(this);
+    treverb = std::max(treverb_min, treverb / 2.0);
+
+    // launch a new reverberation time series generator background task
+
+    if (_rvbts_task != nullptr) {  // abort incomplete tasks
+        _rvbts_task->abort();
     }
+    sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
+    _rvbts_task = std::make_shared<rvbts_generator>(reference, _source,
+                                                    _receiver, treverb, _biverbs);
+    thread_controller::instance()->run(_rvbts_task);
+    _rvbts_task.reset();  // destroy background task shared pointer
+    return true;
 }
 
 /**
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index 0674a08..13b711d 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -189,6 +189,15 @@ class USML_DECLSPEC sensor_pair
      */
     virtual void notify_update(const biverb_collection::csptr* object) override;
 
+    /**
+     * Launches a new rvbts_generator to compute reverberation time series from
+     * the current bistatic eigenverbs and transmit schedule. Aborts previous
+     * rvbts_generator if it has not been completed.
+     *
+     * @return  False if bistatic eigenverbs or transmit schedule are missing.
+     */
+    bool update_rvbts();
+
     /**
      * Update reverberation time series using results of the rvbts_generator
      * background task. Stores a reference to the reverberation time series then
-- 
2.43.0


From f8ed583f41b09bc8a1f47d34654edbc51b29f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 13/39] fix: results of superseded background tasks replaced
 those of newer ones

Pairs forgot their tasks right after starting them, so they were never aborted,
and a task that was superseded after its last check could deliver its results
after those of the newer task.
---
 biverbs/biverb_generator.h     |  3 +++
 rvbts/rvbts_generator.cc       |  4 ++--
 rvbts/rvbts_generator.h        |  6 ++++++
 sensors/sensor_pair.cc         | 30 +++++++++++++++++++-----------
 sensors/sensor_pair.h          | 16 ++++++++++++----
 wavegen/wavefront_generator.cc |  7 +++++++
 wavegen/wavefront_notifier.h   | 12 ++++++++++++
 7 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/biverbs/biverb_generator.h b/biverbs/biverb_generator.h
index 1ed4731..e650696 100644
--- a/biverbs/biverb_generator.h
+++ b/biverbs/biverb_generator.h
@@ -69,6 +69,9 @@ class USML_DECLSPEC biverb_generator
      */
     virtual void run();
 
+    /// Result of this calculation, argument of update notifications.
+    const biverb_collection::csptr* result() const { return &_collection; }
+
    private:
     /**
      * The sensor pair that instantiated this class
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index fdaa55c..2b0a969 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -92,7 +92,7 @@ void rvbts_generator::run() {
     auto* collection = new rvbts_collection(
         _source, _source_pos, _source_orient, _source_speed, _receiver,
         _receiver_pos, _receiver_orient, _receiver_speed, _travel_times);
-    rvbts_collection::csptr result(collection);
+    _collection = rvbts_collection::csptr(collection);
 
     cout << "task #" << id() << " rvbts_generator: " << _description << endl;
 
@@ -121,6 +121,6 @@ void rvbts_generator::run() {
     // notify listeners of results
 
     _done = true;
-    notify_update(&result);
+    notify_update(&_collection);
     cout << "task #" << id() << " rvbts_generator: done" << endl;
 }
diff --git a/rvbts/rvbts_generator.h b/rvbts/rvbts_generator.h
index 421ba40..ed942c8 100644
--- a/rvbts/rvbts_generator.h
+++ b/rvbts/rvbts_generator.h
@@ -65,6 +65,9 @@ class USML_DECLSPEC rvbts_generator
      */
     virtual void run();
 
+    /// Result of this calculation, argument of update notifications.
+    const rvbts_collection::csptr* result() const { return &_collection; }
+
    private:
     /**
      * Compute source steerings for each transmit waveform. Steerings in the
@@ -121,6 +124,9 @@ class USML_DECLSPEC rvbts_generator
      * the transmit schedule.
      */
     matrix<double> _source_steering;
+
+    /// Reverberation time series generated by this calculation.
+    rvbts_collection::csptr _collection;
 };
 
 /// @}
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 2ea5f4a..3e0d1b5 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -136,17 +136,18 @@ void sensor_pair::update_wavefront_data(
             // launch a new bistatic eigenverb generator background task
 
             if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
-                if (_biverb_task != nullptr) {  // abort incomplete tasks
-                    _biverb_task->abort();
+                if (const auto task = _biverb_task.lock()) {
+                    task->abort();  // abort incomplete tasks
                 }
                 sensor_pair::sptr reference =
                     sensor_manager::instance()->find(keyID());
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
-                _biverb_task = std::make_shared<biverb_generator>(
+                const auto task = std::make_shared<biverb_generator>(
                     reference, src_verbs, rcv_verbs);
-                thread_controller::instance()->run(_biverb_task);
-                _biverb_task.reset();  // destroy background task shared pointer
+                _biverb_task = task;
+                _biverb_result = task->result();
+                thread_controller::instance()->run(task);
             }
         }
     }
@@ -162,6 +163,9 @@ void sensor_pair::update_wavefront_data(
 void sensor_pair::notify_update(const biverb_collection::csptr* object) {
     {
         write_lock_guard guard(_mutex);
+        if (_biverb_result != nullptr && object != _biverb_result) {
+            return;  // superseded by a newer calculation
+        }
         _biverbs = *object;
     }
     if (!update_rvbts()) {
@@ -194,14 +198,15 @@ bool sensor_pair::update_rvbts() {
 
     // launch a new reverberation time series generator background task
 
-    if (_rvbts_task != nullptr) {  // abort incomplete tasks
-        _rvbts_task->abort();
+    if (const auto task = _rvbts_task.lock()) {
+        task->abort();  // abort incomplete tasks
     }
     sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-    _rvbts_task = std::make_shared<rvbts_generator>(reference, _source,
-                                                    _receiver, treverb, _biverbs);
-    thread_controller::instance()->run(_rvbts_task);
-    _rvbts_task.reset();  // destroy background task shared pointer
+    const auto task = std::make_shared<rvbts_generator>(
+        reference, _source, _receiver, treverb, _biverbs);
+    _rvbts_task = task;
+    _rvbts_result = task->result();
+    thread_controller::instance()->run(task);
     return true;
 }
 
@@ -212,6 +217,9 @@ bool sensor_pair::update_rvbts() {
 void sensor_pair::notify_update(const rvbts_collection::csptr* object) {
     {
         write_lock_guard guard(_mutex);
+        if (_rvbts_result != nullptr && object != _rvbts_result) {
+            return;  // superseded by a newer calculation
+        }
         _rvbts = *object;
     }
     notify_update(this);
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index 13b711d..bd08039 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -250,11 +250,19 @@ class USML_DECLSPEC sensor_pair
     /// Reverberation time series time series.
     rvbts_collection::csptr _rvbts;
 
-    /// Background task used to generate biverb objects.
-    std::shared_ptr<biverb_generator> _biverb_task;
+    /// Latest background task used to generate biverb objects.
+    /// The task is owned by the thread pool.
+    std::weak_ptr<biverb_generator> _biverb_task;
 
-    /// Background task used to generate reverberation time series objects.
-    std::shared_ptr<rvbts_generator> _rvbts_task;
+    /// Result of the latest biverb task, those of other tasks are outdated.
+    const biverb_collection::csptr* _biverb_result{nullptr};
+
+    /// Latest background task used to generate reverberation time series
+    /// objects. The task is owned by the thread pool.
+    std::weak_ptr<rvbts_generator> _rvbts_task;
+
+    /// Result of the latest rvbts task, those of other tasks are outdated.
+    const rvbts_collection::csptr* _rvbts_result{nullptr};
 };
 
 typedef std::list<sensor_pair::sptr> pair_list;
diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index 8e9fe68..cd53680 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -122,7 +122,14 @@ void wavefront_generator::run() {
     }
 
     // distribute eigenrays and eigenverbs to listeners
+    // unless a newer calculation has been started in the mean time
 
+    std::lock_guard<std::mutex> guard(_source->notify_mutex());
+    if (_abort) {
+        cout << "task #" << id()
+             << " wavefront_generator *** aborted after execution ***" << endl;
+        return;
+    }
     _done = true;
     _source->notify_wavefront_listeners(
         _source, eigenray_collection::csptr(eigenrays),
diff --git a/wavegen/wavefront_notifier.h b/wavegen/wavefront_notifier.h
index 5dbb555..cab2862 100644
--- a/wavegen/wavefront_notifier.h
+++ b/wavegen/wavefront_notifier.h
@@ -10,6 +10,8 @@
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_listener.h>
 
+#include <mutex>
+
 namespace usml {
 namespace wavegen {
 
@@ -40,7 +42,17 @@ class USML_DECLSPEC wavefront_notifier {
         const sensor_model* sensor, const eigenray_collection::csptr& eigenrays,
         const eigenverb_collection::csptr& eigenverbs);
 
+    /**
+     * Mutex that keeps wavefront updates in the order of their calculations.
+     * Hold it from checking that an update is not outdated until listeners
+     * have been notified.
+     */
+    std::mutex& notify_mutex() { return _notify_mutex; }
+
    private:
+    /// Mutex that keeps wavefront updates in the order of their calculations.
+    std::mutex _notify_mutex;
+
     /**
      * List of active wavefront listeners.
      */
-- 
2.43.0


From fbacac7dcc06512f3f8385d8127120557a0fecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 14/39] fix: removed pairs were used by background tasks

Removing a sensor while its pairs computed reverberation dereferenced the
missing pair, or notified a pair that had been destroyed. Resetting the sensor
manager left biverb tasks without frequencies.
---
 biverbs/biverb_generator.cc |  6 ++----
 rvbts/rvbts_generator.cc    |  1 +
 rvbts/rvbts_generator.h     |  3 +++
 sensors/sensor_pair.cc      | 16 +++++++++++-----
 sensors/sensor_pair.h       |  3 ++-
 5 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/biverbs/biverb_generator.cc b/biverbs/biverb_generator.cc
index 03a8bad..68a51f3 100644
--- a/biverbs/biverb_generator.cc
+++ b/biverbs/biverb_generator.cc
@@ -8,7 +8,6 @@
 #include <usml/managed/managed_obj.h>
 #include <usml/ocean/ocean_model.h>
 #include <usml/ocean/ocean_shared.h>
-#include <usml/sensors/sensor_manager.h>
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/vector.hpp>
@@ -48,9 +47,7 @@ void biverb_generator::run() {
     // initialize workspace for results
 
     auto ocean = ocean_shared::current();
-    auto freq = sensor_manager::instance()->frequencies();
-    const size_t num_freq = freq->size();
-    vector<double> scatter(num_freq, 0.0);
+    vector<double> scatter;
     auto* collection = new biverb_collection(ocean->num_volume());
 
     // loop through eigenverbs for each interface
@@ -60,6 +57,7 @@ void biverb_generator::run() {
         for (const auto& rcv_verb : _rcv_eigenverbs->eigenverbs(interface)) {
             eigenverb_list found_verbs =
                 _src_eigenverbs->find_eigenverbs(rcv_verb, interface);
+            scatter.resize(rcv_verb->frequencies->size());
             for (const auto& src_verb : found_verbs) {
                 ocean->scattering(interface, rcv_verb->position,
                                   rcv_verb->frequencies, src_verb->grazing,
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index 2b0a969..28a2881 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -27,6 +27,7 @@ rvbts_generator::rvbts_generator(const sensor_pair::sptr& pair,
                                  const double treverb,
                                  const biverb_collection::csptr& biverbs)
     : _description(pair->description()),
+      _sensor_pair(pair),
       _source(source),
       _source_pos(source->position()),
       _source_orient(source->orient()),
diff --git a/rvbts/rvbts_generator.h b/rvbts/rvbts_generator.h
index ed942c8..dee0892 100644
--- a/rvbts/rvbts_generator.h
+++ b/rvbts/rvbts_generator.h
@@ -85,6 +85,9 @@ class USML_DECLSPEC rvbts_generator
     /// Human readable name for this object instance.
     const std::string _description;
 
+    /// Object to notify when complete, must not be destroyed before.
+    const sensor_pair::sptr _sensor_pair;
+
     /// Reference to source sensor
     const sensor_model::sptr _source;
 
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 3e0d1b5..114da95 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -77,6 +77,12 @@ sensor_model::sptr sensor_pair::complement(
 void sensor_pair::update_wavefront_data(
     const sensor_model* sensor, eigenray_collection::csptr eigenrays,
     eigenverb_collection::csptr eigenverbs) {
+    // keeps this pair alive until its update is complete
+    // pairs that have been removed start no further calculations
+
+    const sensor_pair::sptr reference =
+        sensor_manager::instance()->find(keyID());
+
     bool notify_early{true};
     {
         write_lock_guard guard(_mutex);
@@ -135,12 +141,11 @@ void sensor_pair::update_wavefront_data(
 
             // launch a new bistatic eigenverb generator background task
 
-            if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
+            if (reference.get() == this && _src_eigenverbs != nullptr &&
+                _rcv_eigenverbs != nullptr) {
                 if (const auto task = _biverb_task.lock()) {
                     task->abort();  // abort incomplete tasks
                 }
-                sensor_pair::sptr reference =
-                    sensor_manager::instance()->find(keyID());
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
                 const auto task = std::make_shared<biverb_generator>(
@@ -177,9 +182,11 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
  * Launches a new rvbts_generator to compute reverberation time series.
  */
 bool sensor_pair::update_rvbts() {
+    const sensor_pair::sptr reference =
+        sensor_manager::instance()->find(keyID());
     write_lock_guard guard(_mutex);
     const auto schedule = _source->transmit_schedule();
-    if (_biverbs == nullptr || schedule.empty()) {
+    if (reference.get() != this || _biverbs == nullptr || schedule.empty()) {
         return false;
     }
 
@@ -201,7 +208,6 @@ bool sensor_pair::update_rvbts() {
     if (const auto task = _rvbts_task.lock()) {
         task->abort();  // abort incomplete tasks
     }
-    sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
     const auto task = std::make_shared<rvbts_generator>(
         reference, _source, _receiver, treverb, _biverbs);
     _rvbts_task = task;
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index bd08039..d7fda40 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -194,7 +194,8 @@ class USML_DECLSPEC sensor_pair
      * the current bistatic eigenverbs and transmit schedule. Aborts previous
      * rvbts_generator if it has not been completed.
      *
-     * @return  False if bistatic eigenverbs or transmit schedule are missing.
+     * @return  False if bistatic eigenverbs or transmit schedule are missing,
+     *          or if this pair has been removed from the sensor_manager.
      */
     bool update_rvbts();
 
-- 
2.43.0


From 5ccbedfb547d75c35523bafd998ac5021d2653b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 15/39] fix: recalculation requested by a new pair was lost
 during an update of the sensor

The flag was cleared after it had been tested, and could be set before the pair
was able to receive results.
---
 sensors/sensor_model.cc | 3 +--
 sensors/sensor_model.h  | 3 ++-
 sensors/sensor_pair.cc  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index a207148..9f96f31 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -156,7 +156,7 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
     // clang-format off
     bool update_acoustics =
 		update_type != NO_UPDATE && (
-        update_type == FORCE_UPDATE || _needs_update
+        _needs_update.exchange(false) || update_type == FORCE_UPDATE
 		|| abs(p1.latitude() - p2.latitude()) >= motion_thresholds::lat_threshold
 		|| abs(p1.longitude() - p2.longitude()) >= motion_thresholds::lon_threshold
 		|| abs(p1.altitude() - p2.altitude()) >= motion_thresholds::alt_threshold
@@ -172,7 +172,6 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
     // start wavefront_generator background task to update acoustics
 
     if (update_acoustics) {
-        _needs_update = false;
         _update_position = pos;
         _update_orient = orient;
 
diff --git a/sensors/sensor_model.h b/sensors/sensor_model.h
index a5d5566..5e42c36 100644
--- a/sensors/sensor_model.h
+++ b/sensors/sensor_model.h
@@ -19,6 +19,7 @@
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_notifier.h>
 
+#include <atomic>
 #include <cstddef>
 #include <list>
 #include <map>
@@ -381,7 +382,7 @@ class USML_DECLSPEC sensor_model
     std::string _wavefront_file;
 
     /// True if acoustics ever updated.
-    bool _needs_update{true};
+    std::atomic<bool> _needs_update{true};
 
     /// Location of the platform at last acoustic update.
     wposition1 _update_position;
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 114da95..f47b5b3 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -35,10 +35,10 @@ sensor_pair::sensor_pair(const sensor_model::sptr& source,
       _source(source),
       _receiver(receiver),
       _compute_reverb(source->compute_reverb() && receiver->compute_reverb()) {
-    source->set_needs_update();
-    receiver->set_needs_update();
     source->add_wavefront_listener(this);
     receiver->add_wavefront_listener(this);
+    source->set_needs_update();
+    receiver->set_needs_update();
 }
 
 /**
-- 
2.43.0


From 4fe1660f89e8e62ce6d4209cee4c0e4faa5b056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:01 +0000
Subject: [PATCH 16/39] fix: turning or moving across the 360 degree seam
 looked like a large motion

---
 sensors/sensor_model.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 9f96f31..464b389 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -158,11 +158,11 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
 		update_type != NO_UPDATE && (
         _needs_update.exchange(false) || update_type == FORCE_UPDATE
 		|| abs(p1.latitude() - p2.latitude()) >= motion_thresholds::lat_threshold
-		|| abs(p1.longitude() - p2.longitude()) >= motion_thresholds::lon_threshold
+		|| abs(remainder(p1.longitude() - p2.longitude(), 360.0)) >= motion_thresholds::lon_threshold
 		|| abs(p1.altitude() - p2.altitude()) >= motion_thresholds::alt_threshold
-		|| abs(o1.yaw() - o2.yaw()) >= motion_thresholds::yaw_threshold
+		|| abs(remainder(o1.yaw() - o2.yaw(), 360.0)) >= motion_thresholds::yaw_threshold
 		|| abs(o1.pitch() - o2.pitch()) >= motion_thresholds::pitch_threshold
-		|| abs(o1.roll() - o2.roll()) >= motion_thresholds::roll_threshold);
+		|| abs(remainder(o1.roll() - o2.roll(), 360.0)) >= motion_thresholds::roll_threshold);
     // clang-format on
 
     // update motion of sensor
-- 
2.43.0


From e0e614c092f25e2064e773657637dd363303f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 17/39] fix: reverberation time series started from
 uninitialized memory

---
 rvbts/rvbts_collection.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 9f56918..a370007 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -12,6 +12,7 @@
 #include <usml/ublas/vector_math.h>
 
 #include <boost/numeric/ublas/fwd.hpp>
+#include <boost/numeric/ublas/matrix.hpp>
 #include <boost/numeric/ublas/storage.hpp>
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/vector_expression.hpp>
@@ -47,7 +48,8 @@ rvbts_collection::rvbts_collection(
       _receiver_orient(receiver_orient),
       _receiver_speed(receiver_speed),
       _travel_times(travel_times),
-      _time_series(receiver->rcv_num_keys(), travel_times->size()) {}
+      _time_series(zero_matrix<double>(receiver->rcv_num_keys(),
+                                       travel_times->size())) {}
 
 /**
  * Adds the intensity contribution for a single bistatic eigenverb.
-- 
2.43.0


From c586f470ad6c6d17edd4b203a72bb04018718076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 18/39] fix: new pairs did not compute results that arrived
 while they were added

A pair listened to its sensors before it was part of the sensor manager;
results delivered in between found no pair to start a calculation for.
---
 sensors/sensor_manager.cc |  3 +++
 sensors/sensor_pair.cc    | 15 ++++++++++-----
 sensors/sensor_pair.h     | 10 ++++++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index bd281c1..08f58e9 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -197,6 +197,7 @@ void sensor_manager::add_monostatic_pair(
             pair->add_listener(listener);
         }
         add(pair);
+        pair->connect();
     }
 }
 
@@ -217,6 +218,7 @@ void sensor_manager::add_multistatic_source(
                     pair->add_listener(listener);
                 }
                 add(pair);
+                pair->connect();
             }
         }
     }
@@ -239,6 +241,7 @@ void sensor_manager::add_multistatic_receiver(
                     pair->add_listener(listener);
                 }
                 add(pair);
+                pair->connect();
             }
         }
     }
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index f47b5b3..9bd370b 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -34,11 +34,16 @@ sensor_pair::sensor_pair(const sensor_model::sptr& source,
           source->description() + " -> " + receiver->description()),
       _source(source),
       _receiver(receiver),
-      _compute_reverb(source->compute_reverb() && receiver->compute_reverb()) {
-    source->add_wavefront_listener(this);
-    receiver->add_wavefront_listener(this);
-    source->set_needs_update();
-    receiver->set_needs_update();
+      _compute_reverb(source->compute_reverb() && receiver->compute_reverb()) {}
+
+/**
+ * Starts to listen for updates of the source and receiver.
+ */
+void sensor_pair::connect() {
+    _source->add_wavefront_listener(this);
+    _receiver->add_wavefront_listener(this);
+    _source->set_needs_update();
+    _receiver->set_needs_update();
 }
 
 /**
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index d7fda40..a656ef6 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -65,8 +65,7 @@ class USML_DECLSPEC sensor_pair
       public update_notifier<sensor_pair> {
    public:
     /**
-     * Construct link between source and receiver. Makes this pair an
-     * update_listener to both the source and receiver. The source and receiver
+     * Construct link between source and receiver. The source and receiver
      * will be equal for monostatic sensors.
      *
      * @param    source      Reference to the source for this pair.
@@ -80,6 +79,13 @@ class USML_DECLSPEC sensor_pair
      */
     virtual ~sensor_pair();
 
+    /**
+     * Makes this pair an update_listener to both the source and receiver.
+     * Called after this pair has been added to the sensor_manager, because
+     * pairs which are not part of it do not start any background tasks.
+     */
+    void connect();
+
     /// Lookup key for this combination of source and receiver
     std::string hash_key() const {
         read_lock_guard guard(_mutex);
-- 
2.43.0


From a532d1cd90eb4fb42d032e91124587ff9df24b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 19/39] fix: dead reckoning lengthened paths when the source
 moved along the ray

The source moves towards the target when it moves along the ray, which makes the path shorter. The target's motion was projected on the angles at the source instead of the angles at the target.
---
 eigenrays/eigenray_collection.cc | 25 ++++++++++++++++---------
 eigenrays/eigenray_collection.h  |  4 +++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 0f2ec9a..d5d1a3d 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -361,10 +361,10 @@ void eigenray_collection::write_netcdf(const char *filename,
 eigenray_list eigenray_collection::dead_reckon(
     size_t t1, size_t t2, const wposition1 &source_new,
     const wposition1 &target_new, const profile_model::csptr &profile) const {
-    eigenray_list eigenrays =
-        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile);
+    eigenray_list eigenrays = dead_reckon_one(_eigenrays(t1, t2), _source_pos,
+                                              source_new, profile, true);
     return dead_reckon_one(eigenrays, wposition1(_target_pos, t1, t2),
-                           target_new, profile);
+                           target_new, profile, false);
 }
 
 /**
@@ -372,7 +372,8 @@ eigenray_list eigenray_collection::dead_reckon(
  */
 eigenray_list eigenray_collection::dead_reckon_one(
     const eigenray_list &eigenrays, const wposition1 &oldpos,
-    const wposition1 &newpos, const profile_model::csptr &profile) {
+    const wposition1 &newpos, const profile_model::csptr &profile,
+    bool at_source) {
     // compute position change in local tangent plane
 
     double dir[3] = {newpos.rho() - oldpos.rho(),
@@ -403,10 +404,12 @@ eigenray_list eigenray_collection::dead_reckon_one(
     for (const auto &ray : eigenrays) {
         auto *new_ray = new eigenray_model(*ray);
 
-        // compute ray direction in local tangent plane
+        // compute ray direction in local tangent plane of the moving sensor
 
-        const double de = to_radians(ray->source_de);
-        const double az = to_radians(ray->source_az);
+        const double de =
+            to_radians(at_source ? ray->source_de : ray->target_de);
+        const double az =
+            to_radians(at_source ? ray->source_az : ray->target_az);
         const double cos_de = cos(de);
         const double sin_de = sin(de);
         const double cos_az = cos(az);
@@ -414,10 +417,14 @@ eigenray_list eigenray_collection::dead_reckon_one(
         const double raydir[3] = {sin_de, -cos_de * cos_az, cos_de * sin_az};
 
         // change in range is proportional to the component of
-        // slant range along the direction of the ray
+        // slant range along the direction of the ray, the range decreases
+        // when the source follows the ray
 
-        const double dr =
+        double dr =
             (dir[0] * raydir[0] + dir[1] * raydir[1] + dir[2] * raydir[2]);
+        if (at_source) {
+            dr = -dr;
+        }
         new_ray->travel_time = ray->travel_time + dr / sound_speed;
 
         // compute change in intensity along ray path
diff --git a/eigenrays/eigenray_collection.h b/eigenrays/eigenray_collection.h
index 90380f5..2782da8 100644
--- a/eigenrays/eigenray_collection.h
+++ b/eigenrays/eigenray_collection.h
@@ -272,6 +272,7 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
      * @param oldpos    Original sensor location.
      * @param newpos    Updated sensor location.
      * @param profile   Ocean profile model used to extract sound speed.
+     * @param at_source True if the source moves, false if the target moves.
      *
      * @xref E. K. Skarsoullis, "Multi-section matched-peak tomographic
      * inversion with a moving source", J. Acoust. Soc. Am.
@@ -280,7 +281,8 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
     static eigenray_list dead_reckon_one(const eigenray_list &eigenrays,
                                          const wposition1 &oldpos,
                                          const wposition1 &newpos,
-                                         const profile_model::csptr &profile);
+                                         const profile_model::csptr &profile,
+                                         bool at_source);
 };
 
 /// @}
-- 
2.43.0


From eae7a88a7872e76f49596ed7b76efbb649833253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 20/39] fix: files of eigenverbs could not be read back, and
 empty ones not written

read_netcdf looked for names that write_netcdf does not use, and writing an interface without eigenverbs dereferenced the end of an empty list.
---
 eigenverbs/eigenverb_collection.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index 62f6c67..c9e77aa 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -99,7 +99,6 @@ void eigenverb_collection::write_netcdf(const char* filename,
                                         size_t interface) const {
     netCDF::NcFile nc_file(filename, netCDF::NcFile::replace);
     eigenverb_list list = eigenverbs(interface);
-    size_t num_freq = list.begin()->get()->frequencies->size();
 
     switch (interface) {
         case eigenverb_model::BOTTOM:
@@ -129,6 +128,8 @@ void eigenverb_collection::write_netcdf(const char* filename,
     }
 
     if (!list.empty()) {
+        const size_t num_freq = list.begin()->get()->frequencies->size();
+
         // clang-format off
         // dimensions
 
@@ -245,14 +246,17 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     // dimensions
 
     netCDF::NcDim eigenverb_dim = nc_file.getDim("eigenverbs");
+    if (eigenverb_dim.isNull()) {
+        return;  // file written for an interface without eigenverbs
+    }
     size_t num_eigenverbs = eigenverb_dim.getSize();
-    netCDF::NcDim freq_dim = nc_file.getDim("frequency");
+    netCDF::NcDim freq_dim = nc_file.getDim("frequencies");
     size_t num_freq = freq_dim.getSize();
 
     // variables
 
     netCDF::NcVar time_var = nc_file.getVar("travel_time");
-    netCDF::NcVar freq_var = nc_file.getVar("frequency");
+    netCDF::NcVar freq_var = nc_file.getVar("frequencies");
     netCDF::NcVar power_var = nc_file.getVar("power");
     netCDF::NcVar length_var = nc_file.getVar("length");
     netCDF::NcVar width_var = nc_file.getVar("width");
@@ -260,7 +264,7 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     netCDF::NcVar lng_var = nc_file.getVar("longitude");
     netCDF::NcVar alt_var = nc_file.getVar("altitude");
     netCDF::NcVar direction_var = nc_file.getVar("direction");
-    netCDF::NcVar grazing_var = nc_file.getVar("grazing_angle");
+    netCDF::NcVar grazing_var = nc_file.getVar("grazing");
     netCDF::NcVar sound_speed_var = nc_file.getVar("sound_speed");
     netCDF::NcVar de_index_var = nc_file.getVar("de_index");
     netCDF::NcVar az_index_var = nc_file.getVar("az_index");
-- 
2.43.0


From 38d7112d5a2612d5d766dafc30465f2c55a7a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 21/39] fix: beam levels of reverberation used paths in the
 wrong units and frame

The launch angles of a biverb are radians, but were passed to a vector that
takes degrees, and were rotated from body to world instead of back.
---
 rvbts/rvbts_collection.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index a370007..58dbadd 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -24,6 +24,22 @@
 
 using namespace usml::rvbts;
 
+namespace {
+
+/**
+ * Direction of an eigenverb path in the body coordinates of a sensor.
+ *
+ * @param de        Launch D/E angle in world coordinates (radians).
+ * @param az        Launch AZ angle in world coordinates (radians).
+ * @param orient    Orientation of the sensor.
+ */
+bvector body_direction(double de, double az, const orientation &orient) {
+    const bvector world(to_degrees(de), to_degrees(az));
+    return bvector(prod(trans(orient.rotation()), world.data()));
+}
+
+}  // namespace
+
 /**
  * Threshold for minimum envelope power.
  */
@@ -94,8 +110,8 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
-    bvector src_arrival(verb->source_de, verb->source_az);
-    src_arrival.rotate(_source_orient, src_arrival);
+    const bvector src_arrival = body_direction(
+        verb->source_de, verb->source_az, _source_orient);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
     double src_level = transmit->source_level + level[0];
     if (src_level < power_threshold) {
@@ -108,8 +124,8 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
-        bvector rcv_arrival(verb->receiver_de, verb->receiver_az);
-        rcv_arrival.rotate(_receiver_orient, rcv_arrival);
+        const bvector rcv_arrival = body_direction(
+            verb->receiver_de, verb->receiver_az, _receiver_orient);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
         double rcv_level = src_level + verb_level + level[0];
-- 
2.43.0


From 05f382e69abb5b1a18b8d978ea1cbbae57fbc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 22/39] fix: reverberation added levels that are defined to be
 multiplied

Power, source level and beam levels are in linear units, and their product
scales each contribution. The sum gave energy to beams that look away.
---
 rvbts/rvbts_collection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 58dbadd..ae34ac6 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -113,7 +113,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const bvector src_arrival = body_direction(
         verb->source_de, verb->source_az, _source_orient);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
-    double src_level = transmit->source_level + level[0];
+    double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
         return;
     }
@@ -128,7 +128,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
             verb->receiver_de, verb->receiver_az, _receiver_orient);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
-        double rcv_level = src_level + verb_level + level[0];
+        double rcv_level = src_level * verb_level * level[0];
         if (rcv_level < power_threshold) {
             continue;
         }
-- 
2.43.0


From 01a59e8035b345e8158fb3cde9415d43a3aee6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 23/39] fix: reverberation power was interpolated past the end
 of the frequency axis

The nearest frequency was used as the start of the interval, which read
beyond the power of the last one, and the pulse duration was left out as soon
as there was more than one frequency.
---
 rvbts/rvbts_collection.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index ae34ac6..e1be23b 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -92,17 +92,16 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // interpolate eigenverb power
 
-    double verb_level = verb->power[0] * transmit->duration;
+    double verb_level = verb->power[0];
     if (verb->frequencies->size() > 1) {
         double freq = transmit->fcenter;
         const seq_vector &axis = *(verb->frequencies);
-        size_t index = axis.find_nearest(freq);
-        if (index >= axis.size()) {
-            --index;
-        }
+        const size_t index = axis.find_index(freq);
         double u = (freq - axis[index]) / axis.increment(index);
+        u = max(0.0, min(1.0, u));
         verb_level = u * verb->power[index + 1] + (1 - u) * verb->power[index];
     }
+    verb_level *= transmit->duration;
 
     // compute source level for this transmission
 
-- 
2.43.0


From 288124ea9a4f2cbf2badd7885442849d62f722a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 24/39] fix: last samples of reverberation time series were
 never computed

The window excluded the sample at the end of the interval it searched for,
and the last interval starts one before the last sample.
---
 rvbts/rvbts_collection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index e1be23b..d3ea3f8 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -80,7 +80,8 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const auto duration = verb->duration + transmit->duration;
     const auto delay = transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
-    size_t last = _travel_times->find_index(delay + 5.0 * duration);
+    size_t last = min(_travel_times->find_index(delay + 5.0 * duration) + 2,
+                      _travel_times->size());
     range window(first, last);
 
     // update Gaussian time series in this window
-- 
2.43.0


From c73ae2981ababfa359d430ff0abc0523c27555f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 25/39] fix: reverberation wrote past its time series when
 beams are not numbered 0..n-1

The beam key was the row of the matrix. Rows now follow the order of the keys
that the receiver had when the time series was allocated.
---
 rvbts/rvbts_collection.cc | 15 +++++++++++----
 rvbts/rvbts_collection.h  |  4 ++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index d3ea3f8..8b6b320 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -64,7 +64,8 @@ rvbts_collection::rvbts_collection(
       _receiver_orient(receiver_orient),
       _receiver_speed(receiver_speed),
       _travel_times(travel_times),
-      _time_series(zero_matrix<double>(receiver->rcv_num_keys(),
+      _rcv_keys(receiver->rcv_keys()),
+      _time_series(zero_matrix<double>(_rcv_keys.size(),
                                        travel_times->size())) {}
 
 /**
@@ -118,12 +119,18 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         return;
     }
 
-    // add Gaussian to each receiver channel
+    // add Gaussian to each receiver channel, in order of increasing beam key
+
+    size_t channel = 0;
+    for (int rcv : _rcv_keys) {
+        const size_t row = channel++;
 
-    for (int rcv : this->_receiver->rcv_keys()) {
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
+        if (rcv_beam == nullptr) {
+            continue;
+        }
         const bvector rcv_arrival = body_direction(
             verb->receiver_de, verb->receiver_az, _receiver_orient);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
@@ -137,7 +144,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
         for (size_t n = 0; n < gaussian.size(); ++n) {
             auto t = n + first;
-            _time_series(rcv, t) += rcv_level * gaussian[n];
+            _time_series(row, t) += rcv_level * gaussian[n];
         }
     }
 }
diff --git a/rvbts/rvbts_collection.h b/rvbts/rvbts_collection.h
index e068708..a121b27 100644
--- a/rvbts/rvbts_collection.h
+++ b/rvbts/rvbts_collection.h
@@ -13,6 +13,7 @@
 #include <usml/usml_config.h>
 
 #include <boost/numeric/ublas/matrix.hpp>
+#include <list>
 #include <memory>
 
 namespace usml {
@@ -223,6 +224,9 @@ class USML_DECLSPEC rvbts_collection {
     /// Receiver times at which reverberation is computed (sec).
     const seq_vector::csptr _travel_times;
 
+    /// Receiver beam for each channel of the time series.
+    const std::list<int> _rcv_keys;
+
     /// Reverberation time series for each receiver channel.
     matrix<double> _time_series;
 };
-- 
2.43.0


From 25010d949c4ed84f0b8b70cf6e79d85e2ab93644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 26/39] fix: pulses of a transmit schedule were all sent at
 once

The delay of a pulse starts when the previous pulse is complete.
---
 rvbts/rvbts_collection.cc | 5 +++--
 rvbts/rvbts_collection.h  | 3 ++-
 rvbts/rvbts_generator.cc  | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 8b6b320..bf4a45f 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -73,13 +73,14 @@ rvbts_collection::rvbts_collection(
  */
 void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
                                   const transmit_model::csptr &transmit,
-                                  const bvector &steering) {
+                                  const bvector &steering, double start) {
     static const double SQRT_TWO_PI = sqrt(TWO_PI);
 
     // find range of time indices to update
 
     const auto duration = verb->duration + transmit->duration;
-    const auto delay = transmit->delay + verb->travel_time + duration;
+    const auto delay =
+        start + transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
     size_t last = min(_travel_times->find_index(delay + 5.0 * duration) + 2,
                       _travel_times->size());
diff --git a/rvbts/rvbts_collection.h b/rvbts/rvbts_collection.h
index a121b27..3c9daa6 100644
--- a/rvbts/rvbts_collection.h
+++ b/rvbts/rvbts_collection.h
@@ -120,10 +120,11 @@ class USML_DECLSPEC rvbts_collection {
      * @param verb	   	Bistatic eigenverb for time series contribution.
      * @param transmit	Single waveform in a transmission schedule.
      * @param steering 	Transmit steering relative to source array.
+     * @param start     Time at which the previous pulse ended (sec).
      */
     void add_biverb(const biverb_model::csptr& verb,
                     const transmit_model::csptr& transmit,
-                    const bvector& steering);
+                    const bvector& steering, double start = 0.0);
 
     /**
      * Writes reverberation time series data to disk.
diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index 28a2881..8155385 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -104,10 +104,12 @@ void rvbts_generator::run() {
         auto verb_list = _biverbs->biverbs(interface);
         for (const auto& verb : verb_list) {
             int n = 0;
+            double start = 0.0;
             for (const auto& transmit : _transmit_schedule) {
                 bvector steering(
                     matrix_column<matrix<double> >(_source_steering, n));
-                collection->add_biverb(verb, transmit, steering);
+                collection->add_biverb(verb, transmit, steering, start);
+                start += transmit->delay + transmit->duration;
                 if (_abort) {
                     cout << "task #" << id()
                          << " rvbts_generator *** aborted during execution ***"
-- 
2.43.0


From bc7d34b12a12c153b6ed405c0da6c0006d55f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 27/39] fix: reverse iteration of sequences called itself
 forever

---
 types/seq_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/seq_vector.h b/types/seq_vector.h
index ad4442a..c7f6eff 100644
--- a/types/seq_vector.h
+++ b/types/seq_vector.h
@@ -171,14 +171,14 @@ class USML_DECLSPEC seq_vector : public vector_container<seq_vector> {
      * Return reverse iterator to end of sequence.
      */
     const_reverse_iterator rbegin() const {
-        return const_reverse_iterator(rbegin());
+        return const_reverse_iterator(end());
     }
 
     /**
      * Return reverse iterator to start of sequence.
      */
     const_reverse_iterator rend() const {
-        return const_reverse_iterator(rend());
+        return const_reverse_iterator(begin());
     }
 
     /**
-- 
2.43.0


From bf36cbebbbd441fe8ef41744c2c19dc661cb4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 28/39] fix: nearest element of a single valued sequence was
 read past its end

---
 types/seq_vector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 8b7e5ed..930a593 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -22,7 +22,8 @@ using namespace usml::types;
  */
 seq_vector::size_type seq_vector::find_nearest(value_type value) const {
     size_type n = find_index(value);
-    if (abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
+    if (n < _max_index &&
+        abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
         n = n + 1;
     }
     return n;
-- 
2.43.0


From 363d8b8611d91a3d1b1c7ac224c72c1bba1bf90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 29/39] fix: sequences rebuilt from a list of values had other
 values

Logarithmic sequences used the wrong ratio, and lists were taken for linear
when a value was zero or large compared to their spacing.
---
 types/seq_vector.cc | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 930a593..2ece974 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -9,6 +9,7 @@
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/storage.hpp>
+#include <cmath>
 #include <cstdlib>
 
 using namespace usml::types;
@@ -53,24 +54,31 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     bool isLog = true;
 
     const int N = (int)count;
-    double p1 = data[0];
-    double minValue = p1;
-    double maxValue = p1;
+    const double minValue = data[0];
+    double maxValue = minValue;
 
+    double increment = 0.0;
+    double ratio = 0.0;
     if (N > 1) {
-        double p2 = data[1];
-        maxValue = p2;
-        for (size_t n = 2; n < N; ++n) {
-            double p3 = data[n];
-            maxValue = p3;
-            if (p2 != 0.0 && abs(((p3 - p2) - (p2 - p1)) / p2) > 1E-4) {
+        maxValue = data[N - 1];
+        increment = (maxValue - minValue) / (N - 1);
+        isLog = maxValue * minValue > 0.0;
+        if (isLog) {
+            ratio = pow(maxValue / minValue, 1.0 / (N - 1));
+        }
+
+        // a sequence must reproduce each value
+
+        double logValue = minValue;
+        for (int n = 1; n < N - 1; ++n) {
+            const double linearValue = minValue + n * increment;
+            if (abs(data[n] - linearValue) > 1E-3 * abs(increment)) {
                 isLinear = false;
             }
-            if (p1 != 0.0 && p2 != 0.0 && abs((p3 / p2) - (p2 / p1)) > 1E-5) {
+            logValue *= ratio;
+            if (isLog && abs(data[n] / logValue - 1.0) > 1E-5) {
                 isLog = false;
             }
-            p1 = p2;
-            p2 = p3;
         }
     }
 
@@ -80,9 +88,9 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     if (N < 2) {
         seq = new seq_linear(minValue, 1.0, 1);
     } else if (isLinear) {
-        seq = new seq_linear(minValue, (maxValue - minValue) / (N - 1), N);
+        seq = new seq_linear(minValue, increment, N);
     } else if (isLog) {
-        seq = new seq_log(minValue, (maxValue / minValue) / (N - 1), N);
+        seq = new seq_log(minValue, ratio, N);
     } else {
         seq = new seq_data(data, count);
     }
-- 
2.43.0


From 7681ced933a2516c9137fb175020e673190fe7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 30/39] fix: short and falling logarithmic sequences looked up
 wrong intervals

Sequences with one value read past their increments and sequences with two
values had equal increments; values beyond zero belong to the end which is
closest to zero.
---
 types/seq_log.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/types/seq_log.h b/types/seq_log.h
index c8d24ec..96c33f1 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -82,11 +82,18 @@ class USML_DECLSPEC seq_log : public seq_vector {
      *                      than the argument.
      */
     size_type find_index(value_type value) const override {
+        if (_max_index < 1) {
+            return 0;
+        }
+        const value_type ratio = _data[1] / _data[0];
+        value /= _data[0];
+        if (value <= 0.0) {  // beyond the limit of the sequence at zero
+            return (ratio > 1.0) ? 0 : _max_index - 1;
+        }
         return (size_type)max(
             (difference_type)0,
             min((difference_type)this->size() - 2,
-                (difference_type)floor(log(value / _data[0]) /
-                                       log(_increment[1] / _increment[0]))));
+                (difference_type)floor(log(value) / log(ratio))));
     }
 
    private:
@@ -101,6 +108,7 @@ class USML_DECLSPEC seq_log : public seq_vector {
         value_type v = first;
         for (size_type n = 0; n < size; ++n) {
             _data[n] = v;
+            _increment[n] = v * increment - v;
             v *= increment;
             if (n > 0) {
                 _increment[n - 1] = _data[n] - _data[n - 1];
-- 
2.43.0


From 870437e36dbd11ab8f95f4c6945cb384aa166f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 31/39] fix: ray fan with a single angle was not a number

---
 types/seq_rayfan.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/seq_rayfan.cc b/types/seq_rayfan.cc
index 22febfd..ee30fe0 100644
--- a/types/seq_rayfan.cc
+++ b/types/seq_rayfan.cc
@@ -31,7 +31,8 @@ seq_rayfan::seq_rayfan(value_type first, value_type last, size_type size,
 
     const double first_ang = atan((first - center) / spread);
     const double last_ang = atan((last - center) / spread);
-    const double scale = (last_ang - first_ang) / double(size - 1);
+    const double scale =
+        (size > 1) ? (last_ang - first_ang) / double(size - 1) : 0.0;
 
     // fill vector with data
 
-- 
2.43.0


From 3c02968c8974801ad7118d4373bc3cebd280e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 32/39] fix: lookups in augmented sequences used an empty table

---
 types/seq_augment.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/seq_augment.h b/types/seq_augment.h
index 2bb3093..d63f2a3 100755
--- a/types/seq_augment.h
+++ b/types/seq_augment.h
@@ -56,6 +56,10 @@ class USML_DECLSPEC seq_augment : public seq_data {
         }
         _data[size - 1] = (*origin)[size_old - 1];
 
+        _sign = (spacing < 0) ? -1.0 : 1.0;
+        for (size_t i = 0; i < size; ++i) {
+            _data_map[_sign * _data[i]] = i;
+        }
         for (size_t i = 1; i < size; ++i) {
             _increment[i - 1] = _data[i] - _data[i - 1];
         }
-- 
2.43.0


From 7e69c5d716ff39cd5a6fee3be7d8911646d6b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 33/39] fix: logarithmic sequences defined by their last value
 had the wrong size

---
 types/seq_log.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/types/seq_log.h b/types/seq_log.h
index 96c33f1..03b1352 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -57,8 +57,7 @@ class USML_DECLSPEC seq_log : public seq_vector {
                          ? 1
                          : max((difference_type)1,
                                (difference_type)floor(
-                                   1.0 + (log((last + increment / 10) / first) /
-                                          log(increment))))) {
+                                   1.1 + log(last / first) / log(increment)))) {
         initialize(first, increment, size());
     }
 
-- 
2.43.0


From cd0ffbf70648519439e3f9ffa699a9f918b9237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 34/39] fix: values far beyond a sequence were looked up in its
 first interval

---
 types/seq_linear.h | 5 ++---
 types/seq_log.h    | 4 +---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/types/seq_linear.h b/types/seq_linear.h
index 4889f5e..2f03830 100755
--- a/types/seq_linear.h
+++ b/types/seq_linear.h
@@ -88,9 +88,8 @@ class USML_DECLSPEC seq_linear : public seq_vector {
      */
     size_type find_index(value_type value) const override {
         return (size_type)max(
-            (difference_type)0,
-            min((difference_type)this->size() - 2,
-                (difference_type)floor((value - _data[0]) / _increment[0])));
+            0.0, min((double)_max_index - 1.0,
+                     floor((value - _data[0]) / _increment[0])));
     }
 
    private:
diff --git a/types/seq_log.h b/types/seq_log.h
index 03b1352..6ebfdc1 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -90,9 +90,7 @@ class USML_DECLSPEC seq_log : public seq_vector {
             return (ratio > 1.0) ? 0 : _max_index - 1;
         }
         return (size_type)max(
-            (difference_type)0,
-            min((difference_type)this->size() - 2,
-                (difference_type)floor(log(value) / log(ratio))));
+            0.0, min((double)_max_index - 1.0, floor(log(value) / log(ratio))));
     }
 
    private:
-- 
2.43.0


From 3a14f77b0a3bed9e1b623297c9466578c617b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 35/39] fix: sequences with large values were rebuilt as
 logarithmic ones

---
 types/seq_vector.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 2ece974..9a3e1df 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -9,6 +9,7 @@
 #include <usml/types/seq_vector.h>
 
 #include <boost/numeric/ublas/storage.hpp>
+#include <algorithm>
 #include <cmath>
 #include <cstdlib>
 
@@ -76,7 +77,8 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
                 isLinear = false;
             }
             logValue *= ratio;
-            if (isLog && abs(data[n] / logValue - 1.0) > 1E-5) {
+            if (isLog && abs(data[n] / logValue - 1.0) >
+                             std::min(1E-5, 1E-3 * abs(ratio - 1.0))) {
                 isLog = false;
             }
         }
-- 
2.43.0


From 4afc32fc144646affce9dfe8922fcf1585c52ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 36/39] fix: interpolation types of short axes were not changed
 to ones they support

---
 types/data_grid.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/types/data_grid.h b/types/data_grid.h
index 4450fde..05cf3ad 100755
--- a/types/data_grid.h
+++ b/types/data_grid.h
@@ -140,9 +140,8 @@ class USML_DLLEXPORT data_grid {
             type = interp_enum::nearest;
         } else if (type > interp_enum::linear && size < 4) {
             type = interp_enum::linear;
-        } else {
-            this->_interp_type[dimension] = type;
         }
+        this->_interp_type[dimension] = type;
     }
 
     /**
-- 
2.43.0


From 5513d6f440c01caf71ae252242915c6c8d939b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 37/39] fix: nearest interpolation read past the end of single
 valued axes

---
 types/gen_grid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index c276910..0bc72dc 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -210,7 +210,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const size_t k = index[dim];
         seq_vector::csptr ax = this->_axis[dim];
         const double u = (location[dim] - (*ax)(k)) / ax->increment(k);
-        if (u < 0.5) {
+        if (ax->size() < 2 || u < 0.5) {
             result = interp(dim - 1, index, location, da, deriv_vec);
         } else {
             size_t next[NUM_DIMS];
-- 
2.43.0


From 435777c2bb2514117a45d9d24314c6d124da4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 38/39] fix: cubic interpolation used wrong slopes at ends and
 on uneven axes

---
 types/gen_grid.h       | 12 ++++++------
 types/gen_grid_utils.h | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 0bc72dc..a89b85b 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -455,8 +455,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // note that the deriv0 value is bogus values when this is true
 
         } else {
-            slope1 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
+            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
+            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
         }
@@ -474,8 +474,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // average of deriv1 and deriv2.
 
         if (k <= kmax) {
-            const double w1 = 2.0 * h1 + h0;
-            const double w2 = h1 + 2.0 * h0;
+            const double w1 = 2.0 * h2 + h1;
+            const double w2 = h2 + 2.0 * h1;
             derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
                                            w2, deriv_vec, slope2, dslope2);
 
@@ -484,8 +484,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // true
 
         } else {  // otherwise, compute harmonic weighted average
-            slope2 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv0) / (h1 + h0);
+            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
+            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
         }
diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index ceaa367..813cfc5 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -146,13 +146,13 @@ struct end_point_derivative {
     static void compute(argument_type d0, argument_type d1, argument_type dd0,
                         argument_type dd1, bool deriv, argument_type& m,
                         argument_type& dm) {
-        if (m * d0 < 0.0) {
+        if (m * d0 <= 0.0) {
             m = 0.0;
-        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d1))) {
-            m = 3.0 * d1;
+        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
+            m = 3.0 * d0;
         }
         if (deriv) {
-            if (dm * dd0 < 0.0) {
+            if (dm * dd0 <= 0.0) {
                 dm = 0.0;
             } else if ((dd0 * dd1 < 0.0) && (abs(dm) > abs(3.0 * dd0))) {
                 dm = 3.0 * dd0;
@@ -194,14 +194,14 @@ struct end_point_derivative<boost::numeric::ublas::vector<T> > {
                         argument_type& dm) {
         size_type size(d0.size());
         for (size_type i = 0; i < size; ++i) {
-            if (m(i) * d0(i) < 0.0) {
+            if (m(i) * d0(i) <= 0.0) {
                 m(i) = 0.0;
             } else if ((d0(i) * d1(i) < 0.0) &&
                        (abs(m(i)) > abs(3.0 * d0(i)))) {
                 m(i) = 3.0 * d0(i);
             }
             if (deriv) {
-                if (dm(i) * dd0(i) < 0.0) {
+                if (dm(i) * dd0(i) <= 0.0) {
                     dm(i) = 0.0;
                 } else if ((dd0(i) * dd1(i) < 0.0) &&
                            (abs(dm(i)) > abs(3.0 * dd0(i)))) {
@@ -231,14 +231,14 @@ struct end_point_derivative<boost::numeric::ublas::matrix<T> > {
         size_type size2(d0.size2());
         for (size_type i = 0; i < size1; ++i) {
             for (size_type j = 0; j < size2; ++j) {
-                if (m(i, j) * d0(i, j) < 0.0) {
+                if (m(i, j) * d0(i, j) <= 0.0) {
                     m(i, j) = 0.0;
                 } else if ((d0(i, j) * d1(i, j) < 0.0) &&
                            (abs(m(i, j)) > abs(3.0 * d0(i, j)))) {
                     m(i, j) = 3.0 * d0(i, j);
                 }
                 if (deriv) {
-                    if (dm(i, j) * dd0(i, j) < 0.0) {
+                    if (dm(i, j) * dd0(i, j) <= 0.0) {
                         dm(i, j) = 0.0;
                     } else if ((dd0(i, j) * dd1(i, j) < 0.0) &&
                                (abs(dm(i, j)) > abs(3.0 * dd0(i, j)))) {
-- 
2.43.0


From d848961e0dd0786f663e3f98c3e563dee1f8fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 39/39] fix: derivatives of gridded data were not interpolated
 in later dimensions

---
 types/gen_grid.h | 184 +++++++++++++++++++++++++++--------------------
 1 file changed, 106 insertions(+), 78 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index a89b85b..4c5a894 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -223,7 +223,6 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         if (deriv_vec) {
             deriv_vec[dim] = deriv;
-            if (dim > 0) deriv_vec[dim - 1] = da;
         }
 
         // use results for dim+1 iteration
@@ -250,10 +249,12 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         DATA_TYPE result = _zero;
         DATA_TYPE da = _zero;
         DATA_TYPE db = _zero;
+        DATA_TYPE deriv_a[NUM_DIMS];  // derivatives in prior dimensions
 
         // build interpolation coefficients
 
         const DATA_TYPE a = interp(dim - 1, index, location, da, deriv_vec);
+        keep(dim, deriv_vec, deriv_a);
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
@@ -267,13 +268,13 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         const double u = (location[dim] - (*ax)(k)) / h;
         result = a * (1.0 - u) + b * u;
 
-        // compute derivative in this dimension and prior dimension
+        // compute derivative in this dimension and all prior dimensions
 
         if (deriv_vec) {
             deriv = (b - a) / h;
             deriv_vec[dim] = deriv;
-            if (dim > 0) {
-                deriv_vec[dim - 1] = da * (1.0 - u) + db * u;
+            for (int n = 0; n < dim; ++n) {
+                deriv_vec[n] = deriv_a[n] * (1.0 - u) + deriv_vec[n] * u;
             }
         }
 
@@ -361,123 +362,173 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         DATA_TYPE y2 = _zero;
         DATA_TYPE y3 = _zero;
 
-        // dim-1 derivatives at k-1, k, k+1, k+2
+        // derivatives of all prior dimensions at k-1, k, k+1, k+2
 
-        DATA_TYPE dy0 = _zero;
-        DATA_TYPE dy1 = _zero;
-        DATA_TYPE dy2 = _zero;
-        DATA_TYPE dy3 = _zero;
+        DATA_TYPE dy = _zero;
+        DATA_TYPE dy0[NUM_DIMS];
+        DATA_TYPE dy1[NUM_DIMS];
+        DATA_TYPE dy2[NUM_DIMS];
+        DATA_TYPE dy3[NUM_DIMS];
 
         // interpolate in dim-1 dimension to find values and derivs at k, k-1
 
         const size_t k = index[dim];
-        y1 = interp(dim - 1, index, location, dy1, deriv_vec);
+        y1 = interp(dim - 1, index, location, dy, deriv_vec);
+        keep(dim, deriv_vec, dy1);
 
         if (k >= kmin) {
             size_t prev[NUM_DIMS];
             std::copy_n(index, NUM_DIMS, prev);
             --prev[dim];
-            y0 = interp(dim - 1, prev, location, dy0, deriv_vec);
+            y0 = interp(dim - 1, prev, location, dy, deriv_vec);
         } else {  // use harmless values at left end-point
             y0 = y1;
-            dy0 = dy1;
         }
+        keep(dim, deriv_vec, dy0);
 
         // interpolate in dim-1 dimension to find values and derivs at k+1, k+2
 
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
-        y2 = interp(dim - 1, next, location, dy2, deriv_vec);
+        y2 = interp(dim - 1, next, location, dy, deriv_vec);
+        keep(dim, deriv_vec, dy2);
 
         if (k <= kmax) {
             size_t last[NUM_DIMS];
             std::copy_n(next, NUM_DIMS, last);
             ++last[dim];
-            y3 = interp(dim - 1, last, location, dy3, deriv_vec);
+            y3 = interp(dim - 1, last, location, dy, deriv_vec);
         } else {  // use harmless values at right end-point
             y3 = y2;
-            dy3 = dy2;
         }
+        keep(dim, deriv_vec, dy3);
+
+        // compute interpolation value in this dimension
+
+        const double s = location[dim] - (*ax)(k);  // local variable
+        DATA_TYPE slope1 = _zero;
+        DATA_TYPE slope2 = _zero;
+        result = hermite(*ax, k, s, y0, y1, y2, y3, slope1, slope2);
+
+        // compute derivative in this dimension
+        // assume linear change of slope across interval
+
+        if (deriv_vec) {
+            double v = s / ax->increment(k);
+            DATA_TYPE u = initialize<DATA_TYPE>::value(deriv, v);
+            DATA_TYPE one_minus_u =
+                initialize<DATA_TYPE>::value(deriv, (1.0 - v));
+            deriv = slope1 * one_minus_u + slope2 * u;
+            deriv_vec[dim] = deriv;
+
+            // interpolate the derivatives of all prior dimensions
+
+            for (int n = 0; n < dim; ++n) {
+                slope1 = slope2 = _zero;
+                deriv_vec[n] = hermite(*ax, k, s, dy0[n], dy1[n], dy2[n],
+                                       dy3[n], slope1, slope2);
+            }
+        }
+
+        // use results for dim+1 iteration
+
+        return result;
+    }
+
+    /**
+     * Keep a copy of the derivatives of all prior dimensions.
+     *
+     * @param   dim         Index of the dimension currently being processed.
+     * @param   deriv_vec   Derivatives to be copied, if not nullptr.
+     * @param   copy        Copy of the derivatives (output).
+     */
+    static void keep(int dim, const DATA_TYPE deriv_vec[], DATA_TYPE copy[]) {
+        if (deriv_vec) {
+            for (int n = 0; n < dim; ++n) {
+                copy[n] = deriv_vec[n];
+            }
+        }
+    }
+
+    /**
+     * Interpolate one interval with the PCHIP algorithm. At the end-points,
+     * the values outside of the axis are ignored.
+     *
+     * @param   ax      Axis of the interpolation.
+     * @param   k       Index of the interval.
+     * @param   s       Distance from the start of the interval.
+     * @param   y0      Value at k-1.
+     * @param   y1      Value at k.
+     * @param   y2      Value at k+1.
+     * @param   y3      Value at k+2.
+     * @param   slope1  Slope at k (output). Must be zero on entry.
+     * @param   slope2  Slope at k+1 (output). Must be zero on entry.
+     * @return          Estimate of the value after interpolation.
+     */
+    DATA_TYPE hermite(const seq_vector& ax, size_t k, double s,
+                      const DATA_TYPE& y0, const DATA_TYPE& y1,
+                      const DATA_TYPE& y2, const DATA_TYPE& y3,
+                      DATA_TYPE& slope1, DATA_TYPE& slope2) const {
+        const size_t kmin = 1u;              // at endpt if k-1 < 0
+        const size_t kmax = ax.size() - 3u;  // at endpt if k+2 > N-1
+        DATA_TYPE unused1 = _zero;
+        DATA_TYPE unused2 = _zero;
 
         // compute difference values used frequently in computation
 
-        const double h0 =
-            double(ax->increment(k - 1));            // interval from k-1 to k
-        const double h1 = double(ax->increment(k));  // interval from k to k+1
-        const double h2 =
-            double(ax->increment(k + 1));  // interval from k+1 to k+2
-        const double h1_2 = h1 * h1;       // k to k+1 interval squared
-        const double h1_3 = h1_2 * h1;     // k to k+1 interval cubed
+        const double h0 = double(ax.increment(k - 1));  // k-1 to k
+        const double h1 = double(ax.increment(k));      // k to k+1
+        const double h2 = double(ax.increment(k + 1));  // k+1 to k+2
+        const double h1_2 = h1 * h1;    // k to k+1 interval squared
+        const double h1_3 = h1_2 * h1;  // k to k+1 interval cubed
 
-        const double s = location[dim] - (*ax)(k);  // local variable
-        const double s_2 = s * s, s_3 = s_2 * s;    // s squared and cubed
+        const double s_2 = s * s, s_3 = s_2 * s;  // s squared and cubed
         const double sh_minus = s - h1;
         const double sh_term = 3.0 * h1 * s_2 - 2.0 * s_3;
 
         // compute first divided differences (forward derivative)
-        // for both the values, and their derivatives
 
         const DATA_TYPE deriv0 = (y1 - y0) / h0;  // fwd deriv from k-1 to k
         const DATA_TYPE deriv1 = (y2 - y1) / h1;  // fwd deriv from k to k+1
         const DATA_TYPE deriv2 = (y3 - y2) / h2;  // fwd deriv from k+1 to k+2
 
-        // forward derivatives of dim-1 derivatives
-
-        DATA_TYPE dderiv0 = _zero;
-        DATA_TYPE dderiv1 = _zero;
-        DATA_TYPE dderiv2 = _zero;
-        if (deriv_vec) {  // fwd deriv of dim-1 derivatives
-            dderiv0 = (dy1 - dy0) / h0;
-            dderiv1 = (dy2 - dy1) / h1;
-            dderiv2 = (dy3 - dy2) / h2;
-        }
-
         //*************
         // compute weighted harmonic mean of slopes around index k
-        // for both the values, and their derivatives
         // set it zero at local maxima or minima
         // deriv0 * deriv1 condition guards against division by zero
 
-        DATA_TYPE slope1 = _zero;
-        DATA_TYPE dslope1 = _zero;
-
         // when not at an end-point, slope1 is the harmonic, weighted
         // average of deriv0 and deriv1.
 
         if (k >= kmin) {
             const double w0 = 2.0 * h1 + h0;
             const double w1 = h1 + 2.0 * h0;
-            derivative<DATA_TYPE>::compute(deriv0, deriv1, dderiv0, dderiv1, w0,
-                                           w1, deriv_vec, slope1, dslope1);
+            derivative<DATA_TYPE>::compute(deriv0, deriv1, unused1, unused1, w0,
+                                           w1, false, slope1, unused2);
 
             // at left end-point, use Matlab end-point formula with slope limits
             // note that the deriv0 value is bogus values when this is true
 
         } else {
             slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
             end_point_derivative<DATA_TYPE>::compute(
-                deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
+                deriv1, deriv2, unused1, unused1, false, slope1, unused2);
         }
 
         //*************
         // compute weighted harmonic mean of slopes around index k+1
-        // for both the values, and their derivatives
         // set it zero at local maxima or minima
         // deriv1 * deriv2 condition guards against division by zero
 
-        DATA_TYPE slope2 = _zero;
-        DATA_TYPE dslope2 = _zero;
-
         // when not at an end-point, slope2 is the harmonic, weighted
         // average of deriv1 and deriv2.
 
         if (k <= kmax) {
             const double w1 = 2.0 * h2 + h1;
             const double w2 = h2 + 2.0 * h1;
-            derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
-                                           w2, deriv_vec, slope2, dslope2);
+            derivative<DATA_TYPE>::compute(deriv1, deriv2, unused1, unused1, w1,
+                                           w2, false, slope2, unused2);
 
             // at right end-point, use Matlab end-point formula with slope
             // limits note that the deriv2 value is bogus values when this is
@@ -485,38 +536,15 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         } else {  // otherwise, compute harmonic weighted average
             slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
             end_point_derivative<DATA_TYPE>::compute(
-                deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
+                deriv1, deriv0, unused1, unused1, false, slope2, unused2);
         }
 
-        // compute interpolation value in this dimension
-
-        result = y2 * sh_term / h1_3 + y1 * (h1_3 - sh_term) / h1_3 +
-                 slope2 * s_2 * sh_minus / h1_2 +
-                 slope1 * s * sh_minus * sh_minus / h1_2;
+        // combine values and slopes
 
-        // compute derivative in this dimension
-        // assume linear change of slope across interval
-
-        if (deriv_vec) {
-            double v = s / h1;
-            DATA_TYPE u = initialize<DATA_TYPE>::value(deriv, v);
-            DATA_TYPE one_minus_u =
-                initialize<DATA_TYPE>::value(deriv, (1.0 - v));
-            deriv = slope1 * one_minus_u + slope2 * u;
-            deriv_vec[dim] = deriv;
-            if (dim > 0) {
-                deriv_vec[dim - 1] = dy2 * sh_term / h1_3 +
-                                     dy1 * (h1_3 - sh_term) / h1_3 +
-                                     dslope2 * s_2 * sh_minus / h1_2 +
-                                     dslope1 * s * sh_minus * sh_minus / h1_2;
-            }
-        }
-
-        // use results for dim+1 iteration
-
-        return result;
+        return y2 * sh_term / h1_3 + y1 * (h1_3 - sh_term) / h1_3 +
+               slope2 * s_2 * sh_minus / h1_2 +
+               slope1 * s * sh_minus * sh_minus / h1_2;
     }
 
    protected:
-- 
2.43.0

