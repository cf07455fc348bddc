From ef25bfb360c4835c62411fb14001678e35073500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 01/47] fix: CircularBuffer::insert into a full buffer exceeded
 its capacity

insertEntry_ never checked for room, so size() could grow past
capacity() and the next utilization update indexed past the counters.
---
 sparta/sparta/resources/CircularBuffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 3630fee..bdb10f6 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -732,6 +732,8 @@ namespace sparta
             }
             sparta_assert(entry.isValid(),
                         "Cannot insert into Circularbuffer at given iterator");
+            sparta_assert(num_valid_ < max_size_,
+                        "Cannot insert into a full CircularBuffer");
             auto it = circularbuffer_data_.insert(entry.getInternalBufferEntry_(),
                                                   CircularBufferData(std::forward<U>(dat), end_idx_));
             ++num_valid_;
-- 
2.43.0


From 8664c857d448e9bd477206e1b4eebbba0e4a663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 02/47] fix: CircularBuffer insert/erase left the utilization
 counters at the old occupancy

---
 sparta/sparta/resources/CircularBuffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index bdb10f6..83a05bb 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -700,6 +700,7 @@ namespace sparta
             circularbuffer_data_.erase(entry.getInternalBufferEntry_());
             --num_valid_;
             invalidateIndexes_();
+            updateUtilizationCounters_();
         }
 
         template<typename U>
@@ -738,6 +739,7 @@ namespace sparta
                                                   CircularBufferData(std::forward<U>(dat), end_idx_));
             ++num_valid_;
             invalidateIndexes_();
+            updateUtilizationCounters_();
             return iterator(this, it, it->window_idx);
         }
 
-- 
2.43.0


From 55068241e8baa6305918e9e1b96ded0acb45fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 03/47] fix: CircularBuffer iterator validity truncated the
 64-bit window index

After 2^32 insertions every live iterator reported itself invalid.
---
 sparta/sparta/resources/CircularBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 83a05bb..4392111 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -689,7 +689,7 @@ namespace sparta
 
         // Used by the internal iterator type to see if it's still
         // valid
-        bool isValidIterator_(uint32_t window_idx) const {
+        bool isValidIterator_(uint64_t window_idx) const {
             return (window_idx >= start_idx_ && window_idx < end_idx_);
         }
 
-- 
2.43.0


From 4513cefcbe2a1567957ffb365d2d888cd43efa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 04/47] fix: Buffer::insert recorded the new entry's slot under
 the last index

After inserting in the middle, growing an infinite buffer relinked the
entries in the wrong order and lost one of them.
---
 sparta/sparta/resources/Buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 9c7adc8..ccd0880 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -995,7 +995,7 @@ namespace sparta
             // Store the index in the data_pool_ to which current
             // free_position_ points to. We need to relink all these
             // pointers once the data_pool_ resizes.
-            address_map_[num_valid_] =
+            address_map_[idx] =
                 static_cast<uint32_t>(free_position_ - &data_pool_[0]);
             ++num_valid_;
             free_position_ = free_position_->next_free;
-- 
2.43.0


From 1a5c200f4991a6618f1e889f19a6110b0189e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 05/47] fix: growing an infinite Buffer lost the entries'
 positions

Relocated entries had position 0, so iterating after a growth never ended.
---
 sparta/sparta/resources/Buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index ccd0880..0d5e13d 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -917,6 +917,7 @@ namespace sparta
             // Make all the pointers in buffer_map_ point to the appropriate indexes.
             for(uint32_t i = 0; i < num_valid_; ++i) {
                 buffer_map_[i] = &data_pool_[address_map_[i]];
+                buffer_map_[i]->physical_idx = i;
             }
 
             // Resize the validator vector and relink the validator data pool.
-- 
2.43.0


From 6e7304e3c24b635be7daff582dd2f2686ab86c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 06/47] fix: destroying a moved-from Buffer relinked an empty
 pool

clear() computed 0 - 1 entries and wrote outside the pool.
---
 sparta/sparta/resources/Buffer.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 0d5e13d..c013979 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -702,12 +702,15 @@ namespace sparta
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
-            for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
-                data_pool_[i].next_free = &data_pool_[i + 1];
+            // A moved-from (or zero-sized) buffer has no pool to relink
+            if(data_pool_size_ > 0) {
+                for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
+                    data_pool_[i].next_free = &data_pool_[i + 1];
+                }
+                data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
+                free_position_ = &data_pool_[0];
+                first_position_ = &data_pool_[0];
             }
-            data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
-            free_position_ = &data_pool_[0];
-            first_position_ = &data_pool_[0];
             validator_->clear();
             address_map_.clear();
             updateUtilizationCounters_();
-- 
2.43.0


From 3013fea07b304afe56883400557fafeba43deeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 07/47] fix: Pipe::flushIf of appended data wrapped the number
 of valid entries

---
 sparta/sparta/resources/Pipe.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipe.hpp b/sparta/sparta/resources/Pipe.hpp
index f041552..08abcdf 100644
--- a/sparta/sparta/resources/Pipe.hpp
+++ b/sparta/sparta/resources/Pipe.hpp
@@ -385,7 +385,8 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(pe.data.getValue() == criteria){
-                    if(pe.data.isValid()) {
+                    // appended data is not counted until the next update
+                    if(i >= 0) {
                         --num_valid_;
                     }
                     pe.data.clearValid();
@@ -408,7 +409,8 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(compare(pe.data.getValue())){
-                    if(pe.data.isValid()) {
+                    // appended data is not counted until the next update
+                    if(i >= 0) {
                         --num_valid_;
                     }
                     pe.data.clearValid();
-- 
2.43.0


From 8f8470a9df049a379e489aabe2125d2974158f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 08/47] fix: Pipe::resize kept the count of the entries it
 dropped

---
 sparta/sparta/resources/Pipe.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/resources/Pipe.hpp b/sparta/sparta/resources/Pipe.hpp
index 08abcdf..9b76738 100644
--- a/sparta/sparta/resources/Pipe.hpp
+++ b/sparta/sparta/resources/Pipe.hpp
@@ -224,6 +224,8 @@ public:
         sparta_assert(collector_ == nullptr);
         //sparta_assert(!getClock()->isFinalized());
         initPipe_(new_size);
+        num_valid_ = 0;
+        tail_ = 0;
     }
 
     //! Tell the pipe to do its own updates.  Should be called once at
-- 
2.43.0


From 49d560c714b9587fd28844f1febfa0485d32d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 09/47] fix: FrontArray::readValid tested the wrong index

With an invalid entry in front of the wanted one it never returned.
---
 sparta/sparta/resources/FrontArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index e7b9121..28abdc9 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -57,7 +57,7 @@ namespace sparta{
             uint32_t i = 0;
             while(n <= nth)
             {
-                if(BaseArray::isValid(n))
+                if(BaseArray::isValid(i))
                 {
                     ++n;
                 }
-- 
2.43.0


From 1085f7c2bd2ac9d486de49a69e0c396af04a68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 10/47] fix: FrontArray push_front/push_back of a temporary did
 not compile

---
 sparta/sparta/resources/FrontArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index 28abdc9..ee4319f 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -132,7 +132,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_front(DataT&& dat) { return writeFront(std::forward(dat)); }
+        uint32_t push_front(DataT&& dat) { return writeFront(std::move(dat)); }
 
         /**
          * \brief Push the first available index in the Array starting from the back
@@ -146,7 +146,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_back(DataT && dat) { return writeBack(std::forward(dat)); }
+        uint32_t push_back(DataT && dat) { return writeBack(std::move(dat)); }
 
     private:
         template<typename U>
-- 
2.43.0


From 952ffe73d535c63cd88bc28e3564464167ff1dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 11/47] fix: overwriting an Array entry leaked the old element

---
 sparta/sparta/resources/Array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index 15e0432..2065242 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -940,6 +940,7 @@ namespace sparta
                 if constexpr (ArrayT == ArrayType::AGED) {
                     aged_list_.erase(array_[idx].list_pointer);
                 }
+                array_[idx].~ArrayPosition();
             }
 
             // Since we are not timed. Write the data and validate it,
-- 
2.43.0


From 5c5b7def7020d9f439fb9fdb59bca2a289187c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 12/47] fix: Queue iterators truncated the 64-bit object id

After 2^32 pushes every new iterator reported itself invalid.
---
 sparta/sparta/resources/Queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Queue.hpp b/sparta/sparta/resources/Queue.hpp
index 28ea639..f8c6a3d 100644
--- a/sparta/sparta/resources/Queue.hpp
+++ b/sparta/sparta/resources/Queue.hpp
@@ -237,7 +237,7 @@ namespace sparta
              * \param q  a pointer to the underlaying queue.
              * \param begin_itr if true iterator points to tail (begin()), if false points to head (end())
              */
-            QueueIterator(QueuePointerType q, uint32_t physical_index, uint32_t obj_id) :
+            QueueIterator(QueuePointerType q, uint32_t physical_index, uint64_t obj_id) :
                 attached_queue_(q),
                 physical_index_(physical_index),
                 obj_id_(obj_id)
-- 
2.43.0


From b1fae43c3ef3460df2538317764e77cd827c1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 13/47] fix: growing an infinite Buffer relocated its elements
 bytewise

The entries of a type that is not trivially relocatable (std::string)
pointed into the freed pool afterwards.
---
 sparta/sparta/resources/Buffer.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index c013979..c7b4042 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -102,8 +102,17 @@ namespace sparta
             ~DataPointer() { }
 
             DataPointer(DataPointer &&orig) noexcept {
-                ::memcpy(&object_memory_, &orig.object_memory_, sizeof(object_memory_));
-                data = reinterpret_cast<value_type*>(&object_memory_);
+                if constexpr (std::is_move_constructible<value_type>::value) {
+                    if(orig.data != nullptr) {
+                        data = new (&object_memory_) value_type(std::move(*orig.data));
+                        orig.data->~value_type();
+                        orig.data = nullptr;
+                    }
+                }
+                else {
+                    ::memcpy(&object_memory_, &orig.object_memory_, sizeof(object_memory_));
+                    data = reinterpret_cast<value_type*>(&object_memory_);
+                }
             }
 
             // No copies, only moves
@@ -634,6 +643,7 @@ namespace sparta
             DataPointer* oldFree = free_position_;
             free_position_ = buffer_map_[idx];
             free_position_->data->~value_type();
+            free_position_->data = nullptr;
             free_position_->next_free = oldFree;
 
             // Mark DataPointer as invalid
@@ -699,6 +709,7 @@ namespace sparta
                           {
                               if(map_entry) {
                                   map_entry->data->~value_type();
+                                  map_entry->data = nullptr;
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
-- 
2.43.0


From 77baa5677d1ef6062d933b92ead055e19d94676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:02 +0000
Subject: [PATCH 14/47] fix: a bounded run that halted early left its stop
 event to stop a later run

---
 sparta/src/Scheduler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index e1af41d..7c49c4b 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -652,6 +652,12 @@ void Scheduler::run(Tick num_ticks,
         }
     }// End run loop.
 
+    // A bounded run that halted early (no more continuing events) has
+    // not fired its stop event.  Do not let it stop a later run.
+    if(num_ticks != INDEFINITE) {
+        cancelEvent(stop_event_.get());
+    }
+
     // Reset the current group
     current_group_firing_ = 0;
 
-- 
2.43.0


From 04c6ffe4679bbb13bb1ff6030743e129aadc0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:09 +0000
Subject: [PATCH 15/47] fix: an asynchronous event could not enter a group
 before the tick's first one

---
 sparta/src/Scheduler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index 7c49c4b..e50b1d1 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -569,11 +569,15 @@ void Scheduler::run(Tick num_ticks,
             if (!async_event_list_.empty()) {
                 sparta_assert(!async_event_list_empty_hint_);
 
+                // No group of this tick has been fired yet; an async
+                // event may still go into any of them
+                current_group_firing_ = 0;
                 for (auto &i : async_event_list_) {
                     scheduleEvent(i.sched, i.tick,
                                   i.sched->getGroupID(),
                                   i.sched->isContinuing());
                 }
+                current_group_firing_ = quantum->first_group_idx;
                 async_event_list_.clear();
                 async_event_list_empty_hint_ = true;
             }
-- 
2.43.0


From 9735e67ea57b42d1ebe5a9716efa31ee1bc7c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:54 +0000
Subject: [PATCH 16/47] fix: EventGroup silently dropped a Port and every event
 after it

---
 sparta/sparta/events/Precedence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/events/Precedence.hpp b/sparta/sparta/events/Precedence.hpp
index a95769c..ec551aa 100644
--- a/sparta/sparta/events/Precedence.hpp
+++ b/sparta/sparta/events/Precedence.hpp
@@ -1045,7 +1045,7 @@ namespace sparta
         template<SchedulingPhase phase, class ScheduleableT, class ...ArgsT>
         typename std::enable_if<std::is_base_of<Port, ScheduleableT>::value, void>::
         type addScheduable_(ScheduleableT & /*port*/, ArgsT&... /*scheds*/) {
-            static_assert(std::is_base_of<Port, ScheduleableT>::value,
+            static_assert(std::is_base_of<Port, ScheduleableT>::value == false,
                           "\nERROR: You cannot set up a precedence between an Scheduleable type and a Port. "
                           "\n\tIf you want to do this, register the Scheduleable with the Port using the "
                           "registerConsumerEvent/registerProducingEvent method on the Port."
-- 
2.43.0


From b1b07c9458e07d6fa5e0a5609fab12cb5c91d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:49 +0000
Subject: [PATCH 17/47] fix: clocks with an explicit frequency silently got a
 truncated or zero period

---
 sparta/sparta/simulation/ClockManager.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/simulation/ClockManager.hpp b/sparta/sparta/simulation/ClockManager.hpp
index c835b21..51a68d8 100644
--- a/sparta/sparta/simulation/ClockManager.hpp
+++ b/sparta/sparta/simulation/ClockManager.hpp
@@ -9,6 +9,7 @@
 #pragma once
 
 #include <cstdint>
+#include <limits>
 #include <list>
 #include <iostream>
 #include <memory>
@@ -159,7 +160,10 @@ namespace sparta {
                 }
 
                 uint64_t period = getClockPeriodFromFrequencyMhz(frequency_mhz);
-                (*i)->setPeriod(period);
+                sparta_assert(period > 0 && period <= std::numeric_limits<Clock::Period>::max(),
+                              "The frequency " << frequency_mhz << "MHz of clock '" << (*i)->getName()
+                              << "' has no period (in ticks) that a clock can represent");
+                (*i)->setPeriod(static_cast<Clock::Period>(period));
             }
         }
 
-- 
2.43.0


From 99090f797be21e3c2dd8058c33b8a11d883bda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 18/47] fix: a moved-from ScheduleableHandle gave back the
 reference it no longer had

---
 sparta/sparta/events/Scheduleable.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/Scheduleable.hpp b/sparta/sparta/events/Scheduleable.hpp
index 9271852..2dd9556 100644
--- a/sparta/sparta/events/Scheduleable.hpp
+++ b/sparta/sparta/events/Scheduleable.hpp
@@ -547,8 +547,12 @@ namespace sparta
         //! Create an empty Handle
         ScheduleableHandle() = default;
 
-        // Default move
-        ScheduleableHandle(ScheduleableHandle &&) = default;
+        //! Move a Handle; the count moves along
+        ScheduleableHandle(ScheduleableHandle && orig) noexcept :
+            scheduleable_(orig.scheduleable_)
+        {
+            orig.scheduleable_ = nullptr;
+        }
 
         //! Copy a Handle, increment the count
         ScheduleableHandle(const ScheduleableHandle & orig)
-- 
2.43.0


From 66c94e0f0dd728764dd665c7fb2d721d7d5d7490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 19/47] fix: assigning a ScheduleableHandle to itself reclaimed
 its payload

---
 sparta/sparta/events/Scheduleable.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/events/Scheduleable.hpp b/sparta/sparta/events/Scheduleable.hpp
index 2dd9556..53c8d11 100644
--- a/sparta/sparta/events/Scheduleable.hpp
+++ b/sparta/sparta/events/Scheduleable.hpp
@@ -614,9 +614,11 @@ namespace sparta
 
         //! Assignment
         ScheduleableHandle & operator=(const ScheduleableHandle & rhs) {
-            disconnect_();
-            scheduleable_ = rhs.scheduleable_;
-            connect_();
+            if(scheduleable_ != rhs.scheduleable_) {
+                disconnect_();
+                scheduleable_ = rhs.scheduleable_;
+                connect_();
+            }
             return *this;
         }
 
-- 
2.43.0


From 69d19bd09cdcfff0082d804d67c39d963938ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 20/47] fix: PayloadEvent::cancel(cycle) counted the payloads
 it did not cancel

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 79b7149..7887a2f 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -334,14 +334,17 @@ namespace sparta
          * This will cancel all instances of this event at the given cycle.
          */
         uint32_t cancel(Clock::Cycle rel_cycle) {
-            const uint32_t cancel_cnt = inflight_pl_.size();
+            uint32_t cancel_cnt = 0;
             auto bit = inflight_pl_.begin();
             while(bit != inflight_pl_.end()) {
                 auto proxy = *bit;
                 ++bit;
                 // Cancelling the event will change the inflight_pl_
                 // list, hence we cannot use a range for loop
-                proxy->cancel(rel_cycle);
+                if(proxy->isScheduled(rel_cycle)) {
+                    proxy->cancel(rel_cycle);
+                    ++cancel_cnt;
+                }
             }
             return cancel_cnt;
         }
-- 
2.43.0


From 1f086ec26a02ff310d6c4f3007f0f18c3627f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 21/47] fix: PayloadEvent::setContinuing had no effect on
 payload handles allocated before

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 7887a2f..d110dc1 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -172,6 +172,7 @@ namespace sparta
             }
             proxy->setInFlightLocation_(inflight_pl_.emplace_back(proxy));
             proxy->setPayload_(dat);
+            proxy->setContinuing(prototype_.isContinuing());
 
             return proxy;
         }
-- 
2.43.0


From c816aecd47536c1276af6d788719c5e2972ed9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:35 +0000
Subject: [PATCH 22/47] fix: a SingleCycleUniqueEvent scheduled again after
 cancel() was dropped

---
 .../events/PhasedSingleCycleUniqueEvent.hpp   | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
index 3653b09..8584839 100644
--- a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
@@ -58,7 +58,9 @@ namespace sparta
             EventNode(event_set, name, sched_phase),
             local_clk_(getClock()),
             fancy_name_(name + "[" + consumer_event_handler.getName() + "]"),
-            single_cycle_event_scheduleable_(consumer_event_handler, 1 /*HARD CODED*/, sched_phase)
+            consumer_event_handler_(consumer_event_handler),
+            single_cycle_event_scheduleable_(CREATE_SPARTA_HANDLER(PhasedSingleCycleUniqueEvent, deliverEvent_),
+                                             1 /*HARD CODED*/, sched_phase)
         {
             single_cycle_event_scheduleable_.setScheduleableClock(getClock());
             single_cycle_event_scheduleable_.setLabel(fancy_name_.c_str());
@@ -89,6 +91,12 @@ namespace sparta
          */
         void cancel() {
             single_cycle_event_scheduleable_.cancel();
+
+            // Nothing is scheduled anymore; only the tick the event
+            // last fired in still counts
+            next_scheduled_tick_ = last_fired_tick_;
+            prev_scheduled_tick_ = last_fired_tick_;
+            is_init_tick_ = !has_fired_;
         }
 
         /*!
@@ -190,6 +198,13 @@ namespace sparta
             local_scheduler_ = local_clk_->getScheduler();
         }
 
+        //! Remember the tick and call the consumer's event handler
+        void deliverEvent_() {
+            last_fired_tick_ = local_scheduler_->getCurrentTick();
+            has_fired_ = true;
+            consumer_event_handler_();
+        }
+
         //! A local clock for speed
         const Clock * local_clk_ = nullptr;
 
@@ -201,9 +216,16 @@ namespace sparta
         Scheduler::Tick next_scheduled_tick_ = 0;
         Scheduler::Tick prev_scheduled_tick_ = 0;
 
+        //! The tick this event last fired in, if it ever did
+        Scheduler::Tick last_fired_tick_ = 0;
+        bool has_fired_ = false;
+
         //! A fancy name for the event handler
         std::string fancy_name_;
 
+        //! The consumer's event handler
+        SpartaHandler consumer_event_handler_;
+
         //! The actual scheduled item on the scheduler
         Scheduleable single_cycle_event_scheduleable_;
 
-- 
2.43.0


From 180ede8e9bd94b875d552b0e8bfa1f2cb689895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 23/47] fix: a payload was destroyed while its handler was
 still looking at it

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index d110dc1..e90df24 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -84,10 +84,11 @@ namespace sparta
             // If this Scheduleable is managed by a
             // ScheduleableHandle, then this method is called when the
             // Handle goes out of scope.  The proxy is only reclaimed
-            // if it's not on the Scheduler and there are not handles
-            // pointing to it.
+            // if it's not on the Scheduler, there are not handles
+            // pointing to it, and its handler is not still looking at
+            // the payload.
             void reclaim_() override {
-                if(!scheduled_ && (getScheduleableHandleCount_() == 0)) {
+                if(!scheduled_ && !delivering_ && (getScheduleableHandleCount_() == 0)) {
                     parent_->reclaimProxy_(loc_);
                     cancelled_ = false;
                 }
@@ -133,7 +134,9 @@ namespace sparta
                             << parent_->name_ << " to handler: "
                             << target_consumer_event_handler_.getName());
                 scheduled_ = false;
+                delivering_ = true;
                 target_consumer_event_handler_((const void*)payload_);
+                delivering_ = false;
                 reclaim_();
             }
 
@@ -144,6 +147,7 @@ namespace sparta
             typename ProxyInflightList::iterator loc_;
             bool scheduled_ = false;
             bool cancelled_ = false;
+            bool delivering_ = false;
         };
 
 
-- 
2.43.0


From 1ff4031dd5d41309c701aa2ec1c2ea3e19e748e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:17 +0000
Subject: [PATCH 24/47] fix: payload handles pooled before finalization were
 scheduled without precedence group

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index e90df24..d95b229 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -177,6 +177,7 @@ namespace sparta
             proxy->setInFlightLocation_(inflight_pl_.emplace_back(proxy));
             proxy->setPayload_(dat);
             proxy->setContinuing(prototype_.isContinuing());
+            proxy->setGroupID(prototype_.getGroupID());
 
             return proxy;
         }
-- 
2.43.0


From 55a960cbb1aabb3b087e66d68a4d24be6d8d1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:05 +0000
Subject: [PATCH 25/47] fix: do not truncate the delay of a DataPort/SignalPort
 send to 32 bits

---
 sparta/sparta/ports/DataPort.hpp   | 2 +-
 sparta/sparta/ports/SignalPort.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/ports/DataPort.hpp b/sparta/sparta/ports/DataPort.hpp
index 5e2c364..fbd9bc6 100644
--- a/sparta/sparta/ports/DataPort.hpp
+++ b/sparta/sparta/ports/DataPort.hpp
@@ -503,7 +503,7 @@ namespace sparta
          */
         void send_(const DataT & dat, sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const sparta::Clock::Cycle total_delay = rel_time + port_delay_;
 
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
diff --git a/sparta/sparta/ports/SignalPort.hpp b/sparta/sparta/ports/SignalPort.hpp
index 5957dad..55e1c9d 100644
--- a/sparta/sparta/ports/SignalPort.hpp
+++ b/sparta/sparta/ports/SignalPort.hpp
@@ -282,7 +282,7 @@ namespace sparta
          */
         void send_(sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const sparta::Clock::Cycle total_delay = rel_time + port_delay_;
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
             {
-- 
2.43.0


From 23055bd9b4b9c0e0f30196788ea2870b3f3c99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:05 +0000
Subject: [PATCH 26/47] fix: SyncOutPort::isReady takes the data sent this
 cycle into account

---
 sparta/sparta/ports/SyncPort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 3a64f08..7e87879 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -856,7 +856,7 @@ namespace sparta
         bool couldAccept_(const Clock *send_clk) const {
 
             Scheduler::Tick num_delay_ticks =
-                calculateClockCrossingDelay(send_clk->currentTick(), send_clk, receive_delay_ticks_, receiver_clock_);
+                calculateClockCrossingDelay(0, send_clk, receive_delay_ticks_, receiver_clock_);
 
             sparta::Scheduler::Tick cur_tick =
                 scheduler_->getCurrentTick();
-- 
2.43.0


From f9019300e8b4966509184592167f60fa1d81a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:06 +0000
Subject: [PATCH 27/47] fix: a refused SyncOutPort::bind does not leave the
 port connected

---
 sparta/sparta/ports/SyncPort.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 7e87879..e3c5d31 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -153,11 +153,9 @@ namespace sparta
 
             // Sync ports only support one binding for now.
             sparta_assert(sync_in_port_ == 0, "Multiple bind attempts on port:" << getLocation());
-            sync_in_port_ = inp;
-            sparta_assert(sync_in_port_ != 0, "Cannot bind to null input port in:" << getLocation());
-
             OutPort::bind(in);
 
+            sync_in_port_ = inp;
             bound_in_ports_.push_back(inp);
         }
 
-- 
2.43.0


From d7afcad7a82d9acfe61e6a6b1fbb88a4331595e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:48 +0000
Subject: [PATCH 28/47] fix: an access whose end wraps around is not inside the
 access window

---
 sparta/sparta/memory/DebugMemoryIF.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index 13e7fbb..b279f0b 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -344,7 +344,7 @@ namespace sparta
             void verifyInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                if(__builtin_expect(addr < acc_windows_[0].start || addr+size > acc_windows_[0].end, 0)){
+                if(__builtin_expect(false == isInAccessWindows(addr, size), 0)){
                     MemoryAccessError ex(addr, size, "any", "The access at does not fit within access windows: ");
                     ex << "{ [" << acc_windows_[0].start << "," << acc_windows_[0].end << ") }";
                     throw ex;
@@ -363,7 +363,10 @@ namespace sparta
             bool isInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                return addr >= acc_windows_[0].start && addr+size <= acc_windows_[0].end;
+                // Compare against the room left in the window: addr+size might wrap
+                return addr >= acc_windows_[0].start
+                    && addr <= acc_windows_[0].end
+                    && size <= acc_windows_[0].end - addr;
             }
 
             /*!
-- 
2.43.0


From 5206266726f1fd6adb237a25ebbf9e1ade369aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:48 +0000
Subject: [PATCH 29/47] fix: alignment mask of a SimpleMemoryMap with blocks of
 4GB or more

---
 sparta/sparta/memory/SimpleMemoryMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/SimpleMemoryMap.hpp b/sparta/sparta/memory/SimpleMemoryMap.hpp
index 441abc9..d2198c6 100644
--- a/sparta/sparta/memory/SimpleMemoryMap.hpp
+++ b/sparta/sparta/memory/SimpleMemoryMap.hpp
@@ -153,7 +153,7 @@ namespace sparta
             {
                 sparta_assert(block_size > 0, "block size must be greater than 0");
                 block_idx_rshift_ = (addr_t)log2(block_size);
-                block_offset_mask_ = (1 << block_idx_rshift_) - 1;
+                block_offset_mask_ = ((addr_t)1 << block_idx_rshift_) - 1;
             }
 
             /*!
-- 
2.43.0


From 4989dfbc06c750dfdbfab7dfa4dd8a62d6fd2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:48 +0000
Subject: [PATCH 30/47] fix: SimpleMemoryMap accepted ranges whose end wraps
 around

---
 sparta/sparta/memory/SimpleMemoryMap.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/memory/SimpleMemoryMap.hpp b/sparta/sparta/memory/SimpleMemoryMap.hpp
index d2198c6..ed8405f 100644
--- a/sparta/sparta/memory/SimpleMemoryMap.hpp
+++ b/sparta/sparta/memory/SimpleMemoryMap.hpp
@@ -231,7 +231,7 @@ namespace sparta
                 sparta_assert((dest_start & block_offset_mask_) == 0);
 
                 const addr_t required_range = (end-start) + dest_start;
-                if(memif->getRange() < required_range){
+                if(required_range < dest_start /* wrapped */ || memif->getRange() < required_range){
                     throw SpartaException("Total range of destination memory interface is ")
                         << "too small to contain all mappings from SimpleMemoryMap mapping "
                         << "[" << start << ", " << end << ") -> " << memif
@@ -557,7 +557,6 @@ namespace sparta
              * careful for performance reasons
              */
             void verifyHasMapping(addr_t addr, addr_t size) const {
-                const addr_t end = addr+size;
 
                 const BinTreeNode* n = bintree_;
                 const Mapping* m = nullptr;
@@ -569,7 +568,7 @@ namespace sparta
                             n = n->l;
                         }else if(addr >= m->end){
                             n = n->r;
-                        }else if(end <= m->end){
+                        }else if(size <= m->end - addr){
                             return; // Ok. Reached a destination containing both addr and end
                         }else{
                             throw MemoryAccessError(addr, size, "any", "This access spans more than one mapping");
-- 
2.43.0


From e202a2f52e41415c8e4e1678492d7104576a266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:08 +0000
Subject: [PATCH 31/47] fix: ArchData bounds checks are not fooled by an
 offset+size that wraps around

---
 sparta/sparta/functional/ArchData.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 4cce93e..e61089d 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -315,7 +315,7 @@ namespace sparta
             template <typename T, ByteOrder BO>
             T read(offset_type offset, uint32_t idx=0) const {
                 offset_type loc = offset + (idx*sizeof(T));
-                sparta_assert(loc + sizeof(T) <= size_,
+                sparta_assert(loc <= size_ && sizeof(T) <= size_ - loc,
                               "Read at ArchData::line offset 0x" << std::hex
                               << loc << " with size " << std::dec << sizeof(T) << " B");
 
@@ -333,7 +333,7 @@ namespace sparta
              * \note offset+size must be <= the size of this line
              */
             void read(offset_type offset, offset_type size, uint8_t* data) const {
-                sparta_assert(offset + size <= size_,
+                sparta_assert(offset <= size_ && size <= size_ - offset,
                               "Read on ArchData::line offset 0x" << std::hex
                               << offset << " with size " << std::dec << size << " B");
 
@@ -353,7 +353,7 @@ namespace sparta
             template <typename T, ByteOrder BO>
             void write(offset_type offset, const T& t, uint32_t idx=0) {
                 offset_type loc = offset + (idx*sizeof(T));
-                sparta_assert(loc + sizeof(T) <= size_,
+                sparta_assert(loc <= size_ && sizeof(T) <= size_ - loc,
                               "Write on ArchData::line offset 0x" << std::hex
                               << loc << " with size " << std::dec << sizeof(T) << " B");
 
@@ -373,7 +373,7 @@ namespace sparta
              * \note offset+size must be <= the size of this line
              */
             void write(offset_type offset, offset_type size, const uint8_t* data) const {
-                sparta_assert(offset + size <= size_,
+                sparta_assert(offset <= size_ && size <= size_ - offset,
                               "Read on ArchData::line offset 0x" << std::hex
                               << offset << " with size " << std::dec << size << " B");
 
@@ -862,7 +862,7 @@ namespace sparta
          */
         void checkCanAccess(offset_type offset, offset_type bytes) const {
             checkInSingleLine(offset, bytes);
-            sparta_assert(offset + bytes <= size_,
+            sparta_assert(offset <= size_ && bytes <= size_ - offset,
                           "Generic access validity test on ArchData::line offset 0x" << std::hex
                           << offset << " with size " << std::dec << bytes << " B");
         }
@@ -916,7 +916,7 @@ namespace sparta
 
             checkInSingleLine(offset, size);
 
-            if(__builtin_expect((offset + size) > size_, 0)){
+            if(__builtin_expect(offset > size_ || size > size_ - offset, 0)){
                 throw SpartaException("Segment end (0x")
                     << std::hex << offset+size << ") extends pased end of ArchData (0x"
                     << size_ << ") by " << std::dec << (offset + size) - size_ << " B";
@@ -931,7 +931,8 @@ namespace sparta
          * \throw SpartaException if access endpoints are in differnet Lines
          */
         void checkInSingleLine(offset_type offset, offset_type size) const {
-            if(__builtin_expect((offset + size) - (offset & line_mask_) > line_size_, 0)){
+            if(__builtin_expect(size > line_size_
+                                || offset - (offset & line_mask_) > line_size_ - size, 0)){
                 throw SpartaException("Segment spans multiple ArchData lines: from ")
                     << getLineIndex(offset) << " to " << getLineIndex(offset+size-1);
             }
-- 
2.43.0


From 0be5a4b27af38f3949f5d8d656b57c06e27b0a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:08 +0000
Subject: [PATCH 32/47] fix: Register bounds checks are not fooled by an
 offset+size that wraps around

---
 sparta/sparta/functional/Register.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 5a6ea7a..1833967 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1203,20 +1203,20 @@ public:
 
     void read(void *buf, size_t size, size_t offset)
     {
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         read_(buf, size, offset);
     }
 
     void peek(void *buf, size_t size, size_t offset) const
     {
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         peek_(buf, size, offset);
     }
 
     void write(const void *buf, size_t size, size_t offset)
     {
         assert(isWritable());
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         RegisterBits val(reinterpret_cast<const uint8_t *>(buf), size);
         RegisterBits mask = mask_ >> 8 * offset;
         RegisterBits old = (peekRegisterBits_(size, offset) & ~mask) | (val & mask);
@@ -1226,14 +1226,14 @@ public:
     void writeUnmasked(const void *buf, size_t size, size_t offset)
     {
         assert(isWritable());
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         write_(buf, size, offset);
     }
 
     void poke(const void *buf, size_t size, size_t offset)
     {
         assert(isWritable());
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         RegisterBits val(reinterpret_cast<const uint8_t *>(buf), size);
         RegisterBits mask = mask_ >> 8 * offset;
         RegisterBits old = (peekRegisterBits_(size, offset) & ~mask) | (val & mask);
@@ -1243,7 +1243,7 @@ public:
     void pokeUnmasked(const void *buf, size_t size, size_t offset)
     {
         assert(isWritable());
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         poke_(buf, size, offset);
     }
 
-- 
2.43.0


From 097192ec954ed95a36cebea7ab4256b5e1833d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 33/47] fix: DataView::readPadded/writeTruncated accessed
 memory beyond the view

---
 sparta/sparta/functional/DataView.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/functional/DataView.hpp b/sparta/sparta/functional/DataView.hpp
index 691f4ce..b4eee0d 100644
--- a/sparta/sparta/functional/DataView.hpp
+++ b/sparta/sparta/functional/DataView.hpp
@@ -193,7 +193,11 @@ namespace sparta
         template <typename T, ByteOrder BO=LE>
         T readPaddedUnsafe(index_type idx=0) const {
             sparta_assert(line_, "There is no line pointer set for this DataView. ArchData likely has not been laid out yet. Tree probably needs to be finalized first.");
-            offset_type max_bytes = getSize() - (sizeof(T) * idx); // Must always be a power of 2
+            offset_type max_bytes = getSize() - (sizeof(T) * idx);
+            if(max_bytes >= sizeof(T)){
+                return readUnsafe<T, BO>(idx);
+            }
+            // Fewer bytes than T: idx is 0 and this is the size of the view: a power of 2
             sparta_assert(isPowerOf2(max_bytes));
 
             T result;
@@ -299,7 +303,12 @@ namespace sparta
         template <typename T, ByteOrder BO=LE>
         void writeTruncatedUnsafe(T val, uint32_t idx=0) {
             sparta_assert(line_, "There is no line pointer set for this DataView. ArchData likely has not been laid out yet. Tree probably needs to be finalized first.");
-            offset_type max_bytes = getSize() - (sizeof(T) * idx); // Must always be a power of 2
+            offset_type max_bytes = getSize() - (sizeof(T) * idx);
+            if(max_bytes >= sizeof(T)){
+                writeUnsafe<T, BO>(val, idx);
+                return;
+            }
+            // Fewer bytes than T: idx is 0 and this is the size of the view: a power of 2
             sparta_assert(isPowerOf2(max_bytes));
 
             if(max_bytes >= 8){
-- 
2.43.0


From abb7f2fcd47e50f1f8a887575ac15ea36390231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 34/47] fix: Register::writeUnmasked wrote at byte idx instead
 of element idx, unchecked

---
 sparta/sparta/functional/Register.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 1833967..303e771 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1571,7 +1571,9 @@ public:
     inline void writeUnmasked(T val, index_type idx = 0)
     {
         assert(isWritable());
-        dmiWriteImpl_(&val, sizeof(T), idx);
+        const size_t offset = sizeof(T) * (size_t)idx;
+        sparta_assert(offset <= getNumBytes() && sizeof(T) <= getNumBytes() - offset, "Access out of bounds");
+        dmiWriteImpl_(&val, sizeof(T), offset);
     }
 
 private:
-- 
2.43.0


From 1f0b09145451713f135447611cbac6d26ad74995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 35/47] fix: RegisterBits::none was true when all bytes were
 equal, zero or not

---
 sparta/sparta/functional/RegisterBits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 1db515a..3b1d389 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -713,7 +713,7 @@ namespace sparta
         bool none() const {
             sparta_assert(num_bytes_ > 0);
             const auto mem_data_plus_one = remote_data_ + 1;
-            return (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
+            return remote_data_[0] == 0 && (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
         }
 
         /**
-- 
2.43.0


From d43e0d1ebc83707685bc085f2288deda33e5eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 36/47] fix: RegisterBits::operator<<= lost words of values
 wider than 128 bits

---
 sparta/sparta/functional/RegisterBits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 3b1d389..e75fad9 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -570,10 +570,10 @@ namespace sparta
                 //
                 if(double_word_shift_count > 0)
                 {
-                    uint32_t dest_idx = double_word_shift_count;
-                    for(uint32_t src_idx = 0; dest_idx < num_dbl_words; ++dest_idx, ++src_idx) {
-                        *(final_data + dest_idx) = *(src_data + src_idx);
-                        *(src_data + src_idx) = 0;
+                    // In place: start at the top
+                    for(uint32_t dest_idx = num_dbl_words; dest_idx-- > 0; ) {
+                        *(final_data + dest_idx) = (dest_idx >= double_word_shift_count) ?
+                            *(src_data + (dest_idx - double_word_shift_count)) : 0;
                     }
                 }
 
-- 
2.43.0


From 913a1350a007e4fbd5aba8ee4a6310d2bcc50262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 37/47] fix: a delta checkpoint missed lines refilled by
 ArchData::clean

---
 sparta/sparta/functional/ArchData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index e61089d..2c3d2c5 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -234,6 +234,7 @@ namespace sparta
              */
             void fillWithInitial(uint64_t initial, uint32_t initial_val_size) {
                 ArchData::fillValue(data_, size_, initial, initial_val_size, 0);
+                dirty_ = true;
             }
 
             /*!
-- 
2.43.0


From e9e462714e2bbba516a12a1430c2ad72636ea854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 38/47] fix: checkpoints missed changes made through DMI

---
 sparta/sparta/functional/ArchData.hpp | 32 +++++++++++++++++++++++++--
 sparta/sparta/memory/MemoryObject.hpp |  1 +
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 2c3d2c5..8120cf5 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -227,6 +227,22 @@ namespace sparta
                 dirty_ = true;
             }
 
+            /*!
+             * \brief Content of this line can be changed at any time through a
+             * raw pointer (see getRawDataPtr) whose user does not flag the line
+             * as dirty: it is always considered dirty and is never freed
+             */
+            void flagRawAccess() {
+                raw_access_ = true;
+            }
+
+            /*!
+             * \brief Was this line flagged with flagRawAccess
+             */
+            bool hasRawAccess() const {
+                return raw_access_;
+            }
+
             /*!
              * \brief Fills the line's data with the initial value
              * \param initial Value to write to this Line's memory
@@ -295,7 +311,7 @@ namespace sparta
              * Immediately after construction, this will be true.
              */
             bool isDirty() const {
-                return dirty_;
+                return dirty_ || raw_access_;
             }
 
             //! \name Reading and Writing
@@ -409,6 +425,7 @@ namespace sparta
             offset_type offset_; //!< Offset into owning ArchData
             offset_type size_;   //!< Size of this line
             bool is_pool_;       //!< Is this line's data part of a pool? If not, it is owned by this object
+            bool raw_access_ = false; //!< Can data be changed through a raw pointer without flagging this line as dirty
             mutable bool dirty_; //!< Is this line dirty. Mutable so that read methods can be const
             uint8_t * data_ = nullptr;   //!< Pointer to either the allocated memory or a pool
             std::unique_ptr<uint8_t[]> alloc_data_;      //!< Data held by this line. Always allocated
@@ -761,12 +778,23 @@ namespace sparta
 
             if(canFreeLines()){
                 // Delete all lines allocated first (map contains pointers to lines)
+                // Lines someone has a raw pointer to are kept
+                std::vector<Line*> kept;
                 for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
-                    delete *itr;
+                    if((*itr)->hasRawAccess()){
+                        kept.push_back(*itr);
+                    }else{
+                        delete *itr;
+                    }
                 }
 
                 // Delete all structures within the map
                 line_map_.clear();
+
+                for(Line* ln : kept){
+                    ln->fillWithInitial(initial_, initial_val_size_);
+                    line_map_[ln->getIdx()] = ln;
+                }
             }else{
                 // Overwrite all lines with initial bytes
                 for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
diff --git a/sparta/sparta/memory/MemoryObject.hpp b/sparta/sparta/memory/MemoryObject.hpp
index de78819..407f8af 100644
--- a/sparta/sparta/memory/MemoryObject.hpp
+++ b/sparta/sparta/memory/MemoryObject.hpp
@@ -332,6 +332,7 @@ namespace sparta
                 }
 
                 auto & line = binding_.getLine(aligned_addr);
+                line.flagRawAccess(); // Writes through the DMI do not flag the line dirty
                 dmi_ifs_.insert({aligned_addr,
                                  std::unique_ptr<DMIBlockingMemoryIF>
                                  (new DMIBlockingMemoryIF(line.getRawDataPtr(0),
-- 
2.43.0


From a26beb7c0363a73d91fda6d252f86c91a6553e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:41 +0000
Subject: [PATCH 39/47] fix: a delta checkpoint missed lines freed by
 ArchData::clean

---
 sparta/sparta/functional/ArchData.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 8120cf5..ba4a7be 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -784,6 +784,7 @@ namespace sparta
                     if((*itr)->hasRawAccess()){
                         kept.push_back(*itr);
                     }else{
+                        freed_lines_.push_back((*itr)->getIdx());
                         delete *itr;
                     }
                 }
@@ -1012,6 +1013,14 @@ namespace sparta
             sparta_assert(out.good(),
                           "Saving delta checkpoint to bad ostream for " << getOwnerNode()->getLocation());
 
+            // A line freed since the last checkpoint went back to its initial value
+            for(line_idx_type idx : freed_lines_){
+                if(line_map_.find(idx) == nullptr){
+                    allocateLine_(idx);
+                }
+            }
+            freed_lines_.clear();
+
             for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
                 Line* ln = *itr;
                 if(ln != nullptr && ln->isDirty()){
@@ -1032,6 +1041,8 @@ namespace sparta
             sparta_assert(out.good(),
                           "Saving delta checkpoint to bad ostream for " << getOwnerNode()->getLocation());
 
+            freed_lines_.clear();
+
             for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
                 Line* ln = *itr;
                 if(ln != nullptr){
@@ -1076,6 +1087,7 @@ namespace sparta
         void restoreAll(StorageT& in) {
             // Fresh, empty state, ready to be overwritten
             clean();
+            freed_lines_.clear();
 
             restore(in);
         }
@@ -1717,6 +1729,11 @@ namespace sparta
          */
         bool          can_free_lines_;
 
+        /*!
+         * \brief Lines freed since the last checkpoint (or restore)
+         */
+        std::vector<line_idx_type> freed_lines_;
+
         /*!
          * \brief All ArchDatas currently in existence. Used for checkpointing
          * debugging to ensure they are all part of a tree
-- 
2.43.0


From 56cd9a83a4bfa019fa1e2686d230227c32ee314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:41 +0000
Subject: [PATCH 40/47] fix: getDMI returned an invalidated DMI

---
 sparta/sparta/memory/MemoryObject.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/MemoryObject.hpp b/sparta/sparta/memory/MemoryObject.hpp
index 407f8af..21e54d9 100644
--- a/sparta/sparta/memory/MemoryObject.hpp
+++ b/sparta/sparta/memory/MemoryObject.hpp
@@ -328,7 +328,12 @@ namespace sparta
                 }
                 const auto aligned_addr = addr & block_mask_;
                 if(auto it = dmi_ifs_.find(aligned_addr); it != dmi_ifs_.end()) {
-                    return it->second.get();
+                    if(it->second->isValid()) {
+                        return it->second.get();
+                    }
+                    // Invalidated, but its users might still refer to it
+                    invalid_dmi_ifs_.emplace_back(std::move(it->second));
+                    dmi_ifs_.erase(it);
                 }
 
                 auto & line = binding_.getLine(aligned_addr);
@@ -401,6 +406,7 @@ namespace sparta
             }
 
             std::map<addr_t, std::unique_ptr<DMIBlockingMemoryIF>> dmi_ifs_;
+            std::vector<std::unique_ptr<DMIBlockingMemoryIF>> invalid_dmi_ifs_;
 
         }; // class BlockingMemoryIF
 
-- 
2.43.0


From 24cb71bd1f1a21fa913e9b4e5b9ee2859ad619a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:56 +0000
Subject: [PATCH 41/47] fix: CachedMemory::poke of an uncached block zeroed
 that block downstream

---
 sparta/sparta/memory/CachedMemory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index c913492..88eb5b5 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -369,7 +369,7 @@ namespace sparta::memory
             // This memory was never written (or read) before.
             const auto aligned_paddr = paddr & block_mask_;
             uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->poke(aligned_paddr, block_size_, cached_mem_block_ptr);
+            downstream_memory_->peek(aligned_paddr, block_size_, cached_mem_block_ptr);
         }
         cached_memory_.write(paddr, size, buf);
         downstream_memory_->poke(paddr, size, buf);
-- 
2.43.0


From cf08ed2e8eb1c8ecf2c1241cb76947a8e967c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:56 +0000
Subject: [PATCH 42/47] fix: CachedMemory considered a block cached although
 loading it had failed

---
 sparta/sparta/memory/CachedMemory.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index 88eb5b5..e733b90 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -269,6 +269,13 @@ namespace sparta::memory
                       uint8_t *buf) const override final;
         bool tryPoke_(addr_t paddr, addr_t size, const uint8_t *buf) override final;
 
+        // Bring a block from downstream. The block stays uncached if it cannot be peeked
+        void loadBlock_(addr_t aligned_paddr) {
+            std::vector<uint8_t> block(block_size_);
+            downstream_memory_->peek(aligned_paddr, block_size_, block.data());
+            cached_memory_.write(aligned_paddr, block_size_, block.data());
+        }
+
         ////////////////////////////////////////////////////////////////////////////////
         // Memory
         sparta::memory::BlockingMemoryIF * downstream_memory_ = nullptr;
@@ -324,8 +331,7 @@ namespace sparta::memory
             // This block has not been initialized in cached memory yet because
             // it has not been written to before.
             const auto aligned_paddr = paddr & block_mask_;
-            uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->peek(aligned_paddr, block_size_, cached_mem_block_ptr);
+            loadBlock_(aligned_paddr);
         }
 
         // Store the write into a outstanding chain
@@ -368,8 +374,7 @@ namespace sparta::memory
         if(cached_memory_.tryGetLine(paddr) == nullptr) {
             // This memory was never written (or read) before.
             const auto aligned_paddr = paddr & block_mask_;
-            uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->peek(aligned_paddr, block_size_, cached_mem_block_ptr);
+            loadBlock_(aligned_paddr);
         }
         cached_memory_.write(paddr, size, buf);
         downstream_memory_->poke(paddr, size, buf);
-- 
2.43.0


From d4a88aad93cf27170aee926a7952a8571d1fd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 43/47] fix: CachedMemory::mergeWrite to an uncached block lost
 the rest of the block

---
 sparta/sparta/memory/CachedMemory.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index e733b90..ba3ab4d 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -490,11 +490,17 @@ namespace sparta::memory
                 }
                 if(!collision) {
                     // Write the one byte of data -- no collisions
+                    if(cached_memory_.tryGetLine(paddr_offset) == nullptr) {
+                        loadBlock_(paddr_offset & block_mask_);
+                    }
                     cached_memory_.write(paddr_offset, 1, buf + byte);
                 }
             }
         }
         else {
+            if(cached_memory_.tryGetLine(paddr) == nullptr) {
+                loadBlock_(paddr & block_mask_);
+            }
             cached_memory_.write(paddr, size, buf);
         }
     }
-- 
2.43.0


From beb46805563213303e3aba62d9ab99c7f44fc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 44/47] fix: CachedMemory::dropWrite read the dropped write
 after having erased it

---
 sparta/sparta/memory/CachedMemory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index ba3ab4d..ca81843 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -440,6 +440,9 @@ namespace sparta::memory
             throw SpartaException(msg.str());
         }
 
+        // write_to_drop might refer to the very write being erased
+        const uint64_t dropped_wuid = write_to_drop.getWriteID();
+
         // Drop all the writes from the newest up to and including the
         // dropped write
         auto currently_flushing_write = outstanding_writes_.rbegin();
@@ -454,7 +457,7 @@ namespace sparta::memory
             // Drop the write
             outstanding_writes_.erase((++currently_flushing_write).base());
 
-            if(current_flushed_wuid == write_to_drop.getWriteID()) {
+            if(current_flushed_wuid == dropped_wuid) {
                 break;
             }
 
-- 
2.43.0


From a474162bc884f034422dbaa821eb930e014174db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:46 +0000
Subject: [PATCH 45/47] fix: refuse a value too large for a register field that
 ends at the top of the register

---
 sparta/sparta/functional/Register.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 303e771..4a55916 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -407,7 +407,8 @@ public:
 
             // Check to see if the number of bits being written to the
             // field is larger than the field itself.
-            sparta_assert((field_value_to_be_written_shifted & not_field_mask_).none(),
+            // (tested before shifting, which drops bits above the register)
+            sparta_assert(getNumBits() >= MAX_FIELD_BITS || (value >> getNumBits()) == 0,
                           "Value of " << value <<  " too large for bit field "
                           << getLocation() << " of size " << getNumBits());
 
-- 
2.43.0


From 41b62e433b4e050a7fc49222a5d5256c47f462b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:07 +0000
Subject: [PATCH 46/47] fix: ArchData accepted a subset segment whose offset
 wraps past its parent

---
 sparta/sparta/functional/ArchData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index ba4a7be..01daf65 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -1597,7 +1597,8 @@ namespace sparta
                 placeSegment_(it->second, helper_map, depth+1);
                 sparta_assert(parent_seg->isPlaced()); // Parent must be placed at this point
 
-                if(seg->getLayoutSize() + seg->getSubsetOffset() > parent_seg->getLayoutSize()){
+                if(seg->getSubsetOffset() > parent_seg->getLayoutSize()
+                   || seg->getLayoutSize() > parent_seg->getLayoutSize() - seg->getSubsetOffset()){
                     throw SpartaException("Segment id=")
                         << seg->getLayoutID() << " had size 0x" << std::hex << seg->getLayoutSize()
                         << " and subset offset 0x" << std::hex << seg->getSubsetOffset()
-- 
2.43.0


From 6042237a845cd60917ea50e44be831f51c450165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:07 +0000
Subject: [PATCH 47/47] fix: FastCheckpointer erased a delta still needed by
 the deleted current checkpoint

---
 .../sparta/serialization/checkpoint/FastCheckpointer.hpp   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 419d3bf..e7e2296 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -818,9 +818,10 @@ namespace sparta::serialization::checkpoint
                 checkpoint_type* prev = static_cast<checkpoint_type*>(d->getPrev());
 
                 // If nothing later in the chain (tree) depends on d's data, it can be deleted.
+                // The current checkpoint depends on it even if flagged deleted itself.
                 // This also patches the checkpoint tree around the deleted checkpoint
                 //! \todo canDelete is recursive at worst and might benefit from optimization
-                if(d->canDelete()) {
+                if(d->canDelete() && !recursForwardFindAlive_(d)) {
                     // Get checkpoint id regardless of whether alive or dead
                     chkpt_id_t id = d->getID();
                     if (d->isFlaggedDeleted()) {
@@ -857,8 +858,8 @@ namespace sparta::serialization::checkpoint
                 // Only check descendants for snapshot-ness
                 if(dc->isSnapshot()){
                     // Found a live snapshot that ends this branch. d is not needed
-                    // after this
-                    return false;
+                    // after this, but may be by another branch
+                    continue;
                 }
                 if(dc == getCurrent_()){
                     // Found current in this search chain
-- 
2.43.0

