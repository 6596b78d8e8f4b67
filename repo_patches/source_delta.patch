From 50ef1b998235dd7e17c033050040effa743b159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 001/100] fix: do not report remote rooted epochs terminated
 before they are

On a node other than its root, every rooted epoch was initially considered
terminated, so isEpochTerminated() answered true and addAction() fired at once
while the epoch still had work. Ask the root instead (as was intended), outside
the current epoch, and keep the accounting on the global epoch balanced when
the root's answer arrives.
---
 src/vt/epoch/epoch_window.cc                 | 13 +++++++++++--
 src/vt/termination/dijkstra-scholten/comm.cc |  2 +-
 src/vt/termination/termination.cc            | 11 +++++++----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/vt/epoch/epoch_window.cc b/src/vt/epoch/epoch_window.cc
index cefa98a..84a634b 100644
--- a/src/vt/epoch/epoch_window.cc
+++ b/src/vt/epoch/epoch_window.cc
@@ -43,6 +43,7 @@
 
 #include "vt/epoch/epoch_window.h"
 #include "vt/epoch/epoch_manip.h"
+#include "vt/context/context.h"
 
 #include INCLUDE_FMT_OSTREAM
 
@@ -82,8 +83,16 @@ EpochWindow::EpochWindow(EpochType epoch) {
     interval.lower(), interval.upper()
   );
 
-  // All epochs in a given window start out terminated (thus, reusable).
-  terminated_epochs_.insertInterval(interval);
+  // All epochs in a given window start out terminated (thus, reusable) on the
+  // nodes that allocate from it. On any other node, nothing is known about a
+  // rooted epoch until that node hears that it terminated; so it must not be
+  // considered terminated from the start.
+  if (
+    not EpochManip::isRooted(archetype_epoch_) or
+    EpochManip::node(archetype_epoch_) == theContext()->getNode()
+  ) {
+    terminated_epochs_.insertInterval(interval);
+  }
 
   vt_debug_print(
     normal, term,
diff --git a/src/vt/termination/dijkstra-scholten/comm.cc b/src/vt/termination/dijkstra-scholten/comm.cc
index 4ceaf46..9134d01 100644
--- a/src/vt/termination/dijkstra-scholten/comm.cc
+++ b/src/vt/termination/dijkstra-scholten/comm.cc
@@ -105,7 +105,7 @@ namespace vt { namespace term { namespace ds {
   theSched()->enqueue([epoch]{
     auto ptr = theTerm()->getDSTerm(epoch);
     if (ptr != nullptr) {
-      if (not ptr->isEngaged()) {
+      if (not ptr->isEngaged() and not ptr->hasSuccessor()) {
         theTerm()->cleanupEpoch(epoch, TerminationDetector::CallFromEnum::NonRoot);
       }
     }
diff --git a/src/vt/termination/termination.cc b/src/vt/termination/termination.cc
index 197b705..79f9093 100644
--- a/src/vt/termination/termination.cc
+++ b/src/vt/termination/termination.cc
@@ -670,10 +670,8 @@ void TerminationDetector::epochTerminated(EpochType const& epoch, CallFromEnum f
   // Matching consume on global epoch once a nested epoch terminates
   if (epoch != any_epoch_sentinel) {
     bool const is_rooted = isRooted(epoch);
-    bool const is_ds = isDS(epoch);
     if (
       not is_rooted or
-      is_ds or
       (is_rooted and epoch::EpochManip::node(epoch) == this_node_)
     ) {
       consumeOnGlobal(epoch);
@@ -769,13 +767,18 @@ TermStatusEnum TerminationDetector::testEpochTerminated(EpochType epoch) {
       }
     } else {
       auto iter = epoch_wait_status_.find(epoch);
-      if (iter == epoch_wait_status_.end()) {
+      if (isDS(epoch) and iter == epoch_wait_status_.end()) {
         /*
          * Send a message to the root node to find out whether this epoch is
-         * terminated or not
+         * terminated or not. The root announces the termination of a wave-based
+         * epoch to all nodes anyway.
          */
         auto msg = makeMessage<TermTerminatedMsg>(epoch,this_node_);
+        // The root does not answer before the epoch terminates, so the inquiry
+        // must not be work under the current epoch
+        pushEpoch(any_epoch_sentinel);
         theMsg()->sendMsg<inquireEpochTerminated>(root, msg);
+        popEpoch(any_epoch_sentinel);
         epoch_wait_status_.insert(epoch);
       }
       status = TermStatusEnum::Remote;
-- 
2.43.0


From 062bcce09db4387360f56f15306d47efdca1f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 002/100] fix: run termination actions added while actions of
 the same epoch run

The loops over the actions were invalidated by an action that adds another one
for the same epoch, which was then lost or read after being freed.
---
 src/vt/termination/term_action.cc | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/vt/termination/term_action.cc b/src/vt/termination/term_action.cc
index ce90145..06e0322 100644
--- a/src/vt/termination/term_action.cc
+++ b/src/vt/termination/term_action.cc
@@ -80,11 +80,11 @@ void TermAction::afterAddEpochAction(EpochType const& epoch) {
 void TermAction::queueActions(EpochType epoch) {
   if (epoch == term::any_epoch_sentinel) {
     // @todo: should this be delayed also?
-    for (auto&& action : global_term_actions_) {
+    auto actions = std::move(global_term_actions_);
+    global_term_actions_.clear();
+    for (auto&& action : actions) {
       action();
     }
-
-    global_term_actions_.clear();
   } else {
     auto make_runnable = [&](EpochType encap_epoch){
       auto msg = makeMessage<ActionMsg>(epoch, encap_epoch);
@@ -133,14 +133,17 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      // Take the actions out before running them: an action may add further
+      // actions for the same epoch
+      auto actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_actions_.erase(iter);
     }
   }
 
@@ -150,14 +153,15 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_callable_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      auto actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_callable_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action->invoke();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_callable_actions_.erase(iter);
     }
   }
 }
-- 
2.43.0


From 83b88811ec3858b0417b8f389ce3592f0de1ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 003/100] fix: make progress when the work queue is empty with
 --vt_sched_progress_*

With --vt_sched_progress_han or --vt_sched_progress_sec the scheduler never
polled once its queue ran empty (no handler could run, nor was the cached time
refreshed), so start-up hung.
---
 src/vt/scheduler/scheduler.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vt/scheduler/scheduler.cc b/src/vt/scheduler/scheduler.cc
index d2c6ba1..e594d8e 100644
--- a/src/vt/scheduler/scheduler.cc
+++ b/src/vt/scheduler/scheduler.cc
@@ -249,9 +249,17 @@ void Scheduler::runProgress(bool msg_only, TimeType current_time) {
 
 void Scheduler::runSchedulerOnceImpl(bool msg_only) {
   if (special_progress_) {
+    if (progress_time_enabled_) {
+      // Not every work unit refreshes the cached time
+      is_recent_time_stale_ = true;
+    }
     auto current_time = getRecentTime();
     auto time_since_last_progress = current_time - last_progress_time_;
-    if (shouldCallProgress(processed_after_last_progress_, time_since_last_progress)) {
+    // Without any queued work, only progress can bring in more
+    if (
+      work_queue_.empty() or
+      shouldCallProgress(processed_after_last_progress_, time_since_last_progress)
+    ) {
       runProgress(msg_only, current_time);
     }
   } else if (work_queue_.empty()) {
-- 
2.43.0


From 350a9e00a045ba995f4880c08c3fde24aa125428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 004/100] fix: count large serialized messages without an epoch
 to the global epoch

A serialized message that is too large for the eager protocol and carries no
epoch was run without a termination context: its handler ran under whatever
epoch happened to be on the stack (work sent from it was then charged to that
epoch) and global termination did not count it while its data was in flight.
---
 .../messaging/serialized_messenger.impl.h        | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/vt/serialization/messaging/serialized_messenger.impl.h b/src/vt/serialization/messaging/serialized_messenger.impl.h
index 063d4af..017dcb2 100644
--- a/src/vt/serialization/messaging/serialized_messenger.impl.h
+++ b/src/vt/serialization/messaging/serialized_messenger.impl.h
@@ -118,16 +118,14 @@ template <typename UserMsgT>
     print_ptr(sys_msg), handler, recv_tag, epoch
   );
 
-  bool const is_valid_epoch = epoch != no_epoch;
-
-  if (is_valid_epoch) {
-    theTerm()->produce(epoch);
-  }
+  // A message without an epoch belongs to the global epoch: `produce`,
+  // `consume`, and the runnable map `no_epoch` to it
+  theTerm()->produce(epoch);
 
   auto node = sys_msg->from_node;
   theMsg()->recvDataDirect(
     nchunks, recv_tag, sys_msg->from_node, len,
-    [handler, recv_tag, node, epoch, is_valid_epoch]
+    [handler, recv_tag, node, epoch]
     (RDMA_GetType ptr, ActionType action) {
       // be careful here not to use "sys_msg", it is no longer valid
       auto msg_data = reinterpret_cast<SerialByteType*>(std::get<0>(ptr));
@@ -147,14 +145,12 @@ template <typename UserMsgT>
         );
       } else {
         runnable::makeRunnable(msg, true, handler, node)
-          .withTDEpoch(epoch, not is_valid_epoch)
+          .withTDEpoch(epoch)
           .withContinuation(action)
           .enqueue();
       }
 
-      if (is_valid_epoch) {
-        theTerm()->consume(epoch);
-      }
+      theTerm()->consume(epoch);
     }
   );
 }
-- 
2.43.0


From 8adca4c237f0c44867ca252370b94e1193d3b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 005/100] fix: do not grow an allocation past its block when it
 has oversize bytes

---
 src/vt/messaging/active.cc |  2 +-
 src/vt/pool/pool.cc        | 12 ++++++++++--
 src/vt/pool/pool.h         | 10 ++++++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 8ed080b..da77f3d 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -238,7 +238,7 @@ EventType ActiveMessenger::sendMsgBytesWithPut(
     auto const& put_ptr = envelopeGetPutPtr(msg->env);
     auto const& put_size = envelopeGetPutSize(msg->env);
     bool const& memory_pool_active = thePool()->active_env();
-    auto const& rem_size = thePool()->remainingSize(reinterpret_cast<std::byte*>(msg));
+    auto const& rem_size = thePool()->growableSize(reinterpret_cast<std::byte*>(msg));
     /*
      * Directly pack if the pool is active (which means it may have
      * overallocated and the remaining size of the (envelope) buffer is
diff --git a/src/vt/pool/pool.cc b/src/vt/pool/pool.cc
index 97b45b3..4b0a0c0 100644
--- a/src/vt/pool/pool.cc
+++ b/src/vt/pool/pool.cc
@@ -222,11 +222,19 @@ Pool::SizeType Pool::allocatedSize(std::byte* const buf) const {
   return HeaderManagerType::getHeaderBytes(buf) + HeaderManagerType::getHeaderOversizeBytes(buf);
 }
 
+Pool::SizeType Pool::growableSize(std::byte* const buf) const {
+  // The remaining size includes the oversize bytes, which are already part of
+  // the allocation
+  auto const remaining = remainingSize(buf);
+  auto const oversize = HeaderManagerType::getHeaderOversizeBytes(buf);
+  return remaining > oversize ? remaining - oversize : 0;
+}
+
 bool
 Pool::tryGrowAllocation(std::byte* buf, size_t grow_amount) {
   // For non-pooled alloc, this condition will always be true
-  // since remainingSize(buf) would be 0
-  if ( remainingSize(buf) < grow_amount )
+  // since growableSize(buf) would be 0
+  if ( growableSize(buf) < grow_amount )
     return false;
 
   auto *header = reinterpret_cast<Header*>(HeaderManagerType::getHeaderPtr(buf));
diff --git a/src/vt/pool/pool.h b/src/vt/pool/pool.h
index 9556e51..0fa0f63 100644
--- a/src/vt/pool/pool.h
+++ b/src/vt/pool/pool.h
@@ -132,6 +132,16 @@ struct Pool : runtime::component::Component<Pool> {
    */
   SizeType remainingSize(std::byte* const buf) const;
 
+  /**
+   * \internal \brief Get the bytes at the end of the block that belong neither
+   * to the main payload nor to the oversize bytes of an allocation
+   *
+   * \param[in] buf the buffer allocated from the pool
+   *
+   * \return number of bytes by which the allocation may be grown
+   */
+  SizeType growableSize(std::byte* const buf) const;
+
   /**
    * \internal \brief Get total allocated bytes for a pool allocation
    *
-- 
2.43.0


From d2c3c1d1f621b4baed59ed39a255e477e4d72f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 006/100] fix: size, membership and split of strided group
 ranges

---
 src/vt/group/region/group_range.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index e237868..8a1554d 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -63,7 +63,8 @@ Range::Range(
 }
 
 /*virtual*/ Range::SizeType Range::getSize() const {
-  return (hi_ - lo_) / stride_;
+  // The last element may be less than a whole stride away from the upper bound
+  return hi_ > lo_ ? (hi_ - lo_ + stride_ - 1) / stride_ : 0;
 }
 
 /*virtual*/ void Range::sort() {
@@ -76,7 +77,7 @@ Range::Range(
     // List must be sorted
     return std::binary_search(list_.begin(), list_.end(), node);
   } else {
-    return node >= lo_ && node < hi_ && node % stride_ == 0;
+    return node >= lo_ && node < hi_ && (node - lo_) % stride_ == 0;
   }
 }
 
@@ -114,7 +115,7 @@ Range::Range(Range const& in_other, BoundType in_remove_extent)
 
 /*virtual*/ Range::SplitRegionType Range::split() const {
   auto const& size = getSize();
-  auto const& span = (hi_ - lo_) / 2;
+  BoundType const span = (size / 2) * stride_;
   vtAssert(
     size >= 2, "Size must be at least 2 to split"
   );
-- 
2.43.0


From 7a130d937cfb3fa8b8a360ac41e1c11ac0a89c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 007/100] fix: consume the unit of a message that is only
 forwarded

---
 src/vt/messaging/active.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index da77f3d..07de54e 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -923,6 +923,15 @@ void ActiveMessenger::processActiveMsg(
   } else {
     amForwardCounterGauge.incrementUpdate(base.size(), 1);
 
+    // Forwarding produced a new unit for each node the message was sent to: the
+    // one received here is done
+    if (not is_term) {
+      auto const epoch = envelopeIsEpochType(msg->env) ?
+        envelopeGetEpoch(msg->env) : term::any_epoch_sentinel;
+      theTerm()->consume(epoch,1,from);
+      theTerm()->hangDetectRecv();
+    }
+
     if (cont != nullptr) {
       cont();
     }
-- 
2.43.0


From 3c54f82e20f88d69f2f9d15694a2d769087b5e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 008/100] fix: deliver messages from members of rooted groups
 to all members once

---
 src/vt/group/group_manager.cc            | 18 ++++++------------
 src/vt/group/rooted/group_info_rooted.cc | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/vt/group/group_manager.cc b/src/vt/group/group_manager.cc
index 647a056..44b8f64 100644
--- a/src/vt/group/group_manager.cc
+++ b/src/vt/group/group_manager.cc
@@ -434,16 +434,14 @@ EventType GroupManager::sendGroupCollective(
 }
 
 EventType GroupManager::sendGroup(
-  MsgSharedPtr<BaseMsgType> const& base, NodeType const from,
+  MsgSharedPtr<BaseMsgType> const& base, [[maybe_unused]] NodeType const from,
   bool const is_root,
   bool* const deliver
 ) {
   auto const& this_node = theContext()->getNode();
   auto const& msg = base.get();
   auto const& group = envelopeGetGroup(msg->env);
-  auto const& dest = envelopeGetDest(msg->env);
-  auto const& this_node_dest = dest == this_node;
-  auto const& first_send = from == uninitialized_destination;
+  [[maybe_unused]] auto const& dest = envelopeGetDest(msg->env);
 
   vt_debug_print(
     terse, group,
@@ -496,7 +494,7 @@ EventType GroupManager::sendGroup(
         is_root
       );
 
-      if (remote_iter != remote_group_info_.end() && (!this_node_dest || first_send)) {
+      if (remote_iter != remote_group_info_.end()) {
         auto& info = *remote_iter->second;
         vtAssert(!info.is_forward_, "Must not be a forward");
         vtAssert(
@@ -523,13 +521,9 @@ EventType GroupManager::sendGroup(
           });
         }
 
-        if (is_root && from == uninitialized_destination) {
-          *deliver = true;
-        } else if (!is_root && dest == this_node) {
-          *deliver = false;
-        } else {
-          *deliver = true;
-        }
+        // The message passes each node of the spanning tree once, also the node
+        // it originates from
+        *deliver = true;
       }
     }
   }
diff --git a/src/vt/group/rooted/group_info_rooted.cc b/src/vt/group/rooted/group_info_rooted.cc
index d3fa2ec..cffa285 100644
--- a/src/vt/group/rooted/group_info_rooted.cc
+++ b/src/vt/group/rooted/group_info_rooted.cc
@@ -55,6 +55,8 @@
 #include "vt/collective/tree/tree.h"
 #include "vt/group/group_manager.h"
 
+#include <algorithm>
+
 namespace vt { namespace group {
 
 InfoRooted::InfoRooted(
@@ -86,8 +88,10 @@ void InfoRooted::setupRooted() {
     auto const& this_node = theContext()->getNode();
 
     region_->sort();
-    if (region_->isList() || size < max_region_list_size) {
-      auto const& contains_this_node = region_->contains(this_node);
+    auto const contains_this_node = region_->contains(this_node);
+    if (
+      region_->isList() || size < max_region_list_size || contains_this_node
+    ) {
       region_list_ = region_->makeList();
       if (size < min_spanning_tree_size && contains_this_node) {
         this_node_included_ = true;
@@ -109,6 +113,14 @@ void InfoRooted::setupRooted() {
           normal, group,
           "Info::setupRooted: sending as list\n"
         );
+        if (contains_this_node) {
+          // Messages to the group go through this node: when it is a member,
+          // it must be the root of the spanning tree
+          auto const iter = std::find(
+            region_list_.begin(), region_list_.end(), this_node
+          );
+          std::rotate(region_list_.begin(), iter, iter + 1);
+        }
         auto const& low_node = region_list_[0];
         RemoteOperationIDType op = no_op_id;
         if (finished_setup_action_ != nullptr) {
-- 
2.43.0


From 321d2db63a7fec47dd0b601d050b50efd5aef7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 009/100] fix: keep the epoch of a message waiting for its
 collective group

---
 src/vt/group/group_manager.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vt/group/group_manager.cc b/src/vt/group/group_manager.cc
index 44b8f64..8bd4faf 100644
--- a/src/vt/group/group_manager.cc
+++ b/src/vt/group/group_manager.cc
@@ -399,11 +399,21 @@ EventType GroupManager::sendGroupCollective(
       return no_event;
     }
   } else if (in_group && !group_ready) {
+    // The epoch must not end before the message is sent on
+    auto const is_term = envelopeIsTerm(msg->env);
+    auto const epoch = envelopeIsEpochType(msg->env) ?
+      envelopeGetEpoch(msg->env) : term::any_epoch_sentinel;
+    if (not is_term) {
+      theTerm()->produce(epoch);
+    }
     local_collective_group_info_.find(group)->second->readyAction(
-      [base,from,is_root]{
+      [base,from,is_root,is_term,epoch]{
         // Do not capture deliver, it's a pointer to stack memory
         bool dummy;
         theGroup()->sendGroupCollective(base,from,is_root,&dummy);
+        if (not is_term) {
+          theTerm()->consume(epoch);
+        }
       }
     );
     *deliver = true;
-- 
2.43.0


From 18459515f16cb088925112b81e35f650865c2f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 010/100] fix: collective groups being set up at the same time,
 empty groups and late root notices

---
 src/vt/group/collective/group_info_collective.cc | 8 +++++++-
 src/vt/group/group_manager.impl.h                | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vt/group/collective/group_info_collective.cc b/src/vt/group/collective/group_info_collective.cc
index 4aa6b7d..930c656 100644
--- a/src/vt/group/collective/group_info_collective.cc
+++ b/src/vt/group/collective/group_info_collective.cc
@@ -665,8 +665,10 @@ void InfoColl::newTree(NodeType const& parent) {
   theCollective()->makeReducerGroup(group_, collective_->span_.get());
   collective_->reduce_ = theCollective()->getReducerGroup(group_);
 
+  // Nodes outside of the group (the root of an empty one) have already run the
+  // action in \c finalize
   auto const& action = getAction();
-  if (action) {
+  if (action and is_in_group) {
     action();
   }
   auto cur_actions = pending_ready_actions_;
@@ -763,6 +765,10 @@ void InfoColl::finalizeTree(GroupOnlyMsg* msg) {
   known_root_node_  = new_root;
   has_root_         = true;
   is_default_group_ = msg->isDefault();
+  if (new_root == theContext()->getNode()) {
+    // The message that makes this node the root may still be on its way
+    is_new_root_ = true;
+  }
   finalize();
 }
 
diff --git a/src/vt/group/group_manager.impl.h b/src/vt/group/group_manager.impl.h
index c78e560..fca8b03 100644
--- a/src/vt/group/group_manager.impl.h
+++ b/src/vt/group/group_manager.impl.h
@@ -119,7 +119,7 @@ template <typename T>
           action(elm);
         }
       }
-      waiting_cont_.clear();
+      waiting_cont_.erase(op);
     }
   }
 }
-- 
2.43.0


From 2cdbd6e90752203b1892a18ffc2532c275e8a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 011/100] fix: give progress functions the current time, not a
 cached one

The time cached at the end of the last progress (or of the last task) was
passed to the time triggers, so after a computation outside the scheduler a
trigger fired with an old time and then again right away.
---
 src/vt/scheduler/scheduler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vt/scheduler/scheduler.cc b/src/vt/scheduler/scheduler.cc
index e594d8e..db63380 100644
--- a/src/vt/scheduler/scheduler.cc
+++ b/src/vt/scheduler/scheduler.cc
@@ -260,10 +260,13 @@ void Scheduler::runSchedulerOnceImpl(bool msg_only) {
       work_queue_.empty() or
       shouldCallProgress(processed_after_last_progress_, time_since_last_progress)
     ) {
-      runProgress(msg_only, current_time);
+      // The cached time may be from before the last progress
+      is_recent_time_stale_ = true;
+      runProgress(msg_only, getRecentTime());
     }
   } else if (work_queue_.empty()) {
     if (curRT->needsCurrentTime()) {
+      is_recent_time_stale_ = true;
       runProgress(msg_only, getRecentTime());
     } else {
       runProgress(msg_only, TimeType{0});
-- 
2.43.0


From cbd51da60a4e5087ac29325fb7cbeca6e3ccd757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 012/100] fix: a time trigger with period zero must not be
 ready again at once

Converting the time to milliseconds and back could round it down, and then
polling the triggers never ended.
---
 src/vt/timetrigger/trigger.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/timetrigger/trigger.h b/src/vt/timetrigger/trigger.h
index bbb8882..7c2b29c 100644
--- a/src/vt/timetrigger/trigger.h
+++ b/src/vt/timetrigger/trigger.h
@@ -85,8 +85,7 @@ struct Trigger {
    * \return the next time this should be triggered
    */
   TimeType nextTriggerTime() const {
-    return TimeType{
-      (last_trigger_time_.milliseconds() + period_.count()) / 1000.0};
+    return last_trigger_time_ + TimeType{period_.count() / 1000.0};
   }
 
   /**
-- 
2.43.0


From 28032a710185a7ded1df5698be83b76d5315c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 013/100] fix: keep data of later subphases when an earlier
 subphase records again

---
 src/vt/elm/elm_lb_data.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vt/elm/elm_lb_data.cc b/src/vt/elm/elm_lb_data.cc
index 4489e6b..bc59ac9 100644
--- a/src/vt/elm/elm_lb_data.cc
+++ b/src/vt/elm/elm_lb_data.cc
@@ -50,6 +50,18 @@
 
 namespace vt { namespace elm {
 
+namespace {
+
+// A later subphase may already have been recorded, it must not be dropped
+template <typename T>
+void growTo(std::vector<T>& vec, std::size_t size) {
+  if (vec.size() < size) {
+    vec.resize(size);
+  }
+}
+
+} /* end anon namespace */
+
 void ElementLBData::start(TimeType time) {
   auto const start_time = time;
   cur_time_ = start_time;
@@ -104,7 +116,7 @@ void ElementLBData::addReadOnlySharedID(
 
 void ElementLBData::sendComm(elm::CommKey key, double bytes) {
   phase_comm_[cur_phase_][key].sendMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
+  growTo(subphase_comm_[cur_phase_], cur_subphase_ + 1);
   subphase_comm_[cur_phase_].at(cur_subphase_)[key].sendMsg(bytes);
 }
 
@@ -112,7 +124,7 @@ void ElementLBData::recvComm(
   elm::CommKey key, double bytes
 ) {
   phase_comm_[cur_phase_][key].receiveMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
+  growTo(subphase_comm_[cur_phase_], cur_subphase_ + 1);
   subphase_comm_[cur_phase_].at(cur_subphase_)[key].receiveMsg(bytes);
 }
 
@@ -143,7 +155,7 @@ void ElementLBData::recvToNode(
 void ElementLBData::addTime(LoadType const timeLoad) {
   phase_timings_[cur_phase_] += timeLoad;
 
-  subphase_timings_[cur_phase_].resize(cur_subphase_ + 1);
+  growTo(subphase_timings_[cur_phase_], cur_subphase_ + 1);
   subphase_timings_[cur_phase_].at(cur_subphase_) += timeLoad;
 
   vt_debug_print(
-- 
2.43.0


From 1d9bb9adb839b04aa666230df596f63e6f29e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 014/100] fix: run the handlers queued for a collection element
 before it migrates

A handler that is queued for an element holds a pointer to it: if the element
was migrated in between, the handler ran on the destroyed element.
---
 src/vt/context/runnable_context/collection.cc |  3 +-
 src/vt/context/runnable_context/collection.h  |  1 +
 .../runnable_context/collection.impl.h        |  5 +++
 src/vt/vrt/collection/manager.h               | 15 ++++++++
 src/vt/vrt/collection/manager.impl.h          | 24 +++++++++++--
 src/vt/vrt/collection/types/migratable.cc     | 17 ++++++++++
 src/vt/vrt/collection/types/migratable.h      | 34 +++++++++++++++++++
 7 files changed, 96 insertions(+), 3 deletions(-)

diff --git a/src/vt/context/runnable_context/collection.cc b/src/vt/context/runnable_context/collection.cc
index b2ae3f3..d3680a1 100644
--- a/src/vt/context/runnable_context/collection.cc
+++ b/src/vt/context/runnable_context/collection.cc
@@ -46,6 +46,7 @@
 namespace vt { namespace ctx {
 
 void Collection::start() {
+  started_(elm_);
   set_(elm_);
 }
 
@@ -58,7 +59,7 @@ void Collection::suspend() {
 }
 
 void Collection::resume() {
-  start();
+  set_(elm_);
 }
 
 }} /* end namespace vt::ctx */
diff --git a/src/vt/context/runnable_context/collection.h b/src/vt/context/runnable_context/collection.h
index 3328939..220384a 100644
--- a/src/vt/context/runnable_context/collection.h
+++ b/src/vt/context/runnable_context/collection.h
@@ -88,6 +88,7 @@ struct Collection {
 
 private:
   std::function<void(std::byte* in_elm)> set_;   /**< Set context function */
+  std::function<void(std::byte* in_elm)> started_; /**< Handler started */
   std::function<void()> clear_;             /**< Clear context function */
   std::byte* elm_ = nullptr;                     /**< The element (untyped) */
 };
diff --git a/src/vt/context/runnable_context/collection.impl.h b/src/vt/context/runnable_context/collection.impl.h
index 6a756cc..c4446cb 100644
--- a/src/vt/context/runnable_context/collection.impl.h
+++ b/src/vt/context/runnable_context/collection.impl.h
@@ -61,6 +61,11 @@ template <typename IndexT>
     auto proxy_ = e->getProxy();
     vrt::collection::CollectionContextHolder<IndexT>::set(&idx_, proxy_);
   };
+  elm->handlerCreated();
+  started_ = [](std::byte* in_elm){
+    auto e = reinterpret_cast<vrt::collection::Indexable<IndexT>*>(in_elm);
+    e->handlerStarted();
+  };
   clear_ = []{
     vrt::collection::CollectionContextHolder<IndexT>::clear();
   };
diff --git a/src/vt/vrt/collection/manager.h b/src/vt/vrt/collection/manager.h
index e194da3..fb8e7f2 100644
--- a/src/vt/vrt/collection/manager.h
+++ b/src/vt/vrt/collection/manager.h
@@ -1480,6 +1480,21 @@ private:
   template <typename ColT>
   friend struct param::ConstructParams;
 
+  /**
+   * \internal \brief Schedule the migration of an element out of this node, once
+   * the handlers that are waiting to run on it have started
+   *
+   * \param[in] proxy the collection proxy bits
+   * \param[in] idx the index
+   * \param[in] dest the destination node
+   * \param[in] epoch the epoch the migration is part of
+   */
+  template <typename ColT, typename IndexT>
+  void scheduleMigrateOut(
+    VirtualProxyType const& proxy, IndexT const& idx, NodeType const& dest,
+    EpochType epoch
+  );
+
   /**
    * \internal \brief Migrate an element out of this node
    *
diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index aead7c8..558da6c 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1792,14 +1792,34 @@ MigrateStatus CollectionManager::migrate(
 
   auto const epoch = theMsg()->getEpoch();
   theTerm()->produce(epoch);
+  scheduleMigrateOut<ColT, IndexT>(col_proxy, idx, dest, epoch);
+
+  return MigrateStatus::PendingLocalAction;
+}
+
+template <typename ColT, typename IndexT>
+void CollectionManager::scheduleMigrateOut(
+  VirtualProxyType const& col_proxy, IndexT const& idx, NodeType const& dest,
+  EpochType epoch
+) {
   schedule([=]{
+    // Handlers that are already waiting to run on the element must run here
+    auto elm_holder = findElmHolder<IndexT>(col_proxy);
+    if (elm_holder != nullptr and elm_holder->exists(idx)) {
+      auto const ptr = elm_holder->lookup(idx).getRawPtr();
+      if (ptr->hasPendingHandlers()) {
+        ptr->afterPendingHandlers([=]{
+          scheduleMigrateOut<ColT, IndexT>(col_proxy, idx, dest, epoch);
+        });
+        return;
+      }
+    }
+
     theMsg()->pushEpoch(epoch);
     migrateOut<ColT,IndexT>(col_proxy, idx, dest);
     theMsg()->popEpoch(epoch);
     theTerm()->consume(epoch);
   });
-
-  return MigrateStatus::PendingLocalAction;
 }
 
 template <typename ColT, typename IndexT>
diff --git a/src/vt/vrt/collection/types/migratable.cc b/src/vt/vrt/collection/types/migratable.cc
index 659049c..175b9e1 100644
--- a/src/vt/vrt/collection/types/migratable.cc
+++ b/src/vt/vrt/collection/types/migratable.cc
@@ -48,6 +48,8 @@
 #include "vt/vrt/proxy/proxy_bits.h"
 #include "vt/elm/elm_id_bits.h"
 
+#include <utility>
+
 namespace vt { namespace vrt { namespace collection {
 
 Migratable::Migratable()
@@ -58,6 +60,21 @@ Migratable::Migratable()
   )
 { }
 
+void Migratable::handlerStarted() {
+  num_pending_handlers_--;
+  if (num_pending_handlers_ == 0) {
+    auto actions = std::move(after_handlers_);
+    after_handlers_.clear();
+    for (auto&& action : actions) {
+      action();
+    }
+  }
+}
+
+void Migratable::afterPendingHandlers(ActionType action) {
+  after_handlers_.push_back(action);
+}
+
 /*virtual*/ void Migratable::destroy() {
   vt_debug_print(
     verbose, vrt_coll,
diff --git a/src/vt/vrt/collection/types/migratable.h b/src/vt/vrt/collection/types/migratable.h
index 7a07d64..78d70cc 100644
--- a/src/vt/vrt/collection/types/migratable.h
+++ b/src/vt/vrt/collection/types/migratable.h
@@ -52,6 +52,10 @@
 #include "vt/vrt/collection/types/storage/storable.h"
 #include "vt/vrt/collection/balance/lb_common.h"
 #include "vt/vrt/collection/balance/col_lb_data.h"
+#include "vt/configs/types/types_type.h"
+
+#include <cstddef>
+#include <vector>
 
 namespace vt { namespace vrt { namespace collection {
 
@@ -101,6 +105,32 @@ struct Migratable : MigrateHookBase, storage::Storable {
 
   balance::ElementIDStruct getElmID() const { return elm_id_; }
 
+  /**
+   * \internal \brief Record that a handler that will run on this element has
+   * been created: the element must not leave this node until it has started
+   */
+  void handlerCreated() { num_pending_handlers_++; }
+
+  /**
+   * \internal \brief Record that a handler starts running on this element
+   */
+  void handlerStarted();
+
+  /**
+   * \internal \brief Whether handlers are waiting to run on this element
+   *
+   * \return whether there are any
+   */
+  bool hasPendingHandlers() const { return num_pending_handlers_ > 0; }
+
+  /**
+   * \internal \brief Call an action once all the handlers that are waiting to
+   * run on this element have started
+   *
+   * \param[in] action the action
+   */
+  void afterPendingHandlers(ActionType action);
+
 protected:
   template <typename Serializer>
   void serialize(Serializer& s);
@@ -113,6 +143,10 @@ public:
   balance::CollectionLBData& getLBData() { return lb_data_; }
 protected:
   balance::ElementIDStruct elm_id_ = {};
+
+private:
+  std::size_t num_pending_handlers_ = 0;    /**< Handlers waiting to run */
+  std::vector<ActionType> after_handlers_;  /**< Actions waiting for handlers */
 };
 
 }}} /* end namespace vt::vrt::collection */
-- 
2.43.0


From 700861ff539647acc46029158c6352bc259bac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 015/100] fix: listeners added to a pipe persist across
 triggers

A callback that sends to a collection element and a listener that sends to a
node were dropped after the first trigger, although the pipe persists.
---
 src/vt/pipe/callback/handler_send/callback_send.impl.h | 3 ++-
 src/vt/pipe/callback/proxy_send/callback_proxy_send.h  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vt/pipe/callback/handler_send/callback_send.impl.h b/src/vt/pipe/callback/handler_send/callback_send.impl.h
index 5871f59..dea825c 100644
--- a/src/vt/pipe/callback/handler_send/callback_send.impl.h
+++ b/src/vt/pipe/callback/handler_send/callback_send.impl.h
@@ -56,7 +56,8 @@ namespace vt { namespace pipe { namespace callback {
 template <typename MsgT>
 CallbackSend<MsgT>::CallbackSend(
   HandlerType const in_handler, NodeType const& in_send_node
-) : send_node_(in_send_node), handler_(in_handler)
+) : CallbackBase<SignalBaseType>(CallbackPersistTag),
+    send_node_(in_send_node), handler_(in_handler)
 { }
 
 template <typename MsgT>
diff --git a/src/vt/pipe/callback/proxy_send/callback_proxy_send.h b/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
index cfb681a..5b5f9ca 100644
--- a/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
+++ b/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
@@ -68,14 +68,16 @@ struct CallbackProxySend : CallbackBase<signal::Signal<MsgT>> {
 
   CallbackProxySend(
     HandlerType const in_handler, IndexedProxyType const& in_proxy
-  ) : proxy_(in_proxy.getCollectionProxy()),
+  ) : CallbackBase<SignalBaseType>(CallbackPersistTag),
+      proxy_(in_proxy.getCollectionProxy()),
       idx_(in_proxy.getElementProxy().getIndex()), handler_(in_handler)
   { }
 
   CallbackProxySend(
     HandlerType const in_handler, ProxyType const& in_proxy,
     IndexType const& in_idx
-  ) : proxy_(in_proxy), idx_(in_idx), handler_(in_handler)
+  ) : CallbackBase<SignalBaseType>(CallbackPersistTag),
+      proxy_(in_proxy), idx_(in_idx), handler_(in_handler)
   { }
 
   template <typename SerializerT>
-- 
2.43.0


From de225ca7e373a8e27af126446fbe5be496128237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 016/100] fix: a pipe with several listeners sends each of them
 a message of its own

The message was sent again after it had been sent and locked.
---
 src/vt/pipe/callback/callback_base.h          | 30 +++++++++++++++++++
 .../handler_send/callback_send.impl.h         |  6 ++--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/vt/pipe/callback/callback_base.h b/src/vt/pipe/callback/callback_base.h
index 54fa724..04362df 100644
--- a/src/vt/pipe/callback/callback_base.h
+++ b/src/vt/pipe/callback/callback_base.h
@@ -48,9 +48,39 @@
 #include "vt/pipe/pipe_common.h"
 #include "vt/pipe/signal/signal.h"
 #include "vt/context/context.h"
+#include "vt/messaging/envelope.h"
+#include "vt/messaging/message.h"
+
+#include <type_traits>
 
 namespace vt { namespace pipe { namespace callback {
 
+/**
+ * \internal \brief Get a message that can be sent to one of the listeners of a
+ * pipe. The message that triggered the pipe may have been sent already, by
+ * another listener or to get to this node, so a copy of it must be sent.
+ *
+ * \param[in] data the message that triggered the pipe
+ *
+ * \return the message to send
+ */
+template <typename MsgT>
+MsgPtr<MsgT> makeListenerMsg(MsgT* data) {
+  if constexpr (std::is_copy_constructible_v<MsgT>) {
+    auto msg = makeMessage<MsgT>(*data);
+    auto const ref = envelopeGetRef(msg->env);
+    envelopeSetIsLocked(msg->env, false);
+    envelopeInitEmpty(msg->env);
+    envelopeSetRef(msg->env, ref);
+    if (envelopeIsEpochType(msg->env)) {
+      envelopeSetEpoch(msg->env, envelopeGetEpoch(data->env));
+    }
+    return msg;
+  } else {
+    return promoteMsg(data);
+  }
+}
+
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wunused-variable"
 static struct CallbackPersistTagType   {} CallbackPersistTag   {};
diff --git a/src/vt/pipe/callback/handler_send/callback_send.impl.h b/src/vt/pipe/callback/handler_send/callback_send.impl.h
index dea825c..a23d4ba 100644
--- a/src/vt/pipe/callback/handler_send/callback_send.impl.h
+++ b/src/vt/pipe/callback/handler_send/callback_send.impl.h
@@ -113,13 +113,13 @@ CallbackSend<MsgT>::triggerDispatch(
     this_node, send_node_
   );
   if (this_node == send_node_) {
-    auto msg = reinterpret_cast<ShortMessage*>(data);
-    auto m = promoteMsg(msg);
+    auto m = makeListenerMsg(data);
     runnable::makeRunnable(m, true, handler_, this_node)
       .withTDEpochFromMsg()
       .enqueue();
   } else {
-    theMsg()->sendMsg<SignalDataType>(send_node_, handler_, data);
+    auto m = makeListenerMsg(data);
+    theMsg()->sendMsg<SignalDataType>(send_node_, handler_, m);
   }
 }
 
-- 
2.43.0


From fa049e75f8a4171e5e8b1d3d2b872931d7bf3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 017/100] fix: accept the answer that an entity was delivered
 on the asking node

An entity may migrate to the node that sent it a message while the message is on
its way.
---
 src/vt/topos/location/location.impl.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index c9b0b10..0e28213 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -410,7 +410,6 @@ void EntityLocationCoord<EntityID>::handleEagerUpdate(
   EntityID const& id, NodeType home_node, NodeType deliver_node
 ) {
   auto this_node = theContext()->getNode();
-  vtAssert(this_node != deliver_node, "This should have been a forwarding node");
   vtAssert(home_node != uninitialized_destination, "Home node should be valid");
   vtAssert(home_node < theContext()->getNumNodes(), "Home node should be valid");
 
@@ -420,8 +419,17 @@ void EntityLocationCoord<EntityID>::handleEagerUpdate(
     id, home_node, deliver_node
   );
 
-  // Insert a new entry in the cache for the updated location
-  recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, deliver_node});
+  // Insert a new entry in the cache for the updated location, unless the entity
+  // has come to this node while it was being looked for: it may still be here,
+  // and where it went is known if it is not
+  if (
+    this_node != deliver_node and
+    local_registered_.find(id) == local_registered_.end()
+  ) {
+    recs_.insert(
+      id, home_node, LocRecType{id, eLocState::Remote, deliver_node}
+    );
+  }
 
   auto ask_iter = loc_asks_.find(id);
   if (ask_iter != loc_asks_.end()) {
-- 
2.43.0


From 82e1f62a9f4f496b38cc29957a40bf68a56db2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 018/100] fix: buffer a message again if its entity is on its
 way to this node

The home may answer that the entity is on this node before it gets here: messages
that had been buffered for it were then delivered to the missing entity.
---
 src/vt/topos/location/location.impl.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index 0e28213..d1884d0 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -571,7 +571,7 @@ void EntityLocationCoord<EntityID>::routeMsgNode(
       EntityID id_ = id;
       // buffer the message here, the entity will be registered in the future
       insertPendingEntityAction(id_, [=](NodeType resolved) {
-        auto const& my_node = theContext()->getNode();
+        [[maybe_unused]] auto const& my_node = theContext()->getNode();
 
         vt_debug_print(
           normal, location,
@@ -581,16 +581,14 @@ void EntityLocationCoord<EntityID>::routeMsgNode(
         );
 
         theMsg()->pushEpoch(epoch);
-        if (resolved == my_node) {
-          trigger_msg_handler_action(id_);
-        } else {
-          /*
-           *  Recurse with the new updated node information. This occurs
-           *  typically when an non-migrated registration occurs off the home
-           *  node and messages are buffered, awaiting forwarding information.
-           */
-          routeMsgNode<MessageT>(id_, home_node, resolved,msg);
-        }
+        /*
+         *  Recurse with the new updated node information. Either the entity has
+         *  been registered here, or a non-migrated registration occurred off
+         *  the home node and messages are buffered, awaiting forwarding
+         *  information. The location may also be known to be this node before
+         *  the entity gets here: then the message must be buffered again.
+         */
+        routeMsgNode<MessageT>(id_, home_node, resolved, msg);
         theMsg()->popEpoch(epoch);
         theTerm()->consume(epoch);
       });
-- 
2.43.0


From 22325894705bccb2f58ced5afc924f598d34f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 019/100] fix: register elements of listInsertHere with their
 mapped home node

---
 src/vt/vrt/collection/collection_builder.impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/collection_builder.impl.h b/src/vt/vrt/collection/collection_builder.impl.h
index 3b2a10d..681f0dc 100644
--- a/src/vt/vrt/collection/collection_builder.impl.h
+++ b/src/vt/vrt/collection/collection_builder.impl.h
@@ -212,7 +212,9 @@ void CollectionManager::makeCollectionImpl(param::ConstructParams<ColT>& po) {
   for (auto&& elm : po.list_insert_here_) {
     auto const idx = std::get<0>(elm);
     detail::ContainableElementFn<ColT> c{std::move(std::get<1>(elm))};
-    makeCollectionElement<ColT>(proxy, idx, this_node, std::move(c));
+    auto const mapped_node =
+      getElementMapping(map_han, map_object, idx, bounds);
+    makeCollectionElement<ColT>(proxy, idx, mapped_node, std::move(c));
   }
 
   if (not has_dynamic_membership) {
-- 
2.43.0


From c7f905918bd9e2f9dc0a1797c020d88e429c0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 020/100] fix: give inserted collection elements the current
 reduction stamp

---
 src/vt/vrt/collection/manager.impl.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 558da6c..6d1fada 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1596,10 +1596,13 @@ void CollectionManager::finishModification(
   SeqType const global_min_stamp = iter->second;
   reduce_stamp_.erase(iter);
 
-  // set all new insertions to proper value
+  // set all new insertions to proper value: the initial stamp if there were no
+  // elements before
+  bool const had_elements =
+    global_min_stamp != std::numeric_limits<SeqType>::max();
   elm_holder->foreach([&](IndexType const&, Indexable<IndexType>* c) {
     if (*c->reduce_stamp_ == 0) {
-      *c->reduce_stamp_ = global_min_stamp;
+      *c->reduce_stamp_ = had_elements ? global_min_stamp : SeqType{1};
     }
   });
 
@@ -1710,7 +1713,11 @@ void CollectionManager::insert(
 
   if (insert_node == this_node and proceed_with_insertion) {
     auto cons_fn = detail::InsertMsgDispatcher<MsgT, ColT>::makeCons(insert_msg);
-    makeCollectionElement<ColT>(untyped_proxy, idx, mapped_node, cons_fn);
+    // Zero the reduce stamp so that finishModification() recognizes the new
+    // element and gives it the stamp of the elements that already exist
+    makeCollectionElement<ColT>(
+      untyped_proxy, idx, mapped_node, cons_fn, true
+    );
   } else if (insert_node != this_node) {
     auto msg = makeMessage<InsertMsg<ColT, MsgT>>(
       proxy, idx, insert_node, mapped_node, modify_epoch, insert_msg
-- 
2.43.0


From 7da716f0b22cb2de6bfd633fd2bb4be29be07037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 021/100] fix: receive a message payload in as many chunks as
 it was sent in

---
 src/vt/messaging/active.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 07de54e..6d1d09e 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -1114,8 +1114,14 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
       envelopeSetPutPtrOnly(msg->env, put_ptr);
       put_finished = true;
     } else {
-      /*bool const put_delivered = */recvDataMsg(
-        1, put_tag, sender,
+      // The payload is sent in as many chunks as are needed for its size
+      auto const put_size = envelopeGetPutSize(msg->env);
+      auto const max_per_send = theConfig()->vt_max_mpi_send_size;
+      auto const nchunks = static_cast<int>(
+        (static_cast<std::size_t>(put_size) + max_per_send - 1) / max_per_send
+      );
+      recvDataDirect(
+        nchunks, put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
           processActiveMsg(base, sender, true, deleter);
-- 
2.43.0


From 5da0f8d3358fb7b8973b7bf08ab63918aa45a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 022/100] fix: keep the payload of a broadcast until it has
 been forwarded

---
 src/vt/messaging/active.cc | 14 +++++++++++++-
 src/vt/messaging/active.h  |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 6d1d09e..e3d70cd 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -272,6 +272,11 @@ EventType ActiveMessenger::sendMsgBytesWithPut(
       if (ret_tag != env_tag) {
         envelopeSetPutTag(msg->env, ret_tag);
       }
+      if (forwarded_payload_ != nullptr) {
+        theEvent()->attachAction(
+          ret.getEvent(), [payload = forwarded_payload_]{}
+        );
+      }
     }
   }
 
@@ -1124,7 +1129,14 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
         nchunks, put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
-          processActiveMsg(base, sender, true, deleter);
+          // The payload is released when the handler has run and, if the message
+          // is forwarded, the payload has been sent on
+          std::shared_ptr<std::byte> payload{
+            std::get<0>(ptr), [deleter](std::byte*){ deleter(); }
+          };
+          forwarded_payload_ = payload;
+          processActiveMsg(base, sender, true, [payload]{});
+          forwarded_payload_ = nullptr;
         }
      );
     }
diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index 544dbb0..f94f04b 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -1746,6 +1746,8 @@ private:
 
   ContainerPendingType pending_recvs_                     = {};
   TagType cur_direct_buffer_tag_                          = starting_direct_buffer_tag;
+  // Keeps the payload of the message that is being forwarded, if there is one
+  std::shared_ptr<std::byte> forwarded_payload_           = nullptr;
   RequestHolder<InProgressIRecv> in_progress_active_msg_irecv;
   RequestHolder<InProgressDataIRecv> in_progress_data_irecv;
   RequestHolder<AsyncOpWrapper> in_progress_ops;
-- 
2.43.0


From 8ce0983815fe91adea3c39ce3bc537a8a51c35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 023/100] fix: forward a payload under a tag of the forwarding
 node

---
 src/vt/messaging/active.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index e3d70cd..835687e 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -1129,6 +1129,9 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
         nchunks, put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
+          // The tag was allocated by the sender: it may be in use on this node
+          // for other data, so allocate one here if the payload is sent on
+          envelopeSetPutTag(base->env, no_tag);
           // The payload is released when the handler has run and, if the message
           // is forwarded, the payload has been sent on
           std::shared_ptr<std::byte> payload{
-- 
2.43.0


From de9be041aea8f3473c469c3c80bf334f0ad02ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 024/100] fix: user and system collective scopes no longer
 share reduction stamps

---
 src/vt/collective/collective_scope.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/collective/collective_scope.cc b/src/vt/collective/collective_scope.cc
index 16b6116..2dcc476 100644
--- a/src/vt/collective/collective_scope.cc
+++ b/src/vt/collective/collective_scope.cc
@@ -86,13 +86,15 @@ TagType CollectiveScope::mpiCollectiveAsync(ActionType action) {
   auto cb = theCB()->makeBcast<&CollectiveAlg::runCollective>();
   auto msg = makeMessage<CollectiveMsg>(is_user_tag_, scope_, tag, collective_root);
 
-  // The tag for the reduce is a combination of the scope and seq tag.
+  // The tag for the reduce is a combination of the scope and seq tag. User and
+  // system scopes are numbered independently, so the sign of the seq tag (which
+  // is always positive) tells them apart.
   auto r = theCollective()->reducer();
 
   using collective::reduce::makeStamp;
   using collective::reduce::TagPair;
 
-  auto stamp = makeStamp<TagPair>(scope_, tag);
+  auto stamp = makeStamp<TagPair>(scope_, is_user_tag_ ? tag : -tag);
   r->reduce<collective::None>(collective_root, msg.get(), cb, stamp);
 
   return tag;
-- 
2.43.0


From 2f084ce75016db07473cc80b2b0d5b4bba2d5853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 025/100] fix: object group multicast to a region keeps its
 arguments, waits for the group and accepts ranges

---
 src/vt/objgroup/proxy/proxy_objgroup.impl.h | 41 ++++++++++++---------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/vt/objgroup/proxy/proxy_objgroup.impl.h b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
index 337f9fc..48ddf1e 100644
--- a/src/vt/objgroup/proxy/proxy_objgroup.impl.h
+++ b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
@@ -147,27 +147,34 @@ typename Proxy<ObjT>::PendingSendType Proxy<ObjT>::multicast(
   );
 
   nodes->sort();
-  auto& range = nodes->makeList();
+  // Make the list from a copy: the group may be set up by sending the range
+  auto range = nodes->copy()->makeList();
 
   auto groupID = theGroup()->GetTempGroupForRange(range);
   if (!groupID.has_value()) {
+    // The group is created when the pending send is released, and the message
+    // is sent when the group is ready: keep everything that is needed by then
+    using ArgsTuple = std::tuple<std::decay_t<Params>...>;
+    auto region =
+      std::make_shared<group::region::Region::RegionUPtrType>(std::move(nodes));
+    auto args = std::make_shared<ArgsTuple>(std::forward<Params>(params)...);
+
     return typename Proxy<ObjT>::PendingSendType{
-      theTerm()->getCurrentEpoch(),
-      [&, this,
-       args = std::make_tuple(std::forward<Params>(params)...)] {
-        std::apply(
-          [&, this](auto&&... unpackedArgs) {
-            // Explicit copy, we move 'nodes' in group creation
-            auto range_copy = nodes->makeList();
-            auto id =
-              theGroup()->newGroup(std::move(nodes), [&, this](GroupType type) {
-                multicast<f>(
-                  type, std::forward<decltype(unpackedArgs)>(unpackedArgs)...);
-              });
-            theGroup()->AddNewTempGroup(range_copy, id);
-          },
-          std::move(args));
-      }};
+      theTerm()->getCurrentEpoch(), [proxy = *this, region, args, range] {
+        theGroup()->newGroup(
+          std::move(*region), [proxy, args, range](GroupType type) {
+            // The group can be used only from now on
+            theGroup()->AddNewTempGroup(range, type);
+            std::apply(
+              [&](auto&... unpacked_args) {
+                proxy.template multicast<f>(type, std::move(unpacked_args)...);
+              },
+              *args
+            );
+          }
+        );
+      }
+    };
   } else {
     return multicast<f>(groupID.value(), std::forward<Params>(params)...);
   }
-- 
2.43.0


From 1e4a0de5102cebe94ffa7927dc096f55e9b14e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:27 +0000
Subject: [PATCH 026/100] fix: get into a handle's buffer applies the requested
 lock, and compiles for indexed handles

---
 src/vt/rdmahandle/handle.index.impl.h | 5 ++---
 src/vt/rdmahandle/handle.node.impl.h  | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vt/rdmahandle/handle.index.impl.h b/src/vt/rdmahandle/handle.index.impl.h
index 88d7ed8..dbda28d 100644
--- a/src/vt/rdmahandle/handle.index.impl.h
+++ b/src/vt/rdmahandle/handle.index.impl.h
@@ -141,10 +141,9 @@ template <typename T, HandleEnum E, typename I>
 void Handle<
   T,E,I,typename std::enable_if_t<not std::is_same<I,vt::NodeType>::value>
 >::get(
-  I const& index, std::size_t len, int offset, [[maybe_unused]] Lock l
+  I const& index, std::size_t len, int offset, Lock l
 ) {
-  auto proxy = vt::objgroup::proxy::Proxy<SubHandle<T,E,I>>(proxy_);
-  proxy.get()->rget(index, len, offset);
+  rget(index, len, offset, l);
 }
 
 template <typename T, HandleEnum E, typename I>
diff --git a/src/vt/rdmahandle/handle.node.impl.h b/src/vt/rdmahandle/handle.node.impl.h
index df5c380..7a74bc6 100644
--- a/src/vt/rdmahandle/handle.node.impl.h
+++ b/src/vt/rdmahandle/handle.node.impl.h
@@ -80,9 +80,9 @@ template <typename T, HandleEnum E, typename I>
 void Handle<
   T,E,I,typename std::enable_if_t<std::is_same<I,vt::NodeType>::value>
 >::get(
-  vt::NodeType node, std::size_t len, int offset, [[maybe_unused]] Lock l
+  vt::NodeType node, std::size_t len, int offset, Lock l
 ) {
-  rget(node, len, offset);
+  rget(node, len, offset, l);
 }
 
 template <typename T, HandleEnum E, typename I>
-- 
2.43.0


From 82e83ac69f352a255f4fbdc5f6c9d7efa3b32551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 027/100] fix: local access through a sub handle gives its own
 count, not that of all memory behind it

---
 src/vt/rdmahandle/sub_handle.impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index 057174e..07e8340 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -416,7 +416,11 @@ void SubHandle<T,E,IndexT>::access(
   auto iter = sub_handles_.find(idx);
   vtAssert(iter != sub_handles_.end(), "Index must be local here");
   auto local_offset  = iter->second.offset_;
-  data_handle_.access(l, fn, offset + local_offset);
+  auto local_count   = iter->second.count_;
+  data_handle_.access(
+    l, [&](T* ptr, std::size_t) { fn(ptr, local_count - offset); },
+    offset + local_offset
+  );
 }
 
 template <typename T, HandleEnum E, typename IndexT>
-- 
2.43.0


From 16f709e5f8756a5c5441aa610835afc7e38e9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 028/100] fix: RDMA handles are not ready before their sizes
 and locations are in place everywhere

---
 src/vt/rdmahandle/holder.impl.h     | 19 +++++++---------
 src/vt/rdmahandle/sub_handle.h      |  3 +++
 src/vt/rdmahandle/sub_handle.impl.h | 35 ++++++++++++++++++++---------
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/vt/rdmahandle/holder.impl.h b/src/vt/rdmahandle/holder.impl.h
index 0df0b02..6f4bca6 100644
--- a/src/vt/rdmahandle/holder.impl.h
+++ b/src/vt/rdmahandle/holder.impl.h
@@ -79,21 +79,18 @@ void Holder<T,E>::allocateDataWindow(std::size_t const in_len) {
   if (not uniform_size_) {
     // Allocate control window
     MPI_Alloc_mem(sizeof(uint64_t), MPI_INFO_NULL, &control_base_);
+    // The size must be in place before the window exists: other nodes may read
+    // it as soon as they have created theirs
+    *control_base_ = count_;
+    vt_debug_print(
+      verbose, rdma,
+      "setting allocate size: size={}, window={}\n",
+      count_, print_ptr(&control_window_)
+    );
     MPI_Win_create(
       control_base_, sizeof(uint64_t), sizeof(uint64_t), MPI_INFO_NULL, comm,
       &control_window_
     );
-    {
-      auto this_node = theContext()->getNode();
-      LockMPI _scope_lock(Lock::Exclusive, this_node, control_window_, false);
-      auto mpi_type = TypeMPI<uint64_t>::getType();
-      MPI_Put(&count_, 1, mpi_type, this_node, 0, 1, mpi_type, control_window_);
-      vt_debug_print(
-        verbose, rdma,
-        "setting allocate size: size={}, window={}\n",
-        count_, print_ptr(&control_window_)
-      );
-    }
   }
   ready_ = true;
 }
diff --git a/src/vt/rdmahandle/sub_handle.h b/src/vt/rdmahandle/sub_handle.h
index 2e7d2f4..f0edd1f 100644
--- a/src/vt/rdmahandle/sub_handle.h
+++ b/src/vt/rdmahandle/sub_handle.h
@@ -142,6 +142,8 @@ public:
 
   void checkChanged(impl::ReduceLBMsg* msg);
 
+  void locationsReady(impl::ReduceLBMsg* msg);
+
   bool ready() const { return ready_; }
 
   uint64_t totalLocalCount() const;
@@ -188,6 +190,7 @@ protected:
   Handle<uint64_t, E> loc_handle_;
   Cache<IndexT> cache_;
   bool ready_ = false;
+  bool locations_ready_ = false;
   bool mpi2_ = false;
   bool uniform_size_ = false;
   std::size_t count_if_uniform_ = 0;
diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index 07e8340..3d57bb2 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -50,6 +50,16 @@
 
 namespace vt { namespace rdma {
 
+namespace impl {
+
+struct ReduceLBMsg : vt::collective::ReduceTMsg<bool> {
+  explicit ReduceLBMsg(bool changed)
+    : vt::collective::ReduceTMsg<bool>(changed)
+  { }
+};
+
+} /* end namespace impl */
+
 template <typename T, HandleEnum E, typename IndexT>
 void SubHandle<T,E,IndexT>::initialize(
   ProxyType in_proxy, bool in_is_migratable, IndexT in_range, vt::HandlerType map_han,
@@ -65,6 +75,7 @@ void SubHandle<T,E,IndexT>::initialize(
 
 template <typename T, HandleEnum E, typename IndexT>
 void SubHandle<T,E,IndexT>::makeSubHandles(bool initial) {
+  using ThisType = SubHandle<T,E,IndexT>;
   if (ordered_opt_) {
     auto this_node = theContext()->getNode();
     auto num_nodes = theContext()->getNumNodes();
@@ -136,10 +147,24 @@ void SubHandle<T,E,IndexT>::makeSubHandles(bool initial) {
         });
       }
     }
+
+    // Other nodes look up locations here as soon as they are ready, so no node
+    // is ready before the location data is in place on all of them
+    auto cb = theCB()->makeBcast<
+      ThisType, impl::ReduceLBMsg, &ThisType::locationsReady
+    >(proxy_);
+    auto msg = makeMessage<impl::ReduceLBMsg>(true);
+    proxy_.template reduce<collective::OrOp<bool>>(msg.get(), cb);
+    theSched()->runSchedulerWhile([this]{ return not locations_ready_; });
   }
   ready_ = true;
 }
 
+template <typename T, HandleEnum E, typename IndexT>
+void SubHandle<T,E,IndexT>::locationsReady(impl::ReduceLBMsg*) {
+  locations_ready_ = true;
+}
+
 template <typename T, HandleEnum E, typename IndexT>
 typename IndexT::DenseIndexType
 SubHandle<T,E,IndexT>::linearize(IndexT idx) {
@@ -564,16 +589,6 @@ void SubHandle<T,E,IndexT>::migratedInIndex(IndexT index) {
   migrate_in_.push_back(index);
 }
 
-namespace impl {
-
-struct ReduceLBMsg : vt::collective::ReduceTMsg<bool> {
-  explicit ReduceLBMsg(bool changed)
-    : vt::collective::ReduceTMsg<bool>(changed)
-  { }
-};
-
-} /* end namespace impl */
-
 template <typename T, HandleEnum E, typename IndexT>
 void SubHandle<T,E,IndexT>::afterLB() {
   using ThisType = SubHandle<T,E,IndexT>;
-- 
2.43.0


From 8244d9a73dba4e5f9adaa837c3212ac812a5c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 029/100] fix: windows of RDMA handles requested concurrently
 are created in one order on all nodes

---
 src/vt/rdmahandle/manager.cc     | 17 +++++++++++++
 src/vt/rdmahandle/manager.h      | 40 +++++++++++++++++++++++++++--
 src/vt/rdmahandle/manager.impl.h | 43 ++++++++++++++++++++++++--------
 3 files changed, 88 insertions(+), 12 deletions(-)

diff --git a/src/vt/rdmahandle/manager.cc b/src/vt/rdmahandle/manager.cc
index ee68bbf..05e98c0 100644
--- a/src/vt/rdmahandle/manager.cc
+++ b/src/vt/rdmahandle/manager.cc
@@ -60,6 +60,23 @@ void Manager::setup(ProxyType in_proxy) {
   proxy_ = in_proxy;
 }
 
+void Manager::startMakes() {
+  for (
+    auto iter = planned_makes_.find(next_make_);
+    iter != planned_makes_.end();
+    iter = planned_makes_.find(next_make_)
+  ) {
+    auto make = std::move(iter->second);
+    planned_makes_.erase(iter);
+    next_make_++;
+
+    theMsg()->pushEpoch(make.epoch);
+    collective_scope_.mpiCollectiveAsync(make.action);
+    theMsg()->popEpoch(make.epoch);
+    theTerm()->consume(make.epoch);
+  }
+}
+
 /*static*/ std::unique_ptr<Manager> Manager::construct() {
   auto ptr = std::make_unique<Manager>();
   auto proxy = vt::theObjGroup()->makeCollective<Manager>(
diff --git a/src/vt/rdmahandle/manager.h b/src/vt/rdmahandle/manager.h
index 8feba1d..6543c86 100644
--- a/src/vt/rdmahandle/manager.h
+++ b/src/vt/rdmahandle/manager.h
@@ -69,6 +69,9 @@ struct HandleData;
 template <typename T, HandleEnum E, typename ProxyT>
 struct ConstructMsg;
 
+template <typename T, HandleEnum E>
+struct OrderedMsg;
+
 template <typename ProxyT, typename IndexT>
 struct InformRDMAMsg;
 
@@ -102,14 +105,32 @@ private:
    */
   void setup(ProxyType in_proxy);
 
+  /**
+   * \internal \brief On the ordering node, after all nodes asked for a handle,
+   * determine the order of the handle's construction among all handles
+   *
+   * Handles on different objgroups can be requested in different orders on
+   * different nodes, and messages can overtake each other, so the collective MPI
+   * calls that create the windows would not match without a common order.
+   *
+   * \param[in] msg the construct msg
+   */
+  template <typename T, HandleEnum E, typename ProxyT>
+  void orderMake(impl::ConstructMsg<T, E, ProxyT>* msg);
+
   /**
    * \internal \brief Finish constructing a handle after coordinating each node on
    * construction
    *
    * \param[in] msg construction meta-data message
    */
-  template <typename T, HandleEnum E, typename ProxyT>
-  void finishMake(impl::ConstructMsg<T, E, ProxyT>* msg);
+  template <typename T, HandleEnum E>
+  void finishMake(impl::OrderedMsg<T, E>* msg);
+
+  /**
+   * \internal \brief Start the constructions whose turn it is
+   */
+  void startMakes();
 
   /**
    * \internal \brief Inform all nodes that an RDMA handle is being constructed,
@@ -238,9 +259,17 @@ public:
 
     s.addBytes(getHolderFootprint());
     s.skip(holder_footprint_);
+    s.skip(next_order_);
+    s.skip(next_make_);
+    s.skip(planned_makes_);
   }
 
 private:
+  struct PlannedMake {
+    ActionType action = nullptr;
+    EpochType epoch = no_epoch;
+  };
+
   /// Current collective handle for a given objgroup proxy
   std::unordered_map<ObjGroupProxyType, RDMA_HandleType> cur_handle_obj_group_;
 
@@ -260,6 +289,13 @@ private:
 
   // Collective scope for MPI operations
   CollectiveScopeType collective_scope_;
+
+  /// The next position to hand out in the order of constructions
+  std::size_t next_order_ = 0;
+  /// The next position in the order to start on this node
+  std::size_t next_make_ = 0;
+  /// Constructions that arrived, by their position in the order
+  std::unordered_map<std::size_t, PlannedMake> planned_makes_;
 };
 
 template <typename T, HandleEnum E>
diff --git a/src/vt/rdmahandle/manager.impl.h b/src/vt/rdmahandle/manager.impl.h
index c52d83e..dcaca42 100644
--- a/src/vt/rdmahandle/manager.impl.h
+++ b/src/vt/rdmahandle/manager.impl.h
@@ -86,6 +86,17 @@ struct ConstructMsg : vt::collective::ReduceTMsg<HandleData> {
   { }
 };
 
+template <typename T, HandleEnum E>
+struct OrderedMsg : vt::Message {
+  OrderedMsg() = default;
+  OrderedMsg(HandleKey in_key, std::size_t in_order)
+    : key_(in_key), order_(in_order)
+  { }
+
+  HandleKey key_;
+  std::size_t order_ = 0;
+};
+
 template <typename ProxyT, typename IndexT>
 struct InformRDMAMsg : vt::Message {
   InformRDMAMsg() = default;
@@ -109,19 +120,30 @@ struct InformRDMAMsg : vt::Message {
 } /* end namespace impl */
 
 template <typename T, HandleEnum E, typename ProxyT>
-void Manager::finishMake(impl::ConstructMsg<T, E, ProxyT>* msg) {
+void Manager::orderMake(impl::ConstructMsg<T, E, ProxyT>* msg) {
   auto const& key = msg->getVal().key_;
   auto const& size = msg->getVal().size_;
   auto const& count = msg->getVal().count_;
   vt_debug_print(
     normal, rdma,
-    "finishMake: handle={:x}, size={}, count={}\n",
-    key.handle_, size, count
+    "orderMake: handle={:x}, size={}, count={}, order={}\n",
+    key.handle_, size, count, next_order_
   );
-  auto& entry = getEntry<T,E>(key);
-  collective_scope_.mpiCollectiveWait([&entry]{
-    entry.allocateDataWindow();
-  });
+  proxy_.template broadcast<
+    impl::OrderedMsg<T, E>, &Manager::finishMake<T, E>
+  >(key, next_order_++);
+}
+
+template <typename T, HandleEnum E>
+void Manager::finishMake(impl::OrderedMsg<T, E>* msg) {
+  auto& entry = getEntry<T,E>(msg->key_);
+  auto const epoch = theMsg()->getEpoch();
+
+  theTerm()->produce(epoch);
+  planned_makes_[msg->order_] = PlannedMake{
+    [&entry]{ entry.allocateDataWindow(); }, epoch
+  };
+  startMakes();
 }
 
 template <typename T, HandleEnum E, typename ProxyT>
@@ -137,9 +159,10 @@ Handle<T, E> Manager::makeHandleCollectiveObjGroup(
   holder_footprint_[key] = [&holder = holder_<T,E>[key]]() {
     return checkpoint::getMemoryFootprint(holder);
   };
-  auto cb = vt::theCB()->makeBcast<
-    Manager, impl::ConstructMsg<T, E, ProxyT>, &Manager::finishMake<T, E, ProxyT>
-  >(proxy_);
+  NodeType const ordering_node = 0;
+  auto cb = vt::theCB()->makeSend<
+    Manager, impl::ConstructMsg<T, E, ProxyT>, &Manager::orderMake<T, E, ProxyT>
+  >(proxy_[ordering_node]);
   auto msg = vt::makeMessage<impl::ConstructMsg<T, E, ProxyT>>(
     impl::HandleData{key, size, 1}
   );
-- 
2.43.0


From 64bb1b6a0b97e4e5050094a63c7b4397cb39e09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 030/100] fix: handles of collections are made in one order and
 destroyed wherever their elements are

---
 src/vt/rdmahandle/manager.cc                | 49 +++++++++++++----
 src/vt/rdmahandle/manager.collection.impl.h | 33 ++++++++++--
 src/vt/rdmahandle/manager.h                 | 56 +++++++++++++++----
 src/vt/rdmahandle/manager.impl.h            | 60 ++++++++++++++-------
 src/vt/rdmahandle/sub_handle.h              |  5 ++
 src/vt/rdmahandle/sub_handle.impl.h         |  6 +++
 6 files changed, 164 insertions(+), 45 deletions(-)

diff --git a/src/vt/rdmahandle/manager.cc b/src/vt/rdmahandle/manager.cc
index 05e98c0..3c0a3c5 100644
--- a/src/vt/rdmahandle/manager.cc
+++ b/src/vt/rdmahandle/manager.cc
@@ -60,23 +60,50 @@ void Manager::setup(ProxyType in_proxy) {
   proxy_ = in_proxy;
 }
 
-void Manager::startMakes() {
+void Manager::planOrdered(std::size_t order, ActionType action) {
+  auto const epoch = theMsg()->getEpoch();
+  theTerm()->produce(epoch);
+  planned_[order] = Planned{action, epoch};
+
   for (
-    auto iter = planned_makes_.find(next_make_);
-    iter != planned_makes_.end();
-    iter = planned_makes_.find(next_make_)
+    auto iter = planned_.find(next_planned_);
+    iter != planned_.end();
+    iter = planned_.find(next_planned_)
   ) {
-    auto make = std::move(iter->second);
-    planned_makes_.erase(iter);
-    next_make_++;
+    auto planned = std::move(iter->second);
+    planned_.erase(iter);
+    next_planned_++;
 
-    theMsg()->pushEpoch(make.epoch);
-    collective_scope_.mpiCollectiveAsync(make.action);
-    theMsg()->popEpoch(make.epoch);
-    theTerm()->consume(make.epoch);
+    theMsg()->pushEpoch(planned.epoch);
+    collective_scope_.mpiCollectiveAsync(planned.action);
+    theMsg()->popEpoch(planned.epoch);
+    theTerm()->consume(planned.epoch);
   }
 }
 
+void Manager::releaseInform(VirtualProxyType proxy, RDMA_HandleType handle) {
+  auto held = held_informs_.find(proxy);
+  if (held == held_informs_.end()) {
+    return;
+  }
+
+  auto iter = held->second.find(handle);
+  if (iter == held->second.end()) {
+    return;
+  }
+
+  auto inform = std::move(iter->second);
+  held->second.erase(iter);
+  if (held->second.empty()) {
+    held_informs_.erase(held);
+  }
+
+  theMsg()->pushEpoch(inform.epoch);
+  inform.action();
+  theMsg()->popEpoch(inform.epoch);
+  theTerm()->consume(inform.epoch);
+}
+
 /*static*/ std::unique_ptr<Manager> Manager::construct() {
   auto ptr = std::make_unique<Manager>();
   auto proxy = vt::theObjGroup()->makeCollective<Manager>(
diff --git a/src/vt/rdmahandle/manager.collection.impl.h b/src/vt/rdmahandle/manager.collection.impl.h
index 22d78da..8fd545b 100644
--- a/src/vt/rdmahandle/manager.collection.impl.h
+++ b/src/vt/rdmahandle/manager.collection.impl.h
@@ -61,9 +61,24 @@ void Manager::informCollectionRDMA(
   auto uniform = msg->uniform_size_;
   auto map = msg->map_han_;
   auto range = msg->range_;
-  makeCollectionHandles<T,E,ColT,ProxyT>(
-    collection_proxy, 0, uniform, next_handle, map, range
-  );
+  auto const proxy_bits = collection_proxy.getCollectionProxy();
+
+  auto make = [=]{
+    makeCollectionHandles<T,E,ColT,ProxyT>(
+      collection_proxy, 0, uniform, next_handle, map, range
+    );
+  };
+
+  // Messages can overtake each other, but the objgroups behind the handles of a
+  // collection must be created in the same order on all nodes
+  auto const& made = collection_to_manager_[proxy_bits];
+  if (next_handle > 1 and made.find(next_handle - 1) == made.end()) {
+    auto const epoch = theMsg()->getEpoch();
+    theTerm()->produce(epoch);
+    held_informs_[proxy_bits][next_handle] = Planned{make, epoch};
+  } else {
+    make();
+  }
 }
 
 template <
@@ -105,8 +120,12 @@ Handle<T, E, IndexT> Manager::makeCollectionHandles(
       map_han = theCollection()->getTypelessHolder().getMap(proxy_bits);
     }
     sub_proxy = SubType::construct(true, range, true, map_han);
-    // Register the migration listener
+    // Register the migration listener, which outlives the sub-handle
+    auto live = sub_proxy.get()->getLive();
     ListenerType fn = [=](ElementListener event, IndexT lidx, NodeType) {
+      if (not *live) {
+        return;
+      }
       if (event == ElementListener::ElementMigratedOut) {
         sub_proxy.get()->migratedOutIndex(lidx);
       } else if (event == ElementListener::ElementMigratedIn) {
@@ -138,7 +157,9 @@ Handle<T, E, IndexT> Manager::makeCollectionHandles(
       "CollectionHandle: registering LB listener\n"
     );
     thePhase()->registerHookCollective(phase::PhaseHook::EndPostMigration, [=]{
-      sub_proxy.get()->afterLB();
+      if (*live) {
+        sub_proxy.get()->afterLB();
+      }
     });
 #   endif
 
@@ -166,6 +187,8 @@ Handle<T, E, IndexT> Manager::makeCollectionHandles(
     sub_proxy = objgroup::proxy::Proxy<SubType>(sub_proxy_bits);
   }
 
+  releaseInform(proxy_bits, next_handle + 1);
+
   if (in_next_handle == no_rdma_handle) {
     // Add the handle
     auto handle = sub_proxy.get()->addLocalIndex(idx, idx_size);
diff --git a/src/vt/rdmahandle/manager.h b/src/vt/rdmahandle/manager.h
index 6543c86..acd4fdc 100644
--- a/src/vt/rdmahandle/manager.h
+++ b/src/vt/rdmahandle/manager.h
@@ -72,6 +72,9 @@ struct ConstructMsg;
 template <typename T, HandleEnum E>
 struct OrderedMsg;
 
+template <typename SubT>
+struct DeleteMsg;
+
 template <typename ProxyT, typename IndexT>
 struct InformRDMAMsg;
 
@@ -128,9 +131,39 @@ private:
   void finishMake(impl::OrderedMsg<T, E>* msg);
 
   /**
-   * \internal \brief Start the constructions whose turn it is
+   * \internal \brief Make the handle of a collection that had to wait for the
+   * previous one to be made on this node
+   *
+   * \param[in] proxy the collection
+   * \param[in] handle the handle that can be made now
+   */
+  void releaseInform(VirtualProxyType proxy, RDMA_HandleType handle);
+
+  /**
+   * \internal \brief Perform collective MPI calls in the order given by the
+   * ordering node
+   *
+   * \param[in] order the position in the order
+   * \param[in] action the action with the collective calls
+   */
+  void planOrdered(std::size_t order, ActionType action);
+
+  /**
+   * \internal \brief On the ordering node, count the deleted handles of a
+   * collection
+   *
+   * \param[in] msg the delete msg
+   */
+  template <typename SubT>
+  void handleDeleted(impl::DeleteMsg<SubT>* msg);
+
+  /**
+   * \internal \brief Destroy a sub-handle after all its handles were deleted
+   *
+   * \param[in] msg the delete msg
    */
-  void startMakes();
+  template <typename SubT>
+  void destroySubHandles(impl::DeleteMsg<SubT>* msg);
 
   /**
    * \internal \brief Inform all nodes that an RDMA handle is being constructed,
@@ -260,12 +293,13 @@ public:
     s.addBytes(getHolderFootprint());
     s.skip(holder_footprint_);
     s.skip(next_order_);
-    s.skip(next_make_);
-    s.skip(planned_makes_);
+    s.skip(next_planned_);
+    s.skip(planned_);
+    s.skip(held_informs_);
   }
 
 private:
-  struct PlannedMake {
+  struct Planned {
     ActionType action = nullptr;
     EpochType epoch = no_epoch;
   };
@@ -290,12 +324,16 @@ private:
   // Collective scope for MPI operations
   CollectiveScopeType collective_scope_;
 
-  /// The next position to hand out in the order of constructions
+  /// The next position to hand out in the order of collective MPI calls
   std::size_t next_order_ = 0;
   /// The next position in the order to start on this node
-  std::size_t next_make_ = 0;
-  /// Constructions that arrived, by their position in the order
-  std::unordered_map<std::size_t, PlannedMake> planned_makes_;
+  std::size_t next_planned_ = 0;
+  /// Actions that arrived, by their position in the order
+  std::unordered_map<std::size_t, Planned> planned_;
+  /// Handles of collections to be made after the previous one
+  std::unordered_map<
+    VirtualProxyType, std::unordered_map<RDMA_HandleType, Planned>
+  > held_informs_;
 };
 
 template <typename T, HandleEnum E>
diff --git a/src/vt/rdmahandle/manager.impl.h b/src/vt/rdmahandle/manager.impl.h
index dcaca42..85265c7 100644
--- a/src/vt/rdmahandle/manager.impl.h
+++ b/src/vt/rdmahandle/manager.impl.h
@@ -97,6 +97,19 @@ struct OrderedMsg : vt::Message {
   std::size_t order_ = 0;
 };
 
+template <typename SubT>
+struct DeleteMsg : vt::Message {
+  using ProxyType = objgroup::proxy::Proxy<SubT>;
+
+  DeleteMsg() = default;
+  explicit DeleteMsg(ProxyType in_proxy, std::size_t in_order = 0)
+    : proxy_(in_proxy), order_(in_order)
+  { }
+
+  ProxyType proxy_;
+  std::size_t order_ = 0;
+};
+
 template <typename ProxyT, typename IndexT>
 struct InformRDMAMsg : vt::Message {
   InformRDMAMsg() = default;
@@ -137,13 +150,7 @@ void Manager::orderMake(impl::ConstructMsg<T, E, ProxyT>* msg) {
 template <typename T, HandleEnum E>
 void Manager::finishMake(impl::OrderedMsg<T, E>* msg) {
   auto& entry = getEntry<T,E>(msg->key_);
-  auto const epoch = theMsg()->getEpoch();
-
-  theTerm()->produce(epoch);
-  planned_makes_[msg->order_] = PlannedMake{
-    [&entry]{ entry.allocateDataWindow(); }, epoch
-  };
-  startMakes();
+  planOrdered(msg->order_, [&entry]{ entry.allocateDataWindow(); });
 }
 
 template <typename T, HandleEnum E, typename ProxyT>
@@ -222,26 +229,39 @@ void Manager::deleteHandleSetCollectiveObjGroup(HandleSet<T>& han) {
 template <typename T, HandleEnum E, typename IndexT>
 void Manager::deleteHandleCollection(Handle<T,E,IndexT>& han) {
   using SubType = SubHandle<T,E,IndexT>;
+  using MsgType = impl::DeleteMsg<SubType>;
+
+  // The elements, and thus their handles, may be anywhere: count them at one node
   auto proxy = objgroup::proxy::Proxy<SubType>{han.proxy_};
-  proxy.get()->deleteHandle();
+  NodeType const ordering_node = 0;
+  proxy_[ordering_node].template send<
+    MsgType, &Manager::handleDeleted<SubType>
+  >(proxy);
+}
+
+template <typename SubT>
+void Manager::handleDeleted(impl::DeleteMsg<SubT>* msg) {
+  auto sub = msg->proxy_.get();
+  sub->deleteHandle();
   vt_debug_print(
     normal, rdma,
-    "deleteHandleCollection: num deleted={}, num active={}\n",
-    proxy.get()->getNumDeletedHandles(),
-    proxy.get()->getNumActiveHandles()
+    "handleDeleted: num deleted={}, total={}\n",
+    sub->getNumDeletedHandles(), sub->getTotalHandles()
   );
-  // If all of the handles mapped here are deleted, destroy the sub-handle
-  // manager
-  if (proxy.get()->getNumDeletedHandles() == proxy.get()->getNumActiveHandles()) {
-    vt_debug_print(
-      normal, rdma,
-      "deleteHandleCollection: deleting handle collection: num={}\n",
-      proxy.get()->getNumDeletedHandles()
-    );
-    SubType::destroyCollective(proxy);
+  // If all of the handles are deleted, destroy the sub-handle managers
+  if (sub->getNumDeletedHandles() == sub->getTotalHandles()) {
+    proxy_.template broadcast<
+      impl::DeleteMsg<SubT>, &Manager::destroySubHandles<SubT>
+    >(msg->proxy_, next_order_++);
   }
 }
 
+template <typename SubT>
+void Manager::destroySubHandles(impl::DeleteMsg<SubT>* msg) {
+  auto proxy = msg->proxy_;
+  planOrdered(msg->order_, [proxy]{ SubT::destroyCollective(proxy); });
+}
+
 // For now, this is static. Really it should be part of the objgroup and the
 // proxy should be available through the VT component
 template <typename T, HandleEnum E>
diff --git a/src/vt/rdmahandle/sub_handle.h b/src/vt/rdmahandle/sub_handle.h
index f0edd1f..46b899f 100644
--- a/src/vt/rdmahandle/sub_handle.h
+++ b/src/vt/rdmahandle/sub_handle.h
@@ -164,6 +164,10 @@ public:
 
   static void destroyCollective(ProxyType proxy);
 
+  std::size_t getTotalHandles() const;
+
+  std::shared_ptr<bool> getLive() const { return live_; }
+
   template <mapping::ActiveMapTypedFnType<IndexT> map_fn>
   static ProxyType construct(
     bool in_is_migratable, IndexT in_range, bool in_dense_start_with_zero
@@ -201,6 +205,7 @@ protected:
   std::unordered_map<IndexT, int> ordered_local_offset_;
   bool dense_start_with_zero_ = true;
   std::size_t deleted_count_ = 0;
+  std::shared_ptr<bool> live_ = std::make_shared<bool>(true);
 };
 
 }} /* end namespace vt::rdma */
diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index 3d57bb2..d70a919 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -547,8 +547,14 @@ void SubHandle<T,E,IndexT>::waitForHandleReady(Handle<U,E> const& h) {
   theSched()->runSchedulerWhile([&h] { return not h.ready(); });
 }
 
+template <typename T, HandleEnum E, typename IndexT>
+std::size_t SubHandle<T,E,IndexT>::getTotalHandles() const {
+  return range_.getSize();
+}
+
 template <typename T, HandleEnum E, typename IndexT>
 void SubHandle<T,E,IndexT>::destroy() {
+  *live_ = false;
   proxy_.destroyHandleRDMA(data_handle_);
   proxy_.destroyHandleRDMA(loc_handle_);
 }
-- 
2.43.0


From 71e9c78edaa2ee674590ad3aa15bdb83df82b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 031/100] fix: keep every pending receive of data and receive
 data that comes in chunks

---
 src/vt/messaging/active.cc | 59 ++++++++++++++++++--------------------
 src/vt/messaging/active.h  | 33 +++++++++++++++------
 src/vt/rdma/rdma.cc        |  5 ++--
 3 files changed, 56 insertions(+), 41 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 835687e..196a12f 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -643,9 +643,9 @@ bool ActiveMessenger::recvDataMsgPriority(
 
 bool ActiveMessenger::recvDataMsg(
   int nchunks, TagType const& tag, NodeType const& node,
-  ContinuationDeleterType next
+  ContinuationDeleterType next, MsgSizeType len
 ) {
-  return recvDataMsg(nchunks, default_priority, tag, node, true, next);
+  return recvDataMsg(nchunks, default_priority, tag, node, true, next, len);
 }
 
 bool ActiveMessenger::tryProcessDataMsgRecv() {
@@ -653,44 +653,43 @@ bool ActiveMessenger::tryProcessDataMsgRecv() {
     return false;
   }
 
-  bool erase = false;
   auto iter = pending_recvs_.begin();
 
-  for (; iter != pending_recvs_.end(); ++iter) {
-    auto& elm = iter->second;
+  while (iter != pending_recvs_.end()) {
+    // Take the element out of the list: if the data is ready, its action may
+    // run immediately and add to or process the pending receives
+    auto elm = std::move(*iter);
+    iter = pending_recvs_.erase(iter);
+
     auto const done = recvDataMsgBuffer(
-      elm.nchunks, elm.user_buf, elm.priority, iter->first, elm.sender, false,
-      elm.dealloc_user_buf, elm.cont, elm.is_user_buf
+      elm.nchunks, elm.user_buf, elm.priority, elm.tag, elm.sender, false,
+      elm.dealloc_user_buf, elm.cont, elm.is_user_buf, elm.len
     );
     if (done) {
-      erase = true;
-      break;
+      return true;
     }
-  }
 
-  if (erase) {
-    pending_recvs_.erase(iter);
-    return true;
-  } else {
-    return false;
+    pending_recvs_.insert(iter, std::move(elm));
   }
+
+  return false;
 }
 
 bool ActiveMessenger::recvDataMsgBuffer(
   int nchunks, std::byte* const user_buf, TagType const& tag,
   NodeType const& node, bool const& enqueue, ActionType dealloc,
-  ContinuationDeleterType next, bool is_user_buf
+  ContinuationDeleterType next, bool is_user_buf, MsgSizeType len
 ) {
   return recvDataMsgBuffer(
     nchunks, user_buf, no_priority, tag, node, enqueue, dealloc, next,
-    is_user_buf
+    is_user_buf, len
   );
 }
 
 bool ActiveMessenger::recvDataMsgBuffer(
   int nchunks, std::byte* const user_buf, PriorityType priority, TagType const& tag,
   NodeType const& node, bool const& enqueue, ActionType dealloc_user_buf,
-  ContinuationDeleterType next, bool is_user_buf
+  ContinuationDeleterType next, bool is_user_buf, MsgSizeType len
 ) {
   if (not enqueue) {
     CountType num_probe_bytes;
@@ -709,14 +708,18 @@ bool ActiveMessenger::recvDataMsgBuffer(
     if (flag == 1) {
       MPI_Get_count(&stat, MPI_BYTE, &num_probe_bytes);
 
+      // The probe only tells the size of the first chunk
+      vtAssert(nchunks == 1 or len > 0, "Length of multiple chunks is required");
+      MsgSizeType const num_bytes = nchunks == 1 ? num_probe_bytes : len;
+
       std::byte* buf = user_buf == nullptr ?
-        thePool()->alloc(num_probe_bytes) :
+        thePool()->alloc(num_bytes) :
         user_buf;
 
       NodeType const sender = stat.MPI_SOURCE;
 
       recvDataDirect(
-        nchunks, buf, tag, sender, num_probe_bytes, priority, dealloc_user_buf,
+        nchunks, buf, tag, sender, num_bytes, priority, dealloc_user_buf,
         next, is_user_buf
       );
 
@@ -732,15 +735,9 @@ bool ActiveMessenger::recvDataMsgBuffer(
       nchunks, node, tag, print_bool(enqueue), priority, is_user_buf
     );
 
-    pending_recvs_.emplace(
-      std::piecewise_construct,
-      std::forward_as_tuple(tag),
-      std::forward_as_tuple(
-        PendingRecvType{
-          nchunks, user_buf, next, dealloc_user_buf, node, priority,
-          is_user_buf
-        }
-      )
+    pending_recvs_.emplace_back(
+      nchunks, user_buf, next, dealloc_user_buf, node, priority, is_user_buf,
+      tag, len
     );
     return false;
   }
@@ -894,10 +891,10 @@ void ActiveMessenger::recordLBDataCommForSend(
 bool ActiveMessenger::recvDataMsg(
   int nchunks, PriorityType priority, TagType const& tag,
   NodeType const& sender, bool const& enqueue,
-  ContinuationDeleterType next
+  ContinuationDeleterType next, MsgSizeType len
 ) {
   return recvDataMsgBuffer(
-    nchunks, nullptr, priority, tag, sender, enqueue, nullptr, next
+    nchunks, nullptr, priority, tag, sender, enqueue, nullptr, next, false, len
   );
 }
 
diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index f94f04b..f66bf83 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -73,6 +73,7 @@
 
 #include <type_traits>
 #include <tuple>
+#include <list>
 #include <vector>
 #include <unordered_map>
 #include <limits>
@@ -124,14 +125,18 @@ struct PendingRecv {
   NodeType sender = uninitialized_destination;
   PriorityType priority = no_priority;
   bool is_user_buf = false;
+  TagType tag = no_tag;
+  MsgSizeType len = 0;
 
   PendingRecv(
     int in_nchunks, std::byte* in_user_buf, ContinuationDeleterType in_cont,
     ActionType in_dealloc_user_buf, NodeType node,
-    PriorityType in_priority, bool in_is_user_buf
+    PriorityType in_priority, bool in_is_user_buf, TagType in_tag,
+    MsgSizeType in_len
   ) : nchunks(in_nchunks), user_buf(in_user_buf), cont(in_cont),
       dealloc_user_buf(in_dealloc_user_buf), sender(node),
-      priority(in_priority), is_user_buf(in_is_user_buf)
+      priority(in_priority), is_user_buf(in_is_user_buf), tag(in_tag),
+      len(in_len)
   { }
 
   template <typename Serializer>
@@ -142,7 +147,9 @@ struct PendingRecv {
       | dealloc_user_buf
       | sender
       | priority
-      | is_user_buf;
+      | is_user_buf
+      | tag
+      | len;
   }
 };
 
@@ -326,7 +333,7 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
   using EventRecordType      = event::AsyncEvent::EventRecordType;
   using SendFnType           = std::function<SendInfo(PtrLenPairType,NodeType,TagType)>;
   using UserSendFnType       = std::function<void(SendFnType)>;
-  using ContainerPendingType = std::unordered_map<TagType,PendingRecvType>;
+  using ContainerPendingType = std::list<PendingRecvType>;
   using ReadyHanTagType      = std::tuple<HandlerType, TagType>;
   using HandlerManagerType   = HandlerManager;
   using PendingSendType      = PendingSend;
@@ -1291,12 +1298,14 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
    * \param[in] tag the MPI tag to receive on
    * \param[in] node the node from which to receive
    * \param[in] next a continuation to execute when data arrives
+   * \param[in] len the number of bytes to receive; required if they come in more
+   * than one chunk
    *
    * \return whether it was successful or pending
    */
   bool recvDataMsg(
     int nchunks, TagType const& tag, NodeType const& node,
-    ContinuationDeleterType next = nullptr
+    ContinuationDeleterType next = nullptr, MsgSizeType len = 0
   );
 
   /**
@@ -1309,13 +1318,15 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
    * \param[in] sender the sender node
    * \param[in] enqueue whether to enqueue the pending receive
    * \param[in] next a continuation to execute when data arrives
+   * \param[in] len the number of bytes to receive; required if they come in more
+   * than one chunk
    *
    * \return whether it was successful or pending
    */
   bool recvDataMsg(
     int nchunks, PriorityType priority, TagType const& tag,
     NodeType const& sender, bool const& enqueue,
-    ContinuationDeleterType next = nullptr
+    ContinuationDeleterType next = nullptr, MsgSizeType len = 0
   );
 
   /**
@@ -1331,6 +1342,8 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
    * \param[in] dealloc_user_buf the action to deallocate a user buffer
    * \param[in] next the continuation when the data is ready
    * \param[in] is_user_buf is a user buffer that require user deallocation
+   * \param[in] len the number of bytes to receive; required if they come in more
+   * than one chunk
    *
    * \return whether the data is ready or pending
    */
@@ -1338,7 +1351,8 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
     int nchunks, std::byte* const user_buf, PriorityType priority, TagType const& tag,
     NodeType const& node = uninitialized_destination, bool const& enqueue = true,
     ActionType dealloc_user_buf = nullptr,
-    ContinuationDeleterType next = nullptr, bool is_user_buf = false
+    ContinuationDeleterType next = nullptr, bool is_user_buf = false,
+    MsgSizeType len = 0
   );
 
   /**
@@ -1353,6 +1367,8 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
    * \param[in] dealloc_user_buf the action to deallocate a user buffer
    * \param[in] next the continuation when the data is ready
    * \param[in] is_user_buf is a user buffer that require user deallocation
+   * \param[in] len the number of bytes to receive; required if they come in more
+   * than one chunk
    *
    * \return whether the data is ready or pending
    */
@@ -1360,7 +1376,8 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
     int nchunks, std::byte* const user_buf, TagType const& tag,
     NodeType const& node = uninitialized_destination, bool const& enqueue = true,
     ActionType dealloc_user_buf = nullptr,
-    ContinuationDeleterType next = nullptr, bool is_user_buf = false
+    ContinuationDeleterType next = nullptr, bool is_user_buf = false,
+    MsgSizeType len = 0
   );
 
   /**
diff --git a/src/vt/rdma/rdma.cc b/src/vt/rdma/rdma.cc
index 1bdafa2..63f427e 100644
--- a/src/vt/rdma/rdma.cc
+++ b/src/vt/rdma/rdma.cc
@@ -131,7 +131,8 @@ RDMAManager::RDMAManager()
         theRDMA()->triggerGetRecvData(
           op_id, msg_tag, std::get<0>(ptr), std::get<1>(ptr), deleter
         );
-      }
+      },
+      msg->num_bytes
     );
   } else {
     theMsg()->recvDataMsgBuffer(
@@ -145,7 +146,7 @@ RDMAManager::RDMAManager()
           get_ptr_action();
         }
       },
-      nullptr, true
+      nullptr, true, msg->num_bytes
     );
   }
 }
-- 
2.43.0


From 6db861a3240f67fb5009a5b5b9247627ec0a8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 032/100] fix: RDMA put into the registered buffer is
 acknowledged to every node that asked

---
 src/vt/rdma/rdma.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vt/rdma/rdma.cc b/src/vt/rdma/rdma.cc
index 63f427e..424af0e 100644
--- a/src/vt/rdma/rdma.cc
+++ b/src/vt/rdma/rdma.cc
@@ -252,13 +252,14 @@ RDMAManager::RDMAManager()
             "putData: recv_data_msg_buffer DIRECT: offset={}\n",
             offset
           );
-          if (send_back) {
+          if (send_back != uninitialized_destination) {
             auto new_msg = makeMessage<PutBackMessage>(op_id);
             theMsg()->sendMsg<putBackMsg>(
               send_back, new_msg
             );
           }
-        }
+        },
+        false, bytes
       );
     }
   }
-- 
2.43.0


From e122bd99782652af33682344659a1234071d5142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 033/100] fix: RDMA handles registered with typed pointers use
 the size of the elements

---
 src/vt/rdma/rdma.h | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/vt/rdma/rdma.h b/src/vt/rdma/rdma.h
index aaeb535..31a674a 100644
--- a/src/vt/rdma/rdma.h
+++ b/src/vt/rdma/rdma.h
@@ -70,6 +70,7 @@
 #include "vt/collective/collective_scope.h"
 
 #include <unordered_map>
+#include <type_traits>
 #include <cassert>
 
 namespace vt { namespace rdma {
@@ -139,11 +140,11 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
     ByteType const& num_elems, ByteType const& offset, TagType const& tag,
     ActionType action_after_put = no_action
   ) {
-    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(T)*num_elems;
-    ByteType const byte_offset = offset == no_byte ? 0 : sizeof(T)*offset;
+    ByteType const num_bytes = num_elems == no_byte ? no_byte : elmSize<T>()*num_elems;
+    ByteType const byte_offset = offset == no_byte ? 0 : elmSize<T>()*offset;
     return putData(
       rdma_handle, reinterpret_cast<RDMA_PtrType>(ptr), num_bytes, byte_offset, tag,
-      sizeof(T), action_after_put
+      elmSize<T>(), action_after_put
     );
   }
 
@@ -302,9 +303,11 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
   ) {
     RDMA_RegionType new_region{region};
     if (not new_region.hasElmSize()) {
-      new_region.setElmSize(sizeof(T));
+      new_region.setElmSize(elmSize<T>());
     }
-    return getRegionTypeless(rdma_handle, ptr, new_region, next_action);
+    return getRegionTypeless(
+      rdma_handle, reinterpret_cast<RDMA_PtrType>(ptr), new_region, next_action
+    );
   }
 
   /**
@@ -323,12 +326,12 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
     ByteType const& elm_offset = no_byte, TagType const& tag = no_tag,
     ActionType next_action = no_action
   ) {
-    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(T)*num_elems;
-    ByteType const byte_offset = elm_offset == no_byte ? 0 : sizeof(T)*elm_offset;
+    ByteType const num_bytes = num_elems == no_byte ? no_byte : elmSize<T>()*num_elems;
+    ByteType const byte_offset = elm_offset == no_byte ? 0 : elmSize<T>()*elm_offset;
 
     return getDataIntoBuf(
       rdma_handle, reinterpret_cast<RDMA_PtrType>(ptr), num_bytes, byte_offset, tag,
-      next_action, sizeof(T)
+      next_action, elmSize<T>()
     );
   }
 
@@ -384,7 +387,7 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
    */
   template <typename T>
   RDMA_HandleType registerNewTypedRdmaHandler(T ptr, ByteType const& num_elems) {
-    ByteType const num_bytes = sizeof(T)*num_elems;
+    ByteType const num_bytes = elmSize<T>()*num_elems;
     vt_debug_print(
       verbose, rdma,
       "registerNewTypedRdmaHandler ptr={}, bytes={}\n",
@@ -440,10 +443,11 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
     T ptr, ByteType const& num_total_elems, ByteType const& num_elems,
     RDMA_MapType const& map = default_map
   ) {
-    ByteType const num_bytes = sizeof(T)*num_elems;
-    ByteType const num_total_bytes = sizeof(T)*num_total_elems;
+    ByteType const num_bytes = elmSize<T>()*num_elems;
+    ByteType const num_total_bytes = elmSize<T>()*num_total_elems;
     return registerNewCollective(
-      true, ptr, num_bytes, num_total_bytes, sizeof(T), map
+      true, reinterpret_cast<RDMA_PtrType>(ptr), num_bytes, num_total_bytes,
+      elmSize<T>(), map
     );
   }
 
@@ -739,6 +743,13 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
   );
 
 private:
+  /// Size of the elements a typed pointer refers to
+  template <typename T>
+  static constexpr ByteType elmSize() {
+    static_assert(std::is_pointer_v<T>, "T must be a pointer type");
+    return sizeof(std::remove_pointer_t<T>);
+  }
+
   static NodeType getTarget(
     RDMA_HandleType const& han, NodeType const& in_tar = uninitialized_destination
   ) {
-- 
2.43.0


From 6a3220ed2d7fe41216317f1bf0212e4e3e643cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 034/100] fix: actions of RDMA operations may start further
 operations

---
 src/vt/rdma/rdma.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/vt/rdma/rdma.cc b/src/vt/rdma/rdma.cc
index 424af0e..fbe660e 100644
--- a/src/vt/rdma/rdma.cc
+++ b/src/vt/rdma/rdma.cc
@@ -438,14 +438,16 @@ void RDMAManager::triggerGetRecvData(
     iter != pending_ops_.end(), "Pending op must exist"
   );
 
-  if (iter->second.cont) {
-    iter->second.cont(ptr, num_bytes);
+  // The continuation may start operations, which are added to the container
+  auto op_info = std::move(iter->second);
+  pending_ops_.erase(iter);
+
+  if (op_info.cont) {
+    op_info.cont(ptr, num_bytes);
   } else {
-    std::memcpy(iter->second.data_ptr, ptr, num_bytes);
+    std::memcpy(op_info.data_ptr, ptr, num_bytes);
   }
 
-  pending_ops_.erase(iter);
-
   if (action != nullptr) {
     action();
   }
@@ -480,9 +482,11 @@ void RDMAManager::triggerPutBackData(RDMA_OpType const& op) {
     iter != pending_ops_.end(), "Pending op must exist"
   );
 
-  iter->second.cont2();
-
+  // The action may start operations, which are added to the container
+  auto action = std::move(iter->second.cont2);
   pending_ops_.erase(iter);
+
+  action();
 }
 
 void RDMAManager::triggerPutRecvData(
-- 
2.43.0


From 1f4a529110d302e465f9b0e258f6dd72da091ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 035/100] fix: map elements of a collective RDMA handle by
 their total number

---
 src/vt/rdma/rdma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/rdma/rdma.cc b/src/vt/rdma/rdma.cc
index fbe660e..dea2191 100644
--- a/src/vt/rdma/rdma.cc
+++ b/src/vt/rdma/rdma.cc
@@ -309,7 +309,7 @@ RDMAManager::RDMAManager()
 
 RDMA_HandleType RDMAManager::registerNewCollective(
   bool const& use_default, RDMA_PtrType const& ptr, ByteType const& num_bytes,
-  [[maybe_unused]] ByteType const& num_total_bytes, ByteType const& elm_size,
+  ByteType const& num_total_bytes, ByteType const& elm_size,
   RDMA_MapType const& map
 ) {
   auto const& han = registerNewRdmaHandler(use_default, ptr, num_bytes, true);
@@ -322,7 +322,7 @@ RDMA_HandleType RDMAManager::registerNewCollective(
   auto& state = iter->second;
 
   state.group_info = std::make_unique<RDMA_GroupType>(
-    map, num_bytes / elm_size, theContext()->getNumNodes(), elm_size
+    map, num_total_bytes / elm_size, theContext()->getNumNodes(), elm_size
   );
 
   return han;
-- 
2.43.0


From d52d87e5a2aee85dac270dd1c25ccb4c1fcea208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 036/100] fix: RDMA get and put without an offset start at the
 registered pointer

---
 src/vt/rdma/state/rdma_state.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vt/rdma/state/rdma_state.cc b/src/vt/rdma/state/rdma_state.cc
index dc025ef..760c846 100644
--- a/src/vt/rdma/state/rdma_state.cc
+++ b/src/vt/rdma/state/rdma_state.cc
@@ -194,7 +194,7 @@ bool State::testReadyPutData(TagType const& tag) {
   );
 
   return RDMA_GetType{
-    state.ptr + req_offset,
+    req_offset == no_byte ? state.ptr : state.ptr + req_offset,
     req_num_bytes == no_byte ? state.num_bytes : req_num_bytes
   };
 }
@@ -216,7 +216,8 @@ bool State::testReadyPutData(TagType const& tag) {
     "To use default handler ptr, bytes must be set"
   );
 
-  std::memcpy(state.ptr + req_offset, in_ptr, req_num_bytes);
+  auto const ptr = req_offset == no_byte ? state.ptr : state.ptr + req_offset;
+  std::memcpy(ptr, in_ptr, req_num_bytes);
 }
 
 void State::getData(
-- 
2.43.0


From 3704ec16c8e4b230c407e9819e214b74e2eeef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 037/100] fix: unregister an RDMA put function by its handler
 and tag

---
 src/vt/rdma/state/rdma_state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/rdma/state/rdma_state.cc b/src/vt/rdma/state/rdma_state.cc
index 760c846..2f7d0aa 100644
--- a/src/vt/rdma/state/rdma_state.cc
+++ b/src/vt/rdma/state/rdma_state.cc
@@ -137,7 +137,7 @@ void State::unregisterRdmaHandler(
 
     auto p_put_iter = put_tag_holder.find(tag);
     if (p_put_iter != put_tag_holder.end() and
-        std::get<1>(p_get_iter->second) == handler) {
+        std::get<1>(p_put_iter->second) == handler) {
       put_tag_holder.erase(p_put_iter);
     }
   }
-- 
2.43.0


From 0c373df715d15bc1d090e4a1426cae88b5d22353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 038/100] fix: a put function replaces the default one of an
 RDMA handle

---
 src/vt/rdma/state/rdma_state.impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vt/rdma/state/rdma_state.impl.h b/src/vt/rdma/state/rdma_state.impl.h
index 457d0b1..bc1d03c 100644
--- a/src/vt/rdma/state/rdma_state.impl.h
+++ b/src/vt/rdma/state/rdma_state.impl.h
@@ -82,6 +82,7 @@ RDMA_HandlerType State::setRDMAGetFn(
   if (tag == no_tag) {
     rdma_get_fn = gen_fn;
     get_any_tag = any_tag;
+    using_default_get_handler = false;
   } else {
     get_tag_holder[tag] = RDMA_TagGetHolderType{gen_fn,handler,reg_han};
   }
@@ -118,6 +119,7 @@ RDMA_HandlerType State::setRDMAPutFn(
   if (tag == no_tag) {
     rdma_put_fn = gen_fn;
     put_any_tag = any_tag;
+    using_default_put_handler = false;
   } else {
     put_tag_holder[tag] = RDMA_TagPutHolderType{gen_fn,handler,reg_han};
   }
-- 
2.43.0


From 266216e51b70f7a0c36a2cc96640bf31679f84bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 039/100] fix: receive the data of an RDMA put in as many
 chunks as were sent

---
 src/vt/rdma/rdma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/rdma/rdma.cc b/src/vt/rdma/rdma.cc
index dea2191..fa6e140 100644
--- a/src/vt/rdma/rdma.cc
+++ b/src/vt/rdma/rdma.cc
@@ -236,7 +236,7 @@ RDMAManager::RDMAManager()
               deleter();
             }, false, recv_node
           );
-        });
+        }, bytes);
     } else {
       auto const& put_ptr_offset =
         msg->offset != no_byte ? put_ptr + msg->offset : put_ptr;
-- 
2.43.0


From cc97834472de6befe9504247a35baf3566ce5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 040/100] fix: an RDMA put waits for its own function, not for
 one for gets

---
 src/vt/rdma/state/rdma_state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/rdma/state/rdma_state.cc b/src/vt/rdma/state/rdma_state.cc
index 2f7d0aa..362e9a3 100644
--- a/src/vt/rdma/state/rdma_state.cc
+++ b/src/vt/rdma/state/rdma_state.cc
@@ -169,7 +169,7 @@ bool State::testReadyPutData(TagType const& tag) {
   bool const not_ready = (
     ((tag == no_tag or put_any_tag) and rdma_put_fn == nullptr) or (
       tag != no_tag and
-      not get_any_tag and
+      not put_any_tag and
       put_tag_holder.find(tag) == put_tag_holder.end()
     )
   );
-- 
2.43.0


From cde01770baccf1942b9b20c53f77d1d938f12626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 041/100] fix: requests held until an RDMA function is
 registered are then performed

---
 src/vt/rdma/rdma.cc             |  5 ++++-
 src/vt/rdma/rdma.h              | 10 ++++++++--
 src/vt/rdma/rdma_info.h         |  4 +++-
 src/vt/rdma/state/rdma_state.cc | 28 ++++++++++++++++------------
 src/vt/rdma/state/rdma_state.h  |  2 +-
 5 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/vt/rdma/rdma.cc b/src/vt/rdma/rdma.cc
index fa6e140..5fb8978 100644
--- a/src/vt/rdma/rdma.cc
+++ b/src/vt/rdma/rdma.cc
@@ -180,8 +180,11 @@ RDMAManager::RDMAManager()
 
   if (direct) {
     auto data_ptr = reinterpret_cast<std::byte*>(msg) + sizeof(PutMessage);
+    // The message holds the data until the put is performed
+    auto msg_hold = promoteMsg(msg);
     theRDMA()->triggerPutRecvData(
-      msg->rdma_handle, msg_tag, data_ptr, msg->num_bytes, msg->offset, [=]{
+      msg->rdma_handle, msg_tag, data_ptr, msg->num_bytes, msg->offset,
+      [op_id,send_back,msg_hold]{
         vt_debug_print(
           normal, rdma,
           "put_data: after put trigger: send_back={}\n", send_back
diff --git a/src/vt/rdma/rdma.h b/src/vt/rdma/rdma.h
index 31a674a..615dedb 100644
--- a/src/vt/rdma/rdma.h
+++ b/src/vt/rdma/rdma.h
@@ -820,7 +820,10 @@ private:
     auto& state = holder_iter->second;
 
     if (rdma_type == RDMAManager::RDMA_TypeType::Get) {
-      return state.setRDMAGetFn<MsgT,FunctionT,f>(msg, fn, any_tag, tag);
+      auto const handler =
+        state.setRDMAGetFn<MsgT,FunctionT,f>(msg, fn, any_tag, tag);
+      state.processPending();
+      return handler;
     } else {
       vtAssert(0, "Should be unreachable");
       return no_rdma_handle;
@@ -852,7 +855,10 @@ private:
     auto& state = holder_iter->second;
 
     if (rdma_type == RDMAManager::RDMA_TypeType::Put) {
-      return state.setRDMAPutFn<MsgT,FunctionT,f>(msg, fn, any_tag, tag);
+      auto const handler =
+        state.setRDMAPutFn<MsgT,FunctionT,f>(msg, fn, any_tag, tag);
+      state.processPending();
+      return handler;
     } else {
       vtAssert(0, "Should be unreachable");
       return no_rdma_handle;
diff --git a/src/vt/rdma/rdma_info.h b/src/vt/rdma/rdma_info.h
index 9e8ae50..2a0244e 100644
--- a/src/vt/rdma/rdma_info.h
+++ b/src/vt/rdma/rdma_info.h
@@ -63,6 +63,7 @@ struct Info {
   ActionType cont_action = no_action;
   ByteType offset = no_byte;
   bool is_local = false;
+  NodeType from_node = uninitialized_destination;
 
   Info(
     RDMA_TypeType const& in_rdma_type, ByteType const& in_num_bytes = no_byte,
@@ -83,7 +84,8 @@ struct Info {
       | cont
       | cont_action
       | offset
-      | is_local;
+      | is_local
+      | from_node;
   }
 };
 
diff --git a/src/vt/rdma/state/rdma_state.cc b/src/vt/rdma/state/rdma_state.cc
index 362e9a3..abd7c0a 100644
--- a/src/vt/rdma/state/rdma_state.cc
+++ b/src/vt/rdma/state/rdma_state.cc
@@ -285,6 +285,7 @@ void State::getData(
 #endif
   } else {
     pending_tag_gets[tag].push_back(info);
+    pending_tag_gets[tag].back().from_node = from_node;
   }
 }
 
@@ -351,24 +352,27 @@ void State::putData(
 #endif
   } else {
     pending_tag_puts[tag].push_back(info);
+    pending_tag_puts[tag].back().from_node = from_node;
   }
 }
 
-void State::processPendingGet(TagType const& tag) {
-  bool const ready = testReadyGetData(tag);
-  vtAssert(ready, "Must be ready to process pending");
+void State::processPending() {
+  // Requests that are still not ready are held again
+  auto gets = std::move(pending_tag_gets);
+  pending_tag_gets.clear();
 
-  RDMA_GetFunctionType get_fn =
-    tag == no_tag ? rdma_get_fn : std::get<0>(get_tag_holder.find(tag)->second);
+  for (auto&& [tag, infos] : gets) {
+    for (auto&& info : infos) {
+      getData(nullptr, false, info, info.from_node);
+    }
+  }
 
-  StateMessage<State> state_msg(this);
+  auto puts = std::move(pending_tag_puts);
+  pending_tag_puts.clear();
 
-  auto pending_iter = pending_tag_gets.find(tag);
-  if (pending_iter != pending_tag_gets.end()) {
-    for (auto&& elm : pending_iter->second) {
-      elm.cont(
-        get_fn(&state_msg, elm.num_bytes, elm.offset, elm.tag, elm.is_local)
-      );
+  for (auto&& [tag, infos] : puts) {
+    for (auto&& info : infos) {
+      putData(nullptr, false, info, info.from_node);
     }
   }
 }
diff --git a/src/vt/rdma/state/rdma_state.h b/src/vt/rdma/state/rdma_state.h
index 943ef60..f642aa3 100644
--- a/src/vt/rdma/state/rdma_state.h
+++ b/src/vt/rdma/state/rdma_state.h
@@ -130,7 +130,7 @@ struct State {
     NodeType const& from_node
   );
 
-  void processPendingGet(TagType const& tag = no_tag);
+  void processPending();
   void setDefaultHandler();
 
   static RDMA_GetType defaultGetHandlerFn(
-- 
2.43.0


From 79be31cf724aea1cb5b90c95d6fefe4b679f2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:46 +0000
Subject: [PATCH 042/100] fix: tell a node that an event is complete after its
 request is gone

---
 src/vt/event/event.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vt/event/event.cc b/src/vt/event/event.cc
index f7d32c3..28e3abf 100644
--- a/src/vt/event/event.cc
+++ b/src/vt/event/event.cc
@@ -150,18 +150,20 @@ EventType AsyncEvent::attachAction(EventType const& event, ActionType callable)
 }
 
 /*static*/ void AsyncEvent::checkEventFinished(EventCheckFinishedMsg* msg) {
-  auto const& event = msg->event_;
+  auto const event = msg->event_;
+  auto const event_back = msg->event_back_;
   auto const& node = theEvent()->getOwningNode(event);
 
   vtAssert(
     node == theContext()->getNode(), "Node must be identical"
   );
 
-  auto send_back_fun = [=]{
-    auto send_back = theEvent()->getOwningNode(msg->event_back_);
-    vtAssertExpr(send_back == msg->sent_from_node_);
+  auto const send_back = theEvent()->getOwningNode(event_back);
+  vtAssertExpr(send_back == msg->sent_from_node_);
 
-    auto msg_send = makeMessage<EventFinishedMsg>(event, msg->event_back_);
+  // Might run after this handler has returned, when the message is gone
+  auto send_back_fun = [event, event_back, send_back]{
+    auto msg_send = makeMessage<EventFinishedMsg>(event, event_back);
     theMsg()->sendMsg<eventFinished>(
       send_back, msg_send
     );
-- 
2.43.0


From c193909c2cc294149eab8de933e44ad8029782ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:46 +0000
Subject: [PATCH 043/100] fix: actions of events may create, test and complete
 events

---
 src/vt/event/event.cc        | 15 +++++++++++----
 src/vt/event/event_holder.cc |  7 +++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/vt/event/event.cc b/src/vt/event/event.cc
index 28e3abf..c2ecf49 100644
--- a/src/vt/event/event.cc
+++ b/src/vt/event/event.cc
@@ -319,9 +319,12 @@ void AsyncEvent::testEventsTrigger(int const& num_events) {
     eventSizeGauge.update(cont.size());
   }
 
+  // Take out all events that are ready first: their actions may create, test
+  // and complete events
+  TypedEventContainerType ready_events;
+
   for (auto iter = cont.begin(); iter != cont.end(); ) {
-    auto& holder = *iter;
-    auto event = holder.get_event();
+    auto event = iter->get_event();
     auto id = event->getEventID();
 
     eventPollCount.increment(1);
@@ -334,9 +337,9 @@ void AsyncEvent::testEventsTrigger(int const& num_events) {
       );
 #     endif
 
-      holder.executeActions();
-      iter = polling_event_container_.erase(iter);
       lookup_container_.erase(id);
+      auto const ready_iter = iter++;
+      ready_events.splice(ready_events.end(), cont, ready_iter);
 
 #     if vt_check_enabled(trace_enabled)
       if (theConfig()->vt_trace_event_polling) {
@@ -354,6 +357,10 @@ void AsyncEvent::testEventsTrigger(int const& num_events) {
     }
   }
 
+  for (auto&& holder : ready_events) {
+    holder.executeActions();
+  }
+
 # if vt_check_enabled(trace_enabled)
   if (theConfig()->vt_trace_event_polling) {
     if (num_completed > 0) {
diff --git a/src/vt/event/event_holder.cc b/src/vt/event/event_holder.cc
index dfcf980..a7cb1fc 100644
--- a/src/vt/event/event_holder.cc
+++ b/src/vt/event/event_holder.cc
@@ -63,10 +63,13 @@ void EventHolder::makeReadyTrigger() {
 }
 
 void EventHolder::executeActions() {
-  for (auto&& action : actions_) {
+  // An action may attach actions or execute those of this event
+  auto actions = std::move(actions_);
+  actions_.clear();
+
+  for (auto&& action : actions) {
     action();
   }
-  actions_.clear();
 }
 
 }} //end namespace vt::event
-- 
2.43.0


From 5952b76837a565dfd6f5131d8bba134238544c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:46 +0000
Subject: [PATCH 044/100] fix: a request's callable may add to or test the held
 requests

---
 src/vt/messaging/request_holder.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vt/messaging/request_holder.h b/src/vt/messaging/request_holder.h
index 1948bbe..93a6137 100644
--- a/src/vt/messaging/request_holder.h
+++ b/src/vt/messaging/request_holder.h
@@ -117,15 +117,17 @@ struct RequestHolder {
         continue;
       }
 
-      c(&e);
-      progress_made = true;
-      e.valid = false;
+      // Take it out first: the callable may add to or test the container
+      auto elm = std::move(e);
 
       if (i < holder_.size() - 1) {
         holder_[i] = std::move(holder_.back());
       }
 
       holder_.pop_back();
+
+      c(&elm);
+      progress_made = true;
     }
 
 #   if vt_check_enabled(trace_enabled)
-- 
2.43.0


From 6a1e87e5e022792c245999a9ff3b34deb9338608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:55 +0000
Subject: [PATCH 045/100] fix: a normal event is complete while its actions run

---
 src/vt/event/event_record.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/event/event_record.cc b/src/vt/event/event_record.cc
index 5840b42..d66bfdd 100644
--- a/src/vt/event/event_record.cc
+++ b/src/vt/event/event_record.cc
@@ -109,7 +109,7 @@ bool EventRecord::testMPIEventReady() {
 }
 
 bool EventRecord::testNormalEventReady() {
-  return false;
+  return ready;
 }
 
 bool EventRecord::testParentEventReady() {
-- 
2.43.0


From d7c8d9088e2a0df160919a581f9f3394fb56788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:55 +0000
Subject: [PATCH 046/100] fix: parent events may wait for events of other nodes

---
 src/vt/event/event_record.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vt/event/event_record.cc b/src/vt/event/event_record.cc
index d66bfdd..87ede61 100644
--- a/src/vt/event/event_record.cc
+++ b/src/vt/event/event_record.cc
@@ -146,7 +146,12 @@ void EventRecord::addEventToList(EventType const& event) {
     type_ == EventRecordType::ParentEventRecord, "Type must be parent event"
   );
 
-  getEventList()->push_back(event);
+  if (theEvent()->getOwningNode(event) == theContext()->getNode()) {
+    getEventList()->push_back(event);
+  } else {
+    // Wait on a local event that becomes ready when the remote one does
+    getEventList()->push_back(theEvent()->attachAction(event, []{ }));
+  }
 }
 
 bool EventRecord::testReady() {
-- 
2.43.0


From 3aab120527898c302aba1b4cc2d717d279af6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 047/100] fix: HierarchicalLB on an odd number of nodes

---
 .../collection/balance/hierarchicallb/hierlb.cc   | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
index a89ab18..9f7b146 100644
--- a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
+++ b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
@@ -194,12 +194,14 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
     children.size()
   );
 
+  // The nodes without children in the tree are those from the first one on
+  // whose first child would be past the last node; they get all the nodes as
+  // bottom children in order
+  NodeType const factor =
+    (num_nodes - 1 + hierlb_nary - 1) / hierlb_nary * hierlb_nary;
+
   if (children.size() == 0) {
     for (NodeType node = 0; node < hierlb_nary; node++) {
-      NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-      if (factor < num_nodes) {
-        factor += hierlb_nary;
-      }
       NodeType const child = (this_node * hierlb_nary + node + 1) - factor - 1;
       if (child < num_nodes && child >= 0) {
         children.emplace(
@@ -220,11 +222,6 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
 
   parent = (this_node - 1) / hierlb_nary;
 
-  NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-  if (factor < num_nodes) {
-    factor += hierlb_nary;
-  }
-
   bottom_parent = ((this_node + 1 + factor) - 1) / hierlb_nary;
 
   vt_debug_print(
-- 
2.43.0


From 12ce8deef75d88ec57432f7427055eb66c5a7eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 048/100] fix: RandomLB on nodes without migratable objects

---
 src/vt/vrt/collection/balance/randomlb/randomlb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/vrt/collection/balance/randomlb/randomlb.cc b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
index 42032a7..672d9f4 100644
--- a/src/vt/vrt/collection/balance/randomlb/randomlb.cc
+++ b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
@@ -126,6 +126,10 @@ void RandomLB::runLB(LoadType) {
     }
   }
 
+  if (objs.empty()) {
+    return;
+  }
+
   // we skip the first object to be certain we never end up with zero objects
   for (auto it = ++objs.begin(); it != objs.end(); ++it) {
     auto const to_node = dist(gen);
-- 
2.43.0


From f138e5ed38305d4634930ba1edb99a44e723e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 049/100] fix: objects without some subphase have no load in it

---
 src/vt/vrt/collection/balance/lb_common.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/lb_common.h b/src/vt/vrt/collection/balance/lb_common.h
index e9e403b..1dd3d2b 100644
--- a/src/vt/vrt/collection/balance/lb_common.h
+++ b/src/vt/vrt/collection/balance/lb_common.h
@@ -93,7 +93,9 @@ struct LoadSummary {
     if (when.subphase == PhaseOffset::WHOLE_PHASE)
       return whole_phase_load;
     else
-      return subphase_loads.at(when.subphase);
+      // an object that has no such subphase did no work in it
+      return when.subphase < subphase_loads.size() ?
+        subphase_loads[when.subphase] : 0.0;
   }
 
   void operator += (const LoadSummary& rhs) {
-- 
2.43.0


From 4dff2a49fa643cac8b50dde1dd8998583dae6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 050/100] fix: CommOverhead model without communication or work

---
 .../collection/balance/model/comm_overhead.cc | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/vt/vrt/collection/balance/model/comm_overhead.cc b/src/vt/vrt/collection/balance/model/comm_overhead.cc
index 8b9558f..06d4716 100644
--- a/src/vt/vrt/collection/balance/model/comm_overhead.cc
+++ b/src/vt/vrt/collection/balance/model/comm_overhead.cc
@@ -66,14 +66,16 @@ CommOverhead::getModeledLoad(ElementIDStruct object, PhaseOffset offset) const {
   auto work = ComposedModel::getModeledLoad(object, offset);
 
   auto phase = getNumCompletedPhases() + offset.phases;
-  auto& comm = proc_comm_->at(phase);
 
   LoadType overhead = 0.;
-  for (auto&& c : comm) {
-    // find messages that go off-node and are sent to this object
-    if (c.first.offNode() and c.first.toObj() == object) {
-      overhead += per_msg_weight_ * c.second.messages;
-      overhead += per_byte_weight_ * c.second.bytes;
+  // a phase without any communication has no entry
+  if (auto it = proc_comm_->find(phase); it != proc_comm_->end()) {
+    for (auto&& c : it->second) {
+      // find messages that go off-node and are sent to this object
+      if (c.first.offNode() and c.first.toObj() == object) {
+        overhead += per_msg_weight_ * c.second.messages;
+        overhead += per_byte_weight_ * c.second.bytes;
+      }
     }
   }
 
@@ -84,7 +86,11 @@ CommOverhead::getModeledLoad(ElementIDStruct object, PhaseOffset offset) const {
     auto whole_phase_work = ComposedModel::getModeledLoad(
       object, PhaseOffset{offset.phases, PhaseOffset::WHOLE_PHASE}
     );
-    return work + overhead * ( work/whole_phase_work );
+    if (whole_phase_work > 0.) {
+      return work + overhead * ( work/whole_phase_work );
+    } else {
+      return work + overhead / getNumSubphases();
+    }
   }
 }
 
-- 
2.43.0


From d8c011b68333d5eef4683955dbc2f1a2ba698906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 051/100] fix: LinearModel after a single phase

---
 src/vt/vrt/collection/balance/model/linear_model.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/linear_model.cc b/src/vt/vrt/collection/balance/model/linear_model.cc
index 3ba99e6..dadf975 100644
--- a/src/vt/vrt/collection/balance/model/linear_model.cc
+++ b/src/vt/vrt/collection/balance/model/linear_model.cc
@@ -68,6 +68,11 @@ LoadType LinearModel::getModeledLoad(ElementIDStruct object, PhaseOffset when) c
     y.emplace_back(ComposedModel::getModeledLoad(object, past_phase));
   }
 
+  // a single value does not determine a line
+  if (phases == 1) {
+    return y.front();
+  }
+
   // should we re-create this every time?
   LinearRegression regression{x, y};
   return regression.predict(when.phases);
-- 
2.43.0


From 8a4986e3ff395f4ea55d8a02deb6500ac2a1ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 052/100] fix: TemperedLB's object orderings on nodes without
 objects

---
 src/vt/vrt/collection/balance/temperedlb/temperedlb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc b/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
index e6344dc..1dc302e 100644
--- a/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
+++ b/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
@@ -1897,6 +1897,10 @@ std::vector<TemperedLB::ObjIDType> TemperedLB::orderObjects(
     ordered_obj_ids[i++] = obj.first;
   }
 
+  if (ordered_obj_ids.empty()) {
+    return ordered_obj_ids;
+  }
+
   switch (obj_ordering) {
   case ObjectOrderEnum::ElmID:
     std::sort(
-- 
2.43.0


From 08bdfe7ed864c89075bc7939df4939fe7692f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 053/100] fix: handlers that run during initialization send as
 bare handlers

---
 src/vt/messaging/active.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 196a12f..06c8600 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -148,12 +148,13 @@ ActiveMessenger::ActiveMessenger()
 
 void ActiveMessenger::initialize() {
   comm_ = theContext()->getComm();
-}
 
-void ActiveMessenger::startup() {
+  // Handlers may run (and send) before startup, so the ID must be set by then
   bare_handler_dummy_elm_id_for_lb_data_ =
     elm::ElmIDBits::createBareHandler(this_node_);
+}
 
+void ActiveMessenger::startup() {
 #if vt_check_enabled(lblite)
   // Hook to collect LB data about objgroups
   thePhase()->registerHookCollective(phase::PhaseHook::DataCollection, [this]{
-- 
2.43.0


From df22119bc068dca91223977410b488a335c6a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 054/100] fix: object group IDs hold the node of the object

---
 src/vt/elm/elm_id_bits.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/elm/elm_id_bits.cc b/src/vt/elm/elm_id_bits.cc
index 904c0a5..98a6ad0 100644
--- a/src/vt/elm/elm_id_bits.cc
+++ b/src/vt/elm/elm_id_bits.cc
@@ -70,8 +70,7 @@ namespace vt { namespace elm {
 ) {
   ElementIDType ret = 0;
   setObjGroup(ret, proxy, node);
-  auto const this_node = theContext()->getNode();
-  return ElementIDStruct{ret, this_node};
+  return ElementIDStruct{ret, node};
 }
 
 /*static*/ ElementIDStruct ElmIDBits::createBareHandler(NodeType node) {
-- 
2.43.0


From 2a2245f08348747a0480f688ab55b2424f316be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 055/100] fix: object groups made in a later phase record under
 that phase

---
 src/vt/objgroup/manager.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vt/objgroup/manager.cc b/src/vt/objgroup/manager.cc
index b8fce6f..4e803d0 100644
--- a/src/vt/objgroup/manager.cc
+++ b/src/vt/objgroup/manager.cc
@@ -93,6 +93,11 @@ ObjGroupProxyType ObjGroupManager::makeCollectiveImpl(
 
   obj_to_proxy_[obj_ptr] = proxy;
 
+  // Record the LB data under the phase in which the object group starts
+  if (thePhase()) {
+    base->getLBData().setPhase(thePhase()->getCurrentPhase());
+  }
+
   auto obj_iter = objs_.find(proxy);
   vtAssert(obj_iter == objs_.end(), "Proxy must not exist in obj group map");
   objs_.emplace(
-- 
2.43.0


From 1964332c2f08137881c7d5510cf541d9106e8963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 056/100] fix: user-defined data of old phases is released

---
 src/vt/vrt/collection/balance/node_lb_data.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vt/vrt/collection/balance/node_lb_data.cc b/src/vt/vrt/collection/balance/node_lb_data.cc
index 75935ac..a8bdcae 100644
--- a/src/vt/vrt/collection/balance/node_lb_data.cc
+++ b/src/vt/vrt/collection/balance/node_lb_data.cc
@@ -133,6 +133,8 @@ void NodeLBData::startIterCleanup(PhaseType phase, unsigned int look_back) {
     lb_data_->node_data_.erase(phase - look_back);
     lb_data_->node_comm_.erase(phase - look_back);
     lb_data_->node_subphase_comm_.erase(phase - look_back);
+    lb_data_->user_defined_json_.erase(phase - look_back);
+    lb_data_->user_per_phase_json_.erase(phase - look_back);
     lb_data_->user_defined_lb_info_.erase(phase - look_back);
     lb_data_->node_user_attributes_.erase(phase - look_back);
   }
-- 
2.43.0


From a2dc65aebf4b285eb2b8936cd891fd21b6a61e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:11 +0000
Subject: [PATCH 057/100] fix: the default group is set up anew when the
 runtime starts again

---
 src/vt/group/group_manager.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vt/group/group_manager.h b/src/vt/group/group_manager.h
index ec90a52..86b146c 100644
--- a/src/vt/group/group_manager.h
+++ b/src/vt/group/group_manager.h
@@ -111,6 +111,8 @@ struct GroupManager : runtime::component::Component<GroupManager> {
       elm();
     }
     cleanup_actions_.clear();
+    // the runtime may start again, perhaps on other nodes
+    global::default_group_ = std::make_unique<global::DefaultGroup>();
   }
 
   std::string name() override { return "GroupManager"; }
-- 
2.43.0


From f1d3baba701fa7f1e4c048bfe572113c38349723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:16 +0000
Subject: [PATCH 058/100] fix: a runtime holder may outlive the runtime

---
 src/vt/runtime/runtime_holder.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vt/runtime/runtime_holder.h b/src/vt/runtime/runtime_holder.h
index 3de9cb4..7e66352 100644
--- a/src/vt/runtime/runtime_holder.h
+++ b/src/vt/runtime/runtime_holder.h
@@ -47,6 +47,7 @@
 #include "vt/config.h"
 #include "vt/runtime/runtime_common.h"
 #include "vt/runtime/runtime.h"
+#include "vt/runtime/runtime_inst.h"
 
 #include <cassert>
 
@@ -66,7 +67,12 @@ struct RuntimeHolder {
     : rt_(in_rt), owner_(in_owner)
   { }
   RuntimeHolder(std::nullptr_t) : rt_(nullptr) { }
-  RuntimeHolder(RuntimeHolder&&) = default;
+  RuntimeHolder(RuntimeHolder&& holder)
+    : rt_(holder.rt_), owner_(holder.owner_)
+  {
+    holder.rt_ = nullptr;
+    holder.owner_ = false;
+  }
   RuntimeHolder(RuntimeHolder const&) = delete;
 
   virtual ~RuntimeHolder() { release(); }
@@ -104,7 +110,10 @@ private:
   }
 
   void release() {
-    if (owner_ && rt_ && rt_->isFinalizable() && rt_->hasSchedRun() && rt_->isTerminated()) {
+    // the runtime is gone once it was finalized otherwise
+    bool const live =
+      rt_ && rt_ == RuntimeInst<RuntimeInstType::DefaultInstance>::rt.get();
+    if (owner_ && live && rt_->isFinalizable() && rt_->hasSchedRun() && rt_->isTerminated()) {
       rt_->finalize();
     }
     rt_ = nullptr;
-- 
2.43.0


From 74081c7f6c05599dd2e231748cf13811547f6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 059/100] fix: the LB configuration is read anew when the
 runtime starts again

---
 src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc b/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc
index d54ba31..dd36d00 100644
--- a/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc
+++ b/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc
@@ -479,6 +479,8 @@ void LBManager::destroyLB() {
 
 void LBManager::finalize() {
   closeStatisticsFile();
+  // the runtime may start again with another configuration file
+  ReadLBConfig::clear();
 }
 
 void LBManager::fatalError() {
-- 
2.43.0


From 3164cece7cff1a5d8882b4e45cec3d6eca9350e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 060/100] fix: user-defined data of a phase is read back from
 LB data files

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index e6cba20..90858aa 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -621,8 +621,7 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
 
       if (phase.find("user_defined") != phase.end()) {
         auto userDefined = phase["user_defined"];
-        user_per_phase_json_[phase] = std::make_shared<nlohmann::json>();
-        *(user_per_phase_json_[phase]) = userDefined;
+        user_per_phase_json_[id] = std::make_shared<nlohmann::json>(userDefined);
       }
     }
   }
-- 
2.43.0


From 20cbc7e308e48e8ecdc5e35cf1c1c44f25735b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:58 +0000
Subject: [PATCH 061/100] fix: the last byte of compressed JSON is read when it
 is alone in its chunk

---
 src/vt/utils/json/decompression_input_container.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vt/utils/json/decompression_input_container.cc b/src/vt/utils/json/decompression_input_container.cc
index 152c090..de871fc 100644
--- a/src/vt/utils/json/decompression_input_container.cc
+++ b/src/vt/utils/json/decompression_input_container.cc
@@ -62,11 +62,7 @@ bool DecompressionInputContainer::advance() const {
   if (cur_ + 1 == len_) {
     len_ = d_->read(output_buf_.get(), chunk_size_);
     cur_ = 0;
-    if (cur_ + 1 < len_) {
-      return true;
-    } else {
-      return false;
-    }
+    return len_ > 0;
   }
   if (cur_ + 1 < len_) {
     cur_++;
-- 
2.43.0


From 125fd742ba0e9e24c76202d63523dc8ec01f8369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 062/100] fix: LB data of a phase in which a node has no
 objects can be read

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index 90858aa..5110a48 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -437,7 +437,8 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
   if (phases.is_array()) {
     for (auto const& phase : phases) {
       auto id = phase["id"];
-      auto tasks = phase["tasks"];
+      // a node that has no objects in a phase has no tasks
+      auto tasks = phase.value("tasks", nlohmann::json{});
 
       this->node_data_[id];
       this->node_comm_[id];
-- 
2.43.0


From 8afb45b6c2f61bb691862cfa5e490e7c86c011cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:29 +0000
Subject: [PATCH 063/100] fix: OfflineLB moves objects to and from nodes that
 have none in a phase

---
 src/vt/vrt/collection/balance/lb_data_restart_reader.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
index be21ad3..5fce2b8 100644
--- a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
+++ b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
@@ -103,11 +103,13 @@ void LBDataRestartReader::readHistory(LBDataHolder const& lbdh) {
     auto iter = lbdh.node_data_.find(phase);
     if (iter != lbdh.node_data_.end()) {
       last_found_phase = phase;
+      // this node may have no migratable objects in the phase, which is part of
+      // the distribution
+      if (history_[phase] == nullptr) {
+        history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
+      }
       for (auto const& obj : iter->second) {
         if (obj.first.isMigratable()) {
-          if (history_[phase] == nullptr) {
-            history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
-          }
           history_[phase]->insert(obj.first);
         }
       }
-- 
2.43.0


From 7914835703b95edac43db473d0ec2bc0e199bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:28 +0000
Subject: [PATCH 064/100] fix: a handler that ends while tracing is switched
 off is closed in the trace

---
 src/vt/trace/trace_lite.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vt/trace/trace_lite.cc b/src/vt/trace/trace_lite.cc
index ac11bcb..282d019 100644
--- a/src/vt/trace/trace_lite.cc
+++ b/src/vt/trace/trace_lite.cc
@@ -249,9 +249,12 @@ bool TraceLite::checkDynamicRuntimeEnabled(bool is_end_event) {
    * trace_enabled_cur_phase_ -> this is whether tracing is enabled for the
    * current phase (LB phase), which can be disabled via a trace enable
    * specification file
+   *
+   * The end of an event that is already open is always accepted, so that the
+   * log and the stack of open events stay consistent
    */
-  return enabled_ and traceWritingEnabled(theContext()->getNode()) and
-    (trace_enabled_cur_phase_ or is_end_event);
+  return traceWritingEnabled(theContext()->getNode()) and
+    ((enabled_ and trace_enabled_cur_phase_) or is_end_event);
 }
 
 void TraceLite::addUserEventBracketedBeginTime(
-- 
2.43.0


From 2fa0295eab70dbb2951b660e85c96329adafd1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:28 +0000
Subject: [PATCH 065/100] fix: user-supplied data is in the trace

---
 src/vt/trace/trace_log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/trace/trace_log.h b/src/vt/trace/trace_log.h
index 69f5d9d..44e0ac5 100644
--- a/src/vt/trace/trace_log.h
+++ b/src/vt/trace/trace_log.h
@@ -258,9 +258,9 @@ struct Log final {
   // User event
   Log(
       TimeType const in_time, TraceConstantsType const in_type,
-      std::string const& in_note, [[maybe_unused]] UserDataType in_data
+      std::string const& in_note, UserDataType in_data
   ) : time(in_time), type(in_type),
-      data(Data::UserData{in_note, 0, 0, false})
+      data(Data::UserData{in_note, in_data, 0, false})
   {
   }
 
-- 
2.43.0


From 56c356492edaf6a390e51f256084ae2cb656075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:42 +0000
Subject: [PATCH 066/100] fix: long notes are written to the trace

---
 src/vt/trace/trace_lite.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/vt/trace/trace_lite.cc b/src/vt/trace/trace_lite.cc
index 282d019..626f920 100644
--- a/src/vt/trace/trace_lite.cc
+++ b/src/vt/trace/trace_lite.cc
@@ -599,6 +599,15 @@ void TraceLite::writeTracesFile(int flush, bool is_incremental_flush) {
   }
 }
 
+// A note may be longer than gzprintf can write (it is limited by the size of
+// the file's buffer, and writes nothing beyond)
+static void outputNote(gzFile gzfile, std::string const& note) {
+  if (not note.empty()) {
+    gzwrite(gzfile, note.data(), static_cast<unsigned>(note.length()));
+  }
+  gzputc(gzfile, '\n');
+}
+
 /*static*/ void TraceLite::outputTraces(
   vt_gzFile* file, TraceContainerType& traces, TimeType start_time, int flush) {
   auto const num_nodes = theContext()->getNumNodes();
@@ -693,17 +702,18 @@ void TraceLite::writeTracesFile(int flush, bool is_incremental_flush) {
     case TraceConstantsType::UserSuppliedNote: {
       auto const& udata = log.user_data();
       gzprintf(
-        gzfile, "%d %lld %zu %s\n", type, converted_time,
-        udata.user_note.length(), udata.user_note.c_str());
+        gzfile, "%d %lld %zu ", type, converted_time,
+        udata.user_note.length());
+      outputNote(gzfile, udata.user_note);
       break;
     }
     case TraceConstantsType::UserSuppliedBracketedNote: {
       auto const& udata = log.user_data();
       auto const converted_end_time = timeToMicros(log.end_time - start_time);
       gzprintf(
-        gzfile, "%d %lld %lld %d %zu %s\n", type, converted_time,
-        converted_end_time, log.event, udata.user_note.length(),
-        udata.user_note.c_str());
+        gzfile, "%d %lld %lld %d %zu ", type, converted_time,
+        converted_end_time, log.event, udata.user_note.length());
+      outputNote(gzfile, udata.user_note);
       break;
     }
     case TraceConstantsType::MemoryUsageCurrent: {
-- 
2.43.0


From 4c1c2345066ef2509fd9ae2a3cd51ec5dc87ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:06 +0000
Subject: [PATCH 067/100] fix: the trace's control file names the user events
 of all nodes

---
 src/vt/runtime/runtime.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vt/runtime/runtime.cc b/src/vt/runtime/runtime.cc
index 9feec3c..1b2fe34 100644
--- a/src/vt/runtime/runtime.cc
+++ b/src/vt/runtime/runtime.cc
@@ -510,6 +510,15 @@ bool Runtime::finalize(bool const force_now, bool const disable_sig) {
       printMemoryFootprint();
     }
 
+#   if vt_check_enabled(trace_enabled)
+    if (getAppConfig()->vt_trace) {
+      // The control file, written by node 0, names the user events of all nodes
+      runInEpochCollective("Runtime::gatherUserEvents", [&]{
+        theTrace->gatherUserEvents();
+      });
+    }
+#   endif
+
     auto const& num_units = theTerm->getNumUnits();
     auto const coll_epochs = theTerm->getNumTerminatedCollectiveEpochs();
     MPI_Barrier(comm);
-- 
2.43.0


From 390f5030913da86e2bb1477d065e2be8dce50552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:06 +0000
Subject: [PATCH 068/100] fix: a task that is suspended outside the scheduler
 loop can be traced

---
 src/vt/context/runnable_context/trace.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vt/context/runnable_context/trace.cc b/src/vt/context/runnable_context/trace.cc
index 61773e9..8d8da39 100644
--- a/src/vt/context/runnable_context/trace.cc
+++ b/src/vt/context/runnable_context/trace.cc
@@ -121,6 +121,8 @@ void Trace::finish(TimeType time) {
   if (at_sched_depth_zero_) {
     theTrace()->endSchedulerLoop();
     theTrace()->setInInvokeContext(false);
+    // The task may be suspended now and resumed inside the scheduler
+    at_sched_depth_zero_ = false;
   }
 }
 
-- 
2.43.0


From 56bd943353e2d38774e5237239050466229bcbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:28 +0000
Subject: [PATCH 069/100] fix: a traced invocation outside the scheduler may
 use the scheduler

---
 src/vt/runnable/invoke.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/vt/runnable/invoke.h b/src/vt/runnable/invoke.h
index 10373e2..8b36275 100644
--- a/src/vt/runnable/invoke.h
+++ b/src/vt/runnable/invoke.h
@@ -123,6 +123,13 @@ struct CallableWrapper {
 template <auto f, typename... Args>
 struct ScopedInvokeEvent {
   ScopedInvokeEvent() {
+    // Outside the scheduler, the between scheduler event has to end first
+    if (theSched()->getSchedulerDepth() == 0 and not theTrace()->inInvokeContext()) {
+      at_sched_depth_zero_ = true;
+      theTrace()->setInInvokeContext(true);
+      theTrace()->beginSchedulerLoop();
+    }
+
     const auto trace_id = CallableWrapper<f>::GetTraceID();
     const auto trace_event = theTrace()->messageCreation(trace_id, 0);
     const auto from_node = theContext()->getNode();
@@ -135,10 +142,16 @@ struct ScopedInvokeEvent {
   ~ScopedInvokeEvent() {
     theTrace()->endProcessing(tag_, timing::getCurrentTime());
     theTrace()->messageCreation(CallableWrapper<f>::GetTraceID(), 0);
+
+    if (at_sched_depth_zero_) {
+      theTrace()->endSchedulerLoop();
+      theTrace()->setInInvokeContext(false);
+    }
   }
 
 private:
   trace::TraceProcessingTag tag_ = {};
+  bool at_sched_depth_zero_ = false;
 };
 
 #endif // vt_check_enabled(trace_enabled)
-- 
2.43.0


From cd4eb73dacaa628752457a7ce995a5212b0fc620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:00 +0000
Subject: [PATCH 070/100] fix: a message of an object group to its own node is
 in the trace

---
 src/vt/objgroup/manager.static.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vt/objgroup/manager.static.h b/src/vt/objgroup/manager.static.h
index 75eadb1..3702a58 100644
--- a/src/vt/objgroup/manager.static.h
+++ b/src/vt/objgroup/manager.static.h
@@ -64,6 +64,12 @@ messaging::PendingSend send(MsgSharedPtr<MsgT> msg, HandlerType han, NodeType de
     theMsg()->setupEpochMsg(msg);
     envelopeSetHandler(msg->env, han);
     return messaging::PendingSend{msg, [](MsgSharedPtr<BaseMsgType>& inner_msg){
+#if vt_check_enabled(trace_enabled)
+      auto const event = theMsg()->makeTraceCreationSend(
+        envelopeGetHandler(inner_msg->env), inner_msg.size(), false
+      );
+      envelopeSetTraceEvent(inner_msg->env, event);
+#endif
       dispatchObjGroup(
         inner_msg.template to<ShortMessage>(),
         envelopeGetHandler(inner_msg->env),
-- 
2.43.0


From 9d555e895d4d416350999aeefdc6ba7b1c73f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:07 +0000
Subject: [PATCH 071/100] fix: a trace that was flushed completely is closed
 properly

---
 src/vt/trace/trace_lite.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/trace/trace_lite.cc b/src/vt/trace/trace_lite.cc
index 626f920..b26426f 100644
--- a/src/vt/trace/trace_lite.cc
+++ b/src/vt/trace/trace_lite.cc
@@ -506,7 +506,8 @@ void TraceLite::cleanupTracesFile() {
   auto const& node = theContext()->getNode();
   if (
     not(traceWritingEnabled(node) or isStsOutputNode(node)) or
-    traces_.empty()) {
+    // Everything may have been flushed to a file that is still open
+    (traces_.empty() and not log_file_)) {
     return;
   }
 
-- 
2.43.0


From fa82dc7d6f9776bc6aea6ceff0697c4ba85ebacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:43 +0000
Subject: [PATCH 072/100] fix: memory use can be traced while the runtime
 starts up and shuts down

---
 src/vt/runtime/runtime.cc           | 8 +++++---
 src/vt/utils/memory/memory_usage.cc | 2 +-
 src/vt/utils/memory/memory_usage.h  | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vt/runtime/runtime.cc b/src/vt/runtime/runtime.cc
index 1b2fe34..9aae148 100644
--- a/src/vt/runtime/runtime.cc
+++ b/src/vt/runtime/runtime.cc
@@ -743,10 +743,11 @@ void Runtime::initializeComponents() {
 
   p_->registerComponent<util::memory::MemoryUsage>(&theMemUsage,
     StartupDeps<
-      ctx::Context,       // Everything depends on theContext
-      phase::PhaseManager // For outputting memory at phase boundaries
+      ctx::Context        // Everything depends on theContext
     >{},
-    RuntimeDeps<>{}
+    RuntimeDeps<
+      phase::PhaseManager // For outputting memory at phase boundaries
+    >{}
   );
 
   p_->registerComponent<pool::Pool>(
@@ -776,6 +777,7 @@ void Runtime::initializeComponents() {
     &theTrace,
     StartupDeps<
       ctx::Context,              // Everything depends on theContext
+      util::memory::MemoryUsage, // For memory use recorded with each event
       objgroup::ObjGroupManager  // Depends on objgroup for construction
     >{},
     RuntimeDeps<>{},
diff --git a/src/vt/utils/memory/memory_usage.cc b/src/vt/utils/memory/memory_usage.cc
index bfa8f8b..6730060 100644
--- a/src/vt/utils/memory/memory_usage.cc
+++ b/src/vt/utils/memory/memory_usage.cc
@@ -360,7 +360,7 @@ MemoryUsage::MemoryUsage() {
   getFirstUsage();
 }
 
-void MemoryUsage::initialize() {
+void MemoryUsage::startup() {
   if (theConfig()->vt_print_memory_each_phase) {
     auto this_node = theContext()->getNode();
     if (
diff --git a/src/vt/utils/memory/memory_usage.h b/src/vt/utils/memory/memory_usage.h
index 6ad9349..1030c54 100644
--- a/src/vt/utils/memory/memory_usage.h
+++ b/src/vt/utils/memory/memory_usage.h
@@ -124,7 +124,7 @@ struct MemoryUsage : runtime::component::Component<MemoryUsage> {
    */
   MemoryUsage();
 
-  void initialize() override;
+  void startup() override;
 
   std::string name() override { return "MemoryUsage"; }
 
-- 
2.43.0


From 0e88d4332a6f3e3ca45848d97827572806a5f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:58 +0000
Subject: [PATCH 073/100] fix: functions invoked on some nodes only are named
 in the trace's control file

---
 src/vt/runnable/invoke.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vt/runnable/invoke.h b/src/vt/runnable/invoke.h
index 8b36275..4f3169e 100644
--- a/src/vt/runnable/invoke.h
+++ b/src/vt/runnable/invoke.h
@@ -115,9 +115,15 @@ struct CallableWrapper {
   }
 
   static trace::TraceEntryIDType GetTraceID() {
-    return trace::TraceRegistry::registerEventHashed(
-      GetEventTypeName(), GetEventName());
+    return trace_id_;
   }
+
+private:
+  // Register during static initialization, as handlers are, so that all nodes
+  // (including the one that writes the sts file) have the same set of entries
+  static inline trace::TraceEntryIDType const trace_id_ =
+    trace::TraceRegistry::registerEventHashed(
+      GetEventTypeName(), GetEventName());
 };
 
 template <auto f, typename... Args>
-- 
2.43.0


From ea8e7c5b5c06f5d7bcd1e6405f2de96ab9039755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:22 +0000
Subject: [PATCH 074/100] fix: an idle period that ends while tracing is
 switched off is closed in the trace

---
 src/vt/trace/trace_lite.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vt/trace/trace_lite.cc b/src/vt/trace/trace_lite.cc
index b26426f..3b58bb3 100644
--- a/src/vt/trace/trace_lite.cc
+++ b/src/vt/trace/trace_lite.cc
@@ -462,7 +462,8 @@ void TraceLite::endIdle(TimeType const time) {
   if (not idle_begun_) {
     return;
   }
-  if (not checkDynamicRuntimeEnabled()) {
+  // As any end, honored even if tracing has been disabled since the begin
+  if (not checkDynamicRuntimeEnabled(true)) {
     return;
   }
 
@@ -475,8 +476,8 @@ void TraceLite::endIdle(TimeType const time) {
   auto const type = TraceConstantsType::EndIdle;
   NodeType const node = theContext()->getNode();
 
-  idle_begun_ = false; // must set BEFORE logEvent
-  logEvent(LogType{time, type, node});
+  idle_begun_ = false;
+  traces_.push(LogType{time, type, node});
   emitTraceForTopProcessingEvent(time, TraceConstantsType::BeginProcessing);
 }
 
-- 
2.43.0


From 8199d874f4fd8149e4f3697d0a04ed4263bd4968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:22 +0000
Subject: [PATCH 075/100] fix: the end of a handler is not traced at an earlier
 time than what precedes it

---
 src/vt/runnable/runnable.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vt/runnable/runnable.cc b/src/vt/runnable/runnable.cc
index f9d7c0a..de72e76 100644
--- a/src/vt/runnable/runnable.cc
+++ b/src/vt/runnable/runnable.cc
@@ -243,7 +243,11 @@ void RunnableNew::finish(TimeType time) {
   if (contexts_.has_cont) contexts_.cont.finish();
   if (contexts_.has_lb) contexts_.lb.finish(time);
 #if vt_check_enabled(trace_enabled)
-  if (contexts_.has_trace) contexts_.trace.finish(time);
+  if (contexts_.has_trace) {
+    // The other contexts may have traced something (such as sending a message)
+    // since \c time was taken
+    contexts_.trace.finish(timing::getCurrentTime());
+  }
 #endif
 }
 
@@ -255,7 +259,10 @@ void RunnableNew::suspend([[maybe_unused]] TimeType time) {
   if (contexts_.has_lb) contexts_.lb.suspend(time);
 
 # if vt_check_enabled(trace_enabled)
-    if (contexts_.has_trace) contexts_.trace.suspend(time);
+    if (contexts_.has_trace) {
+      // As in finish
+      contexts_.trace.suspend(timing::getCurrentTime());
+    }
 # endif
 #endif
 }
-- 
2.43.0


From 00185551bd79a68207b1de7b31476a2e10802696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:29 +0000
Subject: [PATCH 076/100] fix: gathering trace user events does not undo later
 registrations

---
 src/vt/trace/trace.cc            | 2 +-
 src/vt/trace/trace_user_event.cc | 6 ++++++
 src/vt/trace/trace_user_event.h  | 9 +++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/vt/trace/trace.cc b/src/vt/trace/trace.cc
index e98bae8..20f3266 100644
--- a/src/vt/trace/trace.cc
+++ b/src/vt/trace/trace.cc
@@ -215,7 +215,7 @@ void Trace::addUserData(int32_t data) {
 }
 
 void Trace::setUserEvents(const UserEventRegistry& events) {
-  user_event_ = std::move(events);
+  user_event_.mergeGathered(events);
 }
 
 void Trace::gatherUserEvents() {
diff --git a/src/vt/trace/trace_user_event.cc b/src/vt/trace/trace_user_event.cc
index e0a1317..e438747 100644
--- a/src/vt/trace/trace_user_event.cc
+++ b/src/vt/trace/trace_user_event.cc
@@ -132,6 +132,12 @@ bool UserEventRegistry::insertEvent(
   return false;
 }
 
+void UserEventRegistry::mergeGathered(UserEventRegistry const& gathered) {
+  for (auto& [event, name] : gathered.getEvents()) {
+    user_event_[event] = name;
+  }
+}
+
 UserEventRegistry operator+(
   UserEventRegistry r1, UserEventRegistry const& r2
 ) {
diff --git a/src/vt/trace/trace_user_event.h b/src/vt/trace/trace_user_event.h
index de4f0ba..c80f946 100644
--- a/src/vt/trace/trace_user_event.h
+++ b/src/vt/trace/trace_user_event.h
@@ -125,6 +125,15 @@ struct UserEventRegistry {
 
   friend UserEventRegistry operator+(UserEventRegistry r1, UserEventRegistry const& r2);
 
+  /**
+   * \brief Take over the events gathered from all nodes. Events registered here
+   * since this node contributed to the gathering, and the identifiers in use,
+   * are kept.
+   *
+   * \param[in] gathered the gathered events
+   */
+  void mergeGathered(UserEventRegistry const& gathered);
+
   template <typename Serializer>
   void serialize(Serializer& s) {
     s | cur_root_event_
-- 
2.43.0


From 88ddbec3f987915122b02d11a853133608434b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:44 +0000
Subject: [PATCH 077/100] fix: a handler that begins in an idle period ends it
 in the trace

---
 src/vt/trace/trace.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vt/trace/trace.cc b/src/vt/trace/trace.cc
index 20f3266..5ecceaa 100644
--- a/src/vt/trace/trace.cc
+++ b/src/vt/trace/trace.cc
@@ -392,6 +392,9 @@ TraceProcessingTag Trace::beginProcessing(
 
   auto const type = TraceConstantsType::BeginProcessing;
 
+  // Idle time has to end first: it ends by beginning the top event again
+  endIdle(time);
+
   emitTraceForTopProcessingEvent(time, TraceConstantsType::EndProcessing);
   TraceEventIDType loggedEvent = logEvent(
     LogType{
-- 
2.43.0


From ea6e69920f07b1b0a676df603ce4435f5b927e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:07 +0000
Subject: [PATCH 078/100] fix: a build with runtime diagnostics enables them by
 default

---
 src/vt/configs/arguments/app_config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/configs/arguments/app_config.h b/src/vt/configs/arguments/app_config.h
index e165cf6..6c35927 100644
--- a/src/vt/configs/arguments/app_config.h
+++ b/src/vt/configs/arguments/app_config.h
@@ -172,7 +172,7 @@ struct AppConfig {
   bool vt_term_rooted_use_wave = false;
   int64_t vt_hang_freq         = 1024;
 
-#if (vt_diagnostics_runtime != 0)
+#if (vt_feature_diagnostics_runtime != 0)
   bool vt_diag_enable = true;
 #else
   bool vt_diag_enable = false;
-- 
2.43.0


From b8c17a6f09548dfe06abc905e4761b8f125da75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 079/100] fix: the minimum of a diagnostic that was never
 updated is not reported

---
 src/vt/runtime/component/diagnostic_value.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic_value.cc b/src/vt/runtime/component/diagnostic_value.cc
index 89934ad..59623d4 100644
--- a/src/vt/runtime/component/diagnostic_value.cc
+++ b/src/vt/runtime/component/diagnostic_value.cc
@@ -79,7 +79,7 @@ void reduceHelper(
       out->update_ = update;
       out->unit_ = unit;
       if (update == DiagnosticUpdate::Min) {
-        out->is_valid_value_ = reduced_val.min() != std::numeric_limits<T>::max();
+        out->is_valid_value_ = reduced_val.getN() != 0;
       } else {
         out->is_valid_value_ = reduced_val.sum() != T{0};
       }
-- 
2.43.0


From eba88b0c48280b6f8bbb1bdbfe3c1378f854c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:51 +0000
Subject: [PATCH 080/100] fix: the histogram of a diagnostic does not contain
 sentinels of nodes that never updated it

---
 src/vt/runtime/component/diagnostic_value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index 5d6ec4c..842d339 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -101,7 +101,7 @@ struct DiagnosticValueWrapper {
       hist_(16)
   {
     // add to histogram when starting the reduction
-    hist_.add(static_cast<double>(value_));
+    hist_.add(updated ? static_cast<double>(value_) : 0.);
   }
 
   /**
-- 
2.43.0


From c1c6bc63b87bfc8a406f07b163ea15f0f6dbd738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:41 +0000
Subject: [PATCH 081/100] fix: values of nodes that never updated a diagnostic
 do not make its mean NaN

---
 src/vt/runtime/component/diagnostic_value.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index 842d339..8531c0c 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -129,6 +129,18 @@ struct DiagnosticValueWrapper {
   friend DiagnosticValueWrapper<T> operator+(
     DiagnosticValueWrapper<T> d1, DiagnosticValueWrapper<T> const& d2
   ) {
+    d1.hist_.mergeIn(d2.hist_);
+
+    // Without values on one side there is nothing to combine
+    if (d1.N_ == 0 or d2.N_ == 0) {
+      auto hist = std::move(d1.hist_);
+      if (d1.N_ == 0) {
+        d1 = d2;
+      }
+      d1.hist_ = std::move(hist);
+      return d1;
+    }
+
     int32_t N            = d1.N_ + d2.N_;
     double delta         = d2.avg_ - d1.avg_;
     double delta_sur_N   = delta / static_cast<double>(N);
@@ -158,8 +170,6 @@ struct DiagnosticValueWrapper {
     d1.min_  = std::min(d1.min_, d2.min_);
     d1.max_  = std::max(d1.max_, d2.max_);
     d1.sum_ += d2.sum_;
-
-    d1.hist_.mergeIn(d2.hist_);
     return d1;
   }
 
-- 
2.43.0


From b34b8d5fe20cb649a1486d962b98608618dcd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 082/100] fix: nested scheduler loops do not lose the time of
 the outer one in diagnostics

---
 src/vt/scheduler/scheduler.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vt/scheduler/scheduler.cc b/src/vt/scheduler/scheduler.cc
index db63380..a00af00 100644
--- a/src/vt/scheduler/scheduler.cc
+++ b/src/vt/scheduler/scheduler.cc
@@ -93,8 +93,17 @@ Scheduler::Scheduler()
   // expensive
 # if vt_check_enabled(diagnostics)
   // Triggers to get the in-scheduler-loop time added to diagnostics
-  registerTrigger(BeginSchedulerLoop, [this]{ schedLoopTime.start(); });
-  registerTrigger(EndSchedulerLoop, [this]{ schedLoopTime.stop(); });
+  // (a nested loop is part of the time of the outermost one)
+  registerTrigger(BeginSchedulerLoop, [this]{
+    if (in_sched_depth_ == 1) {
+      schedLoopTime.start();
+    }
+  });
+  registerTrigger(EndSchedulerLoop, [this]{
+    if (in_sched_depth_ == 1) {
+      schedLoopTime.stop();
+    }
+  });
 
   // Triggers to get true idle time (including TD messages) in diagnostics
   registerTrigger(BeginIdle, [this]{ idleTime.start(); });
-- 
2.43.0


From c0e418bd8098b4caea56108abe2a2c933c3c379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:13 +0000
Subject: [PATCH 083/100] fix: the diagnostic summary contains the values of
 timers

---
 src/vt/runtime/runtime_diagnostics.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/runtime/runtime_diagnostics.cc b/src/vt/runtime/runtime_diagnostics.cc
index 439856b..627db6b 100644
--- a/src/vt/runtime/runtime_diagnostics.cc
+++ b/src/vt/runtime/runtime_diagnostics.cc
@@ -114,6 +114,10 @@ std::string valueFormatHelper(
       out = fn.apply<double>(eval);
     } else if constexpr (std::is_same_v<T, int64_t>) {
       out = fn.apply<int64_t>(eval);
+    } else {
+      // Times are shown as seconds
+      static_assert(std::is_same_v<T, TimeType>, "Must be a time");
+      out = fn.apply<double>(t.seconds());
     }
   }, eval);
   return out;
-- 
2.43.0


From 2ecbb64f6f0df991152700dd90c39e3722153ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:39 +0000
Subject: [PATCH 084/100] fix: the posted bytes of data in several parts are
 not counted once per part

---
 src/vt/messaging/active.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 06c8600..171519d 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -789,7 +789,7 @@ void ActiveMessenger::recvDataDirect(
       vtAssertMPISuccess(ret, "MPI_Irecv");
     }
 
-    dmPostedCounterGauge.incrementUpdate(len, 1);
+    dmPostedCounterGauge.incrementUpdate(sublen, 1);
 
     #if vt_check_enabled(trace_enabled)
       if (theConfig()->vt_trace_mpi) {
-- 
2.43.0


From 9df226085b6788685adf0b21d9625e56c4297f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:19 +0000
Subject: [PATCH 085/100] fix: the buckets of a histogram contain its maximum

---
 src/vt/utils/adt/histogram_approx.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 2e801ce..c638465 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -431,7 +431,8 @@ struct HistogramApprox {
 
     std::vector<double> buckets;
     for (auto i = 0; i < n_buckets; i++) {
-      auto q = getMin() + bucket_size*(i+1);
+      // the last bucket ends at the maximum, which rounding may miss
+      auto q = i + 1 == n_buckets ? getMax() : getMin() + bucket_size*(i+1);
       // get the number of values that fall less than this value
       auto n_vals = estimateNumValues(q);
       buckets.push_back(n_vals);
-- 
2.43.0


From aa99f7b7adc414e8a50baefb8bf0be17b1cbe6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 086/100] fix: the maximum of a gauge may be negative

---
 src/vt/runtime/component/diagnostic.impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic.impl.h b/src/vt/runtime/component/diagnostic.impl.h
index fe0f08d..b0c91c4 100644
--- a/src/vt/runtime/component/diagnostic.impl.h
+++ b/src/vt/runtime/component/diagnostic.impl.h
@@ -78,7 +78,7 @@ meter::Gauge<T> Diagnostic::registerGaugeT(
   );
   auto max = registerDiagnostic<T>(
     key + " [max]", desc, DiagnosticUpdate::Max, unit,
-    DiagnosticTypeEnum::PerformanceDiagnostic, 0
+    DiagnosticTypeEnum::PerformanceDiagnostic, std::numeric_limits<T>::lowest()
   );
   auto avg = registerDiagnostic<T>(
     key + " [avg]", desc, DiagnosticUpdate::Avg, unit,
-- 
2.43.0


From 84272c69e80790b1d6e63895dae4d76a8f3fd585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:44 +0000
Subject: [PATCH 087/100] fix: the average of negative integer values of a
 diagnostic is not divided as unsigned

---
 src/vt/runtime/component/diagnostic_value.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index 8531c0c..25e8778 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -247,7 +247,8 @@ struct DiagnosticValueWrapper {
    */
   T getComputedValue() const {
     if (N_ > 0) {
-      return value_ / N_;
+      // The value may be negative, so the division must not be unsigned
+      return value_ / static_cast<int64_t>(N_);
     } else {
       return value_;
     }
-- 
2.43.0


From f841827c0602f9af18625d864e1304c177b0bbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:18 +0000
Subject: [PATCH 088/100] fix: the deviation of diagnostics with many updates
 does not overflow

---
 src/vt/runtime/component/diagnostic_value.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index 25e8778..7e27259 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -141,15 +141,15 @@ struct DiagnosticValueWrapper {
       return d1;
     }
 
-    int32_t N            = d1.N_ + d2.N_;
+    std::size_t N        = d1.N_ + d2.N_;
     double delta         = d2.avg_ - d1.avg_;
     double delta_sur_N   = delta / static_cast<double>(N);
     double delta2_sur_N2 = delta_sur_N * delta_sur_N;
-    int32_t n2           = d1.N_ * d1.N_;
-    int32_t n_c2         = d2.N_ * d2.N_;
-    int32_t prod_n       = d1.N_ * d2.N_;
-    int32_t n_c          = d2.N_;
-    int32_t n            = d1.N_;
+    double n_c           = static_cast<double>(d2.N_);
+    double n             = static_cast<double>(d1.N_);
+    double n2            = n * n;
+    double n_c2          = n_c * n_c;
+    double prod_n        = n * n_c;
     double M2            = d1.M2_;
     double M2_c          = d2.M2_;
     double M3            = d1.M3_;
-- 
2.43.0


From a8d8cf05922cd44383d31289e3c1ddda2c43794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 089/100] fix: elements restored from a checkpoint do not share
 the element ID of others

---
 src/vt/vrt/collection/manager.impl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 6d1fada..b3bff7b 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -2308,7 +2308,10 @@ void CollectionManager::restoreFromFileInPlace(
     vtAssertExpr(elm_exists);
 
     auto ptr = elm_holder->lookup(idx).getRawPtr();
+    // The element remains the one it is in this run, whatever was saved
+    auto const elm_id = ptr->elm_id_;
     checkpoint::deserializeInPlaceFromFile<ColT>(file_name, static_cast<ColT*>(ptr));
+    ptr->elm_id_ = elm_id;
     ptr->lb_data_.resetPhase();
   }
 }
@@ -2353,6 +2356,10 @@ CollectionManager::restoreFromFile(
 
     auto col_ptr = checkpoint::deserializeFromFile<ColT>(file_name);
     col_ptr->lb_data_.resetPhase();
+    // The ID saved with the element may already belong to another element now
+    col_ptr->elm_id_ = elm::ElmIDBits::createCollection(
+      true, theContext()->getNode()
+    );
     elms.emplace_back(std::make_tuple(idx, std::move(col_ptr)));
   }
 
-- 
2.43.0


From feb102466d56a9268542fcd4fdb08903271584b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 090/100] fix: elements restored in place are in the current
 phase, not in the first one

---
 src/vt/vrt/collection/manager.impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index b3bff7b..e1a9818 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -2313,6 +2313,7 @@ void CollectionManager::restoreFromFileInPlace(
     checkpoint::deserializeInPlaceFromFile<ColT>(file_name, static_cast<ColT*>(ptr));
     ptr->elm_id_ = elm_id;
     ptr->lb_data_.resetPhase();
+    ptr->lb_data_.setPhase(thePhase()->getCurrentPhase());
   }
 }
 
-- 
2.43.0


From 8679b68863cdf0ae7cadfdb5ff5d95aafada960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 091/100] fix: elements restored from a checkpoint do not keep
 loads measured in other phases

---
 src/vt/elm/elm_lb_data.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vt/elm/elm_lb_data.cc b/src/vt/elm/elm_lb_data.cc
index bc59ac9..6760472 100644
--- a/src/vt/elm/elm_lb_data.cc
+++ b/src/vt/elm/elm_lb_data.cc
@@ -208,6 +208,12 @@ void ElementLBData::updatePhase(PhaseType const& inc) {
 
 void ElementLBData::resetPhase() {
   cur_phase_ = fst_lb_phase;
+
+  // What was measured belongs to phases that are counted anew
+  phase_timings_.clear();
+  phase_comm_.clear();
+  subphase_timings_.clear();
+  subphase_comm_.clear();
 }
 
 PhaseType ElementLBData::getPhase() const {
-- 
2.43.0


From 3da377fc0c2965285f2b3b3afbfa6a1eb4b77e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 092/100] fix: elements restored in place keep the proxy of
 their collection

---
 src/vt/vrt/collection/manager.impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index e1a9818..54dfc09 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -2312,6 +2312,7 @@ void CollectionManager::restoreFromFileInPlace(
     auto const elm_id = ptr->elm_id_;
     checkpoint::deserializeInPlaceFromFile<ColT>(file_name, static_cast<ColT*>(ptr));
     ptr->elm_id_ = elm_id;
+    CollectionTypeAttorney::setup(static_cast<ColT*>(ptr), idx, proxy_bits);
     ptr->lb_data_.resetPhase();
     ptr->lb_data_.setPhase(thePhase()->getCurrentPhase());
   }
-- 
2.43.0


From fdd9d284ce12c3ca703265c481bcfc6fe99305d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 093/100] fix: reductions work after some elements were
 restored in place

---
 src/vt/vrt/collection/manager.impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 54dfc09..688f9b6 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -2310,8 +2310,10 @@ void CollectionManager::restoreFromFileInPlace(
     auto ptr = elm_holder->lookup(idx).getRawPtr();
     // The element remains the one it is in this run, whatever was saved
     auto const elm_id = ptr->elm_id_;
+    auto const reduce_stamp = ptr->reduce_stamp_;
     checkpoint::deserializeInPlaceFromFile<ColT>(file_name, static_cast<ColT*>(ptr));
     ptr->elm_id_ = elm_id;
+    ptr->reduce_stamp_ = reduce_stamp;
     CollectionTypeAttorney::setup(static_cast<ColT*>(ptr), idx, proxy_bits);
     ptr->lb_data_.resetPhase();
     ptr->lb_data_.setPhase(thePhase()->getCurrentPhase());
-- 
2.43.0


From db669dc50e2ab5f4c021ca3ff03eca1cff4cd737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 094/100] fix: broadcasts reach all elements after restoring in
 place moved some

---
 src/vt/vrt/collection/manager.impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 688f9b6..4ee92f5 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -2295,6 +2295,9 @@ void CollectionManager::restoreFromFileInPlace(
     }
   });
 
+  // The elements may be on other nodes now
+  runInEpochCollective([&]{ constructGroup<ColT>(proxy_bits); });
+
   for (auto&& elm : directory->elements_) {
     auto idx = elm.idx_;
     auto file_name = elm.file_name_;
-- 
2.43.0


From a7432460f7306a1869241add8dbcece52bb27bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 095/100] fix: a checkpoint with sub-directories is not hidden
 by an earlier one without

---
 src/vt/vrt/collection/manager.impl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 4ee92f5..d37a53f 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -84,6 +84,7 @@
 #include <utility>
 #include <functional>
 #include <cassert>
+#include <cstdio>
 #include <memory>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -2204,6 +2205,12 @@ void CollectionManager::checkpointToFile(
 
   auto range = getRange<ColT>(proxy_bits);
 
+  if (make_sub_dirs) {
+    // The files of an earlier checkpoint without sub-directories would be found
+    // first when restoring
+    std::remove(makeMetaFilename<IndexT>(file_base, false).c_str());
+  }
+
   CollectionDirectory<IndexT> directory;
 
   holder_->foreach([&](IndexT const& idx, Indexable<IndexT>* elm) {
-- 
2.43.0


From 89b419f0b868e0f79df32d38839cef01c0f1e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:59 +0000
Subject: [PATCH 096/100] fix: a node asked about a collective epoch it has
 work of, but has not created yet, answered 'terminated'

---
 src/vt/termination/termination.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vt/termination/termination.cc b/src/vt/termination/termination.cc
index 79f9093..89d3560 100644
--- a/src/vt/termination/termination.cc
+++ b/src/vt/termination/termination.cc
@@ -751,7 +751,17 @@ TermStatusEnum TerminationDetector::testEpochTerminated(EpochType epoch) {
   TermStatusEnum status = TermStatusEnum::Pending;
   auto const& is_rooted_epoch = epoch::EpochManip::isRooted(epoch);
 
-  if (theEpoch()->getTerminatedWindow(epoch)->isTerminated(epoch)) {
+  // The window of collective epochs also holds the ones that are not created on
+  // this node yet. When work of such an epoch gets here first, it has a state
+  // that is not terminated.
+  auto const state_iter = epoch_state_.find(epoch);
+  bool const live_state =
+    not is_rooted_epoch and state_iter != epoch_state_.end() and
+    not state_iter->second.isTerminated();
+
+  if (live_state) {
+    status = TermStatusEnum::Pending;
+  } else if (theEpoch()->getTerminatedWindow(epoch)->isTerminated(epoch)) {
     status = TermStatusEnum::Terminated;
   } else if (is_rooted_epoch) {
     auto const& root = epoch::EpochManip::node(epoch);
-- 
2.43.0


From 15ac9aedbc41cb77904ac77e42290c31dbcfb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:45 +0000
Subject: [PATCH 097/100] fix: chain sets and other listeners were not told of
 the destruction of a single collection element

---
 src/vt/vrt/collection/manager.impl.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index d37a53f..15564d6 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1756,14 +1756,24 @@ void CollectionManager::destroyElm(
   if (elm_holder->exists(idx)) {
     // Delay this so we can finish processing this work unit first (which might
     // be this collection element running)
-    theSched()->enqueue([idx,untyped_proxy]{
+    theTerm()->produce(modify_epoch);
+    theSched()->enqueue([idx,untyped_proxy,modify_epoch]{
       auto elm = theCollection()->findElmHolder<IndexType>(untyped_proxy);
       if (elm->exists(idx)) {
+        auto const home = theCollection()->getMappedNode<IndexType>(
+          untyped_proxy, idx
+        );
+        theMsg()->pushEpoch(modify_epoch);
+        elm->applyListeners(
+          listener::ElementEventEnum::ElementDestroyed, idx, home
+        );
+        theMsg()->popEpoch(modify_epoch);
         elm->remove(idx);
         theLocMan()
           ->getCollectionLM<IndexType>(untyped_proxy)
           ->unregisterEntity(idx);
       }
+      theTerm()->consume(modify_epoch);
     });
   } else {
     // Otherwise, we send a destroy message that will be routed (eventually
-- 
2.43.0


From b5153e7a56f29ca86fc068826950e5aa5cea8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:36 +0000
Subject: [PATCH 098/100] fix: a dependent send chain without steps, or just
 reset, counted as pending: its collection element could not migrate or be
 destroyed

---
 src/vt/messaging/dependent_send_chain.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/dependent_send_chain.h b/src/vt/messaging/dependent_send_chain.h
index 92b1d68..12b6cbf 100644
--- a/src/vt/messaging/dependent_send_chain.h
+++ b/src/vt/messaging/dependent_send_chain.h
@@ -172,7 +172,8 @@ class DependentSendChain final {
    * \brief Indicate that the chain is complete and should be reset
    */
   void done() {
-    reset();
+    // The next step makes the new initial epoch
+    last_epoch_ = no_epoch;
   }
 
   /**
@@ -181,7 +182,8 @@ class DependentSendChain final {
    * \return whether the chain has terminated
    */
   bool isTerminated() {
-    return theTerm()->testEpochTerminated(last_epoch_) == vt::term::TermStatusEnum::Terminated;
+    return last_epoch_ == no_epoch or
+      theTerm()->testEpochTerminated(last_epoch_) == vt::term::TermStatusEnum::Terminated;
   }
 
   /**
-- 
2.43.0


From 7253ae1c7a01fb9409f64e44c8d78c313abc67db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:39 +0000
Subject: [PATCH 099/100] fix: a late answer about an entity's location
 overwrote what its home was told

---
 src/vt/topos/location/location.impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index d1884d0..46ec602 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -421,9 +421,10 @@ void EntityLocationCoord<EntityID>::handleEagerUpdate(
 
   // Insert a new entry in the cache for the updated location, unless the entity
   // has come to this node while it was being looked for: it may still be here,
-  // and where it went is known if it is not
+  // and where it went is known if it is not. The home is told of each move by
+  // the registration: this update may be older
   if (
-    this_node != deliver_node and
+    this_node != deliver_node and this_node != home_node and
     local_registered_.find(id) == local_registered_.end()
   ) {
     recs_.insert(
-- 
2.43.0


From 535c67ac966b88e961d13b00782d3256be24c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:39 +0000
Subject: [PATCH 100/100] fix: messages waited for ever on a node its home took
 for the entity's, once the location cache had dropped the entity

---
 src/vt/topos/location/location.impl.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index 46ec602..adbe035 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -726,6 +726,22 @@ void EntityLocationCoord<EntityID>::updatePendingRequest(
     node
   );
 
+  auto const& this_node = theContext()->getNode();
+  if (
+    node == this_node and home_node != this_node and
+    local_registered_.find(id) == local_registered_.end()
+  ) {
+    // The home takes the entity for being here, but it is on its way, or has
+    // left again and the cache no longer tells where to: ask again
+    if (pending_lookups_.find(id) != pending_lookups_.end()) {
+      auto cb = theCB()->makeSend<&ThisType::updateLocation>(proxy_[this_node]);
+      proxy_[home_node].template send<&ThisType::getLocationRequest>(
+        MsgProps().asLocationMsg(), id, home_node, cb
+      );
+    }
+    return;
+  }
+
   recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, node});
 
   // trigger any pending actions upon registration
-- 
2.43.0

