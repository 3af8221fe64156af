From ee25c8959f1a84137cedeb6e67d595bac606e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 01/71] fix: SmallBuffer::swap of an inline buffer with an
 allocated one kept a pointer into the other object

After a.swap(b) with a holding its data inline and b on the heap, b used the inline
storage of a, so writes to or destruction of a corrupted b.
---
 src/helics/core/SmallBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/SmallBuffer.hpp b/src/helics/core/SmallBuffer.hpp
index 6e958a1..6a407d8 100644
--- a/src/helics/core/SmallBuffer.hpp
+++ b/src/helics/core/SmallBuffer.hpp
@@ -361,7 +361,7 @@ class SmallBuffer {
             nonOwning = sb2.nonOwning;
             sb2.usingAllocatedBuffer = false;
             sb2.nonOwning = false;
-            sb2.heap = buffer.data();
+            sb2.heap = sb2.buffer.data();
             sb2.bufferCapacity = 64;
 
             std::memcpy(sb2.heap, buffer.data(), bufferSize);
-- 
2.43.0


From 439d8074448ecc5e25a736c4329434de1fcddaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 02/71] fix: announce the updated time request when a
 dependency is lost while waiting

A federate waiting for a time grant re-evaluated its grant when a dependency
disconnected or failed, but did not tell its dependents that its own bounds
had moved, so they could wait forever on the outdated information.
---
 src/helics/core/TimeCoordinator.cpp           | 16 +++++++++++-----
 src/helics/core/TimeCoordinator.hpp           |  3 +++
 src/helics/core/TimeCoordinatorProcessing.cpp |  6 ++++++
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 9efa92d..d2611ce 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -934,20 +934,26 @@ void TimeCoordinator::sendTimeRequest(GlobalFederateId triggerFed) const
     // static_cast<double>(time_exec), static_cast<double>(time_minDe));
 }
 
+void TimeCoordinator::sendUpdatedTimeRequest() const
+{
+    if (!dependencies.empty()) {
+        sendTimeRequest(GlobalFederateId{});
+    }
+}
+
 void TimeCoordinator::updateTimeGrant()
 {
     if (iterating != IterationRequest::FORCE_ITERATION) {
         time_granted = time_exec;
         time_grantBase = time_granted;
     }
-    ++sequenceCounter;
+    // the counter keeps increasing over grants so that a response to an earlier request is never
+    // taken for a response to a later one
+    incrementSequenceCounter(sequenceCounter);
     ActionMessage treq(CMD_TIME_GRANT);
     treq.source_id = mSourceId;
     treq.actionTime = time_granted;
-    treq.counter = sequenceCounter;
-    if (std::cmp_not_equal(treq.counter, sequenceCounter)) {
-        sequenceCounter = 0;
-    }
+    treq.counter = static_cast<uint16_t>(sequenceCounter);
     if (iterating != IterationRequest::NO_ITERATIONS) {
         dependencies.resetIteratingTimeRequests(time_exec);
     }
diff --git a/src/helics/core/TimeCoordinator.hpp b/src/helics/core/TimeCoordinator.hpp
index 2828d79..c9a4f78 100644
--- a/src/helics/core/TimeCoordinator.hpp
+++ b/src/helics/core/TimeCoordinator.hpp
@@ -212,6 +212,9 @@ class TimeCoordinator: public BaseTimeCoordinator {
     void sendUpdatedExecRequest(GlobalFederateId target = GlobalFederateId{},
                                 GlobalFederateId minFed = GlobalFederateId{},
                                 std::int32_t responseSequenceCounter = 0);
+    /** send an updated time request to the dependents if the timing of a pending request has changed
+    because a dependency was lost, so the dependents are not left waiting on outdated information*/
+    void sendUpdatedTimeRequest() const;
     /** request a time
     @param nextTime the new requested time
     @param iterate the mode of iteration to use (no_iteration, FORCE_ITERATION, ITERATE_IF_NEEDED)
diff --git a/src/helics/core/TimeCoordinatorProcessing.cpp b/src/helics/core/TimeCoordinatorProcessing.cpp
index b88ab43..c466e6a 100644
--- a/src/helics/core/TimeCoordinatorProcessing.cpp
+++ b/src/helics/core/TimeCoordinatorProcessing.cpp
@@ -192,6 +192,8 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     proc = timeCoord->checkTimeGrant();
                     if (returnableResult(proc)) {
                         newMode = true;
+                    } else {
+                        timeCoord->sendUpdatedTimeRequest();
                     }
                 }
             }
@@ -222,6 +224,8 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                 proc = timeCoord->checkTimeGrant();
                 if (returnableResult(proc)) {
                     newMode = true;
+                } else {
+                    timeCoord->sendUpdatedTimeRequest();
                 }
             }
             break;
@@ -308,6 +312,8 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     proc = timeCoord->checkTimeGrant();
                     if (returnableResult(proc)) {
                         newMode = true;
+                    } else {
+                        timeCoord->sendUpdatedTimeRequest();
                     }
                 }
             }
-- 
2.43.0


From 157624989f9961a8532e5ebf1a89e559b38eb7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 03/71] fix: include TeAlt when deciding whether a time request
 must be re-sent

The message to the minimum federate is generated from TeAlt, a change of it
alone was not transmitted.
---
 src/helics/core/TimeCoordinator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index d2611ce..e7a63cf 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -834,6 +834,10 @@ std::pair<bool, bool> TimeCoordinator::checkAndSendTimeRequest(ActionMessage& up
     if (lastSend.minFed != GlobalFederateId(upd.getExtraData())) {
         changed = true;
     }
+    if (upstream.minFed.isValid() && lastSend.TeAlt != upstream.TeAlt) {
+        // the message to the minimum federate is generated from this time
+        changed = true;
+    }
     if (lastSend.mTimeState != TimeState::time_requested) {
         changed = true;
     }
@@ -847,6 +851,7 @@ std::pair<bool, bool> TimeCoordinator::checkAndSendTimeRequest(ActionMessage& up
         lastSend.next = upd.actionTime;
         lastSend.minDe = upd.Tdemin;
         lastSend.Te = upd.Te;
+        lastSend.TeAlt = upstream.TeAlt;
         lastSend.sequenceCounter = sequenceCounter;
         lastSend.minFed = GlobalFederateId(upd.getExtraData());
         lastSend.mTimeState = TimeState::time_requested;
-- 
2.43.0


From 43f4687038d32d780cb861bd463dcef2defa44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 04/71] fix: do not reset dependencies which are not dependents
 on a new time request

Such a dependency does not answer the new request, so the reset value was
never replaced by the one it had already sent.
---
 src/helics/core/TimeDependencies.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index 14cae14..39dca7f 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -700,7 +700,9 @@ void TimeDependencies::resetIteratingTimeRequests(helics::Time requestTime)
 void TimeDependencies::resetDependentEvents(helics::Time grantTime)
 {
     for (auto& dep : dependencies) {
-        if (dep.dependency) {
+        // a dependency which is not also a dependent will not respond to the new request, so its
+        // last message is still valid and would not be replaced
+        if (dep.dependency && dep.dependent) {
             dep.Te = (std::max)(dep.next, grantTime);
             dep.minDe = dep.Te;
         }
-- 
2.43.0


From 566dd3c6b5f6ee110c27e9cb4b074f35940f0877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 05/71] fix: keep the sequence counter increasing over time
 grants

Resetting it at each grant made a response to an earlier request
indistinguishable from the response to the current one, and a federate could
be granted past a time at which data was still to be published to it.
---
 src/helics/core/TimeCoordinator.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index e7a63cf..ad0e215 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -261,7 +261,7 @@ void TimeCoordinator::timeRequest(Time nextTime,
         }
     }
     dependencies.resetDependentEvents(time_granted);
-    ++sequenceCounter;
+    incrementSequenceCounter(sequenceCounter);
     updateTimeFactors();
 
     if (!dependencies.empty()) {
@@ -677,7 +677,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
         case IterationRequest::NO_ITERATIONS:
             if (time_allow > time_exec) {
                 iteration = 0;
-                sequenceCounter = 0;
                 hasIterationData = false;
                 updateTimeGrant();
                 return MessageProcessingResult::NEXT_STEP;
@@ -687,7 +686,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     if (time_requested <= time_exec) {
                         // this is the non interrupted case
                         iteration = 0;
-                        sequenceCounter = 0;
                         hasIterationData = false;
                         updateTimeGrant();
                         return MessageProcessingResult::NEXT_STEP;
@@ -698,7 +696,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     getDelayMode(info.wait_for_current_time_updates, (time_requested > time_exec));
                 if (dependencies.checkIfReadyForTimeGrant(false, time_exec, delayMode)) {
                     iteration = 0;
-                    sequenceCounter = 0;
                     hasIterationData = false;
                     updateTimeGrant();
                     return MessageProcessingResult::NEXT_STEP;
@@ -721,7 +718,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     ++iteration;
                 } else {
                     iteration = 0;
-                    sequenceCounter = 0;
                 }
 
                 updateTimeGrant();
@@ -806,7 +802,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                 ret = MessageProcessingResult::ITERATING;
             } else {
                 iteration = 0;
-                sequenceCounter = 0;
                 hasIterationData = false;
                 updateTimeGrant();
             }
-- 
2.43.0


From ef44f9d11f007a2c6084f19c7349441d1f982994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 06/71] fix: an uninterruptible federate requesting maxTime is
 not event triggered

It ignores events until the end, treating it as event triggered let two of
them exchange time updates forever.
---
 src/helics/core/TimeCoordinator.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index ad0e215..afc7acd 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -586,7 +586,9 @@ bool TimeCoordinator::updateTimeFactors()
     if (upstream.minDe < maxTime && upstream.minDe > total.minDe) {
         upstream.minDe = generateAllowedTime(upstream.minDe) + info.outputDelay;
     }
-    if (!globalTime && (info.event_triggered || time_requested >= cTerminationTime)) {
+    if (!globalTime &&
+        (info.event_triggered ||
+         (time_requested >= cTerminationTime && !info.uninterruptible))) {
         if (upstream.Te < maxTime) {
             upstream.Te = generateAllowedTime(upstream.minDe);
         }
@@ -876,7 +878,9 @@ void TimeCoordinator::sendTimeRequest(GlobalFederateId triggerFed) const
         setActionFlag(upd, interrupted_flag);
     }
     upd.Te = checkAdd(time_exec, info.outputDelay);
-    if (!globalTime && (info.event_triggered || time_requested >= cTerminationTime)) {
+    if (!globalTime &&
+        (info.event_triggered ||
+         (time_requested >= cTerminationTime && !info.uninterruptible))) {
         upd.Te = std::min(upd.Te, checkAdd(upstream.Te, info.outputDelay));
         if (upd.Te < timeZero) {
             upd.Te = timeZero;
@@ -884,7 +888,9 @@ void TimeCoordinator::sendTimeRequest(GlobalFederateId triggerFed) const
         upd.actionTime = std::min(upd.actionTime, upd.Te);
     }
     upd.Tdemin = std::min(checkAdd(upstream.Te, info.outputDelay), upd.Te);
-    if (!globalTime && (info.event_triggered || time_requested >= cTerminationTime)) {
+    if (!globalTime &&
+        (info.event_triggered ||
+         (time_requested >= cTerminationTime && !info.uninterruptible))) {
         upd.Tdemin = std::min(upd.Tdemin, checkAdd(upstream.minDe, info.outputDelay));
         if (upd.Tdemin < timeZero) {
             upd.Tdemin = timeZero;
@@ -913,7 +919,9 @@ void TimeCoordinator::sendTimeRequest(GlobalFederateId triggerFed) const
                 upd.dest_id = upstream.minFed;
                 upd.setExtraData(GlobalFederateId{}.baseValue());
                 upd.setExtraDestData(upstream.responseSequenceCounter);
-                if (!globalTime && (info.event_triggered || time_requested >= cTerminationTime)) {
+                if (!globalTime &&
+                    (info.event_triggered ||
+                     (time_requested >= cTerminationTime && !info.uninterruptible))) {
                     upd.Te = checkAdd(time_exec, info.outputDelay);
                     upd.Te = std::min(upd.Te, checkAdd(upstream.TeAlt, info.outputDelay));
                 }
-- 
2.43.0


From 53e76adb8029b16aee0c7e5ad75bea87a8894714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 07/71] fix: track the second smallest Te in the minimum time
 computation

---
 src/helics/core/TimeDependencies.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index 39dca7f..9f6736e 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -851,6 +851,8 @@ static void generateMinTimeImplementation(TimeData& mTime,
     } else if (dep.Te == mTime.Te) {
         mTime.minFed = GlobalFederateId{};
         mTime.TeAlt = mTime.Te;
+    } else if (dep.Te < mTime.TeAlt) {
+        mTime.TeAlt = dep.Te;
     }
     // }
 }
-- 
2.43.0


From d922084a28d922e36c5d6f02c77125a24d9c46fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 08/71] fix: ActionMessage: count the extra times of a time
 request in the buffer size checks

---
 src/helics/core/ActionMessage.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 1cdf83d..320518f 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -193,7 +193,11 @@ int ActionMessage::toByteArray(std::byte* data, std::size_t buffer_size) const
         }
     }
 
-    if ((data == nullptr) || (buffer_size == 0) || buffer_size < action_message_base_size + ssize) {
+    std::size_t requiredSize = action_message_base_size + ssize;
+    if (messageAction == CMD_TIME_REQUEST) {
+        requiredSize += 3 * sizeof(Time::baseType);
+    }
+    if ((data == nullptr) || (buffer_size == 0) || buffer_size < requiredSize) {
         return -1;
     }
 
@@ -265,7 +269,7 @@ int ActionMessage::toByteArray(std::byte* data, std::size_t buffer_size) const
         data += str.size();
         ssize += strsize + 4;
     }
-    if (payload.size() > maxPayloadSize) {
+    if (payload.size() >= maxPayloadSize) {
         if (buffer_size < ssize + payload.size() - maxPayloadSize + 4) {
             return -1;
         }
-- 
2.43.0


From 04aec40d1f4acb9aa66e14f6a8ec0a3905984ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 09/71] fix: ActionMessage: clear the payload of a reused
 message when the data has none

---
 src/helics/core/ActionMessage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 320518f..7f03ddd 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -520,6 +520,8 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
     if (size > 0) {
         payload.assign(data, size);
         data += size;
+    } else {
+        payload.clear();
     }
     auto stringCount = std::to_integer<std::size_t>(*data);
     ++data;
-- 
2.43.0


From aa739aa6d46abb77eca84956ac3c5cb5aef4d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 10/71] fix: ActionMessage: swap the sequence number of
 messages from the other byte order

---
 src/helics/core/ActionMessage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 7f03ddd..4c64e53 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -560,6 +560,7 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
         swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&dest_handle));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&counter));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&flags));
+        swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&sequenceID));
         auto timecode = actionTime.getBaseTimeCode();
         swap_bytes<sizeof(Time::baseType)>(reinterpret_cast<std::uint8_t*>(&timecode));
         actionTime.setBaseTimeCode(timecode);
-- 
2.43.0


From 7f7a7f5b1f87134927ffb2a7cce87055b6364913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 11/71] fix: ActionMessage: check the packet size before using
 it in depacketize

---
 src/helics/core/ActionMessage.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 4c64e53..eb0fa4e 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -586,10 +586,10 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
 std::size_t ActionMessage::depacketize(const void* data, std::size_t buffer_size)
 {
     const auto* bytes = reinterpret_cast<const std::byte*>(data);
-    if (bytes[0] != static_cast<std::byte>(LEADING_CHAR)) {
+    if (buffer_size < 6) {
         return 0;
     }
-    if (buffer_size < 6) {
+    if (bytes[0] != static_cast<std::byte>(LEADING_CHAR)) {
         return 0;
     }
     unsigned int message_size = std::to_integer<unsigned char>(bytes[1]);
@@ -597,7 +597,8 @@ std::size_t ActionMessage::depacketize(const void* data, std::size_t buffer_size
     message_size += static_cast<unsigned char>(bytes[2]);
     message_size <<= 8U;
     message_size += static_cast<unsigned char>(bytes[3]);
-    if (buffer_size < (static_cast<size_t>(message_size) + 2)) {
+    // the size includes the 4 byte header
+    if (message_size < 4 || buffer_size < (static_cast<size_t>(message_size) + 2)) {
         return 0;
     }
     if (bytes[message_size] != static_cast<std::byte>(TAIL_CHAR1)) {
@@ -607,6 +608,10 @@ std::size_t ActionMessage::depacketize(const void* data, std::size_t buffer_size
         return 0;
     }
 
+    if (message_size > 4 && bytes[4] == static_cast<std::byte>(LEADING_CHAR)) {
+        // a packet does not contain another packet
+        return 0;
+    }
     std::size_t bytesUsed = fromByteArray(bytes + 4, message_size - 4);
     if (bytesUsed == 0U) {
         if (from_json_string(
-- 
2.43.0


From 294595165b87bb51f6c6410543a8430a6ae78ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 12/71] fix: decode values read from ANY publications by the
 detected type

---
 .../application_api/helicsPrimaryTypes.cpp    | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index e09283d..3f082f1 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -596,6 +596,12 @@ defV readJsonValue(const data_view& data)
 void valueExtract(const data_view& data, DataType baseType, std::string& val)
 {
     switch (baseType) {
+        case DataType::HELICS_ANY: {
+            defV val_dv;
+            valueExtract(data, baseType, val_dv);
+            valueExtract(val_dv, val);
+            break;
+        }
         case DataType::HELICS_DOUBLE: {
             auto value = ValueConverter<double>::interpret(data);
             val = helicsDoubleString(value);
@@ -610,7 +616,6 @@ void valueExtract(const data_view& data, DataType baseType, std::string& val)
         case DataType::HELICS_STRING:
         case DataType::HELICS_CHAR:
         case DataType::HELICS_BOOL:
-        case DataType::HELICS_ANY:
             val = ValueConverter<std::string_view>::interpret(data);
             break;
         case DataType::HELICS_UNKNOWN:
@@ -643,6 +648,12 @@ void valueExtract(const data_view& data, DataType baseType, std::vector<double>&
 {
     val.resize(0);
     switch (baseType) {
+        case DataType::HELICS_ANY: {
+            defV val_dv;
+            valueExtract(data, baseType, val_dv);
+            valueExtract(val_dv, val);
+            break;
+        }
         case DataType::HELICS_DOUBLE: {
             val.push_back(ValueConverter<double>::interpret(data));
             break;
@@ -704,6 +715,12 @@ void valueExtract(const data_view& data, DataType baseType, std::vector<std::com
 {
     val.resize(0);
     switch (baseType) {
+        case DataType::HELICS_ANY: {
+            defV val_dv;
+            valueExtract(data, baseType, val_dv);
+            valueExtract(val_dv, val);
+            break;
+        }
         case DataType::HELICS_DOUBLE: {
             val.emplace_back(ValueConverter<double>::interpret(data), 0.0);
             break;
@@ -760,6 +777,12 @@ void valueExtract(const data_view& data, DataType baseType, std::vector<std::com
 void valueExtract(const data_view& data, DataType baseType, std::complex<double>& val)
 {
     switch (baseType) {
+        case DataType::HELICS_ANY: {
+            defV val_dv;
+            valueExtract(data, baseType, val_dv);
+            valueExtract(val_dv, val);
+            break;
+        }
         case DataType::HELICS_DOUBLE: {
             val = std::complex<double>(ValueConverter<double>::interpret(data), 0.0);
             break;
@@ -817,6 +840,12 @@ void valueExtract(const data_view& data, DataType baseType, std::complex<double>
 void valueExtract(const data_view& data, DataType baseType, NamedPoint& val)
 {
     switch (baseType) {
+        case DataType::HELICS_ANY: {
+            defV val_dv;
+            valueExtract(data, baseType, val_dv);
+            valueExtract(val_dv, val);
+            break;
+        }
         case DataType::HELICS_DOUBLE: {
             auto value = ValueConverter<double>::interpret(data);
             val.name = "value";
@@ -887,6 +916,12 @@ void valueExtract(const data_view& data, DataType baseType, NamedPoint& val)
 void valueExtract(const data_view& data, DataType baseType, Time& val)
 {
     switch (baseType) {
+        case DataType::HELICS_ANY: {
+            defV val_dv;
+            valueExtract(data, baseType, val_dv);
+            valueExtract(val_dv, val);
+            break;
+        }
         case DataType::HELICS_DOUBLE: {
             val = ValueConverter<double>::interpret(data);
             break;
-- 
2.43.0


From bba558fd4bd57f8cb9a637894d4a481c23530f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 13/71] fix: text to floating conversions return the number the
 text spells

---
 src/helics/application_api/HelicsPrimaryTypes.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/helics/application_api/HelicsPrimaryTypes.hpp b/src/helics/application_api/HelicsPrimaryTypes.hpp
index b80ce88..656b5dd 100644
--- a/src/helics/application_api/HelicsPrimaryTypes.hpp
+++ b/src/helics/application_api/HelicsPrimaryTypes.hpp
@@ -182,7 +182,7 @@ std::enable_if_t<std::is_arithmetic<X>::value && (!std::is_same<X, char>::value)
         case string_loc:  // string
         default: {
             const auto& v = std::get<std::string>(data);
-            if (v.find_first_of(".eE[]") == std::string::npos) {
+            if (std::is_integral_v<X> && v.find_first_of(".eE[]") == std::string::npos) {
                 val = static_cast<X>(getIntFromString(v));
             } else {
                 val = static_cast<X>(getDoubleFromString(v));
@@ -222,7 +222,8 @@ std::enable_if_t<std::is_arithmetic<X>::value && (!std::is_same<X, char>::value)
         case named_point_loc: {
             const auto& np = std::get<NamedPoint>(data);
             if (std::isnan(np.value)) {
-                if (np.name.find_first_of(".eE[]") == std::string::npos) {
+                if (std::is_integral_v<X> &&
+                    np.name.find_first_of(".eE[]") == std::string::npos) {
                     val = static_cast<X>(getIntFromString(np.name));
                 } else {
                     val = static_cast<X>(getDoubleFromString(np.name));
@@ -251,7 +252,7 @@ std::enable_if_t<std::is_arithmetic<X>::value && (!std::is_same<X, char>::value)
         case DataType::HELICS_CHAR:
         default: {
             const auto v = ValueConverter<std::string_view>::interpret(data);
-            if (v.find_first_of(".eE[]") == std::string_view::npos) {
+            if (std::is_integral_v<X> && v.find_first_of(".eE[]") == std::string_view::npos) {
                 val = static_cast<X>(getIntFromString(v));
             } else {
                 val = static_cast<X>(getDoubleFromString(v));
@@ -266,7 +267,8 @@ std::enable_if_t<std::is_arithmetic<X>::value && (!std::is_same<X, char>::value)
             auto npval = ValueConverter<NamedPoint>::interpret(data);
             if (std::isnan(npval.value)) {
                 try {
-                    if (npval.name.find_first_of(".eE[]") == std::string::npos) {
+                    if (std::is_integral_v<X> &&
+                        npval.name.find_first_of(".eE[]") == std::string::npos) {
                         val = static_cast<X>(getIntFromString(npval.name));
                     } else {
                         val = static_cast<X>(getDoubleFromString(npval.name));
-- 
2.43.0


From 065889c3a0ed5bfab8a9d09e47510ccb7ed87141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 14/71] fix: complex values converted to vectors keep real and
 imaginary part

---
 src/helics/application_api/helicsTypes.cpp | 57 +++-------------------
 1 file changed, 6 insertions(+), 51 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 8ee0363..e2270d6 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -921,58 +921,13 @@ SmallBuffer typeConvertComplex(DataType type, const double* vals, size_t size)
     if ((vals == nullptr) || (size == 0)) {
         return emptyBlock(type, DataType::HELICS_COMPLEX_VECTOR);
     }
-    if (size == 1) {
-        // treat like a single complex
-        return typeConvert(type, std::complex<double>{vals[0], vals[1]});
-    }
-    switch (type) {
-        case DataType::HELICS_DOUBLE:
-            return ValueConverter<double>::convert(vectorNorm(vals, size));
-        case DataType::HELICS_TIME:
-            return ValueConverter<int64_t>::convert(Time(vectorNorm(vals, size)).getBaseTimeCode());
-        case DataType::HELICS_INT:
-            return ValueConverter<int64_t>::convert(static_cast<int64_t>(vectorNorm(vals, size)));
-        case DataType::HELICS_COMPLEX: {
-            const std::complex<double> cval(vals[0], vals[1]);
-            return ValueConverter<std::complex<double>>::convert(cval);
-        }
-        case DataType::HELICS_BOOL:
-            return ValueConverter<std::string_view>::convert((vectorNorm(vals, size) != 0.0) ? "1" :
-                                                                                               "0");
-        case DataType::HELICS_STRING:
-        case DataType::HELICS_CHAR: {
-            std::vector<std::complex<double>> cvec;
-            cvec.reserve(size);
-            for (size_t ii = 0; ii < size; ++ii) {
-                cvec.emplace_back(vals[2 * ii], vals[2 * ii + 1]);
-            }
-            return ValueConverter<std::string_view>::convert(helicsComplexVectorString(cvec));
-        }
-        case DataType::HELICS_NAMED_POINT:
-            return ValueConverter<NamedPoint>::convert(
-                NamedPoint{helicsVectorString(vals, size), std::nan("0")});
-        case DataType::HELICS_COMPLEX_VECTOR: {
-            std::vector<std::complex<double>> cvec;
-            cvec.reserve(size);
-            for (size_t ii = 0; ii < size; ++ii) {
-                cvec.emplace_back(vals[2 * ii], vals[2 * ii + 1]);
-            }
-            return ValueConverter<std::vector<std::complex<double>>>::convert(cvec);
-        } break;
-        case DataType::HELICS_VECTOR:
-        default:
-            return ValueConverter<double>::convert(vals, size);
-        case DataType::HELICS_JSON: {
-            nlohmann::json json;
-            json["type"] = typeNameStringRef(DataType::HELICS_VECTOR);
-            nlohmann::json jsonArray = nlohmann::json::array();
-            for (size_t ii = 0; ii < size; ++ii) {
-                jsonArray.push_back(vals[ii]);
-            }
-            json["value"] = std::move(jsonArray);
-            return fileops::generateJsonString(json);
-        }
+    // the data is size pairs of (real, imaginary)
+    std::vector<std::complex<double>> cvec;
+    cvec.reserve(size);
+    for (size_t ii = 0; ii < size; ++ii) {
+        cvec.emplace_back(vals[2 * ii], vals[2 * ii + 1]);
     }
+    return typeConvert(type, cvec);
 }
 
 SmallBuffer typeConvert(DataType type, const std::vector<std::complex<double>>& val)
-- 
2.43.0


From 4815cce840f14f735b8a59f2dcbec8c0874e42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 15/71] fix: keep the value of a named point given as integer
 text

---
 src/helics/application_api/helicsTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index e2270d6..9230241 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -431,7 +431,7 @@ NamedPoint helicsGetNamedPoint(std::string_view val)
                 break;
             case nlohmann::json::value_t::number_integer:
             case nlohmann::json::value_t::number_unsigned:
-                namePoint.value = static_cast<double>(json.get<int>());
+                namePoint.value = json.get<double>();
                 namePoint.name = "value";
                 break;
             case nlohmann::json::value_t::object:
-- 
2.43.0


From f331707aa4b218003da8da8d9eba49a0a85c774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 16/71] fix: conversions of empty vectors and texts must not
 read before the data

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index 3f082f1..f2af6fe 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -320,7 +320,7 @@ void valueExtract(const defV& data, std::vector<std::complex<double>>& val)
             const auto& vec = std::get<std::vector<double>>(data);
             val.reserve(vec.size() + 1 / 2);
             val.clear();
-            for (size_t ii = 0; ii < vec.size() - 1; ii += 2) {
+            for (size_t ii = 0; ii + 1 < vec.size(); ii += 2) {
                 val.emplace_back(vec[ii], vec[ii + 1]);
             }
             if (vec.size() % 2 == 1) {
@@ -566,7 +566,7 @@ defV readJsonValue(const data_view& data)
             case DataType::HELICS_COMPLEX_VECTOR: {
                 std::vector<std::complex<double>> res;
                 auto& array = json["value"];
-                for (std::size_t ii = 0; ii < array.size() - 1; ii += 2) {
+                for (std::size_t ii = 0; ii + 1 < array.size(); ii += 2) {
                     res.emplace_back(array[ii].get<double>(), array[ii + 1].get<double>());
                 }
                 result = std::move(res);
@@ -741,7 +741,7 @@ void valueExtract(const data_view& data, DataType baseType, std::vector<std::com
         }
         case DataType::HELICS_VECTOR: {
             auto vec = ValueConverter<std::vector<double>>::interpret(data);
-            for (size_t ii = 0; ii < vec.size() - 1; ii += 2) {
+            for (size_t ii = 0; ii + 1 < vec.size(); ii += 2) {
                 val.emplace_back(vec[ii], vec[ii + 1]);
             }
             if (vec.size() % 2 == 1) {
@@ -1069,7 +1069,7 @@ void valueExtract(const data_view& data, DataType baseType, char& val)
                 if (dval != invalidDouble) {
                     val = static_cast<char>(dval);
                 } else {
-                    val = value[0];
+                    val = value.empty() ? '\0' : value[0];
                 }
             }
         }
@@ -1088,7 +1088,7 @@ void valueExtract(const data_view& data, DataType baseType, char& val)
                     if (value != invalidDouble) {
                         val = static_cast<char>(value);
                     } else {
-                        val = npval.name[0];
+                        val = npval.name.empty() ? '\0' : npval.name[0];
                     }
                 }
             } else {
-- 
2.43.0


From 50bb3737252c9cb2ec72eec6fae261f81ad26610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 17/71] fix: parse vector sizes and complex texts within the
 bounds of the text

---
 src/helics/application_api/helicsTypes.cpp | 37 ++++++++++++----------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 9230241..d7324a6 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -312,9 +312,10 @@ std::complex<double> helicsGetComplex(std::string_view val)
         auto sep = val.find_first_of(',');
         if (sep == std::string_view::npos) {
             val.remove_prefix(1);
-            val.remove_suffix(1);
-            real = numConv<double>(val);
-            return {real, imag};
+            if (!val.empty()) {
+                val.remove_suffix(1);
+            }
+            return {numeric_conversion<double>(val, invalidValue<double>()), imag};
         }
         if (val.find_first_of(',', sep + 1) != std::string_view::npos) {
             auto vectorVal = helicsGetVector(val);
@@ -323,9 +324,9 @@ std::complex<double> helicsGetComplex(std::string_view val)
             }
             return invalidValue<std::complex<double>>();
         }
-        real = numConv<double>(val.substr(1, sep));
+        real = numeric_conversion<double>(val.substr(1, sep), invalidValue<double>());
         val.remove_suffix(1);
-        imag = numConv<double>(val.substr(sep + 1));
+        imag = numeric_conversion<double>(val.substr(std::min(sep + 1, val.size())), 0.0);
         return {real, imag};
     }
     std::smatch match;
@@ -451,24 +452,28 @@ NamedPoint helicsGetNamedPoint(std::string_view val)
 static int readSize(std::string_view val)
 {
     auto firstBracket = val.find_first_of('[');
+    if (firstBracket == std::string_view::npos) {
+        return 0;
+    }
+    if (val.find_first_not_of(" ]", firstBracket + 1) == std::string_view::npos) {
+        return 0;
+    }
+    const auto elements = static_cast<int>(
+        std::count_if(val.begin() + firstBracket, val.end(), [](auto nextChar) {
+            return (nextChar == ',') || (nextChar == ';');
+        }) +
+        1);
     if (firstBracket > 1) {
         try {
-            auto size = numConv<int>(val.substr(1, firstBracket - 1));
-            return size;
+            // the stated size cannot exceed the number of elements actually present
+            return std::clamp(numConv<int>(val.substr(1, firstBracket - 1)), 0, elements);
         }
         // NOLINTNEXTLINE
-        catch (const std::invalid_argument&) {
+        catch (const std::logic_error&) {
             // go to the alternative path if this fails
         }
     }
-    if (val.find_first_not_of(" ]", firstBracket + 1) == std::string_view::npos) {
-        return 0;
-    }
-    auto res = std::count_if(val.begin() + firstBracket,
-                             val.end(),
-                             [](auto nextChar) { return (nextChar == ',') || (nextChar == ';'); }) +
-        1;
-    return static_cast<int>(res);
+    return elements;
 }
 
 std::complex<double> getComplexFromString(std::string_view val)
-- 
2.43.0


From 366751b4702af52dd3be5a3dcc7f4b82760e8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 18/71] fix: real vector text read as complex vector uses non
 overlapping pairs

---
 src/helics/application_api/helicsTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index d7324a6..cea5fe9 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -599,7 +599,7 @@ void helicsGetComplexVector(std::string_view val, std::vector<std::complex<doubl
             catch (const std::invalid_argument&) {
                 data.push_back(invalidValue<std::complex<double>>());
             }
-            firstBracket = nextChar;
+            firstBracket = secondChar;
         }
     } else if (val.front() == 'c') {
         auto size = readSize(val);
-- 
2.43.0


From f02cd1343043daeb4c6610f67caa5f8c0f45e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 19/71] fix: text to integer conversion must not go through a
 double

---
 src/helics/application_api/helicsTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index cea5fe9..e946247 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -835,7 +835,7 @@ SmallBuffer typeConvert(DataType type, std::string_view val)
         case DataType::HELICS_DOUBLE:
             return ValueConverter<double>::convert(getDoubleFromString(val));
         case DataType::HELICS_INT:
-            return ValueConverter<int64_t>::convert(static_cast<int64_t>(getDoubleFromString(val)));
+            return ValueConverter<int64_t>::convert(getIntFromString(val));
         case DataType::HELICS_TIME:
             return ValueConverter<int64_t>::convert(
                 Time(getDoubleFromString(val)).getBaseTimeCode());
-- 
2.43.0


From e150a98c64d4145c59ebae1e26b472a666dbc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 20/71] fix: named points can be read as time

---
 src/helics/application_api/helicsTypes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index e946247..b3d78f3 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -1085,8 +1085,9 @@ SmallBuffer typeConvert(DataType type, std::string_view str, double val)
         case DataType::HELICS_DOUBLE:
             return ValueConverter<double>::convert(val);
         case DataType::HELICS_INT:
-        case DataType::HELICS_TIME:
             return ValueConverter<int64_t>::convert(static_cast<int64_t>(val));
+        case DataType::HELICS_TIME:
+            return ValueConverter<int64_t>::convert(Time(val).getBaseTimeCode());
         case DataType::HELICS_COMPLEX:
             return ValueConverter<std::complex<double>>::convert(std::complex<double>(val, 0.0));
         case DataType::HELICS_BOOL:
-- 
2.43.0


From 96e3f3019865c1fa2d9f3bb153ed42e38c21ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 21/71] fix: ordering of named points

---
 src/helics/application_api/helicsTypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.hpp b/src/helics/application_api/helicsTypes.hpp
index 5d3ebc9..7c10873 100644
--- a/src/helics/application_api/helicsTypes.hpp
+++ b/src/helics/application_api/helicsTypes.hpp
@@ -132,14 +132,14 @@ class NamedPoint {
     */
     bool operator<(const NamedPoint& np) const
     {
-        return (name == np.name) ? (name < np.name) : (value < np.value);
+        return (name == np.name) ? (value < np.value) : (name < np.name);
     }
     /** greater than operator
     @details checks by name order, then value order
     */
     bool operator>(const NamedPoint& np) const
     {
-        return (name == np.name) ? (name > np.name) : (value > np.value);
+        return (name == np.name) ? (value > np.value) : (name > np.name);
     }
 };
 
-- 
2.43.0


From 1f2e4fa89c55bf57fd563dfe5b21b2d36566a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 22/71] fix: no overflow for the smallest integer in named
 point conversion

---
 src/helics/application_api/helicsTypes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index b3d78f3..3598af8 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -798,8 +798,8 @@ SmallBuffer typeConvert(DataType type, int64_t val)
         case DataType::HELICS_CHAR:
             return ValueConverter<std::string_view>::convert(helicsIntString(val));
         case DataType::HELICS_NAMED_POINT:
-            if (static_cast<uint64_t>(std::abs(val)) >
-                (2ULL << 51U))  // this checks whether the actual value will fit in a double
+            // this checks whether the actual value will fit in a double
+            if (val > (2LL << 51U) || val < -(2LL << 51U))
             {
                 return ValueConverter<NamedPoint>::convert(
                     NamedPoint{helicsIntString(val), std::nan("0")});
-- 
2.43.0


From 63c6bf7580a2682858d533090328528d9cb0c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 23/71] fix: empty values published to ANY and JSON
 publications

---
 src/helics/application_api/helicsTypes.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 3598af8..d5123d1 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -713,6 +713,20 @@ bool helicsBoolValue(std::string_view val)
 SmallBuffer emptyBlock(DataType outputType, DataType inputType = DataType::HELICS_ANY)
 {
     switch (outputType) {
+        case DataType::HELICS_ANY:
+            // no conversion so the result is an empty value of the input type
+            return (inputType != DataType::HELICS_ANY) ? emptyBlock(inputType, inputType) :
+                                                         ValueConverter<double>::convert(0.0);
+        case DataType::HELICS_JSON: {
+            nlohmann::json json;
+            json["type"] = typeNameStringRef(inputType);
+            if (inputType == DataType::HELICS_STRING) {
+                json["value"] = std::string();
+            } else {
+                json["value"] = nlohmann::json::array();
+            }
+            return fileops::generateJsonString(json);
+        }
         case DataType::HELICS_DOUBLE:
         default:
             return ValueConverter<double>::convert(0.0);
@@ -828,7 +842,7 @@ SmallBuffer typeConvert(DataType type, int64_t val)
 SmallBuffer typeConvert(DataType type, std::string_view val)
 {
     if (val.empty()) {
-        return emptyBlock(type);
+        return emptyBlock(type, DataType::HELICS_STRING);
     }
 
     switch (type) {
-- 
2.43.0


From 155876098de01f52fbe77bd7d7307d7fab296947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 24/71] fix: keep the exponent of the imaginary part when
 parsing a complex number

---
 src/helics/application_api/helicsTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index d5123d1..e5226aa 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -337,7 +337,7 @@ std::complex<double> helicsGetComplex(std::string_view val)
         if (match.size() == 9) {
             real = numConv<double>(match[1]);
 
-            imag = numConv<double>(match[6]);
+            imag = numConv<double>(match[6].str() + match[8].str());
 
             if (*match[5].first == '-') {
                 imag = -imag;
-- 
2.43.0


From 874fd870b5c8d70ca8d2525b3775ece847c95e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 25/71] fix: integers beyond the exact range of a double keep
 their value as named point

---
 .../application_api/helicsPrimaryTypes.cpp      | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index f2af6fe..6eaedbd 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -345,6 +345,16 @@ void valueExtract(const defV& data, std::vector<std::complex<double>>& val)
     }
 }
 
+/** generate a named point from an integer, the string is used if the integer does not fit in a
+ * double*/
+static NamedPoint integerPoint(int64_t val)
+{
+    if (val > (2LL << 51U) || val < -(2LL << 51U)) {
+        return {helicsIntString(val), std::nan("0")};
+    }
+    return {"value", static_cast<double>(val)};
+}
+
 void valueExtract(const defV& data, NamedPoint& val)
 {
     switch (data.index()) {
@@ -353,8 +363,7 @@ void valueExtract(const defV& data, NamedPoint& val)
             val.value = std::get<double>(data);
             break;
         case int_loc:  // int64_t
-            val.name = "value";
-            val.value = static_cast<double>(std::get<int64_t>(data));
+            val = integerPoint(std::get<int64_t>(data));
             break;
         case string_loc:  // string
         default:
@@ -853,9 +862,7 @@ void valueExtract(const data_view& data, DataType baseType, NamedPoint& val)
             break;
         }
         case DataType::HELICS_INT: {
-            auto value = ValueConverter<int64_t>::interpret(data);
-            val.name = "value";
-            val.value = static_cast<double>(value);
+            val = integerPoint(ValueConverter<int64_t>::interpret(data));
             break;
         }
         case DataType::HELICS_TIME: {
-- 
2.43.0


From a8936ee2cb563a757b9c71aae3c1bd4a75728648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 26/71] fix: text which is no number reads as invalid complex
 vector instead of throwing

---
 src/helics/application_api/helicsTypes.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index e5226aa..221e8e0 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -618,13 +618,21 @@ void helicsGetComplexVector(std::string_view val, std::vector<std::complex<doubl
             data.resize(0);
             data.push_back(cval);
         } else {
-            auto json = fileops::loadJsonStr(val);
+            data.resize(0);
+            nlohmann::json json;
+            try {
+                json = fileops::loadJsonStr(val);
+            }
+            catch (const std::exception&) {
+                // not an array so treat it as a single value
+                data.push_back(helicsGetComplex(val));
+                return;
+            }
             int cnt{0};
             switch (json.type()) {
                 case nlohmann::json::value_t::number_float:
                 case nlohmann::json::value_t::number_integer:
                 case nlohmann::json::value_t::number_unsigned:
-                    data.resize(0);
                     data.emplace_back(json.get<double>(), 0.0);
                     break;
                 case nlohmann::json::value_t::array:
@@ -640,7 +648,7 @@ void helicsGetComplexVector(std::string_view val, std::vector<std::complex<doubl
                         } else if (aval.is_array()) {
                             cnt = 0;
                             if (aval.size() >= 2) {
-                                if (aval[0].is_number()) {
+                                if (aval[0].is_number() && aval[1].is_number()) {
                                     data.emplace_back(aval[0].get<double>(), aval[1].get<double>());
                                 }
                             } else if (aval.size() == 1) {
-- 
2.43.0


From 958caf2729020d4322fcbf76add46114e6e38275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 27/71] fix: the first publication is never suppressed by a
 minimum change setting

---
 src/helics/application_api/Publications.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/Publications.hpp b/src/helics/application_api/Publications.hpp
index db5a64f..ebfac86 100644
--- a/src/helics/application_api/Publications.hpp
+++ b/src/helics/application_api/Publications.hpp
@@ -36,7 +36,7 @@ class HELICS_CXX_EXPORT Publication: public Interface {
   private:
     size_t customTypeHash{
         0};  //!< a hash code for the custom type = 0; //!< store a hash code for a custom type
-    mutable defV prevValue;  //!< the previous value of the publication
+    mutable defV prevValue{invalidDouble};  //!< the previous value of the publication
     std::string pubUnits;  //!< the defined units of the publication
     std::shared_ptr<units::precise_unit>
         pubUnitType;  //!< a unit representation of the publication unit Type;
-- 
2.43.0


From aa405c96dc0f333efe0f44b2df27738886a57a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 28/71] fix: getStringSize must not use the type of the
 previous value for an unread update

---
 src/helics/application_api/Inputs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/Inputs.cpp b/src/helics/application_api/Inputs.cpp
index ee2b46a..1fdbe6b 100644
--- a/src/helics/application_api/Inputs.cpp
+++ b/src/helics/application_api/Inputs.cpp
@@ -667,7 +667,8 @@ size_t Input::getStringSize()
 {
     isUpdated();
     if (allowDirectFederateUpdate()) {
-        if (lastValue.index() == named_point_loc) {
+        // the last value may be of a different type than the update which has not been read yet
+        if (lastValue.index() == named_point_loc && injectionType == DataType::HELICS_NAMED_POINT) {
             const auto& np = getValueRef<NamedPoint>();
             if (np.name.empty()) {
                 return 30;  //"#invalid" string +20
-- 
2.43.0


From 2ac13112ddf583ba73c3f28833dbf819ac70e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 29/71] fix: truth of numbers in boolean operations over
 several inputs

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index 6eaedbd..c30cba8 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -1214,6 +1214,12 @@ void valueConvert(defV& val, DataType newType)
             val = value.getBaseTimeCode();
             break;
         }
+        case DataType::HELICS_BOOL: {
+            bool value{false};
+            valueExtract(val, value);
+            val = value ? "1" : "0";
+            break;
+        }
         case DataType::HELICS_JSON:
             break;
         case DataType::HELICS_STRING:
-- 
2.43.0


From c3e25ee091b0ef4c7a98bdfa06bf91b104569f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:45 +0000
Subject: [PATCH 30/71] fix: inputs with sources of several types decode each
 value by its own type

---
 .../application_api/HelicsPrimaryTypes.hpp    |  3 +-
 .../application_api/helicsPrimaryTypes.cpp    | 30 +++++++++++--------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/helics/application_api/HelicsPrimaryTypes.hpp b/src/helics/application_api/HelicsPrimaryTypes.hpp
index 656b5dd..73bd4f3 100644
--- a/src/helics/application_api/HelicsPrimaryTypes.hpp
+++ b/src/helics/application_api/HelicsPrimaryTypes.hpp
@@ -242,7 +242,8 @@ std::enable_if_t<std::is_arithmetic<X>::value && (!std::is_same<X, char>::value)
     valueExtract(const data_view& data, DataType baseType, X& val)
 {
     switch (baseType) {
-        case DataType::HELICS_ANY: {
+        case DataType::HELICS_ANY:
+        case DataType::HELICS_MULTI: {
             defV val_dv;
             valueExtract(data, baseType, val_dv);
             valueExtract(val_dv, val);
diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index c30cba8..2cad14c 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -605,7 +605,8 @@ defV readJsonValue(const data_view& data)
 void valueExtract(const data_view& data, DataType baseType, std::string& val)
 {
     switch (baseType) {
-        case DataType::HELICS_ANY: {
+        case DataType::HELICS_ANY:
+        case DataType::HELICS_MULTI: {
             defV val_dv;
             valueExtract(data, baseType, val_dv);
             valueExtract(val_dv, val);
@@ -629,7 +630,6 @@ void valueExtract(const data_view& data, DataType baseType, std::string& val)
             break;
         case DataType::HELICS_UNKNOWN:
         case DataType::HELICS_CUSTOM:
-        case DataType::HELICS_MULTI:
             val = data.string();
             break;
         case DataType::HELICS_NAMED_POINT: {
@@ -657,7 +657,8 @@ void valueExtract(const data_view& data, DataType baseType, std::vector<double>&
 {
     val.resize(0);
     switch (baseType) {
-        case DataType::HELICS_ANY: {
+        case DataType::HELICS_ANY:
+        case DataType::HELICS_MULTI: {
             defV val_dv;
             valueExtract(data, baseType, val_dv);
             valueExtract(val_dv, val);
@@ -724,7 +725,8 @@ void valueExtract(const data_view& data, DataType baseType, std::vector<std::com
 {
     val.resize(0);
     switch (baseType) {
-        case DataType::HELICS_ANY: {
+        case DataType::HELICS_ANY:
+        case DataType::HELICS_MULTI: {
             defV val_dv;
             valueExtract(data, baseType, val_dv);
             valueExtract(val_dv, val);
@@ -786,7 +788,8 @@ void valueExtract(const data_view& data, DataType baseType, std::vector<std::com
 void valueExtract(const data_view& data, DataType baseType, std::complex<double>& val)
 {
     switch (baseType) {
-        case DataType::HELICS_ANY: {
+        case DataType::HELICS_ANY:
+        case DataType::HELICS_MULTI: {
             defV val_dv;
             valueExtract(data, baseType, val_dv);
             valueExtract(val_dv, val);
@@ -849,7 +852,8 @@ void valueExtract(const data_view& data, DataType baseType, std::complex<double>
 void valueExtract(const data_view& data, DataType baseType, NamedPoint& val)
 {
     switch (baseType) {
-        case DataType::HELICS_ANY: {
+        case DataType::HELICS_ANY:
+        case DataType::HELICS_MULTI: {
             defV val_dv;
             valueExtract(data, baseType, val_dv);
             valueExtract(val_dv, val);
@@ -923,7 +927,8 @@ void valueExtract(const data_view& data, DataType baseType, NamedPoint& val)
 void valueExtract(const data_view& data, DataType baseType, Time& val)
 {
     switch (baseType) {
-        case DataType::HELICS_ANY: {
+        case DataType::HELICS_ANY:
+        case DataType::HELICS_MULTI: {
             defV val_dv;
             valueExtract(data, baseType, val_dv);
             valueExtract(val_dv, val);
@@ -995,7 +1000,8 @@ void valueExtract(const data_view& data, DataType baseType, Time& val)
 void valueExtract(const data_view& data, DataType baseType, bool& val)
 {
     switch (baseType) {
-        case DataType::HELICS_ANY: {
+        case DataType::HELICS_ANY:
+        case DataType::HELICS_MULTI: {
             defV val_dv;
             valueExtract(data, baseType, val_dv);
             valueExtract(val_dv, val);
@@ -1059,7 +1065,8 @@ void valueExtract(const data_view& data, DataType baseType, bool& val)
 void valueExtract(const data_view& data, DataType baseType, char& val)
 {
     switch (baseType) {
-        case DataType::HELICS_ANY: {
+        case DataType::HELICS_ANY:
+        case DataType::HELICS_MULTI: {
             defV val_dv;
             valueExtract(data, baseType, val_dv);
             valueExtract(val_dv, val);
@@ -1136,14 +1143,14 @@ void valueExtract(const data_view& data, DataType baseType, char& val)
             valueExtract(readJsonValue(data), val);
             break;
         case DataType::HELICS_CUSTOM:
-        case DataType::HELICS_MULTI:
             throw(std::invalid_argument("unrecognized helics type"));
     }
 }
 
 void valueExtract(const data_view& data, DataType baseType, defV& val)
 {
-    if (baseType == DataType::HELICS_ANY || baseType == DataType::HELICS_UNKNOWN) {
+    if (baseType == DataType::HELICS_ANY || baseType == DataType::HELICS_UNKNOWN ||
+        baseType == DataType::HELICS_MULTI) {
         baseType = detail::detectType(data.bytes());
     }
     switch (baseType) {
@@ -1162,7 +1169,6 @@ void valueExtract(const data_view& data, DataType baseType, defV& val)
             break;
         case DataType::HELICS_UNKNOWN:
         case DataType::HELICS_CUSTOM:
-        case DataType::HELICS_MULTI:
             val = data.string();
             break;
         case DataType::HELICS_VECTOR:
-- 
2.43.0


From 7bd8bae96a65449e83e5a163150e34930b1cc396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 31/71] fix: clearing a message keeps its place in the message
 holder

---
 src/helics/core/core-data.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/helics/core/core-data.hpp b/src/helics/core/core-data.hpp
index 7516cdc..add359d 100644
--- a/src/helics/core/core-data.hpp
+++ b/src/helics/core/core-data.hpp
@@ -73,7 +73,6 @@ class Message {
         source.clear();
         original_source.clear();
         original_dest.clear();
-        counter = 0;
     }
 };
 
-- 
2.43.0


From 258beac6bebf18aa2eb76a4a16eb6846334779b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 32/71] fix: looking up a missing filter or translator without
 an error object

---
 src/helics/shared_api_library/MessageFiltersExport.cpp | 8 +++-----
 src/helics/shared_api_library/TranslatorExport.cpp     | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/helics/shared_api_library/MessageFiltersExport.cpp b/src/helics/shared_api_library/MessageFiltersExport.cpp
index 2d5c129..e426877 100644
--- a/src/helics/shared_api_library/MessageFiltersExport.cpp
+++ b/src/helics/shared_api_library/MessageFiltersExport.cpp
@@ -238,8 +238,7 @@ HelicsFilter helicsFederateGetFilter(HelicsFederate fed, const char* name, Helic
     try {
         auto& filt = fedObj->getFilter(name);
         if (!filt.isValid()) {
-            err->error_code = HELICS_ERROR_INVALID_ARGUMENT;
-            err->message = invalidFiltName;
+            assignError(err, HELICS_ERROR_INVALID_ARGUMENT, invalidFiltName);
             return nullptr;
         }
         return findOrCreateFederateFilter(fed, filt);
@@ -270,8 +269,7 @@ HelicsFilter helicsFederateGetFilterByIndex(HelicsFederate fed, int index, Helic
     try {
         auto& filt = fedObj->getFilter(index);
         if (!filt.isValid()) {
-            err->error_code = HELICS_ERROR_INVALID_ARGUMENT;
-            err->message = invalidFiltIndex;
+            assignError(err, HELICS_ERROR_INVALID_ARGUMENT, invalidFiltIndex);
             return nullptr;
         }
         return findOrCreateFederateFilter(fed, filt);
@@ -351,7 +349,7 @@ void helicsFilterSetString(HelicsFilter filt, const char* prop, const char* val,
     }
     CHECK_NULL_STRING(prop, void());
     try {
-        filter->setString(prop, val);
+        filter->setString(prop, AS_STRING_VIEW(val));
     }
     catch (...) {
         helicsErrorHandler(err);
diff --git a/src/helics/shared_api_library/TranslatorExport.cpp b/src/helics/shared_api_library/TranslatorExport.cpp
index 8402df0..bef9924 100644
--- a/src/helics/shared_api_library/TranslatorExport.cpp
+++ b/src/helics/shared_api_library/TranslatorExport.cpp
@@ -183,8 +183,7 @@ HelicsTranslator helicsFederateGetTranslator(HelicsFederate fed, const char* nam
     try {
         auto& id = fedObj->getTranslator(name);
         if (!id.isValid()) {
-            err->error_code = HELICS_ERROR_INVALID_ARGUMENT;
-            err->message = invalidTransName;
+            assignError(err, HELICS_ERROR_INVALID_ARGUMENT, invalidTransName);
             return nullptr;
         }
         return findOrCreateFederateTranslator(fed, id);
@@ -215,8 +214,7 @@ HelicsTranslator helicsFederateGetTranslatorByIndex(HelicsFederate fed, int inde
     try {
         auto& id = fedObj->getTranslator(index);
         if (!id.isValid()) {
-            err->error_code = HELICS_ERROR_INVALID_ARGUMENT;
-            err->message = invalidTransIndex;
+            assignError(err, HELICS_ERROR_INVALID_ARGUMENT, invalidTransIndex);
             return nullptr;
         }
         return findOrCreateFederateTranslator(fed, id);
@@ -281,7 +279,7 @@ void helicsTranslatorSetString(HelicsTranslator trans, const char* prop, const c
     }
     CHECK_NULL_STRING(prop, void());
     try {
-        translator->setString(prop, val);
+        translator->setString(prop, AS_STRING_VIEW(val));
     }
     catch (...) {
         helicsErrorHandler(err);
-- 
2.43.0


From c3ba44770d8abb7173ba8dd0a3f5ee0a54145fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 33/71] fix: null texts in C API calls report an error

---
 src/helics/shared_api_library/FederateExport.cpp     | 12 ++++++++++++
 .../shared_api_library/MessageFederateExport.cpp     |  5 +++++
 .../shared_api_library/ValueFederateExport.cpp       |  1 +
 src/helics/shared_api_library/helicsData.cpp         |  2 +-
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/helics/shared_api_library/FederateExport.cpp b/src/helics/shared_api_library/FederateExport.cpp
index ee7a99d..55a3e03 100644
--- a/src/helics/shared_api_library/FederateExport.cpp
+++ b/src/helics/shared_api_library/FederateExport.cpp
@@ -687,6 +687,12 @@ void helicsFederateProtect(const char* fedName, HelicsError* err)
 static constexpr const char* unrecognizedFederate = "Federate was not found";
 void helicsFederateUnProtect(const char* fedName, HelicsError* err)
 {
+    if (fedName == nullptr) {
+        if ((err != nullptr) && (err->error_code == 0)) {
+            assignError(err, HELICS_ERROR_INVALID_ARGUMENT, gHelicsNullStringArgument);
+        }
+        return;
+    }
     const bool result = getMasterHolder()->removeFed(fedName, fedPreservationIdentifier);
     if (!result) {
         if (!(getMasterHolder()->findFed(fedName) != nullptr)) {
@@ -702,6 +708,12 @@ void helicsFederateUnProtect(const char* fedName, HelicsError* err)
 
 HelicsBool helicsFederateIsProtected(const char* fedName, HelicsError* err)
 {
+    if (fedName == nullptr) {
+        if ((err != nullptr) && (err->error_code == 0)) {
+            assignError(err, HELICS_ERROR_INVALID_ARGUMENT, gHelicsNullStringArgument);
+        }
+        return HELICS_FALSE;
+    }
     auto* fed = getMasterHolder()->findFed(fedName, fedPreservationIdentifier);
     if (fed != nullptr) {
         return HELICS_TRUE;
diff --git a/src/helics/shared_api_library/MessageFederateExport.cpp b/src/helics/shared_api_library/MessageFederateExport.cpp
index ef28e88..043e387 100644
--- a/src/helics/shared_api_library/MessageFederateExport.cpp
+++ b/src/helics/shared_api_library/MessageFederateExport.cpp
@@ -790,6 +790,7 @@ void helicsEndpointAddSourceTarget(HelicsEndpoint end, const char* targetEndpoin
     if (endObj == nullptr) {
         return;
     }
+    CHECK_NULL_STRING(targetEndpoint, void());
     try {
         endObj->endPtr->addSourceTarget(targetEndpoint);
     }
@@ -806,6 +807,7 @@ void helicsEndpointAddDestinationTarget(HelicsEndpoint end, const char* targetEn
     if (endObj == nullptr) {
         return;
     }
+    CHECK_NULL_STRING(targetEndpoint, void());
     try {
         endObj->endPtr->addDestinationTarget(targetEndpoint);
     }
@@ -822,6 +824,7 @@ void helicsEndpointRemoveTarget(HelicsEndpoint end, const char* targetEndpoint,
     if (endObj == nullptr) {
         return;
     }
+    CHECK_NULL_STRING(targetEndpoint, void());
     try {
         endObj->endPtr->removeTarget(targetEndpoint);
     }
@@ -838,6 +841,7 @@ void helicsEndpointAddSourceFilter(HelicsEndpoint end, const char* filterName, H
     if (endObj == nullptr) {
         return;
     }
+    CHECK_NULL_STRING(filterName, void());
     try {
         endObj->endPtr->addSourceFilter(filterName);
     }
@@ -854,6 +858,7 @@ void helicsEndpointAddDestinationFilter(HelicsEndpoint end, const char* filterNa
     if (endObj == nullptr) {
         return;
     }
+    CHECK_NULL_STRING(filterName, void());
     try {
         endObj->endPtr->addDestinationFilter(filterName);
     }
diff --git a/src/helics/shared_api_library/ValueFederateExport.cpp b/src/helics/shared_api_library/ValueFederateExport.cpp
index 356e23d..07c831a 100644
--- a/src/helics/shared_api_library/ValueFederateExport.cpp
+++ b/src/helics/shared_api_library/ValueFederateExport.cpp
@@ -386,6 +386,7 @@ HelicsPublication helicsFederateGetPublication(HelicsFederate fed, const char* k
     if (!fedObj) {
         return nullptr;
     }
+    CHECK_NULL_STRING(key, nullptr);
     try {
         auto& pub = fedObj->getPublication(key);
         if (!pub.isValid()) {
diff --git a/src/helics/shared_api_library/helicsData.cpp b/src/helics/shared_api_library/helicsData.cpp
index 01dbdb5..97d7fad 100644
--- a/src/helics/shared_api_library/helicsData.cpp
+++ b/src/helics/shared_api_library/helicsData.cpp
@@ -151,7 +151,7 @@ HELICS_EXPORT int32_t helicsDataBufferFillFromString(HelicsDataBuffer data, cons
         return 0;
     }
     try {
-        helics::ValueConverter<std::string_view>::convert(std::string_view(str), *ptr);
+        helics::ValueConverter<std::string_view>::convert(AS_STRING_VIEW(str), *ptr);
         return static_cast<int32_t>(ptr->size());
     }
     catch (const std::bad_alloc&) {
-- 
2.43.0


From d647da00e28b4c65e238aacda43c4559bc6143d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 34/71] fix: a target registered after the link of an unnamed
 endpoint crashed the broker

---
 src/helics/core/CoreBroker.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 4b81e2d..e568e4d 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3158,7 +3158,14 @@ void CoreBroker::findAndNotifyEndpointTargets(BasicHandleInfo& handleInfo, const
 {
     auto uHandles = unknownHandles.checkForEndpoints(key);
     for (const auto& target : uHandles) {
+        // endpoints without a name are not registered with the broker
+        const BasicHandleInfo unnamed(target.first.fed_id,
+                                      target.first.handle,
+                                      InterfaceType::ENDPOINT);
         const auto* iface = handles.findHandle(target.first);
+        if (iface == nullptr) {
+            iface = &unnamed;
+        }
         auto destFlags = target.second;
         if (iface->handleType != InterfaceType::FILTER) {
             destFlags = toggle_flag(destFlags, destination_target);
@@ -3192,7 +3199,14 @@ void CoreBroker::findAndNotifyEndpointTargets(BasicHandleInfo& handleInfo, const
     if (getBrokerState() == BrokerState::OPERATING) {
         uHandles = unknownHandles.checkForReconnectionEndpoints(key);
         for (const auto& target : uHandles) {
+            // endpoints without a name are not registered with the broker
+            const BasicHandleInfo unnamed(target.first.fed_id,
+                                          target.first.handle,
+                                          InterfaceType::ENDPOINT);
             const auto* iface = handles.findHandle(target.first);
+            if (iface == nullptr) {
+                iface = &unnamed;
+            }
             auto destFlags = target.second;
             if (iface->handleType != InterfaceType::FILTER) {
                 destFlags = toggle_flag(destFlags, destination_target);
-- 
2.43.0


From 5afa02903403605919eb8e84d714c8ad4beff3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 35/71] fix: an alias or name colliding with another alias
 ended the process

---
 src/helics/core/CommonCore.cpp | 36 ++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 2c7f2d7..ac0810b 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -3779,12 +3779,23 @@ void CommonCore::registerInterface(ActionMessage& command)
     if (command.dest_id == parent_broker_id) {
         auto handle = command.source_handle;
         auto& loopHandleRef = loopHandles;
-        handles.read([handle, &loopHandleRef](auto& hand) {
-            auto ifc = hand.getHandleInfo(handle.baseValue());
-            if (ifc != nullptr) {
-                loopHandleRef.addHandleAtIndex(*ifc, handle.baseValue());
-            }
-        });
+        try {
+            handles.read([handle, &loopHandleRef](auto& hand) {
+                auto ifc = hand.getHandleInfo(handle.baseValue());
+                if (ifc != nullptr) {
+                    loopHandleRef.addHandleAtIndex(*ifc, handle.baseValue());
+                }
+            });
+        }
+        catch (const std::runtime_error& rtError) {
+            // the name is already in use as an alias
+            ActionMessage eret(CMD_LOCAL_ERROR, global_broker_id_local, command.source_id);
+            eret.dest_handle = command.source_handle;
+            eret.messageID = defs::Errors::REGISTRATION_FAILURE;
+            eret.payload = fmt::format("{} ({})", rtError.what(), command.name());
+            routeMessage(std::move(eret));
+            return;
+        }
 
         switch (command.action()) {
             case CMD_REG_INPUT:
@@ -4512,10 +4523,15 @@ void CommonCore::processLinkingCommand(ActionMessage& cmd)
                 }
             }
         } break;
-        case CMD_ADD_ALIAS: {
-            loopHandles.addAlias(cmd.payload.to_string(), cmd.getString(targetStringLoc));
-            routeMessage(std::move(cmd), parent_broker_id);
-        } break;
+        case CMD_ADD_ALIAS:
+            try {
+                loopHandles.addAlias(cmd.payload.to_string(), cmd.getString(targetStringLoc));
+                routeMessage(std::move(cmd), parent_broker_id);
+            }
+            catch (const std::runtime_error& rtError) {
+                LOG_ERROR(global_broker_id_local, getIdentifier(), rtError.what());
+            }
+            break;
         default:
             break;
     }
-- 
2.43.0


From 298f9307362197977f4ce8867458684b5be89324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 36/71] fix: a federate waiting to disconnect hung when its
 core stopped first

---
 src/helics/core/CommonCore.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index ac0810b..11c349a 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4884,6 +4884,18 @@ void CommonCore::processDisconnectCommand(ActionMessage& cmd)
                     sendDisconnect();
                 }
             }
+            {
+                // no acknowledgement can be processed after this so release any federate still
+                // waiting for one
+                ActionMessage bye(CMD_DISCONNECT_FED_ACK);
+                bye.source_id = parent_broker_id;
+                for (auto fed : loopFederates) {
+                    if (fed->getState() != FederateStates::FINISHED) {
+                        bye.dest_id = fed->global_id.load();
+                        fed->addAction(bye);
+                    }
+                }
+            }
             if (filterThread.load() == std::this_thread::get_id()) {
                 if (filterFed != nullptr) {
                     delete filterFed;
-- 
2.43.0


From 6e3abd829578d2a083773676b19a97a1aed962e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 37/71] fix: aliases of aliases used freed memory

---
 src/helics/core/HandleManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/HandleManager.cpp b/src/helics/core/HandleManager.cpp
index 256f768..3d3bb8e 100644
--- a/src/helics/core/HandleManager.cpp
+++ b/src/helics/core/HandleManager.cpp
@@ -531,7 +531,9 @@ bool HandleManager::addAliasName(std::string_view interfaceName, std::string_vie
         if (aliasIterator == aliasVector.end() || *aliasIterator != alias) {
             aliasVector.insert(aliasIterator, alias);
             cascading = true;
-            for (auto& otherAlias : aliasVector) {
+            // the calls below can extend this vector so go through a copy
+            const auto otherAliases = aliasVector;
+            for (const auto& otherAlias : otherAliases) {
                 addAliasName(otherAlias, alias);
             }
             addAliasName(alias, interfaceName);
-- 
2.43.0


From e04a3322c83a41e1e863cba83ca78f3b2aa7252b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 38/71] fix: messages forwarded to a remote logger lost their
 log level

---
 src/helics/core/LogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/LogManager.cpp b/src/helics/core/LogManager.cpp
index b13ba43..87a9f91 100644
--- a/src/helics/core/LogManager.cpp
+++ b/src/helics/core/LogManager.cpp
@@ -112,6 +112,7 @@ bool LogManager::sendToLogger(int logLevel,
                 if (mTransmit) {
                     ActionMessage remMess(CMD_REMOTE_LOG);
                     remMess.dest_id = rl.first;
+                    remMess.messageID = logLevel;
                     remMess.setString(0, header);
                     remMess.payload = message;
                     mTransmit(std::move(remMess));
-- 
2.43.0


From b27eb19d45884cf494c25cb6c2231ed2c504d464 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 39/71] fix: a log buffer resized while messages arrive grew
 without bound

---
 src/helics/common/LogBuffer.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/helics/common/LogBuffer.cpp b/src/helics/common/LogBuffer.cpp
index ac4105b..9f098c2 100644
--- a/src/helics/common/LogBuffer.cpp
+++ b/src/helics/common/LogBuffer.cpp
@@ -16,13 +16,10 @@ namespace helics {
 
 void LogBuffer::resize(std::size_t newSize)
 {
-    if (newSize < mMaxSize) {
-        auto block = mBuffer.lock();
-        while (block->size() > newSize) {
-            block->pop_front();
-        }
+    auto block = mBuffer.lock();
+    while (block->size() > newSize) {
+        block->pop_front();
     }
-
     mMaxSize = newSize;
 }
 
@@ -43,7 +40,11 @@ void LogBuffer::push(int logLevel, std::string_view header, std::string_view mes
         return;
     }
     auto block = mBuffer.lock();
-    if (block->size() == mMaxSize.load()) {
+    const std::size_t maxSize = mMaxSize.load();
+    if (maxSize == 0) {
+        return;
+    }
+    while (block->size() >= maxSize) {
         block->pop_front();
     }
     block->emplace_back(logLevel, header, message);
-- 
2.43.0


From 1fcd94c24a430ef322358cd73e2d1ca781cf6142 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:05:08 +0000
Subject: [PATCH 40/71] fix: changing the level of a remote logger had no
 effect

---
 src/helics/core/LogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/LogManager.cpp b/src/helics/core/LogManager.cpp
index 87a9f91..0837b75 100644
--- a/src/helics/core/LogManager.cpp
+++ b/src/helics/core/LogManager.cpp
@@ -262,6 +262,7 @@ void LogManager::updateRemote(GlobalFederateId destination, int level)
     for (auto& rl : remoteTargets) {
         if (rl.first == destination) {
             rl.second = level;
+            updateMaxLogLevel();
             return;
         }
     }
-- 
2.43.0


From 235f310083d906ef899f61999b06c666f227be56 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:05:08 +0000
Subject: [PATCH 41/71] fix: changing the log file ended the process

---
 src/helics/core/LogManager.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/helics/core/LogManager.cpp b/src/helics/core/LogManager.cpp
index 0837b75..8281e29 100644
--- a/src/helics/core/LogManager.cpp
+++ b/src/helics/core/LogManager.cpp
@@ -245,12 +245,20 @@ void LogManager::setLoggingFile(std::string_view lfile, const std::string& ident
 {
     if (logFile.empty() || lfile != logFile) {
         logFile = lfile;
+        if (fileLogger) {
+            fileLogger->flush();
+            spdlog::drop(fileLogger->name());
+            fileLogger.reset();
+        }
         if (!logFile.empty()) {
-            fileLogger = spdlog::basic_logger_mt(identifier, logFile);
-        } else {
-            if (fileLogger) {
-                spdlog::drop(logIdentifier);
-                fileLogger.reset();
+            try {
+                fileLogger = spdlog::basic_logger_mt(identifier, logFile);
+                fileLogger->flush_on(spdlog::level::info);
+                fileLogger->set_level(spdlog::level::trace);
+            }
+            catch (const spdlog::spdlog_ex& ex) {
+                std::cerr << "Unable to open the log file for " << identifier << " : " << ex.what()
+                          << std::endl;
             }
         }
     }
-- 
2.43.0


From 89a56bfb3f5d0ab6abe711a7959759a81a586225 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 42/71] fix: a log command without text ended the process

---
 src/helics/core/BrokerBase.cpp    | 2 +-
 src/helics/core/FederateState.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/BrokerBase.cpp b/src/helics/core/BrokerBase.cpp
index a7b52a3..03ac948 100644
--- a/src/helics/core/BrokerBase.cpp
+++ b/src/helics/core/BrokerBase.cpp
@@ -697,7 +697,7 @@ std::pair<bool, std::vector<std::string_view>>
     } else if (res[0] == "log") {
         LOG_SUMMARY(global_broker_id_local,
                     command.getString(sourceStringLoc),
-                    command.payload.to_string().substr(4));
+                    cmd.substr((std::min)(cmd.size(), static_cast<std::size_t>(4))));
     } else if (res[0] == "logbuffer") {
         if (res.size() > 1) {
             if (res[1] == "stop") {
diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 5ddac6c..fc19866 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2644,7 +2644,7 @@ void FederateState::sendCommand(ActionMessage& command)
     } else if (res[0] == "log") {
         logMessage(HELICS_LOG_LEVEL_SUMMARY,
                    command.getString(sourceStringLoc),
-                   command.payload.to_string().substr(4));
+                   cmd.substr((std::min)(cmd.size(), static_cast<std::size_t>(4))));
     } else if ((res[0] == "set") && (res.size() > 2 && res[1] == "barrier")) {
         ActionMessage barrier(CMD_TIME_BARRIER);
         barrier.dest_id = global_id;
-- 
2.43.0


From f74e9ed51a9d879aa013736a094f736286c5f6bd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 43/71] fix: a comment in a command removed one character too
 many

---
 src/helics/core/BrokerBase.cpp    | 2 +-
 src/helics/core/FederateState.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/BrokerBase.cpp b/src/helics/core/BrokerBase.cpp
index 03ac948..e3d97f8 100644
--- a/src/helics/core/BrokerBase.cpp
+++ b/src/helics/core/BrokerBase.cpp
@@ -665,7 +665,7 @@ std::pair<bool, std::vector<std::string_view>>
     auto cmd = command.payload.to_string();
     auto commentLoc = cmd.find('#');
     if (commentLoc != std::string_view::npos) {
-        cmd = cmd.substr(0, commentLoc - 1);
+        cmd = cmd.substr(0, commentLoc);
     }
     gmlc::utilities::string_viewOps::trimString(cmd);
     auto res = gmlc::utilities::string_viewOps::splitlineQuotes(
diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index fc19866..01ced79 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2554,7 +2554,7 @@ void FederateState::sendCommand(ActionMessage& command)
     auto cmd = command.payload.to_string();
     auto commentLoc = cmd.find('#');
     if (commentLoc != std::string_view::npos) {
-        cmd = cmd.substr(0, commentLoc - 1);
+        cmd = cmd.substr(0, commentLoc);
     }
     gmlc::utilities::string_viewOps::trimString(cmd);
     auto res = gmlc::utilities::string_viewOps::splitlineQuotes(
-- 
2.43.0


From 293dd6ab197fcf8f214f495fe78a5b1614de199c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 44/71] fix: waitCommand returned a notify command after
 another one

---
 src/helics/core/FederateState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 01ced79..07cd5cd 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2686,7 +2686,7 @@ std::pair<std::string, std::string> FederateState::getCommand()
 std::pair<std::string, std::string> FederateState::waitCommand()
 {
     auto val = commandQueue.pop();
-    if (val.first == "notify") {
+    while (val.first == "notify") {
         if (mParent != nullptr) {
             mParent->sendCommand(val.second,
                                  "notify_response",
-- 
2.43.0


From 73214a991ac44dee0807c856c6ac964042fbc7a6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 45/71] fix: asynchronous queries used freed query strings

---
 src/helics/application_api/Federate.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/helics/application_api/Federate.cpp b/src/helics/application_api/Federate.cpp
index 4a8c80a..544b65f 100644
--- a/src/helics/application_api/Federate.cpp
+++ b/src/helics/application_api/Federate.cpp
@@ -1858,9 +1858,11 @@ QueryId Federate::queryAsync(std::string_view target,
     if (singleThreadFederate) {
         throw(helics::InvalidFunctionCall("No Async calls are allowed in single thread federates"));
     }
-    auto queryFut = std::async(std::launch::async, [this, target, queryStr, mode]() {
-        return coreObject->query(target, queryStr, mode);
-    });
+    auto queryFut = std::async(std::launch::async,
+                               [this,
+                                target = std::string(target),
+                                queryStr = std::string(queryStr),
+                                mode]() { return coreObject->query(target, queryStr, mode); });
     auto asyncInfo = asyncCallInfo->lock();
     int cnt = asyncInfo->queryCounter++;
 
@@ -1874,7 +1876,9 @@ QueryId Federate::queryAsync(std::string_view queryStr, HelicsSequencingModes mo
         throw(helics::InvalidFunctionCall("No Async calls are allowed in single thread federates"));
     }
     auto queryFut =
-        std::async(std::launch::async, [this, queryStr, mode]() { return query(queryStr, mode); });
+        std::async(std::launch::async, [this, queryStr = std::string(queryStr), mode]() {
+            return query(queryStr, mode);
+        });
     auto asyncInfo = asyncCallInfo->lock();
     int cnt = asyncInfo->queryCounter++;
 
-- 
2.43.0


From a4fd135d8b8c2308f034c76d833acd2fa2707fc9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 46/71] fix: queries including federate tags threw an exception

---
 src/helics/core/queryHelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/queryHelpers.cpp b/src/helics/core/queryHelpers.cpp
index bc8ae45..0bfba2e 100644
--- a/src/helics/core/queryHelpers.cpp
+++ b/src/helics/core/queryHelpers.cpp
@@ -37,7 +37,7 @@ void addFederateTags(nlohmann::json& v, const FederateState* fed)
         v["tags"] = nlohmann::json::array();
 
         for (size_t ii = 0; ii < fed->tagCount(); ++ii) {
-            nlohmann::json tagBlock = nlohmann::json::array();
+            nlohmann::json tagBlock = nlohmann::json::object();
             const auto& tg = fed->getTagByIndex(ii);
             tagBlock["name"] = tg.first;
             tagBlock["value"] = tg.second;
-- 
2.43.0


From 487f5d5525126fc3b5125e757e5bceeaad48aa1f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 47/71] fix: concurrent map queries to a core were answered
 only once

---
 src/helics/core/CommonCore.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 11c349a..b8abac8 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4323,7 +4323,8 @@ void CommonCore::processQueryResponse(const ActionMessage& message)
                 str = "{\"status\":true}";
             }
             for (int ii = 0; ii < static_cast<int>(requesters.size()) - 1; ++ii) {
-                if (requesters[ii].dest_id == global_broker_id_local) {
+                if (requesters[ii].dest_id == global_broker_id_local ||
+                    requesters[ii].dest_id == gDirectCoreId) {
                     activeQueries.setDelayedValue(requesters[ii].messageID, str);
                 } else {
                     requesters[ii].payload = str;
@@ -5388,14 +5389,16 @@ void CommonCore::checkInFlightQueriesForDisconnect()
         if (builder.clearComponents()) {
             auto str = builder.generate();
             for (int ii = 0; ii < static_cast<int>(requesters.size()) - 1; ++ii) {
-                if (requesters[ii].dest_id == global_broker_id_local) {
+                if (requesters[ii].dest_id == global_broker_id_local ||
+                    requesters[ii].dest_id == gDirectCoreId) {
                     activeQueries.setDelayedValue(requesters[ii].messageID, str);
                 } else {
                     requesters[ii].payload = str;
                     routeMessage(std::move(requesters[ii]));
                 }
             }
-            if (requesters.back().dest_id == global_broker_id_local) {
+            if (requesters.back().dest_id == global_broker_id_local ||
+                requesters.back().dest_id == gDirectCoreId) {
                 activeQueries.setDelayedValue(requesters.back().messageID, std::move(str));
             } else {
                 requesters.back().payload = std::move(str);
-- 
2.43.0


From adcba20359afc21815cf28b6a3ec357957c82a51 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 48/71] fix: a map query to a remote core returned #wait

---
 src/helics/core/CommonCore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index b8abac8..077ec2f 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5162,8 +5162,10 @@ void CommonCore::processQueryCommand(ActionMessage& cmd)
                 queryResp.counter = cmd.counter;
                 const std::string& target = cmd.getString(targetStringLoc);
                 if (target == getIdentifier()) {
-                    queryResp.source_id = global_broker_id_local;
-                    repStr = coreQuery(cmd.payload.to_string(), force_ordered);
+                    cmd.setAction(force_ordered ? CMD_BROKER_QUERY_ORDERED : CMD_BROKER_QUERY);
+                    cmd.dest_id = global_broker_id_local;
+                    processQueryCommand(cmd);
+                    break;
                 } else {
                     auto* fedptr = getFederateCore(target);
                     repStr = federateQuery(fedptr, cmd.payload.to_string(), force_ordered);
-- 
2.43.0


From 9444ae763d7ee8d2a0e08963083cfe1e32492947 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 49/71] fix: the state and time_monitor answers of a broker
 were not valid JSON

---
 src/helics/core/CoreBroker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index e568e4d..d9f015a 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3852,7 +3852,7 @@ std::string CoreBroker::generateQueryAnswer(std::string_view request, bool force
     }
     if (request == "time_monitor") {
         if (mTimeMonitorFederateId.isValid()) {
-            return fmt::format(R"raw({{"time":{}, "federate":{}}})raw",
+            return fmt::format(R"raw({{"time":{}, "federate":"{}"}})raw",
                                static_cast<double>(mTimeMonitorCurrentTime),
                                mTimeMonitorFederate);
         }
@@ -4245,7 +4245,9 @@ static std::string checkBrokerQuery(const BasicBrokerInfo& brk, std::string_view
             "true" :
             "false";
     } else if (query == "state") {
-        response = stateString(brk.state);
+        response.push_back('"');
+        response.append(stateString(brk.state));
+        response.push_back('"');
     } else if (query == "isinit") {
         if (brk.state >= ConnectionState::OPERATING) {
             response = "true";
-- 
2.43.0


From 98b65981eddd21f0bf2b2c44ad833a6513dbdb54 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 50/71] fix: a broker query to its parent was answered by the
 root broker

---
 src/helics/core/CoreBroker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index d9f015a..2802120 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3648,6 +3648,7 @@ std::string CoreBroker::query(std::string_view target,
         ActionMessage querycmd(mode == HELICS_SEQUENCING_MODE_FAST ? CMD_BROKER_QUERY :
                                                                      CMD_BROKER_QUERY_ORDERED);
         querycmd.source_id = gid;
+        querycmd.dest_id = higher_broker_id;
         querycmd.messageID = ++queryCounter;
         querycmd.payload = queryStr;
         auto queryResult = activeQueries.getFuture(querycmd.messageID);
-- 
2.43.0


From 69b8db6aa0b922060ef4b6c09f512f1ac912769f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 51/71] fix: the subscriptions query and setTag released the
 federate lock too early

---
 src/helics/core/FederateState.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 07cd5cd..083fb0c 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2725,7 +2725,6 @@ std::string FederateState::processQueryActual(std::string_view query) const
             }
         }
         ipts.unlock();
-        unlock();
         auto str = subs.str();
         if (str.back() == ';') {
             str.pop_back();
@@ -2935,8 +2934,8 @@ void FederateState::setTag(std::string_view tag, std::string_view value)
     spinlock();
     for (auto& testTag : tags) {
         if (testTag.first == tag) {
-            unlock();
             testTag.second = value;
+            unlock();
             return;
         }
     }
-- 
2.43.0


From b2d5bf9f5a41269a23dd02c66fa0b79c496a5158 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 52/71] fix: changing a core tag stored it twice

---
 src/helics/core/CommonCore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 077ec2f..c42b245 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -3703,13 +3703,17 @@ void CommonCore::processCommand(ActionMessage&& command)
             if (command.source_id == global_broker_id_local &&
                 command.dest_id == global_broker_id_local) {
                 const auto& keyTag = command.getString(0);
+                bool tagFound{false};
                 for (auto& tag : tags) {
                     if (tag.first == keyTag) {
                         tag.second = command.getString(1);
+                        tagFound = true;
                         break;
                     }
                 }
-                tags.emplace_back(keyTag, command.getString(1));
+                if (!tagFound) {
+                    tags.emplace_back(keyTag, command.getString(1));
+                }
             }
             break;
         case CMD_CORE_CONFIGURE:
-- 
2.43.0


From e99529f7788d4350df427392099981bd60b6e8b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 53/71] fix: an alias naming two interfaces gave no error

---
 src/helics/core/CommonCore.cpp |  3 ++-
 src/helics/core/CoreBroker.cpp | 15 +++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index c42b245..1d29107 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4531,11 +4531,12 @@ void CommonCore::processLinkingCommand(ActionMessage& cmd)
         case CMD_ADD_ALIAS:
             try {
                 loopHandles.addAlias(cmd.payload.to_string(), cmd.getString(targetStringLoc));
-                routeMessage(std::move(cmd), parent_broker_id);
             }
             catch (const std::runtime_error& rtError) {
                 LOG_ERROR(global_broker_id_local, getIdentifier(), rtError.what());
             }
+            // any conflict of names is reported by the root broker
+            routeMessage(std::move(cmd), parent_broker_id);
             break;
         default:
             break;
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 2802120..4d9b5f7 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -2366,16 +2366,15 @@ void CoreBroker::linkInterfaces(ActionMessage& command)
         case CMD_ADD_ALIAS:
             try {
                 handles.addAlias(command.payload.to_string(), command.getString(targetStringLoc));
-                if (!isRootc) {
-                    routeMessage(std::move(command), parent_broker_id);
-                }
             }
             catch (const std::runtime_error& rtError) {
-                ActionMessage error(CMD_ERROR);
-                error.setDestination(command.getSource());
-                error.source_id = global_broker_id_local;
-                error.payload = rtError.what();
-                routeMessage(std::move(error));
+                if (isRootc) {
+                    globalError(defs::Errors::REGISTRATION_FAILURE, rtError.what());
+                }
+            }
+            if (!isRootc) {
+                // any conflict of names is reported by the root broker
+                routeMessage(std::move(command), parent_broker_id);
             }
             break;
         default:
-- 
2.43.0


From 3df58419954a315ebb76769c27853b1910d93143 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 54/71] fix: a global_status query ended the process when a
 federate gave no time

---
 src/helics/core/CoreBroker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 4d9b5f7..d79a717 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3955,6 +3955,10 @@ std::string CoreBroker::generateGlobalStatus(fileops::JsonMapBuilder& builder)
     }
     for (auto& core : builder.getJValue()["cores"]) {
         for (auto& fed : core["federates"]) {
+            if (!fed.is_object() || !fed["granted_time"].is_number()) {
+                // filter or translator federates, or federates that are no longer active
+                continue;
+            }
             auto granted = fed["granted_time"].get<double>();
             if (granted < minTime) {
                 minTime = granted;
-- 
2.43.0


From d0718c9fcc7d8d4ad7581bca0a7412e065890f22 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 55/71] fix: an empty gid_to_name query read outside of the
 query string

---
 src/helics/core/CoreBroker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index d79a717..aea0c4b 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3983,10 +3983,10 @@ std::string CoreBroker::generateGlobalStatus(fileops::JsonMapBuilder& builder)
 
 std::string CoreBroker::getNameList(std::string_view gidString) const
 {
-    if (gidString.back() == ']') {
+    if (!gidString.empty() && gidString.back() == ']') {
         gidString.remove_suffix(1);
     }
-    if (gidString.front() == '[') {
+    if (!gidString.empty() && gidString.front() == '[') {
         gidString.remove_prefix(1);
     }
     auto val = gmlc::utilities::str2vector<int>(gidString, -23, ",:;");
-- 
2.43.0


From e11f09bd5c062eab83345a826ff669774f08bff2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 56/71] fix: ordered filtered_endpoints queries were not
 answered

---
 src/helics/core/CommonCore.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 1d29107..70056fb 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -2734,9 +2734,7 @@ std::string CommonCore::federateQuery(const FederateState* fed,
         }
     }
     if (queryStr == "filtered_endpoints") {
-        if (!force_ordering) {
-            return filteredEndpointQuery(fed);
-        }
+        return filteredEndpointQuery(fed);
     }
     auto resultString = generateInterfaceQueryResults(queryStr,
                                                       loopHandles,
-- 
2.43.0


From 70ecafaefc0b51ba1e4d142f39b50a34c0112ba7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 57/71] fix: an interface with an alias of another interface
 ended the process of a broker

---
 src/helics/core/CoreBroker.cpp | 75 ++++++++++++++++++----------------
 src/helics/core/CoreBroker.hpp |  1 +
 2 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index aea0c4b..0c59c7a 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1482,46 +1482,12 @@ void CoreBroker::processCommand(ActionMessage&& command)
             processError(command);
             break;
         case CMD_REG_PUB:
-            if ((!isRootc) && (command.dest_id != parent_broker_id)) {
-                routeMessage(command);
-                // break;
-            }
-            addPublication(command);
-            break;
         case CMD_REG_INPUT:
-            if ((!isRootc) && (command.dest_id != parent_broker_id)) {
-                routeMessage(command);
-                // break;
-            }
-            addInput(command);
-            break;
         case CMD_REG_ENDPOINT:
-            if ((!isRootc) && (command.dest_id != parent_broker_id)) {
-                routeMessage(command);
-                // break;
-            }
-            addEndpoint(command);
-            break;
         case CMD_REG_FILTER:
-            if ((!isRootc) && (command.dest_id != parent_broker_id)) {
-                routeMessage(command);
-                // break;
-            }
-            addFilter(command);
-            break;
         case CMD_REG_TRANSLATOR:
-            if ((!isRootc) && (command.dest_id != parent_broker_id)) {
-                routeMessage(command);
-                // break;
-            }
-            addTranslator(command);
-            break;
         case CMD_REG_DATASINK:
-            if ((!isRootc) && (command.dest_id != parent_broker_id)) {
-                routeMessage(command);
-                // break;
-            }
-            addDataSink(command);
+            registerInterface(command);
             break;
         case CMD_CLOSE_INTERFACE:
             if ((!isRootc) && (command.dest_id != parent_broker_id)) {
@@ -2130,6 +2096,45 @@ bool CoreBroker::checkInterfaceCreation(ActionMessage& message, InterfaceType ty
     return true;
 }
 
+void CoreBroker::registerInterface(ActionMessage& command)
+{
+    if ((!isRootc) && (command.dest_id != parent_broker_id)) {
+        routeMessage(command);
+    }
+    try {
+        switch (command.action()) {
+            case CMD_REG_PUB:
+                addPublication(command);
+                break;
+            case CMD_REG_INPUT:
+                addInput(command);
+                break;
+            case CMD_REG_ENDPOINT:
+                addEndpoint(command);
+                break;
+            case CMD_REG_FILTER:
+                addFilter(command);
+                break;
+            case CMD_REG_TRANSLATOR:
+                addTranslator(command);
+                break;
+            case CMD_REG_DATASINK:
+                addDataSink(command);
+                break;
+            default:
+                break;
+        }
+    }
+    catch (const std::runtime_error& rtError) {
+        // an alias of the new interface is in use for another interface of the same type
+        if (isRootc) {
+            globalError(defs::Errors::REGISTRATION_FAILURE, rtError.what());
+        } else {
+            transmit(parent_route_id, command);
+        }
+    }
+}
+
 void CoreBroker::addPublication(ActionMessage& message)
 {
     if (!checkInterfaceCreation(message, InterfaceType::PUBLICATION)) {
diff --git a/src/helics/core/CoreBroker.hpp b/src/helics/core/CoreBroker.hpp
index fe53bec..9fac736 100644
--- a/src/helics/core/CoreBroker.hpp
+++ b/src/helics/core/CoreBroker.hpp
@@ -404,6 +404,7 @@ class CoreBroker: public Broker, public BrokerBase {
     BasicBrokerInfo* getBrokerById(GlobalBrokerId brokerid);
 
     void addLocalInfo(BasicHandleInfo& handleInfo, const ActionMessage& message);
+    void registerInterface(ActionMessage& command);
     void addPublication(ActionMessage& message);
     void addInput(ActionMessage& message);
     void addEndpoint(ActionMessage& message);
-- 
2.43.0


From c3ce914ff2c33811187355eb2e6a8b09526b0402 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:26:35 +0000
Subject: [PATCH 58/71] fix: repeated map queries lost the answer of the first
 one

---
 src/helics/core/CommonCore.cpp | 4 ++++
 src/helics/core/CoreBroker.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 70056fb..31536b0 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -3018,6 +3018,10 @@ std::string CommonCore::coreQuery(std::string_view queryStr, bool force_ordering
             }
         }
 
+        if (isValidIndex(index, mapBuilders) && !std::get<1>(mapBuilders[index]).empty()) {
+            // the same query is still being answered for others, a restart would lose their answer
+            return "#wait";
+        }
         initializeMapBuilder(queryStr, index, maploc->second.second, force_ordering);
         if (std::get<0>(mapBuilders[index]).isCompleted()) {
             if (maploc->second.second == QueryReuse::ENABLED) {
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 0c59c7a..a1d35c4 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3893,6 +3893,10 @@ std::string CoreBroker::generateQueryAnswer(std::string_view request, bool force
             }
         }
 
+        if (isValidIndex(index, mapBuilders) && !std::get<1>(mapBuilders[index]).empty()) {
+            // the same query is still being answered for others, a restart would lose their answer
+            return "#wait";
+        }
         initializeMapBuilder(request, index, mapping->second.second, force_ordering);
         if (std::get<0>(mapBuilders[index]).isCompleted()) {
             if (mapping->second.second == QueryReuse::ENABLED) {
-- 
2.43.0


From 698c0ad2d38eca3774aeeab22a239465d99c4493 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:26:35 +0000
Subject: [PATCH 59/71] fix: a completed query stopped the clean up of others
 in flight on disconnect

---
 src/helics/core/CommonCore.cpp | 2 +-
 src/helics/core/CoreBroker.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 31536b0..2a8f84e 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5393,7 +5393,7 @@ void CommonCore::checkInFlightQueriesForDisconnect()
         auto& builder = std::get<0>(builderData);
         auto& requesters = std::get<1>(builderData);
         if (builder.isCompleted()) {
-            return;
+            continue;
         }
         if (builder.clearComponents()) {
             auto str = builder.generate();
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index a1d35c4..808185c 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3504,7 +3504,7 @@ void CoreBroker::checkInFlightQueries(GlobalBrokerId brkid)
         auto& builder = std::get<0>(builderData);
         auto& requesters = std::get<1>(builderData);
         if (builder.isCompleted()) {
-            return;
+            continue;
         }
         if (builder.clearComponents(brkid.baseValue())) {
             auto str = builder.generate();
-- 
2.43.0


From a2c7b3ccf104b9282796d01fa787e3e7a292b5bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:26:54 +0000
Subject: [PATCH 60/71] fix: queries interrupted by a disconnect were not
 answered with valid JSON

---
 src/helics/core/CommonCore.cpp | 3 ++-
 src/helics/core/CoreBroker.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 2a8f84e..eb3df8f 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4918,7 +4918,8 @@ void CommonCore::processDisconnectCommand(ActionMessage& cmd)
                     translatorThread.store(std::thread::id{});
                 }
             }
-            activeQueries.fulfillAllPromises("#disconnected");
+            activeQueries.fulfillAllPromises(
+                generateJsonErrorResponse(JsonErrorCodes::DISCONNECTED, "Core has terminated"));
             break;
         case CMD_DISCONNECT:
         case CMD_DISCONNECT_FED:
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 808185c..2fd749c 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1335,7 +1335,8 @@ void CoreBroker::processCommand(ActionMessage&& command)
                     transmit(parent_route_id, disconnect);
                 }
             }
-            activeQueries.fulfillAllPromises("#disconnected");
+            activeQueries.fulfillAllPromises(
+                generateJsonErrorResponse(JsonErrorCodes::DISCONNECTED, "Broker has terminated"));
             break;
         case CMD_BROADCAST_DISCONNECT: {
             timeCoord->processTimeMessage(command);
-- 
2.43.0


From 049ca411535ab6f0cf5c08fec0d352058fefb825 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:47:57 +0000
Subject: [PATCH 61/71] fix: a local error did not reach federates of other
 cores

---
 src/helics/core/CoreBroker.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 2fd749c..7ce4622 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3314,6 +3314,12 @@ void CoreBroker::processError(ActionMessage& command)
     }
 
     if (command.source_id == parent_broker_id || command.source_id == gRootBrokerID) {
+        if (command.action() != CMD_GLOBAL_ERROR && command.dest_id != global_broker_id_local &&
+            mFederates.find(command.dest_id) != mFederates.end()) {
+            // an error of a single federate below this broker
+            routeMessage(command);
+            return;
+        }
         setBrokerState(BrokerState::ERRORED);
         if (command.action() == CMD_GLOBAL_ERROR) {
             setErrorState(command.messageID, command.payload.to_string());
@@ -3341,9 +3347,14 @@ void CoreBroker::processError(ActionMessage& command)
                 processError(command);
                 return;
             }
-            if (!(isRootc || command.dest_id == global_broker_id_local ||
-                  command.dest_id == parent_broker_id)) {
-                transmit(parent_route_id, command);
+            if (command.dest_id != global_broker_id_local &&
+                command.dest_id != parent_broker_id) {
+                if (mFederates.find(command.dest_id) != mFederates.end()) {
+                    // notification to a dependent federate below this broker
+                    routeMessage(command);
+                } else if (!isRootc) {
+                    transmit(parent_route_id, command);
+                }
             }
             if (hasTimeDependency) {
                 timeCoord->processTimeMessage(command);
-- 
2.43.0


From 3a5f7676c92a415d5045c13b55fb7eccef477882 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 62/71] fix: a dependency that ends before executing mode left
 others waiting to enter it

---
 src/helics/core/TimeCoordinatorProcessing.cpp | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/TimeCoordinatorProcessing.cpp b/src/helics/core/TimeCoordinatorProcessing.cpp
index c466e6a..585ed06 100644
--- a/src/helics/core/TimeCoordinatorProcessing.cpp
+++ b/src/helics/core/TimeCoordinatorProcessing.cpp
@@ -185,6 +185,13 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     default:
                         break;
                 }
+                if (state == FederateStates::INITIALIZING && !timeGranted_mode &&
+                    proc == MessageProcessingResult::CONTINUE_PROCESSING) {
+                    // may be waiting on this federate to enter executing mode
+                    cmd.dest_id = localID;
+                    cmd.setAction(CMD_EXEC_CHECK);
+                    proc = MessageProcessingResult::REPROCESS_MESSAGE;
+                }
                 if (state != FederateStates::EXECUTING) {
                     break;
                 }
@@ -217,6 +224,12 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
             if (returnable) {
                 break;
             }
+            if (state == FederateStates::INITIALIZING && !timeGranted_mode) {
+                // may be waiting on this federate to enter executing mode
+                cmd.dest_id = localID;
+                cmd.setAction(CMD_EXEC_CHECK);
+                proc = MessageProcessingResult::REPROCESS_MESSAGE;
+            }
             if (state != FederateStates::EXECUTING) {
                 break;
             }
@@ -302,10 +315,16 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     default:
                         break;
                 }
-                if (state != FederateStates::EXECUTING) {
+                if (returnable) {
                     break;
                 }
-                if (returnable) {
+                if (state == FederateStates::INITIALIZING && !timeGranted_mode) {
+                    // may be waiting on this federate to enter executing mode
+                    cmd.dest_id = localID;
+                    cmd.setAction(CMD_EXEC_CHECK);
+                    proc = MessageProcessingResult::REPROCESS_MESSAGE;
+                }
+                if (state != FederateStates::EXECUTING) {
                     break;
                 }
                 if (!timeGranted_mode) {
-- 
2.43.0


From 45b7c669513df49b161717e7cb4acdb91b068125 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 63/71] fix: registration errors found by a sub-broker were
 ignored by the federate

---
 src/helics/core/TimeCoordinatorProcessing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/TimeCoordinatorProcessing.cpp b/src/helics/core/TimeCoordinatorProcessing.cpp
index 585ed06..d2c84e0 100644
--- a/src/helics/core/TimeCoordinatorProcessing.cpp
+++ b/src/helics/core/TimeCoordinatorProcessing.cpp
@@ -294,7 +294,8 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
         case CMD_GLOBAL_ERROR:
             if (cmd.action() == CMD_GLOBAL_ERROR || cmd.source_id == localID ||
                 cmd.source_id == parent_broker_id || cmd.source_id == gRootBrokerID ||
-                cmd.dest_id != localID) {
+                cmd.dest_id != localID || cmd.dest_handle.isValid()) {
+                // a valid dest_handle is an error of an interface of this federate
                 if ((state != FederateStates::FINISHED) && (state != FederateStates::TERMINATING)) {
                     if (cmd.action() != CMD_GLOBAL_ERROR) {
                         timeCoord->localError();
-- 
2.43.0


From 200d28a567844ccbaf929b1a3db76287c2fa7ae1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:53:40 +0000
Subject: [PATCH 64/71] fix: an alias of an alias did not refer to an interface
 found later

---
 src/helics/core/HandleManager.cpp | 55 ++++++++++---------------------
 1 file changed, 17 insertions(+), 38 deletions(-)

diff --git a/src/helics/core/HandleManager.cpp b/src/helics/core/HandleManager.cpp
index 3d3bb8e..2b8fe04 100644
--- a/src/helics/core/HandleManager.cpp
+++ b/src/helics/core/HandleManager.cpp
@@ -409,46 +409,25 @@ void HandleManager::addAlias(std::string_view interfaceName, std::string_view al
     const std::string& aliasStableName = *aliasName;
     const std::string& interfaceStableName = *iName;
 
-    bool cascade = addAliasName(interfaceStableName, aliasStableName);
-
-    if (cascade) {
-        auto& aliasRange = aliases[interfaceStableName];
-        for (auto& interfaceAlias : aliasRange) {
-            if (interfaceAlias != alias) {
-                addPublicationAlias(interfaceAlias, interfaceStableName);
-                addInputAlias(interfaceAlias, interfaceStableName);
-                addEndpointAlias(interfaceAlias, interfaceStableName);
-                addFilterAlias(interfaceAlias, interfaceStableName);
-            }
-        }
-    }
-
-    // add aliases for existing interfaces
-    addPublicationAlias(*iName, *aliasName);
-    addInputAlias(*iName, *aliasName);
-    addEndpointAlias(*iName, *aliasName);
-    addFilterAlias(*iName, *aliasName);
-
+    addAliasName(interfaceStableName, aliasStableName);
     /** aliases should be reciprocal*/
-    cascade = addAliasName(aliasStableName, interfaceStableName);
-
-    if (cascade) {
-        auto& aliasRange = aliases[aliasStableName];
-        for (auto& interfaceAlias : aliasRange) {
-            if (interfaceAlias != alias) {
-                addPublicationAlias(interfaceAlias, aliasStableName);
-                addInputAlias(interfaceAlias, aliasStableName);
-                addEndpointAlias(interfaceAlias, aliasStableName);
-                addFilterAlias(interfaceAlias, aliasStableName);
-            }
-        }
+    addAliasName(aliasStableName, interfaceStableName);
+
+    // every name of the group now refers to the same interfaces, add aliases for the existing ones:
+    // first find what any of the names refers to, then give it to all the others
+    const auto names = aliases[interfaceStableName];
+    for (const auto& name : names) {
+        addPublicationAlias(name, interfaceStableName);
+        addInputAlias(name, interfaceStableName);
+        addEndpointAlias(name, interfaceStableName);
+        addFilterAlias(name, interfaceStableName);
+    }
+    for (const auto& name : names) {
+        addPublicationAlias(interfaceStableName, name);
+        addInputAlias(interfaceStableName, name);
+        addEndpointAlias(interfaceStableName, name);
+        addFilterAlias(interfaceStableName, name);
     }
-
-    // add aliases for existing interfaces
-    addPublicationAlias(*aliasName, *iName);
-    addInputAlias(*aliasName, *iName);
-    addEndpointAlias(*aliasName, *iName);
-    addFilterAlias(*aliasName, *iName);
 }
 
 void HandleManager::addPublicationAlias(std::string_view interfaceName, std::string_view alias)
-- 
2.43.0


From 2d16c83e28855bec7a464b85a9e020580125480f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:08:46 +0000
Subject: [PATCH 65/71] fix: a dependent added after a federate ended waited
 for it forever

---
 src/helics/core/CommonCore.cpp      | 8 ++++++++
 src/helics/core/FederateState.cpp   | 4 ++++
 src/helics/core/TimeCoordinator.cpp | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index eb3df8f..81ab8c3 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4249,6 +4249,14 @@ void CommonCore::addTargetToInterface(ActionMessage& command)
         if (fed != nullptr) {
             if (!checkActionFlag(command, error_flag)) {
                 fed->addAction(command);
+                if (fed->getState() == FederateStates::FINISHED ||
+                    fed->getState() == FederateStates::ERRORED) {
+                    // the federate may never process it
+                    auto rep = fed->processPostTerminationAction(command);
+                    if (rep) {
+                        routeMessage(*rep);
+                    }
+                }
             }
             auto* handle = loopHandles.getHandleInfo(command.dest_handle.baseValue());
             if (handle != nullptr) {
diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 083fb0c..eebf7bb 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -489,6 +489,10 @@ std::optional<ActionMessage>
 {
     std::optional<ActionMessage> optAct;
     switch (action.action()) {
+        case CMD_ADD_SUBSCRIBER:
+        case CMD_ADD_DEPENDENT:
+        case CMD_ADD_INTERDEPENDENCY:
+            // a new dependent must know this federate will not send time updates
         case CMD_REQUEST_CURRENT_TIME:
             optAct = ActionMessage(CMD_DISCONNECT, global_id.load(), action.source_id);
             break;
diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index afc7acd..d1345d6 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -1001,6 +1001,10 @@ bool TimeCoordinator::addDependent(GlobalFederateId fedID)
 {
     if (BaseTimeCoordinator::addDependent(fedID)) {
         dependent_federates.lock()->push_back(fedID);
+        if (disconnected && fedID != mSourceId && sendMessageFunction) {
+            // a new dependent must know there will be no time updates
+            sendMessageFunction(ActionMessage(CMD_DISCONNECT, mSourceId, fedID));
+        }
         return true;
     }
     return false;
-- 
2.43.0


From 5f8774f9669cc26453037574a8b5cad8ec6a9afb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:29:41 +0000
Subject: [PATCH 66/71] fix: a query made while a broker or core stops was
 never answered

---
 src/helics/core/CommonCore.cpp | 17 ++++++++++++++---
 src/helics/core/CommonCore.hpp |  4 ++++
 src/helics/core/CoreBroker.cpp | 29 +++++++++++++++++------------
 src/helics/core/CoreBroker.hpp |  4 ++++
 4 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 81ab8c3..8460d94 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -3075,6 +3075,18 @@ std::string CommonCore::coreQuery(std::string_view queryStr, bool force_ordering
     return generateJsonErrorResponse(JsonErrorCodes::BAD_REQUEST, "unrecognized core query");
 }
 
+std::string CommonCore::waitForQueryResult(std::future<std::string>& queryResult, int32_t index)
+{
+    if (queriesEnded) {
+        // the query may have been added after the last ones were answered
+        activeQueries.fulfillAllPromises(
+            generateJsonErrorResponse(JsonErrorCodes::DISCONNECTED, "Core has terminated"));
+    }
+    auto ret = queryResult.get();
+    activeQueries.finishedWithValue(index);
+    return ret;
+}
+
 std::string CommonCore::query(std::string_view target,
                               std::string_view queryStr,
                               HelicsSequencingModes mode)
@@ -3161,9 +3173,7 @@ std::string CommonCore::query(std::string_view target,
 
     auto queryResult = activeQueries.getFuture(querycmd.messageID);
     addActionMessage(std::move(querycmd));
-    auto ret = queryResult.get();
-    activeQueries.finishedWithValue(index);
-    return ret;
+    return waitForQueryResult(queryResult, index);
 }
 
 void CommonCore::setGlobal(std::string_view valueName, std::string_view value)
@@ -4926,6 +4936,7 @@ void CommonCore::processDisconnectCommand(ActionMessage& cmd)
                     translatorThread.store(std::thread::id{});
                 }
             }
+            queriesEnded = true;
             activeQueries.fulfillAllPromises(
                 generateJsonErrorResponse(JsonErrorCodes::DISCONNECTED, "Core has terminated"));
             break;
diff --git a/src/helics/core/CommonCore.hpp b/src/helics/core/CommonCore.hpp
index a290a08..c9ba77f 100644
--- a/src/helics/core/CommonCore.hpp
+++ b/src/helics/core/CommonCore.hpp
@@ -27,6 +27,7 @@ SPDX-License-Identifier: BSD-3-Clause
 #include <atomic>
 #include <chrono>
 #include <deque>
+#include <future>
 #include <map>
 #include <memory>
 #include <set>
@@ -487,6 +488,9 @@ class CommonCore: public Core, public BrokerBase {
     std::atomic<int> queryCounter{1};
     /// holder for active queries
     gmlc::concurrency::DelayedObjects<std::string> activeQueries;
+    std::atomic<bool> queriesEnded{false};  //!< set when no more queries will be answered
+    /** get the result of a query and remove it from the active queries*/
+    std::string waitForQueryResult(std::future<std::string>& queryResult, int32_t index);
     /// timeout manager for queries
     std::deque<std::pair<int32_t, decltype(std::chrono::steady_clock::now())>> queryTimeouts;
     /// holder for the query map builder information
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 7ce4622..f665a18 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1335,6 +1335,7 @@ void CoreBroker::processCommand(ActionMessage&& command)
                     transmit(parent_route_id, disconnect);
                 }
             }
+            queriesEnded = true;
             activeQueries.fulfillAllPromises(
                 generateJsonErrorResponse(JsonErrorCodes::DISCONNECTED, "Broker has terminated"));
             break;
@@ -3613,6 +3614,18 @@ void CoreBroker::setLogFile(std::string_view lfile)
     addActionMessage(cmd);
 }
 
+std::string CoreBroker::waitForQueryResult(std::future<std::string>& queryResult, int32_t index)
+{
+    if (queriesEnded) {
+        // the query may have been added after the last ones were answered
+        activeQueries.fulfillAllPromises(
+            generateJsonErrorResponse(JsonErrorCodes::DISCONNECTED, "Broker has terminated"));
+    }
+    auto ret = queryResult.get();
+    activeQueries.finishedWithValue(index);
+    return ret;
+}
+
 // public query function
 std::string CoreBroker::query(std::string_view target,
                               std::string_view queryStr,
@@ -3652,9 +3665,7 @@ std::string CoreBroker::query(std::string_view target,
         querycmd.payload = queryStr;
         auto queryResult = activeQueries.getFuture(index);
         addActionMessage(std::move(querycmd));
-        auto ret = queryResult.get();
-        activeQueries.finishedWithValue(index);
-        return ret;
+        return waitForQueryResult(queryResult, index);
     }
     if (target == "parent") {
         if (isRootc) {
@@ -3669,9 +3680,7 @@ std::string CoreBroker::query(std::string_view target,
         querycmd.payload = queryStr;
         auto queryResult = activeQueries.getFuture(querycmd.messageID);
         addActionMessage(querycmd);
-        auto ret = queryResult.get();
-        activeQueries.finishedWithValue(querycmd.messageID);
-        return ret;
+        return waitForQueryResult(queryResult, querycmd.messageID);
     }
     if ((target == "root") || (target == "rootbroker")) {
         ActionMessage querycmd(mode == HELICS_SEQUENCING_MODE_FAST ? CMD_BROKER_QUERY :
@@ -3683,9 +3692,7 @@ std::string CoreBroker::query(std::string_view target,
         auto queryResult = activeQueries.getFuture(querycmd.messageID);
         transmitToParent(std::move(querycmd));
 
-        auto ret = queryResult.get();
-        activeQueries.finishedWithValue(index);
-        return ret;
+        return waitForQueryResult(queryResult, index);
     }
 
     ActionMessage querycmd(mode == HELICS_SEQUENCING_MODE_FAST ? CMD_QUERY : CMD_QUERY_ORDERED);
@@ -3697,9 +3704,7 @@ std::string CoreBroker::query(std::string_view target,
     auto queryResult = activeQueries.getFuture(querycmd.messageID);
     transmitToParent(std::move(querycmd));
 
-    auto ret = queryResult.get();
-    activeQueries.finishedWithValue(index);
-    return ret;
+    return waitForQueryResult(queryResult, index);
 }
 
 void CoreBroker::setGlobal(std::string_view valueName, std::string_view value)
diff --git a/src/helics/core/CoreBroker.hpp b/src/helics/core/CoreBroker.hpp
index 9fac736..a921baf 100644
--- a/src/helics/core/CoreBroker.hpp
+++ b/src/helics/core/CoreBroker.hpp
@@ -26,6 +26,7 @@ SPDX-License-Identifier: BSD-3-Clause
 #include <atomic>
 #include <deque>
 #include <functional>
+#include <future>
 #include <map>
 #include <memory>
 #include <string>
@@ -131,6 +132,9 @@ class CoreBroker: public Broker, public BrokerBase {
     std::atomic<int> queryCounter{1};  // counter for active queries going to the local API
     bool force_connection{false};
     gmlc::concurrency::DelayedObjects<std::string> activeQueries;  //!< holder for active queries
+    std::atomic<bool> queriesEnded{false};  //!< set when no more queries will be answered
+    /** get the result of a query and remove it from the active queries*/
+    std::string waitForQueryResult(std::future<std::string>& queryResult, int32_t index);
     /// holder for the query map builder information
     std::vector<std::tuple<fileops::JsonMapBuilder, std::vector<ActionMessage>, QueryReuse>>
         mapBuilders;
-- 
2.43.0


From 033a5be5a76e7bde227d3e968d9b6dc21302fb3f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:39:01 +0000
Subject: [PATCH 67/71] fix: a federate could see an orderly end of the
 federation instead of a global error

---
 src/helics/core/CommonCore.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 8460d94..2ac9963 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4656,9 +4656,12 @@ void CommonCore::processLogAndErrorCommand(ActionMessage& cmd)
             if (getBrokerState() == BrokerState::CONNECTING) {
                 processDisconnect();
             }
-            setErrorState(cmd.messageID, cmd.payload.to_string());
             if (isConnected()) {
+                // a federate should get the error before it can find the core in an error state
                 sendErrorToFederates(cmd.messageID, cmd.payload.to_string());
+            }
+            setErrorState(cmd.messageID, cmd.payload.to_string());
+            if (isConnected()) {
                 if (!(cmd.source_id == higher_broker_id || cmd.source_id == gRootBrokerID)) {
                     transmit(parent_route_id, std::move(cmd));
                 }
-- 
2.43.0


From 593c5d514d6dc5a951c0b77f67126ee4932f60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:51 +0000
Subject: [PATCH 68/71] fix: a destination filter that drops a message crashed
 the core

---
 src/helics/core/FilterFederate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 44783b9..987c7eb 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -437,6 +437,10 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                     auto tempMessage = createMessageFromCommand(std::move(command));
                     auto odest = tempMessage->dest;
                     auto nmessage = ffunc->destFilter->filterOp->process(std::move(tempMessage));
+                    if (!nmessage) {
+                        // the filter dropped the message
+                        return false;
+                    }
                     if (odest == nmessage->dest) {
                         command = std::move(nmessage);
                     } else {
-- 
2.43.0


From d00da125e0ada744880831da2ba24e0f7af71488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:51 +0000
Subject: [PATCH 69/71] fix: a message rerouted by a destination filter went to
 its old destination

---
 src/helics/core/FilterFederate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 987c7eb..ce2ee9d 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -446,6 +446,8 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                     } else {
                         // handle destination reroute filters
                         command = std::move(nmessage);
+                        command.dest_id = parent_broker_id;
+                        command.dest_handle = InterfaceHandle();
                         mDeliverMessage(command);
                         return false;
                     }
-- 
2.43.0


From 01a8ae9cc1c7e079019256b2613d3586e9d51657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:51 +0000
Subject: [PATCH 70/71] fix: a destination filter was refused on an endpoint
 with a cloning filter

---
 src/helics/core/FilterFederate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index ce2ee9d..a63c351 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -798,7 +798,8 @@ void FilterFederate::processFilterInfo(ActionMessage& command)
                 mHandles->getInterfaceHandle(command.dest_handle, InterfaceType::ENDPOINT);
             if (endhandle != nullptr) {
                 setActionFlag(*endhandle, has_dest_filter_flag);
-                if ((!checkActionFlag(command, clone_flag)) && (filterC->hasDestFilters)) {
+                if ((!checkActionFlag(command, clone_flag)) &&
+                    (filterC->destFilter != nullptr)) {
                     // duplicate non cloning destination filters are not allowed
                     ActionMessage err(CMD_ERROR);
                     err.dest_id = command.source_id;
-- 
2.43.0


From 658ee5ef8264042c4c19544e0836c84a00589307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:51 +0000
Subject: [PATCH 71/71] fix: a source filter without an operator crashed the
 core

---
 src/helics/core/FilterFederate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index a63c351..50a80a5 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -332,6 +332,10 @@ std::pair<ActionMessage&, bool> FilterFederate::executeFilter(ActionMessage& com
 {
     mCoord.triggered = true;
     if (filt->core_id == mFedID) {
+        if (!filt->filterOp) {
+            // a filter without an operator changes nothing
+            return {command, true};
+        }
         if (filt->cloning) {
             // cloning filter returns a vector
             auto new_messages = filt->filterOp->processVector(createMessageFromCommand(command));
-- 
2.43.0

