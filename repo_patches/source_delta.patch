From bdf1a2eb609d8607353abf4388a90232f24a01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 01/87] fix: wake blocked producers after
 try_pop_copy/try_pop_move on GBoundedBufferT

---
 include/common/GBoundedBufferT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GBoundedBufferT.hpp b/include/common/GBoundedBufferT.hpp
index 1bb695d..4e38443 100644
--- a/include/common/GBoundedBufferT.hpp
+++ b/include/common/GBoundedBufferT.hpp
@@ -527,7 +527,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
@@ -554,7 +554,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
-- 
2.43.0


From 2a7e40a4a72d736f71811d2d721d43cf245a6f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 02/87] fix: keep the best items when a batch is added to a
 partially filled priority queue

---
 include/common/GFixedSizePriorityQueueT.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 3063763..a432626 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -334,15 +334,19 @@ public:
 			 worstKnownEvaluation = this->evaluation(this->worst());
 		 }
 
+		 // worstKnownEvaluation may only be used to filter out items if the queue was already full.
+		 // Otherwise items would be lost which are better than others added by this very call.
+		 const bool queueWasFull = m_maxSize && m_data_deq.size() >= m_maxSize;
+
 		 // At this point, worstKnownEvaluation will be
 		 // - the worst case, if the queue is empty or all entries in the queue will be replaced
 		 // - the evaluation of the worst entry in the queue if we only add items (regardless of whether they will be cloned or not)
 		 for(auto const & item_ptr: items) {
 			 // Add the work item to the queue
 			 // - If the queue is unlimited
-			 // - If the queue isn't full yet
+			 // - If the queue wasn't full when this function was called (surplus items are removed below)
 			 // - If the item is better than the worst one already contained in the queue
-			 if (0 == m_maxSize || m_data_deq.size() < m_maxSize || isBetter(this->evaluation(item_ptr), worstKnownEvaluation)) {
+			 if (!queueWasFull || isBetter(this->evaluation(item_ptr), worstKnownEvaluation)) {
 				 if (do_clone) {
 					 m_data_deq.push_back(item_ptr->template clone<T>());
 				 } else {
-- 
2.43.0


From 1b22b9de3943e441e4022abd3f42e28862fe4256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 03/87] fix: do not discard all items when a priority queue is
 made unlimited

---
 include/common/GFixedSizePriorityQueueT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index a432626..fd1a7c9 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -457,7 +457,8 @@ public:
 	  */
 	 void setMaxSize(std::size_t maxSize) {
 		 // Make sure the current size of m_data complies with maxSize
-		 if (m_data_deq.size() > maxSize) {
+		 // Note that a value of 0 means "unlimited"
+		 if (maxSize && m_data_deq.size() > maxSize) {
 			 m_data_deq.resize(maxSize);
 		 }
 
-- 
2.43.0


From 12570198b1375d4bb0395a930813bec85a56048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 04/87] fix: let GBarrier::wait() block until the required
 number of threads has arrived

---
 include/common/GBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/GBarrier.hpp b/include/common/GBarrier.hpp
index 83520eb..a763591 100644
--- a/include/common/GBarrier.hpp
+++ b/include/common/GBarrier.hpp
@@ -111,7 +111,7 @@ public:
 		 m_cond.wait(
 		 	lock
 		 	, [&]() {
-		 		return gen == m_generation;
+		 		return gen != m_generation;
 		 	}
 	 	 );
 		 return false;
-- 
2.43.0


From c5585b992779ace360ab69eafc1b4fdf06058f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 05/87] fix: fulfil the promise of void tasks in
 GThreadPool::async_schedule()

---
 include/common/GThreadPool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/GThreadPool.hpp b/include/common/GThreadPool.hpp
index 208e647..916c9f5 100644
--- a/include/common/GThreadPool.hpp
+++ b/include/common/GThreadPool.hpp
@@ -176,6 +176,7 @@ public:
 			, [this, promise_ptr, f = std::bind<result_type>(std::forward<F>(f), std::forward<Args>(args)...)]() {
 				 try {
 					 f();
+					 promise_ptr->set_value();
 				 } catch(boost::exception& e) {
 					 // Convert to a std::runtime_exception
 					 std::runtime_error r(boost::diagnostic_information(e));
-- 
2.43.0


From ca48b329b7b87e1aac6c2dace167d49f3ddd21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 06/87] fix: let GPtrVectorT::insert_noclone() cope with an
 amount of 0

The loop bound amount - 1 wrapped around, so that clones were inserted without end.
---
 include/common/GPtrVectorT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index c008f84..d026331 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -526,6 +526,9 @@ public:
 			);
 		}
 
+		// Nothing to do
+		if (0 == amount) return;
+
 		std::size_t iterator_pos = pos - m_data_cnt.begin();
 		// Create (amount-1) clones
 		for (std::size_t i = 0; i < amount - 1; i++) {
-- 
2.43.0


From 74a71ee1ddad4f38b54ac9be2a0215002e750ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 07/87] fix: allow GPtrVectorT::resize(0) on an empty vector

The check preceding the call explicitly permits this case, but at(0) threw std::out_of_range.
---
 include/common/GPtrVectorT.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index d026331..0556206 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -636,6 +636,8 @@ public:
 			);
 		}
 
+		if (this->empty()) return; // Already has the desired size
+
 		this->resize_clone(amount, this->at(0));
 	}
 
-- 
2.43.0


From 751f252d8b75f473a881d40d026df5b38dd471ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 08/87] fix: keep values of GConstrainedFPT inside of their
 boundaries in spite of rounding errors

With boundaries [1e-10, 1[ the internal value 9.9999999999999965e-11, or with boundaries
[-5, 10[ any internal value beyond 1e16, may be mapped to an external value outside of the range.
---
 include/geneva/GConstrainedFPT.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/geneva/GConstrainedFPT.hpp b/include/geneva/GConstrainedFPT.hpp
index c05dc3b..1c5d9d6 100644
--- a/include/geneva/GConstrainedFPT.hpp
+++ b/include/geneva/GConstrainedFPT.hpp
@@ -354,6 +354,11 @@ public:
 				 mapping = -localVal + ((long double)(region-1)*(upperBoundary - lowerBoundary) + 2*upperBoundary);
 			 }
 
+			 // The region is calculated with limited precision, so that the mapping may miss the allowed value
+			 // range due to rounding errors, particularly if val is large compared to that range.
+			 if(mapping < lowerBoundary) mapping = lowerBoundary;
+			 else if(mapping > upperBoundary) mapping = upperBoundary;
+
 			 // fabs(mapping) will always be <= fabs(val), so this cast should never fail (if val was a valid fp value)
 			 return boost::numeric_cast<fp_type>(mapping);
 		 }
-- 
2.43.0


From 54de870d5467d10df1d5b4598d74a473660f5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 09/87] fix: keep values of GConstrainedFPNumCollectionT inside
 of their boundaries in spite of rounding errors

With boundaries [0, 1[ the internal value 79678.999999999985 was mapped to a value larger than the upper boundary.
---
 include/geneva/GConstrainedFPNumCollectionT.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/geneva/GConstrainedFPNumCollectionT.hpp b/include/geneva/GConstrainedFPNumCollectionT.hpp
index aafd3b9..f8917b3 100644
--- a/include/geneva/GConstrainedFPNumCollectionT.hpp
+++ b/include/geneva/GConstrainedFPNumCollectionT.hpp
@@ -203,6 +203,11 @@ public:
                 mapping = -val + (fp_type(region - 1) * (upperBoundary - lowerBoundary) + 2 * upperBoundary);
             }
 
+            // The region is calculated with limited precision, so that the mapping may miss the allowed value
+            // range due to rounding errors, particularly if val is large compared to that range.
+            if (mapping < lowerBoundary) { mapping = lowerBoundary; }
+            else if (mapping > upperBoundary) { mapping = upperBoundary; }
+
             return mapping;
         }
 
-- 
2.43.0


From da5b55beeac1b332381f4757bddedf5fb82752d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 10/87] fix: let GConstrainedNumCollectionT::setBoundaries()
 act on the externally visible values

Like in GConstrainedNumT, new boundaries must be compared to the transformed values. The raw internal values
of adapted collections may lie outside of the current boundaries, so that suitable boundaries were rejected or
the external values changed.
---
 include/geneva/GConstrainedNumCollectionT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index 06822e7..aeab0ee 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -255,7 +255,7 @@ public:
     virtual void setBoundaries(const num_type &lower, const num_type &upper) BASE {
         std::vector<num_type> currentValues;
         for (std::size_t pos = 0; pos < this->size(); pos++) {
-            currentValues.push_back(GParameterCollectionT<num_type>::value(pos));
+            currentValues.push_back(this->value(pos)); // Store the externally visible value
 
             // Check that the value is inside the allowed range
             if (currentValues[pos] < lower || currentValues[pos] > upper) {
-- 
2.43.0


From 00b2b2620bdc4bbedf56cbaf5553eecbc05f5891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 11/87] fix: avoid integer overflows in
 GConstrainedIntT::transfer()

With boundaries [-134217728, -134215775] the internal value 2120286826 was mapped to a value outside of the
boundaries, as the distance of both does not fit into a 32 bit integer.
---
 include/geneva/GConstrainedIntT.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/geneva/GConstrainedIntT.hpp b/include/geneva/GConstrainedIntT.hpp
index 7f5073b..69d3a8c 100644
--- a/include/geneva/GConstrainedIntT.hpp
+++ b/include/geneva/GConstrainedIntT.hpp
@@ -196,20 +196,25 @@ public:
             // The result
             int_type mapping = int_type(0);
 
+            // Differences between val and the boundaries may exceed the range of int_type
+            const std::int64_t wide_val = val;
+            const std::int64_t wide_lower = lowerBoundary;
+            const std::int64_t wide_upper = upperBoundary;
+
             // Find out the size of the value range. Note that both boundaries
             // are included, so that we need to add 1 to the difference.
-            int_type value_range = upperBoundary - lowerBoundary + int_type(1);
+            std::int64_t value_range = wide_upper - wide_lower + 1;
 
             if (val < lowerBoundary) {
                 // Find out how many full value ranges val is below the lower boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nBelowLowerBoundary = (lowerBoundary - (val + int_type(1))) / value_range;
+                std::int64_t nBelowLowerBoundary = (wide_lower - (wide_val + 1)) / value_range;
 
                 // We are dealing with descending (nBelowLowerBoundary is even) and
                 // ascending ranges (nBelowLowerBoundary is odd), which need to be treated differently
 
                 // Transfer the value into the allowed region
-                mapping = val + (value_range * (nBelowLowerBoundary + int_type(1)));
+                mapping = int_type(wide_val + (value_range * (nBelowLowerBoundary + 1)));
                 if (nBelowLowerBoundary % 2 == 0) { // nBelowLowerBoundary is even
                     // Revert the value to a descending sequence
                     mapping = revert(mapping);
@@ -217,13 +222,13 @@ public:
             } else { // val > getUpperBoundary()
                 // Find out how many full value ranges val is above the upper boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nAboveUpperBoundary = (val - upperBoundary - int_type(1)) / value_range;
+                std::int64_t nAboveUpperBoundary = (wide_val - wide_upper - 1) / value_range;
 
                 // We are dealing with descending (nAboveUpperBoundary is even) and
                 // ascending ranges (nAboveUpperBoundary is odd), which need to be treated differently
 
                 // Transfer into the allowed region
-                mapping = val - (value_range * (nAboveUpperBoundary + int_type(1)));
+                mapping = int_type(wide_val - (value_range * (nAboveUpperBoundary + 1)));
                 if (nAboveUpperBoundary % 2 == 0) { // nAboveUpperBoundary is even
                     // Revert, as we are dealing with a descending value range
                     mapping = revert(mapping);
-- 
2.43.0


From dc5a56998799e873a61a60a64be24518882eb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 12/87] fix: keep errors flagged through force_set_error() when
 processing ends without an exception

---
 include/courtier/GProcessingContainerT.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GProcessingContainerT.hpp b/include/courtier/GProcessingContainerT.hpp
index b683669..6615232 100644
--- a/include/courtier/GProcessingContainerT.hpp
+++ b/include/courtier/GProcessingContainerT.hpp
@@ -306,7 +306,10 @@ public:
 			 m_processing_time = std::chrono::duration<double>(afterProcessing - afterPreProcessing).count();
 			 m_post_processing_time = std::chrono::duration<double>(afterPostProcessing - afterProcessing).count();
 
-			 m_processing_status = processingStatus::PROCESSED;
+			 // Do not overwrite an error flagged by user code through force_set_error()
+			 if(processingStatus::ERROR_FLAGGED != m_processing_status) {
+				 m_processing_status = processingStatus::PROCESSED;
+			 }
 		 } catch(boost::exception& e) {
 			 // Let the audience know we had an error
 			 m_processing_status = processingStatus::EXCEPTION_CAUGHT;
-- 
2.43.0


From e241973addd5f89c7d440687990d91ad77f5a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 13/87] fix: let GBrokerExecutorT act on the percentage of
 returned items instead of their fraction

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 29f5567..d4c6e28 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2391,7 +2391,7 @@ private:
 		 if(m_nReturnedCurrent == expectedNumber) return true;
 
 		 // Check if we have reached the minimum percentage
-		 double realPercentage = boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
+		 double realPercentage = 100. * boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
 		 return (realPercentage >= boost::numeric_cast<double>(this->getMinPartialReturnPercentage()));
 	 }
 
-- 
2.43.0


From 9b5532f2ec686dea34b74abbaba8a0873358102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 14/87] fix: sort old work items with a strict weak ordering

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index d4c6e28..5d265e9 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -620,7 +620,7 @@ protected:
 			 , m_old_work_items_cnt.end()
 			 , [](std::shared_ptr<processable_type> x_ptr, std::shared_ptr<processable_type> y_ptr) -> bool {
 				 using namespace boost;
-				 return x_ptr->getCollectionPosition() <= y_ptr->getCollectionPosition();
+				 return x_ptr->getCollectionPosition() < y_ptr->getCollectionPosition();
 			 }
 		 );
 		 // Remove duplicates
-- 
2.43.0


From 7a401f9ab20c9f26899595df33d011e58c2c3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 15/87] fix: let GMTExecutorT cope with processing errors in
 release builds

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 5d265e9..f66a174 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1654,13 +1654,13 @@ protected:
 			 // Retrieve the future and check for errors
 			 try {
 				 result_type r = f.get();
-#ifdef DEBUG
 			 } catch(const g_processing_exception& e) {
 				 // This is an expected exception if processing has failed. We do nothing,
 				 // it is up to the caller to decide what to do with processing errors, and
 				 // these are also stored in the processing item. We do try to create a sort
 				 // of stack trace by emitting a warning, though. Processing errors should be rare,
 				 // so might hint at some problem.
+#ifdef DEBUG
 				 glogger
 					 << "In GMTExecutorT<processable_type>::waitForReturn():" << std::endl
 					 << "Caught a g_processing_exception exception while retrieving a future" << std::endl
-- 
2.43.0


From 033fdd53e30ee265cdbe63140f3725f9d2e15179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 16/87] fix: check the result of the conversion in load_() of
 GSerialExecutorT and GMTExecutorT

---
 include/courtier/GExecutorT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index f66a174..2af49d0 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1112,7 +1112,7 @@ protected:
 	 void load_(const GBaseExecutorT<processable_type> *cp) override {
 		 const auto p_load_ptr = dynamic_cast<GSerialExecutorT<processable_type> const *const>(cp);
 
-		 if (not cp) { // nullptr
+		 if (not p_load_ptr) { // nullptr
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GSerialExecutorT<processable_type>::load_(): Conversion error!" << std::endl
@@ -1448,7 +1448,7 @@ protected:
 	 void load_(const GBaseExecutorT<processable_type> *cp) override {
 		 const auto p_load_ptr = dynamic_cast<const GMTExecutorT<processable_type> *>(cp);
 
-		 if (not cp) { // nullptr
+		 if (not p_load_ptr) { // nullptr
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GMTExecutorT<processable_type>::load_(): Conversion error!" << std::endl
-- 
2.43.0


From 31716be230db34d49522355a30fe780b26023ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 17/87] fix: do not wait for work items in GBrokerExecutorT if
 none were submitted

---
 include/courtier/GExecutorT.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 2af49d0..7759ac3 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -647,7 +647,7 @@ protected:
 		 m_n_erroneousItems += this->countItemsWithStatus(workItems, processingStatus::EXCEPTION_CAUGHT);
 
 		 // Make it known that the first iteration has ended (if this is the first iteration)
-		 if(m_in_first_iteration) {
+		 if(m_in_first_iteration && this->checkItemsSubmittedInObject()) {
 			 m_in_first_iteration = false;
 		 }
 
@@ -783,7 +783,7 @@ protected:
 		 // Set the start time of the new cycle. How this time is determined depends
 		 // on the actual executor. NOTE that the following call may block, if a start time cannot
 		 // yet be determined.
-		 if(this->inFirstIteration() && this->inFirstCycle()) {
+		 if(nSubmittedItems > 0 && this->inFirstIteration() && this->inFirstCycle()) {
 			 m_approx_cycle_start_time = this->determineInitialCycleStartTime();
 		 } else {
 			 m_approx_cycle_start_time = m_cycle_first_submission_time;
@@ -2145,6 +2145,11 @@ protected:
 		 std::vector<std::shared_ptr<processable_type>>& workItems
 		 , std::vector<std::shared_ptr<processable_type>>& oldWorkItems
 	 ) override {
+		 // Nothing to wait for, if no work items were submitted
+		 if(0 == this->getExpectedNumber()) {
+			 return this->checkExecutionState(workItems);
+		 }
+
 		 // Act depending on the capabilities of the consumer or user-preferences
 		 return
 			 (m_capable_of_full_return || m_waitFactor == 0.)?
-- 
2.43.0


From 8fce5de1b20b88f6faf8e7da3eea533921339c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 18/87] fix: let GBrokerExecutorT cope with old work items
 arriving before any current ones

---
 include/courtier/GExecutorT.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 7759ac3..3d82e84 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2243,8 +2243,9 @@ private:
 			 if(status.is_complete) break;
 
 			 // For succesfully processed items, update the internal timeout variables,
-			 // so we know how much longer this cycle should run
-			 if(w_ptr->is_processed()) {
+			 // so we know how much longer this cycle should run. Items of earlier
+			 // iterations alone do not allow to calculate a timeout.
+			 if(w_ptr->is_processed() && m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
 		 } while(not halt());
-- 
2.43.0


From 75ecf34a0f679be7bae75e349fee8e3ee566ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 19/87] fix: treat negative wait factors as "no timeout" in
 GBrokerExecutorT, as documented

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 3d82e84..63a4858 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2152,7 +2152,7 @@ protected:
 
 		 // Act depending on the capabilities of the consumer or user-preferences
 		 return
-			 (m_capable_of_full_return || m_waitFactor == 0.)?
+			 (m_capable_of_full_return || m_waitFactor <= 0.)?
 			 this->waitForFullReturn(workItems, oldWorkItems):
 			 this->waitForTimeOut(workItems, oldWorkItems);
 	 }
-- 
2.43.0


From 05799ed908e285136e0e444a786ecccc5e574af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 20/87] fix: consider all fitness criteria when checking for
 Pareto dominance

---
 .../G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index b3124d7..957fa0c 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -1172,12 +1172,17 @@ bool GEvolutionaryAlgorithm::aDominatesB(
 #endif
 
 	// x dominates y, if none of its fitness criteria is worse than the
-	// corresponding criterion from y
+	// corresponding criterion from y and at least one of them is better
+	bool isBetterInOneCriterion = false;
 	for (std::size_t i = 0; i < nCriteriaX; i++) {
-		if(isWorse(x_ptr, y_ptr)) return false;
+		double x_fitness = minOnly_transformed_fitness(x_ptr, i);
+		double y_fitness = minOnly_transformed_fitness(y_ptr, i);
+
+		if(y_fitness < x_fitness) return false;
+		if(x_fitness < y_fitness) isBetterInOneCriterion = true;
 	}
 
-	return true;
+	return isBetterInOneCriterion;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 17f6d8509df25b4f9d4bf717a772d42bf6b36618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 21/87] fix: keep the order of parents when fixing the
 population after job submission

---
 src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index 957fa0c..f74af0d 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -600,8 +600,9 @@ void GEvolutionaryAlgorithm::fixAfterJobSubmission() {
 		[iteration](std::shared_ptr <GParameterSet> p) { p->setAssignedIteration(iteration); }
 	);
 
-	// Make sure that parents are at the beginning of the array.
-	sort(
+	// Make sure that parents are at the beginning of the array. The order of
+	// parents must be retained, as the best parent is assumed to come first
+	std::stable_sort(
 		this->begin()
 		, this->end()
 		, [](std::shared_ptr<GParameterSet> x, std::shared_ptr<GParameterSet> y) -> bool {
-- 
2.43.0


From 3ef6b84e5737303f4698a7e12aec719593c4608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 22/87] fix: check population sizes also for Pareto selection
 modes

---
 .../G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index f74af0d..71e41e2 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -393,9 +393,11 @@ void GEvolutionaryAlgorithm::populationSanityChecks_() const {
 	// as it is theoretically possible that all children are better than the former
 	// parents, so that the first parent individual will be replaced.
 	std::size_t popSize = this->getPopulationSize();
-	if ( // TODO: Why are PARETO modes missing here ?
-		((m_sorting_mode == sortingMode::MUCOMMANU_SINGLEEVAL || m_sorting_mode == sortingMode::MUNU1PRETAIN_SINGLEEVAL) && (popSize < 2 * this->m_n_parents)) ||
-		(m_sorting_mode == sortingMode::MUPLUSNU_SINGLEEVAL && popSize <= this->m_n_parents)
+	// The PARETO modes fall back to the corresponding SINGLEEVAL modes, if there is just
+	// one evaluation criterion, and thus have the same requirements.
+	if (
+		((m_sorting_mode == sortingMode::MUCOMMANU_SINGLEEVAL || m_sorting_mode == sortingMode::MUNU1PRETAIN_SINGLEEVAL || m_sorting_mode == sortingMode::MUCOMMANU_PARETO) && (popSize < 2 * this->m_n_parents)) ||
+		((m_sorting_mode == sortingMode::MUPLUSNU_SINGLEEVAL || m_sorting_mode == sortingMode::MUPLUSNU_PARETO) && popSize <= this->m_n_parents)
 		) {
 		std::ostringstream error;
 		error
-- 
2.43.0


From 90794439e31e3b91d1a06a6da76efba9f0bdc2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 23/87] fix: keep the additional children when growing the
 population

---
 src/geneva/G_OptimizationAlgorithm_ParChild.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
index a5b2c24..ed082d6 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
@@ -664,6 +664,10 @@ void G_OptimizationAlgorithm_ParChild::performScheduledPopulationGrowth() {
 
 		// Add missing items as copies of the last individual in the list
 		this->resize_clone(G_OptimizationAlgorithm_Base::getDefaultPopulationSize(), G_OptimizationAlgorithm_Base::m_data_cnt[0]);
+
+		// Let the selection step know about the new number of children, so the
+		// population isn't cut back to its former size
+		m_default_n_children = G_OptimizationAlgorithm_Base::getDefaultPopulationSize() - m_n_parents;
 	}
 }
 
-- 
2.43.0


From 16223a01c52f21b4800630c967b70120015fd472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 24/87] fix: check new instead of old values when setting
 minimum and maximum iterations

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index a960af7..aa2e44a 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -844,11 +844,11 @@ std::size_t G_OptimizationAlgorithm_Base::getPopulationSize() const {
 void G_OptimizationAlgorithm_Base::setMaxIteration(std::uint32_t maxIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(maxIteration > 0 && maxIteration <= m_minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMaxIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	maxIteration << " is <= the minimum number " << m_minIteration << std::endl
 		);
 	}
 
@@ -877,11 +877,11 @@ std::uint32_t G_OptimizationAlgorithm_Base::getMaxIteration() const {
 void G_OptimizationAlgorithm_Base::setMinIteration(std::uint32_t minIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(m_maxIteration > 0 && m_maxIteration <= minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMinIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << minIteration << std::endl
 		);
 	}
 
-- 
2.43.0


From 641a19e9d4e3b5aba5a337a8c4855fc344139bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 25/87] fix: mark the full number of parents when individuals
 have been lost

---
 src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index 71e41e2..10096ba 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -574,7 +574,7 @@ void GEvolutionaryAlgorithm::runFitnessCalculation_() {
  * TODO: Make this a plugin for the executor?
  */
 void GEvolutionaryAlgorithm::fixAfterJobSubmission() {
-	std::size_t np = this->getNParents();
+	std::size_t np = this->m_n_parents; // Note: getNParents() would take into account items that haven't returned
 	std::uint32_t iteration = this->getIteration();
 
 	// Retrieve a vector of old work items
-- 
2.43.0


From c46456d7e1b266559d0898069f56e17176702603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 26/87] fix: report failures when writing objects to file

---
 include/common/GCommonInterfaceT.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/common/GCommonInterfaceT.hpp b/include/common/GCommonInterfaceT.hpp
index 53b012f..f22e6f0 100644
--- a/include/common/GCommonInterfaceT.hpp
+++ b/include/common/GCommonInterfaceT.hpp
@@ -300,6 +300,18 @@ public:
         );
         ofstr.close();
 
+        // Make sure all data has indeed been written
+        if (not ofstr) {
+            throw gemfony_exception(
+                g_error_streamer(
+                    DO_LOG
+                    , time_and_place
+                )
+                    << "In GCommonInterfaceT::toFile():" << std::endl
+                    << "Problems writing to file " << p.string() << std::endl
+            );
+        }
+
 #ifdef DEBUG
         if (not std::filesystem::exists(std::filesystem::path(p))) {
             throw gemfony_exception(
-- 
2.43.0


From 74fc56d53fa4daba18a1a52766d07c39970b3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 27/87] fix: do not remove a checkpoint file that has just been
 written

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index aa2e44a..c1dd6a3 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -265,7 +265,8 @@ void G_OptimizationAlgorithm_Base::checkpoint(bool is_better) const {
 		saveCheckpoint(output_file);
 
 		// Remove the last checkoint file if requested by the user
-		if(m_cp_remove && m_cp_last != "empty") {
+		// (unless it was just overwritten with the current state)
+		if(m_cp_remove && m_cp_last != "empty" && m_cp_last != output_file.string()) {
 			if(std::filesystem::exists(std::filesystem::path(m_cp_last))) {
 				std::filesystem::remove(std::filesystem::path(m_cp_last));
 			}
-- 
2.43.0


From 5996bb4fd894359fb0ce1942d5371a616ce389a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 28/87] fix: let simulated annealing start with the temperature
 set by the user

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index f481268..cc61089 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -244,6 +244,7 @@ void GSimulatedAnnealing::setT0(double t0) {
 	}
 
 	m_t0 = t0;
+	m_t = t0; // Optimization starts with this temperature
 }
 
 /******************************************************************************/
-- 
2.43.0


From 84aee3ce19514f7fed2e0e9cc9eec7d9a9fe202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 29/87] fix: check that simulated annealing has as many
 children as parents

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index cc61089..ce1fd50 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -324,7 +324,7 @@ void GSimulatedAnnealing::populationSanityChecks_() const {
 
 	// We need at least as many children as parents
 	std::size_t popSize = this->getPopulationSize();
-	if (popSize <= this->m_n_parents) {
+	if (popSize < 2*this->m_n_parents) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GSimulatedAnnealing::populationSanityChecks() :" << std::endl
-- 
2.43.0


From 06d92289613b72cb650fd9e0cb5a549373fe68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 30/87] fix: keep order and number of parents when fixing the
 population in simulated annealing

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index ce1fd50..196838e 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -467,7 +467,7 @@ void GSimulatedAnnealing::runFitnessCalculation_() {
  * Fixes the population after a job submission
  */
 void GSimulatedAnnealing::fixAfterJobSubmission() {
-	std::size_t np = this->getNParents();
+	std::size_t np = this->m_n_parents; // Some parents may have been lost
 	std::uint32_t iteration = this->getIteration();
 
 	// Retrieve a vector of old work items
@@ -495,7 +495,8 @@ void GSimulatedAnnealing::fixAfterJobSubmission() {
 	);
 
 	// Make sure that parents are at the beginning of the array.
-	sort(
+	// The order of parents must not change.
+	std::stable_sort(
 		this->begin()
 		, this->end()
 		, [](std::shared_ptr<GParameterSet> x, std::shared_ptr<GParameterSet> y) -> bool {
-- 
2.43.0


From a1c760a0238925a59adba15feea7a688aea4832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 31/87] fix: do not lose the best start individual when
 simulated annealing accepts a worse child

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index 196838e..ba06f7e 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -657,18 +657,20 @@ void GSimulatedAnnealing::sortSAMode() {
 	);
 
 	// Check for each parent whether it should be replaced by the corresponding child
+	// Note that a former parent takes the position of its child, so that a good solution
+	// is still available for the book-keeping of the best individuals.
 	for (std::size_t np = 0; np < this->m_n_parents; np++) {
 		double pPass = saProb(
 			minOnly_transformed_fitness(this->at(np))
 			, minOnly_transformed_fitness(this->at(this->m_n_parents + np))
 		);
 		if (pPass >= 1.) {
-			this->at(np)->GObject::load(this->at(this->m_n_parents + np));
+			std::swap(this->at(np), this->at(this->m_n_parents + np));
 		} else {
 			double challenge =
 				this->m_uniform_real_distribution(this->m_gr, std::uniform_real_distribution<double>::param_type(0.,1.));
 			if (challenge < pPass) {
-				this->at(np)->GObject::load(this->at(this->m_n_parents + np));
+				std::swap(this->at(np), this->at(this->m_n_parents + np));
 			}
 		}
 	}
-- 
2.43.0


From 97306bcb11e7092ae2eefcd12e0e2ee91cb42997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 32/87] fix: check the arguments of
 GGradientDescent::setFiniteStep() and setStepSize() instead of the current
 values

---
 .../G_OptimizationAlgorithm_GradientDescent.cpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index 22e9fcb..7734eef 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -104,12 +104,12 @@ void GGradientDescent::setNStartingPoints(std::size_t nStartingPoints) {
  * @param finiteStep The desired size of the adaption
  */
 void GGradientDescent::setFiniteStep(double finiteStep) {
-	// Check that finiteStep_ has an appropriate value
-	if (finiteStep_ <= 0. || finiteStep_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	// Check that finiteStep has an appropriate value
+	if (finiteStep <= 0. || finiteStep > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setFiniteStep(double): Error!" << std::endl
-				<< "Invalid values of finiteStep_: " << finiteStep_ << std::endl
+				<< "Invalid values of finiteStep: " << finiteStep << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
@@ -134,12 +134,12 @@ double GGradientDescent::getFiniteStep() const {
  * @param stepSize A multiplicative factor for the adaption process
  */
 void GGradientDescent::setStepSize(double stepSize) {
-	// Check that stepSize_ has an appropriate value
-	if (stepSize_ <= 0. || stepSize_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	// Check that stepSize has an appropriate value
+	if (stepSize <= 0. || stepSize > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setStepSize(double): Error!" << std::endl
-				<< "Invalid values of stepSize_: " << stepSize_ << std::endl
+				<< "Invalid values of stepSize: " << stepSize << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
-- 
2.43.0


From 876a992dff93ef281082bb5b6e15695a683b18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 33/87] fix: compare the number of values with the parameters
 selected in GParameterSet::assignValueVector()

---
 include/geneva/GParameterSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index 9b7ec26..ee16ed3 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -672,14 +672,14 @@ public:
         , activityMode const &am = activityMode::DEFAULTACTIVITYMODE
     ) {
 #ifdef DEBUG
-        if (countParameters<par_type>() != parVec.size()) {
+        if (countParameters<par_type>(am) != parVec.size()) {
             throw gemfony_exception(
                 g_error_streamer(
                     DO_LOG
                     , time_and_place
                 )
                     << "In GParameterSet::assignValueVector(const std::vector<pat_type>&):" << std::endl
-                    << "Sizes don't match: " << countParameters<par_type>() << " / " << parVec.size() << std::endl
+                    << "Sizes don't match: " << countParameters<par_type>(am) << " / " << parVec.size() << std::endl
             );
         }
 #endif /* DEBUG */
-- 
2.43.0


From 44fe7cd000d9b9a3051d78d0438c670059459f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 34/87] fix: copy values and number of steps together with a
 parameter of a parameter scan

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 014efcc..81a8eea 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -212,9 +212,10 @@ public:
      * random number generator.
      */
     baseScanParT(const baseScanParT<T> &cp)
-        : m_var(cp.m_var)
+        : Gem::Common::GPODVectorT<T>(cp)
+        , m_var(cp.m_var)
         , m_step(cp.m_step)
-        , m_nSteps(cp.m_step)
+        , m_nSteps(cp.m_nSteps)
         , m_lower(cp.m_lower)
         , m_upper(cp.m_upper)
         , m_randomScan(cp.m_randomScan)
-- 
2.43.0


From 7c27e8b0362ee7f0927b4dda51baf9f8326c07c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 35/87] fix: do not exceed the upper boundary of integers in
 random parameter scans

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 81a8eea..1c5eba2 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -422,7 +422,7 @@ inline std::int32_t baseScanParT<std::int32_t>::getRandomItem(
         gr
         , std::uniform_int_distribution<std::int32_t>::param_type(
             m_lower
-            , m_upper + 1
+            , m_upper
         ));
 }
 
-- 
2.43.0


From 68c47fd24ba23a1b0b2cd8884cdf9b5771486ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 36/87] fix: visit exactly the available values of integer and
 boolean parameters in grid scans

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 1c5eba2..18184e5 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -203,6 +203,10 @@ public:
                 , m_lower
                 , m_upper
             );
+
+            // The number of values may differ from the number of steps
+            // requested (e.g. for boolean and integer parameters)
+            m_nSteps = this->m_data_cnt.size();
         }
     }
 
-- 
2.43.0


From 2d14da5e06ef70b1c4d011cbec14b357ce468a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 37/87] fix: recognize the last item in
 baseScanParT<>::isAtTerminalPosition()

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 18184e5..8c8f5b0 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -281,7 +281,7 @@ public:
      * Checks whether step_ points to the last item in the array
      */
     bool isAtTerminalPosition() const override {
-        return m_step >= m_nSteps;
+        return m_step + 1 >= m_nSteps;
     }
 
     /***************************************************************************/
-- 
2.43.0


From 1918af2b2af64602477a4e504fbc31c0eb21c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 38/87] fix: perform exactly the requested number of random
 evaluations in simple parameter scans

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 0620faa..63d94f0 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -738,11 +738,6 @@ void GParameterScan::randomShuffle() {
 		// We were successful
 		m_cycleLogicHalt = false;
 
-		//------------------------------------------------------------------------
-		// We do not want to exceed the boundaries of the population -- stop
-		// if we have reached the end of the population
-		if (++indPos >= this->getDefaultPopulationSize()) break;
-
 		//------------------------------------------------------------------------
 		// Make sure we terminate when the desired overall number of random scans has
 		// been performed
@@ -759,6 +754,11 @@ void GParameterScan::randomShuffle() {
 			// Terminate the loop
 			break;
 		}
+
+		//------------------------------------------------------------------------
+		// We do not want to exceed the boundaries of the population -- stop
+		// if we have reached the end of the population
+		if (++indPos >= this->size()) break;
 	}
 }
 
-- 
2.43.0


From 72c7fff8d3e617ef65991ca0a83fae77ad56bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 39/87] fix: keep the number of simple scans when parameter
 scans finish or are reset

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 63d94f0..11afb4c 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -786,8 +786,6 @@ void GParameterScan::resetParameterObjects() {
 	for (d_it = m_d_cnt.begin(); d_it != m_d_cnt.end(); ++d_it) {
 		(*d_it)->resetPosition();
 	}
-
-	m_simpleScanItems = std::size_t(0);
 }
 
 /******************************************************************************/
-- 
2.43.0


From 99c59bd6b821c9ce411123d0bc46f5ccd14fd4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 40/87] fix: do not exceed the population if a parameter scan
 continues with fewer individuals

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 11afb4c..a896be2 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -717,7 +717,7 @@ void GParameterScan::updateSelectedParameters() {
 
 		//------------------------------------------------------------------------
 		// We do not want to exceed the boundaries of the population
-		if (++indPos >= this->getDefaultPopulationSize()) break;
+		if (++indPos >= this->size()) break;
 	}
 }
 
-- 
2.43.0


From aa87ac8fbed1d57ef3294deef32bb8db1bb229b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 41/87] fix: refuse parameter scans without any parameters

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index a896be2..70acaf6 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -1190,6 +1190,15 @@ void GParameterScan::init() {
 
 	// Copy all parameter objects to the central vector for easier handling
 	this->fillAllParVec();
+
+	// There must be something to be scanned
+	if (0 == m_simpleScanItems && m_all_par_cnt.empty()) {
+		throw gemfony_exception(
+			g_error_streamer(DO_LOG,  time_and_place)
+				<< "In GParameterScan::init(): Error!" << std::endl
+				<< "No parameters and no number of random scans were specified" << std::endl
+		);
+	}
 }
 
 /******************************************************************************/
-- 
2.43.0


From 0d94232b25e1d406751e25fe3d6cd272051435fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 42/87] fix: let integer grids of parameter scans end at the
 largest integer

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 70acaf6..400b7ef 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -75,8 +75,8 @@ std::vector<std::int32_t> fillWithData<std::int32_t>(
 	, std::int32_t upper // inclusive
 ) {
 	std::vector<std::int32_t> result;
-	for (std::int32_t i = lower; i <= upper; i++) {
-		result.push_back(i);
+	for (std::int64_t i = lower; i <= upper; i++) {
+		result.push_back(std::int32_t(i));
 	}
 	return result;
 }
-- 
2.43.0


From a664e9aa09bed91d61f191df6093b32200d3f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 43/87] fix: apply the scan mode from configuration files of
 parameter scans

---
 .../G_OptimizationAlgorithm_ParameterScan.cpp     | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 400b7ef..b82a981 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -974,13 +974,7 @@ void GParameterScan::addConfigurationOptions_(
 	)
 		<< "The total size of the population";
 
-	gpb.registerFileParameter<std::string>(
-		"parameterOptions"
-		, std::string("d(0, -10., 10., 100), d(1, -10., 10., 100)")
-		, [this](std::string parSpecs) { this->setParameterSpecs(parSpecs); }
-	)
-		<< "Specification of the parameters to be used in the parameter scan" << std::endl;
-
+	// Needs to be known when the parameter specifications are evaluated
 	gpb.registerFileParameter<bool>(
 		"scanRandomly" // The name of the variable
 		, true // The default value
@@ -989,6 +983,13 @@ void GParameterScan::addConfigurationOptions_(
 		<< "Indicates whether scans of individual variables should be done randomly" << std::endl
 		<< "(1) or on a grid (0)";
 
+	gpb.registerFileParameter<std::string>(
+		"parameterOptions"
+		, std::string("d(0, -10., 10., 100), d(1, -10., 10., 100)")
+		, [this](std::string parSpecs) { this->setParameterSpecs(parSpecs); }
+	)
+		<< "Specification of the parameters to be used in the parameter scan" << std::endl;
+
 	// Override the default value of maxStallIteration, as the parent
 	// default does not make sense for us (we do not need stall iterations)
 	gpb.resetFileParameterDefaults(
-- 
2.43.0


From 056fb7ce086d593625aa47a64d9967694ea79ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 44/87] fix: update personal bests of swarm individuals with
 better instead of worse solutions

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index d0e1164..99b3204 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -497,8 +497,8 @@ void GSwarmAlgorithm::updatePersonalBestIfBetter(
 
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
 	if(isBetter(
-		std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
-		, ind_ptr->transformed_fitness(0)
+		ind_ptr->transformed_fitness(0)
+		, std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
 		, m
 	)) {
 		ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->registerPersonalBest(ind_ptr);
-- 
2.43.0


From 8e8ed558068897cb102b448ea495062d6b0cc7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 45/87] fix: register personal bests of swarm individuals which
 return for the first time after the first iteration

---
 ...mizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp | 2 ++
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp     | 5 ++++-
 ...mizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp | 8 ++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
index b480cc8..34a437b 100644
--- a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
@@ -100,6 +100,8 @@ public:
 
     /** @brief Allows to add a new personal best to the individual */
     G_API_GENEVA void registerPersonalBest(std::shared_ptr<GParameterSet>);
+    /** @brief Checks whether a personal best has been registered */
+    G_API_GENEVA bool hasPersonalBest() const;
     /** @brief Allows to retrieve the personal best individual */
     G_API_GENEVA std::shared_ptr<GParameterSet> getPersonalBest() const;
     /** @brief Resets the personal best individual */
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 99b3204..a81fbd1 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -496,7 +496,8 @@ void GSwarmAlgorithm::updatePersonalBestIfBetter(
 #endif /* DEBUG */
 
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
-	if(isBetter(
+	// Individuals returning for the first time (e.g. late items from the first iteration) do not have a personal best yet
+	if(not ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->hasPersonalBest() || isBetter(
 		ind_ptr->transformed_fitness(0)
 		, std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
 		, m
@@ -832,6 +833,8 @@ void GSwarmAlgorithm::adjustNeighborhoods() {
 					// Randomly initialize the item and prevent position updates
 					(*(m_data_cnt.begin() + firstNIPos))->randomInit(activityMode::ACTIVEONLY);
 					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->setNoPositionUpdate();
+					// The new individual must not inherit the personal best of another one
+					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->resetPersonalBest();
 
 					// Set the neighborhood as required
 					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->setNeighborhood(n);
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
index 56edc9c..2759afc 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
@@ -204,6 +204,14 @@ void GSwarmAlgorithm_PersonalityTraits::registerPersonalBest(std::shared_ptr<GPa
  * ----------------------------------------------------------------------------------
  */
 
+/******************************************************************************/
+/**
+ * Checks whether a personal best has been registered
+ */
+bool GSwarmAlgorithm_PersonalityTraits::hasPersonalBest() const {
+	return bool(personal_best_);
+}
+
 /******************************************************************************/
 /**
  * Allows to retrieve the personally best individual
-- 
2.43.0


From 31bbea72b3c7b3c1502c7c6efc88dee4c75035ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 46/87] fix: do not store swarm velocities in individuals,
 which map them into parameter boundaries

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.hpp |  4 +-
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 45 +++++--------------
 2 files changed, 13 insertions(+), 36 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp
index 35116fe..44a4422 100644
--- a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp
@@ -256,7 +256,7 @@ protected:
 		 , std::shared_ptr<GParameterSet>
 		 , std::shared_ptr<GParameterSet>
 		 , std::shared_ptr<GParameterSet>
-		 , std::shared_ptr<GParameterSet>
+		 , std::vector<double>&
 		 , std::tuple<double, double, double, double>
 	 );
 
@@ -275,7 +275,7 @@ protected:
 	 std::shared_ptr<GParameterSet> m_global_best_ptr; ///< The globally best individual
 
 	 std::vector<std::shared_ptr<GParameterSet>> m_neighborhood_bests_cnt = std::vector<std::shared_ptr<GParameterSet>>(m_n_neighborhoods); ///< The collection of best individuals from each neighborhood
-	 std::vector<std::shared_ptr<GParameterSet>> m_velocities_cnt = std::vector<std::shared_ptr<GParameterSet>>(); ///< Holds velocities, as calculated in the previous iteration
+	 std::vector<std::vector<double>> m_velocities_cnt = std::vector<std::vector<double>>(); ///< Holds velocities, as calculated in the previous iteration
 
 	 double m_c_personal = DEFAULTCPERSONAL; ///< A factor for multiplication of personal best distances
 	 double m_c_neighborhood = DEFAULTCNEIGHBORHOOD; ///< A factor for multiplication of neighborhood best distances
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index a81fbd1..f92d4cb 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -280,7 +280,7 @@ void GSwarmAlgorithm::resetToOptimizationStart_() {
 	m_global_best_ptr.reset(); // The globally best individual
 
 	m_neighborhood_bests_cnt = std::vector<std::shared_ptr<GParameterSet>>(m_n_neighborhoods); // The collection of best individuals from each neighborhood
-	m_velocities_cnt = std::vector<std::shared_ptr<GParameterSet>>(); // Holds velocities, as calculated in the previous iteration
+	m_velocities_cnt = std::vector<std::vector<double>>(); // Holds velocities, as calculated in the previous iteration
 
 	m_dbl_lower_parameter_boundaries_cnt.clear(); // Holds lower boundaries of double parameters
 	m_dbl_upper_parameter_boundaries_cnt.clear(); // Holds upper boundaries of double parameters
@@ -634,7 +634,7 @@ void GSwarmAlgorithm::init() {
 	// Make sure the m_velocities_cnt vector is really empty
 	m_velocities_cnt.clear();
 
-	// Create copies of our individuals in the m_velocities_cnt vector.
+	// Create a velocity for each individual in the m_velocities_cnt vector.
 	std::size_t pos = 0;
 	for(const auto& ind_ptr: *this) {
 #ifdef DEBUG
@@ -647,15 +647,9 @@ void GSwarmAlgorithm::init() {
 		}
 #endif /* DEBUG */
 
-		// Create a copy of the current individual. Note that, if you happen
-		// to have assigned anything else than a GParameterSet derivative to
-		// the swarm, then the following line will throw in DEBUG mode or return
-		// undefined results in RELEASE mode
-		std::shared_ptr<GParameterSet> p(ind_ptr->clone<GParameterSet>());
-
-		// Extract the parameter vector
+		// Extract the parameter vector, so that the velocity has the correct size
 		std::vector<double> velVec;
-		p->streamline(velVec, activityMode::ACTIVEONLY);
+		ind_ptr->streamline(velVec, activityMode::ACTIVEONLY);
 
 #ifdef DEBUG
 		// Check that the number of parameters equals those in the velocity boundaries
@@ -677,12 +671,9 @@ void GSwarmAlgorithm::init() {
 				G_OptimizationAlgorithm_Base::m_uniform_real_distribution(m_gr, std::uniform_real_distribution<double>::param_type(-range,range));
 		}
 
-		// Load the array into the velocity object
-		p->assignValueVector<double>(velVec, activityMode::ACTIVEONLY);
-		p->mark_as_due_for_processing(); // Catch cases where a value is calculated for the velocity individual
-
-		// Add the initialized velocity to the array.
-		m_velocities_cnt.push_back(p);
+		// Add the initialized velocity to the array. Note that velocities must not be stored
+		// in individuals, as constrained parameters would map them into their own boundaries.
+		m_velocities_cnt.push_back(velVec);
 
 		pos++;
 	}
@@ -701,8 +692,7 @@ void GSwarmAlgorithm::init() {
  * Does any necessary finalization work
  */
 void GSwarmAlgorithm::finalize() {
-	// Remove remaining velocity individuals. The std::shared_ptr<GParameterSet>s
-	// will take care of deleting the GParameterSet objects.
+	// Remove remaining velocities.
 	m_velocities_cnt.clear();
 
 	// Last action
@@ -1000,7 +990,7 @@ void GSwarmAlgorithm::updateIndividualPositions(
 	, std::shared_ptr <GParameterSet> ind
 	, std::shared_ptr <GParameterSet> neighborhood_best
 	, std::shared_ptr <GParameterSet> global_best
-	, std::shared_ptr <GParameterSet> velocity
+	, std::vector<double>& velVec
 	, std::tuple<double, double, double, double> constants
 ) {
 	// Extract the constants from the tuple
@@ -1049,24 +1039,14 @@ void GSwarmAlgorithm::updateIndividualPositions(
 		);
 	}
 
-	if(not velocity) {
-		throw gemfony_exception(
-			g_error_streamer(DO_LOG,  time_and_place)
-				<< "In GSwarmAlgorithm::updateIndividualPositions():" << std::endl
-				<< "Found empty individual \"velocity\"" << std::endl
-		);
-	}
-
 #endif /* DEBUG */
 
-	// Extract the vectors for the individual, the personal, neighborhood and global bests,
-	// as well as the velocity
-	std::vector<double> indVec, personalBestVec, nbhBestVec, glbBestVec, velVec;
+	// Extract the vectors for the individual, the personal, neighborhood and global bests
+	std::vector<double> indVec, personalBestVec, nbhBestVec, glbBestVec;
 	ind->streamline(indVec, activityMode::ACTIVEONLY);
 	personal_best->streamline(personalBestVec, activityMode::ACTIVEONLY);
 	neighborhood_best->streamline(nbhBestVec, activityMode::ACTIVEONLY);
 	global_best->streamline(glbBestVec, activityMode::ACTIVEONLY);
-	velocity->streamline(velVec, activityMode::ACTIVEONLY);
 
 	// Subtract the individual vector from the personal, neighborhood and global bests
 	Gem::Common::subtractVec<double>(personalBestVec, indVec);
@@ -1117,9 +1097,6 @@ void GSwarmAlgorithm::updateIndividualPositions(
 		Gem::Common::addVec<double>(indVec, velVec); // attraction - walk towards best known individuals
 	}
 
-	// Update the velocity individual
-	velocity->assignValueVector<double>(velVec, activityMode::ACTIVEONLY);
-
 	// Update the candidate solution
 	ind->assignValueVector<double>(indVec, activityMode::ACTIVEONLY);
 }
-- 
2.43.0


From 291bbce93129807c37a3cbbd6fafa8df36c7cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 47/87] fix: load the global best of a swarm instead of a clone
 of the algorithm

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index f92d4cb..c825420 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -199,7 +199,7 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 		if (m_global_best_ptr) { // If we already have a global best, just load the other objects global best
 			m_global_best_ptr->GObject::load(p_load->m_global_best_ptr);
 		} else {
-			m_global_best_ptr = p_load->GObject::clone<GParameterSet>();
+			m_global_best_ptr = p_load->m_global_best_ptr->clone<GParameterSet>();
 		}
 	}
 	else if (p_load->inFirstIteration()) { // cp does not have a global best
-- 
2.43.0


From 35454895797e81f8edd84aef2b75cf649f5fb995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 48/87] fix: adapt arrays to the number of neighborhoods in
 GSwarmAlgorithm::setSwarmSizes()

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index c825420..550e4d2 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -331,6 +331,10 @@ void GSwarmAlgorithm::setSwarmSizes(
 	m_n_neighborhoods = (nNeighborhoods >= 1) ? nNeighborhoods : 1;
 	m_default_n_neighborhood_members = (defaultNNeighborhoodMembers >= 2) ? defaultNNeighborhoodMembers : 2;
 
+	// Make sure our arrays can hold information about all neighborhoods
+	m_n_neighborhood_members_cnt.resize(m_n_neighborhoods, 0);
+	m_neighborhood_bests_cnt.resize(m_n_neighborhoods);
+
 	// Update our parent class'es values
 	G_OptimizationAlgorithm_Base::setDefaultPopulationSize(m_n_neighborhoods * m_default_n_neighborhood_members);
 }
-- 
2.43.0


From 52f18dc2a8d66b943f5a3b45a6ea4b514c1cc545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 49/87] fix: correct the inverted result of
 GSwarmAlgorithm::neighborhoodsHaveNominalValues()

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 550e4d2..dd05ad6 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -863,7 +863,7 @@ void GSwarmAlgorithm::adjustNeighborhoods() {
  */
 bool GSwarmAlgorithm::neighborhoodsHaveNominalValues() const {
 	for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
-		if (m_n_neighborhood_members_cnt[n] == m_default_n_neighborhood_members) return false;
+		if (m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) return false;
 	}
 	return true;
 }
-- 
2.43.0


From b5a806fdbaa72de2e29d25557b68033afc474181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 50/87] fix: deal with swarm neighborhoods of which no
 individual has returned

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index dd05ad6..b8ad542 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -102,7 +102,7 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	// Clone cp's best individuals in each neighborhood
 	if (cp.afterFirstIteration()) {
 		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-			m_neighborhood_bests_cnt[i] = cp.m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
+			Gem::Common::copyCloneableSmartPointer(cp.m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
 		}
 	}
 
@@ -168,7 +168,7 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 			// getIteration will return the "foreign" GSwarmAlgorithm object's iteration, as it has
 			// already been copied.
 			if (afterFirstIteration()) {
-				m_neighborhood_bests_cnt[i] = p_load->m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
+				Gem::Common::copyCloneableSmartPointer(p_load->m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
 			}
 			// we do not need to reset the m_neighborhood_bests_cnt, as that array has just been created
 		}
@@ -179,13 +179,9 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 		// as that value has already been copied.
 		if (afterFirstIteration()) {
 			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-				// We might be in a situation where the std::shared_ptr which usually
+				// We might be in a situation where either of the std::shared_ptr which usually
 				// holds the neighborhood bests has not yet been initialized
-				if (m_neighborhood_bests_cnt[i]) {
-					m_neighborhood_bests_cnt[i]->GObject::load(p_load->m_neighborhood_bests_cnt[i]);
-				} else {
-					m_neighborhood_bests_cnt[i] = p_load->m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
-				}
+				Gem::Common::copyCloneableSmartPointer(p_load->m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
 			}
 		} else {
 			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
@@ -928,14 +924,8 @@ void GSwarmAlgorithm::updatePositions() {
 	for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
 #ifdef DEBUG
 		if(afterFirstIteration()) {
-			if(not m_neighborhood_bests_cnt[n]) {
-				throw gemfony_exception(
-					g_error_streamer(DO_LOG,  time_and_place)
-						<< "In GSwarmAlgorithm::updatePositions():" << std::endl
-						<< "m_neighborhood_bests_cnt[" << n << "] is empty." << std::endl
-				);
-			}
-
+			// Note that there is no neighborhood best yet, if none of the individuals of a neighborhood
+			// has returned so far. Positions are then not updated.
 			if(n==0 && not m_global_best_ptr) { // Only check for the first n
 				throw gemfony_exception(
 					g_error_streamer(DO_LOG,  time_and_place)
@@ -1296,6 +1286,13 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 		std::size_t firstCounter = getFirstNIPos(n);
 		std::size_t lastCounter = getLastNIPos(n);
 
+		// Individuals of this neighborhood may not have returned. There might not be
+		// a neighborhood best then, if this is the first iteration
+		if (firstCounter == lastCounter) {
+			if (inFirstIteration()) m_neighborhood_bests_cnt.at(n).reset();
+			continue;
+		}
+
 		// Only partially sort the arrays
 		std::sort(
 			this->begin() + firstCounter, this->begin() + lastCounter,
@@ -1306,7 +1303,7 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 
 		// Check whether the best individual of the neighborhood is better than
 		// the best individual found so far in this neighborhood
-		if (inFirstIteration()) {
+		if (inFirstIteration() || not m_neighborhood_bests_cnt.at(n)) {
 			m_neighborhood_bests_cnt.at(n) = (*(this->begin() + firstCounter))->clone<GParameterSet>();
 		}
 		else {
@@ -1321,12 +1318,16 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 	}
 
 	// Identify the best individuals among all neighborhood bests
+	bool bestLocalFound = false;
 	for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
-		if(isBetter(
+		if(not m_neighborhood_bests_cnt.at(n)) continue;
+
+		if(not bestLocalFound || isBetter(
 			(m_neighborhood_bests_cnt.at(n))->transformed_fitness(0)
 			, std::get<G_TRANSFORMED_FITNESS>(bestLocalFitness)
 			, m
 		)) {
+			bestLocalFound = true;
 			bestLocalId = n;
 			bestLocalFitness = (m_neighborhood_bests_cnt.at(n))->getFitnessTuple();
 		}
-- 
2.43.0


From 3c3bc47e3e204b653e3e17cc4153b44e7036890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 51/87] fix: accept surplus individuals in the first iteration
 of swarm algorithms

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index b8ad542..e2a1ebb 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -879,8 +879,9 @@ void GSwarmAlgorithm::updatePositions() {
 	auto start = this->begin();
 
 #ifdef DEBUG
-	// Check that all neighborhoods have the default size
-	for(std::size_t n=0; n<m_n_neighborhoods; n++) {
+	// Check that all neighborhoods have the default size. Surplus individuals supplied
+	// by the user are only removed at the end of the first iteration
+	for(std::size_t n=0; afterFirstIteration() && n<m_n_neighborhoods; n++) {
 		if(m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
@@ -910,7 +911,7 @@ void GSwarmAlgorithm::updatePositions() {
 
 #ifdef DEBUG
 	// Cross-check that we have the nominal amount of individuals
-	if(this->size() != m_n_neighborhoods*m_default_n_neighborhood_members) {
+	if(afterFirstIteration() && this->size() != m_n_neighborhoods*m_default_n_neighborhood_members) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GSwarmAlgorithm::updatePositions(): Error!" << std::endl
@@ -936,7 +937,7 @@ void GSwarmAlgorithm::updatePositions() {
 		}
 
 		// Check that the number if individuals in each neighborhoods has the expected value
-		if(m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) {
+		if(afterFirstIteration() && m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
 					<< "In GSwarmAlgorithm::updatePositions(): Error!" << std::endl
-- 
2.43.0


From 7543b74007201821f6688d463fc409fe37300489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 52/87] fix: keep configuration options registered without a
 comment secondary if requested

---
 include/common/GParserBuilder.hpp | 126 +++++++++---------------------
 1 file changed, 35 insertions(+), 91 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index b104fe8..d3a1825 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -2215,19 +2215,11 @@ public:
 
 		 std::shared_ptr<GFileSingleParsableParameterT<parameter_type>> singleParm_ptr;
 
-		 if (comment.empty()) {
-			 singleParm_ptr = std::shared_ptr<GFileSingleParsableParameterT<parameter_type>>(
-				 new GFileSingleParsableParameterT<parameter_type>(
-					 optionName, def_val
-				 )
-			 );
-		 } else {
-			 singleParm_ptr = std::shared_ptr<GFileSingleParsableParameterT<parameter_type>>(
-				 new GFileSingleParsableParameterT<parameter_type>(
-					 optionName, comment, isEssential, def_val
-				 )
-			 );
-		 }
+		 singleParm_ptr = std::shared_ptr<GFileSingleParsableParameterT<parameter_type>>(
+			 new GFileSingleParsableParameterT<parameter_type>(
+				 optionName, comment, isEssential, def_val
+			 )
+		 );
 
 		 singleParm_ptr->registerCallBackFunction(callBack);
 
@@ -2273,19 +2265,11 @@ public:
 
 		 std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>> refParm_ptr;
 
-		 if (comment.empty()) {
-			 refParm_ptr = std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>>(
-				 new GFileReferenceParsableParameterT<parameter_type>(
-					 parameter, optionName, def_val
-				 )
-			 );
-		 } else {
-			 refParm_ptr = std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>>(
-				 new GFileReferenceParsableParameterT<parameter_type>(
-					 parameter, optionName, comment, isEssential, def_val
-				 )
-			 );
-		 }
+		 refParm_ptr = std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>>(
+			 new GFileReferenceParsableParameterT<parameter_type>(
+				 parameter, optionName, comment, isEssential, def_val
+			 )
+		 );
 
 		 // Add to the proxy store
 		 m_file_parameter_proxies.push_back(refParm_ptr);
@@ -2360,19 +2344,11 @@ public:
 
 		 std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>> combParm_ptr;
 
-		 if (comment1.empty() && comment2.empty()) {
-			 combParm_ptr = std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>>(
-				 new GFileCombinedParsableParameterT<par_type1, par_type2>(
-					 optionName1, def_val1, optionName2, def_val2, combined_label
-				 )
-			 );
-		 } else {
-			 combParm_ptr = std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>>(
-				 new GFileCombinedParsableParameterT<par_type1, par_type2>(
-					 optionName1, comment1, def_val1, optionName2, comment2, def_val2, isEssential, combined_label
-				 )
-			 );
-		 }
+		 combParm_ptr = std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>>(
+			 new GFileCombinedParsableParameterT<par_type1, par_type2>(
+				 optionName1, comment1, def_val1, optionName2, comment2, def_val2, isEssential, combined_label
+			 )
+		 );
 
 		 combParm_ptr->registerCallBackFunction(callBack);
 
@@ -2446,19 +2422,11 @@ public:
 
 		 std::shared_ptr<GFileVectorParsableParameterT<parameter_type>> vecParm_ptr;
 
-		 if (comment.empty()) {
-			 vecParm_ptr = std::shared_ptr<GFileVectorParsableParameterT<parameter_type>>(
-				 new GFileVectorParsableParameterT<parameter_type>(
-					 optionName, def_val
-				 )
-			 );
-		 } else {
-			 vecParm_ptr = std::shared_ptr<GFileVectorParsableParameterT<parameter_type>>(
-				 new GFileVectorParsableParameterT<parameter_type>(
-					 optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 vecParm_ptr = std::shared_ptr<GFileVectorParsableParameterT<parameter_type>>(
+			 new GFileVectorParsableParameterT<parameter_type>(
+				 optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 vecParm_ptr->registerCallBackFunction(callBack);
 
@@ -2500,19 +2468,11 @@ public:
 
 		 std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>> vecRefParm_ptr;
 
-		 if (comment.empty()) {
-			 vecRefParm_ptr = std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>>(
-				 new GFileVectorReferenceParsableParameterT<parameter_type>(
-					 stored_reference, optionName, def_val
-				 )
-			 );
-		 } else {
-			 vecRefParm_ptr = std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>>(
-				 new GFileVectorReferenceParsableParameterT<parameter_type>(
-					 stored_reference, optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 vecRefParm_ptr = std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>>(
+			 new GFileVectorReferenceParsableParameterT<parameter_type>(
+				 stored_reference, optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 // Add to the proxy store
 		 m_file_parameter_proxies.push_back(vecRefParm_ptr);
@@ -2584,19 +2544,11 @@ public:
 
 		 std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>> arrayParm_ptr;
 
-		 if (comment.empty()) {
-			 arrayParm_ptr = std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>>(
-				 new GFileArrayParsableParameterT<parameter_type, N>(
-					 optionName, def_val
-				 )
-			 );
-		 } else {
-			 arrayParm_ptr = std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>>(
-				 new GFileArrayParsableParameterT<parameter_type, N>(
-					 optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 arrayParm_ptr = std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>>(
+			 new GFileArrayParsableParameterT<parameter_type, N>(
+				 optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 // Register the call back function
 		 arrayParm_ptr->registerCallBackFunction(callBack);
@@ -2638,19 +2590,11 @@ public:
 #endif /* DEBUG */
 
 		 std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>> arrayRefParm_ptr;
-		 if (comment.empty()) {
-			 arrayRefParm_ptr = std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>>(
-				 new GFileArrayReferenceParsableParameterT<parameter_type, N>(
-					 stored_reference, optionName, def_val
-				 )
-			 );
-		 } else {
-			 arrayRefParm_ptr = std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>>(
-				 new GFileArrayReferenceParsableParameterT<parameter_type, N>(
-					 stored_reference, optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 arrayRefParm_ptr = std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>>(
+			 new GFileArrayReferenceParsableParameterT<parameter_type, N>(
+				 stored_reference, optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 // Add to the proxy store
 		 m_file_parameter_proxies.push_back(arrayRefParm_ptr);
-- 
2.43.0


From 174a32a87c527f9a67c09169040c82dbb5ab5b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 53/87] fix: use the default values of vector options missing
 from configuration files

---
 include/common/GParserBuilder.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index d3a1825..7779429 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1336,7 +1336,13 @@ private:
 		 GVectorParT<parameter_type>::m_par_cnt.clear();
 
 		 std::string ppath = GParsableI::optionName(0) + ".value";
-		 for(auto const& v: pt.get_child(ppath.c_str())) {
+		 auto child_opt = pt.get_child_optional(ppath.c_str());
+		 if (not child_opt) { // Not found -- use the default values
+			 GVectorParT<parameter_type>::m_par_cnt = GVectorParT<parameter_type>::m_def_val_cnt;
+			 return;
+		 }
+
+		 for(auto const& v: *child_opt) {
 			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
 		 }
 	 }
@@ -1495,7 +1501,13 @@ private:
 		 GVectorParT<parameter_type>::m_par_cnt.clear();
 
 		 std::string ppath = GParsableI::optionName(0) + ".value";
-		 for(auto const& v: pt.get_child(ppath.c_str())) {
+		 auto child_opt = pt.get_child_optional(ppath.c_str());
+		 if (not child_opt) { // Not found -- use the default values
+			 GVectorParT<parameter_type>::m_par_cnt = GVectorParT<parameter_type>::m_def_val_cnt;
+			 return;
+		 }
+
+		 for(auto const& v: *child_opt) {
 			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
 		 }
 	 }
-- 
2.43.0


From ce58edb2ae9dc82608507c4f5654f9126ef13c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 54/87] fix: write all default values and values of vector
 options to configuration files

---
 include/common/GParserBuilder.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index 7779429..244599f 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1201,7 +1201,7 @@ public:
 	 )
 		 : GFileParsableI(optionNameVar, commentVar, isEssentialVar)
 		 , m_def_val_cnt(def_val)
-		 , m_par_cnt()
+		 , m_par_cnt(def_val)
 	 { /* nothing */ }
 
 	 /***************************************************************************/
@@ -1225,6 +1225,7 @@ protected:
 	  */
 	 void resetDefault(std::vector<parameter_type> const & def_val) {
 		 m_def_val_cnt = def_val;
+		 m_par_cnt = def_val;
 	 }
 
 	 /***************************************************************************/
@@ -1385,12 +1386,13 @@ private:
 		 }
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
-
-			 par_it++;
+		 }
+		 // Note that the number of values may differ from the number of default values
+		 pt.put((GParsableI::optionName(0) + ".value").c_str(), "");
+		 for(auto const& par: GVectorParT<parameter_type>::m_par_cnt) {
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par);
 		 }
 	 }
 
@@ -1551,12 +1553,13 @@ private:
 
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
-
-			 par_it++;
+		 }
+		 // Note that the number of values may differ from the number of default values
+		 pt.put((GParsableI::optionName(0) + ".value").c_str(), "");
+		 for(auto const& par: GVectorParT<parameter_type>::m_par_cnt) {
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par);
 		 }
 	 }
 
-- 
2.43.0


From 7eaae326f99f8bd20b05b1cce3f45ed0f4adbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 55/87] fix: read back boolean vector options from
 configuration files

---
 include/common/GParserBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index 244599f..986dfe4 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1344,7 +1344,7 @@ private:
 		 }
 
 		 for(auto const& v: *child_opt) {
-			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+			 GVectorParT<parameter_type>::m_par_cnt.push_back(v.second.template get_value<parameter_type>());
 		 }
 	 }
 
@@ -1510,7 +1510,7 @@ private:
 		 }
 
 		 for(auto const& v: *child_opt) {
-			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+			 GVectorParT<parameter_type>::m_par_cnt.push_back(v.second.template get_value<parameter_type>());
 		 }
 	 }
 
-- 
2.43.0


From 8c05e0f2ceb6acbc3f2fda1eb36cc9a1edd9d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 56/87] fix: create default configuration files in the current
 directory

---
 src/common/GParserBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/GParserBuilder.cpp b/src/common/GParserBuilder.cpp
index 18c792d..8b9e6e5 100644
--- a/src/common/GParserBuilder.cpp
+++ b/src/common/GParserBuilder.cpp
@@ -477,13 +477,13 @@ void GParserBuilder::writeConfigFile(
 			);
 		}
 
-		// Check that the target path exists and is a directory
-		if (not std::filesystem::exists(std::filesystem::path(configFile).remove_filename()) ||
-			 not std::filesystem::is_directory(std::filesystem::path(configFile).remove_filename())) { // We need to act on a copy
+		// Check that the target path exists and is a directory. A plain file name refers to the current directory.
+		auto target_path = configFile.has_parent_path() ? configFile.parent_path() : bf::path(".");
+		if (not bf::exists(target_path) || not bf::is_directory(target_path)) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
 					<< "In GParserBuilder::writeConfigFile(): Error!" << std::endl
-					<< "The target path " << std::filesystem::path(configFile).remove_filename().string()
+					<< "The target path " << target_path.string()
 					<< " does not exist or is no directory." << std::endl
 			);
 		}
-- 
2.43.0


From a5b2b819608f5a33d1ca6e8096e9d34b61d6e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 57/87] fix: do not leave behind empty or incomplete
 configuration files unnoticed

---
 src/common/GParserBuilder.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/common/GParserBuilder.cpp b/src/common/GParserBuilder.cpp
index 8b9e6e5..2354a07 100644
--- a/src/common/GParserBuilder.cpp
+++ b/src/common/GParserBuilder.cpp
@@ -498,15 +498,6 @@ void GParserBuilder::writeConfigFile(
 		}
 	}
 
-	// Open the required configuration file
-	std::ofstream ofs(configFile);
-	if (not ofs) {
-		throw gemfony_exception(
-			g_error_streamer(DO_LOG,  time_and_place)
-				<< "In GParserBuilder::writeConfigFile(): Error writing configuration file " << configFile.string() << std::endl
-		);
-	}
-
 	// Do some error checking
 	if (m_file_parameter_proxies.empty()) {
 		throw gemfony_exception(
@@ -542,11 +533,26 @@ void GParserBuilder::writeConfigFile(
 		v_ptr->save_to(ptr);
 	}
 
+	// Open the required configuration file
+	std::ofstream ofs(configFile);
+	if (not ofs) {
+		throw gemfony_exception(
+			g_error_streamer(DO_LOG,  time_and_place)
+				<< "In GParserBuilder::writeConfigFile(): Error writing configuration file " << configFile.string() << std::endl
+		);
+	}
+
 	// Write the configuration data to disk
 	pt::write_json(ofs, ptr);
 
 	// Close the file handle
 	ofs.close();
+	if (not ofs) {
+		throw gemfony_exception(
+			g_error_streamer(DO_LOG,  time_and_place)
+				<< "In GParserBuilder::writeConfigFile(): Error: Could not write all data to " << configFile.string() << std::endl
+		);
+	}
 }
 
 /******************************************************************************/
-- 
2.43.0


From 5706467779a85f2d08b51de0c805654c474e6468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:10 +0000
Subject: [PATCH 58/87] fix: let objects be configured from files in the
 current directory

---
 include/common/GParserBuilder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index 986dfe4..b16be03 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -2754,7 +2754,7 @@ void configureFromFile(
 
 	// Check whether the target directory exists. It is a
 	// severe error if this is not the case.
-	if(not std::filesystem::exists(conf_file.parent_path())) {
+	if(conf_file.has_parent_path() && not std::filesystem::exists(conf_file.parent_path())) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG, time_and_place)
 				<< "In configureFromFile(" << conf_file << "): Error!" << std::endl
-- 
2.43.0


From 7f0d14a32d74583dc58aa34ea9d1971413301eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 59/87] fix: load the validity checks of combined constraints

---
 include/geneva/GMultiConstraintT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 1f10ed8..31c9427 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -656,7 +656,7 @@ protected:
         );
 
         // Load our parent class'es data ...
-        GPreEvaluationValidityCheckT<ind_type>::load_(cp);
+        GValidityCheckContainerT<ind_type>::load_(cp);
 
         // and then our local data
         combinerPolicy_ = p_load->combinerPolicy_;
-- 
2.43.0


From c74211e9384e8711657bc7e5f0160922ec143d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 60/87] fix: serialize the validity checks of combined
 constraints

---
 include/geneva/GMultiConstraintT.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 31c9427..e44b80e 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -319,7 +319,8 @@ class GValidityCheckContainerT :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>);
+        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & BOOST_SERIALIZATION_NVP(validityChecks_);
     }
     ///////////////////////////////////////////////////////////////////////
 
@@ -502,7 +503,7 @@ class GCheckCombinerT:
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GValidityCheckContainerT<ind_type>)
         & BOOST_SERIALIZATION_NVP(combinerPolicy_);
     }
     ///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From cf19f730a155c487526c5affddb3438e8d82b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 61/87] fix: treat constraint checks without a numeric result
 as maximally invalid

---
 include/geneva/GMultiConstraintT.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index e44b80e..7f550ad 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -41,6 +41,9 @@
 
 // Standard header files go here
 #include <type_traits>
+#include <cmath>
+#include <limits>
+#include <algorithm>
 
 // Boost header files go here
 
@@ -121,6 +124,12 @@ public:
     ) const {
         double result = check_(cp);
 
+        // The extent of the invalidity is unknown if the check has no numeric
+        // result. Comparisons with other validity levels must remain possible.
+        if (std::isnan(result)) {
+            return boost::numeric::bounds<double>::highest();
+        }
+
         if (allowNegative_) {
             if (result <= 1.) { // valid
                 return 0.;
-- 
2.43.0


From cd8e197855ade718b67ecfb8e53633d06d75ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 62/87] fix: do not accept tiny negative constraint values as
 valid

---
 include/geneva/GMultiConstraintT.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 7f550ad..fb607d4 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -142,7 +142,11 @@ public:
             } else { // invalid
                 if (result < 0.) { // we need to calculate a replacement value
                     // Will be the more invalid the further below 0 "result" is
-                    return 1. + Gem::Common::gfabs(result);
+                    // and larger than 1, even if "result" is too small to alter a value of 1
+                    return (std::max)(
+                        1. + Gem::Common::gfabs(result)
+                        , 1. + std::numeric_limits<double>::epsilon()
+                    );
                 } else { // result > 1, we may just return the unmodified value
                     return result;
                 }
-- 
2.43.0


From c6938150e572cb2417f341fd3fbb492a6eccdbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 63/87] fix: re-evaluate individuals changed by earlier
 attempts to find a valid adaption

---
 src/geneva/GParameterSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 41f1628..8c1ffc0 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -816,6 +816,7 @@ void GParameterSet::cannibalize(GParameterSet& cp) {
 std::size_t GParameterSet::adapt() {
 	std::size_t nAdaptionAttempts = 0;
 	std::size_t nAdaptions = 0; // This is a measure of the "effective" adaption probability
+	bool modified = false; // Parameters may also have been changed by an attempt that led to an invalid solution
 	std::size_t nInvalidAdaptions = 0;
 	double validity = 0;
 
@@ -832,6 +833,7 @@ std::size_t GParameterSet::adapt() {
 		while (true) { // Try again if no adaption has taken place
 			// Perform the actual adaption; Terminate, if at least one adaption was performed
 			if ((nAdaptions = this->customAdaptions()) > 0) {
+				modified = true;
 				break;
 			}
 
@@ -850,7 +852,7 @@ std::size_t GParameterSet::adapt() {
 	}
 
 	// Make sure the individual is re-evaluated when fitness(...) is called next time
-	if(nAdaptions > 0) {
+	if(modified) {
 		this->mark_as_due_for_processing();
 	}
 
-- 
2.43.0


From 65ea7945ab26453d981881a92734eb75ab297725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 64/87] fix: allow cross-over of individuals with a single
 parameter of a type

---
 src/geneva/GParameterSet.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 8c1ffc0..53ca628 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -694,8 +694,8 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 	}
 #endif /* DEBUG */
 
-	// Do the actual cross-over
-	if (not this_double_cnt.empty()) {
+	// Do the actual cross-over. There is no cross-over position inside of a single item
+	if (this_double_cnt.size() > 1) {
 		// Calculate a suitable position for the cross-over
 		// We use this->cp as the source for getCrossOverPos in order to avoid
 		// having to mark getCrossOverPos const and this m_gr mutable.
@@ -706,7 +706,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_double_cnt.begin()+pos, cp_double_cnt.end(), this_double_cnt.begin()+pos);
 	}
 
-	if (not this_float_cnt.empty()) {
+	if (this_float_cnt.size() > 1) {
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_float_cnt.size());
 
@@ -715,7 +715,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_float_cnt.begin()+pos, cp_float_cnt.end(), this_float_cnt.begin()+pos);
 	}
 
-	if (not this_bool_cnt.empty()) {
+	if (this_bool_cnt.size() > 1) {
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_bool_cnt.size());
 
@@ -724,7 +724,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_bool_cnt.begin()+pos, cp_bool_cnt.end(), this_bool_cnt.begin()+pos);
 	}
 
-	if (not this_int_cnt.empty()) {
+	if (this_int_cnt.size() > 1) {
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_int_cnt.size());
 
-- 
2.43.0


From af4b2a4526678368e9a5678a92d893feaf62a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 65/87] fix: let gsigmoid return its limit for infinite values

---
 src/common/GCommonMathHelperFunctions.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common/GCommonMathHelperFunctions.cpp b/src/common/GCommonMathHelperFunctions.cpp
index 3048609..1171912 100644
--- a/src/common/GCommonMathHelperFunctions.cpp
+++ b/src/common/GCommonMathHelperFunctions.cpp
@@ -594,6 +594,11 @@ float gsigmoid(
 	long double local_barrier   = boost::numeric_cast<long double>(barrier);
 	long double local_steepness = boost::numeric_cast<long double>(steepness);
 
+	// The limit for infinite values
+	if(std::isinf(local_var)) {
+		return local_var > 0 ? barrier : -barrier;
+	}
+
 	return boost::numeric_cast<float>(
 		local_barrier * local_var / (local_steepness + gfabs(local_var))
 	);
@@ -620,6 +625,11 @@ double gsigmoid(
 	long double local_barrier   = boost::numeric_cast<long double>(barrier);
 	long double local_steepness = boost::numeric_cast<long double>(steepness);
 
+	// The limit for infinite values
+	if(std::isinf(local_var)) {
+		return local_var > 0 ? barrier : -barrier;
+	}
+
 	return boost::numeric_cast<double>(
 		local_barrier * local_var / (local_steepness + gfabs(local_var))
 	);
-- 
2.43.0


From c964254ac07aa28138e488a2eb6eab216b989541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 66/87] fix: mark individuals violating constraints as
 processed when their fitness is set

---
 src/geneva/GParameterSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 53ca628..1d9e1c3 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -1726,6 +1726,9 @@ void GParameterSet::setFitness_(std::vector<double> const & f_cnt) {
 		// Transfer the data into the individual
 		this->markAsProcessedWith(processing_results);
 	} else { // Some constraints were violated. Act on the chosen policy
+		// Mark the individual as processed. The actual results are set below
+		this->markAsProcessedWith(std::vector<parameterset_processing_result>(f_cnt.size(), parameterset_processing_result()));
+
 		if (evaluationPolicy::USEWORSTCASEFORINVALID == m_eval_policy) {
 			this->setAllFitnessTo(this->getWorstCase());
 		} else if (evaluationPolicy::USESIGMOID == m_eval_policy) {
-- 
2.43.0


From c6674c24ddb85340e4ec9fff543727ee40b22961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 67/87] fix: allow to load collections holding objects of other
 types at the same positions

---
 include/common/GCommonHelperFunctionsT.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common/GCommonHelperFunctionsT.hpp b/include/common/GCommonHelperFunctionsT.hpp
index 12c281c..6098c17 100644
--- a/include/common/GCommonHelperFunctionsT.hpp
+++ b/include/common/GCommonHelperFunctionsT.hpp
@@ -471,7 +471,9 @@ void copyCloneableSmartPointer (
 	if(not from) {
 		to.reset();
 	} else {
-		if(not to) {
+		// Data may only be loaded from an object of the same (dynamic) type
+		auto const *from_raw = from.get(), *to_raw = to.get();
+		if(not to_raw || typeid(*from_raw) != typeid(*to_raw)) {
 			to = from->T::template clone<T>();
 		} else {
 			to->T::load(from);
-- 
2.43.0


From 958de82c7d4669e3e4dd1c2a3628a873bd63c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 68/87] fix: allow to assign vectors of pointers to objects of
 other types

---
 include/common/GPtrVectorT.hpp | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index 0556206..4868e07 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -178,36 +178,7 @@ public:
 	 * @return A reference to this object
 	 */
 	 GPtrVectorT<T,B> &operator=(std::vector<std::shared_ptr<T>> const& cp) {
-		typename std::vector<std::shared_ptr <T>>::const_iterator cp_it;
-		typename std::vector<std::shared_ptr <T>>::iterator it;
-
-		std::size_t localSize = m_data_cnt.size();
-		std::size_t cpSize = cp.size();
-
-		if (cpSize == localSize) { // The most likely case
-			for (it = m_data_cnt.begin(), cp_it = cp.begin(); it != m_data_cnt.end(); ++it, ++cp_it) {
-				(*it)->B::load(*cp_it);
-			}
-		} else if (cpSize > localSize) {
-			// First copy the initial elements
-			for (it = m_data_cnt.begin(), cp_it = cp.begin(); it != m_data_cnt.end(); ++it, ++cp_it) {
-				(*it)->B::load(*cp_it);
-			}
-
-			// Then attach the remaining objects from cp
-			for (cp_it = cp.begin() + localSize; cp_it != cp.end(); ++cp_it) {
-				m_data_cnt.push_back((*cp_it)->T::template clone<T>());
-			}
-		} else if (cpSize < localSize) {
-			// First get rid of surplus items
-			m_data_cnt.resize(cpSize);
-
-			// Then copy the elements
-			for (it = m_data_cnt.begin(), cp_it = cp.begin(); it != m_data_cnt.end(); ++it, ++cp_it) {
-				(*it)->B::load(*cp_it);
-			}
-		}
-
+		Gem::Common::copyCloneableSmartPointerContainer(cp, m_data_cnt);
 		return *this;
 	}
 
-- 
2.43.0


From b6b3e92c18ea3bf42d4a8e8430c027b72700cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 69/87] fix: copy, load and compare the random crash settings
 of individuals

---
 src/geneva/GParameterSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 1d9e1c3..ead0a0b 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -231,6 +231,8 @@ GParameterSet::GParameterSet(GParameterSet const &cp)
    , m_max_unsuccessful_adaptions(cp.m_max_unsuccessful_adaptions)
    , m_max_retries_until_valid(cp.m_max_retries_until_valid)
    , m_n_adaptions(cp.m_n_adaptions)
+   , m_useRandomCrash(cp.m_useRandomCrash)
+   , m_randomCrashProb(cp.m_randomCrashProb)
 {
 	// Copy the personality pointer over
 	Gem::Common::copyCloneableSmartPointer(cp.m_pt_ptr, m_pt_ptr);
@@ -279,6 +281,8 @@ void GParameterSet::compare_(
 	compare_t(IDENTITY(m_max_unsuccessful_adaptions, p_load->m_max_unsuccessful_adaptions), token);
 	compare_t(IDENTITY(m_max_retries_until_valid, p_load->m_max_retries_until_valid), token);
 	compare_t(IDENTITY(m_n_adaptions, p_load->m_n_adaptions), token);
+	compare_t(IDENTITY(m_useRandomCrash, p_load->m_useRandomCrash), token);
+	compare_t(IDENTITY(m_randomCrashProb, p_load->m_randomCrashProb), token);
 
 	// React on deviations from the expectation
 	token.evaluate();
@@ -1618,6 +1622,8 @@ void GParameterSet::load_(const GObject *cp) {
 	m_max_unsuccessful_adaptions = p_load->m_max_unsuccessful_adaptions;
 	m_max_retries_until_valid = p_load->m_max_retries_until_valid;
 	m_n_adaptions = p_load->m_n_adaptions;
+	m_useRandomCrash = p_load->m_useRandomCrash;
+	m_randomCrashProb = p_load->m_randomCrashProb;
 
 	Gem::Common::copyCloneableSmartPointer(p_load->m_pt_ptr, m_pt_ptr);
 	Gem::Common::copyCloneableSmartPointer(p_load->m_individual_constraint_ptr, m_individual_constraint_ptr);
-- 
2.43.0


From 449180f285df1505f7aae8a7dc6dca8e6fb8f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 70/87] fix: serialize the diameter of sphere constraints

---
 include/geneva-individuals/GFunctionIndividual.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geneva-individuals/GFunctionIndividual.hpp b/include/geneva-individuals/GFunctionIndividual.hpp
index 9beb563..e71bbea 100644
--- a/include/geneva-individuals/GFunctionIndividual.hpp
+++ b/include/geneva-individuals/GFunctionIndividual.hpp
@@ -789,7 +789,8 @@ class GSphereConstraint : public GParameterSetConstraint {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint);
+		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint)
+		 & BOOST_SERIALIZATION_NVP(diameter_);
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 public:
-- 
2.43.0


From 43858cf02bea3b764d94f56fbddcbf6612140474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:14 +0000
Subject: [PATCH 71/87] fix: compare the tolerance of gap constraints

---
 src/geneva-individuals/GFunctionIndividual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva-individuals/GFunctionIndividual.cpp b/src/geneva-individuals/GFunctionIndividual.cpp
index 56c2ddd..5930db1 100644
--- a/src/geneva-individuals/GFunctionIndividual.cpp
+++ b/src/geneva-individuals/GFunctionIndividual.cpp
@@ -174,6 +174,7 @@ void GDoubleSumGapConstraint::compare_(
 
 	// ... and then the local data
 	Gem::Common::compare_t(IDENTITY(C_, p_load->C_), token);
+	Gem::Common::compare_t(IDENTITY(gap_, p_load->gap_), token);
 
 	// React on deviations from the expectation
 	token.evaluate();
-- 
2.43.0


From 6d1cd5a9d6275b4dc954fa01b8818d65162c02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 72/87] fix: copy swarms and iteration offsets completely

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp   |  2 +-
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 81 +++----------------
 2 files changed, 14 insertions(+), 69 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index c1dd6a3..66001c3 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -189,7 +189,7 @@ G_OptimizationAlgorithm_Base::G_OptimizationAlgorithm_Base(const G_OptimizationA
 	: GObject(cp)
 	  , Gem::Common::GPtrVectorT<GParameterSet, Gem::Geneva::GObject>(cp)
 	  , m_iteration(cp.m_iteration)
-	  , m_offset(DEFAULTOFFSET)
+	  , m_offset(cp.m_offset)
 	  , m_minIteration(cp.m_minIteration)
 	  , m_maxIteration(cp.m_maxIteration)
 	  , m_maxStallIteration(cp.m_maxStallIteration)
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index e2a1ebb..10523ca 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -78,8 +78,7 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	  , m_n_neighborhoods(cp.m_n_neighborhoods)
 	  , m_default_n_neighborhood_members(cp.m_default_n_neighborhood_members)
 	  , m_n_neighborhood_members_cnt(cp.m_n_neighborhood_members_cnt)
-	  , m_global_best_ptr((cp.afterFirstIteration()) ? (cp.m_global_best_ptr)->clone<GParameterSet>() : std::shared_ptr<GParameterSet>())
-	  , m_neighborhood_bests_cnt(m_n_neighborhoods) // We copy the smart pointers over later
+	  , m_neighborhood_bests_cnt(cp.m_neighborhood_bests_cnt.size()) // We copy the smart pointers over later
 	  , m_c_personal(cp.m_c_personal)
 	  , m_c_neighborhood(cp.m_c_neighborhood)
 	  , m_c_global(cp.m_c_global)
@@ -92,18 +91,10 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	  , m_dbl_vel_max_cnt(cp.m_dbl_vel_max_cnt)
 	  , m_velocity_range_percentage(cp.m_velocity_range_percentage)
 {
-	// Note that this setting might differ from nCPIndividuals, as it is not guaranteed
-	// that cp has, at the time of copying, all individuals present in each neighborhood.
-	// Differences might e.g. occur if not all individuals return from their remote
-	// evaluation. adjustPopulation will take care to resize the population appropriately
-	// inside of the "optimize()" call.
-	G_OptimizationAlgorithm_Base::setDefaultPopulationSize(m_n_neighborhoods * m_default_n_neighborhood_members);
-
-	// Clone cp's best individuals in each neighborhood
-	if (cp.afterFirstIteration()) {
-		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-			Gem::Common::copyCloneableSmartPointer(cp.m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
-		}
+	// Clone cp's best individuals (if any), both globally and in each neighborhood
+	Gem::Common::copyCloneableSmartPointer(cp.m_global_best_ptr, m_global_best_ptr);
+	for (std::size_t i = 0; i < m_neighborhood_bests_cnt.size(); i++) {
+		Gem::Common::copyCloneableSmartPointer(cp.m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
 	}
 
 	// Copying / setting of the optimization algorithm id is done by the parent class. The same
@@ -150,58 +141,15 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 
 	m_velocity_range_percentage = p_load->m_velocity_range_percentage;
 
-	// We start from scratch if the number of neighborhoods or the alleged number of members in them differ
-	if (m_n_neighborhoods != p_load->m_n_neighborhoods ||
-		 not nNeighborhoodMembersEqual(m_n_neighborhood_members_cnt, p_load->m_n_neighborhood_members_cnt)) {
-		m_n_neighborhoods = p_load->m_n_neighborhoods;
-
-		m_n_neighborhood_members_cnt.clear();
-		m_neighborhood_bests_cnt.clear();
-
-		m_n_neighborhood_members_cnt.resize(m_n_neighborhoods);
-		m_neighborhood_bests_cnt.resize(m_n_neighborhoods);
-
-		// Copy the neighborhood bests and number of neighborhood members over
-		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-			m_n_neighborhood_members_cnt[i] = p_load->m_n_neighborhood_members_cnt[i];
-			// The following only makes sense if this is not the first iteration. Note that
-			// getIteration will return the "foreign" GSwarmAlgorithm object's iteration, as it has
-			// already been copied.
-			if (afterFirstIteration()) {
-				Gem::Common::copyCloneableSmartPointer(p_load->m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
-			}
-			// we do not need to reset the m_neighborhood_bests_cnt, as that array has just been created
-		}
-	}
-	else { // We now assume that we can just load neighborhood bests in each position.
-		// Copying only makes sense if the foreign GSwarmAlgorithm object's iteration is larger
-		// than the iteration offset. Note that getIteration() will return the foreign iteration,
-		// as that value has already been copied.
-		if (afterFirstIteration()) {
-			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-				// We might be in a situation where either of the std::shared_ptr which usually
-				// holds the neighborhood bests has not yet been initialized
-				Gem::Common::copyCloneableSmartPointer(p_load->m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
-			}
-		} else {
-			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-				m_neighborhood_bests_cnt[i].reset();
-			}
-		}
-	}
+	m_n_neighborhoods = p_load->m_n_neighborhoods;
+	m_n_neighborhood_members_cnt = p_load->m_n_neighborhood_members_cnt;
 
-	// Copy the global best over
-	if (p_load->afterFirstIteration()) { // cp has a global best, we don't
-		if (m_global_best_ptr) { // If we already have a global best, just load the other objects global best
-			m_global_best_ptr->GObject::load(p_load->m_global_best_ptr);
-		} else {
-			m_global_best_ptr = p_load->m_global_best_ptr->clone<GParameterSet>();
-		}
-	}
-	else if (p_load->inFirstIteration()) { // cp does not have a global best
-		m_global_best_ptr.reset(); // empty the smart pointer
+	// Copy the neighborhood bests and the global best over. Note that they might not have been initialized yet
+	m_neighborhood_bests_cnt.resize(p_load->m_neighborhood_bests_cnt.size());
+	for (std::size_t i = 0; i < m_neighborhood_bests_cnt.size(); i++) {
+		Gem::Common::copyCloneableSmartPointer(p_load->m_neighborhood_bests_cnt[i], m_neighborhood_bests_cnt[i]);
 	}
-	// else {} // We do not need to do anything if both iterations are 0 as there is no global best at all
+	Gem::Common::copyCloneableSmartPointer(p_load->m_global_best_ptr, m_global_best_ptr);
 }
 
 /******************************************************************************/
@@ -255,10 +203,7 @@ void GSwarmAlgorithm::compare_(
 	// The next checks only makes sense if the number of neighborhoods are equal
 	if (m_n_neighborhoods == p_load->m_n_neighborhoods) {
 		compare_t(IDENTITY(m_n_neighborhood_members_cnt, p_load->m_n_neighborhood_members_cnt), token);
-		// No neighborhood bests have been assigned yet in iteration 0
-		if (afterFirstIteration()) {
-			compare_t(IDENTITY(m_neighborhood_bests_cnt, p_load->m_neighborhood_bests_cnt), token);
-		}
+		compare_t(IDENTITY(m_neighborhood_bests_cnt, p_load->m_neighborhood_bests_cnt), token);
 	}
 
 	// React on deviations from the expectation
-- 
2.43.0


From e3992fc997bde9c729d3f5475cc015eaae53011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:42 +0000
Subject: [PATCH 73/87] fix: copy and load monitors completely

---
 .../geneva/GPluggableOptimizationMonitors.hpp |  5 ++--
 src/geneva/GPluggableOptimizationMonitors.cpp | 30 ++++++++++++++++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 9daf7fc..38e1fd4 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -1515,7 +1515,8 @@ public:
 	  * The copy constructor
 	  */
 	 GAdaptorPropertyLoggerT(const GAdaptorPropertyLoggerT<num_type>& cp)
-	    : m_fileName(cp.m_fileName)
+	    : GBasePluggableOM(cp)
+		, m_fileName(cp.m_fileName)
 		, m_adaptorName(cp.m_adaptorName)
 		, m_property(cp.m_property)
 		, m_canvasDimensions(cp.m_canvasDimensions)
@@ -2017,7 +2018,7 @@ public:
 		 , std::size_t nBinsY
 	 );
 	 /** @brief The copy constructor */
-	 G_API_GENEVA GProcessingTimesLogger(const GProcessingTimesLogger& cp) = default;
+	 G_API_GENEVA GProcessingTimesLogger(const GProcessingTimesLogger& cp);
 	 /** @brief  The destructor */
 	 G_API_GENEVA ~GProcessingTimesLogger() override = default;
 
diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index ee3f8dc..953928c 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1438,7 +1438,8 @@ GNAdpationsLogger::GNAdpationsLogger(const std::string& fileName)
  * The copy constructor
  */
 GNAdpationsLogger::GNAdpationsLogger(const GNAdpationsLogger& cp)
-	: m_fileName(cp.m_fileName)
+	: GBasePluggableOM(cp)
+	  , m_fileName(cp.m_fileName)
 	  , m_canvasDimensions(cp.m_canvasDimensions)
 	  , m_gpd(cp.m_gpd)
 	  , m_monitorBestOnly(cp.m_monitorBestOnly)
@@ -1826,6 +1827,32 @@ GProcessingTimesLogger::GProcessingTimesLogger(
 	  , m_nBinsY(nBinsY)
 { /* nothing */ }
 
+/******************************************************************************/
+/**
+ * The copy constructor
+ */
+GProcessingTimesLogger::GProcessingTimesLogger(const GProcessingTimesLogger& cp)
+	: GBasePluggableOM(cp)
+	  , m_fileName_pth(cp.m_fileName_pth)
+	  , m_canvasDimensions_pth(cp.m_canvasDimensions_pth)
+	  , m_gpd_pth(cp.m_gpd_pth)
+	  , m_fileName_pth2(cp.m_fileName_pth2)
+	  , m_canvasDimensions_pth2(cp.m_canvasDimensions_pth2)
+	  , m_gpd_pth2(cp.m_gpd_pth2)
+	  , m_fileName_txt(cp.m_fileName_txt)
+	  , m_nBinsX(cp.m_nBinsX)
+	  , m_nBinsY(cp.m_nBinsY)
+{
+	Gem::Common::copyCloneableSmartPointer(cp.m_pre_processing_times_hist, m_pre_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_processing_times_hist, m_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_post_processing_times_hist, m_post_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_all_processing_times_hist, m_all_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_pre_processing_times_hist2D, m_pre_processing_times_hist2D);
+	Gem::Common::copyCloneableSmartPointer(cp.m_processing_times_hist2D, m_processing_times_hist2D);
+	Gem::Common::copyCloneableSmartPointer(cp.m_post_processing_times_hist2D, m_post_processing_times_hist2D);
+	Gem::Common::copyCloneableSmartPointer(cp.m_all_processing_times_hist2D, m_all_processing_times_hist2D);
+}
+
 /******************************************************************************/
 /**
  * Emits a name for this class / object
@@ -2260,6 +2287,7 @@ void GProcessingTimesLogger::load_(const GObject* cp) {
 	Gem::Common::copyCloneableSmartPointer(p_load->m_all_processing_times_hist2D, m_all_processing_times_hist2D);
 
 	m_nBinsX = p_load->m_nBinsX;
+	m_nBinsY = p_load->m_nBinsY;
 }
 
 /************************************************************************/
-- 
2.43.0


From 4c5e4745f49bd0c57619f6988d85b8e8d8f7341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:42 +0000
Subject: [PATCH 74/87] fix: serialize the plots of a plot designer

---
 include/common/GPlotDesigner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/GPlotDesigner.hpp b/include/common/GPlotDesigner.hpp
index 6170374..34c5edf 100644
--- a/include/common/GPlotDesigner.hpp
+++ b/include/common/GPlotDesigner.hpp
@@ -4440,6 +4440,7 @@ class GPlotDesigner
         using boost::serialization::make_nvp;
 
         ar
+        & BOOST_SERIALIZATION_NVP(m_plotters_cnt)
         & BOOST_SERIALIZATION_NVP(m_c_x_div)
         & BOOST_SERIALIZATION_NVP(m_c_y_div)
         & BOOST_SERIALIZATION_NVP(m_c_x_dim)
-- 
2.43.0


From 44c0028e8a6dd157b4b2e9f99b82b1bff350ca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:52 +0000
Subject: [PATCH 75/87] fix: transfer run ids and transfer functions of
 individuals

---
 include/geneva-individuals/GExternalEvaluatorIndividual.hpp | 3 ++-
 include/geneva-individuals/GNeuralNetworkIndividual.hpp     | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
index f8b3b67..7e2e2ae 100644
--- a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
+++ b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
@@ -152,7 +152,8 @@ class GExternalEvaluatorIndividual : public GParameterSet {
 		 & BOOST_SERIALIZATION_NVP(m_custom_options)
 		 & BOOST_SERIALIZATION_NVP(m_parameter_file_base_name)
 		 & BOOST_SERIALIZATION_NVP(m_n_results)
-		 & BOOST_SERIALIZATION_NVP(m_remove_exec_temporaries);
+		 & BOOST_SERIALIZATION_NVP(m_remove_exec_temporaries)
+		 & BOOST_SERIALIZATION_NVP(runID_);
 	 }
 
 	 ///////////////////////////////////////////////////////////////////////
diff --git a/include/geneva-individuals/GNeuralNetworkIndividual.hpp b/include/geneva-individuals/GNeuralNetworkIndividual.hpp
index 4bddb96..0030b0d 100644
--- a/include/geneva-individuals/GNeuralNetworkIndividual.hpp
+++ b/include/geneva-individuals/GNeuralNetworkIndividual.hpp
@@ -368,7 +368,8 @@ class GNeuralNetworkIndividual
 		 using boost::serialization::make_nvp;
 
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet);
+		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet)
+		 &BOOST_SERIALIZATION_NVP(tF_);
 
 		 // Load the network data from disk
 		 nD_ = GNNTrainingDataStore; // A glogal singleton
@@ -379,7 +380,8 @@ class GNeuralNetworkIndividual
 		 using boost::serialization::make_nvp;
 
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet);
+		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet)
+		 &BOOST_SERIALIZATION_NVP(tF_);
 	 }
 
 	 BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From d31dfa2fe8bd51f626e7514b9fae310b90bb915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:36 +0000
Subject: [PATCH 76/87] fix: refuse upper boundaries of adaptors below the
 smallest lower boundary

---
 include/geneva/GAdaptorT.hpp         | 9 +++++++++
 include/geneva/GNumGaussAdaptorT.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GAdaptorT.hpp b/include/geneva/GAdaptorT.hpp
index a57d192..16fb48a 100644
--- a/include/geneva/GAdaptorT.hpp
+++ b/include/geneva/GAdaptorT.hpp
@@ -481,6 +481,15 @@ public:
 					 << "Invalid minAdProb and/or maxAdProb: " << minAdProb << " / " << maxAdProb << std::endl
 			 );
 		 }
+
+		 // The lower boundary will not be smaller than DEFMINADPROB
+		 if (maxAdProb < fp_type(DEFMINADPROB)) {
+			 throw gemfony_exception(
+				 g_error_streamer(DO_LOG, time_and_place)
+					 << "In GAdaptorT<T, fp_type>::setAdProbRange(): Error!" << std::endl
+					 << "maxAdProb < " << DEFMINADPROB << ": " << maxAdProb << std::endl
+			 );
+		 }
 #endif /* DEBUG */
 
 		 // Store the new values
diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index ef35362..e22c7b9 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -250,7 +250,7 @@ public:
 	 ){
 		 using namespace Gem::Common;
 
-		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma > fp_type(1.)) {
+		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma < fp_type(DEFAULTMINSIGMA) || maxSigma > fp_type(1.)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GNumGaussAdaptorT::setSigmaRange(const fp_type&, const fp_type&):" << std::endl
-- 
2.43.0


From 1ff7fa66c6796dd5e57c918f52cbc6a3bea6a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:36 +0000
Subject: [PATCH 77/87] fix: use the sigmas given to a Gauss adaptor together
 with a probability

---
 include/geneva/GNumGaussAdaptorT.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index e22c7b9..1826d27 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -141,7 +141,14 @@ public:
 		 , const double& probability
 	 )
 		 : GAdaptorT<num_type> (probability)
-	 { /* nothing */ }
+	 {
+		 // These functions do error checks on their values
+		 setSigmaAdaptionRate(sigmaSigma);
+		 setSigmaRange(minSigma, maxSigma);
+		 setSigma(sigma); // Must be set last so an error check for compliance with the boundaries can be made
+
+		 sigma_reset_ = sigma_;
+	 }
 
 	 /***************************************************************************/
 	 /**
-- 
2.43.0


From 5d76080a4f41ebae226050b7a513ae5bf0b4aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:36 +0000
Subject: [PATCH 78/87] fix: report resets of the adaption probability of Gauss
 adaptors

---
 include/geneva/GNumGaussAdaptorT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index 1826d27..8a3c007 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -404,11 +404,11 @@ public:
 		 , const num_type& range
 	 ) override {
 		 // Call our parent class'es function
-		 GAdaptorT<num_type>::updateOnStall(nStalls, range);
+		 bool updated = GAdaptorT<num_type>::updateOnStall(nStalls, range);
 
-		 // Reset the adaption probability
+		 // Reset sigma
 		 if(sigma_ == sigma_reset_) {
-			 return false;
+			 return updated;
 		 } else {
 			 sigma_ = sigma_reset_;
 			 return true;
-- 
2.43.0


From 037df42081d9f26c02f81c69e0fd109677b0bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 79/87] fix: assignment of integer and boolean vectors respects
 the activity mode

---
 include/geneva/GParameterBase.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/geneva/GParameterBase.hpp b/include/geneva/GParameterBase.hpp
index 94e3491..4f20ef7 100644
--- a/include/geneva/GParameterBase.hpp
+++ b/include/geneva/GParameterBase.hpp
@@ -1076,11 +1076,13 @@ inline void GParameterBase::assignValueVector<std::int32_t>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignInt32ValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignInt32ValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
@@ -1096,11 +1098,13 @@ inline void GParameterBase::assignValueVector<bool>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignBooleanValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignBooleanValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
-- 
2.43.0


From 5c12a78be3843ccb5da9d2b921a5ee91cc7f2a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 80/87] fix: multiplication of constrained parameters acts on
 the visible value, not on a value left behind outside of the boundaries

---
 src/geneva/GConstrainedDoubleObject.cpp | 6 +++---
 src/geneva/GConstrainedInt32Object.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geneva/GConstrainedDoubleObject.cpp b/src/geneva/GConstrainedDoubleObject.cpp
index 4877192..bb8d676 100644
--- a/src/geneva/GConstrainedDoubleObject.cpp
+++ b/src/geneva/GConstrainedDoubleObject.cpp
@@ -246,7 +246,7 @@ void GConstrainedDoubleObject::doubleMultiplyByRandom(
 	, Gem::Hap::GRandomBase& gr
 ) {
 	std::uniform_real_distribution<double> uniform_real_distribution(min, max);
-	GParameterT<double>::setValue(transfer(GParameterT<double>::value() * uniform_real_distribution(gr)));
+	GParameterT<double>::setValue(transfer(this->value() * uniform_real_distribution(gr)));
 }
 
 /******************************************************************************/
@@ -258,7 +258,7 @@ void GConstrainedDoubleObject::doubleMultiplyByRandom(
 	, Gem::Hap::GRandomBase& gr
 ) {
 	std::uniform_real_distribution<double> uniform_real_distribution(0., 1.);
-	GParameterT<double>::setValue(transfer(GParameterT<double>::value() * uniform_real_distribution(gr)));
+	GParameterT<double>::setValue(transfer(this->value() * uniform_real_distribution(gr)));
 }
 
 /******************************************************************************/
@@ -269,7 +269,7 @@ void GConstrainedDoubleObject::doubleMultiplyBy(
 	const double &val
 	, const activityMode &am
 ) {
-	GParameterT<double>::setValue(transfer(val * GParameterT<double>::value()));
+	GParameterT<double>::setValue(transfer(val * this->value()));
 }
 
 /******************************************************************************/
diff --git a/src/geneva/GConstrainedInt32Object.cpp b/src/geneva/GConstrainedInt32Object.cpp
index 39249ce..996c2a3 100644
--- a/src/geneva/GConstrainedInt32Object.cpp
+++ b/src/geneva/GConstrainedInt32Object.cpp
@@ -244,7 +244,7 @@ void GConstrainedInt32Object::int32MultiplyByRandom(
 ) {
 	std::uniform_int_distribution<std::int32_t> uniform_int_distribution(min, max);
 	GParameterT<std::int32_t>::setValue(
-		transfer(GParameterT<std::int32_t>::value() * uniform_int_distribution(gr))
+		transfer(this->value() * uniform_int_distribution(gr))
 	);
 }
 
@@ -260,7 +260,7 @@ void GConstrainedInt32Object::int32MultiplyByRandom(
 	GParameterT<std::int32_t>::setValue(
 		transfer(
 			boost::numeric_cast<std::int32_t>(
-				boost::numeric_cast<double>(GParameterT<std::int32_t>::value())
+				boost::numeric_cast<double>(this->value())
 				* uniform_real_distribution(gr)
 			)
 		)
@@ -275,7 +275,7 @@ void GConstrainedInt32Object::int32MultiplyBy(
 	const std::int32_t &val
 	, const activityMode &am
 ) {
-	GParameterT<std::int32_t>::setValue(transfer(val * GParameterT<std::int32_t>::value()));
+	GParameterT<std::int32_t>::setValue(transfer(val * this->value()));
 }
 
 /******************************************************************************/
-- 
2.43.0


From 88926a160fa410b90c89f619d72bcad1a4781dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:04 +0000
Subject: [PATCH 81/87] fix: boolean parameters are handed out as booleans, not
 as references into a temporary vector

---
 include/geneva/GParameterSet.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index ee16ed3..ef45102 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -532,7 +532,7 @@ public:
             case 0: {
                 std::vector<par_type> vars;
                 this->streamline<par_type>(vars);
-                result = vars.at(std::get<2>(target));
+                result = par_type(vars.at(std::get<2>(target)));
             }
                 break;
 
@@ -542,10 +542,10 @@ public:
             {
                 std::map<std::string, std::vector<par_type>> varMap;
                 this->streamline<par_type>(varMap);
-                result = (
+                result = par_type((
                     Gem::Common::getMapItem<std::vector<par_type>>(
                         varMap
-                        , std::get<1>(target))).at(std::get<2>(target));
+                        , std::get<1>(target))).at(std::get<2>(target)));
             }
                 break;
 
-- 
2.43.0


From 9671feb1a3cc32631d563bcd10da0ca0d202212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:57 +0000
Subject: [PATCH 82/87] fix: remember the number of producers when threads are
 added to a running random number factory

---
 src/hap/GRandomFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 6a6fd41..361fa8b 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -209,6 +209,7 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 					[this]() { this->producer(this->getSeed()); }
 				);
 			}
+			m_n_producer_threads = nProducerThreads_local;
 		} else if (nProducerThreads_local < m_n_producer_threads.load()) { // We need to remove threads
 			glogger
 				<< "In GRandomFactory::setNProducerThreads(" << nProducerThreads << "): Warning!" << std::endl
-- 
2.43.0


From 2ffc56f50066b721be55af2aa03cc32a5e8f77ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:39 +0000
Subject: [PATCH 83/87] fix: similarity of infinite and undefined values

---
 include/common/GExpectationChecksT.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/common/GExpectationChecksT.hpp b/include/common/GExpectationChecksT.hpp
index 0e6f9d8..544a9ca 100644
--- a/include/common/GExpectationChecksT.hpp
+++ b/include/common/GExpectationChecksT.hpp
@@ -516,7 +516,8 @@ void compare(
 
     switch (e) {
         case Gem::Common::expectation::FP_SIMILARITY: expectation_str = "FP_SIMILARITY";
-            if (gfabs(x - y) < boost::numeric_cast<fp_type>(limit)) {
+            // The first condition covers equal infinities
+            if (x == y || gfabs(x - y) < boost::numeric_cast<fp_type>(limit)) {
                 expectationMet = true;
             }
             break;
@@ -754,7 +755,7 @@ void compare(
             typename c_type<fp_type, std::allocator<fp_type>>::const_iterator x_it, y_it;
             if (Gem::Common::expectation::FP_SIMILARITY == e) {
                 for (x_it = x.begin(), y_it = y.begin(); x_it != x.end(); ++x_it, ++y_it) {
-                    if (gfabs(*x_it - *y_it) >= boost::numeric_cast<fp_type>(limit)) {
+                    if (not (*x_it == *y_it || gfabs(*x_it - *y_it) < boost::numeric_cast<fp_type>(limit))) {
                         foundDeviation = true;
                         deviation_pos = boost::numeric_cast<std::size_t>(
                             std::distance(
@@ -860,7 +861,7 @@ void compare(
             typename s_type<fp_type, std::less<fp_type>, std::allocator<fp_type>>::const_iterator x_it, y_it;
             if (Gem::Common::expectation::FP_SIMILARITY == e) {
                 for (x_it = x.begin(), y_it = y.begin(); x_it != x.end(); ++x_it, ++y_it) {
-                    if (gfabs(*x_it - *y_it) >= boost::numeric_cast<fp_type>(limit)) {
+                    if (not (*x_it == *y_it || gfabs(*x_it - *y_it) < boost::numeric_cast<fp_type>(limit))) {
                         foundDeviation = true;
                         deviation_pos = boost::numeric_cast<std::size_t>(
                             std::distance(
-- 
2.43.0


From f78605a3e5dace627647ced44e9633a422221842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:39 +0000
Subject: [PATCH 84/87] fix: inequality of indeterminate and determinate values

---
 src/common/GExpectationChecksT.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/GExpectationChecksT.cpp b/src/common/GExpectationChecksT.cpp
index c9fd56c..1f2bb15 100644
--- a/src/common/GExpectationChecksT.cpp
+++ b/src/common/GExpectationChecksT.cpp
@@ -303,8 +303,9 @@ void compare(
 
 		case Gem::Common::expectation::INEQUALITY:
 			expectation_str = "INEQUALITY";
-			if (not (x == true && y == true) &&
-				 not (x == false && y == false) &&
+			// The negation of an indeterminate comparison is indeterminate, hence the conversion
+			if (not static_cast<bool>(x == true && y == true) &&
+				 not static_cast<bool>(x == false && y == false) &&
 				 not (boost::logic::indeterminate(x) && boost::logic::indeterminate(y))) {
 				expectationMet = true;
 			}
-- 
2.43.0


From 6d021bf98217d5a07e168675015453ffcf5b0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:40 +0000
Subject: [PATCH 85/87] fix: grid scans end exactly at the upper boundary

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index b82a981..6641889 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -103,7 +103,8 @@ std::vector<float> fillWithData<float>(
 	}
 
 	for (std::size_t i = 0; i < nSteps; i++) {
-		result.push_back(lower + (upper - lower) * float(i) / float(nSteps - 1));
+		// The last point must not be moved away from the boundary by rounding errors
+		result.push_back(i + 1 == nSteps ? upper : lower + (upper - lower) * float(i) / float(nSteps - 1));
 	}
 
 	return result;
@@ -131,7 +132,8 @@ std::vector<double> fillWithData<double>(
 	}
 
 	for (std::size_t i = 0; i < nSteps; i++) {
-		result.push_back(lower + (upper - lower) * double(i) / double(nSteps - 1));
+		// The last point must not be moved away from the boundary by rounding errors
+		result.push_back(i + 1 == nSteps ? upper : lower + (upper - lower) * double(i) / double(nSteps - 1));
 	}
 
 	return result;
-- 
2.43.0


From b79c6d59a7b583132d78c09af14c68a04c0a9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:51 +0000
Subject: [PATCH 86/87] fix: define the declared output operator of the
 dimensions enumeration

---
 src/common/GCommonEnums.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/GCommonEnums.cpp b/src/common/GCommonEnums.cpp
index 3954159..79815cf 100644
--- a/src/common/GCommonEnums.cpp
+++ b/src/common/GCommonEnums.cpp
@@ -91,6 +91,15 @@ std::istream &operator>>(std::istream &i, Gem::Common::sortOrder &x) {
 	return i;
 }
 
+/******************************************************************************/
+/**
+ * Puts a Gem::Common::dimensions into a stream. Needed also for boost::lexical_cast<>
+ */
+std::ostream &operator<<(std::ostream &o, Gem::Common::dimensions const &x) {
+	o << static_cast<Gem::Common::ENUMBASETYPE>(x);
+	return o;
+}
+
 /******************************************************************************/
 /**
  * Reads a Gem::Common::dimensions item from a stream. Needed also for boost::lexical_cast<>
-- 
2.43.0


From e2b528322c0998d6841dd288d79790ccccc032a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:30 +0000
Subject: [PATCH 87/87] fix: refuse minimum percentages of returned items above
 100

---
 include/courtier/GExecutorT.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 63a4858..b357fe4 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1874,11 +1874,17 @@ public:
 	  * before execution continues. Set to 0 to disable this option.
 	  */
 	 void setMinPartialReturnPercentage(std::uint16_t minPartialReturnPercentage) {
-		 Gem::Common::checkRangeCompliance<std::uint16_t>(
+		 if(not Gem::Common::checkRangeCompliance<std::uint16_t>(
 			 minPartialReturnPercentage
 			 , 0, 100
 			 , "GBrokerExecutorT<>::setMinPartialReturnPercentage()"
-		 );
+		 )) {
+			 throw gemfony_exception(
+				 g_error_streamer(DO_LOG, time_and_place)
+					 << "In GBrokerExecutorT<>::setMinPartialReturnPercentage(): Error!" << std::endl
+					 << "Percentage should be in the range [0:100] but has value " << minPartialReturnPercentage << std::endl
+			 );
+		 }
 		 m_minPartialReturnPercentage = minPartialReturnPercentage;
 	 }
 
-- 
2.43.0

