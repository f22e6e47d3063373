From 13480adab9932dce4c3dac64f036392c493b5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 01/60] fix: decimal_fixedpoint: bound the digits of a parsed
 number to the storage

Digits outside the representable range were written outside of data[].
---
 src/sst/core/decimal_fixedpoint.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 4129258..2f40bcb 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -22,6 +22,7 @@
 #include <limits>
 #include <ostream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 
@@ -134,7 +135,20 @@ private:
             int digit = start_of_digits + (init.length() - 1 - i);
             int word  = (digit / digits_per_word);
 
-            data[word] += (SST::Core::from_string<uint32_t>(init.substr(i, 1)) * mult);
+            uint32_t digit_value = SST::Core::from_string<uint32_t>(init.substr(i, 1));
+
+            // Digits below the resolution of the number are dropped
+            if ( digit < 0 ) continue;
+
+            // Leading zeros can be ignored, but anything else doesn't fit
+            if ( word >= whole_words + fraction_words ) {
+                if ( digit_value != 0 ) {
+                    throw std::overflow_error("decimal_fixedpoint: number is too large to be represented: " + init_str);
+                }
+                continue;
+            }
+
+            data[word] += (digit_value * mult);
             mult *= 10;
             if ( mult == storage_radix ) mult = 1;
         }
-- 
2.43.0


From 80f0e4c5d721d6667592966535040e280758285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 02/60] fix: decimal_fixedpoint::toUnsignedLong converts the
 whole digits

---
 src/sst/core/decimal_fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 2f40bcb..9514d7f 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -408,7 +408,7 @@ public:
         uint64_t ret    = 0;
         uint64_t factor = 1;
         for ( int i = 0; i < whole_words; ++i ) {
-            ret += (static_cast<int64_t>(data[i]) * factor);
+            ret += (static_cast<uint64_t>(data[fraction_words + i]) * factor);
             factor *= storage_radix;
         }
         return ret;
-- 
2.43.0


From 432b50650154ad315c6012c7386420518b13ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 03/60] fix: decimal_fixedpoint: from_double must not convert a
 negative remainder

---
 src/sst/core/decimal_fixedpoint.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 9514d7f..a7b8017 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -204,6 +204,8 @@ private:
             data[i] = static_cast<uint32_t>(init / factor);
             init -= (data[i] * factor);
             factor /= storage_radix;
+            // Rounding in the division can push the remainder below 0
+            if ( init < 0 ) init = 0;
         }
     }
 
-- 
2.43.0


From 10fc0a74c618e4cfdebe8a85e1992086fc44246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 04/60] fix: decimal_fixedpoint: honor the sign in comparisons
 and double conversions

---
 src/sst/core/decimal_fixedpoint.h | 93 ++++++++++++++-----------------
 src/sst/core/unitAlgebra.cc       |  7 ++-
 2 files changed, 49 insertions(+), 51 deletions(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index a7b8017..59dcc06 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -189,7 +189,8 @@ private:
      */
     void from_double(double init)
     {
-        negative = false;
+        negative = init < 0;
+        if ( negative ) init = -init;
 
         for ( int i = 0; i < whole_words + fraction_words; ++i ) {
             data[i] = 0;
@@ -203,10 +204,42 @@ private:
         for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
             data[i] = static_cast<uint32_t>(init / factor);
             init -= (data[i] * factor);
-            factor /= storage_radix;
             // Rounding in the division can push the remainder below 0
             if ( init < 0 ) init = 0;
+            factor /= storage_radix;
+        }
+    }
+
+    /**
+       Compare the digits of two numbers, ignoring the signs
+
+       @param v Number to compare to
+
+       @return negative, zero or positive value if the magnitude of
+       this number is less than, equal to or greater than that of v
+    */
+    int compareMagnitude(const decimal_fixedpoint& v) const
+    {
+        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
+            if ( data[i] != v.data[i] ) return data[i] < v.data[i] ? -1 : 1;
         }
+        return 0;
+    }
+
+    /**
+       Compare two numbers
+
+       @param v Number to compare to
+
+       @return negative, zero or positive value if this number is less
+       than, equal to or greater than v
+    */
+    int compare(const decimal_fixedpoint& v) const
+    {
+        if ( negative == v.negative ) return negative ? v.compareMagnitude(*this) : compareMagnitude(v);
+        // Zero has no sign
+        if ( isZero() && v.isZero() ) return 0;
+        return negative ? -1 : 1;
     }
 
 public:
@@ -361,7 +394,7 @@ public:
             factor *= storage_radix;
         }
 
-        return ret;
+        return negative ? -ret : ret;
     }
 
     /**
@@ -698,7 +731,7 @@ public:
         }
 
         // Signs don't match, so we need to sort
-        if ( operator>=(v) ) {
+        if ( compareMagnitude(v) >= 0 ) {
             // Calculate the result for each digit.  Need to negate the
             // second operand and pass a 1 in as carry-in (carry-over).
             uint64_t carry_over = 1;
@@ -843,40 +876,21 @@ public:
 
        @param v Number to check equality against
      */
-    bool operator==(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator==(const decimal_fixedpoint& v) const { return compare(v) == 0; }
 
     /**
        Checks to see if two numbers are not equal
 
        @param v Number to check equality against
      */
-    bool operator!=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return true;
-        }
-        return false;
-    }
+    bool operator!=(const decimal_fixedpoint& v) const { return compare(v) != 0; }
 
     /**
        Checks to see if this number is greater than another number
 
        @param v Number to compare to
      */
-    bool operator>(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return false;
-    }
+    bool operator>(const decimal_fixedpoint& v) const { return compare(v) > 0; }
 
     /**
        Checks to see if this number is greater than or equal to
@@ -884,28 +898,14 @@ public:
 
        @param v Number to compare to
      */
-    bool operator>=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator>=(const decimal_fixedpoint& v) const { return compare(v) >= 0; }
 
     /**
        Checks to see if this number is less than another number
 
        @param v Number to compare to
      */
-    bool operator<(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
-        }
-        return false;
-    }
+    bool operator<(const decimal_fixedpoint& v) const { return compare(v) < 0; }
 
     /**
        Checks to see if this number is less than or equal to another
@@ -913,14 +913,7 @@ public:
 
        @param v Number to compare to
      */
-    bool operator<=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator<=(const decimal_fixedpoint& v) const { return compare(v) <= 0; }
 };
 
 template <int whole_words, int fraction_words>
diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index eb73656..192395b 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -376,13 +376,18 @@ UnitAlgebra::toStringBestSI(int32_t precision) const
     std::string       si;
     bool              found = false;
 
+    // The sign doesn't affect which SI unit is the most natural
+    sst_big_num magnitude = value;
+    if ( magnitude < 0 ) magnitude.negate();
+
     auto& si_units = si_unit_map();
     for ( auto it : si_units ) {
         // Divide by the value, if it's between 1 and 1000, we have
         // the most natural SI unit
         if ( it.first.length() == 2 ) continue; // Don't do power of 2 units
-        temp = value / it.second;
+        temp = magnitude / it.second;
         if ( temp >= 1 && temp < 1000 ) {
+            temp  = value / it.second;
             found = true;
             si    = it.first;
             break;
-- 
2.43.0


From b4fee8f024c11f88f6b290f955d20bc51d4d4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 05/60] fix: UnitAlgebra values with different units are not
 equal

---
 src/sst/core/unitAlgebra.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index 192395b..803ab7e 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -487,7 +487,7 @@ UnitAlgebra::operator==(const UnitAlgebra& v) const
 bool
 UnitAlgebra::operator!=(const UnitAlgebra& v) const
 {
-    if ( unit != v.unit ) return false;
+    if ( unit != v.unit ) return true;
     return value != v.value;
 }
 
-- 
2.43.0


From 4cd3238718111b5314db19c45ab1cf2566292921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 06/60] fix: SI prefixes in the denominator of a unit divide
 the value

---
 src/sst/core/unitAlgebra.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index 803ab7e..3dc4ba8 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -128,7 +128,12 @@ Units::addUnit(const std::string& units, sst_big_num& multiplier, bool invert)
 
     if ( si_length > 0 ) {
         std::string si_unit = units.substr(0, si_length);
-        multiplier *= si_unit_map()[si_unit];
+        if ( !invert ) {
+            multiplier *= si_unit_map()[si_unit];
+        }
+        else {
+            multiplier /= si_unit_map()[si_unit];
+        }
     }
 
     // Check to see if the unit is valid and get its ID
-- 
2.43.0


From 0d30299599f2693ff6c11151cc2876611da6053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 07/60] fix: the direct thread sync reports its sync interval

With --interthread-links the sync interval was recomputed from links that are
never registered with ThreadSyncDirectSkip, so it was replaced by an empty sync
and threads ran past events they were still to receive.
---
 src/sst/core/sync/threadSyncDirectSkip.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sst/core/sync/threadSyncDirectSkip.h b/src/sst/core/sync/threadSyncDirectSkip.h
index d6c5ddb..473b79c 100644
--- a/src/sst/core/sync/threadSyncDirectSkip.h
+++ b/src/sst/core/sync/threadSyncDirectSkip.h
@@ -53,6 +53,9 @@ public:
     void finalizeLinkConfigurations() override {}
     void prepareForComplete() override {}
 
+    /** Links are not registered with this object, so the interval comes from the configured latencies */
+    SimTime_t findSyncInterval() override { return my_max_period; }
+
     /** Set signals to exchange during sync */
     void setSignals(int end, int usr, int alrm) override;
     /** Return exchanged signals after sync */
-- 
2.43.0


From b52eb1ab3472056039f86bcb1f33524a1a2f194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 08/60] fix: clock handlers can register and unregister other
 handlers of their clock

Clock::execute() and Clock::Group::execute() kept iterators and indices into
lists that the handlers they call may change, so other handlers were skipped,
run twice, or freed memory was used.
---
 src/sst/core/clock.cc | 153 +++++++++++++++++++-----------------------
 src/sst/core/clock.h  |  18 +++++
 2 files changed, 86 insertions(+), 85 deletions(-)

diff --git a/src/sst/core/clock.cc b/src/sst/core/clock.cc
index 1210fa5..ab13b6e 100644
--- a/src/sst/core/clock.cc
+++ b/src/sst/core/clock.cc
@@ -17,6 +17,7 @@
 #include "sst/core/simulation.h"
 #include "sst/core/timeConverter.h"
 
+#include <algorithm>
 #include <sys/time.h>
 
 namespace SST {
@@ -41,6 +42,8 @@ Clock::Group::registerHandler(HandlerBase* handler)
     // Increment inactive_start_
     ++inactive_start_;
 
+    deferToNextCycle(handler);
+
     if ( currently_inactive ) clock_->activateGroup(this);
 }
 
@@ -83,9 +86,25 @@ Clock::Group::activateHandler(HandlerBase* handler)
     handlers_[index] = handler;
     handler->index_  = index;
 
+    // If the group is currently executing, the handlers from here on have moved down
+    if ( index <= call_index_ ) ++call_index_;
+
+    deferToNextCycle(handler);
+
     if ( currently_inactive ) clock_->activateGroup(this);
 }
 
+void
+Clock::Group::deferToNextCycle(HandlerBase* handler)
+{
+    if ( !clock_->executing_ ) return;
+
+    // The clock is in the middle of a cycle, so the next cycle of this handler is the one after it
+    if ( deferred_cycle_ != clock_->current_cycle_ ) deferred_.clear();
+    deferred_cycle_ = clock_->current_cycle_;
+    deferred_.push_back(handler);
+}
+
 void
 Clock::Group::deactivateHandler(HandlerBase* handler)
 {
@@ -94,6 +113,10 @@ Clock::Group::deactivateHandler(HandlerBase* handler)
 
     // We need to move the handler below inactive_start_ and move everything up to that point up one space
     --inactive_start_;
+
+    // If the group is currently executing, the handlers after this one are about to move up
+    if ( handler->index_ <= call_index_ ) --call_index_;
+
     for ( int i = handler->index_; i < inactive_start_; ++i ) {
         handlers_[i]         = handlers_[i + 1];
         handlers_[i]->index_ = i;
@@ -110,48 +133,21 @@ Clock::Group::deactivateHandler(HandlerBase* handler)
 bool
 Clock::Group::execute(Cycle_t current_cycle)
 {
-    int32_t call_index = 0;
-    for ( ; call_index < inactive_start_; ++call_index ) {
-        HandlerBase* handler = handlers_[call_index];
-        if ( (*handler)(current_cycle) ) {
-            handler->toggleActiveState();
-            // Just break here. This will break us into the compacting version of the iteration in the loop below
-            break;
-        }
-    }
-
-    // Check to see if it finished all the handlers without any of them removing themselves.  As soon as the first
-    // handler removes itself, we drop out of the original loop and enter this one that will compact the rest of the
-    // entries then, then reset inactive_start_ to the appropriate place. This gets rid of the need to constantly delete
-    // individual elements, doing multiple memcpy's of all entries below. This also allows us to update the index for
-    // each handler.
-
-    int32_t copy_index = call_index;
-
-    // Need to increment call_index for the case where we broke out of the upper loop before completing.  If it did
-    // complete, then incrementing it won't hurt anything and the next loop will just be skipped.  It will also be
-    // skipped if the break was on the last entry in the vector
-    for ( ++call_index; call_index < inactive_start_; ++call_index ) {
-        HandlerBase* handler = handlers_[call_index];
-        if ( (*handler)(current_cycle) ) {
-            // Just mark it as inactive and continue on
-            handler->toggleActiveState();
-        }
-        else {
-            // Need to swap this with the handler at copy_index and increment copy_index.  For the swap, the current
-            // handler is active and the one at copy_index is inactive, by construction
-            swapActiveWithInactive(handlers_[call_index], handlers_[copy_index]);
-            ++copy_index;
-        }
-    }
+    // The handlers called here can activate and deactivate handlers of this group, including themselves.
+    // activateHandler() and deactivateHandler() keep call_index_ at the handler that is being called.
+    for ( call_index_ = 0; call_index_ < inactive_start_; ++call_index_ ) {
+        HandlerBase* handler = handlers_[call_index_];
 
-    // inactive_start_ is now at copy_index
-    inactive_start_ = copy_index;
+        // Handlers that were activated during this cycle fire for the first time in the next one
+        if ( deferred_cycle_ == current_cycle && !deferred_.empty() &&
+             std::find(deferred_.begin(), deferred_.end(), handler) != deferred_.end() )
+            continue;
 
-    if ( inactive_start_ == 0 ) {
-        return true; // No active handlers
+        if ( (*handler)(current_cycle) ) deactivateHandler(handler);
     }
-    return false;
+    call_index_ = -1;
+
+    return inactive_start_ == 0; // No active handlers
 }
 
 void
@@ -235,14 +231,21 @@ Clock::unregisterHandler(Clock::HandlerBase* handler, bool& empty)
 {
     if ( handler->isActive() ) {
         // Need to get index before marking it as inactive, which sets index to -1
-        int  index = handler->index_;
-        auto iter  = handlers_.begin() + index;
-        iter       = handlers_.erase(iter);
+        int index = handler->index_;
         handler->markAsInactive();
 
-        // Need to update the index for every handler below this one
-        for ( ; iter != handlers_.end(); ++iter ) {
-            (*iter)->index_ = index++;
+        if ( executing_ ) {
+            // The list is being iterated over, so just leave an empty slot that execute() will remove
+            handlers_[index] = nullptr;
+            empty_slots_     = true;
+        }
+        else {
+            auto iter = handlers_.erase(handlers_.begin() + index);
+
+            // Need to update the index for every handler below this one
+            for ( ; iter != handlers_.end(); ++iter ) {
+                (*iter)->index_ = index++;
+            }
         }
     }
     empty = handlers_.empty();
@@ -321,52 +324,31 @@ Clock::execute()
     // Derive the current cycle from the core time
     current_cycle_++;
 
-    auto sop_iter = handlers_.begin();
-    for ( ; sop_iter != handlers_.end(); ++sop_iter ) {
-        Clock::HandlerBase* handler = *sop_iter;
-
-        if ( (*handler)(current_cycle_) ) {
-            handler->markAsInactive();
-            // Just break here.  The handler has been marked inactive and the pointer will be overwritten or removed at
-            // the end as an empty slot.  This will break us into the compacting version of the iteration in the loop
-            // below
-            break;
+    // The handlers called here can register and unregister handlers of this clock, including themselves.  While
+    // executing_ is set, handlers that are registered are put at the end of the list, past the handlers to be called in
+    // this cycle, and handlers that are unregistered leave an empty slot behind.
+    executing_   = true;
+    size_t count = handlers_.size();
+    for ( size_t i = 0; i < count; ++i ) {
+        Clock::HandlerBase* handler = handlers_[i];
+        if ( handler && (*handler)(current_cycle_) ) {
+            bool empty = false;
+            unregisterHandler(handler, empty);
         }
     }
 
-    // Check to see if it finished all the handlers without any of them removing themselves.  As soon as the first
-    // handler removes itself, we drop out of the original loop and enter this one that will compact the rest of the
-    // entries then delete any empty spaces at the end. This gets rid of the need to constantly delete individual
-    // elements, doing multiple memcpy's of all entries below. This also allows us to update the index for each handler.
-    if ( sop_iter != handlers_.end() ) {
-        // sop_iter becomes the location to copy to and we will start one past this calling the handler.  Then, we will
-        // copy the handler to the copy_iter and update its index.
-        auto   copy_iter = sop_iter; // Rename for clarity
-        size_t index     = copy_iter - handlers_.begin();
-
-        for ( auto call_iter = sop_iter + 1; call_iter != handlers_.end(); ++call_iter ) {
-            Clock::HandlerBase* handler = *call_iter;
-
-            if ( (*handler)(current_cycle_) ) {
-                // just mark as inactive.  The pointer will either get overwritten, or removed at the end as an empty
-                // slot
-                handler->markAsInactive();
-            }
-            else {
-                // Still active.  Need to copy up to copy_iter location and update the index
-                handler->index_ = index++;
-                *copy_iter      = *call_iter;
-
-                // Advance the copy location
-                ++copy_iter;
-            }
+    // Remove the empty slots, if there are any, and update the index of the handlers that move
+    if ( empty_slots_ ) {
+        size_t index = 0;
+        for ( auto* handler : handlers_ ) {
+            if ( !handler ) continue;
+            handler->index_    = index;
+            handlers_[index++] = handler;
         }
-
-        // Need to remove any empty locations in the vector
-        handlers_.erase(copy_iter, handlers_.end());
+        handlers_.resize(index);
+        empty_slots_ = false;
     }
 
-
     // Now we need to go through all the active groups.  This loop is a bit weird because each iteration through the
     // loop can do one of too things to the control variables:
 
@@ -388,6 +370,7 @@ Clock::execute()
             ++i;
         }
     }
+    executing_ = false;
 
     // Compute the next time to fire
     next_ = sim_->getCurrentSimCycle() + period_.getFactor();
diff --git a/src/sst/core/clock.h b/src/sst/core/clock.h
index eb255c4..7c39345 100644
--- a/src/sst/core/clock.h
+++ b/src/sst/core/clock.h
@@ -55,6 +55,13 @@ private:
         Clock*                    clock_          = nullptr;
         int32_t                   index_;
 
+        // Index of the handler being called while the group is executing, -1 otherwise
+        int32_t call_index_ = -1;
+
+        // Handlers that were activated while the clock was executing cycle deferred_cycle_
+        std::vector<HandlerBase*> deferred_;
+        Cycle_t                   deferred_cycle_ = 0;
+
     public:
 
         /**
@@ -102,6 +109,11 @@ private:
 
     private:
 
+        /**
+           Makes sure a handler activated while the clock executes is not called in the current cycle
+        */
+        void deferToNextCycle(HandlerBase* handler);
+
         /**
            Swaps locations of an active handler with an inactive handler.  It will also swap the index state of the two
            handlers. No checks will be done to ensure the active state
@@ -369,6 +381,12 @@ private:
     bool          scheduled_ = false;
     Simulation*   sim_       = nullptr;
 
+    // True while the handlers and groups are being called
+    bool executing_ = false;
+
+    // True if handlers_ has empty slots (only while executing)
+    bool empty_slots_ = false;
+
     void serialize_order(SST::Core::Serialization::serializer& ser) override;
     ImplementSerializable(SST::Clock)
 };
-- 
2.43.0


From 58db60d2e2a1243774727f69340d290177ba7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:24 +0000
Subject: [PATCH 09/60] fix: a restarted thread does not run before the
 statistic outputs started

On a restart with several threads, nothing kept the other threads from running
(and writing group statistics) while thread 0 was still starting the outputs.
---
 src/sst/core/simulation.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 5589aa7..2f7ff57 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -2338,9 +2338,13 @@ Simulation::restart(ConfigGraph* graph)
 
     // Prepare stat engine for restart now that stats are registered
     stat_engine.finalizeInitialization();
+
+    // The outputs start once every thread has registered its statistics, and no thread can run before they have started
+    setupBarrier.wait();
     if ( my_rank.thread == 0 ) {
         StatisticProcessingEngine::stat_outputs_simulation_start();
     }
+    setupBarrier.wait();
 
 
     // stat_engine.startOfSimulation();
-- 
2.43.0


From 77172755360b0e703f643f1f3cc6d74904f870a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 10/60] fix: ending by agreement handles withdrawals, stops and
 independent threads

Agreeing, withdrawing and agreeing again at one time queued the Exit object
twice, and a stop before it executed left it both in the queue and owned by the
simulation (double free in both cases).  An independent thread stopped before
the other activities of its end time (and although a component withdrew), and
the last independent thread to finish in wall-clock time determined the end
time.
---
 src/sst/core/exit.cc       | 45 +++++++++++++++++++++++++++++++++-----
 src/sst/core/exit.h        | 25 +++++++++++++++++++--
 src/sst/core/simulation.cc |  1 +
 3 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/src/sst/core/exit.cc b/src/sst/core/exit.cc
index c2e994e..4bc2b1d 100644
--- a/src/sst/core/exit.cc
+++ b/src/sst/core/exit.cc
@@ -16,7 +16,6 @@
 #include "sst/core/component.h"
 #include "sst/core/simulation.h"
 #include "sst/core/sst_mpi.h"
-#include "sst/core/stopAction.h"
 
 #include <cstdint>
 #include <mutex>
@@ -25,6 +24,35 @@ using SST::Core::ThreadSafe::Spinlock;
 
 namespace SST {
 
+/**
+   Action which ends an independent thread once all the primary
+   components of the thread agreed
+*/
+class ThreadExit : public Action
+{
+public:
+    ThreadExit(Exit* exit, uint32_t thread) :
+        Action(),
+        exit_(exit),
+        thread_(thread)
+    {
+        setPriority(EXITPRIORITY);
+    }
+
+    void execute() override
+    {
+        // Another component could have withdrawn in the meantime
+        if ( exit_->getThreadRefCount(thread_) == 0 ) endSimulation();
+        delete this;
+    }
+
+    NotSerializable(SST::ThreadExit)
+
+private:
+    Exit*    exit_;
+    uint32_t thread_;
+};
+
 Exit::Exit(int num_threads, bool single_rank) :
     Action(),
     num_threads_(num_threads),
@@ -64,16 +92,20 @@ Exit::refDec(uint32_t thread)
     if ( single_rank_ && num_threads_ == 1 && ref_count_ == 0 ) {
         end_time_       = Simulation::getSimulation()->getCurrentSimCycle();
         Simulation* sim = Simulation::getSimulation();
-        sim->insertActivity(sim->getCurrentSimCycle() + 1, this);
+        // The object can only be in the queue once
+        if ( !scheduled_ ) {
+            scheduled_ = true;
+            sim->insertActivity(sim->getCurrentSimCycle() + 1, this);
+        }
     }
     else if ( thread_counts_[thread] == 0 ) {
         SimTime_t end_time_new = Simulation::getSimulation()->getCurrentSimCycle();
         if ( end_time_new > end_time_ ) end_time_ = end_time_new;
         if ( Simulation::getSimulation()->isIndependentThread() ) {
-            // Need to exit just this thread, so we'll need to use a
-            // StopAction
+            // Need to exit just this thread, after everything else that
+            // happens at this time
             Simulation* sim = Simulation::getSimulation();
-            sim->insertActivity(sim->getCurrentSimCycle(), new StopAction());
+            sim->insertActivity(sim->getCurrentSimCycle(), new ThreadExit(this, thread));
         }
     }
 }
@@ -87,7 +119,8 @@ Exit::getRefCount()
 void
 Exit::execute()
 {
-    // Only gets put into queue once, no need to reschedule
+    // Only gets put into queue when all have agreed, no need to reschedule
+    scheduled_ = false;
     check();
 }
 
diff --git a/src/sst/core/exit.h b/src/sst/core/exit.h
index 6449be8..23da356 100644
--- a/src/sst/core/exit.h
+++ b/src/sst/core/exit.h
@@ -18,6 +18,7 @@
 
 #include <cinttypes>
 #include <cstdint>
+#include <mutex>
 #include <string>
 #include <unordered_set>
 
@@ -65,6 +66,14 @@ public:
      */
     unsigned int getRefCount();
 
+    /**
+       Get the current reference count of one thread
+
+       @param thread number of the thread
+       @return current reference count of the thread
+     */
+    unsigned int getThreadRefCount(uint32_t thread) const { return thread_counts_[thread]; }
+
     /**
        Gets the end time of the simulation
 
@@ -73,11 +82,16 @@ public:
     SimTime_t getEndTime() { return end_time_; }
 
     /**
-       Stores the time the simulation has ended
+       Stores the time the simulation has ended.  Independent threads
+       end on their own, the last one ends the simulation.
 
        @param time Current simulation time
     */
-    void setEndTime(SimTime_t time) { end_time_ = time; }
+    void setEndTime(SimTime_t time)
+    {
+        std::scoped_lock lock(slock_);
+        if ( time > end_time_ ) end_time_ = time;
+    }
 
     /**
        Computes the end time of the simulation.  This call
@@ -113,6 +127,12 @@ public:
     */
     unsigned int getGlobalCount() { return global_count_; }
 
+    /**
+       Whether the object is waiting in the TimeVortex, which then
+       owns it
+    */
+    bool isScheduled() const { return scheduled_; }
+
     // Exit should not be serialized. It will be created new on
     // restart and Components store there primary component state and
     // reregister with Exit on restart.
@@ -129,6 +149,7 @@ private:
     unsigned int  global_count_  = 0;
     SimTime_t     end_time_      = 0;
     bool          single_rank_   = true;
+    bool          scheduled_     = false; // in the queue (serial runs only)
 
     Core::ThreadSafe::Spinlock slock_;
 };
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 2f7ff57..0c8afdb 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -200,6 +200,7 @@ Simulation::~Simulation()
 
     // Delete the timeVortex first.  This will delete all events left
     // in the queue, as well as the Sync, Exit and Clock objects.
+    if ( m_exit != nullptr && m_exit->isScheduled() ) m_exit = nullptr;
     delete timeVortex;
 
     // For serial runs, the sync object is not in the timevortex
-- 
2.43.0


From 7060cde9c8bc29c92c5bde4dbc7dab944f9457fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:22 +0000
Subject: [PATCH 11/60] fix: the direct thread sync advances when the minimum
 latency is one cycle

The sync asked to run one cycle before its interval ended, that is at the same
time again for an interval of one, and the simulation never progressed.
---
 src/sst/core/sync/threadSyncDirectSkip.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/sync/threadSyncDirectSkip.h b/src/sst/core/sync/threadSyncDirectSkip.h
index 473b79c..74212ad 100644
--- a/src/sst/core/sync/threadSyncDirectSkip.h
+++ b/src/sst/core/sync/threadSyncDirectSkip.h
@@ -70,7 +70,8 @@ public:
     /** Clear interactive flags before next run */
     void clearFlags() override;
 
-    SimTime_t getNextSyncTime() override { return nextSyncTime - 1; }
+    // Syncs run before everything else at their time, so all that was sent since the last sync arrives later
+    SimTime_t getNextSyncTime() override { return nextSyncTime; }
 
     /** Register a Link which this Sync Object is responsible for */
     void           registerLink(Link* UNUSED(link)) override {}
-- 
2.43.0


From a67825bbe461ba1f9d5c8a9ff32c666aceecdfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:27 +0000
Subject: [PATCH 12/60] fix: untimed data of a direct interthread link is
 protected against concurrent access

---
 src/sst/core/initQueue.cc | 7 +++++++
 src/sst/core/initQueue.h  | 5 ++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/initQueue.cc b/src/sst/core/initQueue.cc
index ddf528c..645fe38 100644
--- a/src/sst/core/initQueue.cc
+++ b/src/sst/core/initQueue.cc
@@ -13,6 +13,8 @@
 
 #include "sst/core/initQueue.h"
 
+#include <mutex>
+
 namespace SST {
 
 InitQueue::~InitQueue()
@@ -28,24 +30,28 @@ InitQueue::~InitQueue()
 bool
 InitQueue::empty()
 {
+    std::scoped_lock lock(slock_);
     return data.empty();
 }
 
 int
 InitQueue::size()
 {
+    std::scoped_lock lock(slock_);
     return data.size();
 }
 
 void
 InitQueue::insert(Activity* activity)
 {
+    std::scoped_lock lock(slock_);
     data.push_back(activity);
 }
 
 Activity*
 InitQueue::pop()
 {
+    std::scoped_lock lock(slock_);
     if ( data.size() == 0 ) return nullptr;
     Activity* ret_val = data.front();
     data.pop_front();
@@ -55,6 +61,7 @@ InitQueue::pop()
 Activity*
 InitQueue::front()
 {
+    std::scoped_lock lock(slock_);
     if ( data.size() == 0 ) return nullptr;
     return data.front();
 }
diff --git a/src/sst/core/initQueue.h b/src/sst/core/initQueue.h
index 0b2c4f9..3069e86 100644
--- a/src/sst/core/initQueue.h
+++ b/src/sst/core/initQueue.h
@@ -13,6 +13,7 @@
 #define SST_CORE_INITQUEUE_H
 
 #include "sst/core/activityQueue.h"
+#include "sst/core/threadsafe.h"
 
 #include <deque>
 
@@ -34,7 +35,9 @@ public:
     Activity* front() override;
 
 private:
-    std::deque<Activity*> data;
+    // The two ends of a link may be on different threads (direct interthread links)
+    Core::ThreadSafe::Spinlock slock_;
+    std::deque<Activity*>      data;
 };
 
 } // namespace SST
-- 
2.43.0


From 7b785c9ba305b46297a5934b13db17fa518e5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:27 +0000
Subject: [PATCH 13/60] fix: a BoundedQueue without slots accepts and yields
 nothing

---
 src/sst/core/threadsafe.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sst/core/threadsafe.h b/src/sst/core/threadsafe.h
index db32fcb..026352c 100644
--- a/src/sst/core/threadsafe.h
+++ b/src/sst/core/threadsafe.h
@@ -216,6 +216,7 @@ public:
 
     bool try_insert(const T& arg)
     {
+        if ( dsize == 0 ) return false; // no room for any element
         cell_t* cell = nullptr;
         size_t  pos  = wPtr.load(std::memory_order_relaxed);
         for ( ;; ) {
@@ -240,6 +241,7 @@ public:
 
     bool try_remove(T& res)
     {
+        if ( dsize == 0 ) return false;
         cell_t* cell = nullptr;
         size_t  pos  = rPtr.load(std::memory_order_relaxed);
         for ( ;; ) {
-- 
2.43.0


From 944c8c4a5c14e5b41b6aac7c60b07d460900246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:27 +0000
Subject: [PATCH 14/60] fix: a thread sync of a multi-rank run does not skip
 the next checkpoint

---
 src/sst/core/sync/syncManager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/sync/syncManager.cc b/src/sst/core/sync/syncManager.cc
index 7613926..59cff78 100644
--- a/src/sst/core/sync/syncManager.cc
+++ b/src/sst/core/sync/syncManager.cc
@@ -563,7 +563,8 @@ SyncManager::execute()
     }
     if ( profile_tools_ ) profile_tools_->syncManagerStart(next_sync_type_ == RANK);
 
-    SimTime_t next_checkpoint_time = MAX_SIMTIME_T;
+    // A thread sync of a multi-rank run does not write checkpoints, but must not skip the next one either
+    SimTime_t next_checkpoint_time = checkpoint_ ? checkpoint_->getNextCheckpointSimTime() : MAX_SIMTIME_T;
 
     switch ( next_sync_type_ ) {
     case RANK:
-- 
2.43.0


From 4afcd27c6501b9f2098c9b13efc0e041fdfdf28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:53 +0000
Subject: [PATCH 15/60] fix: both ends of a direct interthread link can be
 deleted at the same time

---
 src/sst/core/link.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sst/core/link.cc b/src/sst/core/link.cc
index 13189d3..373a32e 100644
--- a/src/sst/core/link.cc
+++ b/src/sst/core/link.cc
@@ -29,6 +29,7 @@
 #include "sst/core/uninitializedQueue.h"
 #include "sst/core/unitAlgebra.h"
 
+#include <mutex>
 #include <utility>
 
 namespace SST {
@@ -478,16 +479,26 @@ Link::Link() :
     tag(bit_util::type_max<uint32_t>)
 {}
 
+// Protects the unlinking of the two ends of a link
+static std::mutex pair_link_lock;
+
 Link::~Link()
 {
     // Check to see if my pair_link is nullptr.  If not, let the other
     // link know I've been deleted
-    if ( pair_link != nullptr && pair_link != this ) {
-        pair_link->pair_link = nullptr;
-        // If my pair link is a SYNC link,
-        // also need to delete it because no one else has a pointer to.
-        if ( SYNC == pair_link->type ) delete pair_link;
+    Link* sync_link = nullptr;
+    {
+        // With direct interthread links the two ends may be deleted by
+        // different threads at the same time
+        std::scoped_lock lock(pair_link_lock);
+        if ( pair_link != nullptr && pair_link != this ) {
+            pair_link->pair_link = nullptr;
+            // If my pair link is a SYNC link,
+            // also need to delete it because no one else has a pointer to.
+            if ( SYNC == pair_link->type ) sync_link = pair_link;
+        }
     }
+    delete sync_link;
 
     if ( has_tool_list ) delete attached_tools;
 }
-- 
2.43.0


From 649c2f478ab46ae3f76398eb373663c5baa3ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:53 +0000
Subject: [PATCH 16/60] fix: a restarted link keeps the tag that orders the
 events it receives

---
 src/sst/core/link.cc       | 7 ++++---
 src/sst/core/simulation.cc | 1 -
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/link.cc b/src/sst/core/link.cc
index 373a32e..d40e276 100644
--- a/src/sst/core/link.cc
+++ b/src/sst/core/link.cc
@@ -135,7 +135,9 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         */
         SST_SER(s->type);
         SST_SER(s->mode);
-        SST_SER(s->tag);
+        // The tag that orders the events this link receives is
+        // stored in the pair_link (see setTag())
+        SST_SER(s->pair_link->tag);
 
         /*
           Store handler for handler links, or store the contents
@@ -318,7 +320,7 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         */
         SST_SER(s->type);
         SST_SER(s->mode);
-        SST_SER(s->tag);
+        SST_SER(s->pair_link->tag);
 
         /*
           Get handler for handler links, or restore the contents
@@ -416,7 +418,6 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         if ( is_restart_sync ) {
             s->pair_link->type = Link::SYNC;
             s->pair_link->mode = s->mode;
-            s->pair_link->tag  = s->tag;
 
             s->pair_link->defaultTimeBase = 1;
             s->pair_link->id              = s->getId();
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 0c8afdb..beac9a3 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -2417,7 +2417,6 @@ Simulation::discoverRemoteLinks()
                 Link* link = link_restart_tracking[local_id];
                 link->type = Link::SYNC;
                 link->mode = link->pair_link->mode;
-                link->tag  = link->pair_link->tag;
 
                 link->defaultTimeBase = 1;
                 link->id              = link->pair_link->getId();
-- 
2.43.0


From 5f27d8d946455fd8ba4ee47cddb1956f4a35a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:53 +0000
Subject: [PATCH 17/60] fix: restarted events keep their insertion order across
 links

---
 src/sst/core/link.cc       | 19 +++++++++----------
 src/sst/core/link.h        |  3 +--
 src/sst/core/simulation.cc |  8 ++++++++
 src/sst/core/simulation.h  |  1 +
 4 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/sst/core/link.cc b/src/sst/core/link.cc
index d40e276..e37d2ec 100644
--- a/src/sst/core/link.cc
+++ b/src/sst/core/link.cc
@@ -37,8 +37,7 @@ namespace SST {
 bool Link::is_restart_same_parallelism = false;
 
 void
-SST::Core::Serialization::serialize_impl<Link*>::serialize_events(
-    serializer& ser, uintptr_t delivery_info, ActivityQueue* queue)
+SST::Core::Serialization::serialize_impl<Link*>::serialize_events(serializer& ser, uintptr_t delivery_info)
 {
     if ( ser.mode() == serializer::SIZER || ser.mode() == serializer::PACK ) {
         // Look up all the events for the specified handler
@@ -58,10 +57,11 @@ SST::Core::Serialization::serialize_impl<Link*>::serialize_events(
         for ( size_t i = 0; i < count; ++i ) {
             Event* ev = nullptr;
             SST_SER(ev);
-            // Insert into the specified ActivityQueue after updating
-            // delvery_info
+            // Update the delvery_info. The event will be inserted into
+            // the TimeVortex once all the events are available, so that
+            // the original insertion order can be kept.
             Link::updateEventDeliveryInfo(ev, delivery_info);
-            queue->insert(ev);
+            Simulation::getSimulation()->event_restart_list.push_back(ev);
         }
     }
 }
@@ -406,12 +406,11 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
           Deserialize the events targetting this link
         */
 
-        // Need to send the events on the pair's send_queue, with
-        // the delivery_info stored there. If this happens to be a
-        // PollingLinkQueue, then nothing will actually get sent
-        // since no events would have been serialized at this
+        // The events need the delivery_info stored in the
+        // pair_link. If this is a POLL link, then there won't be
+        // any since no events would have been serialized at this
         // point in Link serialization.
-        serialize_events(ser, s->pair_link->delivery_info, s->pair_link->send_queue);
+        serialize_events(ser, s->pair_link->delivery_info);
 
         // Need to finish initializing the links if this is now a
         // sync link.
diff --git a/src/sst/core/link.h b/src/sst/core/link.h
index b364537..21589e7 100644
--- a/src/sst/core/link.h
+++ b/src/sst/core/link.h
@@ -45,8 +45,7 @@ class SST::Core::Serialization::serialize_impl<Link*>
 {
     // Function implemented in link.cc
     void operator()(Link*& s, SST::Core::Serialization::serializer& ser, ser_opt_t options);
-    void serialize_events(
-        SST::Core::Serialization::serializer& ser, uintptr_t delivery_info, ActivityQueue* queue = nullptr);
+    void serialize_events(SST::Core::Serialization::serializer& ser, uintptr_t delivery_info);
 
     SST_FRIEND_SERIALIZE();
 };
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index beac9a3..77567f9 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -2323,6 +2323,14 @@ Simulation::restart(ConfigGraph* graph)
         }
     }
 
+    // The events were extracted link by link. Insert them into the
+    // TimeVortex in the order in which they were originally inserted.
+    std::stable_sort(event_restart_list.begin(), event_restart_list.end(),
+        [](const Activity* a, const Activity* b) { return a->getQueueOrder() < b->getQueueOrder(); });
+    for ( auto* ev : event_restart_list )
+        timeVortex->insert(ev);
+    event_restart_list.clear();
+
     // If we are a parallel job, need to call
     // finalizeLinkConfigurations() in order to finish setting up all
     // the sync data structures. This will also cause the SyncManager to
diff --git a/src/sst/core/simulation.h b/src/sst/core/simulation.h
index 53eaa92..14d23bd 100644
--- a/src/sst/core/simulation.h
+++ b/src/sst/core/simulation.h
@@ -700,6 +700,7 @@ public:
 
     /******** Checkpoint/restart tracking data structures ***********/
     std::map<LinkId_t, Link*>      link_restart_tracking;
+    std::vector<Activity*>         event_restart_list;
     std::map<uintptr_t, uintptr_t> event_handler_restart_tracking;
     uint32_t                       checkpoint_id_       = 0;
     std::string                    checkpoint_prefix_   = "";
-- 
2.43.0


From 8e67a80c6724757641187555edac368378028906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:41 +0000
Subject: [PATCH 18/60] fix: popping an empty thread-safe time vortex releases
 its lock

---
 src/sst/core/impl/timevortex/timeVortexPQ.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexPQ.cc b/src/sst/core/impl/timevortex/timeVortexPQ.cc
index 7d75427..21fd6ff 100644
--- a/src/sst/core/impl/timevortex/timeVortexPQ.cc
+++ b/src/sst/core/impl/timevortex/timeVortexPQ.cc
@@ -76,7 +76,10 @@ Activity*
 TimeVortexPQBase<TS>::pop()
 {
     if constexpr ( TS ) slock.lock();
-    if ( data.empty() ) return nullptr;
+    if ( data.empty() ) {
+        if constexpr ( TS ) slock.unlock();
+        return nullptr;
+    }
     Activity* ret_val = data.top();
     data.pop();
     current_depth--;
-- 
2.43.0


From 506a1fa0f9df1604eea966301594e7dcc793dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:41 +0000
Subject: [PATCH 19/60] fix: the binned time vortex reports its contents

---
 src/sst/core/impl/timevortex/timeVortexBinnedMap.cc | 11 +++++++++++
 src/sst/core/impl/timevortex/timeVortexBinnedMap.h  |  9 ++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
index 5832321..fc644f3 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
@@ -163,6 +163,17 @@ TimeVortexBinnedMapBase<TS>::print(Output& out) const
     // Still need to figure out a reasonable way to print the state
 }
 
+template <bool TS>
+void
+TimeVortexBinnedMapBase<TS>::getContents(std::vector<Activity*>& activities) const
+{
+    activities.clear();
+    current_time_unit->getContents(activities);
+    for ( auto& entry : map ) {
+        entry.second->getContents(activities);
+    }
+}
+
 
 class TimeVortexBinnedMap : public TimeVortexBinnedMapBase<false>
 {
diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
index d3f01de..61d99c5 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
@@ -119,6 +119,11 @@ private:
 
         void sort();
 
+        void getContents(std::vector<Activity*>& contents) const
+        {
+            contents.insert(contents.end(), activities.begin(), activities.end());
+        }
+
         inline bool operator<(const TimeUnit& rhs) { return this->sort_time < rhs.sort_time; }
 
         /** To use with STL priority queues, that order in reverse. */
@@ -154,9 +159,7 @@ public:
     uint64_t getCurrentDepth() const override { return current_depth; }
     uint64_t getMaxDepth() const override { return max_depth; }
 
-    // TODO: Implement getContents(). For now, just return an empty
-    // vector.
-    void getContents(std::vector<Activity*>& UNUSED(activities)) const override {}
+    void getContents(std::vector<Activity*>& activities) const override;
 
 private:
     // Should only ever be accessed by the "active" thread.  Not safe
-- 
2.43.0


From 941b4fc81806cd9fea964d0f62d79ab2bc9359e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:41 +0000
Subject: [PATCH 20/60] fix: looking at the front of a binned time vortex does
 not change it

---
 src/sst/core/impl/timevortex/timeVortexBinnedMap.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
index 61d99c5..42a44ba 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
@@ -14,6 +14,7 @@
 
 #include "sst/core/threadsafe.h"
 
+#include <algorithm>
 #include <atomic>
 #include <cstdint>
 #include <map>
@@ -109,11 +110,15 @@ private:
             return ret;
         }
 
-        // front only happens by one thread
-        Activity* front()
+        // front can be called by several threads at once (all threads
+        // look for the next activity time during a sync), so it must
+        // not change anything
+        Activity* front() const
         {
             if ( 0 == activities.size() ) return nullptr;
-            if ( !sorted ) sort();
+            if ( !sorted )
+                return *std::min_element(
+                    activities.begin(), activities.end(), Activity::less<true, true, true>());
             return activities.back();
         }
 
-- 
2.43.0


From ea5f4b70ff46bda96a8126a81fadd0d094339df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:41 +0000
Subject: [PATCH 21/60] fix: the thread-safe binned time vortex protects its
 current time unit

---
 .../impl/timevortex/timeVortexBinnedMap.cc    | 86 +++++++++----------
 1 file changed, 41 insertions(+), 45 deletions(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
index fc644f3..a611052 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
@@ -72,70 +72,66 @@ template <bool TS>
 void
 TimeVortexBinnedMapBase<TS>::insert(Activity* activity)
 {
-    activity->setQueueOrder(insertOrder++);
     SimTime_t sort_time = activity->getDeliveryTime();
 
-    current_depth++;
+    // An event for the current time can come from a SelfLink with no
+    // added latency, but also from another thread that is not yet
+    // done with the time before the current sync.  So, even the
+    // current time unit needs the mutex.
+    if constexpr ( TS ) slock.lock();
+    activity->setQueueOrder(insertOrder++);
 
-    // This is not really thread safe, but it's only used for stats,
-    // so is okay if it misses something.
+    current_depth++;
     if ( UNLIKELY(current_depth > max_depth) ) {
         max_depth = current_depth;
     }
 
-    // Check to see if this event is supposed to be delivered at the
-    // current time.  This can only happen if it comes in on a
-    // SelfLink with no added latency.  This means that only one
-    // thread at a time can access the current time unit.  Thus, no
-    // mutex.
     if ( UNLIKELY(sort_time == current_time_unit->getSortTime()) ) {
         current_time_unit->insert(activity);
-        return;
-    }
-
-    // Look to see if we already have a TimeUnit for this delivery
-    // time.  Any access to the map must be protected with a mutex.
-    if constexpr ( TS ) slock.lock();
-    auto element = map.find(sort_time);
-    if ( element == map.end() ) {
-        // Need to create a new entry in map for this delivery time,
-        // put in this activity.
-        auto entry = pool.remove();
-        entry->setSortTime(sort_time);
-        map.emplace_hint(map.end(), sort_time, entry);
-        if constexpr ( TS ) slock.unlock();
-        entry->insert(activity);
     }
     else {
-        // Don't need to add a new TimeUnit, so drop the lock before
-        // inserting.
-        if constexpr ( TS ) slock.unlock();
-        // Just drop this into the existing vector
-        (*element).second->insert(activity);
+        // Look to see if we already have a TimeUnit for this delivery
+        // time.
+        auto element = map.find(sort_time);
+        if ( element == map.end() ) {
+            // Need to create a new entry in map for this delivery time,
+            // put in this activity.
+            auto entry = pool.remove();
+            entry->setSortTime(sort_time);
+            map.emplace_hint(map.end(), sort_time, entry);
+            entry->insert(activity);
+        }
+        else {
+            // Just drop this into the existing vector
+            (*element).second->insert(activity);
+        }
     }
+    if constexpr ( TS ) slock.unlock();
 }
 
 template <bool TS>
 Activity*
 TimeVortexBinnedMapBase<TS>::pop()
 {
-    if ( current_depth == 0 ) return nullptr;
-    current_depth--;
+    if constexpr ( TS ) slock.lock();
+    Activity* ret = nullptr;
+    if ( current_depth != 0 ) {
+        current_depth--;
 
-    Activity* ret = current_time_unit->pop();
-    if ( ret == nullptr ) {
-        if constexpr ( TS ) slock.lock();
-        // Need to get the next TimeUnit
-
-        // Return current time unit to pool
-        pool.insert(current_time_unit);
-        // Get next time unit
-        current_time_unit = map.begin()->second;
-        // Erase this time unit from map
-        map.erase(current_time_unit->getSortTime());
-        if constexpr ( TS ) slock.unlock();
         ret = current_time_unit->pop();
+        if ( ret == nullptr ) {
+            // Need to get the next TimeUnit
+
+            // Return current time unit to pool
+            pool.insert(current_time_unit);
+            // Get next time unit
+            current_time_unit = map.begin()->second;
+            // Erase this time unit from map
+            map.erase(current_time_unit->getSortTime());
+            ret = current_time_unit->pop();
+        }
     }
+    if constexpr ( TS ) slock.unlock();
     return ret;
 }
 
@@ -143,14 +139,14 @@ template <bool TS>
 Activity*
 TimeVortexBinnedMapBase<TS>::front()
 {
-    // if ( TS ) slock.lock();
+    if constexpr ( TS ) slock.lock();
     Activity* ret = current_time_unit->front();
     // Check to see if we need to look at the next timeunit
     if ( ret == nullptr ) {
         auto it = map.begin();
         ret     = it->second->front();
     }
-    // if ( TS ) slock.unlock();
+    if constexpr ( TS ) slock.unlock();
     return ret;
 }
 
-- 
2.43.0


From bacd7dc65c3659d00bb33e10ad7265e04b942623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:38 +0000
Subject: [PATCH 22/60] fix: the index of a new port module counts the modules
 of its port

---
 src/sst/core/model/configComponent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/configComponent.cc b/src/sst/core/model/configComponent.cc
index e891d8f..8311498 100644
--- a/src/sst/core/model/configComponent.cc
+++ b/src/sst/core/model/configComponent.cc
@@ -540,7 +540,7 @@ size_t
 ConfigComponent::addPortModule(const std::string& port, const std::string& type, const Params& params)
 {
     port_modules[port].emplace_back(type, params);
-    return port_modules.size() - 1;
+    return port_modules[port].size() - 1;
 }
 
 std::vector<LinkId_t>
-- 
2.43.0


From 54704c2544d3dd3382785ac9bf36d21102c47f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:37 +0000
Subject: [PATCH 23/60] fix: a thread that enters the barrier while it is
 disabled does not wait forever

---
 src/sst/core/threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/threadsafe.h b/src/sst/core/threadsafe.h
index 026352c..3de625a 100644
--- a/src/sst/core/threadsafe.h
+++ b/src/sst/core/threadsafe.h
@@ -116,7 +116,7 @@ public:
                         ts.tv_nsec = 1000;
                         nanosleep(&ts, nullptr);
                     }
-                } while ( gen == generation.load(std::memory_order_acquire) );
+                } while ( gen == generation.load(std::memory_order_acquire) && enabled );
             }
             elapsed = SST::Core::Profile::getElapsed(startTime);
         }
-- 
2.43.0


From 663be1821c05f4b86ab72b4cf898fa61c696a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:04 +0000
Subject: [PATCH 24/60] fix: a bounded queue of one element holds one element

---
 src/sst/core/threadsafe.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sst/core/threadsafe.h b/src/sst/core/threadsafe.h
index 3de625a..818af2a 100644
--- a/src/sst/core/threadsafe.h
+++ b/src/sst/core/threadsafe.h
@@ -168,6 +168,8 @@ template <typename T>
 class BoundedQueue
 {
 
+    // A cell is free for the insert at position pos when its sequence is 2 * pos, and filled by it when its sequence is
+    // 2 * pos + 1 (the two differ from each other for every size of the queue, including 1)
     struct cell_t
     {
         std::atomic<size_t> sequence;
@@ -198,7 +200,7 @@ public:
         dsize = maxSize;
         data  = new cell_t[dsize];
         for ( size_t i = 0; i < maxSize; i++ )
-            data[i].sequence.store(i);
+            data[i].sequence.store(2 * i);
         rPtr.store(0);
         wPtr.store(0);
         // fprintf(stderr, "%p  %p:  %ld\n", &rPtr, &wPtr, ((intptr_t)&wPtr - (intptr_t)&rPtr));
@@ -222,7 +224,7 @@ public:
         for ( ;; ) {
             cell          = &data[pos % dsize];
             size_t   seq  = cell->sequence.load(std::memory_order_acquire);
-            intptr_t diff = (intptr_t)seq - (intptr_t)pos;
+            intptr_t diff = (intptr_t)seq - (intptr_t)(2 * pos);
             if ( 0 == diff ) {
                 if ( wPtr.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed) ) break;
             }
@@ -235,7 +237,7 @@ public:
             }
         }
         cell->data = arg;
-        cell->sequence.store(pos + 1, std::memory_order_release);
+        cell->sequence.store(2 * pos + 1, std::memory_order_release);
         return true;
     }
 
@@ -247,7 +249,7 @@ public:
         for ( ;; ) {
             cell          = &data[pos % dsize];
             size_t   seq  = cell->sequence.load(std::memory_order_acquire);
-            intptr_t diff = (intptr_t)seq - (intptr_t)(pos + 1);
+            intptr_t diff = (intptr_t)seq - (intptr_t)(2 * pos + 1);
             if ( 0 == diff ) {
                 if ( rPtr.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed) ) break;
             }
@@ -259,7 +261,7 @@ public:
             }
         }
         res = cell->data;
-        cell->sequence.store(pos + dsize, std::memory_order_release);
+        cell->sequence.store(2 * (pos + dsize), std::memory_order_release);
         return true;
     }
 
-- 
2.43.0


From 772bdd98d992afc31f101bc8a14b2d87352a465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:12 +0000
Subject: [PATCH 25/60] fix: a memory pool serves elements larger than its
 default arena

---
 src/sst/core/mempool.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sst/core/mempool.cc b/src/sst/core/mempool.cc
index 7822255..9651903 100644
--- a/src/sst/core/mempool.cc
+++ b/src/sst/core/mempool.cc
@@ -132,6 +132,8 @@ public:
         else {
             allocSize = elemSize + 8;
         }
+        // An arena holds at least one element
+        if ( arenaSize < allocSize ) arenaSize = allocSize;
         max_overflow_size = arenaSize / allocSize;
 
         // Won't alloc until we need to
-- 
2.43.0


From 49037207023b7785a0190a8dbd1e7a3645cd3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:09 +0000
Subject: [PATCH 26/60] fix: children that attach to a tunnel at the same time
 are all counted

---
 src/sst/core/interprocess/ipctunnel.h | 2 +-
 src/sst/core/interprocess/tunneldef.h | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/interprocess/ipctunnel.h b/src/sst/core/interprocess/ipctunnel.h
index d68ad1e..0d15adf 100644
--- a/src/sst/core/interprocess/ipctunnel.h
+++ b/src/sst/core/interprocess/ipctunnel.h
@@ -170,7 +170,7 @@ public:
         }
 
         /* Clean up if we're the last to attach */
-        if ( --isd->expectedChildren == 0 ) {
+        if ( __sync_sub_and_fetch(&isd->expectedChildren, 1) == 0 ) {
             shm_unlink(filename.c_str());
         }
     }
diff --git a/src/sst/core/interprocess/tunneldef.h b/src/sst/core/interprocess/tunneldef.h
index f242221..a279fe6 100644
--- a/src/sst/core/interprocess/tunneldef.h
+++ b/src/sst/core/interprocess/tunneldef.h
@@ -139,9 +139,8 @@ public:
             }
             numBuffs = isd->numBuffers;
 
-            auto t                = isd->expectedChildren - 1;
-            isd->expectedChildren = t;
-            return t;
+            // Several children can attach at the same time
+            return __sync_sub_and_fetch(&isd->expectedChildren, 1);
         }
     }
 
-- 
2.43.0


From 868eadc07cfa3607c883801d0fa92310c8f91859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:31 +0000
Subject: [PATCH 27/60] fix: a cycle through a pointer to a container can be
 unpacked

---
 src/sst/core/serialization/impl/serialize_adapter.h    | 6 +++++-
 src/sst/core/serialization/impl/serialize_array.h      | 2 ++
 src/sst/core/serialization/impl/serialize_insertable.h | 6 +++++-
 src/sst/core/serialization/impl/serialize_tuple.h      | 6 +++++-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/serialization/impl/serialize_adapter.h b/src/sst/core/serialization/impl/serialize_adapter.h
index 16c93cb..670c30b 100644
--- a/src/sst/core/serialization/impl/serialize_adapter.h
+++ b/src/sst/core/serialization/impl/serialize_adapter.h
@@ -68,7 +68,11 @@ class serialize_impl<T*, std::enable_if_t<is_adapter_v<T>>>
 {
     void operator()(T*& obj, serializer& ser, ser_opt_t options)
     {
-        if ( ser.mode() == serializer::UNPACK ) obj = new T;
+        if ( ser.mode() == serializer::UNPACK ) {
+            obj = new T;
+            // The contents can refer to the object itself
+            ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(obj));
+        }
         SST_SER(*obj, options);
     }
     SST_FRIEND_SERIALIZE();
diff --git a/src/sst/core/serialization/impl/serialize_array.h b/src/sst/core/serialization/impl/serialize_array.h
index acf14fb..d58209e 100644
--- a/src/sst/core/serialization/impl/serialize_array.h
+++ b/src/sst/core/serialization/impl/serialize_array.h
@@ -151,6 +151,8 @@ struct serialize_impl_fixed_array
                     ary = reinterpret_cast<OBJ_TYPE>(new std::remove_extent_t<T>[std::extent_v<T>]);
                 else
                     ary = reinterpret_cast<OBJ_TYPE>(new T);
+                // The elements can refer to the array itself
+                ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(ary));
             }
             [[fallthrough]];
 
diff --git a/src/sst/core/serialization/impl/serialize_insertable.h b/src/sst/core/serialization/impl/serialize_insertable.h
index 1f12f50..12961b3 100644
--- a/src/sst/core/serialization/impl/serialize_insertable.h
+++ b/src/sst/core/serialization/impl/serialize_insertable.h
@@ -280,7 +280,11 @@ class serialize_impl<OBJ*, std::enable_if_t<is_insertable_v<OBJ>>>
 {
     void operator()(OBJ*& obj, serializer& ser, ser_opt_t options)
     {
-        if ( ser.mode() == serializer::UNPACK ) obj = new OBJ;
+        if ( ser.mode() == serializer::UNPACK ) {
+            obj = new OBJ;
+            // The contents can refer to the object itself
+            ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(obj));
+        }
         SST_SER(*obj, options);
     }
 
diff --git a/src/sst/core/serialization/impl/serialize_tuple.h b/src/sst/core/serialization/impl/serialize_tuple.h
index b1f361c..8733d51 100644
--- a/src/sst/core/serialization/impl/serialize_tuple.h
+++ b/src/sst/core/serialization/impl/serialize_tuple.h
@@ -80,7 +80,11 @@ class serialize_impl<T*,
 {
     void operator()(T*& obj, serializer& ser, ser_opt_t options)
     {
-        if ( ser.mode() == serializer::UNPACK ) obj = new T;
+        if ( ser.mode() == serializer::UNPACK ) {
+            obj = new T;
+            // The contents can refer to the object itself
+            ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(obj));
+        }
         SST_SER(*obj, options);
     }
     SST_FRIEND_SERIALIZE();
-- 
2.43.0


From 038d75c3538feb4288674c2a87c8fbe1e92507ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:31 +0000
Subject: [PATCH 28/60] fix: the owner of a shared pointer is unpacked with the
 options it was packed with

---
 src/sst/core/serialization/impl/serialize_shared_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/serialization/impl/serialize_shared_ptr.h b/src/sst/core/serialization/impl/serialize_shared_ptr.h
index 7bd2774..11be37e 100644
--- a/src/sst/core/serialization/impl/serialize_shared_ptr.h
+++ b/src/sst/core/serialization/impl/serialize_shared_ptr.h
@@ -270,7 +270,7 @@ unpack_shared_ptr_owner(
                     owner = std::make_shared<OWNER_TYPE>();
 
                 // Deserialize the parent owner object
-                SST_SER(*static_cast<OWNER_TYPE*>(owner.get()));
+                SST_SER(*static_cast<OWNER_TYPE*>(owner.get()), opt);
             }
         }
 
-- 
2.43.0


From 87cad30ffe41a04cbdf7f72013e7a31d6ed4b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:31 +0000
Subject: [PATCH 29/60] fix: a set serialized with as_ptr_elem can be unpacked

---
 src/sst/core/serialization/impl/serialize_insertable.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sst/core/serialization/impl/serialize_insertable.h b/src/sst/core/serialization/impl/serialize_insertable.h
index 12961b3..efb9de0 100644
--- a/src/sst/core/serialization/impl/serialize_insertable.h
+++ b/src/sst/core/serialization/impl/serialize_insertable.h
@@ -172,6 +172,14 @@ class serialize_impl<OBJ, std::enable_if_t<is_insertable_v<OBJ>>>
                     SST_SER_NAME(cast_e.second, "value", opts);
                 }
             }
+            else if constexpr ( is_same_type_template_v<OBJ, std::set> ||
+                                is_same_type_template_v<OBJ, std::unordered_set> ||
+                                is_same_type_template_v<OBJ, std::multiset> ||
+                                is_same_type_template_v<OBJ, std::unordered_multiset> ) {
+                // as_ptr_elem is not supported for sets: see UNPACK
+                for ( auto& e : obj )
+                    SST_SER(const_cast<value_type&>(reinterpret_cast<const value_type&>(e)));
+            }
             else {
                 // Iterate over references to elements, casting away any const in keys
                 for ( auto& e : obj )
-- 
2.43.0


From 63b4ae12088a25e9c7ef64a86db889965cf093b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:53 +0000
Subject: [PATCH 30/60] fix: a SparseVectorMap of keys can be built from a
 vector

---
 src/sst/core/sparseVectorMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/sparseVectorMap.h b/src/sst/core/sparseVectorMap.h
index 7c38a95..100257d 100644
--- a/src/sst/core/sparseVectorMap.h
+++ b/src/sst/core/sparseVectorMap.h
@@ -710,7 +710,7 @@ public:
      */
     void sort()
     {
-        std::sort(data.begin(), data.end, [](const keyT& lhs, const keyT& rhs) -> bool { return lhs < rhs; });
+        std::sort(data.begin(), data.end(), [](const keyT& lhs, const keyT& rhs) -> bool { return lhs < rhs; });
     }
 
     using iterator       = typename std::vector<keyT>::iterator;
-- 
2.43.0


From ca78df6a7f521210c30abcc7a2f7a447253a31f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:13 +0000
Subject: [PATCH 31/60] fix: the current time can be asked in units of a
 frequency above the core time base

getCurrentSimTime("2THz") divided the time by the frequency and returned 0.
---
 src/sst/core/baseComponent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/baseComponent.cc b/src/sst/core/baseComponent.cc
index 632f7a3..efeb144 100644
--- a/src/sst/core/baseComponent.cc
+++ b/src/sst/core/baseComponent.cc
@@ -685,7 +685,7 @@ BaseComponent::processCurrentTimeWithUnderflowedBase(const std::string& base) co
     UnitAlgebra uabase(base);
     UnitAlgebra curr_time = sim_->getElapsedSimTime();
 
-    UnitAlgebra result = curr_time / uabase;
+    UnitAlgebra result = uabase.hasUnits("Hz") ? curr_time * uabase : curr_time / uabase;
 
     auto value = result.getValue();
     if ( value > static_cast<uint64_t>(MAX_SIMTIME_T) ) {
-- 
2.43.0


From 63ca10cbca2b802baf825f7094353e4389fdd313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:44 +0000
Subject: [PATCH 32/60] fix: the longest time that fits is not refused as too
 large

The quotient of two times carries a rounding error, so that 18446744073709551615 units
could come out a little larger than the limit.
---
 src/sst/core/timeLord.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/timeLord.cc b/src/sst/core/timeLord.cc
index 3a8d49c..6316f08 100644
--- a/src/sst/core/timeLord.cc
+++ b/src/sst/core/timeLord.cc
@@ -156,7 +156,8 @@ TimeLord::getFactorForTime(const UnitAlgebra& time)
                                     time.toStringBestSI() + " was passed to call");
     }
     // Check to see if number is too big or too small
-    if ( ua_factor.getValue() > static_cast<uint64_t>(MAX_SIMTIME_T) ) {
+    // (the quotient of two times is not always exact, and is rounded below)
+    if ( ua_factor.getValue() > sst_big_num(static_cast<uint64_t>(MAX_SIMTIME_T)) + sst_big_num("0.4") ) {
         throw std::overflow_error("Error:  Attempting to get TimeConverter for a time (" + time.toStringBestSI() +
                                   ") "
                                   "which is too large for the timebase (" +
-- 
2.43.0


From a60001188b13e2d7ef0ac071d3c55f9721085cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:34 +0000
Subject: [PATCH 33/60] fix: the name of a shared parameter set is not one of
 its parameters

The keys, size and emptiness of a Params object with a shared set counted a key <set_name>,
which became an ordinary parameter in a checkpoint.
---
 src/sst/core/params.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/params.cc b/src/sst/core/params.cc
index 1a617ff..53c879b 100644
--- a/src/sst/core/params.cc
+++ b/src/sst/core/params.cc
@@ -201,7 +201,8 @@ Params::getKeys() const
     std::set<std::string> ret;
     for ( auto map : data ) {
         for ( auto value : *map ) {
-            ret.insert(keyMapReverse[value.first]);
+            // ID 0 holds metadata, not a parameter
+            if ( value.first != 0 ) ret.insert(keyMapReverse[value.first]);
         }
     }
     return ret;
@@ -335,6 +336,7 @@ Params::serialize_order(SST::Core::Serialization::serializer& ser)
             // exists will be ignored.
             for ( auto& map : data ) {
                 for ( auto& kvp : *map ) {
+                    if ( kvp.first == 0 ) continue; // metadata, not a parameter
                     tmp_map.insert(std::make_pair(getParamName(kvp.first), kvp.second));
                 }
             }
-- 
2.43.0


From 180438c79826735131de3ede64fa27a78229bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:34 +0000
Subject: [PATCH 34/60] fix: a component's own parameter takes precedence over
 shared ones in scoped parameters too

---
 src/sst/core/params.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/params.cc b/src/sst/core/params.cc
index 53c879b..5ffef58 100644
--- a/src/sst/core/params.cc
+++ b/src/sst/core/params.cc
@@ -220,7 +220,8 @@ Params::get_scoped_params(const std::string& scope) const
         for ( auto value : *map ) {
             std::string key = keyMapReverse[value.first].substr(0, prefix.length());
             if ( key == prefix ) {
-                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second);
+                // Maps are in order of precedence, so do not overwrite what is already there
+                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second, false);
             }
         }
     }
-- 
2.43.0


From c17d15359b7f1fd9ceb220e7da1c7e12ff871948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 35/60] fix: only a value that starts with [ and ends with ] is
 an array

---
 src/sst/core/params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/params.h b/src/sst/core/params.h
index 4b0970f..be9d387 100644
--- a/src/sst/core/params.h
+++ b/src/sst/core/params.h
@@ -783,7 +783,7 @@ public:
         std::string value = getString(k, found);
         if ( !found ) return false;
         // String should start with [ and end with ]
-        if ( (value.find("[") == std::string::npos) || (value.find("]") == std::string::npos) ) {
+        if ( value.empty() || value.front() != '[' || value.back() != ']' ) {
             return false;
         }
         return true;
-- 
2.43.0


From 7506a702cde1c976127217be1b9d2a1e19b806a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:30 +0000
Subject: [PATCH 36/60] fix: a percent sign in the prefix of an Output is
 printed

It was taken as part of the format of the message.
---
 src/sst/core/output.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index 3f889fd..4e32945 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -49,6 +49,15 @@ int                                           Output::m_worldSize_ranks;
 int                                           Output::m_worldSize_threads;
 int                                           Output::m_mpiRank = 0;
 
+// The prefix becomes part of a format string
+static std::string
+escapeFormat(std::string text)
+{
+    for ( size_t i = text.find('%'); i != std::string::npos; i = text.find('%', i + 2) )
+        text.insert(i, 1, '%');
+    return text;
+}
+
 Output::Output(const std::string& prefix, uint32_t verbose_level, uint32_t verbose_mask, output_location_t location,
     const std::string& localoutputfilename /*=""*/)
 {
@@ -159,7 +168,7 @@ Output::fatal(uint32_t line, const char* file, const char* func, int exit_code,
     va_list     arg2;
     std::string newFmt;
 
-    newFmt = std::string("FATAL: ") + buildPrefixString(line, file, func) + format;
+    newFmt = std::string("FATAL: ") + escapeFormat(buildPrefixString(line, file, func)) + format;
 
     // Get the argument list
     va_start(arg1, format);
@@ -446,7 +455,7 @@ Output::outputprintf(
 
     // Check to make sure output location is not NONE
     if ( NONE != m_targetLoc ) {
-        newFmt = buildPrefixString(line, file, func) + format;
+        newFmt = escapeFormat(buildPrefixString(line, file, func)) + format;
         std::vfprintf(*m_targetOutputRef, newFmt.c_str(), arg);
         if ( FILE == m_targetLoc ) fflush(*m_targetOutputRef);
     }
-- 
2.43.0


From 316d7f721fcb4cafee6fbc2ceceab283e91a1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:30 +0000
Subject: [PATCH 37/60] fix: an Output that was not initialized can be flushed

fatal() of such an object followed an uninitialized pointer.
---
 src/sst/core/output.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index 4e32945..3bcc2b1 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -75,7 +75,8 @@ Output::Output()
     m_verboseLevel = 0;
     m_verboseMask  = 0;
     ;
-    m_targetLoc = NONE;
+    m_targetLoc       = NONE;
+    m_targetOutputRef = &stdout;
 }
 
 void
-- 
2.43.0


From 80f8a787b9f01816e99a76f6de22e6ea7fd25508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:48 +0000
Subject: [PATCH 38/60] fix: an Output file that was closed can be written
 again

Closing the last Output of a file left the handle set, so that the next message to that file
(after setOutputLocation, or from another Output) was written to a closed stream.
---
 src/sst/core/output.cc | 7 ++++++-
 src/sst/core/output.h  | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index 3bcc2b1..80bc961 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -43,6 +43,7 @@ Output      Output::m_defaultObject;
 std::string Output::m_sstGlobalSimFileName        = "";
 std::FILE*  Output::m_sstGlobalSimFileHandle      = nullptr;
 uint32_t    Output::m_sstGlobalSimFileAccessCount = 0;
+bool        Output::m_sstGlobalSimFileOpened      = false;
 
 std::unordered_map<std::thread::id, uint32_t> Output::m_threadMap;
 int                                           Output::m_worldSize_ranks;
@@ -268,6 +269,7 @@ Output::setTargetOutput(output_location_t location)
             m_targetFileHandleRef      = &m_sstGlobalSimFileHandle;
             m_targetFileNameRef        = &m_sstGlobalSimFileName;
             m_targetFileAccessCountRef = &m_sstGlobalSimFileAccessCount;
+            m_targetFileOpenedRef      = &m_sstGlobalSimFileOpened;
         }
         else {
             // Set the references to the Local output target file info
@@ -275,6 +277,7 @@ Output::setTargetOutput(output_location_t location)
             m_targetFileHandleRef      = &m_sstLocalFileHandle;
             m_targetFileNameRef        = &m_sstLocalFileName;
             m_targetFileAccessCountRef = &m_sstLocalFileAccessCount;
+            m_targetFileOpenedRef      = &m_sstLocalFileOpened;
         }
         // Increment the Access count for the target output file
         (*m_targetFileAccessCountRef)++;
@@ -312,9 +315,10 @@ Output::openSSTTargetFile() const
                 }
 
                 // Now try to open the file
-                handle = fopen(tempFileName.c_str(), "w");
+                handle = fopen(tempFileName.c_str(), *m_targetFileOpenedRef ? "a" : "w");
                 if ( nullptr != handle ) {
                     *m_targetFileHandleRef = handle;
+                    *m_targetFileOpenedRef = true;
                 }
                 else {
                     // We got an error of some sort
@@ -339,6 +343,7 @@ Output::closeSSTTargetFile()
         // If the access count is zero, and the file has been opened, then close it
         if ( (0 == *m_targetFileAccessCountRef) && (nullptr != *m_targetFileHandleRef) && (FILE == m_targetLoc) ) {
             fclose(*m_targetFileHandleRef);
+            *m_targetFileHandleRef = nullptr;
         }
     }
 }
diff --git a/src/sst/core/output.h b/src/sst/core/output.h
index 959421d..5ed5a8f 100644
--- a/src/sst/core/output.h
+++ b/src/sst/core/output.h
@@ -542,16 +542,19 @@ private:
     std::FILE**  m_targetFileHandleRef;
     std::string* m_targetFileNameRef;
     uint32_t*    m_targetFileAccessCountRef;
+    bool*         m_targetFileOpenedRef;
 
     // Static Member Variables regarding the Global simulation file info
     static std::string m_sstGlobalSimFileName;
     static std::FILE*  m_sstGlobalSimFileHandle;
     static uint32_t    m_sstGlobalSimFileAccessCount;
+    static bool        m_sstGlobalSimFileOpened; // was opened before, so it is reopened to append
 
     // File Member Variables regarding the local simulation file info
     std::string m_sstLocalFileName;
     std::FILE*  m_sstLocalFileHandle;
     uint32_t    m_sstLocalFileAccessCount;
+    bool        m_sstLocalFileOpened = false;
 
     static std::unordered_map<std::thread::id, uint32_t> m_threadMap;
     static int                                           m_worldSize_ranks;
-- 
2.43.0


From a6812e2c69901f171126997082a24d9c3695fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:22 +0000
Subject: [PATCH 39/60] fix: the maximum of an accumulator of negative floating
 point values

numeric_limits::min() of a floating point type is its smallest positive value.
---
 src/sst/core/statapi/stataccumulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/statapi/stataccumulator.h b/src/sst/core/statapi/stataccumulator.h
index 1293a68..087e17e 100644
--- a/src/sst/core/statapi/stataccumulator.h
+++ b/src/sst/core/statapi/stataccumulator.h
@@ -59,7 +59,7 @@ public:
         m_sum    = static_cast<NumberBase>(0);
         m_sum_sq = static_cast<NumberBase>(0);
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
     }
 
     ~AccumulatorStatistic() {}
@@ -164,7 +164,7 @@ public:
         m_sum    = 0;
         m_sum_sq = 0;
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
         this->setCollectionCount(0);
     }
 
-- 
2.43.0


From 20a28d315a03a2d37d5c3c350350c902f6fd67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:22 +0000
Subject: [PATCH 40/60] fix: a histogram counts every item of addDataNTimes as
 binned

---
 src/sst/core/statapi/stathistogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index c893498..bdb9cdf 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -134,7 +134,7 @@ protected:
         m_totalSummedSqr += N * (value * value);
 
         // Increment the Binned count (note this <= to the Statistics added Item Count)
-        m_itemsBinnedCount++;
+        m_itemsBinnedCount += N;
 
         // Figure out what the starting bin is and find it in the map
         // To support signed and unsigned values along with floating point types,
-- 
2.43.0


From e7674ea01be820b43b79adb978d6f066513c8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:22 +0000
Subject: [PATCH 41/60] fix: a histogram whose minimum is no multiple of the
 bin width reports its items

The bins are output at minvalue + n * binwidth, but the items were collected at
multiples of binwidth.
---
 src/sst/core/statapi/stathistogram.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index bdb9cdf..013f856 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -140,9 +140,9 @@ protected:
         // To support signed and unsigned values along with floating point types,
         // the calculation to find the bin_start value must be done in floating point
         // then converted to BinDataType
-        double      calc1     = (double)value / (double)m_binWidth;
+        double      calc1     = ((double)value - (double)m_minValue) / (double)m_binWidth;
         double      calc2     = floor(calc1); // Find the floor of the value
-        double      calc3     = m_binWidth * calc2;
+        double      calc3     = (double)m_minValue + m_binWidth * calc2;
         BinDataType bin_start = (BinDataType)calc3;
         //      printf("DEBUG: value = %d, junk1 = %f, calc2 = %f, calc3 = %f : bin_start = %d, item count = %ld, \n",
         //      value, calc1, calc2, calc3, bin_start, getStatCollectionCount());
-- 
2.43.0


From 75f00fdf273cf70da5990086ba0d5e6d9dd91a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:43 +0000
Subject: [PATCH 42/60] fix: the trigger record of a full trace buffer shows
 the value at the trigger

When the oldest sample leaves the buffer the index of the triggering sample
moves down by one, not only when it is the newest.
---
 src/sst/core/impl/interactive/ObjTreeHelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/impl/interactive/ObjTreeHelpers.h b/src/sst/core/impl/interactive/ObjTreeHelpers.h
index 42beee4..7877148 100644
--- a/src/sst/core/impl/interactive/ObjTreeHelpers.h
+++ b/src/sst/core/impl/interactive/ObjTreeHelpers.h
@@ -240,7 +240,7 @@ public:
                 for ( size_t obj = 0; obj < objBuffers_.size(); obj++ ) {
                     auto& [bufVec, storedTriggerIdx] = objBuffers_[obj];
                     bufVec.erase(bufVec.begin());
-                    if ( storedTriggerIdx == bufVec.size() ) {
+                    if ( storedTriggerIdx > 0 ) {
                         storedTriggerIdx--;
                     }
                 }
-- 
2.43.0


From 7db7cee2a6e0ed78d0e3dc909b2ab3788868763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:20 +0000
Subject: [PATCH 43/60] fix: SharedMap::upper_bound returns the upper bound

It returned the lower bound, which is the element with the key itself when the key is present.
---
 src/sst/core/shared/sharedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index c313faa..8a0d96c 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -152,7 +152,7 @@ public:
 
        @param key key to compare to
     */
-    inline const_iterator upper_bound(const keyT& key) const { return data->map.lower_bound(key); }
+    inline const_iterator upper_bound(const keyT& key) const { return data->map.upper_bound(key); }
 
     /**
        Indicate that the calling element has written all the data it
-- 
2.43.0


From ca7fe1b8b3a725075b0ce0df41a57c6b0213f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:20 +0000
Subject: [PATCH 44/60] fix: shared objects stay published and locked across a
 restart

Only the name and the contents were written to the checkpoint: the counts, the published flag and the write lock of a restored object were uninitialised memory.
---
 src/sst/core/shared/sharedObject.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedObject.h b/src/sst/core/shared/sharedObject.h
index 6317284..dbd990c 100644
--- a/src/sst/core/shared/sharedObject.h
+++ b/src/sst/core/shared/sharedObject.h
@@ -214,7 +214,14 @@ protected:
      */
     virtual ~SharedObjectData() {}
 
-    void serialize_order(serializer& ser) override { SST_SER(name); }
+    void serialize_order(serializer& ser) override
+    {
+        SST_SER(name);
+        SST_SER(share_count);
+        SST_SER(publish_count);
+        SST_SER(fully_published);
+        SST_SER(locked);
+    }
 
     ImplementVirtualSerializable(SharedObjectData);
 };
-- 
2.43.0


From 787d4d7d1bc272cfeab32714a5c50c7e55b051a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:20 +0000
Subject: [PATCH 45/60] fix: shared objects cannot be initialized after the
 init phase of a restarted simulation

The manager's lock was not part of the checkpoint, so that a restarted simulation accepted what the original rejects.
---
 src/sst/core/shared/sharedArray.h  |  4 ++--
 src/sst/core/shared/sharedMap.h    |  2 +-
 src/sst/core/shared/sharedObject.h | 11 ++++++++---
 src/sst/core/shared/sharedSet.h    |  2 +-
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/sst/core/shared/sharedArray.h b/src/sst/core/shared/sharedArray.h
index 768f79c..484ce35 100644
--- a/src/sst/core/shared/sharedArray.h
+++ b/src/sst/core/shared/sharedArray.h
@@ -242,7 +242,7 @@ public:
             if ( !initialized ) return;
             std::string name;
             SST_SER(name);
-            data = manager.getSharedObjectData<Data>(name);
+            data = manager.getSharedObjectData<Data>(name, true);
             break;
         }
         case serializer::MAP:
@@ -669,7 +669,7 @@ public:
             if ( !initialized ) return;
             std::string name;
             SST_SER(name);
-            data = manager.getSharedObjectData<Data>(name);
+            data = manager.getSharedObjectData<Data>(name, true);
             break;
         }
         case serializer::MAP:
diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index 8a0d96c..f913188 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -254,7 +254,7 @@ public:
             if ( !initialized ) return;
             std::string name;
             SST_SER(name);
-            data = manager.getSharedObjectData<Data>(name);
+            data = manager.getSharedObjectData<Data>(name, true);
             break;
         }
         case serializer::MAP:
diff --git a/src/sst/core/shared/sharedObject.h b/src/sst/core/shared/sharedObject.h
index dbd990c..1a47b0d 100644
--- a/src/sst/core/shared/sharedObject.h
+++ b/src/sst/core/shared/sharedObject.h
@@ -250,12 +250,13 @@ public:
     }
 
     template <typename T>
-    T* getSharedObjectData(const std::string name)
+    T* getSharedObjectData(const std::string name, bool restart = false)
     {
         // Need to lock since we may be initializing the
         // SharedData object.
         std::lock_guard<std::mutex> lock(mtx);
-        if ( locked ) {
+        // Instances restored from a checkpoint were initialized before it
+        if ( locked && !restart ) {
             Private::getSimulationOutput().fatal(
                 CALL_INFO, 1, "Attempting to initialize SharedObject %s after the init() phase\n", name.c_str());
         }
@@ -280,7 +281,11 @@ public:
 
     void updateState(bool finalize);
 
-    void serialize_order(serializer& ser) { SST_SER(shared_data); }
+    void serialize_order(serializer& ser)
+    {
+        SST_SER(shared_data);
+        SST_SER(locked);
+    }
 };
 
 class SharedObject : public serializable
diff --git a/src/sst/core/shared/sharedSet.h b/src/sst/core/shared/sharedSet.h
index 436792c..27c709c 100644
--- a/src/sst/core/shared/sharedSet.h
+++ b/src/sst/core/shared/sharedSet.h
@@ -221,7 +221,7 @@ public:
             if ( !initialized ) return;
             std::string name;
             SST_SER(name);
-            data = manager.getSharedObjectData<Data>(name);
+            data = manager.getSharedObjectData<Data>(name, true);
             break;
         }
         case serializer::MAP:
-- 
2.43.0


From f0059e794ae18b581a53e3d7ccb158c140270af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:13 +0000
Subject: [PATCH 46/60] fix: a SharedMap with NO_VERIFY takes the value written
 last

A second write to a key was dropped on the writing rank, while the other ranks received the new value, so that the ranks were left with different maps.
---
 src/sst/core/shared/sharedMap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index f913188..d27fc29 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -322,7 +322,10 @@ private:
             auto success = map.insert(std::make_pair(key, value));
             if ( !success.second ) {
                 // Wrote to a key that already existed
-                if ( verify != NO_VERIFY && value != success.first->second ) {
+                if ( verify == NO_VERIFY ) {
+                    success.first->second = value;
+                }
+                else if ( value != success.first->second ) {
                     Private::getSimulationOutput().fatal(
                         CALL_INFO, 1, "ERROR: wrote two different values to same key in SharedMap %s\n", name.c_str());
                 }
-- 
2.43.0


From 132032be8937b87a518552a7896bc0ee590b591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:01 +0000
Subject: [PATCH 47/60] fix: instances that initialize a SharedMap or SharedSet
 on several threads race

initialize() read and wrote the verify mode of the shared data without the mutex that its other members are accessed under.
---
 src/sst/core/shared/sharedMap.h | 1 +
 src/sst/core/shared/sharedSet.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index d27fc29..bd0e28a 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -304,6 +304,7 @@ private:
 
         void setVerify(verify_type v_type)
         {
+            std::lock_guard<std::mutex> lock(mtx);
             if ( v_type != verify && verify != VERIFY_UNINITIALIZED ) {
                 Private::getSimulationOutput().fatal(
                     CALL_INFO, 1, "ERROR: Two different verify_types specified for SharedMap %s\n", name.c_str());
diff --git a/src/sst/core/shared/sharedSet.h b/src/sst/core/shared/sharedSet.h
index 27c709c..e9dc457 100644
--- a/src/sst/core/shared/sharedSet.h
+++ b/src/sst/core/shared/sharedSet.h
@@ -272,6 +272,7 @@ private:
 
         void setVerify(verify_type v_type)
         {
+            std::lock_guard<std::mutex> lock(mtx);
             if ( v_type != verify && verify != VERIFY_UNINITIALIZED ) {
                 Private::getSimulationOutput().fatal(
                     CALL_INFO, 1, "ERROR: Type different verify_types specified for SharedSet %s\n", name.c_str());
-- 
2.43.0


From ef7d634d26041ef17ffcffc173c0de1abeb4ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:42 +0000
Subject: [PATCH 48/60] fix: mutex_read of SharedArray and SharedMap returns a
 copy taken under the mutex

It is documented as thread safe during init, but returned a reference to be read after the mutex was released, while another thread may write the element or reallocate the array.
---
 src/sst/core/shared/sharedArray.h | 16 ++++++++--------
 src/sst/core/shared/sharedMap.h   | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/sst/core/shared/sharedArray.h b/src/sst/core/shared/sharedArray.h
index 484ce35..bfb5be0 100644
--- a/src/sst/core/shared/sharedArray.h
+++ b/src/sst/core/shared/sharedArray.h
@@ -205,15 +205,15 @@ public:
     inline const T& operator[](int index) const { return data->read(index); }
 
     /**
-       Read data from the array.  This returns a const reference, so
-       is read only.  This version of read is always thread safe (@see
+       Read data from the array.  This version of read returns a copy
+       taken under the mutex and is always thread safe (@see
        operator[]).
 
        @param index index to read
 
-       @return const reference to data at index
+       @return copy of the data at index
      */
-    inline const T& mutex_read(int index) const { return data->mutex_read(index); }
+    inline T mutex_read(int index) const { return data->mutex_read(index); }
 
     void serialize_order(serializer& ser) override
     {
@@ -378,7 +378,7 @@ private:
         inline const T& read(int index) const { return array[index]; }
 
         // Mutexed read for use if you are resizing the array as you go
-        inline const T& mutex_read(int index) const
+        inline T mutex_read(int index) const
         {
             std::lock_guard<std::mutex> lock(mtx);
             return array[index];
@@ -632,13 +632,13 @@ public:
     inline bool operator[](int index) const { return data->read(index); }
 
     /**
-       Read data from the array.  This returns a const reference, so
-       is read only.  This version of read is always thread safe (@see
+       Read data from the array.  This version of read returns a copy
+       taken under the mutex and is always thread safe (@see
        operator[]).
 
        @param index index to read
 
-       @return const reference to data at index
+       @return copy of the data at index
      */
     inline bool mutex_read(int index) const { return data->mutex_read(index); }
 
diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index bd0e28a..e71bbf9 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -214,18 +214,18 @@ public:
     inline const valT& operator[](const keyT& key) const { return data->read(key); }
 
     /**
-       Read data from the map.  This returns a const reference, so
-       is read only.  This version of read is always thread safe (@see
+       Read data from the map.  This version of read returns a copy
+       taken under the mutex and is always thread safe (@see
        operator[]).  If the key is not in the map, an out_of_range
        exception will be thrown.
 
        @param key key to read
 
-       @return const reference to data at index
+       @return copy of the data at index
 
        @exception std::out_of_range key is not found in map
     */
-    inline const valT& mutex_read(const keyT& key) const { return data->mutex_read(key); }
+    inline valT mutex_read(const keyT& key) const { return data->mutex_read(key); }
 
     void serialize_order(serializer& ser) override
     {
@@ -350,7 +350,7 @@ private:
         inline const valT& read(const keyT& key) { return map.at(key); }
 
         // Mutexed read for use if you are resizing the array as you go
-        inline const valT& mutex_read(const keyT& key)
+        inline valT mutex_read(const keyT& key)
         {
             std::lock_guard<std::mutex> lock(mtx);
             return map.at(key);
-- 
2.43.0


From 17c892744e6dcee9d992e0c7cc7fb7f8a17d429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:05 +0000
Subject: [PATCH 49/60] fix: without primary components a parallel run ends at
 its stop time, not at the first synchronisation

---
 src/sst/core/baseComponent.cc    |  3 +++
 src/sst/core/exit.cc             | 19 ++++++++-----------
 src/sst/core/exit.h              | 26 ++++++++++++++++++++++++++
 src/sst/core/sync/syncManager.cc |  6 ++++--
 4 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/sst/core/baseComponent.cc b/src/sst/core/baseComponent.cc
index efeb144..92a309f 100644
--- a/src/sst/core/baseComponent.cc
+++ b/src/sst/core/baseComponent.cc
@@ -470,6 +470,9 @@ BaseComponent::serialize_order(SST::Core::Serialization::serializer& ser)
             setStateOKToEndSim();
             primaryComponentDoNotEndSim();
         }
+        else if ( isStateOKToEndSim() ) {
+            sim_->getExit()->setUsed();
+        }
 
         size_t num_handlers;
         SST_SER(num_handlers);
diff --git a/src/sst/core/exit.cc b/src/sst/core/exit.cc
index 4bc2b1d..9ec6550 100644
--- a/src/sst/core/exit.cc
+++ b/src/sst/core/exit.cc
@@ -74,6 +74,7 @@ void
 Exit::refInc(uint32_t thread)
 {
     std::scoped_lock lock(slock_);
+    used_ = true;
     ++ref_count_;
     ++thread_counts_[thread];
 }
@@ -144,22 +145,18 @@ Exit::computeEndTime()
 void
 Exit::check()
 {
-    int value = (ref_count_ > 0);
-    int out;
+    int value[2] = { ref_count_ > 0, used_ };
+    int out[2]   = { value[0], value[1] };
 
 #ifdef SST_CONFIG_HAVE_MPI
     if ( !single_rank_ ) {
-        MPI_Allreduce(&value, &out, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+        MPI_Allreduce(value, out, 2, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
     }
-    else {
-        out = value;
-    }
-#else
-    out = value;
 #endif
-    global_count_ = out;
-    // If out is 0, then it's time to end
-    if ( !out ) {
+    global_count_ = out[0];
+    global_used_  = out[1] != 0;
+    // If the count is 0, then it's time to end
+    if ( !out[0] ) {
         computeEndTime();
     }
 }
diff --git a/src/sst/core/exit.h b/src/sst/core/exit.h
index 23da356..24c9821 100644
--- a/src/sst/core/exit.h
+++ b/src/sst/core/exit.h
@@ -127,6 +127,30 @@ public:
     */
     unsigned int getGlobalCount() { return global_count_; }
 
+    /**
+       Records that there is a primary component.  refInc() does so
+       too; a component that agreed to end before a checkpoint calls
+       this on restart.
+    */
+    void setUsed()
+    {
+        std::scoped_lock lock(slock_);
+        used_ = true;
+    }
+
+    /**
+       Whether a primary component of this rank has ever asked not to
+       end the simulation.  If none has, the Exit object does not take
+       part in ending the simulation.
+    */
+    bool isUsed() const { return used_; }
+
+    /**
+       Same as isUsed(), for all ranks.  This is only valid after
+       check() is called
+    */
+    bool isGlobalUsed() const { return global_used_; }
+
     /**
        Whether the object is waiting in the TimeVortex, which then
        owns it
@@ -149,6 +173,8 @@ private:
     unsigned int  global_count_  = 0;
     SimTime_t     end_time_      = 0;
     bool          single_rank_   = true;
+    bool          used_          = false;
+    bool          global_used_   = false;
     bool          scheduled_     = false; // in the queue (serial runs only)
 
     Core::ThreadSafe::Spinlock slock_;
diff --git a/src/sst/core/sync/syncManager.cc b/src/sst/core/sync/syncManager.cc
index 59cff78..fc69ed1 100644
--- a/src/sst/core/sync/syncManager.cc
+++ b/src/sst/core/sync/syncManager.cc
@@ -654,7 +654,8 @@ SyncManager::execute()
 
         RankExecBarrier_[3].wait();
 
-        if ( exit_->getGlobalCount() == 0 ) {
+        // Without any primary component, the stop time ends the simulation
+        if ( exit_->getGlobalCount() == 0 && (exit_->isGlobalUsed() || sim_->stop_at_ == 0) ) {
             endSimulation(exit_->getEndTime());
         }
 
@@ -718,7 +719,8 @@ SyncManager::execute()
         } // if num_ranks_.rank == 1 i.e. only multithreading
 
         if ( /*num_ranks_+.rank == 1*/ min_part_ == MAX_SIMTIME_T ) {
-            if ( exit_->getRefCount() == 0 ) {
+            // Without any primary component, the stop time ends the simulation
+            if ( exit_->getRefCount() == 0 && (exit_->isUsed() || num_ranks_.rank > 1 || sim_->stop_at_ == 0) ) {
                 endSimulation(exit_->getEndTime());
             }
         }
-- 
2.43.0


From a71a0604592de2b321c3630cb15192d55aed6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:26 +0000
Subject: [PATCH 50/60] fix: setFlagOutputAtEndOfSim(false) keeps a statistic
 out of the final output

---
 src/sst/core/statapi/statengine.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sst/core/statapi/statengine.cc b/src/sst/core/statapi/statengine.cc
index 6858f55..b783c62 100644
--- a/src/sst/core/statapi/statengine.cc
+++ b/src/sst/core/statapi/statengine.cc
@@ -486,6 +486,9 @@ StatisticProcessingEngine::performStatisticOutputImpl(StatisticBase* stat, bool
 {
     StatisticOutput* stat_output = getOutputForStatistic(stat);
 
+    // Does the statistic not want to be output at the end of simulation?
+    if ( end_of_sim_flag && !stat->getFlagOutputAtEndOfSim() ) return;
+
     // Has the simulation started?
     if ( true == simulation_started_ ) {
         stat_output->output(stat, end_of_sim_flag);
-- 
2.43.0


From 8466ed3e1b0a7fc42d2a6c7dcffa690c8c9b9adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:26 +0000
Subject: [PATCH 51/60] fix: params in the statistics_options of a component,
 subcomponent or port module end the JSON parse with an error

---
 src/sst/core/model/json/jsonmodel.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index e993001..3c40ea5 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -673,6 +673,9 @@ SSTConfigSaxHandler::end_object()
     case State::Comp_Stat_Params:
     case State::SubComp_Stat_Params:
     case State::PortMod_Stat_Params:
+    case State::Comp_StatOptions_Params:
+    case State::SubComp_StatOptions_Params:
+    case State::PortMod_StatOptions_Params:
     case State::Link_Left:
     case State::Link_Right:
         break;
-- 
2.43.0


From e01ad42f6bb19fc3109f5abbd44f131c480baad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:26 +0000
Subject: [PATCH 52/60] fix: parameters of a group's statistic leak into the
 next statistic of the group in a JSON input

---
 src/sst/core/model/json/jsonmodel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index 3c40ea5..c8202a4 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -591,7 +591,6 @@ SSTConfigSaxHandler::start_object([[maybe_unused]] std::size_t elements)
     case State::StatOptions_Params_key:         // Parse params -> StatOptions_Params
     case State::StatGroup_Output_key:           // Parse output config -> StatGroup_Output
     case State::StatGroup_Output_Params_key:    // Parse params -> StatGroup_Output_Params
-    case State::StatGroup_StatArray:            // Parse statistic -> StatGroup_Stat
     case State::StatGroup_Stat_Params_key:      // Parse params -> STATGRP_OBJ_STATOPT_PARAMS
     case State::Comp_StatOptions_Params_key:    // Parse params
     case State::Comp_Stat_Params_key:           // Parse params
@@ -617,6 +616,7 @@ SSTConfigSaxHandler::start_object([[maybe_unused]] std::size_t elements)
     case State::PortModArray: // Parse port module
         shadow_port_module_.reset();
         break;
+    case State::StatGroup_StatArray: // Parse statistic -> StatGroup_Stat
     case State::Comp_StatArray:    // Parse statstic object
     case State::SubComp_StatArray: // Parse statstic object
     case State::PortMod_StatArray:
-- 
2.43.0


From 89a87876d8dafce430262ea7cb8acf0f41be4a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:09 +0000
Subject: [PATCH 53/60] fix: without primary components ranks that exchange
 nothing end at the stop time, not at the first thread synchronisation

---
 src/sst/core/exit.cc             | 14 ++++++++++++++
 src/sst/core/exit.h              |  8 +++++++-
 src/sst/core/simulation.cc       |  3 +++
 src/sst/core/sync/syncManager.cc |  2 +-
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/exit.cc b/src/sst/core/exit.cc
index 9ec6550..c315163 100644
--- a/src/sst/core/exit.cc
+++ b/src/sst/core/exit.cc
@@ -142,6 +142,20 @@ Exit::computeEndTime()
     return end_time_;
 }
 
+void
+Exit::shareUsed()
+{
+    int value = used_;
+    int out   = value;
+
+#ifdef SST_CONFIG_HAVE_MPI
+    if ( !single_rank_ ) {
+        MPI_Allreduce(&value, &out, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+    }
+#endif
+    global_used_ = out != 0;
+}
+
 void
 Exit::check()
 {
diff --git a/src/sst/core/exit.h b/src/sst/core/exit.h
index 24c9821..897d06a 100644
--- a/src/sst/core/exit.h
+++ b/src/sst/core/exit.h
@@ -145,9 +145,15 @@ public:
     */
     bool isUsed() const { return used_; }
 
+    /**
+       Collective call of all ranks before the run: finds out whether
+       any of them has a primary component
+    */
+    void shareUsed();
+
     /**
        Same as isUsed(), for all ranks.  This is only valid after
-       check() is called
+       shareUsed() or check() is called
     */
     bool isGlobalUsed() const { return global_used_; }
 
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 77567f9..f140f0f 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -999,6 +999,9 @@ Simulation::prepare_for_run()
     sa->setDeliveryTime(SST_SIMTIME_MAX);
     timeVortex->insert(sa);
 
+    // Find out whether any rank has a primary component
+    if ( my_rank.thread == 0 ) m_exit->shareUsed();
+
     // If this is an independent thread and we have no components,
     // just end
     if ( independent ) {
diff --git a/src/sst/core/sync/syncManager.cc b/src/sst/core/sync/syncManager.cc
index fc69ed1..a831c6c 100644
--- a/src/sst/core/sync/syncManager.cc
+++ b/src/sst/core/sync/syncManager.cc
@@ -720,7 +720,7 @@ SyncManager::execute()
 
         if ( /*num_ranks_+.rank == 1*/ min_part_ == MAX_SIMTIME_T ) {
             // Without any primary component, the stop time ends the simulation
-            if ( exit_->getRefCount() == 0 && (exit_->isUsed() || num_ranks_.rank > 1 || sim_->stop_at_ == 0) ) {
+            if ( exit_->getRefCount() == 0 && (exit_->isUsed() || exit_->isGlobalUsed() || sim_->stop_at_ == 0) ) {
                 endSimulation(exit_->getEndTime());
             }
         }
-- 
2.43.0


From b358cc8be5b5087de69497d8e2a93c7d7e20e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:56 +0000
Subject: [PATCH 54/60] fix: the single partitioner leaves subcomponents
 without a rank

---
 src/sst/core/impl/partitioners/singlepart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/impl/partitioners/singlepart.cc b/src/sst/core/impl/partitioners/singlepart.cc
index e9e9c2f..4ab8ad9 100644
--- a/src/sst/core/impl/partitioners/singlepart.cc
+++ b/src/sst/core/impl/partitioners/singlepart.cc
@@ -26,6 +26,6 @@ SSTSinglePartition::performPartition(ConfigGraph* graph)
     ConfigComponentMap_t& compMap = graph->getComponentMap();
 
     for ( auto comp : compMap ) {
-        comp->rank = RankInfo(0, 0);
+        comp->setRank(RankInfo(0, 0));
     }
 }
-- 
2.43.0


From 38e9ee8cc3a64c470667418255d2326827cb6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:45 +0000
Subject: [PATCH 55/60] fix: the JSON output loses the parameters given with
 enabling all statistics

---
 .../core/model/cfgoutput/jsonConfigOutput.cc    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index 27a3d1b..37ab775 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -104,6 +104,10 @@ JSONConfigGraphOutput::outputComponents(const Config* cfg, ConfigGraph* graph, s
             // statistics options
             if ( comp_itr->enabledAllStats ) {
                 comp_record["statistics_options"]["enable_all_statistics"] = true;
+                for ( auto const& param : comp_itr->allStatConfig.params.getKeys() ) {
+                    comp_record["statistics_options"]["params"][param] =
+                        comp_itr->allStatConfig.params.find<std::string>(param);
+                }
             }
             if ( comp_itr->statLoadLevel != STATISTICLOADLEVELUNINITIALIZED ) {
                 comp_record["statistics_options"]["statistic_load_level"] = comp_itr->statLoadLevel;
@@ -174,6 +178,11 @@ JSONConfigGraphOutput::outputComponents(const Config* cfg, ConfigGraph* graph, s
                             pm_record["statistics_options"]["statistic_load_level"]  = port_vec_itr.stat_load_level;
                             pm_record["statistics_options"]["enable_all_statistics"] = true;
                         }
+                        for ( auto const& param : port_vec_itr.all_stat_config.getKeys() ) {
+                            pm_record["statistics_options"]["enable_all_statistics"] = true;
+                            pm_record["statistics_options"]["params"][param] =
+                                port_vec_itr.all_stat_config.find<std::string>(param);
+                        }
                         for ( auto const& param : port_vec_itr.params.getKeys() ) {
                             pm_record["params"][param] = port_vec_itr.params.find<std::string>(param);
                         }
@@ -220,6 +229,9 @@ JSONConfigGraphOutput::outputSubComponent(ConfigComponent* sub, std::ofstream& o
     // general statistics options
     if ( sub->enabledAllStats ) {
         record["statistics_options"]["enable_all_statistics"] = sub->enabledAllStats;
+        for ( auto const& param : sub->allStatConfig.params.getKeys() ) {
+            record["statistics_options"]["params"][param] = sub->allStatConfig.params.find<std::string>(param);
+        }
     }
     if ( sub->statLoadLevel != STATISTICLOADLEVELUNINITIALIZED ) {
         record["statistics_options"]["statistic_load_level"] = sub->statLoadLevel;
@@ -284,6 +296,11 @@ JSONConfigGraphOutput::outputSubComponent(ConfigComponent* sub, std::ofstream& o
                     pm_record["statistics_options"]["statistic_load_level"]  = port_vec_itr.stat_load_level;
                     pm_record["statistics_options"]["enable_all_statistics"] = true;
                 }
+                for ( auto const& param : port_vec_itr.all_stat_config.getKeys() ) {
+                    pm_record["statistics_options"]["enable_all_statistics"] = true;
+                    pm_record["statistics_options"]["params"][param] =
+                        port_vec_itr.all_stat_config.find<std::string>(param);
+                }
                 for ( auto const& param : port_vec_itr.params.getKeys() ) {
                     pm_record["params"][param] = port_vec_itr.params.find<std::string>(param);
                 }
-- 
2.43.0


From 0c196c17ee4a23a1baabed1aea94f036613bd7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:45 +0000
Subject: [PATCH 56/60] fix: the JSON output drops a group's statistics that
 have no parameters

---
 src/sst/core/model/cfgoutput/jsonConfigOutput.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index 37ab775..b555ccb 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -358,14 +358,12 @@ JSONConfigGraphOutput::outputStatisticsGroups(ConfigGraph* graph, std::ofstream&
 
             auto statsArray = nlohmann::ordered_json::array();
             for ( auto& i : grp.second.statMap ) {
-                if ( !i.second.empty() ) {
-                    auto statRecord    = nlohmann::ordered_json::object();
-                    statRecord["name"] = i.first;
-                    for ( auto const& param : i.second.getKeys() ) {
-                        statRecord["params"][param] = i.second.find<std::string>(param);
-                    }
-                    statsArray.push_back(statRecord);
+                auto statRecord    = nlohmann::ordered_json::object();
+                statRecord["name"] = i.first;
+                for ( auto const& param : i.second.getKeys() ) {
+                    statRecord["params"][param] = i.second.find<std::string>(param);
                 }
+                statsArray.push_back(statRecord);
             }
             sgRecord["statistics"] = statsArray;
 
-- 
2.43.0


From 96557b205c80d31d313ae4aceb359462c0ab9040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:49 +0000
Subject: [PATCH 57/60] fix: the JSON output names a subcomponent in a
 statistics group by its slot only

---
 src/sst/core/model/cfgoutput/jsonConfigOutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index b555ccb..42e5df8 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -371,7 +371,7 @@ JSONConfigGraphOutput::outputStatisticsGroups(ConfigGraph* graph, std::ofstream&
                 auto compArray = nlohmann::ordered_json::array();
                 for ( SST::ComponentId_t id : grp.second.components ) {
                     const SST::ConfigComponent* comp = graph->findComponent(id);
-                    compArray.push_back(comp->name);
+                    compArray.push_back(comp->getFullName());
                 }
                 sgRecord["components"] = compArray;
             }
-- 
2.43.0


From 49e67a7ca583bd197c002210a4330ffb7a35cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:49 +0000
Subject: [PATCH 58/60] fix: the written configuration rounds link latencies to
 six digits

---
 src/sst/core/model/configLink.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/model/configLink.cc b/src/sst/core/model/configLink.cc
index 4724ba7..9312a9f 100644
--- a/src/sst/core/model/configLink.cc
+++ b/src/sst/core/model/configLink.cc
@@ -66,7 +66,8 @@ ConfigLink::latency_str(uint32_t index) const
     static TimeLord* timelord = Simulation::getTimeLord();
     UnitAlgebra      tb       = timelord->getTimeBase();
     auto             tmp      = tb * latency_[index];
-    return tmp.toStringBestSI();
+    // All digits of a SimTime_t, the latency must not change when the configuration is written out
+    return tmp.toStringBestSI(20);
 }
 
 void
-- 
2.43.0


From db7ac4f2bbde44e99d848f702698d71b72f2ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:49 +0000
Subject: [PATCH 59/60] fix: shared parameter sets of a port module in a JSON
 input are ignored

---
 src/sst/core/model/json/jsonmodel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index c8202a4..630ba3f 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -425,7 +425,7 @@ SSTConfigSaxHandler::string(std::string& val)
         shadow_component_stack_.back().comp->addSharedParamSet(val);
         break;
     case State::PortMod_SharedParamsArray:
-        shadow_port_module_.shared_param_sets.push_back(val);
+        shadow_port_module_.pm->addSharedParamSet(val);
         break;
     case State::Comp_Stat:
     case State::SubComp_Stat:
-- 
2.43.0


From 32f3760a06a3481f29bd590f95a169815a3c1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:41 +0000
Subject: [PATCH 60/60] fix: the written configuration gives wall time periods
 in a form that is not read back above 61 seconds

---
 src/sst/core/model/cfgoutput/jsonConfigOutput.cc   | 4 ++--
 src/sst/core/model/cfgoutput/pythonConfigOutput.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index 42e5df8..1b4fd6a 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -453,14 +453,14 @@ JSONConfigGraphOutput::outputProgramOptions(const Config* cfg, std::ofstream& of
     // Ignore stopAfter for now
     // outputJson["program_options"]["stopAfter"] = cfg->stopAfterSec();
     record["heartbeat-sim-period"]   = cfg->heartbeat_sim_period();
-    record["heartbeat-wall-period"]  = std::to_string(cfg->heartbeat_wall_period());
+    record["heartbeat-wall-period"]  = std::to_string(cfg->heartbeat_wall_period()) + "s";
     record["timebase"]               = cfg->timeBase();
     record["partitioner"]            = cfg->partitioner();
     record["timeVortex"]             = cfg->timeVortex();
     record["interthread-links"]      = cfg->interthread_links() ? "true" : "false";
     record["output-prefix-core"]     = cfg->output_core_prefix();
     record["checkpoint-sim-period"]  = cfg->checkpoint_sim_period();
-    record["checkpoint-wall-period"] = std::to_string(cfg->checkpoint_wall_period());
+    record["checkpoint-wall-period"] = std::to_string(cfg->checkpoint_wall_period()) + "s";
 
     ofs << record.dump(2);
     ofs << ",\n";
diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index 61603ac..a8a5843 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -389,7 +389,7 @@ PythonConfigGraphOutput::generate(const Config* cfg, ConfigGraph* graph)
     fprintf(
         outputFile, "sst.setProgramOption(\"heartbeat-sim-period\", \"%s\")\n", cfg->heartbeat_sim_period().c_str());
     fprintf(
-        outputFile, "sst.setProgramOption(\"heartbeat-wall-period\", \"%" PRIu32 "\")\n", cfg->heartbeat_wall_period());
+        outputFile, "sst.setProgramOption(\"heartbeat-wall-period\", \"%" PRIu32 "s\")\n", cfg->heartbeat_wall_period());
     fprintf(outputFile, "sst.setProgramOption(\"timebase\", \"%s\")\n", cfg->timeBase().c_str());
     fprintf(outputFile, "sst.setProgramOption(\"partitioner\", \"%s\")\n", cfg->partitioner().c_str());
     fprintf(outputFile, "sst.setProgramOption(\"timeVortex\", \"%s\")\n", cfg->timeVortex().c_str());
@@ -399,7 +399,7 @@ PythonConfigGraphOutput::generate(const Config* cfg, ConfigGraph* graph)
 
     fprintf(
         outputFile, "sst.setProgramOption(\"checkpoint-sim-period\", \"%s\")\n", cfg->checkpoint_sim_period().c_str());
-    fprintf(outputFile, "sst.setProgramOption(\"checkpoint-wall-period\", \"%" PRIu32 "\")\n",
+    fprintf(outputFile, "sst.setProgramOption(\"checkpoint-wall-period\", \"%" PRIu32 "s\")\n",
         cfg->checkpoint_wall_period());
 
     // Output the shared params
-- 
2.43.0

