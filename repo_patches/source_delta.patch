From bda41e9c4e7615d0338d632750d22082ce2f76b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 001/116] fix: don't corrupt the pending queue when a waiting
 node becomes ineligible

resourceCheckEligible() marked a node QUEUE_PENDING after removing it from
the pending queue, so it could never be considered again; and
resolveResourceConflicts() followed the removed node's next pointer.
---
 src/exec/PlexilExec.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aefeda2..2951bd1 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -500,9 +500,11 @@ namespace PLEXIL
           removePendingNode(node);
           addStateChangeNode(node);
         }
-        // else still eligible to transition to EXECUTING,
-        // but resources not available
-        node->setQueueStatus(QUEUE_PENDING);
+        else {
+          // Still eligible to transition to EXECUTING,
+          // but resources not available
+          node->setQueueStatus(QUEUE_PENDING);
+        }
         return false;
 
       case QUEUE_PENDING_TRY_CHECK:
@@ -556,10 +558,12 @@ namespace PLEXIL
 
         Node *temp = priorityHead;
         do {
+          // Get next node now, as the check may remove this one from the queue
+          Node *next = temp->next();
           if (resourceCheckEligible(temp)) 
             // Resource(s) were released, give it a look
             priorityNodes.push_back(temp);
-          temp = temp->next();
+          temp = next;
         } while (temp && temp->getPriority() == thisPriority);
 
         // temp is at end of queue,
-- 
2.43.0


From bebedd1e6758bb299251b6d2f027c8b80047cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 002/116] fix: step the Exec when a resource-waiting node's
 conditions change

A node on the pending queue was only marked for checking, but neither
needsStep() nor the quiescence loop looked at the pending queue, so the
node was not skipped, exited, etc. until some unrelated node was checked.
---
 src/exec/NodeImpl.cc   |  3 +++
 src/exec/PlexilExec.cc | 22 ++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 87d8b75..46306f8 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -608,6 +608,9 @@ namespace PLEXIL
     case QUEUE_PENDING_CHECK:     // already a candidate, silently ignore
       return;
 
+    case QUEUE_PENDING_TRY_CHECK: // already a candidate, silently ignore
+      return;
+
     case QUEUE_TRANSITION_CHECK:  // already a candidate, silently ignore
       return;
 
diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index 2951bd1..fe8e119 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -240,7 +240,7 @@ namespace PLEXIL
     //! \return True if the Exec needs to be stepped, false otherwise.
     virtual bool needsStep() const override
     {
-      return !m_candidateQueue.empty();
+      return !m_candidateQueue.empty() || pendingNodeNeedsCheck();
     }
 
     //! \brief Run a single "macro step" i.e. the entire quiescence cycle.
@@ -377,7 +377,7 @@ namespace PLEXIL
              && m_assignmentsToRetract.empty()
              && m_commandsToExecute.empty()
              && m_commandsToAbort.empty()
-             && !m_candidateQueue.empty());
+             && needsStep());
       // END QUIESCENCE LOOP
 
       // Perform side effects
@@ -543,6 +543,24 @@ namespace PLEXIL
       }
     }      
 
+    //! \brief Query whether any node on the pending queue has asked to have
+    //!        its conditions checked.
+    //! \return True if so, false otherwise.
+    bool pendingNodeNeedsCheck() const
+    {
+      for (Node const *node = m_pendingQueue.front(); node; node = node->next()) {
+        switch (node->getQueueStatus()) {
+        case QUEUE_PENDING_CHECK:
+        case QUEUE_PENDING_TRY_CHECK:
+          return true;
+
+        default:
+          break;
+        }
+      }
+      return false;
+    }
+
     //! \brief Resolve resource conflicts among the best priority
     //! nodes on the pending queue.
     void resolveResourceConflicts()
-- 
2.43.0


From f48083b96c3143c62ba710ae6a428ff60c2f15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 003/116] fix: recheck the PreCondition of a node waiting for
 resources

The PreCondition had no listener, so a node which had to wait for a mutex
or variable could start executing although its PreCondition was false.
---
 src/exec/NodeImpl.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 46306f8..3705759 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -356,8 +356,14 @@ namespace PLEXIL
       switch (condIdx) {
 
       case postIdx:
+        break; // this condition doesn't need a listener
+
       case preIdx:
-        break; // these conditions don't need listeners
+        // Only evaluated when the start condition becomes true, so doesn't
+        // need a listener - unless the node may then have to wait for resources.
+        if (m_conditions[condIdx] && acquiresResources())
+          m_conditions[condIdx]->addListener(this);
+        break;
 
       default:
         if (m_conditions[condIdx])
-- 
2.43.0


From 5ec45f59efc5024cab40aa3fb2300b084848e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 004/116] fix: report unknown, not a stale value, when an
 assignment is retracted

getSavedValue() on a variable whose saved value was unknown returned
whatever was left in the save area; on retraction the exec listeners
were told the variable had that value.
---
 src/expr/ArrayVariable.cc | 4 ++--
 src/expr/UserVariable.cc  | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 708b10d..31f9195 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -204,9 +204,9 @@ namespace PLEXIL
 
   Value ArrayVariable::getSavedValue() const
   {
-    if (m_savedValue)
+    if (m_savedKnown && m_savedValue)
       return Value(*m_savedValue);
-    return Value();
+    return Value(); // unknown
   }
 
   // *** FIXME ***
diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 144f015..eecb22c 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -393,12 +393,16 @@ namespace PLEXIL
   template <typename T>
   Value UserVariable<T>::getSavedValue() const
   {
-   return Value(m_savedValue);
+   if (m_savedKnown)
+     return Value(m_savedValue);
+   return Value(); // unknown
   }
 
   Value UserVariable<String>::getSavedValue() const
   {
-   return Value(m_savedValue);
+   if (m_savedKnown)
+     return Value(m_savedValue);
+   return Value(); // unknown
   }
 
   template <typename T>
-- 
2.43.0


From 6b7a3e01f579e703f7311400e352c725cbab0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 005/116] fix: release mutexes when a node finishes by failing
 or exiting

transitionToFinished() released the mutexes a node holds only when it came
from WAITING, when it holds none. A node which went to FINISHED straight from
EXECUTING or FAILING kept its mutexes forever.
---
 src/exec/NodeImpl.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 3705759..83e4725 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1385,8 +1385,12 @@ namespace PLEXIL
   // Wrapped by AssignmentNode
   void NodeImpl::transitionToFinished()
   {
-    // If transitioning from FAILING,, Release any mutexes held by this node
-    if (m_usingMutexes && m_state == WAITING_STATE) {
+    // If transitioning from a state in which the node holds its mutexes, release them.
+    // (If coming from ITERATION_ENDED, that was done upon entering that state.)
+    if (m_usingMutexes
+        && (m_state == EXECUTING_STATE
+            || m_state == FINISHING_STATE
+            || m_state == FAILING_STATE)) {
       for (Mutex *m : *m_usingMutexes)
         m->release(this);
     }
-- 
2.43.0


From 138b1417660db0cb3aff0707e7df438923346cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 006/116] fix: assign and restore the array element selected
 when the assignment began

The index of an assignment's target was reevaluated when the value was
stored, when it was retracted, and when listeners were told its name. If the
index changed meanwhile, the wrong element was written or 'restored'.
---
 src/expr/ArrayReference.cc | 29 +++++++++++++++++++++++++++--
 src/expr/ArrayReference.hh | 13 +++++++++++++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/expr/ArrayReference.cc b/src/expr/ArrayReference.cc
index 89087f8..cedf17c 100644
--- a/src/expr/ArrayReference.cc
+++ b/src/expr/ArrayReference.cc
@@ -228,16 +228,40 @@ namespace PLEXIL
     : Assignable(),
       ArrayReference(ary, idx, aryIsGarbage, idxIsGarbage),
       m_mutableArray(dynamic_cast<ArrayVariable *>(ary->getBaseExpression())),
+      m_savedIndex(0),
       m_saved(false)
   {
   }
 
+  char const *MutableArrayReference::getName() const
+  {
+    Expression const *base = getBaseExpression();
+    if (base && m_saved) {
+      std::ostringstream strm;
+      strm << base->getName() << '[' << m_savedIndex << ']';
+      *m_namePtr = strm.str();
+      return m_namePtr->c_str();
+    }
+    return ArrayReference::getName();
+  }
+
+  void MutableArrayReference::handleDeactivate()
+  {
+    m_saved = false;
+    ArrayReference::handleDeactivate();
+  }
+
   bool MutableArrayReference::mutableSelfCheck(size_t &idx)
   {
     checkPlanError(m_mutableArray,
                    "Can't assign to an array element not associated with a variable");
     if (!m_mutableArray->isKnown())
       return false;
+    if (m_saved) {
+      // The index may have changed since the element was selected.
+      idx = m_savedIndex;
+      return true;
+    }
     Integer idxTemp;
     if (!m_index->getValue(idxTemp))
       return false; // index is unknown
@@ -266,11 +290,12 @@ namespace PLEXIL
   void MutableArrayReference::saveCurrentValue()
   {
     size_t idx;
+    m_saved = false; // get current index
     if (!mutableSelfCheck(idx)) {
       // unknown or invalid
-      m_saved = false;
       return;
     }
+    m_savedIndex = idx;
     m_savedValue = m_mutableArray->getElementValue(idx);
     m_saved = true;
   }
@@ -283,7 +308,7 @@ namespace PLEXIL
     if (m_savedValue != m_mutableArray->getElementValue(idx)) {
       m_mutableArray->setElement(idx, m_savedValue);
     }
-    m_saved = false;
+    // Selected element stays selected until deactivated.
   }
 
   Value MutableArrayReference::getSavedValue() const
diff --git a/src/expr/ArrayReference.hh b/src/expr/ArrayReference.hh
index 309893e..76b617d 100644
--- a/src/expr/ArrayReference.hh
+++ b/src/expr/ArrayReference.hh
@@ -210,6 +210,12 @@ namespace PLEXIL {
     //! \brief Read the saved value of this variable.
     virtual Value getSavedValue() const override;
 
+    //! \brief Retrieve this object's name.
+    //! \return The base variable's name with the index of the element.
+    //! \note While an assignment to the element is in progress, the index is
+    //!       that of the element being assigned.
+    virtual char const *getName() const override;
+
     //! \brief Get the real variable for which this may be a proxy.
     //! \return Pointer to the base variable.
     virtual Variable *getBaseVariable() override;
@@ -227,6 +233,10 @@ namespace PLEXIL {
 
     using Assignable::setValue;
 
+  protected:
+
+    virtual void handleDeactivate() override;
+
   private:
     // Default, copy, assignment disallowed
     MutableArrayReference() = delete;
@@ -250,6 +260,9 @@ namespace PLEXIL {
     //! \brief Value saved by saveCurrentValue().
     Value m_savedValue;
 
+    //! \brief Index of the element whose value was saved by saveCurrentValue().
+    size_t m_savedIndex;
+
     //! \brief True if saveCurrentValue() has been called, false otherwise.
     bool m_saved;
   };
-- 
2.43.0


From 543a06c9a5585e0e64e041a9d97d3292a4fdf1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 007/116] fix: release a command's resources even if the
 interface denied it

COMMAND_DENIED reported by the external interface for a command which had
been granted its resources made CommandImpl::deactivate() skip the release,
so they stayed allocated forever.
---
 src/intfc/CommandImpl.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 6ca5d64..d03f956 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -495,7 +495,10 @@ namespace PLEXIL
     check_error_1(m_active);
     m_active = false;
 
-    if (m_commandHandle != COMMAND_DENIED && arbiter) // handle unit tests
+    // The external interface may also report COMMAND_DENIED for a command which
+    // was granted its resources, so can't rely on the handle to tell whether
+    // there is something to release.
+    if (arbiter) // handle unit tests
       arbiter->releaseResourcesForCommand(this);
 
     m_abortComplete.deactivate();
-- 
2.43.0


From eb6b9362f657b9c30cd3b849a7639d5997b98d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 008/116] fix: let an explicit resource request override an
 inherited one

std::set::insert() doesn't replace an existing element, so the amount a
command requested explicitly was ignored when the resource had already been
collected as a descendant of an earlier request.
---
 src/intfc/ResourceArbiterInterface.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intfc/ResourceArbiterInterface.cc b/src/intfc/ResourceArbiterInterface.cc
index 503812a..9bf62cc 100644
--- a/src/intfc/ResourceArbiterInterface.cc
+++ b/src/intfc/ResourceArbiterInterface.cc
@@ -306,9 +306,10 @@ namespace PLEXIL
 
     // loop through each hierarchy element in the flattened structure
     for (ChildResourceNode const &fres : flattenedRes) {
-      if (resourcesNeeded.find(fres) == resourcesNeeded.end())
+      ResourceSet::iterator it = resourcesNeeded.find(fres);
+      if (it == resourcesNeeded.end())
         resourcesNeeded.insert(fres);
-      else if (fres.name == requestName)
+      else if (fres.name == requestName) {
         // If current is explicitly specified in 
         // the command then the value can be overwritten. The
         // child resource scales will not be overwritten however.
@@ -316,7 +317,9 @@ namespace PLEXIL
         // of the flattened vector. This means that if a resource value
         // has to be overwritten it has to be explicitly scpecified in the 
         // plan
+        resourcesNeeded.erase(it); // insert() won't replace an existing entry
         resourcesNeeded.insert(fres);
+      }
     }
   }
 
-- 
2.43.0


From 6ad9c4d6ba18288b8a3cb5bf4b3a0717288f8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 009/116] fix: n-ary OR is unknown, not false, when no operand
 is true and one is unknown

---
 src/expr/BooleanOperators.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index d7d2f73..f26d589 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -100,7 +100,7 @@ namespace PLEXIL
   bool BooleanOr::operator()(Boolean &result, Function const &args) const
   {
     size_t const n = args.size();
-    bool anyKnown = false;
+    bool allKnown = true;
     for (size_t i = 0; i < n; ++i) {
       bool temp;
       if (args[i]->getValue(temp)) {
@@ -109,12 +109,13 @@ namespace PLEXIL
           result = true;
           return true;
         }
-        anyKnown = true; // but no true value yet
       }
+      else
+        allKnown = false;
     }
-    if (anyKnown)
+    if (allKnown)
       result = false; // or we would have returned above
-    return anyKnown;
+    return allKnown;
   }
 
   //
-- 
2.43.0


From 6c96a39f838ebf9ec52df444c0835fb8d2f331c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 010/116] fix: n-ary XOR computed only when its operands are
 known

---
 src/expr/BooleanOperators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index f26d589..de81eab 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -224,7 +224,7 @@ namespace PLEXIL
     for (size_t i = 0; i < n; ++i) {
       bool temp2;
       // Return unknown if any arg is unknown
-      if (args[i]->getValue(temp2))
+      if (!args[i]->getValue(temp2))
         return false;
       temp1 = (temp1 != temp2);
     }
-- 
2.43.0


From c906df3216a0a48329275fe46d3e8c8736718e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 011/116] fix: integer arithmetic that overflows is unknown;
 INT_MIN / -1 and INT_MIN % -1 no longer trap

---
 src/expr/ArithmeticOperators.cc | 109 +++++++++++++++++++++++++-------
 1 file changed, 86 insertions(+), 23 deletions(-)

diff --git a/src/expr/ArithmeticOperators.cc b/src/expr/ArithmeticOperators.cc
index 075771d..e9951d5 100644
--- a/src/expr/ArithmeticOperators.cc
+++ b/src/expr/ArithmeticOperators.cc
@@ -29,12 +29,81 @@
 #include "PlanError.hh"
 
 #include <cmath>
+#include <cstdint>
 
 namespace PLEXIL
 {
 
   // TODO:
-  // - Overflow/underflow checks
+  // - Overflow/underflow checks for reals
+
+  //
+  // Helper functions which return false if the result cannot be represented.
+  //
+
+  static inline bool checkedAdd(Integer a, Integer b, Integer &result)
+  {
+    int64_t const wide = (int64_t) a + (int64_t) b;
+    result = (Integer) wide;
+    return wide == (int64_t) result;
+  }
+
+  static inline bool checkedAdd(Real a, Real b, Real &result)
+  {
+    result = a + b;
+    return true;
+  }
+
+  static inline bool checkedSubtract(Integer a, Integer b, Integer &result)
+  {
+    int64_t const wide = (int64_t) a - (int64_t) b;
+    result = (Integer) wide;
+    return wide == (int64_t) result;
+  }
+
+  static inline bool checkedSubtract(Real a, Real b, Real &result)
+  {
+    result = a - b;
+    return true;
+  }
+
+  static inline bool checkedMultiply(Integer a, Integer b, Integer &result)
+  {
+    int64_t const wide = (int64_t) a * (int64_t) b;
+    result = (Integer) wide;
+    return wide == (int64_t) result;
+  }
+
+  static inline bool checkedMultiply(Real a, Real b, Real &result)
+  {
+    result = a * b;
+    return true;
+  }
+
+  static inline bool checkedNegate(Integer a, Integer &result)
+  {
+    return checkedSubtract(0, a, result);
+  }
+
+  static inline bool checkedNegate(Real a, Real &result)
+  {
+    result = -a;
+    return true;
+  }
+
+  static inline bool checkedDivide(Integer a, Integer b, Integer &result)
+  {
+    if (b == -1)
+      return checkedNegate(a, result); // minimum / -1 overflows
+    result = a / b;
+    return true;
+  }
+
+  static inline bool checkedDivide(Real a, Real b, Real &result)
+  {
+    result = a / b;
+    return true;
+  }
 
   //
   // Addition
@@ -58,18 +127,15 @@ namespace PLEXIL
     return arg->getValue(result);
   }
 
-  // TODO: overflow checks
   template <typename NUM>
   bool Addition<NUM>::calc(NUM &result, Expression const *arg0, Expression const *arg1) const
   {
     NUM temp0, temp1;
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1)))
       return false;
-    result = temp0 + temp1;
-    return true;
+    return checkedAdd(temp0, temp1, result);
   }
 
-  // TODO: overflow checks
   template <typename NUM>
   bool Addition<NUM>::calc(NUM &result,
                            Function const &args) const
@@ -79,7 +145,8 @@ namespace PLEXIL
       NUM temp;
       if (!args[i]->getValue(temp))
         return false; // unknown if any arg unknown
-      workingResult += temp;
+      if (!checkedAdd(workingResult, temp, workingResult))
+        return false;
     }
     result = workingResult;
     return true;
@@ -102,7 +169,6 @@ namespace PLEXIL
   }
 
   // TODO:
-  // - Overflow checks
   // - If we extend to unsigned numeric types, add an error message for these methods 
 
   template <typename NUM>
@@ -111,8 +177,7 @@ namespace PLEXIL
     NUM temp;
     if (!arg->getValue(temp))
       return false;
-    result = -temp;
-    return true;
+    return checkedNegate(temp, result);
   }
 
   template <typename NUM>
@@ -121,8 +186,7 @@ namespace PLEXIL
     NUM temp0, temp1;
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1)))
       return false;
-    result = temp0 - temp1;
-    return true;
+    return checkedSubtract(temp0, temp1, result);
   }
 
   template <typename NUM>
@@ -136,15 +200,15 @@ namespace PLEXIL
       return false;
     if (args.size() == 1) {
       // Unary
-      result = -temp;
-      return true;
+      return checkedNegate(temp, result);
     }
     // 2 or more args
     NUM workingResult = temp;
     for (size_t i = 1; i < args.size(); ++i) {
       if (!args[i]->getValue(temp))
         return false;
-      workingResult -= temp;
+      if (!checkedSubtract(workingResult, temp, workingResult))
+        return false;
     }
     result = workingResult;
     return true;
@@ -172,18 +236,15 @@ namespace PLEXIL
     return arg->getValue(result);
   }
 
-  // TODO: overflow checks
   template <typename NUM>
   bool Multiplication<NUM>::calc(NUM &result, Expression const *arg0, Expression const *arg1) const
   {
     NUM temp0, temp1;
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1)))
       return false;
-    result = temp0 * temp1;
-    return true;
+    return checkedMultiply(temp0, temp1, result);
   }
 
-  // TODO: overflow checks
   template <typename NUM>
   bool Multiplication<NUM>::calc(NUM &result,
                                  Function const &args) const
@@ -194,7 +255,8 @@ namespace PLEXIL
     for (size_t i = 1; i < args.size(); ++i) {
       if (!args[i]->getValue(temp))
         return false;
-      workingResult *= temp;
+      if (!checkedMultiply(workingResult, temp, workingResult))
+        return false;
     }
     result = workingResult;
     return true;
@@ -224,8 +286,7 @@ namespace PLEXIL
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
         || temp1 == 0)
       return false;
-    result = temp0 / temp1;
-    return true;
+    return checkedDivide(temp0, temp1, result);
   }
 
   //
@@ -252,7 +313,7 @@ namespace PLEXIL
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
         || temp1 == 0)
       return false;
-    result = temp0 % temp1;
+    result = (temp1 == -1) ? 0 : temp0 % temp1; // minimum % -1 traps
     return true;
   }
 
@@ -393,7 +454,9 @@ namespace PLEXIL
     NUM temp;
     if (!arg->getValue(temp))
       return false;
-    result = (temp < 0) ? -temp : temp;
+    if (temp < 0)
+      return checkedNegate(temp, result);
+    result = temp;
     return true;
   }
 
-- 
2.43.0


From 30ba6b06f79f5d6a60db5ccb71314b7a0e904284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 012/116] fix: conversion of a NaN to Integer is unknown

---
 src/expr/ConversionOperators.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/ConversionOperators.cc b/src/expr/ConversionOperators.cc
index c790d74..1f2365e 100644
--- a/src/expr/ConversionOperators.cc
+++ b/src/expr/ConversionOperators.cc
@@ -44,9 +44,9 @@ namespace PLEXIL
   //
   static bool RealToInt(Real reel, Integer &result)
   {
-    if (reel < std::numeric_limits<Integer>::min()
-        || reel > std::numeric_limits<Integer>::max())
-      return false; // out of range
+    if (!(reel >= std::numeric_limits<Integer>::min()
+          && reel <= std::numeric_limits<Integer>::max()))
+      return false; // out of range, or not a number
     Integer tempResult = (Integer) reel;
     Real fraction = (Real) (reel - (Real) tempResult);
     // TODO: allow fraction to be +/- epsilon
-- 
2.43.0


From 90be60d771ac1f0ec901042ee57b3b93e411d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 013/116] fix: ArraySize, ArrayMaxSize and STRLEN can be read
 as Real

---
 src/expr/OperatorImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/OperatorImpl.cc b/src/expr/OperatorImpl.cc
index 135f372..f9af746 100644
--- a/src/expr/OperatorImpl.cc
+++ b/src/expr/OperatorImpl.cc
@@ -182,7 +182,7 @@ namespace PLEXIL
   bool OperatorImpl<Integer>::operator()(Real &result, Expression const *arg) const
   {
     Integer temp;
-    if (!this->calc(temp, arg))
+    if (!(*this)(temp, arg))
       return false;
     result = (Real) temp;
     return true;
@@ -193,7 +193,7 @@ namespace PLEXIL
                                          Expression const *arg1) const
   {
     Integer temp;
-    if (!this->calc(temp, arg0, arg1))
+    if (!(*this)(temp, arg0, arg1))
       return false;
     result = (Real) temp;
     return true;
@@ -202,7 +202,7 @@ namespace PLEXIL
   bool OperatorImpl<Integer>::operator()(Real &result, Function const &args) const
   {
     Integer temp;
-    if (!this->calc(temp, args))
+    if (!(*this)(temp, args))
       return false;
     result = (Real) temp;
     return true;
-- 
2.43.0


From 8ad375c4b7546ed791dbbf02fd5f7660ff0335db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 014/116] fix: the loader accepts ArraySize, ArrayMaxSize,
 ALL_KNOWN and ANY_KNOWN of an array variable

---
 src/xml-parser/Operations.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index 3c2d189..3700a23 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -748,7 +748,7 @@ namespace PLEXIL
 
     virtual bool checkArgTypes(std::vector<ValueType> const &typeVec) const
     {
-      return isArrayType(typeVec.at(0));
+      return isArrayType(typeVec.at(0)) || typeVec.at(0) == UNKNOWN_TYPE;
     }
 
     virtual ValueType getValueType(std::vector<ValueType> const & /* typeVec */,
-- 
2.43.0


From 7df15e743e98fcd1592a28ee22a39873842066e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 015/116] fix: array equality ignores the stale contents of
 unknown elements

---
 src/expr/ArrayVariable.cc | 21 +++------------------
 src/value/ArrayImpl.cc    | 18 +++++++++++++++---
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 31f9195..3029021 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -454,12 +454,7 @@ namespace PLEXIL
       dynamic_cast<ArrayImpl<T> const *>(ary);
     if (!typed_ary)
       return false; // different type
-    if (m_value->getKnownVector() != ary->getKnownVector())
-      return false; // different elements known
-    std::vector<T> const *my_contents, *ary_contents;
-    typed_value->getContentsVector(my_contents);
-    typed_ary->getContentsVector(ary_contents);
-    return *my_contents == *ary_contents;
+    return *typed_value == *typed_ary;
   }
 
   bool ArrayVariableImpl<Integer>::equals(Array const *ary) const
@@ -475,12 +470,7 @@ namespace PLEXIL
       dynamic_cast<ArrayImpl<Integer> const *>(ary);
     if (!typed_ary)
       return false; // different type
-    if (m_value->getKnownVector() != ary->getKnownVector())
-      return false; // different elements known
-    std::vector<Integer> const *my_contents, *ary_contents;
-    typed_value->getContentsVector(my_contents);
-    typed_ary->getContentsVector(ary_contents);
-    return *my_contents == *ary_contents;
+    return *typed_value == *typed_ary;
   }
 
   bool ArrayVariableImpl<String>::equals(Array const *ary) const
@@ -496,12 +486,7 @@ namespace PLEXIL
       dynamic_cast<ArrayImpl<String> const *>(ary);
     if (!typed_ary)
       return false; // different type
-    if (m_value->getKnownVector() != ary->getKnownVector())
-      return false; // different elements known
-    std::vector<String> const *my_contents, *ary_contents;
-    typed_value->getContentsVector(my_contents);
-    typed_ary->getContentsVector(ary_contents);
-    return *my_contents == *ary_contents;
+    return *typed_value == *typed_ary;
   }
 
   template <typename T>
diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index f3bf677..27f160b 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -303,20 +303,32 @@ namespace PLEXIL
     return operator==(*typedOther);
   }
 
+  // Compare two vectors of contents, ignoring whatever is left in unknown elements
+  template <typename T>
+  static bool knownContentsEqual(std::vector<bool> const &known,
+                                 std::vector<T> const &a,
+                                 std::vector<T> const &b)
+  {
+    for (size_t i = 0; i < known.size(); ++i)
+      if (known[i] && !(a[i] == b[i]))
+        return false;
+    return true;
+  }
+
   // Specific equality
   template <typename T>
   bool ArrayImpl<T>::operator==(ArrayImpl<T> const &other) const
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return knownContentsEqual(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   bool ArrayImpl<String>::operator==(ArrayImpl<String> const &other) const
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return knownContentsEqual(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   template <typename T>
@@ -425,7 +437,7 @@ namespace PLEXIL
     std::vector<T> const *avec, *bvec;
     arya.getContentsVector(avec);
     aryb.getContentsVector(bvec);
-    return *avec == *bvec;
+    return knownContentsEqual(arya.getKnownVector(), *avec, *bvec);
   }
 
   // Generic
-- 
2.43.0


From 81b80b089062c1ddd3eb21de44366861369bb088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 016/116] fix: an order comparison of an expression of unknown
 type with an Integer compares as Real

---
 src/xml-parser/Operations.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index 3700a23..b4c91bb 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -635,9 +635,8 @@ namespace PLEXIL
     if (typeA == UNKNOWN_TYPE) {
       switch (typeB) {
       case REAL_TYPE:
-        return REAL_TYPE;
       case INTEGER_TYPE:
-        return INTEGER_TYPE;
+        return REAL_TYPE; // safe
       case STRING_TYPE:
         return STRING_TYPE;
       default:
-- 
2.43.0


From 760995282b7918065c1008df709bd08ec864e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 017/116] fix: the loader frees the right operands and reports
 their types when an operation cannot be made

---
 src/xml-parser/OperationFactory.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/xml-parser/OperationFactory.cc b/src/xml-parser/OperationFactory.cc
index 681a6c5..171ea48 100644
--- a/src/xml-parser/OperationFactory.cc
+++ b/src/xml-parser/OperationFactory.cc
@@ -86,6 +86,7 @@ namespace PLEXIL
       std::vector<Expression *> args(n, nullptr);
       std::vector<bool> argCreated(n, false);
       std::vector<ValueType> argTypes(n, UNKNOWN_TYPE);
+      Operator const *oper = nullptr;
       size_t i = 0;
       try {
         for (pugi::xml_node subexp : expr.children()) {
@@ -96,21 +97,23 @@ namespace PLEXIL
           argTypes[i] = arg->valueType();
           ++i;
         }
+
+        oper = m_operation->getOperator(argTypes, desiredType);
+        checkParserExceptionWithLocation(oper,
+                                         expr,
+                                         "OperationFactory::allocate: no operator found for "
+                                         << m_operation->getName()
+                                         << "\n Arg types " << valueTypeName(argTypes.at(0))
+                                         << (n > 1 ? ", " : "")
+                                         << (n > 1 ? valueTypeName(argTypes.at(1)) : ""));
       }
       catch (ParserException & /* e */) {
         for (size_t j = 0; j < i; j++)
-          if (argCreated[i])
-            delete args[i];
+          if (argCreated[j])
+            delete args[j];
         throw;
       }
 
-      Operator const *oper = m_operation->getOperator(argTypes, desiredType);
-      checkParserExceptionWithLocation(oper,
-                                       expr,
-                                       "OperationFactory::allocate: no operator found for "
-                                       << m_operation->getName()
-                                       << "\n Arg types " << valueTypeName(argTypes[0])
-                                       << ", " << valueTypeName(argTypes[1]));
       Function *result = m_operation->constructFunction(oper, n);
 
       for (size_t j = 0 ; j < n; ++j) {
-- 
2.43.0


From 0e0594da1e7ece2604ff36d73c046984cf231370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 018/116] fix: the loader rejects an element of a read-only
 array as an assignment target

---
 src/xml-parser/ArrayReferenceFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/ArrayReferenceFactory.cc b/src/xml-parser/ArrayReferenceFactory.cc
index 7171123..b0b7fbe 100644
--- a/src/xml-parser/ArrayReferenceFactory.cc
+++ b/src/xml-parser/ArrayReferenceFactory.cc
@@ -186,6 +186,7 @@ namespace PLEXIL
         delete arrayExpr;
       if (indexCreated)
         delete indexExpr;
+      throw;
     }
 
     wasCreated = true;
-- 
2.43.0


From 4f64090972f9a84f08e84b1a13ed28cf5a971a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 019/116] fix: the loader accepts the documented handle values
 COMMAND_ABORTED, COMMAND_ABORT_FAILED and COMMAND_INTERFACE_ERROR

---
 src/xml-parser/ConstantFactory.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml-parser/ConstantFactory.cc b/src/xml-parser/ConstantFactory.cc
index 1124371..922a5d1 100644
--- a/src/xml-parser/ConstantFactory.cc
+++ b/src/xml-parser/ConstantFactory.cc
@@ -395,6 +395,9 @@ namespace PLEXIL
     case COMMAND_FAILED:
     case COMMAND_DENIED:
     case COMMAND_SUCCESS:
+    case COMMAND_ABORTED:
+    case COMMAND_ABORT_FAILED:
+    case COMMAND_INTERFACE_ERROR:
       return COMMAND_HANDLE_TYPE; // is OK
 
     default:
@@ -430,6 +433,15 @@ namespace PLEXIL
     case COMMAND_SUCCESS:
       return COMMAND_SUCCESS_CONSTANT();
 
+    case COMMAND_ABORTED:
+      return COMMAND_ABORTED_CONSTANT();
+
+    case COMMAND_ABORT_FAILED:
+      return COMMAND_ABORT_FAILED_CONSTANT();
+
+    case COMMAND_INTERFACE_ERROR:
+      return COMMAND_INTERFACE_ERROR_CONSTANT();
+
     default:
       reportParserExceptionWithLocation(expr,
                                         "createExpression: Invalid CommandHandleValue");
-- 
2.43.0


From bc246da03baba4ec1c8ec3f4aa617e37866e5916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 020/116] fix: equality of a Date or Duration lookup without a
 value is unknown, not an internal error

---
 src/expr/Comparisons.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/Comparisons.cc b/src/expr/Comparisons.cc
index 356e713..673c528 100644
--- a/src/expr/Comparisons.cc
+++ b/src/expr/Comparisons.cc
@@ -129,6 +129,8 @@ namespace PLEXIL
       // else fall through to Real case
 
     case REAL_TYPE:
+    case DATE_TYPE:
+    case DURATION_TYPE:
       return compareEqual<Real>(result, argA, argB);
 
     case STRING_TYPE:
-- 
2.43.0


From d01d082cac2e855b9078679f9c5b15b62be14352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 021/116] fix: making one array element unknown notifies the
 array's listeners

---
 src/expr/ArrayVariable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 3029021..736d9fb 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -285,8 +285,10 @@ namespace PLEXIL
 
   void ArrayVariable::setElementUnknown(size_t idx)
   {
-    if (m_known)
+    if (m_known && m_value->elementKnown(idx)) {
       m_value->setElementUnknown(idx);
+      publishChange();
+    }
     // else fail silently
   }
 
-- 
2.43.0


From e1ff213d3308576c0e37ea7ffc3039119ae403bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 022/116] fix: restoring a saved array value restores its
 contents even if the variable became unknown meanwhile

---
 src/expr/ArrayVariable.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 736d9fb..52edcf6 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -683,7 +683,7 @@ namespace PLEXIL
   void ArrayVariableImpl<T>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
+    if (m_savedKnown
         && !equals(m_savedValue.get())) {
       changed = true;
       ArrayImpl<T> const *saved =
@@ -699,7 +699,7 @@ namespace PLEXIL
   void ArrayVariableImpl<Integer>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
+    if (m_savedKnown
         && !equals(m_savedValue.get())) {
       changed = true;
       ArrayImpl<Integer> const *saved =
@@ -715,7 +715,7 @@ namespace PLEXIL
   void ArrayVariableImpl<String>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
+    if (m_savedKnown
         && !equals(m_savedValue.get())) {
       changed = true;
       ArrayImpl<String> const *saved =
-- 
2.43.0


From 7eb329cd53dfae50530bcfb63e6ccbb1529609d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 023/116] fix: inserting after the last element of a
 LinkedQueue makes the new element the tail

---
 src/utils/LinkedQueue.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/LinkedQueue.hh b/src/utils/LinkedQueue.hh
index d3bd1ed..e2d1fcf 100644
--- a/src/utils/LinkedQueue.hh
+++ b/src/utils/LinkedQueue.hh
@@ -191,7 +191,7 @@ namespace PLEXIL
         *nxtPtr = item;
         *(item->nextPtr()) = nxt;
         if (!nxt)
-          m_tail = nxt;
+          m_tail = item;
         ++m_count;
       }
       return iterator(item);
-- 
2.43.0


From 6ed26b1cc0c4c28f906e8dcbaad8174364081f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 024/116] fix: order unknown Integer and Real values
 consistently with their equality

---
 src/value/Value.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/Value.cc b/src/value/Value.cc
index 9ea0967..2f60792 100644
--- a/src/value/Value.cc
+++ b/src/value/Value.cc
@@ -1082,7 +1082,7 @@ namespace PLEXIL
       else if (REAL_TYPE == other.m_type) {
         if (m_known)
           return ((Real) integerValue) < other.realValue;
-        return true; // real unknown > int unknown
+        return false; // integer and real unknowns are equal
       }
       return m_type < other.m_type;
 
@@ -1095,7 +1095,7 @@ namespace PLEXIL
       else if (INTEGER_TYPE == other.m_type) {
         if (m_known)
           return realValue < (Real) other.integerValue;
-        return false; // real unknown > int unknown
+        return false; // integer and real unknowns are equal
       }
       return m_type < other.m_type;
 
-- 
2.43.0


From c6db8d8c8e6d8a7c823158a6b4b71ea4ee4505d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 025/116] fix: read back serialised arrays of 128 and more
 elements

---
 src/value/ArrayImpl.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index 27f160b..3520448 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -939,9 +939,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
@@ -960,9 +960,9 @@ namespace PLEXIL
       return nullptr; // not a Boolean array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     this->resize(siz);
     
     buf = deserializeBoolVector(this->m_known, buf);
@@ -978,9 +978,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
-- 
2.43.0


From eda49b5aa08c142290f44441f80f1dbb2e7f67d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 026/116] fix: a cleared NodeVariableMap is empty

---
 src/exec/NodeVariableMap.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exec/NodeVariableMap.cc b/src/exec/NodeVariableMap.cc
index f2aecad..ebd9067 100644
--- a/src/exec/NodeVariableMap.cc
+++ b/src/exec/NodeVariableMap.cc
@@ -53,6 +53,7 @@ namespace PLEXIL
       free(const_cast<char *>(it->first));
       it->first = nullptr;
     }
+    BaseMap::clear();
   }
 
   Expression *NodeVariableMap::findVariable(char const *name) const
-- 
2.43.0


From aa668b02855728b3d9bf8cb6176c88686eb71342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 027/116] fix: query a state at most once per step

A report or query result equal to the cached value, or unknown, did not
renew the entry's timestamp, so every lookup of the state which was
activated later in the same step queried the handler again.
---
 src/intfc/CachedValueImpl.cc | 12 ++++++------
 src/intfc/CachedValueImpl.hh |  1 +
 src/intfc/StateCacheEntry.cc |  4 +++-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/intfc/CachedValueImpl.cc b/src/intfc/CachedValueImpl.cc
index 57fd294..31c47c4 100644
--- a/src/intfc/CachedValueImpl.cc
+++ b/src/intfc/CachedValueImpl.cc
@@ -537,10 +537,10 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<T>::update(unsigned int timestamp, T const &val)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       debugMsg("CachedValue:update", " updated to " << val);
       return true;
     }
@@ -550,10 +550,10 @@ namespace PLEXIL
 
   bool CachedValueImpl<Integer>::update(unsigned int timestamp, Integer const &val)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       debugMsg("CachedValue:update", " updated to " << val);
       return true;
     }
@@ -564,10 +564,10 @@ namespace PLEXIL
   // Real is different for debug printing purposes.
   bool CachedValueImpl<Real>::update(unsigned int timestamp, Real const &val)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       debugMsg("CachedValue:update", " updated to " << std::setprecision(15) << val);
       return true;
     }
@@ -577,10 +577,10 @@ namespace PLEXIL
 
   bool CachedValueImpl<String>::update(unsigned int timestamp, String const &val)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != val) {
       m_value = val;
       m_known = true;
-      this->m_timestamp = timestamp;
       return true;
     }
     return false;
@@ -663,10 +663,10 @@ namespace PLEXIL
 
   bool CachedValueImpl<String>::updatePtr(unsigned int timestamp, std::string const *ptr)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != *ptr) {
       m_value = *ptr;
       m_known = true;
-      this->m_timestamp = timestamp;
       return true;
     }
     return false;
@@ -675,10 +675,10 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<ArrayImpl<T> >::updatePtr(unsigned int timestamp, ArrayImpl<T> const *ptr)
   {
+    this->m_timestamp = timestamp;
     if (!m_known || m_value != *ptr) {
       m_value = *ptr;
       m_known = true;
-      this->m_timestamp = timestamp;
       return true;
     }
     return false;
diff --git a/src/intfc/CachedValueImpl.hh b/src/intfc/CachedValueImpl.hh
index 4d3e8c9..b9424a8 100644
--- a/src/intfc/CachedValueImpl.hh
+++ b/src/intfc/CachedValueImpl.hh
@@ -111,6 +111,7 @@ namespace PLEXIL
     //! \note The VoidCachedValue method always returns false.
     virtual bool setUnknown(unsigned int timestamp)
     {
+      this->m_timestamp = timestamp;
       return false;
     }
 
diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index b94e5ba..7e9dd5b 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -219,7 +219,9 @@ namespace PLEXIL
     //! \brief Make the value of this Lookup unknown.
     virtual void setUnknown()
     {
-      if (m_value && m_value->setUnknown(StateCache::instance().getCycleCount()))
+      if (!ensureCachedValue(UNKNOWN_TYPE))
+        return;
+      if (m_value->setUnknown(StateCache::instance().getCycleCount()))
         notify();
     }
 
-- 
2.43.0


From 1cc75f9d62a14fc5ecaa05216d419b0edfc3f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 028/116] fix: tolerate changes to an entry's lookups while
 notifying them

A lookup whose name or argument is itself a lookup of the same state
registers and unregisters while StateCacheEntry::notify() iterates over
the vector of registered lookups, which invalidated the iterator.
---
 src/intfc/StateCacheEntry.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index 7e9dd5b..fcbc819 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -381,7 +381,10 @@ namespace PLEXIL
     //! \brief Notify all subscribed Lookups of a change in value.
     void notify() const
     {
-      for (Lookup *lkup : m_lookups)
+      // Work from a copy, as the notification may cause lookups whose name or
+      // arguments depend on this state to be registered or unregistered here.
+      std::vector<Lookup *> const lookups(m_lookups);
+      for (Lookup *lkup : lookups)
         lkup->valueChanged();
     }
 
-- 
2.43.0


From eaa6c3d951f95f1cbcc5eef38899c4c70d85858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 029/116] fix: show an Integer change lookup becoming known
 again

The Integer specialization of thresholdsExceeded() compared a newly known
value with the thresholds left over from before it was unknown, so a
LookupOnChange stayed unknown when the value came back inside them.
---
 src/intfc/Lookup.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 31a0504..6e4bae9 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -659,10 +659,12 @@ namespace PLEXIL
   bool ThresholdCacheImpl<Integer>::thresholdsExceeded(CachedValue const *value) const
   {
     Integer currentValue;
-    if (value->getValue(currentValue))
-      return (currentValue >= m_high) || (currentValue <= m_low);
-    // Current value is unknown
-    return m_wasKnown; 
+    if (!value->getValue(currentValue))
+      // now unknown, was it last time?
+      return m_wasKnown;
+    if (!m_wasKnown)
+      return true; // was unknown
+    return (currentValue >= m_high) || (currentValue <= m_low);
   }
 
   //! \brief Check whether the current value is beyond the thresholds
-- 
2.43.0


From 867c2f7ccaf14041780d822bdc0c60dcb288f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 030/116] fix: tell the interface when a tolerance change moves
 the thresholds

LookupOnChange recomputed its own thresholds but left the interface with
the old ones, which could be wider than the new tolerance allows.
---
 src/intfc/Lookup.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 6e4bae9..6dac8e8 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1013,6 +1013,7 @@ namespace PLEXIL
                      ' ' << this->m_cachedState
                      << " tolerance changed, updating thresholds");
             m_thresholds->setThresholds(m_cachedValue.get(), m_tolerance);
+            m_entry->updateThresholds(m_cachedState);
           }
 
           // Has the (possibly updated) threshold been exceeded?
-- 
2.43.0


From 64705c54fc4e47181a8ec8e3f7e2c11c2b452f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 031/116] fix: clear thresholds when the last lookup of a state
 goes away

The entry forgot its thresholds without telling the interface.
---
 src/intfc/StateCacheEntry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index fcbc819..9dcde6f 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -133,6 +133,7 @@ namespace PLEXIL
         if (m_lowThreshold || m_highThreshold) {
           m_lowThreshold.reset();
           m_highThreshold.reset();
+          g_dispatcher->clearThresholds(state);
         }
       }
       else if (m_lowThreshold || m_highThreshold) {
-- 
2.43.0


From 87be83b7be2aa53aab8faccf9089429079ba0c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 032/116] fix: withdraw thresholds while the value of a lookup
 is unknown

The thresholds computed from the last known value stayed in force when
the value became unknown, although any known value is then a change.
---
 src/intfc/Lookup.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 6dac8e8..57649b1 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -820,7 +820,7 @@ namespace PLEXIL
                  ' ' << m_cachedState << ": not active, returning false");
         return false;
       }
-      if (!m_thresholds) {
+      if (!m_thresholds || !m_cachedValue->isKnown()) {
         debugMsg("LookupOnChange:getThresholds",
                  ' ' << m_cachedState << ": no thresholds, returning false");
         return false;
@@ -841,7 +841,7 @@ namespace PLEXIL
                  ' ' << m_cachedState << ": not active, returning false");
         return false;
       }
-      if (!m_thresholds) {
+      if (!m_thresholds || !m_cachedValue->isKnown()) {
         debugMsg("LookupOnChange:getThresholds",
                  ' ' << m_cachedState << ": no thresholds, returning false");
         return false;
-- 
2.43.0


From cf9336bdce2f8d5179f2a0d241da1e142a09e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 033/116] fix: report a withheld change when the tolerance
 becomes unknown

A LookupOnChange without a tolerance shows the current value, but its
listeners were not told that it no longer shows the previous one.
---
 src/intfc/Lookup.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 57649b1..882c508 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1041,6 +1041,9 @@ namespace PLEXIL
           // *** Do we need to delete m_cachedValue here??? ***
           // Is case of tolerance becoming unknown independent of state/value
           // worth optimizing?
+          CachedValue const *val = this->m_entry->cachedValue();
+          if (val && val->isKnown() && !(*m_cachedValue == *val))
+            valueChanged = true; // a change was being withheld until now
           m_cachedValue.reset();
           // Tell the cache entry about it
           m_entry->updateThresholds(m_cachedState);
-- 
2.43.0


From 33eccf010c5f273488767da9f5ac54b7ff7791c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 034/116] fix: compute the thresholds of Integer lookups in
 Real

A Real tolerance on an Integer state is accepted by the loader but raised
an error when the lookup was activated, and adding the tolerance to a
value near the limits of Integer overflowed, so that every change was
reported.
---
 src/intfc/Lookup.cc | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 882c508..3466c5e 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -35,7 +35,9 @@
 #include "StateCache.hh"
 #include "ValueType.hh"
 
-#include <cmath>  // fabs()
+#include <algorithm> // std::max(), std::min()
+#include <cmath>     // ceil(), fabs(), floor()
+#include <limits>
 #include <memory>
 
 namespace PLEXIL
@@ -586,7 +588,7 @@ namespace PLEXIL
     virtual bool toleranceChanged(Expression const *tolerance) const override
     {
       check_error_1(tolerance); // paranoid check
-      NUM newTol;
+      Real newTol;
       if (tolerance->getValue(newTol)) {
         if (newTol < 0)
           newTol = -newTol;
@@ -614,7 +616,8 @@ namespace PLEXIL
     {
       debugMsg("ThresholdCache:setThresholds", " entered");
       check_error_1(value); // paranoid check
-      NUM base, tol;
+      NUM base;
+      Real tol;
       if (tolerance->getValue(tol)) {
         if (tol < 0)
           tol = -tol;
@@ -638,16 +641,14 @@ namespace PLEXIL
       }
     }
 
-    virtual void getThresholds(NUM &high, NUM &low) const override
-    {
-      high = m_high;
-      low = m_low;
-    }
+    virtual void getThresholds(NUM &high, NUM &low) const override;
 
   private:
-    NUM m_low;
-    NUM m_high;
-    NUM m_tolerance;
+    // Real even for Integer lookups: the tolerance need not be an integer,
+    // and the thresholds need not be in the range of Integer.
+    Real m_low;
+    Real m_high;
+    Real m_tolerance;
     bool m_wasKnown;
   };
 
@@ -698,6 +699,27 @@ namespace PLEXIL
     return false;
   }
 
+  //! \brief Get the thresholds for Integer-valued Lookups.
+  //! \param high Place to store the current high threshold.
+  //! \param low Place to store the current low threshold.
+  template <>
+  void ThresholdCacheImpl<Integer>::getThresholds(Integer &high, Integer &low) const
+  {
+    using limits = std::numeric_limits<Integer>;
+    high = (Integer) std::min((Real) limits::max(), ceil(m_high));
+    low = (Integer) std::max((Real) limits::min(), floor(m_low));
+  }
+
+  //! \brief Get the thresholds for Real-valued Lookups.
+  //! \param high Place to store the current high threshold.
+  //! \param low Place to store the current low threshold.
+  template <>
+  void ThresholdCacheImpl<Real>::getThresholds(Real &high, Real &low) const
+  {
+    high = m_high;
+    low = m_low;
+  }
+
   //! \brief Construct the appropriate ThresholdCache instance for a
   //!        PLEXIL ValueType.
   //! \param typ The ValueType.
-- 
2.43.0


From 63f2644cb45f759303b4588c531654feab81f2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 035/116] fix: strip white space around every item of a comma
 separated list

---
 src/app-framework/InterfaceSchema.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/app-framework/InterfaceSchema.cc b/src/app-framework/InterfaceSchema.cc
index 49a049c..9025516 100644
--- a/src/app-framework/InterfaceSchema.cc
+++ b/src/app-framework/InterfaceSchema.cc
@@ -55,10 +55,11 @@ namespace PLEXIL
 
 	// look for comma or end of string
 	const char * comma = strchr(next, ',');
-	unsigned int len = 
-	  (comma == nullptr) ? 
-	  strcspn(next, whitespace) /* strip trailing whitespace */ :
-	  comma - next;
+	size_t len = (comma == nullptr) ? strlen(next) : comma - next;
+
+	// strip trailing whitespace
+	while (len > 0 && strchr(whitespace, next[len - 1]))
+	  --len;
 
 	// construct result string
 	result->push_back(std::string(next, len));
-- 
2.43.0


From a14318f47ccb0408efb9815b11359d7216681124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 036/116] fix: don't delete a listener or filter factory under
 construction when its name is registered twice

---
 src/app-framework/ExecListenerFactory.cc       | 12 +++---------
 src/app-framework/ExecListenerFilterFactory.cc | 11 +++--------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/app-framework/ExecListenerFactory.cc b/src/app-framework/ExecListenerFactory.cc
index 22f8bc1..b32a5cb 100644
--- a/src/app-framework/ExecListenerFactory.cc
+++ b/src/app-framework/ExecListenerFactory.cc
@@ -138,15 +138,9 @@ namespace PLEXIL
   void ExecListenerFactory::registerFactory(std::string const &name, ExecListenerFactory* factory)
   {
     assertTrue_1(factory);
-    // FIXME: Assert, or replace old factory?
-    if (factoryMap().find(name) != factoryMap().end()) {
-      warn("Attempted to register an exec listener factory for name \""
-           << name.c_str()
-           << "\" twice, ignoring.");
-      delete factory;
-      return;
-    }
-    factoryMap()[name] = ExecListenerFactoryPtr(factory);
+    // Called while the factory is being constructed, so it can't be
+    // deleted here. The newer factory replaces any older one.
+    factoryMap()[name].reset(factory);
     debugMsg("ExecListenerFactory:registerFactory",
              " Registered exec listener factory for name \"" << name.c_str() << "\"");
   }
diff --git a/src/app-framework/ExecListenerFilterFactory.cc b/src/app-framework/ExecListenerFilterFactory.cc
index 8c9a91f..6a48bd0 100644
--- a/src/app-framework/ExecListenerFilterFactory.cc
+++ b/src/app-framework/ExecListenerFilterFactory.cc
@@ -144,14 +144,9 @@ namespace PLEXIL
                                                   ExecListenerFilterFactory* factory)
   {
     assertTrue_1(factory);
-    if (factoryMap().find(name) != factoryMap().end()) {
-      warn("Attempted to register an exec listener filter factory for name \""
-           << name.c_str()
-           << "\" twice, ignoring.");
-      delete factory;
-      return;
-    }
-    factoryMap()[name] = ExecListenerFilterFactoryPtr(factory);
+    // Called while the factory is being constructed, so it can't be
+    // deleted here. The newer factory replaces any older one.
+    factoryMap()[name].reset(factory);
     debugMsg("ExecListenerFilterFactory:registerFactory",
              " Registered exec listener filter factory for name \"" << name.c_str() << "\"");
   }
-- 
2.43.0


From c215ce3f319b48e7684e679e96ed34c8120b2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 037/116] fix: link debug messages into their list atomically,
 threads construct them concurrently

---
 src/utils/DebugMessage.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/DebugMessage.cc b/src/utils/DebugMessage.cc
index 3f1f9ed..4c77662 100644
--- a/src/utils/DebugMessage.cc
+++ b/src/utils/DebugMessage.cc
@@ -28,6 +28,7 @@
 
 #include "Error.hh"
 
+#include <atomic>
 #include <cstring> // strstr()
 #include <iostream>
 #include <vector>
@@ -42,14 +43,16 @@ namespace PLEXIL
   // DebugMessage
   //
 
-  static DebugMessage *allDebugMessages = nullptr;
+  // Messages are constructed on first use, by whichever thread gets there first.
+  static std::atomic<DebugMessage *> allDebugMessages{nullptr};
 
   DebugMessage::DebugMessage(char const *mrkr)
     : marker(mrkr),
       next(allDebugMessages),
       enabled(matchesPatterns(marker))
   {
-    allDebugMessages = this;
+    while (!allDebugMessages.compare_exchange_weak(next, this))
+      ;
   }
 
   std::ostream &operator<<(std::ostream &ostr, DebugMessage const &msg)
-- 
2.43.0


From c554b0268168e1a120d0c79dcb6d04dc595ec7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 038/116] fix: make the flags shared between the exec thread
 and its clients atomic

---
 src/app-framework/ExecApplication.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index d35c18c..c8fdff2 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -62,6 +62,7 @@ using ThreadMutexGuard = std::lock_guard<std::mutex>;
 
 #endif // PLEXIL_WITH_THREADS
 
+#include <atomic>
 #include <csignal>
 #include <cstring>
 
@@ -243,16 +244,17 @@ namespace PLEXIL
     bool m_initialized;
 
     // True if interfaces have been started, false otherwise.
-    bool m_interfacesStarted;
+    // May be read by any thread.
+    std::atomic<bool> m_interfacesStarted;
 
     //! True if at least one plan has been loaded.
-    bool m_planLoaded;
+    std::atomic<bool> m_planLoaded;
 
     // Flag for halting the Exec thread
-    bool m_stop;
+    std::atomic<bool> m_stop;
 
     // Flag for suspend/resume
-    bool m_suspended;
+    std::atomic<bool> m_suspended;
 
   public:
 
-- 
2.43.0


From fccd1487d04c5ee0e5990d49ae3e248ecdb730a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 039/116] fix: notifyExec() in opportunistic mode locked the
 exec mutex twice, and ran a suspended exec

---
 src/app-framework/ExecApplication.cc | 73 +++++++++++++++-------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index c8fdff2..39157ad 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -484,38 +484,9 @@ namespace PLEXIL
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
 
 #ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
-      bool allFinished = false;
-      {
-#ifdef PLEXIL_WITH_THREADS
-        ThreadMutexGuard guard(m_execMutex);
-#endif
-        debugMsg("ExecApplication:runExec", " Processing queue");
-        m_manager->processQueue();
-        do {
-          do {
-            debugMsg("ExecApplication:runExec", " Stepping exec");
-            m_exec->step(StateCache::queryTime());
-          } while (m_exec->needsStep());
-          debugMsg("ExecApplication:runExec", " Processing queue");
-        } while (m_manager->processQueue());
-
-        // Clean up
-        m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
-        debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
-      }
-#ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:runExec", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:runExec", " queue mark(s) processed");
-        m_markSem.post();
-      }
+      ThreadMutexGuard guard(m_execMutex);
 #endif
+      runExecInternal();
     }
 
     //
@@ -661,11 +632,12 @@ namespace PLEXIL
 #ifdef PLEXIL_WITH_THREADS
       // FIXME: Don't run if called from thread holding mutex - undefined behavior
       // How to fix? Call command handlers from outside the mutex hold.
-      if (!m_runExecInBkgndOnly && m_execMutex.try_lock()) {
+      if (!m_runExecInBkgndOnly && !m_suspended && m_interfacesStarted
+          && m_execMutex.try_lock()) {
         // Exec is idle, so run it
+        ThreadMutexGuard guard(m_execMutex, std::adopt_lock);
         debugMsg("ExecApplication:notify", " exec was idle, stepping it");
-        this->runExec();
-        m_execMutex.unlock();
+        runExecInternal();
       }
       else {
         // Some thread currently owns the exec. Could be this thread.
@@ -832,6 +804,39 @@ namespace PLEXIL
     // Implementation methods
     //
 
+    //! Run the exec until the queue is empty and the plan state is quiescent.
+    //! @note Caller must hold m_execMutex.
+    void runExecInternal()
+    {
+#ifdef PLEXIL_WITH_THREADS
+      unsigned int oldMark = m_lastMark;
+#endif
+      debugMsg("ExecApplication:runExec", " Processing queue");
+      m_manager->processQueue();
+      do {
+        do {
+          debugMsg("ExecApplication:runExec", " Stepping exec");
+          m_exec->step(StateCache::queryTime());
+        } while (m_exec->needsStep());
+        debugMsg("ExecApplication:runExec", " Processing queue");
+      } while (m_manager->processQueue());
+
+      // Clean up
+      m_exec->deleteFinishedPlans();
+      bool allFinished = m_exec->allPlansFinished();
+      debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
+#ifdef PLEXIL_WITH_THREADS
+      if (m_planLoaded && allFinished) {
+        debugMsg("ExecApplication:runExec", " All plans finished ");
+        m_allFinishedSem.post();
+      }
+      if (m_lastMark > oldMark) {
+        debugMsg("ExecApplication:runExec", " queue mark(s) processed");
+        m_markSem.post();
+      }
+#endif
+    }
+
 #ifdef PLEXIL_WITH_THREADS
     /**
      * @brief Spawns the worker thread which runs the exec's top level loop.
-- 
2.43.0


From cd1d66c01f0defcf6953092d17cd5511188651f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:02 +0000
Subject: [PATCH 040/116] fix: constructing a plan's nodes must not consult the
 state cache, which belongs to the exec thread

---
 src/exec/NodeImpl.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 83e4725..4ea7a78 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -33,8 +33,8 @@
 #include "NodeVariableMap.hh"
 #include "PlanError.hh"
 #include "PlexilExec.hh"
-#include "StateCache.hh" // currentTime()
 #include "UserVariable.hh"
+#include "Value.hh"
 
 #include <algorithm> // std::sort
 #include <iomanip>   // std::setprecision
@@ -281,8 +281,9 @@ namespace PLEXIL
   void NodeImpl::commonInit() {
     debugMsg("NodeImpl:NodeImpl", " common initialization");
 
-    // Initialize transition trace
-    logTransition(StateCache::currentTime(), (NodeState) m_state);
+    // No transition has occurred yet, so there is no time to record.
+    // (Plans may be constructed in a thread other than the exec's,
+    // so the state cache must not be consulted here.)
   }
 
   void NodeImpl::allocateVariables(size_t n)
-- 
2.43.0


From 3ef67618cf9c4e3808d9a69722d9b1cca4023ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:02 +0000
Subject: [PATCH 041/116] fix: addLibrary() reported success when the library
 was rejected

---
 src/app-framework/ExecApplication.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 39157ad..dbd579e 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -732,7 +732,7 @@ namespace PLEXIL
       }
       else {
         debugMsg("ExecApplication:addLibrary", " failed");
-        return true;
+        return false;
       }
     }
 
-- 
2.43.0


From a82c7441e2602c561f99adc97444bfb9e0ae91a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 042/116] fix: serialise parsing of plans and libraries added
 by concurrent threads

---
 src/app-framework/InterfaceManager.cc | 22 ++++++++++++++++++++--
 src/app-framework/InterfaceManager.hh |  9 +++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/InterfaceManager.cc b/src/app-framework/InterfaceManager.cc
index b50aa1d..d6319e2 100644
--- a/src/app-framework/InterfaceManager.cc
+++ b/src/app-framework/InterfaceManager.cc
@@ -348,7 +348,13 @@ namespace PLEXIL
     debugMsg("InterfaceManager:handleAddPlan", " entered");
 
     // parse the plan
-    NodeImpl *root = parsePlan(planXml); // can throw ParserException
+    NodeImpl *root = nullptr;
+    {
+#ifdef PLEXIL_WITH_THREADS
+      std::lock_guard<std::mutex> guard(m_loadMutex);
+#endif
+      root = parsePlan(planXml); // can throw ParserException
+    }
 
     assertTrue_1(m_inputQueue);
     QueueEntry *entry = m_inputQueue->allocate();
@@ -371,7 +377,13 @@ namespace PLEXIL
                "InterfaceManager::handleAddLibrary: Null plan document");
 
     // Hand off to librarian
-    Library const *l = loadLibraryDocument(doc);
+    Library const *l = nullptr;
+    {
+#ifdef PLEXIL_WITH_THREADS
+      std::lock_guard<std::mutex> guard(m_loadMutex);
+#endif
+      l = loadLibraryDocument(doc);
+    }
     if (l) {
       pugi::xml_node const node = l->doc->document_element().child(NODE_TAG);
       char const *name = node.child_value(NODEID_TAG);
@@ -392,6 +404,9 @@ namespace PLEXIL
   bool
   InterfaceManager::handleLoadLibrary(std::string const &libName)
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::mutex> guard(m_loadMutex);
+#endif
     if (loadLibraryNode(libName.c_str()))
       return true;
     return PLEXIL::isLibraryLoaded(libName.c_str());
@@ -403,6 +418,9 @@ namespace PLEXIL
   bool
   InterfaceManager::isLibraryLoaded(const std::string &libName) const
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::mutex> guard(m_loadMutex);
+#endif
     return PLEXIL::isLibraryLoaded(libName.c_str());
   }
 
diff --git a/src/app-framework/InterfaceManager.hh b/src/app-framework/InterfaceManager.hh
index 69877f9..dd3683d 100644
--- a/src/app-framework/InterfaceManager.hh
+++ b/src/app-framework/InterfaceManager.hh
@@ -30,6 +30,10 @@
 
 #include <memory>
 
+#ifdef PLEXIL_WITH_THREADS
+#include <mutex>
+#endif
+
 // Forward reference
 namespace pugi
 {
@@ -210,6 +214,11 @@ namespace PLEXIL
     //! The queue of input data for the Exec.
     std::unique_ptr<InputQueue> m_inputQueue;
 
+#ifdef PLEXIL_WITH_THREADS
+    //! Serializes parsing of plans and libraries, which uses global tables.
+    mutable std::mutex m_loadMutex;
+#endif
+
     //! Index of last queue mark enqueued.
     unsigned int m_markCount;
   };
-- 
2.43.0


From 2a5d4e9ff8b8bba9fee84b9368cfe02fe067966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 043/116] fix: announce a plan to listeners before it can
 start, and never call a listener from two threads at once

---
 src/app-framework/ExecListenerHub.cc  |  9 +++++++++
 src/app-framework/ExecListenerHub.hh  | 12 ++++++++++++
 src/app-framework/InterfaceManager.cc |  4 +++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/ExecListenerHub.cc b/src/app-framework/ExecListenerHub.cc
index 7057dad..2437ade 100644
--- a/src/app-framework/ExecListenerHub.cc
+++ b/src/app-framework/ExecListenerHub.cc
@@ -84,6 +84,9 @@ namespace PLEXIL
    */
   void ExecListenerHub::notifyOfAddPlan(pugi::xml_node const plan)
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::recursive_mutex> guard(m_mutex);
+#endif
     for (ExecListenerPtr const &listener : m_listeners)
       listener->notifyOfAddPlan(plan);
   }
@@ -94,6 +97,9 @@ namespace PLEXIL
    */
   void ExecListenerHub::notifyOfAddLibrary(pugi::xml_node const libNode)
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::recursive_mutex> guard(m_mutex);
+#endif
     for (ExecListenerPtr const &listener : m_listeners)
       listener->notifyOfAddLibrary(libNode);
   }
@@ -104,6 +110,9 @@ namespace PLEXIL
    */
   void ExecListenerHub::stepComplete(unsigned int cycleNum)
   {
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::recursive_mutex> guard(m_mutex);
+#endif
     for (ExecListenerPtr const &listener : m_listeners) {
       listener->notifyOfTransitions(m_transitions);
       for (AssignmentRecord const &assign : m_assignments)
diff --git a/src/app-framework/ExecListenerHub.hh b/src/app-framework/ExecListenerHub.hh
index eafeca5..cc4074b 100644
--- a/src/app-framework/ExecListenerHub.hh
+++ b/src/app-framework/ExecListenerHub.hh
@@ -27,12 +27,18 @@
 #ifndef EXEC_LISTENER_HUB_HH
 #define EXEC_LISTENER_HUB_HH
 
+#include "plexil-config.h"
+
 #include "ExecListener.hh" // leaving this out causes compiler errors
 #include "ExecListenerBase.hh"
 #include "Value.hh"
 
 #include <memory>
 
+#ifdef PLEXIL_WITH_THREADS
+#include <mutex>
+#endif
+
 namespace PLEXIL
 {
   //! @class ExecListenerHub
@@ -130,6 +136,12 @@ namespace PLEXIL
     ExecListenerHub &operator=(ExecListenerHub const &) = delete;
     ExecListenerHub &operator=(ExecListenerHub &&) = delete;
 
+#ifdef PLEXIL_WITH_THREADS
+    // Plans and libraries can be added by threads other than the exec's.
+    // Recursive in case a listener adds a plan or library.
+    std::recursive_mutex m_mutex;
+#endif
+
     // Clients
     std::vector<ExecListenerPtr> m_listeners;
 
diff --git a/src/app-framework/InterfaceManager.cc b/src/app-framework/InterfaceManager.cc
index d6319e2..a6f3df9 100644
--- a/src/app-framework/InterfaceManager.cc
+++ b/src/app-framework/InterfaceManager.cc
@@ -356,13 +356,15 @@ namespace PLEXIL
       root = parsePlan(planXml); // can throw ParserException
     }
 
+    // Listeners must hear of the plan before it can start
+    m_application->listenerHub()->notifyOfAddPlan(planXml);
+
     assertTrue_1(m_inputQueue);
     QueueEntry *entry = m_inputQueue->allocate();
     assertTrue_1(entry);
 
     entry->initForAddPlan(root);
     m_inputQueue->put(entry);
-    m_application->listenerHub()->notifyOfAddPlan(planXml);
     debugMsg("InterfaceManager:handleAddPlan", " plan enqueued for loading");
   }
 
-- 
2.43.0


From 9921784e53f31000662fb0d009f389bf2221efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 044/116] fix: queue marks placed by concurrent threads could
 be duplicated or out of sequence

---
 src/app-framework/InterfaceManager.cc | 3 +++
 src/app-framework/InterfaceManager.hh | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/app-framework/InterfaceManager.cc b/src/app-framework/InterfaceManager.cc
index a6f3df9..4282210 100644
--- a/src/app-framework/InterfaceManager.cc
+++ b/src/app-framework/InterfaceManager.cc
@@ -446,6 +446,9 @@ namespace PLEXIL
     QueueEntry *entry = m_inputQueue->allocate();
     assertTrue_1(entry);
 
+#ifdef PLEXIL_WITH_THREADS
+    std::lock_guard<std::mutex> guard(m_markMutex);
+#endif
     unsigned int sequence = ++m_markCount;
     entry->initForMark(sequence);
     m_inputQueue->put(entry);
diff --git a/src/app-framework/InterfaceManager.hh b/src/app-framework/InterfaceManager.hh
index dd3683d..2d3b1e4 100644
--- a/src/app-framework/InterfaceManager.hh
+++ b/src/app-framework/InterfaceManager.hh
@@ -26,6 +26,8 @@
 #ifndef PLEXIL_INTERFACE_MANAGER_HH
 #define PLEXIL_INTERFACE_MANAGER_HH
 
+#include "plexil-config.h"
+
 #include "AdapterExecInterface.hh"
 
 #include <memory>
@@ -219,6 +221,12 @@ namespace PLEXIL
     mutable std::mutex m_loadMutex;
 #endif
 
+#ifdef PLEXIL_WITH_THREADS
+    //! Serializes allocation and insertion of queue marks, so that they
+    //! are queued in sequence.
+    std::mutex m_markMutex;
+#endif
+
     //! Index of last queue mark enqueued.
     unsigned int m_markCount;
   };
-- 
2.43.0


From e1ec1994607e6212ef82f3cb1e768eb3f63ecbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 045/116] fix: waits for the queue or the plans returned too
 early, or spun or hung with several waiters

---
 src/app-framework/ExecApplication.cc | 109 +++++++++++++++------------
 1 file changed, 62 insertions(+), 47 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index dbd579e..f680730 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -55,6 +55,7 @@
 #include <unistd.h> // sleep()
 #endif
 
+#include <condition_variable>
 #include <exception>
 #include <mutex>
 #include <thread>
@@ -212,17 +213,28 @@ namespace PLEXIL
     // Semaphore for notifying the Exec of external events
     ThreadSemaphore m_sem;
 
-    // Semaphore for notifyAndWaitForCompletion()
-    ThreadSemaphore m_markSem;
-
     // Semaphore for notifying external threads that the application is shut down
     ThreadSemaphore m_shutdownSem;
 
-    // Semaphore for waiting on all plans to finish
-    ThreadSemaphore m_allFinishedSem;
-
-    //! Last mark seen
+    //! Last mark seen. Protected by m_execMutex.
     unsigned int m_lastMark;
+
+    //! Protects the members below, which represent the exec's progress
+    //! to the threads waiting on it. May be acquired while holding
+    //! m_execMutex, never the other way around.
+    std::mutex m_progressMutex;
+
+    //! Signaled when the members below change.
+    std::condition_variable m_progressCond;
+
+    //! Last mark seen as of the last time the exec became idle.
+    unsigned int m_marksDone;
+
+    //! Mark which follows the plan most recently added.
+    unsigned int m_planMark;
+
+    //! True if every plan was finished the last time the exec became idle.
+    bool m_allFinished;
 #endif 
 
     //! Interfacing database and dispatcher
@@ -247,9 +259,6 @@ namespace PLEXIL
     // May be read by any thread.
     std::atomic<bool> m_interfacesStarted;
 
-    //! True if at least one plan has been loaded.
-    std::atomic<bool> m_planLoaded;
-
     // Flag for halting the Exec thread
     std::atomic<bool> m_stop;
 
@@ -265,10 +274,13 @@ namespace PLEXIL
         m_workerThread(),
         m_execMutex(),
         m_sem(),
-        m_markSem(),
         m_shutdownSem(),
-        m_allFinishedSem(),
         m_lastMark(0),
+        m_progressMutex(),
+        m_progressCond(),
+        m_marksDone(0),
+        m_planMark(0),
+        m_allFinished(false),
 #endif
         m_configuration(makeAdapterConfiguration()),
         m_manager(new InterfaceManager(this, m_configuration.get())),
@@ -277,7 +289,6 @@ namespace PLEXIL
         m_runExecInBkgndOnly(true),
         m_initialized(false),
         m_interfacesStarted(false),
-        m_planLoaded(false),
         m_stop(false),
         m_suspended(false)
     {
@@ -445,11 +456,7 @@ namespace PLEXIL
     {
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
-#ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
       bool needsStep = false;
-      bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
         ThreadMutexGuard guard(m_execMutex);
@@ -460,19 +467,12 @@ namespace PLEXIL
         m_exec->step(StateCache::queryTime());
         // Take care of any plans which have finished
         m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
         needsStep = m_exec->needsStep();
-      }
 #ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:step", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:step", " queue mark(s) processed");
-        m_markSem.post();
-      }
+        if (!needsStep)
+          reportProgress();
 #endif
+      }
       return needsStep;
     }
 
@@ -662,10 +662,11 @@ namespace PLEXIL
       unsigned int sequence = m_manager->markQueue();
       notifyExec();
       debugMsg("ExecApplication:notifyAndWait", " waiting for mark #" << sequence);
-      do {
-        m_markSem.wait();
-        m_markSem.post(); // in case it's not our mark and we got there first
-      } while (m_lastMark < sequence);
+      {
+        std::unique_lock<std::mutex> lock(m_progressMutex);
+        m_progressCond.wait(lock, [this, sequence]() -> bool
+        { return m_marksDone >= sequence; });
+      }
       debugMsg("ExecApplication:notifyAndWait", " proceeding");
 #else // !defined(PLEXIL_WITH_THREADS)
       warn("notifyAndWaitForCompletion: Threads not enabled");
@@ -679,9 +680,13 @@ namespace PLEXIL
     {
 #ifdef PLEXIL_WITH_THREADS
       debugMsg("ExecApplication:waitForPlanFinished", " waiting");
-      int waitStatus = m_allFinishedSem.wait();
-      checkError(!waitStatus,
-                 "waitForPlanFinished: semaphore wait returned error " << waitStatus);
+      {
+        // The exec must have processed the mark after the last plan added,
+        // otherwise that plan may not have started yet.
+        std::unique_lock<std::mutex> lock(m_progressMutex);
+        m_progressCond.wait(lock, [this]() -> bool
+        { return m_planMark && m_marksDone >= m_planMark && m_allFinished; });
+      }
       debugMsg("ExecApplication:waitForPlanFinished", " proceeding");
 #else // !defined(PLEXIL_WITH_THREADS)
       warn("waitForPlanFinished: Threads not enabled");
@@ -779,8 +784,15 @@ namespace PLEXIL
       // Delegate to InterfaceManager
       try {
         m_manager->handleAddPlan(planXml->document_element());
+#ifdef PLEXIL_WITH_THREADS
+        unsigned int mark = m_manager->markQueue();
+        {
+          ThreadMutexGuard guard(m_progressMutex);
+          if (mark > m_planMark)
+            m_planMark = mark;
+        }
+#endif
         debugMsg("ExecApplication:addPlan", " successful");
-        m_planLoaded = true;
         return true;
       }
       catch (const ParserException& e) {
@@ -808,9 +820,6 @@ namespace PLEXIL
     //! @note Caller must hold m_execMutex.
     void runExecInternal()
     {
-#ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
       debugMsg("ExecApplication:runExec", " Processing queue");
       m_manager->processQueue();
       do {
@@ -823,21 +832,27 @@ namespace PLEXIL
 
       // Clean up
       m_exec->deleteFinishedPlans();
-      bool allFinished = m_exec->allPlansFinished();
       debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
 #ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:runExec", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:runExec", " queue mark(s) processed");
-        m_markSem.post();
-      }
+      reportProgress();
 #endif
     }
 
 #ifdef PLEXIL_WITH_THREADS
+    //! Tell the threads waiting on the exec how far it has got.
+    //! @note Caller must hold m_execMutex.
+    void reportProgress()
+    {
+      bool allFinished = m_exec->allPlansFinished();
+      condDebugMsg(allFinished, "ExecApplication:reportProgress", " All plans finished ");
+      {
+        ThreadMutexGuard guard(m_progressMutex);
+        m_allFinished = allFinished;
+        m_marksDone = m_lastMark;
+      }
+      m_progressCond.notify_all();
+    }
+
     /**
      * @brief Spawns the worker thread which runs the exec's top level loop.
      * @return true if successful, false otherwise.
-- 
2.43.0


From c4a6a311a52a54fb1fab926d2a72f90dd53c328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:05 +0000
Subject: [PATCH 046/116] fix: SerializedInputQueue::flush() deadlocked on its
 own mutex

---
 src/app-framework/SerializedInputQueue.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/SerializedInputQueue.cc b/src/app-framework/SerializedInputQueue.cc
index 239a8a6..fcb3835 100644
--- a/src/app-framework/SerializedInputQueue.cc
+++ b/src/app-framework/SerializedInputQueue.cc
@@ -131,7 +131,10 @@ namespace PLEXIL
     QueueEntry *temp;
     while ((temp = m_queueGet)) {
       m_queueGet = temp->next;
-      release(temp);
+      // Can't call release() here because we already hold the mutex
+      temp->reset();
+      temp->next = m_freeList;
+      m_freeList = temp;
     }
     m_queuePut = nullptr;
   }
-- 
2.43.0


From 0d7babebf7f4aac4d6490174454a5f5178c5ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:05 +0000
Subject: [PATCH 047/116] fix: the handle of an accepted message was dropped on
 its way through the input queue

---
 src/intfc/QueueEntry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/QueueEntry.cc b/src/intfc/QueueEntry.cc
index 74965ae..f6b0ab8 100644
--- a/src/intfc/QueueEntry.cc
+++ b/src/intfc/QueueEntry.cc
@@ -127,6 +127,7 @@ namespace PLEXIL
   void QueueEntry::initForAcceptMessage(Message *msg, std::string const &handle)
   {
     message = msg;
+    value = handle;
     type = Q_ACCEPT_MSG;
   }
 
-- 
2.43.0


From 22d0608f8c67e9e06cca0171b849abc583cbf008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 048/116] fix: a stopped time base could not be started again,
 and stopping it twice deleted its timer twice

---
 src/app-framework/ItimerTimebase.cc | 2 ++
 src/app-framework/PosixTimebase.cc  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index a73eb1f..9a233c9 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -148,6 +148,8 @@ namespace PLEXIL
              << errno << ":\n " << strerror(errno));
       }
 
+      m_started = false;
+      m_nextWakeup = 0;
       debugMsg("ItimerTimebase:stop", " complete");
     }
 
diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 833bbac..ba23da6 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -157,6 +157,8 @@ namespace PLEXIL
         warn("PosixTimebase:stop: timer_delete failed, errno = "
              << errno << ":\n " << strerror(errno));
       }
+      m_started = false;
+      m_nextWakeup = 0;
       debugMsg("PosixTimebase:stop", " complete");
     }
 
-- 
2.43.0


From 0a63a01fa4f4fc02e3bfeea2218329b7d20b2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 049/116] fix: tick intervals above 4.29 seconds overflowed

---
 src/app-framework/PosixTimebase.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index ba23da6..07f0c1b 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -112,7 +112,7 @@ namespace PLEXIL
       struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
 
       // Calculate repeat interval in nanosec.
-      uint64_t nanos = 1000 * m_interval_usec;
+      uint64_t nanos = 1000ull * m_interval_usec;
       tymrSpec.it_interval.tv_sec  = nanos / NSEC_PER_SEC; // better be *integer* divide!
       tymrSpec.it_interval.tv_nsec = nanos % NSEC_PER_SEC;
       // Set initial interval to the same
-- 
2.43.0


From 60f7e0660916410b1f814dc7dc69549901dfa8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 050/116] fix: the Itimer time base lost a wakeup due at once,
 and could wake before the deadline

---
 src/app-framework/ItimerTimebase.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 9a233c9..783060b 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -185,9 +185,13 @@ namespace PLEXIL
         return;
       }
 
-      // Calculate the interval and set the timer for the deadline
+      // Calculate the interval and set the timer for the deadline.
+      // Converting the deadline discarded a fraction of a microsecond;
+      // round up, so as not to wake before the deadline, and because
+      // an interval of 0 would disable the timer.
+      static struct timeval const ONE_USEC = {0, 1};
       struct itimerval mytimerval = {{0, 0}, {0, 0}};
-      mytimerval.it_value = deadline - now;
+      mytimerval.it_value = deadline - now + ONE_USEC;
       checkInterfaceError(!setitimer(ITIMER_REAL,
                                      &mytimerval,
                                      nullptr),
@@ -195,7 +199,7 @@ namespace PLEXIL
                           << errno << ":\n " << strerror(errno));
 
       // Report what we've done
-      m_nextWakeup = timevalToDouble(deadline);
+      m_nextWakeup = d;
       debugMsg("ItimerTimebase:setTimer",
                " deadline set for "
 	       << std::fixed << std::setprecision(6) << m_nextWakeup);
-- 
2.43.0


From dd5ba110482307c388f1f180e9049cc04a7f9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:40 +0000
Subject: [PATCH 051/116] fix: converting a time out of range to a timespec or
 timeval left the result uninitialized

---
 src/utils/timespec-utils.cc | 12 +++++++++---
 src/utils/timeval-utils.cc  | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/utils/timespec-utils.cc b/src/utils/timespec-utils.cc
index 6caaac8..dcdbe7c 100644
--- a/src/utils/timespec-utils.cc
+++ b/src/utils/timespec-utils.cc
@@ -106,9 +106,15 @@ struct timespec operator-(const struct timespec& ts1, const struct timespec& ts2
 
 void doubleToTimespec(double dbl, timespec& result)
 {
-  if (dbl > std::numeric_limits<time_t>::max()
-      || dbl < std::numeric_limits<time_t>::min()) {
-    // TODO: report out-of-range error
+  // Represent times out of range by the nearest that can be represented
+  if (dbl >= (double) std::numeric_limits<time_t>::max()) {
+    result.tv_sec = std::numeric_limits<time_t>::max();
+    result.tv_nsec = 0;
+    return;
+  }
+  if (dbl < (double) std::numeric_limits<time_t>::min()) {
+    result.tv_sec = std::numeric_limits<time_t>::min();
+    result.tv_nsec = 0;
     return;
   }
   result.tv_sec = (time_t) dbl;
diff --git a/src/utils/timeval-utils.cc b/src/utils/timeval-utils.cc
index aa94f4c..038b203 100644
--- a/src/utils/timeval-utils.cc
+++ b/src/utils/timeval-utils.cc
@@ -116,9 +116,15 @@ struct timeval operator- (const struct timeval& tv1, const struct timeval& tv2)
 
 void doubleToTimeval(double dbl, timeval& result)
 {
-  if (dbl > std::numeric_limits<time_t>::max()
-      || dbl < std::numeric_limits<time_t>::min()) {
-    // TODO: report out-of-range error
+  // Represent times out of range by the nearest that can be represented
+  if (dbl >= (double) std::numeric_limits<time_t>::max()) {
+    result.tv_sec = std::numeric_limits<time_t>::max();
+    result.tv_usec = 0;
+    return;
+  }
+  if (dbl < (double) std::numeric_limits<time_t>::min()) {
+    result.tv_sec = std::numeric_limits<time_t>::min();
+    result.tv_usec = 0;
     return;
   }
   result.tv_sec = (time_t) dbl;
-- 
2.43.0


From fa20cc7dfeda12cbd7c11f68325f593afe37e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:40 +0000
Subject: [PATCH 052/116] fix: a time base could call the wakeup function after
 it was stopped or destroyed

---
 src/app-framework/ItimerTimebase.cc |  8 +++-
 src/app-framework/PosixTimebase.cc  | 59 ++++++++++++++++++++++++++---
 2 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 783060b..819fd36 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -57,7 +57,10 @@ namespace PLEXIL
       debugMsg("ItimerTimebase", " constructor");
     }
 
-    virtual ~ItimerTimebase() = default;
+    virtual ~ItimerTimebase()
+    {
+      stop();
+    }
 
     virtual double getTime() const
     {
@@ -216,7 +219,8 @@ namespace PLEXIL
     //! \param signo Signal number for which the handler is called; ignored.
     static void sigalrmHandler(int signo)
     {
-      timebaseWakeup(Timebase::s_instance);
+      if (Timebase::s_instance)
+        timebaseWakeup(Timebase::s_instance);
     }
 
   };
diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 07f0c1b..02e8c62 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -34,6 +34,8 @@
 
 #include <csignal>
 #include <ctime>
+#include <map>
+#include <mutex>
 
 namespace PLEXIL
 {
@@ -51,13 +53,17 @@ namespace PLEXIL
     //! \param arg The parameter passed to the timer wakeup function.
     PosixTimebase(WakeupFn const &fn)
       : Timebase(fn),
-        m_timer()
+        m_timer(),
+        m_timerId(0)
     {
       debugMsg("PosixTimebase", " constructor");
     }
 
     //! \brief Virtual destructor.
-    virtual ~PosixTimebase() = default;
+    virtual ~PosixTimebase()
+    {
+      stop();
+    }
 
     //
     // Timebase class public API
@@ -90,11 +96,19 @@ namespace PLEXIL
       m_started = true;
       debugMsg("PosixTimebase:start", " entered");
 
+      // Make this instance known to the notification function
+      {
+        static int sl_nextId = 0;
+        std::lock_guard<std::recursive_mutex> guard(activeMutex());
+        m_timerId = ++sl_nextId;
+        activeTimebases()[m_timerId] = this;
+      }
+
       // Construct the timer
       struct sigevent event;
       event.sigev_notify = SIGEV_THREAD;
-      event.sigev_value.sival_ptr = static_cast<void *>(this);
-      event.sigev_notify_function = reinterpret_cast<void(*)(union sigval)>(&timebaseWakeup);
+      event.sigev_value.sival_int = m_timerId;
+      event.sigev_notify_function = &timerNotify;
       event.sigev_notify_attributes = nullptr;
 
       checkInterfaceError(!timer_create(CLOCK_REALTIME,
@@ -157,6 +171,13 @@ namespace PLEXIL
         warn("PosixTimebase:stop: timer_delete failed, errno = "
              << errno << ":\n " << strerror(errno));
       }
+
+      // A notification thread may have been started before the timer was deleted.
+      // Wait for it to finish, or prevent it from calling the wakeup function.
+      {
+        std::lock_guard<std::recursive_mutex> guard(activeMutex());
+        activeTimebases().erase(m_timerId);
+      }
       m_started = false;
       m_nextWakeup = 0;
       debugMsg("PosixTimebase:stop", " complete");
@@ -210,11 +231,39 @@ namespace PLEXIL
 
   private:
 
+    //! \brief Notification function called by the timer, in a thread of its own.
+    //! \param arg Contains the ID of the timer, which may no longer exist.
+    static void timerNotify(union sigval arg)
+    {
+      // Hold the mutex to prevent stop() from returning while the wakeup function runs
+      std::lock_guard<std::recursive_mutex> guard(activeMutex());
+      auto it = activeTimebases().find(arg.sival_int);
+      if (it != activeTimebases().end())
+        timebaseWakeup(it->second);
+    }
+
+    //! \brief The instances whose timers are running, by timer ID.
+    //! \note Never deleted, as notification threads could use it during exit.
+    static std::map<int, PosixTimebase *> &activeTimebases()
+    {
+      static std::map<int, PosixTimebase *> *sl_active = new std::map<int, PosixTimebase *>();
+      return *sl_active;
+    }
+
+    //! \brief The mutex protecting activeTimebases().
+    //! \note Recursive because a wakeup function could call stop().
+    static std::recursive_mutex &activeMutex()
+    {
+      static std::recursive_mutex *sl_mutex = new std::recursive_mutex();
+      return *sl_mutex;
+    }
+
     //
     // Member variables
     //
 
-    timer_t  m_timer;  //!< The timer.
+    timer_t  m_timer;   //!< The timer.
+    int      m_timerId; //!< Identifies the timer to the notification function.
   };
 
   void registerPosixTimebase()
-- 
2.43.0


From e345b3b2b4ba17753727dd054f3e4416e24efeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:40 +0000
Subject: [PATCH 053/116] fix: the wakeup for a new deadline was lost when an
 earlier timer went off at the same time

---
 src/app-framework/ItimerTimebase.cc |  3 ++-
 src/app-framework/PosixTimebase.cc  |  3 ++-
 src/app-framework/TimeAdapter.cc    | 36 +++++++++++++++++++++++------
 src/app-framework/Timebase.hh       |  3 ++-
 4 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 819fd36..a6474a1 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -195,6 +195,8 @@ namespace PLEXIL
       static struct timeval const ONE_USEC = {0, 1};
       struct itimerval mytimerval = {{0, 0}, {0, 0}};
       mytimerval.it_value = deadline - now + ONE_USEC;
+      // Set this first, the wakeup may happen at once
+      m_nextWakeup = d;
       checkInterfaceError(!setitimer(ITIMER_REAL,
                                      &mytimerval,
                                      nullptr),
@@ -202,7 +204,6 @@ namespace PLEXIL
                           << errno << ":\n " << strerror(errno));
 
       // Report what we've done
-      m_nextWakeup = d;
       debugMsg("ItimerTimebase:setTimer",
                " deadline set for "
 	       << std::fixed << std::setprecision(6) << m_nextWakeup);
diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 02e8c62..fd329fe 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -214,6 +214,8 @@ namespace PLEXIL
         return;
       }
 
+      // Set this first, the wakeup may happen at once
+      m_nextWakeup = timespecToDouble(tymrSpec.it_value);
       // Set the timer for the deadline
       checkInterfaceError(!timer_settime(m_timer,
                                          TIMER_ABSTIME, // flags
@@ -223,7 +225,6 @@ namespace PLEXIL
                           << errno << ":\n " << strerror(errno));
 
       // Truth in advertising
-      m_nextWakeup = timespecToDouble(tymrSpec.it_value);
       debugMsg("PosixTimebase:setTimer",
                " deadline set to "
                << std::fixed << std::setprecision(6) << m_nextWakeup);
diff --git a/src/app-framework/TimeAdapter.cc b/src/app-framework/TimeAdapter.cc
index 26e8d30..2beffbb 100644
--- a/src/app-framework/TimeAdapter.cc
+++ b/src/app-framework/TimeAdapter.cc
@@ -40,6 +40,7 @@
 #include "State.hh"
 #include "TimebaseFactory.hh"
 
+#include <atomic>
 #include <iomanip> // std::setprecision()
 #include <memory>  // std::unique_ptr<>
 
@@ -66,7 +67,8 @@ namespace PLEXIL
     //! \brief Primary constructor.
     //! \param Pointer to a Timebase instance.
     TimeLookupHandler(Timebase *timebase)
-      : m_timebase(timebase)
+      : m_timebase(timebase),
+        m_earlyWakeup(false)
     {
     }
     
@@ -80,7 +82,25 @@ namespace PLEXIL
     virtual void lookupNow(const State & /* state */, LookupReceiver *rcvr) override
     {
       debugMsg("TimeLookupHandler:lookupNow", " called");
-      rcvr->update(m_timebase->getTime());
+      double now = m_timebase->getTime();
+      rcvr->update(now);
+
+      if (m_earlyWakeup.exchange(false)) {
+        double next = m_timebase->getNextWakeup();
+        if (now < next) {
+          // Alarm went off too early. Hit the snooze button.
+          debugMsg("TimeLookupHandler:lookupNow", " early wakeup, resetting");
+          m_timebase->setTimer(next);
+        }
+      }
+    }
+
+    //! \brief Note that the timer went off before its deadline.
+    //! \note Called by the wakeup function. The timer is only ever set by the Exec's thread,
+    //!       lest an old deadline replace a new one.
+    void noteEarlyWakeup()
+    {
+      m_earlyWakeup = true;
     }
 
     //! \brief setThresholds() is called when the PLEXIL Exec activates
@@ -107,6 +127,7 @@ namespace PLEXIL
     //
 
     Timebase *m_timebase;
+    std::atomic<bool> m_earlyWakeup; //!< True if the timer may have to be set again.
   };
 
   //! \class TimeAdapter
@@ -136,8 +157,8 @@ namespace PLEXIL
       // Construct Timebase
       pugi::xml_node const tb_xml = getXml().child(InterfaceSchema::TIMEBASE_TAG);
       m_timebase.reset(makeTimebase(tb_xml, [this]() -> void { timeout(this); }));
-      config->registerLookupHandler(std::make_shared<TimeLookupHandler>(m_timebase.get()),
-                                    "time");
+      m_handler = std::make_shared<TimeLookupHandler>(m_timebase.get());
+      config->registerLookupHandler(m_handler, "time");
       return true;
     }
 
@@ -191,9 +212,9 @@ namespace PLEXIL
       // Check if timer went off too soon.
       double next = tb->getNextWakeup();
       if (next && now < next) {
-        // Alarm went off too early. Hit the snooze button.
-        debugMsg("TimeAdapter:timeout", " early wakeup, resetting");
-        tb->setTimer(next); // possibility of reentrant call to this function
+        // Alarm went off too early. Have the Exec reset it.
+        debugMsg("TimeAdapter:timeout", " early wakeup");
+        adpt->m_handler->noteEarlyWakeup();
       }
 
       // Notify in any case
@@ -205,6 +226,7 @@ namespace PLEXIL
     //
 
     std::unique_ptr<Timebase> m_timebase;
+    std::shared_ptr<TimeLookupHandler> m_handler;
   };
 
 } // namespace PLEXIL
diff --git a/src/app-framework/Timebase.hh b/src/app-framework/Timebase.hh
index 249bdb1..d8a3d78 100644
--- a/src/app-framework/Timebase.hh
+++ b/src/app-framework/Timebase.hh
@@ -26,6 +26,7 @@
 #ifndef PLEXIL_TIMEBASE_HH
 #define PLEXIL_TIMEBASE_HH
 
+#include <atomic>
 #include <cstdint>
 #include <functional>
 #include <memory>
@@ -144,7 +145,7 @@ namespace PLEXIL
     // Shared member variables
     //
 
-    double    m_nextWakeup;     //!< The time of the next scheduled deadline wakeup, in seconds since the epoch.
+    std::atomic<double> m_nextWakeup; //!< The time of the next scheduled deadline wakeup, in seconds since the epoch. May be read by the wakeup function.
     WakeupFn  m_wakeupFn;       //!< The wakeup function.
     uint32_t  m_interval_usec;  //!< Repeat interval in microseconds.
     bool      m_started;        //!< true if the start() method has been called, false otherwise.
-- 
2.43.0


From d5b8ac47a6324df1898b512a7318c8b2d11b0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 054/116] fix: deleting an application crashed while a lookup
 with a tolerance was active

---
 src/intfc/StateCacheEntry.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index 9dcde6f..feca010 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -133,7 +133,8 @@ namespace PLEXIL
         if (m_lowThreshold || m_highThreshold) {
           m_lowThreshold.reset();
           m_highThreshold.reset();
-          g_dispatcher->clearThresholds(state);
+          if (g_dispatcher) // may be null when deleting the application
+            g_dispatcher->clearThresholds(state);
         }
       }
       else if (m_lowThreshold || m_highThreshold) {
@@ -464,13 +465,15 @@ namespace PLEXIL
         }
         m_lowThreshold->update(timestamp, ilo);
         m_highThreshold->update(timestamp, ihi);
-        g_dispatcher->setThresholds(state, ihi, ilo);
+        if (g_dispatcher) // may be null when deleting the application
+          g_dispatcher->setThresholds(state, ihi, ilo);
       }
       else if (m_lowThreshold) {
         // Had thresholds, but they're no longer in effect
         m_lowThreshold->setUnknown(timestamp);
         m_highThreshold->setUnknown(timestamp);
-        g_dispatcher->clearThresholds(state);
+        if (g_dispatcher) // may be null when deleting the application
+          g_dispatcher->clearThresholds(state);
       }
       return hasThresholds;
     }
@@ -510,13 +513,15 @@ namespace PLEXIL
         }
         m_lowThreshold->update(timestamp, rlo);
         m_highThreshold->update(timestamp, rhi);
-        g_dispatcher->setThresholds(state, rhi, rlo);
+        if (g_dispatcher) // may be null when deleting the application
+          g_dispatcher->setThresholds(state, rhi, rlo);
       }
       else if (m_lowThreshold) {
         // Had thresholds, but they're no longer in effect
         m_lowThreshold->setUnknown(timestamp);
         m_highThreshold->setUnknown(timestamp);
-        g_dispatcher->clearThresholds(state);
+        if (g_dispatcher) // may be null when deleting the application
+          g_dispatcher->clearThresholds(state);
       }
       return hasThresholds;
     }
-- 
2.43.0


From 1e2f4ed3f43e5b3998e777acd760c2b6bce4cba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:00 +0000
Subject: [PATCH 055/116] fix: a lookup with a constant name or argument that
 is UNKNOWN aborted the process

---
 src/intfc/Lookup.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 3466c5e..d897bfb 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -142,13 +142,10 @@ namespace PLEXIL
           m_stateIsConstant = false;
       }
     
-      // If all expressions are constants, cache state now
-      if (m_stateIsConstant) {
-        checkPlanError(getState(m_cachedState),
-                       "Error in Lookup: State is constant "
-                       "but state name or some parameter is unknown");
-        m_stateKnown = true;
-      }
+      // If all expressions are constants, cache state now.
+      // If the name or a parameter is UNKNOWN, so is the value, always.
+      if (m_stateIsConstant)
+        m_stateKnown = getState(m_cachedState);
     }
 
     //! \brief Virtual destructor.
-- 
2.43.0


From b1f77cfad6a01e7851f5b0be1ac0d3049388bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:00 +0000
Subject: [PATCH 056/116] fix: a variable declaration in place of an expression
 aborted the process

---
 src/xml-parser/createExpression.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/xml-parser/createExpression.cc b/src/xml-parser/createExpression.cc
index 239d139..f95ad38 100644
--- a/src/xml-parser/createExpression.cc
+++ b/src/xml-parser/createExpression.cc
@@ -91,6 +91,19 @@ namespace PLEXIL
                                      "Node \"" << nodeId
                                      << "\": Unknown expression \"" << name << "\".");
 
+    // Declarations share the expression factories, but have no business in expressions.
+    // A document's root element may be a declaration, for unit testing.
+    if (!strcmp(DECL_VAR_TAG, name) || !strcmp(DECL_ARRAY_TAG, name)) {
+      xml_node const parent = expr.parent();
+      checkParserExceptionWithLocation(parent.type() != pugi::node_element
+                                       || testTag(VAR_DECLS_TAG, parent)
+                                       || testTag(IN_TAG, parent)
+                                       || testTag(INOUT_TAG, parent),
+                                       expr,
+                                       "Node \"" << nodeId
+                                       << "\": " << name << " is not an expression");
+    }
+
     return entry->factory->check(nodeId, expr, desiredType);
   }
 
-- 
2.43.0


From d9780921f56f895f7a712fcb70710b57a1ef9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:00 +0000
Subject: [PATCH 057/116] fix: the expressions aliased to library parameters
 were not checked, malformed ones aborted the process

---
 src/xml-parser/parseLibraryCall.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 629cc5c..85647a2 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -84,6 +84,12 @@ namespace PLEXIL
                                      "Alias for \"" << name
                                      << "\" has malformed value expression in LibraryNodeCall node " 
                                      << callerId);
+    checkExpression(callerId.c_str(), temp); // for effect
+    checkParserExceptionWithLocation(!temp.next_sibling(),
+                                     temp.next_sibling(),
+                                     "Alias for \"" << name
+                                     << "\" has more than one value expression in LibraryNodeCall node "
+                                     << callerId);
   }
 
   void checkLibraryCall(char const *callerId, xml_node const callXml)
-- 
2.43.0


From 339eb9a321eeaf0ded8f66d9b70ab219eea04ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 058/116] fix: DIV was accepted with one, three or more
 operands, and then aborted the process

---
 src/xml-parser/ExpressionMap.gperf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/ExpressionMap.gperf b/src/xml-parser/ExpressionMap.gperf
index 79245eb..6d6df25 100644
--- a/src/xml-parser/ExpressionMap.gperf
+++ b/src/xml-parser/ExpressionMap.gperf
@@ -51,7 +51,7 @@ BooleanValue, REGISTER_EXPRESSION(BooleanConstant, BooleanValue)
 BooleanVariable, makeVariableReferenceFactory("BooleanVariable", BOOLEAN_TYPE)
 CEIL, REGISTER_ARITHMETIC_CONVERSION_OPERATION(CEIL, Ceiling)
 Concat, REGISTER_CACHED_SIMPLE_OPERATION(Concat, StringConcat, STRING_TYPE, STRING_TYPE)
-DIV, REGISTER_ARITHMETIC_OPERATION(DIV, Division)
+DIV, REGISTER_TWO_ARG_ARITHMETIC_OPERATION(DIV, Division)
 DeclareArray, REGISTER_EXPRESSION(ArrayVariable, DeclareArray)
 DeclareVariable, makeUserVariableFactory("DeclareVariable")
 EQArray, REGISTER_EQUALITY_OPERATION(EQArray, Equal)
-- 
2.43.0


From af66a02b4c355e0424a691278c2b2153bad669ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 059/116] fix: comparing a node state, outcome, failure or
 command handle with a lookup was accepted, and then aborted the process

---
 src/xml-parser/Operations.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index b4c91bb..cada3e8 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -528,6 +528,10 @@ namespace PLEXIL
     if (typeA == typeB)
       return true;
 
+    // Internal types (node states etc.) can only be compared to their own kind
+    if (isInternalType(typeA) || isInternalType(typeB))
+      return false;
+
     // Punt if either type unknown
     if (typeA == UNKNOWN_TYPE || typeB == UNKNOWN_TYPE)
       return true;
-- 
2.43.0


From d885ddcd1845c8a41c8912d3fb6b74d61bcd5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:00 +0000
Subject: [PATCH 060/116] fix: array elements and array variables used with the
 wrong type were accepted, and then aborted the process

---
 src/xml-parser/ArrayReferenceFactory.cc         | 17 +++++++++++++----
 src/xml-parser/ArrayVariableReferenceFactory.cc | 10 ++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/xml-parser/ArrayReferenceFactory.cc b/src/xml-parser/ArrayReferenceFactory.cc
index b0b7fbe..a58759b 100644
--- a/src/xml-parser/ArrayReferenceFactory.cc
+++ b/src/xml-parser/ArrayReferenceFactory.cc
@@ -123,8 +123,14 @@ namespace PLEXIL
     }
     else {
       // Array-valued expression
-      checkExpression(nodeId, arrayXml);
-      // TODO: get array type if possible
+      ValueType const arrayExprType = checkExpression(nodeId, arrayXml);
+      checkParserExceptionWithLocation(isArrayType(arrayExprType)
+                                       || arrayExprType == UNKNOWN_TYPE,
+                                       arrayXml,
+                                       "Node \"" << nodeId
+                                       << "\": Array expression in ArrayElement is not an array");
+      if (isArrayType(arrayExprType))
+        result = arrayElementType(arrayExprType);
     }
 
     xml_node indexXml = arrayXml.next_sibling();
@@ -139,8 +145,11 @@ namespace PLEXIL
                                      "Node \"" << nodeId
                                      << "\": ArrayElement Index expression is not an element");
     // Check index
-    // TODO: check index is an Integer
-    checkExpression(nodeId, indexXml);
+    ValueType const indexType = checkExpression(nodeId, indexXml);
+    checkParserExceptionWithLocation(indexType == INTEGER_TYPE || indexType == UNKNOWN_TYPE,
+                                     indexXml,
+                                     "Node \"" << nodeId
+                                     << "\": ArrayElement Index is not an Integer expression");
 
     // Return element type of array
     return result;
diff --git a/src/xml-parser/ArrayVariableReferenceFactory.cc b/src/xml-parser/ArrayVariableReferenceFactory.cc
index 6d7537e..a08ec54 100644
--- a/src/xml-parser/ArrayVariableReferenceFactory.cc
+++ b/src/xml-parser/ArrayVariableReferenceFactory.cc
@@ -30,7 +30,9 @@
 #include "Expression.hh"
 #include "ExpressionFactory.hh"
 #include "NodeConnector.hh"
+#include "findDeclarations.hh"
 #include "parser-utils.hh"
+#include "PlexilSchema.hh"
 
 #include "pugixml.hpp"
 
@@ -56,8 +58,12 @@ namespace PLEXIL
                                        "Node \"" << nodeId
                                        << "\": Empty or malformed " << expr.name() << " element");
 
-      // TODO: determine type from context
-      return UNKNOWN_TYPE;
+      pugi::xml_node const decl = findArrayDeclaration(expr, varName);
+      checkParserExceptionWithLocation(decl,
+                                       expr,
+                                       "Node \"" << nodeId
+                                       << "\": No array named \"" << varName << '"');
+      return arrayType(parseValueType(decl.child_value(TYPE_TAG)));
     }
 
     Expression *allocate(pugi::xml_node const expr,
-- 
2.43.0


From 86704264f691577b6a595463dd3fd008d18d8abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:00 +0000
Subject: [PATCH 061/116] fix: array and mutex declarations with an initial
 value that cannot be used aborted the process

---
 src/xml-parser/ArrayVariableFactory.cc |  7 ++--
 src/xml-parser/parseNode.cc            | 48 ++++++++++++--------------
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/xml-parser/ArrayVariableFactory.cc b/src/xml-parser/ArrayVariableFactory.cc
index 14edd5c..cc38f65 100644
--- a/src/xml-parser/ArrayVariableFactory.cc
+++ b/src/xml-parser/ArrayVariableFactory.cc
@@ -184,10 +184,9 @@ namespace PLEXIL
     bool sizeIsGarbage = false;
     temp = temp.next_sibling();
     if (testTag(MAX_SIZE_TAG, temp)) {
-      char const *sizeStr = temp.child_value();
-      char *end;
-      long size = strtol(sizeStr, &end, 10);
-      sizeExp = new Constant<int32_t>((int32_t) size);
+      Integer size = 0;
+      parseValue<Integer>(temp.child_value(), size); // syntax was checked in first pass
+      sizeExp = new Constant<Integer>(size);
       sizeIsGarbage = true;
     }
 
diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 77c23dc..54db682 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -166,6 +166,12 @@ namespace PLEXIL
                                      decl,
                                      "Malformed or empty " << decl.name()
                                      << " in node " << nodeId);
+    // Nothing else belongs here
+    for (xml_node elt : decl.children())
+      checkParserExceptionWithLocation(testTag(NAME_TAG, elt),
+                                       elt,
+                                       "Illegal element " << elt.name()
+                                       << " in " << decl.name() << " in node " << nodeId);
   }
 
   static void checkVariableDeclarations(char const *nodeId, xml_node const decls)
@@ -1007,7 +1013,8 @@ namespace PLEXIL
     Expression *init = createExpression(initXml, node, garbage);
     ValueType initType = init->valueType();
     if (isArrayType(varType)) {
-      int sizeSpec = decl.child(MAX_SIZE_TAG).text().as_int(-1);
+      Integer sizeSpec = -1;
+      parseValue<Integer>(decl.child_value(MAX_SIZE_TAG), sizeSpec);
       if (isArrayType(init->valueType())) {
         // Is array, is it constant?
         if (init->isConstant()) {
@@ -1028,37 +1035,28 @@ namespace PLEXIL
         }
         // else is a variable, must defer max size check to activation time
       }
-      else if (areTypesCompatible(arrayElementType(varType),
-                                  init->valueType())) {
-        // Initializer is scalar literal
-        checkParserExceptionWithLocation(sizeSpec >= 0,
-                                         decl,
-                                         "Node " << node->getNodeId()
-                                         << ", array variable \"" << varName 
-                                         << "\": Scalar initial value requires "
-                                         << MAX_SIZE_TAG);
-      }
-      else {
+      if (initType != varType && initType != UNKNOWN_TYPE) {
+        // Neither scalar initializers nor element type conversions
+        // are implemented; see ArrayVariable::setInitializer().
         if (garbage)
           delete init;
-
-        // Should have been caught in ArrayVariableFactory::check()
-        errorMsg("parseVariableInitializer: internal error: \n Node "
-                 << node->getNodeId() << ", array variable \"" << varName 
-                 << "\": Invalid " << INITIALVAL_TAG
-                 << " for array variable");
+        reportParserExceptionWithLocation(decl,
+                                          "Node " << node->getNodeId()
+                                          << ", array variable \"" << varName
+                                          << "\": Invalid " << INITIALVAL_TAG
+                                          << " type " << valueTypeName(initType)
+                                          << " for " << valueTypeName(varType));
       }
     }
     else if (!areTypesCompatible(varType, initType)) {
       if (garbage)
         delete init;
-
-      // Should have been caught in UserVariableFactory::check()
-      errorMsg("parseVariableInitializer: internal error: \n Node "
-               << node->getNodeId() << ", variable \"" << varName 
-               << "\": Initialization type mismatch.\n"
-               << " Variable type is " << valueTypeName(varType)
-               << ", initializer is " << valueTypeName(initType));
+      reportParserExceptionWithLocation(decl,
+                                        "Node " << node->getNodeId()
+                                        << ", variable \"" << varName
+                                        << "\": Initialization type mismatch.\n"
+                                        << " Variable type is " << valueTypeName(varType)
+                                        << ", initializer is " << valueTypeName(initType));
     }
 
     return init;
-- 
2.43.0


From 25275a70ef106473f47afc24d2448cc184019051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:23 +0000
Subject: [PATCH 062/116] fix: deleting a plan crashed when a condition of a
 node tested the children of its child

---
 src/exec/ListNode.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exec/ListNode.cc b/src/exec/ListNode.cc
index 18629d6..15f521f 100644
--- a/src/exec/ListNode.cc
+++ b/src/exec/ListNode.cc
@@ -361,6 +361,12 @@ namespace PLEXIL
 
     debugMsg("ListNode:cleanUpNodeBody", " for " << m_nodeId);
 
+    // Clean up the bodies of all children before deleting any of them.
+    // This node's own conditions may refer to grandchildren, so this cannot
+    // be done until those conditions have been cleaned up.
+    for (NodeImplPtr &child : m_children)
+      child->cleanUpNodeBody();
+
     // Delete children
     for (NodeImplPtr &child : m_children)
       delete (Node*) child.release();
@@ -373,8 +379,6 @@ namespace PLEXIL
     debugMsg("ListNode:cleanUpChildConditions", " for " << m_nodeId);
     for (NodeImplPtr &child : m_children)
       child->cleanUpConditions();
-    for (NodeImplPtr &child : m_children)
-      child->cleanUpNodeBody();
   }
 
   NodeImpl const *ListNode::findChild(char const *childName) const
-- 
2.43.0


From 25da1ca0fc7d73b3c02e9c2d341915d42cbe8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:25 +0000
Subject: [PATCH 063/116] fix: rejecting a library used its name after freeing
 it, and loading the same library document twice freed it

---
 src/xml-parser/planLibrary.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/xml-parser/planLibrary.cc b/src/xml-parser/planLibrary.cc
index 4fd25a5..8c9404c 100644
--- a/src/xml-parser/planLibrary.cc
+++ b/src/xml-parser/planLibrary.cc
@@ -151,12 +151,12 @@ namespace PLEXIL
   {
     // Check if already loaded
     xml_node const plan = doc->document_element();
-    char const *nodeId = plan.child(NODE_TAG).child_value(NODEID_TAG);
-    Library *l = findLibraryNode(nodeId);
+    // Must be copied, document is deleted on error
+    string const nodeId = plan.child(NODE_TAG).child_value(NODEID_TAG);
+    Library *l = findLibraryNode(nodeId.c_str());
 
-    if (l && plan == l->doc->document_element()) {
-      // Same plan, no need to go any further
-      delete doc;
+    if (l && doc == l->doc) {
+      // Same document, which we already own; no need to go any further
       return l;
     }
 
@@ -192,9 +192,8 @@ namespace PLEXIL
         sl_inited = true;
       }
       
-      std::string nodeStr = nodeId;
-      s_libraryMap[nodeStr] = Library(doc, symtab);
-      return &s_libraryMap[nodeStr];
+      s_libraryMap[nodeId] = Library(doc, symtab);
+      return &s_libraryMap[nodeId];
     }
   }
 
-- 
2.43.0


From f752925f96e8a39c5f4f74a9cb19acb827fb6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 064/116] fix: a declared command could be called without its
 arguments

---
 src/xml-parser/commandXmlParser.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index bd51465..b9ac34b 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -383,21 +383,21 @@ namespace PLEXIL
 
     // Optional arguments
     temp = temp.next_sibling();
+    size_t n = 0;
+    xml_node arg;
+    for (arg = temp.first_child(); arg; arg = arg.next_sibling())
+      ++n;
+    if (cmdSym) {
+      // Check argument count against command declaration
+      checkParserExceptionWithLocation(n == cmdSym->parameterCount()
+                                       || (cmdSym->anyParameters() && n > cmdSym->parameterCount()),
+                                       (temp ? temp : cmdXml),
+                                       "Command " << cmdSym->name() << " expects "
+                                       << (cmdSym->anyParameters() ? "at least " : "")
+                                       << cmdSym->parameterCount() << " arguments, but was supplied "
+                                       << n);
+    }
     if (temp) {
-      size_t n = 0;
-      xml_node arg;
-      for (arg = temp.first_child(); arg; arg = arg.next_sibling())
-        ++n;
-      if (cmdSym) {
-        // Check argument count against command declaration
-        checkParserExceptionWithLocation(n == cmdSym->parameterCount()
-                                         || (cmdSym->anyParameters() && n > cmdSym->parameterCount()),
-                                         temp,
-                                         "Command " << cmdSym->name() << " expects "
-                                         << (cmdSym->anyParameters() ? "at least " : "")
-                                         << cmdSym->parameterCount() << " arguments, but was supplied "
-                                         << n);
-      }
       if (n) {
         ExprVec *argVec = makeExprVec(n);
         cmd->setArgumentVector(argVec);
-- 
2.43.0


From b7c2a6f5b4c6c9d265ac00b4bc16a9acbe45f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 065/116] fix: the rule against a child with the NodeId of its
 parent was never enforced, nor the kind of a list body

---
 src/xml-parser/parseNode.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 54db682..8246a2e 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -387,7 +387,7 @@ namespace PLEXIL
 
       // Check that parent and child don't have same name
       char const *kidId = kidXml.child_value(NODEID_TAG);
-      checkParserExceptionWithLocation(parentId != kidId,
+      checkParserExceptionWithLocation(strcmp(parentId, kidId),
                                        kidXml,
                                        "List Node " << parentId
                                        << " has a child node with the same NodeId");
@@ -433,6 +433,7 @@ namespace PLEXIL
       return;
 
     case NodeType_NodeList:
+      checkTag(NODELIST_TAG, child);
       checkChildNodes(nodeId, child);
       return;
 
-- 
2.43.0


From 603c47b3b48b37f0b0e49e9ec1e81e18d2a21432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 066/116] fix: a library that calls itself overflowed the stack

---
 src/xml-parser/parseLibraryCall.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 85647a2..7c44d05 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -36,7 +36,9 @@
 
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cstring>
+#include <vector>
 
 using pugi::xml_node;
 using pugi::node_element;
@@ -126,6 +128,9 @@ namespace PLEXIL
     node->allocateAliasMap(estimateAliasSpace(callXml));
   }
 
+  // The library documents being expanded at the moment, outermost first
+  static std::vector<pugi::xml_document const *> s_expanding;
+
   void constructLibraryCall(LibraryCallNode *node, xml_node const callXml)
   {
     assertTrue_1(node);
@@ -140,9 +145,25 @@ namespace PLEXIL
                                      << callXml.first_child().child_value()
                                      << " not found while expanding LibraryNodeCall node "
                                      << node->getNodeId());
+    // A library which calls itself, directly or not, can't be expanded.
+    checkParserExceptionWithLocation(std::find(s_expanding.begin(), s_expanding.end(), l->doc)
+                                     == s_expanding.end(),
+                                     callXml,
+                                     "Library node "
+                                     << callXml.first_child().child_value()
+                                     << " calls itself");
+
     // Construct call
     // Template was checked before it was added to library
-    node->addChild(constructPlan(l->doc->document_element(), l->symtab, node));
+    s_expanding.push_back(l->doc);
+    try {
+      node->addChild(constructPlan(l->doc->document_element(), l->symtab, node));
+    }
+    catch (...) {
+      s_expanding.pop_back();
+      throw;
+    }
+    s_expanding.pop_back();
   }
 
   // Second pass
-- 
2.43.0


From 242441f2be2b74db02e2ce9ffe0ae1add7c8f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:18 +0000
Subject: [PATCH 067/116] fix: nodes inside a library could see variables of
 its caller

---
 src/exec/ListNode.cc | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/exec/ListNode.cc b/src/exec/ListNode.cc
index 15f521f..039a89f 100644
--- a/src/exec/ListNode.cc
+++ b/src/exec/ListNode.cc
@@ -220,15 +220,10 @@ namespace PLEXIL
     if (m_variablesByName)
       return m_variablesByName.get();
 
-    // Search ancestors for first in chain
-    NodeImpl *n = m_parent;
-    NodeVariableMap const *map = nullptr;
-    while (n && !map) {
-      map = n->getVariableMap();
-      if (!map)
-        n = n->m_parent;
-    }
-    return map;
+    // Ask the parent, which may be a library call, and so hide its own.
+    if (m_parent)
+      return m_parent->getChildVariableMap();
+    return nullptr;
   }
 
   // Create the ancestor end, ancestor exit, and ancestor invariant conditions required by children
-- 
2.43.0


From ffb0e7b57a6e69b726e5ed38f86ebb453158721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 068/116] fix: what followed the first element of a node body
 was not checked

---
 src/xml-parser/parseNode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 8246a2e..b3462d1 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -415,6 +415,10 @@ namespace PLEXIL
                                      bodyXml,
                                      "Node \"" << nodeId
                                      << "\" has an empty " << BODY_TAG << " element");
+    checkParserExceptionWithLocation(!child.next_sibling(),
+                                     child.next_sibling(),
+                                     "Node \"" << nodeId
+                                     << "\" has more than one element in " << BODY_TAG);
 
     switch (nodeType) {
     case NodeType_Assignment:
-- 
2.43.0


From dfac6c1b8526cee25f9f01a4921ceae8e3da9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:02 +0000
Subject: [PATCH 069/116] fix: a UDP message could only be sent if its first
 parameter was a String

The handler of the commands named after the configured messages checked for a
leading message name argument, which those commands do not have.
---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 3818609..d1ce8ff 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -241,20 +241,6 @@ namespace PLEXIL
     void executeDefaultCommand(Command *cmd, AdapterExecInterface *intf)
     {
       std::vector<Value> const &args = cmd->getArgValues();
-      if (args.size() == 0) {
-        warn("UdpAdapter:executeDefaultCommand: command requires at least one argument");
-        intf->handleCommandAck(cmd, COMMAND_FAILED);
-        intf->notifyOfExternalEvent();
-        return;
-      }
-      
-      if (args[0].valueType() != STRING_TYPE) {
-        warn("UdpAdapter:executeDefaultCommand: message name must be a string");
-        intf->handleCommandAck(cmd, COMMAND_FAILED);
-        intf->notifyOfExternalEvent();
-        return;
-      }
-      
       std::string const &msgName = cmd->getName();
       debugMsg("UdpAdapter:executeDefaultCommand",
                " called for \"" << msgName << "\" with " << args.size() << " args");
-- 
2.43.0


From a1bb850ad55a0e33ef65fc7472bda58ddf9c43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 070/116] fix: a UDP message that could not be sent was
 acknowledged as sent

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index d1ce8ff..5849b37 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -273,6 +273,12 @@ namespace PLEXIL
                " sendUdpMessage returned " << status << " (bytes sent)");
       // Clean up some (one hopes)
       delete[] udp_buffer;
+      if (status != length) {
+        warn("executeDefaultCommand: sending " << msgName << " message failed");
+        intf->handleCommandAck(cmd, COMMAND_FAILED);
+        intf->notifyOfExternalEvent();
+        return;
+      }
       // Do the internal Plexil Boiler Plate (as per example in IpcAdapter.cc)
       intf->handleCommandAck(cmd, COMMAND_SUCCESS);
       intf->notifyOfExternalEvent();
-- 
2.43.0


From 3c694355305b8e074aa1a6c4cea52301f9e7d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 071/116] fix: a socket was leaked when a UDP message could not
 be connected to its peer

---
 src/interfaces/UdpAdapter/udp-utils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interfaces/UdpAdapter/udp-utils.cc b/src/interfaces/UdpAdapter/udp-utils.cc
index 505765b..ef77b86 100644
--- a/src/interfaces/UdpAdapter/udp-utils.cc
+++ b/src/interfaces/UdpAdapter/udp-utils.cc
@@ -221,6 +221,7 @@ namespace PLEXIL
     int connect_err = connect(sock, (struct sockaddr *)&peer_addr, sizeof(peer_addr));
     if (connect_err < 0) {
       perror("connect() returned -1");
+      close(sock);
       return -1;
     }
 
-- 
2.43.0


From cd30996f8526dae6468a4be68cfc05b5173960c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 072/116] fix: a UDP datagram shorter than its message was
 completed from uninitialized or stale memory

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 5849b37..4a8ce9a 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -821,6 +821,11 @@ namespace PLEXIL
       // Handle a UDP message once it has indeed arrived.
       // msgDef is passed in, therefore, we will assume it is good.
       debugMsg("UdpAdapter:handleUdpMessage", " called for " << msgDef.name);
+      if (length < msgDef.len) {
+        warn("UdpAdapter: ignoring incomplete " << msgDef.name << " message; expected "
+             << msgDef.len << " bytes, received " << length);
+        return -1;
+      }
       if (m_debug) {
         std::cout << "  handleUdpMessage: buffer: ";
         print_buffer(buffer, msgDef.len);
-- 
2.43.0


From dcd4d2bf83e23f00bb3912b04a9835ca3f27048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 073/116] fix: UDP messages were lost or misdirected after a
 ReceiveCommand was repeated, failed or aborted

A second ReceiveCommand for a message opened a second socket on its port, which
nobody read.  A failed or aborted ReceiveCommand stayed in the queue, and got
the next message in place of the one that was waiting; and aborting one
ReceiveCommand closed the port under the others.
---
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 18 ++++++++++++++++--
 src/interfaces/UdpAdapter/MessageQueueMap.hh | 10 +++++++++-
 src/interfaces/UdpAdapter/UdpAdapter.cc      | 18 ++++++++++++++++--
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 225b82a..9daf245 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -60,11 +60,25 @@ namespace PLEXIL
   void MessageQueueMap::addRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " for \"" << message << "\"");
     PairingQueue* que = ensureQueue(message);
-    que->m_recipientQueue.push(cmd);
+    que->m_recipientQueue.push_back(cmd);
     updateQueue(que);
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << que->m_name << '"');
   }
 
+  /**
+   * @brief Removes the given recipient from the queue for the given message.
+   * @param message The message the recipient was waiting for
+   * @param cmd The command instance
+   * @return true if other recipients are still waiting for the message, false if not.
+   * @note Always executed from the Exec thread.
+   */
+  bool MessageQueueMap::removeRecipient(const std::string& message, Command *cmd) {
+    debugMsg("MessageQueueMap:removeRecipient", ' ' << this << " for \"" << message << "\"");
+    PairingQueue* que = ensureQueue(message);
+    que->m_recipientQueue.remove(cmd);
+    return !que->m_recipientQueue.empty();
+  }
+
   /**
    * @brief Adds the given message to its queue. If there is a recipient waiting for the message, it is sent immediately.
    * @param message The message string to be added
@@ -159,7 +173,7 @@ namespace PLEXIL
       m_execInterface.handleCommandReturn(rq.front(), mq.front());
       debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name
                << " recipient inactive, ignoring");
-      rq.pop();
+      rq.pop_front();
       mq.pop();
     }
     if (valChanged) {
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.hh b/src/interfaces/UdpAdapter/MessageQueueMap.hh
index d38df4d..7fd5509 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.hh
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.hh
@@ -61,6 +61,14 @@ namespace PLEXIL
      */
     void addRecipient(const std::string &message, Command *cmd);
 
+    /**
+     * @brief Removes the given recipient from the queue for the given message.
+     * @param message The message the recipient was waiting for
+     * @param cmd Pointer to the command which no longer wants the message.
+     * @return true if other recipients are still waiting for the message, false if not.
+     */
+    bool removeRecipient(const std::string &message, Command *cmd);
+
     /**
      * @brief Adds the given message to its queue. If there is a recipient
      * waiting for the message, it is sent immediately.
@@ -103,7 +111,7 @@ namespace PLEXIL
     using MessageQueue = std::queue<Value, std::list<Value>>;
 
     //* @brief Data structure containing the invoking command, for identifying and storing recipients
-    using RecipientQueue = std::queue<Command *, std::list<Command *>>;
+    using RecipientQueue = std::list<Command *>;
 
     //* @brief Data queue structure associating a message string with a queue of recipients and a queue of messages. Only one queue should have items at a time. */
     struct PairingQueue
diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 4a8ce9a..3a6916d 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -57,6 +57,7 @@
 
 #include <memory> // std::unique_ptr, std::make_unique
 #include <mutex>
+#include <set>
 #include <thread>
 
 #include <cerrno>
@@ -229,6 +230,7 @@ namespace PLEXIL
       debugMsg("UdpAdapter:stop", " called");
       // Stop the UDP listener thread
       m_eventLoop->stop();
+      m_listening.clear();
     }
 
   private:
@@ -315,7 +317,6 @@ namespace PLEXIL
 
       debugMsg("UdpAdapter:executeReceiveCommandCommand", " called for " << msgName);
       std::string command = formatMessageName(msgName, RECEIVE_COMMAND_COMMAND);
-      m_messageQueues.addRecipient(command, cmd);
       // Set up the thread on which the message may/will eventually be received
       int status = startUdpMessageReceiver(msgName, cmd);
       if (status) {
@@ -326,6 +327,7 @@ namespace PLEXIL
         debugMsg("UdpAdapter:executeReceiveCommandCommand",
                  " message handler for \"" << command << "\" registered");
         intf->handleCommandAck(cmd, COMMAND_SENT_TO_SYSTEM);
+        m_messageQueues.addRecipient(command, cmd);
       }
       intf->notifyOfExternalEvent();
     }
@@ -558,7 +560,10 @@ namespace PLEXIL
         abortCommand(cmd, intf, false);
         return;
       }
-      m_eventLoop->closeListener(msg.local_port);
+      // unless another command is waiting for the same message
+      if (!m_messageQueues.removeRecipient(formatMessageName(msgName, RECEIVE_COMMAND_COMMAND), cmd)
+          && m_listening.erase(msgName))
+        m_eventLoop->closeListener(msg.local_port);
 
       debugMsg("UdpAdapter:abortCommand", " ReceiveCommand(\"" << msgName << "\") complete");
 
@@ -795,6 +800,13 @@ namespace PLEXIL
         return -1;
       }
 
+      // May already be listening on behalf of an earlier command
+      if (m_listening.count(name)) {
+        debugMsg("UdpAdapter:startUdpMessageReceiver",
+                 " already listening for " << name);
+        return 0;
+      }
+
       // Hand off to the event loop
       if (!m_eventLoop->openListener(msg.local_port,
                                      msg.len,
@@ -809,6 +821,7 @@ namespace PLEXIL
         warn("UdpAdapter:startUdpMessageReceiver: openListener() failed for " << name);
         return -1;
       }
+      m_listening.insert(name);
       debugMsg("UdpAdapter:startUdpMessageReceiver",
                  " " << name << " listener started");
       return 0;
@@ -1342,6 +1355,7 @@ namespace PLEXIL
     // Somewhere to hang the messages, default ports and peers, threads and sockets
     std::string m_default_peer;
     MessageMap m_messages;
+    std::set<std::string> m_listening; // names of messages which have a listener
     MessageQueueMap m_messageQueues;
     unsigned int m_default_local_port;
     unsigned int m_default_peer_port;
-- 
2.43.0


From 5ba1a49401d4ebed06229af695165f88faf17dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 074/116] fix: closing a UDP listener which is not open
 crashed, and opening one twice leaked its socket

---
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index d91d0ef..5c24421 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -199,6 +199,15 @@ namespace PLEXIL
         return false;
       }
 
+      // Only one listener per port
+      {
+        std::lock_guard<std::mutex> guard(m_listenerMutex);
+        if (m_listeners.find(port) != m_listeners.end()) {
+          warn("UdpEventLoop::openListener: already listening on port " << port);
+          return false;
+        }
+      }
+
       // Create a socket and bind it to the port
       int fd = openAndBindUdpSocket(port);
       if (fd < 0) {
@@ -243,6 +252,14 @@ namespace PLEXIL
         return;
       }
 
+      {
+        std::lock_guard<std::mutex> guard(m_listenerMutex);
+        if (m_listeners.find(port) == m_listeners.end()) {
+          debugMsg("UdpEventLoop:closeListener", " port " << port << " not open, ignored");
+          return;
+        }
+      }
+
       if (m_eventThread.joinable()) {
         ControlMsg removeMsg = {OP_REMOVE, port};
         ssize_t nbytes = write(m_pipeFDs[1], &removeMsg, sizeof(ControlMsg));
-- 
2.43.0


From ccd32ab0f5e2fa40ed65da1ef02c553f0ffc0dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 075/116] fix: a stopped UDP event loop could not be started
 again, and stopping it twice closed an unrelated descriptor

---
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index 5c24421..00b6086 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -355,6 +355,10 @@ namespace PLEXIL
       }
       // And forget all the listeners
       m_listeners.clear();
+
+      // The event thread closed its end of the pipe
+      m_pipeFDs[0] = 0;
+      m_pipeFDs[1] = 0;
       debugMsg("UdpEventLoop:stop", " complete");
     }
 
-- 
2.43.0


From 59d6aeba57a40794cae825838c855c9c4233f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 076/116] fix: UDP messages without parameters could be sent
 but not received

---
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index 00b6086..f723f1b 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -575,10 +575,8 @@ namespace PLEXIL
       if (nbytes < 0) {
         warn("UdpEventLoop: recvfrom() failed on port " << listener->port << ": " << strerror(errno));
       }
-      else if (!nbytes) {
-        warn("UdpEventLoop: socket closed unexpectedly on port " << listener->port);
-      }
       else {
+        // N.B. an empty datagram is legal
         (listener->func)(listener->port, listener->buffer.get(), (size_t) nbytes,
                          reinterpret_cast<const struct sockaddr *>(listener->addrBuf.get()),
                          listener->addrSizeBuf);
-- 
2.43.0


From a48d2554ac866ae46ae980e5e3d05007c7c77ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 077/116] fix: the UDP message queues were used by two threads
 without protection

---
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 90 ++++++++++----------
 src/interfaces/UdpAdapter/MessageQueueMap.hh | 18 ++--
 2 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 9daf245..1ef5f41 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -59,10 +59,16 @@ namespace PLEXIL
    */
   void MessageQueueMap::addRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " for \"" << message << "\"");
-    PairingQueue* que = ensureQueue(message);
-    que->m_recipientQueue.push_back(cmd);
-    updateQueue(que);
-    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << que->m_name << '"');
+    bool paired;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* que = ensureQueue(message);
+      que->m_recipientQueue.push_back(cmd);
+      paired = updateQueue(que);
+    }
+    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -74,6 +80,7 @@ namespace PLEXIL
    */
   bool MessageQueueMap::removeRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:removeRecipient", ' ' << this << " for \"" << message << "\"");
+    std::lock_guard<std::mutex> guard(m_mutex);
     PairingQueue* que = ensureQueue(message);
     que->m_recipientQueue.remove(cmd);
     return !que->m_recipientQueue.empty();
@@ -86,13 +93,7 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(Value(message));
-    updateQueue(pq);
-    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << pq->m_name << "\" added");
+    enqueueMessage(message, Value(message));
   }
 
   /**
@@ -104,14 +105,25 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message, const Value& param) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(param);
-    updateQueue(pq);
+    enqueueMessage(message, param);
+  }
+
+  //! @brief Put the value in the named queue, and give it to the first recipient if there is one.
+  void MessageQueueMap::enqueueMessage(const std::string& message, const Value& value) {
+    bool paired;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(value);
+      paired = updateQueue(pq);
+    }
     debugMsg("MessageQueueMap:addMessage",
-             ' ' << this << " Message \"" << pq->m_name << "\" added, value = \"" << param << '"');
+             ' ' << this << " Message \"" << message << "\" added, value = \"" << value << '"');
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -131,55 +143,39 @@ namespace PLEXIL
     m_allowDuplicateMessages = flag;
   }
 
-  //! @brief Get the PairingQueue for this message, if it exists.
-  MessageQueueMap::PairingQueue* MessageQueueMap::getQueue(const std::string& message)
-  {
-    std::lock_guard<std::mutex> guard(m_mutex);
-    QueueMap::iterator it = m_map.find(message);
-    if (m_map.end() != it)
-      return it->second.get();
-    return nullptr;
-  }
-
   //! @brief Get or construct the PairingQueue for this message.
+  //! @note The caller must hold m_mutex.
   MessageQueueMap::PairingQueue * MessageQueueMap::ensureQueue(const std::string& message)
   {
-    PairingQueue* result = nullptr;
-    {
-      std::lock_guard<std::mutex> guard(m_mutex);
-      QueueMap::iterator it = m_map.find(message);
-      if (m_map.end() == it) {
-        it = m_map.emplace(QueueMap::value_type(message,
-                                                std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
-      }
-      return it->second.get();
+    QueueMap::iterator it = m_map.find(message);
+    if (m_map.end() == it) {
+      it = m_map.emplace(QueueMap::value_type(message,
+                                              std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
+      debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
     }
-    debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
-    return result;
+    return it->second.get();
   }
 
   /**
    * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+   * @return true if any message was given to a recipient. In that case the caller must
+   *         notify the Exec, after releasing m_mutex.
+   * @note The caller must hold m_mutex.
    */
-  void MessageQueueMap::updateQueue(PairingQueue* queue)
+  bool MessageQueueMap::updateQueue(PairingQueue* queue)
   {
     debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " entered");
     MessageQueue& mq = queue->m_messageQueue;
     RecipientQueue& rq = queue->m_recipientQueue;
     bool valChanged = !mq.empty() && !rq.empty();
     while (!mq.empty() && !rq.empty()) {
-      debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " returning value");
       debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " returning value");
       m_execInterface.handleCommandReturn(rq.front(), mq.front());
-      debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name
-               << " recipient inactive, ignoring");
       rq.pop_front();
       mq.pop();
     }
-    if (valChanged) {
-      debugMsg("MessageQueueMap:updateQueue", " Message \"" << queue->m_name << "\" paired and sent");
-      m_execInterface.notifyOfExternalEvent();
-    }
+    condDebugMsg(valChanged, "MessageQueueMap:updateQueue", " Message \"" << queue->m_name << "\" paired and sent");
+    return valChanged;
   }
 
 }
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.hh b/src/interfaces/UdpAdapter/MessageQueueMap.hh
index 7fd5509..d1ecb25 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.hh
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.hh
@@ -127,27 +127,31 @@ namespace PLEXIL
       ~PairingQueue() {}
     };
 
-    /**
-     * @brief Private function that returns the queue for the given message, if it exists.
-     */
-    PairingQueue* getQueue(const std::string& message);
-
     /**
      * @brief Private function that returns the queue for the given message. Creates a new queue
      * if one does not already exist.
+     * @note The caller must hold m_mutex.
      */
     PairingQueue* ensureQueue(const std::string& message);
 
     /**
      * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+     * @return true if any message was given to a recipient. In that case the caller must
+     *         notify the Exec, after releasing m_mutex.
+     * @note The caller must hold m_mutex.
+     */
+    bool updateQueue(PairingQueue* queue);
+
+    /**
+     * @brief Puts the value in the named queue, and gives it to the first recipient if there is one.
      */
-    void updateQueue(PairingQueue* queue);
+    void enqueueMessage(const std::string& message, const Value& value);
 
     //* @brief Map holding all message queues
     using QueueMap = std::map<std::string, std::unique_ptr<PairingQueue>>;
     QueueMap m_map;
 
-    //* @brief Semaphore for return values from LookupNow
+    //* @brief Protects the queues, which are used by the Exec thread and by the thread which receives messages
     std::mutex m_mutex;
 
     //* @brief The interface
-- 
2.43.0


From c9cc7c27da8f87f7906ef8a2131e6bb5ecb5f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:54 +0000
Subject: [PATCH 078/116] fix: allPlansFinished() was true before any plan had
 run

---
 src/exec/PlexilExec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index fe8e119..051a226 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -230,8 +230,8 @@ namespace PLEXIL
                  " deleting node " << node->getNodeId() << ' ' << node);
         m_plan.remove_if([node] (NodePtr const &n) -> bool
                          { return node == n.get(); });
+        m_finishedRootNodesDeleted = true;
       }
-      m_finishedRootNodesDeleted = true;
       debugMsg("PlexilExec:deleteFinishedPlans",
                " now " << m_plan.size() << " root nodes");
     }
-- 
2.43.0


From 6ee80f20dc46f5615ed1552c4a2baea1b6f6157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:54 +0000
Subject: [PATCH 079/116] fix: adding an exec listener before the application
 is initialized crashed

---
 src/app-framework/AdapterConfiguration.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/AdapterConfiguration.cc b/src/app-framework/AdapterConfiguration.cc
index 5d00cca..3fc5e70 100644
--- a/src/app-framework/AdapterConfiguration.cc
+++ b/src/app-framework/AdapterConfiguration.cc
@@ -31,6 +31,7 @@
 #include "Command.hh"
 #include "Debug.hh"
 #include "DynamicLoader.h"
+#include "ExecListener.hh"
 #include "ExecListenerHub.hh"
 #include "InterfaceAdapter.hh"
 #include "InterfaceError.hh"
@@ -108,7 +109,9 @@ namespace PLEXIL {
     AdapterConfigurationImpl()
       : m_defaultCommandHandler(std::make_shared<CommandHandler>()),
         m_defaultLookupHandler(std::make_shared<LookupHandler>()),
-        m_plannerUpdateHandler()
+        m_plannerUpdateHandler(),
+        m_manager(nullptr),
+        m_listenerHub(nullptr)
     {
       // Every application has access to the time adapter
       initTimeAdapter();
@@ -194,6 +197,11 @@ namespace PLEXIL {
       m_manager = &intf;
       m_listenerHub = &listenerHub;
 
+      // Hand over the listeners added before there was a hub
+      for (std::unique_ptr<ExecListener> &listener : m_pendingListeners)
+        m_listenerHub->addListener(listener.release());
+      m_pendingListeners.clear();
+
       if (configXml.empty()) {
         debugMsg("AdapterConfiguration:constructInterfaces",
                  " empty configuration, nothing to construct");
@@ -461,7 +469,11 @@ namespace PLEXIL {
     //
     virtual void addExecListener(ExecListener *listener)
     {
-      m_listenerHub->addListener(listener);
+      if (m_listenerHub)
+        m_listenerHub->addListener(listener);
+      else
+        // Added before the application was initialized
+        m_pendingListeners.emplace_back(std::unique_ptr<ExecListener>(listener));
     }
 
     //
@@ -902,6 +914,9 @@ namespace PLEXIL {
     //! Pointer to the ExecListenerHub instance.
     //! @note ExecListenerHub is owned by ExecApplication.
     ExecListenerHub *m_listenerHub;
+
+    //! Listeners added before the ExecListenerHub was known.
+    std::vector<std::unique_ptr<ExecListener>> m_pendingListeners;
   };
 
   AdapterConfiguration *makeAdapterConfiguration()
-- 
2.43.0


From 411e2936eb34f24ed0cdb81658ba836928f31303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:22 +0000
Subject: [PATCH 080/116] fix: an ordering of a String with a lookup of
 undeclared type was rejected when the lookup was the right operand

---
 src/xml-parser/Operations.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index cada3e8..05b043e 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -665,6 +665,12 @@ namespace PLEXIL
       else
         return UNKNOWN_TYPE; // illegal
 
+    case STRING_TYPE:
+      if (typeB == UNKNOWN_TYPE)
+        return STRING_TYPE;
+      else
+        return UNKNOWN_TYPE; // illegal
+
     default:
       return UNKNOWN_TYPE;
     }
-- 
2.43.0


From b982667a82bdbbf98b3c20e843f11c53f0470559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:27 +0000
Subject: [PATCH 081/116] fix: PlanFailureType kept the failure of an earlier
 iteration after a plan ended without one

---
 src/app-framework/Launcher.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/app-framework/Launcher.cc b/src/app-framework/Launcher.cc
index bee1ad5..c17dec5 100644
--- a/src/app-framework/Launcher.cc
+++ b/src/app-framework/Launcher.cc
@@ -101,14 +101,15 @@ namespace PLEXIL
                    ' ' << node->getNodeId() << " outcome " << outcomeName(o));
           m_interface->handleValueChange(State(PLAN_OUTCOME_STATE, nodeIdValue),
                                          Value(outcomeName(o)));
+          // Report the failure type, which is unknown if there is none:
+          // a previous iteration may have had one.
           FailureType f = node->getFailureType();
-          if (f != NO_FAILURE) {
-            // Report the failure type
-            debugMsg("LauncherListener:notify",
-                     ' ' << node->getNodeId() << " failure " << failureTypeName(f));
-            m_interface->handleValueChange(State(PLAN_FAILURE_TYPE_STATE, nodeIdValue),
-                                           Value(failureTypeName(f)));
-          }
+          debugMsg("LauncherListener:notify",
+                   ' ' << node->getNodeId() << " failure " << failureTypeName(f));
+          m_interface->handleValueChange(State(PLAN_FAILURE_TYPE_STATE, nodeIdValue),
+                                         f == NO_FAILURE
+                                         ? Value()
+                                         : Value(failureTypeName(f)));
         }
 
         // Be sure to wake the exec
-- 
2.43.0


From b324488ce0b0e01c161c3d5d51bf18527c943aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 082/116] fix: an empty array value was refused as a library
 call alias

---
 src/xml-parser/parseLibraryCall.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 7c44d05..95b0c87 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -79,9 +79,11 @@ namespace PLEXIL
                                      "Alias for \"" << name
                                      << "\" without value expression in LibraryNodeCall node "
                                      << callerId);
-    // Don't need to have a child if it is of string type, otherwise do
+    // Don't need to have a child if it is of string or array type, otherwise do
     checkParserExceptionWithLocation(temp.type() == node_element &&
-                                     (temp.first_child() || !strcmp(temp.name(), "StringValue")),
+                                     (temp.first_child()
+                                      || testTag(STRING_VAL_TAG, temp)
+                                      || testTag(ARRAY_VAL_TAG, temp)),
                                      temp,
                                      "Alias for \"" << name
                                      << "\" has malformed value expression in LibraryNodeCall node " 
-- 
2.43.0


From a288e57deb459c2e8fa7c8e70e8c334a3407a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 083/116] fix: the Launcher rounded Real parameters and could
 not pass arrays

---
 src/app-framework/Launcher.cc | 50 ++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/app-framework/Launcher.cc b/src/app-framework/Launcher.cc
index c17dec5..88382bf 100644
--- a/src/app-framework/Launcher.cc
+++ b/src/app-framework/Launcher.cc
@@ -27,7 +27,7 @@
 #include "AdapterConfiguration.hh"
 #include "AdapterExecInterface.hh"
 #include "AdapterFactory.hh"
-#include "Array.hh"
+#include "ArrayImpl.hh"
 #include "Command.hh"
 #include "CommandHandler.hh"
 #include "Configuration.hh"
@@ -43,6 +43,9 @@
 #include "State.hh"
 
 #include <algorithm> // std::find_if()
+#include <iomanip>   // std::setprecision()
+#include <limits>
+#include <sstream>
 
 namespace PLEXIL
 {
@@ -129,25 +132,48 @@ namespace PLEXIL
   // Helper functions
   //
 
+  //! Can the value be expressed as a literal in a plan?
+  //! Every known value can, except an array of strings with unknown elements.
+  static bool hasLiteral(Value const &v)
+  {
+    if (v.valueType() != STRING_ARRAY_TYPE)
+      return v.isKnown();
+    StringArray const *ary = nullptr;
+    return v.getValuePointer(ary) && ary->allElementsKnown();
+  }
+
+  //! The text of the literal for a scalar value.
+  static std::string scalarLiteralText(Value const &v)
+  {
+    if (!v.isKnown())
+      return UNKNOWN_STR; // only possible for array elements
+    Real r;
+    if (v.valueType() != REAL_TYPE || !v.getValue(r))
+      return v.valueToString();
+
+    // Don't lose any precision
+    std::ostringstream s;
+    s << std::setprecision(std::numeric_limits<Real>::max_digits10) << r;
+    return s.str();
+  }
+
   static void valueToExprXml(pugi::xml_node parent, Value const &v)
   {
     ValueType vt = v.valueType();
     if (isArrayType(vt)) {
+      ValueType eltType = arrayElementType(vt);
       pugi::xml_node aryxml = parent.append_child("ArrayValue");
-      char const *eltType = typeNameAsValue(arrayElementType(vt));
-      aryxml.append_attribute("Type").set_value(eltType);
+      aryxml.append_attribute("Type").set_value(valueTypeName(eltType).c_str());
       Array const *ary;
       v.getValuePointer(ary); // better succeed!
-      for (size_t i = 0; i < ary->size(); ++i) {
-        // quick & dirty
-        aryxml.append_child(eltType).append_child(pugi::node_pcdata)
-          .set_value(ary->getElementValue(i).valueToString().c_str());
-      }
+      for (size_t i = 0; i < ary->size(); ++i)
+        aryxml.append_child(typeNameAsValue(eltType)).append_child(pugi::node_pcdata)
+          .set_value(scalarLiteralText(ary->getElementValue(i)).c_str());
     }
     else {
       // Scalar value
       parent.append_child(typeNameAsValue(vt)).append_child(pugi::node_pcdata)
-        .set_value(v.valueToString().c_str());
+        .set_value(scalarLiteralText(v).c_str());
     }
   }
 
@@ -253,8 +279,8 @@ namespace PLEXIL
       }
       formals.push_back(*formal);
 
-      if (!args[i + 1].isKnown()) {
-        warn("Launcher: StartPlan command argument " << i + 1 << " is UNKNOWN");
+      if (!hasLiteral(args[i + 1])) {
+        warn("Launcher: StartPlan command argument " << i + 1 << " is UNKNOWN, or has UNKNOWN elements");
         intf->handleCommandAck(cmd, COMMAND_FAILED);
         intf->notifyOfExternalEvent();
         return;
@@ -285,7 +311,7 @@ namespace PLEXIL
                ' ' << *nodeName << ": successfully added wrapper plan " << callerId)
     }
     catch (ParserException &e) {
-      warn("Launching plan " << nodeName << " failed:\n"
+      warn("Launching plan " << *nodeName << " failed:\n"
            << e.what());
       intf->handleCommandAck(cmd, COMMAND_FAILED);
       intf->notifyOfExternalEvent();
-- 
2.43.0


From 8aa86a1a28cfb6481a8e51b4d677525f46a746e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:03 +0000
Subject: [PATCH 084/116] fix: GetMessageHandle returned an empty handle and
 lost the message

---
 src/app-framework/MessageAdapter.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index a986f28..5bd3923 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -41,6 +41,7 @@
 #include "Timebase.hh"
 
 #include <queue>
+#include <string>
 
 namespace PLEXIL
 {
@@ -128,8 +129,7 @@ namespace PLEXIL
       }
       else {
         // Generate a handle
-        std::string handle;
-        // TODO - generate UID?
+        std::string const handle = makeMessageHandle();
         intf->notifyMessageAccepted(m_queue.front(), handle);
         m_queue.pop();
         intf->handleCommandReturn(cmd, Value(handle));
@@ -180,6 +180,13 @@ namespace PLEXIL
 
   private:
 
+    //! Construct a unique handle for a message.
+    static std::string makeMessageHandle()
+    {
+      static unsigned long sl_next = 0;
+      return "Message_" + std::to_string(++sl_next);
+    }
+
     //
     // Command handlers
     //
-- 
2.43.0


From ce9b3b94e96af4350d5b26ffdcd33c6bf40d5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:16 +0000
Subject: [PATCH 085/116] fix: message commands with wrong arguments were
 executed, and acknowledged twice or crashed

---
 src/app-framework/MessageAdapter.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index 5bd3923..06e8e15 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -208,17 +208,20 @@ namespace PLEXIL
           warn("ReleaseMessageHandle command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("ReleaseMessageHandle command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // do nothing, but report success
           intf->handleCommandAck(cmd, COMMAND_SUCCESS);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // All good? Hand it off for implementation.
@@ -236,18 +239,21 @@ namespace PLEXIL
           warn("PublishMessage command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("PublishMessage command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("PublishMessage command: first argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
@@ -258,37 +264,41 @@ namespace PLEXIL
       [this] (Command *cmd, AdapterExecInterface *intf) -> void
       {
         // Check that there are at least two parameters and that they are strings
-        // Check that there is at least one parameter and that it is a string
         State const &command = cmd->getCommand();
-        if (command.parameterCount() < 1) {
+        if (command.parameterCount() < 2) {
           // report arg-count error
           warn("SendMessage command requires at least two arguments");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: first argument, recipient, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: first argument, recipient, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(1) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: second argument, message, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(1).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: second argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
-- 
2.43.0


From e593f45966e2344499c67bf448b77f8e5b38e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:32 +0000
Subject: [PATCH 086/116] fix: releasing a message handle kept its values if a
 lookup was reading its parameter count

---
 src/intfc/StateCache.cc | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/intfc/StateCache.cc b/src/intfc/StateCache.cc
index d0c8780..aea676d 100644
--- a/src/intfc/StateCache.cc
+++ b/src/intfc/StateCache.cc
@@ -183,26 +183,19 @@ namespace PLEXIL
         return; // not there, therefore already deleted or never existed
 
       Integer count;
-      if (!iter->second->cachedValue()->getValue(count)) {
-        // warn of internal error (NYI)
-        return;
-      }
-      
-      if (iter->second->hasRegisteredLookups()) {
-        // BIG OOPS - can't delete these w/o leaving dangling pointers
-        // warn (NYI)
-        return;
-      }
+      CachedValue const *countValue = iter->second->cachedValue();
+      if (!countValue || !countValue->getValue(count))
+        return; // no message has this handle, or it was already released
 
-      m_map.erase(iter);
       for (Integer i = 0; i < count; ++i) {
-        deleteStateCacheEntry(State("MessageParameter",
-                                    handleValue,
-                                    Value(i)));
+        clearStateCacheEntry(State("MessageParameter",
+                                   handleValue,
+                                   Value(i)));
       }
-      deleteStateCacheEntry(State("MessageText", handleValue));
-      deleteStateCacheEntry(State("MessageSender", handleValue));
-      deleteStateCacheEntry(State("MessageArrived", handleValue));
+      clearStateCacheEntry(State("MessageParameterCount", handleValue));
+      clearStateCacheEntry(State("MessageText", handleValue));
+      clearStateCacheEntry(State("MessageSender", handleValue));
+      clearStateCacheEntry(State("MessageArrived", handleValue));
     }
 
   private:
@@ -226,15 +219,16 @@ namespace PLEXIL
       return iter->second.get();
     }
 
-    //! \brief Delete the state cache entry for the named state.
+    //! \brief Make the named state unknown, and delete its entry if it is not in use.
     //! \param state Const reference to the state.
-    void deleteStateCacheEntry(State const &state)
+    void clearStateCacheEntry(State const &state)
     {
       EntryMap::iterator iter = m_map.find(state);
       if (iter == m_map.end())
         return; // already deleted or never there
       if (iter->second->hasRegisteredLookups()) {
-        // warn (NYI) and bail out
+        // Deleting the entry would leave the lookups with dangling pointers
+        iter->second->setUnknown();
         return;
       }
       m_map.erase(iter);
-- 
2.43.0


From e21306d4893a754d81edb28393be2d2233857ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 087/116] fix: HaveMessage was unknown until the first message
 was received

---
 src/app-framework/MessageAdapter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index 06e8e15..53653d0 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -93,6 +93,9 @@ namespace PLEXIL
       // Begin accepting incoming messages
       // TODO
 
+      // Unless one was received already, there is no message yet
+      if (m_queue.empty())
+        getInterface().notifyMessageQueueEmpty();
       return true;
     }
 
-- 
2.43.0


From 879d25c68205173c07eeb1c8089710818593ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 088/116] fix: the message queue was used by two threads
 without protection

---
 src/app-framework/MessageAdapter.cc | 61 ++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index 53653d0..ba48239 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -40,6 +40,12 @@
 #include "MessageAdapter.hh"
 #include "Timebase.hh"
 
+#include "plexil-config.h"
+
+#ifdef PLEXIL_WITH_THREADS
+#include <mutex>
+#endif
+
 #include <queue>
 #include <string>
 
@@ -94,6 +100,9 @@ namespace PLEXIL
       // TODO
 
       // Unless one was received already, there is no message yet
+#ifdef PLEXIL_WITH_THREADS
+      std::lock_guard<std::mutex> guard(m_mutex);
+#endif
       if (m_queue.empty())
         getInterface().notifyMessageQueueEmpty();
       return true;
@@ -126,24 +135,27 @@ namespace PLEXIL
     //! Pop the message at the head of the queue and send it to the Exec.
     void acceptMessage(Command *cmd, AdapterExecInterface *intf)
     {
-      if (m_queue.empty()) {
-        // Empty queue -> handle unknown
-        intf->handleCommandReturn(cmd, Value());
-      }
-      else {
-        // Generate a handle
-        std::string const handle = makeMessageHandle();
-        intf->notifyMessageAccepted(m_queue.front(), handle);
-        m_queue.pop();
-        intf->handleCommandReturn(cmd, Value(handle));
-        // Post the new state of the queue.
-        if (m_queue.empty()) {
-          intf->notifyMessageQueueEmpty();
-        } else {
-          intf->notifyMessageReceived(m_queue.front());
+      Value result; // empty queue -> handle unknown
+      {
+#ifdef PLEXIL_WITH_THREADS
+        std::lock_guard<std::mutex> guard(m_mutex);
+#endif
+        if (!m_queue.empty()) {
+          // Generate a handle
+          std::string const handle = makeMessageHandle();
+          intf->notifyMessageAccepted(m_queue.front(), handle);
+          m_queue.pop();
+          result = Value(handle);
+          // Post the new state of the queue.
+          if (m_queue.empty()) {
+            intf->notifyMessageQueueEmpty();
+          } else {
+            intf->notifyMessageReceived(m_queue.front());
+          }
         }
       }
       // In either case, we've done our job
+      intf->handleCommandReturn(cmd, result);
       intf->handleCommandAck(cmd, COMMAND_SUCCESS);
       intf->notifyOfExternalEvent();
     }
@@ -316,14 +328,20 @@ namespace PLEXIL
     void enqueueMessage(State const &state, std::string const &sender, double timestamp)
     {
       // check if started?
-      bool wasEmpty = m_queue.empty();
-      m_queue.push(new Message(state, sender, timestamp));
-      if (wasEmpty) {
+      {
+#ifdef PLEXIL_WITH_THREADS
+        std::lock_guard<std::mutex> guard(m_mutex);
+#endif
+        bool wasEmpty = m_queue.empty();
+        m_queue.push(new Message(state, sender, timestamp));
+        if (!wasEmpty)
+          return;
+
         // Tell the Exec we have a message for them
         // (populates the PeekAtMessage and PeekAtMessageSender lookups)
         getInterface().notifyMessageReceived(m_queue.front());
-        getInterface().notifyOfExternalEvent();
       }
+      getInterface().notifyOfExternalEvent();
     }
     
     //
@@ -333,6 +351,11 @@ namespace PLEXIL
     using MessageQueue = std::queue<Message *>;
 
     MessageQueue m_queue;
+
+#ifdef PLEXIL_WITH_THREADS
+    //! Messages are received and accepted by different threads.
+    std::mutex m_mutex;
+#endif
   }; // class MessageAdapterImpl
 
 } // namespace PLEXIL
-- 
2.43.0


From 65aaac5f7c385e2f648b52d16e2fa470c426d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 089/116] fix: TestExec: scripted Boolean parameters true and
 false, and unknown parameters as plexilscript writes them

---
 src/apps/TestExec/TestExternalInterface.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/apps/TestExec/TestExternalInterface.cc b/src/apps/TestExec/TestExternalInterface.cc
index 48a3dac..d3cd1de 100644
--- a/src/apps/TestExec/TestExternalInterface.cc
+++ b/src/apps/TestExec/TestExternalInterface.cc
@@ -389,7 +389,7 @@ namespace PLEXIL
                "Empty Param child in <" << param.parent().name() << "> element.");
     std::string type(param.attribute("type").value());
     std::string val(param.child_value());
-    if (val == "UNKNOWN") {
+    if (val == "UNKNOWN" || 0 == stricmp(val.c_str(), "Plexil_Unknown")) {
       // Create a typed unknown
       ValueType t = UNKNOWN_TYPE;
       if (type == "int")
@@ -414,12 +414,8 @@ namespace PLEXIL
       str >> value;
       return Value(value);
     }
-    else if (type == "bool") {
-      bool value;
-      std::istringstream str(val);
-      str >> value;
-      return Value(value);
-    }
+    else if (type == "bool")
+      return parseOneValue(type, val); // accepts true/false and 1/0
     // string case
     else if (param.first_child().empty()) {
       return Value("");
-- 
2.43.0


From cf64c9c1cfa4e3647a1f6373879fa412e322b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 090/116] fix: TestExec: arrays with unknown elements in
 scripts

---
 src/apps/TestExec/TestExternalInterface.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/apps/TestExec/TestExternalInterface.cc b/src/apps/TestExec/TestExternalInterface.cc
index d3cd1de..aa6150d 100644
--- a/src/apps/TestExec/TestExternalInterface.cc
+++ b/src/apps/TestExec/TestExternalInterface.cc
@@ -454,7 +454,18 @@ namespace PLEXIL
                              const std::string& valStr)
   {
     // Unknown
-    if (0 == stricmp(valStr.c_str(), "Plexil_Unknown")) return Value();
+    // (typed, so that it can be an element of an array)
+    if (0 == stricmp(valStr.c_str(), "Plexil_Unknown")) {
+      if (type.find("string") == 0)
+        return Value(STRING_TYPE);
+      if (type.find("int") == 0)
+        return Value(INTEGER_TYPE);
+      if (type.find("real") == 0)
+        return Value(REAL_TYPE);
+      if (type.find("bool") == 0)
+        return Value(BOOLEAN_TYPE);
+      return Value();
+    }
 
     // string or string-array
     else if (type.find("string") == 0) {
-- 
2.43.0


From 9617d8b90d54cdf8dd2d7f6f5688c7b6c7ca0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 091/116] fix: TestExec: SendPlan never found the plan in its
 file

---
 src/apps/TestExec/TestExternalInterface.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/apps/TestExec/TestExternalInterface.cc b/src/apps/TestExec/TestExternalInterface.cc
index aa6150d..c439445 100644
--- a/src/apps/TestExec/TestExternalInterface.cc
+++ b/src/apps/TestExec/TestExternalInterface.cc
@@ -43,6 +43,7 @@
 #include "stricmp.h"
 
 #include <limits>
+#include <memory>
 #include <sstream>
 
 #ifdef STDC_HEADERS
@@ -247,17 +248,15 @@ namespace PLEXIL
     checkError(strlen(filename) > 0,
                "SendPlan element has no file attribute");
 
-    pugi::xml_document* doc = new pugi::xml_document();
-    pugi::xml_parse_result parseResult = doc->load_file(filename);
-    assertTrueMsg(parseResult.status == pugi::status_ok, 
-                  "Error parsing plan file " << elt.attribute("file").value()
-                  << ": " << parseResult.description());
+    std::unique_ptr<pugi::xml_document> doc(loadXmlFile(filename));
+    assertTrueMsg(doc, 
+                  "Plan file " << filename << " not found or not readable");
 
     debugMsg("Test:testOutput",
              "Sending plan from file " << elt.attribute("file").value());
     NodeImpl *root = nullptr;
     try {
-      root = parsePlan(doc->document_element().child("PlexilPlan"));
+      root = parsePlan(doc->document_element());
     }
     catch (ParserException const &e) {
       std::cerr << "Error parsing plan XML: \n" << e.what() << std::endl;
-- 
2.43.0


From 46d81707d49b38a77fab54011d520b0feddc4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 092/116] fix: TestExec: malformed plan or script files left
 the document pointer uninitialised

---
 src/apps/TestExec/exec-test-runner.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/apps/TestExec/exec-test-runner.cc b/src/apps/TestExec/exec-test-runner.cc
index efe110c..99a6c43 100644
--- a/src/apps/TestExec/exec-test-runner.cc
+++ b/src/apps/TestExec/exec-test-runner.cc
@@ -355,7 +355,7 @@ int run(int argc, char** argv)
 
   // Load the plan
   {
-    pugi::xml_document *planDoc;
+    pugi::xml_document *planDoc = nullptr;
     try {
       planDoc = loadXmlFile(planName);
       if (!planDoc)
@@ -408,7 +408,7 @@ int run(int argc, char** argv)
 
   // load script
   {
-    pugi::xml_document *scriptDoc;
+    pugi::xml_document *scriptDoc = nullptr;
     try {
       scriptDoc = loadXmlFile(scriptName);
       if (!scriptDoc)
-- 
2.43.0


From 99e26ad73592ad9e197fda4ea637b9cc3f3ae10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:49 +0000
Subject: [PATCH 093/116] fix: universalExec could not run without an interface
 configuration

---
 src/universal-exec/UniversalExec.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/universal-exec/UniversalExec.cc b/src/universal-exec/UniversalExec.cc
index 85e8960..17387ad 100644
--- a/src/universal-exec/UniversalExec.cc
+++ b/src/universal-exec/UniversalExec.cc
@@ -229,13 +229,14 @@ int main_internal(int argc, char** argv)
                 << ":\n " 
                 << parseResult.description()
                 << "\nContinuing without interface configuration" << std::endl;
+      configDoc.reset(); // discard whatever was read
     }
 	debugMsg("UniversalExec", " got configuration XML starting with " << configDoc.document_element().name());
   }
 
   // get Interfaces element
   pugi::xml_node configElt;
-  if (configDoc.empty()) {
+  if (configDoc.document_element().empty()) {
 	// Construct default interface XML
 	configElt = configDoc.append_child(PLEXIL::InterfaceSchema::INTERFACES_TAG);
 	// Add a time adapter
-- 
2.43.0


From 2802e05ff257ef238d8838c8bd27e068510cb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:19 +0000
Subject: [PATCH 094/116] fix: accept a default value for an InOut array
 interface variable

---
 src/xml-parser/parseNode.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index b3462d1..8b22100 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1202,7 +1202,8 @@ namespace PLEXIL
       // Parse and check initial value expression
       bool initGarbage, garbage;
       Expression *initExp = parseVariableInitializer(initGarbage, node, inOutXml, isCall);
-      Expression *var = createAssignable(inOutXml, node, garbage);
+      // createAssignable() would not accept an array declaration
+      Expression *var = createExpression(inOutXml, node, garbage);
       assertTrue_1(garbage); // better be something we can delete!
       if (!node->addLocalVariable(name, var)) {
         delete var;
-- 
2.43.0


From 2492c41ac08e702a6634406623026a5e9dd99474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 095/116] fix: keep simulator responses due at the same time in
 the order they were scheduled

---
 src/apps/StandAloneSimulator/Agenda.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/apps/StandAloneSimulator/Agenda.cc b/src/apps/StandAloneSimulator/Agenda.cc
index 599b497..f0b1e82 100644
--- a/src/apps/StandAloneSimulator/Agenda.cc
+++ b/src/apps/StandAloneSimulator/Agenda.cc
@@ -111,12 +111,12 @@ public:
     return msg;
   }
   
-  // Insert into list in earliest-first order.
+  // Insert into list in earliest-first order, after any others for the same time.
   virtual void scheduleResponse(timeval tym, ResponseMessage *msg)
   {
     std::lock_guard<std::mutex> g(*m_mutex);
     AgendaQueue::iterator it = m_queue.begin();
-    while (it != m_queue.end() && it->first < tym)
+    while (it != m_queue.end() && !(it->first > tym))
       ++it;
     m_queue.emplace(it, AgendaEntry(tym, std::unique_ptr<ResponseMessage>(msg)));
   }
-- 
2.43.0


From 96b942df1540a1b3daae14fb5bf3e2bdc22cb290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 096/116] fix: the simulator lost wakeups due now or at a whole
 second

---
 src/apps/StandAloneSimulator/Simulator.cc     | 5 +++--
 src/apps/StandAloneSimulator/TimingService.cc | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/apps/StandAloneSimulator/Simulator.cc b/src/apps/StandAloneSimulator/Simulator.cc
index 97a93d2..9f2b671 100644
--- a/src/apps/StandAloneSimulator/Simulator.cc
+++ b/src/apps/StandAloneSimulator/Simulator.cc
@@ -313,7 +313,8 @@ private:
     // Send every message with a scheduled time earlier than now.
     //
     while (!m_Agenda->empty()) {
-      timeval const &responseTime = m_Agenda->nextResponseTime();
+      // N.B. copy, as the original goes away with popResponse().
+      timeval const responseTime = m_Agenda->nextResponseTime();
       debugMsg("Simulator:handleWakeUp", " next response at "
                << responseTime.tv_sec << '.' << responseTime.tv_usec);
       if (responseTime > now)
@@ -341,7 +342,7 @@ private:
     // Schedule next wakeup, if any
     //
     struct timeval nextWakeup = m_Agenda->nextResponseTime();
-    if (nextWakeup.tv_sec != 0 && nextWakeup.tv_usec != 0) {
+    if (nextWakeup.tv_sec != 0 || nextWakeup.tv_usec != 0) {
       debugMsg("Simulator:handleWakeUp",
                " Scheduling next wakeup at "
                << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
diff --git a/src/apps/StandAloneSimulator/TimingService.cc b/src/apps/StandAloneSimulator/TimingService.cc
index 3af7657..bd3ab65 100644
--- a/src/apps/StandAloneSimulator/TimingService.cc
+++ b/src/apps/StandAloneSimulator/TimingService.cc
@@ -181,9 +181,11 @@ bool TimingService::setTimer(const timeval& time)
   myTimer.it_interval.tv_sec = myTimer.it_interval.tv_usec = 0;
   myTimer.it_value = time - now;
       
-  if (myTimer.it_value.tv_sec < 0 || myTimer.it_value.tv_usec < 0) {
+  // N.B. an interval of zero would disable the timer
+  if (myTimer.it_value.tv_sec < 0 || myTimer.it_value.tv_usec < 0
+      || (myTimer.it_value.tv_sec == 0 && myTimer.it_value.tv_usec == 0)) {
 	debugMsg("TimingService:setTimer",
-			 " Not setting interval timer, requested time is in the past");
+			 " Not setting interval timer, requested time is not in the future");
 	return false;
   }
       
-- 
2.43.0


From 14670790ae8c1f41baf292efbc8152eece714a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 097/116] fix: the simulator crashed on a command past the end
 of its script

---
 src/apps/StandAloneSimulator/CommandResponseManager.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/apps/StandAloneSimulator/CommandResponseManager.cc b/src/apps/StandAloneSimulator/CommandResponseManager.cc
index f2eb1f2..ef5e264 100644
--- a/src/apps/StandAloneSimulator/CommandResponseManager.cc
+++ b/src/apps/StandAloneSimulator/CommandResponseManager.cc
@@ -101,12 +101,8 @@ public:
              " " << m_Identifier << ", count: " << m_Counter);
     ++m_Counter;
 
-    // This shouldn't happen, but check anyway just in case
-    assertTrueMsg(respBase != nullptr,
-                  "getResponses: Internal error: No response found for \""
-                  << m_Identifier << "\"");
-
-    if (respBase->numberOfResponses > 0) {
+    // The script may have nothing to say for this occurrence
+    if (respBase && respBase->numberOfResponses > 0) {
       tDelay = respBase->delay;
       return respBase;
     }
-- 
2.43.0


From 3bc7308f0c1a967bc24098407337993e2a310c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:51 +0000
Subject: [PATCH 098/116] fix: simulator scripts could not contain negative
 values

---
 src/apps/StandAloneSimulator/LineInStream.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/apps/StandAloneSimulator/LineInStream.cc b/src/apps/StandAloneSimulator/LineInStream.cc
index 466b5c6..359e258 100644
--- a/src/apps/StandAloneSimulator/LineInStream.cc
+++ b/src/apps/StandAloneSimulator/LineInStream.cc
@@ -28,6 +28,21 @@
 
 #include "Debug.hh"
 
+// Anything else is a blank line or a comment
+static bool isContent(std::string const &line, size_t pos)
+{
+  if (pos == std::string::npos)
+    return false;
+  if (isalnum(line[pos]))
+    return true;
+  // Could be a number with a sign, or without an integer part
+  if (line[pos] == '-' || line[pos] == '+')
+    ++pos;
+  if (pos < line.size() && line[pos] == '.')
+    ++pos;
+  return pos < line.size() && isdigit(line[pos]);
+}
+
 LineInStream::LineInStream()
   : m_filename(),
     m_filestream(),
@@ -72,9 +87,7 @@ std::istream &LineInStream::getLine()
     std::getline(m_filestream, m_linebuf);
     ++m_linecount;
     size_t firstNonWhitespace = m_linebuf.find_first_not_of(" \t\n\r");
-    ignoreLine = (m_linebuf.size() == 0)
-      || (std::string::npos == firstNonWhitespace)
-      || !isalnum(m_linebuf[firstNonWhitespace]);
+    ignoreLine = !isContent(m_linebuf, firstNonWhitespace);
     condDebugMsg(ignoreLine,
                  "LineInStream:getLine",
                  " ignoring blank or comment line");
-- 
2.43.0


From a4430c3d19546e369807f220d9e5e6195195b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:51 +0000
Subject: [PATCH 099/116] fix: simulator scripts whose last line has no newline

---
 src/apps/StandAloneSimulator/LineInStream.cc          |  3 +++
 .../StandAloneSimulator/PlexilSimResponseFactory.cc   | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/apps/StandAloneSimulator/LineInStream.cc b/src/apps/StandAloneSimulator/LineInStream.cc
index 359e258..53183b2 100644
--- a/src/apps/StandAloneSimulator/LineInStream.cc
+++ b/src/apps/StandAloneSimulator/LineInStream.cc
@@ -94,6 +94,9 @@ std::istream &LineInStream::getLine()
   }
   while (ignoreLine && m_filestream.good() && !m_filestream.eof());
 
+  if (ignoreLine)
+    m_linebuf.clear(); // no more content
+
   debugMsg("LineInStream:getLine",
            " line = \"" << m_linebuf << "\"");
 
diff --git a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
index 62714eb..37430b6 100644
--- a/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
+++ b/src/apps/StandAloneSimulator/PlexilSimResponseFactory.cc
@@ -57,6 +57,15 @@ public:
     // Return value is on next line
     Value returnValue;
     instream.getLine();
+    if (instream.getLineStream().str().empty()) {
+      std::cerr << "Error: file " << instream.getFileName()
+                << ", line " << instream.getLineCount()
+                << ": premature end of file reading value for "
+                << name
+                << std::endl;
+      return false;
+    }
+
     returnValue = parseReturnValue(instream, returnType);
     // Error handling??
 
@@ -87,7 +96,7 @@ public:
     Value returnValue;
     // Return value is on next line
     instream.getLine();
-    if (instream.eof()) {
+    if (instream.getLineStream().str().empty()) {
       std::cerr << "Error: file " << instream.getFileName()
                 << ", line " << instream.getLineCount()
                 << ": premature end of file reading return value for "
-- 
2.43.0


From 7c4b75f2ce76519a81e93e634dda3ca803ace2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:29 +0000
Subject: [PATCH 100/116] fix: the simulator's top level and comm relay threads
 shared its data without a lock

---
 src/apps/StandAloneSimulator/Simulator.cc | 58 ++++++++++++++---------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/apps/StandAloneSimulator/Simulator.cc b/src/apps/StandAloneSimulator/Simulator.cc
index 9f2b671..5d7a2ab 100644
--- a/src/apps/StandAloneSimulator/Simulator.cc
+++ b/src/apps/StandAloneSimulator/Simulator.cc
@@ -40,6 +40,7 @@
 
 #include <iomanip>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 #include <cerrno>
@@ -63,6 +64,11 @@ private:
   std::unique_ptr<Agenda> m_Agenda;
   std::unique_ptr<ResponseManagerMap> m_CmdToRespMgr;
   std::thread m_SimulatorThread;
+
+  // Commands and lookups arrive in the comm relay's thread.
+  // Recursive because the relay could call back from sendResponse().
+  mutable std::recursive_mutex m_mutex;
+
   bool m_Started;
   bool m_Stop;
 
@@ -75,6 +81,7 @@ public:
       m_Agenda(agenda),
       m_CmdToRespMgr(map),
       m_SimulatorThread(),
+      m_mutex(),
       m_Started(false),
       m_Stop(false)
   {
@@ -126,30 +133,34 @@ public:
 
     m_Started = true;
 
-    timeval now;
-    gettimeofday(&now, nullptr);
-    debugMsg("Simulator:start", " at "
-             << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
-             << timevalToDouble(now));
+    {
+      std::lock_guard<std::recursive_mutex> g(m_mutex);
 
-    // Schedule initial telemetry responses
-    m_Agenda->setSimulatorStartTime(now);
-  
-    //
-    // Set the timer for the first event, if any
-    //
-
-    timeval firstWakeup;
-    firstWakeup.tv_sec = firstWakeup.tv_usec = 0;
-    if (!m_Agenda->empty())
-      firstWakeup = m_Agenda->nextResponseTime();
-
-    if (firstWakeup.tv_sec != 0 || firstWakeup.tv_usec != 0) {
-      debugMsg("Simulator:start",
-               " scheduling first event at "
+      timeval now;
+      gettimeofday(&now, nullptr);
+      debugMsg("Simulator:start", " at "
                << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
-               << timevalToDouble(firstWakeup));
-      scheduleNextResponse(firstWakeup);
+               << timevalToDouble(now));
+
+      // Schedule initial telemetry responses
+      m_Agenda->setSimulatorStartTime(now);
+  
+      //
+      // Set the timer for the first event, if any
+      //
+
+      timeval firstWakeup;
+      firstWakeup.tv_sec = firstWakeup.tv_usec = 0;
+      if (!m_Agenda->empty())
+        firstWakeup = m_Agenda->nextResponseTime();
+
+      if (firstWakeup.tv_sec != 0 || firstWakeup.tv_usec != 0) {
+        debugMsg("Simulator:start",
+                 " scheduling first event at "
+                 << std::setiosflags(std::ios_base::fixed) << std::setprecision(6)
+                 << timevalToDouble(firstWakeup));
+        scheduleNextResponse(firstWakeup);
+      }
     }
 
     //
@@ -172,6 +183,7 @@ public:
         break;
       }
 
+      std::lock_guard<std::recursive_mutex> g(m_mutex);
       handleWakeUp();
     }
 
@@ -190,6 +202,7 @@ public:
   void scheduleResponseForCommand(const std::string& command,
                                   void* uniqueId)
   {
+    std::lock_guard<std::recursive_mutex> g(m_mutex);
     timeval time;
     gettimeofday(&time, nullptr);
     debugMsg("Simulator:scheduleResponseForCommand",
@@ -209,6 +222,7 @@ public:
    */
   ResponseMessage* getLookupNowResponse(const std::string& stateName, void* uniqueId) const
   {
+    std::lock_guard<std::recursive_mutex> g(m_mutex);
     NameValueMap::const_iterator it = m_LookupNowValueMap.find(stateName);
     if (it == m_LookupNowValueMap.end())
       return nullptr; // Name not known or no value established yet
-- 
2.43.0


From 26596eeb9702235560ffcea4a585e6e600eb0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:12 +0000
Subject: [PATCH 101/116] fix: escape special characters in messages to the
 plan viewer

---
 src/interfaces/LuvListener/LuvFormat.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/LuvListener/LuvFormat.cc b/src/interfaces/LuvListener/LuvFormat.cc
index fe60b6e..485a22c 100644
--- a/src/interfaces/LuvListener/LuvFormat.cc
+++ b/src/interfaces/LuvListener/LuvFormat.cc
@@ -84,13 +84,31 @@ namespace PLEXIL {
    * @brief Generate a simple XML element containing some text.
    * @param s The stream to write the element to.
    * @param tag The tag for the element.
-   * @param text The text for the element.
+   * @param text The text for the element. Characters special to XML will be escaped.
    */
   void simpleTextElement(std::ostream& s,
                          const char* tag,
                          const char* text) {
     simpleStartTag(s, tag);
-    s << text;
+    for (; *text; ++text) {
+      switch (*text) {
+      case '<':
+        s << "&lt;";
+        break;
+
+      case '>':
+        s << "&gt;";
+        break;
+
+      case '&':
+        s << "&amp;";
+        break;
+
+      default:
+        s << *text;
+        break;
+      }
+    }
     endTag(s, tag);
   }
 
-- 
2.43.0


From c337b3e7e70be35b2c091ed1fe972bda16bd03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:31 +0000
Subject: [PATCH 102/116] fix: makeLuvListener left the listener with a
 reference to a deleted XML document

---
 src/interfaces/LuvListener/LuvListener.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/interfaces/LuvListener/LuvListener.cc b/src/interfaces/LuvListener/LuvListener.cc
index b9b05cb..6c1e4bb 100644
--- a/src/interfaces/LuvListener/LuvListener.cc
+++ b/src/interfaces/LuvListener/LuvListener.cc
@@ -91,6 +91,20 @@ namespace PLEXIL
                << (m_ignoreConnectFailure ? "" : "don't ") << " ignore connection failure");
     }
 
+    /**
+     * @brief Constructor from explicit parameters.
+     * @note There is no configuration XML in this case.
+     */
+    LuvListenerImpl(char const *hostname, uint16_t port, bool block)
+      : LuvListener(pugi::xml_node()),
+        m_socket(nullptr),
+        m_host((hostname && *hostname) ? hostname : LUV_DEFAULT_HOSTNAME),
+        m_port(port),
+        m_block(block),
+        m_ignoreConnectFailure(true)
+    {
+    }
+
     //* Destructor.
     virtual ~LuvListenerImpl()
     {
@@ -282,13 +296,7 @@ namespace PLEXIL
                                unsigned int port,
                                bool block)
   {
-    pugi::xml_document doc;
-    pugi::xml_node toplevel = doc.append_child("Listener");
-    toplevel.append_attribute("ListenerType").set_value("LuvListener");
-    toplevel.append_attribute(LUV_HOSTNAME_ATTR).set_value(hostname);
-    toplevel.append_attribute(LUV_PORT_ATTR).set_value(port);
-    toplevel.append_attribute(LUV_BLOCKING_ATTR).set_value(block);
-    return new LuvListenerImpl(toplevel);
+    return new LuvListenerImpl(hostname, port, block);
   }
 
 } // namespace PLEXIL
-- 
2.43.0


From 52d2fa8a0f6a710dcdfba89e9564859e827b29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:31 +0000
Subject: [PATCH 103/116] fix: socket messages interrupted by a signal were
 truncated or failed

---
 src/interfaces/Sockets/Socket.cpp | 27 ++++++++++++++++++++++++---
 src/interfaces/Sockets/Socket.h   |  8 ++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/interfaces/Sockets/Socket.cpp b/src/interfaces/Sockets/Socket.cpp
index e8ef88d..d4aea71 100644
--- a/src/interfaces/Sockets/Socket.cpp
+++ b/src/interfaces/Sockets/Socket.cpp
@@ -201,14 +201,32 @@ bool Socket::accept (Socket& new_socket) const
 }
 
 
+// Write everything, even if interrupted by a signal.
+static bool sendAll (int sock, const char* msg, size_t size)
+{
+   while (size > 0)
+   {
+      ssize_t n = ::send (sock, msg, size, SOCK_MSG_NOSIGNAL);
+      if (n == -1)
+      {
+         if (errno == EINTR)
+            continue;
+         return false;
+      }
+      msg += n;
+      size -= n;
+   }
+   return true;
+}
+
 bool Socket::send (const std::string s) const
 {
-   return ::send (m_sock, s.c_str(), s.size(), SOCK_MSG_NOSIGNAL) != -1;
+   return sendAll (m_sock, s.c_str(), s.size());
 }
 
 bool Socket::send (char* msg, size_t size) const
 {
-   return ::send(m_sock, msg, size, SOCK_MSG_NOSIGNAL) != -1;
+   return sendAll (m_sock, msg, size);
 }
 
 int Socket::recv (std::string& s) const
@@ -219,7 +237,10 @@ int Socket::recv (std::string& s) const
    
    memset (buf, 0, MAXRECV + 1);
    
-   int status = ::recv (m_sock, buf, MAXRECV, 0);
+   int status;
+   do
+      status = ::recv (m_sock, buf, MAXRECV, 0);
+   while (status == -1 && errno == EINTR);
    
    if (status == -1)
    {
diff --git a/src/interfaces/Sockets/Socket.h b/src/interfaces/Sockets/Socket.h
index 7b92649..5de80d5 100644
--- a/src/interfaces/Sockets/Socket.h
+++ b/src/interfaces/Sockets/Socket.h
@@ -38,12 +38,20 @@
 #include <netinet/in.h> // sockaddr_in
 #endif
 
+#ifdef HAVE_SYS_SOCKET_H
+#include <sys/socket.h> // MSG_NOSIGNAL
+#endif
+
 #include "SocketException.h"
 
 const int MAXHOSTNAME = 200;
 const int MAXCONNECTIONS = 5;
 const int MAXRECV = 500;
+#ifdef MSG_NOSIGNAL
+const int SOCK_MSG_NOSIGNAL = MSG_NOSIGNAL;
+#else
 const int SOCK_MSG_NOSIGNAL = 0;
+#endif
 
 class Socket
 {
-- 
2.43.0


From f1b88a0ea1655d173f055b3522cb784949ab86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:40 +0000
Subject: [PATCH 104/116] fix: execution ended when the plan viewer closed its
 connection

---
 src/interfaces/LuvListener/LuvListener.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/LuvListener/LuvListener.cc b/src/interfaces/LuvListener/LuvListener.cc
index 6c1e4bb..e7289fb 100644
--- a/src/interfaces/LuvListener/LuvListener.cc
+++ b/src/interfaces/LuvListener/LuvListener.cc
@@ -28,6 +28,7 @@
 
 #include "ClientSocket.h"
 #include "Debug.hh"
+#include "Error.hh" // warn()
 #include "ExecListenerFactory.hh"
 #include "Expression.hh"
 #include "LuvFormat.hh"
@@ -239,7 +240,7 @@ namespace PLEXIL
     }
 
     //* Close the socket.
-    void closeSocket()
+    void closeSocket() const
     {
       delete m_socket;
       m_socket = nullptr;
@@ -254,11 +255,22 @@ namespace PLEXIL
     }
 
     //* Send the message to the viewer.
+    //! @note If the viewer has gone away, execution continues without it.
     void sendMessage(const std::string& msg) const
     {
+      if (!m_socket)
+        return;
+
       debugMsg("LuvListener:sendMessage", " sending:\n" << msg);
-      *m_socket << msg << LUV_END_OF_MESSAGE;
-      waitForAck();
+      try {
+        *m_socket << msg << LUV_END_OF_MESSAGE;
+        waitForAck();
+      }
+      catch (const SocketException &e) {
+        warn("LuvListener: lost connection to the Plexil Viewer: " << e.description()
+             << "\nExecution will continue without the viewer.");
+        closeSocket();
+      }
     }
 
     //* Wait for acknowledgement from the viewer.
@@ -281,7 +293,7 @@ namespace PLEXIL
 	//
 	// Member variables
 	//
-    Socket* m_socket;
+    mutable Socket* m_socket; // closed when the viewer goes away
     std::string m_host;
 	uint16_t m_port;
     bool m_block;
-- 
2.43.0


From e023e64edd65d33a084d7a9fa1f4d47d5a84877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:17 +0000
Subject: [PATCH 105/116] fix: Socket::connect read past the end of the host
 address

---
 src/interfaces/Sockets/Socket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/Sockets/Socket.cpp b/src/interfaces/Sockets/Socket.cpp
index d4aea71..63f8f5e 100644
--- a/src/interfaces/Sockets/Socket.cpp
+++ b/src/interfaces/Sockets/Socket.cpp
@@ -306,7 +306,7 @@ bool Socket::connect(const std::string host, const uint16_t port)
                << std::endl;
      return false;
    }
-   memcpy((void *) &m_addr.sin_addr, (void *) hostent->h_addr, sizeof(hostent->h_addr));
+   memcpy((void *) &m_addr.sin_addr, (void *) hostent->h_addr, sizeof(m_addr.sin_addr));
    
    int status = ::connect (m_sock, (sockaddr *) &m_addr, sizeof (m_addr));
    
-- 
2.43.0


From 049427fe48ee24a3efb9babc32e930ee94c67e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:28 +0000
Subject: [PATCH 106/116] fix: escape characters special to XML in translated
 Plexilscript values

A string containing '&' or '<' made the translation malformed, and one
containing e.g. '&amp;' came out as another string.
---
 .../java/plexilscript/CommandAST.java         |  2 +-
 .../java/plexilscript/ParameterAST.java       |  2 +-
 .../java/plexilscript/XmlText.java            | 40 +++++++++++++++++++
 3 files changed, 42 insertions(+), 2 deletions(-)
 create mode 100644 compilers/plexilscript/java/plexilscript/XmlText.java

diff --git a/compilers/plexilscript/java/plexilscript/CommandAST.java b/compilers/plexilscript/java/plexilscript/CommandAST.java
index 3fb50bc..e52c394 100644
--- a/compilers/plexilscript/java/plexilscript/CommandAST.java
+++ b/compilers/plexilscript/java/plexilscript/CommandAST.java
@@ -60,7 +60,7 @@ public class CommandAST implements ElementAST {
 	for (ParameterAST p : parameters)
 	    p.print ();
 	for (String r : results)
-	    System.out.printf ("      <%s>%s</%s>\n", resultTag, r, resultTag);
+	    System.out.printf ("      <%s>%s</%s>\n", resultTag, XmlText.escape (r), resultTag);
 	System.out.printf ("    </%s>\n", tag);
     }
 }
diff --git a/compilers/plexilscript/java/plexilscript/ParameterAST.java b/compilers/plexilscript/java/plexilscript/ParameterAST.java
index 60f6c94..58d3546 100644
--- a/compilers/plexilscript/java/plexilscript/ParameterAST.java
+++ b/compilers/plexilscript/java/plexilscript/ParameterAST.java
@@ -39,7 +39,7 @@ public class ParameterAST {
     }
 
     public void print () {
-	System.out.printf ("      <Param type=\"%s\">%s</Param>\n", type, value);
+	System.out.printf ("      <Param type=\"%s\">%s</Param>\n", type, XmlText.escape (value));
     }
 }
 
diff --git a/compilers/plexilscript/java/plexilscript/XmlText.java b/compilers/plexilscript/java/plexilscript/XmlText.java
new file mode 100644
index 0000000..e84ba48
--- /dev/null
+++ b/compilers/plexilscript/java/plexilscript/XmlText.java
@@ -0,0 +1,40 @@
+// Copyright (c) 2006-2021, Universities Space Research Association (USRA).
+//  All rights reserved.
+//
+// Redistribution and use in source and binary forms, with or without
+// modification, are permitted provided that the following conditions are met:
+//     * Redistributions of source code must retain the above copyright
+//       notice, this list of conditions and the following disclaimer.
+//     * Redistributions in binary form must reproduce the above copyright
+//       notice, this list of conditions and the following disclaimer in the
+//       documentation and/or other materials provided with the distribution.
+//    * Neither the name of the Universities Space Research Association nor the
+//       names of its contributors may be used to endorse or promote products
+//       derived from this software without specific prior written permission.
+//
+// THIS SOFTWARE IS PROVIDED BY USRA ``AS IS'' AND ANY EXPRESS OR IMPLIED
+// WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED WARRANTIES OF
+// MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE
+// DISCLAIMED. IN NO EVENT SHALL USRA BE LIABLE FOR ANY DIRECT, INDIRECT,
+// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
+// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS
+// OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND
+// ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR
+// TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE
+// USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+
+//
+// XmlText
+//
+
+package plexilscript;
+
+public class XmlText {
+
+    // Returns the text with the characters special to XML escaped.
+    public static String escape (String text) {
+	return text.replace ("&", "&amp;")
+	           .replace ("<", "&lt;")
+	           .replace (">", "&gt;");
+    }
+}
-- 
2.43.0


From 24f071d2df2dbbd03fc7d8ebbad1bb0bcb0072e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:11 +0000
Subject: [PATCH 107/116] fix: refuse Plexilscript files with syntax errors

Whatever followed the last element that could be parsed was ignored, and
after a reported syntax error the translator went on with what was left,
wrote a truncated or empty script, and exited with status 0.
---
 compilers/plexilscript/antlr/plexilscript.g              | 7 ++++++-
 .../java/plexilscript/PlexilScriptParse.java             | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/compilers/plexilscript/antlr/plexilscript.g b/compilers/plexilscript/antlr/plexilscript.g
index d281ce2..76e2c6b 100644
--- a/compilers/plexilscript/antlr/plexilscript.g
+++ b/compilers/plexilscript/antlr/plexilscript.g
@@ -38,9 +38,14 @@ header {
 
 class PlexilScriptParser extends Parser;
 
+// Syntax errors are reported by the main program.
+options {
+  defaultErrorHandler = false;
+}
+
 plexilScript returns [PlexilScriptAST ast = null] :
         { List<ElementAST> es; }
-        es = elements
+        es = elements EOF
         { ast = new PlexilScriptAST (es); }
     ;
 
diff --git a/compilers/plexilscript/java/plexilscript/PlexilScriptParse.java b/compilers/plexilscript/java/plexilscript/PlexilScriptParse.java
index 325fe2e..7f943ec 100644
--- a/compilers/plexilscript/java/plexilscript/PlexilScriptParse.java
+++ b/compilers/plexilscript/java/plexilscript/PlexilScriptParse.java
@@ -34,7 +34,14 @@ public class PlexilScriptParse {
 	DataInputStream    input  = new DataInputStream    (System.in);
 	PlexilScriptLexer  lexer  = new PlexilScriptLexer  (input);
         PlexilScriptParser parser = new PlexilScriptParser (lexer);
-	PlexilScriptAST    ps     = parser.plexilScript    ();
+	PlexilScriptAST    ps     = null;
+	try {
+	    ps = parser.plexilScript ();
+	}
+	catch (ANTLRException e) {
+	    System.err.println ("Plexilscript error: " + e);
+	    System.exit (1);
+	}
 	ps.print ();
     }
 }
-- 
2.43.0


From 4863604915351cfa6e2fb1f2e6fa458bed1c3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:21 +0000
Subject: [PATCH 108/116] fix: the PLEXIL compiler refuses plans with invalid
 characters

---
 compilers/plexil/java/plexil/Compiler.java | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/compilers/plexil/java/plexil/Compiler.java b/compilers/plexil/java/plexil/Compiler.java
index d42b23a..59efafb 100644
--- a/compilers/plexil/java/plexil/Compiler.java
+++ b/compilers/plexil/java/plexil/Compiler.java
@@ -177,7 +177,19 @@ public class Compiler
 
     public PlexilTreeNode pass1(CompilerState state)
     {
-        PlexilLexer lexer = new PlexilLexer(state.getInputStream(), state.sharedState);
+        // the lexer has a field named 'state' of its own
+        final CompilerState compilerState = state;
+        PlexilLexer lexer =
+            new PlexilLexer(state.getInputStream(), state.sharedState) {
+                @Override
+                public void displayRecognitionError(String[] tokenNames,
+                                                    RecognitionException e)
+                {
+                    compilerState.addDiagnostic(null,
+                                                getErrorHeader(e) + " " + getErrorMessage(e, tokenNames),
+                                                Severity.ERROR);
+                }
+            };
         TokenStream tokenStream = new CommonTokenStream(lexer);
 
         PlexilParser parser = new PlexilParser(tokenStream, state);
-- 
2.43.0


From 6c8fa64df5a8277ab3684c68d4742a3aafd3b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:21 +0000
Subject: [PATCH 109/116] fix: the PLEXIL compiler reports failure after
 internal errors in its last passes

---
 compilers/plexil/java/plexil/Compiler.java | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/compilers/plexil/java/plexil/Compiler.java b/compilers/plexil/java/plexil/Compiler.java
index 59efafb..5ad4dc7 100644
--- a/compilers/plexil/java/plexil/Compiler.java
+++ b/compilers/plexil/java/plexil/Compiler.java
@@ -131,6 +131,11 @@ public class Compiler
 
         // Pass 3: Tree parse & transformations
         PlexilTreeNode plan2 = pass3(plan1, state);
+        if (plan2 == null) {
+            state.displayDiagnostics();
+            System.err.println("Internal error: Plan transformation failed. Compilation aborted.");
+            return state;
+        }
         if (m_commandParser.debug) {
         	System.err.println("Pass 3 output:");
         	System.err.println(plan2.toStringTree());
@@ -244,12 +249,17 @@ public class Compiler
                 return null; // errors already reported
             PlexilTreeNode rewritePlan = (PlexilTreeNode) rewriteResult;
             if (rewritePlan == null) 
-                System.err.println("Internal error: Plan transformation pass resulted in empty plan");
+                state.addDiagnostic(null,
+                                    "Internal error: Plan transformation pass resulted in empty plan",
+                                    Severity.FATAL);
             return rewritePlan;
         }
         catch (Throwable t) {
             System.err.println("Internal error in plan transformation pass:");
             t.printStackTrace(System.err);
+            state.addDiagnostic(null,
+                                "Internal error in plan transformation pass",
+                                Severity.FATAL);
         }
         return null;
     }
@@ -268,6 +278,10 @@ public class Compiler
         catch (Throwable t) {
             System.err.println("Internal error while generating XML:");
             t.printStackTrace(System.err);
+            state.addDiagnostic(null,
+                                "Internal error while generating XML",
+                                Severity.FATAL);
+            return null;
         }
         return planDoc;
     }
-- 
2.43.0


From 3e124d0962b7d8af2ffdd46b4a78a45f03899265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:21 +0000
Subject: [PATCH 110/116] fix: the PLEXIL compiler handles prefixed and out of
 range integer literals

---
 compilers/plexil/antlr/PlexilTreeTransforms.g | 12 +++----
 compilers/plexil/java/plexil/LiteralNode.java | 32 +++++++++++++++++--
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/compilers/plexil/antlr/PlexilTreeTransforms.g b/compilers/plexil/antlr/PlexilTreeTransforms.g
index da0f4c2..f77cd7b 100644
--- a/compilers/plexil/antlr/PlexilTreeTransforms.g
+++ b/compilers/plexil/antlr/PlexilTreeTransforms.g
@@ -172,12 +172,12 @@ booleanIdentityElision:
     ;
     
 integerIdentityElision:
-        ^(PLUS i=INT arg=. {Integer.valueOf($i.text) == 0}?) -> $arg
-    |   ^(PLUS arg=. i=INT {Integer.valueOf($i.text) == 0}?) -> $arg
-    |   ^(MINUS arg=. i=INT {Integer.valueOf($i.text) == 0}?) -> $arg
-    |   ^(ASTERISK i=INT arg=. {Integer.valueOf($i.text) == 1}?) -> $arg
-    |   ^(ASTERISK arg=. i=INT {Integer.valueOf($i.text) == 1}?) -> $arg
-    |   ^(SLASH arg=. i=INT {Integer.valueOf($i.text) == 1}?) -> $arg
+        ^(PLUS i=INT arg=. {LiteralNode.parseIntegerValue($i.text) == 0}?) -> $arg
+    |   ^(PLUS arg=. i=INT {LiteralNode.parseIntegerValue($i.text) == 0}?) -> $arg
+    |   ^(MINUS arg=. i=INT {LiteralNode.parseIntegerValue($i.text) == 0}?) -> $arg
+    |   ^(ASTERISK i=INT arg=. {LiteralNode.parseIntegerValue($i.text) == 1}?) -> $arg
+    |   ^(ASTERISK arg=. i=INT {LiteralNode.parseIntegerValue($i.text) == 1}?) -> $arg
+    |   ^(SLASH arg=. i=INT {LiteralNode.parseIntegerValue($i.text) == 1}?) -> $arg
     ;
 
 realIdentityElision:
diff --git a/compilers/plexil/java/plexil/LiteralNode.java b/compilers/plexil/java/plexil/LiteralNode.java
index 9ad8255..a1cb549 100644
--- a/compilers/plexil/java/plexil/LiteralNode.java
+++ b/compilers/plexil/java/plexil/LiteralNode.java
@@ -62,6 +62,18 @@ public class LiteralNode extends ExpressionNode
         case PlexilLexer.INT:
         case PlexilLexer.NEG_INT:
             m_dataType = PlexilDataType.INTEGER_TYPE;
+            // A negated literal is checked with its sign
+            if (this.getParent() != null
+                && this.getParent().getType() == PlexilLexer.NEG_INT)
+                break;
+            try {
+                integerValue();
+            }
+            catch (NumberFormatException x) {
+                state.addDiagnostic(this,
+                                    "Integer value is out of range",
+                                    Severity.ERROR);
+            }
             break;
 
         case PlexilLexer.DOUBLE:
@@ -198,6 +210,19 @@ public class LiteralNode extends ExpressionNode
 
     // Utility for use from various contexts
     static public int parseIntegerValue(String txt)
+    {
+        return parseIntegerValue(txt, "");
+    }
+
+    // The value of an INT or NEG_INT node
+    private int integerValue()
+    {
+        if (this.getType() == PlexilLexer.NEG_INT)
+            return parseIntegerValue(this.getChild(0).getText(), "-");
+        return parseIntegerValue(this.getText());
+    }
+
+    static private int parseIntegerValue(String txt, String sign)
     {
         int radix = 10;
         // Look for prefixes
@@ -233,7 +258,7 @@ public class LiteralNode extends ExpressionNode
                                    + "\", parsing as decimal");
             }
         }
-        return Integer.parseInt(txt, radix);
+        return Integer.parseInt(sign + txt, radix);
     }
 
     // Specialized types (e.g. String, Date) have their own methods, so ignore them here.
@@ -246,7 +271,10 @@ public class LiteralNode extends ExpressionNode
         String childTxt = (this.getChildCount() >= 1) ? this.getChild(0).getText() : null;
         switch (this.getType()) {
         case PlexilLexer.NEG_INT:
-            m_xml.appendChild(root.createTextNode("-" + Integer.toString(parseIntegerValue(childTxt))));
+            // keep the sign of -0, for use as a Real
+            m_xml.appendChild(root.createTextNode(integerValue() == 0
+                                                  ? "-0"
+                                                  : Integer.toString(integerValue())));
             break;
 
         case PlexilLexer.NEG_DOUBLE:
-- 
2.43.0


From 7ddfe3c6e0470f76051e41ea7f5014311ddf9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:21 +0000
Subject: [PATCH 111/116] fix: the PLEXIL compiler keeps real identity operands
 of integer expressions

---
 compilers/plexil/antlr/PlexilTreeTransforms.g | 68 +++++++++++++++++--
 1 file changed, 62 insertions(+), 6 deletions(-)

diff --git a/compilers/plexil/antlr/PlexilTreeTransforms.g b/compilers/plexil/antlr/PlexilTreeTransforms.g
index f77cd7b..75ca7ba 100644
--- a/compilers/plexil/antlr/PlexilTreeTransforms.g
+++ b/compilers/plexil/antlr/PlexilTreeTransforms.g
@@ -76,6 +76,62 @@ import plexil.*;
                                       Severity.ERROR);
 	}
 
+    // True if the expression has a Real value when it's evaluated.
+    // The quotient of Integer operands doesn't, whatever its data type.
+    private boolean evaluatesToReal(PlexilTreeNode exp)
+    {
+        switch (exp.getType()) {
+        case PlexilLexer.PLUS:
+        case PlexilLexer.MINUS:
+        case PlexilLexer.ASTERISK:
+        case PlexilLexer.SLASH:
+        case PlexilLexer.PERCENT:
+        case PlexilLexer.MOD_KYWD:
+        case PlexilLexer.ABS_KYWD:
+        case PlexilLexer.MAX_KYWD:
+        case PlexilLexer.MIN_KYWD:
+            for (PlexilTreeNode operand : exp.getChildren())
+                if (evaluatesToReal(operand))
+                    return true;
+            return false;
+
+        default:
+            return ((ExpressionNode) exp).getDataType() == PlexilDataType.REAL_TYPE;
+        }
+    }
+
+    // An Integer expression combined with a Real identity becomes Real,
+    // so the identity can't be elided unless the enclosing operation
+    // is Real anyway.
+    private boolean needsRealIdentity(PlexilTreeNode arg)
+    {
+        PlexilDataType type = ((ExpressionNode) arg).getDataType();
+        if (type != PlexilDataType.INTEGER_TYPE
+            && type != PlexilDataType.REAL_TYPE
+            && type != PlexilDataType.ANY_TYPE)
+            return false;
+        if (evaluatesToReal(arg))
+            return false;
+
+        PlexilTreeNode exp = arg.getParent();
+        PlexilTreeNode parent = exp.getParent();
+        if (parent == null)
+            return true;
+        switch (parent.getType()) {
+        case PlexilLexer.PLUS:
+        case PlexilLexer.MINUS:
+        case PlexilLexer.ASTERISK:
+        case PlexilLexer.SLASH:
+            for (PlexilTreeNode sibling : parent.getChildren())
+                if (sibling != exp && evaluatesToReal(sibling))
+                    return false;
+            return true;
+
+        default:
+            return true;
+        }
+    }
+
     // Debugging aid.
 //    public void reportTransformation(Object oldTree, Object newTree)
 //    {
@@ -181,12 +237,12 @@ integerIdentityElision:
     ;
 
 realIdentityElision:
-        ^(PLUS i=DOUBLE arg=. {Double.valueOf($i.text) == 0.0}?) -> $arg
-    |   ^(PLUS arg=. i=DOUBLE {Double.valueOf($i.text) == 0.0}?) -> $arg
-    |   ^(MINUS arg=. i=DOUBLE {Double.valueOf($i.text) == 0.0}?) -> $arg
-    |   ^(ASTERISK i=DOUBLE arg=. {Double.valueOf($i.text) == 1.0}?) -> $arg
-    |   ^(ASTERISK arg=. i=DOUBLE {Double.valueOf($i.text) == 1.0}?) -> $arg
-    |   ^(SLASH arg=. i=DOUBLE {Double.valueOf($i.text) == 1.0}?) -> $arg
+        ^(PLUS i=DOUBLE arg=. {Double.valueOf($i.text) == 0.0 && !needsRealIdentity($arg)}?) -> $arg
+    |   ^(PLUS arg=. i=DOUBLE {Double.valueOf($i.text) == 0.0 && !needsRealIdentity($arg)}?) -> $arg
+    |   ^(MINUS arg=. i=DOUBLE {Double.valueOf($i.text) == 0.0 && !needsRealIdentity($arg)}?) -> $arg
+    |   ^(ASTERISK i=DOUBLE arg=. {Double.valueOf($i.text) == 1.0 && !needsRealIdentity($arg)}?) -> $arg
+    |   ^(ASTERISK arg=. i=DOUBLE {Double.valueOf($i.text) == 1.0 && !needsRealIdentity($arg)}?) -> $arg
+    |   ^(SLASH arg=. i=DOUBLE {Double.valueOf($i.text) == 1.0 && !needsRealIdentity($arg)}?) -> $arg
     ;
 
 booleanEqualityNegation:
-- 
2.43.0


From bf59666607f7c3db4c6a89868c7569832708961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:21 +0000
Subject: [PATCH 112/116] fix: interface declarations of enclosing arrays keep
 the array size

---
 compilers/plexil/java/plexil/InterfaceVariableName.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compilers/plexil/java/plexil/InterfaceVariableName.java b/compilers/plexil/java/plexil/InterfaceVariableName.java
index 01eb48f..0b135e9 100644
--- a/compilers/plexil/java/plexil/InterfaceVariableName.java
+++ b/compilers/plexil/java/plexil/InterfaceVariableName.java
@@ -42,6 +42,7 @@ public class InterfaceVariableName extends VariableName
                                  VariableName parent)
     {
         super(declaration, myName, parent.getVariableType());
+        m_maxSize = parent.getMaxSize();
         parentVariable = parent;
         isInOut = is_inOut;
     }
-- 
2.43.0


From fba62b9f328508072d09dda1ec18e63bf4575bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:33 +0000
Subject: [PATCH 113/116] fix: the PLEXIL compiler checks operand types of
 mixed arithmetic, MAX, MIN, MOD and SQRT

---
 .../java/plexil/ArithmeticOperatorNode.java   | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/compilers/plexil/java/plexil/ArithmeticOperatorNode.java b/compilers/plexil/java/plexil/ArithmeticOperatorNode.java
index 1f0f0cd..c3eb0b7 100644
--- a/compilers/plexil/java/plexil/ArithmeticOperatorNode.java
+++ b/compilers/plexil/java/plexil/ArithmeticOperatorNode.java
@@ -90,7 +90,7 @@ public class ArithmeticOperatorNode extends ExpressionNode
             m_dataType = checkMod (state); break;
 
         case PlexilLexer.SQRT_KYWD:
-            m_dataType = PlexilDataType.REAL_TYPE; break; 
+            m_dataType = checkSqrt (state); break;
 
         case PlexilLexer.CEIL_KYWD:
         case PlexilLexer.FLOOR_KYWD:
@@ -121,6 +121,12 @@ public class ArithmeticOperatorNode extends ExpressionNode
     // Individual checkers
     //
 
+    // The type of a sum, difference, or product of two numbers
+    private PlexilDataType mixedType(PlexilDataType ltype, PlexilDataType rtype)
+    {
+        return ltype == PlexilDataType.REAL_TYPE ? ltype : rtype;
+    }
+
     private PlexilDataType checkAbs (CompilerState state)
     {
         // ABS has exactly one child
@@ -198,7 +204,7 @@ public class ArithmeticOperatorNode extends ExpressionNode
         if (ltype == PlexilDataType.INTEGER_TYPE && rtype == ltype)
             return ltype;
         // Two numbers return a real
-        else if (ltype.isNumeric() && ltype.isNumeric())
+        else if (ltype.isNumeric() && rtype.isNumeric())
             return PlexilDataType.REAL_TYPE;
         // Two durations return a duration
         else if (ltype == PlexilDataType.DURATION_TYPE && rtype == ltype)
@@ -238,7 +244,7 @@ public class ArithmeticOperatorNode extends ExpressionNode
             if (ltype == PlexilDataType.INTEGER_TYPE && rtype == ltype)
                 return ltype;
             else if (ltype.isNumeric() && rtype.isNumeric())
-                return rtype;
+                return mixedType(ltype, rtype);
 
             // They can be certain combinations of duration and date...
             else if (ltype == PlexilDataType.DATE_TYPE &&
@@ -280,7 +286,7 @@ public class ArithmeticOperatorNode extends ExpressionNode
         // They can both be numbers...
 
         if (ltype == PlexilDataType.INTEGER_TYPE && rtype == ltype) return ltype;
-        else if (ltype.isNumeric() && ltype.isNumeric()) return PlexilDataType.REAL_TYPE;
+        else if (ltype.isNumeric() && rtype.isNumeric()) return PlexilDataType.REAL_TYPE;
 
         // They can be certain combinations of duration and number...
 
@@ -308,7 +314,7 @@ public class ArithmeticOperatorNode extends ExpressionNode
         // They can be numbers...
 
         if (ltype == PlexilDataType.INTEGER_TYPE && rtype == ltype) return ltype;
-        else if (ltype.isNumeric() && rtype.isNumeric()) return rtype;
+        else if (ltype.isNumeric() && rtype.isNumeric()) return mixedType(ltype, rtype);
 
         // They can be certain combinations of duration and number...
 
@@ -336,7 +342,7 @@ public class ArithmeticOperatorNode extends ExpressionNode
         // They can be numbers...
 
         if (ltype == PlexilDataType.INTEGER_TYPE && rtype == ltype) return ltype;
-        else if (ltype.isNumeric() && rtype.isNumeric()) return rtype;
+        else if (ltype.isNumeric() && rtype.isNumeric()) return mixedType(ltype, rtype);
 
         // They can be certain combinations of duration and date...
 
@@ -363,6 +369,20 @@ public class ArithmeticOperatorNode extends ExpressionNode
         }
     }
 
+    private PlexilDataType checkSqrt(CompilerState state)
+    {
+        // SQRT has exactly one child, which must be a number
+        PlexilDataType type = ((ExpressionNode) this.getChild(0)).getDataType();
+        if (!type.isNumeric()) {
+            state.addDiagnostic(this,
+                                "SQRT operator given invalid argument: " +
+                                type.toString(),
+                                Severity.ERROR);
+            return PlexilDataType.ERROR_TYPE;
+        }
+        return PlexilDataType.REAL_TYPE;
+    }
+
     private PlexilDataType checkStringLength(CompilerState state)
     {
         // StringLength has exactly one child, which must be a string-valued expression
-- 
2.43.0


From 1e0d641640eac49d1390771be423e162779a6e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:18 +0000
Subject: [PATCH 114/116] fix: the PLEXIL compiler refuses calls with too few
 arguments

---
 compilers/plexil/java/plexil/ArgumentListNode.java | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/compilers/plexil/java/plexil/ArgumentListNode.java b/compilers/plexil/java/plexil/ArgumentListNode.java
index 9cecdd2..5511ac8 100644
--- a/compilers/plexil/java/plexil/ArgumentListNode.java
+++ b/compilers/plexil/java/plexil/ArgumentListNode.java
@@ -82,6 +82,18 @@ public class ArgumentListNode extends PlexilTreeNode
             }
             this.getChild(i).earlyCheck(context, state); // for effect
         }
+
+        // Check for missing arguments
+        int required = paramSpec.size();
+        if (required > 0 && paramSpec.get(required - 1) instanceof WildcardVariableName)
+            required--;
+        if (this.getChildCount() < required)
+            state.addDiagnostic(this,
+                                callType + " \"" + callName +
+                                "\" expects " + Integer.toString(required)
+                                + " parameters, but " + Integer.toString(this.getChildCount())
+                                + " were supplied",
+                                Severity.ERROR);
     }
 
     public void checkArgumentList(NodeContext context,
-- 
2.43.0


From b5b1f4f71fd95b9866971aa63ff81ce01fc418ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:18 +0000
Subject: [PATCH 115/116] fix: the PLEXIL compiler checks library
 redeclarations and alias types

---
 compilers/plexil/java/plexil/LibraryCallNode.java   | 13 +++++++++++--
 .../plexil/java/plexil/LibraryDeclarationNode.java  |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/compilers/plexil/java/plexil/LibraryCallNode.java b/compilers/plexil/java/plexil/LibraryCallNode.java
index b3ed7f9..bcde7ab 100644
--- a/compilers/plexil/java/plexil/LibraryCallNode.java
+++ b/compilers/plexil/java/plexil/LibraryCallNode.java
@@ -220,8 +220,17 @@ public class LibraryCallNode extends NodeTreeNode
 
                     VariableName param = m_libDecl.getParameterByName(alias.getChild(0).getText());
                     ExpressionNode valueExp = (ExpressionNode) alias.getChild(1);
-                    if (param != null) // error already reported in earlyCheck
-                        valueExp.assumeType(param.getVariableType(), state); // for effect
+                    if (param == null)
+                        continue; // error already reported in earlyCheck
+                    // Dates and Durations have the same representation
+                    if (!valueExp.assumeType(param.getVariableType(), state)
+                        && !(valueExp.getDataType().isTemporal()
+                             && param.getVariableType().isTemporal()))
+                        state.addDiagnostic(valueExp,
+                                            "Value of library node parameter \"" + param.getName()
+                                            + "\" is not of the expected type "
+                                            + param.getVariableType().typeName(),
+                                            Severity.ERROR);
                 }
             }
         }
diff --git a/compilers/plexil/java/plexil/LibraryDeclarationNode.java b/compilers/plexil/java/plexil/LibraryDeclarationNode.java
index 3d3ecf4..b8ab6e0 100644
--- a/compilers/plexil/java/plexil/LibraryDeclarationNode.java
+++ b/compilers/plexil/java/plexil/LibraryDeclarationNode.java
@@ -57,7 +57,7 @@ public class LibraryDeclarationNode extends PlexilTreeNode
     {
         // check that name is not already declared
         String libraryName = this.getChild(0).getText();
-        if (state.getGlobalContext().isCommandName(libraryName)) {
+        if (state.getGlobalContext().isLibraryNodeName(libraryName)) {
             // Report duplicate definition
             state.addDiagnostic(this.getChild(0),
                                 "Library node \"" + libraryName + "\" is already declared",
-- 
2.43.0


From 32f26d1ad3498a276fd22ee2b7986ec893f1fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:14 +0000
Subject: [PATCH 116/116] fix: compiler: calls may pass more arguments than
 declared where the parameters end with a wildcard

Command c(Integer a, ...) could only be called with up to two arguments: the check for surplus
arguments looked for the wildcard only after it had met it.
---
 compilers/plexil/java/plexil/ArgumentListNode.java | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compilers/plexil/java/plexil/ArgumentListNode.java b/compilers/plexil/java/plexil/ArgumentListNode.java
index 5511ac8..2a28411 100644
--- a/compilers/plexil/java/plexil/ArgumentListNode.java
+++ b/compilers/plexil/java/plexil/ArgumentListNode.java
@@ -55,7 +55,9 @@ public class ArgumentListNode extends PlexilTreeNode
                                        List<VariableName> paramSpec)
     {
         // Check number of arguments only
-        boolean wildcardSeen = false;
+        // A wildcard is always last, and accepts any number of arguments
+        boolean wildcardSeen = !paramSpec.isEmpty()
+            && paramSpec.get(paramSpec.size() - 1) instanceof WildcardVariableName;
         for (int i = 0; i < this.getChildCount(); i++) {
             if (i >= paramSpec.size()) {
                 state.addDiagnostic(this.getChild(i),
@@ -66,10 +68,8 @@ public class ArgumentListNode extends PlexilTreeNode
                                     Severity.ERROR);
                 break; // no point in checking further
             }
-            if (paramSpec.get(i) instanceof WildcardVariableName) {
-                wildcardSeen = true;
+            if (paramSpec.get(i) instanceof WildcardVariableName)
                 break; // no need to check further
-            }
             if (paramSpec.size() < this.getChildCount()
                 && !wildcardSeen) {
                 state.addDiagnostic(this.getChild(i),
-- 
2.43.0

