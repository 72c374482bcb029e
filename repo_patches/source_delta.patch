From 25d5b3eecb4741f43c6141d6a6ca21e53d1f6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 01/61] fix: Handle memmove in AgnosticModRefSummarizer

---
 jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
index 602d8ae..fc2e8c8 100644
--- a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
@@ -255,6 +255,15 @@ AgnosticModRefSummarizer::AnnotateSimpleNode(const rvsdg::SimpleNode & node)
         AddPointerTargetsToModRefSet(dstAddress, ModRefEffect::ModOnly, modRefSet);
         ModRefSummary_->SetSimpleNodeModRef(node, std::move(modRefSet));
       },
+      [&](const MemMoveOperation &)
+      {
+        AgnosticModRefSet modRefSet;
+        const auto & srcAddress = *MemMoveOperation::sourceInput(node).origin();
+        const auto & dstAddress = *MemMoveOperation::destinationInput(node).origin();
+        AddPointerTargetsToModRefSet(srcAddress, ModRefEffect::RefOnly, modRefSet);
+        AddPointerTargetsToModRefSet(dstAddress, ModRefEffect::ModOnly, modRefSet);
+        ModRefSummary_->SetSimpleNodeModRef(node, std::move(modRefSet));
+      },
       [&](const MemSetOperation &)
       {
         AgnosticModRefSet modRefSet;
-- 
2.43.0


From f5173f25be026fd2f53ce0ab3be84edb3dddd2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 02/61] fix: Handle select operations on pointers in Andersen

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 21 +++++++++++++++++++++
 jlm/llvm/opt/alias-analyses/Andersen.hpp |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index 8a338f9..04b9009 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -682,6 +682,10 @@ Andersen::AnalyzeSimpleNode(const rvsdg::SimpleNode & node)
       {
         AnalyzeFreeze(node);
       },
+      [&](const SelectOperation &)
+      {
+        AnalyzeSelect(node);
+      },
       [&](const MemCpyOperation &)
       {
         AnalyzeMemcpy(node);
@@ -967,6 +971,23 @@ Andersen::AnalyzeFreeze(const rvsdg::SimpleNode & node)
   Set_->MapRegisterToExistingPointerObject(output, operandPO);
 }
 
+void
+Andersen::AnalyzeSelect(const rvsdg::SimpleNode & node)
+{
+  JLM_ASSERT(is<SelectOperation>(node.GetOperation()));
+  const auto & output = *node.output(0);
+
+  if (!IsOrContainsPointerType(*output.Type()))
+    return;
+
+  // The result is either of the two value operands, so it can point to everything they point to
+  const auto trueValuePO = Set_->GetRegisterPointerObject(*node.input(1)->origin());
+  const auto falseValuePO = Set_->GetRegisterPointerObject(*node.input(2)->origin());
+  const auto outputPO = Set_->CreateRegisterPointerObject(output);
+  Constraints_->AddConstraint(SupersetConstraint(outputPO, trueValuePO));
+  Constraints_->AddConstraint(SupersetConstraint(outputPO, falseValuePO));
+}
+
 void
 Andersen::AnalyzeMemcpy(const rvsdg::SimpleNode & node)
 {
diff --git a/jlm/llvm/opt/alias-analyses/Andersen.hpp b/jlm/llvm/opt/alias-analyses/Andersen.hpp
index dee5a4b..e9e9133 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.hpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.hpp
@@ -391,6 +391,9 @@ private:
   void
   AnalyzeFreeze(const rvsdg::SimpleNode & node);
 
+  void
+  AnalyzeSelect(const rvsdg::SimpleNode & node);
+
   void
   AnalyzeMemcpy(const rvsdg::SimpleNode & node);
 
-- 
2.43.0


From abb33daf4193f995c782a81ef498ab177fafdd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 03/61] fix: Handle memmove in load chain separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 11723b1..c16f6ca 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -435,6 +435,13 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
                 currentOutput =
                     MemSetOperation::mapMemoryStateOutputToInput(*currentOutput).origin();
               },
+              [&](const MemMoveOperation &)
+              {
+                hasModRefChainLinkAboveInRegion = true;
+                currentModRefChain.add({ currentOutput, ModRefChainLink::Type::Modification });
+                currentOutput =
+                    MemMoveOperation::mapMemoryStateOutputToInput(*currentOutput).origin();
+              },
               [&](const CallOperation &)
               {
                 // FIXME: I really would like that state edges through calls would be recognized as
-- 
2.43.0


From 15037a85dbb43a1322239e995ee93f5aca52e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 04/61] fix: Accept undefined memory states in mod/ref
 summarization and encoding

---
 jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp    | 4 ++++
 jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp          | 4 ++++
 jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
index fc2e8c8..e5a9b05 100644
--- a/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp
@@ -303,6 +303,10 @@ AgnosticModRefSummarizer::AnnotateSimpleNode(const rvsdg::SimpleNode & node)
       {
         // Memory state operations are only used to route memory state edges
       },
+      [&](const UndefValueOperation &)
+      {
+        // An undefined memory state, e.g. left behind by inlining, refers to no memory
+      },
       [&]()
       {
         // Any remaining type of node should not involve any memory states
diff --git a/jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp b/jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp
index 64de0b9..c9956bb 100644
--- a/jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp
+++ b/jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp
@@ -790,6 +790,10 @@ MemoryStateEncoder::EncodeSimpleNode(const rvsdg::SimpleNode & simpleNode)
       {
         // Nothing needs to be done
       },
+      [&](const UndefValueOperation &)
+      {
+        // An undefined memory state, e.g. left behind by inlining, refers to no memory
+      },
       [&]()
       {
         // Ensure we took care of all memory state consuming/producing nodes
diff --git a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
index f06af58..44d147b 100644
--- a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
@@ -1472,6 +1472,11 @@ RegionAwareModRefSummarizer::AnnotateSimpleNode(
         // MemoryStateOperations are only used to route memory states, and can be ignored
         return std::nullopt;
       },
+      [&](const UndefValueOperation &) -> std::optional<ModRefSetIndex>
+      {
+        // An undefined memory state, e.g. left behind by inlining, refers to no memory
+        return std::nullopt;
+      },
       [&]() -> std::optional<ModRefSetIndex>
       {
         // Any remaining type of node should not involve any memory states
-- 
2.43.0


From ef07742a2f3405fff35da019d667798240e0e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 05/61] fix: Emit a switch for 1-bit conditions with more than
 two alternatives

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index c69d1ab..13d2878 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -1903,7 +1903,9 @@ IpGraphToLlvmConverter::create_terminator_instruction(const llvm::ControlFlowGra
   JLM_ASSERT(branch && is<BranchOperation>(branch));
 
   // conditional branch
-  if (Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
+  // Note that a switch on a 1-bit value can have a third, default alternative
+  if (node->NumOutEdges() == 2
+      && Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
     return create_conditional_branch(node);
 
   // switch
-- 
2.43.0


From 4a9e7873c7aa3904ef75a821c0d38ee08cca85f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 06/61] fix: Only split allocas whose accesses stay within a
 single element

---
 jlm/llvm/opt/AggregateAllocaSplitting.cpp | 67 ++++++++++++++++++++---
 jlm/llvm/opt/AggregateAllocaSplitting.hpp |  2 +-
 2 files changed, 59 insertions(+), 10 deletions(-)

diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.cpp b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
index 22961b0..e838dd0 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.cpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
@@ -106,15 +106,55 @@ AggregateAllocaSplitting::isSplitableType(const rvsdg::Type & type)
 
   for (const auto & elementType : structType->elementTypes())
   {
-    if (IsAggregateType(*elementType))
+    if (IsAggregateType(*elementType) && !isSplitableType(*elementType))
     {
-      return isSplitableType(*elementType);
+      return false;
     }
   }
 
   return true;
 }
 
+/**
+ * Determines the type of the element a \ref GetElementPtrOperation node addresses within an alloca.
+ *
+ * @param gepNode The \ref GetElementPtrOperation node.
+ * @param allocaNode The \ref AllocaOperation node.
+ * @return The type of the addressed element, if it is statically known that the node always
+ * addresses one particular non-aggregate element of \p allocaNode, otherwise nullptr.
+ */
+static std::shared_ptr<const rvsdg::Type>
+tryGetAddressedElementType(const rvsdg::SimpleNode & gepNode, rvsdg::SimpleNode & allocaNode)
+{
+  const auto allocaOperation =
+      util::assertedCast<const AllocaOperation>(&allocaNode.GetOperation());
+
+  // The base address must be the address of the alloca, and only of this alloca
+  auto & baseAddress = *GetElementPtrOperation::getBaseAddressInput(gepNode).origin();
+  if (&llvm::traceOutput(baseAddress) != &AllocaOperation::getPointerOutput(allocaNode))
+    return nullptr;
+
+  const auto gepConstant = GetElementPtrOperation::tryGetAsConstant(gepNode);
+  if (!gepConstant.has_value() || *gepConstant->pointeeType != *allocaOperation->allocatedType())
+    return nullptr;
+
+  const auto & indices = gepConstant->indices;
+  if (indices.size() < 2 || indices[0] != 0)
+    return nullptr;
+
+  auto type = gepConstant->pointeeType;
+  for (size_t n = 1; n < indices.size(); n++)
+  {
+    const auto structType = std::dynamic_pointer_cast<const StructType>(type);
+    if (!structType)
+      return nullptr;
+
+    type = structType->getElementType(indices[n]);
+  }
+
+  return IsAggregateType(*type) ? nullptr : type;
+}
+
 std::optional<AggregateAllocaSplitting::AllocaTraceInfo>
 AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 {
@@ -232,7 +272,9 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
                   [&](const GetElementPtrOperation &)
                   {
                     JLM_ASSERT(userNode->input(0) == &user);
-                    JLM_ASSERT(GetElementPtrOperation::tryGetAsConstant(simpleNode).has_value());
+                    if (!tryGetAddressedElementType(simpleNode, allocaNode))
+                      return false;
+
                     allocaTraceInfo.allocaConsumers.push_back(&simpleNode);
                     return true;
                   },
@@ -261,7 +303,8 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 
   for (const auto allocaConsumer : allocaTraceInfo.allocaConsumers)
   {
-    if (!checkGetElementPtrUsers(*allocaConsumer))
+    const auto elementType = tryGetAddressedElementType(*allocaConsumer, allocaNode);
+    if (!checkGetElementPtrUsers(*allocaConsumer, *elementType))
       return std::nullopt;
   }
 
@@ -269,7 +312,9 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 }
 
 bool
-AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode)
+AggregateAllocaSplitting::checkGetElementPtrUsers(
+    const rvsdg::SimpleNode & gepNode,
+    const rvsdg::Type & elementType)
 {
   [[maybe_unused]] auto gepOperation =
       dynamic_cast<const GetElementPtrOperation *>(&gepNode.GetOperation());
@@ -370,16 +415,20 @@ AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepN
               auto & operation = simpleNode.GetOperation();
               return rvsdg::MatchTypeWithDefault(
                   operation,
-                  [&](const LoadOperation &)
+                  [&](const LoadOperation & loadOperation)
                   {
-                    return true;
+                    // The load must stay within the element
+                    return GetTypeStoreSize(*loadOperation.GetLoadedType())
+                        <= GetTypeAllocSize(elementType);
                   },
-                  [&](const StoreOperation &)
+                  [&](const StoreOperation & storeOperation)
                   {
                     if (&user != &StoreOperation::AddressInput(simpleNode))
                       return false;
 
-                    return true;
+                    // The store must stay within the element
+                    return GetTypeStoreSize(storeOperation.GetStoredType())
+                        <= GetTypeAllocSize(elementType);
                   },
                   [&](const IOBarrierOperation &)
                   {
diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.hpp b/jlm/llvm/opt/AggregateAllocaSplitting.hpp
index 6eb409a..549f306 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.hpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.hpp
@@ -44,7 +44,7 @@ private:
   splitAllocaNode(const AllocaTraceInfo & allocaTraceInfo);
 
   static bool
-  checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode);
+  checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode, const rvsdg::Type & elementType);
 
   static std::optional<AllocaTraceInfo>
   isSplitable(rvsdg::SimpleNode & allocaNode);
-- 
2.43.0


From 59250e53b80a7107cc74a255e3f25acbdb53bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 07/61] fix: Do not inline functions whose context variables
 can not be routed to the call

---
 jlm/llvm/opt/inlining.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index a4eebf7..0ee1f70 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -120,6 +120,31 @@ routeContextVariablesToRegion(rvsdg::Region & region, const rvsdg::LambdaNode &
   return deps;
 }
 
+/**
+ * Checks if the context variables of \p callee can be made available in \p region.
+ * This is not possible if the \p callee is inside a phi node that does not surround \p region,
+ * and uses one of the phi node's recursion variables.
+ * @param region the region to make the context variables available in
+ * @param callee the function being called
+ * @return true if \ref routeContextVariablesToRegion() is possible, otherwise false
+ */
+static bool
+canRouteContextVariablesToRegion(const rvsdg::Region & region, const rvsdg::LambdaNode & callee)
+{
+  constexpr bool enableCaching = false;
+  llvm::OutputTracer tracer(enableCaching);
+  tracer.setEnterPhiNodes(false);
+
+  for (auto & ctxvar : callee.GetContextVars())
+  {
+    const auto & traced = tracer.trace(*ctxvar.input->origin());
+    if (traced.region() != &region && !rvsdg::Region::isAncestor(region, *traced.region()))
+      return false;
+  }
+
+  return true;
+}
+
 /**
  * After the body of a function has been copied to the region of a call node,
  * and inputs and outputs of the call have been routed to the copied body,
@@ -447,6 +472,10 @@ FunctionInlining::considerCallForInlining(
   if (!context_->inlineableFunctions.Contains(callee))
     return;
 
+  // We can only inline functions if everything they depend on can be routed to the call
+  if (!canRouteContextVariablesToRegion(*callNode.region(), *callee))
+    return;
+
   // At this point we know that it is technically possible to do inlining
   context_->numInlineableCalls++;
   if (shouldInline(callNode, callerLambda, *callee))
-- 
2.43.0


From 6c7ca27097df0dc1a138cdc4dddae2bd4fd6557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 08/61] fix: Do not reduce strength based on the recurrence of
 an unrelated loop

---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index 26b4e3b..a3908c7 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -350,9 +350,10 @@ LoopStrengthReduction::HoistChrec(
     return &traced;
   }
 
-  // This is fine to do and wont throw since we know, due to the cases above and the invariance
-  // check at the start, that the region of the chrec output is guaranteed to be an ancestor of the
-  // theta region
+  // The chrec can also belong to a loop that does not surround the theta, e.g. a loop before it
+  if (!rvsdg::Region::isAncestor(*thetaNode.region(), *targetLoop.subregion()))
+    return std::nullopt;
+
   auto & routed = rvsdg::RouteToRegion(*chrecOutput, *thetaNode.region());
   return &routed;
 }
@@ -395,6 +396,10 @@ LoopStrengthReduction::HoistSCEVExpresssion(
       return &traced;
     }
 
+    if (thetaNode.region() != targetLoop->subregion()
+        && !rvsdg::Region::isAncestor(*thetaNode.region(), *targetLoop->subregion()))
+      return std::nullopt;
+
     auto & routed = rvsdg::RouteToRegion(*initLoopVar.pre, *thetaNode.region());
     return &routed;
   }
-- 
2.43.0


From e72b5cc6e3a4999e84063469ef5dc1aae3454eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 09/61] fix: Leave loads of constants alone when the loaded
 element can not be extracted

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 124 ++++++++++++++++----------
 1 file changed, 79 insertions(+), 45 deletions(-)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index faec2db..3bd52f3 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -1124,13 +1124,30 @@ copyRegionSlice(
   }
 }
 
-static rvsdg::Output &
+/**
+ * Copies everything \p output depends on in its delta subregion to \p targetRegion.
+ *
+ * @return The copy of \p output, or nullptr if a dependency of the delta is not available in
+ * \p targetRegion. This is the case if the delta is in a phi node that does not surround
+ * \p targetRegion, and it uses one of the phi node's recursion variables.
+ */
+static rvsdg::Output *
 copyDeltaRegionSlice(rvsdg::Output & output, rvsdg::Region & targetRegion)
 {
   auto deltaNode = util::assertedCast<rvsdg::DeltaNode>(output.region()->node());
 
   auto regionSlice = computeRegionSlice(output);
 
+  for (auto argument : regionSlice.arguments.Items())
+  {
+    const auto & origin = *deltaNode->MapBinderContextVar(*argument).input->origin();
+    if (origin.region() != &targetRegion
+        && !rvsdg::Region::isAncestor(targetRegion, *origin.region()))
+    {
+      return nullptr;
+    }
+  }
+
   rvsdg::SubstitutionMap substitutionMap;
   for (auto oldArgument : regionSlice.arguments.Items())
   {
@@ -1140,10 +1157,16 @@ copyDeltaRegionSlice(rvsdg::Output & output, rvsdg::Region & targetRegion)
   }
 
   copyRegionSlice(targetRegion, regionSlice, substitutionMap);
-  return substitutionMap.lookup(output);
+  return &substitutionMap.lookup(output);
 }
 
-static rvsdg::Output &
+/**
+ * Makes the element at \p elementOffsetInBytes of the constant \p output available in
+ * \p targetRegion.
+ *
+ * @return The element, or nullptr if it could not be extracted from the constant.
+ */
+static rvsdg::Output *
 copyDeltaElement(
     const uint64_t elementOffsetInBytes,
     rvsdg::Output & output,
@@ -1154,102 +1177,111 @@ copyDeltaElement(
   {
     return rvsdg::MatchTypeWithDefault(
         node->GetOperation(),
-        [&](const IntegerConstantOperation &) -> rvsdg::Output &
+        [&](const IntegerConstantOperation & constantOperation) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          auto copiedOutput = &copyDeltaRegionSlice(output, targetRegion);
-
-          const auto loadBitType = util::assertedCast<const rvsdg::BitType>(loadedType.get());
-          const auto copiedBitType =
-              util::assertedCast<const rvsdg::BitType>(copiedOutput->Type().get());
-          if (copiedBitType->nbits() == loadBitType->nbits())
-          {
-            return *copiedOutput;
-          }
+          // FIXME: Loads that start within the integer, or are wider than it, are not supported
+          const auto loadBitType = dynamic_cast<const rvsdg::BitType *>(loadedType.get());
+          const auto numBits = constantOperation.Representation().nbits();
+          if (elementOffsetInBytes != 0 || !loadBitType || loadBitType->nbits() > numBits)
+            return nullptr;
 
-          if (loadBitType->nbits() < copiedBitType->nbits())
-          {
-            return *TruncOperation::createNode(*copiedOutput, loadedType).output(0);
-          }
+          const auto copiedOutput = copyDeltaRegionSlice(output, targetRegion);
+          if (!copiedOutput || loadBitType->nbits() == numBits)
+            return copiedOutput;
 
-          // FIXME: In this case, we would need to concat multiple integers.
-          return *copiedOutput;
+          return TruncOperation::createNode(*copiedOutput, loadedType).output(0);
         },
-        [&](const ConstantFP &) -> rvsdg::Output &
+        [&](const ConstantFP &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
           return copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const ConstantPointerNullOperation &) -> rvsdg::Output &
+        [&](const ConstantPointerNullOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
           return copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const FunctionToPointerOperation &) -> rvsdg::Output &
+        [&](const FunctionToPointerOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
           return copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const IntToPtrOperation &) -> rvsdg::Output &
+        [&](const IntToPtrOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
           return copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const GetElementPtrOperation &) -> rvsdg::Output &
+        [&](const GetElementPtrOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
+          if (elementOffsetInBytes != 0)
+            return nullptr;
+
           return copyDeltaRegionSlice(output, targetRegion);
         },
-        [&](const ConstantAggregateZeroOperation &) -> rvsdg::Output &
+        [&](const ConstantAggregateZeroOperation &) -> rvsdg::Output *
         {
           if (is<PointerType>(loadedType))
           {
-            return *ConstantPointerNullOperation::createNode(targetRegion).output(0);
+            return ConstantPointerNullOperation::createNode(targetRegion).output(0);
           }
 
           if (const auto bitType = std::dynamic_pointer_cast<const rvsdg::BitType>(loadedType))
           {
-            return *IntegerConstantOperation::Create(targetRegion, bitType->nbits(), 0).output(0);
+            return IntegerConstantOperation::Create(targetRegion, bitType->nbits(), 0).output(0);
           }
 
           if (const auto floatType = std::dynamic_pointer_cast<const FloatingPointType>(loadedType))
           {
             const auto zero = ConstantFP::getZeroRepresentation(floatType->size());
-            return *ConstantFP::createNode(targetRegion, floatType->size(), zero).output(0);
+            return ConstantFP::createNode(targetRegion, floatType->size(), zero).output(0);
           }
 
           if (const auto vectorType = std::dynamic_pointer_cast<const FixedVectorType>(loadedType))
           {
-            return *ConstantAggregateZeroOperation::createNode(targetRegion, vectorType).output(0);
+            return ConstantAggregateZeroOperation::createNode(targetRegion, vectorType).output(0);
           }
 
-          throw std::logic_error("Unsupported load type");
+          return nullptr;
         },
-        [&](const ConstantArrayOperation & constantArrayOperation) -> rvsdg::Output &
+        [&](const ConstantArrayOperation & constantArrayOperation) -> rvsdg::Output *
         {
           const auto arrayType = constantArrayOperation.type();
           const auto elementSizeInBytes = GetTypeAllocSize(*arrayType->GetElementType());
 
           const auto index = elementOffsetInBytes / elementSizeInBytes;
+          if (index >= node->ninputs())
+            return nullptr;
+
           return copyDeltaElement(
               elementOffsetInBytes - (elementSizeInBytes * index),
               *node->input(index)->origin(),
               targetRegion,
               loadedType);
         },
-        [&](const ConstantDataArrayOperation & constantDataArrayOperation) -> rvsdg::Output &
+        [&](const ConstantDataArrayOperation & constantDataArrayOperation) -> rvsdg::Output *
         {
           const auto arrayType = constantDataArrayOperation.type();
           const auto elementSizeInBytes = GetTypeAllocSize(*arrayType->GetElementType());
 
           const auto index = elementOffsetInBytes / elementSizeInBytes;
+          if (index >= node->ninputs())
+            return nullptr;
+
           return copyDeltaElement(
               elementOffsetInBytes - (elementSizeInBytes * index),
               *node->input(index)->origin(),
               targetRegion,
               loadedType);
         },
-        [&](const ConstantStructOperation & constantStruct) -> rvsdg::Output &
+        [&](const ConstantStructOperation & constantStruct) -> rvsdg::Output *
         {
           auto & structType = constantStruct.type();
 
@@ -1282,15 +1314,17 @@ copyDeltaElement(
               targetRegion,
               loadedType);
         },
-        [&]() -> rvsdg::Output &
+        [&]() -> rvsdg::Output *
         {
-          throw std::logic_error("Unsupported operation: " + node->DebugString());
+          return nullptr;
         });
   }
 
   if (rvsdg::TryGetRegionParentNode<rvsdg::DeltaNode>(output))
   {
-    JLM_ASSERT(elementOffsetInBytes == 0);
+    if (elementOffsetInBytes != 0)
+      return nullptr;
+
     return copyDeltaRegionSlice(output, targetRegion);
   }
 
@@ -1317,19 +1351,19 @@ StoreValueForwarding::forwardLoadWithoutMemoryStates(
   JLM_ASSERT(tracedDelta.gepConstants.size() <= 1);
   const uint64_t offsetInBytes =
       tracedDelta.gepConstants.empty() ? 0 : tracedDelta.gepConstants.front().getOffsetInBytes();
-  auto & newOutput = copyDeltaElement(
+  const auto newOutput = copyDeltaElement(
       offsetInBytes,
       deltaResultOrigin,
       *loadNode.region(),
       loadOperation->GetLoadedType());
 
-  if (*loadOperation->GetLoadedType() != *newOutput.Type())
+  if (!newOutput || *loadOperation->GetLoadedType() != *newOutput->Type())
   {
     // FIXME:
     return;
   }
 
-  LoadOperation::LoadedValueOutput(loadNode).divert_users(&newOutput);
+  LoadOperation::LoadedValueOutput(loadNode).divert_users(newOutput);
   context_->numForwardedLoadsWithoutMemoryState++;
 }
 
-- 
2.43.0


From f46e68ae44d76ed8342d100dc547c3adbe6f363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 10/61] fix: Account for compressed memory states when inlining

---
 jlm/llvm/opt/inlining.cpp | 64 +++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index 0ee1f70..d449526 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -11,6 +11,7 @@
 #include <jlm/llvm/ir/operators/operators.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/ir/Trace.hpp>
+#include <jlm/llvm/opt/alias-analyses/PointsToGraph.hpp>
 #include <jlm/llvm/opt/inlining.hpp>
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
@@ -211,6 +212,16 @@ tryRerouteMemoryStateMergeAndSplit(
   if (!lambdaExitSplitOp)
     return;
 
+  // Memory nodes can be compressed into the external memory node, and different functions compress
+  // different sets of memory nodes. A memory node that only has its own memory state in one of the
+  // two functions may therefore be a part of the external memory state in the other.
+  const auto externalNode = aa::PointsToGraph::externalMemoryNode;
+  const auto externalEntryInput =
+      CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(callEntryMerge, externalNode);
+  const auto externalExitInput = LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
+      *lambdaExitSplit,
+      externalNode);
+
   // For each memory state output of the lambdaEntrySplit, move its users or create undef nodes
   for (auto & output : lambdaEntrySplit->Outputs())
   {
@@ -218,16 +229,37 @@ tryRerouteMemoryStateMergeAndSplit(
     auto mergeInput = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
         callEntryMerge,
         memoryStateId);
+
+    std::vector<rvsdg::Output *> origins;
     if (mergeInput)
+      origins.push_back(mergeInput->origin());
+    else if (externalEntryInput)
+      origins.push_back(externalEntryInput->origin());
+
+    if (memoryStateId == externalNode)
     {
-      output.divert_users(mergeInput->origin());
+      // The memory states of the call without a counterpart inside the function
+      for (auto inputId : callEntryMergeOp->getMemoryNodeIds())
+      {
+        if (LambdaEntryMemoryStateSplitOperation::tryMapMemoryNodeIdToOutput(
+                *lambdaEntrySplit,
+                inputId))
+          continue;
+
+        auto input = CallEntryMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
+            callEntryMerge,
+            inputId);
+        origins.push_back(input->origin());
+      }
     }
-    else
+
+    if (origins.empty())
     {
       // The call has no matching memory state going into it, so we create an undef node
-      const auto undef = UndefValueOperation::Create(*output.region(), output.Type());
-      output.divert_users(undef);
+      origins.push_back(UndefValueOperation::Create(*output.region(), output.Type()));
     }
+    output.divert_users(
+        origins.size() == 1 ? origins.front() : MemoryStateMergeOperation::Create(origins));
   }
 
   // For each memory state output of the callExitSplit, move its users
@@ -237,9 +269,15 @@ tryRerouteMemoryStateMergeAndSplit(
     auto exitMergeInput = LambdaExitMemoryStateMergeOperation::tryMapMemoryNodeIdToInput(
         *lambdaExitSplit,
         memoryStateId);
+
+    std::vector<rvsdg::Output *> origins;
     if (exitMergeInput)
     {
-      output.divert_users(exitMergeInput->origin());
+      origins.push_back(exitMergeInput->origin());
+    }
+    else if (externalExitInput)
+    {
+      origins.push_back(externalExitInput->origin());
     }
     else
     {
@@ -249,8 +287,22 @@ tryRerouteMemoryStateMergeAndSplit(
           memoryStateId);
       if (!entryMergeInput)
         throw std::runtime_error("MemoryStateId in call exit split not found in call entry merge");
-      output.divert_users(entryMergeInput->origin());
+      origins.push_back(entryMergeInput->origin());
+    }
+
+    if (memoryStateId == externalNode)
+    {
+      // The memory states of the function without a counterpart after the call
+      for (auto & input : lambdaExitSplit->Inputs())
+      {
+        auto inputId = LambdaExitMemoryStateMergeOperation::mapInputToMemoryNodeId(input);
+        if (!CallExitMemoryStateSplitOperation::tryMapMemoryNodeIdToOutput(callExitSplit, inputId))
+          origins.push_back(input.origin());
+      }
     }
+
+    output.divert_users(
+        origins.size() == 1 ? origins.front() : MemoryStateMergeOperation::Create(origins));
   }
 }
 
-- 
2.43.0


From b4d1efce2875517d4199bbedcd0a77aa73690c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 11/61] fix: Only ignore memory states of other allocas when
 reducing loads

---
 jlm/llvm/ir/operators/Load.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 71d452d..95a11ad 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -73,21 +73,27 @@ is_load_alloca_reducible(const std::vector<rvsdg::Output *> & operands)
   return false;
 }
 
+// A memory state can only be ignored by a load from an alloca, if everything it represents is another
+// alloca. This is not the case for all states of a store to another alloca, as a store can have
+// several memory states, and the memory that the load reads from may be represented by any of them.
 static bool
 is_reducible_state(const rvsdg::Output * state, const rvsdg::Node * loadalloca)
 {
   auto [storeNode, storeOperation] =
       rvsdg::TryGetSimpleNodeAndOptionalOp<StoreNonVolatileOperation>(*state);
-  if (storeOperation)
+  if (!storeOperation)
+    return false;
+
+  while (storeOperation)
   {
-    auto address = StoreNonVolatileOperation::AddressInput(*storeNode).origin();
-    auto [allocaNode, allocaOperation] =
-        jlm::rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(*address);
-    if (allocaOperation && allocaNode != loadalloca)
-      return true;
+    state = StoreNonVolatileOperation::MapMemoryStateOutputToInput(*state).origin();
+    std::tie(storeNode, storeOperation) =
+        rvsdg::TryGetSimpleNodeAndOptionalOp<StoreNonVolatileOperation>(*state);
   }
 
-  return false;
+  auto [allocaNode, allocaOperation] =
+      rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(*state);
+  return allocaOperation && allocaNode != loadalloca;
 }
 
 /*
-- 
2.43.0


From c1e499431f1e154b7e2a1ec46ed62cb9586fb1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 12/61] fix: Do not treat loads of read-only memory as
 uninitialized in store value forwarding

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index 3bd52f3..f75a6ac 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -547,6 +547,29 @@ private:
     return response;
   }
 
+  /**
+   * @return true if the load can only read from memory that was allocated by an alloca.
+   */
+  bool
+  isLoadedAddressAlwaysAlloca() const
+  {
+    constexpr size_t maxTraceCollectionSize = 100;
+    TraceCollection traceCollection;
+    if (!TraceAllPointerOrigins(
+            TracePointerOriginPrecise(*loadedAddress),
+            traceCollection,
+            maxTraceCollectionSize))
+      return false;
+
+    for (const auto & [topOrigin, offset] : traceCollection.TopOrigins)
+    {
+      if (!rvsdg::IsOwnerNodeOperation<AllocaOperation>(*topOrigin))
+        return false;
+    }
+
+    return true;
+  }
+
   /**
    * Performs a simple alias analysis query between the LoadTracingInfo's \ref loadNode,
    * and the other load node given as a parameter, to determine if they read from the same address.
@@ -768,6 +791,10 @@ private:
             rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(tracedOutput);
         allocaNode && allocaOp)
     {
+      // The memory states do not represent read-only memory, which is always initialized
+      if (!isLoadedAddressAlwaysAlloca())
+        return ValueOrigin::createUnknown();
+
       return ValueOrigin::createUninitialized();
     }
 
-- 
2.43.0


From 7ac56c99dbfe8a5ae2b502a7b19f671f9d8ccbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 13/61] fix: Represent phis of functions by pointers

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index 13d2878..cf32514 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -366,7 +366,10 @@ IpGraphToLlvmConverter::convert_phi(
   if (rvsdg::is<MemoryStateType>(phi.Type()))
     return nullptr;
 
-  auto t = typeConverter.ConvertJlmType(*phi.Type(), llvmContext);
+  // Functions are represented by their address
+  auto t = rvsdg::is<rvsdg::FunctionType>(phi.Type())
+             ? ::llvm::PointerType::getUnqual(llvmContext)
+             : typeConverter.ConvertJlmType(*phi.Type(), llvmContext);
   return builder.CreatePHI(t, op.narguments());
 }
 
-- 
2.43.0


From 3aed96c6e945221f25f0859131293b096f6fb0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 14/61] fix: Do not predict the evolution of loop variables
 that are not updated by adding a step

---
 jlm/llvm/opt/ScalarEvolution.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 2a89ee2..02943a8 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -1115,8 +1115,10 @@ ScalarEvolution::FindDependenciesForSCEV(
 
   if (const auto addSCEV = dynamic_cast<const SCEVAddExpr *>(&scev))
   {
-    FindDependenciesForSCEV(*addSCEV->GetLeftOperand(), dependencies, DependencyOp::Add);
-    FindDependenciesForSCEV(*addSCEV->GetRightOperand(), dependencies, DependencyOp::Add);
+    // An addition below a multiplication is still subject to the multiplication
+    const auto operandOp = op == DependencyOp::Mul ? DependencyOp::Mul : DependencyOp::Add;
+    FindDependenciesForSCEV(*addSCEV->GetLeftOperand(), dependencies, operandOp);
+    FindDependenciesForSCEV(*addSCEV->GetRightOperand(), dependencies, operandOp);
   }
 
   if (const auto mulSCEV = dynamic_cast<const SCEVMulExpr *>(&scev))
@@ -1917,7 +1919,14 @@ bool
 ScalarEvolution::CanCreateChainRecurrence(rvsdg::Output & output, DependencyGraph & dependencyGraph)
 {
   auto deps = dependencyGraph[&output];
-  if (deps.find(&output) != deps.end())
+  if (deps.find(&output) == deps.end())
+  {
+    // A loop variable that is not updated based on its own value does not evolve by adding a step,
+    // but is assigned a new value in each iteration
+    if (rvsdg::TryGetRegionParentNode<rvsdg::ThetaNode>(output))
+      return false;
+  }
+  else
   {
     if (deps[&output].count != 1)
     {
-- 
2.43.0


From cb7a787e856575f7f22d009eda1e35c16ac4a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 15/61] fix: Do not redirect the memory states of volatile
 loads

---
 jlm/llvm/opt/InvariantValueRedirection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jlm/llvm/opt/InvariantValueRedirection.cpp b/jlm/llvm/opt/InvariantValueRedirection.cpp
index bb526ed..862d2b1 100644
--- a/jlm/llvm/opt/InvariantValueRedirection.cpp
+++ b/jlm/llvm/opt/InvariantValueRedirection.cpp
@@ -401,6 +401,11 @@ InvariantValueRedirection::redirectCallOutputs(rvsdg::SimpleNode & callNode)
 void
 InvariantValueRedirection::redirectLoadMemoryStates(rvsdg::SimpleNode & loadNode)
 {
+  // A volatile load must not be reordered with other accesses of the same memory, even if the
+  // loaded value is not used
+  if (is<LoadVolatileOperation>(&loadNode))
+    return;
+
   if (LoadOperation::LoadedValueOutput(loadNode).IsDead())
   {
     for (auto & memoryStateOutput : LoadOperation::MemoryStateOutputs(loadNode))
-- 
2.43.0


From 3b58ddc17cfc5befad6c0f108fb3517247a98a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 16/61] fix: Truncate constants of recurrences to the width of
 the induction variable

---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index a3908c7..870c52a 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -306,6 +306,15 @@ LoopStrengthReduction::ReplaceCandidateOperation(
   Context_->IncrementOperationsReducedCount(thetaNode);
 }
 
+// Constants in SCEVs are 64 bits wide, as they are computed without taking the width of the values
+// they describe into account
+static IntegerValueRepresentation
+TruncateToNumBits(const int64_t value, const size_t numBits)
+{
+  const IntegerValueRepresentation representation(64, value);
+  return numBits < 64 ? representation.slice(0, numBits) : representation.sext(numBits - 64);
+}
+
 std::optional<rvsdg::Output *>
 LoopStrengthReduction::HoistChrec(
     const SCEVChainRecurrence & chrec,
@@ -368,7 +377,7 @@ LoopStrengthReduction::HoistSCEVExpresssion(
   {
     const auto value = constant->GetValue();
     const auto & constantNode =
-        IntegerConstantOperation::Create(*thetaNode.region(), numBits, value);
+        IntegerConstantOperation::Create(*thetaNode.region(), TruncateToNumBits(value, numBits));
 
     return constantNode.output(0);
   }
@@ -551,7 +560,9 @@ LoopStrengthReduction::CreateNewArithmeticInductionVariable(
     {
       const auto stepValue = stepConstant->GetValue();
       const auto & stepValueNode =
-          IntegerConstantOperation::Create(*thetaNode.subregion(), numBits, stepValue);
+          IntegerConstantOperation::Create(
+              *thetaNode.subregion(),
+              TruncateToNumBits(stepValue, numBits));
       stepOutput = stepValueNode.output(0);
     }
     else if (const auto stepInit = dynamic_cast<const SCEVInit *>(stepSCEV.get()))
-- 
2.43.0


From 924f73a55820b8199bbba2d510d0f3d2e990a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 17/61] fix: Treat calls as modifications in load chain
 separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index c16f6ca..7fd00d5 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -446,6 +446,7 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
               {
                 // FIXME: I really would like that state edges through calls would be recognized as
                 // either modifying or just referencing.
+                hasModRefChainLinkAboveInRegion = true;
                 traceModRefChains(*CallOperation::GetMemoryStateInput(node).origin(), summary);
                 doneTracing = true;
               },
-- 
2.43.0


From 5108b8ceaa346a45e24922f94382a3599a3ce20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 18/61] fix: Do not look through zero extensions when analysing
 the evolution of values

---
 jlm/llvm/opt/ScalarEvolution.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/ScalarEvolution.cpp b/jlm/llvm/opt/ScalarEvolution.cpp
index 02943a8..bd69d17 100644
--- a/jlm/llvm/opt/ScalarEvolution.cpp
+++ b/jlm/llvm/opt/ScalarEvolution.cpp
@@ -964,8 +964,7 @@ ScalarEvolution::GetOrCreateSCEVForOutput(rvsdg::Output & output)
       const auto barredInputOrigin = IOBarrierOperation::BarredInput(*simpleNode).origin();
       result = GetOrCreateSCEVForOutput(*barredInputOrigin);
     }
-    else if (
-        rvsdg::is<SExtOperation>(*simpleOperation) || rvsdg::is<ZExtOperation>(*simpleOperation))
+    else if (rvsdg::is<SExtOperation>(*simpleOperation))
     {
       JLM_ASSERT(simpleNode->ninputs() == 1);
       result = GetOrCreateSCEVForOutput(*simpleNode->input(0)->origin());
-- 
2.43.0


From 0e46b06309a04049923585cacaa632d02597e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 19/61] fix: Respect the default alternative of matches on
 1-bit values

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index cf32514..1d7999f 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -326,17 +326,27 @@ IpGraphToLlvmConverter::convert_match(
   JLM_ASSERT(is<rvsdg::MatchOperation>(op));
   auto mop = static_cast<const rvsdg::MatchOperation *>(&op);
 
-  if (is_identity_mapping(*mop))
-    return Context_->value(args[0]);
-
   if (mop->nalternatives() == 2 && mop->nbits() == 1)
   {
+    const auto trueAlternative = mop->alternative(1);
+    const auto falseAlternative = mop->alternative(0);
+    if (trueAlternative == 1 && falseAlternative == 0)
+      return Context_->value(args[0]);
+
     auto i1 = ::llvm::IntegerType::get(builder.getContext(), 1);
-    auto t = ::llvm::ConstantInt::getFalse(i1);
-    auto f = ::llvm::ConstantInt::getTrue(i1);
+    auto t = ::llvm::ConstantInt::get(i1, trueAlternative);
+    auto f = ::llvm::ConstantInt::get(i1, falseAlternative);
+
+    // Both values select the same alternative
+    if (trueAlternative == falseAlternative)
+      return t;
+
     return builder.CreateSelect(Context_->value(args[0]), t, f);
   }
 
+  if (is_identity_mapping(*mop))
+    return Context_->value(args[0]);
+
   /* FIXME: This is not working if the match is not directly connected to a gamma node. */
   return Context_->value(args[0]);
 }
-- 
2.43.0


From 86c766a727da30ebae6a8ee0c32e4cf2c223993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 20/61] fix: Sign extend narrow start and step values in
 loop-strength reduction

---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index 870c52a..f3d55c1 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -315,6 +315,18 @@ TruncateToNumBits(const int64_t value, const size_t numBits)
   return numBits < 64 ? representation.slice(0, numBits) : representation.sext(numBits - 64);
 }
 
+// SCEVs look through sign extensions, so the values they refer to can be narrower than the value they
+// describe
+static rvsdg::Output *
+SignExtendToNumBits(rvsdg::Output & output, const size_t numBits)
+{
+  const auto bitType = std::dynamic_pointer_cast<const rvsdg::BitType>(output.Type());
+  if (!bitType || bitType->nbits() == numBits)
+    return &output;
+
+  return &SExtOperation::create(numBits, output);
+}
+
 std::optional<rvsdg::Output *>
 LoopStrengthReduction::HoistChrec(
     const SCEVChainRecurrence & chrec,
@@ -544,7 +556,7 @@ LoopStrengthReduction::CreateNewArithmeticInductionVariable(
     if (!hoistedConstant.has_value())
       return std::nullopt;
 
-    return thetaNode.AddLoopVar(*hoistedConstant);
+    return thetaNode.AddLoopVar(SignExtendToNumBits(**hoistedConstant, numBits));
   }
   if (SCEVChainRecurrence::IsAffine(chrec))
   {
@@ -567,7 +579,7 @@ LoopStrengthReduction::CreateNewArithmeticInductionVariable(
     }
     else if (const auto stepInit = dynamic_cast<const SCEVInit *>(stepSCEV.get()))
     {
-      stepOutput = &stepInit->GetPrePointer();
+      stepOutput = SignExtendToNumBits(stepInit->GetPrePointer(), numBits);
     }
     else if (const auto stepNAryExpr = dynamic_cast<const SCEVNAryExpr *>(stepSCEV.get()))
     {
@@ -587,7 +599,7 @@ LoopStrengthReduction::CreateNewArithmeticInductionVariable(
     if (!hoistedStart.has_value())
       return std::nullopt;
 
-    auto newIV = thetaNode.AddLoopVar(*hoistedStart);
+    auto newIV = thetaNode.AddLoopVar(SignExtendToNumBits(**hoistedStart, numBits));
 
     auto & newAddNode =
         jlm::rvsdg::CreateOpNode<IntegerAddOperation>({ newIV.pre, stepOutput }, numBits);
-- 
2.43.0


From e627f9a4a2e5b919b21be3488308369a799ef870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 21/61] fix: Do not hoist calls and memmoves out of loops based
 on their memory state

---
 jlm/llvm/opt/push.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 6f9fc19..e4e38ad 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -3,7 +3,9 @@
  * See COPYING for terms of redistribution.
  */
 
+#include <jlm/llvm/ir/operators/call.hpp>
 #include <jlm/llvm/ir/operators/delta.hpp>
+#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/opt/push.hpp>
 #include <jlm/rvsdg/control.hpp>
@@ -109,6 +111,11 @@ NodeHoisting::isInvariantMemoryStateLoopVar(const rvsdg::ThetaNode::LoopVar & lo
   if (userNode != originNode)
     return false;
 
+  // The effect of these operations can depend on the memory they modify, i.e., executing them once
+  // is not the same as executing them once per iteration
+  if (is<CallOperation>(userNode) || is<MemMoveOperation>(userNode))
+    return false;
+
   return true;
 }
 
-- 
2.43.0


From 343a54c0a85975060fa164af14af4d35e8a5e9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 22/61] fix: Do not mistake memory states threaded through
 different structural nodes for invariant

---
 jlm/llvm/opt/push.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index e4e38ad..4727c35 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -105,10 +105,11 @@ NodeHoisting::isInvariantMemoryStateLoopVar(const rvsdg::ThetaNode::LoopVar & lo
   if (loopVar.pre->nusers() != 1)
     return false;
 
-  const auto userNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.pre->Users().begin());
-  const auto originNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.post->origin());
+  const auto userNode = rvsdg::TryGetOwnerNode<rvsdg::Node>(*loopVar.pre->Users().begin());
+  const auto originNode = rvsdg::TryGetOwnerNode<rvsdg::Node>(*loopVar.post->origin());
 
-  if (userNode != originNode)
+  // Different nodes, e.g., two consecutive inner loops, can each have an effect on the memory state
+  if (userNode == nullptr || userNode != originNode)
     return false;
 
   // The effect of these operations can depend on the memory they modify, i.e., executing them once
-- 
2.43.0


From af75019756f014426a06d457bc19f4265920cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 23/61] fix: Keep memory states in order when reducing loads of
 stack variables

---
 jlm/llvm/ir/operators/Load.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 95a11ad..05cc4f9 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -153,26 +153,31 @@ perform_load_alloca_reduction(
 {
   const auto allocaNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[0]);
 
-  std::vector<rvsdg::Output *> loadstates;
-  std::vector<rvsdg::Output *> otherstates;
+  std::vector<rvsdg::Output *> loadStates;
+  std::vector<rvsdg::Output *> results(operands.size(), nullptr);
   for (size_t n = 1; n < operands.size(); n++)
   {
     const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[n]);
     if (!is<AllocaOperation>(node) || node == allocaNode)
-      loadstates.push_back(operands[n]);
+      loadStates.push_back(operands[n]);
     else
-      otherstates.push_back(operands[n]);
+      results[n] = operands[n];
   }
 
   auto ld = LoadNonVolatileOperation::Create(
       operands[0],
-      loadstates,
+      loadStates,
       op.GetLoadedType(),
       op.GetAlignment());
 
-  std::vector<rvsdg::Output *> results(1, ld[0]);
-  results.insert(results.end(), std::next(ld.begin()), ld.end());
-  results.insert(results.end(), otherstates.begin(), otherstates.end());
+  // Every result takes the place of the memory state output at the same position
+  results[0] = ld[0];
+  for (size_t n = 1, s = 1; n < results.size(); n++)
+  {
+    if (results[n] == nullptr)
+      results[n] = ld[s++];
+  }
+
   return results;
 }
 
-- 
2.43.0


From dfb5af704603ecaa3c7576dbfb7b612122b2baba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 24/61] fix: Emit the alternative of matches that are not
 directly connected to a branch

---
 jlm/llvm/backend/IpGraphToLlvmConverter.cpp | 74 +++++++++++++++------
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
index 1d7999f..d6318fa 100644
--- a/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
+++ b/jlm/llvm/backend/IpGraphToLlvmConverter.cpp
@@ -305,18 +305,6 @@ IpGraphToLlvmConverter::convert(
   return callInstruction;
 }
 
-static bool
-is_identity_mapping(const rvsdg::MatchOperation & op)
-{
-  for (const auto & pair : op)
-  {
-    if (pair.first != pair.second)
-      return false;
-  }
-
-  return true;
-}
-
 ::llvm::Value *
 IpGraphToLlvmConverter::convert_match(
     const rvsdg::SimpleOperation & op,
@@ -344,11 +332,40 @@ IpGraphToLlvmConverter::convert_match(
     return builder.CreateSelect(Context_->value(args[0]), t, f);
   }
 
-  if (is_identity_mapping(*mop))
-    return Context_->value(args[0]);
+  // Compute the index of the selected alternative. It is only necessary if the match is not directly
+  // connected to a branch, as a branch switches on the operand of the match.
+  auto operand = Context_->value(args[0]);
+  auto type = ::llvm::IntegerType::get(builder.getContext(), mop->nalternatives() == 2 ? 1 : 32);
+  ::llvm::Value * result = ::llvm::ConstantInt::get(type, mop->default_alternative());
+  for (const auto & [value, alternative] : *mop)
+  {
+    if (alternative == mop->default_alternative())
+      continue;
 
-  /* FIXME: This is not working if the match is not directly connected to a gamma node. */
-  return Context_->value(args[0]);
+    auto condition =
+        builder.CreateICmpEQ(operand, ::llvm::ConstantInt::get(operand->getType(), value));
+    result = builder.CreateSelect(condition, ::llvm::ConstantInt::get(type, alternative), result);
+  }
+
+  return result;
+}
+
+// Removes the computation of a match's alternative index if nothing needs it
+static void
+removeUnusedMatch(::llvm::Value & matchValue)
+{
+  ::llvm::Value * value = &matchValue;
+  while (auto select = ::llvm::dyn_cast<::llvm::SelectInst>(value))
+  {
+    if (!select->use_empty())
+      return;
+
+    auto condition = ::llvm::dyn_cast<::llvm::Instruction>(select->getCondition());
+    value = select->getFalseValue();
+    select->eraseFromParent();
+    if (condition && condition->use_empty())
+      condition->eraseFromParent();
+  }
 }
 
 ::llvm::Value *
@@ -1865,7 +1882,6 @@ IpGraphToLlvmConverter::create_switch(const ControlFlowGraphNode * node)
 
   auto branch = bb->tacs().last();
   JLM_ASSERT(branch && is<BranchOperation>(branch));
-  auto condition = Context_->value(branch->operand(0));
   auto match = get_match(branch);
 
   if (is<rvsdg::MatchOperation>(match))
@@ -1874,7 +1890,7 @@ IpGraphToLlvmConverter::create_switch(const ControlFlowGraphNode * node)
     auto mop = static_cast<const rvsdg::MatchOperation *>(&match->operation());
 
     auto defbb = Context_->basic_block(node->OutEdge(mop->default_alternative())->sink());
-    auto sw = builder.CreateSwitch(condition, defbb);
+    auto sw = builder.CreateSwitch(Context_->value(match->operand(0)), defbb);
     for (const auto & alt : *mop)
     {
       auto & type = *std::static_pointer_cast<const rvsdg::BitType>(mop->argument(0));
@@ -1886,7 +1902,7 @@ IpGraphToLlvmConverter::create_switch(const ControlFlowGraphNode * node)
   else
   {
     auto defbb = Context_->basic_block(node->OutEdge(node->NumOutEdges() - 1)->sink());
-    auto sw = builder.CreateSwitch(condition, defbb);
+    auto sw = builder.CreateSwitch(Context_->value(branch->operand(0)), defbb);
     for (size_t n = 0; n < node->NumOutEdges() - 1; n++)
     {
       auto value = ::llvm::ConstantInt::get(::llvm::Type::getInt32Ty(builder.getContext()), n);
@@ -1917,7 +1933,11 @@ IpGraphToLlvmConverter::create_terminator_instruction(const llvm::ControlFlowGra
 
   // conditional branch
   // Note that a switch on a 1-bit value can have a third, default alternative
-  if (node->NumOutEdges() == 2
+  const auto match = get_match(branch);
+  const auto isWideMatch =
+      is<rvsdg::MatchOperation>(match)
+      && static_cast<const rvsdg::MatchOperation *>(&match->operation())->nbits() != 1;
+  if (node->NumOutEdges() == 2 && !isWideMatch
       && Context_->value(branch->operand(0))->getType()->isIntegerTy(1))
     return create_conditional_branch(node);
 
@@ -2227,6 +2247,20 @@ IpGraphToLlvmConverter::convert_cfg(ControlFlowGraph & cfg, ::llvm::Function & f
             Context_->basic_block(op.GetIncomingNode(n)));
     }
   }
+
+  // remove the alternative indices of matches that are only used by branches
+  for (const auto & node : nodes)
+  {
+    if (node == cfg.entry() || node == cfg.exit())
+      continue;
+
+    for (const auto & tac : static_cast<const BasicBlock *>(node)->tacs())
+    {
+      if (is<rvsdg::MatchOperation>(tac->operation())
+          && static_cast<const rvsdg::MatchOperation *>(&tac->operation())->nbits() != 1)
+        removeUnusedMatch(*Context_->value(tac->result(0)));
+    }
+  }
 }
 
 void
-- 
2.43.0


From 3de4c3d6b449941188c50534c403814dfad81414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 25/61] fix: Treat loops that permute memory states as
 modifications in load chain separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 51 ++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 7fd00d5..56d3786 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -218,13 +218,52 @@ LoadChainSeparation::separateRefenceChainsInGamma(rvsdg::GammaNode & gammaNode)
   }
 }
 
+/**
+ * Determines whether every memory state that \p output depends on within its region originates from
+ * the region argument \p argument.
+ */
+static bool
+onlyReferences(
+    const rvsdg::Output & output,
+    const rvsdg::Output & argument,
+    util::HashSet<const rvsdg::Output *> & visitedOutputs)
+{
+  if (&output == &argument || !visitedOutputs.insert(&output))
+    return true;
+
+  if (const auto thetaNode = rvsdg::TryGetOwnerNode<rvsdg::ThetaNode>(output))
+  {
+    const auto & input = *thetaNode->MapOutputLoopVar(output).input;
+    return onlyReferences(*input.origin(), argument, visitedOutputs);
+  }
+
+  if (auto [loadNode, loadOperation] = rvsdg::TryGetSimpleNodeAndOptionalOp<LoadOperation>(output);
+      loadOperation)
+  {
+    const auto & input = LoadOperation::MapMemoryStateOutputToInput(output);
+    return onlyReferences(*input.origin(), argument, visitedOutputs);
+  }
+
+  const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(output);
+  if (node == nullptr
+      || !(is<MemoryStateJoinOperation>(node) || is<MemoryStateMergeOperation>(node)))
+    return false;
+
+  for (auto & input : node->Inputs())
+  {
+    if (!onlyReferences(*input.origin(), argument, visitedOutputs))
+      return false;
+  }
+
+  return true;
+}
+
 void
 LoadChainSeparation::separateRefenceChainsInTheta(rvsdg::ThetaNode & thetaNode)
 {
   // Handle innermost region first
   separateReferenceChainsInRegion(*thetaNode.subregion());
 
-  util::HashSet<rvsdg::Output *> visitedOutputsSubregion;
   for (const auto loopVar : thetaNode.GetLoopVars())
   {
     if (!is<MemoryStateType>(loopVar.output->Type()))
@@ -233,10 +272,16 @@ LoadChainSeparation::separateRefenceChainsInTheta(rvsdg::ThetaNode & thetaNode)
     // Separate reference chains in theta subregion
     const auto hasModificationChainLinkAboveInRegion =
         separateReferenceChains(*loopVar.post->origin());
+
+    // The state that leaves the loop is only a reference of the state that enters it if it is the
+    // state of the same loop variable
+    util::HashSet<const rvsdg::Output *> visitedOutputs;
+    const auto isReference =
+        !hasModificationChainLinkAboveInRegion
+        && onlyReferences(*loopVar.post->origin(), *loopVar.pre, visitedOutputs);
     Context_->add(
         *loopVar.output,
-        hasModificationChainLinkAboveInRegion ? ModRefChainLink::Type::Modification
-                                              : ModRefChainLink::Type::Reference);
+        isReference ? ModRefChainLink::Type::Reference : ModRefChainLink::Type::Modification);
 
     // Handle dead theta outputs
     if (loopVar.output->IsDead())
-- 
2.43.0


From 47ad629d28cd0a930aad05d67a2c0277a369e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 26/61] fix: Do not redirect outputs of calls to functions that
 might be replaced at link time

---
 jlm/llvm/ir/Linkage.hpp                    | 23 ++++++++++++++++++++++
 jlm/llvm/opt/InvariantValueRedirection.cpp |  5 +++++
 2 files changed, 28 insertions(+)

diff --git a/jlm/llvm/ir/Linkage.hpp b/jlm/llvm/ir/Linkage.hpp
index 3a762d0..2ba32f4 100644
--- a/jlm/llvm/ir/Linkage.hpp
+++ b/jlm/llvm/ir/Linkage.hpp
@@ -67,6 +67,29 @@ isPrivateOrInternal(const Linkage linkage)
   return linkage == Linkage::privateLinkage || linkage == Linkage::internalLinkage;
 }
 
+/**
+ * Determines if the definition of a function / global variable with the given linkage might be
+ * replaced by a different definition at link time.
+ * @param linkage the linkage type
+ * @return true if the definition might be replaced
+ *
+ * @note Based on LLVM's "::llvm::GlobalValue::isInterposableLinkage"
+ */
+[[nodiscard]] inline bool
+isInterposable(const Linkage linkage)
+{
+  switch (linkage)
+  {
+  case Linkage::linkOnceAnyLinkage:
+  case Linkage::weakAnyLinkage:
+  case Linkage::externalWeakLinkage:
+  case Linkage::commonLinkage:
+    return true;
+  default:
+    return false;
+  }
+}
+
 [[nodiscard]] std::string_view
 linkageToString(Linkage linkage);
 
diff --git a/jlm/llvm/opt/InvariantValueRedirection.cpp b/jlm/llvm/opt/InvariantValueRedirection.cpp
index 862d2b1..a430135 100644
--- a/jlm/llvm/opt/InvariantValueRedirection.cpp
+++ b/jlm/llvm/opt/InvariantValueRedirection.cpp
@@ -295,6 +295,11 @@ InvariantValueRedirection::redirectCallOutputs(rvsdg::SimpleNode & callNode)
   auto & lambdaNode =
       rvsdg::AssertGetOwnerNode<rvsdg::LambdaNode>(callTypeClassifier->GetLambdaOutput());
 
+  // The called function might be a different one after linking
+  if (auto lambdaOperation = dynamic_cast<const LlvmLambdaOperation *>(&lambdaNode.GetOperation());
+      lambdaOperation && isInterposable(lambdaOperation->linkage()))
+    return;
+
   // LLVM permits code where it can happen that the number and type of arguments handed in to the
   // call node do not agree with the number and type of lambda parameters, even though it is a
   // direct call. See jlm::tests::LambdaCallArgumentMismatch for an example. In this case, we cannot
-- 
2.43.0


From 29e804a80a2d2eabf62fb514b859accf4000a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 27/61] fix: Take into account that functions might be replaced
 at link time in Andersen

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index 04b9009..b53f9f6 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -1280,6 +1280,13 @@ Andersen::AnalyzeLambda(const rvsdg::LambdaNode & lambda)
   const auto & lambdaOutput = *lambda.output();
   const auto lambdaOutputPO = Set_->CreateRegisterPointerObject(lambdaOutput);
   Constraints_->AddPointerPointeeConstraint(lambdaOutputPO, lambdaPO);
+
+  // The lambda might be replaced by an external function at link time
+  if (auto operation = dynamic_cast<const LlvmLambdaOperation *>(&lambda.GetOperation());
+      operation && isInterposable(operation->linkage()))
+  {
+    Set_->MarkAsPointingToExternal(lambdaOutputPO);
+  }
 }
 
 void
-- 
2.43.0


From fcdf5c331cfa2f279932517f486d51b8298e2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 28/61] fix: Do not inline functions that might be replaced at
 link time

---
 jlm/llvm/opt/inlining.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index d449526..6849bef 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -488,6 +488,11 @@ FunctionInlining::canBeInlined(rvsdg::Region & region, bool topLevelRegion)
 bool
 FunctionInlining::canBeInlined(const rvsdg::LambdaNode & callee)
 {
+  // The callee might be a different function after linking
+  if (auto operation = dynamic_cast<const LlvmLambdaOperation *>(&callee.GetOperation());
+      operation && isInterposable(operation->linkage()))
+    return false;
+
   return canBeInlined(*callee.subregion(), true);
 }
 
-- 
2.43.0


From e579f98b2aaefcc6883b51f13a98b2a0f876ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 29/61] fix: Do not assign roles to gamma subregions that both
 leave or both repeat the loop

---
 jlm/llvm/opt/PredicateCorrelation.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jlm/llvm/opt/PredicateCorrelation.cpp b/jlm/llvm/opt/PredicateCorrelation.cpp
index edb42ac..2dbd45d 100644
--- a/jlm/llvm/opt/PredicateCorrelation.cpp
+++ b/jlm/llvm/opt/PredicateCorrelation.cpp
@@ -223,6 +223,12 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
       return std::nullopt;
     }
 
+    if (controlAlternatives[0] == controlAlternatives[1])
+    {
+      // Both subregions have the same role
+      return std::nullopt;
+    }
+
     GammaSubregionRoles roles;
     if (controlAlternatives[0] == 0)
     {
@@ -250,6 +256,13 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
     GammaSubregionRoles roles;
     const auto matchOperation =
         util::assertedCast<const rvsdg::MatchOperation>(&matchNode->GetOperation());
+    if (matchOperation->alternative(alternatives[0])
+        == matchOperation->alternative(alternatives[1]))
+    {
+      // Both subregions have the same role
+      return std::nullopt;
+    }
+
     if (matchOperation->alternative(alternatives[0]) == 0)
     {
       roles.exitSubregion = correlation.gammaNode().subregion(0);
-- 
2.43.0


From ce465f01026a1fb35f2a2fa3d075813f39c7dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 30/61] fix: Do not forward values of constants that might be
 replaced at link time

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index f75a6ac..0a37c99 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -1087,6 +1087,13 @@ StoreValueForwarding::traceLoadWithoutMemoryStates(const rvsdg::SimpleNode & loa
     return std::nullopt;
   }
 
+  // The delta might be replaced by a different one at link time
+  if (auto deltaOperation = dynamic_cast<const LlvmDeltaOperation *>(&deltaNode->GetOperation());
+      deltaOperation && isInterposable(deltaOperation->linkage()))
+  {
+    return std::nullopt;
+  }
+
   context_->numLoadsTracedToDeltaNode++;
   return std::optional<TracedDelta>({ deltaNode, gepConstantsOpt.value() });
 }
-- 
2.43.0


From adb10a27a6b5bbd0eddc541bf3cf479424045915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 31/61] fix: Do not take dead nodes for a part of the predicate
 in loop unswitching

---
 jlm/llvm/opt/LoopUnswitching.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jlm/llvm/opt/LoopUnswitching.cpp b/jlm/llvm/opt/LoopUnswitching.cpp
index 33e848a..847d829 100644
--- a/jlm/llvm/opt/LoopUnswitching.cpp
+++ b/jlm/llvm/opt/LoopUnswitching.cpp
@@ -201,6 +201,10 @@ LoopUnswitching::allLoopVarsAreRoutedThroughGamma(
 bool
 LoopUnswitching::UnswitchLoop(rvsdg::ThetaNode & oldThetaNode)
 {
+  // Dead nodes might depend on the gamma node and can therefore not be part of the predicate
+  // subgraph
+  oldThetaNode.subregion()->prune(false);
+
   auto oldGammaNode = IsUnswitchable(oldThetaNode);
   if (!oldGammaNode)
     return false;
-- 
2.43.0


From abf5b8f52ae6f6ff7df17d1ff9fc2226a80f3ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 32/61] fix: Keep loop-invariant values recognizable in loop
 unswitching

---
 jlm/llvm/opt/LoopUnswitching.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/LoopUnswitching.cpp b/jlm/llvm/opt/LoopUnswitching.cpp
index 847d829..6653a5e 100644
--- a/jlm/llvm/opt/LoopUnswitching.cpp
+++ b/jlm/llvm/opt/LoopUnswitching.cpp
@@ -144,6 +144,22 @@ LoopUnswitching::SinkNodesIntoGamma(
   }
 
   pullin_top(&gammaNode);
+
+  // Combine entry variables of the same value. Otherwise, loop-invariant values would be permuted
+  // among the loop variables of the unswitched loop and would no longer be recognizable as such.
+  std::unordered_map<rvsdg::Output *, rvsdg::GammaNode::EntryVar> uniqueEntryVars;
+  std::vector<rvsdg::GammaNode::EntryVar> redundantEntryVars;
+  for (auto & entryVar : gammaNode.GetEntryVars())
+  {
+    const auto [it, inserted] = uniqueEntryVars.emplace(entryVar.input->origin(), entryVar);
+    if (inserted)
+      continue;
+
+    for (size_t n = 0; n < entryVar.branchArgument.size(); n++)
+      entryVar.branchArgument[n]->divert_users(it->second.branchArgument[n]);
+    redundantEntryVars.push_back(entryVar);
+  }
+  gammaNode.RemoveEntryVars(redundantEntryVars);
 }
 
 std::vector<std::vector<rvsdg::Node *>>
@@ -328,7 +344,13 @@ LoopUnswitching::UnswitchLoop(rvsdg::ThetaNode & oldThetaNode)
 
       std::vector<rvsdg::Output *> values(2);
       values[exitSubregionIndex] = newEntryVar.branchArgument[exitSubregionIndex];
-      values[repetitionSubregionIndex] = newLoopVar.output;
+      // Keep loop-invariant values recognizable as such: their value is the same no matter whether
+      // the loop is executed
+      const auto isInvariantValue = newLoopVar.output->Type()->Kind() == rvsdg::TypeKind::Value
+                                 && rvsdg::ThetaLoopVarIsInvariant(newLoopVar);
+      values[repetitionSubregionIndex] =
+          isInvariantValue ? newEntryVar.branchArgument[repetitionSubregionIndex]
+                           : newLoopVar.output;
       auto newExitVar = newGammaNode->AddExitVar(values);
       oldGammaNewGammaOutputMap[oldInput] = newExitVar.output;
     }
-- 
2.43.0


From 70d3ffb0c6c98ad3a07ef5b54becaa67ea74298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 33/61] fix: Do not unify pointees across dereference edges in
 hybrid cycle detection

The offline graph has an edge *a -> *b for every a -> b, which tells that
the pointees of a are pointees of b. A cycle that goes through such an
edge says nothing about the pointees of b that a does not have, yet hybrid
cycle detection unified all of them with the cycle, so the solution
depended on the configuration of the solver.
---
 .../opt/alias-analyses/PointerObjectSet.cpp   | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
index 819e794..5621889 100644
--- a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
+++ b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
@@ -1462,6 +1462,27 @@ PointerObjectConstraintSet::PerformOfflineVariableSubstitution(bool storeRefCycl
     // The idea: Any pointee of p should be unified with a, if *p and a are in the same SCC
     // NOTE: We do not use equivalence set labels here, as they represent more than just cycles
 
+    const size_t derefNodeOffset = Set_.NumPointerObjects();
+
+    // An edge *a -> *b says that every pointee of a is also a pointee of b, but the pointees of b
+    // that are not pointees of a do not become part of the cycle, so these edges can not be used
+    for (PointerObjectIndex i = 0; i < Set_.NumPointerObjects(); i++)
+    {
+      auto & refSuccessors = successors[i + derefNodeOffset];
+      refSuccessors.RemoveWhere(
+          [&](PointerObjectIndex successor)
+          {
+            return successor >= derefNodeOffset;
+          });
+    }
+    sccIndex.clear();
+    reverseTopologicalOrder.clear();
+    numSccs = util::FindStronglyConnectedComponents<size_t>(
+        totalNodeCount,
+        GetSuccessors,
+        sccIndex,
+        reverseTopologicalOrder);
+
     // First find one unification root representing each SCC
     std::vector<std::optional<PointerObjectIndex>> unificationRootPerSCC(numSccs, std::nullopt);
     for (PointerObjectIndex i = 0; i < Set_.NumPointerObjects(); i++)
@@ -1471,7 +1492,6 @@ PointerObjectConstraintSet::PerformOfflineVariableSubstitution(bool storeRefCycl
     }
 
     // Assign unification roots to ref nodes that belong to SCCs with at least one regular node
-    const size_t derefNodeOffset = Set_.NumPointerObjects();
     for (PointerObjectIndex i = 0; i < Set_.NumPointerObjects(); i++)
     {
       if (auto optRoot = unificationRootPerSCC[sccIndex[i + derefNodeOffset]])
-- 
2.43.0


From 20eebbbf910feed049cc5d48176e46ceb5e35a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:47 +0000
Subject: [PATCH 34/61] fix: Do not reduce splits of merged memory states in
 HLS

Node reduction replaces a memory state split of a merge with as many operands as the split has
results by these operands. In HLS, the loads of a loop get an own state that is merged with the
others after the loop, and split again for the next loop. The reduction connected the states of the
loops pairwise, and the loads of the second loop overtook the stores of the first one.
---
 jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp b/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
index 535d81d..c1d44ec 100644
--- a/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp
@@ -438,8 +438,10 @@ createTransformationSequence(rvsdg::DotWriter & dotWriter, const bool dumpRvsdgG
       memoryStateDecoupling,
       unusedStateRemoval,
       memoryConverter,
-      nodeReduction,
+      // Memory state splits need to be converted before the node reduction, as it would otherwise
+      // reduce splits of merged states and lose the order between the merged and the split states
       memoryStateSplitConversion,
+      nodeReduction,
       redundantBufferElimination,
       sinkInsertion,
       forkInsertion,
-- 
2.43.0


From 9b50b3238b62675e001d4d991e24fd29e6aa928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 35/61] fix: Tell splits of subsequent loops from address queue
 dequeues in HLS state decoupling

The memory state of a store within a loop is split to dequeue the addresses of the queues of the
loads. The states of all other stores are only split for the loads of a subsequent loop, and such a
split ends with the merge after this loop. Mistaking the latter for the former ended the traversal
at the merge, and crashed if the store was within a branch.
---
 jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp b/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp
index ee428ae..687e9dd 100644
--- a/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/decouple-mem-state.cpp
@@ -419,8 +419,10 @@ follow_state_edge(
       mem_ops.push_back(sn);
       JLM_ASSERT(sn->output(0)->nusers() == 1);
       state_edge = get_mem_state_user(sn->output(0));
-      // handle case of store that has one edge going off to deq
-      if (rvsdg::IsOwnerNodeOperation<llvm::MemoryStateSplitOperation>(*state_edge))
+      // handle case of store that has one edge going off to deq - only stores within loops have such
+      // an edge, the split after any other store belongs to a subsequent loop
+      if (rvsdg::is<LoopOperation>(sn->region()->node())
+          && rvsdg::IsOwnerNodeOperation<llvm::MemoryStateSplitOperation>(*state_edge))
       {
         // output 0 is the normal edge
         state_edge =
-- 
2.43.0


From 2ab89e652356e84ee071e2557022a35173be5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 36/61] fix: Buffer the outputs of HLS loops that are not
 redefined by the loop

---
 jlm/hls/backend/rvsdg2rhls/add-buffers.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
index c233ba0..b6c3c7f 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
@@ -145,7 +145,10 @@ OptimizeLoop(LoopNode * loopNode)
           rvsdg::TryGetSimpleNodeAndOptionalOp<BufferOperation>(*oldBufInput);
       if (rvsdg::IsOwnerNodeOperation<SinkOperation>(*oldBufInput))
       {
-        // no backedge
+        // no backedge, but the loop still needs to be able to finish its last iteration before the
+        // output is taken
+        PlaceBuffer(branchNode->input(1)->origin(), 2, false);
+        PlaceBuffer(branchNode->input(0)->origin(), 2, false);
         continue;
       }
       JLM_ASSERT(oldBufferOperation);
-- 
2.43.0


From 20f8e45cbbb71777397baa0d1c574c6627bed824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 37/61] fix: Keep the predicate buffers of HLS loops that the
 loop nodes refer to

---
 jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
index 11b1619..f9ccbe9 100644
--- a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
@@ -449,6 +449,11 @@ RhlsDeadNodeElimination::Run(
           // TODO: fix - this scenario has only stores and should just be optimized away completely
           continue;
         }
+        if (rvsdg::is<PredicateBufferOperation>(node))
+        {
+          // The loop node keeps a reference to the output of its predicate buffer
+          continue;
+        }
         remove(node);
         changed = true;
       }
-- 
2.43.0


From 3cca426621acf894b4b705b63b49514888d4c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 38/61] fix: Do not consume values that depend on constants
 only in lockstep in HLS

---
 jlm/hls/backend/rvsdg2rhls/add-forks.cpp | 32 ++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-forks.cpp b/jlm/hls/backend/rvsdg2rhls/add-forks.cpp
index 4464abd..c4f0625 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-forks.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-forks.cpp
@@ -5,6 +5,8 @@
 
 #include <jlm/hls/backend/rvsdg2rhls/add-forks.hpp>
 #include <jlm/hls/ir/hls.hpp>
+#include <jlm/rvsdg/binary.hpp>
+#include <jlm/rvsdg/unary.hpp>
 
 namespace jlm::hls
 {
@@ -88,8 +90,34 @@ ForkInsertion::AddForkToOutput(rvsdg::Output & output)
 bool
 ForkInsertion::IsConstantFork(const rvsdg::Output & output)
 {
-  const auto node = rvsdg::TryGetOwnerNode<rvsdg::Node>(output);
-  return node != nullptr ? node->ninputs() == 0 : false;
+  const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(output);
+  if (node == nullptr)
+    return false;
+
+  if (node->ninputs() == 0)
+    return true;
+
+  const auto & operation = node->GetOperation();
+  if (const auto forkOperation = dynamic_cast<const ForkOperation *>(&operation))
+    return forkOperation->IsConstant();
+
+  // Branches and computations that only depend on constants are always able to produce a value, just
+  // as the constants themselves. Their users do not need to consume these values in lockstep. This is
+  // necessary for users from different alternatives of a gamma node that share such a value.
+  const auto branchOperation = dynamic_cast<const BranchOperation *>(&operation);
+  const auto isBranch = branchOperation != nullptr && !branchOperation->loop;
+  const auto isComputation = rvsdg::is<rvsdg::UnaryOperation>(operation)
+                          || rvsdg::is<rvsdg::BinaryOperation>(operation);
+  if (!isBranch && !isComputation)
+    return false;
+
+  for (auto & input : node->Inputs())
+  {
+    if (!IsConstantFork(*input.origin()))
+      return false;
+  }
+
+  return true;
 }
 
 }
-- 
2.43.0


From fb1e5a7840a0dbe1bdf6f3a5daecc37bb0792056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 39/61] fix: Size the buffers of HLS loops that use constants
 of outer loops or have no inputs

---
 jlm/hls/backend/rvsdg2rhls/add-buffers.cpp | 28 +++++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
index b6c3c7f..fb5dc97 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
@@ -422,10 +422,12 @@ CreateLoopFrontier(
   }
   for (auto & tn : loop->subregion()->TopNodes())
   {
-    JLM_ASSERT(is_constant(&tn));
-    auto out = tn.output(0);
-    output_cycles[out] = 0;
-    frontier.insert(&out->SingleUser());
+    // constants and loops without inputs
+    for (auto & out : tn.Outputs())
+    {
+      output_cycles[&out] = 0;
+      frontier.insert(&out.SingleUser());
+    }
   }
   for (auto arg : loop->subregion()->Arguments())
   {
@@ -666,9 +668,15 @@ PlaceBufferLoop(rvsdg::Output * out, size_t min_capacity, bool passThrough)
 {
   // places or re-places a buffer on an output
   // don't place buffers after constants
-  JLM_ASSERT(!is_constant(rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*out)));
+  if (is_constant(rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*out)))
+  {
+    return min_capacity;
+  }
   auto [forkNode, forkOperation] = rvsdg::TryGetSimpleNodeAndOptionalOp<ForkOperation>(*out);
-  JLM_ASSERT(!(forkOperation && forkOperation->IsConstant()));
+  if (forkOperation && forkOperation->IsConstant())
+  {
+    return min_capacity;
+  }
 
   if (rvsdg::is<rvsdg::LambdaOperation>(out->region()->node()))
   {
@@ -744,9 +752,11 @@ AdjustLoopBuffers(
   // set buffer capacity for constant nodes to max
   for (auto & tn : loop->subregion()->TopNodes())
   {
-    auto out = tn.output(0);
-    // don't use size_t max, since that is used to signal down below
-    buffer_capacity[out] = UnlimitedBufferCapacity;
+    for (auto & out : tn.Outputs())
+    {
+      // don't use size_t max, since that is used to signal down below
+      buffer_capacity[&out] = UnlimitedBufferCapacity;
+    }
   }
   // same for inputs - we only care what happens within the loop
   for (size_t i = 0; i < loop->ninputs(); ++i)
-- 
2.43.0


From 20b816f43a79e7469fb1de72594272aaa37fc716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 40/61] fix: Remove HLS loop inputs that are only used by an
 unused backedge

---
 jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
index f9ccbe9..ac800eb 100644
--- a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
@@ -113,12 +113,10 @@ remove_unused_loop_inputs(LoopNode * ln)
       {
         sr->RemoveResults({ result->index() });
         sr->RemoveArguments({ arg->index() });
+        // The removed result might have been the last user of another argument
+        any_changed = true;
       }
     }
-    else
-    {
-      JLM_ASSERT(arg->nusers() != 0);
-    }
   }
   return any_changed;
 }
-- 
2.43.0


From 7916d4b65457c9a200963785b5a50355a39443c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 41/61] fix: Buffer the outputs of HLS loops that share a
 branch

---
 jlm/hls/backend/rvsdg2rhls/add-buffers.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
index fb5dc97..399a444 100644
--- a/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/add-buffers.cpp
@@ -128,17 +128,29 @@ OptimizeLoop(LoopNode * loopNode)
   if (outerLoop)
   {
     // push buffers above branches, so they also act as output buffers
+    std::unordered_set<rvsdg::SimpleNode *> branchNodes;
     for (size_t i = 0; i < loopNode->noutputs(); ++i)
     {
       auto out = loopNode->output(i);
-      auto res = out->results.begin().ptr();
+      auto origin = out->results.begin().ptr()->origin();
+      if (auto [forkNode, forkOperation] =
+              rvsdg::TryGetSimpleNodeAndOptionalOp<ForkOperation>(*origin);
+          forkOperation)
+      {
+        // multiple outputs share a branch
+        origin = forkNode->input(0)->origin();
+      }
       auto [branchNode, branchOperation] =
-          rvsdg::TryGetSimpleNodeAndOptionalOp<BranchOperation>(*res->origin());
+          rvsdg::TryGetSimpleNodeAndOptionalOp<BranchOperation>(*origin);
       if (!branchOperation)
       {
         // this is a memory operation or stream
         continue;
       }
+      if (!branchNodes.insert(branchNode).second)
+      {
+        continue;
+      }
       JLM_ASSERT(branchOperation->loop);
       auto oldBufInput = &branchNode->output(1)->SingleUser();
       auto [oldBufferNode, oldBufferOperation] =
-- 
2.43.0


From 69c2df89e3fa922ff44a95705ee63db4932ada3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 42/61] fix: Only remove the HLS backedges of loop variables
 that pass on their own value

---
 jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
index ac800eb..20642d6 100644
--- a/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
+++ b/jlm/hls/backend/rvsdg2rhls/rhls-dne.cpp
@@ -24,7 +24,8 @@ remove_unused_loop_backedges(LoopNode * loopNode)
     if ((dynamic_cast<BackEdgeArgument *>(argument) && argument->nusers() == 1))
     {
       auto & user = *argument->Users().begin();
-      if (const auto result = dynamic_cast<BackEdgeResult *>(&user))
+      if (const auto result = dynamic_cast<BackEdgeResult *>(&user);
+          result && result->argument() == argument)
       {
         resultIndices.insert(result->index());
         argumentIndices.insert(argument->index());
-- 
2.43.0


From 9976980dc4b5a2488ee169a0250fbca382e455ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 43/61] fix: points-to analysis treats discardable definitions
 shared with other modules as escaped

Functions and global variables with linkonce or available_externally linkage
are not exported from the RVSDG, as they can be discarded when unused. They
are still visible to other modules, which can call the function or modify the
variable. Andersen did not regard them as escaping, which e.g. caused loads of
a C++ inline variable to be replaced by its initial value.
---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 28 ++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index b53f9f6..6bf2a64 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -1249,6 +1249,20 @@ Andersen::AnalyzeStructuralNode(const rvsdg::StructuralNode & node)
       });
 }
 
+/**
+ * Definitions with linkonce or available_externally linkage can be discarded if they are unused,
+ * and are therefore not necessarily exported from the RVSDG. They are nevertheless the same entity
+ * as the definitions of the same name in other modules, which can refer to them.
+ *
+ * @param linkage the linkage of a function or global variable defined in the module
+ * @return true if other modules may refer to the definition without it being exported.
+ */
+static bool
+isSharedWithoutExport(const Linkage linkage)
+{
+  return isDiscardableIfUnused(linkage) && !isPrivateOrInternal(linkage);
+}
+
 void
 Andersen::AnalyzeLambda(const rvsdg::LambdaNode & lambda)
 {
@@ -1287,6 +1301,13 @@ Andersen::AnalyzeLambda(const rvsdg::LambdaNode & lambda)
   {
     Set_->MarkAsPointingToExternal(lambdaOutputPO);
   }
+
+  // The lambda might be called by other modules
+  if (auto operation = dynamic_cast<const LlvmLambdaOperation *>(&lambda.GetOperation());
+      operation && isSharedWithoutExport(operation->linkage()))
+  {
+    Constraints_->AddRegisterContentEscapedConstraint(lambdaOutputPO);
+  }
 }
 
 void
@@ -1326,6 +1347,13 @@ Andersen::AnalyzeDelta(const rvsdg::DeltaNode & delta)
   auto & outputRegister = delta.output();
   const auto outputRegisterPO = Set_->CreateRegisterPointerObject(outputRegister);
   Constraints_->AddPointerPointeeConstraint(outputRegisterPO, globalPO);
+
+  // The global variable might be accessed by other modules
+  if (auto operation = dynamic_cast<const LlvmDeltaOperation *>(&delta.GetOperation());
+      operation && isSharedWithoutExport(operation->linkage()))
+  {
+    Constraints_->AddRegisterContentEscapedConstraint(outputRegisterPO);
+  }
 }
 
 void
-- 
2.43.0


From 377c995e76ebbf46656a83e40547f1e850467ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 44/61] fix: run the commands of a command graph only after all
 their predecessors

SortNodesTopological() emitted nodes in breadth-first order. With inputs that need
different numbers of steps (jlc a.o b.c), the linker ran before the object files existed,
or linked the stale ones of an earlier invocation.
---
 jlm/tooling/CommandGraph.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/jlm/tooling/CommandGraph.cpp b/jlm/tooling/CommandGraph.cpp
index a531348..5c50a85 100644
--- a/jlm/tooling/CommandGraph.cpp
+++ b/jlm/tooling/CommandGraph.cpp
@@ -7,6 +7,7 @@
 
 #include <deque>
 #include <functional>
+#include <unordered_map>
 
 namespace jlm::tooling
 {
@@ -56,9 +57,10 @@ CommandGraph::CommandGraph()
 std::vector<CommandGraph::Node *>
 CommandGraph::SortNodesTopological(const CommandGraph & commandGraph)
 {
-  std::vector<CommandGraph::Node *> nodes({ &commandGraph.GetEntryNode() });
+  // Collect all nodes that are reachable from the entry node, and count their incoming edges
   std::deque<CommandGraph::Node *> to_visit({ &commandGraph.GetEntryNode() });
-  std::unordered_set<CommandGraph::Node *> visited({ &commandGraph.GetEntryNode() });
+  std::unordered_map<CommandGraph::Node *, size_t> numPendingPredecessors(
+      { { &commandGraph.GetEntryNode(), 0 } });
 
   while (!to_visit.empty())
   {
@@ -67,12 +69,26 @@ CommandGraph::SortNodesTopological(const CommandGraph & commandGraph)
 
     for (auto & edge : node->OutgoingEdges())
     {
-      if (visited.find(&edge.GetSink()) == visited.end())
-      {
+      auto [it, inserted] = numPendingPredecessors.try_emplace(&edge.GetSink(), 0);
+      it->second++;
+      if (inserted)
+        to_visit.push_back(&edge.GetSink());
+    }
+  }
+
+  // A node can only be emitted once all its predecessors are emitted
+  std::vector<CommandGraph::Node *> nodes;
+  to_visit.push_back(&commandGraph.GetEntryNode());
+  while (!to_visit.empty())
+  {
+    auto node = to_visit.front();
+    to_visit.pop_front();
+    nodes.push_back(node);
+
+    for (auto & edge : node->OutgoingEdges())
+    {
+      if (--numPendingPredecessors[&edge.GetSink()] == 0)
         to_visit.push_back(&edge.GetSink());
-        visited.insert(&edge.GetSink());
-        nodes.push_back(&edge.GetSink());
-      }
     }
   }
 
-- 
2.43.0


From f8cb266ec566b5ed416ac3d1718f1e4919d8f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 45/61] fix: executeProgramAndWait() reports programs that fail

The exit status of the program was ignored, and an interrupted waitpid() was taken for
its end.
---
 jlm/util/Program.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jlm/util/Program.cpp b/jlm/util/Program.cpp
index 2bdf250..ba20628 100644
--- a/jlm/util/Program.cpp
+++ b/jlm/util/Program.cpp
@@ -6,6 +6,8 @@
 #include <jlm/util/common.hpp>
 #include <jlm/util/Program.hpp>
 
+#include <cerrno>
+
 #include <spawn.h>
 #include <sys/wait.h>
 
@@ -34,8 +36,13 @@ executeProgramAndWait(
     return EXIT_FAILURE;
   }
 
-  waitpid(pid, &status, 0);
-  return EXIT_SUCCESS;
+  while (waitpid(pid, &status, 0) != pid)
+  {
+    if (errno != EINTR)
+      return EXIT_FAILURE;
+  }
+
+  return WIFEXITED(status) && WEXITSTATUS(status) == 0 ? EXIT_SUCCESS : EXIT_FAILURE;
 }
 
 std::string
-- 
2.43.0


From 35be6f74c3e737790b4315975ca7488289da4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:54 +0000
Subject: [PATCH 46/61] fix: report output files and standard output that could
 not be written

jlm-opt exited successfully with a truncated or missing output file when the disk was
full, the file could not be opened, or standard output could not be written.
---
 jlm/tooling/Command.cpp | 64 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/jlm/tooling/Command.cpp b/jlm/tooling/Command.cpp
index 4b10f07..564db42 100644
--- a/jlm/tooling/Command.cpp
+++ b/jlm/tooling/Command.cpp
@@ -56,6 +56,31 @@
 namespace jlm::tooling
 {
 
+/**
+ * Flushes the standard output.
+ *
+ * @throws util::Error if anything written to it was lost.
+ */
+static void
+FlushStandardOutput()
+{
+  if (!std::cout.flush())
+    throw util::Error("Could not write to standard output.\n");
+}
+
+/**
+ * Closes the output file \p stream.
+ *
+ * @throws util::Error if the file could not be opened, or anything written to it was lost.
+ */
+static void
+CloseOutputFile(std::ofstream & stream, const util::FilePath & outputFile)
+{
+  stream.close();
+  if (!stream)
+    throw util::Error("Could not write output file: " + outputFile.to_str() + "\n");
+}
+
 Command::~Command() = default;
 
 void
@@ -86,6 +111,7 @@ PrintCommandsCommand::Run() const
     if (node != &CommandGraph_->GetEntryNode() && node != &CommandGraph_->GetExitNode())
       std::cout << node->GetCommand().ToString() << "\n";
   }
+  FlushStandardOutput();
 }
 
 std::unique_ptr<CommandGraph>
@@ -526,13 +552,14 @@ JlmOptCommand::PrintAsAscii(
 
   if (outputFile == "")
   {
-    std::cout << ascii << std::flush;
+    std::cout << ascii;
+    FlushStandardOutput();
   }
   else
   {
     std::ofstream fileStream(outputFile.to_str());
     fileStream << ascii;
-    fileStream.close();
+    CloseOutputFile(fileStream, outputFile);
   }
 }
 
@@ -550,14 +577,28 @@ JlmOptCommand::PrintAsLlvm(
 
   if (outputFile == "")
   {
-    ::llvm::raw_os_ostream os(std::cout);
-    llvm_module->print(os, nullptr);
+    {
+      ::llvm::raw_os_ostream os(std::cout);
+      llvm_module->print(os, nullptr);
+    }
+    FlushStandardOutput();
   }
   else
   {
     std::error_code ec;
     ::llvm::raw_fd_ostream os(outputFile.to_str(), ec);
-    llvm_module->print(os, nullptr);
+    if (!ec)
+    {
+      llvm_module->print(os, nullptr);
+      os.close();
+      ec = os.error();
+      os.clear_error();
+    }
+    if (ec)
+    {
+      throw util::Error(
+          "Could not write output file: " + outputFile.to_str() + ": " + ec.message() + "\n");
+    }
   }
 }
 
@@ -588,14 +629,15 @@ JlmOptCommand::PrintAsRvsdgTree(
 
   if (outputFile == "")
   {
-    std::cout << tree << std::flush;
+    std::cout << tree;
+    FlushStandardOutput();
   }
   else
   {
     std::ofstream fs;
     fs.open(outputFile.to_str());
     fs << tree;
-    fs.close();
+    CloseOutputFile(fs, outputFile);
   }
 }
 
@@ -615,13 +657,14 @@ JlmOptCommand::PrintAsGraphs(
   if (outputFile == "")
   {
     writer.outputAllGraphs(std::cout, format);
+    FlushStandardOutput();
   }
   else
   {
     std::ofstream fs;
     fs.open(outputFile.to_str());
     writer.outputAllGraphs(fs, format);
-    fs.close();
+    CloseOutputFile(fs, outputFile);
   }
 }
 
@@ -636,14 +679,15 @@ JlmOptCommand::printAsRvsdgJsonTree(
 
   if (outputFile == "")
   {
-    std::cout << json << std::flush;
+    std::cout << json;
+    FlushStandardOutput();
   }
   else
   {
     std::ofstream fs{};
     fs.open(outputFile.to_str());
     fs << json;
-    fs.close();
+    CloseOutputFile(fs, outputFile);
   }
 }
 
-- 
2.43.0


From d3c207706cf8dd29c78cae07e98695544f629243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:01 +0000
Subject: [PATCH 47/61] fix: report statistics and debug files that could not
 be written

---
 jlm/llvm/opt/RvsdgTreePrinter.cpp                 |  2 +-
 .../AliasAnalysisPrecisionEvaluator.cpp           |  5 +++++
 jlm/rvsdg/Transformation.cpp                      |  2 ++
 jlm/util/Statistics.cpp                           |  2 ++
 jlm/util/file.hpp                                 | 15 +++++++++++++++
 5 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/RvsdgTreePrinter.cpp b/jlm/llvm/opt/RvsdgTreePrinter.cpp
index 808bc78..beaab6e 100644
--- a/jlm/llvm/opt/RvsdgTreePrinter.cpp
+++ b/jlm/llvm/opt/RvsdgTreePrinter.cpp
@@ -61,7 +61,7 @@ RvsdgTreePrinter::Run(
   auto file = statisticsCollector.createOutputFile("rvsdgTree.txt", true);
   file.open("w");
   fprintf(file.fd(), "%s\n", json.c_str());
-  file.close();
+  file.closeWritten();
 
   statistics->Stop();
   statisticsCollector.CollectDemandedStatistics(std::move(statistics));
diff --git a/jlm/llvm/opt/alias-analyses/AliasAnalysisPrecisionEvaluator.cpp b/jlm/llvm/opt/alias-analyses/AliasAnalysisPrecisionEvaluator.cpp
index 36ec0b6..0f7229d 100644
--- a/jlm/llvm/opt/alias-analyses/AliasAnalysisPrecisionEvaluator.cpp
+++ b/jlm/llvm/opt/alias-analyses/AliasAnalysisPrecisionEvaluator.cpp
@@ -141,6 +141,9 @@ AliasAnalysisPrecisionEvaluator::EvaluateAliasAnalysisClient(
     auto out = statisticsCollector.createOutputFile("AliasingGraph.dot", true);
     std::ofstream fd(out.path().to_str());
     gw.outputAllGraphs(fd, util::graph::OutputFormat::Dot);
+    fd.close();
+    if (!fd)
+      throw util::Error("Cannot write file " + out.path().to_str());
     statistics->AddAliasingGraphOutputFile(out.path());
   }
 
@@ -495,6 +498,8 @@ AliasAnalysisPrecisionEvaluator::CalculateResults(
     out << "Module total:" << std::endl;
     PrintAggregatedClobberInfos(aggregated, out);
     out.close();
+    if (!out)
+      throw util::Error("Cannot write file " + perFunctionOutputFile->to_str());
   }
 
   statistics.AddPrecisionSummaryStatistics(aggregated);
diff --git a/jlm/rvsdg/Transformation.cpp b/jlm/rvsdg/Transformation.cpp
index 4ffa8a6..325bdea 100644
--- a/jlm/rvsdg/Transformation.cpp
+++ b/jlm/rvsdg/Transformation.cpp
@@ -150,6 +150,8 @@ TransformationSequence::DumpDotGraphs(
   outputFile.open(filePath.str());
   graphWriter.outputAllGraphs(outputFile, util::graph::OutputFormat::Json);
   outputFile.close();
+  if (!outputFile)
+    throw util::Error("Cannot write file " + filePath.str());
 }
 
 }
diff --git a/jlm/util/Statistics.cpp b/jlm/util/Statistics.cpp
index f9f3386..4ec86e7 100644
--- a/jlm/util/Statistics.cpp
+++ b/jlm/util/Statistics.cpp
@@ -177,6 +177,8 @@ StatisticsCollector::PrintStatistics()
   {
     fprintf(file.fd(), "%s\n", statistics.Serialize(' ', ':').c_str());
   }
+
+  file.closeWritten();
 }
 
 File
diff --git a/jlm/util/file.hpp b/jlm/util/file.hpp
index e4b2f95..9cb922a 100644
--- a/jlm/util/file.hpp
+++ b/jlm/util/file.hpp
@@ -370,6 +370,21 @@ public:
     fd_ = NULL;
   }
 
+  /**
+   * Closes the file after it has been written.
+   *
+   * @throws jlm::util::Error if anything written to the file was lost.
+   */
+  void
+  closeWritten()
+  {
+    bool failed = ferror(fd_) != 0;
+    failed |= fclose(fd_) != 0;
+    fd_ = NULL;
+    if (failed)
+      throw Error("Cannot write file " + path_.to_str());
+  }
+
   void
   open(const char * mode)
   {
-- 
2.43.0


From 96091683c76ecff30baa35f094beb86618f8d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:01 +0000
Subject: [PATCH 48/61] fix: do not link object files when no linking is
 requested

---
 jlm/tooling/CommandLine.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jlm/tooling/CommandLine.cpp b/jlm/tooling/CommandLine.cpp
index df3821a..a0e93e8 100644
--- a/jlm/tooling/CommandLine.cpp
+++ b/jlm/tooling/CommandLine.cpp
@@ -627,7 +627,14 @@ JlcCommandLineParser::ParseCommandLineArguments(int argc, const char * const * a
     {
       /* FIXME: print a warning like clang if noLinking is true */
       CommandLineOptions_.Compilations_.push_back(
-          { inputFilePath, util::FilePath(""), inputFilePath, "", false, false, false, true });
+          { inputFilePath,
+            util::FilePath(""),
+            inputFilePath,
+            "",
+            false,
+            false,
+            false,
+            !noLinking });
 
       continue;
     }
@@ -1324,7 +1331,14 @@ JhlsCommandLineParser::ParseCommandLineArguments(int argc, const char * const *
     {
       /* FIXME: print a warning like clang if noLinking is true */
       CommandLineOptions_.Compilations_.push_back(
-          { inputFilePath, util::FilePath(""), inputFilePath, "", false, false, false, true });
+          { inputFilePath,
+            util::FilePath(""),
+            inputFilePath,
+            "",
+            false,
+            false,
+            false,
+            !noLinking });
 
       continue;
     }
-- 
2.43.0


From dec01c68ac1fb3f39db5001001862ccef99b202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:18 +0000
Subject: [PATCH 49/61] fix: accept the input format of printed jlm-opt
 commands without MLIR

---
 jlm/tooling/CommandLine.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jlm/tooling/CommandLine.cpp b/jlm/tooling/CommandLine.cpp
index a0e93e8..eab4b13 100644
--- a/jlm/tooling/CommandLine.cpp
+++ b/jlm/tooling/CommandLine.cpp
@@ -794,26 +794,26 @@ JlmOptCommandLineParser::ParseCommandLineArguments(int argc, const char * const
               "Write store value forwarding statistics to file.")),
       cl::desc("Write statistics"));
 
-#ifdef ENABLE_MLIR
   auto llvmInputFormat = JlmOptCommandLineOptions::InputFormat::Llvm;
+#ifdef ENABLE_MLIR
   auto mlirInputFormat = JlmOptCommandLineOptions::InputFormat::Mlir;
+#endif
 
   cl::opt<JlmOptCommandLineOptions::InputFormat> inputFormat(
       "input-format",
       cl::desc("Select input format:"),
       cl::values(
-          ::clEnumValN(
-              llvmInputFormat,
-              JlmOptCommandLineOptions::ToCommandLineArgument(llvmInputFormat),
-              "Input LLVM IR [default]"),
+#ifdef ENABLE_MLIR
           ::clEnumValN(
               mlirInputFormat,
               JlmOptCommandLineOptions::ToCommandLineArgument(mlirInputFormat),
-              "Input MLIR")),
-      cl::init(llvmInputFormat));
-#else
-  auto inputFormat = JlmOptCommandLineOptions::InputFormat::Llvm;
+              "Input MLIR"),
 #endif
+          ::clEnumValN(
+              llvmInputFormat,
+              JlmOptCommandLineOptions::ToCommandLineArgument(llvmInputFormat),
+              "Input LLVM IR [default]")),
+      cl::init(llvmInputFormat));
 
   cl::opt<JlmOptCommandLineOptions::OutputFormat> outputFormat(
       "output-format",
-- 
2.43.0


From 9d8c5ec6c40abd7e9d994ff9b1cdd0e109d753b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:58 +0000
Subject: [PATCH 50/61] fix: tell region observers about the predicate of a new
 gamma

---
 jlm/rvsdg/gamma.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index 41b1620..ed067a2 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -234,7 +234,7 @@ GammaNode::GammaNode(rvsdg::Output & predicate, std::unique_ptr<GammaOperation>
           this,
           &predicate,
           ControlType::Create(Operation_->nalternatives())),
-      false);
+      true);
   for (std::size_t n = 0; n < Operation_->nalternatives(); ++n)
   {
     RegionArgument::Create(*subregion(n), nullptr, Operation_->GetMatchContentType(n));
-- 
2.43.0


From 844696e13ba8cd746588cb70fa6215478a9b7a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:58 +0000
Subject: [PATCH 51/61] fix: keep the match contents of a gamma when it is
 copied

---
 jlm/rvsdg/gamma.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jlm/rvsdg/gamma.cpp b/jlm/rvsdg/gamma.cpp
index ed067a2..7758795 100644
--- a/jlm/rvsdg/gamma.cpp
+++ b/jlm/rvsdg/gamma.cpp
@@ -477,10 +477,18 @@ GammaNode::RemoveEntryVars(const std::vector<EntryVar> & entryVars)
 GammaNode *
 GammaNode::copy(rvsdg::Region *, SubstitutionMap & smap) const
 {
-  auto gamma = create(&smap.lookup(*predicate()->origin()), nsubregions());
+  auto gamma = &Create(
+      smap.lookup(*predicate()->origin()),
+      std::make_unique<GammaOperation>(GetOperation()));
 
-  /* add entry variables to new gamma */
+  /* map match contents to those of new gamma */
   std::vector<SubstitutionMap> rmap(nsubregions());
+  const auto oldMatchVar = GetMatchVar();
+  const auto newMatchVar = gamma->GetMatchVar();
+  for (size_t n = 0; n < nsubregions(); n++)
+    rmap[n].insert(oldMatchVar.matchContent[n], newMatchVar.matchContent[n]);
+
+  /* add entry variables to new gamma */
   for (const auto & oev : GetEntryVars())
   {
     auto nev = gamma->AddEntryVar(&smap.lookup(*oev.input->origin()));
-- 
2.43.0


From 76cae7485b42782542bc58919e438e59ca2d1181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:58 +0000
Subject: [PATCH 52/61] fix: set the results of the copied phi, not those of
 the original

---
 jlm/rvsdg/Phi.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jlm/rvsdg/Phi.cpp b/jlm/rvsdg/Phi.cpp
index f859aba..09234b8 100644
--- a/jlm/rvsdg/Phi.cpp
+++ b/jlm/rvsdg/Phi.cpp
@@ -203,20 +203,23 @@ PhiNode::copy(rvsdg::Region * region, rvsdg::SubstitutionMap & smap) const
   }
 
   // add recursion variables
-  for (auto var : GetFixVars())
+  const auto oldFixVars = GetFixVars();
+  std::vector<FixVar> newFixVars;
+  for (const auto & var : oldFixVars)
   {
-    auto newrv = pb.AddFixVar(var.recref->Type());
-    subregionmap.insert(var.recref, newrv.recref);
+    newFixVars.push_back(pb.AddFixVar(var.recref->Type()));
+    subregionmap.insert(var.recref, newFixVars.back().recref);
   }
 
   // copy subregion
   subregion()->copy(pb.subregion(), subregionmap);
 
   // finalize phi
-  for (auto var : GetFixVars())
+  for (size_t n = 0; n < oldFixVars.size(); n++)
   {
-    auto neworigin = &subregionmap.lookup(*var.result->origin());
-    var.result->divert_to(neworigin);
+    auto neworigin = &subregionmap.lookup(*oldFixVars[n].result->origin());
+    newFixVars[n].result->divert_to(neworigin);
+    smap.insert(oldFixVars[n].output, newFixVars[n].output);
   }
 
   return pb.end();
-- 
2.43.0


From 578a83a2042a39b0336b63c0b21fadee45e188d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:58 +0000
Subject: [PATCH 53/61] fix: do not leak a result that is appended to the wrong
 region

---
 jlm/rvsdg/region.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jlm/rvsdg/region.cpp b/jlm/rvsdg/region.cpp
index fbf13db..cc67f81 100644
--- a/jlm/rvsdg/region.cpp
+++ b/jlm/rvsdg/region.cpp
@@ -264,11 +264,10 @@ Region::PruneArguments()
 RegionResult &
 Region::addResult(std::unique_ptr<RegionResult> result)
 {
-  const auto resultPtr = result.release();
-
-  if (resultPtr->region() != this)
+  if (result->region() != this)
     throw util::Error("Appending result to wrong region.");
 
+  const auto resultPtr = result.release();
   resultPtr->index_ = nresults();
   results_.push_back(resultPtr);
 
-- 
2.43.0


From bd0324b027f13d015e00b216d9bf10003a69a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:58 +0000
Subject: [PATCH 54/61] fix: never visit nodes created during a bottom-up
 traversal

---
 jlm/rvsdg/traverser.cpp | 15 +++++++++++++++
 jlm/rvsdg/traverser.hpp |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/jlm/rvsdg/traverser.cpp b/jlm/rvsdg/traverser.cpp
index 13c12eb..b9164de 100644
--- a/jlm/rvsdg/traverser.cpp
+++ b/jlm/rvsdg/traverser.cpp
@@ -314,6 +314,7 @@ void
 BottomUpTraverserGeneric<IsConst>::onNodeCreate(NodeType * node)
 {
   // The new node should never be visited, so activate all its predecessors immediately
+  tracker_.markNodeVisited(node);
   markAsVisited(*node);
 }
 
@@ -337,6 +338,9 @@ BottomUpTraverserGeneric<IsConst>::onNodeDestroy(NodeType * node)
       tracker_.decActivationCount(pred, 0);
     }
   }
+
+  // The memory of the node may be reused by a node created later
+  tracker_.removeNode(node);
 }
 
 template<bool IsConst>
@@ -459,6 +463,17 @@ TraversalTracker<NodeType>::checkMarkNodeVisitedIfFrontier(NodeType * node)
   }
 }
 
+template<typename NodeType>
+void
+TraversalTracker<NodeType>::markNodeVisited(NodeType * node)
+{
+  auto i = states_.emplace(node, State{ TraversalNodeState::ahead }).first;
+  if (i->second.state == TraversalNodeState::frontier)
+    frontier_.erase(i->second.pos);
+  i->second.pos = frontier_.end();
+  i->second.state = TraversalNodeState::behind;
+}
+
 template<typename NodeType>
 void
 TraversalTracker<NodeType>::incActivationCount(NodeType * node, std::size_t threshold)
diff --git a/jlm/rvsdg/traverser.hpp b/jlm/rvsdg/traverser.hpp
index 5e8ad0e..60afc4e 100644
--- a/jlm/rvsdg/traverser.hpp
+++ b/jlm/rvsdg/traverser.hpp
@@ -58,6 +58,10 @@ public:
   void
   checkMarkNodeVisitedIfFrontier(NodeType * node);
 
+  /** \brief Marks a node visited, whether or not it is currently ready for visiting. */
+  void
+  markNodeVisited(NodeType * node);
+
   /** \brief Increments activation count; adds to frontier if threshold is met. */
   void
   incActivationCount(NodeType * node, std::size_t threshold);
-- 
2.43.0


From 6b377c8179eb5e524de9f0e83bae0271cfa23457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:58 +0000
Subject: [PATCH 55/61] fix: keep observers and top nodes consistent when
 inputs are removed

---
 jlm/rvsdg/node.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/jlm/rvsdg/node.cpp b/jlm/rvsdg/node.cpp
index f58d797..d88e56c 100644
--- a/jlm/rvsdg/node.cpp
+++ b/jlm/rvsdg/node.cpp
@@ -310,27 +310,25 @@ Node::RemoveInputs(const util::HashSet<size_t> & indices)
     return 0;
   }
 
-  size_t numLiveInputs = 0;
   size_t numRemovedInputs = 0;
-  for (size_t n = 0; n < ninputs(); n++)
+  for (size_t n = 0; n < ninputs();)
   {
     auto & input = inputs_[n];
     if (indices.Contains(input->index()))
     {
+      // Observers rely on the number of inputs, so remove the inputs one by one
       region()->notifyInputDestroy(input.get());
-      input.reset();
+      inputs_.erase(inputs_.begin() + n);
       numRemovedInputs++;
     }
     else
     {
-      input->index_ = numLiveInputs;
-      inputs_[numLiveInputs++] = std::move(input);
+      input->index_ = n++;
     }
   }
-  inputs_.resize(numLiveInputs);
 
   // If we no longer have any inputs we are now a top node
-  if (numLiveInputs == 0)
+  if (ninputs() == 0 && numRemovedInputs > 0)
   {
     region()->onTopNodeAdded(*this);
   }
-- 
2.43.0


From abeeb42979ecd50b40fb57f97e68b0731134da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:57 +0000
Subject: [PATCH 56/61] fix: do not bypass a store that stays alive

A store was moved past a preceding store to the same address if all of its own
state operands come from that store and have no other users. However, the
preceding store can have further state outputs with users. It then stays alive
and is no longer ordered with respect to the store that overwrites it.
---
 jlm/llvm/ir/operators/Store.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index fabf118..a007319 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -217,6 +217,14 @@ StoreNonVolatileOperation::normalizeStoreStore(
     }
   }
 
+  // Check that store1 has no other users at all. Otherwise, store1 would stay alive and not be
+  // ordered with respect to store2 any longer.
+  size_t numStore1Users = 0;
+  for (auto & store1Output : store1Node->Outputs())
+    numStore1Users += store1Output.nusers();
+  if (numStore1Users != newMemoryStates.size())
+    return std::nullopt;
+
   // Check that store2 fully overwrites store1
   const auto & store1Type = store1Op->GetStoredType();
   const auto & store2Type = store2Op.GetStoredType();
-- 
2.43.0


From 36da2e80f9dca370d029f93c2f2285d4d9eb86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:51 +0000
Subject: [PATCH 57/61] fix: do not access removed theta nodes in the
 statistics of loop strength reduction

The number of reduced operations was kept per theta node, but the nodes of a
loop's subregion, among them inner loops, are pruned after the loop is
processed. The statistics then accessed destroyed theta nodes.
---
 jlm/llvm/opt/LoopStrengthReduction.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jlm/llvm/opt/LoopStrengthReduction.cpp b/jlm/llvm/opt/LoopStrengthReduction.cpp
index f3d55c1..1f452d9 100644
--- a/jlm/llvm/opt/LoopStrengthReduction.cpp
+++ b/jlm/llvm/opt/LoopStrengthReduction.cpp
@@ -40,13 +40,15 @@ public:
     return std::make_unique<Context>();
   }
 
+  // The theta nodes are identified by the id of their subregion, as theta nodes can be removed
+  // before the statistics are collected.
   void
   IncrementOperationsReducedCount(const rvsdg::ThetaNode & theta)
   {
-    OperationsReducedMap_[&theta]++;
+    OperationsReducedMap_[theta.subregion()->getRegionId()]++;
   }
 
-  const std::unordered_map<const rvsdg::ThetaNode *, size_t> &
+  const std::unordered_map<rvsdg::Region::Id, size_t> &
   GetOperationsReducedMap() const
   {
     return OperationsReducedMap_;
@@ -58,7 +60,7 @@ public:
   size_t NumGEPOperationsReduced = 0;
 
 private:
-  std::unordered_map<const rvsdg::ThetaNode *, size_t> OperationsReducedMap_;
+  std::unordered_map<rvsdg::Region::Id, size_t> OperationsReducedMap_;
 };
 
 class LoopStrengthReduction::Statistics final : public util::Statistics
@@ -95,17 +97,15 @@ public:
   }
 
   static std::string
-  GetStatisticsString(
-      const std::unordered_map<const rvsdg::ThetaNode *, size_t> & operationsReducedMap)
+  GetStatisticsString(const std::unordered_map<rvsdg::Region::Id, size_t> & operationsReducedMap)
   {
     std::string s = "";
     size_t totalCount = 0;
-    for (auto & [thetaNode, operationsReduced] : operationsReducedMap)
+    for (auto & [regionId, operationsReduced] : operationsReducedMap)
     {
       totalCount += operationsReduced;
 
-      s += "ID(" + std::to_string(thetaNode->subregion()->getRegionId())
-         + ")=" + std::to_string(operationsReduced);
+      s += "ID(" + std::to_string(regionId) + ")=" + std::to_string(operationsReduced);
       s += ",";
     }
     s += "Total=" + std::to_string(totalCount);
-- 
2.43.0


From 3eff753aaf0c703840641c30e3c008d553b53023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:10 +0000
Subject: [PATCH 58/61] fix: do not block an alloca from leaving a structural
 node that its address leaves

---
 .../RegionAwareModRefSummarizer.cpp           | 25 +++++++++++++++++++
 .../RegionAwareModRefSummarizer.hpp           |  9 +++++++
 2 files changed, 34 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
index 44d147b..f2cc202 100644
--- a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
@@ -1248,6 +1248,23 @@ RegionAwareModRefSummarizer::getSimpleAllocasReachableFromRegionArguments(
   return getReachableSimpleAllocas(nodes);
 }
 
+util::HashSet<PointsToGraph::NodeIndex>
+RegionAwareModRefSummarizer::getSimpleAllocasReachableFromRegionResults(
+    const rvsdg::Region & region)
+{
+  const auto & pointsToGraph = Context_->pointsToGraph;
+
+  std::queue<PointsToGraph::NodeIndex> nodes;
+  for (auto result : region.Results())
+  {
+    if (!IsPointerCompatible(*result->origin()))
+      continue;
+    nodes.push(pointsToGraph.getNodeForRegister(*result->origin()));
+  }
+
+  return getReachableSimpleAllocas(nodes);
+}
+
 util::HashSet<PointsToGraph::NodeIndex>
 RegionAwareModRefSummarizer::getSimpleAllocasReachableFromCallArguments(
     const rvsdg::SimpleNode & call)
@@ -1303,6 +1320,14 @@ RegionAwareModRefSummarizer::CreateNonReentrantAllocaSets()
     auto & allocaNode = pointsToGraph.getAllocaForNode(simpleAllocaPtgNode);
     const auto & region = *allocaNode.region();
 
+    // If the alloca is inside a structural node in its function, the address of the alloca can leave
+    // the structural node, either as a result, or through memory that is reachable from the outside.
+    // The memory state must then be able to follow, so the alloca can not be blocked.
+    if (!dynamic_cast<const rvsdg::LambdaNode *>(region.node())
+        && (getReachableSimpleAllocas(region).Contains(simpleAllocaPtgNode)
+            || getSimpleAllocasReachableFromRegionResults(region).Contains(simpleAllocaPtgNode)))
+      return false;
+
     // If the alloca's function is never involved in any recursion,
     // the alloca is trivially non-reentrant.
     const auto & lambda = getSurroundingLambdaNode(allocaNode);
diff --git a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp
index 9faa498..e3a7d5f 100644
--- a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp
+++ b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp
@@ -145,6 +145,15 @@ private:
   util::HashSet<PointsToGraph::NodeIndex>
   getSimpleAllocasReachableFromRegionArguments(const rvsdg::Region & region);
 
+  /**
+   * Gets the set of simple alloca nodes that are reachable from \p region's results.
+   * Reachability is defined in terms of the \ref PointsToGraph.
+   * @param region the region whose results are checked
+   * @return the set of simple allocas reachable from region results
+   */
+  util::HashSet<PointsToGraph::NodeIndex>
+  getSimpleAllocasReachableFromRegionResults(const rvsdg::Region & region);
+
   /**
    * Gets the set of simple alloca nodes that are reachable from the \p call's arguments.
    * Reachability is defined in terms of the \ref PointsToGraph.
-- 
2.43.0


From 285440ef188d5149e643b6b533585d387a969d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:34 +0000
Subject: [PATCH 59/61] fix: sequentialize stores to the allocas of a function
 that calls setjmp with external calls

---
 .../opt/alias-analyses/RegionAwareModRefSummarizer.cpp     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
index f2cc202..d227fca 100644
--- a/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
+++ b/jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp
@@ -1439,9 +1439,12 @@ RegionAwareModRefSummarizer::AnnotateStructuralNode(
     AnnotateRegion(subregion, modRefSet, lambda);
   }
 
-  // Check if this node has any non-reentrant allocas. If so, block them from leaving the node
+  // Check if this node has any non-reentrant allocas. If so, block them from leaving the node.
+  // The allocas of functions that call setjmp are not blocked: any external call may jump back into
+  // the function, so stores to its allocas must also be sequentialized with external calls.
   if (const auto it = Context_->NonReentrantAllocas.find(&structuralNode);
-      it != Context_->NonReentrantAllocas.end() && ENABLE_NON_REENTRANT_ALLOCA_BLOCKLIST)
+      it != Context_->NonReentrantAllocas.end() && ENABLE_NON_REENTRANT_ALLOCA_BLOCKLIST
+      && !Context_->FunctionsCallingSetjmp.Contains(&lambda))
   {
     AddModRefSetBlocklist(modRefSet, it->second);
   }
-- 
2.43.0


From dd561c255091f1af4781fcb67816e3a2f3d81e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:55 +0000
Subject: [PATCH 60/61] fix: treat loop states that also leave through another
 loop variable as modifications in load chain separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 38 ++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 56d3786..2f7a025 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -258,6 +258,38 @@ onlyReferences(
   return true;
 }
 
+/**
+ * Determines whether the memory state of \p output can reach a region result other than \p result.
+ */
+static bool
+reachesOtherResult(
+    const rvsdg::Output & output,
+    const rvsdg::Input & result,
+    util::HashSet<const rvsdg::Output *> & visitedOutputs)
+{
+  if (!visitedOutputs.insert(&output))
+    return false;
+
+  for (auto & user : output.Users())
+  {
+    if (rvsdg::TryGetOwnerRegion(user))
+    {
+      if (&user != &result)
+        return true;
+      continue;
+    }
+
+    for (auto & nodeOutput : rvsdg::AssertGetOwnerNode<rvsdg::Node>(user).Outputs())
+    {
+      if (is<MemoryStateType>(nodeOutput.Type())
+          && reachesOtherResult(nodeOutput, result, visitedOutputs))
+        return true;
+    }
+  }
+
+  return false;
+}
+
 void
 LoadChainSeparation::separateRefenceChainsInTheta(rvsdg::ThetaNode & thetaNode)
 {
@@ -274,11 +306,13 @@ LoadChainSeparation::separateRefenceChainsInTheta(rvsdg::ThetaNode & thetaNode)
         separateReferenceChains(*loopVar.post->origin());
 
     // The state that leaves the loop is only a reference of the state that enters it if it is the
-    // state of the same loop variable
+    // state of the same loop variable, and of no other one
     util::HashSet<const rvsdg::Output *> visitedOutputs;
+    util::HashSet<const rvsdg::Output *> reachedOutputs;
     const auto isReference =
         !hasModificationChainLinkAboveInRegion
-        && onlyReferences(*loopVar.post->origin(), *loopVar.pre, visitedOutputs);
+        && onlyReferences(*loopVar.post->origin(), *loopVar.pre, visitedOutputs)
+        && !reachesOtherResult(*loopVar.pre, *loopVar.post, reachedOutputs);
     Context_->add(
         *loopVar.output,
         isReference ? ModRefChainLink::Type::Reference : ModRefChainLink::Type::Modification);
-- 
2.43.0


From c9de41c9a9f2e23931b23ce2b1879db4a7368a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:41 +0000
Subject: [PATCH 61/61] fix: a vector shuffle has as many elements as its mask

---
 jlm/llvm/ir/operators/operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/operators/operators.hpp b/jlm/llvm/ir/operators/operators.hpp
index 9b39190..d02ca52 100644
--- a/jlm/llvm/ir/operators/operators.hpp
+++ b/jlm/llvm/ir/operators/operators.hpp
@@ -1226,14 +1226,14 @@ public:
   ShuffleVectorOperation(
       const std::shared_ptr<const FixedVectorType> & v,
       const std::vector<int> & mask)
-      : SimpleOperation({ v, v }, { v }),
+      : SimpleOperation({ v, v }, { FixedVectorType::Create(v->Type(), mask.size()) }),
         Mask_(mask)
   {}
 
   ShuffleVectorOperation(
       const std::shared_ptr<const ScalableVectorType> & v,
       const std::vector<int> & mask)
-      : SimpleOperation({ v, v }, { v }),
+      : SimpleOperation({ v, v }, { ScalableVectorType::Create(v->Type(), mask.size()) }),
         Mask_(mask)
   {}
 
-- 
2.43.0

