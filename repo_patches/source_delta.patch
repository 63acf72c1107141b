From d0d81878684b8ad978cf4352311bbb734998757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 01/43] fix: do not wrap the constant when folding 'le x MAX'
 and 'ge x MIN'

x <= 2147483647 was rewritten to x < -2147483648 (and x >= -2147483648 to
x > 2147483647), turning an always-true comparison into an always-false one.
---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index d624a2e..c46a951 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1192,7 +1192,12 @@ class ArithmeticReduce final : public TransformPass<Function> {
 
             // le x c -> lt x c+1, ge x c -> gt x c-1
             if(icmp(cmp, any(v1), int_(i1))(matchCtx)) {
-                // TODO: check overflow
+                if(v1->getType()->getFixedSize() == sizeof(int32_t)) {
+                    // c+1/c-1 is not representable
+                    if((cmp == CompareOp::ICmpSignedLessEqual && i1 == std::numeric_limits<int32_t>::max()) ||
+                       (cmp == CompareOp::ICmpSignedGreaterEqual && i1 == std::numeric_limits<int32_t>::min()))
+                        return builder.getTrue();
+                }
                 if(cmp == CompareOp::ICmpSignedLessEqual) {
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedLessThan, v1,
                                                        makeIntLike(i1 + 1, v1));
-- 
2.43.0


From 0c631cf8c00dccec439a4230fba4392c82debd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 02/43] fix: combine mixed strict/non-strict compares without
 overflow or a flipped operator

'a >= x && b < a' pairs were unified by turning ge into lt, and by adding or
subtracting one from a non-constant operand, which may overflow.
---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 33 +++++++++-----------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index c46a951..e96bbe2 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1288,21 +1288,19 @@ class ArithmeticReduce final : public TransformPass<Function> {
                             return 0;
                     }
                 };
+                // le x c -> lt x c+1, ge x c -> gt x c-1
                 auto legalize = [&](CompareOp& op, Value*& val) {
-                    switch(op) {
-                        case CompareOp::ICmpSignedLessEqual: {
-                            op = CompareOp::ICmpSignedLessThan;
-                            val = addOffset(val, 1);
-                            break;
-                        }
-                        case CompareOp::ICmpSignedGreaterEqual: {
-                            op = CompareOp::ICmpSignedLessThan;
-                            val = addOffset(val, -1);
-                            break;
-                        }
-                        default:
-                            break;
-                    }
+                    if(op != CompareOp::ICmpSignedLessEqual && op != CompareOp::ICmpSignedGreaterEqual)
+                        return true;
+                    const auto isLess = op == CompareOp::ICmpSignedLessEqual;
+                    const auto limit =
+                        isLess ? std::numeric_limits<int32_t>::max() : std::numeric_limits<int32_t>::min();
+                    // TODO: check overflow of non-constants
+                    if(val->is<ConstantInteger>() && val->as<ConstantInteger>()->getSignExtended() == limit)
+                        return false;
+                    op = isLess ? CompareOp::ICmpSignedLessThan : CompareOp::ICmpSignedGreaterThan;
+                    val = addOffset(val, isLess ? 1 : -1);
+                    return true;
                 };
                 auto matchCompare = [&](CompareOp cmpA, Value* x1, Value* y1, CompareOp cmpB, Value* x2, Value* y2) -> Value* {
                     if(x1 != x2)
@@ -1312,11 +1310,8 @@ class ArithmeticReduce final : public TransformPass<Function> {
                     if(!(dirA && dirB && dirA == dirB))
                         return nullptr;
 
-                    // TODO: check overflow
-                    if(cmpA != cmpB) {
-                        legalize(cmpA, y1);
-                        legalize(cmpB, y2);
-                    }
+                    if(cmpA != cmpB && !(legalize(cmpA, y1) && legalize(cmpB, y2)))
+                        return nullptr;
                     assert(cmpA == cmpB);
                     const auto base = builder.makeOp<BinaryInst>(dirA == 1 ? InstructionID::SMin : InstructionID::SMax, y1, y2);
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, cmpA, x1, base);
-- 
2.43.0


From de090f97467465ce45dee8b1e03f50534655d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 03/43] fix: getarray/putarray lengths may be zero

The range analysis assumed at least one element, so code guarded by the length
was executed even for an empty array.
---
 cmmc/Analysis/IntegerRangeAnalysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Analysis/IntegerRangeAnalysis.cpp b/cmmc/Analysis/IntegerRangeAnalysis.cpp
index 1dfc5ef..24f66e3 100644
--- a/cmmc/Analysis/IntegerRangeAnalysis.cpp
+++ b/cmmc/Analysis/IntegerRangeAnalysis.cpp
@@ -558,7 +558,7 @@ IntegerRangeAnalysisResult IntegerRangeAnalysis::run(Function& func, AnalysisPas
                             auto& dataLayout = analysis.module().getTarget().getDataLayout();
                             const auto arraySize = base->getType()->as<PointerType>()->getPointee()->getSize(dataLayout);
                             IntegerRange r;
-                            r.setSignedRange(1, static_cast<intmax_t>(arraySize) / static_cast<intmax_t>(sizeof(int32_t)));
+                            r.setSignedRange(0, static_cast<intmax_t>(arraySize) / static_cast<intmax_t>(sizeof(int32_t)));
                             r.sync();
                             return r;
                         }
-- 
2.43.0


From 29b2eb4099770d42457791f92f77e2fd28039cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 04/43] fix: drop the intrinsic tag of a function whose
 arguments are removed

---
 cmmc/IR/Function.hpp                     | 3 +++
 cmmc/Transforms/DCE/DeadArgEliminate.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/cmmc/IR/Function.hpp b/cmmc/IR/Function.hpp
index 218cd82..4dd0883 100644
--- a/cmmc/IR/Function.hpp
+++ b/cmmc/IR/Function.hpp
@@ -108,6 +108,9 @@ public:
     [[nodiscard]] Intrinsic getIntrinsic() const noexcept {
         return mIntrinsic;
     }
+    void setIntrinsic(Intrinsic intrinsic) noexcept {
+        mIntrinsic = intrinsic;
+    }
 };
 
 CMMC_NAMESPACE_END
diff --git a/cmmc/Transforms/DCE/DeadArgEliminate.cpp b/cmmc/Transforms/DCE/DeadArgEliminate.cpp
index c392f50..4920d18 100644
--- a/cmmc/Transforms/DCE/DeadArgEliminate.cpp
+++ b/cmmc/Transforms/DCE/DeadArgEliminate.cpp
@@ -74,6 +74,8 @@ public:
                     func->updateTypeFromArgs();
                     std::reverse(removedIdx.begin(), removedIdx.end());
                     removeUnusedArgs(func, removedIdx);
+                    // The signature no longer matches the one of the intrinsic, so calls must be resolved by the body.
+                    func->setIntrinsic(Intrinsic::none);
                     modified = true;
                 }
             }
-- 
2.43.0


From e2c4d91020d21e0d33bce26eb8d295cf732f06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 05/43] fix: insert strength-reduced multiplications after the
 phis of a block

---
 cmmc/Transforms/Loop/LoopStrengthReduction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Loop/LoopStrengthReduction.cpp b/cmmc/Transforms/Loop/LoopStrengthReduction.cpp
index 8a6f350..bb54fb1 100644
--- a/cmmc/Transforms/Loop/LoopStrengthReduction.cpp
+++ b/cmmc/Transforms/Loop/LoopStrengthReduction.cpp
@@ -172,7 +172,11 @@ class LoopStrengthReduction final : public TransformPass<Function> {
 
             IRBuilder builder{ target };
             if(step->getBlock()) {
-                builder.setInsertPoint(step->getBlock(), std::next(step->as<Instruction>()->asIterator()));
+                // keep phis in the front of the block
+                auto insertPoint = std::next(step->as<Instruction>()->asIterator());
+                while((*insertPoint).getInstID() == InstructionID::Phi)
+                    ++insertPoint;
+                builder.setInsertPoint(step->getBlock(), insertPoint);
             } else {
                 builder.setInsertPoint(entryBlock, std::prev(entryBlock->instructions().end()));
             }
-- 
2.43.0


From 13ca2e1bc36071e176e64610741c4255e9c7c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 06/43] fix: keep the sign when merging arithmetic shifts whose
 total exceeds the width

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index e96bbe2..0ddee9e 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -510,7 +510,9 @@ class ArithmeticReduce final : public TransformPass<Function> {
                 const auto shamt = i1 + i2;
                 if(isLegalShamt(shamt, v1->getType()))
                     return builder.makeOp<BinaryInst>(InstructionID::AShr, v1, makeIntLike(shamt, v1));
-                return makeIntLike(0, v1);
+                // only copies of the sign bit remain
+                return builder.makeOp<BinaryInst>(
+                    InstructionID::AShr, v1, makeIntLike(v1->getType()->as<IntegerType>()->getBitwidth() - 1, v1));
             }
 
             // select c1, c2, false -> c1 & c2
-- 
2.43.0


From f2c0ca452798cffe1f797a2c36e8d77118db9738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 07/43] fix: do not treat 0.0 and -0.0 as the same constant

---
 cmmc/IR/ConstantValue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmc/IR/ConstantValue.cpp b/cmmc/IR/ConstantValue.cpp
index dca3b80..d19f950 100644
--- a/cmmc/IR/ConstantValue.cpp
+++ b/cmmc/IR/ConstantValue.cpp
@@ -15,6 +15,7 @@
 #include <cmmc/IR/ConstantValue.hpp>
 #include <cmmc/IR/Type.hpp>
 #include <cmmc/Support/Diagnostics.hpp>
+#include <cmath>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -151,7 +152,10 @@ size_t ConstantFloatingPoint::hash() const {
 }
 bool ConstantFloatingPoint::isEqual(const ConstantValue* rhs) const {
     return isEqualImpl<ConstantFloatingPoint>(
-        rhs, [&](const ConstantFloatingPoint* rhsVal) { return getValue() == rhsVal->getValue(); });
+        rhs, [&](const ConstantFloatingPoint* rhsVal) {
+            // 0.0 and -0.0 are different constants
+            return getValue() == rhsVal->getValue() && std::signbit(getValue()) == std::signbit(rhsVal->getValue());
+        });
 }
 
 size_t ConstantOffset::hash() const {
-- 
2.43.0


From 842a0cf2abd3b0ac605cc1ae0a30ad28bc7a162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 08/43] fix: clear float arrays with float stores so that TBAA
 sees them

---
 cmmc/Frontend/EmitIR.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 19385a0..3f2dd4f 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1839,7 +1839,7 @@ void StructDefinition::emit(EmitContext& ctx) const {
     EmitContext::popLoc();
 }
 
-static void emitMemset(Function* func, uint32_t bitWidth, const mir::Target& target) {
+static void emitMemset(Function* func, const Type* elementType, const mir::Target& target) {
     // void memset(i8* ptr, size_t size) (size > 0)
     // entry:
     //     br loop
@@ -1866,7 +1866,12 @@ static void emitMemset(Function* func, uint32_t bitWidth, const mir::Target& tar
     const auto idx = builder.createPhi(size->getType());
     idx->addIncoming(entry, ConstantInteger::get(size->getType(), 0));
     const auto cur = builder.makeOp<GetElementPtrInst>(ptr, std::vector<Value*>{ idx });
-    builder.makeOp<StoreInst>(cur, ConstantInteger::get(IntegerType::get(bitWidth), 0));
+    ConstantValue* zero = nullptr;
+    if(elementType->isFloatingPoint())
+        zero = make<ConstantFloatingPoint>(elementType, 0.0);
+    else
+        zero = ConstantInteger::get(elementType, 0);
+    builder.makeOp<StoreInst>(cur, zero);
     const auto nxt = builder.makeOp<BinaryInst>(InstructionID::Add, idx, ConstantInteger::get(size->getType(), 1));
     idx->addIncoming(loop, nxt);
     const auto cond = builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedLessThan, nxt, size);
@@ -1894,13 +1899,15 @@ Function* EmitContext::getMemset(const Type* type) {
     for(auto global : mModule->globals())
         if(global->getSymbol() == symbol)
             return global->as<Function>();
-    const auto bitWidth = static_cast<uint32_t>(type->getFixedSize()) * 8;
+    // The stores must have the type of the cleared elements, otherwise TBAA treats them as unrelated to the array.
+    const auto elementType =
+        type->isFloatingPoint() ? type : IntegerType::get(static_cast<uint32_t>(type->getFixedSize()) * 8);
     const auto i32 = IntegerType::get(32);
-    auto funcType = make<FunctionType>(VoidType::get(), Vector<const Type*>{ PointerType::get(IntegerType::get(bitWidth)), i32 });
+    auto funcType = make<FunctionType>(VoidType::get(), Vector<const Type*>{ PointerType::get(elementType), i32 });
     auto func = make<Function>(symbol, funcType, Intrinsic::memset);
     mModule->add(func);
     func->attr().addAttr(FunctionAttribute::NoMemoryRead).addAttr(FunctionAttribute::NoRecurse);
-    emitMemset(func, bitWidth, mModule->getTarget());
+    emitMemset(func, elementType, mModule->getTarget());
     return func;
 }
 
-- 
2.43.0


From 0a4d219e6aded5c12a76f53a2e401e4a4fe178f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 09/43] fix: trip-count based rewrites require a guarded loop
 and may only replace final values

---
 cmmc/Analysis/LoopAnalysis.cpp                | 91 ++++++++++++++++++-
 cmmc/Analysis/LoopAnalysis.hpp                |  2 +
 cmmc/Transforms/Combine/ModuloOpt.cpp         | 23 ++++-
 cmmc/Transforms/Loop/DynamicLoopUnroll.cpp    |  3 +
 .../Transforms/Loop/FinalValueReplacement.cpp |  3 +
 cmmc/Transforms/Loop/LoopParallel.cpp         |  2 +-
 6 files changed, 120 insertions(+), 4 deletions(-)

diff --git a/cmmc/Analysis/LoopAnalysis.cpp b/cmmc/Analysis/LoopAnalysis.cpp
index a206e17..c9140d6 100644
--- a/cmmc/Analysis/LoopAnalysis.cpp
+++ b/cmmc/Analysis/LoopAnalysis.cpp
@@ -12,12 +12,15 @@
     limitations under the License.
 */
 
+#include <cmmc/Analysis/CFGAnalysis.hpp>
 #include <cmmc/Analysis/DominateAnalysis.hpp>
 #include <cmmc/Analysis/LoopAnalysis.hpp>
 #include <cmmc/IR/Block.hpp>
 #include <cmmc/IR/Instruction.hpp>
 #include <cmmc/Transforms/Util/PatternMatch.hpp>
 #include <iostream>
+#include <limits>
+#include <utility>
 #include <variant>
 
 CMMC_NAMESPACE_BEGIN
@@ -26,9 +29,94 @@ CMMC_NAMESPACE_BEGIN
 // for(int i = initial; i </> cond; i += step) (step != 0)
 //     body
 
+// The body is executed before the exit condition is checked for the first time. So we need to find a dominating check.
+static bool isGuarded(Block* header, Value* initial, Value* bound, intmax_t step, const DominateAnalysisResult& dom,
+                      const CFGAnalysisResult& cfg) {
+    // check lhs < rhs
+    const auto lhs = step > 0 ? initial : bound;
+    const auto rhs = step > 0 ? bound : initial;
+    intmax_t lhsVal = 0, rhsVal = 0;
+    const auto isLhsConst = int_(lhsVal)(MatchContext<Value>{ lhs });
+    const auto isRhsConst = int_(rhsVal)(MatchContext<Value>{ rhs });
+    if(isLhsConst && isRhsConst)
+        return lhsVal < rhsVal;
+
+    // val = base + offset (signed overflow is undefined)
+    const auto decompose = [](Value* val) {
+        intmax_t offset = 0, c = 0;
+        Value* base = val;
+        while(add(any(base), int_(c))(MatchContext<Value>{ val })) {
+            offset += c;
+            val = base;
+        }
+        return std::make_pair(val, offset);
+    };
+    constexpr intmax_t minVal = std::numeric_limits<int32_t>::min(), maxVal = std::numeric_limits<int32_t>::max();
+
+    // implies lhs < rhs?
+    const auto implies = [&](CompareOp op, Value* v1, Value* v2) {
+        if(op == CompareOp::ICmpSignedGreaterThan || op == CompareOp::ICmpSignedGreaterEqual) {
+            std::swap(v1, v2);
+            op = getReversedOp(op);
+        }
+        if(op != CompareOp::ICmpSignedLessThan && op != CompareOp::ICmpSignedLessEqual)
+            return false;
+        const auto strict = op == CompareOp::ICmpSignedLessThan;
+        if(strict && v1 == lhs && v2 == rhs)
+            return true;
+
+        intmax_t val = 0;
+        if(isLhsConst && int_(val)(MatchContext<Value>{ v1 })) {
+            const auto [base, offset] = decompose(rhs);
+            const auto [guardBase, guardOffset] = decompose(v2);
+            const auto diff = offset - guardOffset;
+            // rhs = v2 + diff >= lowerBound
+            const auto lowerBound = val + (strict ? 1 : 0) + diff;
+            return base == guardBase && lowerBound >= minVal && lhsVal < lowerBound;
+        }
+        if(isRhsConst && int_(val)(MatchContext<Value>{ v2 })) {
+            const auto [base, offset] = decompose(lhs);
+            const auto [guardBase, guardOffset] = decompose(v1);
+            const auto diff = offset - guardOffset;
+            // lhs = v1 + diff <= upperBound
+            const auto upperBound = val - (strict ? 1 : 0) + diff;
+            return base == guardBase && upperBound <= maxVal && upperBound < rhsVal;
+        }
+        return false;
+    };
+
+    auto child = header;
+    for(auto block = dom.parent(header); block; child = block, block = dom.parent(block)) {
+        const auto terminator = block->getTerminator();
+        if(terminator->getInstID() != InstructionID::ConditionalBranch)
+            continue;
+        const auto branch = terminator->as<BranchInst>();
+        if(branch->getTrueTarget() == branch->getFalseTarget() || !branch->getOperand(0)->is<CompareInst>())
+            continue;
+        const auto cmp = branch->getOperand(0)->as<CompareInst>();
+        if(cmp->getInstID() != InstructionID::ICmp)
+            continue;
+        const auto enterBy = [&](Block* target) {
+            if(target != child)
+                return false;
+            for(auto pred : cfg.predecessors(target))
+                if(pred != block && !dom.dominate(target, pred))
+                    return false;
+            return true;
+        };
+        if(enterBy(branch->getTrueTarget()) && implies(cmp->getOp(), cmp->getOperand(0), cmp->getOperand(1)))
+            return true;
+        if(enterBy(branch->getFalseTarget()) &&
+           implies(getInvertedOp(cmp->getOp()), cmp->getOperand(0), cmp->getOperand(1)))
+            return true;
+    }
+    return false;
+}
+
 LoopAnalysisResult LoopAnalysis::run(Function& func, AnalysisPassManager& analysis) {
     std::vector<Loop> loops;
     auto& dom = analysis.get<DominateAnalysis>(func);
+    auto& cfg = analysis.get<CFGAnalysis>(func);
 
     for(auto block : dom.blocks()) {
         const auto terminator = block->getTerminator();
@@ -113,7 +201,8 @@ LoopAnalysisResult LoopAnalysis::run(Function& func, AnalysisPassManager& analys
         } else
             continue;
 
-        loops.push_back({ header, block, indvar, next, initial, bound, step });
+        loops.push_back({ header, block, indvar, next, initial, bound, step,
+                          isGuarded(header, initial, bound, step, dom, cfg) });
     }
 
     // for(auto& loop : loops) {
diff --git a/cmmc/Analysis/LoopAnalysis.hpp b/cmmc/Analysis/LoopAnalysis.hpp
index d1be086..5f5be45 100644
--- a/cmmc/Analysis/LoopAnalysis.hpp
+++ b/cmmc/Analysis/LoopAnalysis.hpp
@@ -30,6 +30,8 @@ struct Loop final {
     Value* initial;
     Value* bound;
     intmax_t step;
+    // initial is known to be inside the bound when the loop is entered, i.e. the trip count is determined by [initial, bound)
+    bool guarded;
 };
 
 struct LoopAnalysisResult final {
diff --git a/cmmc/Transforms/Combine/ModuloOpt.cpp b/cmmc/Transforms/Combine/ModuloOpt.cpp
index 4e5cde1..52471b6 100644
--- a/cmmc/Transforms/Combine/ModuloOpt.cpp
+++ b/cmmc/Transforms/Combine/ModuloOpt.cpp
@@ -213,6 +213,21 @@ class ModuloOpt final : public TransformPass<Function> {
         return func;
     }
 
+    // inst will be replaced by its value in the last iteration, so the other iterations must be invisible
+    static bool isOnlyFinalValueUsed(const Loop& loop, Instruction& inst, PhiInst* rec) {
+        for(auto user : inst.users())
+            if(user != rec && user->getBlock() == loop.header)
+                return false;
+        for(auto user : rec->users())
+            if(user != inst.getOperand(0))
+                return false;
+        const auto sum = inst.getOperand(0)->as<Instruction>();
+        for(auto user : sum->users())
+            if(user != &inst)
+                return false;
+        return true;
+    }
+
     static bool foldAddRec2SRem(const IntegerRangeAnalysisResult& range, const DominateAnalysisResult& dom,
                                 const CFGAnalysisResult& cfg, const LoopAnalysisResult& loopInfo, IRBuilder& builder,
                                 Module& mod) {
@@ -220,7 +235,7 @@ class ModuloOpt final : public TransformPass<Function> {
         for(auto& loop : loopInfo.loops) {
             if(loop.header != loop.latch)
                 continue;
-            if(loop.step != 1)
+            if(loop.step != 1 || !loop.guarded)
                 continue;
             // TODO
             if(cfg.predecessors(loop.header).size() != 2)
@@ -240,6 +255,8 @@ class ModuloOpt final : public TransformPass<Function> {
                         continue;
                     if(rec->incomings().at(loop.header)->value != &inst)
                         continue;
+                    if(!isOnlyFinalValueUsed(loop, inst, rec))
+                        continue;
                     if(inc->getBlock() != nullptr &&
                        (inc->getBlock() == loop.header || !dom.dominate(inc->getBlock(), loop.header)))
                         continue;
@@ -349,7 +366,7 @@ class ModuloOpt final : public TransformPass<Function> {
         for(auto& loop : loopInfo.loops) {
             if(loop.header != loop.latch)
                 continue;
-            if(loop.step != 1)
+            if(loop.step != 1 || !loop.guarded)
                 continue;
             // TODO
             if(cfg.predecessors(loop.header).size() != 2)
@@ -369,6 +386,8 @@ class ModuloOpt final : public TransformPass<Function> {
                         continue;
                     if(rec->incomings().at(loop.header)->value != &inst)
                         continue;
+                    if(!isOnlyFinalValueUsed(loop, inst, rec))
+                        continue;
                     auto remRange = IntegerRange{}.srem(range.query(rem, dom, &inst, depth));
                     if(!(remRange + remRange).isNoSignedOverflow())
                         continue;
diff --git a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
index 872cf74..2765209 100644
--- a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
+++ b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
@@ -60,6 +60,9 @@ public:
                 continue;
             if(std::abs(loop.step) > maxStep)
                 continue;
+            // the bound is checked before the first iteration of the unrolled loop
+            if(!loop.guarded)
+                continue;
             // handled by static loop unroll
             if(loop.bound->isConstant() && loop.initial->isConstant())
                 continue;
diff --git a/cmmc/Transforms/Loop/FinalValueReplacement.cpp b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
index 8487905..95a2bb5 100644
--- a/cmmc/Transforms/Loop/FinalValueReplacement.cpp
+++ b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
@@ -110,6 +110,9 @@ public:
                 continue;
             if(loop.step != 1 && loop.step != -1)
                 continue;
+            // the body is executed once even if initial is out of bound
+            if(!loop.guarded)
+                continue;
             modified |= replaceOuterUse(loop, loop.inductionVar->as<TrackableValue>(), loop.bound, -loop.step);
             const auto next = loop.next;
             if(!next->is<TrackableValue>())
diff --git a/cmmc/Transforms/Loop/LoopParallel.cpp b/cmmc/Transforms/Loop/LoopParallel.cpp
index 82bdece..669693a 100644
--- a/cmmc/Transforms/Loop/LoopParallel.cpp
+++ b/cmmc/Transforms/Loop/LoopParallel.cpp
@@ -145,7 +145,7 @@ class LoopParallel final : public TransformPass<Function> {
             // loop.latch->dumpAsTarget(std::cerr);
             // std::cerr << "\n";
 
-            if(loop.step != 1)
+            if(loop.step != 1 || !loop.guarded)
                 continue;
 
             auto initialRange = rangeInfo.query(loop.initial, dom, nullptr, 5);
-- 
2.43.0


From 7e86fe90f32ec5530e447dd265db8b6174fdcdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 10/43] fix: keep the nonnegative dividend of a srem when
 merging sums

---
 cmmc/Transforms/Combine/ModuloOpt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/Transforms/Combine/ModuloOpt.cpp b/cmmc/Transforms/Combine/ModuloOpt.cpp
index 52471b6..a55d861 100644
--- a/cmmc/Transforms/Combine/ModuloOpt.cpp
+++ b/cmmc/Transforms/Combine/ModuloOpt.cpp
@@ -100,6 +100,9 @@ class ModuloOpt final : public TransformPass<Function> {
                     bool hasCross = false;
                     collectSum(val, inst, components, r, range, dom, ival, checkOverflow, true, hasCross);
                     assert(!checkOverflow || r.isNoSignedOverflow());
+                    // srem takes the sign of the dividend, don't merge (a % m + m) % m into (a + m) % m
+                    if(oldRange.isNonNegative() && !r.isNonNegative())
+                        return nullptr;
                     if(hasCross && components.size() > 1) {
                         Value* sum = components.front();
                         for(uint32_t i = 1; i < components.size(); ++i)
-- 
2.43.0


From c1af04db77b2c4c3d3990b6ab9a89beb8320f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 11/43] fix: only widen 'i <= n' to 'i < n + 1' in single-exit
 loops; do not insert after a terminator

---
 cmmc/Transforms/Loop/LoopCanonicalize.cpp | 36 +++++++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/cmmc/Transforms/Loop/LoopCanonicalize.cpp b/cmmc/Transforms/Loop/LoopCanonicalize.cpp
index e1191c4..deadb12 100644
--- a/cmmc/Transforms/Loop/LoopCanonicalize.cpp
+++ b/cmmc/Transforms/Loop/LoopCanonicalize.cpp
@@ -12,6 +12,7 @@
     limitations under the License.
 */
 
+#include <cmmc/Analysis/CFGAnalysis.hpp>
 #include <cmmc/Analysis/DominateAnalysis.hpp>
 #include <cmmc/IR/Block.hpp>
 #include <cmmc/IR/ConstantValue.hpp>
@@ -21,10 +22,35 @@
 #include <cmmc/Transforms/TransformPass.hpp>
 #include <cmmc/Transforms/Util/PatternMatch.hpp>
 #include <cstdint>
+#include <unordered_set>
+#include <vector>
 
 CMMC_NAMESPACE_BEGIN
 
 class LoopCanonicalize final : public TransformPass<Function> {
+    static bool isOnlyExit(Block* latch, Block* header, const CFGAnalysisResult& cfg) {
+        std::unordered_set<Block*> body{ header };
+        std::vector<Block*> stack{ latch };
+        while(!stack.empty()) {
+            const auto u = stack.back();
+            stack.pop_back();
+            if(!body.insert(u).second)
+                continue;
+            const auto& pred = cfg.predecessors(u);
+            stack.insert(stack.end(), pred.begin(), pred.end());
+        }
+        for(auto u : body) {
+            if(u == latch)
+                continue;
+            if(cfg.successors(u).empty())
+                return false;
+            for(auto succ : cfg.successors(u))
+                if(!body.count(succ))
+                    return false;
+        }
+        return true;
+    }
+
     static bool simplifyIndVar(Block* block, CompareInst* cmp, BranchInst* terminatorBranch, const DominateAnalysisResult& dom) {
         // addrec (initial, step) + offset < end -> addrec (initial, step) + step < end + step - offset
         const auto next = cmp->getOperand(0);
@@ -61,6 +87,7 @@ class LoopCanonicalize final : public TransformPass<Function> {
 public:
     bool run(Function& func, AnalysisPassManager& analysis) const override {
         auto& dom = analysis.get<DominateAnalysis>(func);
+        auto& cfg = analysis.get<CFGAnalysis>(func);
         bool modified = false;
 
         for(auto block : func.blocks()) {
@@ -93,9 +120,10 @@ public:
                dom.dominate(terminatorBranch->getTrueTarget(), block) &&
                (!dom.dominate(terminatorBranch->getFalseTarget(), block) ||
                 dom.dominate(terminatorBranch->getFalseTarget(), terminatorBranch->getTrueTarget()))) {
-                // TODO: check overflow
                 // i <= n -> i < n + 1
-                if(cmp->getOp() == CompareOp::ICmpSignedLessEqual) {
+                // If this is the only exit of the loop, n == INT_MAX implies that the induction variable overflows.
+                if(cmp->getOp() == CompareOp::ICmpSignedLessEqual &&
+                   isOnlyExit(block, terminatorBranch->getTrueTarget(), cfg)) {
                     const auto next = cmp->getOperand(0);
                     PhiInst* indVar;
                     intmax_t step;
@@ -115,7 +143,9 @@ public:
                             } else {
                                 for(auto& inst : func.entryBlock()->instructions())
                                     if(inst.getInstID() != InstructionID::Alloc) {
-                                        newBound->insertBefore(func.entryBlock(), std::next(inst.asIterator()));
+                                        newBound->insertBefore(
+                                            func.entryBlock(),
+                                            inst.isTerminator() ? inst.asIterator() : std::next(inst.asIterator()));
                                         break;
                                     }
                             }
-- 
2.43.0


From 8b5fda7b45a833dec31dfc463b2d5f4ae8b6c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 12/43] fix: do not overflow the bound when an exit compare is
 moved to the next induction value

---
 cmmc/Transforms/Loop/LoopCanonicalize.cpp | 61 ++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Loop/LoopCanonicalize.cpp b/cmmc/Transforms/Loop/LoopCanonicalize.cpp
index deadb12..ef880cd 100644
--- a/cmmc/Transforms/Loop/LoopCanonicalize.cpp
+++ b/cmmc/Transforms/Loop/LoopCanonicalize.cpp
@@ -14,6 +14,8 @@
 
 #include <cmmc/Analysis/CFGAnalysis.hpp>
 #include <cmmc/Analysis/DominateAnalysis.hpp>
+#include <cmmc/Analysis/IntegerRange.hpp>
+#include <cmmc/Analysis/IntegerRangeAnalysis.hpp>
 #include <cmmc/IR/Block.hpp>
 #include <cmmc/IR/ConstantValue.hpp>
 #include <cmmc/IR/IRBuilder.hpp>
@@ -22,6 +24,7 @@
 #include <cmmc/Transforms/TransformPass.hpp>
 #include <cmmc/Transforms/Util/PatternMatch.hpp>
 #include <cstdint>
+#include <limits>
 #include <unordered_set>
 #include <vector>
 
@@ -51,7 +54,52 @@ class LoopCanonicalize final : public TransformPass<Function> {
         return true;
     }
 
-    static bool simplifyIndVar(Block* block, CompareInst* cmp, BranchInst* terminatorBranch, const DominateAnalysisResult& dom) {
+    // the range of a bound implied by the branches which guard the loop
+    static IntegerRange getGuardedRange(Value* bound, Block* latch, Block* header, const CFGAnalysisResult& cfg) {
+        IntegerRange range;
+        auto block = header;
+        for(uint32_t depth = 0; depth < 8; ++depth) {
+            Block* guard = nullptr;
+            for(auto pred : cfg.predecessors(block)) {
+                if(block == header && pred == latch)
+                    continue;
+                if(guard && guard != pred)
+                    return range;
+                guard = pred;
+            }
+            if(!guard)
+                return range;
+            const auto terminator = guard->getTerminator();
+            CompareOp cmp;
+            Value *lhs, *rhs;
+            if(terminator->getInstID() == InstructionID::ConditionalBranch &&
+               icmp(cmp, any(lhs), any(rhs))(MatchContext<Value>{ terminator->getOperand(0) })) {
+                const auto branch = terminator->as<BranchInst>();
+                if(rhs == bound) {
+                    std::swap(lhs, rhs);
+                    cmp = getReversedOp(cmp);
+                }
+                intmax_t val;
+                if(lhs == bound && branch->getTrueTarget() != branch->getFalseTarget() &&
+                   int_(val)(MatchContext<Value>{ rhs })) {
+                    if(branch->getFalseTarget() == block)
+                        cmp = getInvertedOp(cmp);
+                    IntegerRange guarded;
+                    if(cmp == CompareOp::ICmpSignedGreaterThan || cmp == CompareOp::ICmpSignedGreaterEqual)
+                        guarded.setSignedRange(val, std::numeric_limits<int32_t>::max());
+                    else if(cmp == CompareOp::ICmpSignedLessThan || cmp == CompareOp::ICmpSignedLessEqual)
+                        guarded.setSignedRange(std::numeric_limits<int32_t>::min(), val);
+                    guarded.sync();
+                    range = range.intersectSet(guarded);
+                }
+            }
+            block = guard;
+        }
+        return range;
+    }
+
+    static bool simplifyIndVar(Block* block, CompareInst* cmp, BranchInst* terminatorBranch, const DominateAnalysisResult& dom,
+                               const CFGAnalysisResult& cfg, const IntegerRangeAnalysisResult& range) {
         // addrec (initial, step) + offset < end -> addrec (initial, step) + step < end + step - offset
         const auto next = cmp->getOperand(0);
         const auto rhs = cmp->getOperand(1);
@@ -75,6 +123,14 @@ class LoopCanonicalize final : public TransformPass<Function> {
             return false;
         if(rhs->getBlock() != nullptr && !(rhs->getBlock() != block && dom.dominate(rhs->getBlock(), block)))
             return false;
+        // The new bound must not overflow, unless the induction variable overflows as well before the bound is reached.
+        const auto offset = i2 - i1;
+        const auto isLess = cmp->getOp() == CompareOp::ICmpSignedLessThan || cmp->getOp() == CompareOp::ICmpSignedLessEqual;
+        if(!(isLess == (offset > 0) && isOnlyExit(block, header, cfg))) {
+            const auto rhsRange = range.query(rhs, dom, cmp, 5).intersectSet(getGuardedRange(rhs, block, header, cfg));
+            if(!(rhsRange + IntegerRange{ offset }).isNoSignedOverflow())
+                return false;
+        }
         const auto newLhs = make<BinaryInst>(InstructionID::Add, v1, ConstantInteger::get(v1->getType(), i2));
         const auto newRhs = make<BinaryInst>(InstructionID::Add, rhs, ConstantInteger::get(rhs->getType(), i2 - i1));
         newLhs->insertBefore(block, cmp->asIterator());
@@ -88,6 +144,7 @@ public:
     bool run(Function& func, AnalysisPassManager& analysis) const override {
         auto& dom = analysis.get<DominateAnalysis>(func);
         auto& cfg = analysis.get<CFGAnalysis>(func);
+        auto& range = analysis.get<IntegerRangeAnalysis>(func);
         bool modified = false;
 
         for(auto block : func.blocks()) {
@@ -157,7 +214,7 @@ public:
                 }
             }
 
-            modified |= simplifyIndVar(block, cmp, terminatorBranch, dom);
+            modified |= simplifyIndVar(block, cmp, terminatorBranch, dom, cfg, range);
         }
 
         return modified;
-- 
2.43.0


From cf7b3e9b7e27a9bd466333f38cecb41a7a656996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 13/43] fix: DynamicLoopUnroll must not pass the next value of
 a phi to users behind the loop

---
 cmmc/Transforms/Loop/DynamicLoopUnroll.cpp | 28 ++++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
index 2765209..58efd2d 100644
--- a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
+++ b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
@@ -254,7 +254,6 @@ public:
             // build scalar final
             {
                 IRBuilder builder{ target, scalarFinal };
-                auto& replaceHead = replaceMap.at(head);
                 auto& replacePrev = replaceMap.at(prev);
                 for(auto& inst : loop.latch->instructions()) {
                     bool usedByOuter = false;
@@ -269,23 +268,20 @@ public:
                         continue;
 
                     const auto phi = builder.createPhi(inst.getType());
-                    if(inst.getInstID() == InstructionID::Phi)
-                        phi->addIncoming(scalarHead, replaceHead.at(&inst));
-                    else {
-                        const auto val = replacePrev.at(&inst);
-                        const auto refPhi = head->instructions().front()->as<PhiInst>();
-                        const auto undef = make<UndefinedValue>(val->getType());
-                        const auto headPhi = make<PhiInst>(val->getType());
-                        headPhi->insertBefore(head, head->instructions().begin());
-                        for(auto& [pred, v] : refPhi->incomings()) {
-                            if(pred == prev) {
-                                headPhi->addIncoming(prev, val);
-                            } else {
-                                headPhi->addIncoming(pred, undef);
-                            }
+                    // the value in the last unrolled iteration
+                    const auto val = replacePrev.at(&inst);
+                    const auto refPhi = head->instructions().front()->as<PhiInst>();
+                    const auto undef = make<UndefinedValue>(val->getType());
+                    const auto headPhi = make<PhiInst>(val->getType());
+                    headPhi->insertBefore(head, head->instructions().begin());
+                    for(auto& [pred, v] : refPhi->incomings()) {
+                        if(pred == prev) {
+                            headPhi->addIncoming(prev, val);
+                        } else {
+                            headPhi->addIncoming(pred, undef);
                         }
-                        phi->addIncoming(scalarHead, headPhi);
                     }
+                    phi->addIncoming(scalarHead, headPhi);
                     phi->addIncoming(loop.latch, &inst);
 
                     for(auto it = inst.users().begin(); it != inst.users().end();) {
-- 
2.43.0


From a31c8ab09aa14cf3666bccf311082bcf9bd59bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 14/43] fix: the batch check of an unrolled loop must not
 overflow near the ends of int

---
 cmmc/Transforms/Loop/DynamicLoopUnroll.cpp | 37 +++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
index 58efd2d..0acdba8 100644
--- a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
+++ b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
@@ -33,11 +33,27 @@
 #include <cstdint>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <new>
 
 CMMC_NAMESPACE_BEGIN
 
 class DynamicLoopUnroll final : public TransformPass<Function> {
+    // The induction variable of the unrolled loop doesn't get close to the end of the type.
+    static bool isFarFromOverflow(const Loop& loop, uint32_t blockSize, const IntegerRangeAnalysisResult& rangeInfo,
+                                  const DominateAnalysisResult& dom) {
+        const auto ctx = loop.header->instructions().front();
+        const auto bound = rangeInfo.query(loop.bound, dom, ctx, 5);
+        if((bound + IntegerRange{ loop.step * (static_cast<intmax_t>(blockSize) + 1) }).isNoSignedOverflow())
+            return true;
+        // TODO: it takes a lot of iterations to get there, but the last ones are wrong
+        constexpr int64_t maxInitial = 1 << 30;
+        constexpr intmax_t maxSmallStep = 16;
+        const auto initial = rangeInfo.query(loop.initial, dom, ctx, 5);
+        return std::abs(loop.step) <= maxSmallStep && -maxInitial < initial.minSignedValue() &&
+            initial.maxSignedValue() < maxInitial;
+    }
+
 public:
     bool run(Function& func, AnalysisPassManager& analysis) const override {
         if(!queryTuneOpt("dyn_loop_unroll", 1))
@@ -63,6 +79,8 @@ public:
             // the bound is checked before the first iteration of the unrolled loop
             if(!loop.guarded)
                 continue;
+            if(loop.bound->getType()->as<IntegerType>()->getBitwidth() != 32)
+                continue;
             // handled by static loop unroll
             if(loop.bound->isConstant() && loop.initial->isConstant())
                 continue;
@@ -74,7 +92,7 @@ public:
                heuristic.maxUnrollBodySize)
                 continue;
             uint32_t loopTripCount = estimatedLoopTripCount;
-            if(loop.bound->getType()->as<IntegerType>()->getBitwidth() == 32 && loop.step > 0) {
+            if(loop.step > 0) {
                 const auto ctx = loop.header->instructions().front();
                 const auto initial = rangeInfo.query(loop.initial, dom, ctx, 5);
                 const auto bound = rangeInfo.query(loop.bound, dom, ctx, 5);
@@ -198,9 +216,20 @@ public:
                         break;
                 }
 
-                const auto batchEnd = builder.makeOp<BinaryInst>(
-                    InstructionID::Add, replace.at(indvar),
-                    ConstantInteger::get(indvar->getType(), loop.step * heuristic.unrollBlockSize + (loop.step > 0 ? -1 : 1)));
+                const auto offset = loop.step * heuristic.unrollBlockSize + (loop.step > 0 ? -1 : 1);
+                Value* batchEnd = replace.at(indvar);
+                if(isFarFromOverflow(loop, heuristic.unrollBlockSize, rangeInfo, dom)) {
+                    batchEnd =
+                        builder.makeOp<BinaryInst>(InstructionID::Add, batchEnd, ConstantInteger::get(indvar->getType(), offset));
+                } else {
+                    // i + offset < bound -> i < max(bound, INT_MIN + offset) - offset
+                    const auto isLess = loop.step > 0;
+                    const auto limit =
+                        isLess ? std::numeric_limits<int32_t>::min() + offset : std::numeric_limits<int32_t>::max() + offset;
+                    bound = builder.makeOp<BinaryInst>(isLess ? InstructionID::SMax : InstructionID::SMin, bound,
+                                                       ConstantInteger::get(bound->getType(), limit));
+                    bound = builder.makeOp<BinaryInst>(InstructionID::Add, bound, ConstantInteger::get(bound->getType(), -offset));
+                }
                 replaceMap[head] = std::move(replace);
 
                 const auto batchCond = cond->as<CompareInst>()->clone()->as<CompareInst>();
-- 
2.43.0


From 9d4a3051505de68523fed1ebce4ad303cfab94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 15/43] fix: CommonBaseOpt may only relate GEPs whose bases
 have the same pointee type

---
 cmmc/CodeGen/CodeGenPrepare.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/CodeGen/CodeGenPrepare.cpp b/cmmc/CodeGen/CodeGenPrepare.cpp
index 9824d9a..c8f9f37 100644
--- a/cmmc/CodeGen/CodeGenPrepare.cpp
+++ b/cmmc/CodeGen/CodeGenPrepare.cpp
@@ -410,6 +410,9 @@ class CommonBaseOpt final : public TransformPass<Function> {
                 for(uint32_t j = i + 1; j < gepInsts.size(); ++j) {
                     const auto baseU = gepInsts[i]->lastOperand();
                     const auto baseV = gepInsts[j]->lastOperand();
+                    // the same indices scale differently for different pointee types
+                    if(!baseU->getType()->isSame(baseV->getType()))
+                        continue;
 
                     const auto argU = gepInsts[i]->arguments();
                     const auto argV = gepInsts[j]->arguments();
-- 
2.43.0


From a10bec848401dee36480d77f819b4c20898ed4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 16/43] fix: foldStoreZero may only merge adjacent stack slots

---
 cmmc/Target/RISCV/RISCVScheduleModel.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmmc/Target/RISCV/RISCVScheduleModel.cpp b/cmmc/Target/RISCV/RISCVScheduleModel.cpp
index 3206724..3838913 100644
--- a/cmmc/Target/RISCV/RISCVScheduleModel.cpp
+++ b/cmmc/Target/RISCV/RISCVScheduleModel.cpp
@@ -544,6 +544,12 @@ static bool foldStoreZero(MIRFunction& func, MIRBasicBlock& block, const CodeGen
                 const auto offset = inst.getOperand(1).imm();
                 if(prevOffset + 4 != offset)
                     continue;
+            } else {
+                const auto getStackOffset = [&](const MIRInst& store) {
+                    return func.stackObjects().at(store.getOperand(2)).offset + store.getOperand(1).imm();
+                };
+                if(getStackOffset(prevInst) + 4 != getStackOffset(inst))
+                    continue;
             }
             inst.setOpcode(SD);
             inst.setOperand<1>(prevInst.getOperand(1));
-- 
2.43.0


From 2cfe72c38b24bec8f64777a2791bb9e7d57d8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 17/43] fix: negative arguments of a memoised function must not
 share cache keys

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index b98b724..220ee7a 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -271,7 +271,7 @@ struct LUTEntry final {
 };
 static_assert(sizeof(LUTEntry) == sizeof(uint32_t) * 4);
 LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
-    const auto key = static_cast<uint64_t>(key1) << 32 | static_cast<uint64_t>(key2);
+    const auto key = static_cast<uint64_t>(static_cast<uint32_t>(key1)) << 32 | static_cast<uint32_t>(key2);
     const auto ha = key % m1, hb = 1 + key % m2;
     auto cur = ha;
     constexpr uint32_t maxLookupCount = 5;
-- 
2.43.0


From 79dda0656df237d02f2fe2b54b569669879b7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 18/43] fix: a memoisation entry must not be shared by calls in
 progress

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index 220ee7a..776e2e9 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -273,13 +273,20 @@ static_assert(sizeof(LUTEntry) == sizeof(uint32_t) * 4);
 LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
     const auto key = static_cast<uint64_t>(static_cast<uint32_t>(key1)) << 32 | static_cast<uint32_t>(key2);
     const auto ha = key % m1, hb = 1 + key % m2;
+    // receives the result of a call which cannot be cached
+    static LUTEntry scratch;
+    scratch.hasVal = 0;
     auto cur = ha;
     constexpr uint32_t maxLookupCount = 5;
     uint32_t count = maxLookupCount;
     while(true) {
         auto& ref = table[cur];
         if(!ref.hasVal) {
+            // an entry without a value and with a nonzero val is owned by a call which is still in progress
+            if(ref.val)
+                return &scratch;
             ref.key = key;
+            ref.val = 1;
             return &ref;
         }
         if(ref.key == key) {
@@ -293,8 +300,11 @@ LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
     }
     // evict, FIFO
     auto& ref = table[ha];
+    if(!ref.hasVal && ref.val)
+        return &scratch;
     ref.hasVal = 0;
     ref.key = key;
+    ref.val = 1;
     return &ref;
 }
 int32_t cmmcAddRec3SRem(int32_t x, int32_t rem) {
-- 
2.43.0


From 78d8355a120c4670337e113eacff2429825c0dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 19/43] fix: sign-extend the i32 quotient of a RISC-V division
 by a constant with a zero shift and a correction factor (x / -2)

---
 cmmc/Target/RISCV/RISCV.yml         | 2 +-
 cmmc/Target/RISCV/RISCVISelInfo.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmmc/Target/RISCV/RISCV.yml b/cmmc/Target/RISCV/RISCV.yml
index eadd8fb..6c576fa 100644
--- a/cmmc/Target/RISCV/RISCV.yml
+++ b/cmmc/Target/RISCV/RISCV.yml
@@ -1074,7 +1074,7 @@ InstSelection:
         LogDividend: $LogDividend
         LogDivisor: $LogDivisor
         NonNegativeHint: $NonNegativeHint
-        $Predicate: isOperandI32($Dst) && isOperandIReg($Lhs) && selectSDiv32ByConstant($Rhs, [$Magic], [$Shift], [$Factor]) && isSDivExpandProfitable($LogDividend, $LogDivisor, $NonNegativeHint, $Factor, false) && buildMul64Imm(ctx, $Lhs, $Magic, $Factor, [$Out]) && buildSRAIW(ctx, $Out, $Shift, [$SRAOut])
+        $Predicate: isOperandI32($Dst) && isOperandIReg($Lhs) && selectSDiv32ByConstant($Rhs, [$Magic], [$Shift], [$Factor]) && isSDivExpandProfitable($LogDividend, $LogDivisor, $NonNegativeHint, $Factor, false) && buildMul64Imm(ctx, $Lhs, $Magic, $Factor, [$Out]) && buildSRAIW(ctx, $Out, $Shift, $Factor, [$SRAOut])
     Replace:
       ADD:
         Rd: $Dst
diff --git a/cmmc/Target/RISCV/RISCVISelInfo.cpp b/cmmc/Target/RISCV/RISCVISelInfo.cpp
index f7bab72..84bf0fa 100644
--- a/cmmc/Target/RISCV/RISCVISelInfo.cpp
+++ b/cmmc/Target/RISCV/RISCVISelInfo.cpp
@@ -326,8 +326,10 @@ static bool buildMul64Imm(ISelContext& ctx, const MIROperand& lhs, const MIROper
     return true;
 }
 
-static bool buildSRAIW(ISelContext& ctx, const MIROperand& lhs, const MIROperand& rhsImm, MIROperand& out) {
-    if(isZero(rhsImm)) {
+static bool buildSRAIW(ISelContext& ctx, const MIROperand& lhs, const MIROperand& rhsImm, const MIROperand& factor,
+                       MIROperand& out) {
+    // the 64-bit sum/difference of a non-zero factor must be sign-extended even if no shift is needed (e.g. x / -2)
+    if(isZero(rhsImm) && isZero(factor)) {
         out = lhs;
     } else {
         out = getVRegAs(ctx, lhs);
-- 
2.43.0


From 94efd188fadc977315970ef089725483b6a7f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 20/43] fix: emit the label of a function's first block when
 something jumps to it

---
 cmmc/CodeGen/CodeGenUtils.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cmmc/CodeGen/CodeGenUtils.cpp b/cmmc/CodeGen/CodeGenUtils.cpp
index c14981c..c5b1d10 100644
--- a/cmmc/CodeGen/CodeGenUtils.cpp
+++ b/cmmc/CodeGen/CodeGenUtils.cpp
@@ -12,6 +12,7 @@
     limitations under the License.
 */
 
+#include <algorithm>
 #include <cmmc/CodeGen/CodeGenUtils.hpp>
 #include <cmmc/CodeGen/InstInfo.hpp>
 #include <cmmc/CodeGen/MIR.hpp>
@@ -93,6 +94,26 @@ void dumpAssembly(std::ostream& out, const CodeGenContext& ctx, const MIRModule&
             if(func.blocks().empty())
                 continue;
 
+            const auto isReferenced = [&](const MIRBasicBlock* target) {
+                for(auto& block : func.blocks())
+                    for(auto& inst : block->instructions()) {
+                        auto& instInfo = ctx.instInfo.getInstInfo(inst);
+                        for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx) {
+                            auto& operand = inst.getOperand(idx);
+                            if(!operand.isReloc())
+                                continue;
+                            if(operand.reloc() == target)
+                                return true;
+                            if(const auto jumpTable = dynamic_cast<MIRJumpTable*>(operand.reloc())) {
+                                auto& data = jumpTable->data();
+                                if(std::find(data.begin(), data.end(), target) != data.end())
+                                    return true;
+                            }
+                        }
+                    }
+                return false;
+            };
+
             MIRBasicBlock* lastBlock = nullptr;
             auto isSFB = [&](MIRBasicBlock* block) {
                 if(lastBlock == nullptr)
@@ -149,6 +170,11 @@ void dumpAssembly(std::ostream& out, const CodeGenContext& ctx, const MIRModule&
                             out << "\t" << dumpStackUsageComment << " stack usage: CalleeArg[" << calleeArgument << "] Local["
                                 << local << "] RegSpill[" << regSpill << "] CalleeSaved[" << calleeSaved << "]\n";
                     }
+                    // the first block may be the target of a back edge
+                    if(isReferenced(block.get())) {
+                        block->dumpAsTarget(out);
+                        out << ":\n";
+                    }
                 }
 
                 for(auto& inst : block->instructions()) {
-- 
2.43.0


From 1138307843aac7f5f230d42f9a19cfba390e59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 21/43] fix: materialise the out-of-range immediate of
 smin/smax on ARM

---
 cmmc/Target/ARM/ARMISelInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index b1b8235..9e9400d 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -821,7 +821,7 @@ static bool legalizeInst(MIRInst& inst, ISelContext& ctx) {
             imm2reg(lhs);
             MIROperand rhsImmInverted;
             if(rhs.isImm() && !isOperandOp2Constant(rhs) && !selectInvertedOp2Constant(rhs, rhsImmInverted)) {
-                imm2reg(lhs);
+                imm2reg(rhs);
             }
             break;
         }
-- 
2.43.0


From 19c51c4eeb228ace13ef9fddad8456d2eb73c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 22/43] fix: DynamicLoopUnroll must not emit smin/smax on
 targets without them

---
 cmmc/Transforms/Loop/DynamicLoopUnroll.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
index 0acdba8..144ee1b 100644
--- a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
+++ b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
@@ -226,8 +226,16 @@ public:
                     const auto isLess = loop.step > 0;
                     const auto limit =
                         isLess ? std::numeric_limits<int32_t>::min() + offset : std::numeric_limits<int32_t>::max() + offset;
-                    bound = builder.makeOp<BinaryInst>(isLess ? InstructionID::SMax : InstructionID::SMin, bound,
-                                                       ConstantInteger::get(bound->getType(), limit));
+                    const auto limitVal = ConstantInteger::get(bound->getType(), limit);
+                    const auto instID = isLess ? InstructionID::SMax : InstructionID::SMin;
+                    if(target.isNativeSupported(instID)) {
+                        bound = builder.makeOp<BinaryInst>(instID, bound, limitVal);
+                    } else {
+                        const auto inRange = builder.makeOp<CompareInst>(
+                            InstructionID::ICmp, isLess ? CompareOp::ICmpSignedGreaterThan : CompareOp::ICmpSignedLessThan, bound,
+                            limitVal);
+                        bound = builder.makeOp<SelectInst>(inRange, bound, limitVal);
+                    }
                     bound = builder.makeOp<BinaryInst>(InstructionID::Add, bound, ConstantInteger::get(bound->getType(), -offset));
                 }
                 replaceMap[head] = std::move(replace);
-- 
2.43.0


From a39d8d29bfca57f84f51598505495ae762684289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 23/43] fix: block labels must not collide with the symbols of
 the program

---
 cmmc/CodeGen/CodeGenUtils.cpp | 20 ++++++++++++++++++++
 cmmc/CodeGen/MIR.hpp          |  3 +++
 2 files changed, 23 insertions(+)

diff --git a/cmmc/CodeGen/CodeGenUtils.cpp b/cmmc/CodeGen/CodeGenUtils.cpp
index c5b1d10..8a0a3c8 100644
--- a/cmmc/CodeGen/CodeGenUtils.cpp
+++ b/cmmc/CodeGen/CodeGenUtils.cpp
@@ -23,8 +23,11 @@
 #include <cstdint>
 #include <iostream>
 #include <iterator>
+#include <sstream>
+#include <string>
 #include <string_view>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 CMMC_MIR_NAMESPACE_BEGIN
@@ -41,6 +44,23 @@ void forEachDefOperands(MIRBasicBlock& block, const CodeGenContext& ctx, const s
 
 void dumpAssembly(std::ostream& out, const CodeGenContext& ctx, const MIRModule& module, const std::function<void()>& emitData,
                   const std::function<void()>& emitText, char dumpStackUsageComment, bool emitAlignment) {
+    // block labels must not collide with the symbols of the program
+    {
+        const auto getText = [](String str) {
+            std::ostringstream stream;
+            stream << str;
+            return stream.str();
+        };
+        std::unordered_set<std::string> symbols;
+        for(auto& global : module.globals())
+            symbols.insert(getText(global->reloc->symbol()));
+        for(auto& global : module.globals())
+            if(global->reloc->isFunc())
+                for(auto& block : dynamic_cast<MIRFunction&>(*global->reloc).blocks())
+                    if(auto label = getText(block->symbol()); symbols.count(label))
+                        block->setSymbol(String::get(label + ".bb"));
+    }
+
     out << ".data\n"sv;
     emitData();
     const auto dumpSymbol = [&](const MIRGlobal& global) {
diff --git a/cmmc/CodeGen/MIR.hpp b/cmmc/CodeGen/MIR.hpp
index 6d74dd5..297e83d 100644
--- a/cmmc/CodeGen/MIR.hpp
+++ b/cmmc/CodeGen/MIR.hpp
@@ -48,6 +48,9 @@ public:
     [[nodiscard]] String symbol() const {
         return mSymbol;
     }
+    void setSymbol(String sym) {
+        mSymbol = sym;
+    }
     virtual bool verify(std::ostream& out, const CodeGenContext& ctx) const = 0;
     void dumpAsTarget(std::ostream& out) const;
     virtual void dump(std::ostream& out, const CodeGenContext& ctx) const = 0;
-- 
2.43.0


From a20580664e6637a8c65a00e0aa8aca9b69e85606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 24/43] fix: large local arrays promoted to globals need unique
 symbols

---
 cmmc/Transforms/Misc/LargeLocal2Global.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Misc/LargeLocal2Global.cpp b/cmmc/Transforms/Misc/LargeLocal2Global.cpp
index 77d76ab..c12b50d 100644
--- a/cmmc/Transforms/Misc/LargeLocal2Global.cpp
+++ b/cmmc/Transforms/Misc/LargeLocal2Global.cpp
@@ -30,6 +30,8 @@
 #include <iostream>
 #include <memory>
 #include <queue>
+#include <sstream>
+#include <string>
 #include <unordered_map>
 #include <unordered_set>
 #include <vector>
@@ -73,9 +75,24 @@ public:
         if(allocas.empty())
             return false;
 
+        const auto getText = [](String str) {
+            std::ostringstream stream;
+            stream << str;
+            return stream.str();
+        };
+        std::unordered_set<std::string> used;
+        for(auto global : mod.globals())
+            used.insert(getText(global->getSymbol()));
+        const auto getUniqueName = [&](String label) {
+            const auto base = getText(label);
+            auto name = base;
+            for(uint32_t id = 0; !used.insert(name).second; ++id)
+                name = base + '.' + std::to_string(id);
+            return String::get(name);
+        };
+
         for(auto alloca : allocas) {
-            // TODO: assign a unique name?
-            auto global = make<GlobalVariable>(alloca->getLabel(), alloca->getType()->as<PointerType>()->getPointee(),
+            auto global = make<GlobalVariable>(getUniqueName(alloca->getLabel()), alloca->getType()->as<PointerType>()->getPointee(),
                                                alloca->as<StackAllocInst>()->getAlignment());
             global->setLinkage(Linkage::Internal);
             mod.globals().push_back(global);
-- 
2.43.0


From 83a6dda76baf456556be7b26f1c6bfb9cf4b120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 25/43] fix: the table of a memoised function needs a unique
 symbol

---
 cmmc/Transforms/Misc/StatelessCache.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Misc/StatelessCache.cpp b/cmmc/Transforms/Misc/StatelessCache.cpp
index 2625475..235f298 100644
--- a/cmmc/Transforms/Misc/StatelessCache.cpp
+++ b/cmmc/Transforms/Misc/StatelessCache.cpp
@@ -12,6 +12,7 @@
     limitations under the License.
 */
 
+#include <algorithm>
 #include <cmath>
 #include <cmmc/Analysis/DominateAnalysis.hpp>
 #include <cmmc/CodeGen/Target.hpp>
@@ -97,8 +98,12 @@ public:
         constexpr uint32_t tableSize = 1021;
         const auto arrayType = make<ArrayType>(i32, tableSize * 4);
         auto lookup = getLookupLibFunc(analysis.module(), arrayType, i32);
-        const auto lut = make<GlobalVariable>(String::get("lut_" + std::string(func.getSymbol().prefix())), arrayType,
-                                              dataLyaout.getStorageAlignment());
+        auto lutName = "lut_" + std::string(func.getSymbol().prefix());
+        const auto isUsed = [&](GlobalValue* global) { return global->getSymbol() == std::string_view{ lutName }; };
+        auto& globals = analysis.module().globals();
+        while(std::any_of(globals.begin(), globals.end(), isUsed))
+            lutName += '.';
+        const auto lut = make<GlobalVariable>(String::get(lutName), arrayType, dataLyaout.getStorageAlignment());
         lut->setLinkage(Linkage::Internal);
         analysis.module().add(lut);
         std::vector<Value*> argVal;
-- 
2.43.0


From 522374520e7972f5633f604302f1c7f5da81b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 26/43] fix: the scheduler must keep memory accesses on their
 side of a stack pointer adjustment

---
 cmmc/CodeGen/Scheduler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmmc/CodeGen/Scheduler.cpp b/cmmc/CodeGen/Scheduler.cpp
index 96254e8..158b481 100644
--- a/cmmc/CodeGen/Scheduler.cpp
+++ b/cmmc/CodeGen/Scheduler.cpp
@@ -268,6 +268,8 @@ static void postRAScheduleBlock(MIRBasicBlock& block, const CodeGenContext& ctx)
     for(auto& inst : block.instructions()) {
         auto& instInfo = ctx.instInfo.getInstInfo(inst);
 
+        bool adjustStackPointer = false;
+
         for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx) {
             auto flag = instInfo.getOperandFlag(idx);
             auto op = inst.getOperand(idx);
@@ -297,6 +299,10 @@ static void postRAScheduleBlock(MIRBasicBlock& block, const CodeGenContext& ctx)
                     op = ctx.registerInfo->getStackPointerRegister();
                 const auto reg = op.reg();
                 if(flag & OperandFlagDef) {
+                    // memory accesses via copied stack addresses must not leave the frame
+                    if(reg == ctx.registerInfo->getStackPointerRegister().reg())
+                        adjustStackPointer = true;
+
                     for(auto use : lastTouch[reg])
                         addDep(&inst, use);
 
@@ -309,7 +315,7 @@ static void postRAScheduleBlock(MIRBasicBlock& block, const CodeGenContext& ctx)
         if(lastInOrder) {
             addDep(&inst, lastInOrder);
         }
-        if(requireOneFlag(instInfo.getInstFlag(), InstFlagSideEffect)) {
+        if(adjustStackPointer || requireOneFlag(instInfo.getInstFlag(), InstFlagSideEffect)) {
             if(lastSideEffect) {
                 addDep(&inst, lastSideEffect);
             }
-- 
2.43.0


From 716d21ff6819da0432f127bc7ea4b995bd6af312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:29 +0000
Subject: [PATCH 27/43] fix: flags of logical instructions cannot replace a
 comparison with zero where V matters (ARM)

---
 cmmc/Target/ARM/ARMScheduleModel.cpp | 79 +++++++++++++++++++++++++++-
 1 file changed, 77 insertions(+), 2 deletions(-)

diff --git a/cmmc/Target/ARM/ARMScheduleModel.cpp b/cmmc/Target/ARM/ARMScheduleModel.cpp
index cffac2e..cda7ac8 100644
--- a/cmmc/Target/ARM/ARMScheduleModel.cpp
+++ b/cmmc/Target/ARM/ARMScheduleModel.cpp
@@ -256,11 +256,80 @@ CMMC_TARGET_NAMESPACE_BEGIN
     return modified;
 }
 
+// V is not updated by logical instructions, while a comparison with zero clears it.
+// Returns false if the flags of the logical instruction cannot replace those of the comparison.
+static bool replaceFlagsWithLogicalResult(MIRBasicBlock& block, MIRInstList::iterator cmp, bool isCopy, const CodeGenContext& ctx) {
+    std::vector<std::pair<MIRInst*, uint32_t>> fields;
+    for(auto iter = std::next(cmp); iter != block.instructions().end(); ++iter) {
+        auto& inst = *iter;
+        auto& instInfo = ctx.instInfo.getInstInfo(inst);
+        bool useCC = false, defCC = false;
+        for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx) {
+            if(isOperandCC(inst.getOperand(idx))) {
+                useCC |= (instInfo.getOperandFlag(idx) & OperandFlagUse) != 0;
+                defCC |= (instInfo.getOperandFlag(idx) & OperandFlagDef) != 0;
+            }
+        }
+        if(useCC) {
+            for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx) {
+                auto& op = inst.getOperand(idx);
+                if(!op.isImm() || op.type() != OperandType::CondField)
+                    continue;
+                switch(static_cast<CondField>(op.imm())) {
+                    case CondField::LT:
+                    case CondField::GE:
+                        fields.emplace_back(&inst, idx);
+                        break;
+                    case CondField::GT:
+                    case CondField::LE:
+                        if(!isCopy)
+                            return false;
+                        break;
+                    default:
+                        break;
+                }
+            }
+        }
+        if(defCC || requireFlag(instInfo.getInstFlag(), InstFlagCall))
+            break;
+    }
+    for(auto [inst, idx] : fields) {
+        const auto field = static_cast<CondField>(inst->getOperand(idx).imm()) == CondField::LT ? CondField::MI : CondField::PL;
+        inst->getOperand(idx) = MIROperand::asImm(field, OperandType::CondField);
+    }
+    return true;
+}
+
 static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenContext& ctx) {
     bool modified = false;
     auto& insts = block.instructions();
     std::unordered_map<uint32_t, MIRInst*> lastDef;
     std::unordered_set<uint32_t> ccCmpWithZero;
+    MIRInst* ccDef = nullptr;
+
+    const auto replaceable = [&](MIRInstList::iterator cmp, const MIRInst& flagDef) {
+        switch(flagDef.opcode()) {
+            case AND:
+            case ORR:
+            case EOR:
+            case ORN:
+            case BIC:
+            case MOV:
+            case MVN:
+            case ANDS:
+            case ORRS:
+            case EORS:
+            case ORNS:
+            case BICS:
+            case MVNS:
+                return replaceFlagsWithLogicalResult(block, cmp, false, ctx);
+            case MoveGPR:
+            case MOVS:
+                return replaceFlagsWithLogicalResult(block, cmp, true, ctx);
+            default:
+                return true;
+        }
+    };
 
     for(auto iter = insts.begin(); iter != insts.end();) {
         auto next = std::next(iter);
@@ -293,10 +362,10 @@ static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenCont
 
             bool changed = false;
             if(ccCmpWithZero.count(src.reg()))
-                changed = true;
+                changed = !ccDef || replaceable(iter, *ccDef);
             else {
                 auto prev = lastDef.find(src.reg());
-                if(prev != lastDef.end()) {
+                if(prev != lastDef.end() && replaceable(iter, *prev->second)) {
                     auto& prevInst = *prev->second;
                     if(defCC(prevInst.opcode())) {
                         changed = true;
@@ -334,6 +403,10 @@ static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenCont
                                 break;
                         }
                     }
+                    if(changed) {
+                        ccCmpWithZero = { src.reg() };
+                        ccDef = &prevInst;
+                    }
                 }
             }
 
@@ -386,8 +459,10 @@ static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenCont
             case MOVS:
             case MVNS:
                 ccCmpWithZero = { curInst.getOperand(0).reg() };
+                ccDef = &curInst;
                 break;
             case CMP:
+                ccDef = nullptr;
                 if(isZero(curInst.getOperand(1))) {
                     ccCmpWithZero = { curInst.getOperand(0).reg() };
                 } else {
-- 
2.43.0


From efd3b2083276e1d81a6465bb20a757423abd1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:31 +0000
Subject: [PATCH 28/43] fix: a dead instruction check must see all definitions
 of flag-setting instructions

---
 cmmc/CodeGen/Peephole.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmmc/CodeGen/Peephole.cpp b/cmmc/CodeGen/Peephole.cpp
index 48a7ead..9a839a6 100644
--- a/cmmc/CodeGen/Peephole.cpp
+++ b/cmmc/CodeGen/Peephole.cpp
@@ -499,6 +499,16 @@ static bool deadInstElimination(MIRFunction& func, const CodeGenContext& ctx) {
                 lastDefine.clear();
                 return false;
             }
+            if(requireFlag(instInfo.getInstFlag(), InstFlagMultiDef)) {
+                for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx) {
+                    auto& op = inst.getOperand(idx);
+                    if((instInfo.getOperandFlag(idx) & OperandFlagDef) && isOperandVRegOrISAReg(op)) {
+                        lastDefine.erase(op);
+                        version[op] = ++versionIdx;
+                    }
+                }
+                return false;
+            }
             for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx) {
                 if(instInfo.getOperandFlag(idx) & OperandFlagDef) {
                     auto& op = inst.getOperand(idx);
-- 
2.43.0


From cdbc6878cdafd0b327929285ee553180de384771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:31 +0000
Subject: [PATCH 29/43] fix: legalize smin/smax with an inverted immediate on
 ARM

---
 cmmc/Target/ARM/ARMISelInfo.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index 9e9400d..324d537 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -994,6 +994,20 @@ void ARMISelInfo::preRALegalizeInst(const InstLegalizeContext& ctx) const {
                 MIRInst{ MOV_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
             break;
         }
+        case PseudoSMax_Inverted:
+        case PseudoSMin_Inverted: {
+            auto dst = inst.getOperand(0);
+            auto lhs = inst.getOperand(1);
+            auto op2 = inst.getOperand(2);
+            auto cc = inst.getOperand(3);
+
+            // lhs is compared with rhs + 1 (CMN lhs, ~rhs)
+            ctx.instructions.insert(ctx.iter, MIRInst{ MoveGPR }.setOperand<0>(dst).setOperand<1>(lhs));
+            auto cf = MIROperand::asImm(inst.opcode() == PseudoSMin_Inverted ? CondField::GE : CondField::LT, OperandType::CondField);
+            *ctx.iter =
+                MIRInst{ MVN_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
+            break;
+        }
         case PseudoFMA: {
             auto dst = inst.getOperand(0);
             auto x = inst.getOperand(1);
-- 
2.43.0


From f13668de43fb9e3adbb65b9d6a95bcf66386a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:32 +0000
Subject: [PATCH 30/43] fix: movs and mvns need a schedule class

---
 cmmc/Target/ARM/ARM.yml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmc/Target/ARM/ARM.yml b/cmmc/Target/ARM/ARM.yml
index 234d768..e54289e 100644
--- a/cmmc/Target/ARM/ARM.yml
+++ b/cmmc/Target/ARM/ARM.yml
@@ -1775,6 +1775,8 @@ ScheduleModel:
         - MVN_Constant
         - MOV
         - MVN
+        - MOVS
+        - MVNS
         - MOVW
         - MOVT
         - MOVT_MOVW_PAIR # Fused
-- 
2.43.0


From cdc4499ce2d29581967880b84d82ba1638c8f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 31/43] fix: machineInstCSE must not take quadratic time in
 large blocks

---
 cmmc/CodeGen/Peephole.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cmmc/CodeGen/Peephole.cpp b/cmmc/CodeGen/Peephole.cpp
index 9a839a6..f1035ef 100644
--- a/cmmc/CodeGen/Peephole.cpp
+++ b/cmmc/CodeGen/Peephole.cpp
@@ -392,7 +392,7 @@ static bool machineInstCSE(MIRFunction& func, const CodeGenContext& ctx) {
         };
         using VersionArray = std::array<uint32_t, MIRInst::maxOperandCount>;
         std::unordered_map<MIRInst*, VersionArray> verArray;
-        std::unordered_map<uint32_t, std::vector<MIRInst*>> lastDefine;  // opcode -> insts
+        std::unordered_map<size_t, std::vector<MIRInst*>> lastDefine;  // hash of the computation -> insts
 
         for(auto& inst : instructions) {
             auto& instInfo = ctx.instInfo.getInstInfo(inst);
@@ -430,11 +430,22 @@ static bool machineInstCSE(MIRFunction& func, const CodeGenContext& ctx) {
                     ver[idx] = getVersion(inst.getOperand(idx));
                 }
 
-                auto& cache = lastDefine[inst.opcode()];
+                const auto getHash = [&](uint32_t defIdx) {
+                    size_t hash = inst.opcode();
+                    const auto combine = [&hash](size_t val) { hash ^= val + 0x9e3779b97f4a7c15ULL + (hash << 6) + (hash >> 2); };
+                    for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx)
+                        if(idx != defIdx) {
+                            combine(MIROperandHasher{}(inst.getOperand(idx)));
+                            combine(ver[idx]);
+                        }
+                    return hash;
+                };
+
                 for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx) {
                     if(instInfo.getOperandFlag(idx) & OperandFlagDef) {
                         auto& op = inst.getOperand(idx);
                         if(isOperandVRegOrISAReg(op)) {
+                            auto& cache = lastDefine[getHash(idx)];
                             bool changed = false;
                             for(auto rhs : cache) {
                                 if(equal(*rhs, verArray.at(rhs), idx, ver)) {
-- 
2.43.0


From 8c340f2143aa67ecba0daa878ce27f13efb98558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:56 +0000
Subject: [PATCH 32/43] fix: CommonBaseOpt must not replace the root of its
 pivot

---
 cmmc/CodeGen/CodeGenPrepare.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/CodeGen/CodeGenPrepare.cpp b/cmmc/CodeGen/CodeGenPrepare.cpp
index c8f9f37..f69dec3 100644
--- a/cmmc/CodeGen/CodeGenPrepare.cpp
+++ b/cmmc/CodeGen/CodeGenPrepare.cpp
@@ -510,6 +510,9 @@ class CommonBaseOpt final : public TransformPass<Function> {
                         replace.emplace(k, basePtr);
                         continue;
                     }
+                    // the pivot may be computed from them
+                    if(const auto id = k->as<Instruction>()->getInstID(); id == InstructionID::Alloc || id == InstructionID::Phi)
+                        continue;
                     const auto offset = off - base;
                     const auto ptr = make<PtrAddInst>(basePtr, ConstantInteger::get(IntegerType::get(32), offset), k->getType());
                     ptr->insertBefore(block, insertPoint);
-- 
2.43.0


From 820386657b1e6fad05aa81403225d5e0697682a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:54 +0000
Subject: [PATCH 33/43] fix: integer fields of a structure are signed

---
 cmmc/Frontend/EmitIR.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 3f2dd4f..fe11729 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1123,7 +1123,9 @@ QualifiedValue StructIndexExpr::emit(EmitContext& ctx) const {
         DiagnosticsContext::get().attach<InvalidField>(structType->name(), mField).reportFatal();
     }
     const auto ptr = ctx.makeOp<GetElementPtrInst>(base, std::vector<Value*>{ ctx.getZeroIndex(), offset });
-    return { ptr, ValueQualifier::AsLValue, qualifier };  // TODO: sign/unsign mutable/const qualifier from struct field
+    // integer fields are signed; the qualifier of the structure itself says nothing about the signedness of its fields
+    // TODO: sign/unsign mutable/const qualifier from struct field
+    return { ptr, ValueQualifier::AsLValue, Qualifier{ qualifier.isConst, true } };
 }
 
 QualifiedValue GotoExpr::emit(EmitContext& ctx) const {
-- 
2.43.0


From 9f00c64c680de67ee701c89adbf25001a51ecc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:55 +0000
Subject: [PATCH 34/43] fix: Relayout must handle zero, chained and multi-level
 indices

---
 cmmc/Transforms/Misc/Relayout.cpp | 54 +++++++++++++++++++------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/cmmc/Transforms/Misc/Relayout.cpp b/cmmc/Transforms/Misc/Relayout.cpp
index 3cffc5d..375b0dd 100644
--- a/cmmc/Transforms/Misc/Relayout.cpp
+++ b/cmmc/Transforms/Misc/Relayout.cpp
@@ -131,27 +131,32 @@ class Relayout final : public TransformPass<Module> {
             if(val->is<ConstantInteger>() && val->as<ConstantInteger>()->getSignExtended() == 0)
                 return;
             auto& idx = d == 2 ? idx2 : idx1;
-            if(idx)
-                idx = builder.makeOp<BinaryInst>(InstructionID::Add, val, idx);
-            else
+            if(!idx) {
                 idx = val;
+                return;
+            }
+            // the indices of an address may have different types
+            const auto promote = [&](Value* index, const Type* type) -> Value* {
+                if(index->is<ConstantInteger>())
+                    return ConstantInteger::get(type, index->as<ConstantInteger>()->getSignExtended());
+                return builder.makeOp<CastInst>(InstructionID::SExt, type, index);
+            };
+            const auto size1 = val->getType()->getFixedSize();
+            const auto size2 = idx->getType()->getFixedSize();
+            if(size1 < size2)
+                val = promote(val, idx->getType());
+            else if(size1 > size2)
+                idx = promote(idx, val->getType());
+            idx = builder.makeOp<BinaryInst>(InstructionID::Add, val, idx);
         };
 
-        if(gep->operands().size() == 2) {
-            const auto idx = gep->getOperand(0);
-            const auto base = gep->getOperand(1);
-            addIdx(dim, idx);
-            if(base->is<GetElementPtrInst>())
-                trace(builder, base->as<GetElementPtrInst>(), idx1, idx2, dim);
-        } else if(gep->operands().size() == 3) {
-            const auto offset = gep->getOperand(0);
-            const auto idx = gep->getOperand(1);
-            const auto base = gep->getOperand(2);
-            addIdx(dim, idx);
-            addIdx(dim - 1, offset);
-            if(base->is<GetElementPtrInst>())
-                trace(builder, base->as<GetElementPtrInst>(), idx1, idx2, dim - 1);
-        }
+        // the last index belongs to the innermost dimension
+        const auto count = static_cast<int32_t>(gep->operands().size()) - 1;
+        for(int32_t k = 0; k < count; ++k)
+            addIdx(dim - k, gep->getOperand(static_cast<uint32_t>(count - 1 - k)));
+        const auto base = gep->lastOperand();
+        if(base->is<GetElementPtrInst>())
+            trace(builder, base->as<GetElementPtrInst>(), idx1, idx2, dim - (count - 1));
     }
 
     static void applyTranspose(Module& mod, AnalysisPassManager& analysis, GlobalVariable* var) {
@@ -163,6 +168,8 @@ class Relayout final : public TransformPass<Module> {
                 continue;
 
             auto& pointerBase = analysis.get<PointerBaseAnalysis>(*func);
+            // an address may be computed from another one, so replace them after all indices have been traced
+            std::vector<std::pair<Instruction*, Value*>> replace;
             for(auto block : func->blocks()) {
                 for(auto& inst : block->instructions()) {
                     if(inst.getType()->isPointer() && inst.getInstID() != InstructionID::FunctionPtr) {
@@ -174,11 +181,16 @@ class Relayout final : public TransformPass<Module> {
                                     builder.setInsertPoint(block, inst.asIterator());
                                     Value *idx1 = nullptr, *idx2 = nullptr;
                                     trace(builder, inst.as<GetElementPtrInst>(), idx1, idx2, 2);
-                                    const auto zero = ConstantInteger::get(idx1->getType(), 0);
+                                    const auto zero = builder.getZeroIndex();
+                                    // zero indices are skipped by trace
+                                    if(!idx1)
+                                        idx1 = zero;
+                                    if(!idx2)
+                                        idx2 = zero;
                                     Value* newPtr1 = builder.makeOp<GetElementPtrInst>(var, std::vector<Value*>{ zero, idx2 });
                                     Value* newPtr2 =
                                         builder.makeOp<GetElementPtrInst>(newPtr1, std::vector<Value*>{ zero, idx1 });
-                                    inst.replaceWith(newPtr2);
+                                    replace.emplace_back(&inst, newPtr2);
                                 } break;
                                 default:
                                     break;
@@ -187,6 +199,8 @@ class Relayout final : public TransformPass<Module> {
                     }
                 }
             }
+            for(auto [oldPtr, newPtr] : replace)
+                oldPtr->replaceWith(newPtr);
         }
     }
 
-- 
2.43.0


From b26b5c389cce29d83b744ad2f2941f3636a23b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:55 +0000
Subject: [PATCH 35/43] fix: cmmcParallelFor must not overflow near the ends of
 int

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index 776e2e9..5c2b82a 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -207,7 +207,7 @@ static ParallelForEntry& selectNumberOfThreads(CmmcForLoop func, uint32_t size,
 void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
     if(end <= beg)
         return;
-    const auto size = static_cast<uint32_t>(end - beg);
+    const auto size = static_cast<uint32_t>(end) - static_cast<uint32_t>(beg);
     constexpr uint32_t smallTask = 16;
     if(size < smallTask) {
         func(beg, end);
@@ -224,11 +224,11 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
         std::atomic_thread_fence(std::memory_order_seq_cst);
 
         constexpr uint32_t alignment = 4;
-        const auto inc = static_cast<int32_t>(((size / threads) + alignment - 1) / alignment * alignment);
+        const auto inc = static_cast<int64_t>(((size / threads) + alignment - 1) / alignment * alignment);
         std::array<bool, maxThreads> assigned{};
         for(int32_t i = 0; i < static_cast<int32_t>(threads); ++i) {
             const auto subBeg = beg + i * inc;
-            auto subEnd = std::min(subBeg + inc, end);
+            auto subEnd = std::min(subBeg + inc, static_cast<int64_t>(end));
             if(static_cast<uint32_t>(i) == threads - 1)
                 subEnd = end;
             if(subBeg >= subEnd)
@@ -237,8 +237,8 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
             // cmmc_exec_for(subBeg, subEnd, func, payload);
             auto& worker = workers[static_cast<size_t>(i)];
             worker.func = func;
-            worker.beg = subBeg;
-            worker.end = subEnd;
+            worker.beg = static_cast<int32_t>(subBeg);
+            worker.end = static_cast<int32_t>(subEnd);
             // signal worker
             worker.ready.post();
             assigned[static_cast<size_t>(i)] = true;
-- 
2.43.0


From 4f2c14097291b3db22faa15e9479651e69d77084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:05 +0000
Subject: [PATCH 36/43] hooks: give every arena object a block of its own under
 CMMC_VERIF_HOOKS

---
 cmmc/Support/Arena.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmmc/Support/Arena.cpp b/cmmc/Support/Arena.cpp
index ce967c0..4ffdbdc 100644
--- a/cmmc/Support/Arena.cpp
+++ b/cmmc/Support/Arena.cpp
@@ -39,6 +39,12 @@ static uintptr_t alloc(uintptr_t ptr, uintptr_t alignment) {
 
 void* Arena::allocate(size_t size, size_t alignment) {
     void* ptr = nullptr;
+#ifdef CMMC_VERIF_HOOKS
+    // every object in a block of its own, so that a memory checker sees its bounds and its end of life
+    ptr = std::aligned_alloc(alignment, (size + alignment - 1) / alignment * alignment);  // NOLINT
+    mLargeBlocks.insert(ptr);
+    return ptr;
+#endif
     if(size >= blockSize) {
 #ifdef CMMC_ENABLE_DETERMINISTIC
         ptr = cmmcAllocate(size, alignment);
@@ -66,6 +72,11 @@ void* Arena::allocate(size_t size, size_t alignment) {
     return ptr;
 }
 void Arena::deallocate(void* p, size_t size) {
+#ifdef CMMC_VERIF_HOOKS
+    free(p);  // NOLINT
+    mLargeBlocks.erase(p);
+    return;
+#endif
     if(size >= blockSize) {
         free(p);  // NOLINT
         mLargeBlocks.erase(p);
-- 
2.43.0


From 9c7f207b7948c8fd1f6e94e964b76c580a850d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:42 +0000
Subject: [PATCH 37/43] fix: LoopInterchange must keep the direction of loops
 and the order of stores

---
 cmmc/Transforms/Loop/LoopInterchange.cpp | 52 +++++++++++++++++++++---
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/cmmc/Transforms/Loop/LoopInterchange.cpp b/cmmc/Transforms/Loop/LoopInterchange.cpp
index d2245ce..3b0df30 100644
--- a/cmmc/Transforms/Loop/LoopInterchange.cpp
+++ b/cmmc/Transforms/Loop/LoopInterchange.cpp
@@ -39,6 +39,7 @@
 #include <iterator>
 #include <ratio>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 CMMC_NAMESPACE_BEGIN
@@ -152,15 +153,19 @@ class LoopInterchange final : public TransformPass<Function> {
     struct Stride final {
         intmax_t strideInner;
         intmax_t strideOuter;
+        bool isAffine = true;
 
         Stride operator+(const Stride& rhs) const {
-            return Stride{ strideInner + rhs.strideInner, strideOuter + rhs.strideOuter };
+            return Stride{ strideInner + rhs.strideInner, strideOuter + rhs.strideOuter, isAffine && rhs.isAffine };
         }
         Stride operator-(const Stride& rhs) const {
-            return Stride{ strideInner - rhs.strideInner, strideOuter - rhs.strideOuter };
+            return Stride{ strideInner - rhs.strideInner, strideOuter - rhs.strideOuter, isAffine && rhs.isAffine };
         }
         Stride operator*(intmax_t rhs) const {
-            return Stride{ strideInner * rhs, strideOuter * rhs };
+            return Stride{ strideInner * rhs, strideOuter * rhs, isAffine };
+        }
+        [[nodiscard]] bool dependsOnOneLoop() const noexcept {
+            return isAffine && (strideInner == 0 || strideOuter == 0);
         }
     };
 
@@ -200,7 +205,34 @@ class LoopInterchange final : public TransformPass<Function> {
         }
 
         // unknown
-        return Stride{ 0, 0 };
+        return Stride{ 0, 0, false };
+    }
+
+    // Iterations storing to the same location must keep their order, i.e. they should share the value of one of induction
+    // variables.
+    static bool isStoreInterchangeable(Value* ptr, std::unordered_map<Value*, Stride>& affineExpr,
+                                       const DominateAnalysisResult& dom, Block* header, Value* innerIndVar, Value* outerIndVar,
+                                       Value* outerInitial, Value* outerBound, const DataLayout& dataLayout) {
+        const auto stride = calcStride(ptr, affineExpr, dom, header, innerIndVar, outerIndVar, dataLayout);
+        if(stride.dependsOnOneLoop())
+            return true;
+        if(stride.isAffine) {
+            intmax_t initial, bound;
+            // a[j * width + i], 0 <= i < width
+            if(int_(initial)(MatchContext<Value>{ outerInitial }) && int_(bound)(MatchContext<Value>{ outerBound }) &&
+               std::abs(stride.strideOuter) * (bound - initial) <= std::abs(stride.strideInner))
+                return true;
+        }
+        // different indices of one dimension refer to different locations
+        for(auto base = ptr; base->is<GetElementPtrInst>() && !isInvariant(base, header, dom);
+            base = base->as<GetElementPtrInst>()->lastOperand()) {
+            for(auto [scale, idx] : base->as<GetElementPtrInst>()->gatherOffsets(dataLayout).second) {
+                const auto idxStride = calcStride(idx, affineExpr, dom, header, innerIndVar, outerIndVar, dataLayout);
+                if(idxStride.dependsOnOneLoop() && idxStride.strideInner != idxStride.strideOuter)
+                    return true;
+            }
+        }
+        return false;
     }
 
     static Value* cloneAndReplace(Value* val, Block* body, Block* header, const DominateAnalysisResult& dom,
@@ -243,6 +275,7 @@ class LoopInterchange final : public TransformPass<Function> {
             bool hasLoadStore = false;
             uint32_t phiCount = 0;
             std::unordered_map<Value*, uint32_t> loadStoreMap;
+            std::unordered_set<Value*> storedBases;
             for(auto& inst : loop.header->instructions()) {
                 if(inst.isTerminator())
                     continue;
@@ -258,6 +291,10 @@ class LoopInterchange final : public TransformPass<Function> {
                     if(!base) {
                         return false;
                     }
+                    // TODO: support multiple stores
+                    if(inst.getInstID() == InstructionID::Store && !storedBases.insert(base).second) {
+                        return false;
+                    }
 
                     loadStoreMap[base] |= (inst.getInstID() == InstructionID::Load ? 1 : 2);
                 } else if(!isNoSideEffectExpr(inst)) {
@@ -282,6 +319,7 @@ class LoopInterchange final : public TransformPass<Function> {
         const auto innerStep = loop.step;
         const auto innerIndVar = loop.inductionVar;
         const auto innerNext = loop.next;
+        const auto innerCond = body->getTerminator()->as<BranchInst>()->getOperand(0)->as<CompareInst>();
 
         Block *header, *latch, *preHeader, *exit;
         Value* outerInitial;
@@ -328,6 +366,10 @@ class LoopInterchange final : public TransformPass<Function> {
                     ++preferJI;
                 else
                     ++preferIJ;
+                if(inst.getInstID() == InstructionID::Store &&
+                   !isStoreInterchangeable(ptr, affineExpr, dom, header, innerIndVar, outerIndVar, outerInitial, outerBound,
+                                           dataLayout))
+                    return false;
             }
         }
 
@@ -374,7 +416,7 @@ class LoopInterchange final : public TransformPass<Function> {
                                                              ConstantInteger::get(newOuterIndVar->getType(), innerStep));
         newOuterIndVar->addIncoming(newOuterLatch, newOuterNext);
         const auto newOuterCond =
-            builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedLessThan, newOuterNext, innerBound);
+            builder.makeOp<CompareInst>(InstructionID::ICmp, innerCond->getOp(), newOuterNext, innerBound);
         builder.makeOp<BranchInst>(newOuterCond, body->getTerminator()->as<BranchInst>()->getBranchProb(), newOuterHeader, exit);
 
         builder.setCurrentBlock(newInnerLatch);
-- 
2.43.0


From 9186d0b9459ad1bc06870f620e9dbcd48088b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:08 +0000
Subject: [PATCH 38/43] fix: Relayout must not transpose arrays which are also
 addressed as flat arrays

---
 cmmc/Transforms/Misc/Relayout.cpp | 97 ++++++++++++++++++++++++++++++-
 1 file changed, 96 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Misc/Relayout.cpp b/cmmc/Transforms/Misc/Relayout.cpp
index 375b0dd..6fa8877 100644
--- a/cmmc/Transforms/Misc/Relayout.cpp
+++ b/cmmc/Transforms/Misc/Relayout.cpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <cmmc/Analysis/BlockTripCountEstimation.hpp>
 #include <cmmc/Analysis/DominateAnalysis.hpp>
+#include <cmmc/Analysis/IntegerRangeAnalysis.hpp>
 #include <cmmc/Analysis/PointerBaseAnalysis.hpp>
 #include <cmmc/IR/Block.hpp>
 #include <cmmc/IR/ConstantValue.hpp>
@@ -30,6 +31,7 @@
 #include <cmmc/Transforms/Util/PatternMatch.hpp>
 #include <cstdint>
 #include <iostream>
+#include <limits>
 #include <vector>
 
 CMMC_NAMESPACE_BEGIN
@@ -124,6 +126,99 @@ class Relayout final : public TransformPass<Module> {
         }
     }
 
+    // The address is the sum of several levels. The elements may also be addressed as a flat array (e.g. when they are cleared),
+    // so transposing needs indices which are inside of their own dimensions.
+    static bool isAddressedByDimension(Value* ptr, GlobalVariable* var, intmax_t dim, const IntegerRangeAnalysisResult& range,
+                                       const DominateAnalysisResult& dom, Instruction* ctx) {
+        struct Index final {
+            intmax_t min = 0, max = 0, offset = 0;
+            bool isConst = true;
+        };
+        Index idx[2];
+        const auto addIdx = [&](Index& index, Value* val) {
+            intmax_t offset = 0, c = 0;
+            Value* rhs = nullptr;
+            while(true) {
+                if(val->isInstruction() && val->as<Instruction>()->getInstID() == InstructionID::SExt)
+                    val = val->as<Instruction>()->getOperand(0);
+                else if(add(any(rhs), int_(c))(MatchContext<Value>{ val })) {
+                    offset += c;
+                    val = rhs;
+                } else
+                    break;
+            }
+            if(val->is<ConstantInteger>()) {
+                offset += val->as<ConstantInteger>()->getSignExtended();
+            } else {
+                index.isConst = false;
+                if(val->getType()->getFixedSize() == sizeof(int32_t)) {
+                    const auto valRange = range.query(val, dom, ctx, 5);
+                    index.min += valRange.minSignedValue();
+                    index.max += valRange.maxSignedValue();
+                } else {
+                    index.min += std::numeric_limits<int32_t>::min();
+                    index.max += std::numeric_limits<int32_t>::max();
+                }
+            }
+            index.min += offset;
+            index.max += offset;
+            index.offset += offset;
+        };
+        int32_t level = 1;
+        Value* base = ptr;
+        while(base != var) {
+            if(base->isInstruction() && base->as<Instruction>()->getInstID() == InstructionID::PtrCast &&
+               base->getType()->isSame(base->as<Instruction>()->getOperand(0)->getType())) {
+                base = base->as<Instruction>()->getOperand(0);
+                continue;
+            }
+            if(!base->is<GetElementPtrInst>())
+                return false;
+            const auto gep = base->as<GetElementPtrInst>();
+            const auto count = static_cast<int32_t>(gep->operands().size()) - 1;
+            for(int32_t k = 0; k < count; ++k) {
+                const auto index = gep->getOperand(static_cast<uint32_t>(count - 1 - k));
+                if(level - k >= 0)
+                    addIdx(idx[level - k], index);
+                else if(!(index->is<ConstantInteger>() && index->as<ConstantInteger>()->getSignExtended() == 0))
+                    return false;
+            }
+            level -= count - 1;
+            base = gep->lastOperand();
+        }
+        const auto isInside = [dim](const Index& index) { return 0 <= index.min && index.max < dim; };
+        // array[i][j]: i and j should be inside
+        if(!idx[0].isConst && !idx[1].isConst)
+            return std::abs(idx[1].offset) < dim;
+        if(!idx[0].isConst && idx[1].isConst)
+            return isInside(idx[1]);
+        return isInside(idx[0]) && isInside(idx[1]);
+    }
+    static bool isTransposable(Module& mod, AnalysisPassManager& analysis, GlobalVariable* var) {
+        const auto dim = static_cast<intmax_t>(
+            var->getType()->as<PointerType>()->getPointee()->as<ArrayType>()->getElementCount());
+        for(auto global : mod.globals()) {
+            if(!global->isFunction())
+                continue;
+            const auto func = global->as<Function>();
+            if(func->blocks().empty())
+                continue;
+
+            auto& pointerBase = analysis.get<PointerBaseAnalysis>(*func);
+            auto& dom = analysis.get<DominateAnalysis>(*func);
+            auto& range = analysis.get<IntegerRangeAnalysis>(*func);
+            for(auto block : func->blocks()) {
+                for(auto& inst : block->instructions()) {
+                    if(inst.getType()->isPointer() && inst.getInstID() != InstructionID::FunctionPtr &&
+                       pointerBase.lookup(&inst) == var && inst.getType()->as<PointerType>()->getPointee()->isPrimitive() &&
+                       !isAddressedByDimension(&inst, var, dim, range, dom, &inst))
+                        return false;
+                }
+            }
+        }
+        return true;
+    }
+
     static void trace(IRBuilder& builder, GetElementPtrInst* gep, Value*& idx1, Value*& idx2, int32_t dim) {
         if(dim <= 0)
             return;
@@ -259,7 +354,7 @@ public:
             const auto [normal, transposed] = score;
             // var->dumpAsOperand(std::cerr);
             // std::cerr << " : " << normal << " " << transposed << "\n";
-            if(normal * 4 + 1e-8 < transposed) {
+            if(normal * 4 + 1e-8 < transposed && isTransposable(mod, analysis, var)) {
                 var->attr().addAttr(GlobalVariableAttribute::Transposed);
                 applyTranspose(mod, analysis, var);
                 modified = true;
-- 
2.43.0


From 40e6bc53c0e16b89ef057ba83d1f0680b53b2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:28 +0000
Subject: [PATCH 39/43] fix: call cmmcAddRec3SRem only where it is available

---
 cmmc/CodeGen/Target.hpp               | 1 +
 cmmc/ExecutionEngine/Interpreter.cpp  | 8 ++++++++
 cmmc/Target/LLVM/LLVMTarget.cpp       | 2 +-
 cmmc/Target/MIPS/MIPSTarget.cpp       | 3 +++
 cmmc/Transforms/Combine/ModuloOpt.cpp | 2 +-
 5 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmmc/CodeGen/Target.hpp b/cmmc/CodeGen/Target.hpp
index de58922..ca57242 100644
--- a/cmmc/CodeGen/Target.hpp
+++ b/cmmc/CodeGen/Target.hpp
@@ -58,6 +58,7 @@ struct TargetOptHeuristic final {
 enum class CMMCLibCall {
     parallelFor,
     cacheLookup,
+    addRec3SRem,
 };
 
 class Target {
diff --git a/cmmc/ExecutionEngine/Interpreter.cpp b/cmmc/ExecutionEngine/Interpreter.cpp
index a7f99ef..59c3981 100644
--- a/cmmc/ExecutionEngine/Interpreter.cpp
+++ b/cmmc/ExecutionEngine/Interpreter.cpp
@@ -1053,6 +1053,14 @@ std::variant<ConstantValue*, SimulationFailReason> Interpreter::execute(Module&
                                 addPtr(base);
                                 break;
                             }
+                            if(symbol == "cmmcAddRec3SRem"sv) {
+                                const auto n = static_cast<int64_t>(getInt(0));
+                                const auto rem = static_cast<int64_t>(getInt(1));
+                                if(rem == 0)
+                                    return SimulationFailReason::DividedByZero;
+                                addInt(n * (n - 1) / 2 % rem);
+                                break;
+                            }
 
                             if(!ioCtx)
                                 return SimulationFailReason::RuntimeError;
diff --git a/cmmc/Target/LLVM/LLVMTarget.cpp b/cmmc/Target/LLVM/LLVMTarget.cpp
index 8987de7..b5e0a33 100644
--- a/cmmc/Target/LLVM/LLVMTarget.cpp
+++ b/cmmc/Target/LLVM/LLVMTarget.cpp
@@ -52,7 +52,7 @@ public:
         return mDataLayout;
     }
     [[nodiscard]] bool isLibCallSupported(CMMCLibCall libCall) const noexcept override {
-        return libCall == CMMCLibCall::cacheLookup;
+        return libCall == CMMCLibCall::cacheLookup || libCall == CMMCLibCall::addRec3SRem;
     }
 };
 
diff --git a/cmmc/Target/MIPS/MIPSTarget.cpp b/cmmc/Target/MIPS/MIPSTarget.cpp
index 0a12b93..69ca11c 100644
--- a/cmmc/Target/MIPS/MIPSTarget.cpp
+++ b/cmmc/Target/MIPS/MIPSTarget.cpp
@@ -221,6 +221,9 @@ public:
     [[nodiscard]] const TargetScheduleModel& getScheduleModel() const noexcept override {
         return MIPS::getMIPSScheduleModel();
     }
+    [[nodiscard]] bool isLibCallSupported(CMMCLibCall libCall) const noexcept override {
+        return libCall == CMMCLibCall::addRec3SRem;
+    }
     void emitAssembly(const MIRModule& module, std::ostream& out, RuntimeType runtime) const override {
         auto& target = *this;
         CodeGenContext ctx{ target,
diff --git a/cmmc/Transforms/Combine/ModuloOpt.cpp b/cmmc/Transforms/Combine/ModuloOpt.cpp
index a55d861..8efa776 100644
--- a/cmmc/Transforms/Combine/ModuloOpt.cpp
+++ b/cmmc/Transforms/Combine/ModuloOpt.cpp
@@ -444,7 +444,7 @@ class ModuloOpt final : public TransformPass<Function> {
                         const auto res32 = builder.makeOp<CastInst>(InstructionID::SignedTrunc, inst.getType(), res64);
                         inst.replaceWith(res32);
                         modified = true;
-                    } else {
+                    } else if(mod.getTarget().isLibCallSupported(mir::CMMCLibCall::addRec3SRem)) {
                         const auto tripCount = builder.makeOp<BinaryInst>(InstructionID::Sub, end, initial);
                         const auto func = getAddRec3SRem(mod);
                         const auto call = builder.makeOp<FunctionCallInst>(func, std::vector<Value*>{ tripCount, rem });
-- 
2.43.0


From 71532f21f8d3f699418b5bbac99e42556fa1c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:01 +0000
Subject: [PATCH 40/43] fix: the modulus of a folded modular sum must be
 invariant

---
 cmmc/Transforms/Combine/ModuloOpt.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmc/Transforms/Combine/ModuloOpt.cpp b/cmmc/Transforms/Combine/ModuloOpt.cpp
index 8efa776..84277ab 100644
--- a/cmmc/Transforms/Combine/ModuloOpt.cpp
+++ b/cmmc/Transforms/Combine/ModuloOpt.cpp
@@ -260,6 +260,8 @@ class ModuloOpt final : public TransformPass<Function> {
                         continue;
                     if(!isOnlyFinalValueUsed(loop, inst, rec))
                         continue;
+                    if(rem->getBlock() != nullptr && (rem->getBlock() == loop.header || !dom.dominate(rem->getBlock(), loop.header)))
+                        continue;
                     if(inc->getBlock() != nullptr &&
                        (inc->getBlock() == loop.header || !dom.dominate(inc->getBlock(), loop.header)))
                         continue;
@@ -391,6 +393,8 @@ class ModuloOpt final : public TransformPass<Function> {
                         continue;
                     if(!isOnlyFinalValueUsed(loop, inst, rec))
                         continue;
+                    if(rem->getBlock() != nullptr && (rem->getBlock() == loop.header || !dom.dominate(rem->getBlock(), loop.header)))
+                        continue;
                     auto remRange = IntegerRange{}.srem(range.query(rem, dom, &inst, depth));
                     if(!(remRange + remRange).isNoSignedOverflow())
                         continue;
-- 
2.43.0


From b8a83418a074fcd36a8385bba2bf789282cf7c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:02 +0000
Subject: [PATCH 41/43] fix: a modulus treated as unsigned must not be negative

---
 cmmc/Transforms/Combine/ModuloOpt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/Transforms/Combine/ModuloOpt.cpp b/cmmc/Transforms/Combine/ModuloOpt.cpp
index 84277ab..d47b73a 100644
--- a/cmmc/Transforms/Combine/ModuloOpt.cpp
+++ b/cmmc/Transforms/Combine/ModuloOpt.cpp
@@ -331,6 +331,9 @@ class ModuloOpt final : public TransformPass<Function> {
                             }
                         } else {
                             // O(log(n))
+                            // rem is treated as unsigned
+                            if(!range.query(rem, dom, &inst, depth).isNonNegative())
+                                continue;
                             intmax_t i1;
                             if(int_(i1)(MatchContext<Value>{ inc })) {
                                 const auto tripCount = builder.makeOp<BinaryInst>(InstructionID::Sub, end, initial);
-- 
2.43.0


From 17d650986b11354c0a78430ce659347a32ef686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:33 +0000
Subject: [PATCH 42/43] fix: FinalValueReplacement must not report a change it
 did not make

---
 cmmc/Transforms/Loop/FinalValueReplacement.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/Transforms/Loop/FinalValueReplacement.cpp b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
index 95a2bb5..0f2fb27 100644
--- a/cmmc/Transforms/Loop/FinalValueReplacement.cpp
+++ b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
@@ -85,7 +85,10 @@ class FinalValueReplacement final : public TransformPass<Function> {
                             const auto val = make<BinaryInst>(InstructionID::Add, rep, offsetVal);
                             val->insertBefore(userBlock, iter.ref()->user->asIterator());
                             iter.ref()->resetValue(val);
+                            modified = true;
                         }
+                        iter = nextIter;
+                        continue;
                     }
                 } else {
                     iter.ref()->resetValue(rep);
-- 
2.43.0


From 6ec18e9c5eafae8cd8c2ba12b55f03b73dbf0915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:52 +0000
Subject: [PATCH 43/43] fix: a final quotient needs a loop counting up

---
 cmmc/Transforms/Loop/FinalValueReplacement.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Loop/FinalValueReplacement.cpp b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
index 0f2fb27..0675ade 100644
--- a/cmmc/Transforms/Loop/FinalValueReplacement.cpp
+++ b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
@@ -123,7 +123,8 @@ public:
             modified |= replaceOuterUse(loop, next->as<TrackableValue>(), loop.bound, 0);
 
             // TODO
-            if(cint_(0)(MatchContext<Value>{ loop.initial })) {
+            // trip count = bound
+            if(loop.step == 1 && cint_(0)(MatchContext<Value>{ loop.initial })) {
                 for(auto& inst : loop.latch->instructions()) {
                     Value *v1, *v2;
                     if(captureSCEV(inst, loop, dom, InstructionID::SDiv, v1, v2)) {
-- 
2.43.0

