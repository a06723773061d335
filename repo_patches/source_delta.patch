From bfde4899d7fd8512b3e7e2614732f51f03293b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 01/63] fix: give WhenEquation nodes the Equation_When kind

---
 lib/AST/BaseModelica/WhenEquation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e537bfc..aa8e2d0 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -6,7 +6,7 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 WhenEquation::WhenEquation(SourceRange location)
-    : Equation(ASTNodeKind::Equation_If, std::move(location)) {}
+    : Equation(ASTNodeKind::Equation_When, std::move(location)) {}
 
 WhenEquation::WhenEquation(const WhenEquation &other) : Equation(other) {
   setWhenCondition(other.whenCondition->clone());
-- 
2.43.0


From 8b9327d0613c2fb45db802f60f2133db3b53771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 02/63] fix: derive EqualityEquation from Equation

---
 include/marco/AST/BaseModelica/EqualityEquation.h | 4 ++--
 lib/AST/BaseModelica/EqualityEquation.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/marco/AST/BaseModelica/EqualityEquation.h b/include/marco/AST/BaseModelica/EqualityEquation.h
index 0e2da64..6fc6d80 100644
--- a/include/marco/AST/BaseModelica/EqualityEquation.h
+++ b/include/marco/AST/BaseModelica/EqualityEquation.h
@@ -1,13 +1,13 @@
 #ifndef MARCO_AST_BASEMODELICA_EQUALITYEQUATION_H
 #define MARCO_AST_BASEMODELICA_EQUALITYEQUATION_H
 
-#include "marco/AST/BaseModelica/ASTNode.h"
+#include "marco/AST/BaseModelica/Equation.h"
 #include <memory>
 
 namespace marco::ast::bmodelica {
 class Expression;
 
-class EqualityEquation : public ASTNode {
+class EqualityEquation : public Equation {
 public:
   explicit EqualityEquation(SourceRange location);
 
diff --git a/lib/AST/BaseModelica/EqualityEquation.cpp b/lib/AST/BaseModelica/EqualityEquation.cpp
index 44e5e82..05379d1 100644
--- a/lib/AST/BaseModelica/EqualityEquation.cpp
+++ b/lib/AST/BaseModelica/EqualityEquation.cpp
@@ -6,10 +6,10 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 EqualityEquation::EqualityEquation(SourceRange location)
-    : ASTNode(ASTNodeKind::Equation_Equality, std::move(location)) {}
+    : Equation(ASTNodeKind::Equation_Equality, std::move(location)) {}
 
 EqualityEquation::EqualityEquation(const EqualityEquation &other)
-    : ASTNode(other) {
+    : Equation(other) {
   setLhsExpression(other.lhs->clone());
   setRhsExpression(other.rhs->clone());
 }
-- 
2.43.0


From a9414fe9b9bfba89dfca35c051807281b4c44728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 03/63] fix: derive IfStatement from Statement

---
 include/marco/AST/BaseModelica/IfStatement.h | 2 +-
 lib/AST/BaseModelica/IfStatement.cpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/marco/AST/BaseModelica/IfStatement.h b/include/marco/AST/BaseModelica/IfStatement.h
index a850b94..b503efd 100644
--- a/include/marco/AST/BaseModelica/IfStatement.h
+++ b/include/marco/AST/BaseModelica/IfStatement.h
@@ -7,7 +7,7 @@ namespace marco::ast::bmodelica {
 class Expression;
 class StatementsBlock;
 
-class IfStatement : public ASTNode {
+class IfStatement : public Statement {
 public:
   IfStatement(SourceRange location);
 
diff --git a/lib/AST/BaseModelica/IfStatement.cpp b/lib/AST/BaseModelica/IfStatement.cpp
index faca9ed..9c9c411 100644
--- a/lib/AST/BaseModelica/IfStatement.cpp
+++ b/lib/AST/BaseModelica/IfStatement.cpp
@@ -7,9 +7,9 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 IfStatement::IfStatement(SourceRange location)
-    : ASTNode(ASTNodeKind::Statement_If, std::move(location)) {}
+    : Statement(ASTNodeKind::Statement_If, std::move(location)) {}
 
-IfStatement::IfStatement(const IfStatement &other) : ASTNode(other) {
+IfStatement::IfStatement(const IfStatement &other) : Statement(other) {
   setIfCondition(other.ifCondition->clone());
   setIfBlock(other.ifBlock->clone());
   setElseIfConditions(other.elseIfConditions);
-- 
2.43.0


From c6e64e6295ffb18511701b1ae61a5a7cba9abdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 04/63] fix: derive Subscript from Expression

---
 include/marco/AST/BaseModelica/Subscript.h | 4 +++-
 lib/AST/BaseModelica/Subscript.cpp         | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/marco/AST/BaseModelica/Subscript.h b/include/marco/AST/BaseModelica/Subscript.h
index 662db42..cd17664 100644
--- a/include/marco/AST/BaseModelica/Subscript.h
+++ b/include/marco/AST/BaseModelica/Subscript.h
@@ -6,7 +6,7 @@
 namespace marco::ast::bmodelica {
 // Following the official Modelica grammar specification, Subscript should
 // not be an expression. However, Flat Modelica requires it to be.
-class Subscript : public ASTNode {
+class Subscript : public Expression {
 public:
   Subscript(SourceRange location);
 
@@ -22,6 +22,8 @@ public:
 
   llvm::json::Value toJSON() const override;
 
+  bool isLValue() const override;
+
   bool isUnbounded() const;
 
   Expression *getExpression();
diff --git a/lib/AST/BaseModelica/Subscript.cpp b/lib/AST/BaseModelica/Subscript.cpp
index ea87c05..f22a725 100644
--- a/lib/AST/BaseModelica/Subscript.cpp
+++ b/lib/AST/BaseModelica/Subscript.cpp
@@ -5,9 +5,9 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 Subscript::Subscript(SourceRange location)
-    : ASTNode(ASTNodeKind::Expression_Subscript, std::move(location)) {}
+    : Expression(ASTNodeKind::Expression_Subscript, std::move(location)) {}
 
-Subscript::Subscript(const Subscript &other) : ASTNode(other) {
+Subscript::Subscript(const Subscript &other) : Expression(other) {
   if (!other.isUnbounded()) {
     setExpression(other.getExpression()->clone());
   }
@@ -31,6 +31,8 @@ llvm::json::Value Subscript::toJSON() const {
   return result;
 }
 
+bool Subscript::isLValue() const { return false; }
+
 bool Subscript::isUnbounded() const { return expression == nullptr; }
 
 Expression *Subscript::getExpression() {
-- 
2.43.0


From 53c969d7aa92859184b6f61ae927ce61157b322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 05/63] fix: set the parent of the arguments of a cloned
 ClassModification

---
 lib/AST/BaseModelica/Modification.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index fbedeba..fcffdf4 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -127,9 +127,7 @@ ClassModification::ClassModification(SourceRange location)
 
 ClassModification::ClassModification(const ClassModification &other)
     : ASTNode(other) {
-  for (const auto &arg : other.arguments) {
-    this->arguments.push_back(arg->clone());
-  }
+  setArguments(other.arguments);
 }
 
 ClassModification::~ClassModification() = default;
-- 
2.43.0


From b3b2986f6c435d85d30781cc88f2beb3d24082ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 06/63] fix: grow the else branches when setting the equations
 of a new one

---
 lib/AST/BaseModelica/IfEquation.cpp   | 4 ++--
 lib/AST/BaseModelica/WhenEquation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/IfEquation.cpp b/lib/AST/BaseModelica/IfEquation.cpp
index 4f9b0c4..9a96319 100644
--- a/lib/AST/BaseModelica/IfEquation.cpp
+++ b/lib/AST/BaseModelica/IfEquation.cpp
@@ -156,8 +156,8 @@ const Equation *IfEquation::getElseIfEquation(size_t condition,
 
 void IfEquation::setElseIfEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > ifEquations.size()) {
-    ifEquations.resize(condition + 1);
+  if (condition >= elseIfEquations.size()) {
+    elseIfEquations.resize(condition + 1);
   }
 
   elseIfEquations[condition].clear();
diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index aa8e2d0..c62d2be 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -158,8 +158,8 @@ const Equation *WhenEquation::getElseWhenEquation(size_t condition,
 
 void WhenEquation::setElseWhenEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > whenEquations.size()) {
-    whenEquations.resize(condition + 1);
+  if (condition >= elseWhenEquations.size()) {
+    elseWhenEquations.resize(condition + 1);
   }
 
   elseWhenEquations[condition].clear();
-- 
2.43.0


From d888c2c1e6db8e0ff1026311d0bbf76c21080bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 07/63] fix: dump the content of classes to JSON

---
 lib/AST/BaseModelica/Class.cpp    | 4 ++++
 lib/AST/BaseModelica/Function.cpp | 6 ++----
 lib/AST/BaseModelica/Model.cpp    | 1 +
 lib/AST/BaseModelica/Package.cpp  | 1 +
 lib/AST/BaseModelica/Record.cpp   | 1 +
 5 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/Class.cpp b/lib/AST/BaseModelica/Class.cpp
index 9692b83..cfffe71 100644
--- a/lib/AST/BaseModelica/Class.cpp
+++ b/lib/AST/BaseModelica/Class.cpp
@@ -80,6 +80,10 @@ void Class::addJSONProperties(llvm::json::Object &obj) const {
     }
   }
 
+  if (hasAnnotation()) {
+    obj["annotation"] = getAnnotation()->toJSON();
+  }
+
   ASTNode::addJSONProperties(obj);
 }
 
diff --git a/lib/AST/BaseModelica/Function.cpp b/lib/AST/BaseModelica/Function.cpp
index a85b835..5a694ae 100644
--- a/lib/AST/BaseModelica/Function.cpp
+++ b/lib/AST/BaseModelica/Function.cpp
@@ -63,6 +63,7 @@ llvm::json::Value PartialDerFunction::toJSON() const {
 
   result["independent_variables"] = llvm::json::Array(independentVariablesJson);
 
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
@@ -109,10 +110,7 @@ llvm::json::Value StandardFunction::toJSON() const {
   llvm::json::Object result;
   result["pure"] = llvm::json::Value(pure);
 
-  if (hasAnnotation()) {
-    result["annotation"] = getAnnotation()->toJSON();
-  }
-
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/Model.cpp b/lib/AST/BaseModelica/Model.cpp
index 3a3561a..964a7a8 100644
--- a/lib/AST/BaseModelica/Model.cpp
+++ b/lib/AST/BaseModelica/Model.cpp
@@ -12,6 +12,7 @@ std::unique_ptr<ASTNode> Model::clone() const {
 
 llvm::json::Value Model::toJSON() const {
   llvm::json::Object result;
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/Package.cpp b/lib/AST/BaseModelica/Package.cpp
index 640183d..aa8a0e8 100644
--- a/lib/AST/BaseModelica/Package.cpp
+++ b/lib/AST/BaseModelica/Package.cpp
@@ -13,6 +13,7 @@ std::unique_ptr<ASTNode> Package::clone() const {
 
 llvm::json::Value Package::toJSON() const {
   llvm::json::Object result;
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/Record.cpp b/lib/AST/BaseModelica/Record.cpp
index cf51baf..f6a8e26 100644
--- a/lib/AST/BaseModelica/Record.cpp
+++ b/lib/AST/BaseModelica/Record.cpp
@@ -28,6 +28,7 @@ std::unique_ptr<ASTNode> Record::clone() const {
 
 llvm::json::Value Record::toJSON() const {
   llvm::json::Object result;
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
-- 
2.43.0


From 9b19d57f8d3d5255256f74ce2c769cbd54036269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 08/63] fix: dump statement conditions and else-if branches to
 JSON

---
 lib/AST/BaseModelica/IfStatement.cpp    | 3 +++
 lib/AST/BaseModelica/WhenStatement.cpp  | 1 +
 lib/AST/BaseModelica/WhileStatement.cpp | 1 +
 3 files changed, 5 insertions(+)

diff --git a/lib/AST/BaseModelica/IfStatement.cpp b/lib/AST/BaseModelica/IfStatement.cpp
index 9c9c411..518a3bd 100644
--- a/lib/AST/BaseModelica/IfStatement.cpp
+++ b/lib/AST/BaseModelica/IfStatement.cpp
@@ -43,6 +43,9 @@ llvm::json::Value IfStatement::toJSON() const {
     elseIfBlocksJson.push_back(block->toJSON());
   }
 
+  result["else_if_conditions"] = llvm::json::Array(elseIfConditionsJson);
+  result["else_if_blocks"] = llvm::json::Array(elseIfBlocksJson);
+
   if (hasElseBlock()) {
     result["else_block"] = getElseBlock()->toJSON();
   }
diff --git a/lib/AST/BaseModelica/WhenStatement.cpp b/lib/AST/BaseModelica/WhenStatement.cpp
index 04ad286..2df476c 100644
--- a/lib/AST/BaseModelica/WhenStatement.cpp
+++ b/lib/AST/BaseModelica/WhenStatement.cpp
@@ -21,6 +21,7 @@ std::unique_ptr<ASTNode> WhenStatement::clone() const {
 
 llvm::json::Value WhenStatement::toJSON() const {
   llvm::json::Object result;
+  result["condition"] = getCondition()->toJSON();
 
   llvm::SmallVector<llvm::json::Value> statementsJson;
 
diff --git a/lib/AST/BaseModelica/WhileStatement.cpp b/lib/AST/BaseModelica/WhileStatement.cpp
index 648bbf6..cb6613b 100644
--- a/lib/AST/BaseModelica/WhileStatement.cpp
+++ b/lib/AST/BaseModelica/WhileStatement.cpp
@@ -21,6 +21,7 @@ std::unique_ptr<ASTNode> WhileStatement::clone() const {
 
 llvm::json::Value WhileStatement::toJSON() const {
   llvm::json::Object result;
+  result["condition"] = getCondition()->toJSON();
 
   llvm::SmallVector<llvm::json::Value> statementsJson;
 
-- 
2.43.0


From e5eaf3b69acca353131e3dfcd0f67c4f3b13e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 09/63] fix: dump type dimensions to JSON

---
 lib/AST/BaseModelica/Type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/AST/BaseModelica/Type.cpp b/lib/AST/BaseModelica/Type.cpp
index f262806..8ace98f 100644
--- a/lib/AST/BaseModelica/Type.cpp
+++ b/lib/AST/BaseModelica/Type.cpp
@@ -101,6 +101,7 @@ llvm::json::Value BuiltInType::toJSON() const {
   llvm::json::Object result;
   result["type"] = toString(kind);
 
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
@@ -143,6 +144,7 @@ llvm::json::Value UserDefinedType::toJSON() const {
 
   result["path"] = llvm::json::Array(pathJson);
 
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
-- 
2.43.0


From 69ffa51fea237202e15ac45c60c24ea5d2832161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 10/63] fix: dump the kind of every node to JSON

---
 lib/AST/BaseModelica/ASTNode.cpp              | 6 ++++++
 lib/AST/BaseModelica/CallStatement.cpp        | 2 +-
 lib/AST/BaseModelica/ExternalFunctionCall.cpp | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/AST/BaseModelica/ASTNode.cpp b/lib/AST/BaseModelica/ASTNode.cpp
index 1a3515c..7e13876 100644
--- a/lib/AST/BaseModelica/ASTNode.cpp
+++ b/lib/AST/BaseModelica/ASTNode.cpp
@@ -57,10 +57,14 @@ static std::string toString(ASTNodeKind kind) {
     return "constant";
   case ASTNodeKind::Expression_Operation:
     return "operation";
+  case ASTNodeKind::Expression_Reduction:
+    return "reduction";
   case ASTNodeKind::Expression_Subscript:
     return "subscript";
   case ASTNodeKind::Expression_Tuple:
     return "tuple";
+  case ASTNodeKind::ExternalFunctionCall:
+    return "external_function_call";
   case ASTNodeKind::ForIndex:
     return "for_index";
   case ASTNodeKind::FunctionArgument_Expression:
@@ -77,6 +81,8 @@ static std::string toString(ASTNodeKind kind) {
     return "assignment_statement";
   case ASTNodeKind::Statement_Break:
     return "break_statement";
+  case ASTNodeKind::Statement_Call:
+    return "call_statement";
   case ASTNodeKind::Statement_For:
     return "for_statement";
   case ASTNodeKind::Statement_If:
diff --git a/lib/AST/BaseModelica/CallStatement.cpp b/lib/AST/BaseModelica/CallStatement.cpp
index bcf5520..664d321 100644
--- a/lib/AST/BaseModelica/CallStatement.cpp
+++ b/lib/AST/BaseModelica/CallStatement.cpp
@@ -21,7 +21,7 @@ llvm::json::Value CallStatement::toJSON() const {
 
   result["call"] = getCall()->toJSON();
 
-  addJSONProperties(result);
+  addNodeKindToJSON(*this, result);
   return result;
 }
 
diff --git a/lib/AST/BaseModelica/ExternalFunctionCall.cpp b/lib/AST/BaseModelica/ExternalFunctionCall.cpp
index d780164..74dc112 100644
--- a/lib/AST/BaseModelica/ExternalFunctionCall.cpp
+++ b/lib/AST/BaseModelica/ExternalFunctionCall.cpp
@@ -39,7 +39,7 @@ llvm::json::Value ExternalFunctionCall::toJSON() const {
 
   result["args"] = llvm::json::Array(argsJson);
 
-  addJSONProperties(result);
+  addNodeKindToJSON(*this, result);
   return result;
 }
 
-- 
2.43.0


From cd6b179684bf6705b2e5e1607dee5636aa615002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 11/63] fix: make a range differ from a value it does not equal

---
 lib/Modeling/Range.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/Range.cpp b/lib/Modeling/Range.cpp
index 0eb8da9..527920d 100644
--- a/lib/Modeling/Range.cpp
+++ b/lib/Modeling/Range.cpp
@@ -20,7 +20,7 @@ bool Range::operator==(const Range &other) const {
 }
 
 bool Range::operator!=(Range::data_type other) const {
-  return getBegin() != other && getEnd() != other + 1;
+  return getBegin() != other || getEnd() != other + 1;
 }
 
 bool Range::operator!=(const Range &other) const {
-- 
2.43.0


From 941beb087c5900f1d9e751d96d4f9d1d28f9085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 12/63] fix: index sets built from ranges stored overlapping
 ranges

A range was checked only against the run of previous ranges overlapping it
in some dimension, so a longer range preceding an unrelated one was missed.
---
 lib/Modeling/IndexSet.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index e872d07..c1c3c1b 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -157,20 +157,12 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
       continue;
     }
 
-    size_t possibleOverlapIndex = nonOverlappingRanges.size();
-
-    while (possibleOverlapIndex > 0 &&
-           current.anyDimensionOverlaps(
-               nonOverlappingRanges[possibleOverlapIndex - 1])) {
-      --possibleOverlapIndex;
-    }
-
     llvm::SmallVector<MultidimensionalRange> differences;
     differences.push_back(current);
 
-    for (size_t i = possibleOverlapIndex, e = nonOverlappingRanges.size();
-         i < e; ++i) {
-      const MultidimensionalRange &other = nonOverlappingRanges[i];
+    // Any of the previous ranges may overlap, no matter whether the ones in
+    // between do.
+    for (const MultidimensionalRange &other : nonOverlappingRanges) {
       llvm::SmallVector<MultidimensionalRange> newDifferences;
 
       for (MultidimensionalRange &currentDifference : differences) {
@@ -185,12 +177,10 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
     }
 
     llvm::append_range(nonOverlappingRanges, std::move(differences));
-
-    llvm::sort(
-        std::next(std::begin(nonOverlappingRanges), possibleOverlapIndex),
-        std::end(nonOverlappingRanges));
   }
 
+  llvm::sort(nonOverlappingRanges);
+
   assert(llvm::none_of(nonOverlappingRanges,
                        [&](const MultidimensionalRange &range) {
                          for (const MultidimensionalRange &other :
-- 
2.43.0


From d318ede9029fbc9c15118fe2b72648dde5980f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 13/63] fix: removal from an index set could miss points

Adjusting the tree while iterating over the collected leaves may move
objects to leaves not collected.
---
 lib/Modeling/IndexSet.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index c1c3c1b..855c7cb 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -307,32 +307,38 @@ void IndexSet::remove(const MultidimensionalRange &other) {
     return;
   }
 
-  llvm::SmallVector<Node *> overlappingNodes;
-
-  walkOverlappingLeafNodes(
-      other, [&](Node &node) { overlappingNodes.push_back(&node); });
+  // Adjusting the tree may move the objects to other nodes, so the leaves to be
+  // modified are searched again after each modification.
+  while (!empty()) {
+    Node *overlappingNode = nullptr;
+
+    walkOverlappingLeafNodes(other, [&](Node &node) {
+      if (!overlappingNode &&
+          llvm::any_of(node.objects, [&](const Object &value) {
+            return value->overlaps(other);
+          })) {
+        overlappingNode = &node;
+      }
+    });
 
-  for (Node *node : overlappingNodes) {
-    assert(node->isLeaf());
-    bool modified = false;
+    if (!overlappingNode) {
+      break;
+    }
 
     llvm::SmallVector<Object> differences;
 
-    for (Object &value : node->objects) {
+    for (Object &value : overlappingNode->objects) {
       if (value->overlaps(other)) {
-        modified = true;
         llvm::append_range(differences, value->subtract(other));
       } else {
         differences.emplace_back(std::move(value));
       }
     }
 
-    node->objects = std::move(differences);
+    overlappingNode->objects = std::move(differences);
 
-    if (modified) {
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
-    }
+    // Split and collapse nodes, if necessary.
+    adjustTree(overlappingNode);
   }
 
   assert(isValid());
-- 
2.43.0


From 00b6eae7fda691359c28fd6533fa6055175f7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:26 +0000
Subject: [PATCH 14/63] fix: removing an index set from itself used freed nodes

---
 include/marco/Modeling/RTree.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 47318da..1353289 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -666,6 +666,11 @@ public:
       return;
     }
 
+    if (this == &other) {
+      clear();
+      return;
+    }
+
     using OverlappingNodePair = std::pair<const Node *, const Node *>;
     llvm::SmallVector<OverlappingNodePair> overlappingNodePairs;
     llvm::SmallVector<std::reference_wrapper<const Object>> overlappingObjects;
-- 
2.43.0


From 00e8e71889ba212585f77ff8026c474b853d6f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 15/63] fix: report an error when a primary expression is
 missing

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3445248..1a3d200 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1455,6 +1455,10 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setCallee(std::move(*identifier));
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
+
+  } else {
+    emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
+    return std::nullopt;
   }
 
   assert(result != nullptr);
-- 
2.43.0


From 06e666885432c215d57974a7a5f5fef558e884ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 16/63] fix: always make progress while parsing the class body

---
 lib/Parser/BaseModelica/Parser.cpp | 44 ++++++++++--------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 1a3d200..8b09d0f 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -221,13 +221,12 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> algorithms;
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> innerClasses;
 
-  // Whether the first elements list is allowed to be encountered or not.
-  // In fact, the class definition allows a first elements list definition
-  // and then others more if preceded by "public" or "protected", but no
-  // more "lone" definitions are allowed if any of those keywords are
-  // encountered.
+  // Whether the elements being encountered are public or not. The visibility is
+  // public until a "protected" keyword is encountered, and applies to all the
+  // elements following it (including the ones following a nested class) until
+  // the visibility is changed again.
 
-  bool firstElementListParsable = true;
+  bool publicSection = true;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Annotation>() &&
@@ -268,34 +267,21 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
       continue;
     }
 
-    if (accept<TokenKind::Public>()) {
-      TRY(elementList, parseElementList(true));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
-      continue;
+    if (lookahead[0].isa<TokenKind::Initial>()) {
+      emitUnexpectedTokenError(lookahead[1], TokenKind::Equation);
+      return std::nullopt;
     }
 
-    if (accept<TokenKind::Protected>()) {
-      TRY(elementList, parseElementList(false));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
-      continue;
+    if (accept<TokenKind::Public>()) {
+      publicSection = true;
+    } else if (accept<TokenKind::Protected>()) {
+      publicSection = false;
     }
 
-    if (firstElementListParsable) {
-      TRY(elementList, parseElementList(true));
+    TRY(elementList, parseElementList(publicSection));
 
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
+    for (auto &element : *elementList) {
+      members.push_back(std::move(element));
     }
   }
 
-- 
2.43.0


From 2e3f53388f6b45e753b3b682f54fa153ece05f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 17/63] fix: accept the initial algorithm sections

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 8b09d0f..f7b3f6e 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -504,8 +504,10 @@ Parser::parseElementReplaceable(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
+  SourceRange loc = lookahead[0].getLocation();
+  const bool initial = accept<TokenKind::Initial>();
   EXPECT(TokenKind::Algorithm);
-  SourceRange loc = getLocation();
+  loc.end = getLocation().end;
 
   llvm::SmallVector<std::unique_ptr<ASTNode>, 10> statements;
 
@@ -524,6 +526,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   }
 
   auto result = std::make_unique<Algorithm>(loc);
+  result->setInitial(initial);
   result->setStatements(statements);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
-- 
2.43.0


From fbe2410b2d95b1418e72ab9755f040233bdb9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 18/63] fix: an algorithm section ends where an initial section
 begins

---
 lib/Parser/BaseModelica/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index f7b3f6e..f0b823d 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -514,6 +514,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Public>() &&
          !lookahead[0].isa<TokenKind::Protected>() &&
+         !lookahead[0].isa<TokenKind::Initial>() &&
          !lookahead[0].isa<TokenKind::Equation>() &&
          !lookahead[0].isa<TokenKind::Algorithm>() &&
          !lookahead[0].isa<TokenKind::External>() &&
-- 
2.43.0


From 5f5d3b9eb30ed5c18e1d7d4713042e7d1f709d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 19/63] fix: expect 'end when' at the end of when-equations

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index f0b823d..f09d82f 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -985,7 +985,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenEquation() {
   }
 
   EXPECT(TokenKind::End);
-  EXPECT(TokenKind::If);
+  EXPECT(TokenKind::When);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<WhenEquation>(loc);
-- 
2.43.0


From 1abce061ce0f2244699c2de87ae1a4275faea71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 20/63] fix: expect 'then' after the condition of
 when-statements

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index f09d82f..a476838 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1009,7 +1009,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenStatement() {
   SourceRange loc = getLocation();
 
   TRY(condition, parseExpression());
-  EXPECT(TokenKind::Loop);
+  EXPECT(TokenKind::Then);
 
   std::vector<std::unique_ptr<ASTNode>> statements;
 
-- 
2.43.0


From 3fe3ca07c845cf82553f7e98020a6f517d0cecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 21/63] fix: use the right location for the else-if blocks of
 if-statements

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index a476838..1cd1b4d 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -796,7 +796,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseIfStatement() {
       elseIfStatementsBlockLoc.end = stmnt->getLocation().end;
     }
 
-    auto elseIfBlock = std::make_unique<StatementsBlock>(statementsBlockLoc);
+    auto elseIfBlock = std::make_unique<StatementsBlock>(elseIfStatementsBlockLoc);
     elseIfBlock->setBody(elseIfStatements);
     loc.end = elseIfBlock->getLocation().end;
     elseIfBlocks.push_back(std::move(elseIfBlock));
-- 
2.43.0


From f37e3b98c7e0676f7adddbd62fd3c9460dbe4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 22/63] fix: report an error on the unsupported 'redeclare' and
 'replaceable' elements

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 1cd1b4d..6338306 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -493,13 +493,15 @@ Parser::parseElementModification(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseElementRedeclaration() {
-  llvm_unreachable("Not implemented");
+  // Not implemented.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
 ParseResult<std::unique_ptr<ASTNode>>
 Parser::parseElementReplaceable(bool each, bool final) {
-  llvm_unreachable("Not implemented");
+  // Not implemented.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
-- 
2.43.0


From 44f07c835e00a97f358574ae72a9db6abeff99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 23/63] fix: accept array dimensions whose expression starts
 with an integer

---
 lib/Parser/BaseModelica/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 6338306..4ae5dc8 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1925,7 +1925,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseArrayDimension() {
 
   if (accept<TokenKind::Colon>()) {
     result->setSize(-1);
-  } else if (lookahead[0].isa<TokenKind::Integer>()) {
+  } else if (lookahead[0].isa<TokenKind::Integer>() &&
+             (lookahead[1].isa<TokenKind::Comma>() ||
+              lookahead[1].isa<TokenKind::RSquare>())) {
     result->setSize(lookahead[0].getInt());
     EXPECT(TokenKind::Integer);
   } else {
-- 
2.43.0


From d692082a4c676126d61911a8735f5219fc2a1ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 24/63] fix: require the commas among the expressions of an
 output list

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 4ae5dc8..5ff8acc 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1717,7 +1717,10 @@ Parser::parseOutputExpressionList() {
 
     TRY(expression, parseExpression());
     expressions.push_back(std::move(*expression));
-    accept<TokenKind::Comma>();
+
+    if (!lookahead[0].isa<TokenKind::RPar>()) {
+      EXPECT(TokenKind::Comma);
+    }
   }
 
   SourceRange loc = getCursorLocation();
-- 
2.43.0


From b89d87231b09f59fccc92281855ebf7f0d1b5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 25/63] fix: reject the partial derivative definitions of
 non-function classes

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 5ff8acc..80f93dc 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -189,7 +189,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
 
   if (accept<TokenKind::EqualityOperator>()) {
     // Function derivative
-    assert(result->isa<StandardFunction>());
+    if (!result->isa<StandardFunction>()) {
+      emitUnexpectedTokenError(token, TokenKind::Identifier);
+      return std::nullopt;
+    }
+
     EXPECT(TokenKind::Der);
     EXPECT(TokenKind::LPar);
 
-- 
2.43.0


From 1e46dd5f97162c088809e5e58128c9525d9f8f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 26/63] fix: accept call statements without arguments

---
 lib/Parser/BaseModelica/Parser.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 80f93dc..d2b3bb5 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -655,13 +655,10 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
 
   TRY(destination, parseComponentReference());
 
-  if (accept<TokenKind::LPar>()) {
+  if (lookahead[0].isa<TokenKind::LPar>()) {
     SourceRange loc = (*destination)->getLocation();
-    TRY(functionArguments, parseFunctionArguments());
-    EXPECT(TokenKind::RPar);
-
-    auto callee = std::make_unique<ComponentReference>(loc);
-    loc.end = getLocation().end;
+    TRY(functionArguments, parseFunctionCallArgs());
+    loc.end = functionArguments->getLocation().end;
     auto result = std::make_unique<CallStatement>(loc);
 
     {
-- 
2.43.0


From 67ec51b1cd98061338802b06e1d61210e4b7d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 27/63] fix: accept a class annotation following the elements

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index d2b3bb5..81d0a4f 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1794,7 +1794,8 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::Model>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
-         !lookahead[0].isa<TokenKind::External>()) {
+         !lookahead[0].isa<TokenKind::External>() &&
+         !lookahead[0].isa<TokenKind::Annotation>()) {
     TRY(member, parseElement(publicSection));
     EXPECT(TokenKind::Semicolon);
     members.push_back(std::move(*member));
-- 
2.43.0


From 45ba0e287f8fbf778f830bb3b1c989f6ffe22b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 28/63] fix: accept global component references within
 expressions

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 81d0a4f..bbd75e2 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1432,7 +1432,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
 
-  } else if (lookahead[0].isa<TokenKind::Identifier>()) {
+  } else if (lookahead[0].isa<TokenKind::Dot>() ||
+             lookahead[0].isa<TokenKind::Identifier>()) {
     TRY(identifier, parseComponentReference());
     loc.end = (*identifier)->getLocation().end;
 
-- 
2.43.0


From 6a5fbc53c72e27a6a39404d8fcb744139ac07fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 29/63] fix: read the name of a type only from identifiers

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index bbd75e2..945aacb 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1879,8 +1879,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
   std::unique_ptr<ASTNode> result;
 
   const bool globalLookup = accept<TokenKind::Dot>();
-  const std::string name = lookahead[0].getString();
   EXPECT(TokenKind::Identifier);
+  const std::string name = getString();
   SourceRange loc = getLocation();
 
   if (name == "String") {
@@ -1900,9 +1900,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
     path.push_back(name);
 
     while (accept<TokenKind::Dot>()) {
-      loc.end = lookahead[0].getLocation().end;
-      path.push_back(lookahead[0].getString());
       EXPECT(TokenKind::Identifier);
+      loc.end = getLocation().end;
+      path.push_back(getString());
     }
 
     result = std::make_unique<UserDefinedType>(loc);
-- 
2.43.0


From 2aeefcc3d841904ed5aa3c62a3015ba5d230dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 30/63] fix: recognize all the kinds of nested class
 definitions

---
 lib/Parser/BaseModelica/Parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 945aacb..20065d3 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -265,7 +265,10 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
         lookahead[0].isa<TokenKind::Function>() ||
         lookahead[0].isa<TokenKind::Model>() ||
         lookahead[0].isa<TokenKind::Package>() ||
-        lookahead[0].isa<TokenKind::Record>()) {
+        lookahead[0].isa<TokenKind::Record>() ||
+        lookahead[0].isa<TokenKind::Operator>() ||
+        lookahead[0].isa<TokenKind::Pure>() ||
+        lookahead[0].isa<TokenKind::Impure>()) {
       TRY(innerClass, parseClassDefinition());
       innerClasses.emplace_back(std::move(*innerClass));
       continue;
@@ -1795,6 +1798,9 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::Model>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
+         !lookahead[0].isa<TokenKind::Operator>() &&
+         !lookahead[0].isa<TokenKind::Pure>() &&
+         !lookahead[0].isa<TokenKind::Impure>() &&
          !lookahead[0].isa<TokenKind::External>() &&
          !lookahead[0].isa<TokenKind::Annotation>()) {
     TRY(member, parseElement(publicSection));
-- 
2.43.0


From b2223f94cdc575ec8c562ae5e8644338e4027c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 31/63] fix: let the location of a power start from its base

---
 lib/Parser/BaseModelica/Parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 20065d3..c887bb0 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1311,8 +1311,7 @@ WrappedParseResult<OperationKind> Parser::parseMulOperator() {
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseFactor() {
   TRY(primary, parsePrimary());
-  SourceRange loc = getLocation();
-  loc.end = (*primary)->getLocation().end;
+  SourceRange loc = (*primary)->getLocation();
 
   auto result = std::move(*primary);
 
-- 
2.43.0


From 5b078a53c7406346b99afe03d1ac1b017e828d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 32/63] fix: let the location of a reduction argument include
 its indices

---
 lib/Parser/BaseModelica/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index c887bb0..b004d25 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1565,6 +1565,7 @@ Parser::parseFunctionArguments() {
 
     SourceRange loc = reductionArg->getLocation();
     loc.end = (*forIndices).getLocation().end;
+    reductionArg->setLocation(loc);
 
     reductionArg->setExpression(std::move(*firstArgExpression));
     reductionArg->setForIndices(forIndices->getValue());
-- 
2.43.0


From 3cc686b994b921c8314e10458a3f4a9b69c00f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 33/63] fix: let the location of a call start from its callee

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index b004d25..cd7f4e7 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -646,7 +646,10 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
 
     loc.end = functionCallArgs->getLocation().end;
 
-    auto call = std::make_unique<Call>(loc);
+    SourceRange callLoc = (*function)->getLocation();
+    callLoc.end = loc.end;
+
+    auto call = std::make_unique<Call>(callLoc);
     call->setCallee(std::move(*function));
     call->setArguments(functionCallArgs->getValue());
 
-- 
2.43.0


From 9e6bdf61e1aff7f129dd7db9badd3beda457d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 34/63] fix: accept empty class modifications

---
 lib/Parser/BaseModelica/Parser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index cd7f4e7..899f217 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -432,12 +432,18 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseModification() {
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassModification() {
   EXPECT(TokenKind::LPar);
   SourceRange loc = getLocation();
-  TRY(argumentList, parseArgumentList());
+  std::vector<std::unique_ptr<ASTNode>> arguments;
+
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    TRY(argumentList, parseArgumentList());
+    arguments = std::move(argumentList->getValue());
+  }
+
   EXPECT(TokenKind::RPar);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<ClassModification>(loc);
-  result->setArguments(**argumentList);
+  result->setArguments(arguments);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
 
-- 
2.43.0


From 63a6707b2962d11bc391979fc061ca579d4b462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 35/63] fix: reject a comma following the last argument of an
 external function call

---
 lib/Parser/BaseModelica/Parser.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 899f217..d9f8186 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -381,13 +381,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseExternalFunctionCall() {
   // Function arguments.
   llvm::SmallVector<std::unique_ptr<ASTNode>> args;
 
-  while (!lookahead[0].isa<TokenKind::RPar>()) {
-    TRY(arg, parseExpression());
-    args.push_back(std::move(*arg));
-
-    if (!lookahead[0].isa<TokenKind::RPar>()) {
-      EXPECT(TokenKind::Comma);
-    }
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    do {
+      TRY(arg, parseExpression());
+      args.push_back(std::move(*arg));
+    } while (accept<TokenKind::Comma>());
   }
 
   result->setArguments(std::move(args));
-- 
2.43.0


From 8ddae17bc7c1e9ba2144e896b7d885a9e2dc93a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 36/63] fix: divide dimension accesses rounding towards
 negative infinity, as their affine expressions do

---
 lib/Modeling/DimensionAccessDiv.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessDiv.cpp b/lib/Modeling/DimensionAccessDiv.cpp
index 814b389..e118ab5 100644
--- a/lib/Modeling/DimensionAccessDiv.cpp
+++ b/lib/Modeling/DimensionAccessDiv.cpp
@@ -1,4 +1,5 @@
 #include "marco/Modeling/DimensionAccessDiv.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/raw_ostream.h"
 
 using namespace ::marco::modeling;
@@ -128,7 +129,8 @@ IndexSet DimensionAccessDiv::map(
       coordinates.clear();
 
       for (size_t i = 0, e = mappedLhsPoint.rank(); i < e; ++i) {
-        coordinates.push_back(mappedLhsPoint[i] / mappedRhsPoint[i]);
+        coordinates.push_back(
+            llvm::divideFloorSigned(mappedLhsPoint[i], mappedRhsPoint[i]));
       }
 
       result += Point(coordinates);
-- 
2.43.0


From 602ee7bd0c3a76371ce4830e28a687d08307a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 37/63] fix: build dimension accesses from the modulo
 operations introduced by the simplification

---
 lib/Modeling/DimensionAccess.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/Modeling/DimensionAccess.cpp b/lib/Modeling/DimensionAccess.cpp
index 22b1cc6..aef311f 100644
--- a/lib/Modeling/DimensionAccess.cpp
+++ b/lib/Modeling/DimensionAccess.cpp
@@ -90,6 +90,13 @@ DimensionAccess::build(mlir::AffineExpr expression) {
           binaryExpr.getContext(), DimensionAccess::build(binaryExpr.getLHS()),
           DimensionAccess::build(binaryExpr.getRHS()));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      // a mod b = a - (a floordiv b) * b
+      auto lhs = DimensionAccess::build(binaryExpr.getLHS());
+      auto rhs = DimensionAccess::build(binaryExpr.getRHS());
+      return *lhs - *(*(*lhs / *rhs) * *rhs);
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
@@ -146,6 +153,15 @@ DimensionAccess::getDimensionAccessFromExtendedMap(
           DimensionAccess::getDimensionAccessFromExtendedMap(
               binaryExpr.getRHS(), fakeDimensionsMap));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      // a mod b = a - (a floordiv b) * b
+      auto lhs = DimensionAccess::getDimensionAccessFromExtendedMap(
+          binaryExpr.getLHS(), fakeDimensionsMap);
+      auto rhs = DimensionAccess::getDimensionAccessFromExtendedMap(
+          binaryExpr.getRHS(), fakeDimensionsMap);
+      return *lhs - *(*(*lhs / *rhs) * *rhs);
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
-- 
2.43.0


From 884ab47ea6dc73d927f36d30416d0ca5cbaca138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 38/63] fix: tell access functions with a different number of
 results apart

---
 lib/Modeling/AccessFunctionGeneric.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 852d309..4ed39b5 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -75,7 +75,8 @@ bool AccessFunctionGeneric::operator==(const AccessFunction &other) const {
 
 bool AccessFunctionGeneric::operator==(
     const AccessFunctionGeneric &other) const {
-  if (numOfDimensions != other.numOfDimensions) {
+  if (numOfDimensions != other.numOfDimensions ||
+      getNumOfResults() != other.getNumOfResults()) {
     return false;
   }
 
-- 
2.43.0


From 2681c8aacf7c1d0df6e25ff7c0063b30e97007f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 39/63] fix: map points through dependent iteration spaces just
 once per iteration

---
 lib/Modeling/AccessFunctionGeneric.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 4ed39b5..6566b31 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -220,6 +220,8 @@ IndexSet AccessFunctionGeneric::map(const Point &point) const {
   if (!iterationSpacesWithDependencies.empty()) {
     map(mappedIndices, point, iterationSpacesWithDependencies, 0,
         currentIterationSpacePoint);
+
+    return mappedIndices;
   }
 
   // No dependencies among iteration spaces.
@@ -250,6 +252,8 @@ void AccessFunctionGeneric::map(
       map(mappedIndices, point, iterationSpaces, currentIterationSpace + 1,
           currentIterationSpacePoint);
     }
+
+    return;
   }
 
   IndexSet currentMappedIndices;
-- 
2.43.0


From 80bbf7a545ca12a86670dcbefb10185fca5cad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 40/63] fix: keep the multi-valued accesses of the left-hand
 side when combining access functions

---
 lib/Modeling/AccessFunction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/AccessFunction.cpp b/lib/Modeling/AccessFunction.cpp
index bb03705..3e68d65 100644
--- a/lib/Modeling/AccessFunction.cpp
+++ b/lib/Modeling/AccessFunction.cpp
@@ -181,7 +181,8 @@ AccessFunction::combine(const AccessFunction &other) const {
   mlir::AffineMap combinedAffineMap = rhsAffineMap.compose(lhsAffineMap);
 
   // Determine the fake dimensions of the result.
-  DimensionAccess::FakeDimensionsMap resultFakeDimensionsMap;
+  DimensionAccess::FakeDimensionsMap resultFakeDimensionsMap =
+      lhsFakeDimensionsMap;
 
   for (size_t i = 0; i < rhsFakeDimensionsCount; ++i) {
     size_t rhsDimension = other.getNumOfDims() + rhsExtraDimensions + i;
-- 
2.43.0


From 05faa9079d62051a5c0732e9ec1fea0f82d8816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 41/63] fix: keep the inverse image of a roto-translation
 within the parent indices

---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 682dbde..866c929 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -246,7 +246,8 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
       return reducedInverseMap;
     }
 
-    // Insert the indices corresponding to the skipped dimensions.
+    // Insert the indices corresponding to the skipped dimensions. The used
+    // dimensions may come from a different range of the parent indices.
     llvm::SmallVector<MultidimensionalRange> mapped;
 
     for (const MultidimensionalRange &parentRange : llvm::make_range(
@@ -269,7 +270,7 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
       }
     }
 
-    return {mapped};
+    return IndexSet(mapped).intersect(parentIndices);
   }
 
   return AccessFunction::inverseMap(accessedIndices, parentIndices);
-- 
2.43.0


From fc28fb48f6c5ca42fb23e83ce0031e86263fde25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 42/63] fix: map index sets through roto-translations using a
 dimension more than once

---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 866c929..d19ce69 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -183,6 +183,15 @@ AccessFunctionRotoTranslation::map(const MultidimensionalRange &indices) const {
 }
 
 IndexSet AccessFunctionRotoTranslation::map(const IndexSet &indices) const {
+  llvm::SmallVector<size_t, 3> usages;
+  countVariablesUsages(usages);
+
+  if (llvm::any_of(usages, [](size_t usage) { return usage > 1; })) {
+    // The results depending on the same dimension vary together, and thus
+    // their values do not form a multidimensional range.
+    return AccessFunctionAffineMap::map(indices);
+  }
+
   llvm::SmallVector<MultidimensionalRange> mapped;
 
   for (const MultidimensionalRange &range :
-- 
2.43.0


From 33818953d7af46fb6d4c852b988303cda6d0efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 43/63] fix: tell iteration space accesses with different
 dependencies apart

---
 lib/Modeling/DimensionAccessIndices.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessIndices.cpp b/lib/Modeling/DimensionAccessIndices.cpp
index 0499e55..00a44f5 100644
--- a/lib/Modeling/DimensionAccessIndices.cpp
+++ b/lib/Modeling/DimensionAccessIndices.cpp
@@ -27,7 +27,8 @@ bool DimensionAccessIndices::operator==(const DimensionAccess &other) const {
 
 bool DimensionAccessIndices::operator==(
     const DimensionAccessIndices &other) const {
-  return space == other.space && dimension == other.dimension;
+  return space == other.space && dimension == other.dimension &&
+         dimensionDependencies == other.dimensionDependencies;
 }
 
 bool DimensionAccessIndices::operator!=(const DimensionAccess &other) const {
-- 
2.43.0


From 7a280d76b8ce60e13ad8b584c770f950ce3f8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 44/63] fix: set and unset only the given key of a group of the
 incidence matrix

---
 lib/Modeling/MCIMGroupGeneric.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/MCIMGroupGeneric.cpp b/lib/Modeling/MCIMGroupGeneric.cpp
index 0ef8999..1856407 100644
--- a/lib/Modeling/MCIMGroupGeneric.cpp
+++ b/lib/Modeling/MCIMGroupGeneric.cpp
@@ -55,14 +55,18 @@ bool MCIMGroupGeneric::has(const Point &key, const Point &value) const {
 
 bool MCIMGroupGeneric::set(const Point &key, const Point &value) {
   IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
+      getAccessFunction()
+          .inverseMap(IndexSet(value), IndexSet(key))
+          .intersect(IndexSet(key));
   addKeys(inverseKeys);
   return !inverseKeys.empty();
 }
 
 bool MCIMGroupGeneric::unset(const Point &key, const Point &value) {
   IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
+      getAccessFunction()
+          .inverseMap(IndexSet(value), IndexSet(key))
+          .intersect(IndexSet(key));
   removeKeys(inverseKeys);
   return !inverseKeys.empty();
 }
-- 
2.43.0


From 432e40ae229aaaa5ee9748b518ad60d27cea1b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 45/63] fix: keep the kind of the incidence matrix groups with
 empty access when filtering them

---
 lib/Modeling/MCIMGroupEmpty.cpp   | 2 +-
 lib/Modeling/MCIMGroupGeneric.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/MCIMGroupEmpty.cpp b/lib/Modeling/MCIMGroupEmpty.cpp
index 00c1680..3758297 100644
--- a/lib/Modeling/MCIMGroupEmpty.cpp
+++ b/lib/Modeling/MCIMGroupEmpty.cpp
@@ -62,7 +62,7 @@ bool MCIMGroupEmpty::unset(const Point &key, const Point &value) {
 
 std::unique_ptr<MCIMGroup>
 MCIMGroupEmpty::filterValues(const IndexSet &filter) const {
-  auto result = MCIMGroupGeneric::build(getAccessFunction());
+  auto result = MCIMGroup::build(getAccessFunction());
 
   if (filter.contains(Point(0))) {
     result->addKeys(getKeys());
diff --git a/lib/Modeling/MCIMGroupGeneric.cpp b/lib/Modeling/MCIMGroupGeneric.cpp
index 1856407..925f1ab 100644
--- a/lib/Modeling/MCIMGroupGeneric.cpp
+++ b/lib/Modeling/MCIMGroupGeneric.cpp
@@ -73,7 +73,7 @@ bool MCIMGroupGeneric::unset(const Point &key, const Point &value) {
 
 std::unique_ptr<MCIMGroup>
 MCIMGroupGeneric::filterKeys(const IndexSet &filter) const {
-  auto result = MCIMGroupGeneric::build(getAccessFunction());
+  auto result = MCIMGroup::build(getAccessFunction());
   result->addKeys(keys.intersect(filter));
   return result;
 }
-- 
2.43.0


From 004ecd2d30f7188de8d8210662f17d7a005f561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 46/63] fix: keep the groups not holding the element being
 unset in the incidence matrix

---
 lib/Modeling/MCIM.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index ac67f56..5825d97 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -450,10 +450,10 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    if (group->unset(equation, variable)) {
-      if (!group->empty()) {
-        newGroups.push_back(std::move(group));
-      }
+    group->unset(equation, variable);
+
+    if (!group->empty()) {
+      newGroups.push_back(std::move(group));
     }
   }
 
-- 
2.43.0


From 89464e036787cc89e356e5caf389b8d3c4c47204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 47/63] fix: restrict the variables of the extra points when
 changing the variable space

---
 lib/Modeling/MCIM.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 5825d97..89828a4 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -186,15 +186,16 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
        llvm::make_range(points.rangesBegin(), points.rangesEnd())) {
     llvm::SmallVector<Range> ranges;
 
+    MultidimensionalRange equations = multidimRange.takeFirstDimensions(
+        points.rank() - newVariableSpace->rank());
+
     IndexSet intersection = newVariableSpace->intersect(
-        multidimRange.takeFirstDimensions(newVariableSpace->rank()));
+        multidimRange.takeLastDimensions(newVariableSpace->rank()));
 
     for (const MultidimensionalRange &intersectionMultidimRange :
          llvm::make_range(intersection.rangesBegin(),
                           intersection.rangesEnd())) {
-      newPoints +=
-          intersectionMultidimRange.append(multidimRange.takeLastDimensions(
-              points.rank() - newVariableSpace->rank()));
+      newPoints += equations.append(intersectionMultidimRange);
     }
   }
 
-- 
2.43.0


From ff950aa837ebee8c4fcb98081eed93fd28892057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 48/63] fix: keep the extra points when changing the spaces of
 an incidence matrix

---
 lib/Modeling/MCIM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 89828a4..0fdf75b 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -570,7 +570,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
     }
   }
 
-  if (!result.points.empty()) {
+  if (!points.empty()) {
     result.points =
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
-- 
2.43.0


From ce11f140c76184c3dda5cbd461d1198ef3d6c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 49/63] fix: drop the accesses to the discarded variables when
 shrinking the variable space

---
 lib/Modeling/MCIM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 0fdf75b..a4a2858 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -552,7 +552,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   MCIM result(newEquationSpace, newVariableSpace);
 
   auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
-    if (!getVariableSpace().contains(*newVariableSpace)) {
+    if (!newVariableSpace->contains(getVariableSpace())) {
       auto filteredGroup = group.filterValues(*newVariableSpace);
       return filteredGroup->getKeys().intersect(*newEquationSpace);
     }
-- 
2.43.0


From 31eb59750c4a6916385277148358a6774f720730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 50/63] fix: subtract only the common elements of incidence
 matrices with different accesses

---
 lib/Modeling/MCIM.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index a4a2858..537f5d6 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -324,8 +324,17 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
           continue;
         }
 
-        IndexSet commonKeys = lhsKeys.intersect(rhsKeys);
-        group->removeKeys(commonKeys);
+        // The keys may be associated with different values.
+        llvm::SmallVector<Point> commonKeys;
+
+        for (Point key : lhsKeys.intersect(rhsKeys)) {
+          if (group->getAccessFunction().map(key) ==
+              rhsGroup->getAccessFunction().map(key)) {
+            commonKeys.push_back(key);
+          }
+        }
+
+        group->removeKeys(IndexSet(commonKeys));
       }
     }
   }
-- 
2.43.0


From 5b9740a41e4ce0611f1acd81e8e504e65eafa72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 51/63] fix: subtract the accesses from the extra points of an
 incidence matrix

---
 lib/Modeling/MCIM.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 537f5d6..d57743c 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -365,6 +365,22 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
 
   points -= rhs.points;
 
+  // Remove the extra points that overlap with the groups.
+  llvm::SmallVector<Point> overlappingPoints;
+
+  for (Point point : points) {
+    Point equation = point.takeFront(getEquationSpace().rank());
+    Point variable = point.takeBack(getVariableSpace().rank());
+
+    if (llvm::any_of(rhs.groups, [&](const std::unique_ptr<MCIMGroup> &group) {
+          return group->has(equation, variable);
+        })) {
+      overlappingPoints.push_back(point);
+    }
+  }
+
+  points -= IndexSet(overlappingPoints);
+
   assert(std::all_of(rhs.indicesBegin(), rhs.indicesEnd(),
                      [&](std::pair<Point, Point> coordinates) {
                        if (rhs.get(coordinates.first, coordinates.second)) {
-- 
2.43.0


From 8a2a9e931d0096dc357e9fecaf2c8e040a673a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 52/63] fix: invert constant accesses also when other indices
 are given

---
 lib/Modeling/AccessFunctionAffineConstant.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/Modeling/AccessFunctionAffineConstant.cpp b/lib/Modeling/AccessFunctionAffineConstant.cpp
index 06e702d..785ebcf 100644
--- a/lib/Modeling/AccessFunctionAffineConstant.cpp
+++ b/lib/Modeling/AccessFunctionAffineConstant.cpp
@@ -85,11 +85,7 @@ AccessFunctionAffineConstant::inverseMap(const IndexSet &accessedIndices,
                                          const IndexSet &parentIndices) const {
   auto expectedAccessedIndices = map(parentIndices);
 
-  if (accessedIndices.empty() && !expectedAccessedIndices.empty()) {
-    return {};
-  }
-
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (accessedIndices.contains(expectedAccessedIndices)) {
     return parentIndices;
   }
 
-- 
2.43.0


From 163f581ab42f51b7705d2da939d9cf5a33d6b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 53/63] fix: do not skip the second access function when
 computing the local matching solutions

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index cf72495..6426ca4 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -400,7 +400,6 @@ void VAFSolutions::fetchNext() {
   if (generator == nullptr) {
     if (currentAccessFunction < accessFunctions.size()) {
       generator = getGenerator(*accessFunctions[currentAccessFunction++]);
-      ++currentAccessFunction;
     }
   }
 
-- 
2.43.0


From efe1b9a4f5c3d5c27096d9a80052bb32a6dc29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 54/63] fix: sort the access functions with a strict ordering

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 6426ca4..171d487 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -454,7 +454,7 @@ bool VAFSolutions::compareAccessFunctions(
   size_t lhsUniqueUsages = llvm::count_if(lhsUsages, counter);
   size_t rhsUniqueUsages = llvm::count_if(rhsUsages, counter);
 
-  return lhsUniqueUsages >= rhsUniqueUsages;
+  return lhsUniqueUsages > rhsUniqueUsages;
 }
 
 size_t
-- 
2.43.0


From 4074a48abe1c35fe18dd014ddd845b4257c59616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 55/63] fix: count the local matching solutions of constant
 accesses

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 171d487..5247e60 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -487,7 +487,8 @@ VAFSolutions::getSolutionsAmount(const AccessFunctionAffineConstant &) const {
 
 size_t VAFSolutions::getSolutionsAmount(
     const AccessFunctionConstant &accessFunction) const {
-  return equationIndices->size() * accessFunction.map(IndexSet()).size();
+  return equationIndices->size() *
+         accessFunction.map(*equationIndices).size();
 }
 
 size_t VAFSolutions::getSolutionsAmount(
-- 
2.43.0


From 47173d9870f950b8ccf8f4311462e45997142c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 56/63] fix: do not drop the character after a decimal point or
 an exponent letter

The scan of a floating point number consumed the character following the
decimal point without looking at it, so that '1.+2' was the number 1.2 and
'3.;' lost its semicolon, and consumed an exponent letter not followed by an
exponent.
---
 lib/Parser/BaseModelica/StateMachine.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 6f5c754..638ed8f 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -187,8 +187,13 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
   }
 
   if (current == '.') {
-    state = State::ParsingFloat;
-    return std::nullopt;
+    if (isDigit(next) || next == 'E' || next == 'e') {
+      state = State::ParsingFloat;
+      return std::nullopt;
+    }
+
+    state = State::Normal;
+    return makeToken(TokenKind::FloatingPoint, getFloat());
   }
 
   if (current == 'E' || current == 'e') {
@@ -222,10 +227,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
 template <>
 std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
-  if (std::isspace(current) || current == '\0') {
-    state = State::Normal;
-    return makeToken(TokenKind::FloatingPoint, getFloat());
-  }
+  setTokenEndPosition();
 
   if (isDigit(current)) {
     numberLexer.addLower(current - '0');
@@ -242,6 +244,10 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
       state = State::ParsingFloatExponent;
       return std::nullopt;
     }
+
+    state = State::Normal;
+    error = "missing exponent in floating point number";
+    return makeToken(TokenKind::Error, getError());
   }
 
   if (isDigit(next) || next == 'E' || next == 'e') {
@@ -249,7 +255,6 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
   }
 
   state = State::Normal;
-  setTokenEndPosition();
   return makeToken(TokenKind::FloatingPoint, getFloat());
 }
 
-- 
2.43.0


From 2db3f913efd5cbf99773527e00fa7b6368d4ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 57/63] fix: recognize the end of the multi-line comments

The asterisk opening a comment was also taken as part of its end, so that
'/*/' was a whole comment, and a comment that was never closed silently hid
the rest of the file.
---
 .../marco/Parser/BaseModelica/StateMachine.h  |  1 +
 lib/Parser/BaseModelica/StateMachine.cpp      | 23 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/marco/Parser/BaseModelica/StateMachine.h b/include/marco/Parser/BaseModelica/StateMachine.h
index 17855dd..fca9604 100644
--- a/include/marco/Parser/BaseModelica/StateMachine.h
+++ b/include/marco/Parser/BaseModelica/StateMachine.h
@@ -39,6 +39,7 @@ public:
     ParsingFloatExponent,
     ParsingString,
     ParsingSingleLineComment,
+    ParsingMultiLineCommentOpening,
     ParsingMultiLineComment,
     ParsingBackSlash,
     ParsingQIdentifierBackSlash,
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 638ed8f..83709dc 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -350,6 +350,22 @@ StateMachine::scan<StateMachine::State::ParsingSingleLineComment>() {
   return std::nullopt;
 }
 
+template <>
+std::optional<Token>
+StateMachine::scan<StateMachine::State::ParsingMultiLineCommentOpening>() {
+  setTokenEndPosition();
+
+  if (next == '\0') {
+    state = State::Normal;
+    error = "unexpected end of file while parsing a comment";
+    return makeToken(TokenKind::Error, getError());
+  }
+
+  // The asterisk opening the comment can't also be part of its end.
+  state = State::ParsingMultiLineComment;
+  return std::nullopt;
+}
+
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
@@ -357,6 +373,8 @@ StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
 
   if (next == '\0') {
     state = State::Normal;
+    error = "unexpected end of file while parsing a comment";
+    return makeToken(TokenKind::Error, getError());
   }
 
   if (current == '*' && next == '/') {
@@ -523,7 +541,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::Normal>() {
   }
 
   if (current == '/' && next == '*') {
-    state = State::ParsingMultiLineComment;
+    state = State::ParsingMultiLineCommentOpening;
     return std::nullopt;
   }
 
@@ -668,6 +686,9 @@ std::optional<Token> StateMachine::step(char c) {
   case State::ParsingSingleLineComment:
     return scan<State::ParsingSingleLineComment>();
 
+  case State::ParsingMultiLineCommentOpening:
+    return scan<State::ParsingMultiLineCommentOpening>();
+
   case State::ParsingMultiLineComment:
     return scan<State::ParsingMultiLineComment>();
 
-- 
2.43.0


From 994d72ccd073e55a781b309736e8cb3c20b539e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 58/63] fix: do not pass negative characters to isspace

---
 lib/Parser/BaseModelica/StateMachine.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 83709dc..0e2b65f 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -6,6 +6,11 @@ using namespace ::marco::parser::bmodelica;
 namespace {
 bool isDigit(char c) { return ('0' <= c && c <= '9'); }
 
+bool isSpace(char c) {
+  // Negative values are not allowed by the standard function.
+  return std::isspace(static_cast<unsigned char>(c)) != 0;
+}
+
 bool isNonDigit(char c) {
   return ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_';
 }
@@ -261,7 +266,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingFloatExponentSign>() {
-  if (std::isspace(current) || current == '\0') {
+  if (isSpace(current) || current == '\0') {
     state = State::Normal;
     error = "unexpected termination of the floating point number";
     return makeToken(TokenKind::Error, getError());
@@ -290,7 +295,7 @@ StateMachine::scan<StateMachine::State::ParsingFloatExponentSign>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingFloatExponent>() {
-  if (std::isspace(current) || current == '\0') {
+  if (isSpace(current) || current == '\0') {
     state = State::Normal;
     // error = "unexpected termination of the floating point number";
     return makeToken(TokenKind::FloatingPoint, getFloat());
@@ -502,7 +507,7 @@ StateMachine::scan<StateMachine::State::IgnoredCharacter>() {
 
 template <>
 std::optional<Token> StateMachine::scan<StateMachine::State::Normal>() {
-  if (std::isspace(current) != 0) {
+  if (isSpace(current)) {
     // Skip spaces
     return std::nullopt;
   }
-- 
2.43.0


From a5eddacf43dabfd827749cca34bf15c8a7761e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 59/63] fix: handle the numeric literals with many digits

An integer literal beyond the range of 64-bit integers silently wrapped
around, the fractional digits beyond the eighteenth produced an arbitrary
value (or an endless loop), and a null mantissa with a large exponent was not
a number.
---
 include/marco/Lexer/FloatLexer.h         | 20 ++++++++++++++++---
 include/marco/Lexer/IntegerLexer.h       | 25 ++++++++++++++++++++----
 lib/Parser/BaseModelica/StateMachine.cpp |  6 ++++++
 3 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index fc012bc..e119f76 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -11,10 +11,19 @@ template <unsigned int Base>
 class FloatLexer {
 public:
   /// Concatenate the number to the integer part.
-  void addUpper(int i) { upperPart += i; }
+  void addUpper(int i) {
+    upperPart += i;
+    upperValue = upperValue * Base + i;
+  }
 
   /// Concatenate the number to the rational part.
   void addLower(int i) {
+    // The digits beyond the precision of the result are ignored.
+    if (lowerPart.get() >=
+        std::numeric_limits<int64_t>::max() / (Base * Base)) {
+      return;
+    }
+
     lowerPart += i;
 
     if (i != 0) {
@@ -41,6 +50,9 @@ public:
   /// Return the X part to make it compatible with the IntegerLexer.
   int64_t getUpperPart() const { return upperPart.get(); }
 
+  /// Returns whether the X part fits the type it is returned with.
+  bool isUpperPartRepresentable() const { return !upperPart.hasOverflow(); }
+
   /// Returns upper.lower * (base ^ (sign * exponent)).
   double get() const {
     int64_t mantissaNormalizer = 1;
@@ -49,7 +61,7 @@ public:
       mantissaNormalizer *= Base;
     }
 
-    double toReturn = upperPart.get();
+    double toReturn = upperValue;
     toReturn += static_cast<double>(lowerPart.get()) /
                 (mantissaNormalizer * std::pow(Base, fractionalLeadingZeros));
 
@@ -59,7 +71,7 @@ public:
       exp *= -1;
     }
 
-    if (hasExponential) {
+    if (hasExponential && toReturn != 0) {
       toReturn *= std::pow(Base, exp);
     }
 
@@ -68,6 +80,7 @@ public:
 
   void reset() {
     upperPart.reset();
+    upperValue = 0;
     lowerPart.reset();
     hasExponential = false;
     exponential.reset();
@@ -78,6 +91,7 @@ public:
 
 private:
   IntegerLexer<Base> upperPart;
+  double upperValue = 0;
   IntegerLexer<Base> lowerPart;
   bool hasExponential = false;
   IntegerLexer<Base> exponential;
diff --git a/include/marco/Lexer/IntegerLexer.h b/include/marco/Lexer/IntegerLexer.h
index 6b5c75d..924bd26 100644
--- a/include/marco/Lexer/IntegerLexer.h
+++ b/include/marco/Lexer/IntegerLexer.h
@@ -1,7 +1,9 @@
 #ifndef MARCO_LEXER_INTEGERLEXER_H
 #define MARCO_LEXER_INTEGERLEXER_H
 
+#include "llvm/Support/MathExtras.h"
 #include <cstdint>
+#include <limits>
 
 namespace marco::lexer {
 /// An integer lexer is a object that can be feed with
@@ -15,20 +17,35 @@ public:
   /// Creates a new IntegerLexer loaded with the provided int.
   IntegerLexer(int64_t value = 0) : value(value) {}
 
-  /// Adds the next element to the integer.
+  /// Adds the next element to the integer. The value saturates if it can't be
+  /// represented.
   IntegerLexer operator+=(int i) {
-    value = value * Base;
-    value = value + i;
+    int64_t result;
+
+    if (llvm::MulOverflow<int64_t>(value, Base, result) ||
+        llvm::AddOverflow<int64_t>(result, i, result)) {
+      overflow = true;
+      result = std::numeric_limits<int64_t>::max();
+    }
+
+    value = result;
     return *this;
   }
 
   /// Returns the currently built value.
   int64_t get() const { return value; }
 
-  void reset() { value = 0; }
+  /// Returns whether the integer was too large to be represented.
+  bool hasOverflow() const { return overflow; }
+
+  void reset() {
+    value = 0;
+    overflow = false;
+  }
 
 private:
   int64_t value;
+  bool overflow = false;
 };
 } // namespace marco::lexer
 
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 0e2b65f..f612c48 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -224,6 +224,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
   if (!isAcceptable(next)) {
     state = State::Normal;
+
+    if (!numberLexer.isUpperPartRepresentable()) {
+      error = "integer number is too large";
+      return makeToken(TokenKind::Error, getError());
+    }
+
     return makeToken(TokenKind::Integer, getInt());
   }
 
-- 
2.43.0


From dd39531d5b87ced2e0ada0f3a0a79f5f14490a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 60/63] fix: initialize the buffer of the source files

---
 lib/Lexer/Location.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Lexer/Location.cpp b/lib/Lexer/Location.cpp
index 8544c61..3fed9a1 100644
--- a/lib/Lexer/Location.cpp
+++ b/lib/Lexer/Location.cpp
@@ -3,7 +3,8 @@
 using namespace ::marco;
 
 namespace marco {
-SourceFile::SourceFile(llvm::StringRef fileName) : fileName(fileName.str()) {}
+SourceFile::SourceFile(llvm::StringRef fileName)
+    : fileName(fileName.str()), buffer(nullptr) {}
 
 bool SourceFile::operator==(const SourceFile &other) const {
   return fileName == other.fileName;
-- 
2.43.0


From aa2daa511a230b24e59686f1e73f20ae8708bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 61/63] fix: scalar equations depend on the writers of all the
 elements a range access reads

---
 include/marco/Modeling/ScalarEquationsDependencyGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/ScalarEquationsDependencyGraph.h b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
index 040c75f..6827381 100644
--- a/include/marco/Modeling/ScalarEquationsDependencyGraph.h
+++ b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
@@ -271,7 +271,7 @@ private:
                 const MultidimensionalRange &writtenIndices =
                     writeInfo.getWrittenVariableIndices();
 
-                if (readIndices == writtenIndices) {
+                if (readIndices.overlaps(writtenIndices)) {
                   std::lock_guard edgeLockGuard(graphMutex);
                   graph->addEdge(equationDescriptor, writeInfo.getEquation());
                 }
-- 
2.43.0


From d18caf2641aa9eb022fab5a6679da85884ed975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 62/63] fix: let the matching of structurally singular models
 fail instead of crashing

While simplifying the leaves, the last edge of the second vertex of a leaf may
be removed. The vertex was then left in the graph, and looking for its edge
dereferenced a past-the-end iterator.
---
 include/marco/Modeling/Matching.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index e8c3bc2..c04e35c 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -1999,7 +1999,12 @@ private:
 
           size_t visibilityDegree = getVertexVisibilityDegreeUpTo(v2, 2);
 
-          if (visibilityDegree == 1) {
+          if (visibilityDegree == 0) {
+            // 'v2' can not be matched any further, and it may also be present
+            // in the candidates list. Having no outgoing edge, it must be
+            // removed.
+            remove(v2);
+          } else if (visibilityDegree == 1) {
             candidates.push_back(v2);
           }
         }
-- 
2.43.0


From ecbc283a499492b4e780327912c2e1ff0069e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 63/63] fix: tell the empty and the tombstone key of edge
 descriptors apart

Edge descriptors are compared by their edge only, which was null for both
reserved keys: after erasures, hash tables of edges lost elements.
---
 include/marco/Modeling/Graph.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/marco/Modeling/Graph.h b/include/marco/Modeling/Graph.h
index 3940429..e910e13 100644
--- a/include/marco/Modeling/Graph.h
+++ b/include/marco/Modeling/Graph.h
@@ -1268,14 +1268,16 @@ struct DenseMapInfo<marco::modeling::internal::impl::EdgeDescriptor<
 
   static Key getEmptyKey() {
     auto emptyVertex = llvm::DenseMapInfo<VertexDescriptor>::getEmptyKey();
-    return Key(nullptr, emptyVertex, emptyVertex, nullptr);
+    return Key(nullptr, emptyVertex, emptyVertex,
+               llvm::DenseMapInfo<T *>::getEmptyKey());
   }
 
   static Key getTombstoneKey() {
     auto tombstoneVertex =
         llvm::DenseMapInfo<VertexDescriptor>::getTombstoneKey();
 
-    return Key(nullptr, tombstoneVertex, tombstoneVertex, nullptr);
+    return Key(nullptr, tombstoneVertex, tombstoneVertex,
+               llvm::DenseMapInfo<T *>::getTombstoneKey());
   }
 
   static unsigned getHashValue(const Key &Val) { return hash_value(Val); }
-- 
2.43.0

