From b9775cc0a22f6ce56f085fc321d73bb6db14971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 1/4] fix: CachedBoolParser returns another request's tree when
 expression and default field join to the same key

---
 .../sidhant92/boolparser/parser/antlr/CachedBoolParser.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
index 2c6289f..7611838 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
@@ -1,14 +1,14 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
-import java.util.Optional;
 import com.github.benmanes.caffeine.cache.Cache;
 import com.github.benmanes.caffeine.cache.Caffeine;
 import com.github.sidhant92.boolparser.domain.logical.Node;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import io.vavr.control.Try;
+import org.apache.commons.lang3.tuple.Pair;
 
 public class CachedBoolParser extends BoolParser {
-    private final Cache<String, Node> cache;
+    private final Cache<Pair<String, String>, Node> cache;
 
     public CachedBoolParser(final int maxCacheSize) {
         OperatorFactory.initialize();
@@ -26,7 +26,7 @@ public class CachedBoolParser extends BoolParser {
     }
 
     private Node getNode(final String expression, final String defaultField) {
-        final String cacheKey = expression + "_" + Optional.ofNullable(defaultField).orElse("");
+        final Pair<String, String> cacheKey = Pair.of(expression, defaultField);
         return cache.get(cacheKey, ex -> super.parse(expression, defaultField));
     }
 }
-- 
2.43.0


From eeb98d7faff32145ccd6278e231c210078f5122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 2/4] fix: constructing an evaluator discards data types
 registered by the application

---
 .../boolparser/datatype/DataTypeFactory.java  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DataTypeFactory.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DataTypeFactory.java
index db19a1f..0ed56ce 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DataTypeFactory.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DataTypeFactory.java
@@ -15,22 +15,22 @@ public class DataTypeFactory {
         super();
     }
 
-    public static void initialize() {
-        abstractDataTypeMap.put(DataType.STRING, new StringDataType());
-        abstractDataTypeMap.put(DataType.INTEGER, new IntegerDataType());
-        abstractDataTypeMap.put(DataType.DECIMAL, new DecimalDataType());
-        abstractDataTypeMap.put(DataType.LONG, new LongDataType());
-        abstractDataTypeMap.put(DataType.VERSION, new VersionDataType());
-        abstractDataTypeMap.put(DataType.BOOLEAN, new BooleanDataType());
-        abstractDataTypeMap.put(DataType.DATE, new DateDataType());
-        abstractDataTypeMap.put(DataType.DATETIME, new DateTimeDataType());
+    public static synchronized void initialize() {
+        abstractDataTypeMap.putIfAbsent(DataType.STRING, new StringDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.INTEGER, new IntegerDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.DECIMAL, new DecimalDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.LONG, new LongDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.VERSION, new VersionDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.BOOLEAN, new BooleanDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.DATE, new DateDataType());
+        abstractDataTypeMap.putIfAbsent(DataType.DATETIME, new DateTimeDataType());
     }
 
     public static AbstractDataType getDataType(final DataType dataType) {
         return abstractDataTypeMap.get(dataType);
     }
 
-    public static void register(final AbstractDataType abstractDataType) {
+    public static synchronized void register(final AbstractDataType abstractDataType) {
         abstractDataTypeMap.put(abstractDataType.getDataType(), abstractDataType);
     }
 }
-- 
2.43.0


From 6996aaaee4600f08133e0e12b34b9218a4a5a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:30 +0000
Subject: [PATCH 3/4] fix: keyword, function and boolean matching depends on
 the JVM's default locale

---
 .../github/sidhant92/boolparser/constant/FunctionType.java | 3 ++-
 .../com/github/sidhant92/boolparser/constant/Operator.java | 7 ++++---
 .../sidhant92/boolparser/datatype/BooleanDataType.java     | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
index d47ff4b..c6db69e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
+import java.util.Locale;
 import java.util.Optional;
 
 /**
@@ -20,7 +21,7 @@ public enum FunctionType {
     DAYS_ELAPSED;
 
     public static Optional<FunctionType> getArrayFunctionFromSymbol(final String symbol) {
-        final String symbolUpperCase = symbol.toUpperCase();
+        final String symbolUpperCase = symbol.toUpperCase(Locale.ROOT);
         return Arrays
                 .stream(FunctionType.values())
                 .filter(function -> function.name().equals(symbolUpperCase))
diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
index 2ec58fd..d040994 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
@@ -2,6 +2,7 @@ package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
 import java.util.List;
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.operator.comparison.AbstractOperator;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
@@ -36,10 +37,10 @@ public enum Operator {
     CONTAINS_ANY;
 
     public static Optional<Operator> getOperatorFromSymbol(final String symbol) {
-        final String symbolLowerCase = symbol.toLowerCase();
+        final String symbolLowerCase = symbol.toLowerCase(Locale.ROOT);
         final Optional<Operator> operator = OperatorFactory.getAllLogicalOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(AbstractOperator::getOperator)
                 .findFirst();
         if (operator.isPresent()) {
@@ -47,7 +48,7 @@ public enum Operator {
         }
         return OperatorFactory.getAllArithmeticOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(com.github.sidhant92.boolparser.operator.arithmetic.AbstractOperator::getOperator)
                 .findFirst();
     }
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java
index 2384f64..9ec710e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java
@@ -1,5 +1,6 @@
 package com.github.sidhant92.boolparser.datatype;
 
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -21,7 +22,7 @@ public class BooleanDataType extends AbstractDataType<Boolean> {
     public boolean isValid(final Object value) {
         boolean isValid = super.defaultIsValid(value);
         if (!isValid) {
-            final String lowercase = value.toString().toLowerCase();
+            final String lowercase = value.toString().toLowerCase(Locale.ROOT);
             return lowercase.equals("true") || lowercase.equals("false");
         }
         return true;
-- 
2.43.0


From f2d2c228f96091871df67c3bb432564ac21579a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 4/4] fix: a comparison that follows an IN, CONTAINS or TO
 condition swallows that condition

---
 .../boolparser/parser/antlr/BooleanFilterListener.java      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 92c3423..3f1eeec 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -156,7 +156,7 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     private ComparisonNode mapComparatorExpressionContext(BooleanExpressionParser.ComparatorExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
 
-        if (!currentNodes.isEmpty() && ((ctx.right instanceof BooleanExpressionParser.ParentExpressionContext || ctx.left instanceof BooleanExpressionParser.ParentExpressionContext) || !(currentNodes.peek() instanceof ComparisonNode || currentNodes.peek() instanceof BooleanNode))) {
+        if (!currentNodes.isEmpty() && ((ctx.right instanceof BooleanExpressionParser.ParentExpressionContext || ctx.left instanceof BooleanExpressionParser.ParentExpressionContext) || !isCondition(currentNodes.peek()))) {
             if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
                 final DataType dataType = getDataType(ctx.left.getStart());
                 final Node value = mapContextToNode(ctx.left);
@@ -173,6 +173,10 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         return new ComparisonNode(mapContextToNode(ctx.left), value, operator, dataType);
     }
 
+    private boolean isCondition(final Node node) {
+        return node instanceof ComparisonNode || node instanceof BooleanNode || node instanceof InNode || node instanceof ArrayNode || node instanceof NumericRangeNode;
+    }
+
     private ArithmeticNode mapArithmeticExpressionContext(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
         if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-- 
2.43.0

