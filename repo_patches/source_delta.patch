From 1cc80365199692b89c98eb92a4423f25ab7260d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 01/80] fix: width of sized signed integer literals (8'sd5) is
 the stated size, not 32

---
 pyverilog/dataflow/dataflow.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index da85be2..f0e0819 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -172,16 +172,16 @@ class DFIntConst(DFConstant):
 
     def width(self):
         targ = self.value.replace('_', '')
-        match = re.search(r'(.+)\'[Hh].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Hh].+', targ)
         if match is not None:
             return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Dd].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Dd].+', targ)
         if match is not None:
             return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Oo].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Oo].+', targ)
         if match is not None:
             return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Bb].+', targ)
+        match = re.search(r'(.+)\'[Ss]?[Bb].+', targ)
         if match is not None:
             return int(match.group(1), 10)
         return 32
-- 
2.43.0


From 5df00946fb2b5bfdb5f98f33c7095f64fefb2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 02/80] fix: constant evaluation treats '?' digits as undefined
 instead of raising ValueError

---
 pyverilog/dataflow/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b348416..4092ee2 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -89,6 +89,8 @@ class VerilogOptimizer(object):
                 return DFUndefined(tree.width())
             if 'X' in tree.value or 'Z' in tree.value:
                 return DFUndefined(tree.width())
+            if '?' in tree.value:
+                return DFUndefined(tree.width())
             return DFEvalValue(tree.eval(), tree.width())
         if isinstance(tree, DFFloatConst):
             return DFEvalValue(tree.eval(), self.default_width, isfloat=True)
-- 
2.43.0


From f0630048ed7fc0fa028aea87789c0a928b246a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 03/80] fix: optimizer reports the Verilog width of
 comparisons, logical and reduction operators, shifts and system functions

---
 pyverilog/dataflow/optimizer.py | 35 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 4092ee2..6a05600 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -19,7 +19,10 @@ from pyverilog.dataflow.dataflow import *
 
 class VerilogOptimizer(object):
     default_width = 32
-    compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    logical_ops = ('Land', 'Lor', 'Ulnot')
+    reduction_ops = ('Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
+    leftwidth_ops = ('Sll', 'Srl', 'Sla', 'Sra', 'Power')
 
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
@@ -173,15 +176,22 @@ class VerilogOptimizer(object):
 
     def evalOperator(self, operator, nextnodes):
         valuelist = []
-        width = 0
+        widthlist = []
         for n in nextnodes:
             if not isinstance(n, DFEvalValue):
                 return None
             valuelist.append(n.value)
-            if n.width > width:
-                width = n.width
-        rslt = self._evalOperator(operator, tuple(valuelist), width)
-        return DFEvalValue(rslt, width)
+            widthlist.append(self.getWidth(n))
+        rslt = self._evalOperator(operator, tuple(valuelist), max(widthlist))
+        return DFEvalValue(rslt, self._operatorWidth(operator, widthlist))
+
+    def _operatorWidth(self, operator, widthlist):
+        if (operator in self.compare_ops or operator in self.logical_ops
+                or operator in self.reduction_ops):
+            return 1
+        if operator in self.leftwidth_ops:
+            return widthlist[0]
+        return max(widthlist)
 
     def _evalOperator(self, operator, valuelist, width=default_width):
         if operator == 'Uminus':
@@ -317,16 +327,7 @@ class VerilogOptimizer(object):
             width = abs(msb - lsb) + 1
             return width
         if isinstance(node, DFOperator):
-            if node.operator in self.compare_ops:
-                return 1
-            if node.operator == 'Land' or node.operator == 'Lor':
-                return 1
-            maxwidth = 0
-            for n in node.nextnodes:
-                width = self.getWidth(n)
-                if maxwidth < width:
-                    maxwidth = width
-            return maxwidth
+            return self._operatorWidth(node.operator, [self.getWidth(n) for n in node.nextnodes])
         if isinstance(node, DFConcat):
             sumwidth = 0
             for n in node.nextnodes:
@@ -343,7 +344,7 @@ class VerilogOptimizer(object):
                 width = abs(msb - lsb) + 1
                 return width
             return 1
-        if isinstance(tree, DFSyscall):
+        if isinstance(node, DFSyscall):
             return self.default_width
 
         raise FormatError('Illegal Pointer in getWidth()')
-- 
2.43.0


From 861cf6fa24014e808ef3b481647e366f9ffebe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 04/80] fix: constant evaluation of division, modulus, xnor,
 <<< and large powers of two is exact

---
 pyverilog/dataflow/optimizer.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 6a05600..6d8f512 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -10,7 +10,6 @@ from __future__ import absolute_import
 from __future__ import print_function
 import sys
 import os
-import math
 
 import pyverilog.utils.verror as verror
 import pyverilog.utils.signaltype as signaltype
@@ -243,17 +242,22 @@ class VerilogOptimizer(object):
         if operator == 'Times':
             return valuelist[0] * valuelist[1]
         if operator == 'Divide':
-            value = valuelist[0] / valuelist[1]
             if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
-                return int(value)
-            return value
+                # truncates toward zero
+                value = abs(valuelist[0]) // abs(valuelist[1])
+                return value if (valuelist[0] < 0) == (valuelist[1] < 0) else -value
+            return valuelist[0] / valuelist[1]
         if operator == 'Mod':
+            if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
+                # takes the sign of the first operand
+                value = abs(valuelist[0]) % abs(valuelist[1])
+                return -value if valuelist[0] < 0 else value
             return valuelist[0] % valuelist[1]
         if operator == 'Plus':
             return valuelist[0] + valuelist[1]
         if operator == 'Minus':
             return valuelist[0] - valuelist[1]
-        if operator == 'Sll':
+        if operator == 'Sll' or operator == 'Sla':
             return valuelist[0] << valuelist[1]
         if operator == 'Srl':
             return valuelist[0] >> valuelist[1]
@@ -281,7 +285,7 @@ class VerilogOptimizer(object):
         if operator == 'Xor':
             return valuelist[0] ^ valuelist[1]
         if operator == 'Xnor':
-            return ~(valuelist[0] ^ valuelist[1])
+            return ~(valuelist[0] ^ valuelist[1]) & ((1 << width) - 1)
         if operator == 'Or':
             return valuelist[0] | valuelist[1]
         if operator == 'Land':
@@ -517,10 +521,7 @@ class VerilogOptimizer(object):
     def _isPowerOf2(self, value):
         if value <= 0:
             return False
-        p = math.log(value, 2)
-        if p % 1.0 == 0:
-            return True
-        return False
+        return value & (value - 1) == 0
 
     def replaceOperator(self, node):
         if not isinstance(node, DFOperator):
@@ -529,17 +530,17 @@ class VerilogOptimizer(object):
             (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
              self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sll')
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[0], DFEvalValue) and
              isinstance(node.nextnodes[0].value, int) and
              self._isPowerOf2(node.nextnodes[0].value))):
-            return DFOperator((node.nextnodes[1], DFEvalValue(int(math.log(node.nextnodes[0].value, 2)))), 'Sll')
+            return DFOperator((node.nextnodes[1], DFEvalValue(node.nextnodes[0].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Divide'
             and (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
                  self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sra')
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sra')
         return node
 
     def mergeConcat(self, concatnode):
-- 
2.43.0


From fd2d9bb6f2cdd1346ed62bfbdaa8c158873771d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 05/80] fix: optimizer takes the right bits when selecting from
 a concatenation or a constant

---
 pyverilog/dataflow/optimizer.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 6d8f512..ab5fe6d 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -139,7 +139,7 @@ class VerilogOptimizer(object):
             var = self.optimizeConstant(tree.var)
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
-            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(msb, DFEvalValue):
+            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 evalcc = self.evalPartselect(var, msb, lsb)
                 return evalcc
             return DFPartselect(var, msb, lsb)
@@ -377,7 +377,7 @@ class VerilogOptimizer(object):
         return DFEvalValue(partval, width)
 
     def evalPointer(self, var, ptr):
-        ptrval = (var >> ptr) & 0x1
+        ptrval = (var.value >> ptr.value) & 0x1
         return DFEvalValue(ptrval, 1)
 
     def optimizeHierarchy(self, tree):
@@ -461,6 +461,7 @@ class VerilogOptimizer(object):
         widpos = 1
         widoffset = 0
         usednodes = []
+        usedwidlist = []
         lsb = -1
         msb = -1
         lsboffset = -1
@@ -473,6 +474,7 @@ class VerilogOptimizer(object):
                 use = True
             if use:
                 widsum += w
+                usedwidlist.append(w)
                 usednodes.append(self.optimizeConstant(nextnodes[-widpos]))
             if msbcut >= widoffset and msbcut < widoffset + w:
                 msb = widoffset + w - 1
@@ -489,34 +491,34 @@ class VerilogOptimizer(object):
             if lsboffset == 0:
                 return DFConcat((DFUndefined(cutwidth - widsum),) + tuple(usednodes))
             if len(usednodes) == 1:
-                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-            return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
+                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsboffset))))
+            return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsboffset))))
         if lsboffset == 0 and msboffset == 0:
             if len(usednodes) == 1:
                 return usednodes[0]
             return DFConcat(tuple(usednodes))
 
         if len(usednodes) == 1:
-            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
+            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset - lsb), DFEvalValue(lsboffset))
 
         ret_usednodes = []
         usednodes_cnt = 0
         for node in reversed(usednodes):  # from LSB
             if usednodes_cnt == 0 and lsboffset > 0:
                 lsbval = lsboffset
-                msbval = widlist[usednodes_cnt] - 1
+                msbval = usedwidlist[usednodes_cnt] - 1
                 ret_usednodes.append(self.optimizeConstant(
                     DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
             elif usednodes_cnt == len(usednodes) - 1 and msboffset > 0:
                 lsbval = 0
-                msbval = widlist[usednodes_cnt] - msboffset - 1
+                msbval = usedwidlist[usednodes_cnt] - msboffset - 1
                 ret_usednodes.append(self.optimizeConstant(
                     DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
             else:
                 ret_usednodes.append(self.optimizeConstant(node))
             usednodes_cnt += 1
         ret_usednodes.reverse()
-        return DFPartselect(DFConcat(tuple(ret_usednodes)), DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
+        return DFConcat(tuple(ret_usednodes))
 
     def _isPowerOf2(self, value):
         if value <= 0:
-- 
2.43.0


From 85082c3d321959649ccc6e5fa6fd7bd4008bba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 06/80] fix: optimizing && and || keeps a 0/1 result; ~a && a
 is only false for one-bit operands

---
 pyverilog/dataflow/optimizer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index ab5fe6d..edf510f 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -417,6 +417,8 @@ class VerilogOptimizer(object):
             ret = self.mergeIdenticalNodes(ret)
             ret = self.mergeStaticNodes(ret)
             ret = self.mergeLandLor(ret)
+            if tree.operator == 'Land' or tree.operator == 'Lor':
+                ret = self.toBoolean(ret)
             return ret
         if isinstance(tree, DFPartselect):
             msb = self.optimizeHierarchy(tree.msb)
@@ -446,6 +448,14 @@ class VerilogOptimizer(object):
 
         raise FormatError('Can not merge due to unrecognized type of tree')
 
+    def toBoolean(self, node):
+        # a logical operator yields 0 or 1, also when a single operand remains
+        if isinstance(node, DFEvalValue):
+            return DFEvalValue(1 if node.value else 0, 1)
+        if self.getWidth(node) == 1:
+            return node
+        return DFOperator((node,), 'Uor')
+
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
 
@@ -761,13 +771,13 @@ class VerilogOptimizer(object):
                 return left
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
-                if self.getWidth(node) == 1:
+                if self.getWidth(right) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
             if isinstance(right, DFOperator) and right.operator == 'Unot'\
                     and right.nextnodes[0] == left:
-                if self.getWidth(node) == 1:
+                if self.getWidth(left) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
-- 
2.43.0


From c939ac586f30e149d0823a7f94a38b8c70b9f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 07/80] fix: optimizer merges part selects only when their
 bounds are constants and reports unsupported trees properly

---
 pyverilog/dataflow/optimizer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index edf510f..3e27008 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -83,7 +83,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFHighImpedance):
             return tree
         if isinstance(tree, DFDelay):
-            raise FormatError('Can not evaluate and optimize a DFDelay')
+            raise verror.FormatError('Can not evaluate and optimize a DFDelay')
             # return tree
 
         if isinstance(tree, DFIntConst):
@@ -351,7 +351,7 @@ class VerilogOptimizer(object):
         if isinstance(node, DFSyscall):
             return self.default_width
 
-        raise FormatError('Illegal Pointer in getWidth()')
+        raise verror.FormatError('Illegal Pointer in getWidth()')
 
     def evalConcat(self, nextnodes):
         concatval = 0
@@ -364,7 +364,7 @@ class VerilogOptimizer(object):
 
     def isCondTrue(self, cond):
         if not isinstance(cond, DFEvalValue):
-            raise FormatError('Can not evaluate the branch condition.')
+            raise verror.FormatError('Can not evaluate the branch condition.')
         if cond.value == 0:
             return False
         return True
@@ -446,7 +446,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFSyscall):
             return DFSyscall(tree.syscall, tuple([self.optimizeHierarchy(n) for n in tree.nextnodes]))
 
-        raise FormatError('Can not merge due to unrecognized type of tree')
+        raise verror.FormatError('Can not merge due to unrecognized type of tree')
 
     def toBoolean(self, node):
         # a logical operator yields 0 or 1, also when a single operand remains
@@ -613,6 +613,9 @@ class VerilogOptimizer(object):
                 pass
             elif last_node.var.name != n.var.name:
                 pass
+            elif not all(isinstance(b, DFEvalValue)
+                         for b in (last_node.msb, last_node.lsb, n.msb, n.lsb)):
+                pass
             elif last_node.lsb.value == n.msb.value + 1:
                 ret_nodes.pop()
                 new_node = DFPartselect(last_node.var, last_node.msb, n.lsb)
-- 
2.43.0


From 09d75e209b5df022752c6389e48c76cedd5c8fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 08/80] fix: a conditional used as the condition of another
 conditional no longer crashes the dataflow analysis

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index cb73857..2810724 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1028,7 +1028,7 @@ class BindVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
-- 
2.43.0


From a884fd6aaa70b1a02a2c543048ab49040d1b4a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 09/80] fix: bit select with a conditional index is distributed
 over the conditional; reorder reports errors with verror

---
 pyverilog/dataflow/reorder.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index f948af2..1cb79f0 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -12,6 +12,7 @@ import sys
 import os
 import copy
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -60,7 +61,12 @@ def reorder(tree):
         resolved_lsb = reorder(tree.lsb)
         resolved_var = reorder(tree.var)
         if isinstance(resolved_msb, DFBranch) or isinstance(resolved_lsb, DFBranch):
-            raise FormatError('MSB and LSB should not be DFBranch')
+            if resolved_msb != resolved_lsb:
+                raise verror.FormatError('MSB and LSB should not be DFBranch')
+            # bit select with a conditional index
+            return DFBranch(resolved_msb.condnode,
+                            reorder(DFPartselect(resolved_var, resolved_msb.truenode, resolved_lsb.truenode)),
+                            reorder(DFPartselect(resolved_var, resolved_msb.falsenode, resolved_lsb.falsenode)))
         if isinstance(resolved_var, DFBranch):
             return insertPartselect(resolved_var, resolved_msb, resolved_lsb)
         return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
@@ -80,7 +86,7 @@ def reorder(tree):
     if isinstance(tree, DFDelay):
         return DFDelay(reorder(tree.nextnode))
 
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
 
 ############################################################################
 
-- 
2.43.0


From 631fd7000cbce795831917ab2a00aab48c146e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 10/80] fix: an assignment under several new conditions keeps
 the earlier value wherever any of them fails

---
 pyverilog/dataflow/bindvisitor.py | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 2810724..41d2f0f 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1501,10 +1501,8 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
-        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree)
-        if rest_flowlist and rest_tree is not None:
-            _rest_flowlist = rest_flowlist[:-1] + (not rest_flowlist[-1], )
-            add_tree = self.appendBranchTree(add_tree, _rest_flowlist, rest_tree)
+        # where a remaining condition does not hold, the previous value stays
+        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
@@ -1531,25 +1529,13 @@ class BindVisitor(NodeVisitor):
                 tree.falsenode, condlist[1:], flowlist[1:],
                 matchflowlist + (flowlist[0],))
 
-    def makeBranchTree(self, condlist, flowlist, node):
+    def makeBranchTree(self, condlist, flowlist, node, rest=None):
         if len(condlist) == 0 or len(flowlist) == 0:
             return node
-        if len(condlist) == 1:
-            if flowlist[0]:
-                return DFBranch(condlist[0], node, None)
-            else:
-                return DFBranch(condlist[0], None, node)
-        else:
-            if flowlist[0]:
-                return DFBranch(
-                    condlist[0],
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node),
-                    None)
-            else:
-                return DFBranch(
-                    condlist[0],
-                    None,
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node))
+        subtree = self.makeBranchTree(condlist[1:], flowlist[1:], node, rest)
+        if flowlist[0]:
+            return DFBranch(condlist[0], subtree, rest)
+        return DFBranch(condlist[0], rest, subtree)
 
     def appendBranchTree(self, base, pos, tree):
         if len(pos) == 0:
-- 
2.43.0


From 712d4461356e81684697da84e11136b5c602de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 11/80] fix: casez and unique case statements are conditional
 in the dataflow, like case

---
 pyverilog/dataflow/bindvisitor.py   | 6 ++++++
 pyverilog/dataflow/signalvisitor.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 41d2f0f..596780e 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -375,6 +375,12 @@ class BindVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist, myframes):
         if len(caselist) == 0:
             return
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e2d5251..e55842d 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -231,6 +231,12 @@ class SignalVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist):
         if len(caselist) == 0:
             return
-- 
2.43.0


From d33141157a255c05cb9113791465df6ed1cd0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 12/80] fix: a case default that is not written last no longer
 hides the items after it

---
 pyverilog/dataflow/bindvisitor.py   | 7 ++++++-
 pyverilog/dataflow/signalvisitor.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 596780e..44356bd 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -367,7 +367,7 @@ class BindVisitor(NodeVisitor):
             return
         start_frame = self.frames.getCurrent()
         caseframes = []
-        self._case(node.comp, node.caselist, caseframes)
+        self._case(node.comp, self._default_last(node.caselist), caseframes)
         self.frames.setCurrent(start_frame)
         for f in caseframes:
             self.copyBlockingAssigns(f, start_frame)
@@ -381,6 +381,11 @@ class BindVisitor(NodeVisitor):
     def visit_UniqueCaseStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def _default_last(self, caselist):
+        # the default item applies only when no other item matches, wherever it is written
+        return ([c for c in caselist if c.cond is not None] +
+                [c for c in caselist if c.cond is None])
+
     def _case(self, comp, caselist, myframes):
         if len(caselist) == 0:
             return
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e55842d..065d387 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -225,7 +225,7 @@ class SignalVisitor(NodeVisitor):
 
     def visit_CaseStatement(self, node):
         start_frame = self.frames.getCurrent()
-        self._case(node.comp, node.caselist)
+        self._case(node.comp, self._default_last(node.caselist))
         self.frames.setCurrent(start_frame)
 
     def visit_CasexStatement(self, node):
@@ -237,6 +237,11 @@ class SignalVisitor(NodeVisitor):
     def visit_UniqueCaseStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def _default_last(self, caselist):
+        # the default item applies only when no other item matches, wherever it is written
+        return ([c for c in caselist if c.cond is not None] +
+                [c for c in caselist if c.cond is None])
+
     def _case(self, comp, caselist):
         if len(caselist) == 0:
             return
-- 
2.43.0


From a5203c4a4c03647dffa64c43750e838a4f9d4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 13/80] fix: entering a branch no longer re-applies earlier
 nonblocking assignments over later ones

---
 pyverilog/dataflow/bindvisitor.py | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 44356bd..1a4c94d 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -333,8 +333,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.true_statement is not None:
             self.visit(node.true_statement)
         self.frames.setCurrent(current)
@@ -353,8 +351,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.false_statement is not None:
             self.visit(node.false_statement)
         self.frames.setCurrent(current)
@@ -410,8 +406,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(self.frames.getCurrent())
 
         if case.statement is not None:
@@ -431,8 +425,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(current + ScopeLabel(label, 'if'))
 
         self._case(comp, caselist[1:], myframes)
@@ -658,24 +650,6 @@ class BindVisitor(NodeVisitor):
             self.dataflow.addTask(name, definition.getDefinition())
             self.dataflow.addTaskPorts(name, definition.getIOPorts())
 
-    def copyPreviousNonblockingAssign(self, scope):
-        assign = self.frames.getPreviousNonblockingAssign()
-        for name, bindlist in assign.items():
-            for bind in bindlist:
-                self.frames.addNonblockingAssign(name, bind)
-                msb = bind.msb
-                lsb = bind.lsb
-                ptr = bind.ptr
-                part_msb = None
-                part_lsb = None
-                condlist, flowlist = self.getCondflow(scope)
-                alwaysinfo = bind.alwaysinfo
-                raw_tree = bind.tree
-                new_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
-                                         raw_tree, condlist, flowlist,
-                                         alwaysinfo=alwaysinfo)
-                self.dataflow.addBind(name, new_bind)
-
     def copyBlockingAssigns(self, scope_copy_from, scope_copy_to):
         assign = self.frames.getBlockingAssignsScope(scope_copy_from)
         for name, bindlist in assign.items():
-- 
2.43.0


From 2ddfc06360b35cb7d992713664f743dbbeec065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 14/80] fix: blocking assignments inside a branch no longer
 change the value its own condition reads

---
 pyverilog/dataflow/visit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index da67da3..1df7165 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -488,14 +488,14 @@ class Frame(object):
 
     def setBlockingAssign(self, dst, bind):
         if not dst in self.blockingassign:
-            self.blockingassign[dst] = (bind,)
+            self.blockingassign[dst] = (copy.copy(bind),)
             return
         current = self.blockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.blockingassign[dst][c_i].tree = bind.tree
                 return
-        self.blockingassign[dst] = current + (bind,)
+        self.blockingassign[dst] = current + (copy.copy(bind),)
 
     def getBlockingAssign(self, dst):
         if dst in self.blockingassign:
@@ -511,7 +511,7 @@ class Frame(object):
             return
         current = self.nonblockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.nonblockingassign[dst][c_i].tree = copy.deepcopy(bind.tree)
                 return
         self.nonblockingassign[dst] = current + (copy.deepcopy(bind),)
-- 
2.43.0


From df6fa2d1405e092b26da1571028015c23d67de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 15/80] fix: the temporary of a blocking assignment to a part
 of a signal holds the assigned value

---
 pyverilog/dataflow/bindvisitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 1a4c94d..6a63480 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1420,6 +1420,7 @@ class BindVisitor(NodeVisitor):
             newterm = copy.deepcopy(term)
             newterm.name = renamed_dname
             newterm.termtype = set(['Rename'])
+            newterm.dims = None
             self.dataflow.addTerm(renamed_dname, newterm)
             newd = (renamed_dname,) + d[1:]
             renamed_dst += (newd,)
@@ -1431,7 +1432,7 @@ class BindVisitor(NodeVisitor):
             if len(renamed_dst) > 1:
                 tree = reorder.reorder(
                     DFPartselect(tree, part_msb, part_lsb))
-            bind = Bind(tree, name, msb, lsb, ptr)
+            bind = Bind(tree, name)
             self.dataflow.addBind(name, bind)
 
             value = self.optimize(tree)
-- 
2.43.0


From 9e8dc57d03a58ec9aded3c82812200a491d53dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 16/80] fix: an assignment to several destinations selects each
 part once, also when it overrides an earlier one

---
 pyverilog/dataflow/bindvisitor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 6a63480..2da70d8 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1448,7 +1448,7 @@ class BindVisitor(NodeVisitor):
             renamed_term = DFTerminal(renamed_dst[term_i][0])
             renamed_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
                                          renamed_term, condlist, flowlist,
-                                         num_dst=len(dst), alwaysinfo=alwaysinfo)
+                                         alwaysinfo=alwaysinfo)
             self.dataflow.addBind(name, renamed_bind)
             self.frames.setBlockingAssign(name, renamed_bind, scope)
             term_i += 1
@@ -1487,16 +1487,17 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
+        # each of several destinations takes its own part of the assigned value
+        if num_dst > 1:
+            raw_tree = reorder.reorder(
+                DFPartselect(raw_tree, part_msb, part_lsb))
+
         # where a remaining condition does not hold, the previous value stays
         add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
 
-        if num_dst > 1:
-            tree = reorder.reorder(
-                DFPartselect(tree, part_msb, part_lsb))
-
         return Bind(tree, name, msb, lsb, ptr, alwaysinfo, bindtype)
 
     def diffBranchTree(self, tree, condlist, flowlist, matchflowlist=()):
-- 
2.43.0


From 5beb191f0f01bae1ee8d454d0a310c97346951c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 17/80] fix: merging partial drivers gives every bit its own
 driver's value, and bits without a driver those of the signal

Later drivers override earlier ones per bit, ranges are counted from the declared LSB, gaps no longer get
negative widths, holes below a condition keep the bits of the signal, and missing array elements no longer
raise KeyError.
---
 pyverilog/dataflow/merge.py | 292 ++++++++++++++++--------------------
 1 file changed, 129 insertions(+), 163 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index c3216aa..6e90695 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -13,7 +13,6 @@ import os
 
 import pyverilog.utils.verror as verror
 import pyverilog.utils.signaltype as signaltype
-import pyverilog.dataflow.reorder as reorder
 from pyverilog.dataflow.dataflow import *
 from pyverilog.dataflow.visit import *
 from pyverilog.dataflow.optimizer import VerilogOptimizer
@@ -132,31 +131,30 @@ class VerilogDataflowMerge(object):
                 return DFTerminal(termname)
 
             if isinstance(ptr, DFEvalValue):
-                if len(discretebinds[ptr.value]) == 0:
+                if ptr.value not in discretebinds:
                     return None
-                if len(discretebinds[ptr.value]) == 1:
-                    return discretebinds[ptr.value][0].tree
-                return self.getMergedTree(discretebinds[ptr.value])
+                return self.getSingleTree(discretebinds[ptr.value])
 
             minptr = min(list(discretebinds.keys()))
             maxptr = max(list(discretebinds.keys()))
             ret = None
             for c in range(minptr, maxptr + 1):
-                truetree = None
-                if len(discretebinds[c]) == 0:
+                if c not in discretebinds:
                     continue
-                if len(discretebinds[c]) == 1:
-                    truetree = discretebinds[c][0].tree
-                else:
-                    truetree = self.getMergedTree(discretebinds[c])
+                truetree = self.getSingleTree(discretebinds[c])
                 ret = DFBranch(DFOperator((DFEvalValue(c), ptr), 'Eq'), truetree, ret)
             return ret
 
-        if len(bindlist) == 1:
+        if len(bindlist) == 1 and self.isWholeBind(bindlist[0]):
             return bindlist[0].tree
         new_tree = self.getMergedTree(bindlist)
         return self.optimizer.optimize(new_tree)
 
+    def getSingleTree(self, bindlist):
+        if len(bindlist) == 1 and self.isWholeBind(bindlist[0]):
+            return bindlist[0].tree
+        return self.getMergedTree(bindlist)
+
     def getResolvedTree(self, termname, ptr=None):
         raise verror.ImplementationError()
 
@@ -277,27 +275,107 @@ class VerilogDataflowMerge(object):
             return ret
         raise verror.DefinitionError('Undefined Node Type: %s : %s' % (str(type(tree)), str(tree)))
 
+    def getTermRange(self, termname):
+        """ declared bounds of a signal """
+        term = self.getTerm(termname)
+        if term.msb is None or term.lsb is None:
+            return 0, 0
+        return (self.optimizer.optimize(term.msb).value,
+                self.optimizer.optimize(term.lsb).value)
+
+    def getTermWidth(self, termname):
+        msb, lsb = self.getTermRange(termname)
+        return abs(msb - lsb) + 1
+
+    def getBindRange(self, bind):
+        """ most and least significant bit driven by a bind, counted from the LSB of the signal """
+        term_msb, term_lsb = self.getTermRange(bind.dest)
+        if bind.msb is None or bind.lsb is None:
+            return abs(term_msb - term_lsb), 0
+        msb = self.optimizer.optimizeConstant(bind.msb)
+        lsb = self.optimizer.optimizeConstant(bind.lsb)
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            raise verror.FormatError('MSB and LSB should be constant.')
+        if term_msb >= term_lsb:
+            return msb.value - term_lsb, lsb.value - term_lsb
+        return term_lsb - msb.value, term_lsb - lsb.value
+
+    def isWholeBind(self, bind):
+        if bind.msb is None or bind.lsb is None:
+            return True
+        if (not isinstance(bind.msb, DFEvalValue) or
+                not isinstance(bind.lsb, DFEvalValue)):
+            return True
+        msb, lsb = self.getBindRange(bind)
+        return lsb == 0 and msb == self.getTermWidth(bind.dest) - 1
+
+    def getIndex(self, termname, offset):
+        """ declared index of the bit with the offset from the LSB """
+        term_msb, term_lsb = self.getTermRange(termname)
+        if term_msb >= term_lsb:
+            return term_lsb + offset
+        return term_lsb - offset
+
+    def selectBits(self, tree, msb, lsb):
+        """ bits of the value of a tree, counted from its LSB """
+        if tree is None:
+            return None
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode,
+                            self.selectBits(tree.truenode, msb, lsb),
+                            self.selectBits(tree.falsenode, msb, lsb))
+        if isinstance(tree, DFUndefined):
+            return DFUndefined(msb - lsb + 1)
+        if (isinstance(tree, DFEvalValue) and
+                not tree.isfloat and not tree.isstring):
+            width = msb - lsb + 1
+            return DFEvalValue((tree.value >> lsb) & ((1 << width) - 1), width)
+        if isinstance(tree, DFTerminal):
+            msb = self.getIndex(tree.name, msb)
+            lsb = self.getIndex(tree.name, lsb)
+        return DFPartselect(tree, DFEvalValue(msb), DFEvalValue(lsb))
+
+    def fitTree(self, tree, width, hold):
+        """ tree with exactly the stated width, where hold is the value if nothing is assigned """
+        if tree is None:
+            return hold
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode,
+                            self.fitTree(tree.truenode, width, hold),
+                            self.fitTree(tree.falsenode, width, hold))
+        tree_width = self.optimizer.getWidth(tree)
+        if tree_width == width:
+            return tree
+        if (tree_width < width and
+                not isinstance(tree, (DFOperator, DFEvalValue, DFUndefined))):
+            return DFConcat((DFEvalValue(0, width - tree_width), tree))
+        return self.selectBits(tree, width - 1, 0)
+
     def getMergedTree(self, optimized_bindlist):
-        concatlist = []
-        last_msb = -1
-        last_ptr = -1
+        dest = DFTerminal(optimized_bindlist[0].dest)
+        if isinstance(optimized_bindlist[0].ptr, DFEvalValue):
+            dest = DFPointer(dest, optimized_bindlist[0].ptr)
 
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = abs(self.optimizer.optimize(term.msb).value -
-                         self.optimizer.optimize(term.lsb).value) + 1
-            return ptr * length + lsb
-        for bind in sorted(optimized_bindlist, key=bindkey):
-            lsb = 0 if bind.lsb is None else bind.lsb.value
-            if last_ptr != (-1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value):
+        def hold(msb, lsb):  # bits without a driver are those of the signal itself
+            return DFPartselect(dest,
+                                DFEvalValue(self.getIndex(optimized_bindlist[0].dest, msb)),
+                                DFEvalValue(self.getIndex(optimized_bindlist[0].dest, lsb)))
+
+        concatlist = []
+        next_lsb = 0
+        for bind in sorted(optimized_bindlist, key=lambda x: self.getBindRange(x)[1]):
+            msb, lsb = self.getBindRange(bind)
+            if lsb < next_lsb:
                 continue
-            if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
-            concatlist.append(bind.tree)
-            last_msb = -1 if bind.msb is None else bind.msb.value
-            last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
+            if next_lsb < lsb:
+                concatlist.append(hold(lsb - 1, next_lsb))
+            concatlist.append(self.fitTree(bind.tree, msb - lsb + 1, hold(msb, lsb)))
+            next_lsb = msb + 1
+        width = self.getTermWidth(optimized_bindlist[0].dest)
+        if next_lsb < width:
+            concatlist.append(hold(width - 1, next_lsb))
+        if len(concatlist) == 1:
+            return concatlist[0]
         return DFConcat(tuple(reversed(concatlist)))
 
     def getOptimizedBindlist(self, bindlist):
@@ -323,37 +401,20 @@ class VerilogDataflowMerge(object):
 
     def mergeBindlist(self, bindlist):
         merged_bindlist = []
-        last_bind = None
 
         def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
             ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = abs(self.optimizer.optimize(term.msb).value -
-                         self.optimizer.optimize(term.lsb).value) + 1
-            return ptr * length + lsb
+            return ptr * self.getTermWidth(x.dest) + self.getBindRange(x)[1]
 
         for bind in sorted(bindlist, key=bindkey):
-            if last_bind is None:
-                merged_bindlist.append(copy.deepcopy(bind))
-                last_bind = copy.deepcopy(bind)
-            elif isinstance(last_bind.ptr, DFEvalValue) and isinstance(bind.ptr, DFEvalValue) and last_bind.ptr.value != bind.ptr.value:
-                merged_bindlist.append(copy.deepcopy(bind))
-                last_bind = copy.deepcopy(bind)
-            elif last_bind.lsb is None or bind.lsb is None or last_bind is None or bind.msb is None:
-                merged_bindlist.append(copy.deepcopy(bind))
-                last_bind = copy.deepcopy(bind)
-            elif last_bind.lsb.value == bind.lsb.value and last_bind.msb.value == bind.msb.value:
+            last_bind = merged_bindlist[-1] if merged_bindlist else None
+            if (last_bind is not None and last_bind.ptr == bind.ptr and
+                    (bind.ptr is None or isinstance(bind.ptr, DFEvalValue)) and
+                    self.getBindRange(last_bind) == self.getBindRange(bind)):
                 new_tree = self.mergeTree(last_bind.tree, bind.tree)
-                new_tree = self.optimizer.optimize(new_tree)
-                merged_bindlist.pop()
-                new_bind = copy.deepcopy(bind)
-                new_bind.tree = new_tree
-                merged_bindlist.append(new_bind)
-                last_bind = copy.deepcopy(new_bind)
+                last_bind.tree = self.optimizer.optimize(new_tree)
             else:
                 merged_bindlist.append(copy.deepcopy(bind))
-                last_bind = copy.deepcopy(bind)
         return tuple(merged_bindlist)
 
     def mergeTree(self, first, second):
@@ -376,9 +437,7 @@ class VerilogDataflowMerge(object):
             return second
 
         if isinstance(first, DFBranch) and not isinstance(second, DFBranch):
-            cond_fst = self.optimizer.optimize(first.condnode)
-            appended = copy.deepcopy(second)
-            return DFBranch(cond_fst, self.appendTail(appended, first.truenode), self.appendTail(appended, first.falsenode))
+            return second
         if not isinstance(first, DFBranch) and isinstance(second, DFBranch):
             cond_snd = self.optimizer.optimize(second.condnode)
             appended = copy.deepcopy(first)
@@ -411,119 +470,26 @@ class VerilogDataflowMerge(object):
         return ret + self.splitBindPositions(bind_left, split_positions[1:])
 
     def splitBind(self, bind, splitpos):
-        tree = bind.tree
-        msb = self.optimizer.optimizeConstant(bind.msb)
-        lsb = self.optimizer.optimizeConstant(bind.lsb)
-        ptr = self.optimizer.optimizeConstant(bind.ptr)
-        if ptr is not None and msb is None or lsb is None:
-            if self.getTermDims(bind.dest) is not None:
-                msb = self.optimizer.optimizeConstant(copy.deepcopy(term.msb))
-                lsb = self.optimizer.optimizeConstant(copy.deepcopy(term.lsb))
-            else:
-                msb = copy.deepcopy(ptr)
-                lsb = copy.deepcopy(ptr)
-        if ptr is None and msb is None or lsb is None:
-            term = self.getTerm(bind.dest)
-            msb = self.optimizer.optimizeConstant(copy.deepcopy(term.msb))
-            lsb = self.optimizer.optimizeConstant(copy.deepcopy(term.lsb))
-        if splitpos > lsb.value and splitpos <= msb.value:  # split
-            right_lsb = lsb.value
-            right_msb = splitpos - 1
-            right_width = splitpos - lsb.value
-            left_lsb = splitpos
-            left_msb = msb.value
-            left_width = msb.value - splitpos + 1
-            right_tree = reorder.reorder(DFPartselect(copy.deepcopy(
-                tree), DFEvalValue(right_width - 1), DFEvalValue(0)))
-            left_tree = reorder.reorder(DFPartselect(copy.deepcopy(tree), DFEvalValue(
-                msb.value), DFEvalValue(msb.value - left_width + 1)))
-            right_tree = self.optimizer.optimize(right_tree)
-            left_tree = self.optimizer.optimize(left_tree)
+        msb, lsb = self.getBindRange(bind)
+        if splitpos > lsb and splitpos <= msb:  # split
+            tree = self.fitTree(bind.tree, msb - lsb + 1, None)
             left_bind = copy.deepcopy(bind)
-            left_bind.tree = left_tree
-            left_bind.msb = DFEvalValue(left_msb)
-            left_bind.lsb = DFEvalValue(left_lsb)
+            left_bind.tree = self.optimizer.optimize(
+                self.selectBits(tree, msb - lsb, splitpos - lsb))
+            left_bind.msb = DFEvalValue(self.getIndex(bind.dest, msb))
+            left_bind.lsb = DFEvalValue(self.getIndex(bind.dest, splitpos))
             right_bind = copy.deepcopy(bind)
-            right_bind.tree = right_tree
-            right_bind.msb = DFEvalValue(right_msb)
-            right_bind.lsb = DFEvalValue(right_lsb)
+            right_bind.tree = self.optimizer.optimize(
+                self.selectBits(tree, splitpos - 1 - lsb, 0))
+            right_bind.msb = DFEvalValue(self.getIndex(bind.dest, splitpos - 1))
+            right_bind.lsb = DFEvalValue(self.getIndex(bind.dest, lsb))
             return left_bind, right_bind
         return bind, None
 
     def splitPositions(self, bindlist):
         split_positions = set([])
-        assigned_range = []  # (msb, lsb, ptr)
-
         for bind in bindlist:
-            ptr = self.optimizer.optimizeConstant(bind.ptr)
-            msb = self.optimizer.optimizeConstant(bind.msb)
-            lsb = self.optimizer.optimizeConstant(bind.lsb)
-            if msb is None and lsb is None:
-                term = self.getTerm(bind.dest)
-                msb = self.optimizer.optimizeConstant(term.msb)
-                lsb = self.optimizer.optimizeConstant(term.lsb)
-            elif not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
-                raise FormatError('MSB and LSB should be constant.')
-
-            if ptr is None or isinstance(ptr, DFEvalValue):
-                ptrval = None if ptr is None else ptr.value
-                matched_range = self.matchedRange(
-                    tuple(assigned_range), msb.value, lsb.value, ptrval)
-                unmatched_range = self.unmatchedRange(
-                    tuple(matched_range), msb.value, lsb.value, ptrval)
-                split_positions |= self.getPositionsFromRange(matched_range, ptrval)
-                assigned_range += matched_range + unmatched_range
-
+            msb, lsb = self.getBindRange(bind)
+            split_positions.add(lsb)
+            split_positions.add(msb + 1)
         return tuple(sorted(list(split_positions)))
-
-    def getPositionsFromRange(self, matched_range, search_ptr):
-        positions = set([])
-        for msb, lsb, ptr in matched_range:
-            if search_ptr is not None and search != ptr:
-                continue
-            positions.add(lsb)
-            positions.add(msb + 1)
-        return positions
-
-    def matchedRange(self, assigned_range, search_msb, search_lsb, search_ptr):
-        matched_range = []
-        for msb, lsb, ptr in assigned_range:
-            match = False
-            if search_ptr is not None and ptr != search_ptr:
-                continue
-            if lsb <= search_lsb and search_lsb <= msb:
-                match = True
-                match_lsb = search_lsb
-            else:
-                match_lsb = lsb
-            if lsb <= search_msb and search_msb <= msb:
-                match = True
-                match_msb = search_msb
-            else:
-                match_msb = msb
-            if match:
-                matched_range.append((match_msb, match_lsb, search_ptr))
-        return tuple(matched_range)
-
-    def unmatchedRange(self, matched_range, search_msb, search_lsb, search_ptr):
-        unmatched_range = []
-        minval = None
-        maxval = None
-        last_msb = None
-        for msb, lsb, ptr in sorted(matched_range, key=lambda x: x[0]):
-            if search_ptr is not None and ptr != search_ptr:
-                continue
-            if minval is None or lsb < minval:
-                minval = lsb
-            if maxval is None or msb > maxval:
-                maxval = msb
-            if last_msb is not None and last_msb + 1 > lsb:
-                unmatched_range.append((last_msb + 1, lsb - 1, ptr))
-            last_msb = msb
-        if minval is None and maxval is None:
-            return ((search_msb, search_lsb, search_ptr), )
-        if search_lsb < minval:
-            unmatched_range.append((search_lsb, minval - 1, search_ptr))
-        if maxval < search_msb:
-            unmatched_range.append((maxval + 1, search_msb, search_ptr))
-        return tuple(unmatched_range)
-- 
2.43.0


From ab9d025bc546e9f15ac7f0fce8e48ca71b4c4388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 18/80] fix: the part of a terminal assigned to one of several
 destinations honours its declared range and width

---
 pyverilog/dataflow/bindvisitor.py | 63 ++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 2da70d8..cdeb12c 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1307,6 +1307,61 @@ class BindVisitor(NodeVisitor):
 
         return tuple(ret)
 
+    def selectPart(self, tree, msb, lsb):
+        """ bits of the value of a tree, counted from its LSB """
+        tree = reorder.reorder(tree)
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode,
+                            self.selectPart(tree.truenode, msb, lsb),
+                            self.selectPart(tree.falsenode, msb, lsb))
+        width = self.getTreeWidth(tree)
+        msb_value = self.optimize(msb)
+        lsb_value = self.optimize(lsb)
+        if (width is not None and isinstance(msb_value, DFEvalValue) and
+                isinstance(lsb_value, DFEvalValue)):
+            # the value is extended with zeros
+            if lsb_value.value >= width:
+                return DFIntConst('0')
+            if msb_value.value >= width:
+                msb = DFIntConst(str(width - 1))
+        if isinstance(tree, DFTerminal):
+            term_msb, term_lsb = self.getTermBounds(tree.name)
+            if term_msb is not None and term_msb < term_lsb:
+                msb = reorder.reorder(DFOperator((DFIntConst(str(term_lsb)), msb), 'Minus'))
+                lsb = reorder.reorder(DFOperator((DFIntConst(str(term_lsb)), lsb), 'Minus'))
+            elif term_msb is not None and term_lsb != 0:
+                msb = reorder.reorder(DFOperator((msb, DFIntConst(str(term_lsb))), 'Plus'))
+                lsb = reorder.reorder(DFOperator((lsb, DFIntConst(str(term_lsb))), 'Plus'))
+        return reorder.reorder(DFPartselect(tree, msb, lsb))
+
+    def getTermBounds(self, name):
+        msb, lsb = self.getTermWidth(name)
+        msb = self.optimize(msb)
+        lsb = self.optimize(lsb)
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            return None, None
+        return msb.value, lsb.value
+
+    def getTreeWidth(self, tree):
+        """ width of a self-determined tree, None if unknown or context-determined """
+        if isinstance(tree, DFIntConst):
+            return tree.width()
+        if isinstance(tree, DFTerminal):
+            msb, lsb = self.getTermBounds(tree.name)
+            return None if msb is None else abs(msb - lsb) + 1
+        if isinstance(tree, DFPartselect):
+            msb = self.optimize(tree.msb)
+            lsb = self.optimize(tree.lsb)
+            if tree.msb == tree.lsb:
+                return 1
+            if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+                return None
+            return abs(msb.value - lsb.value) + 1
+        if isinstance(tree, DFConcat):
+            widths = [self.getTreeWidth(n) for n in tree.nextnodes]
+            return None if None in widths else sum(widths)
+        return None
+
     def getDsts(self, left, scope):
         if isinstance(left, Lvalue):
             return self.getDsts(left.var, scope)
@@ -1404,7 +1459,7 @@ class BindVisitor(NodeVisitor):
                              part_msb, part_lsb, alwaysinfo):
         tree = raw_tree
         if len(dst) > 1:
-            tree = reorder.reorder(DFPartselect(raw_tree, part_msb, part_lsb))
+            tree = self.selectPart(raw_tree, part_msb, part_lsb)
         bind = Bind(tree, name, msb, lsb, ptr, alwaysinfo)
         self.frames.addNonblockingAssign(name, bind)
 
@@ -1430,8 +1485,7 @@ class BindVisitor(NodeVisitor):
         for name, msb, lsb, ptr, part_msb, part_lsb in renamed_dst:
             tree = raw_tree
             if len(renamed_dst) > 1:
-                tree = reorder.reorder(
-                    DFPartselect(tree, part_msb, part_lsb))
+                tree = self.selectPart(tree, part_msb, part_lsb)
             bind = Bind(tree, name)
             self.dataflow.addBind(name, bind)
 
@@ -1489,8 +1543,7 @@ class BindVisitor(NodeVisitor):
 
         # each of several destinations takes its own part of the assigned value
         if num_dst > 1:
-            raw_tree = reorder.reorder(
-                DFPartselect(raw_tree, part_msb, part_lsb))
+            raw_tree = self.selectPart(raw_tree, part_msb, part_lsb)
 
         # where a remaining condition does not hold, the previous value stays
         add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
-- 
2.43.0


From 32b51ed2066c992a78162873d29397c12b08aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 19/80] fix: reading a partly assigned signal later in the same
 block sees the assigned bits and keeps the others

---
 pyverilog/dataflow/bindvisitor.py | 54 ++++++++++++-------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index cdeb12c..eb97f9c 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -22,6 +22,7 @@ from pyverilog.utils.scope import ScopeLabel, ScopeChain
 from pyverilog.dataflow.dataflow import *
 from pyverilog.dataflow.visit import *
 from pyverilog.dataflow.optimizer import VerilogOptimizer
+from pyverilog.dataflow.merge import VerilogDataflowMerge
 import pyverilog.dataflow.reorder as reorder
 import pyverilog.dataflow.replace as replace
 
@@ -1165,8 +1166,7 @@ class BindVisitor(NodeVisitor):
         return tuple(reversed(resolved_condlist))
 
     def removeOverwrappedCondition(self, tree, current_bindlist, scope):
-        msb, lsb = self.getTermWidth(tree.name)
-        merged_tree = self.getFitTree(current_bindlist, msb, lsb)
+        merged_tree = self.getFitTree(tree.name, current_bindlist)
         condlist, flowlist = self.getCondflow(scope)
         (merged_tree,
          rest_condlist,
@@ -1251,40 +1251,28 @@ class BindVisitor(NodeVisitor):
         raise verror.FormatError("unsupported DFNode type: %s %s" %
                                  (str(type(tree)), str(tree)))
 
-    def getFitTree(self, bindlist, msb, lsb):
-        optimized_msb = self.optimize(msb)
-        optimized_lsb = self.optimize(lsb)
-        for bind in bindlist:
+    def getFitTree(self, name, bindlist):
+        if len(bindlist) == 1:
+            bind = bindlist[0]
+            msb, lsb = self.getTermWidth(name)
             if bind.msb is None and bind.lsb is None:
                 return bind.tree
-            if (self.optimize(bind.msb) == optimized_msb and
-                    self.optimize(bind.lsb) == optimized_lsb):
+            if (self.optimize(bind.msb) == self.optimize(msb) and
+                    self.optimize(bind.lsb) == self.optimize(lsb)):
                 return bind.tree
-        return self.getMergedTree(bindlist)
-
-    def getMergedTree(self, bindlist):
-        concatlist = []
-        last_msb = -1
-        last_ptr = -1
-
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = (abs(self.optimize(term.msb).value
-                          - self.optimize(term.lsb).value) + 1)
-            return ptr * length + lsb
-        for bind in sorted(bindlist, key=bindkey):
-            lsb = 0 if bind.lsb is None else bind.lsb.value
-            if last_ptr != (-1 if not isinstance(bind.ptr, DFEvalValue)
-                            else bind.ptr.value):
-                continue
-            if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
-            concatlist.append(bind.tree)
-            last_msb = -1 if bind.msb is None else bind.msb.value
-            last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
-        return DFConcat(tuple(reversed(concatlist)))
+        return self.getMergedTree(name, bindlist)
+
+    def getMergedTree(self, name, bindlist):
+        constlist = {}
+        for const_name, value in self.optimizer.getConstlist().items():
+            termtype = self.getTermtype(const_name)
+            if (signaltype.isParameter(termtype) or
+                    signaltype.isLocalparam(termtype) or
+                    signaltype.isGenvar(termtype)):
+                constlist[const_name] = value
+        terms = self.dataflow.terms
+        merge = VerilogDataflowMerge(self.top, terms, {}, terms, {name: bindlist}, constlist)
+        return merge.getTree(name)
 
     def getDestinations(self, left, scope):
         ret = []
-- 
2.43.0


From f97f99952938ac67d85fd43fb74c865191442c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 20/80] fix: conditional as the condition of a conditional in a
 constant expression

---
 pyverilog/dataflow/signalvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 065d387..2ffc66a 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -511,7 +511,7 @@ class SignalVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
-- 
2.43.0


From 6ca370b4fe3dfa8af4aeaea3bbbdf5651a5e6c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 21/80] fix: $signed and $unsigned in constant expressions

---
 pyverilog/dataflow/signalvisitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 2ffc66a..57dc943 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -561,9 +561,9 @@ class SignalVisitor(NodeVisitor):
 
         if isinstance(node, SystemCall):
             if node.syscall == 'unsigned':
-                return self.makeDFTree(node.args[0])
+                return self.makeDFTree(node.args[0], scope)
             if node.syscall == 'signed':
-                return self.makeDFTree(node.args[0])
+                return self.makeDFTree(node.args[0], scope)
             return DFIntConst('0')
 
         raise verror.FormatError("unsupported AST node type: %s %s" %
-- 
2.43.0


From f4f55664722e22b342647279dd2762df884dae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 22/80] fix: instances of modules whose parameters have a range

---
 pyverilog/dataflow/signalvisitor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 57dc943..bf92f7c 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -382,9 +382,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError("Multiple definitions for Constant")
             for definition in definitions:
                 simple_definition = copy.deepcopy(definition)
-                if simple_definition.width is not None:
-                    simple_definition.width.msb = None
-                    simple_definition.width.lsb = None
+                simple_definition.width = None
                 term = self.makeConstantTerm(name, simple_definition, current)
                 self.setConstantTerm(name, term)
 
-- 
2.43.0


From 33465dff7a6c5718104985f327fcae07c0959702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 23/80] fix: width of a constant whose range is ascending

---
 pyverilog/dataflow/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 3e27008..2414a58 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -124,7 +124,7 @@ class VerilogOptimizer(object):
                 msb_val = self.optimizeConstant(msb)
                 lsb_val = self.optimizeConstant(lsb)
                 if isinstance(msb_val, DFEvalValue) and isinstance(lsb_val, DFEvalValue):
-                    constwidth = msb_val.value - lsb_val.value + 1
+                    constwidth = abs(msb_val.value - lsb_val.value) + 1
             return DFEvalValue(const.value, constwidth)
 
         if isinstance(tree, DFConcat):
-- 
2.43.0


From 582812976ac976a2b59c37e200097f8806612120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 24/80] fix: a genvar in the range of a signal declared in a
 generate loop

---
 pyverilog/dataflow/bindvisitor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index eb97f9c..d4e43aa 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -847,17 +847,17 @@ class BindVisitor(NodeVisitor):
         termtypes = set([termtype])
 
         if isinstance(node, (Parameter, Localparam)):
-            msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
+            msb = DFIntConst('31') if node.width is None else self.makeBound(node.width.msb, scope)
         else:
-            msb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.msb, scope)
-        lsb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.lsb, scope)
+            msb = DFIntConst('0') if node.width is None else self.makeBound(node.width.msb, scope)
+        lsb = DFIntConst('0') if node.width is None else self.makeBound(node.width.lsb, scope)
 
         dims = None
         if node.dimensions is not None:
             dims = []
             for length in node.dimensions.lengths:
-                l = self.makeDFTree(length.msb, scope)
-                r = self.makeDFTree(length.lsb, scope)
+                l = self.makeBound(length.msb, scope)
+                r = self.makeBound(length.lsb, scope)
                 dims.append((l, r))
             dims = tuple(dims)
 
@@ -865,6 +865,10 @@ class BindVisitor(NodeVisitor):
         self.dataflow.addTerm(name, term)
         self.setConstantTerm(name, term)
 
+    def makeBound(self, node, scope):
+        # a genvar in a range stands for its value in this iteration
+        return self.resolveBlockingAssign(self.makeDFTree(node, scope), scope)
+
     def addBind(self, left, right, alwaysinfo=None, bindtype=None):
         if self.frames.isFunctiondef() and not self.frames.isFunctioncall():
             return
-- 
2.43.0


From 12cf2826e8357d79f57a5736dbbeef5ef0e5a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 25/80] fix: output ports connected to a concatenation

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index d4e43aa..88c3e70 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1357,7 +1357,7 @@ class BindVisitor(NodeVisitor):
     def getDsts(self, left, scope):
         if isinstance(left, Lvalue):
             return self.getDsts(left.var, scope)
-        if isinstance(left, LConcat):
+        if isinstance(left, (LConcat, Concat)):
             dst = []
             for n in left.list:
                 dst.extend(list(self.getDsts(n, scope)))
-- 
2.43.0


From 623a6f8d4b8b3bc2d0b5aecef43283dcf34634f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 26/80] fix: connections of arrays of instances and gates

---
 pyverilog/dataflow/bindvisitor.py   | 146 ++++++++++++++++++++--------
 pyverilog/dataflow/signalvisitor.py |   2 +-
 2 files changed, 106 insertions(+), 42 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 88c3e70..60d9fc4 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -145,15 +145,16 @@ class BindVisitor(NodeVisitor):
         current = self.frames.getCurrent()
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
-        num_of_pins = msb + 1 - lsb
 
-        for i in range(lsb, msb + 1):
+        # from the rightmost instance, which is connected to the LSBs
+        indices = range(lsb, msb + 1) if msb >= lsb else range(lsb, msb - 1, -1)
+        for position, i in enumerate(indices):
             nodename = node.name + '_' + str(i)
-            self._visit_Instance_body(node, nodename, arrayindex=i)
+            self._visit_Instance_body(node, nodename, arraypos=position)
 
-    def _visit_Instance_body(self, node, nodename, arrayindex=None):
+    def _visit_Instance_body(self, node, nodename, arraypos=None):
         if node.module in primitives:
-            return self._visit_Instance_primitive(node, arrayindex)
+            return self._visit_Instance_primitive(node, arraypos)
 
         if nodename == '':
             raise verror.FormatError("Module %s requires an instance name" % node.module)
@@ -181,7 +182,7 @@ class BindVisitor(NodeVisitor):
             if port.portname is not None and not (port.portname in ioports):
                 raise verror.FormatError("No such port: %s in %s" %
                                          (port.argname.name, nodename))
-            self.addInstancePortBind(port, ioports[ioport_i], arrayindex)
+            self.addInstancePortBind(port, ioports[ioport_i], arraypos)
 
         new_current = self.frames.getCurrent()
         self.copyFrameInfo(new_current)
@@ -189,23 +190,28 @@ class BindVisitor(NodeVisitor):
         self.visit(self.moduleinfotable.getDefinition(node.module))
         self.frames.setCurrent(current)
 
-    def _visit_Instance_primitive(self, node, arrayindex=None):
+    def _visit_Instance_primitive(self, node, arraypos=None):
         primitive_type = primitives[node.module]
-        left = node.portlist[0].argname
-        if arrayindex is not None:
-            left = Pointer(left, IntConst(str(arrayindex)))
-        right = None
-        if primitive_type == None:
-            right = (Pointer(node.portlist[1].argname, IntConst('0')) if arrayindex is None else
-                     Pointer(node.portlist[1].argname, IntConst(str(arrayindex))))
+        scope = self.frames.getCurrent()
+        dst = self.getDestinations(node.portlist[0].argname, scope)
+        if arraypos is not None:
+            dst = self.selectDestinations(dst, 1, arraypos)
+        inputs = []
+        for p in node.portlist[1:]:
+            tree = self.getTree(p.argname, scope)
+            shared = arraypos is None or self.getConnectionWidth(tree) == 1
+            bit = DFIntConst('0' if shared else str(arraypos))
+            inputs.append(self.selectPart(tree, bit, bit))
+        if primitive_type is None:
+            right = inputs[0]
         elif primitive_type == Unot:
-            right = (Ulnot(Pointer(node.portlist[1].argname, IntConst('0'))) if arrayindex is None else
-                     Ulnot(Pointer(node.portlist[1].argname, IntConst(str(arrayindex)))))
+            right = DFOperator((inputs[0],), 'Ulnot')
         else:
-            concat_list = ([Pointer(p.argname, IntConst('0')) for p in node.portlist[1:]] if arrayindex is None else
-                           [Pointer(p.argname, IntConst(str(arrayindex))) for p in node.portlist[1:]])
-            right = primitive_type(Concat(concat_list))
-        self.addBind(left, right, bindtype='assign')
+            right = DFOperator((DFConcat(tuple(inputs)),), primitive_type.__name__)
+        if not self.noreorder:
+            right = reorder.reorder(right)
+        condlist, flowlist = self.getCondflow(scope)
+        self.setDataflow(dst, right, condlist, flowlist, bindtype='assign')
 
     def visit_Initial(self, node):
         pass
@@ -891,38 +897,96 @@ class BindVisitor(NodeVisitor):
 
         self.addDataflow(dst, param.argname, lscope, rscope, None, 'parameter')
 
-    def addInstancePortBind(self, port, instportname=None, arrayindex=None):
+    def addInstancePortBind(self, port, instportname=None, arraypos=None):
         lscope = self.frames.getCurrent()
         rscope = lscope[:-1]
         portname = instportname if port.portname is None else port.portname
         ldst = self.getDestinations(portname, lscope)
         if ldst[0][0] is None:
             raise verror.DefinitionError('No such port: %s' % portname)
+        if port.argname is None:
+            return
 
         termtype = self.getTermtype(ldst[0][0])
         for t in termtype:
-            if t == 'Input':
-                if port.argname is None:
-                    continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
-                self.addDataflow(ldst, portarg, lscope, rscope)
-            elif t == 'Output':
-                if port.argname is None:
-                    continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
-                rdst = self.getDestinations(portarg, rscope)
-                self.addDataflow(rdst, portname, rscope, lscope)
-            elif t == 'Inout':
-                if port.argname is None:
-                    continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
-                self.addDataflow(ldst, portarg, lscope, rscope)
-                rdst = self.getDestinations(portarg, rscope)
+            if t == 'Input' or t == 'Inout':
+                tree = self.getTree(port.argname, rscope)
+                if arraypos is not None:
+                    tree = self.selectConnection(tree, self.getPortWidth(ldst[0][0], lscope), arraypos)
+                condlist, flowlist = self.getCondflow(lscope)
+                self.setDataflow(ldst, tree, condlist, flowlist)
+            if t == 'Output' or t == 'Inout':
+                rdst = self.getDestinations(port.argname, rscope)
+                if arraypos is not None:
+                    rdst = self.selectDestinations(rdst, self.getPortWidth(ldst[0][0], lscope), arraypos)
                 self.addDataflow(rdst, portname, rscope, lscope)
 
+    def getPortWidth(self, name, scope):
+        for definition in self.frames.getSignals(scope)[name]:
+            if definition.width is not None:
+                msb = self.optimize(self.makeBound(definition.width.msb, scope))
+                lsb = self.optimize(self.makeBound(definition.width.lsb, scope))
+                if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+                    return None
+                return abs(msb.value - lsb.value) + 1
+        return 1
+
+    def selectConnection(self, tree, width, arraypos):
+        """ part of a connected expression for a port of one instance in an array """
+        if width is None or self.getConnectionWidth(tree) == width:
+            return tree
+        lsb = width * arraypos
+        return self.selectPart(tree, DFIntConst(str(lsb + width - 1)), DFIntConst(str(lsb)))
+
+    def selectDestinations(self, dst, width, arraypos):
+        """ part of the destinations of a port of one instance in an array """
+        widths = [self.getDstWidth(d) for d in dst]
+        if width is None or None in widths or sum(widths) == width:
+            return dst
+        ret = []
+        offset = 0
+        first = width * arraypos
+        for (name, msb, lsb, ptr, part_msb, part_lsb), dst_width in zip(dst, widths):
+            low = max(first, offset) - offset
+            high = min(first + width, offset + dst_width) - offset - 1
+            part_lsb = offset + low - first
+            offset += dst_width
+            if low > high:
+                continue
+            if msb is None and lsb is None:
+                msb, lsb = self.getTermWidth(name)
+            msb = self.optimize(msb).value
+            lsb = self.optimize(lsb).value
+            msb, lsb = (lsb + high, lsb + low) if msb >= lsb else (lsb - high, lsb - low)
+            ret.append((name, DFEvalValue(msb), DFEvalValue(lsb), ptr,
+                        DFIntConst(str(part_lsb + high - low)), DFIntConst(str(part_lsb))))
+        return tuple(ret)
+
+    def getDstWidth(self, dst):
+        name, msb, lsb = dst[:3]
+        if msb is None and lsb is None:
+            msb, lsb = self.getTermWidth(name)
+        msb = self.optimize(msb)
+        lsb = self.optimize(lsb)
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            return 1 if msb == lsb else None
+        return abs(msb.value - lsb.value) + 1
+
+    def getConnectionWidth(self, tree):
+        if isinstance(tree, DFBranch):
+            nodes = (tree.truenode, tree.falsenode)
+        elif not isinstance(tree, DFOperator):
+            return self.getTreeWidth(tree)
+        elif signaltype.isCompare(tree.operator) or tree.operator in (
+                'Land', 'Lor', 'Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor'):
+            return 1
+        elif tree.operator in ('Sll', 'Srl', 'Sla', 'Sra', 'Power'):
+            nodes = tree.nextnodes[:1]
+        else:
+            nodes = tree.nextnodes
+        widths = [self.getConnectionWidth(n) for n in nodes]
+        return None if None in widths else max(widths)
+
     def addDataflow(self, dst, right, lscope, rscope, alwaysinfo=None, bindtype=None):
         condlist, flowlist = self.getCondflow(lscope)
         raw_tree = self.getTree(right, rscope)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index bf92f7c..e232996 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -122,7 +122,7 @@ class SignalVisitor(NodeVisitor):
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
 
-        for i in range(lsb, msb + 1):
+        for i in range(min(msb, lsb), max(msb, lsb) + 1):
             nodename = node.name + '_' + str(i)
             self._visit_Instance_body(node, nodename)
 
-- 
2.43.0


From a0c2efff5221f9c19c48a9120f29e39d4d7d3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 27/80] fix: blocking assignments in functions called outside
 of always blocks

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 pyverilog/dataflow/visit.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 60d9fc4..dab424f 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -549,7 +549,7 @@ class BindVisitor(NodeVisitor):
 
         self.generic_visit(node)
         self.frames.setCurrent(current)
-        if self.frames.isAlways():
+        if self.frames.isAlways() or self.frames.isFunctioncall():
             self.copyBlockingAssigns(current + ScopeLabel(label, 'block'), current)
 
     def visit_Assign(self, node):
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 1df7165..3291bb2 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -784,7 +784,7 @@ class FrameTable(object):
 
     def getBlockingAssign(self, dst, scope):
         p = scope
-        while self.dict[p].isAlways():
+        while self.dict[p].isAlways() or self.dict[p].isFunctioncall():
             ret = self.dict[p].getBlockingAssign(dst)
             if ret:
                 return ret
-- 
2.43.0


From 648dedeee339423a282b9b87d63ba8b327304acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 28/80] fix: error reports for wrong arguments and port names

---
 pyverilog/dataflow/bindvisitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index dab424f..986ce15 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -181,7 +181,7 @@ class BindVisitor(NodeVisitor):
         for ioport_i, port in enumerate(node.portlist):
             if port.portname is not None and not (port.portname in ioports):
                 raise verror.FormatError("No such port: %s in %s" %
-                                         (port.argname.name, nodename))
+                                         (port.portname, nodename))
             self.addInstancePortBind(port, ioports[ioport_i], arraypos)
 
         new_current = self.frames.getCurrent()
@@ -1155,7 +1155,7 @@ class BindVisitor(NodeVisitor):
 
             if len(funcports) != len(funcargs):
                 raise verror.FormatError("%s takes exactly %d arguments. (%d given)" %
-                                         (func.name.name, len(funcports), len(funcargs)))
+                                         (func.name, len(funcports), len(funcargs)))
             for port in funcports:
                 self.addTerm(Wire(port.name, port.width))
 
@@ -1191,7 +1191,7 @@ class BindVisitor(NodeVisitor):
 
             if len(taskports) != len(taskargs):
                 raise verror.FormatError("%s takes exactly %d arguments. (%d given)" %
-                                         (task.name.name, len(taskports), len(taskargs)))
+                                         (task.name, len(taskports), len(taskargs)))
             for port in taskports:
                 self.addTerm(Wire(port.name, port.width))
 
-- 
2.43.0


From 233517c61240a17ade6c26e3fa1af76aa8003d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 29/80] fix: emitted always blocks keep the bit of the clock
 and reset; Bind.getSenslist works

---
 pyverilog/dataflow/dataflow.py | 4 ++++
 pyverilog/dataflow/visit.py    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index f0e0819..88d70b1 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -877,10 +877,14 @@ class Bind(object):
         if self.alwaysinfo.clock_edge is not None and self.alwaysinfo.clock_name is not None:
             code += self.alwaysinfo.clock_edge + ' '
             code += util.toFlatname(self.alwaysinfo.clock_name)
+            if self.alwaysinfo.clock_bit:
+                code += '[' + str(self.alwaysinfo.clock_bit) + ']'
         if self.alwaysinfo.reset_edge is not None and self.alwaysinfo.reset_name is not None:
             code += ' or '
             code += self.alwaysinfo.reset_edge + ' '
             code += util.toFlatname(self.alwaysinfo.reset_name)
+            if self.alwaysinfo.reset_bit:
+                code += '[' + str(self.alwaysinfo.reset_bit) + ']'
         code += ') begin\n'
         if isinstance(self.tree, DFBranch):
             code += self.tree.tocode(dest, always='clockedge')
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 3291bb2..3263299 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -82,6 +82,9 @@ class AlwaysInfo(object):
     def getResetBit(self):
         return self.reset_bit
 
+    def getSenslist(self):
+        return self.senslist
+
     def isClockEdge(self):
         if self.clock_name != '' and self.clock_edge == 'posedge':
             return True
-- 
2.43.0


From 0ff344210321c43324988d74f629b0b4fe8f19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 30/80] fix: only edges make a signal the clock or reset of a
 block; any constant bit of a clock is accepted

---
 pyverilog/dataflow/bindvisitor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 986ce15..874dd1a 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -261,9 +261,14 @@ class BindVisitor(NodeVisitor):
             if l.sig is None:
                 continue
 
+            # only an edge makes a signal a clock or a reset
+            if l.type not in ('posedge', 'negedge'):
+                senslist.append(l)
+                continue
+
             if isinstance(l.sig, pyverilog.vparser.ast.Pointer):
                 signame = self._get_signal_name(l.sig.var)
-                bit = int(l.sig.ptr.value)
+                bit = self.optimize(self.getTree(l.sig.ptr, scope)).value
             else:
                 signame = self._get_signal_name(l.sig)
                 bit = 0
-- 
2.43.0


From 3a207ec18657dd6ec0e3e7031a77d985b864f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 31/80] fix: always_ff, always_comb and always_latch blocks are
 analyzed like always blocks

---
 pyverilog/dataflow/bindvisitor.py   | 9 +++++++++
 pyverilog/dataflow/modulevisitor.py | 9 +++++++++
 pyverilog/dataflow/signalvisitor.py | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 874dd1a..07e88cd 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -238,6 +238,15 @@ class BindVisitor(NodeVisitor):
         self.generic_visit(node)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        self.visit_Always(node)
+
     def _get_signal_name(self, n):
         if isinstance(n, Identifier):
             return n.name
diff --git a/pyverilog/dataflow/modulevisitor.py b/pyverilog/dataflow/modulevisitor.py
index 3d24200..dd2219c 100644
--- a/pyverilog/dataflow/modulevisitor.py
+++ b/pyverilog/dataflow/modulevisitor.py
@@ -53,6 +53,15 @@ class ModuleVisitor(NodeVisitor):
     def visit_Always(self, node):
         pass
 
+    def visit_AlwaysFF(self, node):
+        pass
+
+    def visit_AlwaysComb(self, node):
+        pass
+
+    def visit_AlwaysLatch(self, node):
+        pass
+
     def visit_Initial(self, node):
         pass
 
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e232996..b6f2c91 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -166,6 +166,15 @@ class SignalVisitor(NodeVisitor):
         self.generic_visit(node)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        self.visit_Always(node)
+
     def visit_IfStatement(self, node):
 
         if (self.frames.isGenerate()
-- 
2.43.0


From 7fc8b349a54a3158dd5306b37f099095bbd439e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 32/80] fix: value sets of s <= const, s < 0 and of constants a
 signal cannot have

---
 pyverilog/controlflow/transition.py | 5 +++--
 pyverilog/utils/inference.py        | 7 ++-----
 pyverilog/utils/signaltype.py       | 2 +-
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 084c113..ef0f732 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -272,9 +272,10 @@ def createStateNode(infval, width):
     maxval = infval.maxval
     if minval is None:
         minval = 0
-    if maxval is None:
+    if maxval is None or maxval > util.maxValue(width):
         maxval = util.maxValue(width)
-    ret = StateNode(((minval, maxval),), 0, util.maxValue(width), None)
+    range_pairs = ((minval, maxval),) if minval <= maxval else ()
+    ret = StateNode(range_pairs, 0, util.maxValue(width), None)
     if infval.inv:
         ret = notStateNodeList(ret)
     return ret
diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index d241360..ffd32fb 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -29,10 +29,7 @@ def infer(op, node):
 
 def op_LessThan(val):
     minval = 0
-    maxval = val - 1
-    if maxval < 0:
-        minval = None
-        maxval = None
+    maxval = val - 1  # no value at all, if maxval < minval
     return InferredValue(minval, maxval)
 
 
@@ -42,7 +39,7 @@ def op_GreaterThan(val):
     return InferredValue(minval, maxval)
 
 
-def op_LassEq(val):
+def op_LessEq(val):
     minval = 0
     maxval = val
     return InferredValue(minval, maxval)
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index 4371c52..da3e432 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -85,7 +85,7 @@ def isReset(search_str):
 
 
 # Operator
-compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
 not_ops = ('Ulnot', 'Unot')
 split_and_ops = ('And', 'Land')
 split_or_ops = ('Or', 'Lor')
-- 
2.43.0


From e0fd2e8972ad919144d491acd56d0751155f7be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 33/80] fix: conditions that only look like tests of the state
 are kept as conditions

---
 pyverilog/controlflow/transition.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index ef0f732..396cf26 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -47,8 +47,11 @@ def walkCond(cond, termname, termwidth=32):
 def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
     node = walkCond(cond.nextnodes[0], termname, termwidth)
     if signaltype.isNot(cond.operator):
-        node = notStateNodeList(node)
-    return node
+        return notStateNodeList(node)
+    if cond.operator in ('Uor', 'Uplus', 'Uminus'):
+        return node
+    maxvalue = util.maxValue(termwidth)
+    return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
 
 def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
@@ -72,10 +75,10 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
 
-    if isinstance(l, DFTerminal) and l.name == termname:
+    if isinstance(l, DFTerminal) and l.name == termname and isinstance(r, DFEvalValue):
         infval = inference.infer(cond.operator, r)
         return createStateNode(infval, termwidth)
-    if isinstance(r, DFTerminal) and r.name == termname:
+    if isinstance(r, DFTerminal) and r.name == termname and isinstance(l, DFEvalValue):
         new_op = re.sub('Greater', 'TMP', cond.operator)
         new_op = re.sub('Less', 'Greater', new_op)
         new_op = re.sub('TMP', 'Less', new_op)
-- 
2.43.0


From 0ef717076ddb95e62bfe3ea6298e2f2508c8341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 34/80] fix: states excluded by contradicting conditions are
 not treated as unconstrained

---
 pyverilog/controlflow/transition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 396cf26..4541481 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -170,6 +170,8 @@ def andStateNodeList(lnode, rnode):
 
 def notStateNode(node):
     if node.isany:
+        if node.transcond is None:
+            return StateNode(maxvalue=node.maxvalue)
         new_transcond = _not_transcond(node.transcond)
         return StateNode(transcond=new_transcond, maxvalue=node.maxvalue, isany=True)
     new_range_pairs = _not_range_pairs(node)
@@ -200,9 +202,7 @@ def andStateNode(sna, snb):
     elif len(sna.range_pairs) > 0 and len(snb.range_pairs) > 0:
         range_pairs = _and_range_pairs(sna, snb)
 
-    if (not isany) and len(range_pairs) == 0:
-        return None
-
+    # without isany and range_pairs: the conditions exclude each other
     transcond = None
     if isinstance(sna.transcond, DFNode) and isinstance(snb.transcond, DFNode):
         transcond = DFOperator((sna.transcond, snb.transcond), 'Land')
-- 
2.43.0


From 643e0459c4f9bd1b042996b03e833bc248bf21f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 35/80] fix: bitwise operators in state conditions are not read
 as logical ones

---
 pyverilog/controlflow/transition.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 4541481..ecf8bba 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -44,9 +44,22 @@ def walkCond(cond, termname, termwidth=32):
     return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
 
+def isBoolean(cond):
+    """ the value of the condition is always 0 or 1 """
+    if not isinstance(cond, DFOperator):
+        return False
+    if signaltype.isCompare(cond.operator):
+        return True
+    if cond.operator in ('Land', 'Lor', 'Ulnot', 'Uand', 'Uor', 'Uxor', 'Unand', 'Unor', 'Uxnor'):
+        return True
+    if cond.operator in ('And', 'Or', 'Xor', 'Uplus'):
+        return all([isBoolean(n) for n in cond.nextnodes])
+    return False
+
+
 def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
     node = walkCond(cond.nextnodes[0], termname, termwidth)
-    if signaltype.isNot(cond.operator):
+    if cond.operator == 'Ulnot' or (cond.operator == 'Unot' and isBoolean(cond.nextnodes[0])):
         return notStateNodeList(node)
     if cond.operator in ('Uor', 'Uplus', 'Uminus'):
         return node
@@ -66,8 +79,17 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
         if ret:
             return ret
     if not signaltype.isCompare(cond.operator) and signaltype.isAnd(cond.operator):
-        lnode = walkCond(cond.nextnodes[0], termname, termwidth)
-        rnode = walkCond(cond.nextnodes[1], termname, termwidth)
+        l, r = cond.nextnodes
+        if cond.operator == 'And':
+            # a bitwise operator: only the lowest bits meet, if one side has no others
+            if not isBoolean(l) and not isBoolean(r):
+                return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
+            if not isBoolean(l):
+                l = DFOperator((l, DFEvalValue(1)), 'And')
+            if not isBoolean(r):
+                r = DFOperator((r, DFEvalValue(1)), 'And')
+        lnode = walkCond(l, termname, termwidth)
+        rnode = walkCond(r, termname, termwidth)
         ret = andStateNodeList(lnode, rnode)
         if ret:
             return ret
-- 
2.43.0


From 025cd9919e9fbd86376852890af7532b92b606e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 36/80] fix: negating a condition ~x or x | ~y of several bits
 changed its meaning

---
 pyverilog/controlflow/transition.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index ecf8bba..6e56d56 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -73,8 +73,14 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
         return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
     if not signaltype.isCompare(cond.operator) and signaltype.isOr(cond.operator):
-        lnode = walkCond(cond.nextnodes[0], termname, termwidth)
-        rnode = walkCond(cond.nextnodes[1], termname, termwidth)
+        l, r = cond.nextnodes
+        if cond.operator == 'Or':
+            # the width of the whole may give an operand more bits than it has alone
+            for n in (l, r):
+                if not isBoolean(n) and not isinstance(n, (DFTerminal, DFPartselect, DFPointer, DFEvalValue)):
+                    return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
+        lnode = walkCond(l, termname, termwidth)
+        rnode = walkCond(r, termname, termwidth)
         ret = orStateNodeList(lnode, rnode)
         if ret:
             return ret
@@ -85,9 +91,9 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
             if not isBoolean(l) and not isBoolean(r):
                 return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
             if not isBoolean(l):
-                l = DFOperator((l, DFEvalValue(1)), 'And')
+                l = DFOperator((l, DFEvalValue(1, 1)), 'And')
             if not isBoolean(r):
-                r = DFOperator((r, DFEvalValue(1)), 'And')
+                r = DFOperator((r, DFEvalValue(1, 1)), 'And')
         lnode = walkCond(l, termname, termwidth)
         rnode = walkCond(r, termname, termwidth)
         ret = andStateNodeList(lnode, rnode)
@@ -286,8 +292,6 @@ def _not_transcond(transcond):
         return None
     elif isinstance(transcond, DFOperator) and transcond.operator == 'Ulnot':
         return transcond.nextnodes[0]
-    elif isinstance(transcond, DFOperator) and transcond.operator == 'Unot':
-        return transcond.nextnodes[0]
     return DFOperator((transcond,), 'Ulnot')
 
 
-- 
2.43.0


From 78d02fcd9d26de1c5c876ddfb23cd734507725d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 37/80] fix: a conditional without any value is not listed as
 the value of a case

---
 pyverilog/controlflow/splitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/splitter.py b/pyverilog/controlflow/splitter.py
index c2ad643..aff5cd4 100644
--- a/pyverilog/controlflow/splitter.py
+++ b/pyverilog/controlflow/splitter.py
@@ -24,7 +24,7 @@ def split(tree):
             for cond, func in truefuncs.items():
                 funcdict[(truecond,) + cond] = func
         else:
-            if tree.truenode is not None:
+            if tree.truenode is not None and not isinstance(tree.truenode, DFBranch):
                 funcdict[(truecond,)] = tree.truenode
         falsefuncs = split(tree.falsenode)
         falsecond = DFOperator((tree.condnode,), 'Ulnot')
@@ -32,7 +32,7 @@ def split(tree):
             for cond, func in falsefuncs.items():
                 funcdict[(falsecond,) + cond] = func
         else:
-            if tree.falsenode is not None:
+            if tree.falsenode is not None and not isinstance(tree.falsenode, DFBranch):
                 funcdict[(falsecond,)] = tree.falsenode
     return funcdict
 
-- 
2.43.0


From 45167e9b68ef2e43e1f18a10ba3fcf1a76c0d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:25 +0000
Subject: [PATCH 38/80] fix: state machine loops are found completely and pass
 every state once

---
 pyverilog/controlflow/controlflow_analyzer.py | 29 ++++++-------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 0ebae8a..18e6fcc 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -251,23 +251,12 @@ class FiniteStateMachine(object):
 
     def get_loop(self):
         loops = set([])
-        loop_node_cnt = {}
+        searched = set([])
         for k in sorted(self.fsm.keys()):
-            if not k in self.fsm:
-                continue
-            if not k in loop_node_cnt:
-                loop_node_cnt[k] = 0
-            if loop_node_cnt[k] >= len(self.fsm[k].values()):
-                continue
-            paths = self.get_looppath(k)
-            for path in paths:
-                rotated = self.rotate(path)
-                if rotated not in loops:
-                    loops.add(rotated)
-                    for r in rotated:
-                        if not r in loop_node_cnt:
-                            loop_node_cnt[r] = 0
-                        loop_node_cnt[r] += 1
+            # every loop is found from its smallest state
+            for path in self.get_looppath(k, searched):
+                loops.add(self.rotate(path))
+            searched.add(k)
         return loops
 
     def rotate(self, path):
@@ -275,13 +264,13 @@ class FiniteStateMachine(object):
         minval_pos = path.index(minval)
         return path[minval_pos:] + path[:minval_pos]
 
-    def get_looppath(self, src):
+    def get_looppath(self, src, excluded=frozenset()):
         paths = set([])
         if not src in self.fsm:
             return paths
-        nextnodes = set(self.fsm[src].values())
+        nextnodes = set(self.fsm[src].values()) - excluded
         for n in nextnodes:
-            r = self._looppath(src, n, visited=set([n]))
+            r = self._looppath(src, n, visited=excluded | set([n]))
             if len(r) > 0:
                 paths |= r
         return paths
@@ -297,7 +286,7 @@ class FiniteStateMachine(object):
             return paths
         nextnodes = set(self.fsm[node].values()) - visited
         for n in nextnodes:
-            r = self._looppath(src, n, visited=visited | set([node]), cnt=cnt + 1)
+            r = self._looppath(src, n, visited=visited | set([n]), cnt=cnt + 1)
             if len(r) > 0:
                 for np in r:
                     paths.add((node,) + np)
-- 
2.43.0


From d9a9af3c6a20e6db5f8840bc55a19ef564e64f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:52 +0000
Subject: [PATCH 39/80] fix: a state constant that does not fit its register is
 truncated in the state machine

---
 pyverilog/controlflow/controlflow_analyzer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 18e6fcc..298fc79 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -67,8 +67,10 @@ class VerilogControlflowAnalyzer(VerilogSubset):
             return fsm
         width = self.getWidth(termname)
         for condlist, func in sorted(funcdict.items(), key=lambda x: len(x[0])):
-            if not isinstance(func, DFEvalValue):
+            if not isinstance(func, DFEvalValue) or not isinstance(func.value, int):
                 continue
+            # the register keeps the low bits of the constant
+            dst = func.value & ((1 << width) - 1)
             print("Condition: %s, Inferring transition condition" % str(condlist))
             node = transition.walkCondlist(condlist, termname, width)
             if node is None:
@@ -76,7 +78,7 @@ class VerilogControlflowAnalyzer(VerilogSubset):
             statenode_list = node.nodelist if isinstance(
                 node, transition.StateNodeList) else [node, ]
             for statenode in statenode_list:
-                fsm.construct(func.value, statenode)
+                fsm.construct(dst, statenode)
         return fsm
 
     def getFuncdict(self, termname, delaycnt=0):
-- 
2.43.0


From 80e0721d27ac73d79e8efac4ed58aca1a6c33c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:52 +0000
Subject: [PATCH 40/80] fix: active conditions of signals that are active in
 every state; reset values do not count

---
 pyverilog/controlflow/active_analyzer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index 273f3cc..d171310 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -29,11 +29,10 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
             return {}
         tree = self.makeTree(termname)
         funcdict = splitter.split(tree)
-        funcdict = splitter.filter(funcdict, termname, condition)
         funcdict = splitter.remove_reset_condition(funcdict)
+        funcdict = splitter.filter(funcdict, termname, condition)
 
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
-            func = funcdict.values()[0]
             return {termname: (('any', None), )}
 
         active_conditions = {}
-- 
2.43.0


From 7e8ce7789f681047e424f464e84e456475b5bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:15 +0000
Subject: [PATCH 41/80] fix: wrong scope kinds and operands are reported with
 DefinitionError

---
 pyverilog/utils/scope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/utils/scope.py b/pyverilog/utils/scope.py
index eb02ee4..563c43f 100644
--- a/pyverilog/utils/scope.py
+++ b/pyverilog/utils/scope.py
@@ -12,6 +12,8 @@ import sys
 import os
 import copy
 
+import pyverilog.utils.verror as verror
+
 scopetype_list_unprint = ('generate', 'always', 'function',  # 'functioncall',
                           'task', 'taskcall', 'initial', 'for', 'while', 'if')
 scopetype_list_print = ('module', 'block', 'signal', 'functioncall',)
@@ -22,7 +24,7 @@ class ScopeLabel(object):
     def __init__(self, scopename, scopetype='any', scopeloop=None):
         self.scopename = scopename
         if scopetype not in scopetype_list:
-            raise DefinitionError('No such Scope type')
+            raise verror.DefinitionError('No such Scope type')
         self.scopetype = scopetype
         self.scopeloop = scopeloop
 
-- 
2.43.0


From eb4e2c555df24a3abd373334080636917f5bb573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:15 +0000
Subject: [PATCH 42/80] fix: a scope chain does not share the list it is made
 from

---
 pyverilog/utils/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/utils/scope.py b/pyverilog/utils/scope.py
index 563c43f..57dc3f0 100644
--- a/pyverilog/utils/scope.py
+++ b/pyverilog/utils/scope.py
@@ -65,7 +65,7 @@ class ScopeChain(object):
     def __init__(self, scopechain=None):
         self.scopechain = []
         if scopechain is not None:
-            self.scopechain = scopechain
+            self.scopechain = list(scopechain)
 
     def __add__(self, r):
         new_chain = copy.deepcopy(self)
-- 
2.43.0


From b185c94ea93f70c80fe674591a4e5337b26b37ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:15 +0000
Subject: [PATCH 43/80] fix: merging bind dictionaries does not change the
 merged dictionaries

---
 pyverilog/utils/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyverilog/utils/util.py b/pyverilog/utils/util.py
index c47dd46..45b6832 100644
--- a/pyverilog/utils/util.py
+++ b/pyverilog/utils/util.py
@@ -75,6 +75,7 @@ def dictlistmerge(a, b):
     ret.update(a)
     for bk, bv in b.items():
         if bk in ret:
+            ret[bk] = list(ret[bk])
             for bvv in bv:
                 if bvv not in ret[bk]:
                     ret[bk].append(bvv)
-- 
2.43.0


From 2c3528d0e45641e337084069fe7939759d6c3ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 44/80] fix: loops, waits, events and forks may be the body of
 always, if and loops

---
 pyverilog/vparser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 0de0264..70bc24f 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1569,11 +1569,13 @@ class VerilogParser(object):
         'parallelblock : FORK block_statements JOIN'
         p[0] = ParallelBlock(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(3)
 
     def p_parallelblock_empty(self, p):
         'parallelblock : FORK JOIN'
         p[0] = ParallelBlock((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_if_statement(self, p):
@@ -1625,6 +1627,7 @@ class VerilogParser(object):
         'for_statement : FOR LPAREN forpre forcond forpost RPAREN forcontent_statement'
         p[0] = ForStatement(p[3], p[4], p[5], p[7], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[7].end_lineno
 
     def p_forpre(self, p):
         'forpre : blocking_substitution'
@@ -1665,6 +1668,7 @@ class VerilogParser(object):
         'while_statement : WHILE LPAREN cond RPAREN whilecontent_statement'
         p[0] = WhileStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno
 
     def p_whilecontent_statement(self, p):
         'whilecontent_statement : basic_statement'
@@ -1747,12 +1751,14 @@ class VerilogParser(object):
         'event_statement : senslist SEMICOLON'
         p[0] = EventStatement(p[1], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_wait_statement(self, p):
         'wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement'
         p[0] = WaitStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno if p[5] is not None else p.lineno(5)
 
     def p_waitcontent_statement(self, p):
         'waitcontent_statement : basic_statement'
@@ -1769,6 +1775,7 @@ class VerilogParser(object):
         'forever_statement : FOREVER basic_statement'
         p[0] = ForeverStatement(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[2].end_lineno
 
     # --------------------------------------------------------------------------
     def p_instance(self, p):
-- 
2.43.0


From c446ef543219ab9d5fa48f30a665249e7e60f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 45/80] fix: a unique case statement holds its expression and
 items, not its parentheses

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 70bc24f..70eaab4 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1696,7 +1696,7 @@ class VerilogParser(object):
 
     def p_unique_case_statement(self, p):
         'unique_case_statement : UNIQUE CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE'
-        p[0] = UniqueCaseStatement(p[3], p[5], lineno=p.lineno(1))
+        p[0] = UniqueCaseStatement(p[4], p[6], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(7)
 
-- 
2.43.0


From 0d2ec882a771a85b851abe01615b76c7dc8f0480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 46/80] fix: identifiers are renamed once, keep their scope and
 line, and scope labels are visited

---
 pyverilog/utils/identifierreplace.py | 16 ++++++++++++++--
 pyverilog/utils/identifiervisitor.py |  5 +++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pyverilog/utils/identifierreplace.py b/pyverilog/utils/identifierreplace.py
index 65355b3..8250659 100644
--- a/pyverilog/utils/identifierreplace.py
+++ b/pyverilog/utils/identifierreplace.py
@@ -48,13 +48,19 @@ def children_items(node):
 class IdentifierReplace(object):
     def __init__(self, ids):
         self.ids = ids
+        self.visited = {}
 
     def visit(self, node):
+        # a node may be shared, such as the width of 'input [A:B] x, y'
+        if id(node) in self.visited:
+            return self.visited[id(node)][1]
         method = 'visit_' + node.__class__.__name__
         visitor = getattr(self, method, self.generic_visit)
         ret = visitor(node)
         if ret is None:
-            return node
+            ret = node
+        self.visited[id(node)] = (node, ret)
+        self.visited[id(ret)] = (ret, ret)
         return ret
 
     def generic_visit(self, node):
@@ -73,6 +79,12 @@ class IdentifierReplace(object):
         return node
 
     def visit_Identifier(self, node):
+        self.generic_visit(node)
         if node.name in self.ids:
-            return vast.Identifier(self.ids[node.name])
+            return vast.Identifier(self.ids[node.name], node.scope, lineno=node.lineno)
+        return node
+
+    def visit_IdentifierScopeLabel(self, node):
+        if node.loop is not None:
+            node.loop = self.visit(node.loop)
         return node
diff --git a/pyverilog/utils/identifiervisitor.py b/pyverilog/utils/identifiervisitor.py
index 2f906ef..ebec5cc 100644
--- a/pyverilog/utils/identifiervisitor.py
+++ b/pyverilog/utils/identifiervisitor.py
@@ -32,4 +32,9 @@ class IdentifierVisitor(NodeVisitor):
         self.identifiers = []
 
     def visit_Identifier(self, node):
+        self.generic_visit(node)
         self.identifiers.append(node.name)
+
+    def visit_IdentifierScopeLabel(self, node):
+        if node.loop is not None:
+            self.visit(node.loop)
-- 
2.43.0


From 8dd5aceec6b8deff70b1b08d6b37cbb617636796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 47/80] fix: the dimensions of a port are children of the port

---
 pyverilog/vparser/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index df288ed..6ba499d 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -173,6 +173,8 @@ class Port(Node):
         nodelist = []
         if self.width:
             nodelist.append(self.width)
+        if self.dimensions:
+            nodelist.append(self.dimensions)
         return tuple(nodelist)
 
 
-- 
2.43.0


From 9d2ed1c2247341b7dc66ca7448589f6de865d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:20 +0000
Subject: [PATCH 48/80] fix: syntax trees with different children are
 different; delays and terms can be compared and hashed

---
 pyverilog/dataflow/dataflow.py | 13 +++++++------
 pyverilog/vparser/ast.py       | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 88d70b1..5647979 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -257,7 +257,7 @@ class DFOperator(DFNotTerminal):
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        return self.operator == other.operator and self.nextnodes == other.nextnodes
+        return self.operator == other.operator and tuple(self.nextnodes) == tuple(other.nextnodes)
 
     def __hash__(self):
         return hash((self.operator, tuple(self.nextnodes)))
@@ -385,7 +385,7 @@ class DFConcat(DFNotTerminal):
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        return self.nextnodes == other.nextnodes
+        return tuple(self.nextnodes) == tuple(other.nextnodes)
 
     def __hash__(self):
         return hash(tuple(self.nextnodes))
@@ -636,10 +636,10 @@ class DFDelay(DFNotTerminal):
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        return self.nextnodes == other.nextnodes
+        return self.nextnode == other.nextnode
 
     def __hash__(self):
-        return hash(tuple(self.nextnodes))
+        return hash(self.nextnode)
 
 
 class DFSyscall(DFNotTerminal):
@@ -680,7 +680,7 @@ class DFSyscall(DFNotTerminal):
             return False
         if self.syscall != other.syscall:
             return False
-        return self.nextnodes == other.nextnodes
+        return tuple(self.nextnodes) == tuple(other.nextnodes)
 
     def __hash__(self):
         return hash(tuple(self.nextnodes))
@@ -724,7 +724,8 @@ class Term(object):
                 and self.dims == other.dims)
 
     def __hash__(self):
-        return hash((self.name, self.termtype, self.msb, self.lsb, self.dims))
+        dims = None if self.dims is None else tuple(self.dims)
+        return hash((self.name, frozenset(self.termtype), self.msb, self.lsb, dims))
 
     def getScope(self, termname):
         return termname[:-1]
diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index 6ba499d..a67d925 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -62,13 +62,11 @@ class Node(object):
         if self_attrs != other_attrs:
             return False
 
-        other_children = other.children()
-
-        for i, c in enumerate(self.children()):
-            if c != other_children[i]:
-                return False
+        # children() leaves out absent children
+        if self._absent() != other._absent():
+            return False
 
-        return True
+        return tuple(self.children()) == tuple(other.children())
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -78,6 +76,9 @@ class Node(object):
         c = hash(self.children())
         return hash((s, c))
 
+    def _absent(self):
+        return sorted(name for name, value in vars(self).items() if value is None)
+
 
 # ------------------------------------------------------------------------------
 class Source(Node):
-- 
2.43.0


From 10d2ba063e60071a58af43c1647c6ced5284fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 49/80] fix: sources are preprocessed in the given order; no
 temporary files are left when the preprocessor cannot be run

---
 pyverilog/vparser/preprocessor.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 4a45548..5d21917 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -32,7 +32,7 @@ class VerilogPreprocessor(object):
     def __init__(self, filelist, outputfile='pp.out', include=None, define=None):
 
         if not isinstance(filelist, (tuple, list)):
-            filelist = list(filelist)
+            filelist = [filelist] if isinstance(filelist, str) else list(filelist)
 
         # Elements in `filelist` can either be raw Verilog files, or Verilog code
         # in python string. The following loop iterates through these `sources`,
@@ -51,12 +51,11 @@ class VerilogPreprocessor(object):
                     f.write(source)
 
                 self.temp_files_paths.append(temp_path)
+                self.filelist.append(temp_path)
 
             else: # else if it is normal verilog file path
                 self.filelist.append(source)
 
-        self.filelist += self.temp_files_paths
-
         iverilog = os.environ.get('PYVERILOG_IVERILOG')
         if iverilog is None:
             iverilog = 'iverilog'
@@ -83,11 +82,13 @@ class VerilogPreprocessor(object):
 
     def preprocess(self):
         cmd = self.iv + list(self.filelist)
-        subprocess.call(cmd)
+        try:
+            subprocess.call(cmd)
 
-        # Removing the temporary files that were created
-        for temp_file_path in self.temp_files_paths:
-            os.remove(temp_file_path)
+        finally:
+            # Removing the temporary files that were created
+            for temp_file_path in self.temp_files_paths:
+                os.remove(temp_file_path)
 
 
 def preprocess(
-- 
2.43.0


From c56e59abb59a620b02fda490c9ac2a07edb3f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 50/80] fix: indexed part selects [b +: w] and [b -: w] select
 w bits

---
 pyverilog/vparser/parser.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 70eaab4..e45dfea 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -856,12 +856,14 @@ class VerilogParser(object):
 
     def p_lpartselect_lpointer_plus(self, p):
         'lpartselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = Partselect(p[1], Minus(Plus(p[3], p[5], lineno=p.lineno(1)), IntConst(
+            '1', lineno=p.lineno(1)), lineno=p.lineno(1)), p[3], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_lpointer_minus(self, p):
         'lpartselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = Partselect(p[1], p[3], Plus(Minus(p[3], p[5], lineno=p.lineno(1)), IntConst(
+            '1', lineno=p.lineno(1)), lineno=p.lineno(1)), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect(self, p):
@@ -871,12 +873,14 @@ class VerilogParser(object):
 
     def p_lpartselect_plus(self, p):
         'lpartselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = Partselect(p[1], Minus(Plus(p[3], p[5], lineno=p.lineno(1)), IntConst(
+            '1', lineno=p.lineno(1)), lineno=p.lineno(1)), p[3], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_minus(self, p):
         'lpartselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = Partselect(p[1], p[3], Plus(Minus(p[3], p[5], lineno=p.lineno(1)), IntConst(
+            '1', lineno=p.lineno(1)), lineno=p.lineno(1)), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpointer(self, p):
@@ -1217,14 +1221,14 @@ class VerilogParser(object):
 
     def p_partselect_plus(self, p):
         'partselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = Partselect(p[1], Minus(Plus(p[3], p[5], lineno=p.lineno(1)), IntConst(
+            '1', lineno=p.lineno(1)), lineno=p.lineno(1)), p[3], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_minus(self, p):
         'partselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = Partselect(p[1], p[3], Plus(Minus(p[3], p[5], lineno=p.lineno(1)), IntConst(
+            '1', lineno=p.lineno(1)), lineno=p.lineno(1)), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer(self, p):
@@ -1234,14 +1238,14 @@ class VerilogParser(object):
 
     def p_partselect_pointer_plus(self, p):
         'partselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = Partselect(p[1], Minus(Plus(p[3], p[5], lineno=p.lineno(1)), IntConst(
+            '1', lineno=p.lineno(1)), lineno=p.lineno(1)), p[3], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer_minus(self, p):
         'partselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = Partselect(p[1], p[3], Plus(Minus(p[3], p[5], lineno=p.lineno(1)), IntConst(
+            '1', lineno=p.lineno(1)), lineno=p.lineno(1)), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_pointer(self, p):
-- 
2.43.0


From 06b77081cb0c5ff7a233e28390fdd20c38b797b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 51/80] fix: a line comment or directive may end at the end of
 the file

---
 pyverilog/vparser/lexer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8fe6628..cfa7321 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -98,19 +98,19 @@ class VerilogLexer(object):
     t_ignore = ' \t'
 
     # Directive
-    directive = r"""\`.*?\n"""
+    directive = r"""\`.*(\n|$)"""
 
     @TOKEN(directive)
     def t_DIRECTIVE(self, t):
         self.directives.append((self.lexer.lineno, t.value))
         t.lexer.lineno += t.value.count("\n")
-        m = re.match("^`default_nettype\s+(.+)\n", t.value)
+        m = re.match("^`default_nettype\s+(.+)", t.value)
         if m:
             self.default_nettype = m.group(1)
         pass
 
     # Comment
-    linecomment = r"""//.*?\n"""
+    linecomment = r"""//.*(\n|$)"""
     commentout = r"""/\*(.|\n)*?\*/"""
 
     @TOKEN(linecomment)
-- 
2.43.0


From 3542ad6e8175651ae645a3b2cffeb8fd233b43f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 52/80] fix: carriage returns and form feeds are white space

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index cfa7321..cd65922 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -95,7 +95,7 @@ class VerilogLexer(object):
     )
 
     # Ignore
-    t_ignore = ' \t'
+    t_ignore = ' \t\r\f'
 
     # Directive
     directive = r"""\`.*(\n|$)"""
-- 
2.43.0


From 76c0e380f8caad8af5623f58c84532e394ec80f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 53/80] fix: sized numbers may have underscores in the size and
 a leading X digit

---
 pyverilog/vparser/lexer.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index cd65922..3a228bb 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -180,15 +180,15 @@ class VerilogLexer(object):
     t_DELAY = r'\#'
     t_DOLLER = r'\$'
 
-    bin_number = '[0-9]*\'[bB][0-1xXzZ?][0-1xXzZ?_]*'
-    signed_bin_number = '[0-9]*\'[sS][bB][0-1xZzZ?][0-1xXzZ?_]*'
-    octal_number = '[0-9]*\'[oO][0-7xXzZ?][0-7xXzZ?_]*'
-    signed_octal_number = '[0-9]*\'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*'
-    hex_number = '[0-9]*\'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-    signed_hex_number = '[0-9]*\'[sS][hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-
-    decimal_number = '([0-9]*\'[dD][0-9xXzZ?][0-9xXzZ?_]*)|([0-9][0-9_]*)'
-    signed_decimal_number = '[0-9]*\'[sS][dD][0-9xXzZ?][0-9xXzZ?_]*'
+    bin_number = '([0-9][0-9_]*)?\'[bB][0-1xXzZ?][0-1xXzZ?_]*'
+    signed_bin_number = '([0-9][0-9_]*)?\'[sS][bB][0-1xXzZ?][0-1xXzZ?_]*'
+    octal_number = '([0-9][0-9_]*)?\'[oO][0-7xXzZ?][0-7xXzZ?_]*'
+    signed_octal_number = '([0-9][0-9_]*)?\'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*'
+    hex_number = '([0-9][0-9_]*)?\'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
+    signed_hex_number = '([0-9][0-9_]*)?\'[sS][hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
+
+    decimal_number = '(([0-9][0-9_]*)?\'[dD][0-9xXzZ?][0-9xXzZ?_]*)|([0-9][0-9_]*)'
+    signed_decimal_number = '([0-9][0-9_]*)?\'[sS][dD][0-9xXzZ?][0-9xXzZ?_]*'
 
     exponent_part = r"""([eE][-+]?[0-9]+)"""
     fractional_constant = r"""([0-9]*\.[0-9]+)|([0-9]+\.)"""
-- 
2.43.0


From 4f82c91c78b81bb24113b85dec699334eb2aa990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 54/80] fix: real numbers may contain underscores

---
 pyverilog/vparser/lexer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 3a228bb..c231c58 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -190,10 +190,10 @@ class VerilogLexer(object):
     decimal_number = '(([0-9][0-9_]*)?\'[dD][0-9xXzZ?][0-9xXzZ?_]*)|([0-9][0-9_]*)'
     signed_decimal_number = '([0-9][0-9_]*)?\'[sS][dD][0-9xXzZ?][0-9xXzZ?_]*'
 
-    exponent_part = r"""([eE][-+]?[0-9]+)"""
-    fractional_constant = r"""([0-9]*\.[0-9]+)|([0-9]+\.)"""
+    exponent_part = r"""([eE][-+]?[0-9][0-9_]*)"""
+    fractional_constant = r"""(([0-9][0-9_]*)?\.[0-9][0-9_]*)|([0-9][0-9_]*\.)"""
     float_number = '((((' + fractional_constant + ')' + \
-        exponent_part + '?)|([0-9]+' + exponent_part + ')))'
+        exponent_part + '?)|([0-9][0-9_]*' + exponent_part + ')))'
 
     simple_escape = r"""([a-zA-Z\\?'"])"""
     octal_escape = r"""([0-7]{1,3})"""
-- 
2.43.0


From d0eb1968770e3daf246976178bfb3c9c166baebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 55/80] fix: ^~ is the exclusive-nor operator

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index c231c58..1ad9928 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -129,7 +129,7 @@ class VerilogLexer(object):
 
     t_NOR = r'~\|'
     t_NAND = r'~\&'
-    t_XNOR = r'~\^'
+    t_XNOR = r'(~\^)|(\^~)'
     t_OR = r'\|'
     t_AND = r'\&'
     t_XOR = r'\^'
-- 
2.43.0


From fbc3e425bd8e26ecba22c9e3d205143be80a41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:48 +0000
Subject: [PATCH 56/80] fix: names in 'integer signed', real and delayed wire
 declarations

'integer signed a;' raised an error, 'real r;' declared a variable called
'real' and 'wire #1 a = #1 b;' a wire whose name was the delay.
---
 pyverilog/vparser/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index e45dfea..f8c4e59 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -674,9 +674,9 @@ class VerilogParser(object):
 
     def p_declassign_element_delay(self, p):
         'declassign_element : delays ID EQUALS delays rvalue'
-        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(1)), lineno=p.lineno(2)),
+        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(2)), lineno=p.lineno(2)),
                         p[5], p[1], p[4], lineno=p.lineno(2))
-        p[0] = (p[1], assign)
+        p[0] = (p[2], assign)
         p.set_lineno(0, p.lineno(2))
 
     # Integer
@@ -700,7 +700,7 @@ class VerilogParser(object):
                                  lineno=p.lineno(3)),
                            signed=True,
                            value=rvalue,
-                           lineno=p.lineno(3)) for rname, rvalue in p[2]]
+                           lineno=p.lineno(3)) for rname, rvalue in p[3]]
         p[0] = Decl(tuple(intlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
@@ -727,7 +727,7 @@ class VerilogParser(object):
     # Real
     def p_realdecl(self, p):
         'realdecl : REAL realnamelist SEMICOLON'
-        reallist = [Real(p[1],
+        reallist = [Real(r,
                          Width(msb=IntConst('31', lineno=p.lineno(2)),
                                lsb=IntConst('0', lineno=p.lineno(2)),
                                lineno=p.lineno(2)),
-- 
2.43.0


From 736742aa590fedc7115faa1dbc063f314c9c9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:48 +0000
Subject: [PATCH 57/80] fix: generate code for always_*, casez, unique case,
 supply, <<< and array dimensions

The generator had no method or template for these nodes and printed only
their children.
---
 pyverilog/ast_code_generator/codegen.py       | 37 ++++++++++++++++++-
 .../template/alwayscomb.txt                   |  3 ++
 .../ast_code_generator/template/alwaysff.txt  |  3 ++
 .../template/alwayslatch.txt                  |  3 ++
 .../template/casezstatement.txt               |  5 +++
 .../ast_code_generator/template/supply.txt    |  1 +
 .../template/uniquecasestatement.txt          |  5 +++
 7 files changed, 55 insertions(+), 2 deletions(-)
 create mode 100644 pyverilog/ast_code_generator/template/alwayscomb.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwaysff.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwayslatch.txt
 create mode 100644 pyverilog/ast_code_generator/template/casezstatement.txt
 create mode 100644 pyverilog/ast_code_generator/template/supply.txt
 create mode 100644 pyverilog/ast_code_generator/template/uniquecasestatement.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9b87569..7ce58c1 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -196,6 +196,9 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_Dimensions(self, node):
+        return ''.join([self.visit(length) for length in node.lengths])
+
     def visit_Identifier(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
@@ -403,6 +406,18 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_Supply(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'name': escape(node.name),
+            'width': '' if node.width is None else self.visit(node.width),
+            'value': self.visit(node.value),
+            'signed': node.signed,
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
     def visit_Decl(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
@@ -491,12 +506,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rorder = op2order(node.right.__class__.__name__)
         left = self.visit(node.left)
         right = self.visit(node.right)
-        if ((not isinstance(node.left, (Sll, Srl, Sra,
+        if ((not isinstance(node.left, (Sll, Srl, Sla, Sra,
                                         LessThan, GreaterThan, LessEq, GreaterEq,
                                         Eq, NotEq, Eql, NotEql))) and
                 (lorder is not None and lorder <= order)):
             left = del_paren(left)
-        if ((not isinstance(node.right, (Sll, Srl, Sra,
+        if ((not isinstance(node.right, (Sll, Srl, Sla, Sra,
                                          LessThan, GreaterThan, LessEq, GreaterEq,
                                          Eq, NotEq, Eql, NotEql))) and
                 (rorder is not None and order > rorder)):
@@ -574,6 +589,9 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Srl(self, node):
         return self.visit_Operator(node)
 
+    def visit_Sla(self, node):
+        return self.visit_Operator(node)
+
     def visit_Sra(self, node):
         return self.visit_Operator(node)
 
@@ -655,6 +673,15 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
@@ -770,6 +797,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def visit_Case(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/alwayscomb.txt b/pyverilog/ast_code_generator/template/alwayscomb.txt
new file mode 100644
index 0000000..b72886b
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayscomb.txt
@@ -0,0 +1,3 @@
+
+always_comb @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwaysff.txt b/pyverilog/ast_code_generator/template/alwaysff.txt
new file mode 100644
index 0000000..11860f0
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwaysff.txt
@@ -0,0 +1,3 @@
+
+always_ff @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwayslatch.txt b/pyverilog/ast_code_generator/template/alwayslatch.txt
new file mode 100644
index 0000000..35eeaf0
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayslatch.txt
@@ -0,0 +1,3 @@
+
+always_latch @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/casezstatement.txt b/pyverilog/ast_code_generator/template/casezstatement.txt
new file mode 100644
index 0000000..4a897b1
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/casezstatement.txt
@@ -0,0 +1,5 @@
+casez({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
diff --git a/pyverilog/ast_code_generator/template/supply.txt b/pyverilog/ast_code_generator/template/supply.txt
new file mode 100644
index 0000000..7500dc9
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/supply.txt
@@ -0,0 +1 @@
+supply{{ value }} {% if signed %}signed {% endif %}{% if width != '' %}{{ width }} {% endif %}{{ name }};
diff --git a/pyverilog/ast_code_generator/template/uniquecasestatement.txt b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
new file mode 100644
index 0000000..88ec8f8
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
@@ -0,0 +1,5 @@
+unique case({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
-- 
2.43.0


From f4293885191b572747afb9be101f3adee2d00f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:07 +0000
Subject: [PATCH 58/80] fix: print 'disable', the delays of assign and the
 initial values of integers

'disable' was printed as 'diable', the delays and initial values were left
out, and delays that need parentheses had none.
---
 pyverilog/ast_code_generator/codegen.py           | 8 +++++++-
 pyverilog/ast_code_generator/template/assign.txt  | 2 +-
 pyverilog/ast_code_generator/template/disable.txt | 2 +-
 pyverilog/ast_code_generator/template/integer.txt | 2 +-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 7ce58c1..faf8d4b 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -344,6 +344,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'name': escape(node.name),
             'signed': node.signed,
+            'value': '' if node.value is None else self.visit(node.value),
         }
         rslt = template.render(template_dict)
         return rslt
@@ -658,6 +659,8 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'left': self.visit(node.left),
             'right': self.visit(node.right),
+            'ldelay': '' if node.ldelay is None else self.visit(node.ldelay),
+            'rdelay': '' if node.rdelay is None else self.visit(node.rdelay),
         }
         rslt = template.render(template_dict)
         rslt = indent_multiline_assign(rslt)
@@ -869,8 +872,11 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_DelayStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
+        delay = self.visit(node.delay)
+        if not isinstance(node.delay, (Identifier, IntConst, FloatConst)):
+            delay = ''.join(['(', del_paren(delay), ')'])
         template_dict = {
-            'delay': self.visit(node.delay),
+            'delay': delay,
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/assign.txt b/pyverilog/ast_code_generator/template/assign.txt
index 86c1391..233f2e2 100644
--- a/pyverilog/ast_code_generator/template/assign.txt
+++ b/pyverilog/ast_code_generator/template/assign.txt
@@ -1 +1 @@
-assign {{ left }} = {{ right }};
+assign {% if ldelay != '' %}{{ ldelay }} {% endif %}{{ left }} = {% if rdelay != '' %}{{ rdelay }} {% endif %}{{ right }};
diff --git a/pyverilog/ast_code_generator/template/disable.txt b/pyverilog/ast_code_generator/template/disable.txt
index a0a9ae8..1752fde 100644
--- a/pyverilog/ast_code_generator/template/disable.txt
+++ b/pyverilog/ast_code_generator/template/disable.txt
@@ -1 +1 @@
-diable {{ name }}
+disable {{ name }}
diff --git a/pyverilog/ast_code_generator/template/integer.txt b/pyverilog/ast_code_generator/template/integer.txt
index 4f9e337..a3191c8 100644
--- a/pyverilog/ast_code_generator/template/integer.txt
+++ b/pyverilog/ast_code_generator/template/integer.txt
@@ -1 +1 @@
-integer {{ name }};
+integer {{ name }}{% if value != '' %} = {{ value }}{% endif %};
-- 
2.43.0


From 8d43aa637b02e256719f7175c8c94e1ab15f1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:15 +0000
Subject: [PATCH 59/80] fix: keep the spaces and semicolons that strings,
 escaped names and operators need

In widths and for headers 'a & &b' was printed as 'a&&b', spaces were taken
from strings and from the end of escaped names, and semicolons from the
strings of parameters.
---
 pyverilog/ast_code_generator/codegen.py | 41 +++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index faf8d4b..633d70e 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -96,7 +96,42 @@ def del_paren(s):
 
 
 def del_space(s):
-    return s.replace(' ', '')
+    """ Remove the spaces that are not needed """
+    ret = []
+    quoted = escaped = False
+    for i, c in enumerate(s):
+        if quoted:
+            if escaped:
+                escaped = False
+            elif c == '\\':
+                escaped = True
+            elif c == '"':
+                quoted = False
+        elif escaped:
+            # an escaped identifier extends to the next white space
+            escaped = c != ' ' and c != '\n'
+        elif c == '"':
+            quoted = True
+        elif c == '\\':
+            escaped = True
+        elif c == ' ' and not is_joined(s[i - 1:i], s[i + 1:i + 2]):
+            continue
+        ret.append(c)
+    return ''.join(ret)
+
+
+def is_joined(left, right):
+    """ Whether two characters may be taken as one token """
+    word = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$'
+    mark = '+-*/%!~&|^<>='
+    return left != '' and right != '' and (
+        (left in word and right in word) or (left in mark and right in mark))
+
+
+def del_semicolon(s):
+    if s.endswith(';'):
+        return s[:-1]
+    return s
 
 
 class ASTCodeGenerator(ConvertVisitor):
@@ -148,7 +183,7 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).replace(';', '') for param in node.params]
+        params = [del_semicolon(self.visit(param)) for param in node.params]
         template_dict = {
             'params': params,
             'len_params': len(params),
@@ -764,7 +799,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
-            'post': '' if node.post is None else del_space(self.visit(node.post).replace(';', '')),
+            'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
             'statement': '' if node.statement is None else self.visit(node.statement),
         }
         rslt = template.render(template_dict)
-- 
2.43.0


From f6ec6e8ce406587647f28fd1f44b59bb5592c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:26 +0000
Subject: [PATCH 60/80] fix: print the parentheses of $signed() without
 arguments

The grammar has no $signed without parentheses.
---
 pyverilog/ast_code_generator/template/systemcall.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/template/systemcall.txt b/pyverilog/ast_code_generator/template/systemcall.txt
index 26f8ddd..6776984 100644
--- a/pyverilog/ast_code_generator/template/systemcall.txt
+++ b/pyverilog/ast_code_generator/template/systemcall.txt
@@ -1 +1 @@
-${{ syscall }}{% if len_args > 0 %}({% endif %}{% for arg in args %}{{ arg }}{% if loop.index < len_args %}, {% endif %}{% endfor %}{% if len_args > 0 %}){% endif %}
+${{ syscall }}{% if len_args > 0 or syscall == 'signed' %}({% endif %}{% for arg in args %}{{ arg }}{% if loop.index < len_args %}, {% endif %}{% endfor %}{% if len_args > 0 or syscall == 'signed' %}){% endif %}
-- 
2.43.0


From af00589c8ae66f24a67d5f8e0346bbd7095d9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:26 +0000
Subject: [PATCH 61/80] fix: print empty parts of for headers and parameter
 lists with several names

'for(; c; )' was printed with one semicolon less, and
'#(parameter a = 1, b = 2)' with a semicolon between the parameters.
---
 pyverilog/ast_code_generator/codegen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 633d70e..d9435cd 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -183,7 +183,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [del_semicolon(self.visit(param)) for param in node.params]
+        params = []
+        for param in node.params:
+            items = param.list if isinstance(param, Decl) else (param,)
+            params.extend([del_semicolon(self.visit(item)) for item in items])
         template_dict = {
             'params': params,
             'len_params': len(params),
@@ -797,7 +800,7 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
-            'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
+            'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
             'statement': '' if node.statement is None else self.visit(node.statement),
-- 
2.43.0


From bd0f789bd11346cc922f29675c8dacc8bb3bcf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:48 +0000
Subject: [PATCH 62/80] fix: separate the items of generate regions and keep
 declarations under their condition

'generate begin end wire a;' was printed as 'endwire', and 'if(c) wire a, b;'
as 'if(c) wire a;wire b;'.
---
 pyverilog/ast_code_generator/codegen.py           | 15 ++++++++++++---
 .../template/generatestatement.txt                |  3 ++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index d9435cd..8a2c2b1 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -783,11 +783,20 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = indent_multiline_assign(rslt)
         return rslt
 
+    def visit_branch(self, node):
+        if node is None:
+            return ''
+        rslt = self.visit(node)
+        if isinstance(node, Decl) and len(node.list) != 1:
+            # only one of the declarations would belong to the condition or loop
+            rslt = ''.join(['begin\n', self.indent(rslt), '\nend'])
+        return rslt
+
     def visit_IfStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        true_statement = '' if node.true_statement is None else self.visit(node.true_statement)
-        false_statement = '' if node.false_statement is None else self.visit(node.false_statement)
+        true_statement = self.visit_branch(node.true_statement)
+        false_statement = self.visit_branch(node.false_statement)
         template_dict = {
             'cond': del_paren(self.visit(node.cond)),
             'true_statement': true_statement,
@@ -803,7 +812,7 @@ class ASTCodeGenerator(ConvertVisitor):
             'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
-            'statement': '' if node.statement is None else self.visit(node.statement),
+            'statement': self.visit_branch(node.statement),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/generatestatement.txt b/pyverilog/ast_code_generator/template/generatestatement.txt
index f7447a0..43c9842 100644
--- a/pyverilog/ast_code_generator/template/generatestatement.txt
+++ b/pyverilog/ast_code_generator/template/generatestatement.txt
@@ -1,4 +1,5 @@
 
-generate {% for item in items %}{{ item }}{% endfor %}
+generate {% for item in items %}{{ item }}
+{% endfor %}
 endgenerate
 
-- 
2.43.0


From 122bd78646d2990abf5a955fc70b58b3cd1b26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:48 +0000
Subject: [PATCH 63/80] fix: declare the variables of 'logic' declarations

'logic a;' was parsed to a declaration without any variable.
---
 pyverilog/vparser/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index f8c4e59..95a0856 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -388,7 +388,7 @@ class VerilogParser(object):
         if 'wire' in sigtypes:
             second = Wire(name=name, width=width, signed=signed,
                           dimensions=dimensions, lineno=lineno)
-        if 'reg' in sigtypes:
+        if 'reg' in sigtypes or self.is_logic_variable(sigtypes):
             second = Reg(name=name, width=width, signed=signed,
                          dimensions=dimensions, lineno=lineno)
         if 'tri' in sigtypes:
@@ -514,6 +514,11 @@ class VerilogParser(object):
         p[0] = p[1]
         p.set_lineno(0, p.lineno(1))
 
+    def is_logic_variable(self, sigtypes):
+        # 'logic' is another name of 'reg', inputs and nets keep their kind
+        return 'logic' in sigtypes and not [t for t in ('input', 'inout', 'wire', 'tri', 'supply0', 'supply1')
+                                            if t in sigtypes]
+
     # Signal Decl
     def create_decl(self, sigtypes, name, width=None, dimensions=None, lineno=0):
         self.typecheck_decl(sigtypes, dimensions)
@@ -533,7 +538,7 @@ class VerilogParser(object):
         if 'wire' in sigtypes:
             decls.append(Wire(name=name, width=width,
                               signed=signed, lineno=lineno, dimensions=dimensions))
-        if 'reg' in sigtypes:
+        if 'reg' in sigtypes or self.is_logic_variable(sigtypes):
             decls.append(Reg(name=name, width=width,
                              signed=signed, lineno=lineno, dimensions=dimensions))
         if 'tri' in sigtypes:
-- 
2.43.0


From d66b01c8d26f86090e0a0d2ff37857e48f20f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:36 +0000
Subject: [PATCH 64/80] fix: report a[1][2].b as a syntax error

It raised an AttributeError.
---
 pyverilog/vparser/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 95a0856..79fcd82 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -2260,6 +2260,9 @@ class VerilogParser(object):
 
     def p_scope_pointer(self, p):
         'scope : pointer DOT'
+        if not isinstance(p[1].var, Identifier):
+            # an instance has one index at most
+            raise ParseError('%s: before: "%s"' % (self._coord(p.lineno(2)), p[2]))
         scope = () if p[1].var.scope is None else p[1].var.scope.labellist
         p[0] = IdentifierScope(scope + (IdentifierScopeLabel(p[1].var.name,
                                                              p[1].ptr, lineno=p.lineno(1)),), lineno=p.lineno(1))
-- 
2.43.0


From c02d486e26ddd9aeb4481404e9551741004c0b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:33 +0000
Subject: [PATCH 65/80] fix: give omitted sensitivity lists the line of their
 construct

The sensitivity list of 'always begin', always_comb and an empty statement had
line number 0.
---
 pyverilog/vparser/parser.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 79fcd82..0a24531 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1308,28 +1308,39 @@ class VerilogParser(object):
     # Always
     def p_always(self, p):
         'always : ALWAYS senslist always_statement'
+        self._set_senslist_lineno(p[2], p.lineno(1))
         p[0] = Always(p[2], p[3], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p[3].end_lineno
 
     def p_always_ff(self, p):
         'always_ff : ALWAYS_FF senslist always_statement'
+        self._set_senslist_lineno(p[2], p.lineno(1))
         p[0] = AlwaysFF(p[2], p[3], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p[3].end_lineno
 
     def p_always_comb(self, p):
         'always_comb : ALWAYS_COMB senslist always_statement'
+        self._set_senslist_lineno(p[2], p.lineno(1))
         p[0] = AlwaysComb(p[2], p[3], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p[3].end_lineno
 
     def p_always_latch(self, p):
         'always_latch : ALWAYS_LATCH senslist always_statement'
+        self._set_senslist_lineno(p[2], p.lineno(1))
         p[0] = AlwaysLatch(p[2], p[3], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p[3].end_lineno
 
+    def _set_senslist_lineno(self, senslist, lineno):
+        # an omitted sensitivity list has no line of its own
+        if not senslist.lineno:
+            senslist.lineno = lineno
+            for sens in senslist.list:
+                sens.lineno = lineno
+
     def p_sens_egde_paren(self, p):
         'senslist : AT LPAREN edgesigs RPAREN'
         p[0] = SensList(p[3], lineno=p.lineno(1))
@@ -1758,8 +1769,10 @@ class VerilogParser(object):
     # --------------------------------------------------------------------------
     def p_event_statement(self, p):
         'event_statement : senslist SEMICOLON'
-        p[0] = EventStatement(p[1], lineno=p.lineno(1))
-        p.set_lineno(0, p.lineno(1))
+        lineno = p.lineno(1) or p.lineno(2)
+        self._set_senslist_lineno(p[1], lineno)
+        p[0] = EventStatement(p[1], lineno=lineno)
+        p.set_lineno(0, lineno)
         p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 2355a6412c1fc9da90cf89d91efbfd82c6aaa880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:54 +0000
Subject: [PATCH 66/80] fix: replace undefined values in trees with calls,
 delays and high impedance

replaceUndefined raised NameError for them.
---
 pyverilog/dataflow/replace.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index de4ac8b..c523f7f 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -11,6 +11,7 @@ from __future__ import print_function
 import sys
 import os
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -19,7 +20,8 @@ def replaceUndefined(tree, termname):
         return DFTerminal(termname)
     if isinstance(tree, DFUndefined):
         return DFTerminal(termname)
-    # if isinstance(tree, DFHighImpedance): return DFTerminal(termname)
+    if isinstance(tree, DFHighImpedance):
+        return tree
     if isinstance(tree, DFConstant):
         return tree
     if isinstance(tree, DFEvalValue):
@@ -50,4 +52,11 @@ def replaceUndefined(tree, termname):
         for n in tree.nextnodes:
             nextnodes.append(replaceUndefined(n, termname))
         return DFConcat(tuple(nextnodes))
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    if isinstance(tree, DFSyscall):
+        nextnodes = []
+        for n in tree.nextnodes:
+            nextnodes.append(replaceUndefined(n, termname))
+        return DFSyscall(tree.syscall, tuple(nextnodes))
+    if isinstance(tree, DFDelay):
+        return DFDelay(replaceUndefined(tree.nextnode, termname))
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
-- 
2.43.0


From 13a1773a8ee65bc504cb0f8d82d844662e976f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:54 +0000
Subject: [PATCH 67/80] fix: keep parallel edges in the dataflow graph

The graph was strict: a + a had one edge, and c ? c : b lost the COND label.
---
 pyverilog/dataflow/graphgen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/graphgen.py b/pyverilog/dataflow/graphgen.py
index a23c406..b026778 100644
--- a/pyverilog/dataflow/graphgen.py
+++ b/pyverilog/dataflow/graphgen.py
@@ -43,7 +43,8 @@ class VerilogGraphGenerator(object):
         self.binddict = binddict
         self.resolved_terms = resolved_terms
         self.resolved_binddict = resolved_binddict
-        self.graph = pgv.AGraph(directed=True)  # pgv.AGraph(strict=False, directed=True)
+        # a strict graph would merge the edges of 'a + a' or 'c ? c : b'
+        self.graph = pgv.AGraph(strict=False, directed=True)
         self.filename = filename
         self.withcolor = withcolor
 
-- 
2.43.0


From 64406eefb9aac87391e3a4e8f8cdaf59f4a930be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:04 +0000
Subject: [PATCH 68/80] fix: draw the node of a system function call in the
 dataflow graph

---
 pyverilog/dataflow/graphgen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/graphgen.py b/pyverilog/dataflow/graphgen.py
index b026778..5e87fe4 100644
--- a/pyverilog/dataflow/graphgen.py
+++ b/pyverilog/dataflow/graphgen.py
@@ -146,6 +146,10 @@ class VerilogGraphGenerator(object):
         if node.nextnode is not None:
             self.visit(node.nextnode, name, color=color)
 
+    def visit_DFSyscall(self, node, parent, color='black', edge_label=None):
+        name = self.add_RenamedDF(node, parent, color=color, edge_label=edge_label)
+        self.generic_visit(node, name, color=color)
+
     def add_DF(self, node, parent, color='black', edge_label=None):
         #name = node.__repr__()
         name = node.tolabel()
-- 
2.43.0


From 9c9615800c7ed55fbff1f3a74ab6a4b50aa72a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:04 +0000
Subject: [PATCH 69/80] fix: one graph node per signal, not per label

T.a_b and T.a.b have the same label and were drawn as one node.
---
 pyverilog/dataflow/graphgen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/graphgen.py b/pyverilog/dataflow/graphgen.py
index 5e87fe4..e0ef7e1 100644
--- a/pyverilog/dataflow/graphgen.py
+++ b/pyverilog/dataflow/graphgen.py
@@ -151,9 +151,9 @@ class VerilogGraphGenerator(object):
         self.generic_visit(node, name, color=color)
 
     def add_DF(self, node, parent, color='black', edge_label=None):
-        #name = node.__repr__()
-        name = node.tolabel()
-        self.add_node(name, color=color)
+        # different signals may have the same label
+        name = str(node.name)
+        self.add_node(name, label=node.tolabel(), color=color)
         if edge_label:
             self.add_edge(parent, name, color=color, label=edge_label)
         else:
-- 
2.43.0


From 9c872043cc5e7c277542aa2fa18287b3e3272578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:02 +0000
Subject: [PATCH 70/80] fix: select the right bits of signals that are walked
 through

Bit and part selects of an intermediate signal whose range does not end in 0
were applied unchanged to the tree of its value.
---
 pyverilog/dataflow/merge.py  | 14 ++++++++++
 pyverilog/dataflow/walker.py | 50 +++++++++++++++++++++++++++++++-----
 2 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 6e90695..f72397a 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -316,6 +316,13 @@ class VerilogDataflowMerge(object):
             return term_lsb + offset
         return term_lsb - offset
 
+    def getOffset(self, termname, index):
+        """ offset from the LSB of the bit with the declared index """
+        term_msb, term_lsb = self.getTermRange(termname)
+        if term_msb >= term_lsb:
+            return index - term_lsb
+        return term_lsb - index
+
     def selectBits(self, tree, msb, lsb):
         """ bits of the value of a tree, counted from its LSB """
         if tree is None:
@@ -333,6 +340,13 @@ class VerilogDataflowMerge(object):
         if isinstance(tree, DFTerminal):
             msb = self.getIndex(tree.name, msb)
             lsb = self.getIndex(tree.name, lsb)
+        if isinstance(tree, DFPartselect):
+            tree_msb = self.optimizer.optimizeConstant(tree.msb)
+            tree_lsb = self.optimizer.optimizeConstant(tree.lsb)
+            if isinstance(tree_msb, DFEvalValue) and isinstance(tree_lsb, DFEvalValue):
+                step = 1 if tree_msb.value >= tree_lsb.value else -1
+                return DFPartselect(tree.var, DFEvalValue(tree_lsb.value + step * msb),
+                                    DFEvalValue(tree_lsb.value + step * lsb))
         return DFPartselect(tree, DFEvalValue(msb), DFEvalValue(lsb))
 
     def fitTree(self, tree, width, hold):
diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index 5b69358..40cb365 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -96,11 +96,7 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
             msb = self.walkTree(tree.msb, visited, step, delay)
             lsb = self.walkTree(tree.lsb, visited, step, delay)
             var = self.walkTree(tree.var, visited, step, delay, msb=msb, lsb=lsb)
-            if isinstance(var, DFPartselect):
-                child_lsb = self.getTerm(str(tree.var)).lsb.eval()
-                return DFPartselect(var.var, DFIntConst(str(msb.eval() + var.lsb.eval() - child_lsb)),
-                                    DFIntConst(str(lsb.eval() + var.lsb.eval() - child_lsb)))
-            return DFPartselect(var, msb, lsb)
+            return self.selectWalked(tree.var, var, msb, lsb)
 
         if isinstance(tree, DFPointer):
             ptr = self.walkTree(tree.ptr, visited, step, delay)
@@ -109,7 +105,7 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                 if (self.getTermDims(tree.var.name) is not None and
                         not (isinstance(var, DFTerminal) and var.name == tree.var.name)):
                     return var
-            return DFPointer(var, ptr)
+            return self.pointWalked(tree.var, var, ptr)
 
         if isinstance(tree, DFConcat):
             nextnodes = []
@@ -119,3 +115,45 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
 
         raise verror.DefinitionError(
             'Undefined Node Type: %s : %s' % (str(type(tree)), str(tree)))
+
+    def isWalked(self, signal, tree):
+        """ whether a signal (or array element) has been replaced with the tree of its value """
+        if isinstance(signal, DFPointer):
+            return (isinstance(signal.var, DFTerminal) and
+                    self.getTermDims(signal.var.name) is not None and
+                    not (isinstance(tree, DFPointer) and tree.var == signal.var))
+        return isinstance(signal, DFTerminal) and tree != signal
+
+    def selectWalked(self, signal, tree, msb, lsb):
+        """ part select, whose bounds are indices of the signal, of the tree of its value """
+        if not self.isWalked(signal, tree):
+            return DFPartselect(tree, msb, lsb)
+        opt_msb = self.optimizer.optimizeConstant(msb)
+        opt_lsb = self.optimizer.optimizeConstant(lsb)
+        if not isinstance(opt_msb, DFEvalValue) or not isinstance(opt_lsb, DFEvalValue):
+            return DFPartselect(tree,
+                                self.shiftIndex(signal, tree, msb),
+                                self.shiftIndex(signal, tree, lsb))
+        name = signal.var.name if isinstance(signal, DFPointer) else signal.name
+        return self.selectBits(tree, self.getOffset(name, opt_msb.value),
+                               self.getOffset(name, opt_lsb.value))
+
+    def pointWalked(self, signal, tree, ptr):
+        """ bit select, whose pointer is an index of the signal, of the tree of its value """
+        if not self.isWalked(signal, tree):
+            return DFPointer(tree, ptr)
+        return DFPointer(tree, self.shiftIndex(signal, tree, ptr))
+
+    def shiftIndex(self, signal, tree, ptr):
+        """ index of a bit in the tree of the value of a signal """
+        name = signal.var.name if isinstance(signal, DFPointer) else signal.name
+        old, new = self.getTermRange(name), (0, 0)
+        if isinstance(tree, DFTerminal):
+            new = self.getTermRange(tree.name)
+        if (old[0] < old[1]) != (new[0] < new[1]):
+            return DFOperator((DFEvalValue(new[1] + old[1]), ptr), 'Minus')
+        if new[1] > old[1]:
+            return DFOperator((ptr, DFEvalValue(new[1] - old[1])), 'Plus')
+        if new[1] < old[1]:
+            return DFOperator((ptr, DFEvalValue(old[1] - new[1])), 'Minus')
+        return ptr
-- 
2.43.0


From e8425f8ab0bee1814ece910c782051f20f376d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:33 +0000
Subject: [PATCH 71/80] fix: a signal that is walked through holds its own
 value

Holes in the tree of an intermediate latch or array element became the signal
the walk started from.
---
 pyverilog/dataflow/replace.py | 7 +++----
 pyverilog/dataflow/walker.py  | 9 +++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index c523f7f..9048650 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -16,10 +16,9 @@ from pyverilog.dataflow.dataflow import *
 
 
 def replaceUndefined(tree, termname):
-    if tree is None:
-        return DFTerminal(termname)
-    if isinstance(tree, DFUndefined):
-        return DFTerminal(termname)
+    """ termname: name of the signal, or tree of the value, that is held """
+    if tree is None or isinstance(tree, DFUndefined):
+        return termname if isinstance(termname, DFNode) else DFTerminal(termname)
     if isinstance(tree, DFHighImpedance):
         return tree
     if isinstance(tree, DFConstant):
diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index 40cb365..9d7ab63 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -77,8 +77,13 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                         and not signaltype.isRename(termtype)):
                     nextstep -= 1
 
-            return self.walkTree(self.getTree(termname, nptr),
-                                 visited | set([termname, ]), nextstep, delay)
+            walked_tree = self.walkTree(self.getTree(termname, nptr),
+                                        visited | set([termname, ]), nextstep, delay)
+            if any(label.scopetype == 'functioncall' for label in termname):
+                return walked_tree
+            # a signal, not the one that is made of it, holds its value
+            held = tree if nptr is None else DFPointer(tree, nptr)
+            return replace.replaceUndefined(walked_tree, held)
 
         if isinstance(tree, DFBranch):
             condnode = self.walkTree(tree.condnode, visited, step, delay)
-- 
2.43.0


From 73776d3afc7c701d0b8cb8a62807cf8bdee155fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:18 +0000
Subject: [PATCH 72/80] fix: getAssignType for signals that are not wires

It called signaltype.isWireArray, which does not exist (arrays are terms with
dimensions), so every design with a register or a port raised AttributeError.
---
 pyverilog/dataflow/merge.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index f72397a..1bfe1eb 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -68,8 +68,6 @@ class VerilogDataflowMerge(object):
         termtype = self.getTermtype(termname)
         if signaltype.isWire(termtype):
             return 'assign'
-        if signaltype.isWireArray(termtype):
-            return 'assign'
         if signaltype.isReg(termtype):
             if bind.isClockEdge():
                 return 'clockedge'
-- 
2.43.0


From b977f1069beb59792e702b3ead63eb2c3152218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:55 +0000
Subject: [PATCH 73/80] fix: emit the assignments of a signal in their order

They were collected in sets, so the order in the generated code changed from
run to run (and two equal drivers became one).
---
 pyverilog/dataflow/subset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 47df2d2..dd11060 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -104,16 +104,16 @@ class VerilogSubset(VerilogDataflowMerge):
                 assign_type = self.getAssignType(left, right)
                 if assign_type == 'clockedge':
                     if not left in always_clockedge:
-                        always_clockedge[left] = set([])
-                    always_clockedge[left].add(right)
+                        always_clockedge[left] = []
+                    always_clockedge[left].append(right)
                 elif assign_type == 'combination':
                     if not left in always_combination:
-                        always_combination[left] = set([])
-                    always_combination[left].add(right)
+                        always_combination[left] = []
+                    always_combination[left].append(right)
                 elif assign_type == 'assign':
                     if not left in assign:
-                        assign[left] = set([])
-                    assign[left].add(right)
+                        assign[left] = []
+                    assign[left].append(right)
                 elif assign_type == 'parameter':
                     parameter[left] = right
                     continue
-- 
2.43.0


From 7910072a476ff09d1f7cf54c32fa3e154d9d67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:55 +0000
Subject: [PATCH 74/80] fix: the module header of generated code without other
 ports

It ended in a comma when the subset had no ports besides the clock, the
reset and the enable signal.
---
 pyverilog/dataflow/dataflow_codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index e2d24aa..a0dc7a3 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -78,7 +78,7 @@ class VerilogCodeGenerator(VerilogSubset):
                     modulehead += util.toFlatname(tk) + ', '
                 elif signaltype.isOutput(termtype):
                     modulehead += util.toFlatname(tk) + ', '
-        modulehead = modulehead[:-2] + ');\n\n'
+        modulehead = modulehead.rstrip()[:-1] + ');\n\n'
         return modulehead
 
     def _system_io(self, clock_name, reset_name, enable_name):
-- 
2.43.0


From b5bef3daa6ec79ad2621acbbfdbdabf298929eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:55 +0000
Subject: [PATCH 75/80] fix: text of the declarations of genvars and tri nets

They were written without a keyword, which is not Verilog.
---
 pyverilog/dataflow/dataflow.py | 4 ++++
 pyverilog/utils/signaltype.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 5647979..f225471 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -738,6 +738,8 @@ class Term(object):
     def tocode(self):
         flatname = util.toFlatname(self.name)
         scope = self.getScope(self.name)
+        if signaltype.isGenvar(self.termtype):
+            return 'genvar ' + flatname + ';\n'
         code = ''
         if self.isTopmodule(scope):
             if signaltype.isInput(self.termtype):
@@ -758,6 +760,8 @@ class Term(object):
             code += 'reg '
         if signaltype.isWire(self.termtype):
             code += 'wire '
+        if signaltype.isTri(self.termtype):
+            code += 'tri '
         if signaltype.isInteger(self.termtype):
             code += 'integer '
         if signaltype.isFunction(self.termtype):
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index da3e432..5a77d9e 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -35,6 +35,10 @@ def isWire(termtype):
     return isType(termtype, 'Wire')
 
 
+def isTri(termtype):
+    return isType(termtype, 'Tri')
+
+
 def isReg(termtype):
     return isType(termtype, 'Reg')
 
-- 
2.43.0


From 8a5b0646b29b85facf9e62884aa1d471252dc5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:55 +0000
Subject: [PATCH 76/80] fix: sources of trees with system functions, delays and
 high impedance

getSources and getTreeSources raised 'Undefined Node Type' for them.
---
 pyverilog/dataflow/merge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 1bfe1eb..4f6223d 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -165,7 +165,7 @@ class VerilogDataflowMerge(object):
             return set()
         if isinstance(tree, DFConstant):
             return set()
-        if isinstance(tree, DFUndefined):
+        if isinstance(tree, (DFUndefined, DFHighImpedance)):
             return set()
         if isinstance(tree, DFEvalValue):
             return set()
@@ -193,7 +193,7 @@ class VerilogDataflowMerge(object):
             ret |= self.getSources(tree.var)
             ret |= self.getSources(tree.ptr)
             return ret
-        if isinstance(tree, DFConcat):
+        if isinstance(tree, (DFConcat, DFSyscall)):
             nextnodes = []
             for n in tree.nextnodes:
                 nextnodes.extend(self.getSources(n))
@@ -238,7 +238,7 @@ class VerilogDataflowMerge(object):
             return set()
         if isinstance(tree, DFConstant):
             return set()
-        if isinstance(tree, DFUndefined):
+        if isinstance(tree, (DFUndefined, DFHighImpedance)):
             return set()
         if isinstance(tree, DFEvalValue):
             return set()
@@ -266,11 +266,13 @@ class VerilogDataflowMerge(object):
             ret |= self.getTreeSources(tree.var)
             ret |= self.getTreeSources(tree.ptr)
             return ret
-        if isinstance(tree, DFConcat):
+        if isinstance(tree, (DFConcat, DFSyscall)):
             ret = set()
             for n in tree.nextnodes:
                 ret |= self.getTreeSources(n)
             return ret
+        if isinstance(tree, DFDelay):
+            return self.getTreeSources(tree.nextnode)
         raise verror.DefinitionError('Undefined Node Type: %s : %s' % (str(type(tree)), str(tree)))
 
     def getTermRange(self, termname):
-- 
2.43.0


From 5e45d0697e675d89c026302d3ffe3d39c640d6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:19 +0000
Subject: [PATCH 77/80] fix: text of a part of an expression

Drivers like those of '{p, q} = a + b' select bits of an expression, which
was written as '(a+b)[1:0]' and is not Verilog.  The expression is now
evaluated up to the selected bits, shifted and masked.
---
 pyverilog/dataflow/dataflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index f225471..36832c4 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -286,6 +286,11 @@ class DFPartselect(DFNotTerminal):
         ret = self.var.tocode(dest)
         msbcode = self.msb.tocode(dest)
         lsbcode = self.lsb.tocode(dest)
+        if not isinstance(self.var, (DFTerminal, DFPointer)):
+            # only signals can be selected: evaluate up to the MSB, shift and cut
+            zero = '{(' + msbcode + '+1){1\'d0}}'
+            mask = '{(' + msbcode + '-' + lsbcode + '+1){1\'d1}}'
+            return '(((' + zero + '|' + ret + ')>>' + lsbcode + ')&' + mask + ')'
         if msbcode == lsbcode:
             ret += '[' + msbcode + ']'
         else:
-- 
2.43.0


From 4fef99d5a7ac53bfb8f43afcc7c544f96265d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:35 +0000
Subject: [PATCH 78/80] fix: strings and real numbers in generated code

Strings were written without their quotes, and the dots of strings and real
numbers became underscores.
---
 pyverilog/dataflow/dataflow.py         | 5 +++++
 pyverilog/dataflow/dataflow_codegen.py | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 36832c4..71f0b99 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -207,6 +207,9 @@ class DFStringConst(DFConstant):
         ret = '(StringConst ' + str(self.value) + ')'
         return ret
 
+    def tocode(self, dest='dest'):
+        return '"' + self.value + '"'
+
     def eval(self):
         return self.value
 
@@ -522,6 +525,8 @@ class DFEvalValue(DFNode):
         return ret
 
     def tocode(self, dest='dest'):
+        if self.isstring:
+            return '"' + self.value + '"'
         return self.__repr__()
 
     def children(self):
diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index a0dc7a3..beabced 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -162,6 +162,8 @@ class VerilogCodeGenerator(VerilogSubset):
         ret = modulehead + code + moduletail
 
         if self.flat:
-            ret = re.sub('\.', '_', ret)
+            # dots of names, not those of strings and real numbers
+            ret = re.sub(r'("[^"]*"|[0-9]\.[0-9])|\.',
+                         lambda m: m.group(1) or '_', ret)
 
         return ret
-- 
2.43.0


From 893ecc1a6fdc077fd923c5e7c829b5018d226fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:39 +0000
Subject: [PATCH 79/80] fix: selects of constants with a declared range

---
 pyverilog/dataflow/optimizer.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 2414a58..2caca4d 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -139,7 +139,12 @@ class VerilogOptimizer(object):
             var = self.optimizeConstant(tree.var)
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
+            if isinstance(var, DFEvalValue):
+                msb = self.toOffset(tree.var, msb)
+                lsb = self.toOffset(tree.var, lsb)
             if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                if lsb.value < 0:
+                    return DFUndefined(abs(msb.value - lsb.value) + 1)
                 evalcc = self.evalPartselect(var, msb, lsb)
                 return evalcc
             return DFPartselect(var, msb, lsb)
@@ -152,7 +157,11 @@ class VerilogOptimizer(object):
             ptr = self.optimizeConstant(tree.ptr)
             if term.dims is not None:
                 return DFPointer(var, ptr)
+            if isinstance(var, DFEvalValue):
+                ptr = self.toOffset(tree.var, ptr)
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
+                if ptr.value < 0:
+                    return DFUndefined(1)
                 evalcc = self.evalPointer(var, ptr)
                 return evalcc
             return DFPointer(var, ptr)
@@ -163,6 +172,21 @@ class VerilogOptimizer(object):
         raise verror.DefinitionError('Can not optimize the tree: %s %s' %
                                      (str(type(tree)), str(tree)))
 
+    def toOffset(self, var, index):
+        # declared index of a named constant, counted from its LSB
+        if not isinstance(var, DFTerminal):
+            return index
+        term = self.getTerm(var.name)
+        msb = self.optimizeConstant(term.msb)
+        lsb = self.optimizeConstant(term.lsb)
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            return index
+        if msb.value < lsb.value:
+            return self.optimizeConstant(DFOperator((lsb, index), 'Minus'))
+        if lsb.value == 0:
+            return index
+        return self.optimizeConstant(DFOperator((index, lsb), 'Minus'))
+
     def evalNextnodes(self, nextnodes):
         ret = []
         all_const = True
-- 
2.43.0


From 5637f5d0a663ee16e27cbcbf000b6f804a7a7c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:18 +0000
Subject: [PATCH 80/80] fix: index of an assigned bit or word after blocking
 assignments

---
 pyverilog/dataflow/bindvisitor.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 07e88cd..e577918 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1019,7 +1019,7 @@ class BindVisitor(NodeVisitor):
                 self.setConstant(name, value)
             else:  # for "for-statement"
                 value = self.optimize(raw_tree)
-                if isinstance(value, DFEvalValue):
+                if isinstance(value, DFEvalValue) and len(condlist) == 0:
                     self.setConstant(name, value)
                 else:
                     self.resetConstant(name)
@@ -1469,23 +1469,23 @@ class BindVisitor(NodeVisitor):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.msb, scope))
-                    lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+                    msb = self.optimize(self.getTree(left.msb, scope))
+                    lsb = self.optimize(self.getTree(left.lsb, scope))
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
                 return (name, msb, lsb, ptr)
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            msb = self.optimize(self.makeDFTree(left.msb, scope))
-            lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+            msb = self.optimize(self.getTree(left.msb, scope))
+            lsb = self.optimize(self.getTree(left.lsb, scope))
             return (name, msb, lsb, None)
 
         if isinstance(left, Pointer):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.ptr, scope))
+                    msb = self.optimize(self.getTree(left.ptr, scope))
                     lsb = copy.deepcopy(msb)
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
@@ -1493,7 +1493,7 @@ class BindVisitor(NodeVisitor):
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            ptr = self.optimize(self.makeDFTree(left.ptr, scope))
+            ptr = self.optimize(self.getTree(left.ptr, scope))
             if self.getTermDims(name) is not None:
                 return (name, None, None, ptr)
             return (name, ptr, copy.deepcopy(ptr), None)
-- 
2.43.0

