From 9f660ddfb6dd7c24092221825a2801a58d292032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 01/94] fix: emit inner transaction macros for inner_group

write_teal reset use_inner_txns_macro, so programs with inner groups called
_itxn_group_begin/_itxn_group_submit without ever defining them.
---
 tealish/nodes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fae3d51..b56ae09 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1043,7 +1043,6 @@ class InnerTxn(InlineStatement):
                 node.expression.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        self.compiler.use_inner_txns_macro = False
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
-- 
2.43.0


From 2fd9b7ddd9b507b4bb1f04d735e39b4d2ccfe22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 02/94] fix: make Convert(int, bytes[n]) assert that the value
 fits in n bytes

The size passed to the assertion was already in bits, so bitlen was compared
with n * 64 and larger values were silently truncated.
---
 tealish/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 92dda3e..1b854b9 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -329,7 +329,7 @@ class UIntToBytesWrapper(BaseNode):
             writer.write(self, self.expression)
             writer.write(self, "itob")
         else:
-            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size * 8))
+            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size))
             writer.write(self, "itob")
             if self.size and self.size < 8:
                 writer.write(self, f"extract {8 - self.size} {self.size}")
-- 
2.43.0


From 0797a309ab17b3ea3e30b7477b45d976eab2d118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 03/94] fix: only end a branch or inner_group at a line that
 really ends it

Statements starting with end... or elif... (e.g. 'endx = 5') inside an if were
taken for the end of the branch, and the parser then looped forever.
---
 tealish/nodes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b56ae09..0955ff3 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1080,7 +1080,7 @@ class InnerGroup(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "InnerGroup":
         node = InnerGroup(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 compiler.consume_line()
                 break
             node.add_child(Statement.consume(compiler, node))
@@ -1108,6 +1108,10 @@ class InnerGroup(InlineStatement):
         return output
 
 
+def at_branch_end(line: str) -> bool:
+    return line == "end" or line.startswith(("elif ", "else:"))
+
+
 class IfThen(Node):
     possible_child_nodes = [InlineStatement]
 
@@ -1125,7 +1129,7 @@ class IfThen(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "IfThen":
         node = IfThen("", parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            if at_branch_end(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1165,7 +1169,7 @@ class Elif(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Elif":
         node = Elif(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            if at_branch_end(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1208,7 +1212,7 @@ class Else(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Else":
         node = Else(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
-- 
2.43.0


From 0b0eb4bf57a5e0307741877bcf08d6faebb0273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 04/94] fix: strip inline comments consistently and not inside
 strings

peek() did not strip them, so 'end # comment' was not recognised as an end (and
hung the parser inside an if); consume_line() cut strings containing '#' and
left trailing spaces that made the statement patterns fail.
---
 tealish/__init__.py | 13 +++++++------
 tealish/utils.py    | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e230474..dbcd1ad 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,7 +2,7 @@ import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
-from .utils import TealishMap
+from .utils import TealishMap, split_outside_quotes
 from .types import _structs
 
 
@@ -95,10 +95,7 @@ class TealishCompiler:
             # nodes.py uses them heavily and dont
             # check the type is not None
             return  # type: ignore
-        line = self.source_lines[self.line_no].strip()
-        # strip out inline comments
-        if not line.startswith("#"):
-            line = line.split("#")[0]
+        line = self.peek()
         self.line_no += 1
         return line
 
@@ -106,7 +103,11 @@ class TealishCompiler:
         if self.line_no == len(self.source_lines):
             # TODO: see above
             return  # type: ignore
-        return self.source_lines[self.line_no].strip()
+        line = self.source_lines[self.line_no].strip()
+        # strip out inline comments
+        if not line.startswith("#"):
+            line = split_outside_quotes(line, "#")[0].rstrip()
+        return line
 
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
         prefix = "  " * self.level
diff --git a/tealish/utils.py b/tealish/utils.py
index 19d665c..f24630e 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -2,6 +2,21 @@ from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
 
+def split_outside_quotes(line: str, separator: str) -> Tuple[str, Optional[str]]:
+    """Split at the first separator that is not inside a double quoted string"""
+    in_quotes = False
+    i = 0
+    while i < len(line):
+        if in_quotes and line[i] == "\\":
+            i += 1
+        elif line[i] == '"':
+            in_quotes = not in_quotes
+        elif not in_quotes and line.startswith(separator, i):
+            return line[:i], line[i + len(separator) :]
+        i += 1
+    return line, None
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
-- 
2.43.0


From a465b79ab0337f23fbb24233eae8fdbdbd1a57a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 05/94] fix: do not hang on a comment or blank line between a
 decorator and its func

---
 tealish/nodes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0955ff3..2be7008 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1748,7 +1748,7 @@ class Decorator(Node):
 
 
 class DecoratedFunc(InlineStatement):
-    possible_child_nodes = [Decorator, Comment, Func]
+    possible_child_nodes = [Decorator, Comment, Blank, Func]
     pattern = r""
 
     def __init__(
@@ -1782,11 +1782,18 @@ class DecoratedFunc(InlineStatement):
     ) -> "DecoratedFunc":
         decorated_func = DecoratedFunc("", parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("func "):
+            line = compiler.peek()
+            if line is not None and line.startswith("func "):
                 decorated_func.set_func(Func.consume(compiler, decorated_func))
                 break
-            elif compiler.peek().startswith("@"):
+            elif line is not None and line.startswith("@"):
                 decorated_func.add_decorator(Decorator.consume(compiler, parent))
+            elif line is not None and (line == "" or line.startswith("#")):
+                decorated_func.add_child(LineStatement.consume(compiler, parent))
+            else:
+                raise ParseError(
+                    f"Expected a func after the decorator at line {compiler.line_no}!"
+                )
         return decorated_func
 
     def process(self) -> None:
@@ -1794,13 +1801,14 @@ class DecoratedFunc(InlineStatement):
             node.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        writer.write(self, self.func)
+        for n in self.child_nodes:
+            if not isinstance(n, Decorator):
+                writer.write(self, n)
 
     def _tealish(self) -> str:
         output = ""
-        for n in self.decorators:
+        for n in self.child_nodes:
             output += n.tealish()
-        output += self.func.tealish()
         return output
 
 
-- 
2.43.0


From b88a2508818e2c5957e3f52753c90c224a7cbb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 06/94] fix: place decorated functions in blocks by the same
 rules as other functions

They were accepted before the exit statement, where execution would fall into
them, and rejected after it.
---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 2be7008..e6bf087 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -683,13 +683,13 @@ class Block(Statement):
 
             n = Statement.consume(compiler, block)
             if exit_statement:
-                if not isinstance(n, (Func, Block, Comment, Blank)):
+                if not isinstance(n, (Func, DecoratedFunc, Block, Comment, Blank)):
                     raise ParseError(
                         f"Unexpected statement at line {n.line_no}."
                         + f" Only Block and Function definitions should occure after a {exit_statement}."
                     )
             else:
-                if isinstance(n, (Func, Block)):
+                if isinstance(n, (Func, DecoratedFunc, Block)):
                     raise ParseError(
                         f"Unexpected {n} definition at line {n.line_no}. "
                         + "Block and Function definitions must occur after an exit statement (e.g. exit, switch, jump)."
-- 
2.43.0


From c8072bc6f5f0ab63e0d8f3b01687c3daf54ca958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 07/94] fix: never reuse the scratch slots of functions for
 other variables

Variables of a block processed after a function were given the slots of the
function's variables, so calling it overwrote them.
---
 tealish/__init__.py |  3 ++-
 tealish/base.py     |  8 +++++++-
 tealish/scope.py    | 11 +++++++----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index dbcd1ad..729ebe0 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,5 +1,5 @@
 import inspect
-from typing import List, Dict, Union, Tuple
+from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
 from .utils import TealishMap, split_outside_quotes
@@ -84,6 +84,7 @@ class TealishCompiler:
         self.conditional_count = 0
         self.error_messages: Dict[int, str] = {}
         self.max_slot = 0
+        self.func_slots: Set[int] = set()
         self.writer = TealWriter()
         self.processed = False
         self.line_nodes = {}
diff --git a/tealish/base.py b/tealish/base.py
index 485007b..e1e7fef 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -91,7 +91,13 @@ class BaseNode:
         except KeyError:
             raise CompileError(f'Unknown type "{type_name}"', node=self)
 
-        var = scope.declare_scratch_var(name, type, max_slot=max_slot)
+        reserved = self.compiler.func_slots  # type: ignore
+        var = scope.declare_scratch_var(
+            name, type, max_slot=max_slot, reserved_slots=reserved
+        )
+        if max_slot is not None:
+            # No other variable may reuse the slots of functions
+            reserved.add(var.scratch_slot)
 
         # Update max_slot on compiler
         self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)  # type: ignore
diff --git a/tealish/scope.py b/tealish/scope.py
index 3220150..75540dc 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -1,4 +1,4 @@
-from typing import Dict, Optional, Tuple, TYPE_CHECKING
+from typing import AbstractSet, Dict, Optional, Tuple, TYPE_CHECKING
 from .tealish_builtins import Var, ConstValue
 from .types import TealishType
 
@@ -41,13 +41,16 @@ class Scope:
         name: str,
         type: "TealishType",
         max_slot: Optional[int] = None,
+        reserved_slots: AbstractSet[int] = frozenset(),
     ) -> Var:
         if name in self.slots:
             raise Exception(f'Redefinition of variable "{name}"')
 
         var = Var(name, type)
         var.slot_type = "scratch"
-        var.scratch_slot = max_slot if max_slot is not None else self.find_slot()
+        var.scratch_slot = (
+            max_slot if max_slot is not None else self.find_slot(reserved_slots)
+        )
         self.slots[var.name] = var
         return var
 
@@ -73,14 +76,14 @@ class Scope:
     def declare_block(self, name: str, block: "Block") -> None:
         self.blocks[name] = block
 
-    def find_slot(self) -> int:
+    def find_slot(self, reserved_slots: AbstractSet[int] = frozenset()) -> int:
         used_slots = [False] * 255
         for var in self.slots.values():
             used_slots[var.scratch_slot] = True
 
         min, max = self.slot_range
         for i, occupied in enumerate(used_slots):
-            if not occupied and min <= i <= max:
+            if not occupied and i not in reserved_slots and min <= i <= max:
                 return i
 
         raise Exception("No available slots!")
-- 
2.43.0


From 9c060839c949dccebc260e51aa5526b2db163894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 08/94] fix: report running out of scratch slots as a
 CompileError

Functions could be given slots above 255, which do not exist.
---
 tealish/base.py  | 9 ++++++---
 tealish/scope.py | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index e1e7fef..d02ac6a 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -92,9 +92,12 @@ class BaseNode:
             raise CompileError(f'Unknown type "{type_name}"', node=self)
 
         reserved = self.compiler.func_slots  # type: ignore
-        var = scope.declare_scratch_var(
-            name, type, max_slot=max_slot, reserved_slots=reserved
-        )
+        try:
+            var = scope.declare_scratch_var(
+                name, type, max_slot=max_slot, reserved_slots=reserved
+            )
+        except Exception as e:
+            raise CompileError(str(e), node=self)
         if max_slot is not None:
             # No other variable may reuse the slots of functions
             reserved.add(var.scratch_slot)
diff --git a/tealish/scope.py b/tealish/scope.py
index 75540dc..067a583 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -51,6 +51,8 @@ class Scope:
         var.scratch_slot = (
             max_slot if max_slot is not None else self.find_slot(reserved_slots)
         )
+        if var.scratch_slot > 255:
+            raise Exception("No available slots!")
         self.slots[var.name] = var
         return var
 
-- 
2.43.0


From 7fa0b84f0289dd70dc172ad6aca9b253ee780599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 09/94] fix: do not take // inside strings and source comments
 for a TEAL comment

The alignment padding was inserted into byte constants such as "a //b", and the
copied source line lost its spacing.
---
 tealish/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 729ebe0..92d9239 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -32,9 +32,9 @@ class TealWriter:
             teal = node_or_teal
             prefix = (" " * 4) * self.level
             teal = prefix + teal
-            if " //" in teal.strip():
-                teal, comment = teal.split("//", 1)
-                teal = teal.ljust(60) + "//" + comment
+            code, comment = split_outside_quotes(teal, " //")
+            if comment is not None and not teal.strip().startswith("//"):
+                teal = (code + " ").ljust(60) + "//" + comment
             parent._teal.append(teal)
             self.output.append(teal)
             if hasattr(parent, "line_no"):
@@ -64,7 +64,7 @@ class OneLineTealWriter:
         elif isinstance(node_or_teal, list):
             self.teal += node_or_teal
         else:
-            teal = node_or_teal.split("//", 1)[0]
+            teal = split_outside_quotes(node_or_teal, "//")[0]
             self.teal.append(teal)
 
     @property
-- 
2.43.0


From 337dc9e42f53e6a20507b85891ede2e5d8688e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 10/94] fix: do not cut strings containing // in minify_teal
 and strip_comments

---
 tealish/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index f24630e..53f17b9 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -28,8 +28,9 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
         i = i + 1
         line = line.strip()
         if not (not line or line.startswith("//")):
-            if line.split("//")[0].strip().endswith(":"):
-                label = line.split("//")[0].strip()[:-1]
+            code = split_outside_quotes(line, "//")[0].strip()
+            if code.endswith(":"):
+                label = code[:-1]
                 # duplicate labels get compressed into 1
                 if previous_line_is_label:
                     label_replacements[label] = previous_label
@@ -54,7 +55,7 @@ def strip_comments(teal_lines: List[str]) -> List[str]:
     for line in teal_lines:
         line = line.strip()
         if not (not line or line.startswith("//")):
-            line = line.split("//")[0].strip()
+            line = split_outside_quotes(line, "//")[0].strip()
             output.append(line)
     return output
 
-- 
2.43.0


From d052f7aea11efa5f6ee0555ea55ba479ebbbee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 11/94] fix: make minify_teal replace whole labels and all of
 them

Substrings of other labels, opcodes and constants were replaced too, and only
the last replacement on a line took effect.
---
 tealish/utils.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 53f17b9..d78891d 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -1,3 +1,4 @@
+import re
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
@@ -17,6 +18,24 @@ def split_outside_quotes(line: str, separator: str) -> Tuple[str, Optional[str]]
     return line, None
 
 
+def replace_labels(line: str, replacements: Dict[str, str]) -> str:
+    """Replace the labels that are the targets of branches"""
+    op = ""
+
+    def replace(match: "re.Match[str]") -> str:
+        nonlocal op
+        token = match.group()
+        if token == ";" or (not op and token.endswith(":")):
+            op = ""
+        elif not op:
+            op = token
+        elif op in ("b", "bz", "bnz", "callsub", "switch", "match"):
+            return replacements.get(token, token)
+        return token
+
+    return re.sub(r'"(?:\\.|[^"\\])*"|//.*|;|[^\s;"]+', replace, line)
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
@@ -43,10 +62,7 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
             n += 1
             output.append(line)
     source_map[n] = len(teal_lines) - 1
-    for i, line in enumerate(output):
-        for k in label_replacements:
-            if k in line:
-                output[i] = line.replace(k, label_replacements[k])
+    output = [replace_labels(line, label_replacements) for line in output]
     return output, source_map
 
 
-- 
2.43.0


From aadcff5bb6ee16c617435f76302dcfa1592b722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 12/94] fix: keep escapes in byte strings and give them their
 real size

\" was unescaped in the emitted TEAL (which does not assemble), strings ending
in a backslash swallowed the next one, and escapes and non-ASCII characters were
counted as source characters.
---
 tealish/expression_nodes.py    | 7 +++++--
 tealish/nodes.py               | 6 +++---
 tealish/tealish_expressions.tx | 3 ++-
 tealish/types.py               | 5 +++++
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0e55aee..0eafe97 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -1,3 +1,4 @@
+import re
 from typing import List, Optional, Union, TYPE_CHECKING
 
 from .base import BaseNode
@@ -11,6 +12,7 @@ from .types import (
     IntType,
     BytesType,
     UIntType,
+    byte_string_size,
 )
 from .langspec import Op, type_lookup
 
@@ -36,8 +38,9 @@ class Integer(BaseNode):
 
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
-        self.value = value
-        self.type = BytesType(size=len(value))
+        # value is kept in its escaped form
+        self.value = re.sub(r'\\.|"', lambda m: m[0] if m[0] != '"' else r"\"", value)
+        self.type = BytesType(size=byte_string_size(self.value))
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index e6bf087..9650627 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,4 +1,3 @@
-import ast
 import re
 import textwrap
 from typing import (
@@ -26,6 +25,7 @@ from .types import (
     StructType,
     TealishType,
     UIntType,
+    byte_string_size,
     define_struct,
     get_struct,
     get_type_instance,
@@ -33,7 +33,7 @@ from .types import (
 from .scope import Scope
 
 LITERAL_INT = r"[0-9]+"
-LITERAL_BYTE_STRING = r'"(.+)"'
+LITERAL_BYTE_STRING = r'"((?:\\.|[^"\\])+)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
@@ -176,7 +176,7 @@ class LiteralBytes(Literal):
     value: str  # value contains quotes
 
     def type(self) -> AVMType:
-        return BytesType(size=len(ast.literal_eval(self.value)))
+        return BytesType(size=byte_string_size(self.value[1:-1]))
 
     def _tealish(self) -> str:
         return self.value
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 2a21431..bcf9bde 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -44,4 +44,5 @@ NegativeGroupIndex: '-' index=INT;
 PositiveGroupIndex: '+' index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
-Bytes: value=STRING | HexBytes;
+ByteString: /"((?:\\.|[^"\\])*)"/;
+Bytes: value=ByteString | value=STRING | HexBytes;
diff --git a/tealish/types.py b/tealish/types.py
index 8981eb2..a739fa6 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -189,6 +189,11 @@ class ArrayType(BytesType):
         super().__init__(length * type.size)
 
 
+def byte_string_size(value: str) -> int:
+    """Number of bytes in the string with this (escaped) source text"""
+    return len(re.sub(r"\\(x[0-9a-fA-F]{2}|.)", " ", value).encode())
+
+
 def define_struct(struct: StructType) -> None:
     _structs[struct.name] = struct
 
-- 
2.43.0


From 5766ef7df5a3236278c86508428a6f68ce8ca5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 13/94] fix: accept statement functions with ' = ' in a string
 argument

They were taken for assignments.
---
 tealish/nodes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 9650627..0539453 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -388,6 +388,13 @@ class LineStatement(InlineStatement):
             return Return(line, parent, compiler=compiler)
         elif line.startswith("break"):
             return Break(line, parent, compiler=compiler)
+        # Statement functions
+        elif line.startswith("exit("):
+            return Exit(line, parent, compiler=compiler)
+        elif line.startswith("assert("):
+            return Assert(line, parent, compiler=compiler)
+        elif re.match(r"[a-zA-Z_0-9]+\(.*\)", line):
+            return FunctionCallStatement(line, parent, compiler=compiler)
         elif re.match(
             r"[A-Za-z][a-zA-Z_0-9]*(\[[0-9]+\])? [a-zA-Z_0-9]+( = .*)?", line
         ):
@@ -398,13 +405,6 @@ class LineStatement(InlineStatement):
             return StructOrBoxAssignment(line, parent, compiler=compiler)
         elif " = " in line:
             return Assignment(line, parent, compiler=compiler)
-        # Statement functions
-        elif line.startswith("exit("):
-            return Exit(line, parent, compiler=compiler)
-        elif line.startswith("assert("):
-            return Assert(line, parent, compiler=compiler)
-        elif re.match(r"[a-zA-Z_0-9]+\(.*\)", line):
-            return FunctionCallStatement(line, parent, compiler=compiler)
         else:
             raise ParseError(
                 f'Unexpected line statement: "{line}" at {compiler.line_no}.'
-- 
2.43.0


From c5af637c782cec979a117faa683c7490d5758548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 14/94] fix: avoid exponential backtracking on invalid
 assignments

---
 tealish/nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0539453..54e4f1b 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -594,7 +594,10 @@ class VarDeclaration(LineStatement):
 
 
 class Assignment(LineStatement):
-    pattern = r"(?P<names>([a-z_][a-zA-Z0-9_]*,?\s*)+) = (?P<expression>.*)$"
+    pattern = (
+        r"(?P<names>[a-z_][a-zA-Z0-9_]*(,\s*[a-z_][a-zA-Z0-9_]*)*)"
+        r" = (?P<expression>.*)$"
+    )
     names: str
     name_nodes: List[Name]
     expression: GenericExpression
-- 
2.43.0


From 5b58ea55b48894418123367f7c8eff1137337d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 15/94] fix: do not take string arguments in an assert
 condition for its message

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 54e4f1b..1d57629 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -527,7 +527,7 @@ class FunctionCallStatement(LineStatement):
 
 
 class Assert(LineStatement):
-    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>.*?)")?\)$'
+    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>(?:\\.|[^"\\])*)")?\)$'
     arg: GenericExpression
     message: str
 
-- 
2.43.0


From 05235c8ce48891abc2ec9987379af6ddcba36f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 16/94] fix: allow names starting with return or break

'returned = 5' was rejected and 'returnx' was accepted as 'return x'.
---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 1d57629..b85acca 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -384,9 +384,9 @@ class LineStatement(InlineStatement):
             return Const(line, parent, compiler=compiler)
         elif line.startswith("jump "):
             return Jump(line, parent, compiler=compiler)
-        elif line.startswith("return"):
+        elif re.match(r"return\b", line):
             return Return(line, parent, compiler=compiler)
-        elif line.startswith("break"):
+        elif re.match(r"break\b", line):
             return Break(line, parent, compiler=compiler)
         # Statement functions
         elif line.startswith("exit("):
-- 
2.43.0


From 942a4c7aa71eda4336b20cc3c4342837e6572ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 17/94] fix: type the literal 0 as uint8

It was typed uint64, so 'uint8 x = 0' was rejected.
---
 tealish/expression_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0eafe97..3072181 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -25,7 +25,7 @@ if TYPE_CHECKING:
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
-        size = (((self.value).bit_length() - 1) // 8) + 1
+        size = max(1, ((self.value.bit_length() - 1) // 8) + 1)
         self.type = UIntType(size)
         self.parent = parent
 
-- 
2.43.0


From 9e9bca0e36ae0771ee23fcdbc8960e6bae8e63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 18/94] fix: parse the & operator

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index bcf9bde..82dc114 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -7,7 +7,7 @@ BinaryOp: a=Value op=BinaryOperator b=Value;
 BinaryOperator: '+' | '-' | '*' | '/' | '%'
     | '==' | '>=' | '<=' | '>' | '<' | '!='
     | '&&' | '||'
-    | '|' | '%' | '^'
+    | '|' | '&' | '%' | '^'
     | 'b+' | 'b-' | 'b/' | 'b*' | 'b%'
     | 'b==' | 'b!=' | 'b>=' | 'b<=' | 'b>' | 'b<'
     | 'b|' | 'b&' | 'b^';
-- 
2.43.0


From df00beddc1efe6a037b8978a1507d49f22ae7ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 19/94] fix: do not parse the capitals starting a field name as
 a constant

URLEncoding, JSONString, BN254g1... could not be parsed, nor could constants
with a single letter name.
---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 82dc114..d886127 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -35,7 +35,7 @@ GlobalField: 'Global.' field=FieldName;
 StructOrBoxField: name=Name '.' field=Name;
 Value: StdLibFunctionCall | FunctionCall | Field | StructOrBoxField | UnaryOp | Group | Integer | Bytes | Constant | Enum | Variable;
 Variable: name=Name;
-Constant: name=/([A-Z][A-Z_0-9]+)/;
+Constant: name=/([A-Z][A-Z_0-9]*)(?![A-Za-z_0-9])/;
 Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
-- 
2.43.0


From 4ad223ad437bc190d853b7f6828e9b4ccfc04041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 20/94] fix: make the ops whose fields are missing from
 langspec.json usable

ecdsa_*, base64_decode, json_ref, vrf_verify and block rejected all their fields
as unknown enums.
---
 tealish/langspec.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index 45c0c3c..9aa0736 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -99,6 +99,19 @@ field_types = {
 }
 
 
+# Names of the immediate fields of ops that are not listed in langspec.json.
+_ecdsa_curves = ["Secp256k1", "Secp256r1"]
+op_fields = {
+    "ecdsa_verify": _ecdsa_curves,
+    "ecdsa_pk_decompress": _ecdsa_curves,
+    "ecdsa_pk_recover": _ecdsa_curves,
+    "base64_decode": ["URLEncoding", "StdEncoding"],
+    "json_ref": ["JSONString", "JSONUint64", "JSONObject"],
+    "vrf_verify": ["VrfAlgorand"],
+    "block": ["BlkSeed", "BlkTimestamp"],
+}
+
+
 class Op:
     """Definition of a single opcode in TEAL"""
 
@@ -164,8 +177,8 @@ class Op:
         else:
             self.immediate_note = ""
 
-        if "ArgEnum" in op_def:
-            self.arg_enum = op_def["ArgEnum"]
+        if "ArgEnum" in op_def or self.name in op_fields:
+            self.arg_enum = op_def.get("ArgEnum") or op_fields[self.name]
             if "ArgEnumTypes" in op_def:
                 self.arg_enum_types = convert_args_to_types(op_def["ArgEnumTypes"])
             else:
-- 
2.43.0


From 5af020fe64760db3a6596118edd10f2a52bb1170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 21/94] fix: compile array fields of inner transactions
 (Itxn.Logs[0])

---
 tealish/expression_nodes.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 3072181..1eaf1bf 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -566,6 +566,36 @@ class InnerTxnField(BaseNode):
         return f"Itxn.{self.field}"
 
 
+class InnerTxnArrayField(BaseNode):
+    def __init__(
+        self,
+        field: str,
+        arrayIndex: Union[Constant, Integer],
+        parent: Optional[BaseNode] = None,
+    ) -> None:
+        self.field = field
+        self.arrayIndex = arrayIndex
+        self.type = AVMType.any
+        self.parent = parent
+
+    def process(self) -> None:
+        self.type = self.get_field_type("txn", self.field)
+        if not isinstance(self.arrayIndex, Integer):
+            # index is an expression that needs to be evaluated
+            self.arrayIndex.process()
+
+    def write_teal(self, writer: "TealWriter") -> None:
+        if not isinstance(self.arrayIndex, Integer):
+            writer.write(self, self.arrayIndex)
+            writer.write(self, f"itxnas {self.field}")
+        else:
+            # index is a constant
+            writer.write(self, f"itxna {self.field} {self.arrayIndex.value}")
+
+    def _tealish(self) -> str:
+        return f"Itxn.{self.field}[{self.arrayIndex.tealish()}]"
+
+
 class StructOrBoxField(BaseNode):
     def __init__(self, name, field, parent=None) -> None:
         self.name = name
@@ -628,6 +658,7 @@ def class_provider(name: str) -> Optional[type]:
         "NegativeGroupIndex": NegativeGroupIndex,
         "GlobalField": GlobalField,
         "InnerTxnField": InnerTxnField,
+        "InnerTxnArrayField": InnerTxnArrayField,
         "StructOrBoxField": StructOrBoxField,
     }
     return classes.get(name)
-- 
2.43.0


From a2b648c8a553a22ac9a13baa09ab71ea4da62742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 22/94] fix: process elif and while conditions once

The second pass took the stack arguments of ops for their immediates, so ops like
extract(0, 1, x) were rejected in these conditions.
---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b85acca..70901a5 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1179,7 +1179,7 @@ class Elif(Node):
 
     def process(self) -> None:
         self.condition.process()
-        for n in self.nodes:
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1440,7 +1440,7 @@ class WhileStatement(InlineStatement):
 
     def process(self) -> None:
         self.condition.process()
-        for n in self.nodes:
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From d353c4254dd846142e8b15e892cf2bc11da7929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 23/94] fix: reject calls that do not return exactly one value
 as operands

Functions without a return value were accepted as operands of type any, as
conditions and in exit(), leaving the stack short.
---
 tealish/base.py             | 17 ++++++++++++++++-
 tealish/expression_nodes.py | 14 +++++++-------
 tealish/nodes.py            | 16 ++++++++--------
 tealish/stdlib.py           |  4 ++--
 4 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index d02ac6a..cf08eab 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -3,7 +3,7 @@ from tealish.errors import CompileError
 from .tealish_builtins import ConstValue, Var
 from .langspec import get_active_langspec, Op
 from .scope import Scope
-from .types import TealishType, get_type_instance
+from .types import AVMType, TealishType, get_type_instance
 
 
 if TYPE_CHECKING:
@@ -13,11 +13,18 @@ if TYPE_CHECKING:
 lang_spec = get_active_langspec()
 
 
+def is_single_value(type: Any) -> bool:
+    # Calls have a list of types unless they return exactly one value
+    return type is not None and not isinstance(type, (list, AVMType))
+
+
 def check_arg_types(name: str, incoming_args: List["Node"]) -> None:
     op = lang_spec.lookup_op(name)
     expected_args = op.arg_types
     # TODO:
     for i, incoming_arg in enumerate(incoming_args):
+        if not is_single_value(incoming_arg.type):
+            raise Exception(f"Arg {i} of {name} is not a single value")
         if not op.arg_types[i].can_hold(incoming_arg.type):
             raise Exception(
                 f"Incorrect type {incoming_arg.type} "  # type: ignore
@@ -149,6 +156,14 @@ class BaseNode:
         except Exception as e:
             raise CompileError(str(e), node=self)  # type: ignore
 
+    def process_value(self, expression: "Node") -> None:
+        """Process an expression that must leave exactly one value"""
+        expression.process()
+        if not is_single_value(expression.type):
+            raise CompileError(
+                f'"{expression.tealish()}" is not a single value', node=self  # type: ignore
+            )
+
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         return lang_spec.get_field_type(namespace, name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 1eaf1bf..1a402b6 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -408,7 +408,7 @@ class TxnArrayField(BaseNode):
         self.type = self.get_field_type("txn", self.field)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
-            self.arrayIndex.process()
+            self.process_value(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
@@ -435,7 +435,7 @@ class GroupTxnField(BaseNode):
         self.type = self.get_field_type("gtxn", self.field)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
-            self.index.process()
+            self.process_value(self.index)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
@@ -471,9 +471,9 @@ class GroupTxnArrayField(BaseNode):
         self.type = self.get_field_type("gtxn", self.field)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
-            self.index.process()
+            self.process_value(self.index)
         if not isinstance(self.arrayIndex, Integer):
-            self.arrayIndex.process()
+            self.process_value(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
@@ -507,7 +507,7 @@ class GroupTxnArrayField(BaseNode):
 class PositiveGroupIndex(BaseNode):
     def __init__(self, index: int, parent: Optional["BaseNode"] = None) -> None:
         self.index = index
-        self.type = AVMType.int
+        self.type = IntType()
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -522,7 +522,7 @@ class PositiveGroupIndex(BaseNode):
 class NegativeGroupIndex(BaseNode):
     def __init__(self, index: int, parent: Optional[BaseNode] = None) -> None:
         self.index = index
-        self.type = AVMType.int
+        self.type = IntType()
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -582,7 +582,7 @@ class InnerTxnArrayField(BaseNode):
         self.type = self.get_field_type("txn", self.field)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
-            self.arrayIndex.process()
+            self.process_value(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 70901a5..478d1f6 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -493,7 +493,7 @@ class Exit(LineStatement):
     expression: GenericExpression
 
     def process(self) -> None:
-        self.expression.process()
+        self.process_value(self.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -783,9 +783,9 @@ class Switch(InlineStatement):
         return switch
 
     def process(self) -> None:
-        self.expression.process()
+        self.process_value(self.expression)
         for node in self.options:
-            node.expression.process()
+            self.process_value(node.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1039,11 +1039,11 @@ class InnerTxn(InlineStatement):
                         + f"(expected {n}) at line {lno}!"
                     )
             else:
-                node.expression.process()
+                node.process_value(node.expression)
 
         for a in self.array_fields.values():
             for node in a:
-                node.expression.process()
+                node.process_value(node.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1178,7 +1178,7 @@ class Elif(Node):
         return node
 
     def process(self) -> None:
-        self.condition.process()
+        self.process_value(self.condition)
         for n in self.child_nodes:
             n.process()
 
@@ -1334,7 +1334,7 @@ class IfStatement(InlineStatement):
         ):
             self.child_nodes[-1].next_label = self.end_label
 
-        self.condition.process()
+        self.process_value(self.condition)
 
         if self.if_then is not None:
             self.if_then.process()
@@ -1439,7 +1439,7 @@ class WhileStatement(InlineStatement):
         return node
 
     def process(self) -> None:
-        self.condition.process()
+        self.process_value(self.condition)
         for n in self.child_nodes:
             n.process()
 
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 1b854b9..8c6f1e0 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -464,7 +464,7 @@ class Concat(FunctionCall):
 
     def process(self) -> None:
         for arg in self.args:
-            arg.process()
+            self.process_value(arg)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -494,7 +494,7 @@ class ARC28Event(FunctionCall):
         self.signature = self.args[0].value
         self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
-            arg.process()
+            self.process_value(arg)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 9595022d27467aa6e763aade5af5e58a002ea048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 24/94] fix: separate immediate args with commas when
 formatting

---
 tealish/expression_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 1a402b6..728e833 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -307,7 +307,8 @@ class OpCall(BaseNode):
                     f"{x} can not be used as an immediate argument for {op.name}",
                     node=self,
                 )
-        self.immediate_args = " ".join(map(str, immediates))
+        self.immediates = [str(x) for x in immediates]
+        self.immediate_args = " ".join(self.immediates)
         returns = op.returns_types
         self.type = returns[0] if len(returns) == 1 else returns
 
@@ -322,7 +323,7 @@ class OpCall(BaseNode):
     def _tealish(self) -> str:
         args = [a.tealish() for a in self.args]
         if self.immediate_args:
-            args = self.immediate_args.split(", ") + args
+            args = self.immediates + args
         return f"{self.name}({', '.join(args)})"
 
 
-- 
2.43.0


From 483921ac7ea49330acebe850917b511b74eae40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 25/94] fix: format Box() declarations as Box() instead of
 NoneBox()

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 478d1f6..692c7a5 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -2048,7 +2048,7 @@ class BoxDeclaration(LineStatement):
     def _tealish(self):
         s = (
             f"box<{self.struct_name}> {self.name.tealish()} = "
-            f"{self.method}Box({self.key.tealish()})"
+            f"{self.method or ''}Box({self.key.tealish()})"
         )
         return s + "\n"
 
-- 
2.43.0


From f2d2f055682bd784afbd506c58756ba7138cb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 26/94] fix: keep comments and blank lines in struct,
 inner_txn, switch and router

Formatting a file deleted comments in struct and inner_txn bodies; in switch and
router bodies comments were rejected.
---
 tealish/nodes.py | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 692c7a5..6d724b4 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -113,6 +113,14 @@ class Node(BaseNode):
         self.nodes.append(node)
         self.child_nodes.append(node)
 
+    def consume_comment(self, compiler: "TealishCompiler") -> bool:
+        """Consume the next line as a child if it is a comment or blank"""
+        line = compiler.peek()
+        if line is None or not (line == "" or line.startswith("#")):
+            return False
+        self.add_child(LineStatement.consume(compiler, self))
+        return True
+
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: "Node") -> "Node":
         line = compiler.consume_line()
@@ -743,7 +751,7 @@ class SwitchElse(Node):
 
 
 class Switch(InlineStatement):
-    possible_child_nodes = [SwitchOption, SwitchElse]
+    possible_child_nodes = [SwitchOption, SwitchElse, Comment, Blank]
     pattern = r"switch (?P<expression>.*):$"
     expression: GenericExpression
 
@@ -776,7 +784,7 @@ class Switch(InlineStatement):
                 switch.add_else(
                     SwitchElse(compiler.consume_line(), switch, compiler=compiler)
                 )
-            else:
+            elif not switch.consume_comment(compiler):
                 switch.add_option(
                     SwitchOption(compiler.consume_line(), switch, compiler=compiler)
                 )
@@ -843,7 +851,7 @@ class Route(Node):
 
 
 class Router(InlineStatement):
-    possible_child_nodes = [Route]
+    possible_child_nodes = [Route, Comment, Blank]
     pattern = r"router:$"
 
     def __init__(
@@ -866,7 +874,10 @@ class Router(InlineStatement):
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
-            router.add_route(Route(compiler.consume_line(), router, compiler=compiler))
+            if not router.consume_comment(compiler):
+                router.add_route(
+                    Route(compiler.consume_line(), router, compiler=compiler)
+                )
         return router
 
     def process(self) -> None:
@@ -981,7 +992,7 @@ class InnerTxnFieldSetter(InlineStatement):
 
 
 class InnerTxn(InlineStatement):
-    possible_child_nodes = [InnerTxnFieldSetter]
+    possible_child_nodes = [InnerTxnFieldSetter, Comment, Blank]
 
     def __init__(
         self,
@@ -1000,9 +1011,7 @@ class InnerTxn(InlineStatement):
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
-            elif compiler.peek().startswith("#"):
-                compiler.consume_line()
-            else:
+            elif not node.consume_comment(compiler):
                 node.add_child(
                     InnerTxnFieldSetter(
                         compiler.consume_line(), node, compiler=compiler
@@ -1020,7 +1029,8 @@ class InnerTxn(InlineStatement):
 
         self.array_fields: Dict[str, List[InnerTxnFieldSetter]] = defaultdict(list)
         for node in self.child_nodes:
-            node = cast(InnerTxnFieldSetter, node)
+            if not isinstance(node, InnerTxnFieldSetter):
+                continue
             if node.index is not None:
                 index = int(node.index)
                 n = len(self.array_fields[node.field_name])
@@ -1067,7 +1077,7 @@ class InnerTxn(InlineStatement):
     def _tealish(self) -> str:
         output = "inner_txn:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish().strip("\n")) + "\n"
         output += "end\n"
         return output
 
@@ -1846,7 +1856,7 @@ class StructDefinition(InlineStatement):
     end
     """
 
-    possible_child_nodes = [StructFieldDefinition]
+    possible_child_nodes = [StructFieldDefinition, Comment, Blank]
     pattern = r"struct (?P<name>[A-Z][a-zA-Z_0-9]*):$"
     name: str
     struct: StructType
@@ -1866,9 +1876,7 @@ class StructDefinition(InlineStatement):
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
-            elif compiler.peek().startswith("#"):
-                compiler.consume_line()
-            else:
+            elif not node.consume_comment(compiler):
                 node.add_child(
                     StructFieldDefinition(
                         compiler.consume_line(), node, compiler=compiler
@@ -1876,8 +1884,9 @@ class StructDefinition(InlineStatement):
                 )
 
         node.struct = StructType(node.name)
-        for field in node.child_nodes:
-            field_node = cast(StructFieldDefinition, field)
+        for field_node in node.child_nodes:
+            if not isinstance(field_node, StructFieldDefinition):
+                continue
             node.struct.add_field(
                 field_node.field_name, get_type_instance(field_node.data_type)
             )
@@ -1895,7 +1904,7 @@ class StructDefinition(InlineStatement):
     def _tealish(self) -> str:
         output = f"struct {self.name}:\n"
         for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+            output += indent(n.tealish().strip("\n")) + "\n"
         output += "end\n"
         return output
 
-- 
2.43.0


From c5a72f748c90c45804da4481a1cb73b67b1c00b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 27/94] fix: access struct fields beyond the first 255 bytes

Offsets and sizes above 255 do not fit the immediates of extract and replace.
---
 tealish/expression_nodes.py | 13 +++++++++----
 tealish/nodes.py            |  7 ++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 728e833..9edfdb1 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -616,10 +616,15 @@ class StructOrBoxField(BaseNode):
     def write_teal(self, writer: "TealWriter") -> None:
         teal = ""
         if isinstance(self.object_type, StructType):
-            teal = [
-                f"load {self.var.scratch_slot}",
-                f"extract {self.offset} {self.size}",
-            ]
+            teal = [f"load {self.var.scratch_slot}"]
+            if self.offset < 256 and self.size < 256:
+                teal.append(f"extract {self.offset} {self.size}")
+            else:
+                teal += [
+                    f"pushint {self.offset}",
+                    f"pushint {self.size}",
+                    "extract3",
+                ]
         elif isinstance(self.object_type, BoxType):
             teal = [
                 f"load {self.var.scratch_slot}",
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 6d724b4..2c871e3 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1968,7 +1968,12 @@ class StructOrBoxAssignment(LineStatement):
             teal += [
                 f"load {self.var.scratch_slot}",
                 "swap",
-                f"replace {self.offset}",
+            ]
+            if self.offset < 256:
+                teal.append(f"replace {self.offset}")
+            else:
+                teal += [f"pushint {self.offset}", "swap", "replace3"]
+            teal += [
                 f"store {self.var.scratch_slot}",
                 f"// set {self.name.value}.{self.field_name}",
             ]
-- 
2.43.0


From 623f4f757408599b61518314a95b0239b82d5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 28/94] fix: do not leak struct definitions between programs

Structs of previously compiled programs could be used without being defined and
were reported by inspect.
---
 tealish/__init__.py |  7 +++++--
 tealish/types.py    | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 92d9239..13fab57 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -3,7 +3,7 @@ from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
 from .utils import TealishMap, split_outside_quotes
-from .types import _structs
+from .types import StructType, use_structs
 
 
 class TealWriter:
@@ -89,6 +89,7 @@ class TealishCompiler:
         self.processed = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
+        self.structs: Dict[str, StructType] = {}
 
     def consume_line(self) -> str:
         if self.line_no == len(self.source_lines):
@@ -121,10 +122,12 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
+        use_structs(self.structs)
         node = Program.consume(self, None)
         self.nodes.append(node)
 
     def process(self) -> None:
+        use_structs(self.structs)
         for node in self.nodes:
             try:
                 node.process()
@@ -159,7 +162,7 @@ class TealishCompiler:
         return map
 
     def get_structs(self):
-        return dict(_structs)
+        return dict(self.structs)
 
 
 def compile_program(source: str) -> Tuple[List[str], TealishMap]:
diff --git a/tealish/types.py b/tealish/types.py
index a739fa6..34e423a 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -1,10 +1,11 @@
+from contextvars import ContextVar
 from enum import Enum
 import re
 from typing import Dict
 
 
-# Set of custom defined types
-_structs: Dict[str, "StructType"] = {}
+# Set of custom defined types of the program being compiled
+_structs: ContextVar[Dict[str, "StructType"]] = ContextVar("_structs", default={})
 
 
 class AVMType(str, Enum):
@@ -194,12 +195,16 @@ def byte_string_size(value: str) -> int:
     return len(re.sub(r"\\(x[0-9a-fA-F]{2}|.)", " ", value).encode())
 
 
+def use_structs(structs: Dict[str, StructType]) -> None:
+    _structs.set(structs)
+
+
 def define_struct(struct: StructType) -> None:
-    _structs[struct.name] = struct
+    _structs.get()[struct.name] = struct
 
 
 def get_struct(struct_name: str) -> StructType:
-    return _structs[struct_name]
+    return _structs.get()[struct_name]
 
 
 def get_type_instance(type_name):
-- 
2.43.0


From e0ea8fbf2d9351c8fb29646f4a61ea0d70149a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 29/94] fix: do not let a box reference pass for the contents
 of the box

'Item i = item_box' was accepted because both have the size of the struct, as
were references to boxes of other structs.
---
 tealish/types.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tealish/types.py b/tealish/types.py
index 34e423a..4705e05 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -102,7 +102,8 @@ class BytesType(TealishType):
         if isinstance(other, BytesType):
             if not self.size:
                 return True
-            if not other.size:
+            # The value of a box is its key, not the contents of the box
+            if not other.size or isinstance(other, BoxType):
                 return False
             if self.size == other.size:
                 return True
@@ -164,7 +165,8 @@ class StructType(BytesType):
 
     def can_hold(self, other):
         if isinstance(other, BytesType):
-            if not other.size:
+            # The value of a box is its key, not the contents of the box
+            if not other.size or isinstance(other, BoxType):
                 return False
             if self.size == other.size:
                 return True
@@ -180,6 +182,9 @@ class BoxType(BytesType):
         self.fields = self.struct.fields
         self.size = self.struct.size
 
+    def can_hold(self, other):
+        return isinstance(other, BoxType) and other.struct is self.struct
+
 
 class ArrayType(BytesType):
     name = "array"
-- 
2.43.0


From be8f895452d76ff23c738689938cbae02580a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 30/94] fix: route calls of functions with uint64 arguments

---
 tealish/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 2c871e3..3684468 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -835,9 +835,9 @@ class Route(Node):
             arg_type = get_type_instance(type_name)
             if type_name == "bytes":
                 line = f"Txn.ApplicationArgs[{a}]"
-            elif type_name == "int":
-                line = f"FromBytes(Txn.ApplicationArgs[{a}], {type_name})"
-            elif isinstance(arg_type, IntType) and arg_type.size != 8:
+            elif isinstance(arg_type, IntType) and arg_type.size == 8:
+                line = f"FromBytes(Txn.ApplicationArgs[{a}], int)"
+            elif isinstance(arg_type, IntType):
                 line = f"Cast(btoi(Txn.ApplicationArgs[{a}]), {type_name})"
             elif isinstance(arg_type, BytesType):
                 line = f"Cast(Txn.ApplicationArgs[{a}], {type_name})"
-- 
2.43.0


From fd69750ead322314e220f29c40078be72e7cccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 31/94] fix: do not ignore @public(OnCompletion = X) written
 with spaces

The route silently accepted NoOp calls instead. Unknown values are reported.
---
 tealish/nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 3684468..25d7845 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -830,6 +830,9 @@ class Route(Node):
         self.func = self.lookup_func(self.name)
         if "public" not in self.func.attributes:
             raise CompileError(f"{self.name} is not a public function", node=self)
+        oc = self.func.attributes["public"].get("OnCompletion", "NoOp")
+        if oc != "CreateApplication" and oc not in constants:
+            raise CompileError(f'Unknown OnCompletion "{oc}"', node=self)
         for i, (arg, type_name) in enumerate(self.func.args.args):
             a = i + 1
             arg_type = get_type_instance(type_name)
@@ -1785,7 +1788,7 @@ class DecoratedFunc(InlineStatement):
             self.func.attributes[decorator.name] = {}
             if m := re.match(r"(?P<key>.*)=(?P<value>.*)", decorator.params):
                 self.func.attributes[decorator.name] = {
-                    m.groupdict()["key"]: m.groupdict()["value"]
+                    m.groupdict()["key"].strip(): m.groupdict()["value"].strip()
                 }
         self.add_child(node)
 
-- 
2.43.0


From 51c978c7d36922eff00dc31544be4a2419681012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 32/94] fix: do not drop or misread function arguments and
 struct field types

'userId: int' declared an argument named d, and anything that did not match was
ignored.
---
 tealish/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 25d7845..2865553 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1604,8 +1604,8 @@ class For_Statement(InlineStatement):
 
 
 class ArgsList(Expression):
-    arg_pattern = r"(?P<arg_name>[a-z][a-z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
-    pattern = rf"(?P<args>({arg_pattern}(, )?)*)"
+    arg_pattern = r"([a-z][a-zA-Z_0-9]*): ([a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
+    pattern = rf"(?P<args>({arg_pattern}(,\s*{arg_pattern})*)?)$"
     args: List[Tuple[str, TealishType]]
 
     def __init__(self, line: str) -> None:
@@ -1831,7 +1831,7 @@ class DecoratedFunc(InlineStatement):
 class StructFieldDefinition(InlineStatement):
     pattern = (
         r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)"
+        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)$"
     )
     field_name: str
     data_type: str
-- 
2.43.0


From 589cd54bf3f825eaa00331273261ce762eda6026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 33/94] fix: reject functions defined where execution would
 fall into them

---
 tealish/nodes.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 2865553..266171c 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -103,7 +103,11 @@ class Node(BaseNode):
                     raise ParseError(str(e) + f" at line {self._line_no}")
 
     def add_child(self, node: "Node") -> None:
-        if not isinstance(node, tuple(self.possible_child_nodes)):
+        if not isinstance(node, tuple(self.possible_child_nodes)) or (
+            # Execution would fall into definitions in the middle of other code
+            isinstance(node, (Func, DecoratedFunc, Block))
+            and not self.can_hold_definitions()
+        ):
             raise ParseError(
                 f"Unexpected child node {node} in {self} at line {self._line_no}!"
             )
@@ -113,6 +117,9 @@ class Node(BaseNode):
         self.nodes.append(node)
         self.child_nodes.append(node)
 
+    def can_hold_definitions(self) -> bool:
+        return isinstance(self, (Program, Block, DecoratedFunc))
+
     def consume_comment(self, compiler: "TealishCompiler") -> bool:
         """Consume the next line as a child if it is a comment or blank"""
         line = compiler.peek()
@@ -1650,6 +1657,9 @@ class Func(InlineStatement):
         self.decorators = []
         self.attributes = {}
 
+    def can_hold_definitions(self) -> bool:
+        return any(isinstance(n, Return) for n in self.child_nodes)
+
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Func":
         func = Func(compiler.consume_line(), parent, compiler=compiler)
-- 
2.43.0


From 345079928f012044136546394c6aa83d14c6bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 34/94] fix: report jumps to undefined blocks as a CompileError

---
 tealish/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tealish/base.py b/tealish/base.py
index cf08eab..a6a7ab6 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -124,7 +124,10 @@ class BaseNode:
         return blocks
 
     def get_block(self, name: str) -> "Block":
-        return self.get_blocks()[name]
+        blocks = self.get_blocks()
+        if name not in blocks:
+            raise CompileError(f'Block "{name}" not declared in scope', node=self)
+        return blocks[name]
 
     def is_descendant_of(self, node_class: type) -> bool:
         return self.find_parent(node_class) is not None
-- 
2.43.0


From 0c1dff1b99e7a6b752fc8b2cbba8753707a3604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 35/94] fix: report duplicate labels as a CompileError

Duplicate blocks and functions, or blocks named like the labels of other
statements (l0_end, route_x), produced TEAL that does not assemble.
---
 tealish/__init__.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 13fab57..ef3304c 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,6 +1,8 @@
 import inspect
+import re
 from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
+from .errors import CompileError
 from .nodes import Node, Program
 from .utils import TealishMap, split_outside_quotes
 from .types import StructType, use_structs
@@ -146,8 +148,20 @@ class TealishCompiler:
             node.write_teal(self.writer)
         self.source_map = self.writer.source_map
         self.output = self.writer.output
+        self.check_labels()
         return self.writer.output
 
+    def check_labels(self) -> None:
+        labels = set()
+        for i, line in enumerate(self.output):
+            match = re.match(r'\s*([^\s;"/#]+):(\s|$)', line)
+            if match and match[1] in labels:
+                raise CompileError(
+                    f'Duplicate label "{match[1]}" at line {self.source_map[i + 1]}'
+                )
+            if match:
+                labels.add(match[1])
+
     def reformat(self) -> str:
         if not self.nodes:
             self.parse()
-- 
2.43.0


From c27c8811be33fdd68e46219db955ce63ed65284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 36/94] fix: resolve names to the innermost scope that declares
 them

---
 tealish/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index a6a7ab6..81835e3 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -52,7 +52,7 @@ class BaseNode:
 
     def get_scope(self) -> Scope:
         scope = Scope()
-        for s in self.get_scopes():
+        for s in self.get_scopes()[::-1]:
             scope.update(s)
         return scope
 
@@ -69,7 +69,7 @@ class BaseNode:
 
     def get_slots(self) -> Dict[str, Any]:
         slots = {}
-        for s in self.get_scopes():
+        for s in self.get_scopes()[::-1]:
             slots.update(s.slots)
         return slots
 
@@ -119,7 +119,7 @@ class BaseNode:
 
     def get_blocks(self) -> Dict[str, "Block"]:
         blocks = {}
-        for s in self.get_scopes():
+        for s in self.get_scopes()[::-1]:
             blocks.update(s.blocks)
         return blocks
 
-- 
2.43.0


From c57af7db2ef5a2576bddc5fa33f170448f8f311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 37/94] fix: reject redefinitions of constants, structs and
 struct fields

---
 tealish/nodes.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 266171c..c6565c7 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -476,6 +476,9 @@ class Const(LineStatement):
                 f"Incorrect type {self.literal.type()} for const {tealish_type}",
                 node=self,
             )
+        if self.name in self.get_scope().consts:
+            # TEAL macros are global so redefining one would also change outer uses
+            raise CompileError(f'Redefinition of constant "{self.name}"', node=self)
         scope.declare_const(self.name, (self.literal.type(), self.literal.value))
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1900,10 +1903,22 @@ class StructDefinition(InlineStatement):
         for field_node in node.child_nodes:
             if not isinstance(field_node, StructFieldDefinition):
                 continue
+            if field_node.field_name in node.struct.fields:
+                raise ParseError(
+                    f'Redefinition of field "{field_node.field_name}" '
+                    + f"at line {field_node.line_no}"
+                )
             node.struct.add_field(
                 field_node.field_name, get_type_instance(field_node.data_type)
             )
-        define_struct(node.struct)
+        try:
+            get_struct(node.name)
+        except KeyError:
+            define_struct(node.struct)
+        else:
+            raise ParseError(
+                f'Redefinition of struct "{node.name}" at line {node.line_no}'
+            )
 
         return node
 
-- 
2.43.0


From 96e8e97133460141ff6e50280317ce6529d0580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 38/94] fix: report all failures as ParseError or CompileError
 with the line

Malformed programs raised KeyError, AttributeError, AssertionError... from deep
inside the compiler (or from its own error handler, which also printed to
stdout). Expressions of return statements are now attributed to their own line.
---
 tealish/__init__.py | 45 +++++++++++++++++++++++++++++++++------------
 tealish/nodes.py    | 11 ++++++++---
 tealish/stdlib.py   |  9 ++++++---
 3 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index ef3304c..696a735 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,8 +1,9 @@
 import inspect
 import re
-from typing import List, Dict, Set, Union, Tuple
+from contextlib import contextmanager
+from typing import Iterator, List, Dict, Set, Union, Tuple
 from .base import BaseNode
-from .errors import CompileError
+from .errors import CompileError, ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, split_outside_quotes
 from .types import StructType, use_structs
@@ -74,6 +75,20 @@ class OneLineTealWriter:
         return "; ".join(self.teal)
 
 
+@contextmanager
+def report_errors() -> Iterator[None]:
+    """Raise unexpected errors as CompileErrors for the node that caused them"""
+    try:
+        yield
+    except (ParseError, CompileError):
+        raise
+    except Exception as e:
+        nodes = [f.frame.f_locals.get("self") for f in inspect.trace()]
+        nodes = [n for n in nodes if isinstance(n, BaseNode)]
+        message = str(e.args[0]) if e.args else str(e)
+        raise CompileError(message, node=nodes[-1] if nodes else None) from e
+
+
 class TealishCompiler:
     def __init__(self, source_lines: List[str]) -> None:
         self.source_lines = source_lines
@@ -125,18 +140,22 @@ class TealishCompiler:
 
     def parse(self) -> None:
         use_structs(self.structs)
-        node = Program.consume(self, None)
+        try:
+            node = Program.consume(self, None)
+        except (ParseError, CompileError):
+            raise
+        except Exception as e:
+            message = str(e)
+            if self.line_no == len(self.source_lines):
+                message = "Unexpected end of program"
+            raise ParseError(f"{message} at line {self.line_no}") from e
         self.nodes.append(node)
 
     def process(self) -> None:
         use_structs(self.structs)
-        for node in self.nodes:
-            try:
+        with report_errors():
+            for node in self.nodes:
                 node.process()
-            except Exception as e:
-                node = inspect.trace()[-1].frame.f_locals['self']
-                print(node.line_no, node.line)
-                raise e
         self.processed = True
 
     def compile(self) -> List[str]:
@@ -144,8 +163,9 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
-        for node in self.nodes:
-            node.write_teal(self.writer)
+        with report_errors():
+            for node in self.nodes:
+                node.write_teal(self.writer)
         self.source_map = self.writer.source_map
         self.output = self.writer.output
         self.check_labels()
@@ -167,7 +187,8 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
-        return self.nodes[0].tealish()
+        with report_errors():
+            return self.nodes[0].tealish()
 
     def get_map(self) -> TealishMap:
         map = TealishMap()
diff --git a/tealish/nodes.py b/tealish/nodes.py
index c6565c7..6659563 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -75,7 +75,7 @@ class Node(BaseNode):
         if raw_tokens is None:
             raise ParseError(
                 f"Pattern ({self.pattern}) does not match "
-                + f'for {self} for line "{self.line}"'
+                + f'for {self} for line "{self.line}" at line {self._line_no}'
             )
         self.raw_tokens = raw_tokens.groupdict()
 
@@ -1731,7 +1731,10 @@ class Return(LineStatement):
             args = split_return_args(self.args)
             for a in args:
                 arg = a.strip()
-                node = GenericExpression.parse(arg, parent, compiler)
+                try:
+                    node = GenericExpression.parse(arg, self, compiler)
+                except ParseError as e:
+                    raise ParseError(str(e) + f" at line {self.line_no}")
                 self.args_expressions.append(node)
         if len(self.args_expressions) != len(self.func.returns):
             raise ParseError(f"Incorrect number of returns. Line {self.line_no}")
@@ -1949,7 +1952,9 @@ class StructOrBoxAssignment(LineStatement):
     def process(self) -> None:
         self.var = self.get_var(self.name.value)
         if self.var is None:
-            raise CompileError(f"Could not find struct with name: {self.name.value}")
+            raise CompileError(
+                f"Could not find struct with name: {self.name.value}", node=self
+            )
 
         if not isinstance(self.var.tealish_type, (StructType, BoxType)):
             raise CompileError(
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 8c6f1e0..575b221 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -199,7 +199,8 @@ class FromBytes(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes."
+                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -407,7 +408,8 @@ class Rpad(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Rpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Rpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -438,7 +440,8 @@ class Lpad(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Lpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Lpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 1cae93a273ba7554cba5483b49a665e53169c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 39/94] fix: report compile errors in tealish format and
 inspect without a traceback

---
 tealish/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 12ccefb..bbca89e 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -144,7 +144,7 @@ def format(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = reformat_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     tealish_file.seek(0)
     tealish_file.write(output)
@@ -159,7 +159,7 @@ def inspect(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = inspect_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     print(json.dumps(output, indent=2))
 
-- 
2.43.0


From fcf0239e073ca0beaa38b76b4cd647470d9d02cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 40/94] fix: do not break the JSON of source maps whose
 messages contain '],'

---
 tealish/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index bbca89e..2809a70 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -78,7 +78,7 @@ def _build(
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
             with open(map_filename, "w") as f:
-                f.write(json.dumps(tealish_map.as_dict()).replace("],", "],\n"))
+                f.write(json.dumps(tealish_map.as_dict()))
 
 
 def _compile_program(source: str) -> Tuple[List[str], TealishMap]:
-- 
2.43.0


From e3edcd1808dc5bbb20c8ee65c48cb808f0ddeba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 41/94] fix: do not share /tmp/out.tok between builds with goal

Concurrent builds (or a stale file of another user) could pair a program with
the bytecode of another one.
---
 tealish/build.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/tealish/build.py b/tealish/build.py
index a28d429..f3f315b 100644
--- a/tealish/build.py
+++ b/tealish/build.py
@@ -2,23 +2,28 @@ from base64 import b64decode
 from typing import Tuple
 import json
 import subprocess
+from tempfile import TemporaryDirectory
 from algosdk.v2client.algod import AlgodClient
 from algosdk.source_map import SourceMap
 
 
 def assemble_with_goal(teal: str) -> Tuple[bytes, SourceMap]:
-    tmp_out_filename = "/tmp/out.tok"
-    try:
-        subprocess.check_output(
-            ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
-            input=teal.encode(),
-        )
-    except FileNotFoundError:
-        raise Exception("goal not found in path")
-    except subprocess.CalledProcessError as e:
-        raise Exception(e.output)
-    bytecode = open(tmp_out_filename, "rb").read()
-    algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
+    # Concurrent builds must not share the output file
+    with TemporaryDirectory() as tmp_dir:
+        tmp_out_filename = f"{tmp_dir}/out.tok"
+        try:
+            subprocess.check_output(
+                ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
+                input=teal.encode(),
+            )
+        except FileNotFoundError:
+            raise Exception("goal not found in path")
+        except subprocess.CalledProcessError as e:
+            raise Exception(e.output)
+        with open(tmp_out_filename, "rb") as f:
+            bytecode = f.read()
+        with open(tmp_out_filename + ".map") as f:
+            algod_sourcemap = json.load(f)
     return bytecode, SourceMap(algod_sourcemap)
 
 
-- 
2.43.0


From 33f595ed07a90a779cfedaa0269c01bb61e08d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 42/94] fix: parse nested expressions in linear time

Without memoization the parse time doubled or more with every level of nesting:
12 nested calls took minutes.
---
 tealish/tx_expressions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tealish/tx_expressions.py b/tealish/tx_expressions.py
index edfc4a5..4d57098 100644
--- a/tealish/tx_expressions.py
+++ b/tealish/tx_expressions.py
@@ -14,6 +14,7 @@ tealish_mm = metamodel_from_file(
     use_regexp_group=True,
     skipws=True,
     ws=" \t",
+    memoization=True,
     debug=False,
     classes=class_provider,
 )
-- 
2.43.0


From 3d56ce0e8ef81c970bfc8a1bb56cad5a1135d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 43/94] fix: reject integers beyond 64 bits and ignore leading
 zeros in constants

---
 tealish/expression_nodes.py |  4 ++++
 tealish/nodes.py            | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 9edfdb1..018d8a8 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -29,6 +29,10 @@ class Integer(BaseNode):
         self.type = UIntType(size)
         self.parent = parent
 
+    def process(self) -> None:
+        if self.value >= 2**64:
+            raise CompileError(f"Integer {self.value} exceeds 64 bits", node=self)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"pushint {self.value}")
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 6659563..1b1bb06 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -179,6 +179,13 @@ class LiteralInt(Literal):
     pattern = r"(?P<value>[0-9]+)$"
     value: int
 
+    def __init__(
+        self, line: str, parent: Node, compiler: "TealishCompiler"
+    ) -> None:
+        super().__init__(line, parent, compiler)
+        # Leading zeros would make it octal in TEAL
+        self.value = int(self.value)
+
     def type(self) -> UIntType:
         return UIntType()
 
@@ -476,6 +483,10 @@ class Const(LineStatement):
                 f"Incorrect type {self.literal.type()} for const {tealish_type}",
                 node=self,
             )
+        if isinstance(self.literal, LiteralInt) and self.literal.value >= 2**64:
+            raise CompileError(
+                f"Integer {self.literal.value} exceeds 64 bits", node=self
+            )
         if self.name in self.get_scope().consts:
             # TEAL macros are global so redefining one would also change outer uses
             raise CompileError(f'Redefinition of constant "{self.name}"', node=self)
-- 
2.43.0


From 0f9b5eebd28c30d24f3bc74bf86ff37a1fbd46e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 44/94] fix: do not split returned strings at escaped quotes

---
 tealish/nodes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 1b1bb06..a6b218b 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -2114,8 +2114,13 @@ class BoxDeclaration(LineStatement):
 def split_return_args(s):
     parentheses = 0
     quotes = False
+    escaped = False
     for i in range(len(s)):
-        if s[i] == '"':
+        if escaped:
+            escaped = False
+        elif quotes and s[i] == "\\":
+            escaped = True
+        elif s[i] == '"':
             quotes = not quotes
         if not quotes:
             if s[i] == "(":
-- 
2.43.0


From e1f60d1164217a87f372fb45ec151914f8d9d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 45/94] fix: reject op fields used as values

---
 tealish/expression_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 018d8a8..ea8dd59 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -131,6 +131,10 @@ class Enum(BaseNode):
         self.value = value
 
     def write_teal(self, writer: "TealWriter") -> None:
+        if self.value is None:
+            raise CompileError(
+                f'"{self.name}" can only be used as an immediate argument', node=self
+            )
         if isinstance(self.type, IntType):
             writer.write(self, f"pushint {self.value} // {self.name}")
         elif isinstance(self.type, BytesType):
-- 
2.43.0


From 0c3f6585c4446bf8d156727d741c49d205f0a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 46/94] fix: do not assert that values cast to unsized bytes
 are empty

---
 tealish/stdlib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 575b221..c1e33c7 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -147,8 +147,12 @@ class Cast(FunctionCall):
         elif isinstance(self.expression.type, BytesType) and isinstance(
             self.type, BytesType
         ):
-            self.expression = BytesSizeAssertionWrapper(self.expression, self.type.size)
-            self.expression.process()
+            # All sizes are valid for types without a size
+            if self.type.size:
+                self.expression = BytesSizeAssertionWrapper(
+                    self.expression, self.type.size
+                )
+                self.expression.process()
         else:
             raise CompileError(
                 f"Unexpected cast from {self.expression.type} to {self.type}", node=self
-- 
2.43.0


From 2c3ce62d2f7d5ae63368066c56f961b7d77578e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 47/94] fix: support Cast from any to sized bytes as documented

---
 tealish/stdlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index c1e33c7..1a30330 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -144,8 +144,9 @@ class Cast(FunctionCall):
             # Int -> Int
             self.expression = UIntSizeAssertionWrapper(self.expression, self.type.size)
             self.expression.process()
-        elif isinstance(self.expression.type, BytesType) and isinstance(
-            self.type, BytesType
+        elif isinstance(self.type, BytesType) and (
+            isinstance(self.expression.type, BytesType)
+            or (isinstance(self.expression.type, AnyType) and self.type.size)
         ):
             # All sizes are valid for types without a size
             if self.type.size:
-- 
2.43.0


From 62ed05f976be91c26ad0dfa08a60fd5a664d8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 48/94] fix: do not leave the counters of for _ loops below
 return values

---
 tealish/nodes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a6b218b..d3d5ac8 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1594,10 +1594,17 @@ class For_Statement(InlineStatement):
         return node
 
     def process(self) -> None:
+        self.var: Optional[Var] = None
+        if self.is_descendant_of(Func):
+            # A counter on the stack would be left below the return values
+            self.var = self.declare_scratch_var(f"_{self.start_label}", "int")
         for n in self.nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
+        if self.var is not None:
+            ForStatement.write_teal(self, writer)  # type: ignore
+            return
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         writer.level += 1
         writer.write(self, self.start)
-- 
2.43.0


From 0f48390bcb78c253756d145b3cc011f036acf176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 49/94] fix: make itxnas and gitxnas usable

---
 tealish/langspec.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index 9aa0736..ab1d86c 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -100,6 +100,15 @@ field_types = {
 
 
 # Names of the immediate fields of ops that are not listed in langspec.json.
+_array_fields = [
+    "ApplicationArgs",
+    "Accounts",
+    "Assets",
+    "Applications",
+    "Logs",
+    "ApprovalProgramPages",
+    "ClearStateProgramPages",
+]
 _ecdsa_curves = ["Secp256k1", "Secp256r1"]
 op_fields = {
     "ecdsa_verify": _ecdsa_curves,
@@ -109,6 +118,8 @@ op_fields = {
     "json_ref": ["JSONString", "JSONUint64", "JSONObject"],
     "vrf_verify": ["VrfAlgorand"],
     "block": ["BlkSeed", "BlkTimestamp"],
+    "itxnas": _array_fields,
+    "gitxnas": _array_fields,
 }
 
 
-- 
2.43.0


From bc7514ba276f6a946c2ad64c3e1568116fa1e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 50/94] fix: do not mix up the counters of nested for _ loops

---
 tealish/nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index d3d5ac8..5387506 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1595,8 +1595,12 @@ class For_Statement(InlineStatement):
 
     def process(self) -> None:
         self.var: Optional[Var] = None
-        if self.is_descendant_of(Func):
+        if any(
+            self.is_descendant_of(node_type)
+            for node_type in (Func, WhileStatement, ForStatement, For_Statement)
+        ):
             # A counter on the stack would be left below the return values
+            # or above the counter of an enclosing loop
             self.var = self.declare_scratch_var(f"_{self.start_label}", "int")
         for n in self.nodes:
             n.process()
-- 
2.43.0


From 5277d2d3d85ca4f16c25b786c0b44f17f7e5a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 51/94] fix: check the types of the arguments of Concat and
 ARC28Event

---
 tealish/stdlib.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 1a30330..dcba815 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -28,6 +28,14 @@ class FunctionCall(BaseNode):
         for arg in self.args:
             arg.process()
 
+    def process_bytes(self, arg: "Node") -> None:
+        self.process_value(arg)
+        if not BytesType().can_hold(arg.type):
+            raise CompileError(
+                f"Incorrect type {arg.type} for {self.name}. Expected bytes.",
+                node=self,
+            )
+
     def _tealish(self) -> str:
         args = [a.tealish() for a in self.args]
         return f"{self.name}({', '.join(args)})"
@@ -472,7 +480,7 @@ class Concat(FunctionCall):
 
     def process(self) -> None:
         for arg in self.args:
-            self.process_value(arg)
+            self.process_bytes(arg)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -502,7 +510,7 @@ class ARC28Event(FunctionCall):
         self.signature = self.args[0].value
         self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
-            self.process_value(arg)
+            self.process_bytes(arg)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 638e9ae77145cf05c2d7edac1ea821c846f17428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 52/94] fix: check the number and kinds of arguments of
 standard library functions

---
 tealish/expression_nodes.py |  1 +
 tealish/stdlib.py           | 66 ++++++++++++++++++++++++++++++++-----
 2 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index ea8dd59..0bc8a0c 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -259,6 +259,7 @@ class StdLibFunctionCall(BaseNode):
             raise CompileError(f'Unknown Tealish function "{self.name}"', node=self)
 
     def process(self) -> None:
+        self.func_call.check_num_args()
         self.func_call.process()
         self.type = self.func_call.type
         self.value = getattr(self.func_call, "value", None)
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index dcba815..69c7fbd 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -1,9 +1,9 @@
-from typing import List, Optional, Union
+from typing import Any, List, Optional, Union
 from Cryptodome.Hash import SHA512
 from tealish import TealWriter
 from tealish.base import BaseNode
 from tealish.errors import CompileError, warning
-from tealish.expression_nodes import Integer
+from tealish.expression_nodes import Bytes, Integer
 from tealish.nodes import Node
 from tealish.types import (
     AVMType,
@@ -17,6 +17,10 @@ from tealish.types import (
 
 
 class FunctionCall(BaseNode):
+    # Number of arguments, None for any number
+    min_args: Optional[int] = None
+    max_args: Optional[int] = None
+
     def __init__(self, args: List["Node"], parent: Optional[BaseNode] = None) -> None:
         self.args = args
         self.parent = parent
@@ -28,6 +32,25 @@ class FunctionCall(BaseNode):
         for arg in self.args:
             arg.process()
 
+    def check_num_args(self) -> None:
+        n = len(self.args)
+        if (self.min_args is not None and n < self.min_args) or (
+            self.max_args is not None and n > self.max_args
+        ):
+            raise CompileError(
+                f"Incorrect number of args ({n}) for {self.name}!", node=self
+            )
+
+    def literal_arg(self, i: int, literal_type: type) -> Any:
+        """Value of an argument that must be a literal"""
+        arg = self.args[i]
+        if not isinstance(arg, literal_type):
+            raise CompileError(
+                f"Arg {i} of {self.name} must be a literal {literal_type.__name__}",
+                node=self,
+            )
+        return arg.value
+
     def process_bytes(self, arg: "Node") -> None:
         self.process_value(arg)
         if not BytesType().can_hold(arg.type):
@@ -76,10 +99,14 @@ class Bzero(FunctionCall):
     """bzero but with a return type of bytes[n] when arg n is a constant at compile time."""
 
     name = "bzero"
+    min_args = 1
+    max_args = 1
 
     def process(self) -> None:
+        self.check_num_args()
         arg = self.args[0]
         arg.process()
+        self.check_arg_types(self.name, self.args)
         # Integer literals and some other functions set value to a constant at compile time
         if hasattr(arg, "value"):
             self.type = BytesType(arg.value)
@@ -100,6 +127,8 @@ class Convert(FunctionCall):
     """
 
     name = "Convert"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.type = get_type_instance(self.args[1].name)
@@ -138,6 +167,8 @@ class Cast(FunctionCall):
     """
 
     name = "Cast"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.type = get_type_instance(self.args[1].name)
@@ -173,11 +204,13 @@ class Cast(FunctionCall):
 
 class ToBytes(FunctionCall):
     name = "ToBytes"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.args[0].process()
         self.expression = self.args[0]
-        size = self.args[1].value
+        size = self.literal_arg(1, Integer)
         self.type = BytesType(size)
         if not isinstance(self.expression.type, (IntType, BigIntType)):
             raise CompileError(
@@ -201,6 +234,8 @@ class ToBytes(FunctionCall):
 
 class FromBytes(FunctionCall):
     name = "FromBytes"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.args[0].process()
@@ -366,6 +401,7 @@ class TealWrapper(BaseNode):
 
 class EnsureType(FunctionCall):
     name = "EnsureType"
+    min_args = 2
 
     def process(self) -> None:
         types = [get_type_instance(a.name) for a in self.args[1:]]
@@ -379,6 +415,7 @@ class EnsureType(FunctionCall):
 
 class UncheckedCast(FunctionCall):
     name = "UncheckedCast"
+    min_args = 2
 
     def process(self) -> None:
         if len(self.args) == 2:
@@ -393,6 +430,8 @@ class UncheckedCast(FunctionCall):
 
 class Error(FunctionCall):
     name = "Error"
+    min_args = 0
+    max_args = 0
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "err")
@@ -400,6 +439,8 @@ class Error(FunctionCall):
 
 class SizeOf(FunctionCall):
     name = "SizeOf"
+    min_args = 1
+    max_args = 1
 
     def process(self):
         type = get_type_instance(self.args[0].name)
@@ -412,11 +453,13 @@ class SizeOf(FunctionCall):
 
 class Rpad(FunctionCall):
     name = "Rpad"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.literal_arg(1, Integer)
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
@@ -444,11 +487,13 @@ class Rpad(FunctionCall):
 
 class Lpad(FunctionCall):
     name = "Lpad"
+    min_args = 2
+    max_args = 2
 
     def process(self) -> None:
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.literal_arg(1, Integer)
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
@@ -477,6 +522,7 @@ class Lpad(FunctionCall):
 
 class Concat(FunctionCall):
     name = "Concat"
+    min_args = 1
 
     def process(self) -> None:
         for arg in self.args:
@@ -492,22 +538,24 @@ class Concat(FunctionCall):
 
 class Address(FunctionCall):
     name = "Address"
+    min_args = 1
+    max_args = 1
 
     def process(self) -> None:
-        for arg in self.args:
-            arg.process()
+        self.address = self.literal_arg(0, Bytes)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        value = self.args[0].value
+        value = self.address
         writer.write(self, f"addr {value}")
 
 
 class ARC28Event(FunctionCall):
     name = "ARC28Event"
+    min_args = 1
 
     def process(self) -> None:
-        self.signature = self.args[0].value
+        self.signature = self.literal_arg(0, Bytes)
         self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
             self.process_bytes(arg)
-- 
2.43.0


From f9fed2c52ed4f59b44098a7d3a6d659b3c9bf1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 53/94] fix: reject unknown fields of inner transactions

---
 tealish/nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5387506..fa064db 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1055,6 +1055,12 @@ class InnerTxn(InlineStatement):
         for node in self.child_nodes:
             if not isinstance(node, InnerTxnFieldSetter):
                 continue
+            try:
+                self.lookup_op_field("itxn_field", node.field_name.strip())
+            except KeyError:
+                raise CompileError(
+                    f'Unknown inner transaction field "{node.field_name}"', node=node
+                )
             if node.index is not None:
                 index = int(node.index)
                 n = len(self.array_fields[node.field_name])
-- 
2.43.0


From cf651855d8e33fc8f6daf0fbc5355fbd9d7b0a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 54/94] fix: reject text after else: and elif conditions

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fa064db..92966f9 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1197,7 +1197,7 @@ class IfThen(Node):
 
 class Elif(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):"
+    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):$"
     condition: GenericExpression
     modifier: str
 
@@ -1242,7 +1242,7 @@ class Elif(Node):
 
 class Else(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"else:"
+    pattern = r"else:$"
 
     def __init__(
         self, line: str, parent: Optional[Node], compiler: Optional["TealishCompiler"]
-- 
2.43.0


From 0cddb9482999f17e0ae1e1fd2b72185ec3456e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 55/94] fix: count TEAL lines of program counters from 1 like
 all other lines

---
 tealish/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index d78891d..0e6c4e0 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -118,7 +118,8 @@ class TealishMap:
     ) -> None:
         if not isinstance(sourcemap, SourceMap):
             sourcemap = SourceMap(sourcemap)
-        self.pc_teal = dict(sourcemap.pc_to_line)
+        # Lines are counted from 0 in TEAL source maps and from 1 here
+        self.pc_teal = {pc: line + 1 for pc, line in sourcemap.pc_to_line.items()}
 
     def as_dict(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 26e7418be8868f6ff1acca6cee104ad7bf5193de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 56/94] fix: look up TEAL lines by Tealish line in the map of a
 compilation

---
 tealish/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 696a735..6cc434e 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -191,10 +191,9 @@ class TealishCompiler:
             return self.nodes[0].tealish()
 
     def get_map(self) -> TealishMap:
-        map = TealishMap()
-        map.teal_tealish = dict(self.source_map)
-        map.errors = dict(self.error_messages)
-        return map
+        return TealishMap(
+            {"teal_tealish": self.source_map, "errors": self.error_messages}
+        )
 
     def get_structs(self):
         return dict(self.structs)
-- 
2.43.0


From a721b5babcbd8a6693ef4bb7ad6389701482b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 57/94] fix: keep the return types of functions as written when
 formatting

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 92966f9..ab07aed 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1728,7 +1728,7 @@ class Func(InlineStatement):
 
     def _tealish(self) -> str:
         returns = (
-            (" " + (", ".join(str(r) for r in self.returns))) if self.returns else ""
+            (" " + self.return_type.replace(",", ", ")) if self.returns else ""
         )
         output = f"func {self.name}({self.args.tealish()}){returns}:\n"
         for n in self.child_nodes:
-- 
2.43.0


From eb24a502b8256828b2524a0874bc0fe94cc41259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 58/94] fix: map the lines of elif and else to their own source
 lines

---
 tealish/nodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index ab07aed..92eb247 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1401,8 +1401,8 @@ class IfStatement(InlineStatement):
             writer.level -= 1
 
         for i, n in enumerate(self.elifs):
-            writer.write(self, f"{n.label}:")
-            writer.write(self, f"// tl:{n.line_no}: {n.line}")
+            writer.write(n, f"{n.label}:")
+            writer.write(n, f"// tl:{n.line_no}: {n.line}")
             writer.level += 1
             n.write_teal(writer)
             if i != (len(self.elifs) - 1) or self.else_:
@@ -1411,8 +1411,8 @@ class IfStatement(InlineStatement):
                 writer.level -= 1
             writer.level -= 1
         if self.else_:
-            writer.write(self, f"{self.else_.label}:")
-            writer.write(self, f"// tl:{self.else_.line_no}: {self.else_.line}")
+            writer.write(self.else_, f"{self.else_.label}:")
+            writer.write(self.else_, f"// tl:{self.else_.line_no}: {self.else_.line}")
             writer.level += 1
             self.else_.write_teal(writer)
             writer.level -= 1
-- 
2.43.0


From 28cc0ac6dcd82d2c906cf727a0c7582c7a35cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 59/94] fix: comments directly after labels and base64
 constants in minify_teal and strip_comments

---
 tealish/utils.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 0e6c4e0..3ba3ebc 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -18,6 +18,19 @@ def split_outside_quotes(line: str, separator: str) -> Tuple[str, Optional[str]]
     return line, None
 
 
+TEAL_TOKEN = (
+    r'"(?:\\.|[^"\\])*"|(?:base64|b64)(?:\s+|\()[^\s;)]+\)?|//.*|;|(?:(?!//)[^\s;"])+'
+)
+
+
+def strip_comment(line: str) -> str:
+    """Remove the comment at the end of a line of TEAL"""
+    for match in re.finditer(TEAL_TOKEN, line):
+        if match.group().startswith("//"):
+            return line[: match.start()].strip()
+    return line.strip()
+
+
 def replace_labels(line: str, replacements: Dict[str, str]) -> str:
     """Replace the labels that are the targets of branches"""
     op = ""
@@ -33,7 +46,7 @@ def replace_labels(line: str, replacements: Dict[str, str]) -> str:
             return replacements.get(token, token)
         return token
 
-    return re.sub(r'"(?:\\.|[^"\\])*"|//.*|;|[^\s;"]+', replace, line)
+    return re.sub(TEAL_TOKEN, replace, line)
 
 
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
@@ -47,7 +60,7 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
         i = i + 1
         line = line.strip()
         if not (not line or line.startswith("//")):
-            code = split_outside_quotes(line, "//")[0].strip()
+            code = strip_comment(line)
             if code.endswith(":"):
                 label = code[:-1]
                 # duplicate labels get compressed into 1
@@ -71,8 +84,7 @@ def strip_comments(teal_lines: List[str]) -> List[str]:
     for line in teal_lines:
         line = line.strip()
         if not (not line or line.startswith("//")):
-            line = split_outside_quotes(line, "//")[0].strip()
-            output.append(line)
+            output.append(strip_comment(line))
     return output
 
 
-- 
2.43.0


From c3baa61d2039332a8222ccf5ac69375143c6dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 60/94] fix: check the immediates of opcode calls and that
 indexed fields are arrays

---
 tealish/expression_nodes.py | 22 +++++++++++++++++++++-
 tealish/langspec.py         | 12 ++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0bc8a0c..bf08091 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -296,7 +296,10 @@ class OpCall(BaseNode):
         num_args = len(op.args)
 
         self.args = self.args[op.immediate_args_num :]
-        if len(self.args) != num_args:
+        if op.immediate_args_num < 0 or "branch offset" in op.immediate_note:
+            raise CompileError(f"{op.name} can not be called", node=self)
+        if len(self.args) != num_args or len(immediates) != op.immediate_args_num:
+            num_args += op.immediate_args_num
             raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
         for i, arg in enumerate(self.args):
             arg.process()
@@ -316,6 +319,11 @@ class OpCall(BaseNode):
                     f"{x} can not be used as an immediate argument for {op.name}",
                     node=self,
                 )
+            if not op.is_valid_immediate(i, x.name if isinstance(x, Enum) else x.value):
+                raise CompileError(
+                    f"{immediates[i]} is not a valid immediate argument for {op.name}",
+                    node=self,
+                )
         self.immediates = [str(x) for x in immediates]
         self.immediate_args = " ".join(self.immediates)
         returns = op.returns_types
@@ -402,6 +410,15 @@ class TxnField(BaseNode):
         return f"Txn.{self.field}"
 
 
+def check_array_field(
+    node: Union["TxnArrayField", "GroupTxnArrayField", "InnerTxnArrayField"]
+) -> None:
+    if node.field not in node.lookup_op("txna").arg_enum:
+        raise CompileError(f"{node.field} is not an array field", node=node)
+    if isinstance(node.arrayIndex, Integer) and node.arrayIndex.value > 255:
+        raise CompileError(f"Array index {node.arrayIndex.value} > 255", node=node)
+
+
 class TxnArrayField(BaseNode):
     def __init__(
         self,
@@ -416,6 +433,7 @@ class TxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        check_array_field(self)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.process_value(self.arrayIndex)
@@ -479,6 +497,7 @@ class GroupTxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("gtxn", self.field)
+        check_array_field(self)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.process_value(self.index)
@@ -590,6 +609,7 @@ class InnerTxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        check_array_field(self)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.process_value(self.arrayIndex)
diff --git a/tealish/langspec.py b/tealish/langspec.py
index ab1d86c..691a0b5 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -1,5 +1,6 @@
 import importlib
 import os
+import re
 import requests
 import tealish
 import json
@@ -233,6 +234,17 @@ class Op:
                 break
 
 
+    def is_valid_immediate(self, i: int, value: Any) -> bool:
+        """Check a field name or number against the description of the immediate"""
+        notes = re.findall(r"\{(u?int8) ([^}]*)\}", self.immediate_note)
+        if i >= len(notes):
+            return True
+        kind, description = notes[i]
+        if self.arg_enum and not re.search(r"group index|array index", description):
+            return value in self.arg_enum
+        return isinstance(value, int) and 0 <= value < (256 if kind == "uint8" else 128)
+
+
 class LangSpec:
     def __init__(self, spec: Dict[str, Any]) -> None:
         self.is_packaged = False
-- 
2.43.0


From 61a41dfb0ce7c232664d3028ec248cdd7a257ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 61/94] fix: addr values have a size of 32 bytes in structs

---
 tealish/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index 4705e05..0720ee6 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -128,7 +128,9 @@ class BigIntType(BytesType):
 class AddrType(BytesType):
     name = "addr"
     avm_type = AVMType.bytes
-    size = 32
+
+    def __init__(self):
+        super().__init__(32)
 
 
 class StructField:
-- 
2.43.0


From 13e924018136942baad417f1280764c0a3b26cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 62/94] fix: reject struct fields with a suffix on the type
 name

---
 tealish/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tealish/types.py b/tealish/types.py
index 0720ee6..4dea62e 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -227,16 +227,16 @@ def get_type_instance(type_name):
         return UInt8Type()
     elif type_name == "uint64":
         return IntType()
-    elif m := re.match(r"bytes\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"bytes\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return BytesType(size)
-    elif m := re.match(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
+    elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
         struct_name = m.groups()[0]
         return BoxType(struct_name=struct_name)
-    elif m := re.match(r"([A-Z][a-zA-Z0-9_]+)", type_name):
+    elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]+)", type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
-    elif m := re.match(r"uint8\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return ArrayType(UInt8Type, size)
     else:
-- 
2.43.0


From f46ff8602e4ba97784683812c9ec55697f4dc25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 63/94] fix: expressions parsed in several threads at once

---
 tealish/tx_expressions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tealish/tx_expressions.py b/tealish/tx_expressions.py
index 4d57098..24c851a 100644
--- a/tealish/tx_expressions.py
+++ b/tealish/tx_expressions.py
@@ -1,4 +1,5 @@
 import importlib.resources
+import threading
 import tealish
 from textx.metamodel import metamodel_from_file
 from .expression_nodes import class_provider
@@ -20,6 +21,11 @@ tealish_mm = metamodel_from_file(
 )
 
 
+# The grammar and its classes hold state while they are used to parse
+parser_lock = threading.RLock()
+
+
 def parse_expression(source: str) -> "Node":
-    node = tealish_mm.model_from_str(source)
+    with parser_lock:
+        node = tealish_mm.model_from_str(source)
     return node
-- 
2.43.0


From ed58224a54a7f10aac8d0fb8bec722447a9bebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 64/94] fix: only remove the .tl extension from output file
 names

---
 tealish/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 2809a70..c670215 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -30,7 +30,7 @@ def _build(
         output_path = pathlib.Path(path).parent / "build"
         output_path.mkdir(exist_ok=True)
         filename = pathlib.Path(path).name
-        base_filename = filename.replace(".tl", "")
+        base_filename = filename[:-3] if filename.endswith(".tl") else filename
 
         # Teal
         teal_filename = output_path / f"{base_filename}.teal"
-- 
2.43.0


From a81812eddcf1cf8da1ce8c2ebb6fec4613761a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 65/94] fix: report the output of goal as text

---
 tealish/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/build.py b/tealish/build.py
index f3f315b..f323641 100644
--- a/tealish/build.py
+++ b/tealish/build.py
@@ -19,7 +19,7 @@ def assemble_with_goal(teal: str) -> Tuple[bytes, SourceMap]:
         except FileNotFoundError:
             raise Exception("goal not found in path")
         except subprocess.CalledProcessError as e:
-            raise Exception(e.output)
+            raise Exception(e.output.decode(errors="replace"))
         with open(tmp_out_filename, "rb") as f:
             bytecode = f.read()
         with open(tmp_out_filename + ".map") as f:
-- 
2.43.0


From 862a6ab44bbb9763acd0bd83288ed7ddff17b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 66/94] fix: fetch language specifications of branches with
 http or blob in their names

---
 tealish/langspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index 691a0b5..b8376e6 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -329,7 +329,7 @@ def compare_langspecs(a: LangSpec, b: LangSpec) -> Tuple[List[Any], List[Any]]:
 
 
 def fetch_langspec(url: str) -> LangSpec:
-    if "http" not in url:
+    if not url.startswith(("http://", "https://")):
         # assume branch name for go-algorand
         branch = url
         url = (
@@ -337,7 +337,7 @@ def fetch_langspec(url: str) -> LangSpec:
             "/data/transactions/logic/langspec.json"
         )
     if "github.com" in url and "blob" in url:
-        url = url.replace("blob", "raw")
+        url = url.replace("/blob/", "/raw/", 1)
     r = requests.get(url)
     r.raise_for_status()
     langspec_dict = r.json()
-- 
2.43.0


From c8c7f01ca397d81ecf9ebb1b6e5f3c9339e21106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 67/94] fix: accept field names with digits

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index d886127..d8d8eae 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -24,7 +24,7 @@ StdLibFunctionCall:
     ')')
 ;
 Field: TxnArrayField | TxnField | InnerTxnArrayField | InnerTxnField | GroupTxnArrayField | GroupTxnField | GlobalField;
-FieldName: /([A-Z][A-Za-z_]+)/;
+FieldName: /([A-Z][A-Za-z_0-9]+)/;
 TxnField: 'Txn.' field=FieldName;
 TxnArrayField: 'Txn.' field=FieldName '[' arrayIndex=Expression ']';
 GroupTxnField: 'Gtxn[' index=GroupIndex '].' field=FieldName;
-- 
2.43.0


From 8a6d8ebc62ebaaca723e37ec28a81f32d751933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 68/94] fix: branch names are not URLs of blobs

---
 tealish/langspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index b8376e6..b958744 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -336,7 +336,7 @@ def fetch_langspec(url: str) -> LangSpec:
             f"https://github.com/algorand/go-algorand/raw/{branch}"
             "/data/transactions/logic/langspec.json"
         )
-    if "github.com" in url and "blob" in url:
+    elif "github.com" in url and "/blob/" in url:
         url = url.replace("/blob/", "/raw/", 1)
     r = requests.get(url)
     r.raise_for_status()
-- 
2.43.0


From 3a82ca6faae56061bd76a07be19189fe4822ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 69/94] fix: constants with names that can not be used are
 rejected

Only names in upper case are parsed as constants in expressions. Others
could be declared and then replaced fields of that name in the TEAL.
---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 92eb247..71ab2ce 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -466,7 +466,7 @@ class Blank(LineStatement):
 class Const(LineStatement):
     pattern = (
         r"const (?P<tealish_type>\bint\b|\bbytes\b|\bbigint|addr\b) "
-        + r"(?P<name>[A-Z][a-zA-Z0-9_]*) = (?P<literal>.*)$"
+        + r"(?P<name>[A-Z][A-Z0-9_]*) = (?P<literal>.*)$"
     )
     tealish_type: TealishType
     name: str
-- 
2.43.0


From ae5082323c6b53f14ebb775b5552b9b18e403cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 70/94] fix: labels with the name of a constant are reported

The macro of the constant also replaced the label, so that the TEAL could
not be assembled.
---
 tealish/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 6cc434e..beccb61 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -173,12 +173,19 @@ class TealishCompiler:
 
     def check_labels(self) -> None:
         labels = set()
+        # Macros would also replace labels of the same name
+        constants = set(re.findall(r"(?m)^\s*#define (\S+)", "\n".join(self.output)))
         for i, line in enumerate(self.output):
             match = re.match(r'\s*([^\s;"/#]+):(\s|$)', line)
             if match and match[1] in labels:
                 raise CompileError(
                     f'Duplicate label "{match[1]}" at line {self.source_map[i + 1]}'
                 )
+            if match and match[1] in constants:
+                raise CompileError(
+                    f'Label "{match[1]}" at line {self.source_map[i + 1]} '
+                    + "is also the name of a constant"
+                )
             if match:
                 labels.add(match[1])
 
-- 
2.43.0


From 2a06b0cd1f271083f65a2b2ef8b69e04f5594540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 71/94] fix: only numbers are accepted as relative group
 indices

A sign could be followed by another one and by numbers of more than 64
bits, for which there is no valid TEAL.
---
 tealish/expression_nodes.py    | 21 +++++++++++++++++----
 tealish/tealish_expressions.tx |  4 ++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index bf08091..3a868ce 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -533,12 +533,22 @@ class GroupTxnArrayField(BaseNode):
         return f"Gtxn[{self.index.tealish()}].{self.field}[{self.arrayIndex.tealish()}]"
 
 
+def check_relative_index(
+    node: Union["PositiveGroupIndex", "NegativeGroupIndex"]
+) -> None:
+    if node.index >= 2**64:
+        raise CompileError(f"Integer {node.index} exceeds 64 bits", node=node)
+
+
 class PositiveGroupIndex(BaseNode):
-    def __init__(self, index: int, parent: Optional["BaseNode"] = None) -> None:
-        self.index = index
+    def __init__(self, index: str, parent: Optional["BaseNode"] = None) -> None:
+        self.index = int(index)
         self.type = IntType()
         self.parent = parent
 
+    def process(self) -> None:
+        check_relative_index(self)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "txn GroupIndex")
         writer.write(self, f"pushint {self.index}")
@@ -549,11 +559,14 @@ class PositiveGroupIndex(BaseNode):
 
 
 class NegativeGroupIndex(BaseNode):
-    def __init__(self, index: int, parent: Optional[BaseNode] = None) -> None:
-        self.index = index
+    def __init__(self, index: str, parent: Optional[BaseNode] = None) -> None:
+        self.index = int(index)
         self.type = IntType()
         self.parent = parent
 
+    def process(self) -> None:
+        check_relative_index(self)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "txn GroupIndex")
         writer.write(self, f"pushint {self.index}")
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index d8d8eae..c829a28 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -40,8 +40,8 @@ Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
 GroupIndex: NegativeGroupIndex | PositiveGroupIndex | Expression;
-NegativeGroupIndex: '-' index=INT;
-PositiveGroupIndex: '+' index=INT;
+NegativeGroupIndex: '-' index=/[0-9]+/;
+PositiveGroupIndex: '+' index=/[0-9]+/;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
 ByteString: /"((?:\\.|[^"\\])*)"/;
-- 
2.43.0


From e8183696e39b946283d903ab595bbe1576a04e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 72/94] fix: structs with a name of one letter can be used

They could be defined, but not used as a type.
---
 tealish/nodes.py | 2 +-
 tealish/types.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 71ab2ce..e619186 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1875,7 +1875,7 @@ class DecoratedFunc(InlineStatement):
 class StructFieldDefinition(InlineStatement):
     pattern = (
         r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)$"
+        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]*(\[\d+\])?)$"
     )
     field_name: str
     data_type: str
diff --git a/tealish/types.py b/tealish/types.py
index 4dea62e..55ea5ae 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -230,10 +230,10 @@ def get_type_instance(type_name):
     elif m := re.fullmatch(r"bytes\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return BytesType(size)
-    elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
+    elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]*)>", type_name):
         struct_name = m.groups()[0]
         return BoxType(struct_name=struct_name)
-    elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]+)", type_name):
+    elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]*)", type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
     elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
-- 
2.43.0


From 9e85ccc771e0cdc3c817e76af084b2a370e219a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 73/94] fix: constants can be empty byte strings

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index e619186..88d716c 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -33,7 +33,7 @@ from .types import (
 from .scope import Scope
 
 LITERAL_INT = r"[0-9]+"
-LITERAL_BYTE_STRING = r'"((?:\\.|[^"\\])+)"'
+LITERAL_BYTE_STRING = r'"((?:\\.|[^"\\])*)"'
 LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
-- 
2.43.0


From 3bd6738ea50c09ef563bde415a0e5844c35abbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 74/94] fix: variables can be named inner_group_flag

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 88d716c..26b8e65 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -339,7 +339,7 @@ class Program(Node):
         if self.compiler.use_inner_txns_macro:
             scope = self.get_current_scope()
             var = scope.declare_scratch_var(
-                "inner_group_flag", IntType, self.compiler.max_slot + 1
+                "_inner_group_flag", IntType, self.compiler.max_slot + 1
             )
             self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)
 
@@ -348,7 +348,7 @@ class Program(Node):
             n.write_teal(writer)
 
         if self.compiler.use_inner_txns_macro:
-            var = self.get_var("inner_group_flag")
+            var = self.get_var("_inner_group_flag")
             teal = f"""
             _itxn_group_begin:
               load {var.scratch_slot}; !; assert // ensure no group active
-- 
2.43.0


From 84eaf7b1be9c0565352120653f74dc37581b284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 75/94] fix: FromBytes checks the size of the bytes

---
 tealish/stdlib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 69c7fbd..c9bac44 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -251,6 +251,12 @@ class FromBytes(FunctionCall):
                 node=self,
             )
 
+        if isinstance(self.type, BytesType) and not self.type.can_hold(
+            self.expression.type
+        ):
+            self.expression = BytesSizeAssertionWrapper(self.expression, self.type.size)
+            self.expression.process()
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.expression)
         if isinstance(self.type, IntType):
-- 
2.43.0


From a25020d396c46cf765f2f157422c466e11a5fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 76/94] fix: ToBytes of a bigint has the size asked for

---
 tealish/stdlib.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index c9bac44..232b6ed 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -221,15 +221,20 @@ class ToBytes(FunctionCall):
     def write_teal(self, writer: "TealWriter") -> None:
         expression_type = self.expression.type
         writer.write(self, self.expression)
+        size = self.type.size
         if isinstance(expression_type, IntType):
             writer.write(self, "itob")
-        if self.type.size and self.type.size < 8:
-            writer.write(self, f"extract {8 - self.type.size} {self.type.size}")
-        elif self.type.size > 8:
-            writer.write(self, f"// zpad({self.type.size})")
-            writer.write(self, f"pushint {self.type.size}")
+        if size and size < 8 and isinstance(expression_type, IntType):
+            writer.write(self, f"extract {8 - size} {size}")
+        elif size > 8 or (size and isinstance(expression_type, BigIntType)):
+            writer.write(self, f"// zpad({size})")
+            writer.write(self, f"pushint {size}")
             writer.write(self, "bzero")
             writer.write(self, "b|")
+        if size and isinstance(expression_type, BigIntType):
+            # A bigint can have any number of bytes: keep the last ones
+            writer.write(self, ["dup", "len", f"pushint {size}", "-"])
+            writer.write(self, [f"pushint {size}", "extract3"])
 
 
 class FromBytes(FunctionCall):
-- 
2.43.0


From ba2da249604e116d29e2e6f8f622919da3300062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 77/94] fix: conditions, loop bounds, indices and exit values
 must be ints

---
 tealish/base.py             | 11 ++++++++++-
 tealish/expression_nodes.py | 10 +++++-----
 tealish/nodes.py            | 16 ++++++++++------
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 81835e3..a630915 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -159,13 +159,22 @@ class BaseNode:
         except Exception as e:
             raise CompileError(str(e), node=self)  # type: ignore
 
-    def process_value(self, expression: "Node") -> None:
+    def process_value(
+        self, expression: "Node", expected: AVMType = AVMType.any
+    ) -> None:
         """Process an expression that must leave exactly one value"""
         expression.process()
         if not is_single_value(expression.type):
             raise CompileError(
                 f'"{expression.tealish()}" is not a single value', node=self  # type: ignore
             )
+        avm_type = expression.type.avm_type  # type: ignore
+        if avm_type != expected and AVMType.any not in (avm_type, expected):
+            raise CompileError(
+                f'Incorrect type {expression.type} of "{expression.tealish()}". '
+                + f"Expected {expected.value}",
+                node=self,  # type: ignore
+            )
 
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         return lang_spec.get_field_type(namespace, name)
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 3a868ce..c050c02 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -436,7 +436,7 @@ class TxnArrayField(BaseNode):
         check_array_field(self)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
-            self.process_value(self.arrayIndex)
+            self.process_value(self.arrayIndex, AVMType.int)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
@@ -463,7 +463,7 @@ class GroupTxnField(BaseNode):
         self.type = self.get_field_type("gtxn", self.field)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
-            self.process_value(self.index)
+            self.process_value(self.index, AVMType.int)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
@@ -500,9 +500,9 @@ class GroupTxnArrayField(BaseNode):
         check_array_field(self)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
-            self.process_value(self.index)
+            self.process_value(self.index, AVMType.int)
         if not isinstance(self.arrayIndex, Integer):
-            self.process_value(self.arrayIndex)
+            self.process_value(self.arrayIndex, AVMType.int)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
@@ -625,7 +625,7 @@ class InnerTxnArrayField(BaseNode):
         check_array_field(self)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
-            self.process_value(self.arrayIndex)
+            self.process_value(self.arrayIndex, AVMType.int)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 26b8e65..b392657 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -522,7 +522,7 @@ class Exit(LineStatement):
     expression: GenericExpression
 
     def process(self) -> None:
-        self.process_value(self.expression)
+        self.process_value(self.expression, AVMType.int)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1218,7 +1218,7 @@ class Elif(Node):
         return node
 
     def process(self) -> None:
-        self.process_value(self.condition)
+        self.process_value(self.condition, AVMType.int)
         for n in self.child_nodes:
             n.process()
 
@@ -1374,7 +1374,7 @@ class IfStatement(InlineStatement):
         ):
             self.child_nodes[-1].next_label = self.end_label
 
-        self.process_value(self.condition)
+        self.process_value(self.condition, AVMType.int)
 
         if self.if_then is not None:
             self.if_then.process()
@@ -1479,7 +1479,7 @@ class WhileStatement(InlineStatement):
         return node
 
     def process(self) -> None:
-        self.process_value(self.condition)
+        self.process_value(self.condition, AVMType.int)
         for n in self.child_nodes:
             n.process()
 
@@ -1536,7 +1536,9 @@ class ForStatement(InlineStatement):
 
     def process(self) -> None:
         self.var = self.declare_scratch_var(self.var_name, "int")
-        for n in self.nodes:
+        self.process_value(self.start, AVMType.int)
+        self.process_value(self.end, AVMType.int)
+        for n in self.child_nodes:
             n.process()
         self.del_var(self.var_name)
 
@@ -1608,7 +1610,9 @@ class For_Statement(InlineStatement):
             # A counter on the stack would be left below the return values
             # or above the counter of an enclosing loop
             self.var = self.declare_scratch_var(f"_{self.start_label}", "int")
-        for n in self.nodes:
+        self.process_value(self.start, AVMType.int)
+        self.process_value(self.end, AVMType.int)
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 09f27af09353d0f337b5b7ec8b6de6bf98ecab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 78/94] fix: switch options must have the type of the switch
 value

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b392657..6ab8378 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -814,7 +814,7 @@ class Switch(InlineStatement):
     def process(self) -> None:
         self.process_value(self.expression)
         for node in self.options:
-            self.process_value(node.expression)
+            self.process_value(node.expression, self.expression.type.avm_type)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
-- 
2.43.0


From 3425caf4c48e370397161b789ff911ac6670ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 79/94] fix: name the line of a wrong inner transaction array
 index

---
 tealish/nodes.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 6ab8378..76e7730 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1067,16 +1067,9 @@ class InnerTxn(InlineStatement):
                 if n == index:
                     self.array_fields[node.field_name].append(node)
                 else:
-                    # TODO: this is required since the Node base class
-                    # accepts an Optional compiler.
-                    # I think this is wrong but will circle back
-                    lno: int = 0
-                    if self.compiler is not None:
-                        lno = self.compiler.line_no
-
                     raise ParseError(
                         f"Inccorrect field array index {index} "
-                        + f"(expected {n}) at line {lno}!"
+                        + f"(expected {n}) at line {node.line_no}!"
                     )
             else:
                 node.process_value(node.expression)
-- 
2.43.0


From 37ae6e30c55f955a97a5c15bb6d4972dc6412531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 80/94] fix: name the line of a struct field of an unknown type

---
 tealish/nodes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 76e7730..fce5c94 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1936,9 +1936,11 @@ class StructDefinition(InlineStatement):
                     f'Redefinition of field "{field_node.field_name}" '
                     + f"at line {field_node.line_no}"
                 )
-            node.struct.add_field(
-                field_node.field_name, get_type_instance(field_node.data_type)
-            )
+            try:
+                field_type = get_type_instance(field_node.data_type)
+            except KeyError as e:
+                raise ParseError(str(e) + f" at line {field_node.line_no}")
+            node.struct.add_field(field_node.field_name, field_type)
         try:
             get_struct(node.name)
         except KeyError:
-- 
2.43.0


From 0be2999582a2349ca965c3a56ec4133917c83cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 81/94] fix: name the line of the option at fault in errors of
 switch

---
 tealish/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fce5c94..7a82de9 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -814,7 +814,7 @@ class Switch(InlineStatement):
     def process(self) -> None:
         self.process_value(self.expression)
         for node in self.options:
-            self.process_value(node.expression, self.expression.type.avm_type)
+            node.process_value(node.expression, self.expression.type.avm_type)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -822,10 +822,10 @@ class Switch(InlineStatement):
             writer.write(self, self.expression)
             writer.write(self, node.expression)
             writer.write(self, "==")
-            b = self.get_block(node.block_name)
+            b = node.get_block(node.block_name)
             writer.write(self, f"bnz {b.label}")
         if self.else_:
-            b = self.get_block(self.else_.block_name)
+            b = self.else_.get_block(self.else_.block_name)
             writer.write(self, f"b {b.label} // else")
         else:
             writer.write(self, "err // unexpected value")
-- 
2.43.0


From 4a55e1b4b1234295c3174355aaebdae9b501531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:54 +0000
Subject: [PATCH 82/94] fix: fields after a struct field without a fixed size
 have no fixed place

---
 tealish/nodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7a82de9..af2252f 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1928,9 +1928,16 @@ class StructDefinition(InlineStatement):
                 )
 
         node.struct = StructType(node.name)
+        unsized_node: Optional[StructFieldDefinition] = None
         for field_node in node.child_nodes:
             if not isinstance(field_node, StructFieldDefinition):
                 continue
+            if unsized_node is not None:
+                # The offset of this field would depend on the value before it
+                raise ParseError(
+                    f'Field "{unsized_node.field_name}" must have a fixed size '
+                    + f"at line {unsized_node.line_no}"
+                )
             if field_node.field_name in node.struct.fields:
                 raise ParseError(
                     f'Redefinition of field "{field_node.field_name}" '
@@ -1940,6 +1947,8 @@ class StructDefinition(InlineStatement):
                 field_type = get_type_instance(field_node.data_type)
             except KeyError as e:
                 raise ParseError(str(e) + f" at line {field_node.line_no}")
+            if not field_type.size:
+                unsized_node = field_node
             node.struct.add_field(field_node.field_name, field_type)
         try:
             get_struct(node.name)
-- 
2.43.0


From 6adf3202b8a35badfa612818b41af493ca1f0da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:04 +0000
Subject: [PATCH 83/94] fix: bytes[0] and uint8[0] were bytes of any size

---
 tealish/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/types.py b/tealish/types.py
index 55ea5ae..d9e449d 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -227,7 +227,7 @@ def get_type_instance(type_name):
         return UInt8Type()
     elif type_name == "uint64":
         return IntType()
-    elif m := re.fullmatch(r"bytes\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"bytes\[(0*[1-9][0-9]*)\]", type_name):
         size = int(m.groups()[0])
         return BytesType(size)
     elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]*)>", type_name):
@@ -236,7 +236,7 @@ def get_type_instance(type_name):
     elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]*)", type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
-    elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"uint8\[(0*[1-9][0-9]*)\]", type_name):
         size = int(m.groups()[0])
         return ArrayType(UInt8Type, size)
     else:
-- 
2.43.0


From cd34534c09905e90879597b2cc209f0deaa8b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:41 +0000
Subject: [PATCH 84/94] fix: refuse a second else in a switch, the first was
 dropped

---
 tealish/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index af2252f..24fedcd 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -802,6 +802,10 @@ class Switch(InlineStatement):
                 compiler.consume_line()
                 break
             if compiler.peek().startswith("else:"):
+                if switch.else_:
+                    raise ParseError(
+                        f'Unexpected second else in a switch: "{compiler.peek()}" at {compiler.line_no + 1}.'
+                    )
                 switch.add_else(
                     SwitchElse(compiler.consume_line(), switch, compiler=compiler)
                 )
-- 
2.43.0


From 882c92abc0b5cebb288830b8b2501d99c078efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:41 +0000
Subject: [PATCH 85/94] fix: name the line of the decorators in errors of a
 decorated func

---
 tealish/nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 24fedcd..81749f0 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1842,6 +1842,8 @@ class DecoratedFunc(InlineStatement):
         cls, compiler: "TealishCompiler", parent: Optional[Node]
     ) -> "DecoratedFunc":
         decorated_func = DecoratedFunc("", parent, compiler=compiler)
+        # The decorators begin on the line that is consumed next
+        decorated_func._line_no = compiler.line_no + 1
         while True:
             line = compiler.peek()
             if line is not None and line.startswith("func "):
@@ -1853,7 +1855,7 @@ class DecoratedFunc(InlineStatement):
                 decorated_func.add_child(LineStatement.consume(compiler, parent))
             else:
                 raise ParseError(
-                    f"Expected a func after the decorator at line {compiler.line_no}!"
+                    f"Expected a func after the decorator at line {decorated_func.line_no}!"
                 )
         return decorated_func
 
-- 
2.43.0


From 86911b286906efff6fbeb6fb8260911560a379d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 86/94] fix: refuse decorator parameters that are not
 understood, they were ignored

---
 tealish/nodes.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 81749f0..f700bb1 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -855,6 +855,9 @@ class Route(Node):
         self.func = self.lookup_func(self.name)
         if "public" not in self.func.attributes:
             raise CompileError(f"{self.name} is not a public function", node=self)
+        for name in self.func.attributes["public"]:
+            if name != "OnCompletion":
+                raise CompileError(f'Unknown public parameter "{name}"', node=self)
         oc = self.func.attributes["public"].get("OnCompletion", "NoOp")
         if oc != "CreateApplication" and oc not in constants:
             raise CompileError(f'Unknown OnCompletion "{oc}"', node=self)
@@ -1800,6 +1803,19 @@ class Decorator(Node):
     name: str
     params: str
 
+    @property
+    def attributes(self) -> Dict[str, str]:
+        attributes = {}
+        if self.params.strip():
+            for param in self.params.split(","):
+                m = re.match(r"\s*(?P<key>\w+)\s*=\s*(?P<value>\w+)\s*$", param)
+                if not m or m["key"] in attributes:
+                    raise ParseError(
+                        f'Unexpected decorator parameter "{param}" at line {self.line_no}.'
+                    )
+                attributes[m["key"]] = m["value"]
+        return attributes
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
 
@@ -1830,11 +1846,11 @@ class DecoratedFunc(InlineStatement):
         self.func = node
         self.func.decorators = self.decorators
         for decorator in self.decorators:
-            self.func.attributes[decorator.name] = {}
-            if m := re.match(r"(?P<key>.*)=(?P<value>.*)", decorator.params):
-                self.func.attributes[decorator.name] = {
-                    m.groupdict()["key"].strip(): m.groupdict()["value"].strip()
-                }
+            if decorator.name in self.func.attributes:
+                raise ParseError(
+                    f'Duplicate decorator "{decorator.name}" at line {decorator.line_no}.'
+                )
+            self.func.attributes[decorator.name] = decorator.attributes
         self.add_child(node)
 
     @classmethod
-- 
2.43.0


From 127a3e53b399236499c19cdd7eb5bb07a7db958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 87/94] fix: refuse reading array fields without an index

---
 tealish/base.py             |  3 +++
 tealish/expression_nodes.py | 17 ++++++++++++++++-
 tealish/langspec.py         |  3 +++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/tealish/base.py b/tealish/base.py
index a630915..91a8ffb 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -179,6 +179,9 @@ class BaseNode:
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         return lang_spec.get_field_type(namespace, name)
 
+    def is_array_field(self, name: str) -> bool:
+        return lang_spec.is_array_field(name)
+
     def lookup_op(self, name: str) -> Op:
         return lang_spec.lookup_op(name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index c050c02..06664a0 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -319,7 +319,12 @@ class OpCall(BaseNode):
                     f"{x} can not be used as an immediate argument for {op.name}",
                     node=self,
                 )
-            if not op.is_valid_immediate(i, x.name if isinstance(x, Enum) else x.value):
+            if not op.is_valid_immediate(
+                i, x.name if isinstance(x, Enum) else x.value
+            ) or (
+                op.name in ["txn", "gtxn", "gtxns", "itxn", "gitxn"]
+                and self.is_array_field(immediates[i])
+            ):
                 raise CompileError(
                     f"{immediates[i]} is not a valid immediate argument for {op.name}",
                     node=self,
@@ -394,6 +399,13 @@ class UserDefinedFuncCall(BaseNode):
         return f"{self.name}({', '.join(args)})"
 
 
+def check_scalar_field(
+    node: Union["TxnField", "GroupTxnField", "InnerTxnField"]
+) -> None:
+    if node.is_array_field(node.field):
+        raise CompileError(f"{node.field} is an array field", node=node)
+
+
 class TxnField(BaseNode):
     def __init__(self, field: str, parent: Optional[BaseNode] = None) -> None:
         self.field = field
@@ -402,6 +414,7 @@ class TxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        check_scalar_field(self)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"txn {self.field}")
@@ -461,6 +474,7 @@ class GroupTxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("gtxn", self.field)
+        check_scalar_field(self)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.process_value(self.index, AVMType.int)
@@ -600,6 +614,7 @@ class InnerTxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        check_scalar_field(self)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"itxn {self.field}")
diff --git a/tealish/langspec.py b/tealish/langspec.py
index b958744..b49f1e7 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -283,6 +283,9 @@ class LangSpec:
             raise KeyError(f'Constant "{name}" does not exist!')
         return constants[name]
 
+    def is_array_field(self, name: str) -> bool:
+        return "txna" in self.ops and name in self.ops["txna"].arg_enum
+
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         if "txn" in namespace:
             return self.txn_fields[name]
-- 
2.43.0


From af3b8f5fd0fb19d31a6d40eceea9989a6a6d92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:10 +0000
Subject: [PATCH 88/94] fix: refuse array indices of inner transaction fields
 that are not arrays

---
 tealish/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index f700bb1..2c03198 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1069,6 +1069,10 @@ class InnerTxn(InlineStatement):
                     f'Unknown inner transaction field "{node.field_name}"', node=node
                 )
             if node.index is not None:
+                if not self.is_array_field(node.field_name.strip()):
+                    raise CompileError(
+                        f"{node.field_name} is not an array field", node=node
+                    )
                 index = int(node.index)
                 n = len(self.array_fields[node.field_name])
                 if n == index:
-- 
2.43.0


From 920608d9ea2f5c294a8ed26c18f2574e127bab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 89/94] fix: refuse substring with an end before its start

---
 tealish/expression_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 06664a0..d166056 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -304,8 +304,10 @@ class OpCall(BaseNode):
         for i, arg in enumerate(self.args):
             arg.process()
         self.check_arg_types(self.name, self.args)
+        values = []
         for i, x in enumerate(immediates):
             x.process()
+            values.append(getattr(x, "value", None))
             if isinstance(x, Constant):
                 immediates[i] = x.name
             elif isinstance(x, Enum):
@@ -329,6 +331,8 @@ class OpCall(BaseNode):
                     f"{immediates[i]} is not a valid immediate argument for {op.name}",
                     node=self,
                 )
+        if op.name == "substring" and int(values[0]) > int(values[1]):
+            raise CompileError("substring end is before its start", node=self)
         self.immediates = [str(x) for x in immediates]
         self.immediate_args = " ".join(self.immediates)
         returns = op.returns_types
-- 
2.43.0


From 014d306b2bb9ece5df0b5677f6bd944ac811a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:44 +0000
Subject: [PATCH 90/94] fix: refuse byte strings with escapes that TEAL does
 not have

---
 tealish/expression_nodes.py | 7 +++++++
 tealish/nodes.py            | 6 ++++++
 tealish/types.py            | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index d166056..ed53020 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -13,6 +13,7 @@ from .types import (
     BytesType,
     UIntType,
     byte_string_size,
+    check_byte_string,
 )
 from .langspec import Op, type_lookup
 
@@ -47,6 +48,12 @@ class Bytes(BaseNode):
         self.type = BytesType(size=byte_string_size(self.value))
         self.parent = parent
 
+    def process(self) -> None:
+        try:
+            check_byte_string(self.value)
+        except ValueError as e:
+            raise CompileError(str(e), node=self)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f'pushbytes "{self.value}"')
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 2c03198..aa58270 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -26,6 +26,7 @@ from .types import (
     TealishType,
     UIntType,
     byte_string_size,
+    check_byte_string,
     define_struct,
     get_struct,
     get_type_instance,
@@ -483,6 +484,11 @@ class Const(LineStatement):
                 f"Incorrect type {self.literal.type()} for const {tealish_type}",
                 node=self,
             )
+        if not isinstance(self.literal, (LiteralInt, LiteralHex)):
+            try:
+                check_byte_string(self.literal.value[1:-1])
+            except ValueError as e:
+                raise CompileError(str(e), node=self)
         if isinstance(self.literal, LiteralInt) and self.literal.value >= 2**64:
             raise CompileError(
                 f"Integer {self.literal.value} exceeds 64 bits", node=self
diff --git a/tealish/types.py b/tealish/types.py
index d9e449d..92b1c17 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -202,6 +202,12 @@ def byte_string_size(value: str) -> int:
     return len(re.sub(r"\\(x[0-9a-fA-F]{2}|.)", " ", value).encode())
 
 
+def check_byte_string(value: str) -> None:
+    """Check the escapes of the string with this (escaped) source text"""
+    if not re.fullmatch(r'([^\\]|\\([nrt\\"]|x[0-9a-fA-F]{2}))*', value):
+        raise ValueError(f'Invalid escape in "{value}"')
+
+
 def use_structs(structs: Dict[str, StructType]) -> None:
     _structs.set(structs)
 
-- 
2.43.0


From 40fbccb30631305058d4206b837db66c0b48de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 91/94] fix: refuse Address of a text that is not an address

---
 tealish/stdlib.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 232b6ed..c6fc364 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -1,3 +1,4 @@
+from base64 import b32decode, b32encode
 from typing import Any, List, Optional, Union
 from Cryptodome.Hash import SHA512
 from tealish import TealWriter
@@ -554,8 +555,21 @@ class Address(FunctionCall):
 
     def process(self) -> None:
         self.address = self.literal_arg(0, Bytes)
+        if not self.is_valid(self.address):
+            raise CompileError(f'Invalid address "{self.address}"', node=self)
         self.type = BytesType()
 
+    def is_valid(self, address: str) -> bool:
+        try:
+            decoded = b32decode(f"{address}======")
+        except ValueError:
+            return False
+        public_key, checksum = decoded[:32], decoded[32:]
+        return (
+            b32encode(decoded).decode().rstrip("=") == address
+            and SHA512.new(public_key, truncate="256").digest()[-4:] == checksum
+        )
+
     def write_teal(self, writer: "TealWriter") -> None:
         value = self.address
         writer.write(self, f"addr {value}")
-- 
2.43.0


From 2bf015cd8e7d8e5837afcb0bc2f1c1ed09f4a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:43 +0000
Subject: [PATCH 92/94] fix: refuse types that are larger than any value

---
 tealish/types.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tealish/types.py b/tealish/types.py
index 92b1c17..6d79a27 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -4,6 +4,9 @@ import re
 from typing import Dict
 
 
+#: Size of the largest value, the contents of a box
+MAX_SIZE = 32768
+
 # Set of custom defined types of the program being compiled
 _structs: ContextVar[Dict[str, "StructType"]] = ContextVar("_structs", default={})
 
@@ -220,6 +223,13 @@ def get_struct(struct_name: str) -> StructType:
     return _structs.get()[struct_name]
 
 
+def get_size(type_name: str, size: str) -> int:
+    # there are no values larger than a box
+    if int(size) > MAX_SIZE:
+        raise KeyError(f"Type {type_name} is larger than {MAX_SIZE} bytes")
+    return int(size)
+
+
 def get_type_instance(type_name):
     if type_name == "int":
         return IntType()
@@ -234,8 +244,7 @@ def get_type_instance(type_name):
     elif type_name == "uint64":
         return IntType()
     elif m := re.fullmatch(r"bytes\[(0*[1-9][0-9]*)\]", type_name):
-        size = int(m.groups()[0])
-        return BytesType(size)
+        return BytesType(get_size(type_name, m[1]))
     elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]*)>", type_name):
         struct_name = m.groups()[0]
         return BoxType(struct_name=struct_name)
@@ -243,7 +252,6 @@ def get_type_instance(type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
     elif m := re.fullmatch(r"uint8\[(0*[1-9][0-9]*)\]", type_name):
-        size = int(m.groups()[0])
-        return ArrayType(UInt8Type, size)
+        return ArrayType(UInt8Type, get_size(type_name, m[1]))
     else:
         raise KeyError(f"Unknown type {type_name}")
-- 
2.43.0


From fbaaf45caed0b6ca26072851fd3a1c35fe238b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:27 +0000
Subject: [PATCH 93/94] fix: keep the counter of an anonymous loop that may be
 left by a jump off the stack

---
 tealish/nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index aa58270..c87500a 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1616,9 +1616,10 @@ class For_Statement(InlineStatement):
         if any(
             self.is_descendant_of(node_type)
             for node_type in (Func, WhileStatement, ForStatement, For_Statement)
-        ):
+        ) or any(self.has_child_node(node_type) for node_type in (Jump, Switch)):
             # A counter on the stack would be left below the return values
-            # or above the counter of an enclosing loop
+            # or above the counter of an enclosing loop. A jump out of the loop
+            # would leave another one each time.
             self.var = self.declare_scratch_var(f"_{self.start_label}", "int")
         self.process_value(self.start, AVMType.int)
         self.process_value(self.end, AVMType.int)
-- 
2.43.0


From 9902110b2d8af7e0cb8a68d582005cd4523eac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:26 +0000
Subject: [PATCH 94/94] fix: substring of a local specification may have other
 immediates

---
 tealish/expression_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index ed53020..f537ea7 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -338,7 +338,8 @@ class OpCall(BaseNode):
                     f"{immediates[i]} is not a valid immediate argument for {op.name}",
                     node=self,
                 )
-        if op.name == "substring" and int(values[0]) > int(values[1]):
+        bounds = [value for value in values if isinstance(value, int)]
+        if op.name == "substring" and bounds != sorted(bounds):
             raise CompileError("substring end is before its start", node=self)
         self.immediates = [str(x) for x in immediates]
         self.immediate_args = " ".join(self.immediates)
-- 
2.43.0

