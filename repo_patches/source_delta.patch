From d60ee9c0c07fa02311e9ca4f23f334dabfe6e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 01/36] fix: C struct definitions are emitted after the structs
 they contain

---
 beschi/writers/c.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1d052fd..7c42722 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -440,8 +440,19 @@ class CWriter(Writer):
         for enum, edata in self.protocol.enums.items():
             self.gen_enum(enum, edata)
 
-        for sname, sdata in self.protocol.structs.items():
-            self.gen_struct(sname, sdata)
+        # C needs a complete type for every member, so define structs after the ones they contain
+        defined: set[str] = set()
+        def gen_struct_after_members(sname: str):
+            if sname in defined:
+                return
+            defined.add(sname)
+            for var in self.protocol.structs[sname].members:
+                if var.vartype in self.protocol.structs:
+                    gen_struct_after_members(var.vartype)
+            self.gen_struct(sname, self.protocol.structs[sname])
+
+        for sname in self.protocol.structs:
+            gen_struct_after_members(sname)
 
         for mname, mdata in self.protocol.messages.items():
             self.gen_struct(mname, mdata)
-- 
2.43.0


From 4253c433eebae03cc3629609a02ac23191d19e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 02/36] fix: C string list element lengths are declared with
 the string size type

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 7c42722..41df8c1 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -262,7 +262,7 @@ class CWriter(Writer):
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
                 if var.vartype == "string":
-                    self.write_line(f"{self.get_native_list_size()}* {var.name}_els_len;")
+                    self.write_line(f"{self.get_native_string_size()}* {var.name}_els_len;")
                 if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                     self.write_line(f"{self.type_mapping[var.vartype]}* {var.name};")
                 elif var.vartype in self.protocol.structs or var.vartype in self.protocol.enums:
-- 
2.43.0


From 9b8b573aa09c9703e34c45fedd2eb3ff8f98cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 03/36] fix: C Create functions initialize string and list
 lengths too

---
 beschi/writers/c.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 41df8c1..3b4c331 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -338,9 +338,7 @@ class CWriter(Writer):
             self.indent_level += 1
             self.write_line(f"{self.prefix}{sname}* out = ({self.prefix}{sname}*){self.prefix.upper()}MALLOC(sizeof({self.prefix}{sname}));")
             self.write_line(f"if (out == NULL) {{ return NULL; }}")
-            self.write_line(f"out->_mt = {self.prefix}MessageType_{sname};")
-            for mem in sdata.members:
-                self.write_line(f"out->{mem.name} = {self.prefix}{sname}_default.{mem.name};")
+            self.write_line(f"*out = {self.prefix}{sname}_default;")
             self.write_line("return out;")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 1aa554e16cc6f3f6260af58ded78b39c8a31135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:18 +0000
Subject: [PATCH 04/36] fix: C Cleanup and Destroy no longer free the default
 empty string literal

---
 beschi/writers/c.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 3b4c331..7ee62c0 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -221,7 +221,9 @@ class CWriter(Writer):
                 self.indent_level -= 1
                 self.write_line("},")
 
-    def destructor(self, var: Variable, accessor: str):
+    # default_accessor is the same member of the message's default constant, whose
+    #    strings are literals and must not be freed; there is none inside of lists
+    def destructor(self, var: Variable, accessor: str, default_accessor: str|None = None):
         if var.is_simple():
             return
         if var.is_list:
@@ -239,9 +241,18 @@ class CWriter(Writer):
                     self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                 self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
         elif var.vartype == "string":
-            self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+            if default_accessor is None:
+                self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+            else:
+                self.write_line(f"if ({accessor}{var.name} != {default_accessor}{var.name}) {{")
+                self.indent_level += 1
+                self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+                self.indent_level -= 1
+                self.write_line("}")
         else:
-            [self.destructor(mem, f"{accessor}{var.name}.") for mem in self.protocol.structs[var.vartype].members]
+            if default_accessor is not None:
+                default_accessor = f"{default_accessor}{var.name}."
+            [self.destructor(mem, f"{accessor}{var.name}.", default_accessor) for mem in self.protocol.structs[var.vartype].members]
 
     def gen_enum(self, ename: str, edata: Enum):
         self.write_line(f"typedef enum {self.prefix}{ename} {{")
@@ -346,7 +357,7 @@ class CWriter(Writer):
 
             self.write_line(f"void {self.prefix}{sname}_Cleanup({self.prefix}{sname} *m) {{")
             self.indent_level += 1
-            [self.destructor(mem, f"m->") for mem in sdata.members]
+            [self.destructor(mem, "m->", f"{self.prefix}{sname}_default.") for mem in sdata.members]
             self.indent_level -= 1
             self.write_line("}")
             self.write_line()
-- 
2.43.0


From 43d7279efc0ca96a238c9ce39a2d1360e8aacb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:18 +0000
Subject: [PATCH 05/36] fix: C messages whose read failed can be destroyed
 safely

---
 beschi/writers/c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 7ee62c0..4cf48a5 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -77,6 +77,9 @@ class CWriter(Writer):
                 pref = self.prefix
             self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
             self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+            if not var.is_simple(True):
+                # so that destroying after a failed read does not touch elements that were never filled in
+                self.write_line(f"memset({accessor}{var.name}, 0, sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
             if var.vartype == "string":
                 self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
                 self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
@@ -374,7 +377,7 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_FromBytes({self.prefix}DataAccess* r, {self.prefix}{sname}* dst) {{")
         self.indent_level += 1
         if sdata.is_message:
-            self.write_line(f"dst->_mt = {self.prefix}MessageType_{sname};")
+            self.write_line(f"*dst = {self.prefix}{sname}_default;")
         if len(sdata.members) > 0:
             self.write_line(f"{self.prefix}err_t err;")
         [self.deserializer(mem, "dst->") for mem in sdata.members]
-- 
2.43.0


From 395e69393dd1c8a48c1621153290578af37ff370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:18 +0000
Subject: [PATCH 06/36] fix: C packing and unpacking respect the buffer's
 position and size

---
 beschi/writers/c.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 4cf48a5..46f2746 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -680,7 +680,12 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const char header[] = \"BSCI\";")
-        self.write_line("memcpy(w->buffer, header, 4);")
+        self.write_line("if (w->bufferSize < w->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("memcpy(w->buffer + w->position, header, 4);")
         self.write_line("w->position += 4;")
         self.write_line(f"err = {self.prefix}WriteUInt32(w, (uint32_t)len);")
         self.err_check_return()
@@ -706,7 +711,8 @@ class CWriter(Writer):
         self.write_line("}")
         self.indent_level -= 1
         self.write_line("}")
-        self.write_line(f"{self.prefix}WriteUInt8(w, 0);")
+        self.write_line(f"err = {self.prefix}WriteUInt8(w, 0);")
+        self.err_check_return()
         self.write_line()
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
         self.indent_level -= 1
@@ -716,7 +722,12 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}UnpackMessages({self.prefix}DataAccess* r, void*** msgListOut, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
-        self.write_line("if (memcmp(r->buffer, \"BSCI\", 4) != 0) {")
+        self.write_line("if (r->bufferSize < r->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("if (memcmp(r->buffer + r->position, \"BSCI\", 4) != 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
         self.indent_level -= 1
-- 
2.43.0


From a89ac9b168839f2b1f1e004af27b5f144ec33f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 07/36] fix: the C header includes string.h for the memory
 functions it uses

---
 beschi/writers/boilerplate/C.0.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 80a9c48..3556fc5 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -8,6 +8,7 @@
 
 #include <stdlib.h>
 #include <stddef.h>
+#include <string.h>
 #include <stdint.h>
 #include <stdbool.h>
 
-- 
2.43.0


From bd0e6b2ffead934e9d1a26aa1989695bcf3c2454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 08/36] fix: duplicate enum names are rejected instead of
 overwriting each other

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 0f13d62..cca2ac3 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -184,6 +184,8 @@ class Protocol():
             if not type(enum_data["_values"]) is list:
                 raise ValueError(f"Values is not list on {enum_data}")
             e = Enum(enum_data["_name"], enum_data["_values"])
+            if e.name in self.enums:
+                raise ValueError(f"Duplicate _name on {enum_data}")
             self.enums[e.name] = e
 
         def validate_enum(e: Enum):
-- 
2.43.0


From 6d6717d4a757a8cdcf7d7443f9171200325038c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 09/36] fix: duplicate entry names in explicit enums are
 rejected

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index cca2ac3..2ae5b6a 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -85,6 +85,8 @@ class Enum():
                     raise TypeError("Missing _value in enum entry")
                 if not type(entry["_value"]) is int:
                     raise TypeError(f"Enum entry _value is not an integer: {entry['_value']}")
+                if entry["_name"] in od:
+                    raise ValueError(f"Duplicate values in enum {name}: {entry['_name']}")
                 od[entry["_name"]] = entry["_value"]
             self.values = od
 
-- 
2.43.0


From cbb9f58d133f9431abf6a8d7ffe0ca4b57ba5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 10/36] fix: data members named like a base type are rejected
 as documented

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 2ae5b6a..4cb7e13 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -229,6 +229,8 @@ class Protocol():
             for var in s.members:
                 if _contains_whitespace(var.name):
                     raise ValueError(f"Member name cannot contain whitespace: '{var.name}'")
+                if var.name in RESERVED_WORDS:
+                    raise ValueError(f"Member name is reserved word: '{var.name}'")
                 valid_types: list[str] = list(self.structs) + list(self.enums) + list(NUMERIC_TYPE_SIZES.keys()) + ["string"]
                 if var.vartype not in valid_types:
                     if s.is_message and var.vartype in self.messages:
-- 
2.43.0


From 9f67efb6e05a23cf58a9fcb99496becbb6406cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 11/36] fix: the circular reference check ends when a struct
 leads to a circle it is not part of

---
 beschi/protocol.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 4cb7e13..a46497a 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -245,15 +245,17 @@ class Protocol():
             raise ValueError("Cannot, at present, have more than 255 types of messages. Sorry. :(")
 
         def check_for_cycles(s: Struct):
-            encountered = set([s.name])
+            encountered = set()
             frontier = [m.vartype for m in s.members if m.vartype in self.structs]
             while len(frontier) > 0:
                 new_type = frontier.pop()
-                if new_type in encountered:
-                    raise RecursionError(f"{s.name} and {new_type} reference each other")
+                if new_type == s.name:
+                    raise RecursionError(f"{s.name} contains itself")
+                if new_type in encountered: continue
+                encountered.add(new_type)
                 for cvar in self.structs[new_type].members:
-                    if cvar.vartype in encountered:
-                        raise RecursionError(f"{s.name} and {cvar.vartype} reference each other")
+                    if cvar.vartype == s.name:
+                        raise RecursionError(f"{s.name} and {new_type} reference each other")
                     if cvar.vartype not in self.structs: continue
                     frontier.append(cvar.vartype)
 
-- 
2.43.0


From e6b784e32df6bf61893670219460725b0e924c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 12/36] fix: a namespace given on the command line cannot
 contain whitespace

---
 beschi/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index 092cfec..633ac8d 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -2,7 +2,7 @@ import sys
 import argparse
 import traceback
 
-from .protocol import Protocol
+from .protocol import Protocol, _contains_whitespace
 from .writers import all_writers, experimental_writers
 from . import LIB_NAME, LIB_VERSION
 
@@ -62,6 +62,9 @@ def main():
         sys.exit(1)
 
     if args.namespace and len(args.namespace) > 0:
+        if _contains_whitespace(args.namespace):
+            sys.stderr.write(f"ERROR: Namespace cannot contain whitespace: '{args.namespace}'\n")
+            sys.exit(1)
         protocol.namespace = args.namespace
 
     if args.lang not in writers and args.lang not in exp_writers:
-- 
2.43.0


From 313c4aac54931f21945de0bf144d68db5bb5e2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 13/36] fix: TypeScript keeps a byte order mark at the start of
 a string it reads

---
 beschi/writers/boilerplate/TypeScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index b542075..8d0573a 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -1,5 +1,5 @@
 
-const _textDec = new TextDecoder('utf-8');
+const _textDec = new TextDecoder('utf-8', { ignoreBOM: true });
 const _textEnc = new TextEncoder();
 
 export class DataAccess {
-- 
2.43.0


From 4f1a34c8f08372c54741557eced5f693d6d19452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 14/36] fix: TypeScript strings and packed headers stay inside
 the given DataView

---
 beschi/writers/boilerplate/TypeScript.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index 8d0573a..c62c349 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -80,7 +80,10 @@ export class DataAccess {
 
   getString(): string {
     const len = this.get{# STRING_SIZE_TYPE #}();
-    const strBuffer = new Uint8Array(this.data.buffer, this.currentOffset, len);
+    if (this.currentOffset + len > this.data.byteLength) {
+      throw new RangeError("String extends past the end of the data.");
+    }
+    const strBuffer = new Uint8Array(this.data.buffer, this.data.byteOffset + this.currentOffset, len);
     this.currentOffset += len;
     return _textDec.decode(strBuffer);
   }
@@ -173,7 +176,7 @@ export function PackMessages(msgList: Message[], data: DataView|DataAccess): voi
     da = data;
   }
   const headerBytes = _textEnc.encode("BSCI");
-  const arr = new Uint8Array(da.data.buffer);
+  const arr = new Uint8Array(da.data.buffer, da.data.byteOffset, da.data.byteLength);
   arr.set(headerBytes, da.currentOffset);
   da.currentOffset += headerBytes.byteLength;
   da.setUint32(msgList.length);
@@ -191,7 +194,10 @@ export function UnpackMessages(data: DataView|DataAccess): Message[] {
   else {
     da = data;
   }
-  const headerBuffer = new Uint8Array(da.data.buffer, da.currentOffset, 4);
+  if (da.currentOffset + 4 > da.data.byteLength) {
+    throw new Error("Packed message buffer is too short to hold a header.");
+  }
+  const headerBuffer = new Uint8Array(da.data.buffer, da.data.byteOffset + da.currentOffset, 4);
   da.currentOffset += 4;
   const headerLabel = _textDec.decode(headerBuffer);
   if (headerLabel !== "BSCI") {
-- 
2.43.0


From df259242173deb74ffc1b3279d97827b82d40299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 15/36] fix: TypeScript converts 64-bit list and string sizes
 between bigint and number

---
 beschi/writers/boilerplate/TypeScript.ts |  4 ++--
 beschi/writers/typescript.py             | 23 ++++++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index c62c349..626a70b 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -79,7 +79,7 @@ export class DataAccess {
   }
 
   getString(): string {
-    const len = this.get{# STRING_SIZE_TYPE #}();
+    const len = {# STRING_SIZE_READ #};
     if (this.currentOffset + len > this.data.byteLength) {
       throw new RangeError("String extends past the end of the data.");
     }
@@ -140,7 +140,7 @@ export class DataAccess {
 
   setString(val: string): void {
     const strBuffer = _textEnc.encode(val);
-    this.set{# STRING_SIZE_TYPE #}(strBuffer.byteLength);
+    this.set{# STRING_SIZE_TYPE #}({# STRING_SIZE_VALUE #});
     const arr = new Uint8Array(this.data.buffer, this.data.byteOffset, this.data.byteLength);
     arr.set(strBuffer, this.currentOffset);
     this.currentOffset += strBuffer.byteLength;
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 9453530..abc19cf 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -48,15 +48,30 @@ class TypeScriptWriter(Writer):
 
         self.is_assembly_script = False
 
+    # 64-bit sizes are bigints in the data, but lengths are always numbers in JavaScript
+    def size_reader(self, accessor: str, size_type: str) -> str:
+        call = f"{accessor}.get{self.base_serializers[size_type]}()"
+        if self.type_mapping[size_type] == "bigint":
+            return f"Number({call})"
+        return call
+
+    def size_value(self, length: str, size_type: str) -> str:
+        if self.type_mapping[size_type] == "bigint":
+            return f"BigInt({length})"
+        return length
+
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
-            self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
+            self.write_line(f"const {var_clean}_Length = {self.size_reader('da', self.protocol.list_size_type)};")
             if self.is_assembly_script:
                 self.write_line("if (da.hasError) { return null; }")
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
             idx = self.indent_level
-            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type]} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
+            idx_type = self.type_mapping[self.protocol.list_size_type]
+            if idx_type == "bigint":
+                idx_type = "number"
+            self.write_line(f"for (let i{idx}: {idx_type} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
@@ -126,7 +141,7 @@ class TypeScriptWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             if not self.is_assembly_script:
-                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length);")
+                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({self.size_value(f'{accessor}{var.name}.length', self.protocol.list_size_type)});")
             else:
                 self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length as {self.type_mapping[self.protocol.list_size_type]});")
                 self.write_line("if (da.hasError) { return false; }")
@@ -402,6 +417,8 @@ class TypeScriptWriter(Writer):
 
         self.add_boilerplate(substitutions=[
             ("{# STRING_SIZE_TYPE #}", self.base_serializers[self.protocol.string_size_type]),
+            ("{# STRING_SIZE_READ #}", self.size_reader("this", self.protocol.string_size_type)),
+            ("{# STRING_SIZE_VALUE #}", self.size_value("strBuffer.byteLength", self.protocol.string_size_type)),
             ("{# NATIVE_STRING_SIZE_TYPE #}", self.type_mapping[self.protocol.string_size_type]),
         ])
 
-- 
2.43.0


From 8c138e519fa6af6f2af3b823bcbf3fbdfbd5cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 16/36] fix: TypeScript size of nested lists whose members
 share a name

---
 beschi/writers/typescript.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index abc19cf..e2a3b98 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -173,6 +173,13 @@ class TypeScriptWriter(Writer):
             else:
                 self.write_line(f"if (!{accessor}{var.name}.writeBytes(da)) {{ return false; }};")
 
+    # nested lists can have members of the same name; an inner index must not hide one the accessor uses
+    def measurement_index(self, name: str, accessor: str) -> str:
+        idx = f"{name}_i"
+        while f"[{idx}]" in accessor:
+            idx += "_"
+        return idx
+
     def gen_measurement(self, st: Struct, accessor: str = "") -> tuple[list[str], int]:
         lines: list[str] = []
         accum = 0
@@ -192,16 +199,17 @@ class TypeScriptWriter(Writer):
                     if var.is_simple(True):
                         lines.append(f"size += {accessor}{var.name}.length * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
-                        lines.append(f"for (let {var.name}_i=0; {var.name}_i < {accessor}{var.name}.length; {var.name}_i++) {{")
+                        idx = self.measurement_index(var.name, accessor)
+                        lines.append(f"for (let {idx}=0; {idx} < {accessor}{var.name}.length; {idx}++) {{")
                         if not self.is_assembly_script:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i]).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{idx}]).byteLength;")
                         else:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i], false).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{idx}], false).byteLength;")
                         lines.append("}")
                     else:
-                        var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
-                        lines.append(f"for (let {var_clean}_i=0; {var_clean}_i < {accessor}{var.name}.length; {var_clean}_i++) {{")
-                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i].")
+                        idx = self.measurement_index(TextUtil.replace(var.name, [("[", "_"), ("]", "_")]), accessor)
+                        lines.append(f"for (let {idx}=0; {idx} < {accessor}{var.name}.length; {idx}++) {{")
+                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{idx}].")
                         if clines[0] == size_init:
                             clines = clines[1:]
                         clines.append(f"size += {caccum};")
-- 
2.43.0


From b038c9c9368abdf356d16e093302092820a9c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 17/36] fix: Go strings cut short are reported as errors
 instead of panicking

---
 beschi/writers/boilerplate/Go.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 9b24e78..da99b5a 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -8,14 +8,15 @@ import (
 
 func readString(data io.Reader, str *string) error {
 	var len {# STRING_SIZE_TYPE #}
-	binary.Read(data, binary.LittleEndian, &len)
+	if err := binary.Read(data, binary.LittleEndian, &len); err != nil {
+		return err
+	}
 	sbytes := make([]byte, len)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
-	if err != nil {
-		panic(err)
+	if err := binary.Read(data, binary.LittleEndian, &sbytes); err != nil {
+		return err
 	}
 	*str = string(sbytes)
-	return err
+	return nil
 }
 
 func writeString(data io.Writer, str *string) {
-- 
2.43.0


From 092d453074ed751432ab395556391f8f78727892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 18/36] fix: Go UnpackMessages reports a missing header instead
 of panicking

---
 beschi/writers/boilerplate/Go.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index da99b5a..c0893c7 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -56,7 +56,7 @@ func UnpackMessages(data io.Reader) ([]Message, error) {
 	sbytes := make([]byte, 4)
 	err := binary.Read(data, binary.LittleEndian, &sbytes)
 	if err != nil {
-		panic(err)
+		return nil, fmt.Errorf("could not read packed message header (%w)", err)
 	}
 	if string(sbytes) != "BSCI" {
 		return nil, fmt.Errorf("packed message buffer has invalid header")
-- 
2.43.0


From 1d9adafa4567da6f3ee2bcd0e60695bba413203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 19/36] fix: Go readers pass on the errors of nested structs

---
 beschi/writers/go.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8513b63..4d3ccc1 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -112,7 +112,11 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
         else:
-            self.write_line(f"{var.vartype}FromBytes(data, &{accessor}.{var.name})")
+            self.write_line(f"if err {':' if declare_err else ''}= {var.vartype}FromBytes(data, &{accessor}.{var.name}); err != nil {{")
+            self.indent_level += 1
+            self.write_line(f"return {'' if by_ref else 'nil, '}err")
+            self.indent_level -= 1
+            self.write_line("}")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
-- 
2.43.0


From 7b64bc69f34cd82b79430b99d072203dccb8671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 20/36] fix: Go checks the enums inside fixed-size structs when
 reading them

---
 beschi/writers/go.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 4d3ccc1..bf07ad6 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -105,7 +105,7 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = _{var.name}")
-        elif var.is_simple():
+        elif var.is_simple() and not (var.vartype in self.protocol.structs and self.struct_has_enums(self.protocol.structs[var.vartype])):
             self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &{accessor}.{var.name}); err != nil {{")
             self.indent_level += 1
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
-- 
2.43.0


From 3a149ddfe5e811f9f24169bb1472d1d1aff3c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:02 +0000
Subject: [PATCH 21/36] fix: Rust lists of bytes and of bools compile

---
 beschi/writers/rust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 97bd8a3..ade8edf 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -78,7 +78,7 @@ class RustWriter(Writer):
             self.write_line(f"writer.extend(({accessor}{var.name}.len() as {self.get_native_list_size()}).to_le_bytes());")
             self.write_line(f"for _el in &{accessor}{var.name} {{")
             self.indent_level += 1
-            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums else ''}_el", var.vartype)
+            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums or var.vartype in ('byte', 'bool') else ''}_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From e2655dfff4600ef5ff8ae41c20c8cf9d60de60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 22/36] fix: Rust readers no longer break on members named like
 their local variables

---
 beschi/writers/rust.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index ade8edf..6e14ae2 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -44,34 +44,30 @@ class RustWriter(Writer):
         self.type_mapping["string"] = "String"
 
     def deserializer(self, var: Variable, accessor: str):
+        # everything read goes straight into the message, so that no member's name becomes that of a local variable
         if var.is_list:
-            self.write_line(f"let {var.name}_len = reader.read_{self.get_native_list_size()}()?;")
-            if var.vartype in self.type_mapping:
-                self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
-            else:
-                self.write_line(f"let mut {var.name}: Vec<{var.vartype}> = Vec::new();")
-            self.write_line(f"for _ in 0..{var.name}_len {{")
+            self.write_line(f"let list_len = reader.read_{self.get_native_list_size()}()?;")
+            self.write_line("for _ in 0..list_len {")
             self.indent_level += 1
-            inner = Variable(self.protocol, "_el", var.vartype)
-            self.deserializer(inner, "");
-            self.write_line(f"{var.name}.push(_el);")
+            inner = Variable(self.protocol, "let el", var.vartype)
+            self.deserializer(inner, "")
+            self.write_line(f"{accessor}{var.name}.push(el);")
             self.indent_level -= 1
             self.write_line("}")
         elif var.vartype in NUMERIC_TYPE_SIZES:
             if var.vartype == "byte":
-                self.write_line(f"let {var.name} = reader.take_byte()?;")
+                self.write_line(f"{accessor}{var.name} = reader.take_byte()?;")
             elif var.vartype == "bool":
-                self.write_line(f"let {var.name} = reader.take_byte()? > 0;")
+                self.write_line(f"{accessor}{var.name} = reader.take_byte()? > 0;")
             else:
-                self.write_line(f"let {var.name} = reader.read_{self.type_mapping[var.vartype]}()?;")
+                self.write_line(f"{accessor}{var.name} = reader.read_{self.type_mapping[var.vartype]}()?;")
         elif var.vartype == "string":
-            self.write_line(f"let {var.name} = reader.read_string()?;")
+            self.write_line(f"{accessor}{var.name} = reader.read_string()?;")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-            self.write_line(f"let {var.name} = reader.read_{self.type_mapping[e.encoding]}()?;")
-            self.write_line(f"let {var.name} = {var.vartype}::try_from({var.name})?;")
+            self.write_line(f"{accessor}{var.name} = {var.vartype}::try_from(reader.read_{self.type_mapping[e.encoding]}()?)?;")
         else:
-            self.write_line(f"let {var.name} = {var.vartype}::from_bytes(reader)?;")
+            self.write_line(f"{accessor}{var.name} = {var.vartype}::from_bytes(reader)?;")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
@@ -225,9 +221,9 @@ class RustWriter(Writer):
 
         self.write_line(f"fn from_bytes({'_' if len(sdata.members) == 0 else ''}reader: &mut BufferReader) -> Result<{sname}, {self.prefix}Error> {{")
         self.indent_level += 1
-        [self.deserializer(mem, "") for mem in sdata.members]
-        varnames = [mem.name for mem in sdata.members]
-        self.write_line(f"Ok({sname} {{{', '.join(varnames)}}})")
+        self.write_line(f"let {'mut ' if len(sdata.members) > 0 else ''}msg = {sname}::default();")
+        [self.deserializer(mem, "msg.") for mem in sdata.members]
+        self.write_line("Ok(msg)")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
-- 
2.43.0


From 1ce6a15315abc1770a35ad32ec4d38d204ab281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 23/36] fix: Zig fixed-size structs read and write their nested
 structs and enums

---
 beschi/writers/zig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 163d5f4..f6276f8 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,7 +50,7 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
         else:
             if var.is_list:
@@ -74,8 +74,10 @@ class ZigWriter(Writer):
 
     def serializer(self, var: Variable, accessor: str, parent_is_simple: bool, simple_offset: int):
         if parent_is_simple:
-            if var.vartype in NUMERIC_TYPE_SIZES:
+            if var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"_ = writeNumber({self.type_mapping[var.vartype]}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            else:
+                self.write_line(f"_ = {accessor}{var.name}.writeBytes(offset + {simple_offset}, buffer);")
         else:
             if var.is_list:
                 self.write_line(f"local_offset += writeList({self.type_mapping[var.vartype]}, local_offset, buffer, {accessor}{var.name});")
-- 
2.43.0


From 8c1670a1fc86bd58495ad713658c775f03dea88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 24/36] fix: Zig writes string lengths in the protocol's string
 size type

---
 beschi/writers/boilerplate/Zig.zig | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 643fd3a..a9c8c2e 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -202,9 +202,9 @@ pub fn writeNumber(comptime T: type, offset: usize, buffer: []u8, value: T) usiz
 }
 
 pub fn writeString(offset: usize, buffer: []u8, value: []const u8) usize {
-    _ = writeNumber({# LIST_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
-    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# LIST_SIZE_TYPE #})..][0..value.len], value);
-    return @sizeOf({# LIST_SIZE_TYPE #}) + value.len;
+    _ = writeNumber({# STRING_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
+    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# STRING_SIZE_TYPE #})..][0..value.len], value);
+    return @sizeOf({# STRING_SIZE_TYPE #}) + value.len;
 }
 
 pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usize {
-- 
2.43.0


From 87761238d36c0fd19df99bd52ff6920f9cb00e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:28 +0000
Subject: [PATCH 25/36] fix: Zig code for signed string and list size types
 compiles

---
 beschi/writers/boilerplate/Zig.zig | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index a9c8c2e..6515dae 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -100,9 +100,9 @@ pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct {
 
 pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []u8, bytes_read: usize } {
     const len_read = try readNumber({# STRING_SIZE_TYPE #}, offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
 
-    if (offset + @sizeOf({# STRING_SIZE_TYPE #}) + len > buffer.len) {
+    if (len > buffer.len - offset - len_read.bytes_read) {
         return DataReaderError.EOF;
     }
 
@@ -116,10 +116,10 @@ pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u
 pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []T, bytes_read: usize } {
     var local_offset = offset;
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
     var list = try allocator.alloc(T, len);
-    var made_count: {# LIST_SIZE_TYPE #} = 0;
+    var made_count: usize = 0;
 
     errdefer {
         for (0..made_count) |i| {
-- 
2.43.0


From b835a79dc53f64f131eeb1035f58b51ad95907ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:28 +0000
Subject: [PATCH 26/36] fix: Zig unpackMessages reports short buffers and
 impossible counts instead of panicking

---
 beschi/writers/boilerplate/Zig.zig | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 6515dae..1b0b2ec 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -263,6 +263,9 @@ pub fn packMessages(msg_list: []const Message, buffer: []u8) void {
 
 pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     var offset: usize = 0;
+    if (buffer.len < 4) {
+        return DataReaderError.EOF;
+    }
     if (!std.mem.eql(u8, buffer[0..4], "BSCI")) {
         return DataReaderError.InvalidData;
     }
@@ -273,7 +276,7 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     if (msg_count == 0) {
         return allocator.alloc(Message, 0);
     }
-    const msg_list = try processRawBytes(allocator, buffer[offset..], @intCast(msg_count));
+    const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse return DataReaderError.InvalidData);
     errdefer allocator.free(msg_list);
 
     if (msg_list.len == 0) {
-- 
2.43.0


From 2c3852d0a52823c178c1674c71e380eff52e42bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:57 +0000
Subject: [PATCH 27/36] fix: Zig readers release everything they allocated when
 they fail

---
 beschi/writers/boilerplate/Zig.zig |  7 +++++-
 beschi/writers/zig.py              | 40 ++++++++++++++++++++++--------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 1b0b2ec..de8c7a5 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -277,7 +277,12 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
         return allocator.alloc(Message, 0);
     }
     const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse return DataReaderError.InvalidData);
-    errdefer allocator.free(msg_list);
+    errdefer {
+        for (msg_list) |*msg| {
+            msg.deinit(allocator);
+        }
+        allocator.free(msg_list);
+    }
 
     if (msg_list.len == 0) {
         return DataReaderError.InvalidData;
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index f6276f8..121a6ef 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -55,19 +55,19 @@ class ZigWriter(Writer):
         else:
             if var.is_list:
                 self.write_line(f"const {accessor}_{var.name}_read = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"msg_value.{var.name} = {accessor}_{var.name}_read.value;")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
             elif var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"const {accessor}_{var.name}_read = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"msg_value.{var.name} = {accessor}_{var.name}_read.value;")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
             elif var.vartype == "string":
                 self.write_line(f"const {accessor}_{var.name}_read = try readString(allocator, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"msg_value.{var.name} = {accessor}_{var.name}_read.value;")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
             else:
                 self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"msg_value.{var.name} = {accessor}_{var.name}_read.value;")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
 
             self.write_line()
@@ -202,20 +202,22 @@ class ZigWriter(Writer):
             simple_offset = 0
         else:
             self.write_line("var local_offset = offset;")
+            self.write_line(f"var msg_value = {sname}{{}};")
+            self.write_line("errdefer msg_value.deinit(allocator);")
             self.write_line()
         for mem in sdata.members:
             self.deserializer(mem, sname, sdata.is_simple(), simple_offset)
             if sdata.is_simple():
                 simple_offset += self.protocol.get_size_of(mem.vartype)
-        self.write_line(f"return .{{ .value = {sname}{{")
-        self.indent_level += 1
-        for var in sdata.members:
-            self.write_line(f".{var.name} = {sname}_{var.name},")
-        self.indent_level -= 1
         if sdata.is_simple():
+            self.write_line(f"return .{{ .value = {sname}{{")
+            self.indent_level += 1
+            for var in sdata.members:
+                self.write_line(f".{var.name} = {sname}_{var.name},")
+            self.indent_level -= 1
             self.write_line(f"}}, .bytes_read = {self.protocol.get_size_of(sdata.name)} }};")
         else:
-            self.write_line(f"}}, .bytes_read = local_offset - offset }};")
+            self.write_line("return .{ .value = msg_value, .bytes_read = local_offset - offset };")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
@@ -349,6 +351,20 @@ class ZigWriter(Writer):
         self.write_line("};")
         self.indent_level -= 1
         self.write_line("}")
+        self.write_line()
+
+        self.write_line("pub fn deinit(self: *@This(), allocator: std.mem.Allocator) void {")
+        self.indent_level += 1
+        if all(mdata.is_simple() for mdata in self.protocol.messages.values()):
+            self.write_line("_ = allocator;")
+        self.write_line("switch (self.*) {")
+        self.indent_level += 1
+        for mname, mdata in self.protocol.messages.items():
+            self.write_line(f".{mname} => {'{}' if mdata.is_simple() else '|*msg| msg.deinit(allocator)'},")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.indent_level -= 1
+        self.write_line("}")
 
         self.indent_level -= 1
         self.write_line("};")
@@ -358,6 +374,7 @@ class ZigWriter(Writer):
         self.indent_level += 1
         self.write_line("var msg_list = std.ArrayList(Message).init(allocator);")
         self.write_line("defer msg_list.deinit();")
+        self.write_line("errdefer for (msg_list.items) |*msg| msg.deinit(allocator);")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line("return msg_list.toOwnedSlice();");
@@ -374,6 +391,7 @@ class ZigWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const msg_type: MessageType = std.meta.intToEnum(MessageType, msg_type_byte - 1) catch return DataReaderError.InvalidData;")
+        self.write_line("try msg_list.ensureUnusedCapacity(1);")
         self.write_line("switch(msg_type) {")
         self.indent_level += 1
         for mname, mdata in self.protocol.messages.items():
@@ -384,7 +402,7 @@ class ZigWriter(Writer):
             else:
                 self.write_line(f"const msg_read = try {mname}.fromBytes(allocator, local_offset, buffer);")
             self.write_line("local_offset += msg_read.bytes_read;")
-            self.write_line(f"try msg_list.append(Message{{ .{mname} = msg_read.value }});")
+            self.write_line(f"msg_list.appendAssumeCapacity(Message{{ .{mname} = msg_read.value }});")
             self.indent_level -= 1
             self.write_line("},")
         self.indent_level -= 1
-- 
2.43.0


From e1c293a0f063ae8c79f5b8d9865bf09122b69307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:12 +0000
Subject: [PATCH 28/36] fix: Rust readers report impossible lengths instead of
 overflowing

---
 beschi/writers/boilerplate/Rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Rust.rs b/beschi/writers/boilerplate/Rust.rs
index 2c20165..a9cf224 100644
--- a/beschi/writers/boilerplate/Rust.rs
+++ b/beschi/writers/boilerplate/Rust.rs
@@ -45,7 +45,7 @@ impl<'a> BufferReader<'a> {
     }
 
     pub fn has_remaining(&self, size: usize) -> bool {
-        self.current_position + size <= self.buffer.len()
+        size <= self.buffer.len().saturating_sub(self.current_position)
     }
 
     pub fn take_byte(&mut self) -> Result<u8, BeschiError> {
-- 
2.43.0


From 90121fbd566ae512c3525c0c7446aeee20ff9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 29/36] fix: Go readers report impossible lengths instead of
 panicking or allocating for them

---
 beschi/writers/boilerplate/Go.go | 15 +++++++++++----
 beschi/writers/go.py             |  3 ++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index c0893c7..1be92c4 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -7,14 +7,21 @@ import (
 )
 
 func readString(data io.Reader, str *string) error {
-	var len {# STRING_SIZE_TYPE #}
-	if err := binary.Read(data, binary.LittleEndian, &len); err != nil {
+	var strLen {# STRING_SIZE_TYPE #}
+	if err := binary.Read(data, binary.LittleEndian, &strLen); err != nil {
 		return err
 	}
-	sbytes := make([]byte, len)
-	if err := binary.Read(data, binary.LittleEndian, &sbytes); err != nil {
+	limit := int64(strLen)
+	if limit < 0 {
+		return fmt.Errorf("invalid string length")
+	}
+	sbytes, err := io.ReadAll(io.LimitReader(data, limit))
+	if err != nil {
 		return err
 	}
+	if int64(len(sbytes)) < limit {
+		return io.ErrUnexpectedEOF
+	}
 	*str = string(sbytes)
 	return nil
 }
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index bf07ad6..a356f0d 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -64,10 +64,11 @@ class GoWriter(Writer):
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {var.name}_Len at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
-            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, {var.name}_Len)")
+            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, 0)")
             idx = self.indent_level
             self.write_line(f"for i{idx} := ({self.get_native_list_size()})(0); i{idx} < {var.name}_Len; i{idx}++ {{")
             self.indent_level += 1
+            self.write_line(f"{accessor}.{var.name} = append({accessor}.{var.name}, *new({self.type_mapping[var.vartype]}))")
             if var.vartype in self.protocol.enums:
                 self.write_line(f"var _{var.name} {var.vartype}")
                 self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &_{var.name}); err != nil {{")
-- 
2.43.0


From 397cc8f74fbd73bfde213f2c21087c3c4fdec295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:01 +0000
Subject: [PATCH 30/36] fix: C readers can be cleaned up after an allocation
 failed

A failed list allocation left the list's length in place, so cleaning up
visited elements that were not there; the allocation of string lengths was
checked on the wrong pointer; growing the message list lost it when
reallocation failed.
---
 beschi/writers/c.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 46f2746..11d9953 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -67,6 +67,15 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
 
+    def list_allocation_check(self, var: Variable, accessor: str, allocated: str):
+        self.write_line(f"if ({accessor}{allocated} == NULL) {{")
+        self.indent_level += 1
+        # so that destroying after the failure does not visit elements that are not there
+        self.write_line(f"{accessor}{var.name}_len = 0;")
+        self.write_line(f"return {self.prefix.upper()}ERR_ALLOCATION_FAILURE;")
+        self.indent_level -= 1
+        self.write_line("}")
+
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
@@ -76,13 +85,13 @@ class CWriter(Writer):
             else:
                 pref = self.prefix
             self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
-            self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+            self.list_allocation_check(var, accessor, var.name)
             if not var.is_simple(True):
                 # so that destroying after a failed read does not touch elements that were never filled in
                 self.write_line(f"memset({accessor}{var.name}, 0, sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
             if var.vartype == "string":
                 self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
-                self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+                self.list_allocation_check(var, accessor, f"{var.name}_els_len")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
             self.indent_level += 1
@@ -572,8 +581,9 @@ class CWriter(Writer):
         self.write_line("while (*len >= currCapacity) {")
         self.indent_level += 1
         self.write_line("currCapacity *= 2;")
-        self.write_line(f"*msgListDst = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
-        self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line(f"void** grown = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
+        self.write_line(f"if (grown == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line("*msgListDst = grown;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("uint8_t msgType;")
-- 
2.43.0


From 5fd4b560cf79997b88c13caa4cf0e5cd03a22813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:01 +0000
Subject: [PATCH 31/36] fix: C readers report impossible lengths instead of
 overrunning memory

The size computations of string and list lengths overflowed for 64-bit and
negative length values: the length check passed and the reader wrote past the
block it had allocated. Compare with the bytes left instead.
---
 beschi/writers/boilerplate/C.1.h |  4 ++--
 beschi/writers/c.py              | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index b2de374..e90b025 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -128,10 +128,10 @@ beschi_err_t beschi_ReadString(beschi_DataAccess *r, char **s, {# STRING_SIZE_TY
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (r->bufferSize < r->position + *len) {
+    if ((uint64_t)*len > r->bufferSize - r->position) {
         return BESCHI_ERR_EOF;
     }
-    *s = (char*)BESCHI_MALLOC((size_t)(*len + 1));
+    *s = (char*)BESCHI_MALLOC((size_t)*len + 1);
     if (*s == NULL) { return BESCHI_ERR_ALLOCATION_FAILURE; }
     memcpy(*s, r->buffer + r->position, *len);
     (*s)[*len] = '\0';
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 11d9953..4b781ec 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -67,6 +67,11 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
 
+    def occupies_bytes(self, vartype: str) -> bool:
+        if vartype not in self.protocol.structs:
+            return True
+        return any(mem.is_list or self.occupies_bytes(mem.vartype) for mem in self.protocol.structs[vartype].members)
+
     def list_allocation_check(self, var: Variable, accessor: str, allocated: str):
         self.write_line(f"if ({accessor}{allocated} == NULL) {{")
         self.indent_level += 1
@@ -80,6 +85,14 @@ class CWriter(Writer):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
             self.err_check_return()
+            if self.occupies_bytes(var.vartype):
+                # a length that claims more elements than there are bytes left cannot be right
+                self.write_line(f"if ((uint64_t){accessor}{var.name}_len > r->bufferSize - r->position) {{")
+                self.indent_level += 1
+                self.write_line(f"{accessor}{var.name}_len = 0;")
+                self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+                self.indent_level -= 1
+                self.write_line("}")
             if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                 pref = ""
             else:
-- 
2.43.0


From 94b3b4083107a9f8e9ebc14550ef095cf7ab15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:31 +0000
Subject: [PATCH 32/36] fix: C# message sizes count the bytes of a string, not
 its UTF-16 units

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 0198a7c..b31e85d 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -141,7 +141,7 @@ class CSharpWriter(Writer):
                         accum += self.protocol.get_size_of(var.vartype)
                     elif var.vartype == "string":
                         accum += NUMERIC_TYPE_SIZES[self.protocol.string_size_type]
-                        lines.append(f"size += {accessor}{var.name}.Length;")
+                        lines.append(f"size += System.Text.Encoding.UTF8.GetByteCount({accessor}{var.name});")
                     else:
                         clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
                         if clines[0] == size_init:
-- 
2.43.0


From 9ef85ada5c12f647edcb8180b439746b265dc6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:31 +0000
Subject: [PATCH 33/36] fix: C# readers compile with uint64 list sizes

---
 beschi/writers/csharp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index b31e85d..3c49efa 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -44,7 +44,9 @@ class CSharpWriter(Writer):
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
             idx = self.indent_level
-            self.write_line(f"for (int i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
+            # an int index cannot be compared with a ulong length
+            idx_type = "ulong" if self.protocol.list_size_type == "uint64" else "int"
+            self.write_line(f"for ({idx_type} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
             self.write_line("{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
-- 
2.43.0


From 44543fb4e631f4f65714ed54321b3e17e639b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:31 +0000
Subject: [PATCH 34/36] fix: C# readers report a string that ends with the
 input or has an impossible length

---
 beschi/writers/csharp.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 3c49efa..eebfd67 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -67,7 +67,22 @@ class CSharpWriter(Writer):
             self.write_line("}")
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
+            if self.protocol.string_size_type not in ("byte", "uint16"):
+                # the length may be negative, or more than an array can hold
+                negative = "" if self.protocol.string_size_type.startswith("u") else f"{var_clean}_Length < 0 || "
+                self.write_line(f"if ({negative}(br.BaseStream.CanSeek && (ulong){var_clean}_Length > (ulong)(br.BaseStream.Length - br.BaseStream.Position)))")
+                self.write_line("{")
+                self.indent_level += 1
+                self.write_line("throw new System.IO.EndOfStreamException();")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
+            self.write_line(f"if ({var_clean}_Buffer.Length < (int){var_clean}_Length)")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line("throw new System.IO.EndOfStreamException();")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line(f"{accessor}{var.name} = System.Text.Encoding.UTF8.GetString({var_clean}_Buffer);")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-- 
2.43.0


From d53d527a331109e4e1f2cd165f42f71dd531c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:31 +0000
Subject: [PATCH 35/36] fix: C# unpacking reports a cut header and an
 impossible message count

---
 beschi/writers/boilerplate/CSharp.1.cs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/CSharp.1.cs b/beschi/writers/boilerplate/CSharp.1.cs
index 3fc780b..bb8b526 100644
--- a/beschi/writers/boilerplate/CSharp.1.cs
+++ b/beschi/writers/boilerplate/CSharp.1.cs
@@ -79,10 +79,22 @@ public abstract class Message
         {
             throw new DataReadErrorException("Packed message buffer has invalid header.");
         }
-        uint msgCount = br.ReadUInt32();
+        uint msgCount;
+        try
+        {
+            msgCount = br.ReadUInt32();
+        }
+        catch (EndOfStreamException)
+        {
+            throw new DataReadErrorException("Packed message buffer has no message count.");
+        }
         if (msgCount == 0) {
             return Array.Empty<Message>();
         }
+        if (msgCount > int.MaxValue)
+        {
+            throw new DataReadErrorException("Unexpected number of messages in buffer.");
+        }
         Message[] msgList = Message.ProcessRawBytes(br, Convert.ToInt32(msgCount));
         if (msgList.Length == 0)
         {
-- 
2.43.0


From c480d82863d13adab8badc0553f5c1934dfb0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:40 +0000
Subject: [PATCH 36/36] fix: Zig code for structs without members compiles

---
 beschi/writers/zig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 121a6ef..eda4278 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -233,6 +233,7 @@ class ZigWriter(Writer):
             self.write_line("_ = self;")
             if not sdata.is_message:
                 self.write_line("_ = offset;")
+                self.write_line("_ = buffer;")
         if sdata.is_simple():
             simple_offset = 0
             if sdata.is_message:
-- 
2.43.0

