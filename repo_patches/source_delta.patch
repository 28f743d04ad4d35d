From 2a8e808b65dd2c00c27332a81110efbc986a3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 01/34] fix: do not match a rule past the end of the tokens

match_at reused the last token when a rule needed more tokens than were
left, so rules could match tokens that are not there, and looked one
place too far back for rules ending with the last token.
---
 graphtransliterator/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index d102b83..4171a3e 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -712,7 +712,8 @@ class GraphTransliterator:
             children = None
             ordered_children = graph_node[node_key].get("ordered_children")
             if ordered_children:
-                children = ordered_children.get(tokens[token_i])
+                if token_i < len(tokens):  # No tokens left to consume at the end
+                    children = ordered_children.get(tokens[token_i])
                 if children:
                     # reordered high to low for stack:
                     for child_key in reversed(children):
@@ -745,9 +746,7 @@ class GraphTransliterator:
                 else:
                     return curr_node["rule_key"]
             else:
-                if token_i < len(tokens) - 1:
-                    token_i += 1
-                _append_children(node_key, token_i)
+                _append_children(node_key, token_i + 1)
         if match_all:
             return matches
 
-- 
2.43.0


From 81e384ddacf44df94d49647c151bdc68861fd90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:04 +0000
Subject: [PATCH 02/34] fix: match the least costly rule first

---
 graphtransliterator/core.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 4171a3e..42b12f3 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -28,9 +28,10 @@ from .schemas import (
     TransliterationRuleSchema,
     WhitespaceSettingsSchema,
 )
-from collections import deque
+from heapq import heappop, heappush
 
 from graphtransliterator import __version__ as __version__
+import itertools
 import json
 import logging
 from marshmallow import (
@@ -706,7 +707,13 @@ class GraphTransliterator:
         graph_edge = graph.edge
         if match_all:
             matches = []
-        stack = deque()
+        # Heap ordered by cost, and, when of the same cost, last in, first out
+        queue = []
+        order = itertools.count(0, -1)
+
+        def _push(child_key, node_key, token_i):
+            cost = graph_edge[node_key][child_key]["cost"]
+            heappush(queue, (cost, next(order), child_key, node_key, token_i))
 
         def _append_children(node_key, token_i):
             children = None
@@ -715,22 +722,22 @@ class GraphTransliterator:
                 if token_i < len(tokens):  # No tokens left to consume at the end
                     children = ordered_children.get(tokens[token_i])
                 if children:
-                    # reordered high to low for stack:
+                    # reordered high to low, as last in is first out:
                     for child_key in reversed(children):
-                        stack.appendleft((child_key, node_key, token_i))
+                        _push(child_key, node_key, token_i)
                 else:
                     rules_keys = ordered_children.get("__rules__")  # leafs
                     if rules_keys:
                         # There may be more than one rule, as certain rules have
                         # constraints on them.
-                        # Reordered so higher cost go on stack last.
+                        # Reordered so higher cost go on queue first.
                         for rule_key in reversed(rules_keys):
-                            stack.appendleft((rule_key, node_key, token_i))
+                            _push(rule_key, node_key, token_i)
 
         _append_children(0, token_i)  # Append all children of root node
 
-        while stack:  # LIFO
-            node_key, parent_key, token_i = stack.popleft()
+        while queue:  # Lowest cost first
+            _cost, _order, node_key, parent_key, token_i = heappop(queue)
 
             curr_node = graph_node[node_key]
             # Constraints are only on preceding edge if it is accepting
-- 
2.43.0


From 20f23533e6aba553024209d97d2ef0f2ac94e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 03/34] fix: prune only rules of the given production when
 given a str

---
 graphtransliterator/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 42b12f3..69dd237 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -804,6 +804,8 @@ class GraphTransliterator:
           gt.pruned_of(['<A>', '<AA>']).rules
 
         """  # noqa
+        if isinstance(productions, str):
+            productions = [productions]
         pruned_rules = [_ for _ in self._rules if _.production not in productions]
         return GraphTransliterator(
             self._tokens,
-- 
2.43.0


From e6979a82b4dcbf2abdb3e419d0ab58982bc29568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 04/34] fix: allow settings without on match rules, which are
 optional

---
 graphtransliterator/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index c988882..4bf83bf 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -145,7 +145,7 @@ class SettingsSchema(Schema):
 
         # Validate onmatch_rules and rules
         for rule_type in ("onmatch_rules", "rules"):
-            for rule in data[rule_type]:
+            for rule in data.get(rule_type) or []:
                 for property in ("prev_classes", "next_classes"):
                     values = getattr(rule, property)
                     if not values:
-- 
2.43.0


From d0005f41356420c4bb3ec24c98776579a40736a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:45 +0000
Subject: [PATCH 05/34] fix: load dumps of transliterators without metadata

---
 graphtransliterator/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 69dd237..fcfe6b0 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -63,7 +63,9 @@ class GraphTransliteratorSchema(Schema):
         OnMatchRuleSchema, many=True, required=False, allow_none=True
     )
     metadata = fields.Dict(
-        keys=fields.Str(), required=False  # No restriction on values
+        keys=fields.Str(),
+        required=False,
+        allow_none=True,  # No restriction on values
     )
     ignore_errors = fields.Bool(required=False)
     onmatch_rules_lookup = fields.Dict(required=False, allow_none=True)
-- 
2.43.0


From 520bbf411f222bf5515f6c362fed004120ee53e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:10 +0000
Subject: [PATCH 06/34] fix: check all pairs of rules of the same cost for
 ambiguity

---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index 7e5a102..b9dd0e7 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -114,7 +114,7 @@ def check_for_ambiguity(transliterator):
                 j_index = group[j][0]
                 intersection = full_intersection(i_index, j_index)
                 if not intersection:
-                    break
+                    continue
 
                 # Check if a less costly rule matches intersection
 
-- 
2.43.0


From d7fb4f48a9965f7a984f53ff277a24efba422c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:17 +0000
Subject: [PATCH 07/34] fix: resolve ambiguity only by less costly rules

---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index b9dd0e7..cd9e408 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -122,7 +122,7 @@ def check_for_ambiguity(transliterator):
                     for r_i, rule in enumerate(rules):
                         if r_i in (i_index, j_index):
                             continue
-                        if rule.cost > rules[i_index].cost:
+                        if rule.cost >= rules[i_index].cost:
                             continue
                         rule_tokens = matrix[r_i]
                         if covered_by(intersection, rule_tokens):
-- 
2.43.0


From 0fde94b65a82ad533e3302aa1506233a6b2a8104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:24 +0000
Subject: [PATCH 08/34] fix: use keyword arguments of load and loads

---
 graphtransliterator/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index fcfe6b0..5a517f8 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -93,8 +93,10 @@ class GraphTransliteratorSchema(Schema):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
+            # Keep other settings, such as keyword arguments of load() and loads()
+            settings = {k: v for k, v in data.items() if k != "compressed_settings"}
             data = decompress_config(compressed_settings)
-            data.update(graphtransliterator_version=version)
+            data.update(settings)
         return data
 
     @post_load
@@ -104,7 +106,7 @@ class GraphTransliteratorSchema(Schema):
             if data.get(key):  # tokens_by_class can be generated
                 data[key] = {k: set(v) for k, v in data[key].items()}
         # Do not check ambiguity by default if deserializing
-        data["check_ambiguity"] = kwargs.get("check_ambiguity", False)
+        data.setdefault("check_ambiguity", False)
         return GraphTransliterator(**data)
 
     @validates_schema
-- 
2.43.0


From 29bb2b10c767cea387da93c2cdc3d70715df0e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 09/34] fix: keep ignore_errors in compressed dumps

---
 graphtransliterator/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 5a517f8..a4aa1a8 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -575,13 +575,16 @@ class GraphTransliterator:
             raise ValueError(
                 f"Compression level must be between 0 and {HIGHEST_COMPRESSION_LEVEL}"
             )
-        return {
+        config = {
             "graphtransliterator_version": __version__,
             "compressed_settings": compress_config(
                 GraphTransliteratorSchema().dump(self),
                 compression_level=compression_level,
             ),
         }
+        if self.ignore_errors:  # Not part of compressed settings
+            config["ignore_errors"] = True
+        return config
 
     def dumps(self, compression_level=2):
         """
-- 
2.43.0


From f91e5393ac9c31e2af78233a4dd166913dae70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 10/34] fix: compare versions numerically

---
 graphtransliterator/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index a4aa1a8..9aa1582 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -51,6 +51,11 @@ DEFAULT_COMPRESSION_LEVEL = 2
 HIGHEST_COMPRESSION_LEVEL = 2
 
 
+def _version_key(version):
+    """Numeric components of a version, so that 1.10 is later than 1.9."""
+    return [int(_) for _ in re.findall(r"\d+", str(version))]
+
+
 class GraphTransliteratorSchema(Schema):
     """Schema for Graph Transliterator."""
 
@@ -89,7 +94,7 @@ class GraphTransliteratorSchema(Schema):
     def check_version_and_compression(self, data, **kwargs):
         """Raises error if serialized GraphTransliterator is from a later version."""
         version = data.get("graphtransliterator_version")
-        if version and version > __version__:
+        if version and _version_key(version) > _version_key(__version__):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-- 
2.43.0


From 21a34f30f49b13dee9210362203534115ab40c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 11/34] fix: unescape Unicode character names containing digits

---
 graphtransliterator/initialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index f10db33..ead4122 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -261,8 +261,8 @@ def _unescape_charnames(input_str):
     def get_unicode_char(matchobj):
         """Get Unicode character value from escaped character sequences."""
         charname = matchobj.group(0)
-        match = re.match(r"\\N{([-A-Z ]+)}", charname)
+        match = re.match(r"\\N{([-A-Z0-9 ]+)}", charname)
         char = unicodedata.lookup(match.group(1))  # KeyError if invalid
         return char
 
-    return re.sub(r"\\N{[-A-Z ]+}", get_unicode_char, input_str)
+    return re.sub(r"\\N{[-A-Z0-9 ]+}", get_unicode_char, input_str)
-- 
2.43.0


From 1c0db5b1538ad3b72127569677acc70b7e3ea19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 12/34] fix: consolidate whitespace to the default whitespace
 token

---
 graphtransliterator/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 9aa1582..acf31f8 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -882,6 +882,7 @@ class GraphTransliterator:
                 # matched_at = match.span(0)[0]
                 if is_whitespace(token):
                     if prev_whitespace and self.whitespace.consolidate:
+                        tokens[-1] = self.whitespace.default
                         continue
                     else:
                         prev_whitespace = True
-- 
2.43.0


From 9079d78a88fb2020cc085cce5920294775eadd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 13/34] fix: use next classes when generating tests of on match
 rules

---
 graphtransliterator/transliterators/bundled.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index 6ce327e..dbf315f 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -187,7 +187,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
                 for _ in rule.prev_classes:
                     token = sample_token(_)
                     input_ += token
-                for _ in rule.prev_classes:
+                for _ in rule.next_classes:
                     token = sample_token(_)
                     input_ += token
                 tests[input_] = self.transliterate(input_)
-- 
2.43.0


From 0d1cf47aa942d8ef2fe10e97146bf9f3a264785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 14/34] fix: compress transliterators without rules

---
 graphtransliterator/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index 7b11a81..cd79dc6 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -136,7 +136,7 @@ def compress_config(config, compression_level=1):
 
     def compress_node(_node):
         def compressed_ordered_children():
-            x = _node.get("ordered_children")
+            x = _node.get("ordered_children") or {}  # Empty if no rules
             out = {}
             for k, v in x.items():
                 if k == "__rules__":
-- 
2.43.0


From 6d2bbe4631bf43765c9391dd3640adbdd36a7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 15/34] fix: validate that tokens, rules and on match rules are
 not empty

---
 graphtransliterator/schemas.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 4bf83bf..fb5fd09 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -66,7 +66,9 @@ class TransliterationRuleSchema(Schema):
     """Schema for :class:`TransliterationRule`."""
 
     production = fields.Str(required=True)
-    tokens = fields.List(fields.Str(), required=True)
+    tokens = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
     prev_classes = fields.List(fields.Str(), allow_none=True)
     next_classes = fields.List(fields.Str(), allow_none=True)
     prev_tokens = fields.List(fields.Str(), allow_none=True)
@@ -98,9 +100,13 @@ class TransliterationRuleSchema(Schema):
 class OnMatchRuleSchema(Schema):
     """Schema for :class:`OnMatchRule`."""
 
-    prev_classes = fields.List(fields.Str())
-    next_classes = fields.List(fields.Str())
-    production = fields.Str()
+    prev_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    next_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    production = fields.Str(required=True)
 
     class Meta:
         fields = ("prev_classes", "next_classes", "production")
@@ -118,7 +124,9 @@ class SettingsSchema(Schema):
     """
 
     tokens = fields.Dict(
-        keys=fields.Str(), values=fields.List(fields.Str()), required=True
+        keys=fields.Str(validate=validate.Length(min=1)),
+        values=fields.List(fields.Str()),
+        required=True,
     )
     rules = fields.Nested(TransliterationRuleSchema, many=True, required=True)
     whitespace = fields.Nested(WhitespaceSettingsSchema, many=False, required=True)
-- 
2.43.0


From d2a59d0e085f652f68fcbb1dac890346b3e2c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 16/34] fix: make dumps independent of set ordering

---
 graphtransliterator/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index acf31f8..1579aec 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -37,6 +37,7 @@ import logging
 from marshmallow import (
     fields,
     pre_load,
+    post_dump,
     post_load,
     Schema,
     validates_schema,
@@ -104,6 +105,15 @@ class GraphTransliteratorSchema(Schema):
             data.update(settings)
         return data
 
+    @post_dump
+    def sort_sets(self, data, **kwargs):
+        """Sort values that come from sets to make dumps consistent."""
+        data["tokens"] = {k: sorted(v) for k, v in data["tokens"].items()}
+        data["tokens_by_class"] = {
+            k: sorted(v) for k, v in sorted(data["tokens_by_class"].items())
+        }
+        return data
+
     @post_load
     def make_GraphTransliterator(self, data, **kwargs):
         # Convert lists to sets
-- 
2.43.0


From b8487461e2b23bde985a27b6feb3abad7f837f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:31 +0000
Subject: [PATCH 17/34] fix: do not log serialization as visits when measuring
 coverage

---
 graphtransliterator/graphs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 53e0490..3fef2c4 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -170,6 +170,9 @@ class VisitLoggingList(UserList):
         self.visited.add(i)
         return self.data[i]
 
+    def __iter__(self):
+        return iter(self.data)  # Iteration, e.g. to serialize, is not a visit
+
     def clear_visited(self):
         self.visited.clear()
 
@@ -185,6 +188,12 @@ class VisitLoggingDict(UserDict):
         self.visited.add(i)
         return self.data[i]
 
+    def items(self):
+        return self.data.items()  # Iteration, e.g. to serialize, is not a visit
+
+    def values(self):
+        return self.data.values()
+
     def clear_visited(self):
         self.visited.clear()
 
-- 
2.43.0


From d04ca80f390f1827c5ab8991281e58b1a9928ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 18/34] fix: log visits only of the transliterator measured for
 coverage

---
 graphtransliterator/core.py   | 3 ++-
 graphtransliterator/graphs.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 1579aec..ba61b61 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -833,7 +833,8 @@ class GraphTransliterator:
             self._tokens,
             pruned_rules,
             self._whitespace,
-            onmatch_rules=self._onmatch_rules,
+            # A new list, as visits to on match rules may be logged
+            onmatch_rules=list(self._onmatch_rules or []),
             metadata=self._metadata,
             ignore_errors=self._ignore_errors,
             check_ambiguity=self._check_ambiguity,
diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 3fef2c4..5f5bd8d 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -209,10 +209,10 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         # We only care about {TAIL: DATA} for checking coverage.
         # First, convert all {TAIL: {DATA}} to VisitLoggingDict
         # (This avoids settings {HEAD: {...}} to visited
-        for head in self.edge.keys():
-            self.edge[head] = VisitLoggingDict(self.edge[head])
+        # A new dict is used, so the graph initialized from is not affected.
+        edge = {head: VisitLoggingDict(tail) for head, tail in self.edge.items()}
         # Second, convert {HEAD: {...}} to VisitLoggingDict
-        self.edge = VisitLoggingDict(self.edge)
+        self.edge = VisitLoggingDict(edge)
 
     def __init__(self, graph):
         """Initialize from existing graph."""
-- 
2.43.0


From 14f1c57d6fabca4a06cb7a20aa50aca37709da0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 19/34] fix: list an edge of a graph only once

---
 graphtransliterator/graphs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 5f5bd8d..ec4771d 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -110,9 +110,10 @@ class DirectedGraph:
         if head not in self.edge:
             self.edge[head] = {}
 
-        self.edge[head][tail] = edge_data
+        if tail not in self.edge[head]:
+            self.edge_list.append(tuple([head, tail]))
 
-        self.edge_list.append(tuple([head, tail]))
+        self.edge[head][tail] = edge_data
 
         return self.edge[head][tail]
 
-- 
2.43.0


From c79429f38197eda540c1202d5fa68ad239709858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 20/34] fix: validate that each easy-reading on match rule is a
 single rule

---
 graphtransliterator/schemas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index fb5fd09..67c1d4f 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -51,6 +51,7 @@ class EasyReadingSettingsSchema(Schema):
         fields.Dict(
             keys=fields.Str(validate=validate.Regexp(ONMATCH_RE)),
             values=fields.Str(),
+            validate=validate.Length(equal=1),
             required=False,
         )
     )
-- 
2.43.0


From 45119fe92cfa297b932309ebe2a387c9d707d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 21/34] fix: allow slicing on match rules when measuring
 coverage

---
 graphtransliterator/graphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index ec4771d..345e9da 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -168,7 +168,8 @@ class VisitLoggingList(UserList):
         self.visited = set()
 
     def __getitem__(self, i):
-        self.visited.add(i)
+        if not isinstance(i, slice):  # Slicing, unhashable, is not a visit
+            self.visited.add(i)
         return self.data[i]
 
     def __iter__(self):
-- 
2.43.0


From e05649e27ef5d681cf520f9f253ef5f455e6f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 22/34] fix: do not ignore errors when -nie is given on the
 command line

---
 graphtransliterator/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index b91ec99..7cd367b 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -69,8 +69,7 @@ def load_transliterator(source, **kwargs):
 )
 @click.option(
     "--ignore-errors/--no-ignore-errors",
-    "-ie",
-    "-nie",
+    "-ie/-nie",
     help="Ignore errors.",
     show_default=True,
     default=False,
-- 
2.43.0


From 5e458fadb0540622528ea07efb9715428116a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 23/34] fix: parse easy-reading rules without exponential
 backtracking

---
 graphtransliterator/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index c82c546..7734b9f 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -38,7 +38,8 @@ def _process_easyreading_settings(settings):
 # added \n and \r explicitly as validator does not accept re.DOTALL
 
 RULE_RE = re.compile(
-    r"(?:\(((?:\s?<.+?>\s+)+)?(.+?)\s?\) |((?:\s?<.+?>\s+)+)?)?"
+    r"(?:\((\s?<[^>\n]+>(?:\s*<[^>\n]+>)*\s+)?(.+?)\s?\) |"
+    r"(\s?<[^>\n]+>(?:\s*<[^>\n]+>)*\s+)?)?"
     r"((?:\n|\r|.)+?)"
     r"(?:"
     r"\s+(?:\((.+?)((?:\s+<.+?>?)?)\)$)"
-- 
2.43.0


From 8a6f0bed7652a8ef6b869c5dd4df79db0ea25563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 24/34] fix: raise ValueError also for tuples added to a graph

---
 graphtransliterator/graphs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 345e9da..533289c 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -97,15 +97,15 @@ class DirectedGraph:
         if edge_data is None:
             edge_data = {}
         if type(head) is not int:
-            raise ValueError("Edge head is not an integer: %s." % head)
+            raise ValueError("Edge head is not an integer: %s." % (head,))
         if type(tail) is not int:
-            raise ValueError("Edge tail is not an integer: %s." % tail)
+            raise ValueError("Edge tail is not an integer: %s." % (tail,))
         if head < 0 or head >= len(self.node):
             raise ValueError("Head index of edge not in graph: %s." % head)
         if tail < 0 or tail >= len(self.node):
             raise ValueError("Tail index of edge not in graph: %s." % tail)
         if type(edge_data) is not dict:
-            raise ValueError("Edge data is not a dict: %s." % edge_data)
+            raise ValueError("Edge data is not a dict: %s." % (edge_data,))
 
         if head not in self.edge:
             self.edge[head] = {}
@@ -154,7 +154,7 @@ class DirectedGraph:
         if node_data is None:
             node_data = {}
         if type(node_data) is not dict:
-            raise ValueError("node_data must be a dict: %s" % node_data)
+            raise ValueError("node_data must be a dict: %s" % (node_data,))
         node_key = len(self.node)
         self.node.append(node_data)
         return node_key, self.node[node_key]
-- 
2.43.0


From 6fa4afe48a5602bd6f6b7892248182d8ebe7fb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 25/34] fix: validate also when loading that tokens are not
 empty

---
 graphtransliterator/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index ba61b61..43cc6f2 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -40,6 +40,7 @@ from marshmallow import (
     post_dump,
     post_load,
     Schema,
+    validate,
     validates_schema,
     ValidationError,
 )
@@ -61,7 +62,9 @@ class GraphTransliteratorSchema(Schema):
     """Schema for Graph Transliterator."""
 
     tokens = fields.Dict(
-        keys=fields.Str(), values=fields.List(fields.Str()), required=True
+        keys=fields.Str(validate=validate.Length(min=1)),
+        values=fields.List(fields.Str()),
+        required=True,
     )
     rules = fields.Nested(TransliterationRuleSchema, many=True, required=True)
     whitespace = fields.Nested(WhitespaceSettingsSchema, many=False, required=True)
-- 
2.43.0


From 8a4cd13f432497f678f5c34cb7a5bf3ed7325c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:19 +0000
Subject: [PATCH 26/34] fix: read easy-reading rules with line-break and other
 white-space tokens

'a \n' was read as ['a'], as $ also matches before a final line break, and
other white space than blanks next to a parenthesis or class was lost.
---
 graphtransliterator/process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index 7734b9f..aa07e4c 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -38,15 +38,15 @@ def _process_easyreading_settings(settings):
 # added \n and \r explicitly as validator does not accept re.DOTALL
 
 RULE_RE = re.compile(
-    r"(?:\((\s?<[^>\n]+>(?:\s*<[^>\n]+>)*\s+)?(.+?)\s?\) |"
-    r"(\s?<[^>\n]+>(?:\s*<[^>\n]+>)*\s+)?)?"
+    r"(?:\(( ?<[^>\n]+>(?: *<[^>\n]+>)* +)?((?:\n|.)+?) ?\) |"
+    r"( ?<[^>\n]+>(?: *<[^>\n]+>)* +)?)?"
     r"((?:\n|\r|.)+?)"
     r"(?:"
-    r"\s+(?:\((.+?)((?:\s+<.+?>?)?)\)$)"
+    r" +(?:\(((?:\n|.)+?)((?: +<.+?>?)?)\)\Z)"
     r"|"
-    r"((?:\s+<.+?>)+)"
+    r"((?: +<.+?>)+)"
     r"|"
-    r"$)"
+    r"\Z)"
 )
 
 
-- 
2.43.0


From 27efffc473103009f8c05194223669b03ddba1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 27/34] fix: refuse transliterators of a module name already
 loaded

Loading another module of that name was refused only afterwards, when it had
already replaced the settings of the first.
---
 graphtransliterator/transliterators/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index 2bfe9db..ac9b4ba 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -41,6 +41,11 @@ def add_transliterators(path=__path__):
         # if it is not a submodule, skip it.
         if not is_pkg:
             continue
+        # Loading would replace the settings of transliterators of the same module name
+        if any(globals()[_].__module__ == module_name for _ in _transliterators):
+            raise ValueError(
+                'A transliterator module named "{}" already exists'.format(module_name)
+            )
         _module = loader.find_module(module_name).load_module(module_name)
 
         for name, _obj in inspect.getmembers(_module, inspect.isclass):
-- 
2.43.0


From 3a22335266a18d856572750e51b3acb6ab0f4ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:30 +0000
Subject: [PATCH 28/34] fix: read and write files as UTF-8 whatever the locale

---
 graphtransliterator/cli.py                     | 6 +++---
 graphtransliterator/core.py                    | 2 +-
 graphtransliterator/transliterators/bundled.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index 7cd367b..165ad06 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -31,7 +31,7 @@ def load_transliterator(source, **kwargs):
     elif format == "json":
         return GraphTransliterator.loads(parameter, **kwargs)
     elif format == "json_file":
-        with open(parameter, "r") as f:
+        with open(parameter, "r", encoding="utf-8") as f:
             return GraphTransliterator.loads(f.read(), **kwargs)
     elif format == "yaml_file":
         return GraphTransliterator.from_yaml_file(parameter, **kwargs)
@@ -138,7 +138,7 @@ def dump_tests(bundled, to):
         transliteration_tests = transliterator.load_yaml_tests()
         click.echo(json.dumps(transliteration_tests))
     elif to == "yaml":
-        with open(transliterator.yaml_tests_filen, "r") as f:
+        with open(transliterator.yaml_tests_filen, "r", encoding="utf-8") as f:
             click.echo(f.read())
 
 
@@ -225,7 +225,7 @@ def make_json(bundled, regex):
         json_filename = os.path.join(
             transliterator.directory, transliterator.name + ".json"
         )
-        with open(json_filename, "w") as f:
+        with open(json_filename, "w", encoding="utf-8") as f:
             f.write(transliterator.dumps())
         click.echo(f"Made JSON of {_}.")
 
diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 43cc6f2..86090bd 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -1202,7 +1202,7 @@ class GraphTransliterator:
         from_yaml : Constructor from YAML string in "easy reading" format
         from_easyreading_dict : Constructor from dictionary in "easy reading" format
         """
-        with open(yaml_filename, "r") as f:
+        with open(yaml_filename, "r", encoding="utf-8") as f:
             yaml_string = f.read()
 
         return GraphTransliterator.from_yaml(yaml_string, **kwargs)
diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index dbf315f..ac86cde 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -38,7 +38,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
         if method == "yaml":
             gt = GraphTransliterator.from_yaml_file(filename, **kwargs)
         elif method == "json":
-            with open(filename, "r") as f:
+            with open(filename, "r", encoding="utf-8") as f:
                 gt = GraphTransliterator.loads(f.read(), **kwargs)
         # Select coverage superclass, if coverage set.
         if kwargs.get("coverage"):
@@ -120,7 +120,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
         `NAME_tests.yaml, e.g. `source_to_target/tests/source_to_target_tests.yaml`.
         """
         test_file = self.yaml_tests_filen
-        with open(test_file, "r") as f:
+        with open(test_file, "r", encoding="utf-8") as f:
             return {str(k): str(i) for k, i in yaml.safe_load(f).items()}
 
     def run_tests(self, transliteration_tests):
-- 
2.43.0


From 242c5caaa29e291c8209f624e398b94fa4119a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:19 +0000
Subject: [PATCH 29/34] fix: iter_transliterators ignored the options given to
 it

---
 graphtransliterator/transliterators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index ac9b4ba..b806b41 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -77,4 +77,4 @@ def iter_names():
 def iter_transliterators(**kwds):
     """Iterate through instances of bundled transliterators."""
     for _ in iter_names():
-        yield (eval(_ + "()"))
+        yield globals()[_](**kwds)
-- 
2.43.0


From 6c44f06503a876211c28ac4cc7e95211a1e3debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 30/34] fix: DirectedGraphSchema can dump many graphs at once

---
 graphtransliterator/schemas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 67c1d4f..21850c6 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -259,8 +259,8 @@ class DirectedGraphSchema(Schema):
         _data = copy.deepcopy(data)
         return DirectedGraph(**_data)
 
-    @pre_dump(pass_many=True)
-    def sort_edge_list(self, data, many, **kwargs):
+    @pre_dump
+    def sort_edge_list(self, data, **kwargs):
         """Sort edge list to make dumps consistent."""
         data.edge_list = sorted(data.edge_list)
         return data
-- 
2.43.0


From 582b9498f110ec95cefb427526953a17217b0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 31/34] fix: making a visit-logging graph of another one
 counted as visiting its edges

---
 graphtransliterator/graphs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 533289c..768cdca 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -212,7 +212,11 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         # First, convert all {TAIL: {DATA}} to VisitLoggingDict
         # (This avoids settings {HEAD: {...}} to visited
         # A new dict is used, so the graph initialized from is not affected.
-        edge = {head: VisitLoggingDict(tail) for head, tail in self.edge.items()}
+        # Its edges are taken from items(), which is not a visit if it logs visits.
+        edge = {
+            head: VisitLoggingDict(dict(tail.items()))
+            for head, tail in self.edge.items()
+        }
         # Second, convert {HEAD: {...}} to VisitLoggingDict
         self.edge = VisitLoggingDict(edge)
 
-- 
2.43.0


From 9690df4e60ec237b7b3bea5a3b3a7b8df64161c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 32/34] fix: check rules in any order for ambiguity

Rules of the same cost were compared only where they stand next to each
other. Rules given to the constructor or loaded from a serialization need
not be sorted by cost.
---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index cd9e408..821801c 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -103,7 +103,7 @@ def check_for_ambiguity(transliterator):
     # not, there is ambiguity.
 
     for _group_val, group_iter in itertools.groupby(
-        enumerate(transliterator._rules), key=lambda x: x[1].cost
+        sorted(enumerate(rules), key=lambda x: x[1].cost), key=lambda x: x[1].cost
     ):
         group = list(group_iter)
         if len(group) == 1:
-- 
2.43.0


From 1da019ea34e193bad293d7c2c7475056fd922405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:35 +0000
Subject: [PATCH 33/34] fix: make-json took a name for a regular expression

---
 graphtransliterator/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index 165ad06..035cb6d 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -213,7 +213,7 @@ def make_json(bundled, regex):
     import graphtransliterator.transliterators as transliterators  # pragma: no cover
 
     if not regex:
-        bundled = f"^{bundled}$"
+        bundled = f"^{re.escape(bundled)}$"  # Only the name itself
     to_dump = [_ for _ in transliterators.iter_names() if re.match(bundled, _)]
     if not to_dump:
         click.echo(f"No bundled transliterator found matching /{bundled}/.")
-- 
2.43.0


From fa9b54be1a582c06422fb4b0131154a6f98f279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:35 +0000
Subject: [PATCH 34/34] fix: build the graph of rules given costs of one or
 more

---
 graphtransliterator/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index ead4122..8752b97 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -162,7 +162,7 @@ def _graph_from(rules):
                 parent_node["token_children"] = token_children
 
             curr_edge = graph.edge[parent_key][token_node_key]
-            curr_cost = curr_edge.get("cost", 1)
+            curr_cost = curr_edge.setdefault("cost", rule.cost)
             if curr_cost > rule.cost:
                 curr_edge["cost"] = rule.cost
 
-- 
2.43.0

