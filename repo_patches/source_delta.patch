From 977cd70599507b3a81f3a8c6cd7ba3f51d044b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 01/35] fix: do not drop control characters when escaping
 N-Triples strings

---
 src/pymantic/serializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index dffe7fe..c104bc8 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -24,7 +24,7 @@ def nt_escape(node_string):
             and char <= "\u007E"
         ):
             output_string += char
-        elif char >= "\u007F" and char <= "\uFFFF":
+        elif char <= "\uFFFF":
             output_string += "\\u%04X" % ord(char)
         elif char >= "\U00010000" and char <= "\U0010FFFF":
             output_string += "\\U%08X" % ord(char)
-- 
2.43.0


From 8e27da377b6b0119041d19971ad7dfd1b9fdb4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:47 +0000
Subject: [PATCH 02/35] fix: serialize quads with N-Quads terms instead of bare
 strings

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 27ca35c..0c533ed 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -211,7 +211,7 @@ class Quad(tuple):
     graph = property(itemgetter(3))
 
     def __str__(self):
-        return f"{str(self.subject)} {str(self.predicate)} {str(self.object)} {str(self.graph)} .\n"
+        return f"{self.subject.toNT()} {self.predicate.toNT()} {self.object.toNT()} {self.graph.toNT()} .\n"
 
 
 def q_as_t(quad):
-- 
2.43.0


From 6734452c988cd029c9d5a5bab2f2a6d0f0be902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 03/35] fix: read and write N-Quads statements of the default
 graph and of blank graphs

---
 src/pymantic/parsers/lark/nquads.py   | 3 ++-
 src/pymantic/parsers/lark/ntriples.py | 3 ++-
 src/pymantic/primitives.py            | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/nquads.py b/src/pymantic/parsers/lark/nquads.py
index 1041663..da35146 100644
--- a/src/pymantic/parsers/lark/nquads.py
+++ b/src/pymantic/parsers/lark/nquads.py
@@ -22,7 +22,8 @@ class NQuadsTransformer(NTriplesTransformer):
     """Transform the tokenized nquads into RDF primitives."""
 
     def quad(self, children):
-        subject, predicate, object_, graph = children
+        subject, predicate, object_ = children[:3]
+        graph = children[3] if len(children) == 4 else None
         return self.make_quad(subject, predicate, object_, graph)
 
     def quads_start(self, children):
diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 533cb4e..64b06e3 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -22,7 +22,7 @@ grammar = r"""triples_start: triple? (EOL triple)* EOL?
 triple: subject predicate object "."
 
 quads_start: quad? (EOL quad)* EOL?
-quad: subject predicate object graph "."
+quad: subject predicate object graph? "."
 
 ?subject: iriref
         | BLANK_NODE_LABEL -> blank_node_label
@@ -31,6 +31,7 @@ quad: subject predicate object graph "."
        | BLANK_NODE_LABEL -> blank_node_label
        | literal
 ?graph: iriref
+      | BLANK_NODE_LABEL -> blank_node_label
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0_9]/+)*
diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 0c533ed..6086df9 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -211,6 +211,8 @@ class Quad(tuple):
     graph = property(itemgetter(3))
 
     def __str__(self):
+        if self.graph is None:
+            return str(q_as_t(self))
         return f"{self.subject.toNT()} {self.predicate.toNT()} {self.object.toNT()} {self.graph.toNT()} .\n"
 
 
-- 
2.43.0


From 472b3e16838d8d6209ce54c621f78012a5d536dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 04/35] fix: accept digits in N-Triples language subtags

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 64b06e3..87b80ef 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -34,7 +34,7 @@ quad: subject predicate object graph? "."
       | BLANK_NODE_LABEL -> blank_node_label
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
-LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0_9]/+)*
+LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
 iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
-- 
2.43.0


From 4087c9369398a008abd5c32e47ed4d3d2950f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 05/35] fix: blank node labels in N-Triples must not swallow
 punctuation

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 87b80ef..679385d 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -41,7 +41,7 @@ STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
 ECHAR: "\\" /[tbnrf"'\\]/
-PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u10000-\uEFFFF]/
+PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]/
 PN_CHARS_U: PN_CHARS_BASE | "_" | ":"
 PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
-- 
2.43.0


From a3c317507d0f362d584f9da1829ae247e8bf6978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 06/35] fix: do not ignore whitespace inside N-Triples IRIs

---
 src/pymantic/parsers/lark/ntriples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 679385d..7f17112 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -36,7 +36,8 @@ literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
-iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
+iriref: IRIREF
+IRIREF: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
@@ -58,8 +59,8 @@ class NTriplesTransformer(BaseParser, Transformer):
         return self.make_blank_node(bn_label.value)
 
     def iriref(self, children):
-        iri = "".join(children)
-        iri = decode_literal(iri)
+        (iriref,) = children
+        iri = decode_literal(iriref[1:-1])  # Remove <>
         return self.make_named_node(iri)
 
     def literal(self, children):
-- 
2.43.0


From 915b51062276e9433c0d0a579f097e51d165eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 07/35] fix: line by line parsing keeps every statement of a
 line and skips blank lines

---
 src/pymantic/parsers/lark/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index 06425cf..f5f262f 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -9,7 +9,7 @@ class LarkParser:
     def line_by_line_parser(self, stream):
         for line in stream:  # Equivalent to readline
             if line:
-                yield next(self.lark.parse(line))
+                yield from self.lark.parse(line)
 
     def parse(self, string_or_stream, graph=None):
         """Parse a string or file-like object into RDF primitives and add
-- 
2.43.0


From 835923015c851bf93bc24e36edc7abe207cb1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 08/35] fix: only None is a wildcard when matching a graph

---
 src/pymantic/primitives.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 6086df9..efbeae2 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -418,9 +418,9 @@ class Graph:
         This method implements AND functionality, so only triples matching all
         of the given non-null arguments will be included in the result.
         """
-        if subject:
-            if predicate:  # s, p, ???
-                if object:  # s, p, o
+        if subject is not None:
+            if predicate is not None:  # s, p, ???
+                if object is not None:  # s, p, o
                     if Triple(subject, predicate, object) in self:
                         yield Triple(subject, predicate, object)
                 else:  # s, p, ?var
@@ -428,7 +428,7 @@ class Graph:
                         for triple in self._spo[subject][predicate].values():
                             yield triple
             else:  # s, ?var, ???
-                if object:  # s, ?var, o
+                if object is not None:  # s, ?var, o
                     if object in self._osp and subject in self._osp[object]:
                         for triple in self._osp[object][subject].values():
                             yield triple
@@ -437,8 +437,8 @@ class Graph:
                         for predicate in self._spo[subject]:
                             for triple in self._spo[subject][predicate].values():
                                 yield triple
-        elif predicate:  # ?var, p, ???
-            if object:  # ?var, p, o
+        elif predicate is not None:  # ?var, p, ???
+            if object is not None:  # ?var, p, o
                 if predicate in self._pos and object in self._pos[predicate]:
                     for triple in self._pos[predicate][object].values():
                         yield triple
@@ -447,7 +447,7 @@ class Graph:
                     for object in self._pos[predicate]:
                         for triple in self._pos[predicate][object].values():
                             yield triple
-        elif object:  # ?var, ?var, o
+        elif object is not None:  # ?var, ?var, o
             if object in self._osp:
                 for subject in self._osp[object]:
                     for triple in self._osp[object][subject].values():
-- 
2.43.0


From 2d4ca46befd509ea32329442c00150f2b5c70bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 09/35] fix: removeMatches must not change a graph while
 iterating over it

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index efbeae2..2f5d3ae 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -459,7 +459,7 @@ class Graph:
     def removeMatches(self, subject, predicate, object):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for triple in self.match(subject, predicate, object):
+        for triple in list(self.match(subject, predicate, object)):
             self.remove(triple)
         return self
 
@@ -545,7 +545,7 @@ class Dataset:
     def removeMatches(self, subject=None, predicate=None, object=None, graph=None):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for quad in self.match(subject, predicate, object, graph):
+        for quad in list(self.match(subject, predicate, object, graph)):
             self.remove(quad)
         return self
 
-- 
2.43.0


From 8b616816099e2d86cc749813bee9ded2d8992ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 10/35] fix: removing the last triple of a term removes it from
 subjects, predicates or objects

---
 src/pymantic/primitives.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 2f5d3ae..62d6e5d 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -395,11 +395,19 @@ class Graph:
         """Removes the specified Triple from the graph. This method returns the
         graph instance it was called on."""
         self._triples.remove(triple)
-        del self._spo[triple.subject][triple.predicate][triple.object]
-        del self._pos[triple.predicate][triple.object][triple.subject]
-        del self._osp[triple.object][triple.subject][triple.predicate]
+        self._unindex(self._spo, triple.subject, triple.predicate, triple.object)
+        self._unindex(self._pos, triple.predicate, triple.object, triple.subject)
+        self._unindex(self._osp, triple.object, triple.subject, triple.predicate)
         return self
 
+    @staticmethod
+    def _unindex(index, first, second, third):
+        del index[first][second][third]
+        if not index[first][second]:
+            del index[first][second]
+        if not index[first]:
+            del index[first]
+
     def match(self, subject=None, predicate=None, object=None):
         """This method returns a new sequence of triples which is comprised of
         all those triples in the current instance which match the given
-- 
2.43.0


From 0f81dd6600481071665f016a571a78823df26e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:10 +0000
Subject: [PATCH 11/35] fix: an unnamed graph has no URI

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 62d6e5d..5007d5a 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -364,7 +364,7 @@ class Graph:
     set/sequence API for `in`, `for`, and `len`"""
 
     def __init__(self, graph_uri=None):
-        if not isinstance(graph_uri, NamedNode):
+        if graph_uri is not None and not isinstance(graph_uri, NamedNode):
             graph_uri = NamedNode(graph_uri)
         self._uri = graph_uri
         self._triples = set()
-- 
2.43.0


From ba3cc9528f29ed2174cf7a533379b9cc350d1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:13 +0000
Subject: [PATCH 12/35] fix: querying or removing from an unknown graph must
 not create it

---
 src/pymantic/primitives.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 5007d5a..4884736 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -523,6 +523,8 @@ class Dataset:
         self._graphs[quad.graph].add(q_as_t(quad))
 
     def remove(self, quad):
+        if quad.graph not in self._graphs:
+            raise KeyError(quad)
         self._graphs[quad.graph].remove(q_as_t(quad))
 
     def add_graph(self, graph, named=None):
@@ -541,10 +543,11 @@ class Dataset:
         return self._graphs.values()
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
-        if graph:
-            matches = self._graphs[graph].match(subject, predicate, object)
-            for match in matches:
-                yield t_as_q(graph, match)
+        if graph is not None:
+            if graph in self._graphs:
+                matches = self._graphs[graph].match(subject, predicate, object)
+                for match in matches:
+                    yield t_as_q(graph, match)
         else:
             for graph_uri, graph in self._graphs.items():
                 for match in graph.match(subject, predicate, object):
-- 
2.43.0


From 77d20fc389b5bac8834164509a4d5815c6bb9119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 13/35] fix: shrinking an IRI replaces only its leading
 namespace

---
 src/pymantic/primitives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 4884736..b1e2bc5 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -106,10 +106,11 @@ def to_curie(uri, namespaces, seperator=":", explicit=False):
             matches.append((prefix, namespace))
     if len(matches) > 0:
         prefix, namespace = sorted(matches, key=lambda pair: -len(pair[1]))[0]
+        curie = prefix + seperator + uri[len(namespace) :]
         if explicit:
-            return f"[{uri.replace(namespace, prefix + seperator)}]"
+            return f"[{curie}]"
         else:
-            return uri.replace(namespace, prefix + seperator)
+            return curie
     return uri
 
 
-- 
2.43.0


From a78abd2112549db24e89cfa1f6194ba02615956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 14/35] fix: a CURIE with an empty reference belongs to its own
 prefix

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index b1e2bc5..ee33128 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -72,7 +72,7 @@ def parse_curie(curie, prefixes):
     if not definitely_curie:
         if prefix in uri_schemes.schemes:
             return NamedNode(curie)
-    if not reference and "" in prefixes:
+    if not sep and "" in prefixes:
         reference = prefix
         return Prefix(prefixes[""])(reference)
     if prefix in prefixes:
-- 
2.43.0


From 97f49a07e075ff61c97210eb3960b43a4b2b206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 15/35] fix: turtle parser reads streams as documented

---
 src/pymantic/parsers/lark/turtle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index cde16f6..3993717 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -289,10 +289,8 @@ def parse(string_or_stream, graph=None, base=""):
         # Presume string.
         string = string_or_stream
 
-    if isinstance(string_or_stream, bytes):
-        string = string_or_stream.decode("utf-8")
-    else:
-        string = string_or_stream
+    if isinstance(string, bytes):
+        string = string.decode("utf-8")
 
     tree = turtle_lark.parse(string)
     tr = TurtleTransformer(base_iri=base)
-- 
2.43.0


From 0748536a7f3ccf1ae1902a0ca49bcb0ec228fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 16/35] fix: reject IRIs ending in an escaped line feed

---
 src/pymantic/parsers/lark/turtle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 3993717..24625ba 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -102,7 +102,7 @@ LEGAL_IRI = re.compile(r'^[^\x00-\x20<>"{}|^`\\]*$')
 
 
 def validate_iri(iri):
-    if not LEGAL_IRI.match(iri):
+    if not LEGAL_IRI.fullmatch(iri):
         raise ValueError("Illegal characters in IRI: " + iri)
     return iri
 
-- 
2.43.0


From 5a15b8827ebf19aec4d55e69794b3cafd878e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 17/35] fix: expand blank node property lists and collections
 inside turtle object lists

---
 src/pymantic/parsers/lark/turtle.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 24625ba..3772ce8 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -122,16 +122,15 @@ def unpack_predicate_object_list(subject, pol):
                 raise ValueError(predicate)
             predicate = RDF_TYPE
 
-        if not isinstance(object_, (NamedNode, Literal, BlankNode)):
-            if isinstance(object_, Tree):
-                object_ = object_.children
-            for triple_or_node in object_:
-                if isinstance(triple_or_node, Triple):
-                    yield triple_or_node
-                else:
-                    object_ = triple_or_node
-                    yield Triple(subject, predicate, object_)
-        else:
+        objects = object_.children if isinstance(object_, Tree) else [object_]
+        for object_ in objects:
+            if not isinstance(object_, (NamedNode, Literal, BlankNode)):
+                for triple_or_node in object_:
+                    if isinstance(triple_or_node, Triple):
+                        yield triple_or_node
+                    else:
+                        object_ = triple_or_node
+                        break
             yield Triple(subject, predicate, object_)
 
 
-- 
2.43.0


From d43ef07f7d9fdd5cf3eb276db69b0e7feeffff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:11 +0000
Subject: [PATCH 18/35] fix: normalizing an IRI keeps percent escapes that are
 not valid UTF-8

---
 src/pymantic/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 47cb589..53f3923 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -61,10 +61,10 @@ def percent_decode(regmatch):
     encoded = b""
     for group in regmatch.group(0)[1:].split("%"):
         encoded += int(group, 16).to_bytes(1, "big")
-    uni = encoded.decode("utf-8")
+    uni = encoded.decode("utf-8", "surrogateescape")
     for res in reserved_in_iri:
         uni = uni.replace(res, "%%%02X" % ord(res))
-    return uni
+    return re.sub("[\udc80-\udcff]", lambda m: "%%%02X" % (ord(m[0]) - 0xDC00), uni)
 
 
 def normalize_iri(iri):
-- 
2.43.0


From f17faab49a90dcee393b7431a17bbb88531061e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 19/35] fix: a new resource without a subject is a blank node

---
 src/pymantic/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 5c0a48d..d0ff7d3 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -129,7 +129,7 @@ class Resource(metaclass=MetaResource):
         # graph.bind(prefix, Prefix)
         if subject is None:
             subject = BlankNode()
-        if not isinstance(subject, NamedNode):
+        if not isinstance(subject, NamedNode) and not isinstance(subject, BlankNode):
             subject = NamedNode(subject)
         for rdf_class in cls.rdf_classes:
             graph.add(Triple(subject, cls.resolve("rdf:type"), rdf_class))
-- 
2.43.0


From 98b4949506e497350bf221a8191dde1878c5b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 20/35] fix: copying a resource adds proper triples and does
 not iterate over a changing graph

---
 src/pymantic/rdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index d0ff7d3..dc6d0f8 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -540,8 +540,8 @@ class Resource(metaclass=MetaResource):
             target_subject, BlankNode
         ):
             target_subject = NamedNode(target_subject)
-        for t in self.graph.match(self.subject, None, None):
-            self.graph.add((target_subject, t.predicate, t.object))
+        for t in list(self.graph.match(self.subject, None, None)):
+            self.graph.add(Triple(target_subject, t.predicate, t.object))
         return self.classify(self.graph, target_subject)
 
     def as_(self, target_class):
-- 
2.43.0


From 1e91169cb7a67c493a8f41698556860d76d1e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:18 +0000
Subject: [PATCH 21/35] fix: in_graph returns only subjects having every class
 of the resource

---
 src/pymantic/rdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index dc6d0f8..ca25337 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -362,10 +362,10 @@ class Resource(metaclass=MetaResource):
     @classmethod
     def in_graph(cls, graph):
         """Iterate through all instances of this Resource in the graph."""
-        subjects = set()
+        subjects = None
         for rdf_class in cls.rdf_classes:
-            if not subjects:
-                subjects.update(
+            if subjects is None:
+                subjects = set(
                     [
                         t.subject
                         for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
@@ -378,7 +378,7 @@ class Resource(metaclass=MetaResource):
                         for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
                     ]
                 )
-        return set(cls(graph, subject) for subject in subjects)
+        return set(cls(graph, subject) for subject in subjects or ())
 
     def __repr__(self):
         return "<%r: %s>" % (type(self), self.subject)
-- 
2.43.0


From fb8f7fe6039d36edfba59f5f4f2dd616331279ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:21 +0000
Subject: [PATCH 22/35] fix: classify copes with registered classes that are
 related or repeated

---
 src/pymantic/rdf.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index ca25337..ef9fe3c 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -406,10 +406,19 @@ class Resource(metaclass=MetaResource):
         types = frozenset(
             [t.object for t in graph.match(obj, cls.resolve("rdf:type"), None)]
         )
-        python_classes = tuple(
+        registered = {
             cls._meta_resource._classes[t]
             for t in types
             if t in cls._meta_resource._classes
+        }
+        # A class already implies its superclasses.
+        python_classes = tuple(
+            python_class
+            for python_class in registered
+            if not any(
+                other is not python_class and issubclass(other, python_class)
+                for other in registered
+            )
         )
         if len(python_classes) == 0:
             return Resource(graph, obj)
-- 
2.43.0


From 63dd86f1b1f6626c0808faa7db251a7d0bf388da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:23 +0000
Subject: [PATCH 23/35] fix: classify notices classes registered after a
 combined class was created

---
 src/pymantic/rdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index ef9fe3c..f95829a 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -425,16 +425,17 @@ class Resource(metaclass=MetaResource):
         elif len(python_classes) == 1:
             return python_classes[0](graph, obj)
         else:
-            if types not in cls._meta_resource._classes:
+            combination = (types, frozenset(python_classes))
+            if combination not in cls._meta_resource._classes:
                 the_class = cls._meta_resource.__new__(
                     cls._meta_resource,
                     "".join(python_class.__name__ for python_class in python_classes),
                     python_classes,
                     {"_autocreate": True},
                 )
-                cls._meta_resource._classes[types] = the_class
+                cls._meta_resource._classes[combination] = the_class
                 the_class.rdf_classes = frozenset(types)
-            return cls._meta_resource._classes[types](graph, obj)
+            return cls._meta_resource._classes[combination](graph, obj)
 
     def _interpret_key(self, key):
         """Break up a key into a predicate name and optional language or
-- 
2.43.0


From 9304390ebe8d0962646af1de390cb086854eb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 24/35] fix: list traversal yields literals of every language

---
 src/pymantic/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index f95829a..7f09c51 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -570,7 +570,7 @@ class List(Resource):
         """Iterating over lists works differently from normal Resources."""
         current = self
         while current.subject != self.resolve("rdf:nil"):
-            yield current["rdf:first"]
+            yield current.get_scalar(("rdf:first", None))
             current = current["rdf:rest"]
             if current.subject != self.resolve("rdf:nil"):
                 current = current.as_(type(self))
-- 
2.43.0


From 17444f7fb0935960949758d86d8d86baaf8e3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 25/35] fix: object references are acceptable values for
 language and datatype filters

---
 src/pymantic/rdf.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 7f09c51..77c1ce7 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -614,19 +614,19 @@ def check_objects(graph, value, lang, datatype, rdf_class):
         isinstance(value, tuple) and not isinstance(value, Literal)
     ):
         for v in value:
-            if (
-                (
-                    lang
-                    and (not hasattr(v, "language") or not lang_match(v.language, lang))
-                )
+            if isinstance(v, Resource):
+                if rdf_class and not isinstance(v, rdf_class):
+                    return False
+            elif (
+                (lang and not lang_match(v.language, lang))
                 or (datatype and v.datatype != datatype)
-                or (rdf_class and not isinstance(v, rdf_class))
+                or rdf_class
             ):
                 return False
         return True
+    elif isinstance(value, Resource):
+        return lang or datatype or (rdf_class and isinstance(value, rdf_class))
     else:
-        return (
-            (lang and lang_match(value.language, lang))
-            or (datatype and value.datatype == datatype)
-            or (rdf_class and isinstance(value, rdf_class))
+        return (lang and lang_match(value.language, lang)) or (
+            datatype and value.datatype == datatype
         )
-- 
2.43.0


From b433879a65df0f0d1c9a128dbf3c416848c1f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 26/35] fix: a JSON-LD literal with a language has no datatype

---
 src/pymantic/parsers/jsonld.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 29541fa..788f9b1 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -51,13 +51,14 @@ class PyLDLoader(BaseParser):
         elif triple_fragment["type"] == "blank node":
             return self._call_state.bnodes[triple_fragment["value"]]
         elif triple_fragment["type"] == "literal":
-            language = None
             if "language" in triple_fragment:
-                language = triple_fragment["language"]
+                return self.env.createLiteral(
+                    value=triple_fragment["value"],
+                    language=triple_fragment["language"],
+                )
             return self.env.createLiteral(
                 value=triple_fragment["value"],
                 datatype=self.env.createNamedNode(triple_fragment["datatype"]),
-                language=language,
             )
 
     def process_jobj(self, jobj, options=None):
-- 
2.43.0


From 31279507fbd9543b448e2ececed17c1e15bdc0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:35 +0000
Subject: [PATCH 27/35] fix: a blank JSON-LD graph name is the blank node of
 that label

---
 src/pymantic/parsers/jsonld.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 788f9b1..97c0b58 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -66,11 +66,12 @@ class PyLDLoader(BaseParser):
 
         dataset = to_rdf(jobj, options=options)
         for graph_name, triples in dataset.items():
-            graph_iri = (
-                self.env.createNamedNode(graph_name)
-                if graph_name != "@default"
-                else None
-            )
+            if graph_name == "@default":
+                graph_iri = None
+            elif graph_name.startswith("_:"):
+                graph_iri = self._call_state.bnodes[graph_name]
+            else:
+                graph_iri = self.env.createNamedNode(graph_name)
             for triple in triples:
                 self.make_quad(
                     (
-- 
2.43.0


From 2f91927b986953451ab76741fb709a9da8b72540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 28/35] fix: decode RDF and XML SPARQL results from bytes

---
 src/pymantic/sparql.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 848625c..59c87d3 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -1,7 +1,7 @@
 """Provide an interface to SPARQL query endpoints."""
 
 import datetime
-from io import StringIO
+from io import BytesIO, StringIO
 import json
 import logging
 from lxml import objectify
@@ -145,7 +145,9 @@ class _Select(_SelectOrUpdate):
 
         if format:
             graph = rdflib.ConjunctiveGraph()
-            graph.parse(StringIO(response.content), self.query_url, format=format)
+            graph.parse(
+                BytesIO(response.content), self.server.query_url, format=format
+            )
             return graph
         elif response.headers["content-type"].startswith(
             "application/sparql-results+json"
@@ -154,7 +156,7 @@ class _Select(_SelectOrUpdate):
         elif response.headers["content-type"].startswith(
             "application/sparql-results+xml"
         ):
-            return objectify.parse(StringIO(response.content))
+            return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
                 "Got content of type: %s" % response.headers["content-type"]
-- 
2.43.0


From a4a4cf401eae13347ee091e2a0a8418f357d8f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 29/35] fix: graph store client works on Python 3

---
 src/pymantic/sparql.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 59c87d3..ee83f24 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -1,15 +1,14 @@
 """Provide an interface to SPARQL query endpoints."""
 
 import datetime
-from io import BytesIO, StringIO
+from io import BytesIO
 import json
 import logging
 from lxml import objectify
 import pytz
 import rdflib
 import requests
-import urllib
-from urllib.parse import urlparse
+from urllib.parse import quote_plus, urlencode, urljoin
 
 log = logging.getLogger(__name__)
 
@@ -240,15 +239,15 @@ class UpdateableGraphStore(SPARQLServer):
 
     def request_url(self, graph_uri):
         if self.param_style:
-            return self.dataset_url + "?" + urllib.urlencode({"graph": graph_uri})
+            return self.dataset_url + "?" + urlencode({"graph": graph_uri})
         else:
-            return urlparse.urljoin(self.dataset_url, urllib.quote_plus(graph_uri))
+            return urljoin(self.dataset_url, quote_plus(graph_uri))
 
     def get(self, graph_uri):
         response = self.s.get(
             self.request_url(graph_uri),
             headers={"Accept": ",".join(self.acceptable_graph_responses)},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code != 200:
             raise Exception(
@@ -257,18 +256,18 @@ class UpdateableGraphStore(SPARQLServer):
             )
         graph = rdflib.ConjunctiveGraph()
         if response.headers["content-type"].startswith("text/plain"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="nt")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="nt")
         elif response.headers["content-type"].startswith("application/rdf+xml"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="xml")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="xml")
         elif response.headers["content-type"].startswith("text/turtle"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="turtle")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
         elif response.headers["content-type"].startswith("text/rdf+n3"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="n3")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
         return graph
 
     def delete(self, graph_uri):
         response = self.s.delete(
-            self.request_url(graph_uri), **self.server.request_kwargs
+            self.request_url(graph_uri), **self.requests_kwargs
         )
         if response.status_code not in (200, 202):
             raise Exception(
@@ -282,7 +281,7 @@ class UpdateableGraphStore(SPARQLServer):
             self.request_url(graph_uri),
             data=graph_triples,
             headers={"content-type": "text/plain"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
@@ -297,7 +296,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.request_url(graph_uri),
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code not in (200, 201, 204):
                 raise Exception(
@@ -309,7 +308,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.dataset_url,
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code != 201:
                 raise Exception(
@@ -328,7 +327,7 @@ class PatchableGraphStore(UpdateableGraphStore):
             self.request_url(graph_uri),
             data=graph_xml,
             headers={"content-type": "application/vnd.talis.changeset+xml"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
-- 
2.43.0


From 4ac07f047ce21a25babe5ab10b8b6ad5d54a9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:17 +0000
Subject: [PATCH 30/35] fix: escape strings for Turtle without corrupting them

---
 src/pymantic/serializers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index c104bc8..49f87c1 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -61,9 +61,7 @@ def turtle_string_escape(string):
     """Escape a string appropriately for output in turtle form."""
     from pymantic.util import ECHAR_MAP
 
-    for escaped, value in ECHAR_MAP.items():
-        string = string.replace(value, "\\" + escaped)
-    return '"' + string + '"'
+    return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
-- 
2.43.0


From 88666bf140ce3803ed606b1d922f5708e60c3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:17 +0000
Subject: [PATCH 31/35] fix: Turtle serializer writes legal blank node labels
 on Python 3

---
 src/pymantic/serializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 49f87c1..69ef192 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -46,7 +46,7 @@ def serialize_nquads(dataset, f):
 def default_bnode_name_generator():
     i = 0
     while True:
-        yield "_b" + str(i)
+        yield "_:b" + str(i)
         i += 1
 
 
@@ -81,7 +81,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         if node in name_map:
             name = name_map[node]
         else:
-            name = bnode_name_maker.next()
+            name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
         if node.datatype == profile.resolve("xsd:string"):
-- 
2.43.0


From 1a5a5ec64a3c7e5fc6846166bff6ea2c63349ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:48 +0000
Subject: [PATCH 32/35] fix: abbreviate IRIs in Turtle only as names that
 denote them

---
 src/pymantic/serializers.py | 47 +++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 69ef192..ef49153 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,7 @@
 from collections import OrderedDict
+import re
+
+from pymantic.util import smart_urljoin
 
 
 def nt_escape(node_string):
@@ -52,11 +55,40 @@ def default_bnode_name_generator():
 
 def escape_prefix_local(prefix):
     prefix, colon, local = prefix.partition(":")
-    for esc_char in "~.-!$&'()*+,;=:/?#@%_":
+    for esc_char in "~.-!$&'()*+,;=/?#@%":
         local = local.replace(esc_char, "\\" + esc_char)
     return "".join((prefix, colon, local))
 
 
+# Names of prefix declarations, and local names once escaped, that are legal in
+# Turtle. Other names are not abbreviated.
+PREFIX_NAME = re.compile(r"([A-Za-z]([A-Za-z0-9_.-]*[A-Za-z0-9_-])?)?")
+ESCAPED_LOCAL_NAME = re.compile(r"([A-Za-z0-9_:]|\\.)*")
+
+
+def turtle_iri(iri, profile, base=None):
+    """Turn an IRI into a prefixed name or an IRI reference that denotes it."""
+    name = profile.prefixes.shrink(iri)
+    if name != iri:
+        prefix, _, local = name.partition(":")
+        name = escape_prefix_local(name)
+        # The rdf prefix is not declared.
+        if (
+            prefix != "rdf"
+            and PREFIX_NAME.fullmatch(prefix)
+            and profile.prefixes.get(prefix, "") + local == iri
+            and ESCAPED_LOCAL_NAME.fullmatch(name.partition(":")[2])
+        ):
+            return name
+    if base and iri.startswith(base):
+        relative = iri[len(base) :]
+        if base.endswith("#"):
+            relative = "#" + relative
+        if smart_urljoin(base, relative) == iri:
+            return f"<{relative}>"
+    return f"<{iri}>"
+
+
 def turtle_string_escape(string):
     """Escape a string appropriately for output in turtle form."""
     from pymantic.util import ECHAR_MAP
@@ -67,16 +99,7 @@ def turtle_string_escape(string):
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
     """Turn a node in an RDF graph into its turtle representation."""
     if node.interfaceName == "NamedNode":
-        name = profile.prefixes.shrink(node)
-        if base and name.startswith(base):
-            if base.endswith("#"):
-                name = f"<{str(name.replace(base, '#'))}>"
-            else:
-                name = f"<{str(name.replace(base, ''))}>"
-        if name == node:
-            name = f"<{str(name)}>"
-        else:
-            escape_prefix_local(name)
+        name = turtle_iri(node.value, profile, base)
     elif node.interfaceName == "BlankNode":
         if node in name_map:
             name = name_map[node]
@@ -126,7 +149,7 @@ def serialize_turtle(
 
         profile = Profile()
     for prefix, iri in profile.prefixes.items():
-        if prefix != "rdf":
+        if prefix != "rdf" and PREFIX_NAME.fullmatch(prefix):
             f.write("@prefix " + prefix + ": <" + iri + "> .\n")
 
     name_map = OrderedDict()
-- 
2.43.0


From 7131867d550f70424fee5dc28547ff5587766f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:12 +0000
Subject: [PATCH 33/35] fix: write Turtle literals by their datatype, not by
 the profile's xsd prefix

---
 src/pymantic/serializers.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index ef49153..96456cc 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -96,6 +96,19 @@ def turtle_string_escape(string):
     return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
+XSD = "http://www.w3.org/2001/XMLSchema#"
+
+# Lexical forms that Turtle reads as literals of the datatype without quotes.
+TURTLE_LITERALS = {
+    XSD + "integer": re.compile("[+-]?[0-9]+"),
+    XSD + "decimal": re.compile("[+-]?[0-9]*[.][0-9]+"),
+    XSD + "double": re.compile(
+        "[+-]?([0-9]+[.][0-9]*|[.]?[0-9]+)[eE][+-]?[0-9]+"
+    ),
+    XSD + "boolean": re.compile("true|false"),
+}
+
+
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
     """Turn a node in an RDF graph into its turtle representation."""
     if node.interfaceName == "NamedNode":
@@ -107,21 +120,14 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
             name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
-        if node.datatype == profile.resolve("xsd:string"):
+        if node.language:
+            name = turtle_string_escape(node.value) + "@" + node.language
+        elif node.datatype is None or node.datatype == XSD + "string":
             # Simple string.
             name = turtle_string_escape(node.value)
-        elif node.datatype is None:
-            # String with language?
-            name = turtle_string_escape(node.value)
-            if node.language:
-                name += "@" + node.language
-        elif node.datatype == profile.resolve("xsd:integer"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:decimal"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:double"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:boolean"):
+        elif node.datatype in TURTLE_LITERALS and TURTLE_LITERALS[
+            node.datatype
+        ].fullmatch(node.value):
             name = node.value
         else:
             # Unrecognized data-type.
-- 
2.43.0


From 497d60bcbaeab426a536ef66fd198032b7673048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:29 +0000
Subject: [PATCH 34/35] fix: Turtle serializer keeps every triple of shared,
 nested and extended lists

---
 src/pymantic/serializers.py | 65 ++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 96456cc..fc97043 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -141,6 +141,52 @@ def turtle_sorted_names(nodes, name_maker):
     return sorted((name_maker(node), node) for node in nodes)
 
 
+RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
+
+
+def turtle_collections(graph):
+    """Find the lists of a graph that can be written as collections: those made
+    of otherwise unused blank nodes, each referred to once. Returns a dictionary
+    of the items of each, by head, and the set of nodes they are made of."""
+    referrers = {}
+    for triple in graph:
+        referrers.setdefault(triple.object, []).append(triple)
+
+    cells = {}
+    for node in referrers:
+        if node.interfaceName == "BlankNode" and len(referrers[node]) == 1:
+            triples = {t.predicate: t.object for t in graph.match(subject=node)}
+            if (
+                set(triples) == {RDF + "first", RDF + "rest"}
+                and len(list(graph.match(subject=node))) == 2
+            ):
+                cells[node] = triples[RDF + "first"], triples[RDF + "rest"]
+
+    collections = {}
+    members = set()
+    for head in cells:
+        (referrer,) = referrers[head]
+        if referrer.predicate == RDF + "rest" and referrer.subject in cells:
+            continue
+        items = []
+        nodes = set()
+        node = head
+        while node in cells:
+            nodes.add(node)
+            item, node = cells[node]
+            items.append(item)
+        # A list that is an item of itself, however deeply, is not a collection.
+        owner = referrer.subject
+        owners = set()
+        while owner in cells and owner not in owners:
+            owners.add(owner)
+            owner = referrers[owner][0].subject
+        if node == RDF + "nil" and owner not in owners:
+            collections[head] = items
+            members |= nodes
+    return collections, members
+
+
 def serialize_turtle(
     graph, f, base=None, profile=None, bnode_name_generator=default_bnode_name_generator
 ):
@@ -164,9 +210,14 @@ def serialize_turtle(
     def name_maker(n):
         return turtle_repr(n, profile, name_map, bnode_name_maker, base)
 
-    from pymantic.rdf import List
+    collections, members = turtle_collections(graph)
+
+    def object_repr(node):
+        if node in collections:
+            return "(" + " ".join(map(object_repr, collections[node])) + ")"
+        return name_maker(node)
 
-    subjects = [subj for subj in graph.subjects() if not List.is_list(subj, graph)]
+    subjects = [subj for subj in graph.subjects() if subj not in members]
 
     for subject_name, subject in turtle_sorted_names(subjects, name_maker):
         subj_indent_size = len(subject_name) + 1
@@ -183,14 +234,6 @@ def serialize_turtle(
             ):
                 if j != 0:
                     f.write(",\n" + " " * pred_indent_size)
-                if List.is_list(triple.object, graph):
-                    f.write("(")
-                    for k, o in enumerate(List(graph, triple.object)):
-                        if k != 0:
-                            f.write(" ")
-                        f.write(name_maker(o))
-                    f.write(")")
-                else:
-                    f.write(name_maker(triple.object))
+                f.write(object_repr(triple.object))
             f.write(" ;\n")
         f.write(" " * subj_indent_size + ".\n\n")
-- 
2.43.0


From bc95cb009060b4ad0fecdc146d4034714ce32702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:50 +0000
Subject: [PATCH 35/35] fix: Turtle comments end at a carriage return too

---
 src/pymantic/parsers/lark/turtle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 3772ce8..00808c8 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -91,7 +91,7 @@ HEX: /[0-9A-Fa-f]/
 PN_LOCAL_ESC: "\\" /[_~\.\-!$&'()*+,;=\/?#@%]/
 
 %ignore WS
-COMMENT: "#" /[^\n]/*
+COMMENT: "#" /[^\r\n]/*
 %ignore COMMENT
 """
 
-- 
2.43.0

