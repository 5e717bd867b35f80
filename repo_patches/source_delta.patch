From c02091236819f6a1d9470f7a72c71454c95ca290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 01/68] fix: drop the pending edits when a batch of overlapping
 edits is rejected

A batch with overlapping edits raised RuntimeError but left the edits
pending, so that every later edit of the document failed as well.
---
 parce/mutablestring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 7e15b6e..2e163fc 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -166,14 +166,16 @@ class AbstractMutableString:
     def _apply_changes(self):
         """(Internal.) Check, sort and apply the changes."""
         if self._changes:
-            changes = list(self._get_changes())
+            try:
+                changes = list(self._get_changes())
+            finally:
+                self._changes.clear()
             head = old = changes[0][0]
             added = 0
             for start, end, text in changes:
                 added += start - old + len(text)
                 old = end
             self._update_text(changes)
-            self._changes.clear()
             self.text_changed(head, end - head, added)
 
     def _get_changes(self):
-- 
2.43.0


From f84ddf5c736a23747c122f87a5eb80f8d654cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:24 +0000
Subject: [PATCH 02/68] fix: emit undo_available and redo_available when undo
 or redo empties a stack

---
 parce/document.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index cbd36b1..e496053 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -374,10 +374,11 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         if self._edit_context > 0:
             raise RuntimeError("can't undo or redo while in edit context")
         if stack:
-            changes, modified = stack.pop()
-            with switch, self:
-                for start, end, text in changes:
-                    self[start:end] = text
+            with self._check_undo_state():
+                changes, modified = stack.pop()
+                with switch, self:
+                    for start, end, text in changes:
+                        self[start:end] = text
             self.modified = modified
 
     @contextlib.contextmanager
@@ -387,6 +388,9 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         Emits "undo_available" and "redo_available" when they change.
 
         """
+        if self._in_undo or self._in_redo:
+            yield   # undo() or redo() itself performs the check
+            return
         can_undo = self.can_undo()
         can_redo = self.can_redo()
         try:
-- 
2.43.0


From 2082e9b96092fd853fe40918030bd3581eb2ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:45 +0000
Subject: [PATCH 03/68] fix: move cursors by the original positions when
 several changes are applied at once

---
 parce/document.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index e496053..3e63344 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -81,23 +81,22 @@ class AbstractDocument(mutablestring.AbstractMutableString):
 
     def _update_cursors(self, changes):
         """Update the positions of the cursors."""
-        i = 0
-        cursors = sorted(self._cursors, key = lambda c: c.pos)
+        cursors = [(c, c.pos, c.end) for c in self._cursors]
+        offset = 0  # how far the earlier changes shift the text
         for start, end, text in changes:
-            for c in cursors[i:]:
-                ahead = c.pos > start
-                if ahead:
-                    if end >= c.pos:
-                        c.pos = start
+            diff = start + len(text) - end
+            for c, c_pos, c_end in cursors:
+                if c_pos > start:
+                    if end >= c_pos:
+                        c.pos = start + offset
                     else:
-                        c.pos += start + len(text) - end
-                if c.end is not None and c.end >= start:
-                    if end >= c.end:
-                        c.end = start + len(text)
+                        c.pos = c_pos + offset + diff
+                if c_end is not None and c_end >= start:
+                    if end >= c_end:
+                        c.end = start + offset + len(text)
                     else:
-                        c.end += start + len(text) - end
-                elif not ahead:
-                    i += 1  # don't consider this cursor any more
+                        c.end = c_end + offset + diff
+            offset += diff
 
     def _update_text(self, changes):
         """Apply the changes to the text, reimplemented here to also update the Cursor positions."""
-- 
2.43.0


From c326875f5f67515d7b73d0476db4ae62f4d95ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:21 +0000
Subject: [PATCH 04/68] fix: let replace() handle an empty search text and text
 operations a negative start

---
 parce/document.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/document.py b/parce/document.py
index 3e63344..cb0bb72 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -215,13 +215,14 @@ class AbstractDocument(mutablestring.AbstractMutableString):
         """
         if old == new:
             return
+        start, end = self._parse_key(slice(start, end))
         text = self[start:end]
         length = len(old)
         with self:
             pos = text.find(old)
             while pos >= 0:
                 self[start+pos:start+pos+length] = new
-                pos = text.find(old, pos + length)
+                pos = text.find(old, pos + max(length, 1))
                 count -= 1
                 if count == 0:
                     break
@@ -246,6 +247,7 @@ class AbstractDocument(mutablestring.AbstractMutableString):
             pattern = re.compile(pattern, re_flags)
         if not callable(replacement):
             replacement = (lambda repl: lambda m: m.expand(repl))(replacement)
+        start, end = self._parse_key(slice(start, end))
         text = self[start:end]
         with self:
             for i, m in enumerate(pattern.finditer(text), 1):
-- 
2.43.0


From 79dcbaa50822058bb9b0cc4e4698e64c041a2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 05/68] fix: keep the lowest start position when merging
 changes

---
 parce/treebuilderutil.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parce/treebuilderutil.py b/parce/treebuilderutil.py
index f688bfc..c42b42f 100644
--- a/parce/treebuilderutil.py
+++ b/parce/treebuilderutil.py
@@ -95,9 +95,8 @@ class Changes:
         else:
             offset = 0
         # determine which part of removed falls inside existing changes
-        start = max(start, self.start)
         end = min(start + removed, self.start + self.added)
-        offset -= max(0, end - start)
+        offset -= max(0, end - max(start, self.start))
         # set the new values
         self.start = min(self.start, start)
         self.removed += removed + offset
-- 
2.43.0


From d789548cb5a3e9ffa37908bf912387465201bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:07 +0000
Subject: [PATCH 06/68] fix: determine the indices before deleting a node and
 its emptied ancestors

---
 parce/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/tree.py b/parce/tree.py
index 528e344..feeb0f7 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -312,7 +312,8 @@ class Node:
         Returns the first non-empty ancestor.
 
         """
-        for parent, index in self.ancestors_with_index():
+        # get the indices now; an empty context can't be found by its position
+        for parent, index in tuple(self.ancestors_with_index()):
             del parent[index]
             if len(parent):
                 return parent
-- 
2.43.0


From 26a35d4fbcb923d0090818aafd4c6118e64d9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:35 +0000
Subject: [PATCH 07/68] fix: return no range when there are no tokens between
 start and end

---
 parce/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/tree.py b/parce/tree.py
index feeb0f7..1ee2b34 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -986,7 +986,8 @@ class Range:
         tree). If start is 0 and end is None, the range encompasses the full
         tree.
 
-        Returns None if the tree is empty.
+        Returns None if the tree is empty or there are no tokens between start
+        and end.
 
         """
         if not tree:
@@ -1005,6 +1006,8 @@ class Range:
             if not start_trail:
                 return
             if end_trail:
+                if start_trail > end_trail:
+                    return # there are no tokens between start and end
                 # find the youngest common ancestor
                 for n, (i, j) in enumerate(zip(start_trail, end_trail)):
                     if i != j or context[i].is_token:
-- 
2.43.0


From 3de82fdc97daf05d0128ea9c90b47e0e3ef8e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:51 +0000
Subject: [PATCH 08/68] fix: let the lexer end when root's target can't be
 followed or is circular at the end of the text

---
 parce/lexer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index 162eb6a..d5a5698 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -158,7 +158,10 @@ class Lexer:
                             del lexicons[target.pop:]
                         state = (pos, len(lexicons), len(target.push))
                         if state in circular:
-                            if target.push and pos < len(text):
+                            # advance, also when root can't be popped off
+                            if target.push or not target.pop:
+                                if pos >= len(text):
+                                    return  # circular at the end of the text
                                 pos += 1
                             circular.clear()
                         else:
-- 
2.43.0


From 62f20cfaeda2ad353ea9447b356fbcf853462ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:40 +0000
Subject: [PATCH 09/68] fix: keep the last unchanged tokens when a tree build
 is restarted

---
 parce/treebuilder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index e7a8c05..138aa67 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -278,11 +278,10 @@ class TreeBuilder(util.Observable):
                 result = get_prepared_lexer(tree, text, start, True)
                 if result:
                     lexer, events, tokens = result
-                    t = tokens[0]
+                    t = tokens[-1]
                     context = t.parent
                     for p, i in ancestors_with_index(t):
                         del p[i+1:]
-                    del context[-1]
                 else:
                     tree = None
             # find insertion spot in old tree
-- 
2.43.0


From 45616117509a07e83a263cb43647de9966a719ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:17 +0000
Subject: [PATCH 10/68] fix: let merge_adjacent() create plain tuples by
 default

---
 parce/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/util.py b/parce/util.py
index 3c26eca..5eae253 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -682,6 +682,8 @@ def merge_adjacent(stream, factory=tuple):
     or any other type to wrap the streams items in.
 
     """
+    if factory is tuple:
+        factory = lambda *items: items
     stream = iter(stream)
     for pos, end, *rest in stream:
         for npos, nend, *nrest in stream:
-- 
2.43.0


From 58ce78b7d58536897a636d8c9c0b18f66d4d98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:45 +0000
Subject: [PATCH 11/68] fix: format the right tokens of a partly selected
 context when themes are mixed

---
 parce/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/formatter.py b/parce/formatter.py
index ddbb4a4..1beca15 100644
--- a/parce/formatter.py
+++ b/parce/formatter.py
@@ -202,7 +202,7 @@ class AbstractFormatter:
 
                 for context, slice_ in r.slices():
                     check_lang(context.lexicon.language)
-                    n = context[slice_]
+                    nodes = n = context[slice_]
                     stack = []
                     i = 0
                     while True:
@@ -217,9 +217,9 @@ class AbstractFormatter:
                             yield m
                         else:
                             if stack:
-                                n = n.parent
-                                check_lang(n.lexicon.language)
+                                check_lang(n.parent.lexicon.language)
                                 i = stack.pop() + 1
+                                n = n.parent if stack else nodes    # slice we started with
                             else:
                                 break
 
-- 
2.43.0


From 434f2e6d5b3b3641d5dcb58ee317adbbd63f4fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:46 +0000
Subject: [PATCH 12/68] fix: escape the base format in the style attribute of
 the HTML document

---
 parce/out/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/out/html.py b/parce/out/html.py
index 8cf5993..ae183e1 100644
--- a/parce/out/html.py
+++ b/parce/out/html.py
@@ -82,7 +82,7 @@ class HtmlMixin:
         """
         return FULL_HTML_TEMPLATE.format(
             charset = charset,
-            baseformat = self.baseformat() or "",
+            baseformat = attrescape(self.baseformat() or ""),
             html = self.html(cursor))
 
 
-- 
2.43.0


From 5e0d470eaf0f54c0b633269cc3c127fb17369086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:39 +0000
Subject: [PATCH 13/68] fix: let transform_text() handle text that ends in a
 context without transform method

---
 parce/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 1f4ba34..9033fc3 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -288,7 +288,8 @@ class Transformer(util.Observable):
                             break
                     else:
                         break
-                items.extend(make_tokens(lexemes))
+                if lexemes:
+                    items.extend(make_tokens(lexemes))
 
             # unwind
             while stack:
-- 
2.43.0


From 4e897e00c359c66e241921ec52a89622d1764f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:14 +0000
Subject: [PATCH 14/68] fix: let transform_text() give untransformed contexts
 all their tokens and return to the right context

---
 parce/transform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index 9033fc3..98a73b0 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -214,10 +214,10 @@ class Transformer(util.Observable):
             if pop or push:
                 return Target(pop, push)
 
-        def build_tree(lexicons, events):
+        def build_tree(lexicons, lexemes, events):
             """Build a tree in case missing lexicons need to be handled.
 
-            Returns the tree and the next event (if any), with adapted pop
+            The lexemes are the first contents of the last lexicon. Returns the tree and the next event (if any), with adapted pop
             value.
 
             """
@@ -225,11 +225,13 @@ class Transformer(util.Observable):
             for lexicon in lexicons[1:]:
                 context = Context(lexicon, context)
                 context.parent.append(context)
+            context.extend(make_tokens(lexemes, context))
             for target, lexemes in events:
                 if target:
                     for pop in range(target.pop, 0):
                         if context is tree:
-                            return tree, Event(make_target(pop, target.push), lexemes)
+                            # the tree itself also ends here
+                            return tree, Event(make_target(pop + 1, target.push), lexemes)
                         context = context.parent
                     for lexicon in target.push:
                         context = Context(lexicon, context)
@@ -280,7 +282,7 @@ class Transformer(util.Observable):
                             lexicon = l
                         else:
                             if add_untransformed:
-                                context, event = build_tree(target.push[i:], events)
+                                context, event = build_tree(target.push[i:], lexemes, events)
                                 items.append(Item("<untransformed>", context))
                             else:
                                 event = consume_events(target.push[i:], events)
-- 
2.43.0


From c28120f0ff424ed0a9bac9ad1ca803a5d1925cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:14 +0000
Subject: [PATCH 15/68] fix: let invalidate_node() handle contexts that have no
 transform result

---
 parce/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 98a73b0..d41e1c5 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -400,7 +400,7 @@ class Transformer(util.Observable):
 
         """
         while node.parent:
-            del self._cache[node]
+            self._cache.pop(node, None)
             node = node.parent
 
     def connect_treebuilder(self, builder):
-- 
2.43.0


From 551a5a8c0d75a6d2fa0df9813aa9b3b2b179ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 16/68] fix: let bygroup() skip dynamic actions of groups that
 did not contribute to the match

Using using(lexicon) for an optional group raised a TypeError.
---
 parce/ruleitem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index c295554..b3f4036 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -380,7 +380,9 @@ class SubgroupAction(ActionItem):
 
     def replace(self, lexer, pos, text, match):
         for i, action in enumerate(self._actions, match.lastindex + 1):
-            yield from lexer.filter_actions(action, match.start(i), match.group(i), match)
+            text = match.group(i)
+            if text:    # None if the group did not contribute to the match
+                yield from lexer.filter_actions(action, match.start(i), text, match)
 
     def variations(self):
         """Yield the possible actions."""
-- 
2.43.0


From 2d7e34ef585f8642aa380435ffcdde960bd2b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 17/68] fix: let target.variations() handle an index that is
 not yet evaluated

---
 parce/ruleitem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index b3f4036..3644287 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -268,7 +268,10 @@ class target(RuleItem):
             yield value
         else:
             index, arg = value
-            yield self._lexicons[index]
+            if isinstance(index, Item):
+                yield from self._lexicons
+            else:
+                yield self._lexicons[index]
 
     def _repr_args(self):
         return (self._value, *self._lexicons)
-- 
2.43.0


From 504ae73fff04d8e3ac42c19329ccee462ee5e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 18/68] fix: let variations() also yield rules with the skip
 action

Those rules had no variations at all, so their targets were not validated.
---
 parce/ruleitem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index 3644287..282484a 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -575,12 +575,14 @@ def variations(rule):
     items = tuple(rule)
     for i, item in enumerate(items):
         if isinstance(item, Item):
-            prefix = items[:i]
-            for suffix in variations(items[i+1:]):
-                for v in item.variations():
-                    for l in variations(util.unroll(v)):
-                        yield prefix + l + suffix
-            break
+            branch = tuple(item.variations())
+            if branch:
+                prefix = items[:i]
+                for suffix in variations(items[i+1:]):
+                    for v in branch:
+                        for l in variations(util.unroll(v)):
+                            yield prefix + l + suffix
+                break
     else:
         yield items
 
-- 
2.43.0


From 21765270a3862e920186f264b10b747340ee30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 19/68] fix: let lexicons use the re.VERBOSE flag

A single pattern was used as a plain string, with its whitespace and comments,
and a comment at the end of a pattern broke the combined expression.
---
 parce/lexicon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index 3ea5dac..5ea90b1 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -312,7 +312,7 @@ class Lexicon:
 
         # if there is only one pattern, and no dynamic action or target,
         # see if the pattern is simple enough to just use str.find
-        if len(patterns) == 1 and not self.re_flags & re.IGNORECASE and \
+        if len(patterns) == 1 and not self.re_flags & (re.IGNORECASE | re.VERBOSE) and \
                 not needs_evaluation(rules[0]):
             needle = parce.regex.to_string(patterns[0])
             if needle:
@@ -366,8 +366,10 @@ class Lexicon:
                             pos = i + l
                 return parse
 
-        # compile the regexp for all patterns
-        rx = re.compile("|".join("(?P<g_{0}>{1})".format(i, pattern)
+        # compile the regexp for all patterns (in verbose mode a pattern could
+        # end with a comment)
+        group = "(?P<g_{0}>{1}\n)" if self.re_flags & re.VERBOSE else "(?P<g_{0}>{1})"
+        rx = re.compile("|".join(group.format(i, pattern)
             for i, pattern in enumerate(patterns)), self.re_flags)
         # make a fast mapping list from matchObj.lastindex to the rules.
         # rules that contain Item instances are put in the dynamic index
-- 
2.43.0


From f02851836af01bcc88d2ca46de396e5c5c0f091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 20/68] fix: let CssTransform read quoted strings

Any quoted string raised an AttributeError or NameError.
---
 parce/css.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3d1a061..faa606e 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1198,11 +1198,12 @@ class CssTransform(Transform):
         Called by :meth:`sqstring` and :meth:`dqstring`.
 
         """
-        for i in items.tokens():
-            if i.action is String:
-                yield i.text
-            elif i.action is a.String.Escape:
-                yield self.get_escape(i.text)
+        for i in items:
+            if i.is_token:
+                if i.action is a.String:
+                    yield i.text
+                elif i.action is a.String.Escape:
+                    yield self.get_escape(i.text)
 
     def get_ident_token(self, items):
         """Return a two-tuple(name, action).
-- 
2.43.0


From dd847550e78cc1fc2f1285fcd11fcab3d5f14910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 21/68] fix: let CssTransform read escapes of invalid code
 points

An escape beyond the last code point raised a ValueError. CSS prescribes the
replacement character for those, and for zero and surrogates.
---
 parce/css.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/css.py b/parce/css.py
index faa606e..061230d 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1190,6 +1190,8 @@ class CssTransform(Transform):
             codepoint = int(value, 16)
         except ValueError:
             return value
+        if codepoint == 0 or 0xD800 <= codepoint <= 0xDFFF or codepoint > 0x10FFFF:
+            return '\uFFFD'    # not a valid character
         return chr(codepoint)
 
     def get_string(self, items):
-- 
2.43.0


From b29979d1e4282a831694cdfc21a9e68a14413138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 22/68] fix: keep components that are zero in rgb() and rgba()
 colors

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 061230d..d0a37bf 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1281,7 +1281,7 @@ class CssTransform(Transform):
 
     def get_rgba_color(self, func_args):
         """Convert the arguments to a rgba(1 2 3 4) call to a Color."""
-        values = (v for v in func_args if isinstance(v, Value) and v.number)
+        values = (v for v in func_args if isinstance(v, Value) and v.number is not None)
         r = next(values, -1)
         if r != -1: r = self.get_number_value(r, 255)
         g = next(values, -1)
-- 
2.43.0


From 35c222f40dfb1a15f5c2458e61289747f60f75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 23/68] fix: let percentages and fractions in rgb() and rgba()
 colors keep their value

An opacity below 100% became 0, and a fractional component did not become an
integer, making color2hex() fail.
---
 parce/css.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index d0a37bf..4989f71 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1283,11 +1283,11 @@ class CssTransform(Transform):
         """Convert the arguments to a rgba(1 2 3 4) call to a Color."""
         values = (v for v in func_args if isinstance(v, Value) and v.number is not None)
         r = next(values, -1)
-        if r != -1: r = self.get_number_value(r, 255)
+        if r != -1: r = round(self.get_number_value(r, 255))
         g = next(values, -1)
-        if g != -1: g = self.get_number_value(g, 255)
+        if g != -1: g = round(self.get_number_value(g, 255))
         b = next(values, -1)
-        if b != -1: b = self.get_number_value(b, 255)
+        if b != -1: b = round(self.get_number_value(b, 255))
         a = next(values, 1.0)
         if a != 1.0: a = self.get_number_value(a, 1.0)
         return Color(r, g, b, a)
@@ -1302,7 +1302,7 @@ class CssTransform(Transform):
         """
         n = value.number
         if value.unit == "%":
-            n = n * maximum // 100
+            n = n * maximum / 100
         if n < 0: n = 0
         if n > maximum: n = maximum
         return n
-- 
2.43.0


From 6bc7c9702c67d5e955d2fca114882bb926461150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 24/68] fix: round the opacity in color2hex()

Some opacities of hexadecimal colors were written one lower than they were read.
---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 4989f71..ea9ba38 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1391,7 +1391,7 @@ def color2hex(color):
     r, g, b, a = color
     x = "#{:06x}".format(r*65536 + g*256 + b)
     if a < 1:
-        x += format(int(a * 255), '02x')
+        x += format(round(a * 255), '02x')
     return x
 
 
-- 
2.43.0


From cb10427de4ddf077fea0d646e91e76d0d91da012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 25/68] fix: let quote_if_needed() quote numbers and escape
 newlines

---
 parce/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index ea9ba38..bf8cca4 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1397,8 +1397,8 @@ def color2hex(color):
 
 def quote_if_needed(s):
     """Double-quote the string for CSS if it is not a valid ident-token."""
-    if not re.fullmatch(r'[\w-]+', s):
-        s = re.sub(r'[\\"]', lambda m: escape(m.group()), s)
+    if not re.fullmatch(r'(?!-?\d)[\w-]+', s):
+        s = re.sub(r'[\\"\n]', lambda m: escape(m.group()), s)
         return '"' + s + '"'
     return s
 
-- 
2.43.0


From 0e74f718221879fc3c7c5f35dbae37d8578f02bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 26/68] fix: let the most specific of several important
 properties win

Also do not fail on a property without value.
---
 parce/css.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index bf8cca4..8d3409f 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -400,14 +400,13 @@ class Style:
         for rule in self.rules:
             for key, value in rule.properties.items():
                 important = False
-                if value[-1] == '!important':
+                if value and value[-1] == '!important':
                     value = value[:-1]
                     important = True
-                if key not in result:
+                if key not in result or (important and key not in important_properties):
                     result[key] = value
-                elif important and key not in important_properties:
-                    result[key] = value
-                    important_properties.add(key)
+                    if important:
+                        important_properties.add(key)
         return result
 
 
-- 
2.43.0


From fe484ef255de15792ea8d69d1ab1e90fcafc475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 27/68] fix: let an important declaration win from a later
 normal one in the same rule

And ignore declarations without a value.
---
 parce/css.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 8d3409f..155a59a 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -933,7 +933,10 @@ class CssTransform(Transform):
         for name, obj in items.items():
             if obj and name == "declaration":
                 prop, values = obj
-                d[prop] = values
+                # a normal declaration doesn't override an important one, and
+                # one without value is invalid
+                if values and ('!important' in values or '!important' not in d.get(prop, ())):
+                    d[prop] = values
         return d
 
     def declaration(self, items):
-- 
2.43.0


From 19f9350131a5c95d4c05c3045f63d3bb0ced732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 28/68] fix: match all ancestors and siblings with the
 remaining selectors

Only the nearest ancestor or sibling that matched a selector was looked at, so
a selector did not match if only a further one complied with the selectors
before it. And the universal selector did not match at the end of a selector,
while selectors before it were ignored.
---
 parce/css.py | 65 +++++++++++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 39 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 155a59a..7411ff9 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -68,6 +68,7 @@ Example::
 
 import collections
 import functools
+import itertools
 import os
 import re
 import reprlib
@@ -513,6 +514,13 @@ class AbstractElement:
         if d:
             return d.get("id")
 
+    def ancestors(self):
+        """Yield our ancestors, starting with the parent."""
+        parent = self.get_parent()
+        while parent is not None:
+            yield parent
+            parent = parent.get_parent()
+
     def next_sibling(self):
         """Return the next sibling."""
         for e in self.next_siblings():
@@ -561,46 +569,25 @@ class AbstractElement:
 
     def match_selectors(self, selectors):
         """Match with a list of selectors with operators in between."""
-        selectors = iter(reversed(selectors))
-        sel = next(selectors, None)
-        if not sel or not self.match_selector(sel):
+        if not selectors or not self.match_selector(selectors[-1]):
             return False
-        element = self
-        operator = next(selectors, None)
-        sel = next(selectors, None)
-        while operator and sel:
-            if operator == ">":
-                # parent should match
-                element = element.get_parent()
-                if element is None or not element.match_selector(sel):
-                    return False
-            elif operator == " ":
-                # an ancestor should match
-                element = element.get_parent()
-                while element is not None:
-                    if element.match_selector(sel):
-                        break
-                    element = element.get_parent()
-                else:
-                    return False
-            elif operator == "+":
-                # immediate sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                    return False
-                else:
-                    return False
-            else: # operator == "~":
-                # a sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                else:
-                    return False
-            operator = next(selectors, None)
-            sel = next(selectors, None)
-        return True
+        if len(selectors) < 3:
+            return True
+        operator = selectors[-2]
+        if operator == ">":
+            # parent should match
+            parent = self.get_parent()
+            elements = () if parent is None else (parent,)
+        elif operator == " ":
+            # an ancestor should match
+            elements = self.ancestors()
+        elif operator == "+":
+            # immediate sibling should match
+            elements = itertools.islice(self.previous_siblings(), 1)
+        else: # operator == "~":
+            # a sibling should match
+            elements = self.previous_siblings()
+        return any(e.match_selectors(selectors[:-2]) for e in elements)
 
     def match_selector(self, selector):
         """Match with a single CSS selector dictionary.
-- 
2.43.0


From 249f49adc4b34d2abf693f95c109a36c6c24f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 29/68] fix: do not ignore empty strings in attribute selectors

---
 parce/css.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 7411ff9..7a740b5 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -612,7 +612,7 @@ class AbstractElement:
                 value = attributes[attrname]
             except KeyError:
                 return False
-            if operator and text:
+            if operator and text is not None:
                 if flag in ('i', 'I'):
                     text = text.lower()
                     value = value.lower()
@@ -626,13 +626,13 @@ class AbstractElement:
                     if text != value and not value.startswith(text + "-"):
                         return False
                 elif operator == "^=":
-                    if not value.startswith(text):
+                    if not text or not value.startswith(text):
                         return False
                 elif operator == "$=":
-                    if not value.endswith(text):
+                    if not text or not value.endswith(text):
                         return False
                 elif operator == "*=":
-                    if text not in value:
+                    if not text or text not in value:
                         return False
 
         # pseudo_class?
@@ -982,7 +982,7 @@ class CssTransform(Transform):
             elif i.name == 'attribute':
                 attr = i.obj
             elif i.name == 'ident_token':
-                if val:
+                if val is not None:
                     flag = i.obj
                 else:
                     val = i.obj
-- 
2.43.0


From 365150c81260dcfaf56eafe1b68cab7f60333881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 30/68] fix: let every selector list of a rule have its own
 specificity

The highest specificity was used for all of them. Also do not fail on rules
that have no selector.
---
 parce/css.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 7a740b5..5489a39 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -339,7 +339,9 @@ class StyleSheet:
                 if isinstance(r, Condition):
                     yield from get_rules(r.style.rules)
                 elif isinstance(r, Rule):
-                    yield r
+                    # every selector list has its own specificity
+                    for selectors in r.prelude or ():
+                        yield Rule([selectors], r.properties)
         rules = sorted(get_rules(self.rules),
             key=lambda rule: calculate_specificity(rule.prelude))
         rules.reverse()
-- 
2.43.0


From 08ff360354ac36280da0502a2360365a8a8c805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 31/68] fix: let StyleSheet handle @import

An @import rule raised a NameError, or an AttributeError when a delimiter came
first; a circular @import with a media query never ended, and the filenames in
an imported file were not relative to that file.
---
 parce/css.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 5489a39..4ab6a8b 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -225,7 +225,7 @@ class StyleSheet:
         """
         filenames = {filename}
 
-        def get_import_rules(values):
+        def get_import_rules(values, filename, imported):
             """Yield rules from an @import at-rule.
 
             If the @import rule has a media query after the filename/url,
@@ -233,9 +233,9 @@ class StyleSheet:
 
             """
             for n, v in enumerate(values):
-                if isinstance(v, Value) and v.text or v.url:
+                if isinstance(v, Value) and (v.text or v.url):
                     fname = v.text or v.url
-                    fname = os.path.join(os.path.dirname(filename), fname)
+                    fname = os.path.normpath(os.path.join(os.path.dirname(filename), fname))
                     # avoid circular @import references
                     if fname not in filenames:
                         filenames.add(fname)
@@ -243,14 +243,13 @@ class StyleSheet:
                         values = values[n+1:]
                         if values:
                             # there is probably a media query after the filename
-                            s = cls.from_css(icss, fname, path, allow_import)
-                            yield Condition("import", values, s)
+                            yield Condition("import", values, get_sheet(icss, fname))
                         else:
-                            self._imported_filenames.append(fname)
-                            yield from get_rules(icss)
+                            imported.append(fname)
+                            yield from get_rules(icss, fname, imported)
                     return
 
-        def get_rules(css):
+        def get_rules(css, filename, imported):
             """Get all CSS rules from the CSS structure, either as Rule or
             as Condition.
 
@@ -265,7 +264,7 @@ class StyleSheet:
                     # @-rule
                     if rule.keyword == "import":
                         if allow_import:
-                            rules.extend(get_import_rules(rule.contents))
+                            rules.extend(get_import_rules(rule.contents, filename, imported))
                         continue
                     elif isinstance(rule.block, list):
                         # nested @-rule
@@ -273,7 +272,14 @@ class StyleSheet:
                 rules.append(rule)
             return rules
 
-        return cls(get_rules(css), filename)
+        def get_sheet(css, filename):
+            """Return the StyleSheet for the CSS structure."""
+            imported = []
+            sheet = cls(get_rules(css, filename, imported), filename)
+            sheet._imported_filenames = imported
+            return sheet
+
+        return get_sheet(css, filename)
 
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
-- 
2.43.0


From a0cc6dbcc73ef6024de582d59dc24f3a1e9cc599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 32/68] fix: let Style.select_lxml_element() work

It raised a TypeError, and selectors with a combinator failed at the root element.
---
 parce/css.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 4ab6a8b..bce815f 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -392,7 +392,6 @@ class Style:
             if element.match(rule.prelude):
                 yield rule
 
-    @style_query
     def select_lxml_element(self, element):
         """Select the rules that match with lxml.etree.Element."""
         return self.select_element(LxmlElement(element))
@@ -740,7 +739,8 @@ class LxmlElement(AbstractElement):
 
     def get_parent(self):
         """Return the parent Element or None."""
-        return type(self)(self.e.getparent())
+        parent = self.e.getparent()
+        return None if parent is None else type(self)(parent)
 
     def get_attributes(self):
         """Return a dictionary of attributes, keys and values are str."""
-- 
2.43.0


From 306c1fa830a4eeb146a0fb8213da4250e9fe1667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 33/68] fix: let Css return to the toplevel after a nested
 at-rule

The rule after a @media, @document or @supports rule became part of it.
---
 parce/lang/css.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 66708ff..a3f7a33 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -211,6 +211,7 @@ class Css(Language):
     def atrule_nested(cls):
         """An atrule that has nested toplevel contents (@media, etc.)"""
         yield r"\{", Bracket, cls.atrule_nested_block
+        yield r";", Delimiter, -2   # also leave the atrule context
         yield from cls.atrule_common()
 
     @lexicon
@@ -228,7 +229,7 @@ class Css(Language):
     @lexicon
     def atrule_nested_block(cls):
         """A ``{`` ``}`` block from @media, @document or @supports."""
-        yield r"\}", Bracket, -2  # immediately leave the atrule_nested context
+        yield r"\}", Bracket, -3  # immediately leave the atrule_nested and atrule context
         yield from cls.toplevel()
 
     @classmethod
-- 
2.43.0


From aa1068b2b3b8bcffb7c9ac87e7924389e67a6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:00 +0000
Subject: [PATCH 34/68] fix: do not read an escaped non-ASCII digit in CSS as a
 hexadecimal code point

---
 parce/css.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index bce815f..393722a 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1183,10 +1183,9 @@ class CssTransform(Transform):
         value = text[1:]
         if value == '\n':
             return ''
-        try:
-            codepoint = int(value, 16)
-        except ValueError:
-            return value
+        if not re.fullmatch(r'[0-9a-fA-F]+ ?', value):
+            return value    # int() would also accept non-ASCII digits
+        codepoint = int(value, 16)
         if codepoint == 0 or 0xD800 <= codepoint <= 0xDFFF or codepoint > 0x10FFFF:
             return '\uFFFD'    # not a valid character
         return chr(codepoint)
-- 
2.43.0


From 5587fa317213ce793dde252132b3d7ad5f08b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:02 +0000
Subject: [PATCH 35/68] fix: recognize the indent of a blank line

---
 parce/indent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/indent.py b/parce/indent.py
index c10dbe5..2ffac37 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -302,7 +302,7 @@ class AbstractIndenter:
         if info.indent is None:
             if info.allow_indent:
                 text = block.text()
-                info.indent = text[:-len(text.lstrip())]
+                info.indent = text[:len(text)-len(text.lstrip())]
             else:
                 info.indent == ""
         return info
-- 
2.43.0


From 508dfb11289ccb4620f80e5ea8881230d6642e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:02 +0000
Subject: [PATCH 36/68] fix: let auto_indent() add up all levels opened in one
 line

---
 parce/indent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/indent.py b/parce/indent.py
index 2ffac37..3e985df 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -217,7 +217,8 @@ class AbstractIndenter:
                         if 0 <= depth < len(info.indents):
                             # we found the indent to use
                             index = len(info.indents) - depth - 1
-                            new_indent = info.indent + (info.indents[index] or self.indent_string)
+                            new_indent = info.indent + "".join(
+                                i or self.indent_string for i in info.indents[:index+1])
                             break
                         depth -= len(info.indents)
                         depth += info.dedents_end
-- 
2.43.0


From 54b6553822479e1c4a1fb58a095558485c0f7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:02 +0000
Subject: [PATCH 37/68] fix: let a blank line before the cursor not change the
 indent level

---
 parce/indent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/indent.py b/parce/indent.py
index 3e985df..b6ea338 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -179,7 +179,7 @@ class AbstractIndenter:
                     if block.pos < cursor.pos:
                         # we're outside the cursor's range
                         # obey the existing indent if not a special case
-                        if info.prefer_indent is None:
+                        if info.prefer_indent is None and not info.is_blank:
                             indents[-1] = info.indent
                     else:
                         # we're inside the cursor's range; may replace the indent
-- 
2.43.0


From 640ecf8c887467987dbe30fb0712e51040091cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:44 +0000
Subject: [PATCH 38/68] fix: consult the fallback of an empty Registry

---
 parce/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/registry.py b/parce/registry.py
index bfb7a75..1af689a 100644
--- a/parce/registry.py
+++ b/parce/registry.py
@@ -301,7 +301,7 @@ class Registry(dict):
             def lexicons(reg):
                 for qualname in reg.suggest(filename, mimetype, contents):
                     yield reg.lexicon(qualname)
-        while self:
+        while self is not None:
             for lexicon in lexicons(self):
                 return lexicon
             self = self.fallback
-- 
2.43.0


From 535a80dc8b85503b3f703a975f29c3def3200134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:23 +0000
Subject: [PATCH 39/68] fix: let callbacks connect, disconnect or emit during
 Observable.emit()

---
 parce/util.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 5eae253..0f4129d 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -321,11 +321,14 @@ class Observable:
 
     def disconnect(self, event, func):
         """Remove a previously registered callback function."""
+        self._remove(event, _Observer(func))
+
+    def _remove(self, event, observer):
+        """Remove the observer from the callbacks for the event."""
         try:
             slots = self._callbacks[event]
         except KeyError:
             return
-        observer = _Observer(func)
         try:
             slots.remove(observer)
         except ValueError:
@@ -374,24 +377,20 @@ class Observable:
 
         """
         s = contextlib.ExitStack()
-        try:
-            slots = self._callbacks[event]
-        except KeyError:
-            return s
-        disconnect = []
-        for i, observer in enumerate(slots):
+        # callbacks may connect or disconnect callbacks, or emit the event again
+        for observer in list(self._callbacks.get(event, ())):
+            if observer not in self._callbacks.get(event, ()):
+                continue
+            once = observer.once
+            if once:
+                self._remove(event, observer)
             result = observer.call(self, *args, **kwargs)
             try:
                 s.enter_context(result)
             except Exception:
                 pass
-            if observer.once:
-                disconnect.append(i)
-        if disconnect:
-            for i in reversed(disconnect):
-                del slots[i]
-            if not slots:
-                del self._callbacks[event]
+            if observer.once and not once:
+                self._remove(event, observer)   # its method does not exist anymore
         return s
 
 
-- 
2.43.0


From 50408ceba5b0b1169080c99dc1aed08ed6422d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:01 +0000
Subject: [PATCH 40/68] fix: recognize the UTF-32-LE byte order mark

---
 parce/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 0f4129d..4a62fb7 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -725,10 +725,10 @@ def get_bom_encoding(data):
     """
     for bom, encoding in (
         (codecs.BOM_UTF8, 'utf-8'),
+        (codecs.BOM_UTF32_LE, 'utf_32_le'),     # starts with BOM_UTF16_LE
+        (codecs.BOM_UTF32_BE, 'utf_32_be'),
         (codecs.BOM_UTF16_LE, 'utf_16_le'),
         (codecs.BOM_UTF16_BE, 'utf_16_be'),
-        (codecs.BOM_UTF32_LE, 'utf_32_le'),
-        (codecs.BOM_UTF32_BE, 'utf_32_be'),
             ):
         if data.startswith(bom):
             return encoding, data[len(bom):]
-- 
2.43.0


From 2c653922c8bc39ce84e03938bff7ea9dc7ccb437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:01 +0000
Subject: [PATCH 41/68] fix: find an encoding specified with "coding: xxxx"

---
 parce/docio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/docio.py b/parce/docio.py
index ef74c6e..f8ccb7d 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -199,7 +199,7 @@ class IO:
         (en)coding: xxxx variants. Returns None if no encoding is found.
 
         """
-        m = re.search(r'\b(?:en)coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
+        m = re.search(r'\b(?:en)?coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
         if m:
             return m.group(1)
 
-- 
2.43.0


From bf30b6abcb0c6f362118c8b530fca4be8d92fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:24 +0000
Subject: [PATCH 42/68] fix: look at ASCII characters only when searching an
 encoding in the text

---
 parce/docio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/docio.py b/parce/docio.py
index f8ccb7d..797c7ac 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -199,7 +199,7 @@ class IO:
         (en)coding: xxxx variants. Returns None if no encoding is found.
 
         """
-        m = re.search(r'\b(?:en)?coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
+        m = re.search(r'\b(?:en)?coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text, re.ASCII)
         if m:
             return m.group(1)
 
-- 
2.43.0


From 7702fa955c93a205936194588ddb71c0c376fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:24 +0000
Subject: [PATCH 43/68] fix: do not use an encoding that is not a text encoding

---
 parce/docio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index 797c7ac..5e08987 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -335,8 +335,8 @@ def _validate_encoding(encoding):
     """
     if encoding:
         try:
-            codecs.lookup(encoding)
+            "".encode(encoding)     # also fails if it is not a text encoding
             return encoding
-        except LookupError:
+        except (LookupError, UnicodeError):
             pass
 
-- 
2.43.0


From c5aa5e592f8900988c936bd3b1aa07523a920ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 44/68] fix: use the default encoding of a language when saving
 a text with an unknown encoding

---
 parce/docio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index 5e08987..af69d26 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -318,8 +318,8 @@ def encode_text(text, root_lexicon=None, encoding=None, newline=None):
     """
     if not encoding:
         h = IO.get(root_lexicon)
-        encoding = _validate_encoding(h.find_encoding(text[:TEMP_TEXT_MAXSIZE])
-                    or h.default_encoding()) or DEFAULT_ENCODING
+        encoding = _validate_encoding(h.find_encoding(text[:TEMP_TEXT_MAXSIZE])) \
+                    or _validate_encoding(h.default_encoding()) or DEFAULT_ENCODING
     b = io.BytesIO()
     with io.TextIOWrapper(b, encoding=encoding, newline=newline) as f:
         f.write(text)
-- 
2.43.0


From 5999d5834dc6464283e47df3b263b0fb38f017d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 45/68] fix: keep a document loaded with a UTF-16 or UTF-32
 byte order mark loadable when saved

---
 parce/docio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/docio.py b/parce/docio.py
index af69d26..ff1e91b 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -300,8 +300,10 @@ def decode_data(
 
     # If no encoding was specified, remember the encoding set in the document
     # or determined via the BOM.
+    # (UTF-16 and UTF-32 can only be recognized again with a BOM, so use the
+    # encodings that write one.)
     if not encoding:
-        encoding = doc_enc or read_enc
+        encoding = doc_enc or (read_enc and re.sub("_[lb]e$", "", read_enc))
 
     # now let Python decode the text
     text = io.TextIOWrapper(io.BytesIO(data), actual_read_enc, errors, newline).read()
-- 
2.43.0


From afb282133cdd832350fcfe361ceadd179fbee52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:25 +0000
Subject: [PATCH 46/68] fix: let a Worker process not touch the state when a
 newer process has been started

---
 parce/work.py | 58 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index cb2be97..b0ceac8 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -99,6 +99,7 @@ class Worker(util.Observable):
         self._transform_lock = threading.Lock() # prevent setting Transformer without noticing
         self._tree_state = IDLE
         self._transform_state = IDLE
+        self._process_id = 0    # increased when a new process starts
 
         treebuilder.connect("invalidate", self.slot_invalidate)
         treebuilder.connect("replace", self.slot_replace)
@@ -151,6 +152,7 @@ class Worker(util.Observable):
 
         """
         with self._condition:
+            self._process_id += 1
             self._tree_state = BUILD
             if self._transformer and self._transform_state == IDLE:
                 self._transform_state = BUILD
@@ -172,6 +174,13 @@ class Worker(util.Observable):
     def process(self):
         """Generator performing the actual process, exhausted by :meth:`run_process`."""
         c = self._condition
+        with c:
+            process_id = self._process_id
+
+        # when another process was started in the meantime, the states and the
+        # transformation belong to that process
+        def is_current():
+            return process_id == self._process_id
 
         try:
             ## run the treebuilder
@@ -181,37 +190,40 @@ class Worker(util.Observable):
                 state = _STATES.get(stage)
                 if state:
                     with c:
-                        self._tree_state = state
+                        if is_current():
+                            self._tree_state = state
             self.finish_build()
             with c:
-                self._tree_state = IDLE
-                c.notify_all()
+                if is_current():
+                    self._tree_state = IDLE
+                    c.notify_all()
 
             ## run the transformer
-            self._transform_lock.acquire()
-            t, old = self._transformer, None
-            if t:
-                while t and t is not old:
-                    self._transform_lock.release()
-                    for stage in t.process(self._builder.root):
-                        yield "transform_" + stage
-                        state = _STATES.get(stage)
+            old = None
+            while is_current():
+                with self._transform_lock:
+                    t = self._transformer
+                # if the transformer was replaced while running, start again
+                if not t or t is old:
+                    if old:
+                        self.finish_transform()
+                    break
+                for stage in t.process(self._builder.root):
+                    yield "transform_" + stage
+                    state = _STATES.get(stage)
+                    with c:
+                        if not is_current():
+                            return
                         if state is not None:
-                            with c:
-                                self._transform_state = state
-                    self._transform_lock.acquire()
-                    # if the transformer was replaced while running, start again
-                    t, old = self._transformer, t
-                self._transform_lock.release()
-                self.finish_transform()
-            else:
-                self._transform_lock.release()
+                            self._transform_state = state
+                old = t
 
         finally:
             with c:
-                self._tree_state = IDLE
-                self._transform_state = IDLE
-                c.notify_all()
+                if is_current():
+                    self._tree_state = IDLE
+                    self._transform_state = IDLE
+                    c.notify_all()
 
     def wait_build(self):
         """Wait for the build job to be completed.
-- 
2.43.0


From b7c7bf7c50dd728c04282c64c99b86e0006d9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 47/68] fix: do not start a second process when setting a
 Transformer during a build

---
 parce/work.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/work.py b/parce/work.py
index b0ceac8..7dca65b 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -122,7 +122,10 @@ class Worker(util.Observable):
             with self._transform_lock:
                 self._transformer = transformer
                 with self._condition:
-                    start = self._transform_state & REPLACE == 0
+                    start = (self._tree_state | self._transform_state) & REPLACE == 0
+                    if not start and transformer and self._transform_state & REPLACE == 0:
+                        # will be used when the current build has finished
+                        self._transform_state = BUILD
             if start:
                 self.start()
 
-- 
2.43.0


From 62cf881a4b22fbf228bb600693fabe07b84e3acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 48/68] fix: do not use outdated results of a Transformer that
 is set again

---
 parce/transform.py | 14 ++++++++++++++
 parce/work.py      |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/parce/transform.py b/parce/transform.py
index d41e1c5..5c0fa96 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -403,6 +403,20 @@ class Transformer(util.Observable):
             self._cache.pop(node, None)
             node = node.parent
 
+    def invalidate_tree(self, tree):
+        """Remove the transform results for all contexts in the tree from
+        our cache.
+
+        Does not throw away the result for the root context.
+
+        """
+        stack = [tree]
+        while stack:
+            for n in stack.pop():
+                if n.is_context:
+                    self._cache.pop(n, None)
+                    stack.append(n)
+
     def connect_treebuilder(self, builder):
         """Connect to the events of the TreeBuilder.
 
diff --git a/parce/work.py b/parce/work.py
index 7dca65b..855602c 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -99,6 +99,7 @@ class Worker(util.Observable):
         self._transform_lock = threading.Lock() # prevent setting Transformer without noticing
         self._tree_state = IDLE
         self._transform_state = IDLE
+        self._transformed = None    # the Transformer that has up-to-date cached results
         self._process_id = 0    # increased when a new process starts
 
         treebuilder.connect("invalidate", self.slot_invalidate)
@@ -121,6 +122,7 @@ class Worker(util.Observable):
         if transformer is not self._transformer:
             with self._transform_lock:
                 self._transformer = transformer
+                self._transformed = None
                 with self._condition:
                     start = (self._tree_state | self._transform_state) & REPLACE == 0
                     if not start and transformer and self._transform_state & REPLACE == 0:
@@ -206,6 +208,9 @@ class Worker(util.Observable):
             while is_current():
                 with self._transform_lock:
                     t = self._transformer
+                    if t and t is not self._transformed:
+                        t.invalidate_tree(self._builder.root)
+                        self._transformed = t
                 # if the transformer was replaced while running, start again
                 if not t or t is old:
                     if old:
-- 
2.43.0


From e464f79ffea208355d1e62e3d61455fa902558fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:17 +0000
Subject: [PATCH 49/68] fix: do not start a second process for changes made
 while a process is about to run

---
 parce/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/work.py b/parce/work.py
index 855602c..a112877 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -146,7 +146,6 @@ class Worker(util.Observable):
         """
         self._builder.add_changes(text, root_lexicon, start, removed, added)
         if not self._builder.busy:
-            self._builder.busy = True
             self.start()
 
     def start(self):
@@ -156,6 +155,7 @@ class Worker(util.Observable):
         should always be called from the main thread.
 
         """
+        self._builder.busy = True
         with self._condition:
             self._process_id += 1
             self._tree_state = BUILD
-- 
2.43.0


From 5d92bdcce30e5d3fd08142c8e929256edb100b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:46 +0000
Subject: [PATCH 50/68] fix: do not hand out results of a replaced Transformer
 while the new one starts

---
 parce/work.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/work.py b/parce/work.py
index a112877..e56c26b 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -222,6 +222,8 @@ class Worker(util.Observable):
                     with c:
                         if not is_current():
                             return
+                        if t is not self._transformer:
+                            state = BUILD   # replaced, will start again
                         if state is not None:
                             self._transform_state = state
                 old = t
-- 
2.43.0


From 15ef4858bc4d9fa0a3c6f15aa3b162527e414dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 51/68] fix: do not lose precision in large JSON integers

---
 parce/lang/json.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index f916310..ce673bb 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -110,10 +110,13 @@ class JsonTransform(Transform):
         for i in items:
             if i.is_token:
                 if i.action is Number:
-                    n = float(i.text)
-                    if n.is_integer():
-                        n = int(n)
-                    yield n
+                    try:
+                        yield int(i.text)
+                    except ValueError:
+                        n = float(i.text)
+                        if n.is_integer():
+                            n = int(n)
+                        yield n
                 elif i.action is Name.Constant:
                     yield JSON_CONSTANTS[i.text]
             else:
-- 
2.43.0


From 1337579618c63fce1027aee0bc0cee1b4acfdd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 52/68] fix: read surrogate pairs in JSON strings as one
 character

---
 parce/lang/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index ce673bb..020efcb 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -149,4 +149,7 @@ class JsonTransform(Transform):
                         yield JSON_ESCAPE_CHARS[t.text[1]]
                 else:
                     yield t.text
-        return ''.join(gen())
+        # \u escapes may denote one character using a pair of surrogates
+        return re.sub('[\ud800-\udbff][\udc00-\udfff]',
+            lambda m: m.group().encode('utf-16', 'surrogatepass').decode('utf-16'),
+            ''.join(gen()))
-- 
2.43.0


From 06273df72a42d25ccf9599cce0b9d5427ef3c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 53/68] fix: do not interpret a backslash in an INI section
 name as an escape

---
 parce/lang/ini.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/lang/ini.py b/parce/lang/ini.py
index 392b73c..dfc88a1 100644
--- a/parce/lang/ini.py
+++ b/parce/lang/ini.py
@@ -110,7 +110,8 @@ class IniTransform(Transform):
         """Return the name of the section."""
         if items.peek(-1, Bracket.End):
             items.pop()
-        return self.values(items)
+        # there are no escapes in a section name
+        return ''.join(t.text for t in items).strip(' \t')
 
     def key(self, items):
         """Return the key name."""
-- 
2.43.0


From dca80babfffab2293e5391b40e164dbd8546d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 54/68] fix: read Dutch and German tens that begin with the
 name of a unit

---
 parce/lang/numbers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 2ff9653..a9abf32 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -308,10 +308,10 @@ class Nederlands(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         yield words(cls._TO19[10:]), Number, -1
+        yield words(cls._TENS), Number, -1
         yield r'({})(?:\s*[eë]n\s*({}))?'.format(
             words(cls._TO19[1:10]),
             words(cls._TENS)), bygroup(Number, Number), -1
-        yield words(cls._TENS), Number, -1
         yield cls._TO19[0], Number, -1
         yield default_target, -1
 
@@ -361,10 +361,10 @@ class Deutsch(Numbers):
         yield _SKIP
         TENS = cls._TENS + ('dreissig',)
         yield words(cls._TO19[10:]), Number, -1
+        yield words(TENS + cls._TO19[:1] + ('eins',)), Number, -1
         yield r'({})(?:\s*und\s*({}))?'.format(
             words(cls._TO19[1:10]),
             words(TENS)), bygroup(Number, Number), -1
-        yield words(TENS + cls._TO19[:1] + ('eins',)), Number, -1
         yield default_target, -1
 
 
-- 
2.43.0


From 829d5143b4309a7b03c53730ec0c6e0c6aca1bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 55/68] fix: read French numbers from 70 to 79 and from 90 to
 99

---
 parce/lang/numbers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index a9abf32..4af6367 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -419,8 +419,8 @@ class Français(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         tens = (cls._TENS[4], cls._TENS[6]) # soixante, quatre-vingt + 10-19
-        yield r'({})[\s-]*({})'.format(
-            words(tens), words(cls._TO19[1:10])), bygroup(Number, Number), -1
+        yield r'({})[\s-]*(?:et)?[\s-]*({})'.format(
+            words(tens), words(cls._TO19[10:])), bygroup(Number, Number), -1
         # vingt, treize, quatorze, cinquante, soixante, quatre-vingt (+ 0-9)
         tens = cls._TENS[:5] + cls._TENS[6:7]
         yield r'({})(?:[\s-]*(?:et)?[\s-]*({}))?'.format(
-- 
2.43.0


From 485d2f7483a1e79ede18695e4f819ea543282223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 56/68] fix: read French quatre-vingts when something follows

---
 parce/lang/numbers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 4af6367..c29480d 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -418,6 +418,7 @@ class Français(Numbers):
     def n99(cls):
         """Numerical value below 100."""
         yield _SKIP
+        yield r'quatre-vingts\b', Number, -1
         tens = (cls._TENS[4], cls._TENS[6]) # soixante, quatre-vingt + 10-19
         yield r'({})[\s-]*(?:et)?[\s-]*({})'.format(
             words(tens), words(cls._TO19[10:])), bygroup(Number, Number), -1
-- 
2.43.0


From 411b98eddd6f097498befffc77e904d7983e0d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:59 +0000
Subject: [PATCH 57/68] fix: don't fail on delimiters or missing values in
 theme properties

---
 parce/theme.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 443a077..c65b4d0 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -257,7 +257,8 @@ class TextFormat:
 
     def __init__(self, properties):
         for prop, values in properties.items():
-            self._dispatch(prop, values)
+            # leave out delimiters like the comma between font family names
+            self._dispatch(prop, [v for v in values if isinstance(v, css.Value)])
 
     def __bool__(self):
         """Return True if at least one property is set."""
@@ -461,8 +462,7 @@ class TextFormat:
 
     @_dispatch("font-style")
     def read_font_style(self, values):
-        v = values[0]
-        for n in values[1:] + [None]:
+        for v, n in zip(values, values[1:] + [None]):
             if v.text in ("normal", "italic"):
                 self.font_style = v.text
                 return
@@ -471,8 +471,7 @@ class TextFormat:
                 if n and n.number is not None:
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
-                    return
-            v = n
+                return
 
     @_dispatch("font-variant-caps")
     def read_font_variant_caps(self, values):
-- 
2.43.0


From c1fa6f846802387be4d52416a207200c956a5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:59 +0000
Subject: [PATCH 58/68] fix: apply shorthand theme properties by CSS precedence

---
 parce/css.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 393722a..a35679c 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -400,21 +400,25 @@ class Style:
         """Return the combined properties of the current set of rules. (Endpoint.)
 
         Returns a dictionary with the properties. The value of each property
-        is a list of Value instances.
+        is a list of Value instances. Properties with a higher precedence come
+        later, so that e.g. a ``font`` and a ``font-size`` property can be
+        applied in the order of the dictionary.
 
         """
         result = {}
-        important_properties = set()
-        for rule in self.rules:
+        important_properties = {}
+        for rule in reversed(self.rules):
             for key, value in rule.properties.items():
-                important = False
                 if value and value[-1] == '!important':
                     value = value[:-1]
-                    important = True
-                if key not in result or (important and key not in important_properties):
+                    important_properties.pop(key, None)
+                    important_properties[key] = value
+                elif key not in important_properties:
+                    result.pop(key, None)
                     result[key] = value
-                    if important:
-                        important_properties.add(key)
+        for key, value in important_properties.items():
+            result.pop(key, None)
+            result[key] = value
         return result
 
 
@@ -931,6 +935,7 @@ class CssTransform(Transform):
                 # a normal declaration doesn't override an important one, and
                 # one without value is invalid
                 if values and ('!important' in values or '!important' not in d.get(prop, ())):
+                    d.pop(prop, None)   # a later declaration comes later
                     d[prop] = values
         return d
 
-- 
2.43.0


From 1324bf02bf4bfe7538856e703c1b93724477074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:59 +0000
Subject: [PATCH 59/68] fix: don't combine a unit or angle with another font
 size or style

---
 parce/theme.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index c65b4d0..48ddf70 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -294,6 +294,14 @@ class TextFormat:
         """Return a new TextFormat adding the other's properties."""
         new = type(self)({})
         new.__dict__.update(self.__dict__)
+        # these belong together, don't keep e.g. a unit for another size
+        for props in (
+            ('font_size', 'font_size_unit'),
+            ('font_style', 'font_style_angle', 'font_style_angle_unit'),
+        ):
+            if props[0] in other.__dict__:
+                for prop in props:
+                    new.__dict__.pop(prop, None)
         new.__dict__.update(other.__dict__)
         return new
 
@@ -444,6 +452,7 @@ class TextFormat:
                           "large", "x-large", "xx-large", "xxx-large",
                           "larger", "smaller"):
                 self.font_size = v.text
+                self.__dict__.pop("font_size_unit", None)
                 return
             elif v.number is not None:
                 self.font_size = v.number
@@ -463,12 +472,11 @@ class TextFormat:
     @_dispatch("font-style")
     def read_font_style(self, values):
         for v, n in zip(values, values[1:] + [None]):
-            if v.text in ("normal", "italic"):
-                self.font_style = v.text
-                return
-            elif v.text == "oblique":
+            if v.text in ("normal", "italic", "oblique"):
                 self.font_style = v.text
-                if n and n.number is not None:
+                self.__dict__.pop("font_style_angle", None)
+                self.__dict__.pop("font_style_angle_unit", None)
+                if v.text == "oblique" and n and n.number is not None:
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
                 return
-- 
2.43.0


From 31b3b0d8955e2496f3055e9801a21c21f6e0f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:59 +0000
Subject: [PATCH 60/68] fix: write font-stretch percentage and zero font-size
 correctly

---
 parce/theme.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 48ddf70..5515868 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -345,7 +345,7 @@ class TextFormat:
         """Yield all font-xxxx properties, if set."""
         if self.font_family:
             yield "font-family", ", ".join(map(css.quote_if_needed, self.font_family))
-        if self.font_size:
+        if self.font_size is not None:
             yield "font-size", "{}{}".format(
                 self.font_size, self.font_size_unit or "")
         if self.font_style == "oblique" and self.font_style_angle:
@@ -354,8 +354,10 @@ class TextFormat:
             yield "font-style", "oblique {}{}".format(slant, unit)
         elif self.font_style:
             yield "font-style", self.font_style
-        if self.font_stretch:
-            yield "font-stretch", format(self.font_stretch)
+        if isinstance(self.font_stretch, str):
+            yield "font-stretch", self.font_stretch
+        elif self.font_stretch is not None:
+            yield "font-stretch", "{}%".format(self.font_stretch)
         if self.font_kerning:
             yield "font-kerning", self.font_kerning
         if self.font_variant_caps:
-- 
2.43.0


From 77202ea501211e16f5c9d168c593d3b8f1f2e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:59 +0000
Subject: [PATCH 61/68] fix: recognize the color transparent in CSS

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index a35679c..7cc9e81 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1083,7 +1083,7 @@ class CssTransform(Transform):
             funcargs = items[-1].obj
             return self.get_css_function_call(text, funcargs)
         from .lang.css_words import CSS3_NAMED_COLORS
-        if action is a.Literal.Color or text in CSS3_NAMED_COLORS:
+        if text == 'transparent' or text in CSS3_NAMED_COLORS:
             color = self.get_named_color(text)
             return Value(color=color, text=text)
         return Value(text=text)
-- 
2.43.0


From ae52b25e38d9075ff328bf3ed2a4cbb2b77208a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:25 +0000
Subject: [PATCH 62/68] fix: read all values of a font shorthand property in
 themes

---
 parce/theme.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 5515868..e675e90 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -250,6 +250,9 @@ class TextFormat:
 
     _dispatch = util.Dispatcher()
 
+    _font_sizes = ("xx-small", "x-small", "small", "medium", "large", "x-large",
+                   "xx-large", "xxx-large", "larger", "smaller")
+
     def __repr__(self):
         return "<{} {}>".format(self.__class__.__name__,
             ", ".join("{}={}".format(key, repr(value))
@@ -450,9 +453,7 @@ class TextFormat:
     @_dispatch("font-size")
     def read_font_size(self, values):
         for v in values:
-            if v.text in ("xx-small", "x-small", "small", "medium",
-                          "large", "x-large", "xx-large", "xxx-large",
-                          "larger", "smaller"):
+            if v.text in self._font_sizes:
                 self.font_size = v.text
                 self.__dict__.pop("font_size_unit", None)
                 return
@@ -478,7 +479,9 @@ class TextFormat:
                 self.font_style = v.text
                 self.__dict__.pop("font_style_angle", None)
                 self.__dict__.pop("font_style_angle_unit", None)
-                if v.text == "oblique" and n and n.number is not None:
+                if (v.text == "oblique" and n and n.number is not None
+                        and (n.unit in ("deg", "grad", "rad", "turn")
+                             or n.unit is None and n is values[-1])):
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
                 return
@@ -511,7 +514,8 @@ class TextFormat:
     @_dispatch("font")
     def read_font(self, values):
         self.read_font_style(values)
-        numvalues = []
+        sizes = []
+        weight = None
         for v in values:
             if v.text in ("caption", "icon", "menu", "message-box",
                           "small-caption", "status-bar"):
@@ -524,17 +528,17 @@ class TextFormat:
                             "extra-expanded", "ultra-expanded"):
                 self.font_stretch = v.text
             elif v.text in ("bold", "lighter", "bolder"):
-                self.font_weight = v.text
-            elif v.number is not None:
-                numvalues.append((v.number, v.unit))
+                self.font_weight = weight = v.text
+            elif v.text in self._font_sizes or (v.number is not None
+                    and v.unit not in ("deg", "grad", "rad", "turn")):
+                sizes.append(v)
         self.read_font_family(values)
         # if more than one size was given, weight is the first
-        if len(numvalues) == 1:
-            self.font_size, self.font_size_unit = numvalues[0]
-        elif len(numvalues) > 1:
-            if self.font_weight is None:
-                self.font_weight = numvalues[0][0]
-            self.font_size, self.font_size_unit = numvalues[1]
+        if len(sizes) > 1:
+            if weight is None:
+                self.font_weight = sizes[0].number
+            del sizes[0]
+        self.read_font_size(sizes)
 
 
 def css_class(action):
-- 
2.43.0


From 35de8cd8cf4c67799c82f1d7d6548af2bb32ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:25 +0000
Subject: [PATCH 63/68] fix: read what follows a slash in a CSS declaration

---
 parce/lang/css.py | 1 +
 parce/theme.py    | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index a3f7a33..11e7007 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -120,6 +120,7 @@ class Css(Language):
         yield r":", Delimiter
         yield r";", Delimiter, -1
         yield r"!important\b", Keyword, -1
+        yield r"/(?!\*)", Delimiter
         yield from cls.common()
         yield r"\s+", skip  # stay here on whitespace only
         yield default_target, -1
diff --git a/parce/theme.py b/parce/theme.py
index e675e90..8a1cdb5 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -260,8 +260,10 @@ class TextFormat:
 
     def __init__(self, properties):
         for prop, values in properties.items():
-            # leave out delimiters like the comma between font family names
-            self._dispatch(prop, [v for v in values if isinstance(v, css.Value)])
+            # leave out delimiters like the comma between font family names,
+            # and values after a slash, like the line height in a font property
+            self._dispatch(prop, [v for prev, v in zip([None] + values, values)
+                                  if isinstance(v, css.Value) and prev != '/'])
 
     def __bool__(self):
         """Return True if at least one property is set."""
-- 
2.43.0


From 33c105058b07d1e7400d349c71654a49ee9b8279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:44 +0000
Subject: [PATCH 64/68] fix: write text-decoration none, or only a style or
 color, as CSS

---
 parce/theme.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 8a1cdb5..90afb42 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -336,15 +336,19 @@ class TextFormat:
             yield "caret-color", css.color2hex(self.caret_color)
 
     def write_text_decoration(self):
-        """Yield a text-decoration property, if set."""
-        props = []
-        props.extend(self.text_decoration_line)
+        """Yield the text-decoration properties that are set."""
+        props = {}
+        if "text_decoration_line" in self.__dict__:
+            props["text-decoration-line"] = " ".join(self.text_decoration_line) or "none"
         if self.text_decoration_style:
-            props.append(self.text_decoration_style)
+            props["text-decoration-style"] = self.text_decoration_style
         if self.text_decoration_color:
-            props.append(css.color2hex(self.text_decoration_color))
-        if props:
-            yield "text-decoration", " ".join(props)
+            props["text-decoration-color"] = css.color2hex(self.text_decoration_color)
+        if "text-decoration-line" in props:
+            yield "text-decoration", " ".join(props.values())
+        else:
+            # the shorthand property would unset the line
+            yield from props.items()
 
     def write_font(self):
         """Yield all font-xxxx properties, if set."""
-- 
2.43.0


From 25bb66a0b48031c5b5a15d6d81c618072310d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:17 +0000
Subject: [PATCH 65/68] fix: remain in the outer edit context after an
 exception in a nested one

---
 parce/mutablestring.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 2e163fc..7fab15b 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -95,8 +95,9 @@ class AbstractMutableString:
     def __exit__(self, exc_type, exc_val, exc_tb):
         """Exit the context for modifying."""
         if exc_type is not None:
-            # cancel all edits when an exception occurred
-            self._edit_context = 0
+            # cancel all edits when an exception occurred; but remain in the
+            # outer context, the exception could be handled there
+            self._edit_context -= 1
             self._changes.clear()
         elif self._edit_context > 1:
             self._edit_context -= 1
-- 
2.43.0


From b62ff8c8699bebac2b90829ba63c80db3488bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:20 +0000
Subject: [PATCH 66/68] fix: find the token that ends at the position when no
 tokens follow

---
 parce/work.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index e56c26b..0f22071 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -496,17 +496,17 @@ class WorkerDocumentMixin:
         different block. Returns None if there are no tokens in the block.
 
         """
-        token = self.get_root(True).find_token(pos)
-        if token:
-            if token.pos <= pos:
-                return token
-            # token is to the right, see if left token touches pos
-            left_token = token.previous_token()
-            if left_token and left_token.end == pos:
-                return left_token
-            # see if token (to the right) is on the same line
-            if self.block_separator not in self[pos:token.pos]:
-                return token
+        root = self.get_root(True)
+        token = root.find_token(pos)
+        if token and token.pos <= pos:
+            return token
+        # token is to the right (or there is none), see if left token touches pos
+        left_token = token.previous_token() if token else root.last_token()
+        if left_token and left_token.end == pos:
+            return left_token
+        # see if token (to the right) is on the same line
+        if token and self.block_separator not in self[pos:token.pos]:
+            return token
 
     def _callback_to_self(self, callback):
         """Return a callable that calls callback with self as first argument.
-- 
2.43.0


From 0effc9619c202c4ba72e1fd4d8871c2e9fec3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:55 +0000
Subject: [PATCH 67/68] fix: find circular default targets that leave the
 lexicon they start in

---
 parce/validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/validate.py b/parce/validate.py
index 3a33374..d963d35 100644
--- a/parce/validate.py
+++ b/parce/validate.py
@@ -136,8 +136,6 @@ class LexiconValidator:
             for t in target:
                 if isinstance(t, int):
                     if t < 0:
-                        if len(state) + t < 1:
-                            return
                         del state[t:]
                     else:
                         for _ in range(t):
@@ -147,6 +145,8 @@ class LexiconValidator:
                     return
                 else:
                     state.append(Context(t))
+            if not state:
+                return  # in the context below, which is not known here
             newcontext = state[-1]
             lexicon = newcontext.lexicon
             if newcontext is context:
-- 
2.43.0


From e93b143963106d84f7f9ea9199d3b940260d58a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:32 +0000
Subject: [PATCH 68/68] fix: don't repeat an empty match forever in a lexicon
 with a default target

---
 parce/lexicon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index 5ea90b1..07801a8 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -426,8 +426,9 @@ class Lexicon:
                     m = match(text, pos)
                     if m:
                         yield token(m)
+                    if m and m.end() > pos:
                         pos = m.end()
-                    else:
+                    else:   # nothing found, or only the empty string
                         if pos < len(text):
                             yield pos, "", None, None, default_target
                         break
-- 
2.43.0

