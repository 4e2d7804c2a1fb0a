From f1825b4a75511ce0592ea56fe66e819a438ad8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 01/13] fix: use an empty sequence of the input kind for empty
 conflict sides

---
 src/gaspra/merge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 5598fa0..183c5ed 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -165,9 +165,9 @@ def flush_remaining(fragments0, fragments1, within_conflict):
     remaining = fragments0 or fragments1
     for item in reversed(remaining):
         if within_conflict and remaining == fragments0:
-            yield ConflictFragment(item.insert, "")
+            yield ConflictFragment(item.insert, item.insert[0:0])
         elif within_conflict:
-            yield ConflictFragment("", item.insert)
+            yield ConflictFragment(item.insert[0:0], item.insert)
         else:
             yield item
 
@@ -203,8 +203,8 @@ def pending_conflict(fragment0: InputType, fragment1: InputType):
     head0, tail0 = split_fragment(fragment0, min_length)
     head1, tail1 = split_fragment(fragment1, min_length)
 
-    from0 = head0.insert if head0 else ""
-    from1 = head1.insert if head1 else ""
+    from0 = head0.insert if head0 else fragment0.insert[0:0]
+    from1 = head1.insert if head1 else fragment1.insert[0:0]
 
     output = ConflictFragment(from0, from1)
     return output, tail0, tail1
-- 
2.43.0


From 98678fac9efaa7a6740f08a95f812315e382c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 02/13] fix: keep the order of the branches when the second one
 makes the change

---
 src/gaspra/merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 183c5ed..388ad30 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -187,6 +187,9 @@ def process_fragments(fragment0, fragment1, within_conflict: bool):
 
     elif isinstance(fragment0, CopyFragment) and isinstance(fragment1, ChangeFragment):
         output, tail0, tail1 = copy_change(fragment0, fragment1)
+        # copy_change() puts the changed version first.
+        if isinstance(output, ConflictFragment):
+            output = ConflictFragment(output.version2, output.version1)
 
     elif isinstance(fragment0, ChangeFragment) and isinstance(fragment1, CopyFragment):
         output, tail1, tail0 = copy_change(fragment1, fragment0)
-- 
2.43.0


From 9b04332a953f9814689d826297c5e8bed1a592f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 03/13] fix: do not let an insertion extend over a deletion
 made by the other branch

---
 src/gaspra/merge.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 388ad30..cc276e4 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -278,14 +278,11 @@ def change_change(fragment0: ChangeFragment, fragment1: ChangeFragment):
 def has_composable_changes(fragment0, fragment1):
     # This is an edge case that showed up in testing. If one change is a
     # pure insertion (no deletion) and the other is a pure deletion (no
-    # insertion), they can be combined into a single conflict-free
-    # change.  It needs to be pushed back onto the input list to be
-    # processed properly One input sequence was [insert x/delete
-    # nothing][s] The other input sequence was [insert nothing/delete
-    # s]. These are transformed to the sequences 1) [s] and 2) [insert
-    # x/delete s] by pushing [insert x/delete s] back onto the input
-    # queue which has the affect of inserting 's' at position where 's'
-    # was.  See compose_changes() for how the changes are composed.
+    # insertion), they can be combined without a conflict: The
+    # insertion is made at its place and the deletion is pushed back
+    # onto the input list, so that what the other branch does within the
+    # deleted region is still taken into account.  See
+    # compose_changes().
 
     return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
         len(fragment0.insert) == 0 and fragment1.length == 0
@@ -294,19 +291,9 @@ def has_composable_changes(fragment0, fragment1):
 
 def compose_changes(fragment0, fragment1):
     if fragment0.length == 0 and len(fragment1.insert) == 0:
-        tail1 = ChangeFragment(
-            fragment0.insert,
-            fragment1.delete,
-            fragment1.length,
-        )
-        return None, None, tail1
+        return fragment0, None, fragment1
     elif len(fragment0.insert) == 0 and fragment1.length == 0:
-        tail0 = ChangeFragment(
-            fragment1.insert,
-            fragment0.delete,
-            fragment0.length,
-        )
-        return None, tail0, None
+        return fragment1, fragment0, None
     else:  # pragma: no cover
         raise ValueError("Changes are not composable")
 
-- 
2.43.0


From a3d91d3ae16481b52585d2d365ea9c15cd0ff423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 04/13] fix: do not confuse a 1-tuple token with a separator

---
 src/gaspra/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/types.py b/src/gaspra/types.py
index 0234675..a035810 100644
--- a/src/gaspra/types.py
+++ b/src/gaspra/types.py
@@ -1,5 +1,6 @@
 from collections.abc import Hashable, Iterable, Sequence
 from collections import namedtuple
+from dataclasses import dataclass
 from typing import TypeVar
 
 Token = Hashable
@@ -13,7 +14,14 @@ StringIterable = Iterable[str]
 BytesIterable = Iterable[bytes]
 TokenSequenceIterable = Iterable[TokenSequence]
 
-Separator = namedtuple("Separator", "index")
+
+# Separator isn't a namedtuple because it must not be equal to any
+# token, including a token that is a tuple.
+@dataclass(frozen=True)
+class Separator:
+    index: int
+
+
 Change = namedtuple("Change", ["a", "b"])
 CommonSlice = namedtuple("Common", ["a_slice", "b_slice"])
 
-- 
2.43.0


From 7c4701e4f36bced4a4070d9b50e7706f1b81b9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 05/13] fix: accept the transformer that merged() passes to
 decode_changes()

---
 src/gaspra/tokenizers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 357cb8b..5ca4e0d 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -200,22 +200,24 @@ class SymbolTokenizer(Generic[BytesOrStr]):
         return generic_decode(contents, self.decoding, cast(BytesOrStr, joiner))
 
 
-def decode_changes(changes: DiffIterable, tokenizer: Tokenizer) -> DiffIterable:
+def decode_changes(
+    changes: DiffIterable, tokenizer: Tokenizer, transform=lambda _: _
+) -> DiffIterable:
     """
     Decode a changeset.  Changesets are first computed on token stream.
     This function decodes each token in a Changeestto a str or a bytes
     object.
 
-    It also applies an optional function escape() to the result.
+    It also applies an optional function transform() to the result.
     """
     for change in changes:
         if isinstance(change, Change):
             yield Change(
-                tokenizer.decode(change.a),
-                tokenizer.decode(change.b),
+                transform(tokenizer.decode(change.a)),
+                transform(tokenizer.decode(change.b)),
             )
         else:
-            yield tokenizer.decode(change)
+            yield transform(tokenizer.decode(change))
 
 
 def decode_and_line_diff_changes(
-- 
2.43.0


From 67ba8c8cb3ca0ba1ab7a29fc6d7d0c56bfbb6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 06/13] fix: do not share the default tokenizer between calls
 of diff() and merged()

---
 src/gaspra/tokenizers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 5ca4e0d..88195c1 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -228,13 +228,16 @@ def decode_and_line_diff_changes(
     yield from to_line_diff(decoded_and_transformed)
 
 
-def diff(original, modified, tokenizer: Tokenizer = NullTokenizer()):
+def diff(original, modified, tokenizer: Tokenizer | None = None):
     """
     High level diff() call that optionally encodes the sequences to be
     compared, compares the sequences, decodes, and transforms the
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_original = tokenizer.encode(original)
     encoded_modified = tokenizer.encode(modified)
 
@@ -247,7 +250,7 @@ def merged(
     parent,
     current,
     other,
-    tokenizer: Tokenizer = NullTokenizer(),
+    tokenizer: Tokenizer | None = None,
     transformer=lambda _: _,
 ):
     """
@@ -256,6 +259,9 @@ def merged(
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_parent = tokenizer.encode(parent)
     encoded_current = tokenizer.encode(current)
     encoded_other = tokenizer.encode(other)
-- 
2.43.0


From 415b8ee4b56a16189d830f4e453d2ef1fe896d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 07/13] fix: tokenize the text again between the deltas of a
 version

---
 src/gaspra/versions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 987b5bd..186edcd 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -109,7 +109,11 @@ class Versions:
                 c if type(c) is slice else tokenizer.encode(c)
                 for c in stripped_changeset
             )
-            encoded_patched = apply(encoded_stripped_changeset, encoded_patched)
+            # Encode again because the pieces of a delta need not end where
+            # tokens end, but the next delta counts tokens of the whole text.
+            encoded_patched = tokenizer.encode(
+                tokenizer.decode(apply(encoded_stripped_changeset, encoded_patched))
+            )
 
         return tokenizer.decode(encoded_patched)
 
-- 
2.43.0


From ef3e23aa5d05303e4dfa174d43a01bc6e061cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 08/13] fix: give DBCollection the mapping methods that
 Versions uses

---
 src/gaspra/db_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/db_collections.py b/src/gaspra/db_collections.py
index e0bc021..742fba4 100644
--- a/src/gaspra/db_collections.py
+++ b/src/gaspra/db_collections.py
@@ -1,4 +1,5 @@
 from typing import Callable
+from collections.abc import MutableMapping
 
 from sqlite3 import Connection
 
@@ -34,7 +35,7 @@ FROM {table}
 """
 
 
-class DBCollection:
+class DBCollection(MutableMapping):
     table: str
     connection_factory: Callable[[], Connection]
 
-- 
2.43.0


From 43e6b8a83e0d58deac60b5ce4c622fce7497b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 09/13] fix: accept files that are new in a later manifest

---
 src/gaspra/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/manifest.py b/src/gaspra/manifest.py
index c6400f2..43cae2e 100644
--- a/src/gaspra/manifest.py
+++ b/src/gaspra/manifest.py
@@ -24,7 +24,7 @@ def add_manifest(
             versions.add(
                 tag,
                 contents[tag],
-                base_manifest[name] if base_manifest is not None else None,
+                base_manifest.get(name) if base_manifest is not None else None,
             )
 
     manifest_doc = manifest_to_doc(manifest)
-- 
2.43.0


From 87fba393f2f9be3a4155c64e86161861ca16c198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 10/13] fix: make --strikeout work and keep it from changing
 the shared styles

---
 src/gaspra/merge_tool.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2b3f55d..2e8808f 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -152,13 +152,16 @@ def get_markup_style(arguments, allow_strikeout=True):
     else:
         level1 = COLORED_LEVEL1
 
-    markup = {"level0": level0, "level1": level1}
+    # Copy before changing anything, because the styles are shared.
+    markup = copy.deepcopy({"level0": level0, "level1": level1})
 
     if arguments.strikeout and allow_strikeout:
-        markup["level0"]["from"] = strikeout_level0
-        markup["level1"]["from"] = strikeout_level1
+        if not arguments.git_compatible:
+            markup["level0"]["from"]["prefix"] = lambda _: strikeout_level0()
+        if not arguments.output:
+            markup["level1"]["from"]["prefix"] = lambda _: strikeout_level1()
 
-    return copy.deepcopy(markup)
+    return markup
 
 
 def get_writer(arguments):
-- 
2.43.0


From 352d473a58cef4953115db1f32a6709ecee93519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 11/13] fix: end the header line in the git-compatible style

---
 src/gaspra/markup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 29a9af6..749178a 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -21,6 +21,7 @@ GIT_MARKUP_LEVEL0 = {
     "into": {"prefix": lambda s: f"<<<<<<< {s}\n", "suffix": lambda _: ""},
     "from": {"prefix": lambda _: "", "suffix": lambda s: f">>>>>>> {s}\n"},
     "separator": "=======\n",
+    "header": {"prefix": "", "suffix": "\n"},
 }
 
 PLAIN_LEVEL1 = {
-- 
2.43.0


From 2ad097ccd733e8af6ac2b3d0ea85fadc5247beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 12/13] fix: show text on the console exactly as it is

---
 src/gaspra/markup.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 749178a..d25895e 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -1,13 +1,23 @@
 from contextlib import contextmanager
 import io
+import re
+import sys
 
 from rich.console import Console
 
 from gaspra.types import Change
 
 
+RICH_SPECIAL = re.compile(r"\\+(?=\[|\Z)|\[")
+
+
 def rich_escape(s):
-    return s.replace("[", r"\[")
+    # For `rich` backslashes are special only in front of a bracket, and
+    # the next thing printed may be one.  Double those backslashes and
+    # put an empty span after them.
+    return RICH_SPECIAL.sub(
+        lambda m: r"\[" if m[0] == "[" else f"{m[0]}{m[0]}[not blink][/]", s
+    )
 
 
 COLORED_LEVEL0 = {
@@ -65,7 +75,10 @@ def file_writer(filename):
 
 @contextmanager
 def console_writer():
-    console = Console(force_terminal=None, highlight=False)
+    # The text is shown as it is, so there is no wrapping at any width.
+    console = Console(
+        force_terminal=None, highlight=False, emoji=False, width=sys.maxsize
+    )
 
     def print(s):
         console.print(s, end="")
-- 
2.43.0


From c0801feb5e66f2e0ace3d35f17211395dbeed30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 13/13] fix: escape file names wherever they are shown on the
 console

---
 src/gaspra/merge_tool.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2e8808f..340c05e 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -133,9 +133,9 @@ def get_markup_function(arguments, escape, allow_strikeout=True):
             changeset,
             markup0=markup["level0"],
             markup1=markup["level1"],
-            name_into=os.path.basename(branch0),
-            name_from=os.path.basename(branch1),
-            header=os.path.basename(header) if header else None,
+            name_into=escape(os.path.basename(branch0)),
+            name_from=escape(os.path.basename(branch1)),
+            header=escape(os.path.basename(header)) if header else None,
             escape=escape,
         )
 
@@ -275,8 +275,8 @@ def diff_cli():
         display_function(
             writer,
             changes,
-            escape(modified_name),
-            escape(original_name),
+            modified_name,
+            original_name,
         )
 
 
-- 
2.43.0

