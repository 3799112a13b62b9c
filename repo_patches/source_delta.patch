From f85dceb661d830e977d2116a7e3d938c536b7235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 01/94] fix: repetition of an expression that matches nothing
 does not terminate

---
 mo_parsing/enhancement.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 47cd4b3..86a9d75 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -249,13 +249,14 @@ class Many(ParseEnhancement):
                         else:
                             raise ParseException(self, end, string, msg="found stopper too soon")
                 result = self.expr._parse(string, index, do_actions)
+                if result.end == result.start:
+                    break  # NO PROGRESS, TRYING AGAIN WILL NOT HELP
                 end = result.end
-                if result.end - result.start:
-                    acc.append(result)
-                    failures.extend(result.failures)
-                    count += 1
-                    if count >= max:
-                        break
+                acc.append(result)
+                failures.extend(result.failures)
+                count += 1
+                if count >= max:
+                    break
 
         except ParseException as cause:
             failures.append(cause)
-- 
2.43.0


From 93f566ff3015ccc64a9b73250729db8d3e17aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 02/94] fix: NotAny never fails when its expression has no
 regex form

---
 mo_parsing/enhancement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 86a9d75..c8fe133 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -159,10 +159,10 @@ class NotAny(LookAhead):
             raise ParseException(self, start, string) from None
         else:
             try:
-                self.expr.parse(string, start, do_actions=True)
-                raise ParseException(self, start, string) from None
-            except:
+                self.expr._parse(string, start, do_actions=False)
+            except ParseException:
                 return ParseResults(self, start, start, [], [])
+            raise ParseException(self, start, string) from None
 
     def streamline(self):
         output = ParseEnhancement.streamline(self)
-- 
2.43.0


From 23c5efa45a268f8ef0576ff0e904c9ce8ef7813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:36 +0000
Subject: [PATCH 03/94] fix: alternatives are dropped or reordered by the
 lookup used to accelerate them

---
 mo_parsing/enhancement.py | 12 ++++++++-
 mo_parsing/expressions.py | 52 ++++++++++++++++++++++-----------------
 mo_parsing/tokens.py      |  4 +--
 3 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index c8fe133..904c89a 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -121,6 +121,9 @@ class LookAhead(ParseEnhancement):
 
         return ParseResults(self, start, start, [result], result.failures)
 
+    def min_length(self):
+        return 0
+
     def __regex__(self):
         return "*", f"(?={self.expr.__regex__()[1]})"
 
@@ -441,6 +444,10 @@ class SkipTo(ParseEnhancement):
         )
         self.parser_name = str(self)
 
+    def expecting(self):
+        # CAN SKIP ANYTHING
+        return {}
+
     def min_length(self):
         return 0
 
@@ -619,7 +626,7 @@ class Forward(ParserElement):
         try:
             if not self.expr:
                 return {}
-            return self.expr.expecting()
+            return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
         finally:
             self._in_expecting = False
 
@@ -902,6 +909,9 @@ class PrecededBy(LookAhead):
         ret.__class__ = Annotation
         return ParseResults(self, start, start, [ret], [])
 
+    def expecting(self):
+        return {}
+
     def __regex__(self):
         if self.parser_config.exact:
             return "*", f"(?<={self.expr.__regex__()[1]})"
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index e363941..0119b4b 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -51,22 +51,13 @@ class ParseExpression(ParserElement):
 
     def expecting(self):
         output = OrderedDict()
-        if not self.is_annotated():
-            for e in self.exprs:
-                expect = e.expecting()
-                if not expect:
-                    # NOT SURE WHAT THIS IS EXPECTING, BAIL
-                    return {}
-                for k, ee in expect.items():
-                    output.setdefault(k, []).extend(ee)
-        else:
-            for e in self.exprs:
-                expect = e.expecting()
-                if not expect:
-                    # NOT SURE WHAT THIS IS EXPECTING, BAIL
-                    return {}
-                for k, _ in expect.items():
-                    output[k] = [self]
+        for e in self.exprs:
+            expect = e.expecting()
+            if not expect:
+                # NOT SURE WHAT THIS IS EXPECTING, BAIL
+                return {}
+            for k, _ in expect.items():
+                output[k] = [self]
         return output
 
     def copy(self):
@@ -250,8 +241,9 @@ class And(ParseExpression):
             for k in expect.keys():
                 acc[k] = [self]
             if e.min_length():
-                break
-        return acc
+                return acc
+        # CAN MATCH WITHOUT CONSUMING ANYTHING
+        return {}
 
     def _min_length(self):
         return sum(e.min_length() for e in self.exprs)
@@ -595,7 +587,8 @@ def faster(exprs):
     out = []
     has_expecting = True
     for o in exprs:
-        p = o.expecting()
+        # AN EXPRESSION THAT CAN MATCH NOTHING CAN START WITH ANYTHING
+        p = o.expecting() if o.min_length() else {}
         if has_expecting:
             if p:
                 acc.append(p)
@@ -639,6 +632,17 @@ def _distinct(a, b):
     return ii
 
 
+def _is_caseable(key):
+    """
+    RETURN True IF THE CASE OF key CAN BE CHANGED, AND CHANGED BACK, CHARACTER-BY-CHARACTER
+    """
+    return all(
+        c in (lower, upper) and lower.upper() == upper and upper.lower() == lower
+        for c in key
+        for lower, upper in [(c.lower(), c.upper())]
+    )
+
+
 class Fast(ParserElement):
     __slots__ = ["lookup", "regex", "all_keys"]
 
@@ -647,11 +651,13 @@ class Fast(ParserElement):
 
         all_keys = set()
         lookup = OrderedDict()
-        for m in maps:
+        for i, m in enumerate(maps):
             for k, ee in m.items():
+                if not _is_caseable(k):
+                    Log.error("not useful")
                 k = k.lower()
                 all_keys.add(k)
-                lookup.setdefault(k, []).extend(ee)
+                lookup.setdefault(k, []).extend((i, e) for e in ee)
 
         # patterns must be mutually exclusive to work
         items = list(lookup.items())
@@ -672,7 +678,9 @@ class Fast(ParserElement):
                     acc.extend(ee)
                     ee.clear()
             if acc:
-                compact.append((min_k, acc))
+                # ENSURE ORIGINAL ORDER IS RESPECTED
+                acc.sort(key=itemgetter(0))
+                compact.append((min_k, [e for _, e in acc]))
         if len(maps) - max(len(v) for k, v in compact) <= 1:
             Log.error("not useful")
 
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 11ea5fa..3349a17 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -136,7 +136,7 @@ class Literal(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
@@ -220,7 +220,7 @@ class Keyword(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
-- 
2.43.0


From 36c70c9a49e7dc19cc524a7254902a37ff1b6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 04/94] fix: Or returns a tuple, or nothing, when alternatives
 change on second parse

---
 mo_parsing/expressions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 0119b4b..dc3e6fb 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -431,7 +431,7 @@ class Or(ParseExpression):
             for loc, expr in matches:
                 if loc <= longest[0]:
                     # already have a longer match than this one will deliver, we are done
-                    return longest
+                    return longest[1]
 
                 try:
                     result = expr._parse(string, start, do_actions)
@@ -453,7 +453,9 @@ class Or(ParseExpression):
                         )
 
             if longest != (-1, None):
-                return longest
+                return longest[1]
+
+            raise ParseException(self, start, string, cause=failures)
 
     def check_recursion(self, seen=empty_tuple):
         seen_more = seen + (self,)
-- 
2.43.0


From bc6151ba1ef3c71a085d77e6c1fc45e6a1e02689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 05/94] fix: MatchFirst inside Or loses its ordered choice

---
 mo_parsing/expressions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index dc3e6fb..867c4b6 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -91,11 +91,6 @@ class ParseExpression(ParserElement):
         acc = []
         same = True
         clazz = self.__class__
-        if clazz == Or:
-            clazz = (
-                Or,
-                MatchFirst,
-            )  # TODO: not correct, but allows merging of the two to a single longer list
         for e in self.exprs:
             f = e.streamline()
             same = same and f is e
-- 
2.43.0


From 872531810a4080f796e0367907d044dd57e1f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 06/94] fix: MatchAll applies the limits of a repetition twice

---
 mo_parsing/expressions.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 867c4b6..643d4b0 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -17,6 +17,7 @@ from mo_parsing.results import ParseResults
 from mo_parsing.tokens import Empty
 from mo_parsing.utils import (
     empty_tuple,
+    MAX_INT,
     is_forward,
     regex_iso,
     Log,
@@ -726,6 +727,16 @@ class Fast(ParserElement):
             )
 
 
+def _all_limits(expr):
+    """
+    RETURN (min, max) NUMBER OF TIMES expr ITSELF MUST MATCH (Many COUNTS ITS OWN REPETITIONS)
+    """
+    if not isinstance(expr, Many):
+        return 1, 1
+    config = expr.parser_config
+    return min(config.min_match, 1), MAX_INT if config.max_match == MAX_INT else 1
+
+
 class MatchAll(ParseExpression):
     """
     Requires all given `ParseExpression` s to be found, but in
@@ -745,12 +756,8 @@ class MatchAll(ParseExpression):
         ParseExpression.__init__(self, exprs)
         self.set_config(
             whitespace=whitespaces.CURRENT,
-            min_match=[
-                e.parser_config.min_match if isinstance(e, Many) else 1 for e in exprs
-            ],
-            max_match=[
-                e.parser_config.max_match if isinstance(e, Many) else 1 for e in exprs
-            ],
+            min_match=[_all_limits(e)[0] for e in exprs],
+            max_match=[_all_limits(e)[1] for e in exprs],
         )
 
     def streamline(self):
@@ -758,14 +765,8 @@ class MatchAll(ParseExpression):
             return self
         output = ParseExpression.streamline(self)
         output.set_config(
-            min_match=[
-                e.parser_config.min_match if isinstance(e, Many) else 1
-                for e in output.exprs
-            ],
-            max_match=[
-                e.parser_config.max_match if isinstance(e, Many) else 1
-                for e in output.exprs
-            ],
+            min_match=[_all_limits(e)[0] for e in output.exprs],
+            max_match=[_all_limits(e)[1] for e in output.exprs],
         )
         return output
 
-- 
2.43.0


From 1cd866f5631eb9e75f7d1bf7e84d46443cf40bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 07/94] fix: SkipTo fail_on does not fail

---
 mo_parsing/enhancement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 904c89a..e52e300 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -469,12 +469,13 @@ class SkipTo(ParseEnhancement):
             skip_end = loc
             loc = before_end = self.parser_config.whitespace.skip(string, loc)
             if fail:
-                # break if fail_on expression matches
+                # fail if fail_on expression matches
                 try:
                     fail._parse(string, loc)
-                    break
-                except:
+                except ParseException:
                     pass
+                else:
+                    raise ParseException(self, start, string)
 
             if ignore:
                 # advance past ignore expressions
-- 
2.43.0


From f83755ee39f4dbb22872875d8d2eb8191f4e891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 08/94] fix: SkipTo ignore does not accept strings, or does not
 terminate

---
 mo_parsing/enhancement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index e52e300..8e1c95c 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -439,7 +439,7 @@ class SkipTo(ParseEnhancement):
         self.set_config(
             include=include,
             fail=whitespaces.CURRENT.normalize(fail_on),
-            ignore=ignore,
+            ignore=whitespaces.CURRENT.normalize(ignore),
             whitespace=engine_ or whitespaces.CURRENT,
         )
         self.parser_name = str(self)
@@ -481,8 +481,10 @@ class SkipTo(ParseEnhancement):
                 # advance past ignore expressions
                 while 1:
                     try:
-                        loc = ignore._parse(string, loc).end
-                        skip_end = loc
+                        ignored = ignore._parse(string, loc).end
+                        if ignored == loc:
+                            break
+                        skip_end = loc = ignored
                         loc = before_end = self.parser_config.whitespace.skip(string, loc)
                     except ParseException:
                         break
-- 
2.43.0


From 9bd446d61510f01fc24a7241da37c685bfc3708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 09/94] fix: StringStart does not return ParseResults

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 3349a17..5758ccd 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -697,7 +697,7 @@ class StringStart(Token):
             # see if entire string up to here is just whitespace and ignoreables
             # if loc != self.whitespace.skip(string, 0):
             raise ParseException(self, loc, string)
-        return []
+        return ParseResults(self, loc, loc, [], [])
 
     def min_length(self):
         return 0
-- 
2.43.0


From 57f62e1622ee416bf002dfda5cb0e55dade8edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 10/94] fix: White raises IndexError at end of string, and
 returns a string for tokens

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 5758ccd..8747d07 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -600,7 +600,7 @@ class White(Token):
         self.set_config(min_len=min, max_len=max, white_chars=white_chars)
 
     def parse_impl(self, string, start, do_actions=True):
-        if string[start] not in self.parser_config.white_chars:
+        if start >= len(string) or string[start] not in self.parser_config.white_chars:
             raise ParseException(self, start, string)
         end = start
         end += 1
@@ -613,7 +613,7 @@ class White(Token):
             raise ParseException(self, end, string)
 
         return ParseResults(
-            self, start, end, string[start:end], [ParseException(self, end, string)]
+            self, start, end, [string[start:end]], [ParseException(self, end, string)]
         )
 
     def reverse(self):
-- 
2.43.0


From 03626f7017f9b435d1f9b22ff49fddcf4f791bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 11/94] fix: caseless patterns escape twice, and lose
 characters that change length with case

---
 mo_parsing/tokens.py | 2 +-
 mo_parsing/utils.py  | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 8747d07..6e3ca0e 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -262,7 +262,7 @@ class CaselessLiteral(Literal):
             Log.error("Literal must be at least one character")
         Token.__init__(self)
         self.set_config(
-            match=match, regex=regex_compile(regex_caseless(re.escape(match))),
+            match=match, regex=regex_compile(regex_caseless(match)),
         )
         self.parser_name = match
 
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index c89a6e8..d7edd62 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -80,11 +80,9 @@ def regex_caseless(literal):
     """
     RETURN REGEX FOR CASELESS VERSION OF GIVEN LITERAL (SO WE DO NOT NEED CASELESS MODE)
     """
-    lower = literal.lower()
-    upper = literal.upper()
     return "".join(
-        f"[{re.escape(l)}{re.escape(u)}]" if l != u else re.escape(u)
-        for l, u in zip(lower, upper)
+        regex_range(c + "".join(v for v in (c.lower(), c.upper()) if len(v) == 1))
+        for c in literal
     )
 
 
-- 
2.43.0


From 4445f89aa63c062f7c16e78d8962aa3f60ae6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 12/94] fix: CloseMatch end is wrong unless it starts the
 string

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 6e3ca0e..fdd1908 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -327,7 +327,7 @@ class CloseMatch(Token):
                     if len(mismatches) > max_mismatches:
                         break
             else:
-                end = match_stringloc + 1
+                end = maxloc
                 results = ParseResults(self, start, end, [string[start:end]], [])
                 results["original"] = match
                 results["mismatches"] = mismatches
-- 
2.43.0


From 9f33cd9bea8e92db9166f6dfa44416b4cc361386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 13/94] fix: CharsNotIn limits are not valid regex

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index fdd1908..240ff4e 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -514,11 +514,11 @@ class CharsNotIn(Token):
             elif min == 1:
                 suffix = "+"
             else:
-                suffix = "{" + str(min) + ":}"
+                suffix = "{" + str(min) + ",}"
         elif min == 1 and max == 1:
             suffix = ""
         else:
-            suffix = "{" + str(min) + ":" + str(max) + "}"
+            suffix = "{" + str(min) + "," + str(max) + "}"
 
         self.set_config(
             regex=regex_compile(regex + suffix),
-- 
2.43.0


From 9dfa39a3e3f75b017912e4c235ba83675beecb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 14/94] fix: Char as_keyword raises AttributeError

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 240ff4e..58c68df 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -447,7 +447,7 @@ class Char(Token):
             regex = regex_range(include)
 
         if as_keyword:
-            regex = r"\b%s\b" % self
+            regex = r"\b%s\b" % regex
         self.set_config(regex=regex_compile(regex), include=include, exclude=exclude)
 
     def parse_impl(self, string, start, do_actions=True):
-- 
2.43.0


From 79dfd69b13e636156a93a96d561c8681871cc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 15/94] fix: regex_range mistakes its sentinel for a character

---
 mo_parsing/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index d7edd62..9d5517e 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -105,8 +105,8 @@ def regex_range(s, exclude=False):
     start = None
     prev = None
     acc = ["[^"] if exclude else ["["]
-    for c in list(sorted(set(s))) + ["\a"]:
-        if prev and ord(prev) == ord(c) - 1:
+    for c in list(sorted(set(s))) + [None]:
+        if prev and c and ord(prev) == ord(c) - 1:
             if not start:
                 start = prev
         elif start:
-- 
2.43.0


From 90894325623890ca409036f33f551f9ad2d89395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:20 +0000
Subject: [PATCH 16/94] fix: zero repetitions taken as any number of
 repetitions

---
 mo_parsing/core.py   | 8 ++------
 mo_parsing/tokens.py | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 456af6f..07cadac 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -610,13 +610,9 @@ class ParserElement(object):
         elif min_elements < 0:
             raise ValueError("cannot multiply ParserElement by negative value")
 
-        if max_elements == Ellipsis or not max_elements:
+        if max_elements == Ellipsis or max_elements is None:
             max_elements = MAX_INT
-        elif (
-            not isinstance(max_elements, int)
-            or max_elements < min_elements
-            or max_elements == 0
-        ):
+        elif not isinstance(max_elements, int) or max_elements < min_elements:
             raise TypeError(
                 "cannot multiply 'ParserElement' and ('%s', '%s') objects",
                 type(other[0]),
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 58c68df..2f45a1c 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -57,7 +57,7 @@ class Empty(Token):
         return self
 
     def __regex__(self):
-        return self.whitespace.__regex__()
+        return "*", ""
 
     def __str__(self):
         return self.parser_name or "Empty"
-- 
2.43.0


From c0e9d3daa283e1ccd407c6450cd4a7ecfff63c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 17/94] fix: LineStart regex matches the first line only

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 2f45a1c..7b27276 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -645,7 +645,7 @@ class LineStart(Token):
         return LineEnd()
 
     def __regex__(self):
-        return "*", "^"
+        return "*", "(?m:^)"
 
 
 class LineEnd(Token):
-- 
2.43.0


From b81a1a5b99d1796613729ce1dc54b18eabcc1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 18/94] fix: NotAny uses regex where it does not agree with the
 expression

---
 mo_parsing/enhancement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 8e1c95c..7272c31 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -155,7 +155,8 @@ class NotAny(LookAhead):
 
     def parse_impl(self, string, start, do_actions=True):
         regex = self.regex
-        if regex:
+        # ONLY A TOKEN IS SURE TO MATCH THE SAME AS ITS REGEX (REGEX WILL BACKTRACK, AND DOES NOT RUN ACTIONS)
+        if regex and isinstance(self.expr, Token) and not self.expr.parse_action:
             found = regex.match(string, start)
             if found:
                 return ParseResults(self, start, start, [], [])
-- 
2.43.0


From f39f5f264ead940a0ed4451d416a80b8c0402759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 19/94] fix: Combine ignores conditions and actions of its
 expression

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 7272c31..3d99d30 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -724,7 +724,7 @@ class Combine(TokenConverter):
 
     def parse_impl(self, string, start, do_actions=True):
         try:
-            result = self.expr.parse_impl(string, start, do_actions=do_actions)
+            result = self.expr._parse(string, start, do_actions)
             return ParseResults(
                 self, start, result.end, [result.as_string(sep=self.parser_config.separator)], result.failures,
             )
-- 
2.43.0


From 4d7289ff8824b1414d62dc1c2144c15932cabe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 20/94] fix: as_list nests groups twice when inside a Forward

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 0d343c6..27fbb56 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -312,7 +312,7 @@ class ParseResults(object):
                 for t in obj.tokens:
                     inner = internal(t, depth + 1)
                     output.extend(inner)
-                if isinstance(obj.type, Group):
+                if isinstance(obj._type, Group):
                     return [output]
                 else:
                     return output
-- 
2.43.0


From 295b633f65a7c290a97f01e509bfc04b617c3749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 21/94] fix: keys() misses the name directly inside a Forward

---
 mo_parsing/results.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 27fbb56..8928823 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -355,6 +355,8 @@ class ForwardResults(ParseResults):
         return self.tokens[0].type
 
     def __getitem__(self, item):
+        if self.tokens[0].name and is_text(item):
+            return ParseResults.__getitem__(self, item)
         return self.tokens[0][item]
 
     def __setitem__(self, k, v):
@@ -370,7 +372,10 @@ class ForwardResults(ParseResults):
         yield from self.tokens[0]
 
     def items(self):
-        yield from self.tokens[0].items()
+        if self.tokens[0].name:
+            yield from ParseResults.items(self)
+        else:
+            yield from self.tokens[0].items()
 
 
 def _flatten(token):
-- 
2.43.0


From 1890f3d105df4ac559c1c7f44ad83ce19032c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:06 +0000
Subject: [PATCH 22/94] fix: Many with a maximum of zero fails when there is
 something to match

---
 mo_parsing/enhancement.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 3d99d30..743b791 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -244,7 +244,7 @@ class Many(ParseEnhancement):
         count = 0
         failures = []
         try:
-            while end < len(string):
+            while count < max and end < len(string):
                 index = self.parser_config.whitespace.skip(string, end)
                 if stopper:
                     if stopper.match(string, index):
@@ -259,8 +259,6 @@ class Many(ParseEnhancement):
                 acc.append(result)
                 failures.extend(result.failures)
                 count += 1
-                if count >= max:
-                    break
 
         except ParseException as cause:
             failures.append(cause)
-- 
2.43.0


From deb6c49b3cbcba646d1f65e1132f42cafaedbd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:03 +0000
Subject: [PATCH 23/94] fix: name and actions of a Forward are lost when
 assigned to another Forward

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 743b791..d8cfab4 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -586,7 +586,7 @@ class Forward(ParserElement):
         if is_forward(self.expr):
             return self.expr << other
 
-        while is_forward(other):
+        while is_forward(other) and not other.is_annotated():
             other = other.expr
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
-- 
2.43.0


From 655cf21c63fd1f89e8ce4a9609e95b1d28b03f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:03 +0000
Subject: [PATCH 24/94] fix: streamline loses name and actions of trivial
 repetition and negation

---
 mo_parsing/enhancement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index d8cfab4..cf63ee6 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -170,6 +170,8 @@ class NotAny(LookAhead):
 
     def streamline(self):
         output = ParseEnhancement.streamline(self)
+        if self.is_annotated():
+            return output
         if isinstance(output, Empty):
             return NoMatch()
         if isinstance(output.expr, NoMatch):
@@ -288,7 +290,7 @@ class Many(ParseEnhancement):
         if self.expr is expr:
             self.streamlined = True
             return self
-        if expr.is_annotated() or not isinstance(expr, Empty):
+        if self.is_annotated() or expr.is_annotated() or not isinstance(expr, Empty):
             output = self.copy()
             output.expr = expr
             output.streamlined = True
-- 
2.43.0


From acc3e007b5ce04c35eae30d42ffef244e898d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:26 +0000
Subject: [PATCH 25/94] fix: Regex uses whitespace rules of its pattern for
 leading whitespace

---
 mo_parsing/regex.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 57489fe..8a8d8ad 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -355,6 +355,11 @@ class Regex(ParseEnhancement):
         output.streamlined = True
         return output
 
+    @property
+    def whitespace(self):
+        # WHITESPACE RULES OF THE PATTERN DO NOT APPLY TO WHAT SURROUNDS IT
+        return None
+
     def expecting(self):
         return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
 
-- 
2.43.0


From ddcd1c6eb1d4f2e09149a7d01459fa24b3a6fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:27 +0000
Subject: [PATCH 26/94] fix: LookBehind accepts newlines, and ambient
 whitespace, before the current position

---
 mo_parsing/enhancement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index cf63ee6..198562c 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -896,14 +896,14 @@ class PrecededBy(LookAhead):
             ret = self.expr._parse(string, loc)
         else:
             # retreat specified a maximum lookbehind window, iterate
-            test_expr = self.expr + StringEnd()
             instring_slice = string[:start]
             last_cause = ParseException(self, start, string)
 
             for offset in range(self.parser_config.retreat, start + 1):
                 try:
-                    ret = test_expr._parse(instring_slice, start - offset)
-                    break
+                    ret = self.expr._parse(instring_slice, start - offset)
+                    if ret.end == start:
+                        break
                 except ParseException as cause:
                     last_cause = cause
             else:
-- 
2.43.0


From 2a40b09f19f07c0078a7ba32da96bed5cbe4baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:44 +0000
Subject: [PATCH 27/94] fix: SkipTo reports the end of a match attempted
 without conditions

---
 mo_parsing/enhancement.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 198562c..bb3c7db 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -502,7 +502,6 @@ class SkipTo(ParseEnhancement):
             raise ParseException(self, start, string) from None
 
         # build up return values
-        end = loc
         skiptext = string[start:skip_end]
         skip_result = []
         if skiptext:
@@ -511,7 +510,7 @@ class SkipTo(ParseEnhancement):
         if self.parser_config.include:
             end_result = self.expr._parse(string, before_end, do_actions)
             skip_result.append(end_result)
-            return ParseResults(self, start, end, skip_result, [])
+            return ParseResults(self, start, end_result.end, skip_result, [])
         else:
             return ParseResults(self, start, before_end, skip_result, [])
 
-- 
2.43.0


From 8b4a915a2095b7748eeec9a13c027159b315515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 28/94] fix: what a Regex expects, and its shortest match, are
 taken from an approximation of its pattern

---
 mo_parsing/regex.py  | 18 +++++++++++++++---
 mo_parsing/tokens.py |  2 +-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 8a8d8ad..c52b271 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -3,9 +3,13 @@
 # UNDER THE MIT LICENSE
 #
 # Contact: kyle@lahnakoski.com
-from collections import OrderedDict
 from string import whitespace
 
+try:
+    from re import _parser as sre_parse
+except ImportError:
+    import sre_parse
+
 from mo_future import unichr, is_text
 from mo_imports import export
 
@@ -76,6 +80,13 @@ def to_bracket(tokens):
         return Char(acc)
 
 
+def _shortest_match(pattern):
+    """
+    RETURN LENGTH OF THE SHORTEST STRING THE COMPILED pattern CAN MATCH
+    """
+    return sre_parse.parse(pattern.pattern, pattern.flags).getwidth()[0]
+
+
 num_captures = 0
 
 
@@ -361,10 +372,11 @@ class Regex(ParseEnhancement):
         return None
 
     def expecting(self):
-        return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
+        # self.expr IS ONLY AN APPROXIMATION OF THE PATTERN
+        return {}
 
     def min_length(self):
-        return self.expr.min_length()
+        return _shortest_match(self.regex)
 
     def __regex__(self):
         if self.regex:
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 7b27276..c809d33 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -371,7 +371,7 @@ class Word(Token):
 
         if body_chars == init_chars:
             if init_chars.__class__.__name__ == "Regex":
-                init_chars = init_chars.expecting().keys()
+                init_chars = init_chars.expr.expecting().keys()
             prec, regexp = Char(init_chars, exclude=exclude)[min:max].__regex__()
         elif max is None or max == MAX_INT:
             with whitespaces.NO_WHITESPACE:
-- 
2.43.0


From d3c9538f53d2dd1e67dfb23d0a1f3b69e77393e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 29/94] fix: Regex does not accept open ended repetition counts

---
 mo_parsing/regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index c52b271..9c75f30 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -46,6 +46,7 @@ from mo_parsing.utils import (
     nums,
     hexnums,
     Log,
+    MAX_INT,
     enlist,
     regex_compile,
     ParseException,
@@ -134,8 +135,8 @@ def repeat(tokens):
             return Many(
                 operand,
                 NO_WHITESPACE,
-                min_match=int(operator["min"]),
-                max_match=int(operator["max"]),
+                min_match=int(operator["min"] or 0),
+                max_match=int(operator["max"] or MAX_INT),
             )
     elif mode in "*?":
         return ZeroOrMore(operand, NO_WHITESPACE)
-- 
2.43.0


From 849dfd9b2f8d0321391ab7a2f1774ece538e0ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 30/94] fix: Regex does not understand anchors, spaces, or
 characters outside ASCII

---
 mo_parsing/regex.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 9c75f30..1f516a7 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -40,7 +40,6 @@ from mo_parsing.tokens import (
     SingleCharLiteral,
 )
 from mo_parsing.utils import (
-    printables,
     alphas,
     alphanums,
     nums,
@@ -211,9 +210,7 @@ regex = Forward()
 line_start = Literal("^") / (lambda: LineStart())
 line_end = Literal("$") / (lambda: LineEnd())
 word_edge = Literal("\\b") / (lambda: NotAny(any_wordchar))
-simple_char = Word(
-    printables, exclude=r".^$*+{}[]\|()"
-) / (lambda t: Literal(t.value()))
+simple_char = Char(exclude=r".^$*+{}[]\|()") / (lambda t: Literal(t.value()))
 esc_char = ("\\" + AnyChar()) / (lambda t: Literal(t.value()[1]))
 
 with Whitespace():
@@ -251,6 +248,8 @@ term = (
     macro
     | simple_char
     | esc_char
+    | line_start
+    | line_end
     | word_edge
     | brackets
     | ahead
-- 
2.43.0


From a3416260c2234dda47ed01af4351bd9d28360436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 31/94] fix: add_ignore takes only the first expression, and
 fails when there is no whitespace

---
 mo_parsing/whitespaces.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index f3cf1bf..fa59742 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -120,10 +120,10 @@ class Whitespace(ParserElement):
         for ignore_expr in ignore_exprs:
             ignore_expr = ignore_expr.suppress()
             self.ignore_list.append(ignore_expr)
-            self.content = None
-            self.expr = None if isinstance(Empty, Expecting) else Empty()
-            self.regex = re.compile(self.__regex__()[1], re.DOTALL)
-            return self
+        self.content = None
+        self.expr = None if isinstance(Empty, Expecting) else Empty()
+        self.regex = re.compile(self.__regex__()[1], re.DOTALL)
+        return self
 
     def backup(self):
         return Backup(self)
@@ -174,6 +174,8 @@ class Whitespace(ParserElement):
                     return "*", white + "*"
 
             ignored = "|".join(regex_iso(*i.__regex__(), "|") for i in self.ignore_list)
+            if not white:
+                return "*", f"(?:{ignored})*"
             return "+", f"(?:{white}*(?:{ignored}))*{white}*"
         finally:
             self._in_regex = False
-- 
2.43.0


From 1d1592d33c8d5768f3849a78e3f86101cd46b62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 32/94] fix: scan_string reports a match again when whitespace
 comes before it

---
 mo_parsing/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 07cadac..9dba89a 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -200,8 +200,8 @@ class Parser(object):
             else:
                 matches += 1
                 yield tokens, tokens.start, tokens.end
-                if overlap or tokens.end <= end:
-                    end += 1
+                if overlap or tokens.end <= start:
+                    end = start + 1
                 else:
                     end = tokens.end
 
-- 
2.43.0


From 29d98fa2328345dcffe69e3a0139360584f7fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 33/94] fix: a keyword, or WordEnd, takes a last newline for
 the end of text

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index c809d33..d2479c6 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -200,7 +200,7 @@ class Keyword(Token):
         else:
             pattern = re.escape(match)
 
-        non_word = "($|(?!" + regex_range(ident_chars) + "))"
+        non_word = "(\\Z|(?!" + regex_range(ident_chars) + "))"
         self.set_config(
             ident_chars=ident_chars,
             match=match,
@@ -799,7 +799,7 @@ class WordEnd(Token):
         self.set_config(
             word_chars="".join(sorted(set(word_chars))),
             regex=regex_compile(
-                f"(?<={Char(word_chars).__regex__()[1]})({(~Char(word_chars)).__regex__()[1]}|$)"
+                f"(?<={Char(word_chars).__regex__()[1]})({(~Char(word_chars)).__regex__()[1]}|\\Z)"
             ),
         )
 
-- 
2.43.0


From 8c8d8638817b6912916e1f79c3ca44bca2108362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 34/94] fix: capture_groups repeats text of nested groups

---
 mo_parsing/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 1f516a7..860d0bc 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -318,7 +318,7 @@ class Regex(ParseEnhancement):
                 g = sub_string[s:e]
                 if pe <= s:
                     ann.append(g)
-                pe = e
+                pe = max(pe, e)
                 ii = chr(i + ord("0"))
                 ann.append(Annotation(ii, s + start, e + start, [g]))
                 n = lookup.get(i)
-- 
2.43.0


From 67c071b70a652d2c3236fa3cfe35dc60b26268a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 35/94] fix: a repetition inside of a repetition is not a valid
 regular expression

---
 mo_parsing/enhancement.py | 4 +++-
 mo_parsing/tokens.py      | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index bb3c7db..6455dc3 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -319,8 +319,10 @@ class Many(ParseEnhancement):
 
         if end:
             return "+", regex + suffix + end
+        elif suffix:
+            return "+", regex + suffix
         else:
-            return "*", regex + suffix
+            return "*", regex
 
     def __call__(self, name):
         if not name:
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index d2479c6..5b6941d 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -542,7 +542,8 @@ class CharsNotIn(Token):
         return self
 
     def __regex__(self):
-        return "*", self.parser_config.regex.pattern
+        # THE PATTERN CAN BE A REPETITION
+        return "+", self.parser_config.regex.pattern
 
     def __str__(self):
         return self.parser_config.regex.pattern
-- 
2.43.0


From 6e8a3d2983d42d5209ab86786b7ebe31a811bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 36/94] fix: suppress() leaves an empty group behind

---
 mo_parsing/enhancement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 6455dc3..98a831d 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -6,7 +6,7 @@ from mo_future import text, is_text
 from mo_imports import export, expect
 
 from mo_parsing import whitespaces
-from mo_parsing.core import ParserElement
+from mo_parsing.core import NO_PARSER, ParserElement
 from mo_parsing.exceptions import ParseException, RecursiveGrammarException
 from mo_parsing.results import ParseResults, ForwardResults, Annotation
 from mo_parsing.utils import (
@@ -846,6 +846,9 @@ class Suppress(TokenConverter):
 
 
 def _suppress_post_parse(tokens, start, string):
+    if isinstance(tokens.type, Group):
+        # DO NOT LEAVE AN EMPTY GROUP BEHIND
+        return ParseResults(NO_PARSER, tokens.start, tokens.end, [], tokens.failures)
     return ParseResults(tokens.type, tokens.start, tokens.end, [], tokens.failures)
 
 
-- 
2.43.0


From 4c7f446a3e67b50f52f803025257bbc781494158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 37/94] fix: assigning to a name already in the result makes
 the value a token, and loses the name

---
 mo_parsing/results.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 8928823..b3120b0 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -89,6 +89,12 @@ class ParseResults(object):
 
         if v is None:
             v = NO_RESULTS
+        elif v is NO_RESULTS:
+            pass
+        elif isinstance(v, ParseResults):
+            v = Annotation(k, v.start, v.end, v.tokens)
+        else:
+            v = Annotation(k, -1, 0, enlist(v))
 
         for i, tok in enumerate(self.tokens):
             if isinstance(tok, ParseResults):
@@ -106,10 +112,7 @@ class ParseResults(object):
             tokens = self.tokens
             if isinstance(self, ForwardResults):
                 tokens = tokens[0].tokens
-            if isinstance(v, ParseResults):
-                tokens.append(Annotation(k, v.start, v.end, v.tokens))
-            else:
-                tokens.append(Annotation(k, -1, 0, enlist(v)))
+            tokens.append(v)
 
     def __contains__(self, k):
         return any((r.name) == k for r in self.tokens)
-- 
2.43.0


From 476f7dcaa7d5335b35a620ab95c0e1df61731b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 38/94] fix: sum, as a parse action, adds the location; min,
 max and set are taken for constants

---
 mo_parsing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 9d5517e..6823414 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -304,7 +304,7 @@ def line(loc, string):
 
 def wrap_parse_action(func):
     if func in singleArgBuiltins:
-        spec = inspect.getfullargspec(func)
+        spec = inspect.FullArgSpec(["value"], None, None, None, [], None, {})
     elif func.__class__.__name__ == "staticmethod":
         func = func.__func__
         spec = inspect.getfullargspec(func)
-- 
2.43.0


From 74e7f37b9356f4334abb68b63195057c32871a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 39/94] fix: a condition that returns None holds, and one that
 returns an empty list raises IndexError

---
 mo_parsing/core.py  | 4 ++--
 mo_parsing/utils.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 9dba89a..5c89a9f 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -404,7 +404,7 @@ class ParserElement(object):
         def make_cond(fn):
             def cond(token, index, string):
                 result = fn(token, index, string)
-                if not bool(result.tokens[0]):
+                if not result.tokens[0]:
                     error = ParseException(token.type, index, string, msg=message)
                     if fatal:
                         Log.error("fatal error", cause=error)
@@ -415,7 +415,7 @@ class ParserElement(object):
 
         output = self.copy()
         for fn in fns:
-            output.parse_action.append(make_cond(wrap_parse_action(fn)))
+            output.parse_action.append(make_cond(wrap_parse_action(fn, condition=True)))
 
         output.set_config(
             callDuringTry=self.parser_config.callDuringTry or callDuringTry
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 6823414..e227052 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -302,7 +302,7 @@ def line(loc, string):
 "decorator to trim function calls to match the arity of the target"
 
 
-def wrap_parse_action(func):
+def wrap_parse_action(func, condition=False):
     if func in singleArgBuiltins:
         spec = inspect.FullArgSpec(["value"], None, None, None, [], None, {})
     elif func.__class__.__name__ == "staticmethod":
@@ -331,6 +331,8 @@ def wrap_parse_action(func):
         try:
             args = token, index, string
             result = func(*args[:num_args])
+            if condition:
+                result = [bool(result)]
             if result is None:
                 return token
             elif isinstance(result, ParseResults):
-- 
2.43.0


From 334ed772c877d814bb9ff11ba6f07bc8e9e4366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 40/94] fix: Or of one distinct sequence raises AttributeError

---
 mo_parsing/expressions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 643d4b0..a6b87c0 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -361,11 +361,9 @@ class Or(ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-                output = Empty()
+                return Empty()
             if len(output.exprs) == 1:
-                output = output.exprs[0]
-                if not isinstance(output, ParseExpression):
-                    return output
+                return output.exprs[0]
 
         output.alternate = faster(output.exprs)
 
-- 
2.43.0


From b04e86f461de978cf5ef59353f2c0321e291b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 41/94] fix: infix_notation takes operators for operands, and
 loses operands when an operator is both unary and binary

---
 mo_parsing/infix.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index d5c9874..f1b27f5 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -254,8 +254,20 @@ def infix_notation(
         )
     ])
 
+    operators = set(
+        op_part
+        for expr, op, is_suppressed, arity, assoc, pa in op_list
+        for op_part in (op if isinstance(op, tuple) else [op])
+    )
+
     def make_tree(tokens, loc, string):
         flat_tokens = list(tokens)
+
+        def operand(i):
+            return (
+                0 <= i < len(flat_tokens) and flat_tokens[i][1] not in operators
+            )
+
         num = len(op_list)
         op_index = 0
         while len(flat_tokens) > 1 and op_index < num:
@@ -265,7 +277,7 @@ def infix_notation(
                     # PREFIX OPERATOR -3
                     todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if o == op and operand(i + 1) and not operand(i - 1):
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -283,7 +295,7 @@ def infix_notation(
                     # SUFFIX OPERATOR 3!
                     todo = list(enumerate(flat_tokens[1:]))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if o == op and operand(i) and not operand(i + 2):
                             tok = flat_tokens[i][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -303,7 +315,7 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r, o) in todo:
-                    if o == op:
+                    if o == op and operand(i) and operand(i + 2):
                         if is_suppressed:
                             result = ParseResults(
                                 expr,
@@ -333,7 +345,7 @@ def infix_notation(
                 for i, (r0, o0) in todo:
                     if o0 == op[0]:
                         r1, o1 = flat_tokens[i + 3]
-                        if o1 == op[1]:
+                        if o1 == op[1] and all(operand(i + k) for k in (0, 2, 4)):
                             seq = [
                                 flat_tokens[i][0],
                                 flat_tokens[i + 2][0],
-- 
2.43.0


From 4b200cfb723eb989cedfb8878ac863cb38568ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 42/94] fix: infix_notation drops terms when only one of a pair
 of operators is there

---
 mo_parsing/infix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index f1b27f5..097d604 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -13,6 +13,7 @@ from mo_parsing.enhancement import (
     Suppress,
     ZeroOrMore,
 )
+from mo_parsing.exceptions import ParseException
 from mo_parsing.expressions import MatchFirst, Or
 from mo_parsing.results import ParseResults, NO_PARSER
 from mo_parsing.tokens import (
@@ -371,6 +372,8 @@ def infix_notation(
             flat_tokens[i : i + offset] = [(result, (expr,))]
             op_index = 0
 
+        if len(flat_tokens) > 1:
+            raise ParseException(flat, loc, string, "operators are missing terms")
         result = flat_tokens[0][0]
         result.end = tokens.end
         result.failures = tokens.failures
-- 
2.43.0


From 60de027c4b1fc27c4877eb858390c361116f08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 43/94] fix: infix_notation calls parse actions with location
 -1

---
 mo_parsing/infix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index 097d604..54c20ad 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -367,7 +367,7 @@ def infix_notation(
                     continue
 
             for p in parse_actions:
-                result = p(result, -1, string)
+                result = p(result, result.start, string)
             offset = (0, 2, 3, 5)[arity]
             flat_tokens[i : i + offset] = [(result, (expr,))]
             op_index = 0
-- 
2.43.0


From c58840e883c54695428a4653fd0f37e57a275b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 44/94] fix: a choice with no alternatives matches anything

---
 mo_parsing/expressions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index a6b87c0..69e4626 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -14,7 +14,7 @@ from mo_parsing.exceptions import (
     ParseSyntaxException,
 )
 from mo_parsing.results import ParseResults
-from mo_parsing.tokens import Empty
+from mo_parsing.tokens import Empty, NoMatch
 from mo_parsing.utils import (
     empty_tuple,
     MAX_INT,
@@ -349,19 +349,20 @@ class Or(ParseExpression):
         return output
 
     def _min_length(self):
-        return min(e.min_length() for e in self.exprs)
+        return min((e.min_length() for e in self.exprs), default=0)
 
     def streamline(self):
         if self.streamlined:
             return self
 
+        if not self.exprs and not self.is_annotated():
+            return NoMatch()
+
         output = ParseExpression.streamline(self)
 
         if not isinstance(output, ParseExpression):
             return output
         if not output.is_annotated():
-            if len(output.exprs) == 0:
-                return Empty()
             if len(output.exprs) == 1:
                 return output.exprs[0]
 
@@ -519,13 +520,12 @@ class MatchFirst(ParseExpression):
         if self.streamlined:
             return self
 
+        if not self.exprs and not self.is_annotated():
+            return NoMatch()
+
         output = ParseExpression.streamline(self)
 
-        if isinstance(output, Empty):
-            return output
         if not output.is_annotated():
-            if len(output.exprs) == 0:
-                return Empty()
             if len(output.exprs) == 1:
                 return output.exprs[0]
 
-- 
2.43.0


From 6979a25ea68d495dd33173b62edbd80e5c6814d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 45/94] fix: infix_notation reduces a looser operator first
 when a tighter one waits for a unary operator

---
 mo_parsing/infix.py | 48 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index 54c20ad..e38d760 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -261,6 +261,13 @@ def infix_notation(
         for op_part in (op if isinstance(op, tuple) else [op])
     )
 
+    # LEVELS OF OPERATORS THAT TAKE THE TERM AFTER THEM, AND OF THOSE THAT TAKE THE TERM BEFORE
+    left_levels, right_levels = {}, {}
+    for i, (expr, op, is_suppressed, arity, assoc, pa) in enumerate(op_list):
+        if arity > 1:
+            left_levels.setdefault(op[1] if arity == 3 else op, i)
+            right_levels.setdefault(op[0] if arity == 3 else op, i)
+
     def make_tree(tokens, loc, string):
         flat_tokens = list(tokens)
 
@@ -269,6 +276,18 @@ def infix_notation(
                 0 <= i < len(flat_tokens) and flat_tokens[i][1] not in operators
             )
 
+        def taken_left(i):
+            # THE TERM AT i BELONGS TO THE OPERATOR BEFORE IT
+            level = left_levels.get(flat_tokens[i - 1][1], num) if i > 0 else num
+            return level < op_index or level == op_index and assoc == LEFT_ASSOC
+
+        def taken_right(i):
+            # THE TERM AT i BELONGS TO THE OPERATOR AFTER IT
+            level = num
+            if i + 1 < len(flat_tokens):
+                level = right_levels.get(flat_tokens[i + 1][1], num)
+            return level < op_index or level == op_index and assoc == RIGHT_ASSOC
+
         num = len(op_list)
         op_index = 0
         while len(flat_tokens) > 1 and op_index < num:
@@ -278,7 +297,12 @@ def infix_notation(
                     # PREFIX OPERATOR -3
                     todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
                     for i, (r, o) in todo:
-                        if o == op and operand(i + 1) and not operand(i - 1):
+                        if (
+                            o == op
+                            and operand(i + 1)
+                            and not operand(i - 1)
+                            and not taken_right(i + 1)
+                        ):
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -296,7 +320,12 @@ def infix_notation(
                     # SUFFIX OPERATOR 3!
                     todo = list(enumerate(flat_tokens[1:]))
                     for i, (r, o) in todo:
-                        if o == op and operand(i) and not operand(i + 2):
+                        if (
+                            o == op
+                            and operand(i)
+                            and not operand(i + 2)
+                            and not taken_left(i)
+                        ):
                             tok = flat_tokens[i][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -316,7 +345,13 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r, o) in todo:
-                    if o == op and operand(i) and operand(i + 2):
+                    if (
+                        o == op
+                        and operand(i)
+                        and operand(i + 2)
+                        and not taken_left(i)
+                        and not taken_right(i + 2)
+                    ):
                         if is_suppressed:
                             result = ParseResults(
                                 expr,
@@ -346,7 +381,12 @@ def infix_notation(
                 for i, (r0, o0) in todo:
                     if o0 == op[0]:
                         r1, o1 = flat_tokens[i + 3]
-                        if o1 == op[1] and all(operand(i + k) for k in (0, 2, 4)):
+                        if (
+                            o1 == op[1]
+                            and all(operand(i + k) for k in (0, 2, 4))
+                            and not taken_left(i)
+                            and not taken_right(i + 4)
+                        ):
                             seq = [
                                 flat_tokens[i][0],
                                 flat_tokens[i + 2][0],
-- 
2.43.0


From 7a9b51b6894329fc06d34433d2b4e0948c07f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 46/94] fix: caseless one_of drops words that are not the same
 word

---
 mo_parsing/infix.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index e38d760..b60d408 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -25,7 +25,12 @@ from mo_parsing.tokens import (
     Empty,
     Log,
 )
-from mo_parsing.utils import regex_range, wrap_parse_action, enlist
+from mo_parsing.utils import (
+    regex_caseless,
+    regex_range,
+    wrap_parse_action,
+    enlist,
+)
 
 Regex = delay_import("mo_parsing.regex.Regex")
 
@@ -66,8 +71,8 @@ def one_of(strs, caseless=False, as_keyword=False):
         )
 
     if caseless:
-        isequal = lambda a, b: a.upper() == b.upper()
-        masks = lambda a, b: b.upper().startswith(a.upper())
+        isequal = lambda a, b: regex_caseless(a) == regex_caseless(b)
+        masks = lambda a, b: len(a) < len(b) and re.match(regex_caseless(a), b)
         parseElementClass = CaselessKeyword if as_keyword else CaselessLiteral
     else:
         isequal = lambda a, b: a == b
-- 
2.43.0


From 52d121c5bf4b30d4d46cae23a76d9ad72076903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 47/94] fix: QuotedString takes part of an escape, or what it
 stands for, for another

---
 mo_parsing/helpers.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 225de4f..dfe7fb9 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -103,7 +103,6 @@ def QuotedString(
         if esc_char:
             excluded |= Literal(esc_char)
             included = esc_char + Char(printables) | included
-            esc_char_replace_pattern = re.escape(esc_char) + "(.)"
 
         prec, pattern = (
             Literal(quote_char) + ((~excluded + anychar) | included)[0:]
@@ -111,31 +110,32 @@ def QuotedString(
         # IMPORTANT: THE end_quote_char IS OUTSIDE THE Regex BECAUSE OF PATHOLOGICAL BACKTRACKING
         output = Combine(Regex(pattern) + Literal(end_quote_char))
 
+    # ESCAPES ARE REPLACED IN ONE PASS, SO NONE IS FOUND IN WHAT REPLACED ANOTHER
+    replacements = {}
+    escapes = []
+    if convert_whitespace_escape:
+        replacements.update({r"\t": "\t", r"\n": "\n", r"\f": "\f", r"\r": "\r"})
+        escapes.append(r"\\[tnfr]")
+    if esc_char:
+        escapes.append(re.escape(esc_char) + ".")
+    if esc_quote:
+        replacements[esc_quote] = end_quote_char
+        escapes.append(re.escape(esc_quote))
+
+    def unescape(found):
+        escape = found.group()
+        if escape in replacements:
+            return replacements[escape]
+        return escape[len(esc_char) :]
+
     def post_parse(tokens):
         ret = tokens[0]
         if unquote_results:
             # strip off quotes
             ret = ret[len(quote_char) : -len(end_quote_char)]
 
-            if isinstance(ret, text):
-                # replace escaped whitespace
-                if "\\" in ret and convert_whitespace_escape:
-                    ws_map = {
-                        r"\t": "\t",
-                        r"\n": "\n",
-                        r"\f": "\f",
-                        r"\r": "\r",
-                    }
-                    for wslit, wschar in ws_map.items():
-                        ret = ret.replace(wslit, wschar)
-
-                # replace escaped characters
-                if esc_char:
-                    ret = re.sub(esc_char_replace_pattern, r"\g<1>", ret)
-
-                # replace escaped quotes
-                if esc_quote:
-                    ret = ret.replace(esc_quote, end_quote_char)
+            if isinstance(ret, text) and escapes:
+                ret = re.sub("|".join(escapes), unescape, ret)
 
         return ParseResults(tokens.type, tokens.start, tokens.end, [ret], [])
 
-- 
2.43.0


From bbf393e74825a1b31cb4fadf9a4c8d3743ad3afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 48/94] fix: QuotedString that is not multiline accepts
 carriage returns

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index dfe7fb9..ed4f97e 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -92,7 +92,7 @@ def QuotedString(
     if multiline:
         anychar = AnyChar()
     else:
-        anychar = Char(exclude="\n")
+        anychar = Char(exclude="\r\n")
         excluded |= Char("\r\n")
 
     with whitespaces.NO_WHITESPACE:
-- 
2.43.0


From 4e769e105eb35ad2143e4ce7a34c312f9bd7f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 49/94] fix: QuotedString ends at an escaped quote that begins
 with another character

---
 mo_parsing/helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index ed4f97e..5d5bfc2 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -99,6 +99,7 @@ def QuotedString(
         included = ~Literal(end_quote_char) + anychar
 
         if esc_quote:
+            excluded |= Literal(esc_quote)
             included = Literal(esc_quote) | included
         if esc_char:
             excluded |= Literal(esc_char)
-- 
2.43.0


From 4dc7bf5835356c8c2168f87085db3270393e235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 50/94] fix: quoted strings take a line break before the
 closing quote for whitespace

---
 mo_parsing/helpers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 5d5bfc2..0166bb7 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -143,18 +143,18 @@ def QuotedString(
     return (output / post_parse).streamline()
 
 
+# THE CLOSING QUOTE IS PART OF THE Regex, SO NO WHITESPACE CAN COME BEFORE IT
+# x[0-9a-fA-F] IS ENOUGH, MORE DIGITS WOULD BE A CAUSE OF PATHOLOGICAL BACKTRACKING
+_dbl_quoted = r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F])))*"(?!")'
+_sgl_quoted = r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F])))*'(?!')"
 dblQuotedString = Combine(
-    #       0         1         2         3         4         5
-    #       012345678901234567890123456789012345678901234567890123456789
-    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*')
-    + '"'
+    Regex(_dbl_quoted)
 ).set_parser_name("string enclosed in double quotes")
 sglQuotedString = Combine(
-    Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
+    Regex(_sgl_quoted)
 ).set_parser_name("string enclosed in single quotes")
 quoted_string = Combine(
-    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*') + '"'
-    | Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
+    Regex(_dbl_quoted) | Regex(_sgl_quoted)
 ).set_parser_name("quoted_string using single or double quotes")
 unicode_string = Combine(
     Literal("u") + quoted_string
-- 
2.43.0


From 52f5474d9bb8615a6e8bc11e291df339d3b07c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 51/94] fix: ipv6_address accepts too many groups, and
 whitespace

---
 mo_parsing/helpers.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 0166bb7..946da0e 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -845,18 +845,16 @@ ipv4_address = Regex(
 ).set_parser_name("IPv4 address")
 
 _ipv6_part = Regex(r"[0-9a-fA-F]{1,4}").set_parser_name("hex_integer")
-_full_ipv6_address = (
-    _ipv6_part + (":" + _ipv6_part) * 7
-).set_parser_name("full IPv6 address")
+_ipv6_parts = r"[0-9a-fA-F]{1,4}(?::[0-9a-fA-F]{1,4})"
+_full_ipv6_address = Regex(_ipv6_parts + "{7}").set_parser_name("full IPv6 address")
 _short_ipv6_address = (
-    Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
-    + "::"
-    + Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
-).set_parser_name("short IPv6 address")
-_short_ipv6_address.add_condition(lambda t: sum(
-    1 for tt in t if _ipv6_part.matches(tt)
-) < 8)
-_mixed_ipv6_address = ("::ffff:" + ipv4_address).set_parser_name("mixed IPv6 address")
+    Regex(f"(?:{_ipv6_parts}{{0,6}})?::(?:{_ipv6_parts}{{0,6}})?")
+    .set_parser_name("short IPv6 address")
+    .add_condition(lambda t: sum(1 for tt in t[0].split(":") if tt) < 8)
+)
+_mixed_ipv6_address = Regex(
+    "::ffff:" + ipv4_address.regex.pattern
+).set_parser_name("mixed IPv6 address")
 ipv6_address = Combine(
     (
         _full_ipv6_address | _mixed_ipv6_address | _short_ipv6_address
-- 
2.43.0


From f9d8b694f2edacebd6495e89b13a5d69434fd0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 52/94] fix: originalTextFor and located_expr take the
 whitespace that follows for part of the match

---
 mo_parsing/helpers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 946da0e..a7d3ba9 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -350,9 +350,9 @@ def originalTextFor(expr, as_string=True):
         ['<i>text</i>']
     """
     loc_marker = Empty() / (lambda _, l: l)
-    match_expr = (
-        loc_marker("_original_start") + Group(expr) + loc_marker("_original_end")
-    )
+    # THE SPACE THAT FOLLOWS IS NOT PART OF THE MATCH
+    content = And([Group(expr), loc_marker("_original_end")], NO_WHITESPACE)
+    match_expr = loc_marker("_original_start") + content
     match_expr = match_expr / extract_text
     return match_expr
 
@@ -397,7 +397,9 @@ def located_expr(expr):
         [[18, 'lkkjj', 23]]
     """
     locator = Empty() / (lambda t, l, s: l)
-    return Group(locator("locn_start") + Group(expr)("value") + locator("locn_end"))
+    # THE SPACE THAT FOLLOWS IS NOT PART OF THE MATCH
+    content = And([Group(expr)("value"), locator("locn_end")], NO_WHITESPACE)
+    return Group(locator("locn_start") + content)
 
 
 def nested_expr(opener="(", closer=")", content=None, ignore_expr=quoted_string):
-- 
2.43.0


From 2b0a5273fcf25047f788e9f7b970ee4d9fe156e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 53/94] fix: ungroup does not ungroup

---
 mo_parsing/helpers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index a7d3ba9..f94472d 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -368,7 +368,17 @@ def ungroup(expr):
     """Helper to undo mo_parsing's default grouping of And expressions,
     even if all but one are non-empty.
     """
-    return TokenConverter(expr) / (lambda t: t[0])
+
+
+    def unwrap(tokens):
+        content = tokens[0]
+        if not isinstance(content, ParseResults):
+            return content
+        return ParseResults(
+            tokens.type, tokens.start, tokens.end, content.tokens, tokens.failures
+        )
+
+    return TokenConverter(expr) / unwrap
 
 
 def located_expr(expr):
-- 
2.43.0


From 34d2388b7635b438b088927f23e012975c9c605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 54/94] fix: matchOnlyAtCol mixes its arguments up

---
 mo_parsing/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index f94472d..30ca551 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -507,9 +507,11 @@ def matchOnlyAtCol(n):
     a specific column in the input text.
     """
 
-    def verify_col(strg, locn, toks):
+    def verify_col(toks, locn, strg):
         if col(locn, strg) != n:
-            raise ParseException(strg, locn, "matched token not at column %d" % n)
+            raise ParseException(
+                toks.type, locn, strg, "matched token not at column %d" % n
+            )
 
     return verify_col
 
-- 
2.43.0


From eff6c7ff41031578d8e7c09fae869d641748c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 55/94] fix: matchPreviousLiteral and matchPreviousExpr never
 see what was matched

---
 mo_parsing/helpers.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 30ca551..742d2bb 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -42,6 +42,7 @@ from mo_parsing.utils import (
     nums,
     printables,
     Log,
+    wrap_parse_action,
 )
 from mo_parsing.whitespaces import Whitespace, STANDARD_WHITESPACE, NO_WHITESPACE
 
@@ -212,6 +213,12 @@ def _flatten(L):
     return ret
 
 
+def _watch(expr, action):
+    # expr MAY BE IN USE ALREADY, SO A COPY WITH THE ACTION IS NO GOOD
+    expr.parse_action.append(wrap_parse_action(action))
+    expr.set_config(callDuringTry=True)
+
+
 def matchPreviousLiteral(expr):
     """
     Helper to define an expression that is indirectly defined from
@@ -230,18 +237,17 @@ def matchPreviousLiteral(expr):
     """
     rep = Forward()
 
+    whitespace = whitespaces.CURRENT
+
     def copyTokenToRepeater(t, l, s):
-        if t:
-            if len(t) == 1:
-                rep << t[0]
-            else:
-                # flatten t tokens
-                tflat = _flatten(t)
-                rep << And(Literal(tt) for tt in tflat)
+        # flatten t tokens
+        tflat = _flatten(t.as_list())
+        if tflat:
+            rep << And([Literal(tt) for tt in tflat], whitespace)
         else:
             rep << Empty()
 
-    expr.add_parse_action(copyTokenToRepeater, callDuringTry=True)
+    _watch(expr, copyTokenToRepeater)
     rep.set_parser_name("(prev) " + text(expr))
     return rep
 
@@ -261,21 +267,17 @@ def matchPreviousExpr(expr):
     compared, so ``"1"`` is compared with ``"10"``. Do *not* use
     with packrat parsing enabled.
     """
-    rep = Forward()
-    e2 = expr.copy()
-    rep <<= e2
+    match_tokens = []
 
     def copyTokenToRepeater(t, l, s):
-        match_tokens = _flatten(t)
-
-        def mustMatchTheseTokens(t, l, s):
-            these_tokens = _flatten(t)
-            if these_tokens != match_tokens:
-                raise ParseException("", 0, "")
+        match_tokens[:] = _flatten(t.as_list())
 
-        rep.add_parse_action(mustMatchTheseTokens, callDuringTry=True)
+    def mustMatchTheseTokens(t, l, s):
+        if _flatten(t.as_list()) != match_tokens:
+            raise ParseException(t.type, l, s, "not what was matched before")
 
-    expr.add_parse_action(copyTokenToRepeater, callDuringTry=True)
+    rep = Forward(expr.add_parse_action(mustMatchTheseTokens, callDuringTry=True))
+    _watch(expr, copyTokenToRepeater)
     rep.set_parser_name("(prev) " + text(expr))
     return rep
 
-- 
2.43.0


From bef6a57a5e532d59c9a8c11dd3d55e075773017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:16 +0000
Subject: [PATCH 56/94] fix: Dict of a single group takes its values for keys

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 98a831d..c269db5 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -805,7 +805,7 @@ class OpenDict(TokenConverter):
 def _dict_post_parse(tokens, loc, string):
     acc = tokens.tokens
     for a in list(acc):
-        for tok in list(a):
+        for tok in [a] if isinstance(a.type, Group) else list(a):
             if not tok:
                 continue
             if is_text(tok):
-- 
2.43.0


From 583b40657d4ae7e062e060c8d741577271444e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:11 +0000
Subject: [PATCH 57/94] fix: replaceHTMLEntity raises AttributeError

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 742d2bb..d046db5 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -794,7 +794,7 @@ commonHTMLEntity = Regex(
 
 def replaceHTMLEntity(t):
     """Helper parser action to replace common HTML entities with their special characters"""
-    return _htmlEntityMap.get(t.entity)
+    return _htmlEntityMap.get(t[0][1:-1])
 
 
 # it's easy to get these comment structures wrong - they're very common, so may as well make them available
-- 
2.43.0


From 24eb3f43b5c05a1338843d581a5f9f31cbf12100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:11 +0000
Subject: [PATCH 58/94] fix: commaSeparatedList loses the spaces inside of its
 items

---
 mo_parsing/helpers.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index d046db5..337d00b 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -817,13 +817,6 @@ with NO_WHITESPACE:
 
     pythonStyleComment = Regex(r"#[^\n]*").set_parser_name("Python style comment")
 
-_commasepitem = Combine(OneOrMore(
-    Word(printables, exclude=",") + Optional(Word(" \t") + ~Literal(",") + ~LineEnd())
-)).set_parser_name("comma_item") / (lambda t: text(t).strip())
-commaSeparatedList = delimited_list(Optional(
-    quoted_string | _commasepitem, default=""
-)).set_parser_name("commaSeparatedList")
-
 convertToInteger = token_map(int)
 convertToFloat = token_map(float)
 
@@ -988,3 +981,4 @@ _commasepitem = (
 comma_separated_list = delimited_list(Optional(
     quoted_string | _commasepitem, default=""
 )).set_parser_name("comma separated list")
+commaSeparatedList = comma_separated_list
-- 
2.43.0


From 7af635efff9fb93e9fddd797e133a2c343b966e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:11 +0000
Subject: [PATCH 59/94] fix: with_attribute misses attributes that have no
 value

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 337d00b..12fc01a 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -617,7 +617,7 @@ def with_attribute(**attr):
 
     def pa(tokens, loc, string):
         for name, expected_value in attr.items():
-            if name not in tokens:
+            if all(name != k for k in tokens.keys()):
                 raise ParseException(
                     tokens.type, loc, string, f"is expecting {name} attribute"
                 )
-- 
2.43.0


From 706f9295b9021cf2a0dade3a83320cd32ef84f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 60/94] fix: a name with empty text for value is taken for
 missing

---
 mo_parsing/results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index b3120b0..6c3db95 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -234,7 +234,8 @@ class ParseResults(object):
     def __contains__(self, item):
         if item is Ellipsis:
             return False
-        return exists(self[item])
+        value = self[item]
+        return is_text(value) or exists(value)
 
     def __add__(self, other):
         # if not isinstance(other, ParseResults):
-- 
2.43.0


From 1dc3e555a6e89cbb472ee61ffc0a27d8230742b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 61/94] fix: actions are told another place, and failures are
 printed, under a Debugger

---
 mo_parsing/debug.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index bb79046..85be637 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -5,6 +5,7 @@ from mo_future import text
 
 from mo_parsing.core import ParserElement
 from mo_parsing.utils import (
+    Log,
     quote,
     lineno,
     col,
@@ -46,7 +47,7 @@ def _debug_parse(debugger):
         loc = start
         try:
             debugger.parse_count += 1
-            debugger.max_stack_depth = stackdepth()
+            debugger.max_stack_depth = max(debugger.max_stack_depth, stackdepth())
             tokens = self.parse_impl(string, loc, do_actions)
         except ParseException as cause:
             self.parser_config.fail_action and self.parser_config.fail_action(
@@ -59,9 +60,16 @@ def _debug_parse(debugger):
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             try:
                 for fn in self.parse_action:
-                    tokens = fn(tokens, start, string)
+                    next_tokens = fn(tokens, tokens.start, string)
+                    if next_tokens.end < tokens.end:
+                        Log.error(
+                            "parse action {{name}} not allowed to roll back the end of parsing",
+                            name=fn.__name__
+                        )
+                    tokens = next_tokens
             except Exception as cause:
-                fail(self, start, string, cause)
+                if not debugger.silent:
+                    fail(self, start, string, cause)
                 raise
         if not debugger.silent:
             match(self, loc, tokens.end, string, tokens)
-- 
2.43.0


From 17e23803e83803ae18ad891a3030fb10f5749d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 62/94] fix: a Forward can not be given one that is not defined
 yet

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index c269db5..dfe8998 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -589,7 +589,7 @@ class Forward(ParserElement):
         if is_forward(self.expr):
             return self.expr << other
 
-        while is_forward(other) and not other.is_annotated():
+        while is_forward(other) and other.expr and not other.is_annotated():
             other = other.expr
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
-- 
2.43.0


From cad82376efaee329acb87c48d6e6a8ff097d1543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 63/94] fix: grammars that begin with a Forward are taken for
 left recursive

---
 mo_parsing/enhancement.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index dfe8998..3fcaec8 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -551,6 +551,7 @@ class Forward(ParserElement):
         "_str",
         "_in_regex",
         "_in_expecting",
+        "_in_min_length",
         "__in_whitespace",
     ]
 
@@ -562,6 +563,7 @@ class Forward(ParserElement):
         self._str = None  # avoid recursion
         self._in_regex = None  # avoid recursion
         self._in_expecting = None  # avoid recursion
+        self._in_min_length = False  # avoid recursion
         self.__in_whitespace = False
         if expr:
             self << whitespaces.CURRENT.normalize(expr)
@@ -572,6 +574,7 @@ class Forward(ParserElement):
         output._str = None
         output._in_regex = None
         output._in_expecting = None
+        output._in_min_length = False
         output.__in_whitespace = False
 
         output.used_by = []
@@ -593,6 +596,7 @@ class Forward(ParserElement):
             other = other.expr
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
+        self.min_length_cache = -1
         self.check_recursion()
         return self
 
@@ -636,13 +640,15 @@ class Forward(ParserElement):
             self._in_expecting = False
 
     def min_length(self):
-        if self.min_length_cache is None and self.expr:
-            self.min_length_cache = 0  # BREAK CYCLE
+        if self._in_min_length or not self.expr:
+            return 0
+        if self.min_length_cache < 0:
+            self._in_min_length = True  # BREAK CYCLE
             try:
-                return self.expr.min_length()
+                self.min_length_cache = self.expr.min_length()
             finally:
-                self.min_length_cache = None
-        return 0
+                self._in_min_length = False
+        return self.min_length_cache
 
     @property
     def whitespace(self):
-- 
2.43.0


From fb40be0360b850173bf6bf963d90bbf3c7f25268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 64/94] fix: left recursion through & is not refused

---
 mo_parsing/expressions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 69e4626..f4c125a 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -772,6 +772,11 @@ class MatchAll(ParseExpression):
         # TODO: MAY BE TOO CONSERVATIVE, WE MAY BE ABLE TO PROVE self CAN CONSUME A CHARACTER
         return min(e.min_length() for e in self.exprs)
 
+    def check_recursion(self, seen=empty_tuple):
+        seen_more = seen + (self,)
+        for e in self.exprs:
+            e.check_recursion(seen_more)
+
     @property
     def whitespace(self):
         return [e.whitespace for e in self.exprs]
-- 
2.43.0


From b288ed91e8628d7e2b0166e17071596b803a0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:02 +0000
Subject: [PATCH 65/94] fix: left recursion through fail_on and ignore is not
 refused

---
 mo_parsing/enhancement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 3fcaec8..ee4c1fb 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -451,6 +451,12 @@ class SkipTo(ParseEnhancement):
         # CAN SKIP ANYTHING
         return {}
 
+    def check_recursion(self, seen=empty_tuple):
+        ParseEnhancement.check_recursion(self, seen)
+        for e in (self.parser_config.fail, self.parser_config.ignore):
+            if e:
+                e.check_recursion(seen + (self,))
+
     def min_length(self):
         return 0
 
-- 
2.43.0


From 7c9add160ad4080198f677f5f5ed5cfed6c88991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 66/94] fix: indented_block loses track of outer blocks, and
 raises AttributeError when it does not match

---
 mo_parsing/helpers.py | 107 ++++++++++++++++++------------------------
 1 file changed, 46 insertions(+), 61 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 12fc01a..de1c163 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -678,17 +678,32 @@ def with_class(classname, namespace=""):
     return with_attribute(**{classattr: classname})
 
 
-_indent_stack = [(1, None, None)]
+_indent_stack = [1]  # COLUMNS OF THE OPEN BLOCKS
 
 
 def reset_stack():
     global _indent_stack
-    _indent_stack = [(1, None, None)]
+    _indent_stack = [1]
 
 
 add_reset_action(reset_stack)
 
 
+class IndentedBlock(Group):
+    """
+    Close the block, no matter how its parsing ended
+    """
+
+    __slots__ = []
+
+    def parse_impl(self, string, start, do_actions=True):
+        depth = len(_indent_stack)
+        try:
+            return Group.parse_impl(self, string, start, do_actions)
+        finally:
+            del _indent_stack[depth:]
+
+
 def indented_block(blockStatementExpr, indent=True):
     """Helper method for defining space-delimited indentation blocks,
     such as those used to define block statements in Python source code.
@@ -706,81 +721,51 @@ def indented_block(blockStatementExpr, indent=True):
 
     A valid block must contain at least one ``blockStatement``.
     """
-    PEER = Forward()
-    DEDENT = Forward()
-
-    def _reset_stack(t=None, i=None, s=None, c=None):
-        old_col, old_peer, old_dedent = _indent_stack.pop()
-        PEER << old_peer
-        DEDENT << old_dedent
-
-    def peer_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
-            cur_col = col(l, s)
-            if cur_col != expected_col:
-                if cur_col > expected_col:
-                    raise ParseException(t.type, l, s, "illegal nesting")
-                raise ParseException(t.type, l, s, "not a peer entry")
-
-        return output
-
-    def dedent_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
-            cur_col = col(l, s)
-            if cur_col not in (i for i, _, _ in _indent_stack):
-                raise ParseException(s, l, "not an unindent")
-            if cur_col < _indent_stack[-1][0]:
-                old_col, old_peer, old_dedent = _indent_stack.pop()
-                PEER << old_peer
-                DEDENT << old_dedent
-
-        return output
+    def peer_stack(t, l, s):
+        if l >= len(s):
+            return
+        cur_col = col(l, s)
+        if cur_col != _indent_stack[-1]:
+            if cur_col > _indent_stack[-1]:
+                raise ParseException(t.type, l, s, "illegal nesting")
+            raise ParseException(t.type, l, s, "not a peer entry")
+
+    def dedent_stack(t, l, s):
+        if l >= len(s):
+            return
+        if col(l, s) not in _indent_stack:
+            raise ParseException(t.type, l, s, "not an unindent")
 
     def indent_stack(t, l, s):
         cur_col = col(l, s)
-        if cur_col > _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
+        if cur_col > _indent_stack[-1]:
+            _indent_stack.append(cur_col)
         else:
             raise ParseException(t.type, l, s, "not a subentry")
 
     def nodent_stack(t, l, s):
         cur_col = col(l, s)
-        if cur_col == _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
+        if cur_col == _indent_stack[-1]:
+            _indent_stack.append(cur_col)
         else:
             raise ParseException(t.type, l, s, "not a subentry")
 
+    def check(action):
+        # INDENTATION MATTERS, EVEN WHEN LOOKING AHEAD
+        return Empty().add_parse_action(action, callDuringTry=True)
+
     ignore_list = whitespaces.CURRENT.ignore_list
     with Whitespace(whitespaces.CURRENT.white_chars) as e:
         e.add_ignore(*ignore_list)
 
         NL = OneOrMore(LineEnd().suppress())
-        INDENT = Empty() / indent_stack
-        NODENT = Empty() / nodent_stack
-
-        if indent:
-            sm_expr = Group(
-                Optional(NL)
-                + INDENT
-                + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
-                + DEDENT
-            )
-        else:
-            sm_expr = Group(
-                Optional(NL)
-                + NODENT
-                + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
-                + DEDENT
-            )
-    return sm_expr.setFailAction(_reset_stack).set_parser_name("indented block")
+        sm_expr = IndentedBlock(
+            Optional(NL)
+            + check(indent_stack if indent else nodent_stack)
+            + OneOrMore(check(peer_stack) + Group(blockStatementExpr) + Optional(NL))
+            + check(dedent_stack)
+        )
+    return sm_expr.set_parser_name("indented block")
 
 
 anyOpenTag, anyCloseTag = makeHTMLTags(
-- 
2.43.0


From 5177bc1d92e0e55f1ee6dfb332509b51e88d56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:36 +0000
Subject: [PATCH 67/94] fix: capture_groups raises AttributeError when the
 pattern looks around, and names groups past the ninth wrong

---
 mo_parsing/regex.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 860d0bc..bb8cfc6 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -304,26 +304,25 @@ class Regex(ParseEnhancement):
         NAMED GROUPS (eg (?P<name>...)
         """
 
-        def group_list(tokens):
+        def group_list(tokens, loc, string):
             start, end = tokens.start, tokens.end
             # RE-MATCH  :(
-            sub_string = tokens.tokens[0]
-            found = tokens.type.regex.match(sub_string)
+            found = tokens.type.regex.match(string, start)
             lookup = dict(reversed(p) for p in found.re.groupindex.items())
             ann = []
             pe = 0
             for i, (s, e) in enumerate(found.regs[1:], start=1):
                 if s == -1:
                     continue  # NOT FOUND
-                g = sub_string[s:e]
+                g = string[s:e]
                 if pe <= s:
                     ann.append(g)
                 pe = max(pe, e)
-                ii = chr(i + ord("0"))
-                ann.append(Annotation(ii, s + start, e + start, [g]))
+                ii = str(i)
+                ann.append(Annotation(ii, s, e, [g]))
                 n = lookup.get(i)
                 if n:
-                    ann.append(Annotation(n, s + start, e + start, [g]))
+                    ann.append(Annotation(n, s, e, [g]))
             return ParseResults(_plain_group, start, end, ann, [])
 
         return self / group_list
@@ -339,8 +338,8 @@ class Regex(ParseEnhancement):
             return output
         else:
             # A FUNCTION
-            def pf(tokens):
-                regex_result = tokens.type.regex.match(tokens.tokens[0])
+            def pf(tokens, loc, string):
+                regex_result = tokens.type.regex.match(string, tokens.start)
                 return replacement(regex_result)
 
             return self / pf
-- 
2.43.0


From 4bceaa97ab12238ccf0e0e5b065edaa7a59b6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 68/94] fix: completing `...` changes the elements, and the
 list, it is completed from

---
 mo_parsing/expressions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index f4c125a..89353cd 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -158,7 +158,7 @@ class And(ParseExpression):
                         )
                 else:
                     tmp.append(expr)
-            exprs[:] = tmp
+            exprs = tmp
         super(And, self).__init__(exprs)
         self.set_config(whitespace=whitespace or whitespaces.CURRENT)
 
@@ -180,6 +180,7 @@ class And(ParseExpression):
             for e in exprs[:-1]
         ):
             same = False
+            exprs = list(exprs)
             for i, e in enumerate(exprs[:-1]):
                 if (
                     isinstance(e, ParseExpression)
@@ -187,8 +188,9 @@ class And(ParseExpression):
                     and isinstance(e.exprs[-1], _PendingSkip)
                 ):
                     ee = e.exprs[-1] + exprs[i + 1]
-                    e.exprs[-1] = ee
-                    e.streamlined = False
+                    exprs[i] = e.copy()
+                    exprs[i].exprs = e.exprs[:-1] + [ee]
+                    exprs[i].streamlined = False
                     exprs[i + 1] = None
 
         # streamline INDIVIDUAL EXPRESSIONS
-- 
2.43.0


From 6d49fc43f65a4304dbbcbfa343b57fa154030130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 69/94] fix: `...` in And() skips to the last part of a
 sequence, not the sequence

---
 mo_parsing/expressions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 89353cd..0eba44d 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -150,8 +150,7 @@ class And(ParseExpression):
             for i, expr in enumerate(exprs):
                 if expr is Ellipsis:
                     if i < len(exprs) - 1:
-                        skipto_arg = (Empty() + exprs[i + 1]).exprs[-1]
-                        tmp.append(SkipTo(skipto_arg)("_skipped"))
+                        tmp.append(SkipTo(exprs[i + 1])("_skipped"))
                     else:
                         raise Exception(
                             "cannot construct And with sequence ending in ..."
-- 
2.43.0


From 99c19c370ea877fb1f2ee4f1ec7b47743747e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 70/94] fix: replace_with fails on names in the replacement

---
 mo_parsing/core.py  | 4 ++--
 mo_parsing/regex.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 5c89a9f..ef862f4 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -531,9 +531,9 @@ class ParserElement(object):
 
         def replacer(tokens):
             acc = []
-            for s, n in zip(parts, parts[1:]):
+            for s, n in zip(parts[::2], parts[1::2]):
                 acc.append(s)
-                acc.append(text(tokens[n]))
+                acc.append(text(tokens[n[0]]))
             acc.append(parts[-1])
             return "".join(acc)
 
diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index bb8cfc6..21a9d21 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -270,7 +270,7 @@ regex << (
 regex = regex.finalize()
 
 parameters = (
-    "\\" + Char(alphanums)("name") | "\\g<" + Word(alphas, alphanums)("name") + ">"
+    "\\g<" + Word(alphanums + "_")("name") + ">" | "\\" + Char(alphanums)("name")
 ) / (lambda t: t["name"])
 NO_WHITESPACE.release()
 
-- 
2.43.0


From 9b38b43b5a754194f40f0c3b1fd051bdc7215d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 71/94] fix: IndexError instead of TypeError for what is not a
 multiplier

---
 mo_parsing/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index ef862f4..7a95002 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -603,9 +603,8 @@ class ParserElement(object):
             min_elements = 0
         elif not isinstance(min_elements, int):
             raise TypeError(
-                "cannot multiply 'ParserElement' and ('%s', '%s') objects",
-                type(other[0]),
-                type(other[1]),
+                "cannot multiply 'ParserElement' and ('%s', '%s') objects"
+                % (type(min_elements), type(max_elements))
             )
         elif min_elements < 0:
             raise ValueError("cannot multiply ParserElement by negative value")
@@ -614,9 +613,8 @@ class ParserElement(object):
             max_elements = MAX_INT
         elif not isinstance(max_elements, int) or max_elements < min_elements:
             raise TypeError(
-                "cannot multiply 'ParserElement' and ('%s', '%s') objects",
-                type(other[0]),
-                type(other[1]),
+                "cannot multiply 'ParserElement' and ('%s', '%s') objects"
+                % (type(min_elements), type(max_elements))
             )
 
         ret = Many(
-- 
2.43.0


From cf2475b6781f050dcac852f280f7aefae85d5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 72/94] fix: elements are marked streamlined when it is their
 copy that is

---
 mo_parsing/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 0eba44d..e9c4631 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -81,7 +81,6 @@ class ParseExpression(ParserElement):
     def streamline(self):
         if self.streamlined:
             return self
-        self.streamlined = True
 
         # collapse nested And's of the form And(And(And(a, b), c), d) to And(a, b, c, d)
         # but only if there are no parse actions or resultsNames on the nested And's
@@ -107,6 +106,7 @@ class ParseExpression(ParserElement):
                 acc.append(f)
 
         if same:
+            self.streamlined = True
             return self
 
         output = self.copy()
-- 
2.43.0


From 9b56634e359edb3e82a1480b17f8caae8199c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 73/94] fix: an error stop (-) does not stop the parser from
 trying alternatives

---
 mo_parsing/core.py        | 11 ++++++++++-
 mo_parsing/debug.py       |  8 ++++++++
 mo_parsing/exceptions.py  | 18 ++++++++++++++++++
 mo_parsing/expressions.py | 19 ++++++++++++++++---
 4 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 7a95002..2504953 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -8,7 +8,7 @@ from mo_future import text, first
 from mo_imports import export, expect
 
 from mo_parsing import whitespaces
-from mo_parsing.exceptions import ParseException
+from mo_parsing.exceptions import ParseException, ErrorStop
 from mo_parsing.results import ParseResults
 from mo_parsing.utils import Log, MAX_INT, wrap_parse_action, empty_tuple
 
@@ -171,6 +171,8 @@ class Parser(object):
                 return tokens.tokens[0]
         except ParseException as cause:
             raise cause.best_cause from None
+        except ErrorStop as stop:
+            raise stop.best_cause from None
 
     @entrypoint
     def scan_string(self, string, max_matches=MAX_INT, overlap=False):
@@ -197,6 +199,8 @@ class Parser(object):
                 tokens = self.element._parse(string, start)
             except ParseException:
                 end = start + 1
+            except ErrorStop as stop:
+                raise stop.best_cause from None
             else:
                 matches += 1
                 yield tokens, tokens.start, tokens.end
@@ -472,6 +476,11 @@ class ParserElement(object):
                 self, start, string, cause
             )
             raise ParseException(self, start, string, cause=cause) from None
+        except ErrorStop as stop:
+            self.parser_config.fail_action and self.parser_config.fail_action(
+                self, start, string, stop.cause
+            )
+            raise
 
         if do_actions or self.parser_config.callDuringTry:
             for fn in self.parse_action:
diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index 85be637..6785d8a 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -4,6 +4,7 @@ import sys
 from mo_future import text
 
 from mo_parsing.core import ParserElement
+from mo_parsing.exceptions import ErrorStop
 from mo_parsing.utils import (
     Log,
     quote,
@@ -56,6 +57,13 @@ def _debug_parse(debugger):
             if not debugger.silent:
                 fail(self, start, string, cause)
             raise ParseException(self, start, string, cause=cause) from None
+        except ErrorStop as stop:
+            self.parser_config.fail_action and self.parser_config.fail_action(
+                self, start, string, stop.cause
+            )
+            if not debugger.silent:
+                fail(self, start, string, stop.cause)
+            raise
 
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             try:
diff --git a/mo_parsing/exceptions.py b/mo_parsing/exceptions.py
index 567c5f2..5039d97 100644
--- a/mo_parsing/exceptions.py
+++ b/mo_parsing/exceptions.py
@@ -170,6 +170,24 @@ class ParseSyntaxException(ParseException):
     __slots__ = []
 
 
+class ErrorStop(Exception):
+    """
+    carries a ParseSyntaxException past all the alternatives,
+    from the `And` that found it to the caller of the parser
+    """
+
+    def __init__(self, cause):
+        Exception.__init__(self, cause)
+        self.cause = cause
+
+    @property
+    def best_cause(self):
+        best = self.cause.best_cause
+        return ParseSyntaxException(
+            best.expr, best.start, best.string, msg=best._msg, cause=best.unsorted_cause
+        )
+
+
 class RecursiveGrammarException(Exception):
     """exception thrown by `ParserElement.validate` if the
     grammar could be improperly recursive
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index e9c4631..0a3540d 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -12,6 +12,7 @@ from mo_parsing.enhancement import Optional, SkipTo, Many, LookBehind
 from mo_parsing.exceptions import (
     ParseException,
     ParseSyntaxException,
+    ErrorStop,
 )
 from mo_parsing.results import ParseResults
 from mo_parsing.tokens import Empty, NoMatch
@@ -275,9 +276,9 @@ class And(ParseExpression):
             except ParseException as pe:
                 failures.append(pe)
                 if encountered_syntax_error:
-                    raise ParseSyntaxException(
+                    raise ErrorStop(ParseSyntaxException(
                         pe.expr, pe.loc, pe.string, cause=failures
-                    ) from None
+                    )) from None
                 else:
                     raise ParseException(
                         pe.expr, pe.loc, pe.string, cause=failures
@@ -380,6 +381,7 @@ class Or(ParseExpression):
     def parse_impl(self, string, start, do_actions=True):
         failures = []
         matches = []
+        stopped = False
 
         for e in self.alternate:
             if isinstance(e, Fast):
@@ -389,13 +391,24 @@ class Or(ParseExpression):
                         matches.append((end, ee))
                     except ParseException as err:
                         failures.append(err)
+                    except ErrorStop as stop:
+                        stopped = True
+                        failures.append(stop.cause)
             else:
                 try:
                     end = e._parse(string, start).end
                     matches.append((end, e))
                 except ParseException as err:
                     failures.append(err)
-
+                except ErrorStop as stop:
+                    stopped = True
+                    failures.append(stop.cause)
+
+        if stopped and not matches:
+            # ALL ALTERNATIVES WERE TRIED
+            raise ErrorStop(ParseSyntaxException(
+                self, start, string, cause=failures
+            ))
         if not matches:
             raise ParseException(
                 self,
-- 
2.43.0


From 1d5a57728c583d392351e5400bbaf311cdc69447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:09 +0000
Subject: [PATCH 74/94] fix: MatchAll given one element twice treats them as
 two elements

---
 mo_parsing/expressions.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 0a3540d..bb07fd3 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -799,12 +799,15 @@ class MatchAll(ParseExpression):
         end = start
         match_order = []
         todo = list(zip(
-            self.exprs, self.parser_config.min_match, self.parser_config.max_match
+            range(len(self.exprs)),
+            self.exprs,
+            self.parser_config.min_match,
+            self.parser_config.max_match,
         ))
         count = [0] * len(self.exprs)
         failures = []
         while todo:
-            for i, (c, (e, mi, ma)) in enumerate(zip(count, todo)):
+            for i, (c, (k, e, mi, ma)) in enumerate(zip(count, todo)):
                 try:
                     result = e._parse(string, end)
                     failures.extend(result.failures)
@@ -816,14 +819,14 @@ class MatchAll(ParseExpression):
                     if c2 >= ma:
                         del todo[i]
                         del count[i]
-                    match_order.append(e)
+                    match_order.append(k)
                     break
                 except ParseException as pe:
                     failures.append(pe)
             else:
                 break
 
-        for c, (e, mi, ma) in zip(count, todo):
+        for c, (_, e, mi, ma) in zip(count, todo):
             if c < mi:
                 raise ParseException(
                     self,
@@ -833,11 +836,12 @@ class MatchAll(ParseExpression):
                     cause=failures,
                 )
 
-        found = set(id(m) for m in match_order)
+        # BY POSITION, BECAUSE THE SAME ELEMENT MAY BE GIVEN MORE THAN ONCE
+        found = set(match_order)
         missing = [
             e
-            for e, mi in zip(self.exprs, self.parser_config.min_match)
-            if id(e) not in found and mi > 0
+            for k, (e, mi) in enumerate(zip(self.exprs, self.parser_config.min_match))
+            if k not in found and mi > 0
         ]
         if missing:
             missing = ", ".join(text(e) for e in missing)
@@ -850,7 +854,7 @@ class MatchAll(ParseExpression):
             )
 
         # add any unmatched Optionals, in case they have default values defined
-        match_order += [e for e in self.exprs if id(e) not in found]
+        match_order += [k for k, _ in enumerate(self.exprs) if k not in found]
 
         if not match_order:
             return ParseResults(self, start, start, [], failures)
@@ -858,8 +862,8 @@ class MatchAll(ParseExpression):
         # TODO: CAN WE AVOID THIS RE-PARSE?
         results = []
         end = start
-        for e in match_order:
-            result = e._parse(string, end, do_actions)
+        for k in match_order:
+            result = self.exprs[k]._parse(string, end, do_actions)
             end = self.parser_config.whitespace.skip(string, result.end)
             results.append(result)
 
-- 
2.43.0


From 86e4f2d36667c446738ff52aa20bd59146f40601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:09 +0000
Subject: [PATCH 75/94] fix: a result is not equal to a longer list that ends
 in None

---
 mo_parsing/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 6c3db95..5adfa74 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -2,7 +2,7 @@
 import inspect
 
 from mo_dots import is_many, is_null, register_data, register_list, exists
-from mo_future import is_text, text, zip_longest, MutableMapping
+from mo_future import is_text, text, MutableMapping
 from mo_imports import expect, export
 from mo_parsing.exceptions import sort_causes
 
@@ -129,7 +129,8 @@ class ParseResults(object):
             except Exception as e:
                 return False
         elif is_many(other):
-            return all(s == o for s, o in zip_longest(self, other))
+            other = list(other)
+            return len(self) == len(other) and all(s == o for s, o in zip(self, other))
         elif self.length() == 1:
             return self[0] == other
         elif not self:
-- 
2.43.0


From e5b915b4eb546618c323f4727b046624335fd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:09 +0000
Subject: [PATCH 76/94] fix: reversed() of a result gives its items

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 5adfa74..6ef3d87 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -183,7 +183,7 @@ class ParseResults(object):
             self[key] = NO_RESULTS
 
     def __reversed__(self):
-        return reversed(self.tokens)
+        return reversed(list(self))
 
     def value(self):
         """
-- 
2.43.0


From 4a9d3bd7237fdbffd1692264f8d9e2e9dbab3e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:45 +0000
Subject: [PATCH 77/94] fix: actions of a Forward run twice on its copies

---
 mo_parsing/enhancement.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index ee4c1fb..79b6e3a 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -577,6 +577,7 @@ class Forward(ParserElement):
     def copy(self):
         output = ParserElement.copy(self)
         output.expr = self
+        output.parse_action = []  # self RUNS ITS OWN
         output._str = None
         output._in_regex = None
         output._in_expecting = None
-- 
2.43.0


From 43a59faef81fa2dda5ec4ce61f018d585cba7849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 78/94] fix: a copy of a copy of a Forward is named twice, and
 keeps its cleared actions

---
 mo_parsing/enhancement.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 79b6e3a..3064ec1 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -576,8 +576,11 @@ class Forward(ParserElement):
 
     def copy(self):
         output = ParserElement.copy(self)
-        output.expr = self
-        output.parse_action = []  # self RUNS ITS OWN
+        if is_forward(self.expr):
+            output.expr = self.expr
+        else:
+            output.expr = self
+            output.parse_action = []  # self RUNS ITS OWN
         output._str = None
         output._in_regex = None
         output._in_expecting = None
-- 
2.43.0


From 925caaf081a8eeadbec4bab4eccd09fbd46bf863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 79/94] fix: an action that returns a value on a named Forward
 loses the name

---
 mo_parsing/results.py | 11 +++++++++++
 mo_parsing/utils.py   | 12 +++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 6ef3d87..7a64f0b 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -46,6 +46,10 @@ class ParseResults(object):
         else:
             self.failures = failures
 
+    def with_tokens(self, tokens):
+        # SAME MATCH, OTHER TOKENS
+        return ParseResults(self.type, self.start, self.end, tokens, self.failures)
+
     def _get_item_by_name(self, name):
         # return open list of values for given name
         for tok in self.tokens:
@@ -359,6 +363,13 @@ class ForwardResults(ParseResults):
     def type(self):
         return self.tokens[0].type
 
+    def with_tokens(self, tokens):
+        # KEEP THE NAME OF THE Forward
+        inner = self.tokens[0].with_tokens(tokens)
+        return ForwardResults(
+            self._type, self.start, self.end, [inner], self.failures
+        )
+
     def __getitem__(self, item):
         if self.tokens[0].name and is_text(item):
             return ParseResults.__getitem__(self, item)
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index e227052..9a607ea 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -332,7 +332,9 @@ def wrap_parse_action(func, condition=False):
             args = token, index, string
             result = func(*args[:num_args])
             if condition:
-                result = [bool(result)]
+                return ParseResults(
+                    token.type, token.start, token.end, [bool(result)], token.failures
+                )
             if result is None:
                 return token
             elif isinstance(result, ParseResults):
@@ -342,13 +344,9 @@ def wrap_parse_action(func, condition=False):
                 return result
 
             if isinstance(result, (list, tuple)):
-                return ParseResults(
-                    token.type, token.start, token.end, result, token.failures
-                )
+                return token.with_tokens(result)
             else:
-                return ParseResults(
-                    token.type, token.start, token.end, [result], token.failures
-                )
+                return token.with_tokens([result])
         except ParseException as pe:
             raise
         except Exception as cause:
-- 
2.43.0


From e4d7f83dfe32a1165a77e65a40f1d92c4adba73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 80/94] fix: naming in a result changes the default of its
 Optional, or what its action returned

---
 mo_parsing/enhancement.py | 2 +-
 mo_parsing/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 3064ec1..5469d5f 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -411,7 +411,7 @@ class Optional(Many):
             results = self.expr._parse(string, start, do_actions)
             return ParseResults(self, results.start, results.end, [results], results.failures)
         except ParseException as pe:
-            return ParseResults(self, start, start, self.parser_config.default_value, [pe])
+            return ParseResults(self, start, start, list(self.parser_config.default_value), [pe])
 
     def __str__(self):
         if self.parser_name:
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 9a607ea..2352886 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -344,7 +344,7 @@ def wrap_parse_action(func, condition=False):
                 return result
 
             if isinstance(result, (list, tuple)):
-                return token.with_tokens(result)
+                return token.with_tokens(list(result))
             else:
                 return token.with_tokens([result])
         except ParseException as pe:
-- 
2.43.0


From 1e182b61a20b5a0ccc91fd4109e6938607319b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 81/94] fix: names can not be set in the results of
 infix_notation

---
 mo_parsing/infix.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index b60d408..4e3e3dd 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -311,11 +311,11 @@ def infix_notation(
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
-                                    expr, tok.start, tok.end, (tok,), []
+                                    expr, tok.start, tok.end, [tok], []
                                 )
                             else:
                                 result = ParseResults(
-                                    expr, r.start, tok.end, (r, tok), []
+                                    expr, r.start, tok.end, [r, tok], []
                                 )
                             break
                     else:
@@ -334,11 +334,11 @@ def infix_notation(
                             tok = flat_tokens[i][0]
                             if is_suppressed:
                                 result = ParseResults(
-                                    expr, tok.start, tok.end, (tok,), []
+                                    expr, tok.start, tok.end, [tok], []
                                 )
                             else:
                                 result = ParseResults(
-                                    expr, tok.start, r.end, (tok, r,), []
+                                    expr, tok.start, r.end, [tok, r], []
                                 )
                             break
                     else:
@@ -362,7 +362,7 @@ def infix_notation(
                                 expr,
                                 flat_tokens[i][0].start,
                                 flat_tokens[i + 2][0].end,
-                                (flat_tokens[i][0], flat_tokens[i + 2][0]),
+                                [flat_tokens[i][0], flat_tokens[i + 2][0]],
                                 [],
                             )
                         else:
@@ -370,7 +370,7 @@ def infix_notation(
                                 expr,
                                 flat_tokens[i][0].start,
                                 flat_tokens[i + 2][0].end,
-                                (flat_tokens[i][0], r, flat_tokens[i + 2][0]),
+                                [flat_tokens[i][0], r, flat_tokens[i + 2][0]],
                                 [],
                             )
                         break
-- 
2.43.0


From 11d46d123024a4c5efc72cffb19d0ece5527a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 82/94] fix: a name can not be set to a tuple

---
 mo_parsing/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 7a64f0b..4f75b3f 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -98,7 +98,7 @@ class ParseResults(object):
         elif isinstance(v, ParseResults):
             v = Annotation(k, v.start, v.end, v.tokens)
         else:
-            v = Annotation(k, -1, 0, enlist(v))
+            v = Annotation(k, -1, 0, list(enlist(v)))
 
         for i, tok in enumerate(self.tokens):
             if isinstance(tok, ParseResults):
-- 
2.43.0


From ca3cd9b8a2f7d3efb2c50bde80eecbe96b5a658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 83/94] fix: setting a name in the result of an absent name
 sets it in all of them

---
 mo_parsing/results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 4f75b3f..1a8e34f 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -113,6 +113,8 @@ class ParseResults(object):
                 tok.__setitem__(k, NO_RESULTS)  # ERASE ALL CHILDREN
 
         if v is not NO_RESULTS:
+            if self is NO_RESULTS:
+                Log.error("can not set a name of no results")
             tokens = self.tokens
             if isinstance(self, ForwardResults):
                 tokens = tokens[0].tokens
-- 
2.43.0


From ceecd5ed882c4bc6f6fc8f9a98d1157181e27d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:08 +0000
Subject: [PATCH 84/94] fix: a name given to originalTextFor is lost

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index de1c163..d1b0d87 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -363,7 +363,7 @@ def extract_text(tokens, loc, string):
     start, d, end = tokens
     content = string[start:end]
     annotations = [Annotation(k, v[0].start, v[-1].end, v) for k, v in d.items()]
-    return ParseResults(d.type, start, end, [content] + annotations, [])
+    return ParseResults(d.type(tokens.name), start, end, [content] + annotations, [])
 
 
 def ungroup(expr):
-- 
2.43.0


From 83cb6b6c77ed3d3da9c1a47c17213cbfbceede8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:47 +0000
Subject: [PATCH 85/94] fix: a copy of what a Forward to a group matched is
 nested once more, and so is a sum

---
 mo_parsing/results.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 1a8e34f..bbd9c19 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -252,7 +252,7 @@ class ParseResults(object):
             Group(self.type + other.type),
             self.start,
             other.end,
-            self.tokens + other.tokens,
+            _own_tokens(self) + _own_tokens(other),
             self.failures + other.failures,
         )
 
@@ -372,6 +372,12 @@ class ForwardResults(ParseResults):
             self._type, self.start, self.end, [inner], self.failures
         )
 
+    def __copy__(self):
+        inner = self.tokens[0].__copy__()
+        return ForwardResults(
+            self._type, self.start, self.end, [inner], self.failures
+        )
+
     def __getitem__(self, item):
         if self.tokens[0].name and is_text(item):
             return ParseResults.__getitem__(self, item)
@@ -396,6 +402,15 @@ class ForwardResults(ParseResults):
             yield from self.tokens[0].items()
 
 
+def _own_tokens(result):
+    """
+    A Forward TO A GROUP IS THAT GROUP
+    """
+    while isinstance(result, ForwardResults) and isinstance(result.type, Group):
+        result = result.tokens[0]
+    return result.tokens
+
+
 def _flatten(token):
     """
     FLATTEN SOME, LEAVING ANY IMPORTANT FEATURES (names or groups)
-- 
2.43.0


From bfece3ef4bee800592500a1794155ba704c1ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:53 +0000
Subject: [PATCH 86/94] fix: counted_array skips by the rules in effect while
 parsing, not those it was made with

---
 mo_parsing/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index d1b0d87..5ea1e90 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -190,9 +190,13 @@ def counted_array(expr, int_expr=None):
 
     array_expr = Forward()
 
+    # THE RULES IN EFFECT NOW, NOT THOSE AT TIME OF PARSING
+    whitespace = whitespaces.CURRENT
+    item = whitespace.normalize(expr)
+
     def countFieldParseAction(t, l, s):
         n = t[0]
-        array_expr << Group(Many(expr, exact=n, whitespace=whitespaces.CURRENT))
+        array_expr << Group(Many(item, exact=n, whitespace=whitespace))
         return []
 
     int_expr = (
-- 
2.43.0


From 566862c4eb7cac0ce182fc0fcfa109dcaba4eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 87/94] fix: a top-level MatchAll skips around itself by the
 rules in effect while parsing

---
 mo_parsing/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index bb07fd3..ec1a88a 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -793,7 +793,7 @@ class MatchAll(ParseExpression):
 
     @property
     def whitespace(self):
-        return [e.whitespace for e in self.exprs]
+        return self.parser_config.whitespace
 
     def parse_impl(self, string, start, do_actions=True):
         end = start
-- 
2.43.0


From 43feb13fe3652c22d84b0c288672796531e44123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:52 +0000
Subject: [PATCH 88/94] fix: an action that returns the tokens it was given
 doubles the list of failures

---
 mo_parsing/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 2352886..8c29f85 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -340,7 +340,11 @@ def wrap_parse_action(func, condition=False):
             elif isinstance(result, ParseResults):
                 if (result.start < token.start) or (token.end < result.end):
                     Log.error("Tokens must be ordered")
-                result.failures.extend(token.failures)
+                # result MAY BE token, OR PART OF IT
+                known = set(id(f) for f in result.failures)
+                result.failures.extend(
+                    [f for f in token.failures if id(f) not in known]
+                )
                 return result
 
             if isinstance(result, (list, tuple)):
-- 
2.43.0


From f1b96acd526fdb59fdc41dc2b2a544247e267683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:49 +0000
Subject: [PATCH 89/94] fix: a MatchAll of nothing can not be used

---
 mo_parsing/expressions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index ec1a88a..88dfc21 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -776,6 +776,8 @@ class MatchAll(ParseExpression):
         if self.streamlined:
             return self
         output = ParseExpression.streamline(self)
+        if not isinstance(output, MatchAll):
+            return output
         output.set_config(
             min_match=[_all_limits(e)[0] for e in output.exprs],
             max_match=[_all_limits(e)[1] for e in output.exprs],
@@ -784,7 +786,7 @@ class MatchAll(ParseExpression):
 
     def _min_length(self):
         # TODO: MAY BE TOO CONSERVATIVE, WE MAY BE ABLE TO PROVE self CAN CONSUME A CHARACTER
-        return min(e.min_length() for e in self.exprs)
+        return min((e.min_length() for e in self.exprs), default=0)
 
     def check_recursion(self, seen=empty_tuple):
         seen_more = seen + (self,)
-- 
2.43.0


From b8d2e42a2c581346bba151e232578db701e75da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:49 +0000
Subject: [PATCH 90/94] fix: the name and the actions of an And of nothing are
 lost

---
 mo_parsing/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 88dfc21..705122d 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -165,7 +165,7 @@ class And(ParseExpression):
     def streamline(self):
         if self.streamlined:
             return self
-        if not self.exprs:
+        if not self.exprs and not self.is_annotated():
             return Empty(self.parser_name)
         if len(self.exprs) == 1 and not self.is_annotated():
             return self.exprs[0].streamline()
-- 
2.43.0


From 8d53f008d52aae5c390761147ded03e7ed702988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:23 +0000
Subject: [PATCH 91/94] fix: counted_array renames the element it is given for
 the count

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 5ea1e90..33a5d1d 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -201,8 +201,8 @@ def counted_array(expr, int_expr=None):
 
     int_expr = (
         int_expr
-        .set_parser_name("array_len")
         .add_parse_action(countFieldParseAction, callDuringTry=True)
+        .set_parser_name("array_len")
     )
     return (int_expr + array_expr).set_parser_name("(len) " + text(expr) + "...")
 
-- 
2.43.0


From 66d6ccd30e661870027afd3145797bd2f71d885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:23 +0000
Subject: [PATCH 92/94] fix: a MatchAll with an absent optional part ends
 behind the whitespace

---
 mo_parsing/expressions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 705122d..2617b36 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -863,13 +863,16 @@ class MatchAll(ParseExpression):
 
         # TODO: CAN WE AVOID THIS RE-PARSE?
         results = []
-        end = start
+        end = last = start
         for k in match_order:
             result = self.exprs[k]._parse(string, end, do_actions)
+            if result.end > end:
+                # WHITESPACE IS ONLY FOR WHAT COMES AFTER
+                last = result.end
             end = self.parser_config.whitespace.skip(string, result.end)
             results.append(result)
 
-        return ParseResults(self, results[0].start, results[-1].end, results, failures)
+        return ParseResults(self, results[0].start, last, results, failures)
 
     def __str__(self):
         if self.parser_name:
-- 
2.43.0


From bf358f62451e4d73a76ad12496838326920b8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:23 +0000
Subject: [PATCH 93/94] fix: failures of a repetition that makes no progress
 are lost

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 5469d5f..a5620f8 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -255,11 +255,11 @@ class Many(ParseEnhancement):
                         else:
                             raise ParseException(self, end, string, msg="found stopper too soon")
                 result = self.expr._parse(string, index, do_actions)
+                failures.extend(result.failures)
                 if result.end == result.start:
                     break  # NO PROGRESS, TRYING AGAIN WILL NOT HELP
                 end = result.end
                 acc.append(result)
-                failures.extend(result.failures)
                 count += 1
 
         except ParseException as cause:
-- 
2.43.0


From 59e9e880465cdfb6201db0fc3b8ce93c90def0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:23 +0000
Subject: [PATCH 94/94] fix: failures of the alternatives an Or did not choose
 are lost

---
 mo_parsing/expressions.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 2617b36..ffc386f 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -387,8 +387,9 @@ class Or(ParseExpression):
             if isinstance(e, Fast):
                 for ee in e.get_short_list(string, start):
                     try:
-                        end = ee._parse(string, start).end
-                        matches.append((end, ee))
+                        result = ee._parse(string, start)
+                        failures.extend(result.failures)
+                        matches.append((result.end, ee))
                     except ParseException as err:
                         failures.append(err)
                     except ErrorStop as stop:
@@ -396,8 +397,9 @@ class Or(ParseExpression):
                         failures.append(stop.cause)
             else:
                 try:
-                    end = e._parse(string, start).end
-                    matches.append((end, e))
+                    result = e._parse(string, start)
+                    failures.extend(result.failures)
+                    matches.append((result.end, e))
                 except ParseException as err:
                     failures.append(err)
                 except ErrorStop as stop:
@@ -420,7 +422,6 @@ class Or(ParseExpression):
         if len(matches) == 1:
             _, expr = matches[0]
             result = expr._parse(string, start, do_actions)
-            failures.extend(result.failures)
             return ParseResults(self, result.start, result.end, [result], failures)
 
         if matches:
@@ -433,7 +434,6 @@ class Or(ParseExpression):
                 # alternative, so the first match will be the best match
                 _, expr = matches[0]
                 result = expr._parse(string, start, do_actions)
-                failures.extend(result.failures)
                 return ParseResults(self, result.start, result.end, [result], failures)
 
             longest = -1, None
@@ -447,7 +447,6 @@ class Or(ParseExpression):
                 except ParseException as err:
                     failures.append(err)
                 else:
-                    failures.extend(result.failures)
                     if result.end >= loc:
                         return ParseResults(
                             self, result.start, result.end, [result], failures
-- 
2.43.0

