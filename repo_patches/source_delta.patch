From 7060c63e46d6bacffa95883a9dcbe5c32c44325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 001/100] fix: insert dynamic path values literally

Values with backslashes were processed as re.sub templates: "\n" became a
newline, "\g<0>" the placeholder, and cached or non-string values could raise.
---
 ttp/ttp.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c96f224..fa231ed 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3213,21 +3213,17 @@ class _results_class:
                 for m in match:
                     pattern = r"{{\s*" + m + r"\s*}}"
                     if m in self.record["result"]:
-                        self.dyn_path_cache[m] = self.record["result"][m]
                         repl = str(self.record["result"].pop(m))
-                        # try re replacement first
-                        try:
-                            path_item = re.sub(pattern, repl, path_item)
-                        # might fail if match contains '\', try string replace
-                        except re.error:
-                            path_item = re.sub(pattern, "__replace_me__", path_item)
-                            path_item = path_item.replace("__replace_me__", repl)
+                        self.dyn_path_cache[m] = repl
                     elif m in self.dyn_path_cache:
-                        path_item = re.sub(pattern, self.dyn_path_cache[m], path_item)
+                        repl = self.dyn_path_cache[m]
                     elif m in self.variables:
-                        path_item = re.sub(pattern, str(self.variables[m]), path_item)
+                        repl = str(self.variables[m])
                     else:
                         return False
+                    # use function as a replacement for re.sub to insert value
+                    # as is, without processing backslash escapes in it
+                    path_item = re.sub(pattern, lambda _, repl=repl: repl, path_item)
             path[index] = (
                 path_item,
                 asterisk_count * "*",
-- 
2.43.0


From 7bcf18c8b60652fdff386f9317bc86cf977a7819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 002/100] fix: convert path keys to integers in value_to_list

With dynamic_path_key_to_int a second result under the same integer key
replaced the whole results branch with None.
---
 ttp/ttp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index fa231ed..c88fec2 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2899,6 +2899,9 @@ class _results_class:
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
                     name = PATH[0][0]
+            if self._ttp_["dynamic_path_key_to_int"]:
+                # convert key to integer if it is integer
+                name = int(name) if name.isdigit() else name
             if isinstance(DATA, dict):
                 if name in DATA:
                     DATA[name] = self.value_to_list(DATA[name], PATH[1:], result)
@@ -2971,6 +2974,8 @@ class _results_class:
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
                     name = PATH[0][0]
+                    if self._ttp_["dynamic_path_key_to_int"]:
+                        name = int(name) if name.isdigit() else name
             if name in ELEMENT:  # check if first element of the list is in ELEMENT
                 return self.dict_by_path(
                     PATH[1:], ELEMENT[name]
-- 
2.43.0


From cda299d7e766225617cbb1746947864369a25e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 003/100] fix: skip null path item when forming new results
 branch

Null path item following a path item that is not in results yet was saved
in results as "_" key.
---
 ttp/ttp.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c88fec2..6a27082 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2931,11 +2931,8 @@ class _results_class:
         """
         if KEYS:  # check if list is not empty:
             # add support for null path
-            if KEYS[0] == "_":
-                if len(KEYS) == 1:
-                    return {}
-                else:
-                    _ = KEYS.pop(0)
+            if KEYS[0][0] == "_":
+                return self.list_to_dict_fwd(KEYS[1:])
             name = KEYS[0][0]
             asterisk_count = KEYS[0][1]
             if self._ttp_["dynamic_path_key_to_int"]:
-- 
2.43.0


From 562e54d11b05276b7b8f1d52eac8ce4d82ac5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 004/100] fix: load group tags that are not separated by
 whitespace

Group tag with no text, or with no text after it, crashed template loading.
---
 ttp/ttp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6a27082..4369a40 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1693,7 +1693,7 @@ class _group_class:
         # extract data:
         self.get_attributes(element.attrib)
         self.set_anonymous_path()
-        self.get_regexes(element.text)
+        self.get_regexes(element.text or "")
         self.get_children(list(element))
 
     def set_anonymous_path(self):
@@ -1905,7 +1905,7 @@ class _group_class:
                 )
             )
             # get regexes from tail
-            if group.tail.strip():
+            if group.tail and group.tail.strip():
                 self.get_regexes(data=group.tail, tail=True)
 
     def set_runs(self):
-- 
2.43.0


From fb96530831270360d442590a5350db656d58be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 005/100] fix: do not save grandchildren results of ended group

Only direct children of a group ended by _end_ or by a failed start check
were skipped, children of these children leaked into previous results.
---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4369a40..bab22bf 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2816,8 +2816,10 @@ class _results_class:
                 if result_data == False:
                     self.ended_groups.add(re_["GROUP"].group_id)
                     continue
-                # if parent is ended skip this child group results
+                # if parent is ended skip this child group results, end child group
+                # as well, so that results of its own children skipped too
                 elif re_["GROUP"].parent_group_id in self.ended_groups:
+                    self.ended_groups.add(re_["GROUP"].group_id)
                     continue
                 # evaluate results to check if need to un-end ended group
                 elif re_["GROUP"].group_id in self.ended_groups:
-- 
2.43.0


From 079dfcfbb8cdfc58033df00c5342029ca72a6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 006/100] fix: do not attach results to child groups that have
 not started

Nested group match was saved under a new record of its grandparent even if
its own parent group did not start within that record.
---
 ttp/ttp.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index bab22bf..803a26f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1908,6 +1908,15 @@ class _group_class:
             if group.tail and group.tail.strip():
                 self.get_regexes(data=group.tail, tail=True)
 
+    def get_descendants_ids(self):
+        """Returns set of IDs of all nested groups that have start regexes"""
+        ret = set()
+        for child in self.children:
+            if child.start_re:
+                ret.add(child.group_id)
+            ret.update(child.get_descendants_ids())
+        return ret
+
     def set_runs(self):
         """runs - default variable values during group
         parsing run, have to preserve original defaults
@@ -2828,6 +2837,10 @@ class _results_class:
                     else:
                         continue
 
+                # new group record started, none of its child groups started yet
+                if re_["ACTION"].startswith("start"):
+                    self.ended_groups.update(group.get_descendants_ids())
+
                 # Save results:
                 saveFuncs[re_["ACTION"]](
                     result=result_data,
-- 
2.43.0


From f3b9c6aee38811199c6598f659b75804638262e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 007/100] fix: end nested groups together with their parent

Ended group, or group that failed start check, did not end groups nested
deeper than one level, their matches were added to the previous results.
---
 ttp/ttp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 803a26f..4a24b10 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2824,6 +2824,7 @@ class _results_class:
                 # check if result is false, add group to ended groups if so
                 if result_data == False:
                     self.ended_groups.add(re_["GROUP"].group_id)
+                    self.ended_groups.update(group.get_descendants_ids())
                     continue
                 # if parent is ended skip this child group results, end child group
                 # as well, so that results of its own children skipped too
@@ -3213,6 +3214,8 @@ class _results_class:
             return
         # action to end current group by adding it to ended groups
         self.ended_groups.add(REDICT["GROUP"].group_id)
+        # all nested groups end together with their parent
+        self.ended_groups.update(REDICT["GROUP"].get_descendants_ids())
 
     def form_path(self, path):
         """
-- 
2.43.0


From 924b3c091555268d38aec2998ae9e6eafff33fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 008/100] fix: load headers lines of one or two headers

Default number of mandatory columns was zero or less for such lines, formed
regex was invalid and template loading crashed.
---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4a24b10..2a02f67 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2258,7 +2258,7 @@ class _variable_class:
             # find all headers
             headers = re.findall(r"(\S+\s+|\S+)", self.regex)
             # form columns count
-            columns = len(headers) - 2
+            columns = max(1, len(headers) - 2)
             for attribute in self.attributes:
                 if attribute["name"] == "columns":
                     columns = max(1, int(attribute["args"][0]))
-- 
2.43.0


From 88165a540f991481f70141daaf20f56d96069fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 009/100] fix: keep values joined before child group matches

Matches joined after a child group replaced values that were joined before it.
---
 ttp/ttp.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2a02f67..cd22ff7 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2698,6 +2698,7 @@ class _results_class:
             "GRP_ID": None,
         }
         self.dyn_path_cache = {}
+        self.joined_values = {}  # joined values of groups' records being formed
         self._ttp_["results_object"] = self
 
     def make_results(self, variables, raw_results, main_results):
@@ -2841,6 +2842,7 @@ class _results_class:
                 # new group record started, none of its child groups started yet
                 if re_["ACTION"].startswith("start"):
                     self.ended_groups.update(group.get_descendants_ids())
+                    self.joined_values.pop(group.group_id, None)
 
                 # Save results:
                 saveFuncs[re_["ACTION"]](
@@ -3169,8 +3171,14 @@ class _results_class:
                     if item["name"] == "joinmatches":
                         joinchar = item["args"][0] if item["args"] else joinchar
                         break
+            # values of this record joined before its child groups matched
+            joined_values = self.joined_values.setdefault(
+                REDICT["GROUP"].group_id, {}
+            )
             # join results:
             for k in result.keys():
+                if k in joined_values and k not in self.record["result"]:
+                    self.record["result"][k] = copy.copy(joined_values[k])
                 if k in self.record["result"]:  # if we already have results
                     if isinstance(self.record["result"][k], str):
                         self.record["result"][k] += joinchar + result[k]  # join strings
@@ -3183,13 +3191,14 @@ class _results_class:
                         self.record["result"][k] = [self.record["result"][k], result[k]]
                 else:
                     self.record["result"][k] = result[k]  # if first result
+                joined_values[k] = copy.copy(self.record["result"][k])
         # if different path - that can happen if we have group ended and result
         # actually belongs to another already started group, hence need to save
         # directly into results
         elif REDICT["GROUP"].group_id in self.started_groups:
             # save current results to results structure and start new record by calling self.start
             self.start(
-                result=result,
+                result={},
                 PATH=PATH,
                 DEFAULTS=DEFAULTS,
                 FUNCTIONS=FUNCTIONS,
@@ -3199,6 +3208,8 @@ class _results_class:
             self.record["merge_with_last"] = True
             # no need to add DEFAULTS for this record as DEFAULTS processed already by previous group record
             self.record["DEFAULTS"] = {}
+            # join these results with the ones matched before child group started
+            self.join(result=result, PATH=PATH, REDICT=REDICT)
 
     def end(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
-- 
2.43.0


From d7622ba6d3eacc5c1f09307d9410ff3af9da4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 010/100] fix: end all groups whose shared start line failed
 checks

---
 ttp/ttp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index cd22ff7..a7a8922 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2824,8 +2824,13 @@ class _results_class:
 
                 # check if result is false, add group to ended groups if so
                 if result_data == False:
-                    self.ended_groups.add(re_["GROUP"].group_id)
-                    self.ended_groups.update(group.get_descendants_ids())
+                    # same line can be start line of several groups
+                    for item in result:
+                        if item[1] == False:
+                            self.ended_groups.add(item[0]["GROUP"].group_id)
+                            self.ended_groups.update(
+                                item[0]["GROUP"].get_descendants_ids()
+                            )
                     continue
                 # if parent is ended skip this child group results, end child group
                 # as well, so that results of its own children skipped too
-- 
2.43.0


From 087c20297d9879b4f32411abd043071d9ac904c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 011/100] fix: do not share default values between records

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a7a8922..f66403a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3270,7 +3270,9 @@ class _results_class:
         """Method to process group results"""
         # add default values to group results
         for k, v in self.record["DEFAULTS"].items():
-            self.record["result"].setdefault(k, v)
+            if k not in self.record["result"]:
+                # copy value, otherwise records share it
+                self.record["result"][k] = copy.deepcopy(v)
         # if merge_with_last - tail match, attempt to reconstruct group result
         # this only will work if self.record["result"] contains enough info to form PATH
         if self.record.get("merge_with_last") is True:
-- 
2.43.0


From 607bcda0d0e6af5e22ef0ff16527079ea77eeb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 012/100] fix: to_list does nothing with lists

---
 ttp/match/to.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index 997cd4b..0c6149a 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -8,6 +8,8 @@ def to_str(data):
 
 
 def to_list(data):
+    if isinstance(data, list):
+        return data, None
     return [data], None
 
 
-- 
2.43.0


From 3041237656ff4581caa36b55a7f1176cb1f91b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 013/100] fix: to_float keeps values that are not numbers

---
 ttp/match/to.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index 0c6149a..ddfe46b 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -28,10 +28,8 @@ def to_int(data):
 def to_float(data):
     try:
         return float(data), None
-    except TypeError:
-        log.error(
-            "ttp.to_int: TypeError, failed to convert value '{}' to float".format(data)
-        )
+    except (TypeError, ValueError):
+        log.error("ttp.to_float: failed to convert value '{}' to float".format(data))
         return data, None
 
 
-- 
2.43.0


From a379cc3ceeef232db9bc9f5f2995a5b3d7b83a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 014/100] fix: unrange keeps values without integer range

---
 ttp/match/unrange.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/unrange.py b/ttp/match/unrange.py
index 3a5d452..06b5d8b 100644
--- a/ttp/match/unrange.py
+++ b/ttp/match/unrange.py
@@ -19,10 +19,10 @@ def unrange(data, rangechar, joinchar):
         # form split list checking that i is not empty
         item_split = [i for i in item.split(joinchar) if i]
         if result:
-            start_int = int(result[-1])
             try:
+                start_int = int(result[-1])
                 end_int = int(item_split[0])
-            except ValueError as e:
+            except (ValueError, IndexError) as e:
                 log.error(
                     "ttp.match.unrange: Unrange failed, data '{}', rangechar '{}', joinchar '{}', error: {}".format(
                         data, rangechar, joinchar, e
-- 
2.43.0


From dc0a217e3201a5e33393238c8c3b7e8778d61dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 015/100] fix: anchor all alternatives of startswith_re and
 endswith_re patterns

---
 ttp/match/re_.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/match/re_.py b/ttp/match/re_.py
index a25b03a..ffbbaf9 100644
--- a/ttp/match/re_.py
+++ b/ttp/match/re_.py
@@ -2,13 +2,13 @@ import re
 
 
 def startswith_re(data, pattern):
-    if re.search("^{}".format(pattern), data):
+    if re.search("^(?:{})".format(pattern), data):
         return data, True
     return data, False
 
 
 def endswith_re(data, pattern):
-    if re.search("{}$".format(pattern), data):
+    if re.search("(?:{})$".format(pattern), data):
         return data, True
     return data, False
 
@@ -20,13 +20,13 @@ def contains_re(data, pattern):
 
 
 def notstartswith_re(data, pattern):
-    if not re.search("^{}".format(pattern), data):
+    if not re.search("^(?:{})".format(pattern), data):
         return data, True
     return data, False
 
 
 def notendswith_re(data, pattern):
-    if not re.search("{}$".format(pattern), data):
+    if not re.search("(?:{})$".format(pattern), data):
         return data, True
     return data, False
 
-- 
2.43.0


From 65e54a3dd68e76c3ab20804c5f20aab2f80220d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 016/100] fix: match literal dot after years and months units
 in uptimeparse

---
 ttp/match/uptimeparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/uptimeparse.py b/ttp/match/uptimeparse.py
index 9a8e294..6ee2a54 100644
--- a/ttp/match/uptimeparse.py
+++ b/ttp/match/uptimeparse.py
@@ -8,8 +8,8 @@ but code was stripped to provide matching for required time formats only
 
 import re
 
-YEARS = r"(?P<years>\d+)\s*(?:ys?|yrs?.?|years?)"
-MONTHS = r"(?P<months>\d+)\s*(?:mos?.?|mths?.?|months?)"
+YEARS = r"(?P<years>\d+)\s*(?:ys?|yrs?\.?|years?)"
+MONTHS = r"(?P<months>\d+)\s*(?:mos?\.?|mths?\.?|months?)"
 WEEKS = r"(?P<weeks>[\d.]+)\s*(?:w|wks?|weeks?)"
 DAYS = r"(?P<days>[\d.]+)\s*(?:d|dys?|days?)"
 HOURS = r"(?P<hours>[\d.]+)\s*(?:h|hrs?|hours?)"
-- 
2.43.0


From 1e345a5f68dad453672fe6b481700c85a2c352a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 017/100] fix: do not share looked up data between results and
 lookup tables

---
 ttp/group/lookup.py | 4 +++-
 ttp/match/lookup.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index 6d6a290..c332846 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -1,5 +1,7 @@
 import logging
 
+from copy import deepcopy
+
 log = logging.getLogger(__name__)
 
 
@@ -54,7 +56,7 @@ def lookup(
     # perform lookup:
     try:
         if isinstance(lookup_data, dict):
-            found_value = lookup_data[data[key]]
+            found_value = deepcopy(lookup_data[data[key]])
     except KeyError:
         return data, None
     # decide what action to do with found value
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 6c9a64e..6a9ee3c 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -1,5 +1,7 @@
 import logging
 
+from copy import deepcopy
+
 log = logging.getLogger(__name__)
 
 
@@ -38,7 +40,7 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
         lookup_data = lookup_data.get(i, {})
     # perform lookup:
     try:
-        found_value = lookup_data[data]
+        found_value = deepcopy(lookup_data[data])
     except KeyError:
         return data, None
     # decide to replace match result or add new field:
@@ -63,7 +65,7 @@ def rlookup(data, name, add_field=False):
         return data, None
     for key in rlookup.keys():
         if key in data:
-            found_value = rlookup[key]
+            found_value = deepcopy(rlookup[key])
             break
     # decide to replace match result or add new field:
     if found_value is None:
-- 
2.43.0


From 9e5f421552f7f5f8f28f2dcd458412901667059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 018/100] fix: lookup in results of other groups in
 per_template mode

---
 ttp/match/lookup.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 6a9ee3c..0c9a565 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -28,10 +28,15 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
     # get lookup data from group results
     elif group:
         path = [i.strip() for i in group.split(".")]
-        for result in _ttp_["template_obj"].results:
-            if path[0] in result:
-                lookup_data = result[path[0]]
-                break
+        # look for results combined so far if per_template results mode used
+        if path[0] in _ttp_["parser_object"].main_results:
+            lookup_data = _ttp_["parser_object"].main_results[path[0]]
+        # try to find results for group that parsed different input
+        else:
+            for result in _ttp_["template_obj"].results:
+                if path[0] in result:
+                    lookup_data = result[path[0]]
+                    break
         path = path[1:]
     else:
         log.info("ttp.lookup no lookup data name provided, doing nothing.")
-- 
2.43.0


From 9a9f90072b2b3ee0d262e6bc2948603a45171a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 019/100] fix: bare words in function arguments are always
 strings

---
 ttp/utils/get_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/utils/get_attributes.py b/ttp/utils/get_attributes.py
index a2634f6..64d6042 100644
--- a/ttp/utils/get_attributes.py
+++ b/ttp/utils/get_attributes.py
@@ -59,7 +59,8 @@ def get_attributes(line):
         if options:
             try:
                 args_kwargs = eval(
-                    "_get_args_kwargs({})".format(options), _UndefSubst(globals())
+                    "_get_args_kwargs({})".format(options),
+                    _UndefSubst({"_get_args_kwargs": _get_args_kwargs}),
                 )
             except:
                 exc_type, exc_value, exc_traceback = sys.exc_info()
-- 
2.43.0


From a55a6b0d2afcf2fcd806050951ab4b15e05a5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 020/100] fix: run functions with _ttp_ dictionary of the TTP
 object they run for

---
 ttp/ttp.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f66403a..ecd4587 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -13,6 +13,7 @@ from multiprocessing import Process, cpu_count, JoinableQueue, Queue
 from sys import version_info
 from sys import getsizeof
 from collections import OrderedDict
+from functools import wraps
 
 
 # Initiate global variables
@@ -26,6 +27,30 @@ TTP LAZY IMPORT SYSTEM
 """
 
 
+# functions modules loaded so far, modules shared by all TTP objects
+loaded_modules = []
+
+
+def use_own_ttp_dict(method):
+    """Decorator for TTP object methods that run functions. Functions refer to _ttp_
+    dictionary using their module globals, modules are the same for all TTP objects, hence
+    need to point modules to this TTP object _ttp_ dictionary while its method runs.
+    """
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        previous = [(module, module._ttp_) for module in loaded_modules]
+        try:
+            for module in loaded_modules:
+                module._ttp_ = self._ttp_
+            return method(self, *args, **kwargs)
+        finally:
+            for module, _ttp_ in previous:
+                module._ttp_ = _ttp_
+
+    return wrapper
+
+
 class CachedModule:
     """Class that contains name of the function and path to module/file
     that contains that function, on first call to this class, function
@@ -49,6 +74,8 @@ class CachedModule:
         module = __import__(path, fromlist=[None])
         # add _ttp_ to module globals space
         setattr(module, "_ttp_", self._ttp_)
+        if module not in loaded_modules:
+            loaded_modules.append(module)
         try:
             _name_map_ = getattr(module, "_name_map_")
         except AttributeError:
@@ -248,6 +275,7 @@ class ttp:
         if data != "":
             self.add_input(data=data, template_name="_all_")
 
+    @use_own_ttp_dict
     def add_input(
         self,
         data,
@@ -285,6 +313,7 @@ class ttp:
                 if template.name == template_name or template_name == "_all_"
             ]
 
+    @use_own_ttp_dict
     def set_input(
         self,
         data,
@@ -346,6 +375,7 @@ class ttp:
                     elif i[0] == "text_data":
                         self.__data_size += getsizeof(i[1])
 
+    @use_own_ttp_dict
     def add_template(self, template, template_name="_root_template_", filters=None):
         """Method to load TTP templates into the parser.
 
@@ -379,6 +409,7 @@ class ttp:
                 template_obj.templates if template_obj.templates else [template_obj]
             )
 
+    @use_own_ttp_dict
     def add_lookup(self, name, text_data="", include=None, load="python", key=None):
         """Method to add lookup table data to all templates loaded so far. Lookup is a
         text representation of structure that can be loaded into python dictionary using one
@@ -412,6 +443,7 @@ class ttp:
             self.vars.update(vars)
             [template.add_vars(vars) for template in self._templates]
 
+    @use_own_ttp_dict
     def parse(self, one=False, multi=False):
         """Method to parse data with templates.
 
@@ -531,6 +563,7 @@ class ttp:
                         results_data = parserObj.main_results
                 template.form_results(results_data)
 
+    @use_own_ttp_dict
     def result(self, templates=None, structure="list", **kwargs):
         """Method to get parsing results, supports basic filtering based on
         templates' names, results can be formatted and returned to specified
-- 
2.43.0


From 8cc07ed98bdc542b6cb09f503ca2492bf1a81141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 021/100] fix: append and prepend do not change recorded lists
 and template variables

---
 ttp/match/string.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 740b518..8ee6e36 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -66,8 +66,7 @@ def append(data, char):
     if isinstance(data, str):
         return (data + char_value), None
     elif isinstance(data, list):
-        data.append(char_value)
-        return data, None
+        return data + [char_value], None
     else:
         return data, None
 
@@ -80,8 +79,7 @@ def prepend(data, char):
     if isinstance(data, str):
         return (char_value + data), None
     elif isinstance(data, list):
-        data.insert(0, char_value)
-        return data, None
+        return [char_value] + data, None
     else:
         return data, None
 
-- 
2.43.0


From 52289b80c569545abfd8dedac6df92ca415aca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 022/100] fix: form dynamic path of itemized results

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ecd4587..c3826a2 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3281,7 +3281,11 @@ class _results_class:
             if match:
                 for m in match:
                     pattern = r"{{\s*" + m + r"\s*}}"
-                    if m in self.record["result"]:
+                    # result is not a dictionary if it was itemized
+                    if (
+                        isinstance(self.record["result"], dict)
+                        and m in self.record["result"]
+                    ):
                         repl = str(self.record["result"].pop(m))
                         self.dyn_path_cache[m] = repl
                     elif m in self.dyn_path_cache:
-- 
2.43.0


From e392c6ff9f361f75c5c07197331582ff0f9a4c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 023/100] fix: save itemized value 0

---
 ttp/ttp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c3826a2..876d696 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3068,7 +3068,10 @@ class _results_class:
         """Method to save current group results in self.results"""
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
-        if isinstance(E, list) and result_data:
+        # do not save empty group results, but save itemized numbers even if 0
+        if isinstance(E, list) and (
+            result_data or isinstance(result_data, (int, float))
+        ):
             if self.record.get("merge_with_last"):
                 self._merge_recursively(E[-1], result_data)
             else:
-- 
2.43.0


From 943404e73af9b496e704fe377f2de9aa7009b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 024/100] fix: itemize with unresolved dynamic path does not
 raise

---
 ttp/group/itemize.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ttp/group/itemize.py b/ttp/group/itemize.py
index 18e19fa..c3ed578 100644
--- a/ttp/group/itemize.py
+++ b/ttp/group/itemize.py
@@ -18,10 +18,11 @@ def itemize(data, key, path=""):
         if path[-1].endswith("**") or not path[-1].endswith("*"):
             path[-1] = "{}*".format(path[-1].rstrip("*"))
         processed_path = _ttp_["results_object"].form_path(path)
-        # save item into results:
-        _ttp_["results_object"].save_curelements(
-            result_data=data[key], result_path=processed_path
-        )
+        # save item into results, if all dynamic path variables have values
+        if processed_path:
+            _ttp_["results_object"].save_curelements(
+                result_data=data[key], result_path=processed_path
+            )
     # group considered to be invalid if no key in it
     else:
         return data, False
-- 
2.43.0


From 2f1526c2a6eff42cb2e9b43632479df4955ad6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 025/100] fix: drop results nested in discarded group results

---
 ttp/ttp.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 876d696..6e07066 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3107,6 +3107,30 @@ class _results_class:
         copied.update(result_data)
         return copied
 
+    def is_nested_in_discarded(self, PATH, group):
+        """
+        Method to check if group results nested in recorded results, that were
+        discarded. Such a results skipped together with the rest of matches for
+        discarded record, otherwise they end up in some other record's results.
+        """
+        if (
+            self.record["GRP_ID"]
+            and self.record["GRP_ID"] == group.parent_group_id
+            and not self.record.get("merge_with_last")
+            and len(PATH) > len(self.record["PATH"])
+            and PATH[: len(self.record["PATH"])] == self.record["PATH"]
+        ):
+            self.ended_groups.update([self.record["GRP_ID"], group.group_id])
+            self.record = {
+                "result": {},
+                "PATH": [],
+                "FUNCTIONS": [],
+                "DEFAULTS": {},
+                "GRP_ID": None,
+            }
+            return True
+        return False
+
     def start(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
@@ -3132,6 +3156,8 @@ class _results_class:
             self.save_curelements(
                 result_data=self.record["result"], result_path=self.record["PATH"]
             )
+        elif self.is_nested_in_discarded(PATH, REDICT["GROUP"]):
+            return
         self.record = {
             "result": result,
             "DEFAULTS": DEFAULTS.copy(),
@@ -3165,6 +3191,8 @@ class _results_class:
             self.save_curelements(
                 result_data=self.record["result"], result_path=self.record["PATH"]
             )
+        elif self.is_nested_in_discarded(PATH, REDICT["GROUP"]):
+            return
         self.record = {
             "result": {},
             "DEFAULTS": DEFAULTS.copy(),
@@ -3332,7 +3360,7 @@ class _results_class:
             )
             if flags == False:
                 return False
-        processed_path = self.form_path(self.record["PATH"])
+        processed_path = self.form_path(list(self.record["PATH"]))
         if processed_path:
             self.record["PATH"] = processed_path
         else:
-- 
2.43.0


From 2aef140ad1a308d0da2544abe0e3aa6fe8613b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 026/100] fix: contains checks all variables if some of them
 have default values

---
 ttp/group/contains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/group/contains.py b/ttp/group/contains.py
index bccb22d..b589ae4 100644
--- a/ttp/group/contains.py
+++ b/ttp/group/contains.py
@@ -4,6 +4,6 @@ def contains(data, *args):
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
                 if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
-                    return data, False
+                    continue
             return data, True
     return data, False
-- 
2.43.0


From b784054426de692dcdcf554fd745d30c94a88a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 027/100] fix: exclude and excludeall do not ignore matched
 variables that have default values

---
 ttp/group/exclude.py    | 3 ++-
 ttp/group/excludeall.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttp/group/exclude.py b/ttp/group/exclude.py
index 548f682..db4c1ed 100644
--- a/ttp/group/exclude.py
+++ b/ttp/group/exclude.py
@@ -3,6 +3,7 @@ def exclude(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             return data, False
     return data, True
diff --git a/ttp/group/excludeall.py b/ttp/group/excludeall.py
index bedfa15..03817d7 100644
--- a/ttp/group/excludeall.py
+++ b/ttp/group/excludeall.py
@@ -4,7 +4,8 @@ def excludeall(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             found_vars.append(var)
     if list(args) == found_vars:
         return data, False
-- 
2.43.0


From d640fb8e9f6ebbbb5030c01e97e5670285ace21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 028/100] fix: keep built in functions in multiprocess mode
 when custom functions added

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6e07066..9105939 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -867,7 +867,9 @@ class _worker(Process):
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
-        self._ttp_.update(custom_functions)
+        # add custom functions next to functions that come with TTP
+        for scope, functions in custom_functions.items():
+            self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
         self.task_queue = task_queue
         self.results_queue = results_queue
-- 
2.43.0


From 86d006fc93fdbbe9d4d923866bfb4b5f1504f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 029/100] fix: results order in multiprocess mode

---
 ttp/ttp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9105939..2256dca 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -512,6 +512,7 @@ class ttp:
             for input_name, input_obj in template.inputs.items():
                 for datum in input_obj.data:
                     task_dict = {
+                        "index": num_jobs,
                         "data": datum,
                         "groups_indexes": input_obj.groups_indexes,
                         "input_functions": input_obj.functions,
@@ -523,9 +524,10 @@ class ttp:
             # wait for all tasks to complete
             tasks.join()
 
+            # form results in the order of inputs, tasks complete in any order
+            results = dict(results_queue.get() for i in range(num_jobs))
             for i in range(num_jobs):
-                result = results_queue.get()
-                template.form_results(result)
+                template.form_results(results[i])
 
     def __parse_in_one_process(self):
         """Method to parse data in single process, each data item parsed
@@ -913,7 +915,7 @@ class _worker(Process):
             result = self.parserObj.main_results
             # put results in the queue and finish task
             self.task_queue.task_done()
-            self.results_queue.put(result)
+            self.results_queue.put((next_task["index"], result))
         return
 
 
-- 
2.43.0


From ec132c1a8d4304c7eadaedb92737d30080adb354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 030/100] fix: raise errors of worker processes instead of
 waiting forever

---
 ttp/ttp.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2256dca..6db06ea 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -8,6 +8,7 @@ import logging
 import copy
 import ast
 import pickle
+import traceback
 from xml.etree import cElementTree as ET
 from multiprocessing import Process, cpu_count, JoinableQueue, Queue
 from sys import version_info
@@ -527,6 +528,8 @@ class ttp:
             # form results in the order of inputs, tasks complete in any order
             results = dict(results_queue.get() for i in range(num_jobs))
             for i in range(num_jobs):
+                if isinstance(results[i], Exception):
+                    raise results[i]
                 template.form_results(results[i])
 
     def __parse_in_one_process(self):
@@ -904,15 +907,19 @@ class _worker(Process):
             if next_task is None:
                 self.task_queue.task_done()
                 break
-            # set parser object parameters
-            self.parserObj.set_data(
-                next_task["data"],
-                main_results={},
-                input_functions=next_task["input_functions"],
-            )
-            # parse and get results
-            self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-            result = self.parserObj.main_results
+            try:
+                # set parser object parameters
+                self.parserObj.set_data(
+                    next_task["data"],
+                    main_results={},
+                    input_functions=next_task["input_functions"],
+                )
+                # parse and get results
+                self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
+                result = self.parserObj.main_results
+            except Exception:
+                # pass error to parent process, it waits for this task results
+                result = RuntimeError(traceback.format_exc())
             # put results in the queue and finish task
             self.task_queue.task_done()
             self.results_queue.put((next_task["index"], result))
-- 
2.43.0


From 2e0aad62b3217d1d46a919b69caa3c5ad86db22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 031/100] fix: templates macro do not override each other

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6db06ea..efecd42 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -967,7 +967,8 @@ class _template_class:
         self.base_path = base_path
         self.results = []
         self.name = name
-        self.macro = ttp_macro  # dictionary of macro name to function mapping
+        # dictionary of macro name to function mapping, copy it as each template has its own macro
+        self.macro = dict(ttp_macro)
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
             set()
-- 
2.43.0


From 221ea0821f428b39b66f41cb6cf5522da4394a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 032/100] fix: make custom macro functions available in child
 templates

---
 ttp/ttp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index efecd42..9b025f8 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1236,6 +1236,7 @@ class _template_class:
                 base_path=self.base_path,
                 ttp_vars=self.ttp_vars,
                 name=str(template_index),
+                ttp_macro=self._ttp_.get("_custom_functions_", {}).get("macro", {}),
                 _ttp_=self._ttp_,
             )
         )
-- 
2.43.0


From a0a531c66aecf6ec6fdc0b1bc53bcd60dc0fbf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 033/100] fix: load macro in the order of template in
 multiprocess mode

---
 ttp/ttp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9b025f8..9fa1fd6 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -971,8 +971,8 @@ class _template_class:
         self.macro = dict(ttp_macro)
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
-            set()
-        )  # set to contain macro functions text to transfer into other processes
+            []
+        )  # list to contain macro functions text to transfer into other processes
         self.filters = filters  # list that contains names of child templates to extract
         self.__doc__ = ""  # string to contain template doc/description
         self.template = template_text  # attribute to store template text
@@ -1214,7 +1214,7 @@ class _template_class:
             )
             self.macro.update(funcs)
             # save macro text to be able to restore macro functions within another process
-            self.macro_text.add(element.text)
+            self.macro_text.append(element.text)
         except SyntaxError as e:
             log.error(
                 "template.parse_macro: syntax error, failed to load macro: \n{},\nError: {}".format(
-- 
2.43.0


From 40503a9e507823fffc184cc8a4e17af46bb3051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 034/100] fix: loading of TTP functions does not override
 custom functions

---
 ttp/ttp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9fa1fd6..1b0dfba 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -81,8 +81,14 @@ class CachedModule:
             _name_map_ = getattr(module, "_name_map_")
         except AttributeError:
             _name_map_ = {}
+        custom_functions = self._ttp_.get("_custom_functions_", {}).get(
+            self.parent_dir, {}
+        )
         for func_name in self.parent_module_functions:
             name = _name_map_.get(func_name, func_name)
+            # keep functions added by add_function method
+            if name in custom_functions:
+                continue
             self._ttp_[self.parent_dir][name] = getattr(module, func_name)
 
     def __call__(self, *args, **kwargs):
@@ -873,6 +879,7 @@ class _worker(Process):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
         # add custom functions next to functions that come with TTP
+        self._ttp_["_custom_functions_"] = custom_functions
         for scope, functions in custom_functions.items():
             self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
-- 
2.43.0


From b7c4302a5d560af53faf8e3175778a2bb06c6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 035/100] fix: errors raised inside match functions are not
 taken for unknown functions

---
 ttp/ttp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1b0dfba..0600d8c 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2514,11 +2514,12 @@ class _parser_class:
                         func_name = item["name"]
                         args = item["args"]
                         kwargs = item["kwargs"]
-                        try:  # try variable function
+                        # try variable function
+                        if func_name in self._ttp_["match"]:
                             data, flag = self._ttp_["match"][func_name](
                                 data, *args, **kwargs
                             )
-                        except KeyError:
+                        else:
                             try:  # try data built-in function. e.g. if data is string, can run data.upper()
                                 attrib = getattr(data, func_name)
                                 if callable(attrib):
-- 
2.43.0


From e3420c24153050313e0217b80fd1b4825d4d12c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 036/100] fix: outputs of templates without macro do not run
 macro of other templates

---
 ttp/ttp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 0600d8c..109b9f9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3522,9 +3522,8 @@ class _outputter_class:
         :param data: (dict or list) data to run outputter for
         :param macro: (dict) dictionary of macro functions
         """
-        marco = macro or {}
         self._ttp_["output_object"] = self
-        if macro:
+        if macro is not None:
             self._ttp_["macro"] = macro
         format_type = self.attributes["format"]
         results = data
-- 
2.43.0


From e1f11e3bd8e1a0543c9297d0cb8346d547a1a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 037/100] fix: input macro accepts several macro names

---
 ttp/input/macro.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ttp/input/macro.py b/ttp/input/macro.py
index 8bc24e3..b700dc8 100644
--- a/ttp/input/macro.py
+++ b/ttp/input/macro.py
@@ -1,12 +1,16 @@
-def macro(data, macro_name):
-    result = None
-    if macro_name in _ttp_["macro"]:
-        result = _ttp_["macro"][macro_name](data)
-    # process macro result
-    if result is True:
-        return data, True
-    elif result is False:
-        return data, False
-    elif result is None:
-        return data, None
+def macro(data, *macro):
+    result = data
+    # extract macro names
+    macro_names_list = [i.strip() for item in macro for i in item.split(",")]
+    # run macro
+    for macro_item in macro_names_list:
+        if macro_item in _ttp_["macro"]:
+            res = _ttp_["macro"][macro_item](result)
+            # process macro result
+            if res is False:
+                return result, False
+            elif res is True or res is None:
+                continue
+            else:
+                result = res
     return result, None
-- 
2.43.0


From 36297392509b131712452b5a4d902fbc432780e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 038/100] fix: input filters load files matched by at least one
 regex

---
 ttp/utils/loaders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 99d6b17..d6ee451 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -72,8 +72,8 @@ def load_files(path, extensions=None, filters=None, read=False):
         files = [f for f in os.listdir(path) if os.path.isfile(os.path.join(path, f))]
         if extensions:
             files = [f for f in files if f.split(".")[-1] in extensions]
-        for filter in filters:
-            files = [f for f in files if re_search(filter, f)]
+        if filters:
+            files = [f for f in files if any(re_search(i, f) for i in filters)]
         if read:
             ret = []
             for f in files:
-- 
2.43.0


From a6775a049393bf1f7dfcbdd405d691a01f7c2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 039/100] fix: extract_commands matches commands and hostname
 literally

---
 ttp/input/commands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/input/commands.py b/ttp/input/commands.py
index 3ec0c85..f6a9ae7 100644
--- a/ttp/input/commands.py
+++ b/ttp/input/commands.py
@@ -1,4 +1,4 @@
-from re import search
+from re import escape, search
 
 
 def extract_commands(data, *commands):
@@ -8,7 +8,7 @@ def extract_commands(data, *commands):
     if hostname:
         for command in commands:
             regex = r"{}[#>] *{} *\n([\S\s]+?)(?={}[#>]|$)".format(
-                hostname, command, hostname
+                escape(hostname), escape(command), escape(hostname)
             )
             match = search(regex, data)
             if match:
-- 
2.43.0


From a0c0cf0b3a8c7dcbeb5636f587f00c9d3cec0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 040/100] fix: use groups loaded from input tag text

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 109b9f9..6392734 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1508,10 +1508,12 @@ class _input_class:
             # hashing, groups can be attempted to extract before name attribute
             self.name = element.attrib.get("name", input_name).strip()
             # set default attribute values
-            element.attrib.setdefault("groups", groups)
             element.attrib.setdefault("load", "python")
             # extract attributes
             self.get_attributes(data=element.attrib, element_text=element.text)
+            # use default groups if no groups given in tag attributes or in tag text
+            if "groups" not in element.attrib and "groups" not in self.parameters:
+                self.get_attributes(data={"groups": groups})
             self.load_data(element_text=element.text)
         # if no input element given, use input_name and groups with data
         # as well as default python loader
-- 
2.43.0


From 12abd0c4cf61a5adf3d184826c5cbc39ab890a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 041/100] fix: extract_commands of commands without output

---
 ttp/input/commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/input/commands.py b/ttp/input/commands.py
index f6a9ae7..661b47f 100644
--- a/ttp/input/commands.py
+++ b/ttp/input/commands.py
@@ -7,7 +7,7 @@ def extract_commands(data, *commands):
     hostname = _ttp_["variable"]["gethostname"](data, "input find_command function")
     if hostname:
         for command in commands:
-            regex = r"{}[#>] *{} *\n([\S\s]+?)(?={}[#>]|$)".format(
+            regex = r"{}[#>] *{} *\n([\S\s]*?)(?={}[#>]|$)".format(
                 escape(hostname), escape(command), escape(hostname)
             )
             match = search(regex, data)
-- 
2.43.0


From 04c2feaeb67f4b7c38c319bfdd53f59b1f6d3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 042/100] fix: functions use _ttp_ dictionary of TTP object
 that runs in current thread or process

---
 ttp/ttp.py | 71 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6392734..d64b9ce 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -8,6 +8,7 @@ import logging
 import copy
 import ast
 import pickle
+import threading
 import traceback
 from xml.etree import cElementTree as ET
 from multiprocessing import Process, cpu_count, JoinableQueue, Queue
@@ -28,26 +29,66 @@ TTP LAZY IMPORT SYSTEM
 """
 
 
-# functions modules loaded so far, modules shared by all TTP objects
-loaded_modules = []
+class _running_ttp_dict:
+    """Functions refer to _ttp_ dictionary using their module globals, but modules are the
+    same for all TTP objects, hence modules refer to instance of this class, it gives access
+    to _ttp_ dictionary of the TTP object that runs in current thread.
+    """
+
+    def __init__(self):
+        self.running = threading.local()
+        self.last = {}
+
+    def get_dict(self):
+        return getattr(self.running, "_ttp_", self.last)
+
+    def __getitem__(self, key):
+        return self.get_dict()[key]
+
+    def __setitem__(self, key, value):
+        self.get_dict()[key] = value
+
+    def __delitem__(self, key):
+        del self.get_dict()[key]
+
+    def __contains__(self, key):
+        return key in self.get_dict()
+
+    def __iter__(self):
+        return iter(self.get_dict())
+
+    def __len__(self):
+        return len(self.get_dict())
+
+    def __repr__(self):
+        return repr(self.get_dict())
+
+    def __getattr__(self, name):
+        if name.startswith("__"):
+            raise AttributeError(name)
+        return getattr(self.get_dict(), name)
+
+
+running_ttp_dict = _running_ttp_dict()
 
 
 def use_own_ttp_dict(method):
-    """Decorator for TTP object methods that run functions. Functions refer to _ttp_
-    dictionary using their module globals, modules are the same for all TTP objects, hence
-    need to point modules to this TTP object _ttp_ dictionary while its method runs.
+    """Decorator for methods that run functions, functions use _ttp_ dictionary of the object
+    which method it is.
     """
 
     @wraps(method)
     def wrapper(self, *args, **kwargs):
-        previous = [(module, module._ttp_) for module in loaded_modules]
+        running = running_ttp_dict.running
+        previous = getattr(running, "_ttp_", None)
+        running_ttp_dict.last = running._ttp_ = self._ttp_
         try:
-            for module in loaded_modules:
-                module._ttp_ = self._ttp_
             return method(self, *args, **kwargs)
         finally:
-            for module, _ttp_ in previous:
-                module._ttp_ = _ttp_
+            if previous is None:
+                del running._ttp_
+            else:
+                running._ttp_ = previous
 
     return wrapper
 
@@ -74,9 +115,8 @@ class CachedModule:
         path = "{abs}{imp}".format(abs=abs_import, imp=self.import_path)
         module = __import__(path, fromlist=[None])
         # add _ttp_ to module globals space
-        setattr(module, "_ttp_", self._ttp_)
-        if module not in loaded_modules:
-            loaded_modules.append(module)
+        running_ttp_dict.last = self._ttp_
+        setattr(module, "_ttp_", running_ttp_dict)
         try:
             _name_map_ = getattr(module, "_name_map_")
         except AttributeError:
@@ -905,8 +945,13 @@ class _worker(Process):
                     )
                 )
 
+    @use_own_ttp_dict
     def run(self):
         self.load_functions()
+        # run outputs of groups with functions and macro of this process
+        for group in self.parserObj.groups:
+            for output in group.outputs:
+                output._ttp_ = self._ttp_
         # run tasks
         while True:
             next_task = self.task_queue.get()
-- 
2.43.0


From 82db4c9c064d0bc315110aaf87f054a984efa9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 043/100] fix: groups of different parents do not share group
 id

---
 ttp/ttp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index d64b9ce..cc82e33 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1766,7 +1766,7 @@ class _group_class:
             vars (dict): variables dictionary from template class
             grp_index (int): unique index of the group
             name (str): dot separate path string representing group result location within results tree
-            group_id (tuple): unique ID of the group, tuple of (self.name, self.grp_index,)
+            group_id (tuple): unique ID of the group, tuple of (self.name, self.grp_indexes,)
         """
         self._ttp_ = _ttp_
         self.pathchar = pathchar
@@ -1788,6 +1788,9 @@ class _group_class:
         self.parent_group_id = parent_group_id
         self.vars = vars or {}
         self.grp_index = grp_index
+        # indexes of all parents and of this group, names can repeat - groups of
+        # different parents can have same absolute path
+        self.grp_indexes = (parent_group_id[1] if parent_group_id else ()) + (grp_index,)
         self.inputs = []
         self.attributes = {}
         # extract data:
@@ -1801,7 +1804,7 @@ class _group_class:
         if self.name == "":
             self.path = ["_anonymous_*"] if self.top else self.path
             self.name = ".".join(self.path)
-            self.group_id = (self.name + "._anonymous_", self.grp_index)
+            self.group_id = (self.name + "._anonymous_", self.grp_indexes)
 
     def get_attributes(self, data):
         def extract_default(O):
@@ -1832,7 +1835,7 @@ class _group_class:
             else:
                 self.path = self.path + O.split(self.pathchar)
             self.name = ".".join(self.path)
-            self.group_id = (self.name, self.grp_index)
+            self.group_id = (self.name, self.grp_indexes)
 
         def extract_chain(var_name):
             """add items from chain to group functions"""
-- 
2.43.0


From b21b9a146e83c5f57a714369b8b7c65ef96ea49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 044/100] fix: process all extend tags in place of their
 definition

---
 ttp/ttp.py | 61 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index cc82e33..2761689 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1429,8 +1429,29 @@ class _template_class:
             for child in template_ET:
                 if child.tag == "macro":
                     self.parse_macro(child)
-        # recursively iterate over etree handling extend tags
-        for index, child in enumerate(template_ET):
+        self.extend_element(template_ET, top)
+
+        if top:
+            return ET.tostring(template_ET).decode()
+
+    def extend_element(self, element, top):
+        """
+        Function to recursively iterate over etree element replacing extend tags
+        with content of the templates they refer to.
+
+        :param element: (obj) ET.XML object of template or group
+        :param top: (bool) indicator if element is at the top or nested
+        """
+
+        def insert_text(index, text):
+            if index == 0:
+                element.text = (element.text or "") + text
+            else:
+                element[index - 1].tail = (element[index - 1].tail or "") + text
+
+        index = 0
+        while index < len(element):
+            child = element[index]
             if child.tag == "extend":
                 path_to_template = child.attrib.get("template", "")
                 content = self._ttp_["utils"]["load_files"](path_to_template, read=True)
@@ -1446,29 +1467,37 @@ class _template_class:
                     template_content = self.macro[child.attrib["macro"]](content[0][1])
                 # construct etree out of template content
                 extend_ET = self.construct_etree(template_content)
+                extended = ET.Element("template")
                 # if extended template has _anonymous_ group as the only child, use only its text
                 if (
                     len(extend_ET) == 1
                     and extend_ET[0].attrib.get("name") == "_anonymous_"
                 ):
-                    template_ET.text += extend_ET[0].text
-                    template_ET.remove(child)
+                    extended.text = extend_ET[0].text
                 # process extended template children to extend parent element
                 else:
                     # run filtering for extended template tags
-                    filtered_ET = self.filter_extend(
-                        extend_template=extend_ET, extend_tag=child, top=top
+                    extended.extend(
+                        self.filter_extend(
+                            extend_template=extend_ET, extend_tag=child, top=top
+                        )
                     )
-                    # run recursion for newly extended groups to handle nested extend tags
-                    self.handle_extend(template_ET=filtered_ET, top=False)
-                    # save extended elements as parent children
-                    template_ET[index : index + 1] = filtered_ET
-            # run recursion for child groups looking for extend tags
-            elif child.tag == "group":
-                self.handle_extend(template_ET=child, top=False)
-
-        if top:
-            return ET.tostring(template_ET).decode()
+                    # run recursion for extended tags to handle nested extend tags
+                    self.extend_element(extended, top)
+                # replace extend tag with content of extended template
+                del element[index]
+                insert_text(index, extended.text or "")
+                for extended_child in list(extended):
+                    element.insert(index, extended_child)
+                    index += 1
+                # keep lines that come after extend tag
+                if child.tail and child.tail.strip():
+                    insert_text(index, child.tail)
+            else:
+                # run recursion for child groups looking for extend tags
+                if child.tag.lower() in ["g", "grp", "group"]:
+                    self.extend_element(child, top=False)
+                index += 1
 
     def construct_etree(self, template_text):
         """
-- 
2.43.0


From 7a543466a71dbdf65ac38fe151eccf65b665e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 045/100] fix: merge tail matches with last results when only
 new value is a dictionary

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2761689..f562300 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3158,7 +3158,7 @@ class _results_class:
         """
         for nk, nd in result_data.items():
             # check if need to run recursion
-            if element.get(nk) and isinstance(nd, dict):
+            if isinstance(element.get(nk), dict) and isinstance(nd, dict):
                 self._merge_recursively(element[nk], nd)
             # nd is not a dict, simply save it in existing results
             else:
-- 
2.43.0


From ecd70803525b280c5d062f3d9531547c2aa09ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 046/100] fix: results returned earlier do not change when
 results cleared or data parsed again

---
 ttp/ttp.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f562300..eb67719 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -518,7 +518,10 @@ class ttp:
         if one is True and multi is True:
             log.critical("ttp.parse - choose one or multiprocess parsing")
             raise SystemExit()
-        elif one is True:
+        # do not add new results to the lists returned by result method before
+        for template in self._templates:
+            template.results = copy.copy(template.results)
+        if one is True:
             self.__parse_in_one_process()
         elif multi is True:
             self.__parse_in_multiprocess()
@@ -789,14 +792,9 @@ class ttp:
         # filter templates objects to clear results for
         templates = [templates] if isinstance(templates, str) else templates
         # clear results
-        if templates:
-            [
-                t_obj.results.clear()
-                for t_obj in self._templates
-                if t_obj.name in templates
-            ]
-        else:
-            [t_obj.results.clear() for t_obj in self._templates]
+        for t_obj in self._templates:
+            if not templates or t_obj.name in templates:
+                t_obj.results = []
 
     def add_function(self, fun, scope, name=None, add_ttp=False):
         """Method to add custom function in ``_ttp_`` dictionary.
-- 
2.43.0


From daefb581eaa9bfb544c09ec0c8583c5f78244683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 047/100] fix: add_template filters check names of child
 templates

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index eb67719..0516049 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1533,8 +1533,12 @@ class _template_class:
         template_ET = self.construct_etree(template_text)
         self.get_template_attributes(template_ET)
 
-        # filter - do not load template groups if template name not in filter
+        # filter - do not load template groups if template name not in filter,
+        # load child templates only, their names checked as well
         if self.filters and self.name not in self.filters:
+            children = [c for c in template_ET if c.tag.lower() == "template"]
+            for t_index, t in enumerate(children):
+                self.parse_template(t, t_index)
             return
 
         self.parse_hierarch_tmplt(template_ET)
-- 
2.43.0


From 799129d938661e7b179218db4592b1b619f72d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 048/100] fix: results do not share values with template
 variables

---
 ttp/group/set_.py | 5 ++++-
 ttp/match/set_.py | 7 +++++--
 ttp/ttp.py        | 3 ++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ttp/group/set_.py b/ttp/group/set_.py
index b1bbea6..95aaa5c 100644
--- a/ttp/group/set_.py
+++ b/ttp/group/set_.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
@@ -15,5 +17,6 @@ def set_func(data, source, target="_use_source_", default="_no_default_value_"):
     # get target var name:
     if target == "_use_source_":
         target = source
-    data.update({target: source_var_value})
+    # copy value, results must not share it with template variables
+    data.update({target: deepcopy(source_var_value)})
     return data, None
diff --git a/ttp/match/set_.py b/ttp/match/set_.py
index fc53481..4db2c9a 100644
--- a/ttp/match/set_.py
+++ b/ttp/match/set_.py
@@ -1,14 +1,17 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
 def set_func(data, value, match_line):
+    # copy values, results must not share them with template variables
     vars = _ttp_["vars"]
     if data.rstrip() == match_line:
         if isinstance(value, str):
             if value in vars:
-                return vars[value], None
+                return deepcopy(vars[value]), None
             elif value in _ttp_["global_vars"]:
-                return _ttp_["global_vars"][value], None
+                return deepcopy(_ttp_["global_vars"][value]), None
         return value, None
     else:
         return data, False
diff --git a/ttp/ttp.py b/ttp/ttp.py
index 0516049..1191da3 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3009,7 +3009,8 @@ class _results_class:
             result = {}
             for var_name in vars_names:
                 if var_name in variables:
-                    result[var_name] = variables[var_name]
+                    # copy value, results must not share it with template variables
+                    result[var_name] = copy.deepcopy(variables[var_name])
             self.record = {
                 "result": result,
                 "PATH": [i.strip() for i in path_item.split(".")],
-- 
2.43.0


From 0c85ce2d597b3b9b33c228f59ff94fcb7c411c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 049/100] fix: add_vars does not change dictionary supplied by
 the user

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1191da3..3a7ad70 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -305,7 +305,9 @@ class ttp:
         self._templates = []
         self.base_path = base_path
         self.multiproc_threshold = 5242880  # in bytes, equal to 5MBytes
-        self.vars = vars or {}  # dictionary of variables to add to each template vars
+        # dictionary of variables to add to each template vars, copy it for add_vars
+        # method not to change dictionary supplied by the user
+        self.vars = dict(vars or {})
         self.lookups = {}
         # setup logging
         logging_config(log_level, log_file)
-- 
2.43.0


From 7995be716878397997ad1669aa03cb521b3f5431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 050/100] fix: empty vars tag with name attribute does not
 raise

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 3a7ad70..9028b82 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1299,7 +1299,7 @@ class _template_class:
         if vars:
             self.vars.update(vars)
         # check if var has name attribute:
-        if "name" in element.attrib:
+        if vars and "name" in element.attrib:
             path = element.attrib["name"]
             for key in vars.keys():
                 self.vars["_vars_to_results_"].setdefault(path, []).append(key)
-- 
2.43.0


From 0009e021283a05b42f433ae5ae51c89af819aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 051/100] fix: add_vars replaces variables that have functions
 and can refer to functions

---
 ttp/ttp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9028b82..a23cdca 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1080,6 +1080,10 @@ class _template_class:
         """Method to update vars with given data"""
         if isinstance(data, dict):
             self.vars.update(data)
+            # new values replace functions of variables and can be functions
+            for var_name in data:
+                self.vars["_var_functions_"].pop(var_name, None)
+            self.get_var_functions()
             [template.add_vars(data) for template in self.templates]
 
     def run_outputs(self):
@@ -1120,7 +1124,8 @@ class _template_class:
             if var_value in self._ttp_["variable"]:
                 self.vars["_var_functions_"][var_name] = var_value
         # remove _var_functions_ from self.vars
-        [self.vars.pop(var_name) for var_name in self.vars["_var_functions_"].keys()]
+        for var_name in self.vars["_var_functions_"]:
+            self.vars.pop(var_name, None)
 
     def update_input(
         self, element=None, data=None, input_name="Default_Input", groups=None
-- 
2.43.0


From 12dfa00fb29bd65a601295748ba9ac89bda1b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 052/100] fix: csv formatter doubles quote characters within
 values

---
 ttp/formatters/csv_formatter.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ttp/formatters/csv_formatter.py b/ttp/formatters/csv_formatter.py
index a5ae61b..400233d 100644
--- a/ttp/formatters/csv_formatter.py
+++ b/ttp/formatters/csv_formatter.py
@@ -5,7 +5,6 @@ def csv_formatter(data, **kwargs):
     """Method to dump list of dictionaries into table
     using provided separator, default is comma - ','
     """
-    result = ""
     # form table - list of lists
     table = _ttp_["formatters"]["table"](
         data, **kwargs
@@ -13,12 +12,10 @@ def csv_formatter(data, **kwargs):
     sep = kwargs.get("sep", ",")
     quote = kwargs.get("quote", '"')
     sep = "{q}{s}{q}".format(s=sep, q=quote)
-    row_formatter = "\n{q}{{}}{q}".format(q=quote)
-    # form results:
-    result = "{q}{d}{q}".format(d=sep.join(table[0]), q=quote)
-    for row in table[1:]:
-        try:
-            result += row_formatter.format(sep.join(row))
-        except TypeError:  # might happen if not all values in row are strings
-            result += row_formatter.format(sep.join([str(i) for i in row]))
+    # form results, quote characters within values are doubled:
+    rows = [
+        [str(i).replace(quote, quote * 2) if quote else str(i) for i in row]
+        for row in table
+    ]
+    result = "\n".join("{q}{d}{q}".format(d=sep.join(row), q=quote) for row in rows)
     return result
-- 
2.43.0


From 069655f3ef16c7198d510fd899c63c8e1afe5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 053/100] fix: table formatter takes path through results with
 anonymous groups

---
 ttp/formatters/table_formatter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ttp/formatters/table_formatter.py b/ttp/formatters/table_formatter.py
index 522e130..26ce5f1 100644
--- a/ttp/formatters/table_formatter.py
+++ b/ttp/formatters/table_formatter.py
@@ -26,7 +26,13 @@ def table(data, path=None, missing="", key="", strict=True, headers=None, **kwar
         if not item:  # skip empty results
             continue
         elif isinstance(item, list):
-            data_to_table += item
+            # item of the list is a list if it is results at path of an input with
+            # anonymous groups
+            for i in item:
+                if isinstance(i, list):
+                    data_to_table += i
+                else:
+                    data_to_table.append(i)
         elif isinstance(item, dict):
             # flatten dictionary data if key was given
             if key:
-- 
2.43.0


From 5a48d166eb06266375cb388c2bdb5fcd42aa1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 054/100] fix: dict_to_list does not add key to results data

---
 ttp/output/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index 9cec30d..7d5a014 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -57,8 +57,8 @@ def dict_to_list(data, key_name="key", path=None, strict=False):
         for k, v in traversed_data.items():
             if not isinstance(v, dict):
                 return traversed_data
-            v.update({key_name: k})
-            result.append(v)
+            # copy v to not add the key to results data itself
+            result.append({**v, key_name: k})
     elif isinstance(traversed_data, list):
         # run recusrsion
         result = [dict_to_list(data=item, key_name=key_name) for item in traversed_data]
-- 
2.43.0


From 9c19c6ff55e06dbb06348bc787410c7f22e684db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 055/100] fix: file returner creates parent folders of url

---
 ttp/returners/file_returner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 335598e..8cdc107 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -30,7 +30,7 @@ def file_returner(D, **kwargs):
         filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-        os.mkdir(url)
+        os.makedirs(url)
     # form file path:
     file_path = os.path.join(url, filename)
     # save excel workbook to file:
-- 
2.43.0


From b323014d87ec6480f65612756d932d5153698196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 056/100] fix: excel formatter does not remove tab_name from
 table

---
 ttp/formatters/excel_formatter.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 06ec250..5e796cf 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -35,11 +35,7 @@ def excel_formatter(data, **kwargs):
     # form table_tabs - list of dictionaries
     table_tabs = []
     for index, tab_det in enumerate(table):
-        tab_name = (
-            tab_det.pop("tab_name")
-            if "tab_name" in tab_det
-            else "Sheet{}".format(index)
-        )
+        tab_name = tab_det.get("tab_name", "Sheet{}".format(index))
         headers = tab_det.get("headers", None)
         if isinstance(headers, str):
             headers = [i.strip() for i in headers.split(",")]
-- 
2.43.0


From cf96d8b8c5d166512f5215b1cce6857d2f42db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 057/100] fix: excel formatter path is optional

---
 ttp/formatters/excel_formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 5e796cf..b97554e 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -39,9 +39,12 @@ def excel_formatter(data, **kwargs):
         headers = tab_det.get("headers", None)
         if isinstance(headers, str):
             headers = [i.strip() for i in headers.split(",")]
+        path = tab_det.get("path", None)
+        if isinstance(path, str):
+            path = [i.strip() for i in path.split(".")]
         # get attributes out of tab_det
         tab_kwargs = {
-            "path": [i.strip() for i in tab_det.get("path", "").split(".")],
+            "path": path,
             "headers": headers,
             "missing": tab_det.get("missing", ""),
             "key": tab_det.get("key", ""),
-- 
2.43.0


From 8cec68bdbbcda1cb5c0b479054162fe9ffd98b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 058/100] fix: excel formatter update uses filename formatted
 with variables

---
 ttp/formatters/excel_formatter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index b97554e..abafb7e 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -27,8 +27,12 @@ def excel_formatter(data, **kwargs):
     update = kwargs.get("update")
     url = kwargs.get("url", "./Output/")
 
-    # from filename
-    filename = kwargs.get("filename")
+    # from filename, using variables same as file returner does
+    filename = kwargs.get("filename") or ""
+    try:
+        filename = filename.format(**{**_ttp_["global_vars"], **_ttp_["vars"]})
+    except Exception as e:
+        log.error("output.formatter_excel: failed format filename - '{}'".format(e))
     if not filename.endswith(".xlsx"):
         filename = "{}.xlsx".format(filename)
 
-- 
2.43.0


From 58b486d3ccb67b102bec6bbc54b9d46739c20554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 059/100] fix: unknown output name in group output attribute
 does not affect other outputs

---
 ttp/ttp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a23cdca..402f66b 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1180,13 +1180,14 @@ class _template_class:
         self.groups_outputs
         """
         for G in self.groups:
-            for output_index, grp_output in enumerate(G.outputs):
+            group_outputs = []
+            for grp_output in G.outputs:
                 group_output_found = False
                 # search through global outputs:
                 for glob_index, glob_output in enumerate(self.outputs):
                     if glob_output.name == grp_output:
                         self.groups_outputs.append(self.outputs.pop(glob_index))
-                        G.outputs[output_index] = self.groups_outputs[-1]
+                        group_outputs.append(self.groups_outputs[-1])
                         group_output_found = True
                 # go to next output if this output found:
                 if group_output_found:
@@ -1194,16 +1195,16 @@ class _template_class:
                 # try to find output in group specific outputs:
                 for index, output in enumerate(self.groups_outputs):
                     if output.name == grp_output:
-                        G.outputs[output_index] = output
+                        group_outputs.append(output)
                         group_output_found = True
                 # print error message if no output found:
                 if not group_output_found:
-                    G.outputs.pop(output_index)
                     log.error(
                         "template.update_groups_with_outputs: group '{}' - output '{}' not found.".format(
                             G.name, grp_output
                         )
                     )
+            G.outputs = group_outputs
 
     def get_template_attributes(self, element):
         def extract_name(O):
-- 
2.43.0


From c07016ca1301ee8b1fd5a5b63268ef6e50082e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 060/100] fix: result method outputs use template of results

---
 ttp/ttp.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 402f66b..20c2b90 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -717,19 +717,22 @@ class ttp:
         # check if kwargs provided, create outputter if so
         if kwargs:
             kwargs.setdefault("returner", "self")
-            outputter = _outputter_class(_ttp_=self._ttp_, **kwargs)
+
+        def run_outputter(template):
+            outputter = _outputter_class(
+                _ttp_=self._ttp_, template_obj=template, **kwargs
+            )
+            return outputter.run(template.results, macro=template.macro)
+
         # form results structure
         if structure.lower() == "list":
             if kwargs:
-                return [
-                    outputter.run(template.results, macro=template.macro)
-                    for template in templates_obj
-                ]
+                return [run_outputter(template) for template in templates_obj]
             return [template.results for template in templates_obj]
         elif structure.lower() == "dictionary":
             if kwargs:
                 return {
-                    template.name: outputter.run(template.results, macro=template.macro)
+                    template.name: run_outputter(template)
                     for template in templates_obj
                     if template.name
                 }
@@ -741,11 +744,7 @@ class ttp:
         elif structure.lower() == "flat_list":
             ret = []
             for template in templates_obj:
-                rslt = (
-                    outputter.run(template.results, macro=template.macro)
-                    if kwargs
-                    else template.results
-                )
+                rslt = run_outputter(template) if kwargs else template.results
                 if isinstance(rslt, list):
                     for item in rslt:
                         if isinstance(item, list):
-- 
2.43.0


From 5f4357c9cad843ad2887e847dd2fc9f5d87a78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 061/100] fix: results of groups without outputs are not lost
 in per_template mode

---
 ttp/ttp.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 20c2b90..56c2f75 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -604,7 +604,7 @@ class ttp:
                             datum, main_results={}, input_functions=input_obj.functions
                         )
                         parserObj.parse(groups_indexes=input_obj.groups_indexes)
-                        result = parserObj.main_results
+                        result = parserObj.get_results()
                         template.form_results(result)
             elif template.results_method.lower() == "per_template":
                 results_data = {}
@@ -617,7 +617,7 @@ class ttp:
                         )
                         parserObj.parse(groups_indexes=input_obj.groups_indexes)
                         results_data = parserObj.main_results
-                template.form_results(results_data)
+                template.form_results(parserObj.get_results())
 
     @use_own_ttp_dict
     def result(self, templates=None, structure="list", **kwargs):
@@ -967,7 +967,7 @@ class _worker(Process):
                 )
                 # parse and get results
                 self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-                result = self.parserObj.main_results
+                result = self.parserObj.get_results()
             except Exception:
                 # pass error to parent process, it waits for this task results
                 result = RuntimeError(traceback.format_exc())
@@ -2505,6 +2505,8 @@ class _parser_class:
         self.original_vars = vars
         self.groups = groups
         self.main_results = {}
+        # results of groups with outputs after running them through outputs
+        self.outputs_results = []
         self.DATATEXT = ""
         self.DATANAME = ""
         self._ttp_ = _ttp_
@@ -2514,8 +2516,11 @@ class _parser_class:
         Args:
             D (tuple): items are dict of (data_type, data_path,)
         """
-        main_results = main_results or {}
+        main_results = {} if main_results is None else main_results
         input_functions = input_functions or []
+        # keep outputs results only if continue to add to the same main_results
+        if main_results is not self.main_results:
+            self.outputs_results = []
         self.main_results = main_results
         if D[0] == "text_data":
             self.DATATEXT = "\n" + D[1] + "\n\n"
@@ -2799,14 +2804,16 @@ class _parser_class:
             grp_result = RSLTSOBJ.results
             for output in grp_raw_result[1]:
                 grp_result = output.run(data=grp_result)
-            # transform results into list:
-            if isinstance(self.main_results, dict):
-                if self.main_results:
-                    self.main_results = [self.main_results]
-                else:
-                    self.main_results = []
-            # save results into global results list:
-            self.main_results.append(grp_result)
+            self.outputs_results.append(grp_result)
+
+    def get_results(self):
+        """Method to return parsing results, if have groups with outputs, results
+        are a list of main results and results of these groups' outputs
+        """
+        if not self.outputs_results:
+            return self.main_results
+        ret = [self.main_results] if self.main_results else []
+        return ret + self.outputs_results
 
 
 """
-- 
2.43.0


From 668167593f3a5b5d2e7a0636738dda6d6927911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 062/100] fix: deepdiff output function compares input_after
 results with a variable or template too

---
 ttp/output/deepdiffer.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/ttp/output/deepdiffer.py b/ttp/output/deepdiffer.py
index f4459b3..09f0f28 100644
--- a/ttp/output/deepdiffer.py
+++ b/ttp/output/deepdiffer.py
@@ -40,27 +40,24 @@ def deepdiff_func(
     # get template object of this output
     template_obj = _ttp_["output_object"].template_obj
 
-    # get data_before - data to compare with
-    if input_before:
-        # get inputs names to results index mapping, e.g.:
-        # {'input_after': [3, 4], 'input_before': [0, 1], 'one_more': [2]}
-        if template_obj.results_method.lower() == "per_input":
-            input_to_results_index = {}
-            counter = 0
-            for input_name, details in template_obj.inputs.items():
-                data_len = len(details.data)
-                input_to_results_index[input_name] = [
-                    i + counter for i in range(data_len)
-                ]
-                counter += data_len
-            data_before = [
-                data[index] for index in input_to_results_index[input_before]
-            ]
-        elif template_obj.results_method.lower() == "per_template":
+    # get inputs names to results index mapping, e.g.:
+    # {'input_after': [3, 4], 'input_before': [0, 1], 'one_more': [2]}
+    input_to_results_index = {}
+    if input_before or input_after:
+        if template_obj.results_method.lower() == "per_template":
             log.error(
-                "ttp.output.deepdiff; Template 'per_template' results method not supported with input_before as a reference to source data"
+                "ttp.output.deepdiff; Template 'per_template' results method not supported with input_before or input_after as a reference to source data"
             )
             return data
+        counter = 0
+        for input_name, details in template_obj.inputs.items():
+            data_len = len(details.data)
+            input_to_results_index[input_name] = [i + counter for i in range(data_len)]
+            counter += data_len
+
+    # get data_before - data to compare with
+    if input_before:
+        data_before = [data[index] for index in input_to_results_index[input_before]]
     # if template name provided - source data from template results
     elif template_before:
         for template in _ttp_["ttp_object"]._templates:
-- 
2.43.0


From e06d0a2f2e0c59d5dddc27291d7145cafc5f316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 063/100] fix: validate output function does not leave its info
 text in the validated results

---
 ttp/output/validate_cerberus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 9ea1a48..3c7a820 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -20,7 +20,9 @@ def _run_validation(data, schema_data, info, errors, result, validator_engine):
     ret = {result: validator_engine.validate(document=data, schema=schema_data)}
     if info:
         try:
-            formatted, _ = _ttp_["group"]["sformat"](data, string=info, add_field="inf")
+            formatted, _ = _ttp_["group"]["sformat"](
+                dict(data), string=info, add_field="inf"
+            )
             ret["info"] = formatted["inf"]
         except:
             ret["info"] = info
-- 
2.43.0


From d3bb31247964fbae5c2d46fd1346240b24f52a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 064/100] fix: validate_yangson forgets YANG modules of
 previous calls, to_xml works on current Python

---
 ttp/output/validate_yangson.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index de85206..6e3b94c 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -98,6 +98,9 @@ def _make_library(ydir):
     Args:
         ydir (str): Name of the directory with YANG (sub)modules.
     """
+    # modules of previous calls are not part of this library
+    modmap.clear()
+    submodmap.clear()
     for infile in os.listdir(ydir):
         if not infile.endswith(".yang"):
             continue
@@ -179,7 +182,7 @@ def validate_yangson(
         If metadata is False but to_xml is True, return parsing results converted to XML string
     """
     if to_xml:
-        from xml.etree import cElementTree as ET
+        from xml.etree import ElementTree as ET
     ret = {
         "result": [] if to_xml else instance_data,
         "exception": {},
-- 
2.43.0


From 2586ee2258a1eb5310eeb495029d90d3c34ae104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 065/100] fix: file returner uses time of saving in default
 file name, output name is optional

---
 ttp/returners/file_returner.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 8cdc107..7b6dd3b 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -5,7 +5,6 @@ import os
 _name_map_ = {"file_returner": "file"}
 
 log = logging.getLogger(__name__)
-ctime = time.strftime("%Y-%m-%d_%H-%M-%S")
 
 
 def file_returner(D, **kwargs):
@@ -15,7 +14,7 @@ def file_returner(D, **kwargs):
         filename (str): name of the file
     """
     url = kwargs.get("url", "./Output/")
-    if "filename" in kwargs:
+    if kwargs.get("filename"):
         filename = kwargs["filename"]
         try:
             fkwargs = _ttp_["global_vars"].copy()
@@ -24,10 +23,10 @@ def file_returner(D, **kwargs):
         except Exception as e:
             log.error("file_returner: failed format filename - '{}'".format(e))
     else:
-        filename = "output_{}.txt".format(ctime)
-    # if no filename provided, add outputter name to filename
-    if not kwargs.get("filename", False):
-        filename = _ttp_["output_object"].name + "_" + filename
+        filename = "output_{}.txt".format(time.strftime("%Y-%m-%d_%H-%M-%S"))
+        # if no filename provided, add outputter name to filename
+        if _ttp_["output_object"].name:
+            filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
         os.makedirs(url)
-- 
2.43.0


From ca40604745a245dcea126f60c0f1b5bc96b38772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 066/100] fix: syslog returner accepts facility and interval
 given as text

---
 ttp/returners/syslog_returner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/returners/syslog_returner.py b/ttp/returners/syslog_returner.py
index a2458ea..b455d9d 100644
--- a/ttp/returners/syslog_returner.py
+++ b/ttp/returners/syslog_returner.py
@@ -18,9 +18,12 @@ def syslog(data, **kwargs):
         return
     port = int(kwargs.get("port", 514))
     facility = kwargs.get("facility", 77)
+    # numbers are text if given in output tag attributes
+    if isinstance(facility, str) and facility.strip().isdigit():
+        facility = int(facility)
     path = kwargs.get("path", [])
     iterate = kwargs.get("iterate", True)
-    interval = kwargs.get("interval", 1) / 1000
+    interval = float(kwargs.get("interval", 1)) / 1000
     # normalize source_data to list:
     source_data = data if isinstance(data, list) else [data]
     # initiate isolated logger
-- 
2.43.0


From ae7682f0c3006957baf63f0fb9d600c8cdd215c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 067/100] fix: terminal returner colours whole words once,
 accepts documented attributes and raw results

---
 ttp/returners/terminal_returner.py | 34 ++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/ttp/returners/terminal_returner.py b/ttp/returners/terminal_returner.py
index 49f1dbe..5aad87e 100644
--- a/ttp/returners/terminal_returner.py
+++ b/ttp/returners/terminal_returner.py
@@ -1,3 +1,5 @@
+import re
+
 _name_map_ = {"terminal_returner": "terminal"}
 
 
@@ -21,17 +23,27 @@ def terminal_returner(data, **kwargs):
         )
         green_words = kwargs.get("green", "True,Yes,Success,Ok,true,yes,success,ok")
         yellow_words = kwargs.get("yellow", "Warning,warning")
-        # convert colour words to lists
-        red_words = [i.strip() for i in red_words.split(",")]
-        green_words = [i.strip() for i in green_words.split(",")]
-        yellow_words = [i.strip() for i in yellow_words.split(",")]
-        # add colouring to output
-        for red_word in red_words:
-            data = data.replace(red_word, fttr.format(R, red_word, N))
-        for green_word in green_words:
-            data = data.replace(green_word, fttr.format(G, green_word, N))
-        for yeallow_word in yellow_words:
-            data = data.replace(yeallow_word, fttr.format(Y, yeallow_word, N))
+        red_words = kwargs.get("red_words", red_words)
+        green_words = kwargs.get("green_words", green_words)
+        yellow_words = kwargs.get("yellow_words", yellow_words)
+        # map words to their colours
+        colours = {}
+        for words, colour in ((yellow_words, Y), (green_words, G), (red_words, R)):
+            colours.update({i.strip(): colour for i in words.split(",") if i.strip()})
+        # colour text representation of structured data
+        if not hasattr(data, "replace"):
+            data = str(data).replace("\\n", "\n")
+        # add colouring to output in one go to not colour parts of longer words
+        # or of colour codes, longer words first
+        if colours:
+            words_re = "|".join(
+                re.escape(i) for i in sorted(colours, key=len, reverse=True)
+            )
+            data = re.sub(
+                words_re,
+                lambda m: fttr.format(colours[m.group()], m.group(), N),
+                data,
+            )
     # print output
     if _ttp_["python_major_version"] is 2:
         if isinstance(data, str) or isinstance(
-- 
2.43.0


From e8d6d07184ff824bc42503dabdaafdc5aa002a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 068/100] fix: outputs use variables of their template, not of
 the last template parsed

---
 ttp/ttp.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 56c2f75..61d9992 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -523,6 +523,7 @@ class ttp:
         # do not add new results to the lists returned by result method before
         for template in self._templates:
             template.results = copy.copy(template.results)
+            template.last_input_vars = {}
         if one is True:
             self.__parse_in_one_process()
         elif multi is True:
@@ -618,6 +619,7 @@ class ttp:
                         parserObj.parse(groups_indexes=input_obj.groups_indexes)
                         results_data = parserObj.main_results
                 template.form_results(parserObj.get_results())
+            template.last_input_vars = parserObj.vars
 
     @use_own_ttp_dict
     def result(self, templates=None, structure="list", **kwargs):
@@ -719,6 +721,7 @@ class ttp:
             kwargs.setdefault("returner", "self")
 
         def run_outputter(template):
+            template.set_outputs_vars()
             outputter = _outputter_class(
                 _ttp_=self._ttp_, template_obj=template, **kwargs
             )
@@ -1017,6 +1020,7 @@ class _template_class:
         self.templates = []
         self.base_path = base_path
         self.results = []
+        self.last_input_vars = {}  # variables as of the last input parsed
         self.name = name
         # dictionary of macro name to function mapping, copy it as each template has its own macro
         self.macro = dict(ttp_macro)
@@ -1085,8 +1089,14 @@ class _template_class:
             self.get_var_functions()
             [template.add_vars(data) for template in self.templates]
 
+    def set_outputs_vars(self):
+        """Method to make variables of this template available to outputs,
+        including values produced by last input item"""
+        self._ttp_["vars"] = self.last_input_vars or self.vars
+
     def run_outputs(self):
         """Method to run template outputs with template results"""
+        self.set_outputs_vars()
         for output in self.outputs:
             self.results = output.run(self.results, macro=self.macro)
 
@@ -2503,6 +2513,7 @@ class _parser_class:
     def __init__(self, lookups, vars, groups, _ttp_):
         self.lookups = lookups
         self.original_vars = vars
+        self.vars = vars
         self.groups = groups
         self.main_results = {}
         # results of groups with outputs after running them through outputs
-- 
2.43.0


From 81e9a609711cda28d0ab025cc3e05d5d77496526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 069/100] fix: ignore plugin cache that does not hold what is
 expected

---
 ttp/ttp.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 61d9992..a0ded12 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -154,6 +154,7 @@ def lazy_import_functions():
         "global_vars": {},
         "template_obj": {},
         "vars": {},
+        "__version__": __version__,
     }
     log.info("ttp.lazy_import_functions: starting functions lazy import")
 
@@ -163,26 +164,17 @@ def lazy_import_functions():
     try:
         if os.path.isfile(cache_file):
             with open(cache_file, "rb") as f:
-                _ttp_ = pickle.load(f)
-            # use unpickled _ttp_ dictionary if it of the same python version
+                cached_ttp = pickle.load(f)
+            # use unpickled _ttp_ dictionary if it of the same python version,
+            # rebuild it otherwise
             if (
-                _ttp_["python_major_version"] == version_info.major
-                and _ttp_.get("__version__") == __version__
+                cached_ttp["python_major_version"] == version_info.major
+                and cached_ttp.get("__version__") == __version__
             ):
                 log.info(
                     "ttp.lazy_import_functions: loaded _ttp_ dictionary from ttp_dict_cache.pickle"
                 )
-                return _ttp_
-            # rebuilt _ttp_ dictionary as it is of different version
-            else:
-                _ttp_ = {
-                    "macro": {},
-                    "python_major_version": version_info.major,
-                    "global_vars": {},
-                    "template_obj": {},
-                    "vars": {},
-                    "__version__": __version__,
-                }
+                return cached_ttp
     except Exception as e:
         log.warning(
             "ttp.lazy_import_functions: failed load ttp_dict_cache.pickle, loading functions directly, error '{}'".format(
-- 
2.43.0


From a3fb8a81f43259a6325131b2bdf7185188cc86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 070/100] fix: item of empty value raised IndexError

---
 ttp/match/item.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/match/item.py b/ttp/match/item.py
index 83c86a1..9d79300 100644
--- a/ttp/match/item.py
+++ b/ttp/match/item.py
@@ -1,6 +1,9 @@
 def item(data, item_index):
     """Method to return item of iterable at given index"""
     item_index = int(item_index)
+    # nothing to get out of empty list or string
+    if not data:
+        return data, None
     # item_index not out of range
     if 0 <= item_index and item_index <= len(data) - 1:
         return data[item_index], None
-- 
2.43.0


From dd027d313b2707f33a3b82dd1d6049dba488a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 071/100] fix: greaterthan and lessthan raised on superscript
 digits and integer arguments

---
 ttp/match/string.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 8ee6e36..4462a08 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -37,16 +37,27 @@ def notdigit(data):
     return data, False
 
 
+def _to_number(value):
+    """Helper to convert digits to integer, returns None if not all are digits"""
+    value = str(value).strip()
+    try:
+        return int(value) if value.isdigit() else None
+    except ValueError:  # other digits e.g. superscripts
+        return None
+
+
 def greaterthan(data, value):
-    if data.strip().isdigit() and value.strip().isdigit():
-        if int(data.strip()) > int(value.strip()):
+    data_number, value_number = _to_number(data), _to_number(value)
+    if data_number is not None and value_number is not None:
+        if data_number > value_number:
             return data, True
     return data, False
 
 
 def lessthan(data, value):
-    if data.strip().isdigit() and value.strip().isdigit():
-        if int(data.strip()) < int(value.strip()):
+    data_number, value_number = _to_number(data), _to_number(value)
+    if data_number is not None and value_number is not None:
+        if data_number < value_number:
             return data, True
     return data, False
 
-- 
2.43.0


From e0488ffdbc74b82c0dae433f9f86b98ee23c1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 072/100] fix: null path group nested in null path group

---
 ttp/ttp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a0ded12..eeef1f8 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3064,8 +3064,8 @@ class _results_class:
         """
         if PATH:
             name = PATH[0][0]
-            # add support for null path
-            if name == "_":
+            # add support for null path, skip it, several of them as well
+            while name == "_":
                 if len(PATH) == 1:  # reached end of PATH, process DATA and return it
                     if isinstance(DATA, dict):
                         DATA.update(result)
@@ -3140,8 +3140,8 @@ class _results_class:
             if self._ttp_["dynamic_path_key_to_int"]:
                 # convert key to integer if it is integer
                 name = int(name) if name.isdigit() else name
-            # add support for null path
-            if name == "_":
+            # add support for null path, skip it, several of them as well
+            while name == "_":
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
                     return ELEMENT
                 else:  # have more path items, need to skip null path,
-- 
2.43.0


From c14fb992dca3d4d37a0823df2f07729394f6734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 073/100] fix: tail match after empty record of absolute path
 child raised IndexError

---
 ttp/ttp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index eeef1f8..527d2bd 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3192,7 +3192,8 @@ class _results_class:
         if isinstance(E, list) and (
             result_data or isinstance(result_data, (int, float))
         ):
-            if self.record.get("merge_with_last"):
+            # nothing to merge with if empty record was not saved
+            if self.record.get("merge_with_last") and E:
                 self._merge_recursively(E[-1], result_data)
             else:
                 E.append(result_data)
@@ -3221,7 +3222,7 @@ class _results_class:
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
         if isinstance(E, list):
-            copied = E[-1].copy()
+            copied = E[-1].copy() if E else {}
         elif isinstance(E, dict):
             copied = E.copy()
         copied.update(result_data)
-- 
2.43.0


From fe0a726e5dfb78fea7c2201cf525d033b2f9177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 074/100] fix: variables of a line with bare _start_ indicator
 lost

---
 ttp/ttp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 527d2bd..dc22221 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3315,7 +3315,12 @@ class _results_class:
         elif self.is_nested_in_discarded(PATH, REDICT["GROUP"]):
             return
         self.record = {
-            "result": {},
+            # indicators themselves are not results
+            "result": {
+                k: v
+                for k, v in result.items()
+                if k not in ["_start_", "_exact_", "_exact_space_"]
+            },
             "DEFAULTS": DEFAULTS.copy(),
             "PATH": PATH,
             "FUNCTIONS": FUNCTIONS,
-- 
2.43.0


From f0a59ace4f22aef1bfc800ac57e1f57dfb75300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 075/100] fix: joinmatches failed with TypeError joining text
 with list or integer

---
 ttp/ttp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index dc22221..09df3cf 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3375,13 +3375,19 @@ class _results_class:
                 if k in joined_values and k not in self.record["result"]:
                     self.record["result"][k] = copy.copy(joined_values[k])
                 if k in self.record["result"]:  # if we already have results
-                    if isinstance(self.record["result"][k], str):
+                    if isinstance(self.record["result"][k], str) and isinstance(
+                        result[k], str
+                    ):
                         self.record["result"][k] += joinchar + result[k]  # join strings
                     elif isinstance(self.record["result"][k], list):
                         if isinstance(result[k], list):
                             self.record["result"][k] += result[k]  # join lists
                         else:
                             self.record["result"][k].append(result[k])  # append to list
+                    elif isinstance(result[k], list):  # add list to the result
+                        self.record["result"][k] = [self.record["result"][k]] + result[
+                            k
+                        ]
                     else:  # transform result to list and append new result to it
                         self.record["result"][k] = [self.record["result"][k], result[k]]
                 else:
-- 
2.43.0


From 66b7ba8d4271b5a10d0b3024dbf5bda3124f0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:45 +0000
Subject: [PATCH 076/100] fix: value of itemize kept for dynamic path can be
 not a text

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 09df3cf..f2c23a3 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3452,7 +3452,7 @@ class _results_class:
                         repl = str(self.record["result"].pop(m))
                         self.dyn_path_cache[m] = repl
                     elif m in self.dyn_path_cache:
-                        repl = self.dyn_path_cache[m]
+                        repl = str(self.dyn_path_cache[m])
                     elif m in self.variables:
                         repl = str(self.variables[m])
                     else:
-- 
2.43.0


From 3c84888a763a774dd800945d64608732b311af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:45 +0000
Subject: [PATCH 077/100] fix: file that is not proper UTF-8 stopped parsing of
 all data

---
 ttp/utils/loaders.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index d6ee451..6c6ac7c 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -19,6 +19,9 @@ def _load_template_file(filepath, read):
             log.warning(
                 'ttp_utils.load_files: Unicode read error, file "{}"'.format(filepath)
             )
+            # parse what can be decoded instead of failing for all the data
+            with open(filepath, "r", encoding="utf-8", errors="replace") as file_obj:
+                return [("text_data", file_obj.read())]
     else:
         return [("file_name", filepath)]
 
@@ -77,14 +80,7 @@ def load_files(path, extensions=None, filters=None, read=False):
         if read:
             ret = []
             for f in files:
-                if _ttp_["python_major_version"] == 2:
-                    with open((os.path.join(path, f)), "r") as file_obj:
-                        ret.append(("text_data", file_obj.read()))
-                elif _ttp_["python_major_version"] == 3:
-                    with open(
-                        (os.path.join(path, f)), "r", encoding="utf-8"
-                    ) as file_obj:
-                        ret.append(("text_data", file_obj.read()))
+                ret.extend(_load_template_file(os.path.join(path, f), read))
             return ret
         else:
             return [("file_name", os.path.join(path, f)) for f in files]
-- 
2.43.0


From 4767a7b58628a4a196f58b4347e5c6c666228bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 078/100] fix: CLI vars that are valid JSON with apostrophes
 failed to load

---
 ttp/ttp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f2c23a3..8aedab4 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3898,8 +3898,11 @@ def cli_tool():
     if VARS:
         from json import loads
 
-        VARS = VARS.replace("'", '"')
-        ttp_vars = loads(VARS)
+        try:
+            ttp_vars = loads(VARS)
+        # not a valid JSON, could have single quotes instead of double quotes
+        except ValueError:
+            ttp_vars = loads(VARS.replace("'", '"'))
         if not isinstance(ttp_vars, dict):
             log.error(
                 "cli_tool: Error with -v/--vars argument, value type is '{}', value is '{}', expecting dictionary, exiting...".format(
-- 
2.43.0


From 8c77a93f7840f2ccf436b727d0a009b7a6eaa642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 079/100] fix: CLI data was not given to templates that have a
 name

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 8aedab4..cd09eea 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3924,7 +3924,7 @@ def cli_tool():
     # add data and templates
     parser_Obj.add_template(template=ttp_template)
     if DATA:
-        parser_Obj.set_input(data=DATA)
+        parser_Obj.set_input(data=DATA, template_name="_all_")
         timing("Data descriptors loaded")
     timing("Template(s) loaded")
 
-- 
2.43.0


From afc3d74e9e8ef330aba044960ea24976a8b7c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 080/100] fix: CLI outputter name in upper case raised KeyError

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index cd09eea..471f831 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3938,7 +3938,8 @@ def cli_tool():
             OUT_TEMPLATE = []
         else:
             OUT_TEMPLATE = [i.strip() for i in OUT_TEMPLATE.split(",")]
-        if not OUTPUTTER.lower() in supporrted_cli_tool_outputters:
+        OUTPUTTER = OUTPUTTER.lower()
+        if not OUTPUTTER in supporrted_cli_tool_outputters:
             log.error(
                 "ttp.cli: unsupported outputter '{}', supported: {}, will use 'json' outputter".format(
                     OUTPUTTER, ", ".join(supporrted_cli_tool_outputters)
-- 
2.43.0


From 0de78f932dd6650f1cff4795f0dbb09ea4204f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:52 +0000
Subject: [PATCH 081/100] fix: end of a group while no groups started raised
 IndexError

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 471f831..9ab1e47 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3421,7 +3421,8 @@ class _results_class:
             self.record["PATH"] != PATH
             and
             # if below is true, this is child group:
-            REDICT["GROUP"].group_id == self.started_groups[-1]
+            self.started_groups
+            and REDICT["GROUP"].group_id == self.started_groups[-1]
         ):
             return
         # action to end current group by adding it to ended groups
-- 
2.43.0


From 9bfaec1802d8c4374e748a9a1f3a116ac967218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 082/100] fix: seconds and milliseconds of get_timestamp_ms did
 not belong together

---
 ttp/variable/time_funcs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/variable/time_funcs.py b/ttp/variable/time_funcs.py
index dcc1c3f..8263586 100644
--- a/ttp/variable/time_funcs.py
+++ b/ttp/variable/time_funcs.py
@@ -13,7 +13,11 @@ def get_date(*args, **kwargs):
 
 def get_timestamp_ms(*args, **kwargs):
     strformat = "%Y-%m-%d %H:%M:%S.{ms}"
-    return time.strftime(strformat).format(ms=str(time.time()).split(".")[-1][:3])
+    # get time once, for seconds and milliseconds to belong together
+    now = time.time()
+    return time.strftime(strformat, time.localtime(now)).format(
+        ms="{:03d}".format(int(now * 1000) % 1000)
+    )
 
 
 def get_timestamp(*args, **kwargs):
-- 
2.43.0


From 73c02e320ba42e03451ec3519bafde490f59d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 083/100] fix: lookups in results of other templates in
 multiprocess mode

---
 ttp/ttp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9ab1e47..5b75bd9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -549,6 +549,8 @@ class ttp:
                     macro_text=template.macro_text,
                     custom_functions=self._ttp_.get("_custom_functions_", {}),
                     dynamic_path_key_to_int=self._ttp_["dynamic_path_key_to_int"],
+                    ttp_object=self,
+                    template_obj=template,
                 )
                 for i in range(num_processes)
             ]
@@ -909,6 +911,8 @@ class _worker(Process):
         macro_text,
         custom_functions,
         dynamic_path_key_to_int,
+        ttp_object,
+        template_obj,
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
@@ -917,6 +921,9 @@ class _worker(Process):
         for scope, functions in custom_functions.items():
             self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
+        # results of templates parsed before, lookup functions use them
+        self._ttp_["ttp_object"] = ttp_object
+        self._ttp_["template_obj"] = template_obj
         self.task_queue = task_queue
         self.results_queue = results_queue
         self.macro_text = macro_text
-- 
2.43.0


From 532a687a8835cd67610945f5c43754ce9daa454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 084/100] fix: csv lookup tables lost line breaks in cells,
 broke rows at other separators

---
 ttp/utils/loaders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 6c6ac7c..9ff6330 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -271,7 +271,10 @@ def load_csv(text_data, include=None, **kwargs):
     headers = []
     if include:
         text_data = _get_include_data(text_data, include)
-    for row in reader(iter(text_data.splitlines())):
+    # keep new lines, quoted cells can have them; do not use splitlines - it also
+    # splits at other characters, that can be part of a cell
+    lines = text_data.replace("\r\n", "\n").replace("\r", "\n").split("\n")
+    for row in reader(line + "\n" for line in lines):
         if not row:
             continue
         if not headers:
-- 
2.43.0


From a0398d50a14d92d34a8cfd79d99a40fcef4f734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:21 +0000
Subject: [PATCH 085/100] fix: defaults of groups without matches went before
 matches past 10 MB of text

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 5b75bd9..3d7986e 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2710,7 +2710,8 @@ class _parser_class:
             if not group_start_found:
                 # handle group with no matches but with start re default values
                 if group.has_start_re_default:
-                    key = 10000000
+                    # results of groups with no matches go after all matches of the text
+                    key = max(10000000, len(self.DATATEXT))
                     # group.start_re == [] only for tag with no regexes
                     start_re = (
                         {"ACTION": "start", "VARIABLES": group.runs, "GROUP": group}
-- 
2.43.0


From db522001837b7ffd77589666b052e5579adc0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:17 +0000
Subject: [PATCH 086/100] fix: extract_commands output ends at lines that
 mention the hostname, CRLF texts are not searched

---
 ttp/input/commands.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ttp/input/commands.py b/ttp/input/commands.py
index 661b47f..1e94928 100644
--- a/ttp/input/commands.py
+++ b/ttp/input/commands.py
@@ -7,12 +7,15 @@ def extract_commands(data, *commands):
     hostname = _ttp_["variable"]["gethostname"](data, "input find_command function")
     if hostname:
         for command in commands:
-            regex = r"{}[#>] *{} *\n([\S\s]*?)(?={}[#>]|$)".format(
-                escape(hostname), escape(command), escape(hostname)
+            # prompt is at the beginning of the line, hostname can be a part of
+            # other lines of the output
+            prompt = r"\n(?:\S*[^\w\s.-])?{}[#>]".format(escape(hostname))
+            regex = r"{} *{} *(?=\r?\n)[\S\s]*?(?={}|$)".format(
+                prompt, escape(command), prompt
             )
             match = search(regex, data)
             if match:
-                ret += "\n{}\n".format(match.group())
+                ret += "{}\n\n".format(match.group())
         if ret:
             return ret, None
     return data, None
-- 
2.43.0


From ab2701031a7ff38024c9b8d5c110dbd61fe57df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:17 +0000
Subject: [PATCH 087/100] fix: order of groups is lost when data is added to an
 input with nine or more groups

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 3d7986e..e800b38 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1157,7 +1157,7 @@ class _template_class:
         if input_obj.name in self.inputs:
             self.inputs[input_obj.name].load_data(data=input_obj.data)
             self.inputs[input_obj.name].groups_indexes += input_obj.groups_indexes
-            self.inputs[input_obj.name].groups_indexes = list(
+            self.inputs[input_obj.name].groups_indexes = sorted(
                 set(self.inputs[input_obj.name].groups_indexes)
             )
             del input_obj
-- 
2.43.0


From df322085a61eca92068e3f753fab2e170678ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:17 +0000
Subject: [PATCH 088/100] fix: gethostname strips first letters of the hostname
 that are BOM characters

---
 ttp/variable/gethostname.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/variable/gethostname.py b/ttp/variable/gethostname.py
index 1a0e5c8..24ddd40 100644
--- a/ttp/variable/gethostname.py
+++ b/ttp/variable/gethostname.py
@@ -39,7 +39,8 @@ def gethostname(data, *args, **kwargs):
             match = next(match_iter)
             hostname_match = match.group(1)
             for i in UTF_BOM:
-                hostname_match = hostname_match.lstrip(i)
+                if hostname_match.startswith(i):
+                    hostname_match = hostname_match[len(i) :]
             return hostname_match
         except StopIteration:
             continue
-- 
2.43.0


From c5d2d3333ab2c4ba23535f52965d3a913abfd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:21 +0000
Subject: [PATCH 089/100] fix: attributes of template tag are lost when it has
 text only

---
 ttp/ttp.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index e800b38..da1f956 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1530,13 +1530,11 @@ class _template_class:
                 )
         except ET.ParseError as e:
             template_ET = ET.XML("<template>\n{}\n</template>".format(template_text))
-        # check if template has children, if not, make it an _anonymous_  group
+        # check if template has children, if not, make its text an _anonymous_  group
         if not list(template_ET):
-            template_ET = ET.XML(
-                '<template><group name="_anonymous_">\n{}\n</group></template>'.format(
-                    template_text
-                )
-            )
+            group = ET.SubElement(template_ET, "group", {"name": "_anonymous_"})
+            group.text = "\n{}\n".format(template_ET.text or "")
+            template_ET.text = None
         return template_ET
 
     def load_template_xml(self, template_text):
-- 
2.43.0


From e2a3f17897d78da5fc4985f44e6212d25aa49f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:22 +0000
Subject: [PATCH 090/100] fix: text after child template tag fails loading of
 the template

---
 ttp/ttp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index da1f956..69ea66a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1296,6 +1296,8 @@ class _template_class:
         if self.filters:
             if not element.attrib.get("name", None) in self.filters:
                 return
+        # text that comes after child template tag is not a part of it
+        element.tail = None
         self.templates.append(
             _template_class(
                 template_text=ET.tostring(element, encoding="UTF-8"),
-- 
2.43.0


From 0f5f43b281a4162ed8648adf618617ec160d712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:22 +0000
Subject: [PATCH 091/100] fix: digits that are not integers fail
 dynamic_path_key_to_int

---
 ttp/ttp.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 69ea66a..5b6de4f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3058,6 +3058,15 @@ class _results_class:
             "GRP_ID": None,
         }
 
+    def key_to_int(self, name):
+        """Helper method to convert path item to integer, returns it as is if it is not
+        an integer, e.g. superscript digits are digits but cannot be converted
+        """
+        try:
+            return int(name) if name.isdigit() else name
+        except ValueError:
+            return name
+
     def value_to_list(self, DATA, PATH, result):
         """recursive function to get value at given PATH and transform it into the list
         Example:
@@ -3085,7 +3094,7 @@ class _results_class:
                     name = PATH[0][0]
             if self._ttp_["dynamic_path_key_to_int"]:
                 # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
+                name = self.key_to_int(name)
             if isinstance(DATA, dict):
                 if name in DATA:
                     DATA[name] = self.value_to_list(DATA[name], PATH[1:], result)
@@ -3121,7 +3130,7 @@ class _results_class:
             asterisk_count = KEYS[0][1]
             if self._ttp_["dynamic_path_key_to_int"]:
                 # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
+                name = self.key_to_int(name)
             if asterisk_count == "*":  # if one * at the end - make a list
                 if len(KEYS) == 1:  # if KEYS=[1,2,3,4*], returns {1:{2:{3:{4:[{}]}}}}
                     return {name: []}  # if last item in PATH - return emplty list
@@ -3147,7 +3156,7 @@ class _results_class:
             name = PATH[0][0]
             if self._ttp_["dynamic_path_key_to_int"]:
                 # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
+                name = self.key_to_int(name)
             # add support for null path, skip it, several of them as well
             while name == "_":
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
@@ -3156,7 +3165,7 @@ class _results_class:
                     _ = PATH.pop(0)  # remove null path item to skip it
                     name = PATH[0][0]
                     if self._ttp_["dynamic_path_key_to_int"]:
-                        name = int(name) if name.isdigit() else name
+                        name = self.key_to_int(name)
             if name in ELEMENT:  # check if first element of the list is in ELEMENT
                 return self.dict_by_path(
                     PATH[1:], ELEMENT[name]
-- 
2.43.0


From 617b45195c64a6036a22f5f5181d12434be6495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:22 +0000
Subject: [PATCH 092/100] fix: dynamic path variables next to each other
 without spaces and with special characters are not replaced

---
 ttp/ttp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 5b6de4f..815972b 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3458,10 +3458,10 @@ class _results_class:
         for index, path_item in enumerate(path):
             asterisk_count = len(path_item) - len(path_item.rstrip("*"))
             path_item = path_item.rstrip("*")
-            match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
+            match = re.findall(r"{{\s*(\S+?)\s*}}", path_item)
             if match:
                 for m in match:
-                    pattern = r"{{\s*" + m + r"\s*}}"
+                    pattern = r"{{\s*" + re.escape(m) + r"\s*}}"
                     # result is not a dictionary if it was itemized
                     if (
                         isinstance(self.record["result"], dict)
-- 
2.43.0


From 26c5069a249d294048d00efb5dfc9f537f60368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:47 +0000
Subject: [PATCH 093/100] fix: groups nested in a group without lines do not
 follow the group above it

---
 ttp/ttp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 815972b..c795373 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1793,6 +1793,7 @@ class _group_class:
         pathchar=".",
         vars=None,
         parent_group_id=None,
+        parent_indexes=(),
     ):
         """Init method
         Attributes:
@@ -1837,7 +1838,7 @@ class _group_class:
         self.grp_index = grp_index
         # indexes of all parents and of this group, names can repeat - groups of
         # different parents can have same absolute path
-        self.grp_indexes = (parent_group_id[1] if parent_group_id else ()) + (grp_index,)
+        self.grp_indexes = parent_indexes + (grp_index,)
         self.inputs = []
         self.attributes = {}
         # extract data:
@@ -2050,7 +2051,12 @@ class _group_class:
                     pathchar=self.pathchar,
                     vars=self.vars,
                     grp_index=g_index,
-                    parent_group_id=self.group_id,
+                    # group without start lines never starts, its child groups
+                    # are nested in the group above it
+                    parent_group_id=self.group_id
+                    if self.start_re
+                    else self.parent_group_id,
+                    parent_indexes=self.grp_indexes,
                     _ttp_=self._ttp_,
                 )
             )
-- 
2.43.0


From 345a7bdc377e0668753657911b83320506880394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:47 +0000
Subject: [PATCH 094/100] fix: doc and macro tags without content fail load of
 template

---
 ttp/ttp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c795373..2b2c233 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1273,6 +1273,9 @@ class _template_class:
 
     def parse_macro(self, element):
         funcs = {}
+        # macro tag without content has no functions
+        if not element.text:
+            return
         # extract macro with all the __builtins__ provided
         try:
             funcs = self._ttp_["utils"]["load_python_exec"](
@@ -1289,7 +1292,7 @@ class _template_class:
             )
 
     def parse_doc(self, element):
-        self.__doc__ += element.text + "\n"
+        self.__doc__ += (element.text or "") + "\n"
 
     def parse_template(self, element, template_index):
         # skip child templates that are not in requested children list
-- 
2.43.0


From b25baaadeb810c872ee8a5d9b2fbbdd89bb33ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:48 +0000
Subject: [PATCH 095/100] fix: lines before end lines rejected by conditions
 are lost

---
 ttp/ttp.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2b2c233..c283086 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2744,6 +2744,17 @@ class _parser_class:
                 if not end_matches:
                     continue
                 check_matches(R, end_matches, results, start)
+                # lines rejected by conditions do not end the group
+                end_matches = [
+                    match
+                    for match in end_matches
+                    if any(
+                        item[0] is R
+                        for item in results.get(start + match.span()[0], [])
+                    )
+                ]
+                if not end_matches:
+                    continue
                 # make e bigger if e is smaller than last end match
                 # and last end match is bigger than last start match
                 if e < end_matches[-1].span()[1] and end_matches[-1].span()[1] > se:
-- 
2.43.0


From 445ec00056df018c7d36e3671f1f068f76e75dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:48 +0000
Subject: [PATCH 096/100] fix: lines are added to records of other groups of
 the same path

---
 ttp/ttp.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c283086..62aeb29 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3367,7 +3367,10 @@ class _results_class:
     def add(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
-        if self.record["PATH"] == PATH:  # if same path - save into self.record
+        if (
+            self.record["PATH"] == PATH
+            and self.record["GRP_ID"] == REDICT["GROUP"].group_id
+        ):  # if same path and group - save into self.record
             # update without overriding already existing values:
             result.update(self.record["result"])
             self.record["result"] = result
@@ -3391,8 +3394,11 @@ class _results_class:
     def join(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
-        # if same path - save into self.record
-        if self.record["PATH"] == PATH:
+        # if same path and group - save into self.record
+        if (
+            self.record["PATH"] == PATH
+            and self.record["GRP_ID"] == REDICT["GROUP"].group_id
+        ):
             # retrieve joinchar to use
             joinchar = "\n"
             for varname, varvalue in result.items():
-- 
2.43.0


From 7345b036559dc1a839eb50907d63e5c060b2422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:07 +0000
Subject: [PATCH 097/100] fix: lines with _exact_space_ and _start_, _end_ or
 set match only with a trailing space

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 62aeb29..0638fd5 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2395,7 +2395,11 @@ class _variable_class:
                 # slice regex string before esc_var start:
                 result = self.regex[:index]
                 # delete "[ \\t]+$" from end of line and add "[\t ]*(?=\n|\r\n)"
-                result = re.sub(r"(\[ \\t\]\+)$", "", result) + r"[\t ]*(?=\n|\r\n)"
+                # or spaces as they are if _exact_space_ used
+                result = (
+                    re.sub(r"(\[ \\t\]\+|(\\ |\\\t)+)$", "", result)
+                    + r"[\t ]*(?=\n|\r\n)"
+                )
                 # prior to 0.8.0 variant that only accounts for spaces
                 # result = re.sub(r"(\\ \+)$", "", result) + r"[\t ]*(?=\n|\r\n)"
             if result:
-- 
2.43.0


From 1b74859ddfca9e691a89b57e013e7fb4c7381713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:20 +0000
Subject: [PATCH 098/100] fix: lookups fail or give None when there is no
 dictionary at the path

---
 ttp/group/lookup.py | 10 ++++++----
 ttp/match/lookup.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index c332846..4091279 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -28,7 +28,7 @@ def lookup(
             if template.name == path[0]:
                 # use first input results in the template:
                 if isinstance(template.results, list):
-                    lookup_data = template.results[0]
+                    lookup_data = template.results[0] if template.results else {}
                 # if not list its dictionary, per_template results mode used
                 else:
                     lookup_data = template.results
@@ -52,11 +52,13 @@ def lookup(
         return data, None
     # traverse to lookup data
     for i in path:
-        lookup_data = lookup_data.get(i, {})
+        lookup_data = lookup_data.get(i, {}) if isinstance(lookup_data, dict) else {}
+    if not isinstance(lookup_data, dict):
+        return data, None
+
     # perform lookup:
     try:
-        if isinstance(lookup_data, dict):
-            found_value = deepcopy(lookup_data[data[key]])
+        found_value = deepcopy(lookup_data[data[key]])
     except KeyError:
         return data, None
     # decide what action to do with found value
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 0c9a565..6363785 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -19,7 +19,7 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
             if template.name == path[0]:
                 # use first input results in the template:
                 if isinstance(template.results, list):
-                    lookup_data = template.results[0]
+                    lookup_data = template.results[0] if template.results else {}
                 # if not list its dictionary, per_template results mode used
                 else:
                     lookup_data = template.results
@@ -42,7 +42,9 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
         log.info("ttp.lookup no lookup data name provided, doing nothing.")
         return data, None
     for i in path:
-        lookup_data = lookup_data.get(i, {})
+        lookup_data = lookup_data.get(i, {}) if isinstance(lookup_data, dict) else {}
+    if not isinstance(lookup_data, dict):
+        return data, None
     # perform lookup:
     try:
         found_value = deepcopy(lookup_data[data])
@@ -62,7 +64,7 @@ def rlookup(data, name, add_field=False):
     try:
         rlookup = _ttp_["parser_object"].lookups
         for i in path:
-            rlookup = rlookup.get(i, {})
+            rlookup = rlookup.get(i, {}) if isinstance(rlookup, dict) else {}
     except KeyError:
         return data, None
     # perfrom rlookup:
@@ -88,7 +90,7 @@ def gpvlookup(data, name, add_field=False, record=False, multimatch=False):
     try:
         lookup_data = _ttp_["parser_object"].lookups
         for i in path:
-            lookup_data = lookup_data.get(i, {})
+            lookup_data = lookup_data.get(i, {}) if isinstance(lookup_data, dict) else {}
     except KeyError:
         log.error("gpvlookup: lookup data not found")
         return data, None
-- 
2.43.0


From a8b40ddee0e5ae855fa9024c24af8adb0a75e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:35 +0000
Subject: [PATCH 099/100] fix: records are lost when another regex rejects
 their start line

---
 ttp/ttp.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 0638fd5..172b915 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2902,6 +2902,21 @@ class _results_class:
         for group_results in raw_results:
             # iterate over each match result for the group
             for result in group_results:
+                # same line can be start line of several groups, and can be rejected by
+                # some of regexes and accepted by others
+                accepted = [item for item in result if item[1] is not False]
+                # check if result is false, add group to ended groups if so
+                if not any(item[0]["ACTION"].startswith("start") for item in accepted):
+                    for item in result:
+                        if item[1] is False:
+                            self.ended_groups.add(item[0]["GROUP"].group_id)
+                            self.ended_groups.update(
+                                item[0]["GROUP"].get_descendants_ids()
+                            )
+                if not accepted:
+                    continue
+                result = accepted
+
                 # if result been matched by one regex only
                 if len(result) == 1:
                     re_ = result[0][0]
@@ -3006,19 +3021,9 @@ class _results_class:
 
                 group = re_["GROUP"]
 
-                # check if result is false, add group to ended groups if so
-                if result_data == False:
-                    # same line can be start line of several groups
-                    for item in result:
-                        if item[1] == False:
-                            self.ended_groups.add(item[0]["GROUP"].group_id)
-                            self.ended_groups.update(
-                                item[0]["GROUP"].get_descendants_ids()
-                            )
-                    continue
                 # if parent is ended skip this child group results, end child group
                 # as well, so that results of its own children skipped too
-                elif re_["GROUP"].parent_group_id in self.ended_groups:
+                if re_["GROUP"].parent_group_id in self.ended_groups:
                     self.ended_groups.add(re_["GROUP"].group_id)
                     continue
                 # evaluate results to check if need to un-end ended group
-- 
2.43.0


From bce05b2ab4ec4a889bb3082cacf292f9ab47433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:05 +0000
Subject: [PATCH 100/100] fix: conditions of groups take defaults for values
 after nested records

---
 ttp/ttp.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 172b915..53e2eef 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3397,8 +3397,6 @@ class _results_class:
             )
             # mark new record as needed to be merged with last item in results
             self.record["merge_with_last"] = True
-            # no need to add DEFAULTS for this record, DEFAULTS added by previous group
-            self.record["DEFAULTS"] = {}
 
     def join(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
@@ -3459,8 +3457,6 @@ class _results_class:
             )
             # mark new record as needed to be merged with last item in results
             self.record["merge_with_last"] = True
-            # no need to add DEFAULTS for this record as DEFAULTS processed already by previous group record
-            self.record["DEFAULTS"] = {}
             # join these results with the ones matched before child group started
             self.join(result=result, PATH=PATH, REDICT=REDICT)
 
@@ -3521,11 +3517,13 @@ class _results_class:
 
     def processgrp(self):
         """Method to process group results"""
-        # add default values to group results
-        for k, v in self.record["DEFAULTS"].items():
-            if k not in self.record["result"]:
-                # copy value, otherwise records share it
-                self.record["result"][k] = copy.deepcopy(v)
+        # add default values to group results, no need to add them for tail match, as
+        # they were added with previous matches of this record
+        if not self.record.get("merge_with_last"):
+            for k, v in self.record["DEFAULTS"].items():
+                if k not in self.record["result"]:
+                    # copy value, otherwise records share it
+                    self.record["result"][k] = copy.deepcopy(v)
         # if merge_with_last - tail match, attempt to reconstruct group result
         # this only will work if self.record["result"] contains enough info to form PATH
         if self.record.get("merge_with_last") is True:
-- 
2.43.0

