From 63d3d64b84bab7ad0c5c0165a5072e1b2d5fd35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 01/19] fix: solve() no longer loops forever on sudokus without
 a solution

---
 sudokutools/solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index e86cc97..1977948 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -583,6 +583,12 @@ def solve(sudoku, report=lambda step: None):
         else:
             break
 
+        # A field without any candidates left means, that there is no
+        # solution. Stop here, since CalculateCandidates would calculate
+        # (and other steps would remove) them over and over again.
+        if not all(solution.get_candidates(row, col) for row, col in solution):
+            break
+
     return solution
 
 
-- 
2.43.0


From ae585e84f35ab114945f6e3d8f54036409f710df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 02/19] fix: SolveStep.apply() can be repeated after an
 interrupt while building its actions

---
 sudokutools/solvers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index 1977948..e6f63ca 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -107,7 +107,13 @@ class SolveStep(object):
     def apply(self, sudoku):
         """Apply this solve step to the sudoku."""
         if not self.actions:
-            self.build_actions(sudoku)
+            try:
+                self.build_actions(sudoku)
+            except BaseException:
+                # Don't keep an incomplete list of actions (e.g. on Ctrl-C),
+                # because it would be used, if apply() is called again.
+                del self.actions[:]
+                raise
 
         for action in self.actions:
             action.func(sudoku, action.row, action.col, action.value)
-- 
2.43.0


From 83a8bb0f93b80efdf542d2d8649044f6636f5f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 03/19] fix: shell commands get and get_candidates print their
 result instead of failing

---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 20c2ecb..90e40fa 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -327,7 +327,7 @@ class Shell(object):
         self.stack = []
 
     def _print(self, s, end='\n'):
-        self.outfile.write(s + end)
+        self.outfile.write(str(s) + end)
         self.outfile.flush()
 
     def error(self, s):
-- 
2.43.0


From 009e0cc07fc965efa5a572716ad8a8eb1c08d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 04/19] fix: the shell's help command works again with current
 Python versions

---
 sudokutools/shell.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 90e40fa..705bc53 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -198,7 +198,14 @@ def signature_str(func):
         'a b=3'
     """
     arg_str = []
-    spec = inspect.getargspec(func)
+
+    # getargspec() was removed in Python 3.11,
+    # getfullargspec() doesn't exist in Python 2.
+    if hasattr(inspect, "getfullargspec"):
+        spec = inspect.getfullargspec(func)
+    else:
+        spec = inspect.getargspec(func)
+
     args, defaults = spec.args, spec.defaults
 
     # ignore first argument on methods.
-- 
2.43.0


From d1514c4a82dad023621b4c076100f554cb2a5ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 05/19] fix: the shell ignores the rest of a line after exit

---
 sudokutools/shell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 705bc53..c88e214 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -380,6 +380,10 @@ class Shell(object):
             except ValueError as e:
                 self.error(e)
 
+            # ignore the rest of the line after exit
+            if not self.running:
+                break
+
     def run(self):
         if self.interactive:
             self._print("sudokutools shell %s" % __version__)
-- 
2.43.0


From ba307f62a706a7bab34dce1eee55fcc13f244d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 06/19] fix: malformed arguments like {[1]:2} no longer end an
 interactive shell

---
 sudokutools/shell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index c88e214..234fe87 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -255,7 +255,9 @@ def parse(s):
                     else:
                         args.append(literal_eval(value))
 
-            except (SyntaxError, ValueError):
+            # literal_eval() may raise any of these on malformed input.
+            except (SyntaxError, ValueError, TypeError, MemoryError,
+                    RuntimeError):
                 raise ValueError("Invalid argument: %s " % value +
                                  "(Did you forget quotation marks?)")
 
-- 
2.43.0


From 46b93a56b1d873091fcc33920055e394fb090eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 07/19] fix: Ctrl-C in the shell drops the current line instead
 of prepending it to the next one

---
 sudokutools/shell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 234fe87..46719ad 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -397,6 +397,9 @@ class Shell(object):
                 self._print(self.prompt, end='')
                 line = self.infile.readline()
             except KeyboardInterrupt:
+                # forget the first part of a wrapped line.
+                lines = ""
+
                 if self.interactive:
                     self._print("\nUse 'exit' to leave the shell.")
                     line = "\n"
@@ -431,6 +434,9 @@ class Shell(object):
                         self.execute_line(lines)
                     lines = ""
             except KeyboardInterrupt:
+                # don't execute the interrupted line again.
+                lines = ""
+
                 self._print("")
 
                 if not self.interactive:
-- 
2.43.0


From efee11ea3749f0b3b6d1eeb420244524561ca71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 08/19] fix: an interrupted loop no longer leaves the shell
 recording commands

---
 sudokutools/shell.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 46719ad..d2e4d01 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -487,15 +487,17 @@ class Shell(object):
             if not self.__loop_n:
                 return self.error("No loop defined.")
 
+            # stop recording before the commands are run, so the shell
+            # isn't left in between if they are interrupted.
+            loop_n, commands = self.__loop_n, self.__loop_command_list
             self.prompt = self.command_prompt
+            self.__loop_n = None
+            self.__loop_command_list = []
 
             # run commands
-            for _ in range(self.__loop_n):
-                for command in self.__loop_command_list:
+            for _ in range(loop_n):
+                for command in commands:
                     self.execute(*command)
-
-            self.__loop_n = None
-            self.__loop_command_list = []
         else:
             try:
                 n = int(n)
-- 
2.43.0


From 196b8880fd5a290ebcef4b7b9aea430df287f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 09/19] fix: the shell's clear command writes to the output of
 its shell

---
 sudokutools/shell.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index d2e4d01..624e54d 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -284,17 +284,6 @@ def parse(s):
         return func, special_args, args, kwargs
 
 
-def clear():
-    """Clear the terminal screen."""
-
-    # For some reason, the standard VT100 control
-    # sequence doesn't work on Windows.
-    if platform.system() == "Windows":
-        os.system("cls")
-    else:
-        print("\033[H\033[J", end="")
-
-
 class Shell(object):
     def __init__(
             self, interactive=None, infile=sys.stdin, outfile=sys.stdout,
@@ -542,6 +531,16 @@ class Shell(object):
 
         self.sudoku = self.stack.pop(position)
 
+    def clear_command(self):
+        """Clear the terminal screen."""
+
+        # For some reason, the standard VT100 control
+        # sequence doesn't work on Windows.
+        if platform.system() == "Windows":
+            os.system("cls")
+        else:
+            self._print("\033[H\033[J", end="")
+
     def solve_command(self, sudoku):
         """Solve the current sudoku."""
         return next(bruteforce(sudoku))
@@ -566,7 +565,7 @@ COMMANDS = {
     # printing
     "encode": (Sudoku.encode, "sudoku"),
     "print": (Sudoku.__str__, "sudoku"),
-    "clear": (clear,),
+    "clear": (Shell.clear_command, "shell"),
     "view": (view, "sudoku"),
 
     # solving
-- 
2.43.0


From ef368a65b071a5e07031fb6b55150e14e52aad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 10/19] fix: the game's settings command lists the settings
 instead of failing

---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 624e54d..4764b58 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -114,7 +114,7 @@ class GameShell(object):
                     print(s)
             elif command == "settings":
                 for key in sorted(self.settings):
-                    value, desc = self.settings[key]
+                    value, desc = self.settings[key], self.settings_desc[key]
                     s = "%s = %s" % (key, value)
                     s = s.ljust(20, " ")
                     s += " # %s" % desc
-- 
2.43.0


From 9301db9d6c9de487041eb69c3252a2404ba22bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:46 +0000
Subject: [PATCH 11/19] fix: the game's hints follow changes of the candidates
 (e.g. undo)

---
 sudokutools/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 4764b58..58014d2 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -87,7 +87,8 @@ class GameShell(object):
             command = splitted[0]
 
             if command == "hint":
-                if self.hints is None or self.hinted_sudoku != sudoku:
+                if self.hints is None or not sudoku.equals(
+                        self.hinted_sudoku, candidates=True):
                     self.hinted_sudoku = sudoku.copy(include_candidates=True)
                     self.hints = hints(sudoku)
                 try:
-- 
2.43.0


From cdbe6efab926e5df8b917e7f07393c5dccb0544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 12/19] fix: decode() of a group ending without numbers raises
 ValueError

---
 sudokutools/notation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index bece0f8..5a38dd1 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -268,6 +268,11 @@ def _decode_single(group, width=3, height=3, nsep=""):
         else:
             numbers = [int(n) - 1 for n in number_str.split(nsep)]
 
+        if not numbers:
+            raise ValueError(
+                "Malformed group '%s'. No numbers given for '%s'" %
+                (group, current))
+
         all_numbers[current] = numbers
     elif not present:
         raise ValueError("Empty group '%s'" % group)
-- 
2.43.0


From 6adfedd81ed09cefc1a2abffe2543747b0b63b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:53 +0000
Subject: [PATCH 13/19] fix: a blank line no longer ends the game shell

---
 sudokutools/shell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 58014d2..bf7df9c 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -84,6 +84,11 @@ class GameShell(object):
             print("> ", end="")
             line = input()
             splitted = line.split()
+
+            # ignore blank lines
+            if not splitted:
+                continue
+
             command = splitted[0]
 
             if command == "hint":
-- 
2.43.0


From 044328a77b539e8cc395bedcef6f80e1494fe453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:43 +0000
Subject: [PATCH 14/19] fix: emptying a field with SetNumber no longer leaves 0
 as a candidate

---
 sudokutools/actions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudokutools/actions.py b/sudokutools/actions.py
index 385d243..cf54b2c 100644
--- a/sudokutools/actions.py
+++ b/sudokutools/actions.py
@@ -20,7 +20,9 @@ class SetNumber(object):
     def __call__(self, sudoku):
         for row, col in self.coordinates:
             sudoku.set_number(row, col, self.number)
-            sudoku.set_candidates(row, col, {self.number})
+            # 0 (an empty field) is not a candidate.
+            sudoku.set_candidates(
+                row, col, {self.number} if self.number else set())
 
     def __str__(self):
         return "SetNumber(%s, %s)" % (
-- 
2.43.0


From 7aac34d4d5064c09d0a5f09c1cc6a32e443cab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 15/19] fix: decode_action() rejects numbers, which are no
 numbers of the sudoku

---
 sudokutools/notation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 5a38dd1..46b1f25 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -313,6 +313,12 @@ def decode_action(s, width=3, height=3):
     elif "=" in s:
         left, sep, right = s.partition("=")
         number = int(right)
+
+        if not 0 <= number <= width * height:
+            raise ValueError(
+                "Invalid number %d for width = %d, height = %d." % (
+                    number, width, height))
+
         coordinates = decode(left, width=width, height=height)
         return SetNumber(coordinates, number)
     else:
-- 
2.43.0


From 53c47651a6f77ec48592aba7a24b1ed18d242cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:58 +0000
Subject: [PATCH 16/19] fix: decode() rejects rows, columns, boxes and parts
 out of range

---
 sudokutools/notation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 46b1f25..dc6481e 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -282,6 +282,12 @@ def _decode_single(group, width=3, height=3, nsep=""):
         # A set will only be added, if the
         # list in all_numbers is not empty.
         for number in numbers:
+            if not 0 <= number < width * height:
+                raise ValueError(
+                    "Invalid number %d in group '%s' for "
+                    "width = %d, height = %d." % (
+                        number + 1, group, width, height))
+
             all_sets[key].update(
                 all_funcs[key](number, width=width, height=height))
 
-- 
2.43.0


From d0bac5f2814c0438cc0f188e61371e274ddd7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 17/19] fix: decode() rejects an item repeated directly (e.g.
 r1r2c3)

---
 sudokutools/notation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index dc6481e..39367b4 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -227,7 +227,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
     number_str = ""     # An accumulation of all numbers for the current item.
 
     for c in group:
-        if c in present:
+        if c in present or c == current:
             raise ValueError(
                 "Malformed group '%s'. '%s' has multiple occurrences." %
                 (group, c))
-- 
2.43.0


From 21c144044f0579cb75b89c7ccbab70f4dadffcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:59 +0000
Subject: [PATCH 18/19] fix: drop the second range check of decode() again,
 coordinates.py has one (reverts 53c4765)

---
 sudokutools/notation.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 39367b4..2d8457f 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -282,12 +282,6 @@ def _decode_single(group, width=3, height=3, nsep=""):
         # A set will only be added, if the
         # list in all_numbers is not empty.
         for number in numbers:
-            if not 0 <= number < width * height:
-                raise ValueError(
-                    "Invalid number %d in group '%s' for "
-                    "width = %d, height = %d." % (
-                        number + 1, group, width, height))
-
             all_sets[key].update(
                 all_funcs[key](number, width=width, height=height))
 
-- 
2.43.0


From 1eec481953c4d32b0d7e27b3a8f4d0cf062d457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:37 +0000
Subject: [PATCH 19/19] fix: decode() compares the character of empty fields by
 value, not by identity

---
 sudokutools/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 6539d81..0c93d22 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -394,7 +394,7 @@ class Sudoku(object):
             items = sudoku_str
 
         for item in items:
-            if item is empty:
+            if item == empty:
                 sudoku[row, col] = 0
             else:
                 sudoku[row, col] = int(item)
-- 
2.43.0

