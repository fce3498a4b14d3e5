From 9703f9b14d454e70a1ec89e38e07dc953251446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 01/41] fix: give flags written in a cluster their primary
 representation

---
 pash_annotations/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 1cc3a2e..40edda3 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -40,7 +40,8 @@ def parse(command) -> CommandInvocationInitial:
             i += 1  # since we consumed another term for the argument
         elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
             for split_el in list(potential_flag_or_option[1:]):
-                flag: Flag = Flag(f'-{split_el}')
+                flag_spelling: str = f'-{split_el}'
+                flag: Flag = Flag(dict_flag_to_primary_repr.get(flag_spelling, flag_spelling))
                 flag_option_list.append(flag)
         else:
             break  # next one is Operand, and we keep these in separate list
-- 
2.43.0


From ab3ceed38d5c7f1e4cf347f23b037d8d4465fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 02/41] fix: recognise a newline or null character at the start
 of an operand

---
 pash_annotations/datatypes/BasicDatatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index e370463..2660a97 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -111,11 +111,11 @@ class Operand(BaseClassForBasicDatatypes):
 
     def contains_new_line(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\n") > 0
+        return name_as_string.find(r"\n") >= 0
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\0") > 0
+        return name_as_string.find(r"\0") >= 0
 
     def to_arg_string_type(self):
         return ArgStringType(self.name)
-- 
2.43.0


From a8647f13829779e1571d901d1195556d2f4b73b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 03/41] fix: inferring parallelizers no longer changes the
 stored parallelizer list

---
 .../annotation_generation/datatypes/ParallelizabilityInfo.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
index c329b81..217184e 100644
--- a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
+++ b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
@@ -29,7 +29,7 @@ class ParallelizabilityInfo:
 
     def get_inferred_parallelizer_list(self):
         # add round robin with unwrap parallelizer for commutative command
-        parallelizer_list = self.parallelizer_list
+        parallelizer_list = list(self.parallelizer_list)
         for parallelizer in self.parallelizer_list:
             if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks():
                 parallelizer_list.append(make_parallelizer_round_robin_with_unwrap_from_other(parallelizer))
-- 
2.43.0


From 7efdc633ddf3abcf24ddc0fc97b7adaf9a31ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 04/41] fix: parse long options whose argument is given with an
 equal sign

---
 pash_annotations/parser/parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 40edda3..5a97f27 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -38,6 +38,10 @@ def parse(command) -> CommandInvocationInitial:
             option = Option(option_name_as_string, option_arg_as_string)
             flag_option_list.append(option)
             i += 1  # since we consumed another term for the argument
+        elif is_long_option_with_equal_sign(potential_flag_or_option, set_of_all_options):
+            long_option, _, option_arg_as_string = potential_flag_or_option.partition('=')
+            option_name_as_string: str = dict_option_to_primary_repr.get(long_option, long_option)
+            flag_option_list.append(Option(option_name_as_string, option_arg_as_string))
         elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
             for split_el in list(potential_flag_or_option[1:]):
                 flag_spelling: str = f'-{split_el}'
@@ -116,6 +120,11 @@ def get_dict_option_to_primary_repr(json_data):
 #             dict_option_to_class_for_arg[option_name] = WhichClassForArg.ARGSTRING
 #     return dict_option_to_class_for_arg
 
+def is_long_option_with_equal_sign(potential_option, set_of_all_options):
+    # e.g. --lines=10 which is the same as --lines 10
+    long_option, equal_sign, _ = potential_option.partition('=')
+    return equal_sign == '=' and long_option.startswith('--') and long_option in set_of_all_options
+
 def are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
     if potential_flag_or_option[0] != '-' or potential_flag_or_option == '-':
         return False
-- 
2.43.0


From e04de84adc8c2bc4ba35f7245a2f595fa7d55083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 05/41] fix: give the long forms of the grep options their
 primary representation

---
 .../command_flag_option_info/data/grep.json   | 24 -------------------
 1 file changed, 24 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 11aa936..c70557f 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -129,9 +129,6 @@
     "option": [
         [
             "-e",
-            "PATTERNS"
-        ],
-        [
             "--regexp",
             "PATTERNS"
         ],
@@ -142,17 +139,11 @@
         ],
         [
             "--color",
-            "WHEN"
-        ],
-        [
             "--colour",
             "WHEN"
         ],
         [
             "-m",
-            "NUM"
-        ],
-        [
             "--max-count",
             "NUM"
         ],
@@ -162,25 +153,16 @@
         ],
         [
             "-A",
-            "NUM"
-        ],
-        [
             "--after-context",
             "NUM"
         ],
         [
             "-B",
-            "NUM"
-        ],
-        [
             "--before-context",
             "NUM"
         ],
         [
             "-C",
-            "NUM"
-        ],
-        [
             "--context",
             "NUM"
         ],
@@ -194,17 +176,11 @@
         ],
         [
             "-D",
-            "ACTION"
-        ],
-        [
             "--devices",
             "ACTION"
         ],
         [
             "-d",
-            "ACTION"
-        ],
-        [
             "--directories",
             "ACTION"
         ],
-- 
2.43.0


From 93efab3395080e5bddc52d41b534103205052566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 06/41] fix: declare -f, -s and -w of uniq as options with an
 argument

---
 .../parser/command_flag_option_info/data/uniq.json          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index 5ef076d..b570198 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -11,12 +11,10 @@
         [
             "-D"
         ],
-        "-f",
         [
             "-i",
             "--ignore-case"
         ],
-        "-s",
         [
             "-u",
             "--unique"
@@ -25,7 +23,6 @@
             "-z",
             "--zero-terminated"
         ],
-        "-w",
         [
             "--help"
         ],
@@ -39,6 +36,7 @@
             "METHOD"
         ],
         [
+            "-f",
             "--skip-fields",
             "N"
         ],
@@ -47,10 +45,12 @@
             "METHOD"
         ],
         [
+            "-s",
             "--skip-chars",
             "N"
         ],
         [
+            "-w",
             "--check-chars",
             "N"
         ]
-- 
2.43.0


From 9cdba448b886b1270db4fef561ee9516008bfda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 07/41] fix: declare -c, -n and -s of tail as options with an
 argument

---
 .../command_flag_option_info/data/tail.json   | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 215f6e4..c19c52d 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -1,17 +1,9 @@
 {
     "flag": [
-        [
-            "-c",
-            "--bytes"
-        ],
         [
             "-f",
             "--follow"
         ],
-        [
-            "-n",
-            "--lines"
-        ],
         [
             "-q",
             "--quiet",
@@ -20,9 +12,6 @@
         [
             "--retry"
         ],
-        [
-            "-s"
-        ],
         [
             "-v",
             "--verbose"
@@ -48,8 +37,19 @@
             "PID"
         ],
         [
+            "-s",
             "--sleep-interval",
             "N"
+        ],
+        [
+            "-c",
+            "--bytes",
+            "NUM"
+        ],
+        [
+            "-n",
+            "--lines",
+            "NUM"
         ]
     ]
 }
-- 
2.43.0


From 27a2ebb71e4570c9eb651b11a653fd9a30de886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 08/41] fix: -c and -u of diff take no argument

---
 .../parser/command_flag_option_info/data/diff.json        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index 206275f..82a6731 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -112,17 +112,21 @@
         [
             "-v",
             "--version"
+        ],
+        [
+            "-c"
+        ],
+        [
+            "-u"
         ]
     ],
     "option": [
         [
-            "-c",
             "-C",
             "--context",
             "NUM"
         ],
         [
-            "-u",
             "-U",
             "--unified",
             "NUM"
-- 
2.43.0


From ca554f263489ce0938fe67ed04030d63938165e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 09/41] fix: -m of mkfifo takes the mode as argument

---
 .../parser/command_flag_option_info/data/mkfifo.json          | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 327ae40..1a5f482 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -1,8 +1,5 @@
 {
     "flag": [
-        [
-            "-m"
-        ],
         [
             "-Z"
         ],
@@ -15,6 +12,7 @@
     ],
     "option": [
         [
+            "-m",
             "--mode",
             "MODE"
         ],
-- 
2.43.0


From fa6a2fca8b475fab252c99969c91ec07cab2c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 10/41] fix: -l of col takes an argument

---
 .../parser/command_flag_option_info/data/col.json    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/col.json b/pash_annotations/parser/command_flag_option_info/data/col.json
index 0b46446..f2241e9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/col.json
+++ b/pash_annotations/parser/command_flag_option_info/data/col.json
@@ -12,10 +12,6 @@
             "-h",
             "--tabs"
         ],
-        [
-            "-l",
-            "--lines"
-        ],
         [
             "-p",
             "--pass"
@@ -33,5 +29,11 @@
             "--help"
         ]
     ],
-    "option": []
+    "option": [
+        [
+            "-l",
+            "--lines",
+            "NUM"
+        ]
+    ]
 }
-- 
2.43.0


From aa8b56fe75422e1c89ad0005296594ed79968b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 11/41] fix: options with an optional argument do not take the
 next word as argument

---
 .../command_flag_option_info/data/diff.json       |  9 +++++++--
 .../command_flag_option_info/data/grep.json       |  4 ++++
 .../command_flag_option_info/data/mkfifo.json     |  3 +++
 .../parser/command_flag_option_info/data/rm.json  |  6 ++++++
 .../command_flag_option_info/data/sort.json       |  5 +++++
 .../command_flag_option_info/data/tail.json       |  5 +++++
 .../parser/command_flag_option_info/data/tee.json |  3 +++
 .../command_flag_option_info/data/uniq.json       |  6 ++++++
 .../command_flag_option_info/data/xargs.json      | 15 ++++++++++++---
 9 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index 82a6731..c49dad9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -114,10 +114,15 @@
             "--version"
         ],
         [
-            "-c"
+            "-c",
+            "--context"
         ],
         [
-            "-u"
+            "-u",
+            "--unified"
+        ],
+        [
+            "--color"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index c70557f..6a2bdd3 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -124,6 +124,10 @@
         [
             "-z",
             "--null-data"
+        ],
+        [
+            "--color",
+            "--colour"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 1a5f482..f6886ef 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -8,6 +8,9 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--context"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/rm.json b/pash_annotations/parser/command_flag_option_info/data/rm.json
index d5832af..d6e0aad 100644
--- a/pash_annotations/parser/command_flag_option_info/data/rm.json
+++ b/pash_annotations/parser/command_flag_option_info/data/rm.json
@@ -34,6 +34,12 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--interactive"
+        ],
+        [
+            "--preserve-root"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/sort.json b/pash_annotations/parser/command_flag_option_info/data/sort.json
index fb61e4c..6c40c57 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sort.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sort.json
@@ -126,6 +126,11 @@
         [
             "--parallel",
             "N"
+        ],
+        [
+            "-c",
+            "--check",
+            "WORD"
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index c19c52d..3a2c425 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -50,6 +50,11 @@
             "-n",
             "--lines",
             "NUM"
+        ],
+        [
+            "-f",
+            "--follow",
+            "HOW"
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/tee.json b/pash_annotations/parser/command_flag_option_info/data/tee.json
index 52fb895..74fd489 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tee.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tee.json
@@ -16,6 +16,9 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--output-error"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index b570198..cffc805 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -28,6 +28,12 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--all-repeated"
+        ],
+        [
+            "--group"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 533ebec..fff276f 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -38,6 +38,18 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-e",
+            "--eof"
+        ],
+        [
+            "-i",
+            "--replace"
+        ],
+        [
+            "-l",
+            "--max-lines"
         ]
     ],
     "option": [
@@ -53,19 +65,16 @@
         ],
         [
             "-E",
-            "-e",
             "--eof",
             "EOF_STR"
         ],
         [
             "-I",
-            "-i",
             "--replace",
             "REPLACE-STR"
         ],
         [
             "-L",
-            "-l",
             "--max-lines",
             "max-lines"
         ],
-- 
2.43.0


From f268c3deb97734c7104acd2ec70ffb8567d03e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 12/41] fix: -s and --process-slot-var of xargs take an
 argument

---
 .../command_flag_option_info/data/xargs.json     | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index fff276f..aa06f6a 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -11,17 +11,10 @@
             "-p",
             "--interactive"
         ],
-        [
-            "--process-slot-var"
-        ],
         [
             "-r",
             "--no-run-if-empty"
         ],
-        [
-            "-s",
-            "--max-chars"
-        ],
         [
             "--show-limits"
         ],
@@ -87,6 +80,15 @@
             "-P",
             "--max-procs",
             "max-procs"
+        ],
+        [
+            "-s",
+            "--max-chars",
+            "MAX-CHARS"
+        ],
+        [
+            "--process-slot-var",
+            "VAR"
         ]
     ]
 }
-- 
2.43.0


From 9077e2689b6476dbaa6bc1e9078489ae340741e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 13/41] fix: -F, -v, -e, -E, -i and -l of awk take an argument

---
 .../InputOutputInfoGeneratorAwk.py            |  2 +-
 .../command_flag_option_info/data/awk.json    | 52 +++++++++++--------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
index 5a43f70..995740d 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
@@ -7,7 +7,7 @@ class InputOutputInfoGeneratorAwk(InputOutputInfoGeneratorInterface):
         self.set_implicit_use_of_stdout()
 
         ## Does this set -f as configuration input?
-        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-e", "-E"]):
             if self.get_operand_list_length() == 0:
                 self.set_implicit_use_of_stdin()
             else:
diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index 1863995..32a5db4 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -1,9 +1,5 @@
 {
     "flag": [
-        [
-            "-F",
-            "--field-separator"
-        ],
         [
             "-b",
             "--characters-as-bytes"
@@ -24,14 +20,6 @@
             "-D",
             "--debug"
         ],
-        [
-            "-e",
-            "--source"
-        ],
-        [
-            "-E",
-            "--exec"
-        ],
         [
             "-g",
             "--gen-pot"
@@ -40,14 +28,6 @@
             "-h",
             "--help"
         ],
-        [
-            "-i",
-            "--include"
-        ],
-        [
-            "-l",
-            "--load"
-        ],
         [
             "-L",
             "--lint"
@@ -65,7 +45,7 @@
             "--use-lc-numeric"
         ],
         [
-            "-ofile",
+            "-o",
             "--pretty-print"
         ],
         [
@@ -102,6 +82,36 @@
             "-f",
             "--file",
             ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-F",
+            "--field-separator",
+            "FS"
+        ],
+        [
+            "-v",
+            "--assign",
+            "ASSIGNMENT"
+        ],
+        [
+            "-e",
+            "--source",
+            "PROGRAM"
+        ],
+        [
+            "-E",
+            "--exec",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-i",
+            "--include",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-l",
+            "--load",
+            "LIB"
         ]
     ]
 }
-- 
2.43.0


From fe7147214ad4febae6258d7818d0b99b40417ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 14/41] fix: do not parallelise grep with context or -m

---
 .../ParallelizabilityInfoGeneratorGrep.py     | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index b8b9e4a..d8f6524 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -56,16 +56,16 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
                     add_info_from_splitter = AdditionalInfoSplitterToMapper.BYTE_OFFSET
                 else:   # none of the above affecting flags
                     pass    #just keep mapper and aggregator None and thus add RR_SEQ_CONC
-            # we exploit that mapper_spec becomes seq and aggregator_spec becomes conc if given None
-            # check can be removed once all are implemented! (exploits short-circuiting)
-            # TODO: we should be able to remove the `is_implemented`-check as it is checked later
-            if (mapper_spec is None or mapper_spec.is_implemented) and \
-                    (aggregator_spec is None or aggregator_spec.is_implemented):
-                parallelizer_cc = make_parallelizer_consec_chunks(mapper_spec=mapper_spec,
-                                                                  aggregator_spec=aggregator_spec,
-                                                                  info_splitter_mapper=add_info_from_splitter)
-                self.append_to_parallelizer_list(parallelizer_cc)
-                parallelizer_rr = make_parallelizer_round_robin(mapper_spec=mapper_spec,
-                                                                 aggregator_spec=aggregator_spec,
-                                                                 info_splitter_mapper=add_info_from_splitter)
-                self.append_to_parallelizer_list(parallelizer_rr)
+                # we exploit that mapper_spec becomes seq and aggregator_spec becomes conc if given None
+                # check can be removed once all are implemented! (exploits short-circuiting)
+                # TODO: we should be able to remove the `is_implemented`-check as it is checked later
+                if (mapper_spec is None or mapper_spec.is_implemented) and \
+                        (aggregator_spec is None or aggregator_spec.is_implemented):
+                    parallelizer_cc = make_parallelizer_consec_chunks(mapper_spec=mapper_spec,
+                                                                      aggregator_spec=aggregator_spec,
+                                                                      info_splitter_mapper=add_info_from_splitter)
+                    self.append_to_parallelizer_list(parallelizer_cc)
+                    parallelizer_rr = make_parallelizer_round_robin(mapper_spec=mapper_spec,
+                                                                     aggregator_spec=aggregator_spec,
+                                                                     info_splitter_mapper=add_info_from_splitter)
+                    self.append_to_parallelizer_list(parallelizer_rr)
-- 
2.43.0


From e1fbdddfb92a6cad333d2dc072bee1f4ebfd604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 15/41] fix: do not parallelise grep on null-terminated lines

---
 .../ParallelizabilityInfoGeneratorGrep.py                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index d8f6524..09ab727 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -21,6 +21,7 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # and -A, -B, and -C but we do not parallelize within file boundaries since they require context
     # for -q, the input is not read further after some condition is met, so we do not parallelize at all
     # for -m, we only do IF
+    # for -z, lines end with a null character and may be split at newlines, so we do not parallelize
 
     def generate_info(self) -> None:
         if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
@@ -31,7 +32,7 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
             aggregator_spec = None
             add_info_from_splitter = None
             # CA to decide which mapper or aggregator, parallelizer added after CA
-            if not self.does_flag_option_list_contain_at_least_one_of(["-A", "-B", "-C", "-m"]):
+            if not self.does_flag_option_list_contain_at_least_one_of(["-A", "-B", "-C", "-m", "-z"]):
                 if self.does_flag_option_list_contain_at_least_one_of(["-L", "-l"]):
                     # the output for both options is either empty or the filename (same for both if so)
                     # for "-l": if there was a match in one part, the filename will propagate; if not, not
-- 
2.43.0


From 83e9515ac8fd82f3acbfd8deda5171fa8cd4d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 16/41] fix: recursive grep without a file does not read stdin

---
 .../InputOutputInfoGeneratorGrep.py                    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
index b3640b7..03be023 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
@@ -23,13 +23,13 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         # case analysis how script is provided
         if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             if self.get_operand_list_length() == 0:
-                self.set_implicit_use_of_stdin()
+                self.set_implicit_use_of_stdin_if_not_recursive()
             else:
                 self.all_operands_are_streaming_inputs() # this is true also if empty
         else:
             self.set_first_operand_as_config_arg_type_string()
             if self.get_operand_list_length() == 1:
-                self.set_implicit_use_of_stdin()
+                self.set_implicit_use_of_stdin_if_not_recursive()
             else:
                 self.all_but_first_operand_is_streaming_input()
         # TODO: make correct CA for input list
@@ -40,3 +40,9 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         #         # self.set_ioinfo_positional_input_list([Operand("$PWD")]) # TODO: this is not exactly equivalent due to path and type wrong
         #     else:
         #         self.set_implicit_use_of_stdin()
+
+    def set_implicit_use_of_stdin_if_not_recursive(self) -> None:
+        if self.does_flag_option_list_contain_at_least_one_of(["-r", "-R"]):
+            # then it searches the working directory
+            raise Exception("-r option without dir name not handled")
+        self.set_implicit_use_of_stdin()
-- 
2.43.0


From fe0f7ee48f0fba325328782e74f8dcf74cce1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 17/41] fix: -e and -f of sed take the script as argument

---
 .../ParallelizabilityInfoGeneratorSed.py      | 14 ++++++++++----
 .../command_flag_option_info/data/sed.json    | 19 +++++++++----------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 8ee05c2..451d4fe 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -8,10 +8,16 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        # TODO: Logic copied from PaSh, but does this not depend how the script is given?
-        if  self.does_first_operand_start_with("-") \
-            or self.does_first_operand_start_with("s") \
-            or not (self.does_first_operand_contain("d") or self.does_first_operand_contain("q")):
+        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
+            return  # we do not know the script
+        scripts = [option.get_arg() for option in self.get_flag_option_list_filtered_with(["-e"])]
+        if len(scripts) == 0:
+            scripts = [self.get_first_operand_name_as_string()]
+        # TODO: Logic copied from PaSh
+        if all(self.is_script_parallelizable(str(script)) for script in scripts):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
+    @staticmethod
+    def is_script_parallelizable(script: str) -> bool:
+        return script.startswith("s") or not ("d" in script or "q" in script)
diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index 06f9e9e..c552942 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -8,14 +8,6 @@
         [
             "--debug"
         ],
-        [
-            "-e",
-            "--expression"
-        ],
-        [
-            "-f",
-            "--file"
-        ],
         [
             "--follow-symlinks"
         ],
@@ -56,11 +48,18 @@
         ],
         [
             "-l",
+            "--line-length",
             "N"
         ],
         [
-            "--line-length",
-            "N"
+            "-e",
+            "--expression",
+            "SCRIPT"
+        ],
+        [
+            "-f",
+            "--file",
+            ["FILE", "CONFIG_INPUT"]
         ]
     ]
 }
-- 
2.43.0


From 22aa267cc7dfbb40e18a5e40726ffce5062db13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 18/41] fix: sed -i edits its operands in place

---
 .../annotation_generators/InputOutputInfoGeneratorSed.py     | 2 ++
 .../ParallelizabilityInfoGeneratorSed.py                     | 4 ++--
 .../parser/command_flag_option_info/data/sed.json            | 5 +++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
index b72ed43..bacde87 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
@@ -4,6 +4,8 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorSed(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        if self.does_flag_option_list_contain_at_least_one_of(["-i"]):
+            raise Exception('sed with -i edits files in place and is considered side-effectful for now')
         self.set_implicit_use_of_stdin()
         self.set_implicit_use_of_stdout()
         if not self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 451d4fe..49a2fc8 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -8,8 +8,8 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
-            return  # we do not know the script
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-i"]):
+            return  # we do not know the script or it edits files in place
         scripts = [option.get_arg() for option in self.get_flag_option_list_filtered_with(["-e"])]
         if len(scripts) == 0:
             scripts = [self.get_first_operand_name_as_string()]
diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index c552942..c0f1aa0 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -39,10 +39,15 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-i",
+            "--in-place"
         ]
     ],
     "option": [
         [
+            "-i",
             "--in-place",
             "SUFFIX"
         ],
-- 
2.43.0


From 61ca099892fb08089eb598d93043c4b680498b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:40 +0000
Subject: [PATCH 19/41] fix: do not parallelise sed on null-terminated lines

---
 .../ParallelizabilityInfoGeneratorSed.py                      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 49a2fc8..89f7ec9 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -8,8 +8,8 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-i"]):
-            return  # we do not know the script or it edits files in place
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-i", "-z"]):
+            return  # we do not know the script, it edits files in place, or lines are null-terminated
         scripts = [option.get_arg() for option in self.get_flag_option_list_filtered_with(["-e"])]
         if len(scripts) == 0:
             scripts = [self.get_first_operand_name_as_string()]
-- 
2.43.0


From c6d465d87a3f5d6f7f9e025b9c7efebb36e47191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:41 +0000
Subject: [PATCH 20/41] fix: sed reads stdin only without file operands

---
 .../annotation_generators/InputOutputInfoGeneratorSed.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
index bacde87..8a49023 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
@@ -6,11 +6,12 @@ class InputOutputInfoGeneratorSed(InputOutputInfoGeneratorInterface):
     def generate_info(self) -> None:
         if self.does_flag_option_list_contain_at_least_one_of(["-i"]):
             raise Exception('sed with -i edits files in place and is considered side-effectful for now')
-        self.set_implicit_use_of_stdin()
         self.set_implicit_use_of_stdout()
         if not self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             self.set_first_operand_as_config_arg_type_string()
+            if self.get_operand_list_length() == 1:
+                self.set_implicit_use_of_stdin()
             self.all_but_first_operand_is_streaming_input()
         else:
+            self.if_no_operands_given_stdin_implicitly_used()
             self.all_operands_are_streaming_inputs()
-
-- 
2.43.0


From 0a87a950165ed55abf9c2c33a7554d2d4821eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 21/41] fix: consider the variables in option arguments of a
 command invocation

---
 pash_annotations/datatypes/CommandInvocationWithIOVars.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index b18b7ea..bfabb08 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -116,9 +116,10 @@ class CommandInvocationWithIOVars:
         new_flag_option_list = []
         for i in range(len(self.flag_option_list)):
             flagoption = self.flag_option_list[i]
-            if isinstance(flagoption, OptionWithIO):
-                [new_option_arg] = function_to_apply(flagoption.option_arg)
-                new_flag_option_list.append(OptionWithIO(flagoption.option_name, new_option_arg))
+            if isinstance(flagoption, OptionWithIOVar):
+                # an option whose argument is removed is removed as well
+                for new_option_arg in function_to_apply(flagoption.option_arg):
+                    new_flag_option_list.append(OptionWithIOVar(flagoption.option_name, new_option_arg))
             else:
                 new_flag_option_list.append(flagoption)
         self.flag_option_list = new_flag_option_list
-- 
2.43.0


From 97f0b2fb2e70236df37cca391e9730a1468f17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 22/41] fix: compare options with variables by their content

---
 pash_annotations/datatypes/BasicDatatypesWithIOVar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
index fe85c1f..b81791b 100644
--- a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
+++ b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
@@ -1,9 +1,9 @@
 from typing import Union
-from pash_annotations.datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.datatypes.BasicDatatypes import ArgStringType, BaseClassForBasicDatatypes
 
 IOVar = int
 
-class OptionWithIOVar:
+class OptionWithIOVar(BaseClassForBasicDatatypes):
 
     def __init__(self, name: str, option_arg: Union[IOVar, ArgStringType]) -> None:
         self.option_name : str = name
-- 
2.43.0


From cd132de6200f98befa1b51f60cd64bf815727e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 23/41] fix: aggregators of commands with an output option
 write to the given output

---
 .../datatypes/parallelizability/AggregatorSpec.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
index f45e508..ec3199c 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
@@ -226,15 +226,17 @@ class AggregatorSpecFuncTransformer(AggregatorSpec):
         elif self.kind == AggregatorKindEnum.CUSTOM_2_ARY:
             assert(len(inputs_from) == 2)
         aggregator_cmd_inv = deepcopy(original_cmd_invocation)
-        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(original_cmd_invocation.flag_option_list)
         # access map modifications
         # Hard-coded how to provide input and get output -> TODO: move to spec
         aggregator_cmd_inv.remove_streaming_inputs()
+        aggregator_cmd_inv.remove_streaming_outputs() # also the one given as option, e.g. -o for sort
+        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(aggregator_cmd_inv.flag_option_list)
         aggregator_cmd_inv.operand_list = inputs_from
         for input_id in inputs_from:
             assert not input_id in aggregator_cmd_inv.access_map and isinstance(input_id, IOVar)
             aggregator_cmd_inv.access_map[input_id] = make_stream_input()
-        aggregator_cmd_inv.replace_var(aggregator_cmd_inv.implicit_use_of_streaming_output, output_to)
+        aggregator_cmd_inv.implicit_use_of_streaming_output = output_to
+        aggregator_cmd_inv.access_map[output_to] = make_stream_output()
         return Aggregator.make_aggregator_from_cmd_inv_with_io(aggregator_cmd_inv, self.kind)
 
     def get_actual_2_ary_aggregator_with_aux(self,
-- 
2.43.0


From 3afc39824a58b40486e5e003c604105c6d96b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 24/41] fix: recognise further ways to write a newline in a tr
 set

---
 pash_annotations/datatypes/BasicDatatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index 2660a97..ea543d2 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -111,7 +111,8 @@ class Operand(BaseClassForBasicDatatypes):
 
     def contains_new_line(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\n") >= 0
+        newline_representations = [r"\n", "\n", r"\012", "[:space:]", "[:cntrl:]"]
+        return any(newline in name_as_string for newline in newline_representations)
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-- 
2.43.0


From 6996a05376ef7e0368e7b3736ad099ed6ec4f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 25/41] fix: the command-line tool stores its output unless the
 file exists

---
 pash_annotations/annotation_cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 1a57178..716131e 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -35,6 +35,9 @@ if where_to_save is not None:
     try:
         text_file = open(script_prefix + where_to_save)
         text_file.close()
+        shall_we_write_to_file = False
+    except FileNotFoundError:
+        pass
     except IOError:
         shall_we_write_to_file = False
     if not shall_we_write_to_file:
-- 
2.43.0


From 1a07381aee0609f8316f1988e897c52791ab2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 26/41] fix: the command-line tool takes --save_to relative to
 where it is called from

---
 pash_annotations/annotation_cli.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 716131e..222c61b 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -22,10 +22,6 @@ parser.add_argument('--save_to', metavar='FILE', type=str, default=None,
 # parse the arguments
 options = parser.parse_args()
 
-script_path = __file__
-split_path = script_path.rpartition('/')
-script_prefix = "".join(split_path[:2])
-
 where_to_save = options.save_to
 cmd_invocation = options.command_invocation
 
@@ -33,7 +29,7 @@ shall_we_write_to_file = False
 if where_to_save is not None:
     shall_we_write_to_file = True
     try:
-        text_file = open(script_prefix + where_to_save)
+        text_file = open(where_to_save)
         text_file.close()
         shall_we_write_to_file = False
     except FileNotFoundError:
@@ -69,7 +65,7 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 result += str(para_info)
 
 if shall_we_write_to_file:
-    text_file = open(script_prefix + where_to_save, "w+")
+    text_file = open(where_to_save, "w+")
     text_file.write(result)
     text_file.close()
 else:
-- 
2.43.0


From 93678330641782950f7c5384debe38d67ac36ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 27/41] fix: custom_sort takes the flags and options of sort

---
 .../data/custom_sort.json                     | 136 +++++++++++++++++-
 1 file changed, 134 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/custom_sort.json b/pash_annotations/parser/command_flag_option_info/data/custom_sort.json
index e8ef664..6c40c57 100644
--- a/pash_annotations/parser/command_flag_option_info/data/custom_sort.json
+++ b/pash_annotations/parser/command_flag_option_info/data/custom_sort.json
@@ -1,4 +1,136 @@
 {
-    "flag": [],
-    "option": []
+    "flag": [
+        [
+            "-b",
+            "--ignore-leading-blanks"
+        ],
+        [
+            "-d",
+            "--dictionary-order"
+        ],
+        [
+            "-f",
+            "--ignore-case"
+        ],
+        [
+            "-g",
+            "--general-numeric-sort"
+        ],
+        [
+            "-i",
+            "--ignore-nonprinting"
+        ],
+        [
+            "-M",
+            "--month-sort"
+        ],
+        [
+            "-h",
+            "--human-numeric-sort"
+        ],
+        [
+            "-n",
+            "--numeric-sort"
+        ],
+        [
+            "-R",
+            "--random-sort"
+        ],
+        [
+            "-r",
+            "--reverse"
+        ],
+        [
+            "-V",
+            "--version-sort"
+        ],
+        [
+            "-c",
+            "--check"
+        ],
+        [
+            "-C"
+        ],
+        [
+            "--debug"
+        ],
+        [
+            "-m",
+            "--merge"
+        ],
+        [
+            "-s",
+            "--stable"
+        ],
+        [
+            "-u",
+            "--unique"
+        ],
+        [
+            "-z",
+            "--zero-terminated"
+        ],
+        [
+            "--help"
+        ],
+        [
+            "--version"
+        ]
+    ],
+    "option": [
+        [
+            "--random-source",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "--sort",
+            "WORD"
+        ],
+        [
+            "--batch-size",
+            "NMERGE"
+        ],
+        [
+            "--compress-program",
+            "PROG"
+        ],
+        [
+            "--files0-from",
+            ["FILE", "CONTAINER_FOR_INPUT"]
+        ],
+        [
+            "-k",
+            "--key",
+            "KEYDEF"
+        ],
+        [
+            "-o",
+            "--output",
+            ["FILE", "STREAM_OUTPUT"]
+        ],
+        [
+            "-S",
+            "--buffer-size",
+            "SIZE"
+        ],
+        [
+            "-t",
+            "--field-separator",
+            "SEP"
+        ],
+        [
+            "-T",
+            "--temporary-directory",
+            ["DIR", "OTHER_OUTPUT"]
+        ],
+        [
+            "--parallel",
+            "N"
+        ],
+        [
+            "-c",
+            "--check",
+            "WORD"
+        ]
+    ]
 }
-- 
2.43.0


From 4413062761b261b8150ed1a49ee4cb339e561c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 28/41] fix: do not parallelize uniq -u, --group and -z

---
 .../ParallelizabilityInfoGeneratorUniq.py                  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
index 87f6959..67a9fce 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
@@ -13,14 +13,15 @@ class ParallelizabilityInfoGeneratorUniq(ParallelizabilityInfoGeneratorInterface
     # Which ones do affect parallelizability?
     # base-line: parallelization possible with RR/(CC) x SEQ x ADJF
     # by using the sequential command for ADJF, we handle a lot of cases where flags contain semantic information
-    # -d, -D and --all-repeated renders parallelization infeasible (at least very hard)
+    # -d, -D, --all-repeated, -u and --group renders parallelization infeasible (at least very hard):
+    #   the output for a group of lines depends on all of its lines which may be in different parts
+    # for -z, lines end with a null character and may be split at newlines, so we do not parallelize
     # -c makes it harder but feasible:
     #   one needs to cut the prefix of numbers, run the sequential and see whether it is merged
-    # TODO: what does --group do?
 
     def generate_info(self) -> None:
         # check for flags/options that make it hard to parallelize
-        if not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "--all-repeated"]):
+        if not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "--all-repeated", "-u", "--group", "-z"]):
             if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
                 # we need a special merge
                 aggregator_spec = make_aggregator_spec_adj_lines_func_from_string_representation(cmd_inv_as_str='PLACEHOLDER:uniq_merge_count_uniq', is_implemented=False)
-- 
2.43.0


From a3d1de2115a5c093744b335928f61f58911d8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:07 +0000
Subject: [PATCH 29/41] fix: the complement of a tr set with a null character
 contains the newline

---
 .../annotation_generators/ParallelizabilityInfoGeneratorTr.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 562f815..1b3d1a3 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -47,7 +47,7 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         last_operand_contains_newline: bool = last_operand.contains_new_line()
         last_operand_contains_null_char: bool = last_operand.contains_null_char()
         if len(self.cmd_inv.operand_list) == 1 and self.does_flag_option_list_contain_at_least_one_of(["-c"]):
-            return not (last_operand_contains_newline or last_operand_contains_null_char)
+            return not last_operand_contains_newline
         else:  # '-c' (if existent) does not refer to the given set
             return (last_operand_contains_newline or last_operand_contains_null_char)
 
-- 
2.43.0


From 2ec4b659587fb6ed446f1f9538717c5bc0ce3293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:09 +0000
Subject: [PATCH 30/41] fix: do not parallelize tr -s if newlines are
 translated to squeezed characters

---
 .../ParallelizabilityInfoGeneratorTr.py                  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 1b3d1a3..8f7bb09 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -36,11 +36,20 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         elif does_squeeze_newlines:
             self.append_to_parallelizer_list_cc_seq_adjf("PLACEHOLDER: remove first line if empty", is_implemented = False)
             self.append_to_parallelizer_list_rr_seq_adjf("PLACEHOLDER: remove first line if empty", is_implemented = False)
+        elif self.does_squeeze_translated_newlines():
+            pass    # a character newlines are translated to is squeezed across the boundaries of parts
         else:
             # for RR, we can just use concatenation
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
+    def does_squeeze_translated_newlines(self) -> bool:
+        if len(self.cmd_inv.operand_list) < 2 or not self.does_flag_option_list_contain_at_least_one_of(["-s"]):
+            return False
+        # newlines are translated (or deleted with '-d') if (a) no -c and in first set, or (b) -c and not in first set
+        first_operand_contains_newline: bool = self.cmd_inv.operand_list[0].contains_new_line()
+        return first_operand_contains_newline != self.does_flag_option_list_contain_at_least_one_of(["-c"])
+
     def does_last_set_effectively_contain_newline(self) -> bool:
         last_operand: Operand = self.cmd_inv.operand_list[-1]
         # is contained if (a) no -c and in set, or (b) -c and not in set
-- 
2.43.0


From 84c46c6fa51f75411525722a49b32d045508fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:50 +0000
Subject: [PATCH 31/41] fix: do not parallelize sort --sort=random and random
 keys

---
 .../ParallelizabilityInfoGeneratorCustomSort.py            | 7 ++++++-
 .../ParallelizabilityInfoGeneratorSort.py                  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
index b614186..92fdc27 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
@@ -13,7 +13,8 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
     def generate_info(self) -> None:
         # copied from sort
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]) \
+                or self.is_random_order_requested():
             pass    # no parallelization
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
@@ -26,3 +27,7 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    def is_random_order_requested(self) -> bool:
+        return any(str(option.get_arg()).startswith("r") for option in self.get_flag_option_list_filtered_with(["--sort"])) or \
+               any("R" in str(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["-k"]))
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index c6eadf0..2c9a066 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -14,7 +14,8 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
 
     def generate_info(self) -> None:
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]) \
+                or self.is_random_order_requested():
             pass    # no parallelization
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
@@ -27,3 +28,7 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    def is_random_order_requested(self) -> bool:
+        return any(str(option.get_arg()).startswith("r") for option in self.get_flag_option_list_filtered_with(["--sort"])) or \
+               any("R" in str(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["-k"]))
-- 
2.43.0


From 1f1c61eeb2f7301d8240aaf8dc88122625773b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:23 +0000
Subject: [PATCH 32/41] fix: the command-line tool does not overwrite a file
 created in the meantime

---
 pash_annotations/annotation_cli.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 222c61b..ca22aec 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -65,8 +65,11 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 result += str(para_info)
 
 if shall_we_write_to_file:
-    text_file = open(where_to_save, "w+")
-    text_file.write(result)
-    text_file.close()
-else:
+    try:
+        text_file = open(where_to_save, "x")
+        text_file.write(result)
+        text_file.close()
+    except FileExistsError: # the file was created in the meantime
+        shall_we_write_to_file = False
+if not shall_we_write_to_file:
     print(result)
-- 
2.43.0


From 4ea97257d8f18c6b6a180edcb2fd2d7abbabc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 33/41] fix: a command given by a path is not parsed with the
 table of a command of that file name

---
 pash_annotations/parser/util_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 4cfd818..0ef9f72 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -3,7 +3,11 @@ import os
 import pkgutil
 
 def get_json_data(cmd_name):
-    command_json_fn = f'{cmd_name}.json'
+    if '/' in cmd_name:
+        # a path does not name a known command, and is not looked up relative to the data
+        command_json_fn = '_default_data_for_commands.json'
+    else:
+        command_json_fn = f'{cmd_name}.json'
     # get man page data for command as dict
     try:
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
-- 
2.43.0


From 28438017028366c41ca0e09ac863e6212918ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 34/41] fix: a command name too long for a file name is parsed
 with the default table

---
 pash_annotations/parser/util_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 0ef9f72..659f848 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -11,7 +11,7 @@ def get_json_data(cmd_name):
     # get man page data for command as dict
     try:
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
-    except FileNotFoundError:
+    except OSError:  # no such file, or the name is too long for a file
         try:
             json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
         except FileNotFoundError:
-- 
2.43.0


From bd339fd8dfa85ee47590333dd68ee60815827462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 35/41] fix: the queries by role find the operands and options
 of that role

get_operands_with_* and get_options_with_other_output looked for
FileNameWithIOInfo and StdDescriptorWithIOInfo, which a
CommandInvocationWithIOVars never holds, and thus always gave nothing.
---
 .../datatypes/CommandInvocationWithIOVars.py  | 49 +++++++------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index bfabb08..93fe1e4 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -1,9 +1,7 @@
 from copy import deepcopy
 from typing import List, Union, Optional, Dict
 
-from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType, FileNameOrStdDescriptor
-from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO, FileNameOrStdDescriptorWithIOInfo, FileNameWithIOInfo, \
-    StdDescriptorWithIOInfo
+from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
 from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output, AccessKind
 from pash_annotations.annotation_generation.datatypes.Inputs import Inputs, InputsEnum
 from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar, IOVar
@@ -194,30 +192,21 @@ class CommandInvocationWithIOVars:
 
 
     # for test cases:
-    def get_operands_with_config_input(self) -> List[Union[ArgStringType, FileNameOrStdDescriptorWithIOInfo]]:
-        return [x for x in self.operand_list if
-                isinstance(x, ArgStringType) or
-                ((isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_config_input())]
-
-    def get_operands_with_stream_input(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_stream_input()]
-
-    def get_operands_with_other_input(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_other_input()]
-
-    def get_operands_with_stream_output(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_stream_output()]
-
-    def get_operands_with_other_output(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_other_output()]
-
-    def get_options_with_other_output(self) -> List[OptionWithIO]:
-        only_options: List[OptionWithIO] = [x for x in self.flag_option_list if isinstance(x, OptionWithIO)]
-        return [x for x in only_options if
-                ((isinstance(x.option_arg, FileNameWithIOInfo) or isinstance(x.option_arg, StdDescriptorWithIOInfo)))
-                and x.option_arg.access.is_other_output()]
+    def get_operands_with_config_input(self) -> List[Union[ArgStringType, IOVar]]:
+        return [x for x in self.operand_list if isinstance(x, ArgStringType) or self.access_map[x].is_config_input()]
+
+    def get_operands_with_stream_input(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, IOVar) and self.access_map[x].is_stream_input()]
+
+    def get_operands_with_other_input(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, IOVar) and self.access_map[x].is_other_input()]
+
+    def get_operands_with_stream_output(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, IOVar) and self.access_map[x].is_stream_output()]
+
+    def get_operands_with_other_output(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, IOVar) and self.access_map[x].is_other_output()]
+
+    def get_options_with_other_output(self) -> List[OptionWithIOVar]:
+        return [x for x in self.flag_option_list if isinstance(x, OptionWithIOVar)
+                and isinstance(x.option_arg, IOVar) and self.access_map[x.option_arg].is_other_output()]
-- 
2.43.0


From a74a30d6e96884afa53410ce8290291df5b1f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 36/41] fix: comparing a splitter with another kind of value
 says they differ

---
 .../datatypes/parallelizability/Splitter.py                    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
index 6d5930d..079ee36 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
@@ -1,3 +1,4 @@
+from pash_annotations.util_standard import standard_eq
 from enum import Enum
 
 
@@ -14,7 +15,7 @@ class Splitter:
         self.kind = kind
 
     def __eq__(self, other) -> bool:
-        return self.kind == other.kind
+        return standard_eq(self, other)
 
     def __repr__(self) -> str:
         return f'{self.kind}'
-- 
2.43.0


From 726bf69873f0fe1a38baacac17b85e9d22074429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 37/41] fix: drop access information of replaced implicit
 streams in mappers with auxiliary pipes

---
 .../datatypes/parallelizability/MapperSpec.py                  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
index eab2f9d..6f61a6a 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
@@ -84,6 +84,9 @@ class MapperSpec:
             for operand in mapper.operand_list:
                 assert(isinstance(operand, IOVar))
                 mapper.access_map.pop(operand)
+            for implicit_stream in [mapper.implicit_use_of_streaming_input, mapper.implicit_use_of_streaming_output]:
+                if implicit_stream is not None:
+                    mapper.access_map.pop(implicit_stream)
             # trick for typing...
             new_operand_list = []
             for x in [input_from, output_to] + [aux_output_to for aux_output_to in aux_output_tos]:
-- 
2.43.0


From 9e368a54bd88528d8cb2381ea5c929c34629cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 38/41] fix: read flags and options of manual pages with their
 description on the same line

---
 .../parser/command_flag_option_info/args-to-json.py          | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index 222f7ed..b44183e 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -27,10 +27,7 @@ def find_matches(line, past_flags):
         phrases[i] = phrases[i].strip()
 
         # option flag and argument separated by space or equal sign
-        if "=" in phrases[i]:
-            phrase_parts = re.split(r"=", phrases[i])
-        else:
-            phrase_parts = re.split(r"\s+", phrases[i])
+        phrase_parts = re.split(r"=|\s+", phrases[i])
 
         if len(phrase_parts) >= 1 and (re.match(r"^-[-]*[a-z][a-z-]*$", phrase_parts[0]) or re.match(r"^-[-]*[A-Z]$", phrase_parts[0])):
             flag = re.sub("-", '', phrase_parts[0])
-- 
2.43.0


From 53eee290b5eb839f1d5239a2124e2074800f1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 39/41] fix: list a flag next to an option with argument in the
 form the parser reads

---
 .../parser/command_flag_option_info/args-to-json.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index b44183e..2673757 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -54,7 +54,7 @@ def parse_args(args):
         else:
             for arg in line_args:
                 if type(arg)==str:
-                    args_dict["flag"].append(arg)
+                    args_dict["flag"].append([arg])
                 else:
                     args_dict["option"].append(list(arg))
     return args_dict
-- 
2.43.0


From ff7e949ca789bc01cff68a33e73beaed517311eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 40/41] fix: redirect streams to variables that are in use
 before

---
 .../datatypes/CommandInvocationWithIOVars.py  | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index 93fe1e4..7632ebd 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -50,28 +50,33 @@ class CommandInvocationWithIOVars:
     def substitute_inputs_and_outputs_in_cmd_invocation(self,
                                                         inputs_from: List[IOVar],
                                                         outputs_to: List[IOVar]) -> None:
-        self.substitute_inputs_in_cmd_invocation(inputs_from)
-        self.substitute_outputs_in_cmd_invocation(outputs_to)
+        self.substitute_streams_in_cmd_invocation(inputs_from, outputs_to)
 
     def substitute_inputs_in_cmd_invocation(self, inputs_from):
-        def function_to_apply_to_vars(var):
-            if self.access_map[var].is_stream_input():
-                new_var = inputs_from.pop(0)
-                return self.replace_var_consistently(var, new_var)
-            else:
-                return var
-        self.map_var(function_to_apply_to_vars)
-        assert len(inputs_from) == 0
+        self.substitute_streams_in_cmd_invocation(inputs_from, None)
 
     def substitute_outputs_in_cmd_invocation(self, outputs_to):
+        self.substitute_streams_in_cmd_invocation(None, outputs_to)
+
+    # inputs_from and outputs_to are None if the respective streams are kept
+    def substitute_streams_in_cmd_invocation(self, inputs_from, outputs_to):
+        # new variables may be ones which are still to be substituted so we look up the access beforehand
+        old_access_map = self.access_map
+        self.access_map = {var: access for var, access in old_access_map.items()
+                           if not (inputs_from is not None and access.is_stream_input()) and
+                              not (outputs_to is not None and access.is_stream_output())}
         def function_to_apply_to_vars(var):
-            if self.access_map[var].is_stream_output():
+            access = old_access_map[var]
+            if inputs_from is not None and access.is_stream_input():
+                new_var = inputs_from.pop(0)
+            elif outputs_to is not None and access.is_stream_output():
                 new_var = outputs_to.pop(0)
-                return self.replace_var_consistently(var, new_var)
             else:
                 return var
+            self.access_map[new_var] = access
+            return new_var
         self.map_var(function_to_apply_to_vars)
-        assert len(outputs_to) == 0
+        assert not inputs_from and not outputs_to
 
     def generate_inputs(self):
         streaming_inputs = []
-- 
2.43.0


From 005d5ff8353328d0d39bd711bfce25ea3f60760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:20 +0000
Subject: [PATCH 41/41] fix: Operand module imports from the package

---
 pash_annotations/datatypes/Operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/datatypes/Operand.py b/pash_annotations/datatypes/Operand.py
index 303cd3d..1adc1b2 100644
--- a/pash_annotations/datatypes/Operand.py
+++ b/pash_annotations/datatypes/Operand.py
@@ -1 +1 @@
-from datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.datatypes.BasicDatatypes import ArgStringType
-- 
2.43.0

