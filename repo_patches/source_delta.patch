From b201bae2cdfb6fc65fd547d8b8fe9840773412f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 1/8] =?UTF-8?q?fix:=20parse=5Fnumber=20no=20longer=20raise?=
 =?UTF-8?q?s=20on=20"=C2=BD",=20"=C2=B2"=20or=20digits=20next=20to=20unusu?=
 =?UTF-8?q?al=20whitespace?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 number_parser/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index ca99aea..e83f273 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -297,8 +297,11 @@ def parse_number(input_string, language=None):
     if not input_string.strip():
         return None
 
-    if input_string.strip().isnumeric():
-        return int(input_string)
+    # int() accepts neither numeric characters that are not decimal digits nor
+    # every character that counts as whitespace
+    stripped_string = input_string.strip()
+    if stripped_string.isdecimal():
+        return int(stripped_string)
 
     if language is None:
         language = _valid_tokens_by_language(input_string)
-- 
2.43.0


From 3996ab53cbcd790c18468c4c6fd77e9376e5f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 2/8] fix: parse_number returns None for text with no number
 word or a leading connector

---
 number_parser/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index e83f273..2d7b0ab 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -314,12 +314,18 @@ def parse_number(input_string, language=None):
 
     tokens = _tokenize(input_string, language)
     normalized_tokens = _normalize_tokens(tokens)
-    for index, token in enumerate(normalized_tokens):
-        if _is_cardinal_token(token, lang_data) or not token.strip():
+    number_found = False
+    for token in normalized_tokens:
+        if _is_cardinal_token(token, lang_data):
+            number_found = True
             continue
-        if _is_skip_token(token, lang_data) and index != 0:
+        if not token.strip():
+            continue
+        if _is_skip_token(token, lang_data) and number_found:
             continue
         return None
+    if not number_found:
+        return None
     number_built = _build_number(normalized_tokens, lang_data)
     if len(number_built) == 1:
         return int(number_built[0])
-- 
2.43.0


From 99bd5ff35537b3e4c5fa032dbc6e6ba3a2086ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 3/8] =?UTF-8?q?fix:=20Spanish=20"decillones"=20is=2010^60,?=
 =?UTF-8?q?=20the=20plural=20of=20"decill=C3=B3n"?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 number_parser/data/es.py                                  | 2 +-
 number_parser_data/supplementary_translation_data/es.json | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/data/es.py b/number_parser/data/es.py
index ff2d26e..04d3336 100644
--- a/number_parser/data/es.py
+++ b/number_parser/data/es.py
@@ -87,8 +87,8 @@ info = {
         "octillón": 1000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillones": 1000000000000000000000000000000000000000000000000000000000000000000000000,
diff --git a/number_parser_data/supplementary_translation_data/es.json b/number_parser_data/supplementary_translation_data/es.json
index 3cb6a7b..dfb847d 100644
--- a/number_parser_data/supplementary_translation_data/es.json
+++ b/number_parser_data/supplementary_translation_data/es.json
@@ -33,7 +33,7 @@
         "nonillón": 1000000000000000000000000000000000000000000000000000000,
         "nonillones": 1000000000000000000000000000000000000000000000000000000,
         "decillón": 1000000000000000000000000000000000000000000000000000000000000,
-        "decillones": 1000000000000000000000000000000000000000000000000000000000000000000,
+        "decillones": 1000000000000000000000000000000000000000000000000000000000000,
         "undecillón": 1000000000000000000000000000000000000000000000000000000000000000000,
         "undecillones": 1000000000000000000000000000000000000000000000000000000000000000000,
         "duodecillón": 1000000000000000000000000000000000000000000000000000000000000000000000000,
-- 
2.43.0


From 31932cc0ccaabfdf0a687724edecb5c2592b259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 4/8] fix: add the Ukrainian forms present only in the
 generated table to its source

---
 number_parser_data/supplementary_translation_data/uk.json | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/number_parser_data/supplementary_translation_data/uk.json b/number_parser_data/supplementary_translation_data/uk.json
index 23eb0e3..f49128e 100644
--- a/number_parser_data/supplementary_translation_data/uk.json
+++ b/number_parser_data/supplementary_translation_data/uk.json
@@ -81,9 +81,14 @@
         "триста": 300,
         "чотириста": 400,
         "п'ятсот": 500,
+        "п'ятисот": 500,
+        "пʼятисот": 500,
+        "пятсот": 500,
+        "пятисот": 500,
         "шістсот": 600,
         "сімсот": 700,
         "вісімсот": 800,
+        "девятсот": 900,
         "дев'ятсот": 900
     },
     "BIG_POWERS_OF_TEN": {
-- 
2.43.0


From 0021f8e26742fe50b1632868162d91ce849b3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 5/8] fix: read and write language data as UTF-8 whatever the
 platform default

---
 number_parser_scripts/write_complete_language_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/number_parser_scripts/write_complete_language_data.py b/number_parser_scripts/write_complete_language_data.py
index c305dbf..48361e7 100644
--- a/number_parser_scripts/write_complete_language_data.py
+++ b/number_parser_scripts/write_complete_language_data.py
@@ -144,7 +144,7 @@ def write_complete_data():
 
         language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
         ordered_language_data = {key: {} for key in REQUIRED_NUMBERS_DATA}
-        with open(full_source_path, "r") as source:
+        with open(full_source_path, "r", encoding="utf8") as source:
             data = json.load(source)
             try:
                 requisite_data = data["rbnf"]["rbnf"]["SpelloutRules"]
@@ -161,7 +161,7 @@ def write_complete_data():
                         val = val.replace("\xad", "")
                         _extract_information(key, val, language_data)
 
-        with open(full_supplementary_path, "r") as supplementary_data:
+        with open(full_supplementary_path, "r", encoding="utf8") as supplementary_data:
             data = json.load(supplementary_data)
             for keys in REQUIRED_NUMBERS_DATA:
                 language_data[keys].update(data[keys])
@@ -184,7 +184,7 @@ def write_complete_data():
         translation_data = re.sub(r"\bfalse\b", "False", translation_data)
         translation_data = re.sub(r"\btrue\b", "True", translation_data)
         out_text = "info = " + translation_data + "\n"
-        with open(full_target_path, "w+") as target_file:
+        with open(full_target_path, "w+", encoding="utf8") as target_file:
             target_file.write(out_text)
 
 
-- 
2.43.0


From 973328ae386a19df9258d2a51624e66c73a1e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 6/8] fix: recognise number words written with decomposed
 accents

---
 number_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 2d7b0ab..1f61e2a 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -175,11 +175,11 @@ def _build_number(token_list, lang_data):
 
 
 def _tokenize(input_string, language):
-    """Breaks string on any non-word character."""
+    """Breaks string on any non-word character, keeping combining accents in their word."""
     input_string = input_string.replace("\xad", "")
     if language in RE_BUG_LANGUAGES:
         return re.split(r"(\s+)", input_string)
-    return re.split(r"(\W)", input_string)
+    return re.split(r"([^\w\u0300-\u036f])", input_string)
 
 
 def _strip_accents(word):
-- 
2.43.0


From d02a7a8c9fb89bc9a96605d7a408d969779c5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 7/8] fix: ignore apostrophes in language detection and
 parse_ordinal as parse_number does

---
 number_parser/parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index 1f61e2a..a777a04 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -182,6 +182,11 @@ def _tokenize(input_string, language):
     return re.split(r"([^\w\u0300-\u036f])", input_string)
 
 
+def _remove_apostrophes(input_string):
+    """Normalizes the input string by removing apostrophes."""
+    return input_string.replace("'", "").replace("’", "")
+
+
 def _strip_accents(word):
     """Removes accent from the input word."""
     return "".join(
@@ -258,6 +263,7 @@ def _apply_cardinal_conversion(
 
 def _valid_tokens_by_language(input_string):
     language_matches = {}
+    input_string = _remove_apostrophes(input_string)
 
     for language in SUPPORTED_LANGUAGES:
         lang_data = LanguageData(language)
@@ -283,7 +289,7 @@ def parse_ordinal(input_string, language=None):
         language = _valid_tokens_by_language(input_string)
 
     lang_data = LanguageData(language)
-    tokens = _tokenize(input_string, language)
+    tokens = _tokenize(_remove_apostrophes(input_string), language)
     normalized_tokens = _normalize_tokens(tokens)
     processed_tokens = [
         _apply_cardinal_conversion(token, lang_data) for token in normalized_tokens
@@ -308,10 +314,7 @@ def parse_number(input_string, language=None):
 
     lang_data = LanguageData(language)
 
-    # Normalize the input string by removing apostrophes
-    input_string = input_string.replace("'", "")
-    input_string = input_string.replace("’", "")
-
+    input_string = _remove_apostrophes(input_string)
     tokens = _tokenize(input_string, language)
     normalized_tokens = _normalize_tokens(tokens)
     number_found = False
-- 
2.43.0


From 5ed81ce2bf4aa57d0f45f6e9b32f0550d66f4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 8/8] fix: parse keeps connecting words that do not join one
 number, as written

---
 number_parser/parser.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/number_parser/parser.py b/number_parser/parser.py
index a777a04..dd7ed70 100644
--- a/number_parser/parser.py
+++ b/number_parser/parser.py
@@ -114,7 +114,7 @@ def _build_number(token_list, lang_data):
     for token in token_list:
         if not token.strip():
             continue
-        if token in lang_data.skip_tokens:
+        if _is_skip_token(token, lang_data):
             used_skip_tokens.append(token)
             continue
 
@@ -230,7 +230,7 @@ def _is_number_token(token, lang_data):
 
 
 def _is_skip_token(token, lang_data):
-    return token in lang_data.skip_tokens
+    return _strip_accents(token.lower()) in lang_data.skip_tokens
 
 
 def _apply_cardinal_conversion(
@@ -384,7 +384,12 @@ def parse(input_string, language=None):
 
     def _build_and_add_number(pop_last_space=False):
         if tokens_taken:
-            result = _build_number(tokens_taken, lang_data)
+            # skip tokens after the last number word are not part of the number --> keep them
+            last_skip_tokens = []
+            while _is_skip_token(tokens_taken[-1], lang_data):
+                last_skip_tokens.insert(0, tokens_taken.pop())
+
+            result = _build_number(tokens_taken, lang_data) + last_skip_tokens
             tokens_taken.clear()
 
             for number in result:
@@ -415,18 +420,11 @@ def parse(input_string, language=None):
         if ordinal_number:
             tokens_taken.append(ordinal_number)
             _build_and_add_number(pop_last_space=True)
-        elif _is_cardinal_token(compare_token, lang_data) or (
-            _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0
-        ):
+        elif _is_cardinal_token(compare_token, lang_data):
             tokens_taken.append(compare_token)
+        elif _is_skip_token(compare_token, lang_data) and len(tokens_taken) != 0:
+            tokens_taken.append(token)
         else:
-            if tokens_taken and _is_skip_token(tokens_taken[-1], lang_data):
-                # when finishing with a skip_token --> keep it
-                skip_token = tokens_taken[-1]
-                tokens_taken.pop()
-                _build_and_add_number()
-                current_sentence.extend([skip_token, " "])
-
             _build_and_add_number()
             current_sentence.append(token)
 
-- 
2.43.0

