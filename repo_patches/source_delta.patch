From f2a8ddaa1c0e2c484ae5bee04d85499534379753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 01/15] fix: restore protected text that contains other
 protected text

---
 scrappybara/preprocessing/tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index bd6fb52..c1b9d2e 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -193,8 +193,8 @@ class Tokenizer(object):
         # Re-attach text
         for replace in self.__re_reattach:
             text = re.sub(replace[0], replace[1], text)
-        # Re-establish protected patterns
-        for key, value in protected.items():
+        # Re-establish protected patterns (last protected first, as it can contain patterns protected earlier)
+        for key, value in reversed(protected.items()):
             text = text.replace(key, value)
         return text.split()
 
-- 
2.43.0


From c1358b5edaaf7e69847858525ff9b5a8a9d03fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 02/15] fix: keep the internal end-of-sentence mark out of the
 tokens

---
 scrappybara/preprocessing/sentencizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index f27a723..a0aee5b 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -17,7 +17,7 @@ class Sentencizer(object):
     __re_bracket_block_end = '⦆'
     __re_sent_enders = re.compile(r'([.?!:]+|¶)')
     __re_sanitization = [
-        (re.compile(r'\."'), '."¶'),  # The end dot of a sentence can be in quote
+        (re.compile(r'\."'), '."¶ '),  # The end dot of a sentence can be in quote
     ]
 
     def __init__(self, tokenizer=Tokenizer()):
@@ -65,7 +65,7 @@ class Sentencizer(object):
     def __find_blocks(self, text, ctr, pattern, block_starter, block_ender):
         shift = 0
         for quote, sidx, eidx in [(m.group(), m.start(), m.end()) for m in re.finditer(pattern, text)]:
-            ctr.append(quote[1:-1])
+            ctr.append(quote[1:-1].replace('¶', ''))  # A sentence can't end inside a block
             number = str(len(ctr) - 1)
             text = text[:sidx - shift] + ' ' + block_starter + number + block_ender + ' ' + text[eidx - shift:]
             shift += len(quote) - 4 - len(number)
-- 
2.43.0


From 942b40dd62728f956bc68aa20491c47d1095ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 03/15] fix: propagate the exceptions raised inside worker
 threads

---
 scrappybara/utils/multithreading.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/multithreading.py b/scrappybara/utils/multithreading.py
index 648d954..5eaed56 100644
--- a/scrappybara/utils/multithreading.py
+++ b/scrappybara/utils/multithreading.py
@@ -11,9 +11,13 @@ class _Thread(threading.Thread):
         self.__input_items = input_items
         self.__process = process
         self.output_items = []
+        self.error = None
 
     def run(self):
-        self.output_items = [self.__process(item) for item in self.__input_items]
+        try:
+            self.output_items = [self.__process(item) for item in self.__input_items]
+        except BaseException as error:
+            self.error = error
 
 
 def run_multithreads(items, process, nb_threads):
@@ -25,5 +29,7 @@ def run_multithreads(items, process, nb_threads):
         nb_threads[idx].start()
     for idx, _ in enumerate(items_lists):
         nb_threads[idx].join()
+        if nb_threads[idx].error is not None:
+            raise nb_threads[idx].error
         output_items.extend(nb_threads[idx].output_items)
     return output_items
-- 
2.43.0


From 047bda347390cd83e903e4f3f6a3725abb807222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 04/15] fix: keep all tokens before when there are fewer of
 them than the explored range

---
 scrappybara/langmodel/token_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/token_context.py b/scrappybara/langmodel/token_context.py
index 4b1b1ac..df6be28 100644
--- a/scrappybara/langmodel/token_context.py
+++ b/scrappybara/langmodel/token_context.py
@@ -22,7 +22,7 @@ class TokenContext(object):
         """Given an order n, returns all combinations of ngram: before/token/after"""
         assert order > 1
         exploring_range = order - 1
-        tokens_before = self.__tokens_before[len(self.__tokens_before) - exploring_range:]
+        tokens_before = self.__tokens_before[-exploring_range:]
         tokens_after = self.__tokens_after[:exploring_range]
         tokens = tokens_before + [self.token] + tokens_after
         return [' '.join(items) for items in self.__slide_window(tokens, order)]
-- 
2.43.0


From 3d912e76909c8461512334e6321a2dd8fce75461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 05/15] fix: tagger returns exactly one tag per token

---
 scrappybara/syntax/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/syntax/tagger.py b/scrappybara/syntax/tagger.py
index 1ba77ea..6fbed11 100644
--- a/scrappybara/syntax/tagger.py
+++ b/scrappybara/syntax/tagger.py
@@ -21,4 +21,4 @@ class Tagger(object):
         data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
         seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)
         tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
-        return [[Tag(code) for code in tag_codes[idx][1:sl + 1]] for idx, sl in enumerate(seq_lengths)]
+        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
-- 
2.43.0


From 7640539f3e19b464c45a40be54c32b3c760fef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:03 +0000
Subject: [PATCH 06/15] fix: several iterations over the same tree don't
 disturb each other

---
 scrappybara/utils/tree.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/scrappybara/utils/tree.py b/scrappybara/utils/tree.py
index 33a3e9a..6142906 100644
--- a/scrappybara/utils/tree.py
+++ b/scrappybara/utils/tree.py
@@ -12,14 +12,10 @@ class Tree:
         self.__parents = {}  # Node => (label, node)
 
     def __iter__(self):
-        self.__iter = iter(self.__parents.items())
-        return self
-
-    def __next__(self):
         """Arc iterator"""
-        child, rparent = next(self.__iter)
-        label, parent = rparent
-        return label, parent, child
+        for child, rparent in self.__parents.items():
+            label, parent = rparent
+            yield label, parent, child
 
     def __len__(self):
         return 1 + len(self.__parents.keys())
-- 
2.43.0


From 4c3c9756c1a1018060ae6f396a6adb865ab1fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:27 +0000
Subject: [PATCH 07/15] fix: a token that already has a parent doesn't get a
 second one

---
 scrappybara/syntax/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scrappybara/syntax/parser.py b/scrappybara/syntax/parser.py
index d8e72b2..dc3c755 100644
--- a/scrappybara/syntax/parser.py
+++ b/scrappybara/syntax/parser.py
@@ -47,6 +47,9 @@ class _Parse(object):
         if not self.__stack:
             self.__shift()
 
+    def __has_parent(self, idx):
+        return any(child_idx == idx for _, _, child_idx in self.arcs)
+
     @property
     def complete(self):
         return not self.__buffer
@@ -71,7 +74,8 @@ class _Parse(object):
 
     def register_transition(self, trans):
         if trans == Trans.LEFT:
-            self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
+            if not self.__has_parent(self.__stack[-1]):  # A token has only one parent
+                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
             self.__reduce()
         elif trans == Trans.RIGHT:
             self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))
-- 
2.43.0


From 44a5101d0a1db3a31db75a3e4c818bf6a60cc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:05 +0000
Subject: [PATCH 08/15] fix: protect a link without cutting longer links that
 start with it

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index c1b9d2e..32acb34 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -208,7 +208,7 @@ class Tokenizer(object):
                 token = match.group()
                 key = '_PROTECTED_%d_' % index
                 protected[key] = token
-                text = text.replace(token, key)
+                text = text[:match.start()] + key + text[match.end():]
                 match = re.search(pattern, text)
                 index += 1
         return protected, text
-- 
2.43.0


From efca2e5755535406d59e6a9726fcc8b965c2c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:18 +0000
Subject: [PATCH 09/15] fix: comparison signs don't glue their neighbours
 together

---
 scrappybara/preprocessing/tokenizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index 32acb34..e988c7b 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -70,10 +70,10 @@ class Tokenizer(object):
         (re.compile(r'(?<=\s)(\d[\d,.]*)\'', re.I), r'\g<1>ft'),  # Feet
         (re.compile(r'(?<=\s)(\d[\d,.]*)"', re.I), r'\g<1>in'),  # Inches
         # < and >
-        (re.compile(r'\s?>\s?=\s?', re.I), __nsge),  # >=
-        (re.compile(r'\s?<\s?=\s?', re.I), __nsle),  # <=
-        (re.compile(r'\s?=\s?>\s?', re.I), __rnsge),  # =>
-        (re.compile(r'\s?=\s?<\s?', re.I), __rnsle),  # =<
+        (re.compile(r'\s?>\s?=\s?', re.I), ' %s ' % __nsge),  # >=
+        (re.compile(r'\s?<\s?=\s?', re.I), ' %s ' % __nsle),  # <=
+        (re.compile(r'\s?=\s?>\s?', re.I), ' %s ' % __rnsge),  # =>
+        (re.compile(r'\s?=\s?<\s?', re.I), ' %s ' % __rnsle),  # =<
     ]
 
     # CHARS TO ALWAYS SEGMENT OFF
-- 
2.43.0


From 33ce838eb6c40bcdfc60c17dd26943622febcf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:48 +0000
Subject: [PATCH 10/15] fix: the contraction of "and" doesn't glue its
 neighbours together

---
 scrappybara/preprocessing/tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index e988c7b..5d09b87 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -20,8 +20,8 @@ class Tokenizer(object):
 
     # Unambiguous patterns for text that can't be split
     __re_protect = [
-        re.compile(r"\s'n'\s", re.I),  # Abbreviation for "and"
-        re.compile(r"\s('n|n')\s", re.I),  # Abbreviations for "and" (shorter than above)
+        re.compile(r"(?<=\s)'n'(?=\s)", re.I),  # Abbreviation for "and"
+        re.compile(r"(?<=\s)('n|n')(?=\s)", re.I),  # Abbreviations for "and" (shorter than above)
         re.compile(r'(https?://|www\.)[^\s.]+(\.[^\s.]+)+(/[^\s]*)*', re.I),  # URLs
         re.compile(r'[^\s.]+(\.[^\s.]+)+/[^\s]*', re.I),  # URLs (shorter than above)
         re.compile(r'([:;]-?\))|([:;]-?\()', re.I),  # Common smileys
-- 
2.43.0


From 0351cbcb0a686c5710debcd8dc36854c80c12199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:08 +0000
Subject: [PATCH 11/15] fix: keep the internal end-of-sentence mark a token of
 its own with any tokenizer

---
 scrappybara/preprocessing/sentencizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index a0aee5b..c1a4be9 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -17,7 +17,7 @@ class Sentencizer(object):
     __re_bracket_block_end = '⦆'
     __re_sent_enders = re.compile(r'([.?!:]+|¶)')
     __re_sanitization = [
-        (re.compile(r'\."'), '."¶ '),  # The end dot of a sentence can be in quote
+        (re.compile(r'\."'), '." ¶ '),  # The end dot of a sentence can be in quote
     ]
 
     def __init__(self, tokenizer=Tokenizer()):
-- 
2.43.0


From 4aeff328ef8445cb01c6bfdbb854c8c5bc3a5a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:17 +0000
Subject: [PATCH 12/15] fix: past participles of lemmas ending with -ee, -oe,
 -ue or -ye

---
 scrappybara/normalization/inflector.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/scrappybara/normalization/inflector.py b/scrappybara/normalization/inflector.py
index 82bcadc..aab2597 100644
--- a/scrappybara/normalization/inflector.py
+++ b/scrappybara/normalization/inflector.py
@@ -13,14 +13,11 @@ class Inflector(object):
             return self.__lemma_pp[lemma]
         except KeyError:
             # Special endings
-            if len(lemma) > 2:
-                if lemma[-3] in CONSONANTS and lemma.endswith('ie'):
-                    return lemma + 'd'
+            if lemma.endswith('e'):
+                return lemma + 'd'
             if len(lemma) > 1:
                 if lemma[-2] in CONSONANTS and lemma[-1] == 'y':
                     return lemma[:-1] + 'ied'
-                if lemma[-2] in CONSONANTS and lemma.endswith('e'):
-                    return lemma + 'd'
                 if lemma[-2] in VOWELS and lemma[-1] in CONSONANTS:
                     best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')
                     if best:
-- 
2.43.0


From 147bacfb0e0e893a25dc32ae564673ea8e49d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:51 +0000
Subject: [PATCH 13/15] fix: maximum likelihood works when the texts have no
 n-gram of an order

---
 scrappybara/langmodel/mle_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/mle_smoother.py b/scrappybara/langmodel/mle_smoother.py
index faa2e36..6a922d2 100644
--- a/scrappybara/langmodel/mle_smoother.py
+++ b/scrappybara/langmodel/mle_smoother.py
@@ -34,7 +34,7 @@ class MLESmoother(Smoother):
     def __call__(self):
         for order in range(1, self._last_order + 1):
             data_slices = []
-            ngrams = self._ngrams[order]
+            ngrams = self._ngrams.get(order, [])
             for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
                 np_counts = np.array([ngrams[i].count for i in process_range])
                 data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))
-- 
2.43.0


From 35233d524a547de579be53dbd323471d73b316f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:38 +0000
Subject: [PATCH 14/15] fix: a copula argument is tagged as a verb

---
 scrappybara/semantics/argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/semantics/argument.py b/scrappybara/semantics/argument.py
index 0241341..425149b 100644
--- a/scrappybara/semantics/argument.py
+++ b/scrappybara/semantics/argument.py
@@ -8,7 +8,7 @@ class Argument(object):
 
     __codes = {code.value for code in ArgCode}
     __adj_codes = {ArgCode.ADJ.value, ArgCode.PP.value}
-    __verb_codes = {ArgCode.INTR.value, ArgCode.REC.value, ArgCode.TRANS.value}
+    __verb_codes = {ArgCode.COP.value, ArgCode.INTR.value, ArgCode.REC.value, ArgCode.TRANS.value}
 
     def __init__(self, word, code, is_affirmative=True):
         if code not in self.__codes:
-- 
2.43.0


From d0bf9401e8ab214b587e7983f18ab31a46a9339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:04 +0000
Subject: [PATCH 15/15] fix: has_only_lowercase_letters accepted upper-case
 letters

---
 scrappybara/utils/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/text.py b/scrappybara/utils/text.py
index 31568d0..6f798dc 100644
--- a/scrappybara/utils/text.py
+++ b/scrappybara/utils/text.py
@@ -8,6 +8,7 @@ DIGITS = set('0123456789')
 UPPERCASE_LETTERS = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
 
 _RE_ONLY_LETTERS = re.compile(r'[a-zA-Z]+')
+_RE_ONLY_LOWERCASE_LETTERS = re.compile(r'[a-z]+')
 
 
 # ###############################################################################
@@ -28,7 +29,7 @@ def has_only_letters(token: str) -> bool:
 
 
 def has_only_lowercase_letters(token: str) -> bool:
-    return bool(re.fullmatch(_RE_ONLY_LETTERS, token))
+    return bool(re.fullmatch(_RE_ONLY_LOWERCASE_LETTERS, token))
 
 
 def token_start(token, ending, start_min_length):
-- 
2.43.0

