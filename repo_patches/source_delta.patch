From 22be61855aa09e74610dd3b76d94c91b9a34e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 01/15] fix: count n-grams of exactly the words within the
 anchor window

The words to the right of an anchor were dropped once a full window of them had
followed, words with no anchor near them were counted when the text ended there,
a second anchor discarded the run collected so far, and the window to the left
was one word short.
---
 src/ngrams.rs | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/ngrams.rs b/src/ngrams.rs
index 2f35338..579f04f 100644
--- a/src/ngrams.rs
+++ b/src/ngrams.rs
@@ -56,12 +56,6 @@ impl Default for Ngrams {
   }
 }
 
-#[derive(Debug, Copy, Clone, PartialEq)]
-enum AnchorSide {
-  Left,
-  Right,
-}
-
 impl Ngrams {
   /// Get the word count
   pub fn get(&self, word: &str) -> usize {
@@ -99,40 +93,39 @@ impl Ngrams {
   /// flexibly looking for no-justification cutoffs, where a continuous word sequence is recorded
   /// for ngram counts
   pub fn add_anchored_content(&mut self, content: &str) {
-    // content to add through the ngram builder
+    // words of the current continuous run, all justified by some anchor
     let mut continuous_buffer = Vec::new();
+    // the latest words that no anchor has justified (yet)
     let mut context_window = CircularQueue::with_capacity(self.window_size);
-    let mut words_since_anchor_seen = 0;
-    let mut side = AnchorSide::Left;
+    // how many more words the latest anchor justifies to its right
+    let mut justified_ahead = 0;
 
     for w in content
       .split_ascii_whitespace()
       .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
     {
-      // add the current word, potentially erasing the oldest word that falls outside the window
-      context_window.push(w);
       let anchor = self.anchor.as_ref().unwrap();
       if w == anchor {
-        // we've hit an anchor word, the current content of the window should be analyzed
-        words_since_anchor_seen = 0;
-        side = AnchorSide::Right;
-        // analyze whatever is in the buffer, and empty it
-        continuous_buffer = context_window.asc_iter().copied().collect();
+        // we've hit an anchor word, which also justifies the current content of the window
+        continuous_buffer.extend(context_window.asc_iter().copied());
         context_window.clear();
+        continuous_buffer.push(w);
+        justified_ahead = self.window_size;
+      } else if justified_ahead > 0 {
+        continuous_buffer.push(w);
+        justified_ahead -= 1;
       } else {
-        words_since_anchor_seen += 1;
-        if words_since_anchor_seen == self.window_size && side == AnchorSide::Right {
-          // it has been too long since we saw an anchor, add to the current buffer, record and
-          // reset
+        if context_window.is_full() {
+          // the oldest word falls outside of all windows, so the continuous run (if any) ended
+          // before it: record and reset
           self.record_words(std::mem::take(&mut continuous_buffer));
-          context_window.clear();
-          side = AnchorSide::Left;
         }
+        // add the current word, potentially erasing the oldest word that falls outside the window
+        context_window.push(w);
       }
     }
-    // Any remaining content should be added
-    continuous_buffer.extend(context_window.asc_iter().copied());
-    self.record_words(std::mem::take(&mut continuous_buffer));
+    // Any remaining justified content should be added
+    self.record_words(continuous_buffer);
   }
 
   /// Take an arbitrarily long vector of words, and record all (overlapping) ngrams obtainable from
-- 
2.43.0


From e81d567a07ee03f9345aab828de7f1233a11266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 02/15] fix: trim ranges by characters, not bytes

---
 src/dnm/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index cbbe6a3..461afc6 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -47,14 +47,14 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
     for c in range_text.chars() {
       if c.is_whitespace() {
-        trimmed_start += c.len_utf8();
+        trimmed_start += 1;
       } else {
         break;
       }
     }
     for c in range_text.chars().rev() {
       if c.is_whitespace() {
-        trimmed_end -= c.len_utf8();
+        trimmed_end -= 1;
       } else {
         break;
       }
-- 
2.43.0


From 7913fe8a39334d384d7bdd39d36887b5144de100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 03/15] fix: tokenizer offsets count characters, as DNMRange
 expects

---
 src/tokenizer.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3ab0010..3e2f0ab 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -80,7 +80,7 @@ impl Tokenizer {
 
     while let Some(sentence_char) = text_iterator.next() {
       // Bookkeep the end position
-      end += sentence_char.len_utf8();
+      end += 1;
 
       match sentence_char {
         '.' | ':' => {
@@ -89,8 +89,8 @@ impl Tokenizer {
           while text_iterator.peek().unwrap_or(&'.').is_whitespace()
             || text_iterator.peek() == Some(&'\'')
           {
-            let space_char = text_iterator.next().unwrap();
-            end += space_char.len_utf8();
+            text_iterator.next();
+            end += 1;
           }
           if text_iterator.peek().is_none() {
             break;
@@ -205,8 +205,8 @@ impl Tokenizer {
             // second newline
             // Get next non-space character
             while text_iterator.peek().unwrap_or(&'.').is_whitespace() {
-              let space_char = text_iterator.next().unwrap();
-              end += space_char.len_utf8();
+              text_iterator.next();
+              end += 1;
             }
             if text_iterator.peek().is_none() {
               break;
@@ -248,12 +248,12 @@ impl Tokenizer {
               sentences.push(
                 DNMRange {
                   start,
-                  end: end - other_char.len_utf8(),
+                  end: end - 1,
                   dnm,
                 }
                 .trim(),
               );
-              start = end - other_char.len_utf8();
+              start = end - 1;
             }
           }
           // Increment the left window
@@ -285,7 +285,7 @@ impl Tokenizer {
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
     while let Some(c) = text_iterator.next() {
-      end += c.len_utf8();
+      end += 1;
       if !c.is_alphanumeric() {
         if c == '\'' || c == '’' {
           if let Some(peeked) = text_iterator.peek() {
@@ -294,8 +294,8 @@ impl Tokenizer {
             }
           }
         }
-        if start < end - c.len_utf8() {
-          result.push(sentence_range.get_subrange(start, end - c.len_utf8()));
+        if start < end - 1 {
+          result.push(sentence_range.get_subrange(start, end - 1));
         }
         start = end;
       }
@@ -319,7 +319,7 @@ impl Tokenizer {
       () => {
         if start < end {
           if apostrophe_flag {
-            match &range_text[start + 1..end] {
+            match range.get_subrange(start + 1, end).get_plaintext() {
               // Handle closed set of apostrophe cases, detach from all other cases
               "t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "il" | "re" | "m" => {},
               _ => {
@@ -338,18 +338,18 @@ impl Tokenizer {
     for c in text_iterator {
       // letters, numbers can accumulate
       if c.is_alphanumeric() {
-        end += c.len_utf8();
+        end += 1;
       } else {
         // everything else completes a word and starts a new one
         complete_word!();
         // except that whitepace can be skipped over
         if c.is_whitespace() {
-          end += c.len_utf8();
+          end += 1;
           start = end;
         }
         // non-alphanum chars are standalone words EXCEPT when connectors such as apostrophes
         else {
-          end += c.len_utf8();
+          end += 1;
           if c == '\'' || c == '’' {
             apostrophe_flag = true;
           } else {
@@ -384,7 +384,7 @@ fn next_word_with_length(text_iterator: &mut Peekable<Chars>) -> (String, usize)
   while next_word_length < 20 && text_iterator.peek().unwrap_or(&'.').is_alphabetic() {
     let word_char = text_iterator.next().unwrap();
     next_word.push(word_char);
-    next_word_length += word_char.len_utf8();
+    next_word_length += 1;
   }
 
   let next_word: String = next_word.into_iter().collect();
-- 
2.43.0


From 39413c4301f534f9860997bc758f46ae8436b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 04/15] fix: no empty word range after a lone apostrophe

---
 src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3e2f0ab..942f30f 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -328,7 +328,10 @@ impl Tokenizer {
               },
             }
           }
-          result.push(range.get_subrange(start, end));
+          // a lone apostrophe has no trailing word
+          if start < end {
+            result.push(range.get_subrange(start, end));
+          }
           apostrophe_flag = false;
           start = end;
         }
-- 
2.43.0


From e8b87f4cfaefa1f01fe2f909bb7005c04bff55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 05/15] fix: serialize ranges that reach the end of the text

---
 src/dnm/range.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 461afc6..b830bef 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -141,7 +141,14 @@ impl<'dnmrange> DNMRange<'dnmrange> {
       panic!("DNMRange::serialize: DNM did not generate the back_map");
     }
     let (node1, offset1) = self.dnm.back_map[self.start];
-    let (node2, offset2) = self.dnm.back_map[self.end];
+    // The end is exclusive, so at the very end of the text it points right behind the last character
+    let (node2, offset2) = match self.dnm.back_map.get(self.end) {
+      Some(&entry) => entry,
+      None => match self.dnm.back_map[self.end - 1] {
+        (node, offset) if offset < 0 => (node, offset),
+        (node, offset) => (node, offset + 1),
+      },
+    };
     DNMRange::create_arange(
       &DNMRange::serialize_offset(self.dnm.root_node, node1, offset1, false),
       &DNMRange::serialize_offset(self.dnm.root_node, node2, offset2, true),
-- 
2.43.0


From 56cb953de8d4242225b9341698c8c4b010de5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 06/15] fix: an unparseable document does not end the corpus
 walk

---
 src/data.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 36df7a2..2318906 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -142,15 +142,11 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         };
         if selected {
           let path = entry.path().to_str().unwrap_or("").to_owned();
-          let doc_result = Document::new(path, self.corpus);
-          return match doc_result {
-            Ok(doc) => Some(doc),
-            // TODO: Currently encountering an unparseable file will terminate the entire corpus
-            // walk, which is too severe.
-            // A more viable strategy would be to 1) retry creating the document once and 2)
-            // print an error message and continue the walk
-            _ => None,
-          };
+          match Document::new(path, self.corpus) {
+            Ok(doc) => return Some(doc),
+            // an unparseable file must not terminate the walk
+            Err(e) => println!("-- Error while parsing {:?}: {e:?}", entry.path()),
+          }
         }
       } else {
         println!("-- Error while walking for entry: {next_entry:?}")
-- 
2.43.0


From 263966ba1e18a5c925f868f5ed7992edb7a75622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 07/15] fix: an unparseable document does not abort the
 parallel walk

---
 src/parallel_data/corpus.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index 17559af..408aec2 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -78,7 +78,14 @@ impl Corpus {
       .par_bridge()
       .map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        // an unparseable file must not terminate the walk
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          Err(e) => {
+            println!("-- Error while parsing {path:?}: {e:?}");
+            return HashMap::new();
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
@@ -126,7 +133,14 @@ impl Corpus {
       .par_bridge()
       .map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        // an unparseable file must not terminate the walk
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          Err(e) => {
+            println!("-- Error while parsing {path:?}: {e:?}");
+            return (HashMap::new(), HashMap::new());
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
-- 
2.43.0


From 2dee47a0d14a6593dd5cb45bddcfd32e4a567877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 08/15] fix: heading normalization keeps words apart

Dropping a numeral, a single letter or a plural ending removed the white
space around it too, so that the neighbouring words grew together
("theorems and proofs" became "theoremand proof").
---
 src/util/data_helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 854ffda..9823458 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -24,7 +24,7 @@ lazy_static! {
   static ref LEAD_FIXED_PHRASE: Regex = Regex::new(r"^(comparison with|(?:list|summary|outline|sketch|overview|start|end) of|general|other|additional|completion|finishing|first|second|third|new|alternative|chapter|section|some|basic|closely|an|our|the)\s").unwrap();
   static ref TRAILING_FIXED_WORD: Regex = Regex::new(r"\s(see|of|for|of the paper)$").unwrap();
   static ref COMMON_PLURALS : Regex = Regex::new(
-    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(?:\s|$)"
+    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(\s|$)"
   ).unwrap();
 }
 
@@ -128,13 +128,13 @@ pub fn heading_from_node_aux(
 /// e.g. "definition xiii a"->"definition"
 #[allow(clippy::cognitive_complexity)]
 pub fn normalize_heading_title(heading: &str) -> String {
-  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), "");
+  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), " ");
   let simple_heading = IS_NUM.replace_all(simple_heading.trim(), " ");
-  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), "");
+  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), " ");
   let simple_heading = SINGLE_TRAIL_LETTER.replace_all(simple_heading.trim(), "");
   let simple_heading = LEAD_FIXED_PHRASE.replace_all(simple_heading.trim(), "");
   let simple_heading = TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "");
-  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1");
+  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1$2");
   if simple_heading.is_empty() {
     // quick exit if empty
     String::new()
-- 
2.43.0


From f5f2d1c8e65485b87d5e865896b384b37cf61239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 09/15] fix: an unreadable document has no words

The panic of path_to_words aborted the process of a foreign caller, as it
cannot unwind across the C interface.
---
 src/util/path_helpers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/path_helpers.rs b/src/util/path_helpers.rs
index a68dac5..71f48ac 100644
--- a/src/util/path_helpers.rs
+++ b/src/util/path_helpers.rs
@@ -6,10 +6,14 @@ use crate::data::{Corpus, Document};
 use crate::util::data_helpers;
 use crate::util::data_helpers::LexicalOptions;
 
-/// Given a path to a document, return a word-tokenized string of all of its paragraphs
+/// Given a path to a document, return a word-tokenized string of all of its paragraphs, which is
+/// empty if there is no readable document at this path
 pub fn path_to_words(path: String) -> String {
   let corpus = Corpus::default();
-  let mut document = Document::new(path, &corpus).unwrap();
+  let mut document = match Document::new(path, &corpus) {
+    Ok(document) => document,
+    Err(_) => return String::new(),
+  };
   let mut context = Context::new(&document.dom).unwrap();
 
   // We will tokenize each logical paragraph, which are the textual logical units
-- 
2.43.0


From ac78de99db4dc45bb2eff44265455e5c475fd518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 10/15] fix: words keep their case unless it is to be discarded

LexicalOptions::discard_case was ignored: every word was lowercased, also
when the caller asked to keep the case.
---
 src/util/data_helpers.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 9823458..e948835 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -59,16 +59,15 @@ pub fn ams_normalize_word_range(
   context: &mut Context,
   options: LexicalOptions,
 ) -> Result<String, Box<dyn Error>> {
-  let mut word_string = if options.discard_punct {
-    range
-      .get_plaintext()
-      .to_lowercase()
-      .chars()
-      .filter(|c| c.is_alphanumeric()) // drop apostrophes, other noise?
-      .collect::<String>()
-  } else {
+  let mut word_string = if options.discard_case {
     range.get_plaintext().to_lowercase()
+  } else {
+    range.get_plaintext().to_string()
   };
+  if options.discard_punct {
+    // drop apostrophes, other noise?
+    word_string.retain(|c| c.is_alphanumeric());
+  }
   if word_string.len() > MAX_WORD_LENGTH {
     // Using a more aggressive normalization, large words tend to be conversion
     // errors with lost whitespace - drop the entire paragraph when this occurs.
@@ -84,7 +83,7 @@ pub fn ams_normalize_word_range(
     } else {
       word_string = dnm::node::lexematize_math(range.get_node(), context);
     }
-  } else if word_string.contains("citationelement") {
+  } else if word_string.to_lowercase().contains("citationelement") {
     word_string = String::from("citationelement");
   } else if IS_NUMERIC.is_match(&word_string) {
     word_string = String::from("NUM");
-- 
2.43.0


From fefa45ad0a9d418bf9d5cca7ecd52a139ae742f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 11/15] fix: word_not matches the words its pattern does not
 match

---
 src/patterns/matching.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 22e9535..26ab964 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -443,11 +443,13 @@ fn match_word<'t>(
       matched: true,
     },
     WordPattern::WordNot(ref p) => {
-      let m = match_word(pf, p, word, range);
-      if m.matched {
-        m
-      } else {
+      if match_word(pf, p, word, range).matched {
         InternalWordMatch::no_match()
+      } else {
+        InternalWordMatch {
+          _matches: Vec::new(),
+          matched: true,
+        }
       }
     },
     WordPattern::Marked(ref p, ref marker) => {
-- 
2.43.0


From 168d80b189a5223fba76e38527ad1124e14b8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 12/15] fix: math_descendant searches all descendants, not only
 children

---
 src/patterns/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 26ab964..4ab6d16 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -595,7 +595,7 @@ fn match_math<'t>(pf: &PatternFile, rule: &MathPattern, node: RoNode) -> Interna
             matched: true,
           };
         }
-        let m = match_math(pf, pattern, child);
+        let m = match_math(pf, rule, child);
         if m.matched {
           matched = true;
           matches.extend_from_slice(&m._matches[..]);
-- 
2.43.0


From d036e796d0a7a530712eca858ddea64564106665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 13/15] fix: word offsets of senna are byte offsets

---
 src/patterns/matching.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 4ab6d16..d4368f6 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -315,7 +315,7 @@ fn match_seq<'t>(
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange(
+              range: range.get_subrange_from_byte_offsets(
                 sentence.get_words()[pos].get_offset_start(),
                 sentence.get_words()[m.end - 1].get_offset_end(),
               ),
@@ -410,7 +410,9 @@ fn match_word<'t>(
       }
     },
     WordPattern::MathWord(ref math_pattern) => {
-      let node = range.dnm.back_map[range.start + word.get_offset_start()].0;
+      let node = range
+        .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end())
+        .get_node();
       if node.get_name() != "math" {
         return InternalWordMatch::no_match();
       }
@@ -458,7 +460,8 @@ fn match_word<'t>(
         InternalWordMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-              range: range.get_subrange(word.get_offset_start(), word.get_offset_end()),
+              range: range
+                .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end()),
               marker: marker.clone(),
             }),
             sub_matches: m._matches,
-- 
2.43.0


From f6ddcae64deada9e9ae5c39745099725f4f07289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 14/15] fix: markers on matches without words

---
 src/patterns/matching.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index d4368f6..125b110 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -311,14 +311,33 @@ fn match_seq<'t>(
     SequencePattern::Marked(ref pattern, ref marker) => {
       let m = match_seq(pf, pattern, sentence, phrase_tree, range, pos);
       if m.matched {
+        let words = sentence.get_words();
+        let marked_range = if m.end > pos {
+          range.get_subrange_from_byte_offsets(
+            words[pos].get_offset_start(),
+            words[m.end - 1].get_offset_end(),
+          )
+        } else {
+          // no word matched: mark the empty range before the next word, or at the end
+          let place = match words.get(pos) {
+            Some(word) => {
+              range
+                .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end())
+                .start
+            },
+            None => range.end,
+          };
+          DNMRange {
+            start: place,
+            end: place,
+            dnm: range.dnm,
+          }
+        };
         InternalSeqMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange_from_byte_offsets(
-                sentence.get_words()[pos].get_offset_start(),
-                sentence.get_words()[m.end - 1].get_offset_end(),
-              ),
+              range: marked_range,
             }),
             sub_matches: m._matches,
           }],
-- 
2.43.0


From 747d6f1e512a340d84a5211604651c858ce0c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 15/15] fix: keep the back map in step when lower-casing gives
 several characters

---
 src/dnm/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index b21dcdb..2b7fdab 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -223,6 +223,16 @@ impl DNM {
     self.normalize_unicode(&mut string, &mut offsets);
     self.stem_words(&mut string /* , &mut offsets */);
     if self.parameters.convert_to_lowercase {
+      if self.parameters.support_back_mapping {
+        // a character can become several lower-case characters, which all keep its offset
+        let mut new_offsets: Vec<i32> = Vec::new();
+        for (i, c) in string.chars().enumerate() {
+          for _ in c.to_lowercase() {
+            new_offsets.push(offsets[i]);
+          }
+        }
+        offsets = new_offsets;
+      }
       string = string.to_lowercase();
     }
     self.normalize_whitespace(&mut string, &mut offsets);
-- 
2.43.0

