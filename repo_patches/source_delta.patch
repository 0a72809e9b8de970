From 342243f760284887acf724af632590cabe50a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 1/7] fix: escape every reserved leading char when printing a
 regex

The length test compared bytes, so the two-byte symbols and clusters that
start with a reserved char were printed unescaped and read back as operators.
---
 dandy/src/regex/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 9f282bb..b85d152 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -194,10 +194,9 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
-                    if g.len() == 1
-                        && ['(', ')', '∅', 'ε', '|', '*', '+', '\\']
-                            .contains(&g.chars().next().unwrap())
-                    {
+                    if g.chars().next().map_or(false, |c| {
+                        ['(', ')', '∅', 'ε', '|', '*', '+', '\\'].contains(&c)
+                    }) {
                         acc.push('\\');
                         acc.push_str(g);
                     } else {
-- 
2.43.0


From 473b06bbfc10c9fa1bfdf8dd4a873defc5499446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 2/7] fix: NfaEvaluator::step keeps rejecting after an unknown
 element

---
 dandy/src/nfa/eval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dandy/src/nfa/eval.rs b/dandy/src/nfa/eval.rs
index 1f84b01..25d5a3c 100644
--- a/dandy/src/nfa/eval.rs
+++ b/dandy/src/nfa/eval.rs
@@ -42,6 +42,10 @@ impl<'a> NfaEvaluator<'a> {
     }
 
     pub fn step(&mut self, elem: &str) -> Option<()> {
+        if self.unknown_elem_seen {
+            return None;
+        }
+
         match self.rev_map.get(elem) {
             None => {
                 self.unknown_elem_seen = true;
-- 
2.43.0


From 4c55175af90c3fc631331850b367a667d28a1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 3/7] fix: DfaEvaluator::step_multiple on an empty slice after
 an unknown element

---
 dandy/src/dfa/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy/src/dfa/eval.rs b/dandy/src/dfa/eval.rs
index cda16c6..8738e0e 100644
--- a/dandy/src/dfa/eval.rs
+++ b/dandy/src/dfa/eval.rs
@@ -61,7 +61,7 @@ impl<'a> DfaEvaluator<'a> {
                 self.unknown_elem_seen = true;
                 None
             }
-            Some(_) => Some(&self.dfa.states[self.current_state]),
+            Some(_) => self.current_state(),
         }
     }
 }
-- 
2.43.0


From bbff8329bf18d0e479b8759d9f81e389da492dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 4/7] fix: wasm regex_to_nfa must not unload the regex

Like every other conversion it leaves its argument loaded; only delete_regex unloads it.
---
 dandy-wasm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-wasm/src/lib.rs b/dandy-wasm/src/lib.rs
index 32ee854..5eeec79 100644
--- a/dandy-wasm/src/lib.rs
+++ b/dandy-wasm/src/lib.rs
@@ -51,7 +51,7 @@ macro_rules! console_log {
 #[wasm_bindgen]
 pub fn regex_to_nfa(regex: usize) -> Option<usize> {
     REGEX_MAP
-        .with_borrow_mut(|map| map.remove(&regex))
+        .with_borrow(|map| map.get(&regex).cloned())
         .map(|regex| push_nfa(regex.to_nfa()))
 }
 
-- 
2.43.0


From 3c59f961ebb37973da231ee09be36f4370130bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 5/7] fix: ascii art panicked on labels longer than the line or
 next to non-ascii labels

---
 dandy-draw/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 7726f2a..369034d 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -423,9 +423,14 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
                         // We need to replace the nth *char* which is not necessarily same as the nth byte (we could
                         // have inserted labels to the left)
                         let start = right_x_idx(arrow.arrow.left);
-                        let start = bot_line.char_indices().nth(start).unwrap().0;
+                        let byte_idx = |nth: usize| {
+                            bot_line
+                                .char_indices()
+                                .nth(nth)
+                                .map_or(bot_line.len(), |(idx, _)| idx)
+                        };
                         // We need to replace equally many spaces as the label has (visible) chars
-                        start + 1..start + label.chars().count() + 1
+                        byte_idx(start + 1)..byte_idx(start + label.chars().count() + 1)
                     };
                     bot_line.replace_range(range, &label);
                 } else {
-- 
2.43.0


From 3627dcb402adc58de2e2a2ffffbcef9b65fdb3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 6/7] fix: terminate each result with a newline in the out file
 as on stdout

---
 dandy-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index 275fdd8..afd9299 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -298,7 +298,7 @@ fn main() {
     let mut sink = |s: &str| {
         println!("{s}");
         if let Some(f) = out_file.as_mut() {
-            f.write_all(s.as_bytes()).unwrap();
+            writeln!(f, "{s}").unwrap();
         };
     };
 
-- 
2.43.0


From 02bfc7184b8080cce50b57bdf5447a266a366ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 7/7] fix: keep absolute paths intact in last_n_components

Collecting the reversed components pushed the root last, which replaced the whole path by "/".
---
 dandy-cli/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index afd9299..041be31 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -349,10 +349,10 @@ pub fn last_n_components(path: &Path, n: Option<usize>) -> Option<String> {
         return Some(path.display().to_string());
     };
     (n != 0).then(|| {
-        let new_path = path.components().rev().take(n).collect::<PathBuf>();
-        new_path
-            .components()
-            .rev()
+        let mut components = path.components().rev().take(n).collect::<Vec<_>>();
+        components.reverse();
+        components
+            .into_iter()
             .collect::<PathBuf>()
             .display()
             .to_string()
-- 
2.43.0

