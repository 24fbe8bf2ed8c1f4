From 98bdbf04f744837828764180740ccf3be8748ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:01 +0000
Subject: [PATCH 01/79] fix: CheckLine took its second value from the second
 operator

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 297475d..72c6855 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2279,7 +2279,7 @@ impl CheckLine {
         self.val2 = if r.val2.is_none() {
             None
         } else {
-            Some(r.op2.unwrap().to_owned())
+            Some(r.val2.unwrap().to_owned())
         };
         Ok(())
     }
-- 
2.43.0


From f711bb2e8c327f83cfd87cfe3bb8f3c24b2f6bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:01 +0000
Subject: [PATCH 02/79] fix: CompareOp::line_ok compared value OP line instead
 of line OP value

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 72c6855..678225a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2115,7 +2115,7 @@ impl CompareOp {
         comp: &mut LineCompList,
         line_num: usize,
     ) -> bool {
-        if !self.invert().line_ok(line, comp) {
+        if !self.line_ok(line, comp) {
             eprint!("Line {line_num} : ");
             prerr_n(&[&line.line]);
             eprint!("should have been {self:?} ");
@@ -2129,7 +2129,7 @@ impl CompareOp {
     /// return (line OP value)
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> bool {
         let o = comp.comp_self_cols(line);
-        self.ord_ok(o)
+        self.invert().ord_ok(o)
     }
     /// does Ordering satisfy `CompareOp`
     #[must_use]
-- 
2.43.0


From ab21a9e4bfcb6263db334461338ea47c792397a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:01 +0000
Subject: [PATCH 03/79] fix: CheckLine::line_ok_verbose ignored the second
 bound

---
 src/util.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 678225a..38dbbab 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2295,7 +2295,16 @@ impl CheckLine {
         line_num: usize,
     ) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        Ok(self.op.line_ok_verbose(line, comp, line_num))
+        if !self.op.line_ok_verbose(line, comp, line_num) {
+            return Ok(false);
+        }
+        match self.op2 {
+            None => Ok(true),
+            Some(o) => {
+                comp.set(self.val2.as_ref().unwrap().as_bytes(), b',')?;
+                Ok(o.line_ok_verbose(line, comp, line_num))
+            }
+        }
     }
     /// compare line OP text, return true if match
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> Result<bool> {
-- 
2.43.0


From f6ff1ec3e313bd843583f7793b86adec32baa2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:01 +0000
Subject: [PATCH 04/79] fix: range specs split <= and >= after the first
 character

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 38dbbab..4e4c4a6 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2158,8 +2158,8 @@ impl<'a> RangeSpec<'a> {
     fn new(spec: &'a str) -> Result<Self> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("^(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)(.+)$").unwrap();
-            static ref RE2: Regex = Regex::new("^(<|>|<=|>=|==|!=)(.+)$").unwrap();
+                Regex::new("^(<=|>=|==|!=|<|>)([^<>!=]+)(<=|>=|==|!=|<|>)(.+)$").unwrap();
+            static ref RE2: Regex = Regex::new("^(<=|>=|==|!=|<|>)(.+)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("^(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("^(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
-- 
2.43.0


From b52ec499e839fd0ddbb3b3aacb38d2430129ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 05/79] fix: header modes Strip and None were swapped for the
 first file

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 4e4c4a6..0d3f876 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2008,7 +2008,7 @@ impl HeaderChecker {
             }
         } else {
             self.saw_one = true;
-            if cdx && self.mode == HeaderMode::Strip {
+            if cdx && self.mode == HeaderMode::None {
                 return err!("Found CDX header in {} where one was forbidden", fname);
             } else if !cdx && self.mode == HeaderMode::Require {
                 return err!("Found no CDX header in {} where one was required", fname);
-- 
2.43.0


From 8d180ff64d7e5621fa2fb793c5c8797b5fad084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 06/79] fix: a first file without header escaped the header
 policy

---
 src/util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 0d3f876..e49b3b9 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1960,9 +1960,7 @@ impl HeaderChecker {
     pub fn check(&mut self, first_line: &[u8], fname: &str) -> Result<bool> {
         // FIXME - if is_cdx, make sure is also a valid header
         let cdx = is_valid_cdx(first_line, self.mode, fname)?;
-        if first_line.is_empty() {
-            Ok(false)
-        } else if first_line.last().unwrap() != &b'\n' && cdx {
+        if cdx && first_line.last().unwrap() != &b'\n' {
             err!("Malformed Header line in file {}", &fname)
         } else if self.saw_one {
             match self.mode {
-- 
2.43.0


From 32b92bf7e8942041ecbce9c59e79941dde030ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 07/79] fix: header mode Require did not require later headers
 to match

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index e49b3b9..3eef427 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1992,6 +1992,9 @@ impl HeaderChecker {
                     if !cdx {
                         return err!("No CDX Header found in {} where one was required.", fname);
                     }
+                    if first_line != self.head {
+                        return err!("Header Mismatch in file {}", fname);
+                    }
                     Ok(false)
                 }
                 HeaderMode::Strip => Ok(!cdx),
-- 
2.43.0


From fdd660da075ea43a4ebd0550749c6bc472337f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 08/79] fix: HeaderChecker::check_file ignored the decision to
 drop the header

---
 src/util.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 3eef427..02e8cb7 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1947,12 +1947,12 @@ impl HeaderChecker {
     /// return true if the header should be written
     pub fn check_file(&mut self, file: &Reader, fname: &str) -> Result<bool> {
         let first = !self.saw_one;
-        if file.has_header() {
-            self.check(file.header().line.as_bytes(), fname)?;
+        let write = if file.has_header() {
+            self.check(file.header().line.as_bytes(), fname)?
         } else {
-            self.check(b"fake", fname)?;
-        }
-        Ok(file.has_header() && first)
+            self.check(b"fake", fname)?
+        };
+        Ok(write && file.has_header() && first)
     }
 
     /// call for the first line of every input file
-- 
2.43.0


From aa4717e74075969602b31a10632fe21805511a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:57 +0000
Subject: [PATCH 09/79] fix: fractional at-most and at-least thresholds were
 swapped

---
 src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 56cf87f..8f9159c 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -186,7 +186,7 @@ impl Thresh {
     pub fn at_most_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n <= *c,
-            Self::Frac(f) => num::f64_less(*f, n, tot),
+            Self::Frac(f) => num::f64_greater(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
@@ -194,7 +194,7 @@ impl Thresh {
     pub fn at_least_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n >= *c,
-            Self::Frac(f) => num::f64_greater(*f, n, tot),
+            Self::Frac(f) => num::f64_less(*f, n, tot),
         }
     }
     /// we've seen this many, is that a match?
-- 
2.43.0


From 4437192499124ecea9c79f3fbc3f65a374915975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:57 +0000
Subject: [PATCH 10/79] fix: bracketed column sets in matcher specs included
 the wrong bracket

---
 src/matcher.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 8f9159c..b491d6b 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -905,8 +905,8 @@ impl ColGroup {
             Ok((Self::default(), &spec[1..]))
         } else if spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[1..len - 1];
+            let rest = spec[len..].strip_prefix(',').unwrap_or("");
             Ok((
                 Self {
                     col: ColumnSet::from_spec(cols)?,
@@ -1930,8 +1930,8 @@ impl MatchMaker {
     pub fn make_line(spec: &str) -> Result<Box<dyn LineMatch>> {
         if !spec.is_empty() && spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[..len];
+            let rest = spec[len..].strip_prefix(',').unwrap_or("");
             if let Some((c, d)) = rest.split_once(',') {
                 Self::make_line3(cols, c, d)
             } else {
-- 
2.43.0


From 0f370798e10cd92a6d15a51c5bc49f804f8cf3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 11/79] fix: LineComp::comp_items reversed twice when the
 cached keys were equal

---
 src/comp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index ebe1cfa..8c65158 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -247,7 +247,8 @@ impl LineComp {
         } else if left.complete() && right.complete() {
             Ordering::Equal
         } else {
-            self.comp_lines(left.get(base), right.get(base))
+            self.comp
+                .comp_lines(left.get(base), right.get(base), self.delim, 0, 0)
         };
         self.reverse(x)
     }
-- 
2.43.0


From 361cdcbc9319428792f1bde9ae93d01e5a1debc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 12/79] fix: Comp ignored the rev modifier

---
 src/comp.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 8c65158..d967fa0 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -153,14 +153,22 @@ impl Comp {
             junk: c.junk,
             pattern: c.pattern.clone(),
             ctype: c.ctype.clone(),
-            reverse: c.reverse,
+            reverse: false, // the LineComp does the reversing
             comp: Box::new(ComparePlain::new()),
         }
     }
     /// Compare two slices, usually column values
     #[must_use]
     pub fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
-        self.comp.comp(left, right)
+        self.reverse(self.comp.comp(left, right))
+    }
+    /// reverse the ordering if self.reverse is set
+    const fn reverse(&self, x: Ordering) -> Ordering {
+        if self.reverse {
+            x.reverse()
+        } else {
+            x
+        }
     }
     /// Compare two slices for equality
     #[must_use]
@@ -178,7 +186,7 @@ impl Comp {
     /// Compare self to slice
     #[must_use]
     pub fn comp_self(&self, right: &[u8]) -> Ordering {
-        self.comp.comp_self(right)
+        self.reverse(self.comp.comp_self(right))
     }
     /// Compare self to slice for equality
     #[must_use]
-- 
2.43.0


From 1bfa67230953451693ea80ec51d2752ba698511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 13/79] fix: whole line keys were cached from the whole buffer
 rather than the line

---
 src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index d967fa0..99efba7 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -453,7 +453,7 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, value);
+        self.comp.fill_cache(item, item.get(value));
     }
 
     fn set(&mut self, value: &[u8]) {
-- 
2.43.0


From 64e7a72ea1705b15e14c3bf754a6c14ce18c56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 14/79] fix: numeric comparison cached a key that contradicts
 the comparison

---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 99efba7..c1aef8b 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1664,8 +1664,10 @@ impl Compare for CompareNumeric {
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
         num_cmp_signed(left, right) == Ordering::Equal
     }
-    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
-        item.cache = ulp_to_ulong(value.to_f64_lossy());
+    fn fill_cache(&self, item: &mut Item, _value: &[u8]) {
+        // to_f64 reads "1,000" and "1e2" differently than num_cmp_signed does, so no cached key
+        item.cache = 0;
+        item.clear_complete();
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
-- 
2.43.0


From a560f337ee48a6f6b74b685bcd745afe215c3479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 15/79] fix: cached keys made values with trailing NULs compare
 equal

---
 src/comp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index c1aef8b..69c6bea 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -633,6 +633,10 @@ fn make_array(val: &[u8]) -> [u8; 8] {
     }
     res
 }
+/// can `val` be recovered from `make_array(val)`
+fn fits_cache(val: &[u8]) -> bool {
+    val.len() <= 8 && !val.contains(&0)
+}
 /*
 fn make_array(val: &[u8]) -> [u8; 8] {
     let mut result = [0; 8];
@@ -1596,7 +1600,7 @@ impl Compare for ComparePlain {
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = u64::from_be_bytes(make_array(value));
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(fits_cache(value));
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
@@ -1622,7 +1626,7 @@ impl Compare for CompareLower {
             x.make_ascii_lowercase();
         }
         item.cache = u64::from_be_bytes(aa);
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(fits_cache(value));
     }
     fn set(&mut self, value: &[u8]) {
         value.assign_lower(&mut self.value);
-- 
2.43.0


From bd3196941f4c8cf270ca48b8e253259c00e7776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 16/79] fix: cached float keys ordered -0 before 0

---
 src/num.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/num.rs b/src/num.rs
index 24ad3e4..cab7117 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -116,6 +116,7 @@ pub fn fcmp(x: f64, y: f64) -> Ordering {
 /// convert an f64 to a similarly ordered u64
 #[must_use]
 pub fn ulp_to_ulong(d: f64) -> u64 {
+    let d = if d == 0.0 { 0.0 } else { d }; // -0 and 0 are equal
     let x = u64::from_ne_bytes(d.to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
         x ^ 0xffff_ffff_ffff_ffff_u64
-- 
2.43.0


From d65e79f5531dd1d1c817b28894c8307093ab7300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 17/79] fix: random comparison reported equality although it
 never orders as equal

---
 src/comp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 69c6bea..d81f28a 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1503,7 +1503,7 @@ impl Compare for CompareRandom {
         self.ord()
     }
     fn equal(&self, _left: &[u8], _right: &[u8]) -> bool {
-        fastrand::bool()
+        false
     }
     fn fill_cache(&self, _item: &mut Item, _value: &[u8]) {}
     fn set(&mut self, _value: &[u8]) {}
@@ -1511,7 +1511,7 @@ impl Compare for CompareRandom {
         self.ord()
     }
     fn equal_self(&self, _right: &[u8]) -> bool {
-        fastrand::bool()
+        false
     }
 }
 
-- 
2.43.0


From bc490d62e610f2f2dac37f22aadef1e07b39c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 18/79] fix: length comparison against a fixed value truncated
 lengths

---
 src/comp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index d81f28a..7e35787 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1536,7 +1536,7 @@ struct CompareLower {
 /// Compare by length of string
 #[derive(Default, Debug)]
 struct CompareLen {
-    value: u32,
+    value: usize,
 }
 
 /// always equal comparison
@@ -1738,13 +1738,13 @@ impl Compare for CompareLen {
         item.set_complete();
     }
     fn set(&mut self, value: &[u8]) {
-        self.value = value.len() as u32;
+        self.value = value.len();
     }
     fn comp_self(&self, right: &[u8]) -> Ordering {
-        self.value.cmp(&(right.len() as u32))
+        self.value.cmp(&right.len())
     }
     fn equal_self(&self, right: &[u8]) -> bool {
-        self.value == right.len() as u32
+        self.value == right.len()
     }
 }
 
-- 
2.43.0


From 97b0ca0a091d71d058edd4714285cd43f025b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 19/79] fix: whole line comparison included the newline, so a
 fixed value never equalled a line

---
 src/comp.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 7e35787..f79f81a 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -385,6 +385,11 @@ impl LineComp {
     }
 }
 
+/// the line without its newline
+fn bare(line: &[u8]) -> &[u8] {
+    line.strip_suffix(b"\n").unwrap_or(line)
+}
+
 /// compare the whole line with the [Compare]
 struct LineCompWhole {
     comp: Comp,
@@ -406,7 +411,7 @@ impl LineCompare for LineCompWhole {
         _left_file: usize,
         _right_file: usize,
     ) -> Ordering {
-        self.comp.comp(left.line(), right.line())
+        self.comp.comp(bare(left.line()), bare(right.line()))
     }
     /// compare lines
     fn equal_cols(
@@ -416,7 +421,7 @@ impl LineCompare for LineCompWhole {
         _left_file: usize,
         _right_file: usize,
     ) -> bool {
-        self.comp.equal(left.line(), right.line())
+        self.comp.equal(bare(left.line()), bare(right.line()))
     }
     /// compare lines
     fn comp_lines(
@@ -427,7 +432,7 @@ impl LineCompare for LineCompWhole {
         _left_file: usize,
         _right_file: usize,
     ) -> Ordering {
-        self.comp.comp(left, right)
+        self.comp.comp(bare(left), bare(right))
     }
     /// compare lines
     fn equal_lines(
@@ -438,7 +443,7 @@ impl LineCompare for LineCompWhole {
         _left_file: usize,
         _right_file: usize,
     ) -> bool {
-        self.comp.equal(left, right)
+        self.comp.equal(bare(left), bare(right))
     }
     /// resolve named columns; illegal to call any of the others with a file that has not been looked up
     fn lookup(&mut self, _fieldnames: &[&str], _file_num: usize) -> Result<()> {
@@ -449,11 +454,11 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_cols(&mut self, item: &mut Item, value: &TextLine) {
-        self.comp.fill_cache(item, value.line());
+        self.comp.fill_cache(item, bare(value.line()));
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, item.get(value));
+        self.comp.fill_cache(item, bare(item.get(value)));
     }
 
     fn set(&mut self, value: &[u8]) {
@@ -461,19 +466,19 @@ impl LineCompare for LineCompWhole {
     }
 
     fn comp_self_cols(&mut self, right: &TextLine) -> Ordering {
-        self.comp.comp_self(right.line())
+        self.comp.comp_self(bare(right.line()))
     }
 
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
-        self.comp.equal_self(right.line())
+        self.comp.equal_self(bare(right.line()))
     }
 
     fn comp_self_line(&mut self, right: &[u8], _delim: u8) -> Ordering {
-        self.comp.comp_self(right)
+        self.comp.comp_self(bare(right))
     }
 
     fn equal_self_line(&mut self, right: &[u8], _delim: u8) -> bool {
-        self.comp.equal_self(right)
+        self.comp.equal_self(bare(right))
     }
 }
 
-- 
2.43.0


From ffcc34738700200c42f70c5e3eac4d38b7c2275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 20/79] fix: verify ignored a failure on the last line

---
 src/bin/cdx/verify_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 878a985..cd552a4 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -110,6 +110,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 did_fail = true;
             }
             if f.getline()? {
+                if did_fail {
+                    fails += 1;
+                }
                 if last.is_some()
                     && !last.as_ref().unwrap().line_ok_verbose(
                         f.prev_line(1),
-- 
2.43.0


From 07f95f617353b5a2135458bc1a95f82d04046a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 21/79] fix: verify aborted on --report and --show-matchers,
 and could not be given --or

---
 src/bin/cdx/verify_main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index cd552a4..5b83696 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -19,7 +19,7 @@ use cdx::util::CheckLine;
 
 pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let prog = args::ProgSpec::new("Verify file contents.", args::FileCount::Many);
-    const A: [ArgSpec; 10] = [
+    const A: [ArgSpec; 11] = [
         arg! {"report", "r", "Number", "How many failures to report before exit."},
         arg! {"first", "f", "Op,Value", "'FirstLine Op Value' must be true. E.g LT,a for first line is less than 'a'."},
         arg! {"last", "l", "Op,Value", "'LastLine Op Value' must be true."},
@@ -27,6 +27,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         arg! {"sort", "s", "", "Check that the file is sorted."},
         arg! {"unique", "u", "", "Check that the file is sorted, with unique lines."},
         arg! {"pattern", "p", "Col,Spec,Pattern", "Select line where this col matches this pattern."},
+        arg! {"or", "o", "", "A line matches if any of the matchers matches."},
         arg! {"show-matchers", "", "", "Print available matchers"},
         arg! {"show-const", "", "", "Print available constants"},
         arg! {"show-func", "", "", "Print available functions"},
@@ -48,7 +49,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             comp.add(&x.value)?;
         } else if x.name == "or" {
             list.multi = Combiner::Or;
-        } else if x.name == "fail" {
+        } else if x.name == "report" {
             max_fails = x.value.to_usize_whole(x.value.as_bytes(), "max fails")?;
         } else if x.name == "sort" {
             do_sort = true;
@@ -59,6 +60,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else if x.name == "unique" {
             do_sort = true;
             do_unique = true;
+        } else if x.name == "show-matchers" {
+            cdx::matcher::MatchMaker::help();
+            return Ok(());
         } else if x.name == "show-const" {
             expr::show_const();
             return Ok(());
-- 
2.43.0


From 1e8f70b8a5b5a4fe446c56d6448b8025fc09180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 22/79] fix: uniq aborted on --agg-help

---
 src/bin/cdx/uniq_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 88822ac..e19112b 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -182,6 +182,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             agg.push_append(&x.value)?;
         } else if x.name == "agg-pre" {
             agg.push_prefix(&x.value)?;
+        } else if x.name == "agg-help" {
+            cdx::agg::AggMaker::help();
+            return Ok(());
         } else {
             unreachable!();
         }
-- 
2.43.0


From b4bd2d80c2db741d310f27d45fbeb463e3364e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 23/79] fix: uniq without --key treated all lines as equal

---
 src/bin/cdx/uniq_main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index e19112b..8c332a7 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -190,6 +190,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
 
+    if comp.is_empty() {
+        comp.add("")?;
+    }
     assert_eq!(files.len(), 1);
 
     let mut f = Reader::new(&settings.text_in);
-- 
2.43.0


From 05fa5424aeb10a28aa489886a346ebb2a2d9c8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 24/79] fix: uniq did not split lines for aggregators and
 --which

---
 src/bin/cdx/uniq_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 8c332a7..55616e9 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -235,7 +235,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         return Ok(());
     }
 
-    f.do_split(comp.need_split());
+    f.do_split(comp.need_split() || count.comp.need_split() || !agg.is_empty());
     let mut matches = 1;
     if !agg.is_empty() {
         agg.add(f.curr_line());
-- 
2.43.0


From ab223521639eb96f16665e014b78309828ce5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 25/79] fix: binsearch aborted on --sub-delim

---
 src/bin/cdx/binsearch_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 7faf54e..d006e4f 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -115,7 +115,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             filename = Some(f);
         } else if x.name == "context" {
             context.set(&x.value)?;
-        } else if x.name == "subdelim" {
+        } else if x.name == "sub-delim" {
             if x.value.len() != 1 {
                 return err!("--sub-delim value must be a single character");
             }
-- 
2.43.0


From 88d5d1f533b327e763115fdd75542335dca0fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 26/79] fix: remove handler for an option that does not exist

---
 src/bin/cdx/globals.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bin/cdx/globals.rs b/src/bin/cdx/globals.rs
index 9dc9c09..4fb30db 100644
--- a/src/bin/cdx/globals.rs
+++ b/src/bin/cdx/globals.rs
@@ -107,8 +107,6 @@ impl Settings {
             } else if x.name == "std-trans" {
                 TransMaker::help();
                 return cdx_err(CdxError::NoError);
-            } else if x.name == "foo" {
-                eprintln!("Something with side effect");
             } else {
                 unreachable!();
             }
-- 
2.43.0


From e5d0cbbedaa12e7a62ae8c5e712722e1af297943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:14 +0000
Subject: [PATCH 27/79] fix: sort --check never resolved the key columns

---
 src/bin/cdx/sort_main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index f0d6b3e..940d58e 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -55,6 +55,10 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let mut reported = 0;
         for x in &files {
             let mut f = Reader::new_open(x, &settings.text_in)?;
+            if f.is_empty() {
+                continue;
+            }
+            comp.lookup(&f.names())?;
             if f.is_done() {
                 continue;
             }
-- 
2.43.0


From 43dc489dadedeb5e4f7d925a76b6947c53156031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:57 +0000
Subject: [PATCH 28/79] fix: sort --merge neither resolved the key columns nor
 checked the headers

---
 src/sort.rs | 89 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 27 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5a3a592..9d7e3ad 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -74,27 +74,33 @@ impl SortConfig {
             let r = get_reader(&in_files[0])?;
             return copy(r.0, w);
         }
-        let mc = Rc::new(RefCell::new(MergeContext {
-            open: Vec::with_capacity(in_files.len()),
-            cmp,
-        }));
-        let mut heap = BinaryHeap::new_by(|a: &usize, b: &usize| mc.borrow_mut().compare(*a, *b));
-        {
-            let mut mcm = mc.borrow_mut();
-            for x in in_files {
-                mcm.open.push(Reader::new_open2(x)?);
-            }
-            if !mcm.cmp.need_split() {
-                for x in &mut mcm.open {
-                    x.do_split(false);
-                }
-            }
-            // FIXME -- Check Header
-            if mcm.open[0].has_header() {
-                w.write_all(mcm.open[0].header().line.as_bytes())?;
+        let mut open = Vec::with_capacity(in_files.len());
+        for x in in_files {
+            open.push(Reader::new_open2(x)?);
+        }
+        // FIXME -- Check Header
+        if open[0].has_header() {
+            w.write_all(open[0].header().line.as_bytes())?;
+        }
+        Self::merge_open2(open, cmp, w, unique)
+    }
+
+    /// merge the records of all the open files into w
+    fn merge_open2(
+        mut open: Vec<Reader>,
+        cmp: &mut LineCompList,
+        mut w: impl Write,
+        unique: bool,
+    ) -> Result<()> {
+        if !cmp.need_split() {
+            for x in &mut open {
+                x.do_split(false);
             }
         }
-        for i in 0..in_files.len() {
+        let num_files = open.len();
+        let mc = Rc::new(RefCell::new(MergeContext { open, cmp }));
+        let mut heap = BinaryHeap::new_by(|a: &usize, b: &usize| mc.borrow_mut().compare(*a, *b));
+        for i in 0..num_files {
             if !mc.borrow().open[i].is_done() {
                 heap.push(i);
             }
@@ -156,15 +162,28 @@ impl SortConfig {
         for x in in_files {
             open_files.push(Reader::new_open2(x)?);
         }
+        // FIXME -- Check Header
+        if open_files[0].has_header() {
+            w.write_all(open_files[0].header().line.as_bytes())?;
+        }
+        Self::merge_open1(open_files, cmp, w, unique)
+    }
+
+    /// merge the records of all the open files into w
+    fn merge_open1(
+        mut open_files: Vec<Reader>,
+        cmp: &mut LineCompList,
+        mut w: impl Write,
+        unique: bool,
+    ) -> Result<()> {
+        if open_files.is_empty() {
+            return Ok(());
+        }
         if !cmp.need_split() {
             for x in &mut open_files {
                 x.do_split(false);
             }
         }
-        // FIXME -- Check Header
-        if open_files[0].has_header() {
-            w.write_all(open_files[0].header().line.as_bytes())?;
-        }
 
         let nums: Vec<usize> = (0..open_files.len()).collect();
         let mut mm = MergeTreeItem::new_tree(&nums);
@@ -205,14 +224,30 @@ impl SortConfig {
         &self,
         files: &[String],
         cmp: &mut LineCompList,
-        w: impl Write,
+        mut w: impl Write,
         unique: bool,
     ) -> Result<()> {
-        let tmp = TempDir::new()?;
+        let mut checker = HeaderChecker::new();
+        let mut open = Vec::with_capacity(files.len());
+        for x in files {
+            let f = Reader::new_open2(x)?;
+            if !f.is_empty() {
+                let head = if f.has_header() {
+                    f.header().line.as_bytes()
+                } else {
+                    b""
+                };
+                if checker.check(head, x)? {
+                    w.write_all(head)?;
+                }
+                cmp.lookup(&f.names())?;
+            }
+            open.push(f);
+        }
         if self.alt_merge {
-            self.merge_t1(files, cmp, w, unique, &tmp)
+            Self::merge_open1(open, cmp, w, unique)
         } else {
-            self.merge_t2(files, cmp, w, unique, &tmp)
+            Self::merge_open2(open, cmp, w, unique)
         }
     }
     /*
-- 
2.43.0


From d9edf32958e8f7c4504b6f769eacdd0cc4783793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:57 +0000
Subject: [PATCH 29/79] fix: sort ignored --alt-sort and --alt-merge

---
 src/sort.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sort.rs b/src/sort.rs
index 9d7e3ad..251d0b3 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -333,6 +333,7 @@ impl SortConfig {
     ) -> Result<()> // maybe return some useful stats?
     {
         let mut s = Sorter::new(cmp, 500_000_000, unique);
+        s.config = *self;
         for fname in files {
             s.add_file(fname, w)?;
         }
-- 
2.43.0


From 73d349daab0535053f4eec28efdfd6991ad4abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 30/79] fix: cat stopped at the first file that only had a
 header

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 0e369b0..1b04c4d 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -160,7 +160,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
-                return Ok(());
+                continue;
             }
             f.do_split(false);
             loop {
-- 
2.43.0


From 7df61980fb6054c66d12acd43a0011588381c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 31/79] fix: cat judged the need for a trailing newline by the
 first line of the file

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 1b04c4d..1c1932a 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -198,7 +198,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     break;
                 }
                 w.write_all(&buffer[..n])?;
-                last_was_cr = first_line.last().unwrap() == &b'\n';
+                last_was_cr = buffer[n - 1] == b'\n';
             }
             if pad == PadMode::All && !last_was_cr {
                 w.write_all(b"\n")?;
-- 
2.43.0


From 408d7ae10fd396e31e27ee4f5a44590e67f5c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 32/79] fix: sample stopped at the first file that only had a
 header

---
 src/bin/cdx/sample_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index ccebd91..23ec2aa 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -141,7 +141,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(f.header().line.as_bytes())?;
         }
         if f.is_done() {
-            return Ok(());
+            continue;
         }
         f.do_split(false);
         if saw_sample {
-- 
2.43.0


From caf5ec7801e726e39d101583fe445d5963ab076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 33/79] fix: wc --columns stopped at the first file that only
 had a header

---
 src/bin/cdx/wc_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index a70ea1e..8f2e371 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -107,7 +107,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 }
             }
             if f.is_done() {
-                break;
+                continue;
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
-- 
2.43.0


From d9bc65d8bf1159923f81c5a7aa2f344226c96072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 34/79] fix: Reader::open numbered records from zero, so sample
 missed the first record of its ranges

---
 src/bin/cdx/verify_main.rs |  2 +-
 src/util.rs                | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 5b83696..e1cc6c6 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -104,7 +104,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.curr().len() != num_cols {
                 eprintln!(
                     "Expected {num_cols} columns, but line {} of {} had {}",
-                    f.line_number() + 1,
+                    f.line_number(),
                     x,
                     f.curr().len()
                 );
diff --git a/src/util.rs b/src/util.rs
index 02e8cb7..ad15812 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1588,7 +1588,17 @@ impl Reader {
     /// open file for reading
     pub fn open(&mut self, name: &str) -> Result<()> {
         self.file = get_reader(name)?;
-        self.cont.read_header(&mut *self.file, &mut self.lines[0])
+        self.curr = 0;
+        self.cont
+            .read_header(&mut *self.file, &mut self.lines[0])?;
+        self.loc.name = name.to_string();
+        self.loc.line = 1;
+        self.loc.bytes = if self.has_header() {
+            self.header().line.len()
+        } else {
+            0
+        };
+        Ok(())
     }
     /// The full text of the header, without the trailing newline
     #[must_use]
-- 
2.43.0


From 5434aed1a7e754b803196bd7bcedef90c3216c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 35/79] fix: join silently ignored all but the first two files

---
 src/join.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/join.rs b/src/join.rs
index c7f9a94..95b6e6d 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -246,6 +246,12 @@ impl Joiner {
             self.yes_match.0.write_all(&[b'\n'])?;
         }
         if config.jtype == JoinType::Quick {
+            if self.r.len() != 2 {
+                return err!(
+                    "Quick join requires exactly two input files, {} found",
+                    self.r.len()
+                );
+            }
             self.join_quick(config)
         } else {
             err!("Only quick supported")
-- 
2.43.0


From 525f6a6b7ebfc94a7ccfaa836654decc2d271752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 36/79] fix: calc reported success after failing to evaluate an
 expression

---
 src/bin/cdx/calc_main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/calc_main.rs b/src/bin/cdx/calc_main.rs
index c0250bf..f0c4ed6 100644
--- a/src/bin/cdx/calc_main.rs
+++ b/src/bin/cdx/calc_main.rs
@@ -18,6 +18,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
     let mut w = get_writer("-")?;
+    let mut failed = false;
     for x in &files {
         let mut f = Reader::new(&settings.text_in);
         f.open(x)?;
@@ -34,12 +35,18 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     w.write_all(b"\n")?;
                     w.flush()?;
                 }
-                Err(e) => eprintln!("{}", e),
+                Err(e) => {
+                    eprintln!("{}", e);
+                    failed = true;
+                }
             }
             if f.getline()? {
                 break;
             }
         }
     }
+    if failed {
+        return cdx_err(CdxError::Silent);
+    }
     Ok(())
 }
-- 
2.43.0


From 5cf82e639e05f84ff1c17ff384b32ded0a365c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 37/79] fix: paste --last aborted on a file without records

---
 src/bin/cdx/paste_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 0ac2311..2735a46 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -130,7 +130,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             need_delim = true;
             if f.is_done() {
-                if use_last {
+                if use_last && !f.prev_line(1).line().is_empty() {
                     w.write_all(f.prev_nl(1))?;
                 } else {
                     let mut nd = false;
-- 
2.43.0


From a7888dac4a40cddac3e08910e3b1868b940d5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 38/79] fix: output still buffered at the end was never checked

---
 src/bin/cdx/binsearch_main.rs | 1 +
 src/bin/cdx/cat_main.rs       | 1 +
 src/bin/cdx/cgrep_main.rs     | 1 +
 src/bin/cdx/cut_main.rs       | 1 +
 src/bin/cdx/filegen_main.rs   | 1 +
 src/bin/cdx/paste_main.rs     | 1 +
 src/bin/cdx/sample_main.rs    | 1 +
 src/bin/cdx/sort_main.rs      | 1 +
 src/bin/cdx/uniq_main.rs      | 2 ++
 src/bin/cdx/wc_main.rs        | 1 +
 src/join.rs                   | 4 ++++
 src/sort.rs                   | 1 +
 src/tabs.rs                   | 1 +
 src/tooltest.rs               | 3 +++
 src/transpose.rs              | 1 +
 15 files changed, 21 insertions(+)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index d006e4f..0368e86 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -180,5 +180,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 1c1932a..18f0d1c 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -209,5 +209,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(b"\n")?;
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 7e3da09..55048dd 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -71,5 +71,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index b94ad97..0d3dd4f 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -64,5 +64,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/filegen_main.rs b/src/bin/cdx/filegen_main.rs
index 4a74263..cc1834a 100644
--- a/src/bin/cdx/filegen_main.rs
+++ b/src/bin/cdx/filegen_main.rs
@@ -53,5 +53,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     for _i in 0..num_lines {
         list.write(&mut w.0, b'\t')?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 2735a46..fa3a908 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -152,5 +152,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index 23ec2aa..0e0eb8c 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -176,5 +176,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index 940d58e..b0bc7e3 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -84,6 +84,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else {
             config.sort(&files, comp, &mut w.0, unique)?;
         }
+        w.flush()?;
     }
     Ok(())
 }
diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 55616e9..2715551 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -232,6 +232,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         w.write_all(ch.get_head(&settings.text_out()).as_bytes())?;
     }
     if f.is_done() {
+        w.flush()?;
         return Ok(());
     }
 
@@ -295,5 +296,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
         }
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 8f2e371..ffe5692 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -243,5 +243,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
diff --git a/src/join.rs b/src/join.rs
index 95b6e6d..22a2bc6 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -325,6 +325,10 @@ impl Joiner {
             }
             self.r[1].getline()?;
         }
+        self.yes_match.flush()?;
+        for x in self.no_match.iter_mut().flatten() {
+            x.flush()?;
+        }
         Ok(())
     }
 }
diff --git a/src/sort.rs b/src/sort.rs
index 251d0b3..3097078 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -490,6 +490,7 @@ impl Sorter {
         for &x in &self.ptrs {
             new_w.write_all(x.get(&self.data))?;
         }
+        new_w.flush()?;
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
         let nsize = self.data.len() - self.data_calc;
diff --git a/src/tabs.rs b/src/tabs.rs
index dd64fc7..fc24973 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -127,6 +127,7 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
         do_center = false;
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
 
diff --git a/src/tooltest.rs b/src/tooltest.rs
index 5a2b52f..61c28b4 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -267,6 +267,7 @@ impl Test {
             fname.push_str(&x.name);
             let mut w = get_writer(&fname)?;
             w.write_all(&x.content)?;
+            w.flush()?;
         }
         let mut tmp_stdin = tmp.clone();
         tmp_stdin.push_str("stdin");
@@ -381,10 +382,12 @@ impl Test {
             fname.push_str("stdout");
             let mut w = get_writer(&fname)?;
             w.write_all(&output.stdout)?;
+            w.flush()?;
             fname.clone_from(&tmp);
             fname.push_str("stderr");
             w = get_writer(&fname)?;
             w.write_all(&output.stderr)?;
+            w.flush()?;
         }
         if failed {
             prerr(&[b"Test ", self.name.as_bytes(), b" failed ", &self.cmd]);
diff --git a/src/transpose.rs b/src/transpose.rs
index a9d4daf..c7a1b7b 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -38,5 +38,6 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
         }
         w.write_all(b"\n")?;
     }
+    w.flush()?;
     Ok(())
 }
-- 
2.43.0


From 264f3545aef0299f02bca5498feb394440ef6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:46 +0000
Subject: [PATCH 39/79] fix: output files kept the tail of their previous
 content

---
 src/util.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index ad15812..0674322 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1207,7 +1207,13 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
         } else if name == "--" {
             Box::new(io::stderr())
         } else {
-            Box::new(fs::OpenOptions::new().write(true).create(true).open(name)?)
+            Box::new(
+                fs::OpenOptions::new()
+                    .write(true)
+                    .create(true)
+                    .truncate(true)
+                    .open(name)?,
+            )
         }
     };
     Ok(Outfile::new(io::BufWriter::new(inner), name))
-- 
2.43.0


From 1e61fc2fa0dc9d4dbb40a76bc22f4f606cebf7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:47 +0000
Subject: [PATCH 40/79] fix: the null modifier negated a pattern instead of
 accepting the empty string

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index b491d6b..238b2ac 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1860,7 +1860,7 @@ impl MatchMaker {
                 } else if x.eq_ignore_ascii_case("trim") {
                     m.trim = true;
                 } else if x.eq_ignore_ascii_case("null") {
-                    m.negate = true;
+                    m.empty = true;
                 } else if x.eq_ignore_ascii_case("case") {
                     m.case = Case::Insens;
                 } else if x.eq_ignore_ascii_case("and") {
-- 
2.43.0


From b82446dbd311abda2342bc57cec6acc69352895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:47 +0000
Subject: [PATCH 41/79] fix: negated patterns were not negated in pattern lists
 and column selections

---
 src/matcher.rs | 49 ++++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 238b2ac..3bbce83 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1030,13 +1030,12 @@ impl WholeMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for WholeMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.line_nl()))
-            } else {
-                self.matcher.umatch(line.line_nl())
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.line_nl()))
+        } else {
+            self.matcher.umatch(line.line_nl())
+        }
     }
 
     fn lookup(&mut self, _fieldnames: &[&str]) -> Result<()> {
@@ -1118,9 +1117,9 @@ impl LineMatch for ColSetMatcher {
         for x in self.col.get_cols() {
             let did_match = if self.matcher.string {
                 self.matcher
-                    .smatch(&String::from_utf8_lossy(line.get(x.num)))
+                    .plain_smatch(&String::from_utf8_lossy(line.get(x.num)))
             } else {
-                self.matcher.umatch(line.get(x.num))
+                self.matcher.plain_umatch(line.get(x.num))
             };
             if did_match {
                 yes += 1;
@@ -1166,13 +1165,12 @@ impl ColMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for ColMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
-            } else {
-                self.matcher.umatch(line.get(self.col.num))
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
+        } else {
+            self.matcher.umatch(line.get(self.col.num))
+        }
     }
 
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
@@ -1546,7 +1544,16 @@ impl Clone for Matcher {
 impl Matcher {
     /// Are these characters ok?
     #[must_use]
-    pub fn smatch(&self, mut buff: &str) -> bool {
+    pub fn smatch(&self, buff: &str) -> bool {
+        self.negate ^ self.plain_smatch(buff)
+    }
+    /// Are these bytes ok?
+    #[must_use]
+    pub fn umatch(&self, buff: &[u8]) -> bool {
+        self.negate ^ self.plain_umatch(buff)
+    }
+    /// smatch, without regard to negation
+    fn plain_smatch(&self, mut buff: &str) -> bool {
         if self.trim {
             buff = buff.trimw();
         }
@@ -1556,9 +1563,8 @@ impl Matcher {
             self.matcher.smatch(buff)
         }
     }
-    /// Are these bytes ok?
-    #[must_use]
-    pub fn umatch(&self, mut buff: &[u8]) -> bool {
+    /// umatch, without regard to negation
+    fn plain_umatch(&self, mut buff: &[u8]) -> bool {
         if self.trim {
             buff = buff.trimw();
         }
@@ -1585,7 +1591,7 @@ impl Matcher {
             if let Ok(x) = std::str::from_utf8(buff) {
                 self.smatch(x)
             } else {
-                false
+                self.negate
             }
         } else {
             self.umatch(buff)
@@ -1881,6 +1887,7 @@ impl MatchMaker {
             for x in pattern.split(delim) {
                 let mut m2 = m.clone();
                 m2.multi_mode = None; // not really necessary
+                m2.negate = false; // the list as a whole is negated
                 Self::remake(&mut m2, x)?;
                 outer.push_obj(m2);
             }
-- 
2.43.0


From 84020120a463cd5b199a0b24ececb8078e39dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:47 +0000
Subject: [PATCH 42/79] fix: verbose pattern matching complained about the
 targets that matched

---
 src/matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 3bbce83..b4d82e5 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -80,7 +80,7 @@ pub trait Match {
     /// smatch, but print to stderr if fail
     fn verbose_smatch(&self, buff: &str, negate: bool) -> bool {
         let res = self.smatch(buff);
-        if res != negate {
+        if res == negate {
             eprintln!(
                 "Failed to {}match {} against {}",
                 not_str(negate),
@@ -93,7 +93,7 @@ pub trait Match {
     /// umatch, but print to stderr if fail
     fn verbose_umatch(&self, buff: &[u8], negate: bool) -> bool {
         let res = self.umatch(buff);
-        if res != negate {
+        if res == negate {
             eprintln!(
                 "Failed to {}match {} against {}",
                 not_str(negate),
@@ -1446,7 +1446,7 @@ impl MatcherList {
     #[must_use]
     pub fn verbose_smatch(&self, buff: &str, negate: bool) -> bool {
         let res = self.smatch(buff);
-        if res != negate {
+        if res == negate {
             eprintln!(
                 "Failed to {}match {} against {}",
                 not_str(negate),
-- 
2.43.0


From f1bb88c47180815d545eecbc9263b020717ef74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:52 +0000
Subject: [PATCH 43/79] fix: copying or clearing a text line left the original
 text of the old line behind

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 0674322..5c622a3 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -797,6 +797,8 @@ impl TextLine {
         self.line.extend_from_slice(&x.line[..]);
         self.parts.clear();
         self.parts.extend_from_slice(&x.parts[..]);
+        self.orig.clear();
+        self.orig.extend_from_slice(&x.orig[..]);
     }
     /// make a new `TextLine`
     #[must_use]
@@ -819,6 +821,7 @@ impl TextLine {
     pub fn clear(&mut self) {
         self.parts.clear();
         self.line.clear();
+        self.orig.clear();
     }
     /// How many column in the line
     #[must_use]
-- 
2.43.0


From 22edbe1e66d51be91b7ec5391574babe913e5a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:16 +0000
Subject: [PATCH 44/79] fix: whole records of quoted or escaped input were
 written decoded and without their line break

---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 5c622a3..3fc10b3 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1591,7 +1591,7 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// open file for reading
@@ -1677,12 +1677,12 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write_curr(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// write previous text line with newline
     pub fn write_prev(&self, w: &mut impl Write, lookback: usize) -> Result<()> {
-        w.write_all(&self.prev_line(lookback).line)?;
+        w.write_all(self.prev_line(lookback).line())?;
         Ok(())
     }
     /// write header
-- 
2.43.0


From 431827ce1df2532c21de2437193ea6b37abfb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:22 +0000
Subject: [PATCH 45/79] fix: whole lines of quoted or escaped input lost their
 last character when used without line break

---
 src/util.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 3fc10b3..3bbc421 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -785,7 +785,8 @@ impl TextLine {
     /// whole line, without newline
     #[must_use]
     pub fn line_nl(&self) -> &[u8] {
-        &self.line[..self.line.len() - 1]
+        let line = self.line();
+        &line[..line.len() - 1]
     }
     /// whole line, with newline, as Vec
     pub fn raw(&mut self) -> &mut Vec<u8> {
@@ -1570,14 +1571,12 @@ impl Reader {
     /// get current line contents, without the trailing newline
     #[must_use]
     pub fn curr_nl(&self) -> &[u8] {
-        let line = self.curr_line();
-        &line.line[0..line.line.len() - 1]
+        self.curr_line().line_nl()
     }
     /// get previous line contents, without the trailing newline
     #[must_use]
     pub fn prev_nl(&self, n: usize) -> &[u8] {
-        let line = self.prev_line(n);
-        &line.line[0..line.line.len() - 1]
+        self.prev_line(n).line_nl()
     }
     /// get delimiter
     #[must_use]
-- 
2.43.0


From dcc8c0b47f8f6d80e5b558cb1ec34ff82b47a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:12 +0000
Subject: [PATCH 46/79] fix: sorting lost or refused the rest of an input when
 the previous one exactly filled the buffer

---
 src/sort.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 3097078..9c8557c 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -429,7 +429,11 @@ impl Sorter {
     /// add some more data to be sorted.
     /// must be integer number of lines.
     pub fn add_data(&mut self, in_data: &[u8]) -> Result<()> {
-        let sz = self.prepare(in_data.len());
+        let mut sz = self.prepare(in_data.len());
+        if sz != in_data.len() && self.data_used > 0 {
+            self.spill()?;
+            sz = self.prepare(in_data.len());
+        }
         if sz != in_data.len() {
             eprintln!("Failed to prepare {}, only got {}", in_data.len(), sz);
             return err!("Badness");
@@ -445,8 +449,14 @@ impl Sorter {
         loop {
             debug_assert!(self.check());
             const SIZE: usize = 16 * 1024;
-            let sz = self.prepare(SIZE);
-            debug_assert!(sz > 0);
+            let mut sz = self.prepare(SIZE);
+            if sz == 0 {
+                self.spill()?;
+                sz = self.prepare(SIZE);
+            }
+            if sz == 0 {
+                return err!("Line too long to sort");
+            }
             let nbytes = r.read(&mut self.data[self.data_used..self.data_used + sz])?;
             if nbytes == 0 {
                 if self.data_used > 0 && self.data[self.data_used - 1] != b'\n' {
@@ -458,12 +468,16 @@ impl Sorter {
             self.data_used += nbytes;
             // calc new stuff
             if self.data_used >= self.data.capacity() {
-                self.calc();
-                self.do_sort();
-                self.write_tmp()?;
+                self.spill()?;
             }
         }
     }
+    /// write all complete lines to a tmp file, to make room for more data
+    fn spill(&mut self) -> Result<()> {
+        self.calc();
+        self.do_sort();
+        self.write_tmp()
+    }
     /// Populate 'ptrs' from 'data'
     fn calc(&mut self) {
         self.ptrs.clear();
@@ -493,7 +507,7 @@ impl Sorter {
         new_w.flush()?;
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
-        let nsize = self.data.len() - self.data_calc;
+        let nsize = self.data_used - self.data_calc;
         for i in 0..nsize {
             self.data[i] = self.data[self.data_calc + i];
         }
-- 
2.43.0


From 605867b42a6f35a60db7d91a2ecfe3882a7d904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:20 +0000
Subject: [PATCH 47/79] fix: expressions kept the columns of the first file
 when resolved again for another file

---
 src/expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 8d19549..e6dd879 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -481,7 +481,10 @@ impl Expr {
         }
         let start_vars = self.vars.len();
         self.parse(&n)?;
-        'outer: for y in self.vars.iter_mut().skip(start_vars) {
+        'outer: for (pos, y) in self.vars.iter_mut().enumerate() {
+            if pos < start_vars && y.col.is_none() {
+                continue; // declared by the caller, not a column
+            }
             for (i, x) in fieldnames.iter().enumerate() {
                 if *x == y.name {
                     y.col = Some(i);
-- 
2.43.0


From f82258d9fc000c5df87e281e80ff2330f3d08229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:47 +0000
Subject: [PATCH 48/79] fix: a record read without splitting kept the text of
 an earlier record in quoted and backslash modes

---
 src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util.rs b/src/util.rs
index 3bbc421..c2fcd3b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1639,6 +1639,7 @@ impl Reader {
     pub fn getline(&mut self) -> Result<bool> {
         self.loc.bytes += self.curr().line.len();
         self.incr();
+        self.lines[self.curr].clear();
         if self
             .cont
             .text
-- 
2.43.0


From fe7e19bfbbaffb10f1f89c8c934f6c60e2bc41d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:05 +0000
Subject: [PATCH 49/79] fix: NaN was ordered differently by value and by cached
 key

---
 src/comp.rs | 12 ++++++------
 src/num.rs  |  8 +-------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index f79f81a..01d2a4b 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1714,7 +1714,7 @@ impl Compare for Comparef64 {
         fcmp(left.to_f64_lossy(), right.to_f64_lossy())
     }
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
-        left.to_f64_lossy() == right.to_f64_lossy()
+        self.comp(left, right) == Ordering::Equal
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = ulp_to_ulong(value.to_f64_lossy());
@@ -1727,7 +1727,7 @@ impl Compare for Comparef64 {
         fcmp(self.value, right.to_f64_lossy())
     }
     fn equal_self(&self, right: &[u8]) -> bool {
-        self.value == right.to_f64_lossy()
+        self.comp_self(right) == Ordering::Equal
     }
 }
 
@@ -1889,7 +1889,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval(left);
         let right_val = self.exprs[right_file].eval(right);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn comp_lines(
         &mut self,
@@ -1913,7 +1913,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval_line(left, delim);
         let right_val = self.exprs[right_file].eval_line(right, delim);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn lookup(&mut self, fieldnames: &[&str], file_num: usize) -> Result<()> {
         while self.exprs.len() < (file_num + 1) {
@@ -1940,7 +1940,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
         let value = self.exprs[0].eval(right);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
     fn comp_self_line(&mut self, right: &[u8], delim: u8) -> Ordering {
         let value = self.exprs[0].eval_line(right, delim);
@@ -1948,7 +1948,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_line(&mut self, right: &[u8], delim: u8) -> bool {
         let value = self.exprs[0].eval_line(right, delim);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
 }
 
diff --git a/src/num.rs b/src/num.rs
index cab7117..baf4af7 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -104,13 +104,7 @@ impl Junk {
 /// ordering for f64
 #[must_use]
 pub fn fcmp(x: f64, y: f64) -> Ordering {
-    if x == y {
-        return Ordering::Equal;
-    }
-    if x > y {
-        return Ordering::Greater;
-    }
-    Ordering::Less
+    ulp_to_ulong(x).cmp(&ulp_to_ulong(y)) // so that even NaN has its place
 }
 
 /// convert an f64 to a similarly ordered u64
-- 
2.43.0


From 9f8fd064b36343df819a49f0b4d7c4927e81416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:34 +0000
Subject: [PATCH 50/79] fix: the generator alias 'minimum' led to a name that
 is not registered

---
 src/textgen.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index c314f7a..35f8c11 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -296,7 +296,6 @@ impl GenMaker {
         if !GEN_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
-        Self::do_add_alias("min", "minimum")?;
         Self::do_push("null", "Produce empty column value", |_p| {
             Ok(Box::new(NullGen {}))
         })?;
-- 
2.43.0


From 7a3cb3ea97d5ce547e91386c4ab4f16e8a2fa45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:41 +0000
Subject: [PATCH 51/79] fix: transform aliases were not resolved in the first
 request of a process

---
 src/trans.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trans.rs b/src/trans.rs
index 92912ba..70089ed 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -390,6 +390,7 @@ impl TransMaker {
     }
     /// Create a Trans from a trans spec and a pattern
     pub fn make2(trans: &str, pattern: &str) -> Result<Transform> {
+        Self::init()?;
         let mut spec = trans.to_string();
         if !pattern.is_empty() {
             spec.push(',');
-- 
2.43.0


From f36748bfbc4209ecaf9a3d5ef16e82ad4b5f04d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:16 +0000
Subject: [PATCH 52/79] fix: counters could not be made before the first
 aggregator of the process

---
 src/agg.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 311b2f7..10eb9bf 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1277,14 +1277,11 @@ static MODIFIERS: Vec<&'static str> = vec![];
 pub struct AggMaker {}
 
 impl AggMaker {
-    fn init() -> Result<()> {
-        if !AGG_MAKER.lock().unwrap().is_empty() {
+    // separate from init(), because make_counter2() may be called while make2() holds AGG_MAKER
+    fn init_counters() -> Result<()> {
+        if !COUNTER_MAKER.lock().unwrap().is_empty() {
             return Ok(());
         }
-        Self::do_add_alias("min", "minimum")?;
-        Self::do_add_alias("max", "maximum")?;
-        Self::do_add_alias("mean", "avg")?;
-        Self::do_add_alias("amean", "aavg")?;
         Self::do_push_counter("chars", "Count the characters", |utf8, _p| {
             Ok(Box::new(Chars::new(utf8)))
         })?;
@@ -1294,6 +1291,17 @@ impl AggMaker {
         Self::do_push_counter("awords", "Count words, meaning alphanumeric", |utf8, _p| {
             Ok(Box::new(Awords::new(utf8)))
         })?;
+        Ok(())
+    }
+    fn init() -> Result<()> {
+        if !AGG_MAKER.lock().unwrap().is_empty() {
+            return Ok(());
+        }
+        Self::do_add_alias("min", "minimum")?;
+        Self::do_add_alias("max", "maximum")?;
+        Self::do_add_alias("mean", "avg")?;
+        Self::do_add_alias("amean", "aavg")?;
+        Self::init_counters()?;
         Self::do_push("asum", "Sum of the given counter", |p| {
             Ok(Rc::new(RefCell::new(ASum::new(p)?)))
         })?;
@@ -1493,9 +1501,7 @@ impl AggMaker {
     }
     /// Create a Agg from a name and a pattern
     pub fn make_counter2(spec: &str, pattern: &str) -> Result<Box<dyn Counter>> {
-        // we can't call init here, because mutex is already held by make2()
-        //        Self::init()?;
-        // we need to split the list of counters into a separate init
+        Self::init_counters()?;
         let mut name = "";
         let mut utf8 = false;
         if !spec.is_empty() {
-- 
2.43.0


From 8f68d033ec052a3173c89dab0dc6423f02bc482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:01 +0000
Subject: [PATCH 53/79] fix: wc separated columns by tabs whatever the output
 delimiter

---
 src/bin/cdx/wc_main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index ffe5692..4d813dd 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -78,6 +78,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
     let nada = TextLine::new();
+    let delim = settings.text_out().delim;
     let mut w = get_writer("-")?;
     let mut first_file = true;
     let mut totals = Vec::new();
@@ -147,11 +148,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &aggs {
                 if show_file_name != Tri::No {
                     w.write_all(x.name.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&[delim])?;
                 }
                 for i in 0..x.agg.len() {
                     if i != 0 {
-                        w.write_all(b"\t")?;
+                        w.write_all(&[delim])?;
                     }
                     x.agg.get(i).agg.borrow_mut().result(&mut w.0, fmt)?;
                 }
@@ -220,7 +221,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if !total_only {
                 if show_file {
                     w.write_all(x.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&[delim])?;
                 }
                 c_write.write(&mut w.0, &nada)?;
             }
@@ -233,11 +234,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
     if do_totals {
         if show_file {
-            w.write_all(b"totals\t")?;
+            w.write_all(b"totals")?;
+            w.write_all(&[delim])?;
         }
         for (i, t) in totals.iter().enumerate() {
             if i != 0 {
-                w.write_all(b"\t")?;
+                w.write_all(&[delim])?;
             }
             fmt.print(*t, &mut w.0)?;
         }
-- 
2.43.0


From b81a2e691bad99f243e7c18e7d892c881f8a39eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:08 +0000
Subject: [PATCH 54/79] fix: wc --columns wrote the name column in the header
 and rows but not in the totals

---
 src/bin/cdx/wc_main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 4d813dd..29f1e11 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -136,7 +136,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         };
         if do_header {
             let mut ch = ColumnHeader::new();
-            if show_file_name != Tri::No {
+            if show_file {
                 ch.push("column")?;
             }
             let mut c_write = Writer::new(settings.text_out());
@@ -146,7 +146,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         if !total_only {
             for x in &aggs {
-                if show_file_name != Tri::No {
+                if show_file {
                     w.write_all(x.name.as_bytes())?;
                     w.write_all(&[delim])?;
                 }
-- 
2.43.0


From 1cb4e1cee2500e62482ac9f2f98eadf25b280d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:16 +0000
Subject: [PATCH 55/79] fix: paste separated columns by tabs whatever the
 output delimiter

---
 src/bin/cdx/paste_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index fa3a908..7300b81 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -88,6 +88,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         curr_cols += f.header().len();
         fds.push(f);
     }
+    let delim = settings.text_out().delim;
     let mut w = get_writer("-")?;
     header.check_rename()?;
     if do_header {
@@ -126,7 +127,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let mut need_delim = false;
         for (i, f) in fds.iter_mut().enumerate() {
             if need_delim {
-                w.write_all(b"\t")?;
+                w.write_all(&[delim])?;
             }
             need_delim = true;
             if f.is_done() {
@@ -136,7 +137,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     let mut nd = false;
                     for j in rngs[i].start..rngs[i].end {
                         if nd {
-                            w.write_all(b"\t")?;
+                            w.write_all(&[delim])?;
                         }
                         nd = true;
                         w.write_all(dflt.get(j).as_bytes())?;
-- 
2.43.0


From 80a866e9262e3942ace8be76bd9c8ffba58494d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:23 +0000
Subject: [PATCH 56/79] fix: cgrep separated location columns by tabs whatever
 the delimiter

---
 src/bin/cdx/cgrep_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 55048dd..772759d 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -61,7 +61,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         loop {
             if list.ok(f.curr_line()) ^ reverse {
                 // write previous lines of context if necessary
-                loc.write_data(&mut w.0, b'\t', f.loc())?;
+                loc.write_data(&mut w.0, f.delim(), f.loc())?;
                 f.write_curr(&mut w.0)?;
             } else {
                 // write more lines of context if necessary
-- 
2.43.0


From 8d7c7c6d463ffcf2ce69babf5c400b86c2e1bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:51 +0000
Subject: [PATCH 57/79] fix: a column set that selects nothing added an empty
 column to every record

---
 src/column.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index e2fb6a1..6fd1eaf 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -247,7 +247,7 @@ impl ColumnHeader {
     }
 
     fn get_size(&self) -> usize {
-        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len() - 1
+        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len()
     }
     /// append column names, joined
     fn add_head(&self, res: &mut String, text: &TextFileMode) {
@@ -544,6 +544,10 @@ pub trait ColumnFun {
     fn write(&mut self, w: &mut dyn Write, line: &TextLine, text: &TextFileMode) -> Result<()>;
     /// resolve any named columns
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()>;
+    /// does this write no columns at all? Only valid after `lookup`
+    fn is_empty(&self) -> bool {
+        false
+    }
 }
 
 /// write a single column
@@ -1361,6 +1365,9 @@ impl ColumnFun for ReaderColumns {
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
         self.columns.lookup(fieldnames)
     }
+    fn is_empty(&self) -> bool {
+        self.columns.get_cols().is_empty()
+    }
 }
 
 /// A collection of `ColumnFun` writers
@@ -1409,7 +1416,7 @@ impl Writer {
     }
     /// Write the column values
     pub fn write(&mut self, w: &mut dyn Write, line: &TextLine) -> Result<()> {
-        let mut iter = self.v.iter_mut();
+        let mut iter = self.v.iter_mut().filter(|x| !x.is_empty());
         match iter.next() {
             None => {}
             Some(first) => {
-- 
2.43.0


From d607cc0462a25da36a989b87311e112404f65b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:59 +0000
Subject: [PATCH 58/79] fix: aggregated values were written without escaping

---
 src/agg.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 10eb9bf..7ab525d 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -423,8 +423,10 @@ impl ColumnFun for LineAgger {
         }
     }
     /// write the column values (called many times)
-    fn write(&mut self, w: &mut dyn Write, _line: &TextLine, _text: &TextFileMode) -> Result<()> {
-        self.agg.borrow_mut().result(w, self.fmt)
+    fn write(&mut self, w: &mut dyn Write, _line: &TextLine, text: &TextFileMode) -> Result<()> {
+        let mut value = Vec::new();
+        self.agg.borrow_mut().result(&mut value, self.fmt)?;
+        text.write(w, &value)
     }
     /// resolve any named columns
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
@@ -452,8 +454,10 @@ impl ColumnFun for Agger {
         w.push(&self.out)
     }
     /// write the column values (called many times)
-    fn write(&mut self, w: &mut dyn Write, _line: &TextLine, _text: &TextFileMode) -> Result<()> {
-        self.agg.borrow_mut().result(w, self.fmt)
+    fn write(&mut self, w: &mut dyn Write, _line: &TextLine, text: &TextFileMode) -> Result<()> {
+        let mut value = Vec::new();
+        self.agg.borrow_mut().result(&mut value, self.fmt)?;
+        text.write(w, &value)
     }
     /// resolve any named columns
     fn lookup(&mut self, _fieldnames: &[&str]) -> Result<()> {
-- 
2.43.0


From ed9e0a2299b4e042d137cec4fa922a93616e28db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:07 +0000
Subject: [PATCH 59/79] fix: transpose of a file without records added an empty
 column

---
 src/transpose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index c7a1b7b..8ec172a 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -11,7 +11,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut data = Vec::new();
     let mut lines = 0;
-    while lines < max_lines {
+    while lines < max_lines && !f.is_done() {
         data.push(f.curr().clone());
         lines += 1;
         if f.getline()? {
-- 
2.43.0


From 609e759b7e3bd578d8cad1b05fc7f751f16a5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:40 +0000
Subject: [PATCH 60/79] fix: a column name was dropped from the header after
 ten thousand duplicates

---
 src/column.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 6fd1eaf..9bf8fa4 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -214,9 +214,10 @@ impl ColumnHeader {
                         let new_name = format!("{name}{x}");
                         if !self.contains(&new_name) {
                             self.cols.push(new_name);
-                            break;
+                            return Ok(());
                         }
                     }
+                    return err!("Too many columns named {}", name);
                 }
             }
         } else {
-- 
2.43.0


From 93dad9b0365038b6760401693d80b104d1e2374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:45 +0000
Subject: [PATCH 61/79] fix: quoted output never closed its quote and quoted
 input split columns inside quotes

---
 src/util.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index c2fcd3b..dce10a0 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -558,6 +558,9 @@ fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
         }
         w.write_all(&[*ch])?;
     }
+    if made_quote {
+        w.write_all(&[b'"'])?;
+    }
     Ok(())
 }
 
@@ -651,26 +654,34 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
     }
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
-    let mut last_was_quote = false;
-    let mut in_quote = false;
+    let mut in_quote = false; // between an opening and a closing quote
+    let mut just_opened = false; // last character was the opening quote
+    let mut last_was_quote = false; // last character was a quote, which closes unless doubled
     for ch in line {
         if in_quote {
-            if last_was_quote {
-                if *ch == b'"' {
+            if *ch == b'"' {
+                if last_was_quote || just_opened {
                     tmp.push(*ch);
                     end += 1;
-                    continue;
+                    in_quote = !just_opened;
+                    last_was_quote = false;
+                    just_opened = false;
                 } else {
-                    in_quote = false;
-                    // not continue
+                    last_was_quote = true;
                 }
-            } else if *ch == b'"' {
-                last_was_quote = true;
                 continue;
             }
+            just_opened = false;
+            if !last_was_quote {
+                tmp.push(*ch);
+                end += 1;
+                continue;
+            }
+            last_was_quote = false;
+            in_quote = false;
         } else if *ch == b'"' {
             in_quote = true;
-            last_was_quote = true;
+            just_opened = true;
             continue;
         }
 
-- 
2.43.0


From a7d2136803f30845c7372f75263bcfdf50f6724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:59 +0000
Subject: [PATCH 62/79] fix: escaped formats dropped an empty last column

---
 src/util.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index dce10a0..2f15123 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -639,9 +639,7 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
         end += 1;
         last_was_slash = false;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// split a line by a delimiter. Remove trailing newline, if any.
@@ -692,9 +690,7 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
         }
         end += 1;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// A line of a text file, broken into columns.
-- 
2.43.0


From 236dc611354336f36ebc15afcfc84d55723185a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:47 +0000
Subject: [PATCH 63/79] fix: acos computes the arc cosine, not the absolute
 value

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index e6dd879..9b41109 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -319,7 +319,7 @@ fn apply_func(op: FuncOp, args: &[f64]) -> f64 {
         Sin, Sinh, Sqrt, Tan, Tanh, Tgamma, Trunc, Yn, J0, J1, Y0, Y1,
     };
     match op {
-        Acos => args[0].abs(),
+        Acos => args[0].acos(),
         Acosh => args[0].acosh(),
         Asinh => args[0].asinh(),
         Asin => args[0].asin(),
-- 
2.43.0


From db8e687074a671e8c271fdd7abcd504737a68df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:47 +0000
Subject: [PATCH 64/79] fix: the factorial of zero is one

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 9b41109..9c632ea 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -652,7 +652,7 @@ fn factorial(x: f64) -> f64 {
 }
 
 const FACTORIAL: [f64; 171] = [
-    0.0,
+    1.0,
     1.0,
     2.0,
     6.0,
-- 
2.43.0


From b9a49974c61f6a65cf8247f1e8a0c75cbc1cb22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:47 +0000
Subject: [PATCH 65/79] fix: plus and minus after a factorial are binary
 operators

---
 src/tok2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tok2.rs b/src/tok2.rs
index 12fa02d..a9ed6d0 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -63,6 +63,7 @@ const fn can_binary(tok: &Token) -> bool {
     use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
     match tok {
         Binary(_) => false,
+        Unary(UnaryOp::Fact) => true, // postfix, an operand is complete
         Unary(_) => false,
         LParen => false,
         RParen => true,
-- 
2.43.0


From 111b1675f5319a6c95e642cd285d2a9203b4c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:47 +0000
Subject: [PATCH 66/79] fix: names in expressions may contain an underscore, as
 those of the constants do

---
 src/tok2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index a9ed6d0..8eb2634 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -153,7 +153,9 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
                 if ch.is_alphabetic() {
                     let mut var = String::new();
                     var.push(ch);
-                    while !input.is_empty() && input.first().is_alphanumeric() {
+                    while !input.is_empty()
+                        && (input.first().is_alphanumeric() || input.first() == '_')
+                    {
                         var.push(input.take_first());
                     }
                     res.push(Token::Var(var));
-- 
2.43.0


From b18f6504bef6003ac20587e4d8e238908b03ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:57 +0000
Subject: [PATCH 67/79] fix: an empty expression is an error, not a panic

---
 src/shunting_yard.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index d4899ee..6a2253b 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -141,6 +141,9 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
     if n_operands > 1 {
         return err!("Too Many Operands");
     }
+    if n_operands < 1 {
+        return err!("Not Enough Operands");
+    }
 
     output.shrink_to_fit();
     Ok(output)
-- 
2.43.0


From 261c9a49e5795e817ac6ec3c4d2f0ffa5c534d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:48 +0000
Subject: [PATCH 68/79] fix: column number zero in an expression is an error,
 not a panic

---
 src/expr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 9c632ea..8c5f4a3 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -495,7 +495,12 @@ impl Expr {
                 static ref CN: Regex = Regex::new("^c([0-9]+)$").unwrap();
             }
             if let Some(cn) = CN.captures(&y.name) {
-                y.col = Some(cn.get(1).unwrap().as_str().to_usize_whole(b"", "").unwrap() - 1);
+                let num = cn.get(1).unwrap().as_str();
+                let num = num.to_usize_whole(y.name.as_bytes(), "column number")?;
+                if num == 0 {
+                    return err!("Column numbers start at 1, not {}", y.name);
+                }
+                y.col = Some(num - 1);
                 continue;
             }
             // FIXME - some way to declare other variables
-- 
2.43.0


From 9839d7ab88d30d0642c4bbd9d995e7bff4f883ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:11 +0000
Subject: [PATCH 69/79] fix: the second character of ==, !=, <= and >= is
 consumed

---
 src/tok2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 8eb2634..fe0aeac 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -120,7 +120,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '!' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::NE));
-                    input.skip_first();
+                    input.take_first();
                 } else {
                     res.push(Token::Unary(UnaryOp::Fact));
                 }
@@ -128,7 +128,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '<' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::LE));
-                    input.skip_first();
+                    input.take_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::LT));
                 }
@@ -136,7 +136,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '>' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::GE));
-                    input.skip_first();
+                    input.take_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::GT));
                 }
@@ -144,7 +144,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '=' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::EQ));
-                    input.skip_first();
+                    input.take_first();
                 } else {
                     return err!("Equal can't be followed by {} in '{}'", next, orig);
                 }
-- 
2.43.0


From 1c6503fb0d5da982fe57c8e699a6dc829fd13fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:34 +0000
Subject: [PATCH 70/79] fix: a sign may start the first argument of a function

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index fe0aeac..056533e 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -70,7 +70,7 @@ const fn can_binary(tok: &Token) -> bool {
         Comma => false,
         Number(_) => true,
         Var(_) => true,
-        Func(_, _) => true,
+        Func(_, _) => false, // stands for the name and its left paren
     }
 }
 pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
-- 
2.43.0


From 0d37a163a0dfe44a63b70f7925be199a2a8d9023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:46 +0000
Subject: [PATCH 71/79] fix: binary search did not end when it met an empty
 line in a range it had to leave downwards

---
 src/binsearch.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index e34e486..1925308 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -97,6 +97,15 @@ pub const fn find_start(data: &[u8], mut start: usize) -> usize {
     start
 }
 
+/// return the beginning of the line of which pos is part
+/// the newline is part of the line it ends
+const fn line_start(data: &[u8], mut pos: usize) -> usize {
+    while (pos > 0) && (data[pos - 1] != b'\n') {
+        pos -= 1;
+    }
+    pos
+}
+
 /// 'start' should be the beginning of a line
 /// return the beginning of the previous line
 #[must_use]
@@ -152,7 +161,7 @@ pub fn lower_bound_n(data: &[u8], comp: &mut LineCompList) -> (usize, usize) {
         // if we hit end of buffer, back up from middle instead
         let stop = if start == end {
             let new_stop = start;
-            start = find_start(data, (end + begin - 1) / 2);
+            start = line_start(data, (end + begin - 1) / 2);
             new_stop
         } else {
             find_end(data, start)
@@ -188,7 +197,7 @@ pub fn upper_bound_n(data: &[u8], comp: &mut LineCompList) -> usize {
         // if we hit end of buffer, back up from middle instead
         let stop = if start == end {
             let new_stop = start;
-            start = find_start(data, (end + begin - 1) / 2);
+            start = line_start(data, (end + begin - 1) / 2);
             new_stop
         } else {
             find_end(data, start)
-- 
2.43.0


From d53ffcd29e9b5e984bed0670bde4e0055e54d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:46 +0000
Subject: [PATCH 72/79] fix: context before the end of a file without final
 newline is not a panic

---
 src/binsearch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index 1925308..ba3ce59 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -114,7 +114,7 @@ pub const fn find_prev(data: &[u8], start: usize) -> usize {
         return 0;
     }
     if data[start - 1] != b'\n' {
-        return find_start(data, start);
+        return find_start(data, start - 1);
     }
     find_start(data, start - 2)
 }
-- 
2.43.0


From 12305e37883bed484f88d30c8e1cf15229961b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:46 +0000
Subject: [PATCH 73/79] fix: binary search treated the header as a record

---
 src/bin/cdx/binsearch_main.rs | 13 +++++++------
 src/binsearch.rs              |  5 +++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 0368e86..3bc8888 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -156,26 +156,27 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
-        let (mut start, mut stop) = equal_range_n(m.get(), &mut comp);
+        let data = m.records();
+        let (mut start, mut stop) = equal_range_n(data, &mut comp);
         let (before, after) = context.get(start == stop);
         for _x in 0..before {
             if start == 0 {
                 break;
             }
-            start = find_prev(m.get(), start);
+            start = find_prev(data, start);
         }
         for _x in 0..after {
-            stop = find_end(m.get(), stop);
+            stop = find_end(data, stop);
         }
         if filename.is_none() {
-            write_all_nl(&mut w.0, &m.get()[start..stop])?;
+            write_all_nl(&mut w.0, &data[start..stop])?;
         } else {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
-                let end = find_end(m.get(), start);
+                let end = find_end(data, start);
                 w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
                 w.write_all(&[b'\t'])?;
-                write_all_nl(&mut w.0, &m.get()[start..end])?;
+                write_all_nl(&mut w.0, &data[start..end])?;
                 start = end;
             }
         }
diff --git a/src/binsearch.rs b/src/binsearch.rs
index ba3ce59..cf47453 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -49,6 +49,11 @@ impl MemMap {
     pub fn get(&self) -> &[u8] {
         &self.map[..]
     }
+    /// get the records, that is everything after the header
+    #[must_use]
+    pub fn records(&self) -> &[u8] {
+        &self.map[self.header_len..]
+    }
     /// get column delimiter
     #[must_use]
     pub const fn get_delim(&self) -> u8 {
-- 
2.43.0


From 551eaad12865a36846f3e6bb851f3791085fe59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:49 +0000
Subject: [PATCH 74/79] fix: glob skipped a position when it retried after a
 star, and panicked at the end of the target

---
 src/text.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index cecf811..a8f67a0 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -247,8 +247,10 @@ pub trait Text {
                 buff = buff.skip_first();
             } else {
                 wild = mp;
-                cp = cp.skip_first();
                 buff = cp;
+                if !cp.is_empty() {
+                    cp = cp.skip_first();
+                }
             }
         }
 
-- 
2.43.0


From 161fcca50afea0e69fcd22139e9bebaffbbe383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:49 +0000
Subject: [PATCH 75/79] fix: case insensitive exact utf8 match refused targets
 with upper case letters

---
 src/matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index b4d82e5..51e146e 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -755,10 +755,10 @@ impl ExactMatchC {
 }
 impl Match for ExactMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.equal_insens_quick(&self.s_data)
+        self.s_data.equal_insens_quick(buff)
     }
     fn umatch(&self, buff: &[u8]) -> bool {
-        buff.equal_insens_quick(&self.u_data)
+        self.u_data.equal_insens_quick(buff)
     }
     fn show(&self) -> String {
         format!("Case insensitive exact match of {}", self.s_data)
-- 
2.43.0


From 2b75eb25deda6c36e616af1858f2f0b85b107f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:49 +0000
Subject: [PATCH 76/79] fix: case insensitive suffix match of an empty pattern
 is not a panic

---
 src/matcher.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 51e146e..60d3930 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -406,14 +406,8 @@ fn bcase_suffix(haystack: &[u8], needle: &[u8]) -> bool {
     if needle.len() > haystack.len() {
         return false;
     }
-    let hay_len = haystack.len() - 1;
-    let nee_len = needle.len() - 1;
-    for x in 0..needle.len() {
-        if haystack[hay_len - x].to_ascii_lowercase() != needle[nee_len - x] {
-            return false;
-        }
-    }
-    true
+    let tail = &haystack[haystack.len() - needle.len()..];
+    bcase_prefix(tail, needle)
 }
 
 // needle is already lowercase
-- 
2.43.0


From cc002cc4f84de83d8043d65d8b6e7383d2aa7523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:49 +0000
Subject: [PATCH 77/79] fix: an empty multi-pattern is an error, not a panic

---
 src/matcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index 60d3930..3a11ea3 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1876,6 +1876,9 @@ impl MatchMaker {
         if let Some(mm) = m.multi_mode {
             let mut outer = Box::new(MatcherList::new_with(mm));
             let mut pattern = pattern;
+            if pattern.is_empty() {
+                return err!("Multi-pattern must start with its delimiter, but was empty");
+            }
             let delim = pattern.first();
             pattern = pattern.skip_first();
             for x in pattern.split(delim) {
-- 
2.43.0


From 0e2d829587a8a37746ef97e91949116b4ef163e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:06 +0000
Subject: [PATCH 78/79] fix: case insensitive equality of strings compared
 lengths in bytes

---
 src/text.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index a8f67a0..8763156 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -382,25 +382,14 @@ impl Text for str {
     }
 
     fn equal_insens(&self, other: &Self) -> bool {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn equal_insens_quick(&self, other: &Self) -> bool {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+        self.chars()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens(&self, other: &Self) -> Ordering {
-- 
2.43.0


From 7b97332d0361b9fd1fd536cf8602a1d9bab10d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:24 +0000
Subject: [PATCH 79/79] fix: case insensitive utf8 patterns that end in a
 capital sigma did not match themselves

---
 src/matcher.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 3a11ea3..5552b64 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -366,7 +366,7 @@ struct PrefixMatchC {
 impl PrefixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -477,7 +477,7 @@ struct SuffixMatchC {
 impl SuffixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
@@ -503,14 +503,14 @@ struct InfixMatchC {
 impl InfixMatchC {
     fn new(data: &str) -> Self {
         Self {
-            s_data: data.to_lowercase(),
+            s_data: data.new_lower(),
             u_data: data.as_bytes().to_ascii_lowercase(),
         }
     }
 }
 impl Match for InfixMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.to_lowercase().contains(&self.s_data) // PERF allocation
+        buff.new_lower().contains(&self.s_data) // PERF allocation
     }
     fn umatch(&self, buff: &[u8]) -> bool {
         find(&buff.to_ascii_lowercase(), &self.u_data).is_some() // PERF allocation
-- 
2.43.0

