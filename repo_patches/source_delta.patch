From b275244452ff1be7bc60e27826d1363389b6998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 01/30] hooks: guarded read accessors for simulation (cfg
 systre_sim)

---
 src/io/parse_cgd_blocks.rs | 20 ++++++++++++++++++++
 src/pgraphs.rs             | 20 ++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index d84cbb2..967eec0 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -71,6 +71,26 @@ impl Block {
 }
 
 
+#[cfg(systre_sim)]
+impl Entry {
+    pub fn sim_entry_type(&self) -> &EntryType { &self.entry_type }
+    pub fn sim_key(&self) -> Option<&str> { self.key.as_deref() }
+    pub fn sim_fields(&self) -> &[Field] { &self.fields }
+    pub fn sim_notes(&self) -> &[Note] { &self.notes }
+    pub fn sim_line_number(&self) -> usize { self.line_number }
+    pub fn sim_content(&self) -> Option<&str> { self.content.as_deref() }
+}
+
+
+#[cfg(systre_sim)]
+impl Block {
+    pub fn sim_block_type(&self) -> &str { &self.block_type }
+    pub fn sim_lineno_start(&self) -> usize { self.lineno_start }
+    pub fn sim_lineno_end(&self) -> usize { self.lineno_end }
+    pub fn sim_entries(&self) -> &[Entry] { &self.entries }
+}
+
+
 pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
     let mut blocks = vec![];
     let mut current_block = Block::new();
diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 851e06e..823d69d 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -631,6 +631,26 @@ impl<T, CS> Automorphism<T, CS>
 }
 
 
+#[cfg(systre_sim)]
+impl<T, CS> Automorphism<T, CS>
+    where
+        T: LabelVector<CS>,
+        CS: Clone + Eq + Hash + Ord
+{
+    pub fn sim_vertex_map(&self) -> &HashMap<Vertex, Vertex> {
+        &self.vertex_map
+    }
+
+    pub fn sim_edge_map(&self) -> &HashMap<Edge<T, CS>, Edge<T, CS>> {
+        &self.edge_map
+    }
+
+    pub fn sim_transform(&self) -> &AffineMap {
+        &self.transform
+    }
+}
+
+
 impl<T, CS> Mul<&Automorphism<T, CS>> for &Automorphism<T, CS>
     where
         T: Clone + Eq + Hash,
-- 
2.43.0


From beb53ada5d8bc234c56337091019fdb1466157dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 02/30] fix: stop reading CGD input at the first read failure

A reader that keeps failing made parse_lines collect error entries forever,
and after a transient failure the rest of the interrupted line was taken for
a line of its own. Report the failure once and end the input there; a line
that is not valid UTF-8 still only spoils itself.
---
 src/io/parse_cgd_blocks.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 967eec0..a1417b8 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -171,15 +171,28 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
     let mut all_entries = vec![];
     let mut lineno = 0;
 
-    for line in BufReader::new(input).lines() {
+    for line in BufReader::new(input).split(b'\n') {
         let mut current_entry = Entry::new(
             EntryType::Data, lineno, None, None, vec![]
         );
 
-        match line {
+        let line = match line {
             Err(e) => {
+                // The input is no longer usable: report this once and stop.
                 current_entry.entry_type = EntryType::Error;
                 current_entry.add_error(&format!("{:?}", e));
+                all_entries.push(current_entry);
+                break;
+            },
+            Ok(bytes) => String::from_utf8(
+                bytes.strip_suffix(b"\r").unwrap_or(&bytes).to_vec()
+            ),
+        };
+
+        match line {
+            Err(e) => {
+                current_entry.entry_type = EntryType::Error;
+                current_entry.add_error(&format!("{}", e));
             },
             Ok(s) => match parse_cgd_line(&s) {
                 Err(e) => {
-- 
2.43.0


From d3ad5995b08c8a7596de5c52e47a2454e3ac9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 03/30] fix: keep CGD entries that follow the last block

Data and errors after the last 'end', or in an input without any block, were
dropped, so that an unreadable input was indistinguishable from an empty one.
Return them in a block of type '--void--'.
---
 src/io/parse_cgd_blocks.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index a1417b8..ef5c601 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -161,6 +161,13 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
         current_block.lineno_end = last_entry.line_number;
         last_entry.add_error("final block is missing an 'end' statement");
         blocks.push(current_block);
+    } else if let (Some(first), Some(last)) = (
+        current_block.entries.first(), current_block.entries.last()
+    ) {
+        current_block.lineno_start = first.line_number;
+        current_block.lineno_end = last.line_number;
+        current_block.block_type = "--void--".to_string();
+        blocks.push(current_block);
     }
 
     blocks
-- 
2.43.0


From 9fa03bc4d4282aaa7107dfc7f6476b7340e6238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 04/30] fix: do not carry the last key of a CGD block past its
 end

---
 src/io/parse_cgd_blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index ef5c601..b019f5d 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -129,6 +129,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.entries.push(entry);
                         blocks.push(current_block);
                         current_block = Block::new();
+                        current_key = None;
                         in_block = false;
                     } else if !in_block {
                         entry.entry_type = EntryType::Begin;
-- 
2.43.0


From a18ae2f732d8d0397796946a552263756d141f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 05/30] fix: do not panic on a CGD fraction with denominator
 zero

---
 src/io/parse_cgd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 5d0db33..c9491b9 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -78,7 +78,7 @@ fn field(input: &str) -> IResult<&str, Field> {
 fn fraction(input: &str) -> IResult<&str, Ratio<i32>> {
     map_opt(
         separated_pair(integer, char('/'), unsigned_integer),
-        |(n, d)| Some(Ratio::new(n, d as i32))
+        |(n, d)| if d == 0 { None } else { Some(Ratio::new(n, d as i32)) }
     )(input)
 }
 
-- 
2.43.0


From 5a098c3f0b693007af159bce01044aaf8b3a4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 06/30] fix: do not split CGD names at characters that truncate
 to a space

'c as u8' drops the high bits, so that for example U+0420 and U+0109 counted
as space and tab.
---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index c9491b9..ca0c35d 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -3,7 +3,7 @@ use std::iter;
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit1, space0, space1};
-use nom::character::{is_space, is_alphabetic};
+use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::double;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
@@ -97,7 +97,7 @@ fn quoted_string(input: &str) -> IResult<&str, &str> {
 
 
 fn name(input: &str) -> IResult<&str, &str> {
-    take_till1(|c| c == '"' || c == '#' || is_space(c as u8))(input)
+    take_till1(|c| c == '"' || c == '#' || c == ' ' || c == '\t')(input)
 }
 
 
-- 
2.43.0


From 64b55e4c117aa83553d34e468e6c9540462e7c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 07/30] fix: do not panic on an operator fraction with
 denominator zero

---
 src/spacegroups/parse_operator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index cde208a..b6d9d09 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -81,7 +81,11 @@ fn unsigned_fraction(input: &str) -> IResult<&str, Fraction> {
             separated_pair(
                 integer, tuple((space0, char('/'), space0)), integer
             ),
-            |(n, d)| Some(Ratio::new(n as i32, d as i32))
+            |(n, d)| if d == 0 {
+                None
+            } else {
+                Some(Ratio::new(n as i32, d as i32))
+            }
         ),
         map_opt(integer, |n| Some(Ratio::from_integer(n as i32))),
     ))(input)
-- 
2.43.0


From e8ef119b1a020a8222800c9643c3c72478e12f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 08/30] fix: reject operators that cannot be read completely

Trailing text was ignored, so that a damaged 'x,y;z' passed for a valid
two-dimensional operator, and one with four coordinates caused a panic.
---
 src/spacegroups/parse_table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index e6ba02f..8b61300 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -184,9 +184,9 @@ impl Centering {
 
 impl<CS: Clone> AffineMap<BigRational, CS> {
     pub fn from_string(s: &str) -> Option<Self> {
-        let (_, (linear, shift)) = parse_operator(s).ok()?;
+        let (rest, (linear, shift)) = parse_operator(s).ok()?;
 
-        if linear.len() != shift.len() {
+        if !rest.is_empty() || linear.iter().any(|r| r.len() != shift.len()) {
             None
         } else {
             let linear: Vec<_> = linear.iter().map(promote_vec).collect();
-- 
2.43.0


From d5ae5634187dd34d83c0bd845d8f332fee1c11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 09/30] fix: reject a singular coordinate change instead of
 panicking

---
 src/spacegroups/parse_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 8b61300..c84e36d 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -207,7 +207,9 @@ fn promote_vec<T: Coord>(v: &Vec<Ratio<i32>>) -> Vec<T> {
 
 impl<CSIn: Clone, CSOut: Clone>  CoordinateMap<BigRational, CSIn, CSOut> {
     pub fn from_string(s: &str) -> Option<Self> {
-        Some(CoordinateMap::new(&AffineMap::from_string(s)?))
+        let forward = AffineMap::from_string(s)?;
+        forward.inverse()?;
+        Some(CoordinateMap::new(&forward))
     }
 }
 
-- 
2.43.0


From 6abaa80b459e4f9615e0116205cfa89a2576aa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 10/30] fix: reject incomplete alias and lookup lines instead
 of panicking

---
 src/spacegroups/parse_table.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index c84e36d..92b1bd7 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -234,7 +234,9 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
             let fields: Vec<_> = content.split_whitespace().collect();
 
             if fields[0].to_lowercase() == "alias" {
-                alias.insert(fields[1].into(), fields[2].into());
+                alias.insert(
+                    fields.get(1)?.to_string(), fields.get(2)?.to_string()
+                );
             } else if fields[0].to_lowercase() == "lookup" {
                 lookup.push(make_lookup_entry(&fields)?);
             } else {
@@ -262,8 +264,8 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
 
 
 fn make_lookup_entry(fields: &Vec<&str>) -> Option<Lookup> {
-    let name = fields[1].to_string();
-    let spec = fields[4..].join(" ");
+    let name = fields.get(1)?.to_string();
+    let spec = fields.get(4..)?.join(" ");
     let from_std = CoordinateMap::from_string(&spec)?;
 
     let system = CrystalSystem::from_string(fields[2])?;
-- 
2.43.0


From 76d22ad2e708201ce7a14d7ae24e0304f75e1853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 11/30] fix: reject operators of the wrong dimension for their
 setting

---
 src/spacegroups/parse_table.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 92b1bd7..fded1b0 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -228,8 +228,12 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
         if content.is_empty() || content.starts_with('#') {
             continue;
         } else if line.starts_with(' ') {
-            let op = AffineMap::from_string(content)?;
-            settings.get_mut(&current_name)?.operators.push(op);
+            let op: AffineMap<_, _> = AffineMap::from_string(content)?;
+            let entry = settings.get_mut(&current_name)?;
+            if op.dim() != entry.transform.dim() {
+                return None;
+            }
+            entry.operators.push(op);
         } else {
             let fields: Vec<_> = content.split_whitespace().collect();
 
-- 
2.43.0


From 1c1783f468800c18b4b7453a0b64edc06d26dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 12/30] fix: print shifts by one in operators

A shift by 1 or -1 was written as '+' or '-' without a number, which cannot
be read back.
---
 src/spacegroups/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index fded1b0..60c19b6 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -91,7 +91,7 @@ fn write_op_row(
             } else if val.is_negative() {
                 write!(f, "-")?;
             }
-            if !val.abs().is_one() {
+            if !val.abs().is_one() || axis.is_empty() {
                 write!(f, "{}", val.abs())?;
             }
             write!(f, "{}", axis)?;
-- 
2.43.0


From 88029969675756c4d4033cf3769d2bbfea094a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 13/30] fix: compute symmetry transformations for column
 vectors

The rows of a basis are edge vectors, but transformations are applied to
column vectors, so that symmetries were missed in skewed coordinates.
---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 9dfd9e1..0491feb 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -147,7 +147,7 @@ pub fn symmetries<T, CS>(graph: &Graph<T, CS>) -> Vec<Automorphism<T, CS>>
 
     for i in 0..edge_lists.len() {
         if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {
-            let m = &bases[i] * &inv_b;
+            let m = (&inv_b * &bases[i]).transpose();
 
             if is_unimodular(&m) {
                 let aff = &AffineMap::new(&m, &Vector::zero(T::dim()));
-- 
2.43.0


From 4bf0ab7d6cc709ec39ea722a4a49e0fc36250d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 14/30] fix: compute minimal images for column vectors

The inverse of a basis given by rows must be transposed before it is applied
to column vectors; without that, minimal_image panicked for centered cells.
---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 0491feb..dfcba8a 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -77,7 +77,7 @@ pub fn minimal_image<TIn, TOut, CSIn, CSOut>(graph: &Graph<TIn, CSIn>)
     } else {
         let b = extended_translation_basis(graph, &orbits[0]);
         let rows = b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>();
-        let m = Matrix::vstack(&rows).inverse().unwrap();
+        let m = Matrix::vstack(&rows).inverse().unwrap().transpose();
         let aff = &AffineMap::new(&m, &Vector::zero(TIn::dim()));
 
         let mut imgs = HashMap::new();
-- 
2.43.0


From 83dc7c871c98ff26a7cc49cb12518911f186c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 15/30] fix: map negative coordinates into [0, 1) in mod_z

The remainder keeps the sign of the dividend, so that operators with shifts
1/2 and -1/2 counted as different, and generate() returned duplicates. The
orientation of primitive cells depended on those duplicates; make it positive
in any case.
---
 src/arithmetic/geometry.rs |  8 +++++---
 src/spacegroups/basics.rs  | 11 ++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/arithmetic/geometry.rs b/src/arithmetic/geometry.rs
index a5fd2fa..1e7a6e9 100644
--- a/src/arithmetic/geometry.rs
+++ b/src/arithmetic/geometry.rs
@@ -116,10 +116,12 @@ impl<T, CS> Neg for Vector<T, CS>
 
 
 impl<T, CS> ModZ for Vector<T, CS>
-    where T: Clone + One + Rem<Output=T>
+    where T: Clone + Zero + One + Rem<Output=T>
 {
     fn mod_z(&self) -> Self {
-        self.iter().cloned().map(|x| x % T::one()).collect()
+        self.iter().cloned()
+            .map(|x| (x % T::one() + T::one()) % T::one())
+            .collect()
     }
 }
 
@@ -637,7 +639,7 @@ impl<T: Clone + Zero, CS: Clone> From<Matrix<T>> for AffineMap<T, CS> {
 }
 
 impl<T, CS> ModZ for AffineMap<T, CS>
-    where T: Clone + One + Rem<Output=T>, CS: Clone
+    where T: Clone + Zero + One + Rem<Output=T>, CS: Clone
 {
     fn mod_z(&self) -> Self {
         AffineMap::new(&self.linear_matrix(), &self.shift().mod_z())
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 5f6999e..de83827 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -3,7 +3,7 @@ use std::ops::{Rem, Mul};
 use std::collections::HashSet;
 
 use num_rational::BigRational;
-use num_traits::{One, Zero};
+use num_traits::{One, Signed, Zero};
 
 use crate::arithmetic::geometry::{AffineMap, Vector, CoordinateMap, ModZ};
 use crate::arithmetic::linear_algebra::{extend_basis, LinearAlgebra};
@@ -69,9 +69,14 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
                 translations.push(op.shift().into_iter().collect());
             }
         }
-        let cell: Vec<_> = rational_lattice_basis(&translations)
+        let mut cell: Vec<_> = rational_lattice_basis(&translations)
             .into_iter().map(|v| Vector::new(&v)).collect();
-        let to_primitive = CoordinateMap::to_basis(&cell);
+        let mut to_primitive = CoordinateMap::to_basis(&cell);
+
+        if to_primitive.determinant().is_negative() {
+            cell[0] = -&cell[0];
+            to_primitive = CoordinateMap::to_basis(&cell);
+        }
 
         let mut seen = HashSet::new();
         let mut ops = vec![];
-- 
2.43.0


From b44e5f32acf778e53277ffe3db47d189cfa8fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 16/30] fix: return the full shift space for groups without
 rotations

With no equations to satisfy every shift is allowed; None means that only the
zero shift is.
---
 src/spacegroups/basics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index de83827..df0e44b 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -157,6 +157,10 @@ pub fn shift_space<CS: Clone>(ops: &Vec<AffineMap<BigRational, CS>>)
         }
     }
 
+    if eqns.is_empty() {
+        return Some(id);
+    }
+
     let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
     Matrix::vstack(&eqns).null_space()
 }
-- 
2.43.0


From 5417de17073934e298bb2dbf6c2d71c00cf9f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 17/30] fix: compute Gram matrix spaces for column vectors

Operators act on column vectors, so that an invariant Gram matrix G satisfies
S^T G S = G; the transposed condition gave the wrong metric for hexagonal
groups.
---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index df0e44b..c37c1c6 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -125,7 +125,7 @@ pub fn gram_matrix_configuration_space<CS: Clone>(
                 let mut eqn = vec![BigRational::zero(); m];
                 for ja in 0..dim {
                     for jb in 0..dim {
-                        eqn[k[(ja, jb)]] += &s[(ia, ja)] * &s[(ib, jb)];
+                        eqn[k[(ja, jb)]] += &s[(ja, ia)] * &s[(jb, ib)];
                     }
                 }
                 eqn[k[(ia, ib)]] -= BigRational::one();
-- 
2.43.0


From ac9c17f769ab8da91875a8bf79fa91073f7dc6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 18/30] fix: keep Partition consistent when cloning an element
 panics

The index entry was made before the second clone, so that after a panic there
the element shared its number with the next one added.
---
 src/partitions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/partitions.rs b/src/partitions.rs
index deaf254..216512e 100644
--- a/src/partitions.rs
+++ b/src/partitions.rs
@@ -25,8 +25,9 @@ impl<T> PartitionImpl<T> where T: Clone + Eq + Hash {
             *x
         } else {
             let i = self.elements.len();
-            self.index.insert(a.clone(), i);
-            self.elements.push(a.clone());
+            let (key, element) = (a.clone(), a.clone());
+            self.index.insert(key, i);
+            self.elements.push(element);
             self.rank.push(0);
             self.parent.push(i);
             i
-- 
2.43.0


From 171cc1d867ab638c82c94482842af82ca4cd4ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 19/30] fix: warn about a single word after a CGD block type or
 'end'

The key is not part of an entry's fields, so any field at all is extra text.
---
 src/io/parse_cgd_blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index b019f5d..f7a2a69 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -123,7 +123,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                             entry.add_error("block has no type or content");
                         }
                         current_block.lineno_end = entry.line_number;
-                        if entry.fields.len() > 1 {
+                        if !entry.fields.is_empty() {
                             entry.add_warning("text after 'end' ignored");
                         }
                         current_block.entries.push(entry);
@@ -137,7 +137,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.block_type = new_key;
                         in_block = true;
                         current_key = None;
-                        if entry.fields.len() > 1 {
+                        if !entry.fields.is_empty() {
                             entry.add_warning("text after block type ignored");
                         }
                         current_block.entries.push(entry);
-- 
2.43.0


From 8223ee7c47a619f8a15ad3e00c2a273988dc65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 20/30] fix: reject operators with an axis beyond their
 dimension

The coefficient of such an axis, as in "x+z,y", was dropped silently.
---
 src/spacegroups/parse_operator.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index b6d9d09..7d3bdeb 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -7,7 +7,7 @@ use nom::combinator::map_opt;
 use nom::multi::{many0, separated_list1};
 use nom::sequence::{separated_pair, tuple, pair, preceded, delimited};
 use num_rational::Ratio;
-use num_traits::CheckedAdd;
+use num_traits::{CheckedAdd, Zero};
 
 
 #[derive(Debug, Eq, Hash, PartialEq)]
@@ -34,7 +34,10 @@ pub fn parse_operator(input: &str) -> Result<(&str, Operator), String>
 
 
 fn operator(input: &str) -> IResult<&str, Vec<Coordinate>> {
-    separated_list1(tuple((space0, char(','), space0)), coordinate)(input)
+    map_opt(
+        separated_list1(tuple((space0, char(','), space0)), coordinate),
+        |coords| if uses_extra_axis(&coords) { None } else { Some(coords) }
+    )(input)
 }
 
 
@@ -125,6 +128,12 @@ fn convert_operator(op: &[Coordinate]) -> Operator {
 }
 
 
+fn uses_extra_axis(coords: &[Coordinate]) -> bool {
+    let n = coords.len();
+    coords.iter().any(|(row, _)| row.iter().skip(n).any(|q| !q.is_zero()))
+}
+
+
 fn collect_terms(first: Term, rest: Vec<Term>) -> Option<Coordinate> {
     let mut shift = Ratio::new(0, 1);
     let mut row = vec![Ratio::new(0, 1); 3];
-- 
2.43.0


From a66f682212c9b7d749dfe31e9af2671dbbbd7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 21/30] fix: solve systems that are singular modulo the first
 prime only

An invertible matrix whose determinant is a multiple of 9999991 was taken
for singular, so that the placement of some connected graphs panicked.
Further primes are now tried until their product exceeds the bound on the
determinant.
---
 src/arithmetic/modular_solver.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 347f16a..3a415a3 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -198,8 +198,32 @@ fn rational_reconstruction(s: &BigInt, h: &BigInt) -> BigRational {
 
 
 pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
-    let prime = 9999991;
+    // A matrix can be singular modulo a prime without being singular, but not
+    // modulo primes whose product exceeds its determinant (Hadamard's bound).
+    let mut log_bound: f64 = (0..a.len()).map(|j| column_norm(a, j).ln()).sum();
 
+    for prime in (2..=9999991).rev().filter(|&n| is_prime(n)) {
+        if let Some(solution) = solve_with_prime(a, b, prime) {
+            return Some(solution);
+        }
+        log_bound -= (prime as f64).ln();
+        if log_bound < -1.0 {
+            break;
+        }
+    }
+
+    None
+}
+
+
+fn is_prime(n: i64) -> bool {
+    n > 1 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
+}
+
+
+fn solve_with_prime(a: &Matrix, b: &Matrix, prime: i64)
+    -> Option<Vec<Vec<BigRational>>>
+{
     if let Some(c) = modular_matrix_inverse(a, prime) {
         let nr_steps = number_of_p_adic_steps_needed(a, b, prime);
         let nrows = b.len();
-- 
2.43.0


From 9bbe03247e08e3a4f1886a5d83c5e9d336f07aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 22/30] fix: keep a carriage return at the end of unterminated
 CGD input

A carriage return ends a line only together with a line feed; as the last
byte of the input it is part of the text of the last line, as it was
before reading stopped at the first failure.
---
 src/io/parse_cgd_blocks.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index f7a2a69..1527c58 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -178,13 +178,15 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
 pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
     let mut all_entries = vec![];
     let mut lineno = 0;
+    let mut reader = BufReader::new(input);
 
-    for line in BufReader::new(input).split(b'\n') {
+    loop {
         let mut current_entry = Entry::new(
             EntryType::Data, lineno, None, None, vec![]
         );
 
-        let line = match line {
+        let mut bytes = vec![];
+        let line = match reader.read_until(b'\n', &mut bytes) {
             Err(e) => {
                 // The input is no longer usable: report this once and stop.
                 current_entry.entry_type = EntryType::Error;
@@ -192,9 +194,17 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
                 all_entries.push(current_entry);
                 break;
             },
-            Ok(bytes) => String::from_utf8(
-                bytes.strip_suffix(b"\r").unwrap_or(&bytes).to_vec()
-            ),
+            Ok(0) => break,
+            Ok(_) => {
+                // A carriage return is part of a line end only before a line feed.
+                if bytes.ends_with(b"\n") {
+                    bytes.pop();
+                    if bytes.ends_with(b"\r") {
+                        bytes.pop();
+                    }
+                }
+                String::from_utf8(bytes)
+            },
         };
 
         match line {
-- 
2.43.0


From 8a4500e09890a0335db30709203755744304af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 23/30] fix: reduce negative multiples of a pivot to zero

For integers, reduced_basis turned an entry above a pivot that was a negative
multiple of it into the pivot itself, so that the result was not reduced and
depended on the order of the rows.
---
 src/arithmetic/linear_algebra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 99c3f1d..58a9c22 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -167,7 +167,7 @@ fn reduce_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &Vec<T>)
     where T: num_traits::PrimInt + SubAssign
 {
     let f = v[col] / b[col] - (
-        if v[col] < T::zero() { T::one() } else { T::zero() }
+        if v[col] % b[col] < T::zero() { T::one() } else { T::zero() }
     );
 
     if f != T::zero() {
-- 
2.43.0


From bf3761d0609b9c00f9cebfa8cc90879b84be107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 24/30] fix: keep the coefficients small in
 rational_lattice_basis

The coefficients of the growing basis were never reduced and exceeded 32 bits
for a few vectors with small denominators, which gave a panic or, without
overflow checks, a wrong lattice.
---
 src/spacegroups/lattices.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/spacegroups/lattices.rs b/src/spacegroups/lattices.rs
index 41975d7..75998e0 100644
--- a/src/spacegroups/lattices.rs
+++ b/src/spacegroups/lattices.rs
@@ -5,7 +5,8 @@ use num_rational::BigRational;
 use num_traits::{One, ToPrimitive, abs};
 use num_integer::Integer;
 
-use crate::arithmetic::linear_algebra::extend_basis;
+use crate::arithmetic::linear_algebra::{extend_basis, LinearAlgebra};
+use crate::arithmetic::matrices::Matrix;
 use super::types::{Coord, CoordPtr};
 
 
@@ -226,7 +227,7 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
         }
     }
 
-    let common_denom = common_denom.to_i32().unwrap();
+    let common_denom = common_denom.to_i64().unwrap();
     let f = BigRational::from(BigInt::from(common_denom));
 
     let mut basis = vec![];
@@ -238,8 +239,11 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
     }
 
     for d in vectors {
-        let d: Vec<_> = d.iter().map(|x| r_to_i32(&(x * &f)).unwrap()).collect();
+        let d: Vec<_> = d.iter().map(|x| r_to_i64(&(x * &f)).unwrap()).collect();
         extend_basis(&d, &mut basis);
+
+        // keeps the coefficients small
+        basis = Matrix::new(dim, &basis.concat()).reduced_basis().get_rows();
     }
 
     basis.iter()
@@ -251,9 +255,9 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
 }
 
 
-fn r_to_i32(x: &BigRational) -> Option<i32> {
+fn r_to_i64(x: &BigRational) -> Option<i64> {
     if x.is_integer() {
-        x.to_integer().to_i32()
+        x.to_integer().to_i64()
     } else {
         None
     }
-- 
2.43.0


From 307913adb9fd1e20c2d6a692a6d4cbb812db2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 25/30] Guarded access to primitive settings and operator
 details

Only under cfg(systre_sim), for the simulation checks.
---
 src/spacegroups/basics.rs | 18 ++++++++++++++++++
 src/spacegroups/finder.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index c37c1c6..eced233 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -94,6 +94,24 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 }
 
 
+#[cfg(systre_sim)]
+impl<CS, CSP> PrimitiveSetting<CS, CSP>
+    where
+        CS: Clone + Eq,
+        CSP: Clone + Eq + Hash
+{
+    pub fn sim_new(ops: &Vec<AffineMap<BigRational, CS>>) -> Self {
+        Self::new(ops)
+    }
+
+    pub fn sim_cell(&self) -> &[Vector<BigRational, CS>] { &self.cell }
+    pub fn sim_to_primitive(&self) -> &CoordinateMap<BigRational, CS, CSP> {
+        &self.to_primitive
+    }
+    pub fn sim_ops(&self) -> &[AffineMap<BigRational, CSP>] { &self.ops }
+}
+
+
 pub fn gram_matrix_configuration_space<CS: Clone>(
     ops: &Vec<AffineMap<BigRational, CS>>
 )
diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index bae7037..4c977e1 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -64,6 +64,32 @@ impl<T> OperatorDetails<T>
 }
 
 
+#[cfg(systre_sim)]
+pub fn sim_operator_details<T>(matrix: Matrix<T>)
+    -> (Matrix<T>, usize, Option<Vec<T>>, usize, bool, bool)
+    where
+        T: Coord, for <'a> &'a T: CoordPtr<T>,
+        Matrix<T>: LinearAlgebra<T>
+{
+    let d = OperatorDetails::from(matrix);
+    (
+        d.matrix, d.dimension, d.axis, d.order,
+        d.is_orientation_preserving, d.is_clockwise
+    )
+}
+
+
+#[cfg(systre_sim)]
+pub fn sim_crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
+    -> (CrystalSystem, Vec<Matrix<T>>)
+    where
+        T: Coord, for <'a> &'a T: CoordPtr<T>,
+        Matrix<T>: LinearAlgebra<T>
+{
+    crystal_system_and_basis_2d(ops)
+}
+
+
 fn positive_direction<T>(v: &[T]) -> Vec<T>
     where T: Coord, for <'a> &'a T: CoordPtr<T>
 {
-- 
2.43.0


From cf5bfcaa820b4cdbcc79f4d08f6eee0f3ca4fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:34 +0000
Subject: [PATCH 26/30] fix: Primitive settings of groups without centring
 translations

PrimitiveSetting::new panicked if no operator was a pure translation,
because rational_lattice_basis takes the dimension from the first vector.
---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index eced233..ffd9cd8 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -63,7 +63,7 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
         let id = Matrix::identity(dim);
         let s0 = Vector::zero(dim);
 
-        let mut translations = vec![];
+        let mut translations = vec![s0.iter().cloned().collect()];
         for op in ops_all {
             if op.linear_matrix() == id && op.shift() != s0 {
                 translations.push(op.shift().into_iter().collect());
-- 
2.43.0


From e57dd5c967fec7d895d2aae1429d4f863dfea094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 27/30] fix: Basis of rectangular groups in which a mirror is
 listed twice

In centred settings the first two mirrors listed may be the same one, and the
basis was then singular.
---
 src/spacegroups/finder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index 4c977e1..f4eb352 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -244,8 +244,10 @@ fn crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
             s.is_orientation_preserving && s.is_clockwise && s.order == m
         ).unwrap();
         &s.matrix * &x
-    } else if mirrors.len() > 1 {
-        Matrix::col(&mirrors[1].axis.clone().unwrap())
+    } else if let Some(other) = mirrors.iter()
+        .find(|m| m.matrix != mirrors[0].matrix)
+    {
+        Matrix::col(&other.axis.clone().unwrap())
     } else {
         let t = if x[(0, 0)] == T::zero() {
             Matrix::col(&[T::one(), T::zero()])
-- 
2.43.0


From 2cee16f65411e05b2352d37b862564c8f3758473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:35 +0000
Subject: [PATCH 28/30] Hooks for the simulation checks can be left out one by
 one

Only under cfg(systre_sim): --cfg systre_sim_without="..." leaves out the
hook of that name.
---
 src/io/parse_cgd_blocks.rs | 4 ++--
 src/pgraphs.rs             | 2 +-
 src/spacegroups/basics.rs  | 2 +-
 src/spacegroups/finder.rs  | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index 1527c58..0d6c19f 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -71,7 +71,7 @@ impl Block {
 }
 
 
-#[cfg(systre_sim)]
+#[cfg(all(systre_sim, not(systre_sim_without = "cgd")))]
 impl Entry {
     pub fn sim_entry_type(&self) -> &EntryType { &self.entry_type }
     pub fn sim_key(&self) -> Option<&str> { self.key.as_deref() }
@@ -82,7 +82,7 @@ impl Entry {
 }
 
 
-#[cfg(systre_sim)]
+#[cfg(all(systre_sim, not(systre_sim_without = "cgd")))]
 impl Block {
     pub fn sim_block_type(&self) -> &str { &self.block_type }
     pub fn sim_lineno_start(&self) -> usize { self.lineno_start }
diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 823d69d..c8ba329 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -631,7 +631,7 @@ impl<T, CS> Automorphism<T, CS>
 }
 
 
-#[cfg(systre_sim)]
+#[cfg(all(systre_sim, not(systre_sim_without = "automorphisms")))]
 impl<T, CS> Automorphism<T, CS>
     where
         T: LabelVector<CS>,
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index ffd9cd8..df20b6b 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -94,7 +94,7 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 }
 
 
-#[cfg(systre_sim)]
+#[cfg(all(systre_sim, not(systre_sim_without = "settings")))]
 impl<CS, CSP> PrimitiveSetting<CS, CSP>
     where
         CS: Clone + Eq,
diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index f4eb352..7ea7aee 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -64,7 +64,7 @@ impl<T> OperatorDetails<T>
 }
 
 
-#[cfg(systre_sim)]
+#[cfg(all(systre_sim, not(systre_sim_without = "operators")))]
 pub fn sim_operator_details<T>(matrix: Matrix<T>)
     -> (Matrix<T>, usize, Option<Vec<T>>, usize, bool, bool)
     where
@@ -79,7 +79,7 @@ pub fn sim_operator_details<T>(matrix: Matrix<T>)
 }
 
 
-#[cfg(systre_sim)]
+#[cfg(all(systre_sim, not(systre_sim_without = "operators")))]
 pub fn sim_crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
     -> (CrystalSystem, Vec<Matrix<T>>)
     where
-- 
2.43.0


From 5e083bfeba3a06693cacde45c29179c50152e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:54 +0000
Subject: [PATCH 29/30] fix: words beginning with "nan" or "inf" in CGD lines
 are words

nom's double() takes the letters of "nan" and "inf" at the start of any word
for a number, so that a name such as NaNO3 was read as not-a-number, followed
by text that could not be read.
---
 src/io/parse_cgd_line.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index ca0c35d..837dbf1 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -2,12 +2,12 @@ use std::iter;
 
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
-use nom::character::complete::{char, digit1, space0, space1};
+use nom::character::complete::{alpha1, char, digit1, space0, space1};
 use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::number::complete::double;
 use nom::sequence::{separated_pair, preceded, delimited, pair};
-use nom::combinator::{map_opt, rest, opt};
+use nom::combinator::{map_opt, not, rest, opt};
 use nom::branch::alt;
 use num_rational::Ratio;
 
@@ -68,7 +68,7 @@ fn key(input: &str) -> IResult<&str, &str> {
 fn field(input: &str) -> IResult<&str, Field> {
     alt((
         map_opt(fraction, |f| Some(Field::Fraction(f))),
-        map_opt(double, double_to_field()),
+        map_opt(preceded(not(alpha1), double), double_to_field()),
         map_opt(quoted_string, |f| Some(Field::Name(f.to_string()))),
         map_opt(name, |f| Some(Field::Name(f.to_string()))),
     ))(input)
-- 
2.43.0


From 9cdad09bdd7a1742091587b515be27d813ba4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:03 +0000
Subject: [PATCH 30/30] fix: component multiplicities of nets with long shifts

The lattice generated by the shifts was computed in 32 bit integers, which a
few shifts of a hundred units exceed in between, even if the result is 1:
this panicked, or gave wrong multiplicities where overflow is not checked.
---
 src/arithmetic/linear_algebra.rs | 54 +++++++++++++++++++++++++++++++-
 src/pgraphs.rs                   | 12 ++++---
 2 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 58a9c22..bf57313 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -1,8 +1,10 @@
 use std::ops::{Add, Sub, Mul, Div, Neg, SubAssign};
 use std::ops::{AddAssign, MulAssign};
 
+use num_bigint::BigInt;
+use num_integer::Integer;
 use num_rational::{BigRational};
-use num_traits::{Zero, One};
+use num_traits::{Zero, One, Signed};
 
 use super::matrices::Matrix;
 
@@ -100,6 +102,56 @@ impl Scalar for f64 {
     }
 }
 
+impl Scalar for BigInt {
+    fn clear_column(col: usize, v: &mut Vec<Self>, b: &mut Vec<Self>) {
+        let e = b[col].extended_gcd(&v[col]);
+        let t = -&v[col] / &e.gcd;
+        let u = &b[col] / &e.gcd;
+
+        for k in col..v.len() {
+            let tmp = &b[k] * &e.x + &v[k] * &e.y;
+            v[k] = &b[k] * &t + &v[k] * &u;
+            b[k] = tmp;
+        }
+    }
+
+    fn normalize_column(col: usize, v: &mut Vec<Self>) {
+        if v[col].is_negative() {
+            for k in col..v.len() {
+                v[k] = -&v[k];
+            }
+        }
+    }
+
+    fn reduce_column(col: usize, v: &mut Vec<Self>, b: &Vec<Self>) {
+        let f = v[col].div_floor(&b[col]);
+
+        for k in col..v.len() {
+            v[k] -= &b[k] * &f;
+        }
+    }
+
+    fn solve_row(a: &Vec<Self>, x: &Vec<Vec<Self>>, b: &Vec<Self>)
+        -> Option<Vec<Self>>
+    {
+        let k = x.len();
+        let mut result = vec![];
+
+        for col in 0..b.len() {
+            let mut t = b[col].clone();
+            for i in 0..k {
+                t -= &a[i] * &x[i][col];
+            }
+            let (q, r) = t.div_rem(&a[k]);
+            if !r.is_zero() {
+                return None;
+            }
+            result.push(q);
+        }
+        Some(result)
+    }
+}
+
 impl Scalar for i32 {
     fn clear_column(col: usize, v: &mut Vec<Self>, b: &mut Vec<Self>) {
         clear_column_primitive_int(col, v, b);
diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index c8ba329..fc016d5 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -8,6 +8,7 @@ use std::ops::{Neg, Add, Sub, Mul};
 use itertools::Itertools;
 use num_bigint::BigInt;
 use num_rational::BigRational;
+use num_traits::{One, Signed, ToPrimitive};
 
 use crate::arithmetic::geometry;
 use crate::arithmetic::linear_algebra::extend_basis;
@@ -736,18 +737,21 @@ pub fn graph_component_measures<T, CS>(g: &Graph<T, CS>, v0: &Vertex)
 
     let mut basis = vec![];
     for e in &edges {
-        extend_basis(&e.shift.to_vec(), &mut basis);
+        let shift: Vec<_> = e.shift.to_vec().iter()
+            .map(|x| BigInt::from(*x))
+            .collect();
+        extend_basis(&shift, &mut basis);
     }
 
     let size = vertices.len();
     let rank = basis.len();
 
     let multiplicity = if rank == T::dim() {
-        let mut d: i32 = 1;
+        let mut d = BigInt::one();
         for i in 0..basis.len() {
-            d *= basis[i][i];
+            d *= &basis[i][i];
         }
-        Some(d.abs())
+        d.abs().to_i32()
     } else {
         None
     };
-- 
2.43.0

