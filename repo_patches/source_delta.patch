From 5b760aa739047aa5683510db978a18c0126d288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 01/32] fix: unique search stops at the first node found twice

A node can be put into the agenda several times before it is explored. The
iterator returned None when it popped such a duplicate, i.e. it ended although
unexplored nodes were left. Skip duplicates instead.
---
 search/src/search.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/search/src/search.rs b/search/src/search.rs
index 726b78f..2c7370e 100644
--- a/search/src/search.rs
+++ b/search/src/search.rs
@@ -139,20 +139,19 @@ pub mod unique {
                 ref mut elements,
             } = self;
 
-            if let Some(item) = search.agenda.pop() {
+            // skip nodes that were put into the agenda more than once before
+            // they were explored
+            while let Some(item) = search.agenda.pop() {
                 if elements.insert(item.clone()) {
                     search.agenda.extend(
                         (search.successors)(&item)
                             .into_iter()
                             .filter(|i| !elements.contains(i)),
                     );
-                    Some(item)
-                } else {
-                    None
+                    return Some(item);
                 }
-            } else {
-                None
             }
+            None
         }
     }
 }
-- 
2.43.0


From 2fb9411a4fb5d065dbfac17e4a12d9afb73deb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 02/32] fix: a unique heap built from a vector may hold
 duplicates

From<Vec<(W, I)>> took all pairs of the vector into the heap, so an element
that occurs twice was held (and popped) twice. Build it the same way as from
an iterator.
---
 unique-heap/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index 427af98..b72d97a 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -134,11 +134,7 @@ where
     B: BuildHasher + Default,
 {
     fn from(vec: Vec<(W, I)>) -> Self {
-        let current_items = vec.iter().map(|(_, i)| i).cloned().collect();
-        UniqueHeap {
-            heap: vec.into(),
-            current_items,
-        }
+        vec.into_iter().map(|(weight, item)| (item, weight)).collect()
     }
 }
 
-- 
2.43.0


From 3394ee0eca023c7c8abe00fd6a4f8342df902cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 03/32] fix: collecting into a unique heap allocates the upper
 size bound

The upper bound of an iterator's size hint may be arbitrarily large, so that
collecting a short iterator could panic or run out of memory. Reserve the
lower bound.
---
 unique-heap/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index b72d97a..caa7527 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -107,10 +107,8 @@ where
         T: IntoIterator<Item = (I, W)>,
     {
         let iter = iter.into_iter();
-        let n = match iter.size_hint() {
-            (_, Some(upper)) => upper,
-            (lower, None) => lower,
-        };
+        // the upper bound may be arbitrarily large
+        let (n, _) = iter.size_hint();
         let mut heap = BinaryHeap::with_capacity(n);
         let mut current_items = HashSet::with_capacity_and_hasher(n, Default::default());
 
-- 
2.43.0


From d23b6436cc4c81d6bc902e65c2cc0fa209952719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 04/32] fix: a line of white space makes a grammar or automaton
 text unreadable

---
 src/approximation/equivalence_classes.rs        | 2 +-
 src/automata/finite_state_automaton/from_str.rs | 2 +-
 src/automata/tree_stack_automaton/from_str.rs   | 2 +-
 src/util/parsing.rs                             | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a3e3eb7..a59c430 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -140,7 +140,7 @@ where
         let mut default = None;
 
         for l in s.lines() {
-            if !l.is_empty() {
+            if !l.trim().is_empty() {
                 match l.trim().parse()? {
                     EquivalenceClass {
                         label,
diff --git a/src/automata/finite_state_automaton/from_str.rs b/src/automata/finite_state_automaton/from_str.rs
index ff542cd..1ea58a8 100644
--- a/src/automata/finite_state_automaton/from_str.rs
+++ b/src/automata/finite_state_automaton/from_str.rs
@@ -41,7 +41,7 @@ where
                     }
                     _ => return Err(format!("Malformed final declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 3150cc4..197d6c3 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -35,7 +35,7 @@ where
                     }
                     _ => return Err(format!("Malformed initial declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index d0bbad6..2645278 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -130,7 +130,7 @@ where
 
     while let Some(l) = it.next() {
         if l.trim_start().starts_with("initial:") {
-            match parse_initials(l.as_bytes()) {
+            match parse_initials(l.trim_start().as_bytes()) {
                 IResult::Done(_, mut result) => initial.append(&mut result),
                 _ => {
                     return Err(format!(
@@ -139,7 +139,7 @@ where
                     ))
                 }
             }
-        } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+        } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
             rules.push(l.trim().parse()?);
         }
     }
-- 
2.43.0


From 95ba081fbada5c433702b35b78e131eb2d72c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 05/32] fix: a printed LCFRS with an unusual initial
 nonterminal cannot be read back

---
 src/grammars/lcfrs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index c0eeadd..37993ff 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -76,7 +76,7 @@ impl<N: Display, T: Display, W: Display> Display for Lcfrs<N, T, W> {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
 
-        buffer.push_str(format!("initial: [{}]\n\n", self.init).as_str());
+        buffer.push_str(format!("initial: [\"{}\"]\n\n", self.init).as_str());
 
         for r in &self.rules {
             buffer.push_str(format!("{}\n", r).as_str());
-- 
2.43.0


From f1792065febdd054870f6554bc4eb06f708bdc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 06/32] fix: malformed weights and variables panic, text after
 a rule is ignored

---
 src/grammars/pmcfg/from_str.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index 274de4e..b235c2f 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -75,11 +75,11 @@ where
                     tag!("#")
                         >> take_while!(is_space)
                         >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
-            >> many0!(tag!("%"))
-            >> take_while!(|_| true)
+            >> alt!(eof!() | preceded!(tag!("%"), take_while!(|_| true)))
             >> (PMCFGRule {
                 head: head,
                 tail: tail,
@@ -103,13 +103,12 @@ where
                 do_parse!(
                     tag!("Var")
                         >> take_while!(is_space)
-                        >> i: digit
+                        >> i_s: map_res!(digit, from_utf8)
+                        >> i: expr_res!(i_s.parse())
                         >> take_while!(is_space)
-                        >> j: digit
-                        >> (VarT::Var(
-                            from_utf8(i).unwrap().parse().unwrap(),
-                            from_utf8(j).unwrap().parse().unwrap(),
-                        ))
+                        >> j_s: map_res!(digit, from_utf8)
+                        >> j: expr_res!(j_s.parse())
+                        >> (VarT::Var(i, j))
                 ) | do_parse!(
                     tag!("T") >> take_while!(is_space) >> token: parse_token >> (VarT::T(token))
                 )
-- 
2.43.0


From 023c9a56d5622d560620077a81dcf1eef96a2d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 07/32] fix: treebank grammars and lexicons are silently cut at
 a malformed line

---
 src/grammars/lcfrs/from_discodop.rs | 31 ++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 96a76ef..47c3ee8 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -37,7 +37,7 @@ fn from_binary(s: &str) -> Option<u64> {
         .enumerate()
         .map(|(i, c)| match c {
             '0' => Some(0),
-            '1' => Some(2u64.pow(i as u32)),
+            '1' => 2u64.checked_pow(i as u32),
             _ => None,
         })
         .fold(Some(0), |os, ov| {
@@ -54,6 +54,24 @@ impl<N> DiscoDeriv<N> {
     }
 }
 
+/// Applies a parser and fails unless it consumes everything but trailing white space.
+fn parse_all<'a, R, P>(s: &'a str, parser: P) -> Result<R, nom::Err<u32>>
+where
+    P: Fn(&'a str) -> IResult<&'a str, R>,
+{
+    match parser(s) {
+        IResult::Done(rest, result) => {
+            if rest.trim().is_empty() {
+                Ok(result)
+            } else {
+                Err(ErrorKind::Eof)
+            }
+        }
+        IResult::Error(e) => Err(e),
+        IResult::Incomplete(_) => Err(ErrorKind::Complete),
+    }
+}
+
 // Parses a yield function given in binary format.
 // Assuming a binary, sorted lcfrs rule, each consecutive 0 is a new variable of the first
 // successor, and each 1 is a new variable for the second successor. We represent this
@@ -65,6 +83,9 @@ named!(parse_yield<&str,DiscoYield>,
             take_while!(is_binary_digit),
             |bs: &str| -> Option<(u8, u64)> {
                 let payload = from_binary(bs)?;
+                if bs.len() > 64 {
+                    return None;
+                }
                 Some((bs.len() as u8, payload))
             }
         )
@@ -169,8 +190,8 @@ where
                     } else {
                         (DiscoDeriv::Chain{lhs, rhs}, s_rhs_or_y, s_y_or_w)
                     };
-                    let ys = parse_yield(y).to_result().map_err(|_| ParseConsituentsError::Yield)?;
-                    let weight = parse_pseudocount(w).to_result().map_err(|_| ParseConsituentsError::Weight)?;
+                    let ys = parse_all(y, parse_yield).map_err(|_| ParseConsituentsError::Yield)?;
+                    let weight = parse_all(w, parse_pseudocount).map_err(|_| ParseConsituentsError::Weight)?;
                     Ok((deriv, ys, weight))
                 }
             )
@@ -332,7 +353,7 @@ where
     type Err = nom::Err<u32>;
     fn from_str(constituent_str: &str) -> Result<Self, Self::Err> {
         Ok(DiscoDopGrammar {
-            constituents: parse_discodop_constituents(constituent_str).to_result()?,
+            constituents: parse_all(constituent_str, parse_discodop_constituents)?,
             lexer: None,
         })
     }
@@ -349,7 +370,7 @@ where
 {
     type Err = nom::Err<u32>;
     fn from_str(lexer_str: &str) -> Result<Self, Self::Err> {
-        parse_discodop_lexer(lexer_str).to_result()
+        parse_all(lexer_str, parse_discodop_lexer)
     }
 }
 
-- 
2.43.0


From 59095f3501f721c255be6646a2da514621fe3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 08/32] fix: malformed transitions panic, text after a
 transition is ignored

---
 src/automata/tree_stack_automaton/from_str.rs |  2 +-
 src/recognisable/from_str.rs                  | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 197d6c3..8009b03 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -53,7 +53,7 @@ impl<A: FromStr> FromStr for TreeStackInstruction<A> {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let v: Vec<&str> = s.split_whitespace().collect();
         let e: String = "Malformed node label.".to_string();
-        match v[0] {
+        match v.first().cloned().unwrap_or("") {
             "Up" if v.len() == 5 => {
                 let n: usize = v[1].parse().map_err(|e: ParseIntError| e.to_string())?;
                 let cur_val: A = v[2].parse().map_err(|_| e.clone())?;
diff --git a/src/recognisable/from_str.rs b/src/recognisable/from_str.rs
index bc21893..a4384c5 100644
--- a/src/recognisable/from_str.rs
+++ b/src/recognisable/from_str.rs
@@ -41,25 +41,27 @@ where
             >> take_while!(is_space)
             >> word: parse_word
             >> take_while!(is_space)
-            >> instruction:
+            >> instruction_s:
                 map_res!(
                     delimited!(tag!("("), take_until!(")"), tag!(")")),
                     from_utf8
                 )
+            >> instruction: expr_res!(instruction_s.parse())
             >> take_while!(is_space)
             >> weight_o:
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
                         >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
-            >> opt!(complete!(parse_comment))
+            >> alt!(map!(eof!(), |_| ()) | parse_comment)
             >> (Transition {
                 word: word,
                 weight: weight_o.unwrap_or(W::one()),
-                instruction: instruction.parse().unwrap(),
+                instruction: instruction,
             })
     )
 }
-- 
2.43.0


From 417f0850e696a68ea8ac6fc3324a2ae504d3cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 09/32] fix: equivalence classes ignore repeated labels, second
 defaults and trailing text

---
 src/approximation/equivalence_classes.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a59c430..98002c0 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -136,7 +136,7 @@ where
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let mut map = HashMap::new();
+        let mut map: HashMap<B, HashSet<A>> = HashMap::new();
         let mut default = None;
 
         for l in s.lines() {
@@ -146,9 +146,16 @@ where
                         label,
                         set: Some(elements),
                     } => {
-                        map.insert(label, elements);
+                        map.entry(label)
+                            .or_insert_with(HashSet::new)
+                            .extend(elements);
                     }
                     EquivalenceClass { label, set: None } => {
+                        if default.as_ref().map_or(false, |other| *other != label) {
+                            return Err(String::from(
+                                "There can only be one default class in the equivalence relation!",
+                            ));
+                        }
                         default = Some(label);
                     }
                 }
@@ -176,7 +183,7 @@ where
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match parse_class(s.as_bytes()) {
-            IResult::Done(_, result) => Ok(result),
+            IResult::Done(rest, result) if rest.iter().all(|c| is_space(*c)) => Ok(result),
             _ => Err(format!("Could not parse {}", s)),
         }
     }
-- 
2.43.0


From 5b9e598712506bf6395e808cca7607f8a7265f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 10/32] fix: undefined successors and far variables panic in
 LCFRS checks and conversion

---
 src/grammars/lcfrs/conversion.rs |  8 +++++++-
 src/grammars/lcfrs/mod.rs        | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/grammars/lcfrs/conversion.rs b/src/grammars/lcfrs/conversion.rs
index ef428e9..4a7dbaf 100644
--- a/src/grammars/lcfrs/conversion.rs
+++ b/src/grammars/lcfrs/conversion.rs
@@ -69,7 +69,13 @@ where
         )
         .uniques()
         {
-            for rule in rulemap.get(a).unwrap_or(&Vec::new()) {
+            // a rule with an undefined successor cannot occur in a derivation
+            for rule in rulemap
+                .get(a)
+                .unwrap_or(&Vec::new())
+                .iter()
+                .filter(|rule| rule.tail.iter().all(|nt| fanouts.contains_key(nt)))
+            {
                 rules.push(to_lcfrs_rule((*rule).clone(), deletions.clone(), &fanouts));
             }
         }
diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 37993ff..fceba2a 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -31,8 +31,11 @@ where
             // scope for lieftime of `fanouts` that borrows from rules
             let fanouts = read_fanouts(&rules)?;
             let check_fanouts = |rule: &PMCFGRule<N, T, W>| -> bool {
-                let fanouts: Vec<usize> = rule.tail.iter().map(|nt| fanouts[nt]).collect();
-                check_composition(&rule.composition.composition, &fanouts)
+                let fanouts: Option<Vec<usize>> =
+                    rule.tail.iter().map(|nt| fanouts.get(nt).cloned()).collect();
+                fanouts.map_or(false, |fanouts| {
+                    check_composition(&rule.composition.composition, &fanouts)
+                })
             };
 
             // check initial fanout
@@ -121,6 +124,9 @@ fn check_composition<T>(composition: &[Vec<VarT<T>>], fanouts: &[usize]) -> bool
             _ => None,
         })
     {
+        if i >= fanouts.len() {
+            return false;
+        }
         VecMultiMapAdapter(&mut variable_occurances)[i].push(j);
     }
 
-- 
2.43.0


From d8836c6c581c383bc38bbb128fb9d0c33adeffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 11/32] fix: only use terminal rules that read the symbol at
 their position in k-best extraction

---
 .../lcfrs/csparsing/automaton/kbest/mod.rs    | 52 +++++++++++++++----
 src/grammars/lcfrs/csparsing/automaton/mod.rs |  2 +-
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index c0d476d..f3e3c17 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -1,6 +1,6 @@
 use super::{
-    Automaton, Bracket, BracketContent, DenseChart, RangeT, RuleIdT, StateT, TdBinary, TdBrackets,
-    TdNullary, TdUnary,
+    Automaton, Bracket, BracketContent, BuRule, DenseChart, RangeT, RuleIdT, StateT, TdBinary,
+    TdBrackets, TdNullary, TdUnary,
 };
 use fnv::FnvHashMap;
 use num_traits::Zero;
@@ -22,6 +22,10 @@ where
     rules_to_brackets: &'a [TdBrackets],
     rulefilter: Vec<bool>,
 
+    // the terminal rules for each position of the sentence; all terminal rules
+    // are considered at every position if there is no sentence
+    terminals: Option<Vec<&'a [(RuleIdT, BuRule<W>)]>>,
+
     // caches already queried hyperpaths and holds the next candidates
     // for each span and state
     d: FnvHashMap<
@@ -52,6 +56,7 @@ impl<'a, W: Ord> ChartIterator<'a, W> {
             nullaries: &automaton.5,
             rules_to_brackets: &automaton.8,
             rulefilter,
+            terminals: None,
             // we need at most `beam` entries for each span
             d: FnvHashMap::with_capacity_and_hasher(
                 n * (n + 1) * min(states, beamwidth) / 2,
@@ -62,6 +67,21 @@ impl<'a, W: Ord> ChartIterator<'a, W> {
             initial: automaton.7,
         }
     }
+
+    /// Restricts the terminal rules at each position to those that produce the
+    /// symbol of the given sentence at this position.
+    pub fn restrict_terminals<T: Eq + Hash>(
+        mut self,
+        word: &[T],
+        automaton: &'a Automaton<T, W>,
+    ) -> Self {
+        self.terminals = Some(
+            word.iter()
+                .map(|t| automaton.2.get(t).map_or(&[][..], |rules| &rules[..]))
+                .collect(),
+        );
+        self
+    }
 }
 
 impl<'a, W> ChartIterator<'a, W>
@@ -93,6 +113,7 @@ where
         binaries: &[Vec<TdBinary<W>>],
         unaries: &[Vec<TdUnary<W>>],
         nullaries: &[Vec<TdNullary<W>>],
+        terminals: Option<&[&[(RuleIdT, BuRule<W>)]]>,
         filter: &[bool],
         i: RangeT,
         j: RangeT,
@@ -124,12 +145,20 @@ where
             }
         }
         if j - i == 1 {
-            for &(r, w) in nullaries[q as usize]
-                .iter()
-                .filter(|&(r, _)| filter[*r as usize])
-            {
-                // is is not correct in general, but ok for terminal-seperated rules
-                heap.push(IndexedBacktrace::Nullary(r, w), w);
+            if let Some(terminals) = terminals {
+                for &(r, (w, _)) in terminals[i as usize]
+                    .iter()
+                    .filter(|&(r, (_, q0))| *q0 == q && filter[*r as usize])
+                {
+                    heap.push(IndexedBacktrace::Nullary(r, w), w);
+                }
+            } else {
+                for &(r, w) in nullaries[q as usize]
+                    .iter()
+                    .filter(|&(r, _)| filter[*r as usize])
+                {
+                    heap.push(IndexedBacktrace::Nullary(r, w), w);
+                }
             }
         }
         heap
@@ -153,13 +182,16 @@ where
                 ref binaries,
                 ref unaries,
                 ref nullaries,
+                ref terminals,
                 ref rulefilter,
                 ..
             } = *self;
             match deriv_cache.entry((i, j, q)) {
                 Entry::Vacant(ve) => {
-                    let mut bts =
-                        Self::backtraces(chart, binaries, unaries, nullaries, &rulefilter, i, j, q);
+                    let terminals = terminals.as_ref().map(|v| &v[..]);
+                    let mut bts = Self::backtraces(
+                        chart, binaries, unaries, nullaries, terminals, &rulefilter, i, j, q,
+                    );
                     if let Some((first, vit)) = bts.pop() {
                         let mut vec = Vec::with_capacity(bts.len() + 1);
                         vec.push((first, vit));
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 13f33b7..cb9cf36 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -256,7 +256,7 @@ impl<T: Eq + Hash, W> Automaton<T, W> {
         W: Ord + Copy + Mul<Output = W> + Zero + One,
     {
         let chart = self.fill_chart(word, beam, delta, estimates, &rulefilter);
-        ChartIterator::new(chart, self, rulefilter)
+        ChartIterator::new(chart, self, rulefilter).restrict_terminals(word, self)
     }
 
     pub fn states(&self) -> usize {
-- 
2.43.0


From 31f0895ed78755e85029487ef1981d935431d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 12/32] fix: a beam of width zero keeps no constituent instead
 of overflowing

---
 src/grammars/lcfrs/csparsing/automaton/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index cb9cf36..79cde02 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -328,6 +328,9 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                 let worst_weight =
                     delta * heap_of_nonterminals.peek().map_or(W::zero(), |&(w, _)| w);
                 while let Some((w, q)) = heap_of_nonterminals.pop() {
+                    if i == 0 {
+                        break;
+                    }
                     if replace(&mut skip[q as usize], true) {
                         continue;
                     }
-- 
2.43.0


From 2309fee33bb7b1a0a808171acb021a163e23232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 13/32] fix: compute weights in one order so that rounding
 cannot repeat a derivation

---
 src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs | 2 +-
 src/grammars/lcfrs/csparsing/automaton/mod.rs       | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index f3e3c17..c96442a 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -101,7 +101,7 @@ where
             Binary(_, q1, m, q2, w, index1, index2) => {
                 let w1 = self.kth(i, m, q1, index1 as usize)?.1;
                 let w2 = self.kth(m, j, q2, index2 as usize)?.1;
-                Some(w * w1 * w2)
+                Some(w * (w1 * w2))
             }
         }
     }
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 79cde02..b429a10 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -316,7 +316,9 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                                     chart.get_weight(mid as u8, r as u8, rnt)
                                 }?;
                                 let _ = outsides.get(lhs, l, r, n)?;
-                                Some((lew * ruw * riw, lhs))
+                                // this product must be computed in the same order in the k-best
+                                // extraction, otherwise rounding breaks its monotonicity
+                                Some((ruw * (lew * riw), lhs))
                             },
                         ));
                     }
-- 
2.43.0


From 2076bbeb95888b3f704836144acf865a5d3cddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 14/32] fix: represent span borders with 16 bits, sentences of
 more than 255 tokens were parsed wrongly

---
 src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs | 4 ++--
 src/grammars/lcfrs/csparsing/automaton/mod.rs       | 8 ++++----
 src/grammars/lcfrs/csparsing/mod.rs                 | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index c96442a..3eb0f84 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -316,8 +316,8 @@ impl<'a, W: Ord + Copy + Mul<Output = W> + Zero> Iterator for ChartIterator<'a,
         let &mut ChartIterator { initial, n, k, .. } = self;
         self.k += 1;
 
-        self.kth(0u8, n as u8, initial, k)
-            .map(|(backtrace, _)| self.read(0u8, n as u8, &backtrace))
+        self.kth(0, n as RangeT, initial, k)
+            .map(|(backtrace, _)| self.read(0, n as RangeT, &backtrace))
     }
 }
 
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index b429a10..70ec94d 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -22,7 +22,7 @@ pub use self::rulemask::RuleMaskBuilder;
 
 pub type RuleIdT = u32;
 pub type StateT = u32;
-pub type RangeT = u8;
+pub type RangeT = u16;
 
 /// stores a lhs state and weight of a rule
 pub type BuRule<W> = (W, StateT);
@@ -302,7 +302,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
 
                 // binary step
                 for mid in l + 1..r {
-                    for &(lnt, lew) in chart.iterate_nont(l as u8, mid as u8) {
+                    for &(lnt, lew) in chart.iterate_nont(l as RangeT, mid as RangeT) {
                         let available_rules = &self.0[lnt as usize];
                         let cache = (NOSTATE, None);
                         heap_of_nonterminals.extend(available_rules.iter().filter_map(
@@ -313,7 +313,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                                 let riw = if cache.0 == rnt {
                                     cache.1
                                 } else {
-                                    chart.get_weight(mid as u8, r as u8, rnt)
+                                    chart.get_weight(mid as RangeT, r as RangeT, rnt)
                                 }?;
                                 let _ = outsides.get(lhs, l, r, n)?;
                                 // this product must be computed in the same order in the k-best
@@ -336,7 +336,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                     if replace(&mut skip[q as usize], true) {
                         continue;
                     }
-                    chart.add_entry(l as u8, r as u8, q, w);
+                    chart.add_entry(l as RangeT, r as RangeT, q, w);
                     heap_of_nonterminals.extend(self.1[q as usize].iter().filter_map(
                         |&(rid, (rw, q))| {
                             if !rule_filter[rid as usize] {
diff --git a/src/grammars/lcfrs/csparsing/mod.rs b/src/grammars/lcfrs/csparsing/mod.rs
index 29a3cd8..d11e9c5 100644
--- a/src/grammars/lcfrs/csparsing/mod.rs
+++ b/src/grammars/lcfrs/csparsing/mod.rs
@@ -15,7 +15,7 @@ use std::{
     ops::Mul,
 };
 
-use self::automaton::{Automaton, RuleMaskBuilder, SxOutside};
+use self::automaton::{Automaton, RangeT, RuleMaskBuilder, SxOutside};
 
 /// The indices of a bracket in a CS representation for an lcfrs.
 /// Assumes integerized an itergerized set of (at most 2^32) rules and fanouts
@@ -220,7 +220,7 @@ where
             Automaton::from_grammar(rules_with_id, initial.clone())
         };
         let rulemaskbuilder = RuleMaskBuilder::new(rules.iter(), &initial);
-        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as u8);
+        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as RangeT);
 
         CSRepresentation {
             generator,
-- 
2.43.0


From be039660b8d26c2e13fc160bfbb555f149250d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 15/32] fix: chain rules of weight one no longer send the
 k-best extraction in circles

---
 .../lcfrs/csparsing/automaton/chart.rs        | 10 ++++++++++
 .../lcfrs/csparsing/automaton/kbest/mod.rs    | 19 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 3adacc0..2094b3b 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -103,4 +103,14 @@ impl<W> DenseChart<W> {
         let last_index = first_index + self.0[tri_index] as usize;
         self.1[first_index..last_index].iter()
     }
+
+    /// Tells if the constituent `q1` was found before `q2` in a span.
+    pub fn found_before(&self, i: RangeT, j: RangeT, q1: StateT, q2: StateT) -> bool {
+        q1 != q2
+            && self
+                .iterate_nont(i, j)
+                .map(|&(q, _)| q)
+                .find(|&q| q == q1 || q == q2)
+                == Some(q1)
+    }
 }
diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index 3eb0f84..6dd6450 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -192,7 +192,24 @@ where
                     let mut bts = Self::backtraces(
                         chart, binaries, unaries, nullaries, terminals, &rulefilter, i, j, q,
                     );
-                    if let Some((first, vit)) = bts.pop() {
+                    // Chain rules of weight one may form a cycle of equally
+                    // good backtraces, so the best derivation must not start
+                    // with a chain rule whose successor was found later.
+                    let mut later = Vec::new();
+                    let best = loop {
+                        match bts.pop() {
+                            Some((IndexedBacktrace::Unary(r, q1, w, k), vit))
+                                if !chart.found_before(i, j, q1, q) =>
+                            {
+                                later.push((IndexedBacktrace::Unary(r, q1, w, k), vit))
+                            }
+                            best => break best,
+                        }
+                    };
+                    for (bt, vit) in later {
+                        bts.push(bt, vit);
+                    }
+                    if let Some((first, vit)) = best {
                         let mut vec = Vec::with_capacity(bts.len() + 1);
                         vec.push((first, vit));
                         ve.insert((vec, bts));
-- 
2.43.0


From 405d117759c4f6fde27e5243fbeffcc98a58f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 16/32] fix: a grammar without rules for its initial
 nonterminal has no parses instead of a panic

---
 src/grammars/lcfrs/csparsing/automaton/mod.rs      | 4 +++-
 src/grammars/lcfrs/csparsing/automaton/rulemask.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 70ec94d..c442b20 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -220,6 +220,8 @@ impl<T: Eq + Hash, W> Automaton<T, W> {
             }
         }
 
+        // there may be no rules at all for the initial nonterminal
+        let initial_state = state_integerizer.integerise(Non(&init, 0)) as StateT;
         let binaries = bu_binaries.into_vec_with_size(state_integerizer.size());
         let mut binaries_mirrorred = VecMultiMap::new();
         for (ql, qr, w, q0) in binaries
@@ -237,7 +239,7 @@ impl<T: Eq + Hash, W> Automaton<T, W> {
             td_unaries.into_vec_with_size(state_integerizer.size()),
             td_initials.into_vec_with_size(state_integerizer.size()),
             binaries_mirrorred.into_vec_with_size(state_integerizer.size()),
-            state_integerizer.integerise(Non(&init, 0)) as StateT,
+            initial_state,
             rule_to_brackets,
         )
     }
diff --git a/src/grammars/lcfrs/csparsing/automaton/rulemask.rs b/src/grammars/lcfrs/csparsing/automaton/rulemask.rs
index d44d703..fd87a45 100644
--- a/src/grammars/lcfrs/csparsing/automaton/rulemask.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/rulemask.rs
@@ -85,7 +85,7 @@ where
             }
         }
 
-        let initial_nt = integeriser.find_key(&initial).unwrap() as StateT;
+        let initial_nt = integeriser.integerise(initial) as StateT;
 
         Self {
             initial_nt,
-- 
2.43.0


From 7121d42b7f870e1401c781d72ec6fe9e0e5d19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 17/32] fix: reading a partition with overlapping cells reports
 an error instead of a panic

---
 src/util/partition.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/util/partition.rs b/src/util/partition.rs
index 17e8a6d..6dce48f 100644
--- a/src/util/partition.rs
+++ b/src/util/partition.rs
@@ -3,7 +3,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use std::ops::Deref;
 use std::rc::Rc;
 
-use serde::de::{Deserialize, Deserializer};
+use serde::de::{Deserialize, Deserializer, Error};
 use serde::ser::{Serialize, Serializer};
 
 /// A partition Π = {π₁, …, πₙ} of an alpbabet Σ, such that
@@ -75,10 +75,8 @@ impl<T: Serialize + Ord + Clone> Serialize for Partition<T> {
 
 impl<'de, T: Deserialize<'de> + Ord + Clone> Deserialize<'de> for Partition<T> {
     fn deserialize<D: Deserializer<'de>>(des: D) -> Result<Self, D::Error> {
-        match Vec::deserialize(des) {
-            Ok(cells) => Ok(Partition::new(cells).unwrap()),
-            Err(e) => Err(e),
-        }
+        let cells = Vec::deserialize(des)?;
+        Partition::new(cells).ok_or_else(|| D::Error::custom("the cells of a partition overlap"))
     }
 }
 
-- 
2.43.0


From fb8d7228fe1cb669f67c7ad2d04813251384c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 18/32] fix: a tree-stack automaton reads only the last
 terminal at the end of a component

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 005b2e9..8033afe 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -77,8 +77,8 @@ impl<
             let mut down_buffer: Vec<T> = Vec::new();
             for component in &r.composition.composition {
                 i = 0;
+                down_buffer.clear();
                 for ntt in component {
-                    down_buffer.clear();
                     match *ntt {
                         VarT::Var(_, _) => {
                             i += 1;
-- 
2.43.0


From 319a6de52b09cc539eafd5d8f4b28bfce9a15070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 19/32] fix: nonterminals without rules panic in the conversion
 to tree-stack automata

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 8033afe..02feda7 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -125,7 +125,10 @@ impl<
         for r in g.rules {
             agenda.push((
                 r.clone(),
-                r.tail.iter().map(|n| rule_map[n].clone()).collect(),
+                r.tail
+                    .iter()
+                    .map(|n| rule_map.get(n).cloned().unwrap_or_default())
+                    .collect(),
             ));
         }
 
-- 
2.43.0


From ca9585b78bb74d40693cfb72375a27a1af51d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 20/32] fix: transitions whose weights were summed up are not
 mapped back from an approximation

---
 src/approximation/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/approximation/mod.rs b/src/approximation/mod.rs
index 7087d92..5fa24a1 100644
--- a/src/approximation/mod.rs
+++ b/src/approximation/mod.rs
@@ -53,8 +53,8 @@ where
     T: Clone + Eq + Ord,
     W: Clone + MulAssign + One + Ord,
 {
-    reverse_transition_map:
-        BTreeMap<Transition<Strategy::I2, T, W>, Vec<Transition<Strategy::I1, T, W>>>,
+    // without weights, as the approximated automaton may sum them up
+    reverse_transition_map: BTreeMap<(Vec<T>, Strategy::I2), Vec<Transition<Strategy::I1, T, W>>>,
     strategy: Strategy,
 }
 
@@ -95,7 +95,7 @@ where
             weight: t1.weight.clone(),
         };
         self.reverse_transition_map
-            .entry(t2.clone())
+            .entry((t2.word.clone(), t2.instruction.clone()))
             .or_insert(Vec::new())
             .push(t1);
         t2
@@ -105,7 +105,10 @@ where
         &self,
         t2: &Transition<Strategy::I2, T, W>,
     ) -> Vec<Transition<Strategy::I1, T, W>> {
-        match self.reverse_transition_map.get(t2) {
+        match self
+            .reverse_transition_map
+            .get(&(t2.word.clone(), t2.instruction.clone()))
+        {
             None => Vec::new(),
             Some(v) => v.clone(),
         }
-- 
2.43.0


From 970966a12dabc1dddbfd1aff3b373951cccb2632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 21/32] fix: coarse-to-fine recognition ends after the first
 coarse run

---
 src/recognisable/coarse_to_fine.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/recognisable/coarse_to_fine.rs b/src/recognisable/coarse_to_fine.rs
index 5f24832..fb8866b 100644
--- a/src/recognisable/coarse_to_fine.rs
+++ b/src/recognisable/coarse_to_fine.rs
@@ -67,12 +67,14 @@ where
     fn next_input(
         &mut self,
     ) -> Option<Item<<Strategy::I2 as Instruction>::Storage, Strategy::I2, T, W>> {
-        if self.input_buffer.is_none() {
-            self.input_buffer = Some(self.sublevel_parses.next());
-        }
-        match self.input_buffer {
-            Some(ref mut x) => x.take(),
-            _ => unreachable!(),
+        match self.input_buffer.take() {
+            None => self.sublevel_parses.next(),
+            Some(None) => {
+                // the end stays the end
+                self.input_buffer = Some(None);
+                None
+            }
+            some_input => some_input.unwrap(),
         }
     }
 }
-- 
2.43.0


From 09da6a0bcf65914cf4afdf5449513aad2f25723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 22/32] fix: commands go on with the part of a file or stream
 that could be read

---
 src/bin/approximation.rs       | 32 ++++++++++++++++++++++++--------
 src/bin/cfg.rs                 | 12 +++++++++---
 src/bin/pmcfg.rs               | 12 +++++++++---
 src/bin/tree_stack_automata.rs |  8 ++++++--
 4 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/bin/approximation.rs b/src/bin/approximation.rs
index f06bc7a..2fa8209 100644
--- a/src/bin/approximation.rs
+++ b/src/bin/approximation.rs
@@ -114,7 +114,9 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let grammar_file_name = parse_matches.value_of("grammar").unwrap();
                 let mut grammar_file = File::open(grammar_file_name).unwrap();
                 let mut grammar_string = String::new();
-                let _ = grammar_file.read_to_string(&mut grammar_string);
+                grammar_file
+                    .read_to_string(&mut grammar_string)
+                    .expect("could not read grammar file");
                 let g: CFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
                 let a = PushDownAutomaton::from(g);
@@ -122,7 +124,9 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let classes_file_name = parse_matches.value_of("classes").unwrap();
                 let mut classes_file = File::open(classes_file_name).unwrap();
                 let mut classes_string = String::new();
-                let _ = classes_file.read_to_string(&mut classes_string);
+                classes_file
+                    .read_to_string(&mut classes_string)
+                    .expect("could not read classes file");
                 let e: EquivalenceRelation<String, String> = classes_string.parse().unwrap();
 
                 let f = |ps: &PushState<_, _>| ps.map(|nt| e.project(nt));
@@ -131,7 +135,9 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let (b, _) = rlb.approximate_automaton(&a);
 
                 let mut corpus = String::new();
-                let _ = io::stdin().read_to_string(&mut corpus);
+                io::stdin()
+                    .read_to_string(&mut corpus)
+                    .expect("could not read standard input");
 
                 for sentence in corpus.lines() {
                     println!(
@@ -146,7 +152,9 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let grammar_file_name = parse_matches.value_of("grammar").unwrap();
                 let mut grammar_file = File::open(grammar_file_name).unwrap();
                 let mut grammar_string = String::new();
-                let _ = grammar_file.read_to_string(&mut grammar_string);
+                grammar_file
+                    .read_to_string(&mut grammar_string)
+                    .expect("could not read grammar file");
                 let g: CFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
                 let a = PushDownAutomaton::from(g);
@@ -154,7 +162,9 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let classes_file_name = parse_matches.value_of("classes").unwrap();
                 let mut classes_file = File::open(classes_file_name).unwrap();
                 let mut classes_string = String::new();
-                let _ = classes_file.read_to_string(&mut classes_string);
+                classes_file
+                    .read_to_string(&mut classes_string)
+                    .expect("could not read classes file");
                 let e: EquivalenceRelation<String, String> = classes_string.parse().unwrap();
 
                 let f = |ps: &PushState<_, _>| ps.map(|nt| e.project(nt));
@@ -171,7 +181,9 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let grammar_file_name = parse_matches.value_of("grammar").unwrap();
                 let mut grammar_file = File::open(grammar_file_name).unwrap();
                 let mut grammar_string = String::new();
-                let _ = grammar_file.read_to_string(&mut grammar_string);
+                grammar_file
+                    .read_to_string(&mut grammar_string)
+                    .expect("could not read grammar file");
                 let g: PMCFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
                 let a = TreeStackAutomaton::from(g);
@@ -181,7 +193,9 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let (b, _) = tts.approximate_automaton(&a);
 
                 let mut corpus = String::new();
-                let _ = io::stdin().read_to_string(&mut corpus);
+                io::stdin()
+                    .read_to_string(&mut corpus)
+                    .expect("could not read standard input");
 
                 for sentence in corpus.lines() {
                     println!(
@@ -196,7 +210,9 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let grammar_file_name = parse_matches.value_of("grammar").unwrap();
                 let mut grammar_file = File::open(grammar_file_name).unwrap();
                 let mut grammar_string = String::new();
-                let _ = grammar_file.read_to_string(&mut grammar_string);
+                grammar_file
+                    .read_to_string(&mut grammar_string)
+                    .expect("could not read grammar file");
                 let g: PMCFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
                 let a = TreeStackAutomaton::from(g);
diff --git a/src/bin/cfg.rs b/src/bin/cfg.rs
index 6502bb1..22528b6 100644
--- a/src/bin/cfg.rs
+++ b/src/bin/cfg.rs
@@ -62,13 +62,17 @@ pub fn handle_sub_matches(cfg_matches: &ArgMatches) {
                 .parse()
                 .unwrap();
             let mut grammar_string = String::new();
-            let _ = grammar_file.read_to_string(&mut grammar_string);
+            grammar_file
+                .read_to_string(&mut grammar_string)
+                .expect("could not read grammar file");
             let grammar: CFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
             let automaton = PushDownAutomaton::from(grammar);
 
             let mut corpus = String::new();
-            let _ = io::stdin().read_to_string(&mut corpus);
+            io::stdin()
+                .read_to_string(&mut corpus)
+                .expect("could not read standard input");
 
             for sentence in corpus.lines() {
                 let word = sentence.split_whitespace().map(|x| x.to_string()).collect();
@@ -94,7 +98,9 @@ pub fn handle_sub_matches(cfg_matches: &ArgMatches) {
             let grammar_file_name = cfg_automaton_matches.value_of("grammar").unwrap();
             let mut grammar_file = File::open(grammar_file_name).unwrap();
             let mut grammar_string = String::new();
-            let _ = grammar_file.read_to_string(&mut grammar_string);
+            grammar_file
+                .read_to_string(&mut grammar_string)
+                .expect("could not read grammar file");
             let grammar: CFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
             let automaton = PushDownAutomaton::from(grammar);
diff --git a/src/bin/pmcfg.rs b/src/bin/pmcfg.rs
index 3d93d21..4c5de73 100644
--- a/src/bin/pmcfg.rs
+++ b/src/bin/pmcfg.rs
@@ -70,13 +70,17 @@ pub fn handle_sub_matches(mcfg_matches: &ArgMatches) {
                 .parse()
                 .unwrap();
             let mut grammar_string = String::new();
-            let _ = grammar_file.read_to_string(&mut grammar_string);
+            grammar_file
+                .read_to_string(&mut grammar_string)
+                .expect("could not read grammar file");
             let grammar: PMCFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
             let automaton = TreeStackAutomaton::from(grammar);
 
             let mut corpus = String::new();
-            let _ = io::stdin().read_to_string(&mut corpus);
+            io::stdin()
+                .read_to_string(&mut corpus)
+                .expect("could not read standard input");
 
             for (i, sentence) in corpus.lines().enumerate() {
                 let word = sentence.split_whitespace().map(|x| x.to_string()).collect();
@@ -112,7 +116,9 @@ pub fn handle_sub_matches(mcfg_matches: &ArgMatches) {
             let grammar_file_name = mcfg_automaton_matches.value_of("grammar").unwrap();
             let mut grammar_file = File::open(grammar_file_name).unwrap();
             let mut grammar_string = String::new();
-            let _ = grammar_file.read_to_string(&mut grammar_string);
+            grammar_file
+                .read_to_string(&mut grammar_string)
+                .expect("could not read grammar file");
             let grammar: PMCFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
             let automaton = TreeStackAutomaton::from(grammar);
             println!("{}", automaton);
diff --git a/src/bin/tree_stack_automata.rs b/src/bin/tree_stack_automata.rs
index b149be6..5680b27 100644
--- a/src/bin/tree_stack_automata.rs
+++ b/src/bin/tree_stack_automata.rs
@@ -60,12 +60,16 @@ pub fn handle_sub_matches(tsa_matches: &ArgMatches) {
             let automaton_file_name = tsa_recognise_matches.value_of("automaton").unwrap();
             let mut automaton_file = File::open(automaton_file_name).unwrap();
             let mut automaton_string = String::new();
-            let _ = automaton_file.read_to_string(&mut automaton_string);
+            automaton_file
+                .read_to_string(&mut automaton_string)
+                .expect("could not read automaton file");
             let automaton: TreeStackAutomaton<String, String, LogDomain<f64>> =
                 automaton_string.parse().unwrap();
 
             let mut corpus_raw = String::new();
-            let _ = io::stdin().read_to_string(&mut corpus_raw);
+            io::stdin()
+                .read_to_string(&mut corpus_raw)
+                .expect("could not read standard input");
             let corpus = corpus_raw
                 .lines()
                 .map(|s| s.split_whitespace().map(|x| x.to_string()).collect())
-- 
2.43.0


From 32d029164e980ff250d3a1fcac30ad834edd9947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 23/32] fix: option coarse-to-fine of tsa recognise is ignored

---
 src/bin/tree_stack_automata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tree_stack_automata.rs b/src/bin/tree_stack_automata.rs
index 5680b27..fbd9cde 100644
--- a/src/bin/tree_stack_automata.rs
+++ b/src/bin/tree_stack_automata.rs
@@ -86,14 +86,14 @@ pub fn handle_sub_matches(tsa_matches: &ArgMatches) {
                 None => None,
             };
 
-            match tsa_recognise_matches.value_of("strategies") {
+            match tsa_recognise_matches.value_of("coarse-to-fine") {
                 Some("tts") => {
                     let rec = coarse_to_fine_recogniser!(automaton; TTSElement::new());
 
                     recognise_corpus(rec, n, beam, corpus)
                 }
+                Some("") | None => recognise_corpus(automaton, n, beam, corpus),
                 Some(e) => panic!("[ERR] Strategy \"{}\" unknown.", e),
-                None => recognise_corpus(automaton, n, beam, corpus),
             }
         }
         _ => (),
-- 
2.43.0


From 8e7ee91346ac44efa5a87eec0e998984d2be5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 24/32] fix: a parser file is not completely written or checked

---
 src/bin/csparsing.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/bin/csparsing.rs b/src/bin/csparsing.rs
index 17d8021..c8bdc95 100644
--- a/src/bin/csparsing.rs
+++ b/src/bin/csparsing.rs
@@ -12,7 +12,7 @@ use rustomata::grammars::{
 };
 use std::{
     fs::File,
-    io::{stdin, stdout, Read},
+    io::{stdin, stdout, Read, Write},
 };
 
 pub fn get_sub_command(name: &str) -> App {
@@ -203,12 +203,19 @@ pub fn handle_sub_matches(submatches: &ArgMatches) {
                     .expect("Could not decode the grammar provided via stdin.")
             };
 
+            let mut encoder = write::GzEncoder::new(Vec::new(), Compression::best());
             bincode::serialize_into(
-                &mut write::GzEncoder::new(stdout(), Compression::best()),
+                &mut encoder,
                 &CSRepresentation::new(gmr, sxlen),
                 bincode::Infinite,
             )
-            .unwrap()
+            .unwrap();
+            let compressed = encoder.finish().unwrap();
+
+            let mut out = stdout();
+            out.write_all(&compressed)
+                .and_then(|_| out.flush())
+                .expect("could not write the representation");
         }
 
         ("parse", Some(params)) => {
@@ -228,10 +235,13 @@ pub fn handle_sub_matches(submatches: &ArgMatches) {
                 params.value_of("candidates").map(|s| s.parse().unwrap());
 
             let csfile = File::open(params.value_of("csfile").unwrap()).unwrap();
+            let mut csbytes = Vec::new();
+            read::GzDecoder::new(csfile)
+                .read_to_end(&mut csbytes)
+                .expect("could not read the csfile");
 
             let csrep: CSRepresentation<String, String, LogDomain<f64>> =
-                bincode::deserialize_from(&mut read::GzDecoder::new(csfile), bincode::Infinite)
-                    .unwrap();
+                bincode::deserialize(&csbytes).expect("could not decode the csfile");
             let mut parser = csrep.build_generator();
             if let Some(beam) = beam_width {
                 parser.set_beam(beam)
-- 
2.43.0


From 7028095095c0410bf1e2b4c89a7a26b346b057e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 25/32] fix: printed tree-stack automata name their initial
 symbol by an internal number

---
 src/automata/tree_stack_automaton/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index d9ad20a..4a4ca08 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -246,7 +246,7 @@ where
         write!(
             f,
             "initial: {}\n\n{}",
-            self.initial.current_symbol(),
+            self.initial().current_symbol(),
             formatted_transitions
         )
     }
-- 
2.43.0


From 0fc9555b18b0bbe0dd956b1396fcd9f2133d6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 26/32] fix: printed finite-state automata omit final states
 and name states by internal numbers

---
 src/automata/finite_state_automaton/mod.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/automata/finite_state_automaton/mod.rs b/src/automata/finite_state_automaton/mod.rs
index ffa771a..9b3374d 100644
--- a/src/automata/finite_state_automaton/mod.rs
+++ b/src/automata/finite_state_automaton/mod.rs
@@ -218,22 +218,23 @@ impl<Q, T, W> Display for FiniteStateAutomaton<Q, T, W>
 where
     Q: Clone + Display + Hash + Ord,
     T: Clone + Debug + Display + Eq + Hash + Ord,
-    W: Clone + Display + Ord,
+    W: Clone + Display + MulAssign + One + Ord,
 {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
-        buffer.push_str(&format!("initial: {}\n", self.initial_state));
+        buffer.push_str(&format!("initial: {}\n", self.initial()));
 
         buffer.push_str("final: [");
         let mut first = true;
-        for i in 0..self.final_states.len() {
-            if self.final_states.contains(i) {
-                if first {
-                    buffer.push_str(", ");
-                    first = false;
-                }
-                buffer.push_str(&format!("\"{}\"", i));
+        for i in self.final_states.iter() {
+            if !first {
+                buffer.push_str(", ");
             }
+            first = false;
+            buffer.push_str(&format!(
+                "\"{}\"",
+                self.q_integeriser.find_value(i).unwrap()
+            ));
         }
         buffer.push_str("]\n\n");
         for t in self.list_transitions() {
-- 
2.43.0


From c5e69eb9fd8e2fbc4a37e9127bf5e39823f5de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 27/32] fix: a zero denominator or pseudocount in a treebank
 file panics for weights in log domain

The weights of the program (LogDomain) panic when they are divided by zero:
one damaged digit ('1/2' to '1/0', or the only count of a nonterminal to '0')
aborted the extraction. A zero denominator is malformed; if all pseudocounts
of a nonterminal are zero, they stay zero.
---
 src/grammars/lcfrs/from_discodop.rs | 31 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 47c3ee8..7dffa5f 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -1,7 +1,7 @@
 use super::*;
 use fnv::FnvHashMap;
 use nom::*;
-use num_traits::One;
+use num_traits::{One, Zero};
 use std::collections::hash_map::Entry;
 use std::fmt::Debug;
 use std::ops::{AddAssign, Div, DivAssign};
@@ -99,16 +99,19 @@ fn parse_pseudocount<W>(s: &str) -> IResult<&str, W>
 where
     W: Div<Output = W> + FromStr,
 {
-    map_res!(
+    map_opt!(
         s,
         tuple!(digit, opt!(complete!(preceded!(tag!("/"), digit)))),
-        |(num, denom): (&str, Option<&str>)| -> Result<W, W::Err> {
+        |(num, denom): (&str, Option<&str>)| -> Option<W> {
             if let Some(denominator) = denom {
-                let numerator: W = num.parse()?;
-                let denominator: W = denominator.parse()?;
-                Ok(numerator / denominator)
+                if denominator.bytes().all(|digit| digit == b'0') {
+                    return None;
+                }
+                let numerator: W = num.parse().ok()?;
+                let denominator: W = denominator.parse().ok()?;
+                Some(numerator / denominator)
             } else {
-                num.parse()
+                num.parse().ok()
             }
         }
     )
@@ -200,9 +203,17 @@ where
     )
 }
 
+/// Divides a pseudocount by the sum of all pseudocounts for the same left-hand side nonterminal.
+/// If all of them are zero, there is nothing to divide.
+fn normalize<W: DivAssign + Zero>(weight: &mut W, denominator: W) {
+    if !denominator.is_zero() {
+        *weight /= denominator;
+    }
+}
+
 impl<N, T, W> From<DiscoDopGrammar<N, T, W>> for Lcfrs<N, T, W>
 where
-    W: DivAssign + Copy + AddAssign,
+    W: DivAssign + Copy + AddAssign + Zero,
     N: FromStr + Hash + Eq + Clone,
     <N as FromStr>::Err: Debug,
 {
@@ -238,7 +249,7 @@ where
             let mut composition: Vec<Vec<VarT<T>>> = Vec::with_capacity(y.len());
             let mut sind1: usize = 0;
             let mut sind2: usize = 0;
-            weight /= normalization_denominators[nts.get_lhs()];
+            normalize(&mut weight, normalization_denominators[nts.get_lhs()]);
 
             // read yield function
             for (clen, c) in y {
@@ -277,7 +288,7 @@ where
         }
 
         for (word, pos, mut weight) in gmr.lexer.into_iter().flat_map(|dl| dl.0) {
-            weight /= normalization_denominators[&pos];
+            normalize(&mut weight, normalization_denominators[&pos]);
             rules.push(PMCFGRule {
                 head: pos,
                 tail: vec![],
-- 
2.43.0


From c381349b0dab4f6de3e2b005774034d6025567cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 28/32] fix: unquoted tokens are cut inside characters that
 share a byte with the arrow

---
 src/util/parsing.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index 2645278..f2c37e7 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -1,7 +1,21 @@
-use nom::{is_space, IResult};
+use nom::{is_space, ErrorKind, IResult};
 use std::fmt::Debug;
 use std::str::{from_utf8, FromStr};
 
+/// Consumes everything in front of the first symbol that must not occur in an unquoted token.
+/// The bytes of `'→'` on their own are no such symbol, they also occur in the encoding of others.
+fn unquoted(input: &[u8]) -> IResult<&[u8], &[u8]> {
+    let end = (0..input.len()).find(|&i| {
+        b" \\\"-,;)]%#".contains(&input[i]) || input[i..].starts_with("→".as_bytes())
+    });
+
+    match end {
+        Some(0) => IResult::Error(ErrorKind::IsNot),
+        Some(n) => IResult::Done(&input[n..], &input[..n]),
+        None => IResult::Done(&input[input.len()..], input),
+    }
+}
+
 /// Parses a token (i.e. a terminal symbol or a non-terminal symbol).
 /// A *token* can be of one of the following two forms:
 ///
@@ -20,7 +34,7 @@ where
                     tag!("\""),
                     escaped!(is_not!("\"\\"), '\\', one_of!("\\\"")),
                     tag!("\"")
-                ) | is_not!(" \\\"-→,;)]%#")
+                ) | unquoted
             ),
             from_utf8
         )
-- 
2.43.0


From bc13da3dd8f42c49a64c2d3470d2e9556d8ef5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 29/32] fix: a chart is never wider than there are
 nonterminals, whatever the beam

---
 src/grammars/lcfrs/csparsing/automaton/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index c442b20..fa71471 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -278,6 +278,8 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
     ) -> DenseChart<W> {
         let n = word.len();
         let nonterminals = self.0.len();
+        // there are at most that many constituents per span
+        let beam = beam.min(nonterminals);
 
         // contains the constituents ordered by weight
         let mut heap_of_nonterminals: BinaryHeap<(W, StateT)> = BinaryHeap::with_capacity(beam);
-- 
2.43.0


From e44cea0146478e32d9d87e909e945be0a580ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 30/32] fix: charts count the constituents of a span in 32 bits

---
 src/grammars/lcfrs/csparsing/automaton/chart.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 2094b3b..5713038 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -5,12 +5,12 @@ use std::ops::AddAssign;
 /// A chart for cfg parsing.
 #[derive(Debug, Clone)]
 pub struct DenseChart<W>(
-    Vec<u16>,         // no. of saved nonterminals per span
+    Vec<u32>,         // no. of saved nonterminals per span
     Vec<(StateT, W)>, // nonterminals with viterbi weigh per span (max <beam> entries)
     Vec<W>,           // viterbi weight per span and nonterminal
     usize,            // n
     usize,            // states
-    u16,              // max no. of constituents per span
+    u32,              // max no. of constituents per span
 );
 
 pub fn chart_size(n: usize) -> usize {
@@ -36,14 +36,14 @@ impl<W: Copy> DenseChart<W> {
     where
         W: Zero,
     {
-        assert!(bt_per_cell <= u16::max_value() as usize);
+        assert!(bt_per_cell <= u32::max_value() as usize);
         DenseChart(
             vec![ 0; chart_size(n) ],
             vec![ (0, W::zero()); chart_size(n) * bt_per_cell ],
             vec![ W::zero(); chart_size_with_states(n, states) ],
             n,
             states,
-            bt_per_cell as u16,
+            bt_per_cell as u32,
         )
     }
 
-- 
2.43.0


From da0b95f425dabfa06d484715e220b12e54f36189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 31/32] fix: a limited heap does not allocate its whole limit
 in advance

---
 search/src/agenda/limited_heap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/src/agenda/limited_heap.rs b/search/src/agenda/limited_heap.rs
index ced5878..d8bcf37 100644
--- a/search/src/agenda/limited_heap.rs
+++ b/search/src/agenda/limited_heap.rs
@@ -17,7 +17,8 @@ where
 impl<I, W: Ord> LimitedHeap<I, W> {
     pub fn with_capacity(capacity: usize) -> Self {
         LimitedHeap {
-            heap: MinMaxHeap::with_capacity(capacity),
+            // a limit may be far greater than the amount of items ever held
+            heap: MinMaxHeap::new(),
             capacity,
         }
     }
-- 
2.43.0


From aedebaccadbd09a6ac78d0eead4f48f382ee7699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:54 +0000
Subject: [PATCH 32/32] fix: a rule that starts with a terminal in front of
 nonterminals is separated, too

---
 src/grammars/pmcfg/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grammars/pmcfg/mod.rs b/src/grammars/pmcfg/mod.rs
index cfcb779..66ef688 100644
--- a/src/grammars/pmcfg/mod.rs
+++ b/src/grammars/pmcfg/mod.rs
@@ -478,6 +478,7 @@ where
             for variable in component {
                 match variable {
                     &VarT::Var(num_nonter, num_compon) => {
+                        contains_only_one_terminal = false;
                         new_component.push(VarT::Var(num_nonter, num_compon));
                     }
                     &VarT::T(ref terminal) => {
-- 
2.43.0

