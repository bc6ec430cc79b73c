From 79321aba7aeca7d30bdbb0c99ba26cc54b9d3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 01/23] fix: sharded sync cache pop must pick among the
 non-empty shards

---
 common/cache/src/sharded_sync_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index f6174ab..2da95b5 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -95,7 +95,7 @@ where
         } else {
             let shard_len = none_empty_shard.len();
             let index = rand::thread_rng().next_u64() as usize % shard_len;
-            self.shard.get(index)?.pop()
+            none_empty_shard.get(index)?.pop()
         }
     }
 
-- 
2.43.0


From 1470788779614210646cbb3c695282b3dcfaff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 02/23] fix: reloading a small bloom filter must keep its size

with_data() rounded the byte count, not the bit count, up to at least 8:
a filter of 8, 16 or 32 bits was padded and its mask grew, so keys
inserted before it was stored were no longer found.
---
 common/utils/src/bloom_filter.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/common/utils/src/bloom_filter.rs b/common/utils/src/bloom_filter.rs
index 10c1f4e..6d57146 100644
--- a/common/utils/src/bloom_filter.rs
+++ b/common/utils/src/bloom_filter.rs
@@ -35,11 +35,8 @@ impl BloomFilter {
     /// Similar to `new()`
     pub fn with_data(data: &[u8]) -> Self {
         let mut b = data.to_vec();
-        let l = Self::pow2(b.len() as u64);
-        if l != b.len() as u64 {
-            b.resize(l as usize, 0);
-        }
-        let m = l << 3;
+        let m = Self::pow2((b.len() as u64) << 3);
+        b.resize(m as usize >> 3, 0);
 
         Self { b, mask: m - 1 }
     }
-- 
2.43.0


From 24ba44c5efea3fe8cbdbcaf6fb2496b4a200e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:47 +0000
Subject: [PATCH 03/23] fix: refilling a rate bucket must not overflow

The tokens due were multiplied by the refill amount without a check: with a
large refill the product wrapped and the bucket stayed (nearly) empty.
---
 common/limiter_bucket/src/rate_bucket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/limiter_bucket/src/rate_bucket.rs b/common/limiter_bucket/src/rate_bucket.rs
index 72cb477..0ad6001 100644
--- a/common/limiter_bucket/src/rate_bucket.rs
+++ b/common/limiter_bucket/src/rate_bucket.rs
@@ -231,7 +231,9 @@ impl RateBucket {
     fn update_critical(&self, critical: &mut MutexGuard<Critical>) {
         if let Some((tokens, deadline)) = calculate_drain(critical.deadline, self.interval) {
             critical.deadline = deadline;
-            critical.balance = critical.balance.saturating_add(tokens * self.refill);
+            critical.balance = critical
+                .balance
+                .saturating_add(tokens.saturating_mul(self.refill));
 
             if critical.balance > self.max {
                 critical.balance = self.max;
-- 
2.43.0


From 41bc587b9cf1d366c65404d644dd06c1bc7297c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 04/23] fix: a time bound that excludes the extreme timestamp
 must not overflow

---
 common/models/src/predicate/domain.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 1b77b13..80d769a 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -43,12 +43,18 @@ impl From<(StdBound<i64>, StdBound<i64>)> for TimeRange {
     // TODO: Using TimeRange { min_ts: Bound, max_ts: Bound }
     fn from(range: (StdBound<i64>, StdBound<i64>)) -> Self {
         let min_ts = match range.0 {
-            StdBound::Excluded(v) => v + 1,
+            StdBound::Excluded(v) => match v.checked_add(1) {
+                Some(v) => v,
+                None => return Self::none(),
+            },
             StdBound::Included(v) => v,
             _ => Timestamp::MIN,
         };
         let max_ts = match range.1 {
-            StdBound::Excluded(v) => v - 1,
+            StdBound::Excluded(v) => match v.checked_sub(1) {
+                Some(v) => v,
+                None => return Self::none(),
+            },
             StdBound::Included(v) => v,
             _ => Timestamp::MAX,
         };
-- 
2.43.0


From 76c3c2f215185e04c8df651baf02b08f23b954be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 05/23] fix: excluding a time range that ends at the maximum
 timestamp must leave nothing behind it

---
 common/models/src/predicate/domain.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 80d769a..3ed6eb7 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -164,6 +164,7 @@ impl TimeRange {
             return Some(TimeRanges::new(vec![*self]));
         }
         let mut tmp_tr_min_ts = self.min_ts;
+        let mut excluded_to_end = false;
         let mut remained_ranges: Vec<TimeRange> = Vec::new();
         for (min_ts, max_ts) in time_ranges.ranges() {
             if min_ts == i64::MIN && max_ts == i64::MAX {
@@ -176,10 +177,17 @@ impl TimeRange {
                 if min_ts > tmp_tr_min_ts {
                     remained_ranges.push((tmp_tr_min_ts, min_ts - 1).into());
                 }
-                tmp_tr_min_ts = max_ts.checked_add(1).unwrap_or(max_ts);
+                match max_ts.checked_add(1) {
+                    Some(next_ts) => tmp_tr_min_ts = next_ts,
+                    None => {
+                        // Everything up to the maximum timestamp is excluded.
+                        excluded_to_end = true;
+                        break;
+                    }
+                }
             }
         }
-        if tmp_tr_min_ts <= self.max_ts {
+        if !excluded_to_end && tmp_tr_min_ts <= self.max_ts {
             remained_ranges.push((tmp_tr_min_ts, self.max_ts).into());
         }
         if remained_ranges.is_empty() {
-- 
2.43.0


From 5abc4de5c3aaa7ed2e299932b249fafc62f9d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 06/23] fix: a set of time ranges with holes must not count as
 boundless

---
 common/models/src/predicate/domain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 3ed6eb7..0b231a1 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -356,7 +356,9 @@ impl TimeRanges {
     }
 
     pub fn is_boundless(&self) -> bool {
-        self.min_ts == Timestamp::MIN && self.max_ts == Timestamp::MAX
+        self.inner.len() == 1
+            && self.min_ts == Timestamp::MIN
+            && self.max_ts == Timestamp::MAX
     }
 
     pub fn overlaps(&self, time_range: &TimeRange) -> bool {
-- 
2.43.0


From b45126d12cd98ed1f942e20097edb70c0debeee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 07/23] fix: range markers at one value must be ordered by
 their bound

A marker just below, exactly at and just above the same value compared as
equal, so 'a < 5 OR a > 5' unions, 'a <= 5 AND a < 5' and 'a > 5 AND a = 5'
produced domains that lost or gained the value itself. Ranges that touch are
joined so that the set stays compact.
---
 common/models/src/predicate/domain.rs | 35 +++++++++++++++++----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 0b231a1..971c353 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -437,7 +437,7 @@ impl Display for TimeRanges {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
+#[derive(Debug, Clone, PartialEq, PartialOrd, Ord, Serialize, Deserialize, Eq)]
 enum Bound {
     /// lower than the value, but infinitesimally close to the value.
     Below,
@@ -679,7 +679,11 @@ impl Ord for Marker {
         let self_data = self.value.as_ref().unwrap();
         let other_data = other.value.as_ref().unwrap();
 
-        self_data.partial_cmp(other_data).unwrap()
+        // just below v < exactly v < just above v
+        self_data
+            .partial_cmp(other_data)
+            .unwrap()
+            .then_with(|| self.bound.cmp(&other.bound))
     }
 }
 
@@ -901,17 +905,18 @@ impl Range {
     /// Returns an exception if the data types are incompatible.
     fn overlaps(&self, other: &Self) -> ModelResult<bool> {
         self.check_type_compatibility(other)?;
-        if self.low <= other.high && other.low <= self.high {
-            // like (-∞, 2) and (2, +∞) is not overlap
-            if self.high == other.low
-                && self.high.bound == Bound::Below
-                && other.low.bound == Bound::Above
-            {
-                return Ok(false);
-            }
-            return Ok(true);
-        }
-        Ok(false)
+        // like (-∞, 2) and (2, +∞) is not overlap
+        Ok(self.low <= other.high && other.low <= self.high)
+    }
+    /// Determine if this range ends exactly where the other one starts, so that
+    /// nothing is between them, like (-∞, 2) and [2, +∞).
+    fn touches(&self, other: &Self) -> bool {
+        self.high.value.is_some()
+            && self.high.value == other.low.value
+            && matches!(
+                (&self.high.bound, &other.low.bound),
+                (Bound::Below, Bound::Exactly) | (Bound::Exactly, Bound::Above)
+            )
     }
     /// Calculates the intersection of two ranges.
     ///
@@ -1175,6 +1180,10 @@ impl Domain {
                     let span_range = current.span(next).unwrap();
                     current = span_range
                 }
+                Ok(false) if current.touches(next) => {
+                    // If the next range starts where the current one ends, then join them
+                    current.high = next.high.clone();
+                }
                 Ok(false) => {
                     // If there is no intersection between the two ranges,
                     // save the current range interpolation,
-- 
2.43.0


From 179c598d37b845dbb170e5c49e48d43a410d55ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 08/23] fix: parts of a predicate that are not understood must
 not unbalance its domains

A literal, a function call, a comparison of two comparisons and the like left
none or several domains on the stack, so an enclosing AND/OR combined the wrong
ones and could prune rows the predicate selects. A typed NULL literal became a
range with an unbounded end.
---
 common/models/src/predicate/transformation.rs | 103 +++++-------------
 1 file changed, 26 insertions(+), 77 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 5a47d64..fa1288d 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -71,7 +71,7 @@ impl NormalizedSimpleComparison {
         }
         .and_then(|e| {
             // not support null with column of binary op
-            if matches!(e.value, ScalarValue::Null | ScalarValue::Utf8(None)) {
+            if e.value.is_null() {
                 return None;
             }
             Some(e)
@@ -163,95 +163,44 @@ impl TreeNodeVisitor for RowExpressionToDomainsVisitor<'_> {
     type N = Expr;
 
     fn pre_visit(&mut self, expr: &Expr) -> Result<VisitRecursion> {
-        // Note: expressions that can be used as and/or child nodes need to be processed.
-        // Expressions returning boolean need to be processed, If the expression is not supported, push ColumnDomains::all() onto the stack.
-        // If the expression supports it, return Continue directly.
+        // Every expression that is not a conjunction or a disjunction leaves exactly one ColumnDomains on the stack,
+        // so that the and/or above it always finds the domains of its own child nodes.
         match expr {
-            // Expr::Alias(_, _)
-            // | Expr::Negative(_)
-            // | Expr::ScalarVariable(_, _)
-            // | Expr::Case { .. }
-            // | Expr::Cast { .. }
-            // | Expr::TryCast { .. }
-            // | Expr::Sort { .. }
-            // | Expr::ScalarFunction { .. }
-            // | Expr::ScalarUDF { .. }
-            // | Expr::WindowFunction { .. }
-            // | Expr::AggregateFunction { .. }
-            // | Expr::GroupingSet(_)
-            // | Expr::AggregateUDF { .. }
-            // | Expr::Exists { .. }
-            // | Expr::InSubquery { .. }
-            // | Expr::ScalarSubquery(_)
-            // | Expr::Wildcard
-            // | Expr::QualifiedWildcard { .. }
-            // | Expr::GetIndexedField { .. } => {}
-            Expr::Column(_) | Expr::Literal(_) => Ok(VisitRecursion::Continue),
-            Expr::BinaryExpr(BinaryExpr {
-                left: _,
-                op,
-                right: _,
-            }) => {
-                match op {
-                    Operator::Eq
-                    | Operator::NotEq
-                    | Operator::Lt
-                    | Operator::LtEq
-                    | Operator::Gt
-                    | Operator::GtEq
-                    | Operator::And
-                    | Operator::Or => {
-                        // support
-                        Ok(VisitRecursion::Continue)
-                    }
-                    _ => {
-                        // not support
-                        self.ctx
-                            .current_domain_stack
-                            .push_back(ColumnDomains::all());
-                        Ok(VisitRecursion::Skip)
-                    }
+            Expr::BinaryExpr(BinaryExpr { left, op, right }) => match op {
+                Operator::And | Operator::Or => Ok(VisitRecursion::Continue),
+                Operator::Eq
+                | Operator::NotEq
+                | Operator::Lt
+                | Operator::LtEq
+                | Operator::Gt
+                | Operator::GtEq => {
+                    Self::construct_value_set_and_push_current_domain_stack(
+                        self.ctx, left, op, right,
+                    );
+                    Ok(VisitRecursion::Skip)
                 }
-            }
-            // TODO Currently not supported, follow-up support needs to implement the corresponding expression in post_visit
-            Expr::Like(_)
-            | Expr::ILike(_)
-            | Expr::SimilarTo(_)
-            | Expr::Not(_)
-            | Expr::IsNotNull(_)
-            | Expr::IsNull(_)
-            | Expr::IsTrue(_)
-            | Expr::IsFalse(_)
-            | Expr::IsUnknown(_)
-            | Expr::IsNotTrue(_)
-            | Expr::IsNotFalse(_)
-            | Expr::IsNotUnknown(_)
-            | Expr::Between { .. }
-            | Expr::InList { .. } => {
+                _ => {
+                    // not support
+                    self.ctx
+                        .current_domain_stack
+                        .push_back(ColumnDomains::all());
+                    Ok(VisitRecursion::Skip)
+                }
+            },
+            // TODO Currently not supported, they do not restrict any column
+            _ => {
                 self.ctx
                     .current_domain_stack
                     .push_back(ColumnDomains::all());
                 Ok(VisitRecursion::Skip)
             }
-            _ => Ok(VisitRecursion::Skip),
         }
     }
 
     fn post_visit(&mut self, expr: &Expr) -> DFResult<VisitRecursion> {
         match expr {
-            Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
+            Expr::BinaryExpr(BinaryExpr { op, .. }) => {
                 match op {
-                    // stack中为expr，清空，生成domain
-                    Operator::Eq
-                    | Operator::NotEq
-                    | Operator::Lt
-                    | Operator::LtEq
-                    | Operator::Gt
-                    | Operator::GtEq => {
-                        Self::construct_value_set_and_push_current_domain_stack(
-                            self.ctx, left, op, right,
-                        );
-                    }
                     // The stack is domain, pop it, and generate a new domain
                     Operator::And => {
                         let domain1_opt = self.ctx.current_domain_stack.pop_back();
-- 
2.43.0


From 2476c75e3da9c5b5f5bf79b282cb5b33ba05eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 09/23] fix: a DELETE must remove exactly the rows its
 condition selects

The conjunction of more than two comparisons could lose some of them, a NULL or
boolean literal was ignored (so everything was deleted), and an order comparison
of a boolean column became an inequality. Every comparison now restricts the
selection, and conditions that are not understood are refused.
---
 common/models/src/predicate/transformation.rs | 254 ++++++------------
 1 file changed, 81 insertions(+), 173 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index fa1288d..cfc3f2b 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -122,8 +122,19 @@ impl NormalizedSimpleComparison {
         true
     }
 
-    fn is_eq_op(&self) -> bool {
-        self.op.eq(&Operator::Eq)
+    /// The values of an unordered type that satisfy the comparison,
+    /// None if they cannot be told by (in)equality.
+    fn equtable_domain(&self) -> Option<Domain> {
+        let white_list = match self.op {
+            Operator::Eq => true,
+            Operator::NotEq => false,
+            _ => return None,
+        };
+        Some(Domain::of_values(
+            &self.value.get_datatype(),
+            white_list,
+            &[&self.value],
+        ))
     }
 
     fn is_comparison_op(op: Operator) -> bool {
@@ -265,11 +276,9 @@ impl RowExpressionToDomainsVisitor<'_> {
     ///
     /// Note: nsc does not support ordering, i.e. is_orderable == false
     fn nsc_to_domains_with_equtable(nsc: &NormalizedSimpleComparison) -> ColumnDomains<Column> {
-        let col = &nsc.column;
-        let value = &nsc.value;
-        let is_eq_op = nsc.is_eq_op();
-        let val_set = Domain::of_values(&value.get_datatype(), is_eq_op, &[value]);
-        ColumnDomains::of(col.to_owned(), &val_set)
+        // An order comparison does not restrict the column
+        let val_set = nsc.equtable_domain().unwrap_or(Domain::All);
+        ColumnDomains::of(nsc.column.to_owned(), &val_set)
     }
     /// Construct comparison operations as simple column-value comparison data structures nsc.
     ///
@@ -299,72 +308,40 @@ impl RowExpressionToDomainsVisitor<'_> {
     }
 }
 
-#[derive(Clone, Default)]
 struct DeleteSelectionExpressionToDomainsVisitorContext {
-    is_time_domain_stack: VecDeque<bool>,
-    tag_domain_stack: VecDeque<ColumnDomains<String>>,
-    time_domain_stack: VecDeque<ColumnDomains<String>>,
+    tag_domains: ColumnDomains<String>,
+    time_domains: ColumnDomains<String>,
 }
 
-impl DeleteSelectionExpressionToDomainsVisitorContext {
-    pub fn push_back(&mut self, domain: ColumnDomains<String>, is_time_domain: bool) {
-        self.is_time_domain_stack.push_back(is_time_domain);
-        if is_time_domain {
-            trace::trace!("push time {domain}");
-            self.time_domain_stack.push_back(domain);
-        } else {
-            trace::trace!("push tag {domain}");
-            self.tag_domain_stack.push_back(domain);
+impl Default for DeleteSelectionExpressionToDomainsVisitorContext {
+    fn default() -> Self {
+        Self {
+            tag_domains: ColumnDomains::all(),
+            time_domains: ColumnDomains::all(),
         }
     }
+}
 
-    pub fn try_intersect_top2_domains(&mut self) {
-        let domain1_is_time_opt = self.is_time_domain_stack.pop_back();
-        let domain2_is_time_opt = self.is_time_domain_stack.back();
-        match (domain1_is_time_opt, domain2_is_time_opt) {
-            (Some(domain1_is_time), Some(domain2_is_time)) => {
-                if domain1_is_time == *domain2_is_time {
-                    if domain1_is_time {
-                        // Last two is tag domains
-                        let mut domains1 = self.time_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains1}");
-                        let domains2 = self.time_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains2}");
-                        domains1.intersect(&domains2);
-                        println!("push time {domains1}");
-                        self.time_domain_stack.push_back(domains1);
-                    } else {
-                        // Last two is tag domains
-                        let mut domains1 = self.tag_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains1}");
-                        let domains2 = self.tag_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains2}");
-                        domains1.intersect(&domains2);
-                        println!("push tag {domains1}");
-                        self.tag_domain_stack.push_back(domains1);
-                    }
-                }
-            }
-            (Some(t1), None) => self.is_time_domain_stack.push_back(t1),
-            _ => {}
+impl DeleteSelectionExpressionToDomainsVisitorContext {
+    /// Only conjunctions are supported, so every comparison restricts the whole selection.
+    fn intersect(&mut self, domain: ColumnDomains<String>, is_time_domain: bool) {
+        if is_time_domain {
+            trace::trace!("intersect time {domain}");
+            self.time_domains.intersect(&domain);
+        } else {
+            trace::trace!("intersect tag {domain}");
+            self.tag_domains.intersect(&domain);
         }
     }
 
     /// Returns two column domains: tag and time.
-    pub fn into_tag_and_time_domains(mut self) -> (ColumnDomains<String>, ColumnDomains<String>) {
-        (
-            self.tag_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-            self.time_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-        )
+    pub fn into_tag_and_time_domains(self) -> (ColumnDomains<String>, ColumnDomains<String>) {
+        (self.tag_domains, self.time_domains)
     }
 }
 
-/// For DELETE statement only support simple expression
-/// TODO: descript simple expression
+/// For DELETE statement only support simple expression:
+/// conjunctions of comparisons between a column and a non-null literal, and of boolean literals.
 pub struct DeleteSelectionExpressionToDomainsVisitor<'a> {
     ctx: &'a mut DeleteSelectionExpressionToDomainsVisitorContext,
 }
@@ -373,100 +350,32 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
     type N = Expr;
 
     fn pre_visit(&mut self, expr: &Expr) -> Result<VisitRecursion> {
-        // Note: expressions that can be used as and/or child nodes need to be processed.
-        // Expressions returning boolean need to be processed, If the expression is not supported, push ColumnDomains::all() onto the stack.
-        // If the expression supports it, return Continue directly.
         match expr {
-            Expr::Column(_) | Expr::Literal(_) | Expr::Cast(_) => Ok(VisitRecursion::Continue),
-            e @ Expr::BinaryExpr(BinaryExpr {
-                left: _,
-                op,
-                right: _,
-            }) => {
-                trace::trace!("pre visit binary expr: {e}");
-                match op {
-                    Operator::Eq
-                    | Operator::NotEq
-                    | Operator::Lt
-                    | Operator::LtEq
-                    | Operator::Gt
-                    | Operator::GtEq
-                    | Operator::And => {
-                        // Supported
-                        Ok(VisitRecursion::Continue)
-                    }
-                    other => Err(DataFusionError::NotImplemented(format!(
-                        "operator {other} in delete statement"
-                    ))),
-                }
-            }
-            other => {
-                // self.ctx
-                //     .current_domain_stack
-                //     .push_back(ColumnDomains::all());
-                Err(DataFusionError::NotImplemented(format!(
-                    "{other} in delete statement"
-                )))
-            }
-        }
-    }
-
-    fn post_visit(&mut self, expr: &Expr) -> DFResult<VisitRecursion> {
-        match expr {
-            e @ Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
-                trace::trace!("post visit binary expr: {e}");
-                match op {
-                    // The stack is expression, clean and generate a new domain
-                    Operator::Eq
-                    | Operator::NotEq
-                    | Operator::Lt
-                    | Operator::LtEq
-                    | Operator::Gt
-                    | Operator::GtEq => match (left.as_ref(), right.as_ref()) {
-                        (Expr::Column(_), Expr::Literal(_))
-                        | (Expr::Literal(_), Expr::Column(_)) => {
-                            Self::construct_value_set_and_push_domain_stack(
-                                self.ctx, left, op, right,
-                            );
-                        }
-                        (Expr::Literal(_), Expr::Cast(expr))
-                        | (Expr::Cast(expr), Expr::Literal(_)) => {
-                            if let Expr::Column(_) = *expr.expr {
-                                Self::construct_value_set_and_push_domain_stack(
-                                    self.ctx, left, op, right,
-                                );
-                            } else {
-                                return Err(DataFusionError::NotImplemented(format!(
-                                    "{left} {op} {right} in delete statement"
-                                )));
-                            }
-                        }
-                        _ => {
-                            return Err(DataFusionError::NotImplemented(format!(
-                                "{left} {op} {right} in delete statement"
-                            )))
-                        }
-                    },
-                    // The stack is domain, pop it, and generate a new domain
-                    Operator::And => {
-                        self.ctx.try_intersect_top2_domains();
-                    }
-                    _ => {
-                        return Err(DataFusionError::NotImplemented(format!(
-                            "{expr} in delete statement"
-                        )))
-                    }
+            Expr::BinaryExpr(BinaryExpr { left, op, right }) => match op {
+                Operator::And => Ok(VisitRecursion::Continue),
+                Operator::Eq
+                | Operator::NotEq
+                | Operator::Lt
+                | Operator::LtEq
+                | Operator::Gt
+                | Operator::GtEq => {
+                    Self::intersect_comparison(self.ctx, left, op, right)?;
+                    Ok(VisitRecursion::Skip)
                 }
+                other => Err(DataFusionError::NotImplemented(format!(
+                    "operator {other} in delete statement"
+                ))),
+            },
+            Expr::Literal(ScalarValue::Boolean(Some(true))) => Ok(VisitRecursion::Skip),
+            Expr::Literal(ScalarValue::Boolean(_) | ScalarValue::Null) => {
+                // No row is selected
+                self.ctx.intersect(ColumnDomains::none(), false);
+                Ok(VisitRecursion::Skip)
             }
-            Expr::Column(_) | Expr::Literal(_) | Expr::Cast(_) => {}
-            other => {
-                return Err(DataFusionError::NotImplemented(format!(
-                    "{other} in delete statement"
-                )))
-            }
+            other => Err(DataFusionError::NotImplemented(format!(
+                "{other} in delete statement"
+            ))),
         }
-
-        Ok(VisitRecursion::Continue)
     }
 }
 
@@ -497,40 +406,39 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
         ColumnDomains::of(col.name.to_owned(), &val_set)
     }
 
-    /// Convert nsc to EqutableValueSet
-    ///
-    /// Note: nsc does not support ordering, i.e. is_orderable == false
-    fn nsc_to_domains_with_equtable(nsc: &NormalizedSimpleComparison) -> ColumnDomains<String> {
-        let col = &nsc.column;
-        let value = &nsc.value;
-        let is_eq_op = nsc.is_eq_op();
-        let val_set = Domain::of_values(&value.get_datatype(), is_eq_op, &[value]);
-        ColumnDomains::of(col.name.to_owned(), &val_set)
-    }
-
     /// Construct comparison operations as simple column-value comparison data structures nsc.
     ///
     /// Choose a different NscToValueSet function based on whether the data type supports sorting.
     ///
     /// Convert nsc to ValueSet via NscToValueSet function
     ///
-    /// Push the domain into the stack
-    fn construct_value_set_and_push_domain_stack(
+    /// Restrict the selection to the domain, returns an exception if the comparison is not supported,
+    /// otherwise rows it does not select would be deleted
+    fn intersect_comparison(
         ctx: &mut DeleteSelectionExpressionToDomainsVisitorContext,
         left: &Expr,
         op: &Operator,
         right: &Expr,
-    ) {
-        if let Some(nsc) = NormalizedSimpleComparison::of(left.clone(), *op, right.clone()) {
-            let domains = if nsc.is_orderable() {
-                Self::nsc_to_string_domains_with_range(&nsc)
-            } else {
-                Self::nsc_to_domains_with_equtable(&nsc)
-            };
-            ctx.push_back(domains, nsc.column.name == TIME_FIELD_NAME);
+    ) -> Result<()> {
+        let unsupported = || {
+            DataFusionError::NotImplemented(match (left, right) {
+                (Expr::BinaryExpr(e), _) | (_, Expr::BinaryExpr(e)) => {
+                    format!("operator {} in delete statement", e.op)
+                }
+                _ => format!("{left} {op} {right} in delete statement"),
+            })
+        };
+
+        let nsc = NormalizedSimpleComparison::of(left.clone(), *op, right.clone())
+            .ok_or_else(unsupported)?;
+        let domains = if nsc.is_orderable() {
+            Self::nsc_to_string_domains_with_range(&nsc)
         } else {
-            println!("push nothing!");
-        }
+            let val_set = nsc.equtable_domain().ok_or_else(unsupported)?;
+            ColumnDomains::of(nsc.column.name.to_owned(), &val_set)
+        };
+        ctx.intersect(domains, nsc.column.name == TIME_FIELD_NAME);
+        Ok(())
     }
 }
 
-- 
2.43.0


From 55c092078a1c9900eaedd6f1c23a46e2516ff802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 10/23] fix: a DELETE by time must not remove timestamps next
 to the bound

The bounds were converted to the precision of the database by truncation, so
'time > x' and 'time < x' also removed the boundary, and literals that already
have that precision were converted again.
---
 common/models/src/predicate/utils.rs          | 95 ++++++++++++++++---
 .../src/execution/dml/delete_from_table.rs    | 26 +----
 2 files changed, 86 insertions(+), 35 deletions(-)

diff --git a/common/models/src/predicate/utils.rs b/common/models/src/predicate/utils.rs
index f5b805c..f393500 100644
--- a/common/models/src/predicate/utils.rs
+++ b/common/models/src/predicate/utils.rs
@@ -1,13 +1,49 @@
 use std::ops::{Bound, RangeBounds};
 
-use datafusion::arrow::datatypes::DataType as ArrowDataType;
+use datafusion::arrow::datatypes::{DataType as ArrowDataType, TimeUnit};
 use datafusion::scalar::ScalarValue;
+use utils::precision::Precision;
 
 use super::domain::{ColumnDomains, TimeRange};
 use crate::predicate::domain::{Domain, Range, ValueEntry};
 use crate::schema::TIME_FIELD_NAME;
 
+/// The time ranges of a domain whose values are in the precision of the table.
 pub fn filter_to_time_ranges(time_domain: &ColumnDomains<String>) -> Vec<TimeRange> {
+    domain_to_time_ranges(time_domain, None)
+}
+
+/// The time ranges of a domain, converted from the time units of its values to the precision of the table.
+///
+/// A timestamp of that precision is in the result if and only if it is in the domain.
+pub fn filter_to_time_ranges_with_precision(
+    time_domain: &ColumnDomains<String>,
+    precision: Precision,
+) -> Vec<TimeRange> {
+    domain_to_time_ranges(time_domain, Some(precision))
+}
+
+fn nanos_of_unit(unit: &TimeUnit) -> i64 {
+    match unit {
+        TimeUnit::Second => 1_000_000_000,
+        TimeUnit::Millisecond => 1_000_000,
+        TimeUnit::Microsecond => 1_000,
+        TimeUnit::Nanosecond => 1,
+    }
+}
+
+fn nanos_of_precision(precision: Precision) -> i64 {
+    match precision {
+        Precision::MS => 1_000_000,
+        Precision::US => 1_000,
+        Precision::NS => 1,
+    }
+}
+
+fn domain_to_time_ranges(
+    time_domain: &ColumnDomains<String>,
+    precision: Option<Precision>,
+) -> Vec<TimeRange> {
     if time_domain.is_none() {
         // Does not contain any data, and returns an empty array directly
         return vec![];
@@ -22,11 +58,25 @@ pub fn filter_to_time_ranges(time_domain: &ColumnDomains<String>) -> Vec<TimeRan
 
     if let Some(time_domain) = time_domain.domains() {
         if let Some(domain) = time_domain.get(TIME_FIELD_NAME) {
-            // Convert ScalarValue value to nanosecond timestamp
-            let valid_and_generate_index_key = |v: &ScalarValue| {
-                // Time can only be of type Timestamp
-                assert!(matches!(v.get_datatype(), ArrowDataType::Timestamp(_, _)));
-                unsafe { i64::try_from(v.clone()).unwrap_unchecked() }
+            // Convert ScalarValue value to timestamp, rounding up or down to the precision
+            let valid_and_generate_index_key = |v: &ScalarValue, round_up: bool| {
+                let unit = match v.get_datatype() {
+                    ArrowDataType::Timestamp(unit, _) => unit,
+                    // Time can only be of type Timestamp
+                    other => panic!("time value of type {other}"),
+                };
+                let ts = unsafe { i64::try_from(v.clone()).unwrap_unchecked() };
+                let Some(precision) = precision else {
+                    return ts;
+                };
+                let (from, to) = (nanos_of_unit(&unit), nanos_of_precision(precision));
+                if from >= to {
+                    ts.saturating_mul(from / to)
+                } else {
+                    let step = to / from;
+                    let round_up = round_up && ts.rem_euclid(step) != 0;
+                    ts.div_euclid(step) + i64::from(round_up)
+                }
             };
 
             match domain {
@@ -38,14 +88,30 @@ pub fn filter_to_time_ranges(time_domain: &ColumnDomains<String>) -> Vec<TimeRan
                         let end_bound = range.end_bound();
 
                         // Convert the time value in Bound to timestamp
-                        let translate_bound = |bound: Bound<&ScalarValue>| match bound {
+                        let start_bound = match start_bound {
                             Bound::Unbounded => Bound::Unbounded,
-                            Bound::Included(v) => Bound::Included(valid_and_generate_index_key(v)),
-                            Bound::Excluded(v) => Bound::Excluded(valid_and_generate_index_key(v)),
+                            Bound::Included(v) => {
+                                Bound::Included(valid_and_generate_index_key(v, true))
+                            }
+                            Bound::Excluded(v) => {
+                                Bound::Excluded(valid_and_generate_index_key(v, false))
+                            }
+                        };
+                        let end_bound = match end_bound {
+                            Bound::Unbounded => Bound::Unbounded,
+                            Bound::Included(v) => {
+                                Bound::Included(valid_and_generate_index_key(v, false))
+                            }
+                            Bound::Excluded(v) => {
+                                Bound::Excluded(valid_and_generate_index_key(v, true))
+                            }
                         };
 
-                        let range = (translate_bound(start_bound), translate_bound(end_bound));
-                        time_ranges.push(range.into());
+                        let range: TimeRange = (start_bound, end_bound).into();
+                        // Nothing of that precision may be between the bounds
+                        if precision.is_none() || range.min_ts <= range.max_ts {
+                            time_ranges.push(range);
+                        }
                     }
                 }
                 Domain::Equtable(vals) => {
@@ -57,9 +123,12 @@ pub fn filter_to_time_ranges(time_domain: &ColumnDomains<String>) -> Vec<TimeRan
                         for entry in vals.entries().into_iter() {
                             let entry: &ValueEntry = entry;
 
-                            let ts = valid_and_generate_index_key(entry.value());
+                            let min_ts = valid_and_generate_index_key(entry.value(), true);
+                            let max_ts = valid_and_generate_index_key(entry.value(), false);
 
-                            time_ranges.push(TimeRange::new(ts, ts));
+                            if min_ts == max_ts {
+                                time_ranges.push(TimeRange::new(min_ts, max_ts));
+                            }
                         }
                     }
                 }
diff --git a/query_server/query/src/execution/dml/delete_from_table.rs b/query_server/query/src/execution/dml/delete_from_table.rs
index d19ffc1..9d38a27 100644
--- a/query_server/query/src/execution/dml/delete_from_table.rs
+++ b/query_server/query/src/execution/dml/delete_from_table.rs
@@ -4,12 +4,11 @@ use async_trait::async_trait;
 use meta::error::{DatabaseNotFoundSnafu, TenantNotFoundSnafu};
 use models::predicate::domain::{ColumnDomains, ResolvedPredicate, TimeRanges};
 use models::predicate::transformation::DeleteSelectionExpressionToDomainsVisitor;
-use models::predicate::utils::filter_to_time_ranges;
+use models::predicate::utils::filter_to_time_ranges_with_precision;
 use snafu::ResultExt;
 use spi::query::execution::{Output, QueryStateMachineRef};
 use spi::query::logical_planner::DeleteFromTable;
-use spi::{CoordinatorSnafu, InvalidParamSnafu, MetaSnafu, ModelsSnafu, QueryResult};
-use utils::precision::{timestamp_convert, Precision};
+use spi::{CoordinatorSnafu, MetaSnafu, ModelsSnafu, QueryResult};
 
 use super::DMLDefinitionTask;
 
@@ -56,25 +55,8 @@ impl DMLDefinitionTask for DeleteFromTableTask {
         let (tags_filter, time_ranges) = if let Some(expr) = selection {
             let (tag, time) =
                 DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains(expr)?;
-            let mut time_ranges = filter_to_time_ranges(&time);
-            for range in time_ranges.iter_mut() {
-                let min =
-                    timestamp_convert(Precision::NS, precision, range.min_ts).ok_or_else(|| {
-                        InvalidParamSnafu {
-                            reason: "Invalid timestamp".to_string(),
-                        }
-                        .build()
-                    })?;
-                let max =
-                    timestamp_convert(Precision::NS, precision, range.max_ts).ok_or_else(|| {
-                        InvalidParamSnafu {
-                            reason: "Invalid timestamp".to_string(),
-                        }
-                        .build()
-                    })?;
-                range.max_ts = max;
-                range.min_ts = min;
-            }
+            // The literals may be finer or coarser than the timestamps of the database
+            let time_ranges = filter_to_time_ranges_with_precision(&time, precision);
             (tag, TimeRanges::new(time_ranges))
         } else {
             (ColumnDomains::all(), TimeRanges::all())
-- 
2.43.0


From 76c5de172bf76fb32dc3d4bd7e8c726fa841893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 11/23] fix: scans must not be pruned by the values of a casted
 column

'CAST(time AS TIMESTAMP(9)) > x' on a table with a coarser precision was read as
a comparison of the stored timestamps with nanoseconds, and no row was found.
---
 common/models/src/predicate/transformation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index cfc3f2b..eb9a9d0 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -293,7 +293,10 @@ impl RowExpressionToDomainsVisitor<'_> {
         op: &Operator,
         right: &Expr,
     ) {
+        // The values of a casted column are not those of the column, so they do not restrict it
+        let has_cast = matches!(left, Expr::Cast(_)) || matches!(right, Expr::Cast(_));
         let domains_opt = NormalizedSimpleComparison::of(left.clone(), *op, right.clone())
+            .filter(|_| !has_cast)
             .map(|ref nsc| {
                 if nsc.is_orderable() {
                     return Self::nsc_to_column_domains_with_range(nsc);
-- 
2.43.0


From 8b36132f7ee8ea3c5ae78d95cdedbf8fdd6b1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 12/23] fix: timestamps whose first row is null must read back

---
 tskv/src/tsm/codec/timestamp.rs | 37 ++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/tskv/src/tsm/codec/timestamp.rs b/tskv/src/tsm/codec/timestamp.rs
index 8f463b2..5fe1d57 100644
--- a/tskv/src/tsm/codec/timestamp.rs
+++ b/tskv/src/tsm/codec/timestamp.rs
@@ -270,30 +270,29 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
     buf.copy_from_slice(&src[1..9]);
     let mut next = i64::from_be_bytes(buf);
     let mut builder = Int64Builder::with_capacity(bit_set.len());
-    let mut idx = 0;
-    if bit_set.is_valid(idx) {
-        builder.append_value(next);
-    } else {
-        builder.append_null();
-    }
-    idx += 1;
     simple8b::decode(&src[9..], &mut res);
 
+    let mut is_first = true;
     let mut value_iter = res.into_iter();
-    while idx < bit_set.len() {
-        if bit_set.is_valid(idx) {
-            if let Some(value) = value_iter.next() {
-                next += if scaler > 1 {
-                    (value * scaler) as i64
-                } else {
-                    value as i64
-                };
-                builder.append_value(next);
-            }
-        } else {
+    for is_valid in bit_set.iter() {
+        if !is_valid {
             builder.append_null();
+            continue;
+        }
+        // the first value is stored raw
+        if is_first {
+            builder.append_value(next);
+            is_first = false;
+            continue;
+        }
+        if let Some(value) = value_iter.next() {
+            next = next.wrapping_add(if scaler > 1 {
+                (value * scaler) as i64
+            } else {
+                value as i64
+            });
+            builder.append_value(next);
         }
-        idx += 1;
     }
     Ok(Arc::new(builder.finish()))
 }
-- 
2.43.0


From 1e16f100eff210f2b685786eed4729f6933c2206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 13/23] fix: a block must not start with the value that ends it

---
 tskv/src/tsm/codec/float.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tskv/src/tsm/codec/float.rs b/tskv/src/tsm/codec/float.rs
index 20baf70..cf85078 100644
--- a/tskv/src/tsm/codec/float.rs
+++ b/tskv/src/tsm/codec/float.rs
@@ -45,6 +45,9 @@ pub fn f64_gorilla_encode(src: &[f64], dst: &mut Vec<u8>) -> Result<(), CodecErr
 
     // write the first value into the block
     let first = src[0];
+    if is_sentinel_f64(first, SENTINEL) {
+        return Err(From::from("unsupported value"));
+    }
     let mut prev = first.to_bits();
     dst.extend_from_slice(&prev.to_be_bytes());
     n += 64;
-- 
2.43.0


From e6a37c0d6bb87b81281433a05963c97268f34b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 14/23] fix: record files cut short by a crash are read to what
 was whole and can be appended to

---
 tskv/src/record_file/reader.rs | 27 ++++++++++++++++++++++++---
 tskv/src/record_file/writer.rs |  6 +++++-
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index 61af5cd..b7a4de9 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -104,7 +104,8 @@ impl Reader {
         let file_len = file.len();
         let records_len = if footer_pos == file_len as u64 {
             // If there is no footer
-            file_len - FILE_MAGIC_NUMBER_LEN
+            // A torn file may be shorter than the magic number.
+            file_len.saturating_sub(FILE_MAGIC_NUMBER_LEN)
         } else {
             file_len - FILE_FOOTER_LEN - FILE_MAGIC_NUMBER_LEN
         };
@@ -190,10 +191,17 @@ impl Reader {
     async fn find_record_header(&mut self) -> TskvResult<(usize, &[u8])> {
         loop {
             let magic_number_sli = self.read_buf(RECORD_MAGIC_NUMBER_LEN).await?;
+            if magic_number_sli.len() < RECORD_MAGIC_NUMBER_LEN {
+                // The file ends before another header, it may be torn.
+                return Err(TskvError::Eof);
+            }
             let magic_number = decode_be_u32(magic_number_sli);
             if magic_number == RECORD_MAGIC_NUMBER {
                 let pos = self.pos;
                 let header = self.read_buf(RECORD_HEADER_LEN).await?;
+                if header.len() < RECORD_HEADER_LEN {
+                    return Err(TskvError::Eof);
+                }
                 return Ok((pos, header));
             } else {
                 self.set_pos(self.pos + 1).await?;
@@ -229,11 +237,22 @@ impl Reader {
         hasher
             .update(&header[RECORD_MAGIC_NUMBER_LEN..RECORD_HEADER_LEN - RECORD_CRC32_NUMBER_LEN]);
 
-        // TODO: Check if data_size is too large.
         let data_pos = header_pos + RECORD_HEADER_LEN;
+        let file_len = self.len().max(self.file.len() as u64);
+        if data_pos as u64 + data_size as u64 > file_len {
+            trace::error!(
+                "Record file: Data size ({data_size}) at pos {data_pos} is greater than file size ({file_len})",
+            );
+            // Try to get header from the next pos.
+            self.set_pos(header_pos + 1).await?;
+            return Err(RecordFileInvalidDataSizeSnafu {
+                pos: header_pos as u64,
+                len: data_size,
+            }
+            .build());
+        }
         self.set_pos(data_pos).await?;
 
-        let file_len = self.len();
         let data = match self.read_buf(data_size as usize).await {
             Ok(record_bytes) => {
                 let record_data = record_bytes.to_vec();
@@ -242,6 +261,8 @@ impl Reader {
                         "Record file: Failed to read data: file_size: {}, Data size ({}) at pos {} is greater than bytes readed ({})",
                         file_len, data_size, data_pos, record_bytes.len()
                     );
+                    // Try to get header from the next pos.
+                    self.set_pos(header_pos + 1).await?;
                     return Err(RecordFileInvalidDataSizeSnafu {
                         pos: header_pos as u64,
                         len: data_size,
diff --git a/tskv/src/record_file/writer.rs b/tskv/src/record_file/writer.rs
index 3d8c488..7b1baef 100644
--- a/tskv/src/record_file/writer.rs
+++ b/tskv/src/record_file/writer.rs
@@ -29,8 +29,12 @@ impl Writer {
             .open_file_writer(path, buf_size)
             .await
             .map_err(|e| TskvError::FileSystemError { source: e })?;
-        if file.is_empty() {
+        if file.len() < FILE_MAGIC_NUMBER_LEN {
             // For new file, write file magic number, next write is at 4.
+            // A file shorter than that was torn when it was created, it starts over.
+            if !file.is_empty() {
+                file.truncate(0).await.context(IOSnafu)?;
+            }
             file.write(&FILE_MAGIC_NUMBER.to_be_bytes())
                 .await
                 .context(error::IOSnafu)?;
-- 
2.43.0


From 7f80c96679dccfc01d97a15f9598d260838f8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 15/23] fix: a torn record no longer keeps a vnode summary or a
 tombstone file from being loaded

---
 tskv/src/tsfamily/summary.rs | 6 ++++--
 tskv/src/tsm/tombstone.rs    | 8 ++++++++
 tskv/src/version_set.rs      | 3 ++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index 5693016..43dcb45 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -75,7 +75,8 @@ impl Summary {
                     }
                 }
                 Err(TskvError::Eof) => break,
-                Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
+                Err(TskvError::RecordFileHashCheckFailed { .. })
+                | Err(TskvError::RecordFileInvalidDataSize { .. }) => continue,
                 Err(e) => {
                     return Err(e);
                 }
@@ -347,7 +348,8 @@ pub async fn print_summary_statistics(path: impl AsRef<Path>) {
                 }
             }
             Err(TskvError::Eof) => break,
-            Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
+            Err(TskvError::RecordFileHashCheckFailed { .. })
+            | Err(TskvError::RecordFileInvalidDataSize { .. }) => continue,
             Err(err) => panic!("Errors when read summary file: {}", err),
         }
         println!("============================================================");
diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index 23be5d4..fdf5923 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -574,6 +574,14 @@ impl TsmTombstoneCache {
             let record = match reader.read_record().await {
                 Ok(r) => r,
                 Err(TskvError::Eof) => break,
+                // A record torn by a crash was never acknowledged, those after it were.
+                Err(
+                    e @ (TskvError::RecordFileHashCheckFailed { .. }
+                    | TskvError::RecordFileInvalidDataSize { .. }),
+                ) => {
+                    error!("Broken tombstone record: {e}");
+                    continue;
+                }
                 Err(e) => {
                     if just_stop_if_error {
                         error!("Invalid tombstone record: {e}");
diff --git a/tskv/src/version_set.rs b/tskv/src/version_set.rs
index b86cbc3..11e9495 100644
--- a/tskv/src/version_set.rs
+++ b/tskv/src/version_set.rs
@@ -92,7 +92,8 @@ pub async fn split_to_tsfamily(
                 }
             }
             Err(TskvError::Eof) => break,
-            Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
+            Err(TskvError::RecordFileHashCheckFailed { .. })
+            | Err(TskvError::RecordFileInvalidDataSize { .. }) => continue,
             Err(e) => {
                 return Err(e);
             }
-- 
2.43.0


From 62ad78eb94bd1164dfd7fa4c7996340d4e70e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 16/23] fix: memory cache keeps the order of rows with equal
 timestamps and reads the row at the largest timestamp

---
 tskv/src/mem_cache/row_data.rs    |  3 ++-
 tskv/src/mem_cache/series_data.rs | 23 ++++++++++-------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/tskv/src/mem_cache/row_data.rs b/tskv/src/mem_cache/row_data.rs
index 1ba8682..a58188b 100644
--- a/tskv/src/mem_cache/row_data.rs
+++ b/tskv/src/mem_cache/row_data.rs
@@ -259,7 +259,8 @@ impl Clone for OrderedRowsData {
     fn clone(&self) -> Self {
         let mut clone_rows: OrderedSkipList<RowData> = OrderedSkipList::new();
         unsafe { clone_rows.sort_by(|a: &RowData, b: &RowData| a.partial_cmp(b).unwrap()) }
-        self.rows.iter().for_each(|row| {
+        // A row is inserted before its equals, the reverse keeps their order.
+        self.rows.iter().rev().for_each(|row| {
             clone_rows.insert(row.clone());
         });
         Self { rows: clone_rows }
diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index c10272d..e1aacc2 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -46,7 +46,10 @@ impl SeriesData {
         for item in self.groups.iter_mut().rev() {
             if item.schema.schema_version == group.schema.schema_version {
                 item.range.merge(&group.range);
-                group.rows.get_rows().into_iter().for_each(|row| {
+                // Rows of the same timestamp are ordered from the newest to the oldest,
+                // and a row is inserted before its equals.
+                let rows: Vec<RowData> = group.rows.get_rows().into_iter().collect();
+                rows.into_iter().rev().for_each(|row| {
                     item.rows.insert(row);
                 });
                 item.schema = group.schema;
@@ -69,7 +72,7 @@ impl SeriesData {
             };
             let mut rowdata_vec: Vec<RowData> = item.rows.get_ref_rows().iter().cloned().collect();
             item.rows.clear();
-            for row in rowdata_vec.iter_mut() {
+            for row in rowdata_vec.iter_mut().rev() {
                 if index < row.fields.len() {
                     row.fields.remove(index);
                 }
@@ -304,17 +307,11 @@ impl<'a> Iterator for SeriesDedupMergeSortIterator<'a> {
     type Item = RowDataRef<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut min_ts = i64::MAX;
-        for (_, data, _) in self.vec_pq.iter() {
-            if let Some(data) = data {
-                if min_ts > data.ts {
-                    min_ts = data.ts
-                }
-            }
-        }
-        if min_ts == i64::MAX {
-            return None;
-        }
+        let min_ts = self
+            .vec_pq
+            .iter()
+            .filter_map(|(_, data, _)| data.map(|data| data.ts))
+            .min()?;
 
         let mut result = RowDataRef {
             ts: min_ts,
-- 
2.43.0


From 2f7f480e7324cf9665543c5da5040c142c1722e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 17/23] fix: a summary written anew keeps the highest file id,
 so ids of deleted files are not given out again

---
 common/utils/src/id_generator.rs    | 5 +++++
 tskv/src/tsfamily/tseries_family.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/common/utils/src/id_generator.rs b/common/utils/src/id_generator.rs
index 1c8970c..17f5e66 100644
--- a/common/utils/src/id_generator.rs
+++ b/common/utils/src/id_generator.rs
@@ -20,4 +20,9 @@ impl IDGenerator {
     pub fn next_id(&self) -> u64 {
         self.id.fetch_add(1, Ordering::SeqCst)
     }
+
+    /// The greatest id given out so far.
+    pub fn last_id(&self) -> u64 {
+        self.id.load(Ordering::SeqCst).saturating_sub(1)
+    }
 }
diff --git a/tskv/src/tsfamily/tseries_family.rs b/tskv/src/tsfamily/tseries_family.rs
index 2307cfd..22b5ad5 100644
--- a/tskv/src/tsfamily/tseries_family.rs
+++ b/tskv/src/tsfamily/tseries_family.rs
@@ -277,6 +277,8 @@ impl TseriesFamily {
         let max_level_ts = version.max_level_ts();
 
         let mut version_edit = VersionEdit::new_add_vnode(self.tf_id, owner, seq_no);
+        // Ids of files that are gone must not be given out again.
+        version_edit.file_id = self.file_id.last_id();
         for files in version.levels_info().iter() {
             for file in files.files.iter() {
                 let mut meta = CompactMeta::from(file.as_ref());
-- 
2.43.0


From f5fa51f831c814518d3b0837b14082a0ad950226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 18/23] fix: deletions added while a compaction runs are kept,
 and what an unfinished compaction prepared is not installed later

---
 tskv/src/tsm/tombstone.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index fdf5923..2e8f1dd 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -283,8 +283,11 @@ impl TsmTombstone {
         time_range: TimeRange,
     ) -> TskvResult<TimeRanges> {
         let tmp_path = tombstone_compact_tmp_path(&self.path)?;
+        // A compaction that never finished may have left its compact_tmp tombstone file.
+        LocalFileSystem::remove_if_exists(&tmp_path)
+            .map_err(|e| TskvError::FileSystemError { source: e })?;
         let mut writer = record_file::Writer::open(&tmp_path, TOMBSTONE_BUFFER_SIZE).await?;
-        let mut cache = self.cache.write().clone();
+        let mut cache = self.cache.read().clone();
         cache.insert(TombstoneField::All, time_range);
         cache.compact();
         trace::info!(
@@ -314,9 +317,20 @@ impl TsmTombstone {
                 tmp_path.display(),
                 self.path.display()
             );
+            let mut reader = record_file::Reader::open(&tmp_path).await?;
+            let prepared = TsmTombstoneCache::load_from(&mut reader, false).await?;
+            // Tombstones may have been added since compact_tmp was prepared.
+            let mut cache = self.cache.read().clone();
+            for time_range in prepared.all_excluded.time_ranges() {
+                cache.insert(TombstoneField::All, time_range);
+            }
+            cache.compact();
+            LocalFileSystem::remove_if_exists(&tmp_path)
+                .map_err(|e| TskvError::FileSystemError { source: e })?;
+            let mut writer = record_file::Writer::open(&tmp_path, TOMBSTONE_BUFFER_SIZE).await?;
+            cache.save_to(&mut writer).await?;
+            writer.close().await?;
             file_utils::rename(tmp_path, &self.path).await?;
-            let mut reader = record_file::Reader::open(&self.path).await?;
-            let cache = TsmTombstoneCache::load_from(&mut reader, false).await?;
             *self.cache.write() = cache;
         } else {
             debug!("No compact_tmp tombstone file to convert to real tombstone file");
-- 
2.43.0


From f050d274fd9c60d731d0fb2ab118a5fb3d8dcb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:18 +0000
Subject: [PATCH 19/23] fix: a data file's filter is asked for a series the way
 it was told of it

---
 tskv/src/tsm/footer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tskv/src/tsm/footer.rs b/tskv/src/tsm/footer.rs
index f5f1a2c..68523e7 100644
--- a/tskv/src/tsm/footer.rs
+++ b/tskv/src/tsm/footer.rs
@@ -1,4 +1,3 @@
-use datafusion::parquet::data_type::AsBytes;
 use models::predicate::domain::TimeRange;
 use models::SeriesId;
 use serde::{Deserialize, Serialize};
@@ -87,7 +86,7 @@ impl Footer {
     pub fn maybe_series_exist(&self, series_id: &SeriesId) -> bool {
         self.series
             .bloom_filter
-            .maybe_contains((*series_id).as_bytes().as_ref())
+            .maybe_contains(&series_id.to_be_bytes())
     }
 }
 
-- 
2.43.0


From 5f3d0e4f9ecfec96ecb69e97ab34c127760251a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 20/23] fix: merged blocks keep the columns of the newest of
 their schemas

---
 .../compaction/comapcting_block_meta_group.rs | 44 ++++++++++++++-----
 tskv/src/compaction/compact.rs                |  8 ++++
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/tskv/src/compaction/comapcting_block_meta_group.rs b/tskv/src/compaction/comapcting_block_meta_group.rs
index 0995bf7..f495636 100644
--- a/tskv/src/compaction/comapcting_block_meta_group.rs
+++ b/tskv/src/compaction/comapcting_block_meta_group.rs
@@ -62,12 +62,22 @@ impl CompactingBlockMetaGroup {
         }
         self.blk_metas.sort_by_key(|a| a.reader_idx());
 
-        let table_schema = self.blk_metas[0].table_schema().context(CommonSnafu {
-            reason: format!(
-                "table schema not found for table {}",
-                self.blk_metas[0].meta().table_name()
-            ),
-        })?;
+        // Blocks may have been written under different schemas, the newest one has the columns of all.
+        let table_schema = self
+            .blk_metas
+            .iter()
+            .filter_map(|m| m.table_schema())
+            .max_by_key(|s| s.schema_version)
+            .context(CommonSnafu {
+                reason: format!(
+                    "table schema not found for table {}",
+                    self.blk_metas[0].meta().table_name()
+                ),
+            })?;
+        let merged_schema = match previous_block.as_ref().map(|b| b.table_schema()) {
+            Some(s) if s.schema_version > table_schema.schema_version => s.clone(),
+            _ => table_schema.clone(),
+        };
 
         if self.blk_metas.len() == 1
             && !compacting_files[self.blk_metas[0].compacting_file_index()].has_tombstone()
@@ -108,7 +118,10 @@ impl CompactingBlockMetaGroup {
                 let record_batch = compacting_block.decode_opt(*time_range)?;
                 metrics.merge_begin();
                 let record_batches = Self::merge_record_batches(
-                    vec![decoded_raw_record_batch, record_batch],
+                    Self::project_to_table_schema(
+                        vec![decoded_raw_record_batch, record_batch],
+                        &merged_schema,
+                    )?,
                     max_block_size,
                 )
                 .await?;
@@ -119,7 +132,7 @@ impl CompactingBlockMetaGroup {
                         CompactingBlock::decoded(
                             self.series_id,
                             self.chunk.series_key().clone(),
-                            table_schema.clone(),
+                            merged_schema.clone(),
                             rb,
                         )
                     })
@@ -154,7 +167,7 @@ impl CompactingBlockMetaGroup {
                     record_batches.push(blk.decode_opt(*time_range)?);
                 }
                 metrics.read_end();
-                record_batches
+                Self::project_to_table_schema(record_batches, &merged_schema)?
             };
             let record_batches = {
                 metrics.merge_begin();
@@ -169,7 +182,7 @@ impl CompactingBlockMetaGroup {
                     CompactingBlock::decoded(
                         self.series_id,
                         self.chunk.series_key().clone(),
-                        table_schema.clone(),
+                        merged_schema.clone(),
                         rb,
                     )
                 })
@@ -178,6 +191,17 @@ impl CompactingBlockMetaGroup {
         }
     }
 
+    fn project_to_table_schema(
+        record_batches: Vec<RecordBatch>,
+        table_schema: &TskvTableSchema,
+    ) -> TskvResult<Vec<RecordBatch>> {
+        let target_schema = table_schema.to_record_data_schema();
+        record_batches
+            .into_iter()
+            .map(|rb| Self::record_batch_project_schema(rb, target_schema.clone()))
+            .collect()
+    }
+
     pub async fn merge_record_batches(
         record_batches: Vec<RecordBatch>,
         block_size: usize,
diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index 689f2fe..87b4c60 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -124,6 +124,14 @@ impl CompactingBlock {
         filter_record_batch_by_time_range(record_batch, time_range).context(ArrowSnafu)
     }
 
+    pub fn table_schema(&self) -> &TskvTableSchemaRef {
+        match self {
+            CompactingBlock::Decoded { table_schema, .. }
+            | CompactingBlock::Encoded { table_schema, .. }
+            | CompactingBlock::Raw { table_schema, .. } => table_schema,
+        }
+    }
+
     pub fn len(&self) -> usize {
         match self {
             CompactingBlock::Decoded { record_batch, .. } => record_batch.num_rows(),
-- 
2.43.0


From ad2643610b9a45386e8d7f73e3639bc04e8b11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 21/23] fix: a compaction takes files in order of their first
 series, so that no series is written twice

---
 tskv/src/compaction/compact.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index 87b4c60..dbe3e1f 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -312,6 +312,8 @@ impl CompactState {
             compacting_files.push(f);
             compacting_tsm_file_idx += 1;
         }
+        // Files that do not start with the same series must be in order of their first one.
+        compacting_files.sort();
         let mut tsm_reader_to_compacting_file_map = vec![None::<_>; tsm_readers_len];
         for (i, f) in compacting_files.iter().enumerate() {
             tsm_reader_to_compacting_file_map[f.tsm_reader_index] = Some(i);
-- 
2.43.0


From 640647d6baa512155efd75da9a09c8d6ed11f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 22/23] fix: queries take newer data for newer than compacted
 files

Overlapping data was merged in the order of file ids. A compacted file gets its
id when it is compacted, so it won over delta files and memcaches created before
that, whose data are newer.
---
 tskv/src/reader/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tskv/src/reader/mod.rs b/tskv/src/reader/mod.rs
index 45810b7..3c5cabe 100644
--- a/tskv/src/reader/mod.rs
+++ b/tskv/src/reader/mod.rs
@@ -1,6 +1,6 @@
 #![allow(clippy::arc_with_non_send_sync)]
 
-use std::cmp::Ordering;
+use std::cmp::{Ordering, Reverse};
 use std::fmt;
 use std::pin::Pin;
 use std::sync::Arc;
@@ -26,7 +26,7 @@ use crate::mem_cache::series_data::SeriesData;
 use crate::tsfamily::column_file::ColumnFile;
 use crate::tsm::chunk::Chunk;
 use crate::tsm::reader::TsmReader;
-use crate::{ColumnFileId, TskvError, TskvResult};
+use crate::{ColumnFileId, LevelId, TskvError, TskvResult};
 
 mod batch_builder;
 mod chunk;
@@ -307,11 +307,26 @@ impl PartialOrd<Self> for DataReference {
 
 impl Ord for DataReference {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.file_id().cmp(&other.file_id())
+        self.recency().cmp(&other.recency())
     }
 }
 
 impl DataReference {
+    /// Sort key of the data, from the oldest to the newest.
+    ///
+    /// A file of level 1-4 gets its id when it is compacted, it may be greater than the id of
+    /// a delta file or memcache with newer data. So only ids of the same kind are comparable:
+    /// the higher the level the older the data, and delta files and memcaches, which share the
+    /// id of the memcache, are newer than all of them.
+    fn recency(&self) -> (bool, Reverse<LevelId>, ColumnFileId) {
+        match self {
+            DataReference::Chunk(_, _, cf) if !cf.is_delta() => {
+                (false, Reverse(cf.level()), cf.file_id())
+            }
+            _ => (true, Reverse(0), self.file_id()),
+        }
+    }
+
     pub fn time_range(&self) -> TimeRange {
         match self {
             DataReference::Chunk(chunk, ..) => *chunk.time_range(),
-- 
2.43.0


From 1ca5f37df0b22b304065108f7bd5df1e476e431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 23/23] fix: overlapping data is merged before it is filtered,
 so that overwritten rows are not returned

---
 tskv/src/reader/iterator.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index 7afb946..aee908f 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -498,11 +498,16 @@ impl SeriesGroupBatchReaderFactory {
         let readers = grouped_chunks
             .into_iter()
             .map(|chunks| -> TskvResult<BatchReaderRef> {
+                let chunks = chunks.segments();
+                // Overlapping chunks are merged before they are filtered: a row that was
+                // overwritten may match the predicate while the one that replaced it does not.
+                let overlapped = chunks.len() > 1;
+                let chunk_predicate = if overlapped { &None } else { predicate };
                 let chunk_readers = self.build_chunk_readers(
-                    chunks.segments(),
+                    chunks,
                     batch_size,
                     projection,
-                    predicate,
+                    chunk_predicate,
                     metrics,
                     aggregates,
                 )?;
@@ -532,7 +537,15 @@ impl SeriesGroupBatchReaderFactory {
                         Arc::new(CombinedBatchReader::new(chunk_readers))
                     };
 
-                    Ok(reader)
+                    match predicate {
+                        Some(predicate) if overlapped => Ok(Arc::new(DataFilter::new(
+                            predicate.clone(),
+                            reader,
+                            self.filter_reader_metrics_set.clone(),
+                        ))
+                            as BatchReaderRef),
+                        _ => Ok(reader),
+                    }
                 } else {
                     Ok(Arc::new(CombinedBatchReader::new(chunk_readers)))
                 }
-- 
2.43.0

