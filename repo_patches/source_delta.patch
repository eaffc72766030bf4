From d13998cf38ab63ad91146c17d6b24a427b3e331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:24 +0000
Subject: [PATCH 01/15] fix: award the shoot-out win to the right team in
 fifa()

With penalties the second team was scored 0.75 when it lost the shoot-out and
0.5 when it won it, so the result of a match depended on the argument order
and disagreed with fifa_rating_period.
---
 src/fifa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fifa.rs b/src/fifa.rs
index baab75f..5dacb43 100644
--- a/src/fifa.rs
+++ b/src/fifa.rs
@@ -265,7 +265,7 @@ pub fn fifa(
         outcome.to_chess_points()
     };
     let outcome2 = if config.penalties {
-        if outcome == &Outcomes::WIN {
+        if outcome == &Outcomes::LOSS {
             0.75
         } else {
             0.5
-- 
2.43.0


From 8f44c488fc2d7ff37573ce9512b521085ff7a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:24 +0000
Subject: [PATCH 02/15] fix: keep the Ingo rating in a rating period without
 games

The averages were computed as 0/0, which turned the rating into NaN.
---
 src/ingo.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ingo.rs b/src/ingo.rs
index f9a4d11..525ed5d 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -280,6 +280,11 @@ pub fn ingo(
 /// assert!((new_player.rating.round() - 126.0).abs() < f64::EPSILON);
 /// ```
 pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)]) -> IngoRating {
+    // Without any games there is no performance to average, so the rating stays the same.
+    if results.is_empty() {
+        return *player;
+    }
+
     // Ingo was meant to be used in tournaments, so we do not need to loop over the opponents here.
     let development = age_to_devcoefficent(player.age);
 
-- 
2.43.0


From 5334d1472b509dc8fd4efe42a41b009c906dfa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:24 +0000
Subject: [PATCH 03/15] fix: keep Ingo expected scores between 0.0 and 1.0

For rating differences above 50 points the linear formula left the documented range.
---
 src/ingo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ingo.rs b/src/ingo.rs
index 525ed5d..88a9077 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -336,7 +336,7 @@ pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)
 /// assert!((exp1 + exp2 - 1.0).abs() < f64::EPSILON);
 /// ```
 pub fn expected_score(player_one: &IngoRating, player_two: &IngoRating) -> (f64, f64) {
-    let exp_one = 0.5 + (player_two.rating - player_one.rating) / 100.0;
+    let exp_one = (0.5 + (player_two.rating - player_one.rating) / 100.0).clamp(0.0, 1.0);
     let exp_two = 1.0 - exp_one;
 
     (exp_one, exp_two)
@@ -377,7 +377,7 @@ pub fn expected_score(player_one: &IngoRating, player_two: &IngoRating) -> (f64,
 pub fn expected_score_rating_period(player: &IngoRating, opponents: &[IngoRating]) -> Vec<f64> {
     opponents
         .iter()
-        .map(|o| 0.5 + (o.rating - player.rating) / 100.0)
+        .map(|o| (0.5 + (o.rating - player.rating) / 100.0).clamp(0.0, 1.0))
         .collect()
 }
 
-- 
2.43.0


From f386d60d203cb84bd6e77c738a5fb30a9fc6c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:24 +0000
Subject: [PATCH 04/15] fix: apply the USCF minimum rating of 100.0 in rating
 periods

uscf() already does, uscf_rating_period() could return lower and even negative ratings.
---
 src/uscf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 14879d8..7ba6029 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -413,7 +413,8 @@ pub fn uscf_rating_period(
             avg_opponent_rating,
             wins,
             losses,
-        );
+        )
+        .max(100.0);
 
         return USCFRating {
             rating: new_rating,
@@ -435,7 +436,8 @@ pub fn uscf_rating_period(
         score,
         exp_sum,
         *config,
-    );
+    )
+    .max(100.0);
 
     USCFRating {
         rating: new_rating,
-- 
2.43.0


From 61bd05d46235a2163c19637b7ae223c3f7b6ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:24 +0000
Subject: [PATCH 05/15] fix: apply the EGF minimum rating of -900.0 to whole
 rating periods

Only the single changes were limited, their sum could still fall below the minimum.
---
 src/egf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/egf.rs b/src/egf.rs
index 98aa9ac..471954a 100644
--- a/src/egf.rs
+++ b/src/egf.rs
@@ -319,7 +319,8 @@ pub fn egf_rating_period(
     }
 
     EGFRating {
-        rating: player.rating + rating_change,
+        // The absolute minimum rating is set to be -900.
+        rating: (player.rating + rating_change).max(-900.0),
     }
 }
 
-- 
2.43.0


From a3d7609cbd3362b9199d96b61a07cbe601fdfe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:24 +0000
Subject: [PATCH 06/15] fix: keep the DWZ development coefficient at 5 or above
 for index 0

The upper limit of 5 * index pushed it to 0 for players without a completed
event, and a rating period without games then returned NaN.
---
 src/dwz.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dwz.rs b/src/dwz.rs
index 2a3fb3f..431ad40 100644
--- a/src/dwz.rs
+++ b/src/dwz.rs
@@ -638,9 +638,8 @@ fn e_value(rating: f64, age: usize, score: f64, expected_score: f64, index: usiz
     if e <= 5.0 {
         e = 5.0;
     } else if b == 0.0 {
-        if e >= 30.0_f64.min(5.0 * index as f64) {
-            e = 30.0_f64.min(5.0 * index as f64);
-        }
+        // The coefficient is never lower than 5, even if no event has been completed yet.
+        e = e.min((5.0 * index as f64).clamp(5.0, 30.0));
     } else if e >= 150.0 {
         e = 150.0;
     }
-- 
2.43.0


From c6fc109d1203968450262f547ab723d7fbfea61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:01 +0000
Subject: [PATCH 07/15] fix: compute Weng-Lin win probabilities from rating
 differences

exp(rating / c) overflows (or underflows for both players) once a rating is some
700 times c, and the probabilities and all ratings derived from them became NaN.
---
 src/weng_lin.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/weng_lin.rs b/src/weng_lin.rs
index 033253f..e66890f 100644
--- a/src/weng_lin.rs
+++ b/src/weng_lin.rs
@@ -912,8 +912,11 @@ pub fn expected_score_multi_team(teams: &[&[WengLinRating]], config: &WengLinCon
 
     let mut sum = 0.0;
 
+    // Only the differences count, exponentiating the ratings themselves can overflow.
+    let highest = ratings.iter().copied().fold(f64::NEG_INFINITY, f64::max);
+
     for rating in ratings {
-        let e = (rating / c).exp();
+        let e = ((rating - highest) / c).exp();
         exps.push(e);
         sum += e;
     }
@@ -971,10 +974,8 @@ pub fn expected_score_rating_period(
 }
 
 fn p_value(rating_one: f64, rating_two: f64, c_value: f64) -> (f64, f64) {
-    let e1 = (rating_one / c_value).exp();
-    let e2 = (rating_two / c_value).exp();
-
-    let exp_one = e1 / (e1 + e2);
+    // Only the difference counts, exponentiating the ratings themselves can overflow.
+    let exp_one = (1.0 + ((rating_two - rating_one) / c_value).exp()).recip();
     let exp_two = 1.0 - exp_one;
 
     (exp_one, exp_two)
-- 
2.43.0


From a442c8294cc314cf82250f7f614ea72bdc1b3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:01 +0000
Subject: [PATCH 08/15] fix: compute match_quality_multi_team for two teams

With two teams the factors had dimensions which also allow the outer product,
so the following multiplication panicked.
---
 src/trueskill/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 83501ce..0fb003d 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1150,7 +1150,7 @@ pub fn match_quality_multi_team(
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
     let atsa = rotated_a_matrix.clone() * variance_matrix * a_matrix.clone();
-    let start = a_matrix * mean_matrix.transpose();
+    let start = mean_matrix.transpose() * a_matrix;
     let middle = a_ta.clone() + atsa;
 
     let end = rotated_a_matrix * mean_matrix;
-- 
2.43.0


From f45453fdddc8d716381992093ffa3d231a90571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:29 +0000
Subject: [PATCH 09/15] fix: handle TrueSkill matches with a single team

trueskill_multi_team and match_quality_multi_team panicked and
expected_score_multi_team returned NaN. They now behave like their Weng-Lin
counterparts: nothing changes, and the team is certain to win.
---
 src/trueskill/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 0fb003d..ec6f8d5 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -790,6 +790,14 @@ pub fn trueskill_multi_team(
         weights,
     )?;
 
+    // Nothing changes for a team without opponents.
+    if teams_and_ranks.len() < 2 {
+        return Ok(teams_and_ranks
+            .iter()
+            .map(|(team, _)| team.to_vec())
+            .collect());
+    }
+
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
     for (pos, ((team, outcome), weights)) in teams_and_ranks.iter().zip(&weights).enumerate() {
         sorted_teams_and_ranks_with_pos.push((pos, (*team, *outcome, &weights[..])));
@@ -1127,6 +1135,12 @@ pub fn match_quality_multi_team(
         }
     }
 
+    // There is no opponent to compare a single team to.
+    if teams.len() < 2 {
+        get_weights(teams, weights)?;
+        return Ok(0.0);
+    }
+
     let total_players = teams.iter().map(|t| t.len()).sum::<usize>();
 
     let team_uncertainties_sq_flatten = teams
@@ -1353,6 +1367,11 @@ pub fn expected_score_multi_team(
     teams: &[&[TrueSkillRating]],
     config: &TrueSkillConfig,
 ) -> Vec<f64> {
+    // A team without opponents cannot lose.
+    if teams.len() == 1 {
+        return vec![1.0];
+    }
+
     let player_count = teams.iter().map(|t| t.len()).sum::<usize>() as f64;
 
     let mut win_probabilities = Vec::with_capacity(teams.len());
-- 
2.43.0


From a0456f5418946b8d561075984f81d159062cde77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:40 +0000
Subject: [PATCH 10/15] fix: leave players with a weight of 0.0 out of the
 TrueSkill update

A weight of 0.0 marks a player who did not take part, but the message sent back
to such a player had infinite precision and turned the rating into NaN.
---
 src/trueskill/factor_graph.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index e2b78a3..e132553 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -169,11 +169,15 @@ impl SumFactor {
 
     pub fn up(&self, index: usize) -> f64 {
         let coeff = self.coeffs[index];
+
+        // The sum says nothing about a term it does not depend on.
+        if coeff == 0.0 {
+            return 0.0;
+        }
+
         let mut coeffs = Vec::new();
         for (x, c) in self.coeffs.iter().enumerate() {
-            if coeff == 0.0 {
-                coeffs.push(0.0);
-            } else if x == index {
+            if x == index {
                 coeffs.push(coeff.recip());
             } else {
                 coeffs.push(-(*c) / coeff);
-- 
2.43.0


From 273d5d6b27cc80750d4899881388d85a8e6d321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:39 +0000
Subject: [PATCH 11/15] fix: keep TrueSkill ratings finite after next to
 impossible results

w exceeds 1.0 (by the error of the cdf approximation) when the draw margin is
tiny compared to the uncertainties, and is 1.0 for extreme upsets: the former
made the new uncertainty of a draw NaN, both divided by zero or less in the
factor graph of multi-team matches.
---
 src/trueskill/factor_graph.rs | 3 ++-
 src/trueskill/math.rs         | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index e132553..6d60414 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -268,7 +268,8 @@ impl TruncateFactor {
         let arg_2 = self.draw_margin * div.pi;
         let v = (self.v_func)(arg_1, arg_2, pi_sqrt);
         let w = (self.w_func)(arg_1, arg_2, pi_sqrt);
-        let denom = 1.0 - w;
+        // w reaches 1.0 for results which are next to impossible.
+        let denom = (1.0 - w).max(1e-6);
 
         let pi = div.pi / denom;
         let tau = pi_sqrt.mul_add(v, div.tau) / denom;
diff --git a/src/trueskill/math.rs b/src/trueskill/math.rs
index 8be4c41..d1aa4a7 100644
--- a/src/trueskill/math.rs
+++ b/src/trueskill/math.rs
@@ -74,6 +74,8 @@ pub fn w_draw(difference: f64, draw_margin: f64, c: f64) -> f64 {
         v,
         (draw_c - diff_c_abs).mul_add(p1, -(-draw_c - diff_c_abs) * p2) / norm,
     )
+    // The approximation of the cdf can push this slightly above its upper bound.
+    .min(1.0)
 }
 
 pub fn new_rating(
-- 
2.43.0


From b70cf34a6fa7c439eefbbad9c12d14f36aaa8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:10 +0000
Subject: [PATCH 12/15] fix: take rating differences into account in
 match_quality_multi_team for two teams

The determinant of an empty matrix was 0.0, so the inverse of a 1x1 matrix was
0.0, too, and the quality of a match of two teams did not depend on ratings.
---
 src/trueskill/matrix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 4342f3b..4acfb52 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -103,6 +103,11 @@ impl Matrix {
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
+        // The minor of a 1x1 matrix, whose inverse we need for matches of two teams.
+        if self.rows == 0 {
+            return 1.0;
+        }
+
         if self.rows == 1 {
             return self.get(0, 0);
         }
-- 
2.43.0


From 67f9c0ad4322384f68f29aec71feae3554064fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:44 +0000
Subject: [PATCH 13/15] fix: let match_quality_multi_team return for matches of
 many teams

The determinants were expanded by minors, which takes factorial time: with 15 teams the call did not return within minutes.
---
 src/trueskill/matrix.rs | 44 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 4acfb52..e082812 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -99,26 +99,46 @@ impl Matrix {
         matrix
     }
 
-    #[allow(clippy::cast_possible_truncation, clippy::cast_possible_wrap)]
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
-        // The minor of a 1x1 matrix, whose inverse we need for matches of two teams.
-        if self.rows == 0 {
-            return 1.0;
-        }
+        // Gaussian elimination with partial pivoting,
+        // expanding by minors would take factorial time in the number of teams.
+        let mut matrix = self.clone();
+        let mut det = 1.0;
 
-        if self.rows == 1 {
-            return self.get(0, 0);
-        }
+        for col in 0..self.cols {
+            let mut pivot = col;
+            for row in col + 1..self.rows {
+                if matrix.get(row, col).abs() > matrix.get(pivot, col).abs() {
+                    pivot = row;
+                }
+            }
 
-        let mut sum = 0.0;
+            if pivot != col {
+                for i in 0..self.cols {
+                    matrix.data.swap(col * self.cols + i, pivot * self.cols + i);
+                }
+                det = -det;
+            }
 
-        for i in 0..self.rows {
-            sum += self.get(0, i) * self.minor(0, i).determinant() * (-1.0_f64).powi(i as i32);
+            let pivot_value = matrix.get(col, col);
+            det *= pivot_value;
+
+            if pivot_value == 0.0 {
+                return 0.0;
+            }
+
+            for row in col + 1..self.rows {
+                let factor = matrix.get(row, col) / pivot_value;
+                for i in col..self.cols {
+                    let val = factor.mul_add(-matrix.get(col, i), matrix.get(row, i));
+                    matrix.set(row, i, val);
+                }
+            }
         }
 
-        sum
+        det
     }
 
     pub fn minor(&self, row: usize, col: usize) -> Self {
-- 
2.43.0


From 0fc4e1abdfa2e8a8ef96669878c132d47b8f8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 14/15] fix: give match_quality_multi_team a number for matches
 of very many teams

The determinants overflowed or underflowed (60 teams with a beta of 1000: NaN; small betas: panic "Matrix is not
invertible"), and the inverse by cofactors took the fifth power of the number of teams.
---
 src/trueskill/matrix.rs | 109 +++++++++++++++++++++++++++-------------
 src/trueskill/mod.rs    |   2 +-
 2 files changed, 74 insertions(+), 37 deletions(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index e082812..2c4bab5 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -100,12 +100,41 @@ impl Matrix {
     }
 
     pub fn determinant(&self) -> f64 {
+        self.pivots().into_iter().product()
+    }
+
+    /// The quotient of the determinants of this matrix and the other one of the same size.
+    /// Each of them alone can overflow or underflow in a match with many teams.
+    pub fn determinant_quotient(&self, other: &Self) -> f64 {
+        let (mut det, mut other_det) = (1.0, 1.0);
+
+        for (a, b) in self.pivots().into_iter().zip(other.pivots()) {
+            det *= a;
+            other_det *= b;
+
+            // A common power of two does not change the quotient.
+            let scale = if other_det.abs() > 2.0_f64.powi(200) {
+                2.0_f64.powi(-200)
+            } else if other_det.abs() < 2.0_f64.powi(-200) {
+                2.0_f64.powi(200)
+            } else {
+                1.0
+            };
+            det *= scale;
+            other_det *= scale;
+        }
+
+        det / other_det
+    }
+
+    // The factors of the determinant.
+    fn pivots(&self) -> Vec<f64> {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
         // Gaussian elimination with partial pivoting,
         // expanding by minors would take factorial time in the number of teams.
         let mut matrix = self.clone();
-        let mut det = 1.0;
+        let mut pivots = Vec::with_capacity(self.cols);
 
         for col in 0..self.cols {
             let mut pivot = col;
@@ -115,18 +144,19 @@ impl Matrix {
                 }
             }
 
+            let mut sign = 1.0;
             if pivot != col {
                 for i in 0..self.cols {
                     matrix.data.swap(col * self.cols + i, pivot * self.cols + i);
                 }
-                det = -det;
+                sign = -1.0;
             }
 
             let pivot_value = matrix.get(col, col);
-            det *= pivot_value;
+            pivots.push(sign * pivot_value);
 
             if pivot_value == 0.0 {
-                return 0.0;
+                break;
             }
 
             for row in col + 1..self.rows {
@@ -138,51 +168,58 @@ impl Matrix {
             }
         }
 
-        det
+        pivots
     }
 
-    pub fn minor(&self, row: usize, col: usize) -> Self {
-        let mut matrix = Self::new(self.rows - 1, self.cols - 1);
+    pub fn inverse(&self) -> Self {
+        assert_eq!(self.rows, self.cols, "Matrix must be square");
 
-        for i in 0..self.rows {
-            for j in 0..self.cols {
-                if i != row && j != col {
-                    matrix.set(
-                        if i > row { i - 1 } else { i },
-                        if j > col { j - 1 } else { j },
-                        self.get(i, j),
-                    );
+        // Gauss-Jordan elimination with partial pivoting. The determinant is of no use here,
+        // it overflows or underflows with many teams.
+        let mut matrix = self.clone();
+        let mut inverse = Self::new_diagonal(&vec![1.0; self.rows]);
+
+        for col in 0..self.cols {
+            let mut pivot = col;
+            for row in col + 1..self.rows {
+                if matrix.get(row, col).abs() > matrix.get(pivot, col).abs() {
+                    pivot = row;
                 }
             }
-        }
 
-        matrix
-    }
+            let pivot_value = matrix.get(pivot, col);
 
-    #[allow(clippy::cast_possible_truncation, clippy::cast_possible_wrap)]
-    pub fn adjugate(&self) -> Self {
-        let mut matrix = Self::new(self.rows, self.cols);
+            // Avoiding 1/0
+            assert!((pivot_value != 0.0), "Matrix is not invertible");
 
-        for i in 0..self.rows {
-            for j in 0..self.cols {
-                matrix.set(
-                    i,
-                    j,
-                    self.minor(j, i).determinant() * (-1.0_f64).powi((i + j) as i32),
-                );
+            for i in 0..self.cols {
+                matrix.data.swap(col * self.cols + i, pivot * self.cols + i);
+                inverse
+                    .data
+                    .swap(col * self.cols + i, pivot * self.cols + i);
             }
-        }
 
-        matrix
-    }
+            for i in 0..self.cols {
+                matrix.set(col, i, matrix.get(col, i) / pivot_value);
+                inverse.set(col, i, inverse.get(col, i) / pivot_value);
+            }
 
-    pub fn inverse(&self) -> Self {
-        let det = self.determinant();
+            for row in 0..self.rows {
+                if row == col {
+                    continue;
+                }
 
-        // Avoiding 1/0
-        assert!((det != 0.0), "Matrix is not invertible");
+                let factor = matrix.get(row, col);
+                for i in 0..self.cols {
+                    let val = factor.mul_add(-matrix.get(col, i), matrix.get(row, i));
+                    matrix.set(row, i, val);
+                    let val = factor.mul_add(-inverse.get(col, i), inverse.get(row, i));
+                    inverse.set(row, i, val);
+                }
+            }
+        }
 
-        self.adjugate() * det.recip()
+        inverse
     }
 }
 
diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index ec6f8d5..cfd0bc9 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1170,7 +1170,7 @@ pub fn match_quality_multi_team(
     let end = rotated_a_matrix * mean_matrix;
 
     let e_arg = (start * middle.inverse() * end * -0.5).determinant();
-    let s_arg = a_ta.determinant() / middle.determinant();
+    let s_arg = a_ta.determinant_quotient(&middle);
 
     Ok(e_arg.exp() * s_arg.sqrt())
 }
-- 
2.43.0


From 42e4c11b003edced9d81000779171e4621933e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:48 +0000
Subject: [PATCH 15/15] fix: let a win against all odds shrink the TrueSkill
 uncertainty of the favourite, too

---
 src/trueskill/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/math.rs b/src/trueskill/math.rs
index d1aa4a7..4b16aa9 100644
--- a/src/trueskill/math.rs
+++ b/src/trueskill/math.rs
@@ -20,7 +20,8 @@ pub fn w_non_draw(difference: f64, draw_margin: f64, c: f64) -> f64 {
     let norm = cdf(diff_c - draw_c, 0.0, 1.0);
 
     if norm < 2.222_758_749e-162 {
-        if diff_c < 0.0 {
+        // The favourite, too, can win against all odds, if the draw margin is large.
+        if diff_c < 0.0 || draw_c.is_finite() {
             return 1.0;
         }
         return 0.0;
-- 
2.43.0

