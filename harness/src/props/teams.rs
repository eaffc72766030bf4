//! Team play (TrueSkill and Weng-Lin): predictions, shapes, agreement of the forms, weights, match
//! quality, and TrueSkill's multi-team update against a reference model.

use super::systems::{pairs, wl_pairs};
use crate::refs;
use crate::src::sysmask::*;
use crate::src::{spec, unit, Src};
use super::cross::tame;
use crate::sys::*;
use crate::{ensure, Case, Prop};
use skillratings::trueskill::*;
use skillratings::weng_lin::*;
use skillratings::{MultiTeamOutcome, Outcomes};
use std::collections::HashSet;

pub fn gen_teams<R: Clone>(s: &mut Src, min: usize, max: usize, players: usize, f: fn(&mut Src) -> R) -> Vec<Vec<R>> {
    let huge = if s.one_in(3000) { 1 + s.below(2) } else { 0 };
    let mut n = if max > 2 { min.max(s.size(max, 3 * max)) } else { min + s.idx(max - min + 1) };
    if huge == 1 && max > 2 {
        n += s.idx(120);
    }
    let cap = if n > max { 4 } else { 20 };
    let mut v: Vec<Vec<R>> = (0..n)
        .map(|_| {
            let mut k = if n > 3 * max { 1 + s.idx(2) } else { s.size(players, cap) };
            if huge == 2 && s.one_in(3) {
                k += s.idx(150);
            }
            (0..k).map(|_| f(s)).collect()
        })
        .collect();
    s.label_if(huge > 0, "huge match");
    repeat_team(s, &mut v);
    v
}
/// Sometimes a team occurs twice.
pub fn repeat_team<R: Clone>(s: &mut Src, v: &mut [Vec<R>]) {
    if v.len() > 1 && s.one_in(10) {
        let (i, j) = (s.idx(v.len()), s.idx(v.len()));
        v[i] = v[j].clone();
    }
}
pub fn gen_ranks(s: &mut Src, n: usize, distinct: bool) -> Vec<usize> {
    let mut v = some_ranks(s, n, distinct);
    // results are often given in the order of the final table, or from its end
    match s.below(20) {
        19 => v.sort_unstable_by(|a, b| b.cmp(a)),
        17 | 18 => v.sort_unstable(),
        16 if !distinct && n > 0 => v = vec![v[0]; n],
        _ => {}
    }
    v
}
fn some_ranks(s: &mut Src, n: usize, distinct: bool) -> Vec<usize> {
    if s.one_in(12) {
        // anywhere in the range of a rank, in particular around the limits of narrower integers
        let mut v: Vec<usize> = (0..n)
            .map(|_| match s.below(3) {
                0 => s.idx(n + 1),
                1 => (1usize << s.pick(&[7, 8, 15, 16, 24, 31, 32, 52, 53, 62, 63])).wrapping_add(s.idx(n + 2)).wrapping_sub(1),
                _ => usize::MAX - s.idx(n + 1),
            })
            .collect();
        if distinct {
            v.sort_unstable();
            v.dedup();
            let mut next = 0;
            while v.len() < n {
                if !v.contains(&next) {
                    v.push(next);
                }
                next += 1;
            }
            shuffle(s, &mut v);
        }
        return v;
    }
    if distinct {
        let step = 1 + s.int(&[0, 1], 3, 1000);
        let base = s.int(&[0, 1], 5, 1_000_000);
        let mut v: Vec<usize> = (0..n).map(|i| base + i * step).collect();
        shuffle(s, &mut v);
        v
    } else {
        (0..n).map(|_| if s.one_in(6) { s.int(&[0, 1], n, usize::MAX) } else { s.idx(n + 1) }).collect()
    }
}
pub fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - s.idx(i + 1);
        v.swap(i, j);
    }
}
pub fn perm(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    shuffle(s, &mut p);
    p
}
/// Weights, at least one positive per team.
pub fn gen_weights<R>(s: &mut Src, teams: &[Vec<R>]) -> Vec<Vec<f64>> {
    // sometimes everyone played but a moment, so that the draw margin exceeds all differences, or many times over
    let all = if s.one_in(12) { s.pick(&[0.1, 0.03, 0.3, 10.0]) } else { 1.0 };
    teams
        .iter()
        .map(|t| {
            let mut w: Vec<f64> = t
                .iter()
                .map(|_| match s.below(5) {
                    0 => if s.one_in(6) { -0.0 } else { 0.0 },
                    1 => 1.0,
                    2 => s.pick(&[0.5, 0.25, 0.1, 0.75, 2.0]),
                    3 if s.one_in(8) => s.num(&spec(1.0, 0.1, 1.0, 0.001, 100.0)),
                    _ => s.num(&spec(1.0, 0.1, 1.0, 0.05, 3.0)),
                })
                .map(|x| x * all)
                .collect();
            if w.iter().all(|x| *x == 0.0) {
                let i = s.idx(w.len());
                w[i] = 1.0;
            }
            w
        })
        .collect()
}
#[derive(Clone, Copy, PartialEq)]
pub enum Place {
    /// Equal teams share their memory if their distance in the list is odd.
    Mixed,
    Own,
    Shared,
}
thread_local! {
    /// Whether equal arguments are handed over as one and the same piece of memory.
    pub static PLACE: std::cell::Cell<Place> = const { std::cell::Cell::new(Place::Mixed) };
}
pub fn slices<T: PartialEq>(v: &[Vec<T>]) -> Vec<&[T]> {
    let place = PLACE.with(std::cell::Cell::get);
    (0..v.len())
        .map(|i| {
            let first = v.iter().position(|t| *t == v[i]).unwrap_or(i);
            match place {
                Place::Shared => &v[first][..],
                Place::Mixed if (i - first) % 2 == 1 => &v[first][..],
                _ => &v[i][..],
            }
        })
        .collect()
}
pub fn ranked<'a, T: PartialEq>(t: &'a [Vec<T>], r: &[usize]) -> Vec<(&'a [T], MultiTeamOutcome)> {
    slices(t).into_iter().zip(r).map(|(t, r)| (t, MultiTeamOutcome::new(*r))).collect()
}
fn ts_ref(t: &[Vec<TrueSkillRating>], w: Option<&[Vec<f64>]>) -> Vec<Vec<(f64, f64, f64)>> {
    t.iter()
        .enumerate()
        .map(|(i, t)| t.iter().enumerate().map(|(j, p)| (p.rating, p.uncertainty, w.map_or(1.0, |w| w[i][j]))).collect())
        .collect()
}
fn reference(t: &[Vec<TrueSkillRating>], r: &[usize], c: &TrueSkillConfig, w: Option<&[Vec<f64>]>, forced: Option<usize>) -> refs::Multi {
    let k = refs::TsC { draw: c.draw_probability, beta: c.beta, tau: c.dynamics_factor };
    let v: Vec<_> = ts_ref(t, w).into_iter().zip(r.iter().copied()).collect();
    refs::trueskill_multi_with(&v, &k, 0.0001, forced)
}
/// Ratings within the tolerance, variances relative to the old ones.
pub fn ts_near(a: &TrueSkillRating, b: &TrueSkillRating, old: &TrueSkillRating, c: &TrueSkillConfig, tol: f64) -> bool {
    let s2 = old.uncertainty.powi(2) + c.dynamics_factor.powi(2);
    let scale = unit() + old.rating.abs().max(s2.sqrt());
    a.uncertainty > 0.0
        && close(a.rating, b.rating, tol, tol * scale)
        && (close(a.uncertainty, b.uncertainty, tol, 0.0) || close(a.uncertainty.powi(2), b.uncertainty.powi(2), 0.0, tol * s2))
}
fn wl_near(a: &WengLinRating, b: &WengLinRating) -> bool {
    close(a.rating, b.rating, 1e-9, 1e-8 * unit()) && close(a.uncertainty, b.uncertainty, 1e-9, 0.0)
}

// ------------------------------------------------------------------ P03
fn p03(s: &mut Src) -> Case {
    if s.arm(&[WL, TS]) == 1 {
        s.label("TrueSkill");
        let c = gen_ts_cfg(s);
        p03_s::<TrueSkillRating>(s, gen_ts, |v| skillratings::trueskill::expected_score_multi_team(v, &c), |a, b| skillratings::trueskill::expected_score_two_teams(a, b, &c), |a, b| skillratings::trueskill::expected_score(a, b, &c), |t| {
            let k = t.iter().map(|x| x.len()).sum();
            let n = t.len() as f64;
            t.iter()
                .enumerate()
                .map(|(i, x)| t.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, y)| refs::trueskill_win(&pairs(x), &pairs(y), c.beta, k)).sum::<f64>() * 2.0 / (n * (n - 1.0)))
                .collect()
        }, |r, d| TrueSkillRating { rating: r.rating + d, ..*r }, 1e-6, &format!("{c:?}"))
    } else {
        s.label("Weng-Lin");
        let c = gen_wl_cfg(s);
        p03_s::<WengLinRating>(s, gen_wl, |v| skillratings::weng_lin::expected_score_multi_team(v, &c), |a, b| skillratings::weng_lin::expected_score_two_teams(a, b, &c), |a, b| skillratings::weng_lin::expected_score(a, b, &c), |t| refs::weng_lin_expected(&t.iter().map(|x| wl_pairs(x)).collect::<Vec<_>>(), c.beta), |r, d| WengLinRating { rating: r.rating + d, ..*r }, 1e-9, &format!("{c:?}"))
    }
}
#[allow(clippy::too_many_arguments)]
fn p03_s<R: Copy + PartialEq + std::fmt::Debug>(
    s: &mut Src,
    gen: fn(&mut Src) -> R,
    multi: impl Fn(&[&[R]]) -> Vec<f64>,
    two: impl Fn(&[R], &[R]) -> (f64, f64),
    one: impl Fn(&R, &R) -> (f64, f64),
    reference: impl Fn(&[Vec<R>]) -> Vec<f64>,
    lift: impl Fn(&R, f64) -> R,
    tol: f64,
    cfg: &str,
) -> Case {
    let mut teams = gen_teams(s, 1, 9, 5, gen);
    // sometimes a team twice
    if s.one_in(5) {
        let t = teams[0].clone();
        teams.push(t);
    }
    let n = teams.len();
    s.note(|| format!("teams {teams:?}, {cfg}"));
    let e = multi(&slices(&teams));
    s.note(|| format!("predictions {e:?}"));
    ensure!(e.len() == n, "{} predictions for {n} teams", e.len());
    ensure!(e.iter().all(|x| (0.0..=1.0 + 1e-12).contains(x)), "predictions outside 0..=1: {e:?}");
    ensure!(close(e.iter().sum(), 1.0, 0.0, 1e-9), "predictions add up to {}", e.iter().sum::<f64>());
    if n == 1 {
        s.label("one team");
        return Ok(false);
    }
    // published formula
    for (i, (x, w)) in e.iter().zip(reference(&teams)).enumerate() {
        ensure!(close(*x, w, 0.0, tol), "prediction of team {i} is {x}, the published formula gives {w}");
    }
    // teams in another order, players in another order
    let p = perm(s, n);
    let mut moved: Vec<Vec<R>> = p.iter().map(|i| teams[*i].clone()).collect();
    for t in &mut moved {
        shuffle(s, t);
    }
    let f = multi(&slices(&moved));
    for (j, i) in p.iter().enumerate() {
        ensure!(close(f[j], e[*i], 0.0, tol), "prediction of team {i} is {}, {} in another order", e[*i], f[j]);
    }
    // two teams: every form agrees
    let (a, b) = two(&teams[0], &teams[1]);
    ensure!((0.0..=1.0).contains(&a) && (0.0..=1.0).contains(&b) && close(a + b, 1.0, 0.0, 1e-9), "two teams: ({a}, {b})");
    let m = multi(&slices(&teams[..2]));
    ensure!(close(a, m[0], 0.0, tol) && close(b, m[1], 0.0, tol), "two-team form ({a}, {b}), multi-team form {m:?}");
    let (x, y) = two(&teams[1], &teams[0]);
    ensure!(close(a, y, 0.0, tol) && close(b, x, 0.0, tol), "two teams ({a}, {b}), sides exchanged ({x}, {y})");
    let (p1, p2) = (teams[0][0], teams[1][0]);
    let (a, b) = one(&p1, &p2);
    let (x, y) = two(&[p1], &[p2]);
    ensure!(close(a, x, 0.0, tol) && close(b, y, 0.0, tol), "two players ({a}, {b}), as teams ({x}, {y})");
    // a better player helps the team and nobody else
    let i = s.idx(n);
    let j = s.idx(teams[i].len());
    let d = 0.05 + 10.0 * s.f01();
    let mut up = teams.clone();
    up[i][j] = lift(&up[i][j], d);
    let f = multi(&slices(&up));
    // the approximated normal distribution is off by 3e-8 at 0
    let slack = if tol > 1e-8 { 1e-7 } else { 1e-10 };
    for k in 0..n {
        if k == i {
            ensure!(f[k] >= e[k] - slack, "player {j} of team {i} better by {d}: prediction falls from {} to {}", e[k], f[k]);
            if n == 2 && e[k] > 1e-3 && e[k] < 1.0 - 1e-3 {
                ensure!(f[k] > e[k], "player {j} of team {i} better by {d}: prediction stays at {}", e[k]);
            }
        } else {
            ensure!(f[k] <= e[k] + slack, "player {j} of team {i} better by {d}: prediction of team {k} rises from {} to {}", e[k], f[k]);
        }
    }
    s.label_if(n > 2, "more than two teams");
    Ok(n > 2)
}

// ------------------------------------------------------------------ P11
fn p11(s: &mut Src) -> Case {
    if s.arm(&[WL, TS]) == 1 { p11_ts(s) } else { p11_wl(s) }
}
fn relabel(s: &mut Src, r: &[usize]) -> Vec<usize> {
    // an order-preserving change of the rank numbers
    let mut u: Vec<usize> = r.to_vec();
    u.sort_unstable();
    u.dedup();
    let mut v = Vec::new();
    let mut at = s.int(&[0, 1], 5, 1000);
    for _ in &u {
        v.push(at);
        at += 1 + s.int(&[0, 1], 3, 1000);
    }
    r.iter().map(|x| v[u.binary_search(x).unwrap()]).collect()
}
fn p11_ts(s: &mut Src) -> Case {
    let c = gen_ts_cfg(s);
    let teams = gen_teams(s, 1, 7, 4, gen_ts);
    let n = teams.len();
    let distinct = s.below(3) > 0;
    let ranks = gen_ranks(s, n, distinct);
    let c = { let mut r = ranks.clone(); r.sort_unstable(); r.dedup(); tame::<STrueSkill>(s, c, r.len() < n) };
    let weights = if s.one_in(3) { Some(gen_weights(s, &teams)) } else { None };
    s.label("TrueSkill");
    s.note(|| format!("TrueSkill {teams:?}, ranks {ranks:?}, weights {weights:?}, {c:?}"));
    let run = |t: &[Vec<TrueSkillRating>], r: &[usize], w: &Option<Vec<Vec<f64>>>| {
        let sl = w.as_ref().map(|w| slices(w));
        trueskill_multi_team(&ranked(t, r), &c, sl.as_deref()).map_err(|e| format!("error {e:?}"))
    };
    let x = run(&teams, &ranks, &weights)?;
    s.note(|| format!("result {x:?}"));
    let shape = |y: &[Vec<TrueSkillRating>], t: &[Vec<TrueSkillRating>]| y.len() == t.len() && y.iter().zip(t).all(|(a, b)| a.len() == b.len());
    ensure!(shape(&x, &teams), "{:?} players in, {:?} out", teams.iter().map(Vec::len).collect::<Vec<_>>(), x.iter().map(Vec::len).collect::<Vec<_>>());
    if n == 1 {
        return Ok(false);
    }
    let m = reference(&teams, &ranks, &c, weights.as_deref(), None);
    if m.near || m.noisy {
        s.label("ill-conditioned, rounding decides about an iteration");
        return Ok(false);
    }
    // rank numbers only matter by their order
    let r2 = relabel(s, &ranks);
    let y = run(&teams, &r2, &weights)?;
    for i in 0..n {
        for j in 0..teams[i].len() {
            ensure!(ts_near(&x[i][j], &y[i][j], &teams[i][j], &c, 1e-9), "team {i}, player {j}: {:?}, with ranks {r2:?} {:?}", x[i][j], y[i][j]);
        }
    }
    // players of a team in another order; teams in another order (ties of more than two teams are
    // rated as a chain in the given order, so only without ties)
    let tied = ranks.iter().collect::<HashSet<_>>().len() < n;
    s.label_if(tied, "ties");
    let p: Vec<usize> = if tied && n > 2 { (0..n).collect() } else { perm(s, n) };
    let inner: Vec<Vec<usize>> = p.iter().map(|i| perm(s, teams[*i].len())).collect();
    let t2: Vec<Vec<TrueSkillRating>> = p.iter().zip(&inner).map(|(i, q)| q.iter().map(|j| teams[*i][*j]).collect()).collect();
    let w2 = weights.as_ref().map(|w| p.iter().zip(&inner).map(|(i, q)| q.iter().map(|j| w[*i][*j]).collect()).collect());
    let r2: Vec<usize> = p.iter().map(|i| ranks[*i]).collect();
    s.note(|| format!("reordered {t2:?}, ranks {r2:?}"));
    let y = run(&t2, &r2, &w2)?;
    ensure!(shape(&y, &t2), "wrong number of teams or players after reordering");
    for (a, i) in p.iter().enumerate() {
        for (b, j) in inner[a].iter().enumerate() {
            ensure!(ts_near(&x[*i][*j], &y[a][b], &teams[*i][*j], &c, 1e-6), "team {i}, player {j}: {:?}, in another order {:?}", x[*i][*j], y[a][b]);
        }
    }
    Ok(n > 2)
}
fn p11_wl(s: &mut Src) -> Case {
    let c = gen_wl_cfg(s);
    let teams = gen_teams(s, 1, 9, 5, gen_wl);
    let n = teams.len();
    let distinct = s.bool();
    let ranks = gen_ranks(s, n, distinct);
    s.label("Weng-Lin");
    s.note(|| format!("Weng-Lin {teams:?}, ranks {ranks:?}, {c:?}"));
    let x = weng_lin_multi_team(&ranked(&teams, &ranks), &c);
    ensure!(x.len() == n && x.iter().zip(&teams).all(|(a, b)| a.len() == b.len()), "wrong number of teams or players");
    let p = perm(s, n);
    let inner: Vec<Vec<usize>> = p.iter().map(|i| perm(s, teams[*i].len())).collect();
    let t2: Vec<Vec<WengLinRating>> = p.iter().zip(&inner).map(|(i, q)| q.iter().map(|j| teams[*i][*j]).collect()).collect();
    let r2: Vec<usize> = p.iter().map(|i| ranks[*i]).collect();
    let r2 = relabel(s, &r2);
    s.note(|| format!("reordered {t2:?}, ranks {r2:?}"));
    let y = weng_lin_multi_team(&ranked(&t2, &r2), &c);
    ensure!(y.len() == n && y.iter().zip(&t2).all(|(a, b)| a.len() == b.len()), "wrong number of teams or players");
    for (a, i) in p.iter().enumerate() {
        for (b, j) in inner[a].iter().enumerate() {
            ensure!(wl_near(&x[*i][*j], &y[a][b]), "team {i}, player {j}: {:?}, in another order {:?}", x[*i][*j], y[a][b]);
        }
    }
    Ok(n > 2)
}

// ------------------------------------------------------------------ P12
fn p12(s: &mut Src) -> Case {
    let o = gen_outcome(s);
    let (r1, r2) = match o {
        Outcomes::WIN => (1, 2),
        Outcomes::LOSS => (2, 1),
        Outcomes::DRAW => (1, 1),
    };
    if s.arm(&[WL, TS]) == 1 {
        s.label("TrueSkill");
        let c = gen_ts_cfg(s);
        let t = gen_teams(s, 2, 2, 5, gen_ts);
        let c = tame::<STrueSkill>(s, c, o == Outcomes::DRAW);
        let still = TrueSkillConfig { dynamics_factor: 0.0, ..c };
        s.note(|| format!("TrueSkill {t:?}, {o:?}, {c:?}"));
        let two = trueskill_two_teams(&t[0], &t[1], &o, &still);
        let two = [two.0, two.1];
        let m = trueskill_multi_team(&ranked(&t, &[r1, r2]), &still, None).map_err(|e| format!("{e:?}"))?;
        ensure!(m.len() == 2, "{} teams", m.len());
        for i in 0..2 {
            ensure!(two[i].len() == t[i].len() && m[i].len() == t[i].len(), "team sizes differ");
            for j in 0..t[i].len() {
                ensure!(ts_near(&two[i][j], &m[i][j], &t[i][j], &still, 1e-5), "team {i}, player {j}: two-team form {:?}, multi-team form {:?}", two[i][j], m[i][j]);
            }
        }
        let (a, b) = (t[0][0], t[1][0]);
        let x = trueskill(&a, &b, &o, &c);
        let y = trueskill_two_teams(&[a], &[b], &o, &c);
        ensure!(y.0.len() == 1 && y.1.len() == 1, "teams of one became {y:?}");
        let tol = if o == Outcomes::DRAW { 1e-7 } else { 1e-9 };
        ensure!(ts_near(&x.0, &y.0[0], &a, &c, tol) && ts_near(&x.1, &y.1[0], &b, &c, tol), "head to head {x:?}, as teams of one {y:?}");
        s.label_if(o == Outcomes::DRAW, "draw");
        Ok(t[0].len() + t[1].len() > 2)
    } else {
        s.label("Weng-Lin");
        let c = gen_wl_cfg(s);
        let t = gen_teams(s, 2, 2, 5, gen_wl);
        s.note(|| format!("Weng-Lin {t:?}, {o:?}, {c:?}"));
        let two = weng_lin_two_teams(&t[0], &t[1], &o, &c);
        let two = [two.0, two.1];
        let m = weng_lin_multi_team(&ranked(&t, &[r1, r2]), &c);
        ensure!(m.len() == 2, "{} teams", m.len());
        for i in 0..2 {
            ensure!(two[i].len() == t[i].len() && m[i].len() == t[i].len(), "team sizes differ");
            for j in 0..t[i].len() {
                ensure!(wl_near(&two[i][j], &m[i][j]), "team {i}, player {j}: two-team form {:?}, multi-team form {:?}", two[i][j], m[i][j]);
            }
        }
        let (a, b) = (t[0][0], t[1][0]);
        let x = weng_lin(&a, &b, &o, &c);
        let y = weng_lin_two_teams(&[a], &[b], &o, &c);
        ensure!(y.0.len() == 1 && y.1.len() == 1, "teams of one became {y:?}");
        ensure!(wl_near(&x.0, &y.0[0]) && wl_near(&x.1, &y.1[0]), "head to head {x:?}, as teams of one {y:?}");
        s.label_if(o == Outcomes::DRAW, "draw");
        Ok(t[0].len() + t[1].len() > 2)
    }
}

// ------------------------------------------------------------------ P13
fn p13(s: &mut Src) -> Case {
    let c = gen_ts_cfg(s);
    let teams = gen_teams(s, 1, 6, 5, gen_ts);
    let n = teams.len();
    let ranks = { let d = s.bool(); gen_ranks(s, n, d) };
    let weights = gen_weights(s, &teams);
    s.note(|| format!("{teams:?}, ranks {ranks:?}, {c:?}"));
    let run = |w: Option<&[Vec<f64>]>| {
        let sl = w.map(|w| slices(w));
        trueskill_multi_team(&ranked(&teams, &ranks), &c, sl.as_deref())
    };
    let quality = |w: Option<&[Vec<f64>]>| {
        let sl = w.map(|w| slices(w));
        match_quality_multi_team(&slices(&teams), &c, sl.as_deref())
    };
    match s.below(3) {
        0 => {
            // no weights: everybody fully took part
            s.label("default weights");
            let ones: Vec<Vec<f64>> = teams.iter().map(|t| vec![1.0; t.len()]).collect();
            let (x, y) = (run(None), run(Some(&ones)));
            let (Ok(x), Ok(y)) = (&x, &y) else { return Err(format!("{x:?} {y:?}")) };
            ensure!(x.len() == n && y.len() == n, "wrong number of teams");
            for i in 0..n {
                ensure!(x[i].len() == teams[i].len() && y[i].len() == teams[i].len(), "wrong number of players");
                for j in 0..teams[i].len() {
                    ensure!(ts_near(&x[i][j], &y[i][j], &teams[i][j], &c, 1e-9), "team {i}, player {j}: without weights {:?}, with 1.0 {:?}", x[i][j], y[i][j]);
                }
            }
            let (p, q) = (quality(None), quality(Some(&ones)));
            ensure!(matches!((&p, &q), (Ok(a), Ok(b)) if close(*a, *b, 1e-9, 1e-12)), "match quality without weights {p:?}, with 1.0 {q:?}");
            Ok(n > 1)
        }
        1 => {
            // the first invalid entry is reported, by both functions
            let mut bad = weights.clone();
            for _ in 0..1 + s.idx(2) {
                let i = s.idx(bad.len().max(1)).min(bad.len().saturating_sub(1));
                match s.below(5) {
                    0 => {
                        bad.pop();
                    }
                    1 => bad.push(vec![1.0; s.idx(3)]),
                    2 if !bad.is_empty() => {
                        bad[i].pop();
                    }
                    3 if !bad.is_empty() => bad[i].push(0.5),
                    _ => {
                        if !bad.is_empty() && !bad[i].is_empty() {
                            let j = s.idx(bad[i].len());
                            bad[i][j] = s.pick(&[-1.0, -0.5, -1e-300, -f64::EPSILON, f64::NEG_INFINITY, -1e9]);
                        }
                    }
                }
            }
            s.note(|| format!("weights {bad:?}"));
            let mut want: Option<WeightError> = None;
            if bad.len() != n {
                want = Some(WeightError::TeamAmount);
            } else {
                'l: for (i, w) in bad.iter().enumerate() {
                    if w.len() != teams[i].len() {
                        want = Some(WeightError::PlayerAmount { team: i });
                        break;
                    }
                    for (j, x) in w.iter().enumerate() {
                        if *x < 0.0 {
                            want = Some(WeightError::Weight { team: i, player: j });
                            break 'l;
                        }
                    }
                }
            }
            let (a, b) = (run(Some(&bad)).err(), quality(Some(&bad)).err());
            ensure!(a == want, "rating gives {a:?}, expected {want:?}");
            ensure!(b == want, "match quality gives {b:?}, expected {want:?}");
            if let Some(e) = a {
                // the message names the same team and player
                let msg = e.to_string().to_lowercase();
                let after = |word: &str| {
                    msg.split(|c: char| !c.is_alphanumeric()).skip_while(|w| *w != word).nth(1).and_then(|w| w.parse::<usize>().ok())
                };
                let (team, player) = match e {
                    WeightError::TeamAmount => (None, None),
                    WeightError::PlayerAmount { team } => (Some(team), None),
                    WeightError::Weight { team, player } => (Some(team), Some(player)),
                };
                ensure!(after("team") == team && after("player") == player, "{e:?} reads {msg:?}");
                ensure!(msg.contains("team"), "{e:?} reads {msg:?}");
            }
            s.label(match want {
                None => "valid weights",
                Some(WeightError::TeamAmount) => "team amount",
                Some(WeightError::PlayerAmount { .. }) => "player amount",
                Some(WeightError::Weight { .. }) => "negative weight",
            });
            Ok(want.is_some())
        }
        _ => {
            // within a team, the new rating moves by the player's weight times variance
            s.label("weighted update");
            s.note(|| format!("weights {weights:?}"));
            let x = run(Some(&weights)).map_err(|e| format!("{e:?}"))?;
            s.note(|| format!("result {x:?}"));
            ensure!(x.len() == n, "wrong number of teams");
            if n == 1 {
                return Ok(false);
            }
            let mut compared = false;
            for i in 0..n {
                ensure!(x[i].len() == teams[i].len(), "team {i}: wrong number of players");
                let mut first: Option<(f64, f64, f64, f64)> = None;
                for j in 0..teams[i].len() {
                    let (o, w, y) = (&teams[i][j], weights[i][j], &x[i][j]);
                    let s2 = o.uncertainty.powi(2) + c.dynamics_factor.powi(2);
                    if w == 0.0 {
                        s.label("weight 0");
                        ensure!(
                            close(y.rating, o.rating, 1e-9, 1e-9) && close(y.uncertainty, s2.sqrt(), 1e-9, 0.0),
                            "team {i}, player {j} did not take part, {o:?} became {y:?}"
                        );
                        continue;
                    }
                    ensure!(y.rating.is_finite() && y.uncertainty > 0.0, "team {i}, player {j}: {y:?}");
                    ensure!(y.uncertainty <= s2.sqrt() * (1.0 + 1e-7), "team {i}, player {j}: uncertainty {} from {}", y.uncertainty, s2.sqrt());
                    let k = (y.rating - o.rating) / (w * s2);
                    let ke = 1e-8 * (1.0 + o.rating.abs()) / (w * s2);
                    let l = (s2 - y.uncertainty.powi(2)) / (w * s2).powi(2);
                    let le = 1e-8 * s2 / (w * s2).powi(2);
                    if let Some((k0, ke0, l0, le0)) = first {
                        compared = true;
                        ensure!((k - k0).abs() <= 1e-6 * k.abs().max(k0.abs()) + ke + ke0, "team {i}, player {j}: the rating moves {k} per weight and variance, a team mate's {k0}");
                        ensure!((l - l0).abs() <= 1e-6 * l.abs().max(l0.abs()) + le + le0, "team {i}, player {j}: the variance shrinks {l} per squared weight and variance, a team mate's {l0}");
                    } else {
                        first = Some((k, ke, l, le));
                    }
                }
            }
            Ok(compared)
        }
    }
}
fn zero_weight_team() -> bool {
    let p = [TrueSkillRating::new()];
    let r = trueskill_multi_team(&[(&p[..], MultiTeamOutcome::new(1)), (&p[..], MultiTeamOutcome::new(2))], &TrueSkillConfig::new(), Some(&[&[0.0], &[1.0]]));
    !r.is_ok_and(|v| v.iter().flatten().all(|x| x.rating.is_finite() && x.uncertainty.is_finite()))
}

// ------------------------------------------------------------------ P14
fn p14(s: &mut Src) -> Case {
    let c = gen_ts_cfg(s);
    let teams = gen_teams(s, 1, 6, 4, gen_ts);
    let n = teams.len();
    let weights = if s.bool() { Some(gen_weights(s, &teams)) } else { None };
    s.note(|| format!("{teams:?}, weights {weights:?}, {c:?}"));
    let multi = |t: &[Vec<TrueSkillRating>], w: &Option<Vec<Vec<f64>>>| {
        let sl = w.as_ref().map(|w| slices(w));
        match_quality_multi_team(&slices(t), &c, sl.as_deref()).map_err(|e| format!("error {e:?}"))
    };
    let q = multi(&teams, &weights)?;
    s.note(|| format!("quality {q:?}"));
    ensure!((0.0..=1.0 + 1e-9).contains(&q), "match quality {q}");
    if n < 2 {
        return Ok(false);
    }
    let want = refs::quality(&ts_ref(&teams, weights.as_deref()), c.beta);
    ensure!(close(q, want, 1e-5, 1e-9), "match quality {q}, the published formula gives {want}");
    let p = perm(s, n);
    let inner: Vec<Vec<usize>> = p.iter().map(|i| perm(s, teams[*i].len())).collect();
    let t2: Vec<Vec<TrueSkillRating>> = p.iter().zip(&inner).map(|(i, q)| q.iter().map(|j| teams[*i][*j]).collect()).collect();
    let w2 = weights.as_ref().map(|w| p.iter().zip(&inner).map(|(i, q)| q.iter().map(|j| w[*i][*j]).collect()).collect());
    let r = multi(&t2, &w2)?;
    ensure!(close(q, r, 1e-5, 1e-9), "match quality {q}, in another order {r}");
    // the forms agree
    let (a, b) = (&teams[0], &teams[1]);
    let two = match_quality_two_teams(a, b, &c);
    ensure!((0.0..=1.0 + 1e-12).contains(&two), "match quality of two teams {two}");
    let back = match_quality_two_teams(b, a, &c);
    ensure!(close(two, back, 1e-9, 1e-12), "match quality of two teams {two}, sides exchanged {back}");
    let m = multi(&teams[..2], &None)?;
    ensure!(close(two, m, 1e-6, 1e-9), "match quality of two teams {two}, as a multi-team match {m}");
    let one = match_quality(&a[0], &b[0], &c);
    let as_teams = match_quality_two_teams(&a[..1], &b[..1], &c);
    ensure!(close(one, as_teams, 1e-9, 1e-12), "match quality of two players {one}, as teams {as_teams}");
    let back = match_quality(&b[0], &a[0], &c);
    ensure!(close(one, back, 1e-9, 1e-12), "match quality of two players {one}, sides exchanged {back}");
    let want = refs::quality(&ts_ref(&[vec![a[0]], vec![b[0]]], None), c.beta);
    ensure!(close(one, want, 1e-7, 1e-12), "match quality of two players {one}, the published formula gives {want}");
    let v = match_quality_rating_period(&a[0], b, &c);
    ensure!(v.len() == b.len(), "{} values for {} opponents", v.len(), b.len());
    for (x, o) in v.iter().zip(b) {
        ensure!(close(*x, match_quality(&a[0], o, &c), 1e-12, 1e-15), "rating-period form {x} against {o:?}");
    }
    // a closer match is a better one
    let d = 0.1 + 5.0 * s.f01();
    let far = TrueSkillRating { rating: a[0].rating + if a[0].rating >= b[0].rating { d } else { -d }, ..a[0] };
    let f = match_quality(&far, &b[0], &c);
    ensure!(f <= one + 1e-12, "match quality rises from {one} to {f} when the players are {d} further apart");
    s.label_if(n > 2, "more than two teams");
    s.label_if(weights.is_some(), "weights");
    Ok(q > 1e-9 && q < 1.0)
}
fn quality_zero_weight_teams() -> bool {
    let p = [TrueSkillRating::new()];
    let r = match_quality_multi_team(&[&p[..], &p[..]], &TrueSkillConfig::new(), Some(&[&[0.0], &[0.0]]));
    !r.is_ok_and(|q| (0.0..=1.0).contains(&q))
}

// ------------------------------------------------------------------ P32
fn p32(s: &mut Src) -> Case {
    let c = gen_ts_cfg(s);
    let teams = gen_teams(s, 2, 8, 5, gen_ts);
    let n = teams.len();
    let ranks = { let d = s.bool(); gen_ranks(s, n, d) };
    let c = { let mut r = ranks.clone(); r.sort_unstable(); r.dedup(); tame::<STrueSkill>(s, c, r.len() < n) };
    let weights = if s.one_in(3) { Some(gen_weights(s, &teams)) } else { None };
    s.note(|| format!("{teams:?}, ranks {ranks:?}, weights {weights:?}, {c:?}"));
    let sl = weights.as_ref().map(|w| slices(w));
    let x = trueskill_multi_team(&ranked(&teams, &ranks), &c, sl.as_deref()).map_err(|e| format!("error {e:?}"))?;
    s.note(|| format!("result {x:?}"));
    ensure!(x.len() == n, "wrong number of teams");
    let m = reference(&teams, &ranks, &c, weights.as_deref(), None);
    s.label(match m.sweeps { 1 => "1 sweep", 2 => "2 sweeps", 3..=5 => "3-5 sweeps", 6..=9 => "6-9 sweeps", _ => "10 sweeps" });
    for i in 0..n {
        ensure!(x[i].len() == teams[i].len(), "team {i}: wrong number of players");
    }
    if m.noisy {
        s.label("ill-conditioned, rounding decides about the result");
        return Ok(false);
    }
    let matches = |want: &[Vec<(f64, f64)>]| -> Result<(), String> {
        for i in 0..n {
            for j in 0..teams[i].len() {
                let w = TrueSkillRating { rating: want[i][j].0, uncertainty: want[i][j].1 };
                ensure!(
                    ts_near(&x[i][j], &w, &teams[i][j], &c, 1e-6),
                    "team {i}, player {j}: {:?} became {:?}, the published algorithm gives {w:?}",
                    teams[i][j],
                    x[i][j]
                );
            }
        }
        Ok(())
    };
    let mut r = matches(&m.out);
    if m.near {
        s.label("rounding decides about another iteration");
        for k in 1..=10 {
            if r.is_ok() {
                break;
            }
            let f = reference(&teams, &ranks, &c, weights.as_deref(), Some(k));
            if f.noisy || matches(&f.out).is_ok() {
                r = Ok(());
            }
        }
    }
    r?;
    s.label_if(weights.is_some(), "weights");
    s.label_if(ranks.iter().collect::<HashSet<_>>().len() < n, "ties");
    Ok(n > 2)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P03",
            rule: "1-10 teams of 1-5 players (TrueSkill or Weng-Lin), a config: the predictions are checked for range, sum, the published formula, reordering of teams and players, agreement of the one-, two- and multi-team forms, and the effect of a better player. Non-trivial: more than two teams.",
            run: p03,
            quick: 4_000_000,
            assumptions: &["TrueSkill's normal distribution is accurate to 1e-6"],
            known: &[],
        },
        Prop {
            id: "P11",
            rule: "1-9 teams of 1-5 players with any ranks (TrueSkill also with weights): shape of the result, order-preserving renumbering of the ranks, reordering of teams and of players. Non-trivial: more than two teams.",
            run: p11,
            quick: 1_000_000,
            assumptions: &["TrueSkill teams with equal ranks are rated as a chain in the given order: no reordering of more than two teams with ties", "ill-conditioned matches, where rounding decides about one more iteration, are not compared"],
            known: &[],
        },
        Prop {
            id: "P12",
            rule: "Two teams of 1-5 players: two-team form against multi-team form, teams of one against head-to-head form. Non-trivial: more than two players.",
            run: p12,
            quick: 5_000_000,
            assumptions: &["TrueSkill two-team and multi-team forms are compared with dynamics factor 0: the two-team formula leaves it out of the total variance"],
            known: &[],
        },
        Prop {
            id: "P13",
            rule: "1-6 teams of 1-5 players: no weights against weights of 1.0; invalid weights (wrong team count, player count, negative) with the exact error expected of rating and match quality; valid weights, with the players of a team moving in proportion to weight times variance. Non-trivial: at least two teams / an error / two compared team mates.",
            run: p13,
            quick: 1_000_000,
            assumptions: &["each team has a player with positive weight (known finding zero-weight-team)", "weights are not NaN"],
            known: &[("zero-weight-team", zero_weight_team)],
        },
        Prop {
            id: "P14",
            rule: "1-6 teams of 1-4 players, optional weights: range, published formula, reordering, agreement of all forms, effect of a larger rating gap. Non-trivial: quality between 1e-9 and 1.",
            run: p14,
            quick: 800_000,
            assumptions: &["each team has a player with positive weight (known finding quality-zero-weight-teams)"],
            known: &[("quality-zero-weight-teams", quality_zero_weight_teams)],
        },
        Prop {
            id: "P32",
            rule: "2-8 teams of 1-5 players with any ranks, optional weights, any config, against a reference implementation of the published message passing with the documented limits. Non-trivial: more than two teams, and rounding does not decide about one more iteration.",
            run: p32,
            quick: 800_000,
            assumptions: &["each team has a player with positive weight"],
            known: &[],
        },
    ]
}
