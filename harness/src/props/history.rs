//! Properties of long histories, of uncertainty, of conservation and invariance, of special cases
//! where two systems coincide, and of degenerate inputs.

use super::cross::{agree, scale, setup, tame};
use super::teams::{gen_ranks, ranked, slices};
use crate::src::sysmask::*;
use crate::src::{spec, unit, Spec, Src};
use crate::sys::*;
use crate::{ensure, for_system, Case, Prop};
use skillratings::dwz::{get_first_dwz, DWZRating, GetFirstDWZError};
use skillratings::elo::EloRating;
use skillratings::fifa::{FifaConfig, FifaRating};
use skillratings::glicko::{GlickoConfig, GlickoRating};
use skillratings::glicko2::{Glicko2Config, Glicko2Rating};
use skillratings::glicko_boost::{GlickoBoostConfig, GlickoBoostRating};
use skillratings::sticko::{StickoConfig, StickoRating};
use skillratings::trueskill::*;
use skillratings::uscf::USCFRating;
use skillratings::weng_lin::*;
use skillratings::Outcomes;
use skillratings::Outcomes::{DRAW, LOSS, WIN};
use std::any::Any;

// ------------------------------------------------------------------ P06
fn p06(s: &mut Src) -> Case {
    match s.arm(&[ALL, ALL, ALL, ALL, ALL, ALL, TS | WL, TS | WL]) {
        0..=5 => for_system!(s, p06_s),
        _ => p06_teams(s),
    }
}
/// What every reachable rating must satisfy; `before` is the same player's previous state.
fn sane<S: Sys>(now: &S::R, before: Option<(&S::R, usize)>) -> Result<(), String> {
    let f = S::fields(now);
    ensure!(f.iter().all(|x| x.is_finite()), "{}: not finite: {now:?}", S::NAME);
    if let Some(u) = S::unc(now) {
        ensure!(u > 0.0, "{}: uncertainty {u} of {now:?}", S::NAME);
        if matches!(S::NAME, "Glicko" | "Glicko-Boost" | "Sticko") {
            ensure!(u <= 350.0 + 1e-9, "{}: deviation {u} above the maximum of 350", S::NAME);
        }
    }
    match S::NAME {
        "EGF" => ensure!(f[0] >= -900.0 && f[0] < 3300.0, "EGF: rating {} outside -900..3300", f[0]),
        "USCF" => ensure!(f[0] >= 100.0, "USCF: rating {} below 100", f[0]),
        "Glicko-2" => ensure!(f[2] > 0.0, "Glicko-2: volatility {}", f[2]),
        _ => {}
    }
    if let Some((b, games)) = before {
        let g = S::fields(b);
        match S::NAME {
            "USCF" => ensure!(f[1] == g[1] + games as f64, "USCF: {} games after {} and {games} more", f[1], g[1]),
            "DWZ" => ensure!(f[1] == g[1] + 1.0 && f[2] == g[2], "DWZ: {b:?} becomes {now:?}"),
            "Ingo" => ensure!(f[1] == g[1], "Ingo: age {} becomes {}", g[1], f[1]),
            _ => {}
        }
    }
    Ok(())
}
/// Start of a career: typical values, mostly the defaults.
fn start<S: Sys>(s: &mut Src) -> S::R {
    let mut r = S::gen_r(s);
    // within the caps and floors of the system
    let any: &mut dyn Any = &mut r;
    if let Some(x) = any.downcast_mut::<GlickoRating>() {
        x.deviation = x.deviation.min(350.0);
    } else if let Some(x) = any.downcast_mut::<GlickoBoostRating>() {
        x.deviation = x.deviation.min(350.0);
    } else if let Some(x) = any.downcast_mut::<StickoRating>() {
        x.deviation = x.deviation.min(350.0);
    } else if let Some(x) = any.downcast_mut::<Glicko2Rating>() {
        x.deviation = x.deviation.min(350.0);
    }
    r
}
fn career_config<S: Sys>(s: &mut Src) -> S::C {
    let mut c = S::gen_c(s);
    let any: &mut dyn Any = &mut c;
    if let Some(x) = any.downcast_mut::<WengLinConfig>() {
        x.uncertainty_tolerance = x.uncertainty_tolerance.max(1e-9);
    } else if let Some(x) = any.downcast_mut::<GlickoBoostConfig>() {
        x.alpha = GlickoBoostConfig::new().alpha;
    } else if let Some(x) = any.downcast_mut::<StickoConfig>() {
        // the pull towards the opponents is a percentage
        x.lambda = x.lambda.min(50.0);
    }
    c
}
fn p06_s<S: Sys>(s: &mut Src) -> Case {
    s.label(S::NAME);
    let n = 2 + s.idx(3);
    let c0 = career_config::<S>(s);
    let mut ps: Vec<S::R> = (0..n).map(|_| start::<S>(s)).collect();
    s.note(|| format!("{}: players {ps:?}, config {c0:?}", S::NAME));
    let steps = 1 + s.len(80);
    // sometimes one player beats everybody, all the time
    let steady = s.below(4);
    let mut played = 0;
    for step in 0..steps {
        let i = s.idx(n);
        let j = (i + 1 + s.idx(n - 1)) % n;
        let o = match steady {
            0 => if i == 0 { WIN } else { LOSS },
            1 => if i < j { WIN } else { LOSS },
            _ => gen_outcome(s),
        };
        match s.below(6) {
            0..=3 => {
                let c = S::fit(&ps[i], &ps[j], c0);
                let (a, b) = S::rate(&ps[i], &ps[j], o, &c);
                s.note(|| format!("step {step}: {i} plays {j}, {o:?}: {a:?} {b:?}"));
                sane::<S>(&a, Some((&ps[i], 1))).map_err(|e| format!("step {step}: {e}"))?;
                sane::<S>(&b, Some((&ps[j], 1))).map_err(|e| format!("step {step}: {e}"))?;
                ps[i] = a;
                ps[j] = b;
                played += 1;
            }
            4 => {
                let m = if S::NAME != "EGF" && s.one_in(600) { s.idx(700) } else { s.idx(7) };
                let mut c = c0;
                let games: Vec<(S::R, Outcomes)> = (0..m)
                    .map(|k| {
                        let q = (i + 1 + k) % n;
                        (ps[q], if steady < 2 { o } else { gen_outcome(s) })
                    })
                    .collect();
                for g in &games {
                    c = S::fit(&ps[i], &g.0, c);
                }
                let a = S::period(&ps[i], &games, &c);
                s.note(|| format!("step {step}: period of {i} with {m} games {:?}: {a:?}", games.iter().map(|g| g.1).collect::<Vec<_>>()));
                let before = if S::NAME == "Ingo" || m > 0 || S::NAME != "DWZ" { Some((&ps[i], m)) } else { None };
                sane::<S>(&a, before).map_err(|e| format!("step {step}: {e}"))?;
                ps[i] = a;
                played += m;
            }
            _ => {
                // predictions and other read-only questions stay meaningful
                let c = S::fit(&ps[i], &ps[j], c0);
                let (x, y) = S::exp(&ps[i], &ps[j], &c);
                ensure!((0.0..=1.0).contains(&x) && (0.0..=1.0).contains(&y), "step {step}: expected scores ({x}, {y}) of {:?} {:?}", ps[i], ps[j]);
                if let Some(d) = decayed::<S>(&ps[i], &c0) {
                    s.note(|| format!("step {step}: {i} pauses: {d:?}"));
                    sane::<S>(&d, None).map_err(|e| format!("step {step}: {e}"))?;
                    ps[i] = d;
                }
            }
        }
    }
    Ok(played >= 5)
}
/// The player after an inactive rating period, for systems which have such a function.
fn decayed<S: Sys>(p: &S::R, c: &S::C) -> Option<S::R> {
    let (p, c): (&dyn Any, &dyn Any) = (p, c);
    let r: Box<dyn Any> = match S::NAME {
        "Glicko" => Box::new(skillratings::glicko::decay_deviation(p.downcast_ref()?, c.downcast_ref()?)),
        "Glicko-2" => Box::new(skillratings::glicko2::decay_deviation(p.downcast_ref()?)),
        "Glicko-Boost" => Box::new(skillratings::glicko_boost::decay_deviation(p.downcast_ref()?, c.downcast_ref()?)),
        "Sticko" => Box::new(skillratings::sticko::decay_deviation(p.downcast_ref()?, c.downcast_ref()?)),
        _ => return None,
    };
    r.downcast_ref::<S::R>().copied()
}
fn p06_teams(s: &mut Src) -> Case {
    let n = 2 + s.size(5, 16);
    let steps = 1 + s.len(25);
    macro_rules! go {
        ($S:ident, $cfg:expr, $gen:ident, $two:ident, $multi:expr) => {{
            s.label($S::NAME);
            s.label("team history");
            let c = $cfg;
            let mut ps: Vec<_> = (0..n).map(|_| $gen(s)).collect();
            s.note(|| format!("{}: players {ps:?}, config {c:?}", $S::NAME));
            for step in 0..steps {
                // a random line-up: the players in random order, cut into teams
                let mut order: Vec<usize> = (0..n).collect();
                super::teams::shuffle(s, &mut order);
                let mut lineup: Vec<Vec<usize>> = vec![vec![order[0]]];
                for x in &order[1..] {
                    if s.bool() {
                        lineup.push(vec![*x]);
                    } else {
                        lineup.last_mut().unwrap().push(*x);
                    }
                }
                let teams: Vec<Vec<_>> = lineup.iter().map(|t| t.iter().map(|i| ps[*i]).collect()).collect();
                let new = if lineup.len() == 2 && s.bool() {
                    let o = gen_outcome(s);
                    s.note(|| format!("step {step}: {lineup:?} {o:?}"));
                    let (a, b) = $two(&teams[0], &teams[1], &o, &c);
                    vec![a, b]
                } else {
                    let r = gen_ranks(s, lineup.len(), false);
                    s.note(|| format!("step {step}: {lineup:?} ranks {r:?}"));
                    let v = ranked(&teams, &r);
                    $multi(&v, &c)
                };
                s.note(|| format!("  -> {new:?}"));
                ensure!(new.len() == lineup.len(), "step {step}: {} teams became {}", lineup.len(), new.len());
                for (l, t) in lineup.iter().zip(&new) {
                    ensure!(l.len() == t.len(), "step {step}: a team of {} became one of {}", l.len(), t.len());
                    for (i, p) in l.iter().zip(t) {
                        sane::<$S>(p, None).map_err(|e| format!("step {step}: {e}"))?;
                        ps[*i] = *p;
                    }
                }
            }
        }};
    }
    if s.arm(&[WL, TS]) == 1 {
        go!(STrueSkill, gen_ts_cfg(s), gen_ts, trueskill_two_teams, |v: &[(&[TrueSkillRating], skillratings::MultiTeamOutcome)], c: &TrueSkillConfig| {
            trueskill_multi_team(v, c, None).unwrap_or_default()
        });
    } else {
        go!(SWengLin, career_config::<SWengLin>(s), gen_wl, weng_lin_two_teams, weng_lin_multi_team);
    }
    Ok(steps >= 3)
}

// ------------------------------------------------------------------ P15
fn p15(s: &mut Src) -> Case {
    match s.arm(&[GLICKO, GLICKO, STICKO, STICKO, GLICKO2, GLICKO2, BOOST, BOOST, TS | WL]) {
        0 | 1 => p15_g::<SGlicko>(s),
        2 | 3 => p15_g::<SSticko>(s),
        4 | 5 => p15_g::<SGlicko2>(s),
        6 | 7 => p15_g::<SBoost>(s),
        _ => p15_ts(s),
    }
}
fn with_dev<S: Sys>(r: &S::R, d: f64) -> S::R {
    let mut r = *r;
    let any: &mut dyn Any = &mut r;
    if let Some(x) = any.downcast_mut::<GlickoRating>() {
        x.deviation = d;
    } else if let Some(x) = any.downcast_mut::<GlickoBoostRating>() {
        x.deviation = d;
    } else if let Some(x) = any.downcast_mut::<StickoRating>() {
        x.deviation = d;
    } else if let Some(x) = any.downcast_mut::<Glicko2Rating>() {
        x.deviation = d;
    } else if let Some(x) = any.downcast_mut::<TrueSkillRating>() {
        x.uncertainty = d;
    } else if let Some(x) = any.downcast_mut::<WengLinRating>() {
        x.uncertainty = d;
    }
    r
}
fn interval<S: Sys>(p: &S::R) -> Option<(f64, f64)> {
    let p: &dyn Any = p;
    Some(match S::NAME {
        "Glicko" => skillratings::glicko::confidence_interval(p.downcast_ref()?),
        "Glicko-2" => skillratings::glicko2::confidence_interval(p.downcast_ref()?),
        "Glicko-Boost" => skillratings::glicko_boost::confidence_interval(p.downcast_ref()?),
        "Sticko" => skillratings::sticko::confidence_interval(p.downcast_ref()?),
        _ => return None,
    })
}
/// Variance which one inactive period adds, from the published formula.
fn drift<S: Sys>(p: &S::R, c: &S::C) -> f64 {
    let c: &dyn Any = c;
    let f = S::fields(p);
    if let Some(k) = c.downcast_ref::<GlickoConfig>() {
        k.c * k.c
    } else if let Some(k) = c.downcast_ref::<StickoConfig>() {
        k.c * k.c
    } else if let Some(k) = c.downcast_ref::<GlickoBoostConfig>() {
        let x = f[0] / 1000.0;
        (k.alpha.0 + k.alpha.1 * f[1] + k.alpha.2 * f[1] * x + k.alpha.3 * x + k.alpha.4 * x * x).exp()
    } else {
        (f[2] * 173.7178).powi(2)
    }
}
fn p15_g<S: Sys>(s: &mut Src) -> Case {
    let (a, b, c) = setup::<S>(s);
    let (r, d) = (S::rating(&a), S::fields(&a)[1]);
    // confidence interval
    let (lo, hi) = interval::<S>(&a).unwrap();
    ensure!(close(lo, r - 1.96 * d, 1e-10, 1e-9) && close(hi, r + 1.96 * d, 1e-10, 1e-9), "confidence interval ({lo}, {hi}) of {a:?}");
    // one inactive period
    let x = decayed::<S>(&a, &c).unwrap();
    s.note(|| format!("after a pause {x:?}"));
    let dx = S::fields(&x)[1];
    let want = (d * d + drift::<S>(&a, &c)).sqrt().min(350.0);
    ensure!(close(dx, want, 1e-9, 1e-9), "deviation {d} becomes {dx} after a pause, expected {want}");
    ensure!(S::fields(&x).len() == S::fields(&a).len() && S::fields(&x)[2..] == S::fields(&a)[2..] && S::rating(&x) == r, "a pause takes {a:?} to {x:?}");
    let e = S::period(&a, &[], &c);
    ensure!(same::<S>(&e, &x, 1e-12, 0.0), "a period without games takes {a:?} to {e:?}, a pause to {x:?}");
    // further pauses: never more certain, never above the maximum
    let k = s.idx(30);
    let mut y = x;
    for i in 0..k {
        let z = decayed::<S>(&y, &c).unwrap();
        let (u, v) = (S::fields(&y)[1], S::fields(&z)[1]);
        ensure!(v >= u - 1e-9 && v <= 350.0 + 1e-9 && S::rating(&z) == r, "pause {i} takes {y:?} to {z:?}");
        y = z;
    }
    // someone less certain stays so
    if S::NAME != "Glicko-Boost" {
        let a2 = with_dev::<S>(&a, d + s.num(&spec(10.0, 0.0, 100.0, 0.0, 300.0)));
        let x2 = decayed::<S>(&a2, &c).unwrap();
        ensure!(S::fields(&x2)[1] >= dx - 1e-9, "{a2:?} becomes {x2:?}, {a:?} becomes {x:?}");
    }
    // games reduce the uncertainty the player enters the period with
    let n = 1 + s.len(20);
    let games: Vec<(S::R, Outcomes)> = (0..n).map(|i| (if i == 0 { b } else { S::gen_r(s) }, gen_outcome(s))).collect();
    let mut other = games.clone();
    for g in &mut other {
        g.1 = gen_outcome(s);
    }
    s.note(|| format!("games {games:?}"));
    let p = S::period(&a, &games, &c);
    let dp = S::fields(&p)[1];
    ensure!(dp > 0.0, "deviation {dp} after {n} games");
    let more: Vec<_> = games.iter().copied().chain([(S::gen_r(s), gen_outcome(s))]).collect();
    match S::NAME {
        "Glicko" => {
            ensure!(dp <= dx + 1e-9, "{n} games take the deviation from {dx} to {dp}");
            let q = S::period(&a, &more, &c);
            ensure!(S::fields(&q)[1] <= dp + 1e-9, "one more game takes the deviation from {dp} to {}", S::fields(&q)[1]);
            let q = S::period(&a, &other, &c);
            ensure!(close(S::fields(&q)[1], dp, 1e-10, 0.0), "with other results the deviation is {} instead of {dp}", S::fields(&q)[1]);
        }
        "Sticko" => {
            let h = (&c as &dyn Any).downcast_ref::<StickoConfig>().unwrap().h;
            let cap = (dx * dx + h * n as f64).sqrt().min(350.0);
            ensure!(dp <= cap + 1e-9, "{n} games take the deviation from {dx} to {dp}, above {cap}");
            let q = S::period(&a, &other, &c);
            ensure!(close(S::fields(&q)[1], dp, 1e-10, 0.0), "with other results the deviation is {} instead of {dp}", S::fields(&q)[1]);
            if h == 0.0 {
                let q = S::period(&a, &more, &c);
                ensure!(S::fields(&q)[1] <= dp + 1e-9, "one more game takes the deviation from {dp} to {}", S::fields(&q)[1]);
            }
        }
        "Glicko-2" => {
            let v = S::fields(&p)[2];
            let cap = (d * d + (v * 173.7178).powi(2)).sqrt();
            ensure!(dp <= cap * (1.0 + 1e-9), "{n} games take the deviation from {d} to {dp}, above {cap}");
        }
        _ => ensure!(dp <= 350.0 + 1e-9, "deviation {dp} above the maximum"),
    }
    // the less is known about the opponents, the less a game tells
    if S::NAME == "Glicko" && n == 1 {
        let close_match = S::with_rating(&a, r);
        let known = with_dev::<S>(&close_match, 30.0);
        let unknown = with_dev::<S>(&close_match, 300.0);
        let (p1, p2) = (S::period(&a, &[(known, WIN)], &c), S::period(&a, &[(unknown, WIN)], &c));
        ensure!(S::fields(&p1)[1] <= S::fields(&p2)[1] + 1e-9, "a game against a well-known equal leaves {p1:?}, against an unknown one {p2:?}");
        ensure!(S::rating(&p1) >= S::rating(&p2) - 1e-9, "a win against a well-known equal leaves {p1:?}, against an unknown one {p2:?}");
    }
    Ok(d < 350.0 && dx > d)
}
fn p15_ts(s: &mut Src) -> Case {
    if s.arm(&[WL, TS]) == 1 {
        let (a, b, c) = setup::<STrueSkill>(s);
        let k = get_rank(&a);
        ensure!(close(k, a.rating - 3.0 * a.uncertainty, 1e-10, 1e-9), "rank {k} of {a:?}");
        let o = gen_outcome(s);
        s.note(|| format!("{o:?}"));
        let (x, y) = trueskill(&a, &b, &o, &c);
        for (p, q) in [(a, x), (b, y)] {
            let cap = p.uncertainty.hypot(c.dynamics_factor);
            ensure!(q.uncertainty > 0.0 && q.uncertainty <= cap * (1.0 + 1e-9), "a game takes {p:?} to {q:?}, uncertainty above {cap}");
        }
        // two equally rated players: the one about whom less is known moves further
        if a.uncertainty != b.uncertainty {
            let (u, v) = ((x.rating - a.rating).abs(), (y.rating - b.rating).abs());
            let more = if a.uncertainty > b.uncertainty { u >= v - 1e-9 } else { v >= u - 1e-9 };
            ensure!(more, "{a:?} moves by {u}, {b:?} by {v}");
        }
        Ok(a.uncertainty != b.uncertainty)
    } else {
        let (a, b, c) = setup::<SWengLin>(s);
        let o = gen_outcome(s);
        s.note(|| format!("{o:?}"));
        let (x, y) = weng_lin(&a, &b, &o, &c);
        for (p, q) in [(a, x), (b, y)] {
            ensure!(q.uncertainty >= 0.0 && q.uncertainty <= p.uncertainty * (1.0 + 1e-12), "a game takes {p:?} to {q:?}");
        }
        let (u, v) = ((x.rating - a.rating).abs(), (y.rating - b.rating).abs());
        let more = if a.uncertainty > b.uncertainty { u >= v - 1e-9 } else { v >= u - 1e-9 };
        ensure!(more, "{a:?} moves by {u}, {b:?} by {v}");
        Ok(a.uncertainty != b.uncertainty)
    }
}

// ------------------------------------------------------------------ P17
fn p17(s: &mut Src) -> Case {
    const SHIFT: u32 = ELO | FIFA | INGO | GLICKO | GLICKO2 | STICKO | TS | WL;
    match s.arm(&[ELO | FIFA, TS | WL, TS | WL, SHIFT, SHIFT, SHIFT]) {
        0 => p17_sum(s),
        1 => p17_weighted(s),
        2 => p17_scale(s),
        _ => match s.arm(&[ELO, FIFA, INGO, GLICKO, GLICKO2, STICKO, TS, WL]) {
            0 => p17_shift::<SElo>(s),
            1 => p17_shift::<SFifa>(s),
            2 => p17_shift::<SIngo>(s),
            3 => p17_shift::<SGlicko>(s),
            4 => p17_shift::<SGlicko2>(s),
            5 => p17_shift::<SSticko>(s),
            6 => p17_shift::<STrueSkill>(s),
            _ => p17_shift::<SWengLin>(s),
        },
    }
}
/// Points change hands, they are not created: whole tournaments of Elo and (plain) FIFA games.
fn p17_sum(s: &mut Src) -> Case {
    let n = 2 + s.idx(5);
    let steps = 1 + s.len(40);
    macro_rules! go {
        ($S:ident, $c:expr) => {{
            s.label($S::NAME);
            let c = $c;
            let mut ps: Vec<_> = (0..n).map(|_| $S::gen_r(s)).collect();
            s.note(|| format!("{}: {ps:?}, {c:?}", $S::NAME));
            let total: f64 = ps.iter().map(|p| p.rating).sum();
            for step in 0..steps {
                let i = s.idx(n);
                let j = (i + 1 + s.idx(n - 1)) % n;
                let o = gen_outcome(s);
                let (a, b) = $S::rate(&ps[i], &ps[j], o, &c);
                s.note(|| format!("{i} plays {j}: {o:?} {a:?} {b:?}"));
                let (da, db) = (a.rating - ps[i].rating, b.rating - ps[j].rating);
                ensure!(close(da, -db, 1e-9, 1e-7), "step {step}: player one changes by {da}, player two by {db}");
                ps[i] = a;
                ps[j] = b;
            }
            let now: f64 = ps.iter().map(|p| p.rating).sum();
            ensure!(close(now, total, 1e-9, 1e-6), "the sum of all ratings goes from {total} to {now}");
        }};
    }
    if s.arm(&[FIFA, ELO]) == 1 {
        go!(SElo, SElo::gen_c(s))
    } else {
        go!(SFifa, FifaConfig { knockout: false, penalties: false, ..SFifa::gen_c(s) })
    }
    Ok(steps >= 2)
}
/// TrueSkill and Weng-Lin: changes weighted by what was known about the players cancel out.
fn p17_weighted(s: &mut Src) -> Case {
    let o = gen_outcome(s);
    let (n, m) = (s.size(4, 20), s.size(4, 20));
    if s.arm(&[WL, TS]) == 1 {
        s.label("TrueSkill, weighted changes");
        let c = gen_ts_cfg(s);
        let c = tame::<STrueSkill>(s, c, o == Outcomes::DRAW);
        let a: Vec<_> = (0..n).map(|_| gen_ts(s)).collect();
        let b: Vec<_> = (0..m).map(|_| gen_ts(s)).collect();
        s.note(|| format!("{a:?} vs {b:?}, {o:?}, {c:?}"));
        let (x, y) = trueskill_two_teams(&a, &b, &o, &c);
        let w = |p: &TrueSkillRating, q: &TrueSkillRating| (q.rating - p.rating) / (p.uncertainty.powi(2) + c.dynamics_factor.powi(2));
        let u = w(&a[0], &x[0]);
        let big = a.iter().chain(&b).map(|p| p.rating.abs()).fold(1.0, f64::max);
        let low = a.iter().chain(&b).map(|p| p.uncertainty).fold(f64::MAX, f64::min);
        let tol = 1e-12 * big / (low * low) + 1e-12;
        for (p, q) in a.iter().zip(&x) {
            ensure!(close(w(p, q), u, 1e-7, tol), "changes of team one per variance: {u} and {}", w(p, q));
        }
        for (p, q) in b.iter().zip(&y) {
            ensure!(close(w(p, q), -u, 1e-7, tol), "changes per variance: {u} and {}", w(p, q));
        }
    } else {
        s.label("Weng-Lin, weighted changes");
        let c = gen_wl_cfg(s);
        let a: Vec<_> = (0..n).map(|_| gen_wl(s)).collect();
        let b: Vec<_> = (0..m).map(|_| gen_wl(s)).collect();
        s.note(|| format!("{a:?} vs {b:?}, {o:?}, {c:?}"));
        let (x, y) = weng_lin_two_teams(&a, &b, &o, &c);
        let w = |p: &WengLinRating, q: &WengLinRating| (q.rating - p.rating) / p.uncertainty.powi(2);
        let u = w(&a[0], &x[0]);
        let big = a.iter().chain(&b).map(|p| p.rating.abs()).fold(1.0, f64::max);
        let low = a.iter().chain(&b).map(|p| p.uncertainty).fold(f64::MAX, f64::min);
        let tol = 1e-12 * big / (low * low) + 1e-12;
        for (p, q) in a.iter().zip(&x) {
            ensure!(close(w(p, q), u, 1e-7, tol), "changes of team one per variance: {u} and {}", w(p, q));
        }
        for (p, q) in b.iter().zip(&y) {
            ensure!(close(w(p, q), -u, 1e-7, tol), "changes per variance: {u} and {}", w(p, q));
        }
    }
    Ok(n + m > 2)
}
/// Only rating differences count.
fn p17_shift<S: Sys>(s: &mut Src) -> Case {
    let (a, b, c) = setup::<S>(s);
    s.label("shift");
    let by = s.num(&spec(scale::<S>(), -2.0 * scale::<S>(), 2.0 * scale::<S>(), -4.0 * scale::<S>(), 4.0 * scale::<S>()));
    let o = gen_outcome(s);
    let c = tame::<S>(s, c, true);
    s.note(|| format!("{o:?}, all ratings shifted by {by}"));
    let up = |r: &S::R| S::with_rating(r, S::rating(r) + by);
    let (rel, abs) = match S::NAME {
        "Glicko-2" => (1e-7 + 10.0 * super::cross::g2tol::<S>(&c), 1e-6 + 3000.0 * super::cross::g2tol::<S>(&c)),
        "TrueSkill" => (1e-6, 1e-6),
        _ => (1e-9, 1e-9 * scale::<S>()),
    };
    // the result of the shifted match, shifted back
    let eq = |x: &S::R, y: &S::R, old: &S::R| agree::<S>(&S::with_rating(y, S::rating(y) - by), x, old, &c, rel, abs);
    let (x1, x2) = S::rate(&a, &b, o, &c);
    let (y1, y2) = S::rate(&up(&a), &up(&b), o, &c);
    ensure!(eq(&x1, &y1, &a) && eq(&x2, &y2, &b), "{x1:?} {x2:?}, shifted by {by} {y1:?} {y2:?}");
    let (e, f) = (S::exp(&a, &b, &c), S::exp(&up(&a), &up(&b), &c));
    // TrueSkill's normal distribution is accurate to 1.2e-7 only, and jumps by 3e-8 at 0
    let et = if S::NAME == "TrueSkill" { 1e-6 } else { 1e-9 };
    ensure!(close(e.0, f.0, 0.0, et) && close(e.1, f.1, 0.0, et), "expected scores {e:?}, shifted by {by} {f:?}");
    let n = s.len(6);
    let games: Vec<(S::R, Outcomes)> = (0..n).map(|_| (S::gen_r(s), gen_outcome(s))).collect();
    let shifted: Vec<_> = games.iter().map(|(r, o)| (up(r), *o)).collect();
    s.note(|| format!("games {games:?}"));
    let (x, y) = (S::period(&a, &games, &c), S::period(&up(&a), &shifted, &c));
    let k = n.max(1) as f64;
    ensure!(agree::<S>(&S::with_rating(&y, S::rating(&y) - by), &x, &a, &c, rel * k, abs * k), "period: {x:?}, shifted by {by} {y:?}");
    Ok(by != 0.0)
}
/// TrueSkill and Weng-Lin have no scale of their own.
fn p17_scale(s: &mut Src) -> Case {
    let k = if s.bool() { s.pick(&[2.0, 0.5, 10.0, 100.0, 40.0]) } else { s.num(&spec(2.0, 0.1, 50.0, 0.05, 200.0)) };
    let o = gen_outcome(s);
    let (n, m) = (s.size(3, 12), s.size(3, 12));
    if s.arm(&[WL, TS]) == 1 {
        s.label("TrueSkill, other scale");
        let c = gen_ts_cfg(s);
        let c = tame::<STrueSkill>(s, c, o == Outcomes::DRAW);
        let a: Vec<_> = (0..n).map(|_| gen_ts(s)).collect();
        let b: Vec<_> = (0..m).map(|_| gen_ts(s)).collect();
        s.note(|| format!("{a:?} vs {b:?}, {o:?}, {c:?}, scaled by {k}"));
        let up = |v: &[TrueSkillRating]| v.iter().map(|p| TrueSkillRating { rating: p.rating * k, uncertainty: p.uncertainty * k }).collect::<Vec<_>>();
        let d = TrueSkillConfig { beta: c.beta * k, dynamics_factor: c.dynamics_factor * k, ..c };
        let (x1, x2) = trueskill_two_teams(&a, &b, &o, &c);
        let (y1, y2) = trueskill_two_teams(&up(&a), &up(&b), &o, &d);
        let eq = |x: &[TrueSkillRating], y: &[TrueSkillRating], old: &[TrueSkillRating]| {
            x.len() == old.len() && y.len() == old.len() && up(x).iter().zip(y).zip(up(old)).all(|((p, q), o)| agree::<STrueSkill>(p, q, &o, &d, 1e-6, 0.0))
        };
        ensure!(eq(&x1, &y1, &a) && eq(&x2, &y2, &b), "{x1:?} {x2:?}, scaled by {k} {y1:?} {y2:?}");
        let e = skillratings::trueskill::expected_score_two_teams(&a, &b, &c);
        let f = skillratings::trueskill::expected_score_two_teams(&up(&a), &up(&b), &d);
        ensure!(close(e.0, f.0, 0.0, 1e-6), "expected scores {e:?}, scaled by {k} {f:?}");
        let (e, f) = (match_quality_two_teams(&a, &b, &c), match_quality_two_teams(&up(&a), &up(&b), &d));
        ensure!(close(e, f, 1e-8, 1e-12), "match quality {e}, scaled by {k} {f}");
    } else {
        s.label("Weng-Lin, other scale");
        let c = gen_wl_cfg(s);
        let a: Vec<_> = (0..n).map(|_| gen_wl(s)).collect();
        let b: Vec<_> = (0..m).map(|_| gen_wl(s)).collect();
        s.note(|| format!("{a:?} vs {b:?}, {o:?}, {c:?}, scaled by {k}"));
        let up = |v: &[WengLinRating]| v.iter().map(|p| WengLinRating { rating: p.rating * k, uncertainty: p.uncertainty * k }).collect::<Vec<_>>();
        let d = WengLinConfig { beta: c.beta * k, ..c };
        let (x1, x2) = weng_lin_two_teams(&a, &b, &o, &c);
        let (y1, y2) = weng_lin_two_teams(&up(&a), &up(&b), &o, &d);
        let eq = |x: &[WengLinRating], y: &[WengLinRating]| x.len() == y.len() && up(x).iter().zip(y).all(|(p, q)| same::<SWengLin>(p, q, 1e-9, 1e-8 * k * unit()));
        ensure!(eq(&x1, &y1) && eq(&x2, &y2), "{x1:?} {x2:?}, scaled by {k} {y1:?} {y2:?}");
        let e = skillratings::weng_lin::expected_score_two_teams(&a, &b, &c);
        let f = skillratings::weng_lin::expected_score_two_teams(&up(&a), &up(&b), &d);
        ensure!(close(e.0, f.0, 0.0, 1e-9), "expected scores {e:?}, scaled by {k} {f:?}");
    }
    Ok(k != 1.0)
}

// ------------------------------------------------------------------ P18
fn p18(s: &mut Src) -> Case {
    let (a, b, c) = setup::<SGlicko>(s);
    let o = gen_outcome(s);
    let n = s.len(12);
    let games: Vec<(GlickoRating, Outcomes, bool)> = (0..n).map(|_| (SGlicko::gen_r(s), gen_outcome(s), s.bool())).collect();
    s.note(|| format!("{o:?}, games {games:?}"));
    let plain: Vec<_> = games.iter().map(|g| (g.0, g.1)).collect();
    match s.arm(&[STICKO | GLICKO, BOOST | GLICKO, ELO | USCF | DWZ | FIFA | GLICKO | STICKO, GLICKO | GLICKO2]) {
        0 => {
            s.label("Sticko without its additions is Glicko");
            let k = StickoConfig { h: 0.0, beta: 0.0, lambda: 0.0, gamma: 0.0, c: c.c };
            let f = |g: &GlickoRating| StickoRating::from(*g);
            let eq = |g: &GlickoRating, t: &StickoRating| same::<SGlicko>(g, &GlickoRating::from(*t), 1e-9, 1e-7);
            let (x1, x2) = SGlicko::rate(&a, &b, o, &c);
            let (y1, y2) = SSticko::rate(&f(&a), &f(&b), o, &k);
            ensure!(eq(&x1, &y1) && eq(&x2, &y2), "Glicko {x1:?} {x2:?}, Sticko {y1:?} {y2:?}");
            let (e, g) = (SGlicko::exp(&a, &b, &c), SSticko::exp(&f(&a), &f(&b), &k));
            ensure!(close(e.0, g.0, 0.0, 1e-10) && close(e.1, g.1, 0.0, 1e-10), "expected scores: Glicko {e:?}, Sticko {g:?}");
            let x = SGlicko::period(&a, &plain, &c);
            let v: Vec<_> = games.iter().map(|g| (f(&g.0), g.1, g.2)).collect();
            let y = skillratings::sticko::sticko_rating_period(&f(&a), &v, &k);
            ensure!(eq(&x, &y), "period: Glicko {x:?}, Sticko {y:?}");
            let (x, y) = (skillratings::glicko::decay_deviation(&a, &c), skillratings::sticko::decay_deviation(&f(&a), &k));
            ensure!(eq(&x, &y), "pause: Glicko {x:?}, Sticko {y:?}");
        }
        1 => {
            s.label("Glicko-Boost without its additions is Glicko");
            let d = GlickoBoostConfig::new();
            let far = games.iter().map(|g| &g.0).chain([&b]).any(|r| (r.rating - a.rating).abs() > 1e4);
            // beyond that the score of a surprise is infinite, larger than any k
            let k = GlickoBoostConfig { eta: 0.0, k: if far || s.bool() { 0.0 } else { 1e9 }, b: (0.0, 0.0), alpha: d.alpha };
            let zero = GlickoConfig { c: 0.0 };
            // Glicko-Boost has no maximum at the start of the period
            let cap = |g: &GlickoRating| GlickoRating { deviation: g.deviation.min(350.0), ..*g };
            let (a, b) = (cap(&a), cap(&b));
            let f = |g: &GlickoRating| GlickoBoostRating::from(*g);
            let (x1, x2) = SGlicko::rate(&a, &b, o, &zero);
            let (y1, y2) = SBoost::rate(&f(&a), &f(&b), o, &k);
            // the pause at the end of the period is the one difference left
            let eq = |x: &GlickoRating, y: &GlickoBoostRating| {
                let w = skillratings::glicko_boost::decay_deviation(&f(x), &k);
                same::<SBoost>(&w, y, 1e-9, 1e-6)
            };
            ensure!(eq(&x1, &y1) && eq(&x2, &y2), "Glicko {x1:?} {x2:?}, Glicko-Boost {y1:?} {y2:?}");
            let (e, g) = (SGlicko::exp(&a, &b, &c), SBoost::exp(&f(&a), &f(&b), &k));
            ensure!(close(e.0, g.0, 0.0, 1e-10) && close(e.1, g.1, 0.0, 1e-10), "expected scores: Glicko {e:?}, Glicko-Boost {g:?}");
            if n > 0 {
                let x = SGlicko::period(&a, &plain, &zero);
                let v: Vec<_> = games.iter().map(|g| (f(&g.0), g.1, g.2)).collect();
                let y = skillratings::glicko_boost::glicko_boost_rating_period(&f(&a), &v, &k);
                ensure!(eq(&x, &y), "period: Glicko {x:?}, Glicko-Boost {y:?}");
            }
        }
        2 => {
            s.label("one curve behind the chess predictions");
            let (x, y) = (a.rating, b.rating);
            let e = SElo::exp(&EloRating { rating: x }, &EloRating { rating: y }, &Default::default());
            let u = SUscf::exp(&USCFRating { rating: x, games: SUscf::gen_r(s).games }, &USCFRating { rating: y, games: SUscf::gen_r(s).games }, &Default::default());
            let d = SDwz::exp(&DWZRating { rating: x, ..SDwz::gen_r(s) }, &DWZRating { rating: y, ..SDwz::gen_r(s) }, &());
            let g = SGlicko::exp(&GlickoRating { rating: x, deviation: 0.0 }, &GlickoRating { rating: y, deviation: 0.0 }, &c);
            let h = SFifa::exp(&FifaRating { rating: 1.5 * x }, &FifaRating { rating: 1.5 * y }, &FifaConfig::new());
            let t = SSticko::exp(&StickoRating { rating: x, deviation: 0.0 }, &StickoRating { rating: y, deviation: 0.0 }, &StickoConfig::new());
            for (name, v) in [("USCF", u), ("DWZ", d), ("Glicko with certain ratings", g), ("FIFA at 1.5 times the difference", h), ("Sticko with certain ratings", t)] {
                ensure!(close(e.0, v.0, 0.0, 1e-9) && close(e.1, v.1, 0.0, 1e-9), "expected scores of {x} and {y}: Elo {e:?}, {name} {v:?}");
            }
        }
        _ => {
            s.label("Glicko and Glicko-2 predictions");
            let f = |g: &GlickoRating| Glicko2Rating::from(*g);
            let e = SGlicko::exp(&a, &b, &c);
            let g = SGlicko2::exp(&f(&a), &f(&b), &Glicko2Config::new());
            // the two use the same curve; Glicko-2 rounds the scale to 173.7178
            ensure!(close(e.0, g.0, 0.0, 1e-5), "expected scores of {a:?} and {b:?}: Glicko {e:?}, Glicko-2 {g:?}");
            let v: Vec<_> = plain.iter().map(|x| x.0).collect();
            let w: Vec<_> = v.iter().map(f).collect();
            let (p, q) = (SGlicko::exp_period(&a, &v, &c), SGlicko2::exp_period(&f(&a), &w, &Glicko2Config::new()));
            ensure!(p.len() == q.len() && p.iter().zip(&q).all(|(x, y)| close(*x, *y, 0.0, 1e-5)), "Glicko {p:?}, Glicko-2 {q:?}");
        }
    }
    Ok(a.rating != b.rating)
}

// ------------------------------------------------------------------ P19
/// Every call returns, and what it returns has the right shape, however odd the input.
fn p19(s: &mut Src) -> Case {
    match s.arm(&[ALL, ALL, TS, TS, WL, DWZ]) {
        0 | 1 => for_system!(s, p19_s),
        2 | 3 => p19_ts(s),
        4 => p19_wl(s),
        _ => p19_first_dwz(s),
    }
}
fn wild(s: &mut Src, sp: &Spec) -> f64 {
    match s.below(4) {
        0 => s.pick(&[0.0, -0.0, 1.0, -1.0, 1e-300, 1e9, -1e9, 1e15, 3300.0]),
        1 => {
            let e = -30.0 + 45.0 * s.f01();
            10f64.powf(e) * if s.bool() { 1.0 } else { -1.0 }
        }
        _ => s.num(sp),
    }
}
fn wild_pos(s: &mut Src, sp: &Spec) -> f64 {
    match s.below(4) {
        0 => s.pick(&[1e-9, 1.0, 1e6, 1e-3]),
        1 => 10f64.powf(-9.0 + 15.0 * s.f01()),
        _ => s.num(sp),
    }
}
fn wild_r<S: Sys>(s: &mut Src) -> S::R {
    let mut r = S::gen_r(s);
    if S::NAME == "Glicko-2" {
        return r;
    }
    let v = wild(s, &RT);
    r = S::with_rating(&r, v);
    if S::unc(&r).is_some() {
        let d = wild_pos(s, &DEV);
        r = with_dev::<S>(&r, d);
    }
    r
}
fn p19_s<S: Sys>(s: &mut Src) -> Case {
    s.label(S::NAME);
    let a = wild_r::<S>(s);
    let b = wild_r::<S>(s);
    let c = S::gen_c(s);
    let n = s.len(12);
    let games: Vec<(S::R, Outcomes)> = (0..n).map(|_| (wild_r::<S>(s), gen_outcome(s))).collect();
    let o = gen_outcome(s);
    s.note(|| format!("{}: {a:?} {b:?} {o:?} {c:?} {games:?}", S::NAME));
    let _ = S::rate(&a, &b, o, &c);
    let _ = S::exp(&a, &b, &c);
    let _ = S::period(&a, &games, &c);
    let _ = S::period(&a, &[], &c);
    let _ = decayed::<S>(&a, &c);
    let v: Vec<S::R> = games.iter().map(|g| g.0).collect();
    let e = S::exp_period(&a, &v, &c);
    ensure!(e.len() == n, "{} predictions for {n} opponents", e.len());
    ensure!(S::exp_period(&a, &[], &c).is_empty(), "predictions without opponents");
    Ok(true)
}
fn odd_teams<R>(s: &mut Src, f: fn(&mut Src) -> R) -> Vec<Vec<R>> {
    let n = s.size(6, 20) - 1;
    let no_empty = s.bool();
    (0..n)
        .map(|_| {
            let k = if no_empty { s.size(4, 12) } else { s.size(4, 12) - 1 };
            (0..k).map(|_| f(s)).collect()
        })
        .collect()
}
fn quality_lopsided_variances() -> bool {
    let t = [1.9e-5, 132_000.0, 1_680_000.0, 1.39e-6].map(|u| [TrueSkillRating { rating: 0.0, uncertainty: u }]);
    let c = TrueSkillConfig { beta: 0.015_96, ..TrueSkillConfig::new() };
    let v: Vec<&[TrueSkillRating]> = t.iter().map(|x| &x[..]).collect();
    !matches!(std::panic::catch_unwind(|| match_quality_multi_team(&v, &c, None)), Ok(Ok(q)) if (0.0..=1.0).contains(&q))
}
fn p19_ts(s: &mut Src) -> Case {
    s.label("TrueSkill shapes");
    let c = gen_ts_cfg(s);
    let gen: fn(&mut Src) -> TrueSkillRating = if s.bool() { gen_ts } else { wild_r::<STrueSkill> };
    let t = odd_teams(s, gen);
    let r = gen_ranks(s, t.len(), false);
    s.note(|| format!("TrueSkill {t:?} ranks {r:?} {c:?}"));
    let empty = t.iter().any(Vec::is_empty);
    s.label_if(empty, "an empty team");
    s.label_if(t.len() < 2, "fewer than two teams");
    let shape = |x: &[Vec<TrueSkillRating>]| x.len() == t.len() && x.iter().zip(&t).all(|(p, q)| p.len() == q.len());
    // weights, possibly wrong ones
    let w: Option<Vec<Vec<f64>>> = if s.bool() {
        None
    } else {
        let k = if s.one_in(4) { s.idx(6) } else { t.len() };
        Some(
            (0..k)
                .map(|i| {
                    let m = if s.one_in(6) { s.idx(4) } else { t.get(i).map_or(1, Vec::len) };
                    (0..m).map(|_| if s.one_in(8) { -s.num(&spec(0.5, 0.1, 1.0, 0.001, 10.0)) } else { s.num(&spec(1.0, 0.1, 1.0, 0.01, 3.0)) }).collect()
                })
                .collect(),
        )
    };
    s.note(|| format!("weights {w:?}"));
    let ws = w.as_ref().map(|w| slices(w));
    let bad = w.as_ref().map_or(false, |w| {
        w.len() != t.len() || w.iter().zip(&t).any(|(x, y)| x.len() != y.len() || x.iter().any(|v| *v < 0.0))
    });
    s.label_if(bad, "unusable weights");
    let v = ranked(&t, &r);
    match trueskill_multi_team(&v, &c, ws.as_deref()) {
        Ok(x) => {
            ensure!(shape(&x), "teams {t:?} become {x:?}");
            if empty || t.len() < 2 {
                ensure!(x == t, "teams {t:?} become {x:?} although nothing was played");
            } else {
                ensure!(!bad, "unusable weights {w:?} were accepted");
            }
        }
        Err(e) => ensure!(bad, "{e:?} for teams {t:?} and weights {w:?}"),
    }
    // known finding quality-lopsided-variances: three or more teams, one with a variance 10^12 times another's
    let vars = || t.iter().enumerate().map(|(i, x)| {
        x.iter().enumerate().map(|(j, p)| w.as_ref().map_or(1.0, |w| w[i][j]).powi(2) * (p.uncertainty.powi(2) + c.beta.powi(2))).sum::<f64>()
    });
    let lopsided = t.len() > 2 && !empty && !bad && vars().fold(0.0, f64::max) > 1e12 * vars().fold(f64::INFINITY, f64::min);
    s.label_if(lopsided, "match quality left out (known finding)");
    if !lopsided {
    match match_quality_multi_team(&slices(&t), &c, ws.as_deref()) {
        Ok(q) => {
            if empty || t.len() < 2 {
                ensure!(q == 0.0, "match quality {q} although nothing can be played");
            } else {
                ensure!(!bad, "unusable weights {w:?} were accepted");
            }
        }
        Err(e) => ensure!(bad, "{e:?} for teams {t:?} and weights {w:?}"),
    }
    }
    let e = skillratings::trueskill::expected_score_multi_team(&slices(&t), &c);
    ensure!(e.len() == t.len(), "{} predictions for {} teams", e.len(), t.len());
    if t.len() >= 2 {
        let o = gen_outcome(s);
        let (x, y) = trueskill_two_teams(&t[0], &t[1], &o, &c);
        ensure!(x.len() == t[0].len() && y.len() == t[1].len(), "team sizes {} {} become {} {}", t[0].len(), t[1].len(), x.len(), y.len());
        if t[0].is_empty() || t[1].is_empty() {
            ensure!(x == t[0] && y == t[1], "a match against nobody takes {:?} {:?} to {x:?} {y:?}", t[0], t[1]);
        }
        let _ = match_quality_two_teams(&t[0], &t[1], &c);
        let _ = skillratings::trueskill::expected_score_two_teams(&t[0], &t[1], &c);
        if let (Some(a), Some(_)) = (t[0].first(), t[1].first()) {
            let q = match_quality_rating_period(a, &t[1], &c);
            ensure!(q.len() == t[1].len(), "{} qualities for {} opponents", q.len(), t[1].len());
        }
    }
    Ok(t.len() >= 2)
}
fn p19_wl(s: &mut Src) -> Case {
    s.label("Weng-Lin shapes");
    let c = gen_wl_cfg(s);
    let gen: fn(&mut Src) -> WengLinRating = if s.bool() { gen_wl } else { wild_r::<SWengLin> };
    let t = odd_teams(s, gen);
    let r = gen_ranks(s, t.len(), false);
    s.note(|| format!("Weng-Lin {t:?} ranks {r:?} {c:?}"));
    let empty = t.iter().any(Vec::is_empty);
    s.label_if(empty, "an empty team");
    s.label_if(t.len() < 2, "fewer than two teams");
    let x = weng_lin_multi_team(&ranked(&t, &r), &c);
    if empty || t.len() < 2 {
        ensure!(x == t, "teams {t:?} become {x:?} although nothing was played");
    }
    ensure!(x.len() == t.len() && x.iter().zip(&t).all(|(p, q)| p.len() == q.len()), "teams {t:?} become {x:?}");
    let e = skillratings::weng_lin::expected_score_multi_team(&slices(&t), &c);
    ensure!(e.len() == t.len(), "{} predictions for {} teams", e.len(), t.len());
    if t.len() >= 2 {
        let o = gen_outcome(s);
        let (x, y) = weng_lin_two_teams(&t[0], &t[1], &o, &c);
        ensure!(x.len() == t[0].len() && y.len() == t[1].len(), "team sizes {} {} become {} {}", t[0].len(), t[1].len(), x.len(), y.len());
        if t[0].is_empty() || t[1].is_empty() {
            ensure!(x == t[0] && y == t[1], "a match against nobody takes {:?} {:?} to {x:?} {y:?}", t[0], t[1]);
        }
        let _ = skillratings::weng_lin::expected_score_two_teams(&t[0], &t[1], &c);
    }
    Ok(t.len() >= 2)
}
fn p19_first_dwz(s: &mut Src) -> Case {
    s.label("first DWZ");
    let n = s.len(250);
    let mode = s.below(5);
    let games: Vec<(DWZRating, Outcomes)> = (0..n)
        .map(|_| {
            let o = match mode {
                0 => WIN,
                1 => LOSS,
                2 => if s.one_in(60) { DRAW } else { WIN },
                3 => if s.one_in(60) { DRAW } else { LOSS },
                _ => gen_outcome(s),
            };
            (wild_r::<SDwz>(s), o)
        })
        .collect();
    let age = gen_age(s);
    s.note(|| format!("age {age}, games {games:?}"));
    let pts: f64 = games.iter().map(|g| points(g.1)).sum();
    match get_first_dwz(age, &games) {
        Ok(r) => {
            ensure!(n >= 5 && pts > 0.0 && pts < n as f64, "{n} games with {pts} points give {r:?}");
            ensure!(r.age == age && r.index == 1, "first DWZ {r:?} at age {age}");
        }
        Err(GetFirstDWZError::NotEnoughGames) => ensure!(n < 5, "not enough games: {n}"),
        Err(GetFirstDWZError::InvalidWinRate) => ensure!(n >= 5 && (pts == 0.0 || pts == n as f64), "invalid win rate: {pts} points in {n} games"),
    }
    Ok(n >= 5)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            rule: "A history of up to 81 steps for 2 to 4 players of one system (games, rating periods, pauses, predictions; sometimes one player always wins), or up to 26 team matches with random line-ups; after every step every new rating is checked. Non-trivial: at least 5 games (teams: 3 matches).",
            run: p06,
            quick: 4_000_000,
            assumptions: &["Starting values within the documented caps and floors", "EGF: rating plus handicap stays below 3300", "Glicko-Boost: default alpha values", "TrueSkill: dynamics factor below beta"],
            known: &[],
        },
        Prop {
            id: "P15",
            rule: "A Glicko-family player with up to 31 pauses and a period of up to 21 games, or a TrueSkill/Weng-Lin game: intervals, pauses, maximum, and what games do to the uncertainty. Non-trivial: the pause really raises the deviation (TrueSkill/Weng-Lin: the uncertainties differ).",
            run: p15,
            quick: 16_000_000,
            assumptions: &["Glicko-2 games may exceed the maximum deviation of 350, as published"],
            known: &[],
        },
        Prop {
            id: "P17",
            rule: "Elo and FIFA tournaments of up to 41 games (sum of all ratings), TrueSkill/Weng-Lin team matches (changes per variance cancel out), a shift of all ratings in eight systems, and a change of scale in TrueSkill/Weng-Lin. Non-trivial: at least 2 games, more than 2 players, a real shift or scale.",
            run: p17,
            quick: 20_000_000,
            assumptions: &["FIFA: no knockout protection, no shoot-outs", "TrueSkill: dynamics factor below beta"],
            known: &[],
        },
        Prop {
            id: "P18",
            rule: "Two Glicko players and up to 12 games, rated by Sticko and Glicko-Boost with their additions switched off, and predictions of equal ratings across Elo, USCF, DWZ, Glicko, Glicko-2, Sticko and FIFA. Non-trivial: the ratings differ.",
            run: p18,
            quick: 22_000_000,
            assumptions: &[],
            known: &[],
        },
        Prop {
            id: "P19",
            rule: "Lists of 0 to 5 teams with 0 to 4 players, weights of wrong number, size or sign, games against nobody, win rates of 0 and 100 percent, ratings from 1e-30 to 1e15; every call must return with the documented shape or error. Non-trivial: at least two teams, five games, or extreme numbers.",
            run: p19,
            quick: 8_000_000,
            assumptions: &["Glicko-2 numbers stay in the typical range", "Counters stay below their integer limit", "No NaN inputs"],
            known: &[("quality-lopsided-variances", quality_lopsided_variances)],
        },
    ]
}
