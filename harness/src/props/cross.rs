//! Properties of head-to-head and rating-period play which all twelve systems share.

use super::teams::ts_near;
use crate::src::sysmask::*;
use crate::src::{unit, Src};
use crate::sys::*;
use crate::{ensure, for_system, Case, Prop};
use skillratings::egf::{EGFConfig, EGFRating};
use skillratings::fifa::{fifa_rating_period, FifaConfig};
use skillratings::glicko_boost::{GlickoBoostConfig, GlickoBoostRating};
use skillratings::sticko::{StickoConfig, StickoRating};
use skillratings::trueskill::*;
use skillratings::weng_lin::*;
use skillratings::Outcomes;
use skillratings::Outcomes::{DRAW, LOSS, WIN};

pub fn note<S: Sys>(s: &mut Src, a: &S::R, b: &S::R, c: &S::C) {
    let (a, b, c) = (*a, *b, *c);
    s.label(S::NAME);
    s.note(|| format!("{}: player one {a:?}, player two {b:?}, config {c:?}", S::NAME));
}

pub fn setup<S: Sys>(s: &mut Src) -> (S::R, S::R, S::C) {
    let a = S::gen_r(s);
    let b = if s.one_in(30) { a } else { S::gen_r(s) };
    let c = S::gen_c(s);
    let c = S::fit(&a, &b, c);
    note::<S>(s, &a, &b, &c);
    (a, b, c)
}

/// How large ratings are.
pub fn scale<S: Sys>() -> f64 {
    if matches!(S::NAME, "TrueSkill" | "Weng-Lin") { S::SCALE * unit() } else { S::SCALE }
}
/// A draw where draws are all but impossible hangs on the last bits of the draw margin: not compared.
pub fn tame<S: Sys>(s: &mut Src, mut c: S::C, drawn: bool) -> S::C {
    if let (true, Some(t)) = (drawn, (&mut c as &mut dyn std::any::Any).downcast_mut::<TrueSkillConfig>()) {
        if t.draw_probability < 0.005 {
            t.draw_probability = 0.005;
            s.note(|| "draw probability raised to 0.005".into());
        }
    }
    c
}

/// Two ways to the same new rating of `old`. TrueSkill's new variance can be a small difference of
/// large numbers, so its error goes with the old one.
pub fn agree<S: Sys>(x: &S::R, y: &S::R, old: &S::R, c: &S::C, rel: f64, abs: f64) -> bool {
    let ts = |r: &S::R| (r as &dyn std::any::Any).downcast_ref::<TrueSkillRating>().copied();
    let tc = (c as &dyn std::any::Any).downcast_ref::<TrueSkillConfig>();
    match (ts(x), ts(y), ts(old), tc) {
        (Some(x), Some(y), Some(old), Some(c)) => ts_near(&x, &y, &old, c, rel),
        _ => same::<S>(x, y, rel, abs),
    }
}

/// How far an expected score may be off: the error of TrueSkill's normal distribution is 1.2e-7.
fn etol<S: Sys>() -> f64 {
    if S::NAME == "TrueSkill" { 1e-6 } else { 1e-9 }
}

/// Rating advantage of player one which is part of the config.
fn advantage<S: Sys>(c: &S::C) -> f64 {
    let c: &dyn std::any::Any = c;
    if let Some(c) = c.downcast_ref::<GlickoBoostConfig>() {
        c.eta
    } else if let Some(c) = c.downcast_ref::<StickoConfig>() {
        c.gamma
    } else if let Some(c) = c.downcast_ref::<EGFConfig>() {
        // a handicap h adds 100 (h - 0.5) points to the side that receives it
        let h = c.handicap;
        if h == 0.0 {
            0.0
        } else if h > 0.0 {
            -100.0 * (h - 0.5)
        } else {
            100.0 * (-h - 0.5)
        }
    } else {
        0.0
    }
}

// ------------------------------------------------------------------ P01
fn p01(s: &mut Src) -> Case {
    for_system!(s, p01_s)
}
fn p01_s<S: Sys>(s: &mut Src) -> Case {
    let (a, b, c) = setup::<S>(s);
    let (e1, e2) = S::exp(&a, &b, &c);
    s.note(|| format!("expected ({e1:?}, {e2:?})"));
    let t = etol::<S>();
    ensure!((0.0..=1.0).contains(&e1) && (0.0..=1.0).contains(&e2), "expected scores ({e1}, {e2}) outside 0..=1");
    ensure!(close(e1 + e2, 1.0, 0.0, 1e-9), "expected scores ({e1}, {e2}) do not add up to 1");
    // seen from the other side of the board
    let (f2, f1) = S::exp(&b, &a, &S::swap_c(&c));
    ensure!(
        close(e1, f1, 0.0, t) && close(e2, f2, 0.0, t),
        "expected scores ({e1}, {e2}) become ({f2}, {f1}) when the players change sides"
    );
    // the stronger player is the favourite, equal players have equal chances
    let lead = S::SIGN * (S::rating(&a) - S::rating(&b)) + advantage::<S>(&c);
    if lead.abs() < 1e-9 {
        ensure!(close(e1, 0.5, 0.0, t), "equally strong players have expected scores ({e1}, {e2})");
    } else if lead > 0.0 {
        ensure!(e1 >= 0.5 - t, "the stronger player one (by {lead} points) has expected score {e1}");
    } else {
        ensure!(e1 <= 0.5 + t, "the weaker player one (by {lead} points) has expected score {e1}");
    }
    // strength pays: strictly, unless a score is saturated
    let step = scale::<S>() * (0.002 + 0.3 * s.f01());
    let up = S::with_rating(&a, S::rating(&a) + S::SIGN * step);
    if S::NAME != "EGF" || S::rating(&up) + advantage::<S>(&c).max(0.0) < 3295.0 {
        let (u1, _) = S::exp(&up, &b, &c);
        ensure!(u1 >= e1 - 1e-12, "a rating better by {step} lowers the expected score from {e1} to {u1}");
        if e1 > 1e-6 && e1 < 1.0 - 1e-6 {
            ensure!(u1 > e1, "a rating better by {step} leaves the expected score at {e1}");
        }
    }
    let up = S::with_rating(&b, S::rating(&b) + S::SIGN * step);
    if S::NAME != "EGF" || S::rating(&up) + (-advantage::<S>(&c)).max(0.0) < 3295.0 {
        let (u1, _) = S::exp(&a, &up, &c);
        ensure!(u1 <= e1 + 1e-12, "an opponent better by {step} raises the expected score from {e1} to {u1}");
        if e1 > 1e-6 && e1 < 1.0 - 1e-6 {
            ensure!(u1 < e1, "an opponent better by {step} leaves the expected score at {e1}");
        }
    }
    Ok(lead != 0.0 && e1 > 1e-9 && e1 < 1.0 - 1e-9)
}

// ------------------------------------------------------------------ P02
fn p02(s: &mut Src) -> Case {
    match s.arm(&[ALL, ALL, STICKO, EGF]) {
        0 | 1 => for_system!(s, p02_s),
        2 => p02_colour(s),
        _ => p02_egf(s),
    }
}
fn p02_s<S: Sys>(s: &mut Src) -> Case {
    let a = S::gen_r(s);
    let mut c = S::gen_c(s);
    let n = s.len(60);
    let opp: Vec<S::R> = (0..n).map(|_| S::gen_r(s)).collect();
    for o in &opp {
        c = S::fit(&a, o, c);
    }
    s.label(S::NAME);
    s.note(|| format!("{}: player {a:?}, config {c:?}, opponents {opp:?}", S::NAME));
    let v = S::exp_period(&a, &opp, &c);
    ensure!(v.len() == n, "{} predictions for {n} opponents", v.len());
    for (i, (e, o)) in v.iter().zip(&opp).enumerate() {
        let (w, _) = S::exp(&a, o, &c);
        ensure!(close(*e, w, 0.0, 1e-10), "prediction {i} is {e}, the head-to-head prediction {w}");
        ensure!((0.0..=1.0).contains(e), "prediction {i} is {e}");
    }
    Ok(n >= 2)
}
/// Per-game colours.
fn p02_colour(s: &mut Src) -> Case {
    let n = s.len(40);
    if s.bool() {
        s.label("Sticko colours");
        let a = SSticko::gen_r(s);
        let c = SSticko::gen_c(s);
        let opp: Vec<(StickoRating, bool)> = (0..n).map(|_| (SSticko::gen_r(s), s.bool())).collect();
        s.note(|| format!("Sticko: player {a:?}, config {c:?}, opponents {opp:?}"));
        let v = skillratings::sticko::expected_score_rating_period(&a, &opp, &c);
        ensure!(v.len() == n, "{} predictions for {n} opponents", v.len());
        for (i, (e, (o, first))) in v.iter().zip(&opp).enumerate() {
            let w = if *first { SSticko::exp(&a, o, &c).0 } else { SSticko::exp(o, &a, &c).1 };
            ensure!(close(*e, w, 0.0, 1e-10), "prediction {i} is {e}, the head-to-head prediction {w}");
        }
    } else {
        s.label("Glicko-Boost colours");
        let a = SBoost::gen_r(s);
        let c = SBoost::gen_c(s);
        let opp: Vec<(GlickoBoostRating, bool)> = (0..n).map(|_| (SBoost::gen_r(s), s.bool())).collect();
        s.note(|| format!("Glicko-Boost: player {a:?}, config {c:?}, opponents {opp:?}"));
        let v = skillratings::glicko_boost::expected_score_rating_period(&a, &opp, &c);
        ensure!(v.len() == n, "{} predictions for {n} opponents", v.len());
        for (i, (e, (o, first))) in v.iter().zip(&opp).enumerate() {
            let white = SBoost::exp(&a, o, &c).0;
            let w = if *first { white } else { SBoost::exp(o, &a, &c).1 };
            // Known finding boost-colour-ignored: games without the advantage are predicted as if
            // the player had it. Exactly that value is excused, and only for such games.
            let known = !*first && close(*e, white, 0.0, 1e-10);
            ensure!(
                close(*e, w, 0.0, 1e-10) || known,
                "prediction {i} is {e}, the head-to-head prediction {w}"
            );
        }
    }
    Ok(n >= 2)
}
fn boost_colour_ignored() -> bool {
    let p = GlickoBoostRating { rating: 1500.0, deviation: 100.0 };
    let c = GlickoBoostConfig::new();
    let v = skillratings::glicko_boost::expected_score_rating_period(&p, &[(p, false)], &c);
    let w = skillratings::glicko_boost::expected_score(&p, &p, &c).1;
    (v[0] - w).abs() > 1e-9
}
/// Per-game handicaps.
fn p02_egf(s: &mut Src) -> Case {
    let n = s.len(40);
    s.label("EGF handicaps");
    let a = SEgf::gen_r(s);
    let opp: Vec<(EGFRating, EGFConfig)> = (0..n)
        .map(|_| {
            let o = SEgf::gen_r(s);
            let c = SEgf::gen_c(s);
            (o, SEgf::fit(&a, &o, c))
        })
        .collect();
    s.note(|| format!("EGF: player {a:?}, opponents {opp:?}"));
    let v = skillratings::egf::expected_score_rating_period(&a, &opp);
    ensure!(v.len() == n, "{} predictions for {n} opponents", v.len());
    for (i, (e, (o, c))) in v.iter().zip(&opp).enumerate() {
        let w = SEgf::exp(&a, o, c).0;
        ensure!(close(*e, w, 0.0, 1e-10), "prediction {i} is {e}, the head-to-head prediction {w}");
    }
    Ok(n >= 2)
}

// ------------------------------------------------------------------ P04
fn p04(s: &mut Src) -> Case {
    match s.arm(&[ALL, ALL, ALL, ALL, TS | WL]) {
        0..=3 => for_system!(s, p04_s),
        _ => p04_teams(s),
    }
}
fn p04_s<S: Sys>(s: &mut Src) -> Case {
    let (a, b, c) = setup::<S>(s);
    let o = gen_outcome(s);
    let c = tame::<S>(s, c, o == DRAW);
    s.note(|| format!("outcome {o:?}"));
    let (x1, x2) = S::rate(&a, &b, o, &c);
    let (y2, y1) = S::rate(&b, &a, flip(o), &S::swap_c(&c));
    s.note(|| format!("one way {x1:?} {x2:?}, the other way {y1:?} {y2:?}"));
    let (rel, abs) = if S::NAME == "TrueSkill" { (1e-7, 1e-7) } else { (1e-9, 1e-9 * scale::<S>()) };
    ensure!(agree::<S>(&x1, &y1, &a, &c, rel, abs), "player one: {x1:?}, after changing sides {y1:?}");
    ensure!(agree::<S>(&x2, &y2, &b, &c, rel, abs), "player two: {x2:?}, after changing sides {y2:?}");
    Ok(S::fields(&a) != S::fields(&b))
}
fn p04_teams(s: &mut Src) -> Case {
    let o = gen_outcome(s);
    let (n, m) = (s.crowd(5, 20) - 1, s.crowd(5, 20) - 1);
    if s.arm(&[WL, TS]) == 1 {
        s.label("TrueSkill teams");
        let c = gen_ts_cfg(s);
        let c = tame::<STrueSkill>(s, c, o == DRAW);
        let a: Vec<_> = (0..n).map(|_| gen_ts(s)).collect();
        let b: Vec<_> = (0..m).map(|_| gen_ts(s)).collect();
        s.note(|| format!("TrueSkill {a:?} vs {b:?}, {o:?}, {c:?}"));
        let (x1, x2) = trueskill_two_teams(&a, &b, &o, &c);
        let (y2, y1) = trueskill_two_teams(&b, &a, &flip(o), &c);
        let eq = |x: &[TrueSkillRating], y: &[TrueSkillRating], old: &[TrueSkillRating]| {
            x.len() == old.len() && y.len() == old.len() && x.iter().zip(y).zip(old).all(|((p, q), o)| ts_near(p, q, o, &c, 1e-7))
        };
        ensure!(eq(&x1, &y1, &a) && eq(&x2, &y2, &b), "{x1:?} {x2:?}, after changing sides {y1:?} {y2:?}");
    } else {
        s.label("Weng-Lin teams");
        let c = gen_wl_cfg(s);
        let a: Vec<_> = (0..n).map(|_| gen_wl(s)).collect();
        let b: Vec<_> = (0..m).map(|_| gen_wl(s)).collect();
        s.note(|| format!("Weng-Lin {a:?} vs {b:?}, {o:?}, {c:?}"));
        let (x1, x2) = weng_lin_two_teams(&a, &b, &o, &c);
        let (y2, y1) = weng_lin_two_teams(&b, &a, &flip(o), &c);
        let eq = |x: &[WengLinRating], y: &[WengLinRating]| {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same::<SWengLin>(p, q, 1e-9, 1e-9))
        };
        ensure!(eq(&x1, &y1) && eq(&x2, &y2), "{x1:?} {x2:?}, after changing sides {y1:?} {y2:?}");
    }
    Ok(n > 0 && m > 0)
}

// ------------------------------------------------------------------ P05
fn p05(s: &mut Src) -> Case {
    const PERIODS: u32 = ALL & !(TS | WL | BOOST);
    match s.arm(&[ALL, ALL, ALL, ALL, PERIODS, PERIODS, TS | WL, WL]) {
        0..=3 => for_system!(s, p05_s),
        4 | 5 => match s.arm(&[ELO, FIFA, EGF, INGO, DWZ, GLICKO, GLICKO2, STICKO, USCF]) {
            0 => p05_period::<SElo>(s),
            1 => p05_period::<SFifa>(s),
            2 => p05_period::<SEgf>(s),
            3 => p05_period::<SIngo>(s),
            4 => p05_period::<SDwz>(s),
            5 => p05_period::<SGlicko>(s),
            6 => p05_period::<SGlicko2>(s),
            7 => p05_period::<SSticko>(s),
            _ => p05_period::<SUscf>(s),
        },
        6 => p05_two_teams(s),
        _ => p05_multi(s),
    }
}
fn p05_s<S: Sys>(s: &mut Src) -> Case {
    let (a, b, c) = setup::<S>(s);
    let c = tame::<S>(s, c, true);
    let w = S::rate(&a, &b, WIN, &c);
    let d = S::rate(&a, &b, DRAW, &c);
    let l = S::rate(&a, &b, LOSS, &c);
    s.note(|| format!("win {w:?}\ndraw {d:?}\nloss {l:?}"));
    let v = |r: &S::R| S::SIGN * S::rating(r);
    // Glicko-2 finds its volatility only up to the configured tolerance.
    let slack = if S::NAME == "Glicko-2" { 1e-6 + 400.0 * g2tol::<S>(&c) } else { 1e-9 * scale::<S>() };
    ensure!(v(&w.0) >= v(&d.0) - slack && v(&d.0) >= v(&l.0) - slack, "player one: win {}, draw {}, loss {}", S::rating(&w.0), S::rating(&d.0), S::rating(&l.0));
    ensure!(v(&l.1) >= v(&d.1) - slack && v(&d.1) >= v(&w.1) - slack, "player two: loss {}, draw {}, win {}", S::rating(&w.1), S::rating(&d.1), S::rating(&l.1));
    // a win never costs the winner points, and a defeat never pays, where the system has no
    // participation bonus, pull towards the opponent, shoot-out rule or provisional average
    let plain = match S::NAME {
        "Sticko" => {
            let k = (&c as &dyn std::any::Any).downcast_ref::<StickoConfig>().unwrap();
            k.beta == 0.0 && k.lambda == 0.0
        }
        "FIFA" => !(&c as &dyn std::any::Any).downcast_ref::<FifaConfig>().unwrap().penalties,
        "Ingo" => false,
        _ => true,
    };
    if plain {
        let prov = |r: &S::R| S::NAME == "USCF" && S::fields(r)[1] <= 8.0;
        if !prov(&a) {
            ensure!(v(&w.0) >= v(&a) - slack, "winning takes player one from {} to {}", S::rating(&a), S::rating(&w.0));
            if S::NAME != "EGF" {
                ensure!(v(&l.0) <= v(&a) + slack, "losing takes player one from {} to {}", S::rating(&a), S::rating(&l.0));
            }
        }
        if !prov(&b) {
            ensure!(v(&l.1) >= v(&b) - slack, "winning takes player two from {} to {}", S::rating(&b), S::rating(&l.1));
            if S::NAME != "EGF" {
                ensure!(v(&w.1) <= v(&b) + slack, "losing takes player two from {} to {}", S::rating(&b), S::rating(&w.1));
            }
        }
    }
    Ok(v(&w.0) > v(&l.0))
}
pub fn g2tol<S: Sys>(c: &S::C) -> f64 {
    (c as &dyn std::any::Any)
        .downcast_ref::<skillratings::glicko2::Glicko2Config>()
        .map_or(0.0, |k| k.convergence_tolerance)
}
fn better(s: &mut Src, o: Outcomes) -> Outcomes {
    match o {
        LOSS => s.pick(&[DRAW, WIN]),
        _ => WIN,
    }
}
fn p05_period<S: Sys>(s: &mut Src) -> Case {
    let a = S::gen_r(s);
    let mut c = S::gen_c(s);
    let n = s.len(40).max(1);
    let mut games: Vec<(S::R, Outcomes)> = (0..n).map(|_| (S::gen_r(s), gen_outcome(s))).collect();
    for g in &games {
        c = S::fit(&a, &g.0, c);
    }
    s.label(S::NAME);
    s.label("one result of a rating period improved");
    s.note(|| format!("{}: player {a:?}, config {c:?}, games {games:?}", S::NAME));
    let x = S::period(&a, &games, &c);
    let i = s.idx(n);
    let was = games[i].1;
    games[i].1 = better(s, was);
    let now = games[i].1;
    s.note(|| format!("game {i}: {was:?} becomes {now:?}"));
    let y = S::period(&a, &games, &c);
    let slack = if S::NAME == "Glicko-2" { 1e-6 + 400.0 * g2tol::<S>(&c) } else { 1e-8 * scale::<S>() };
    ensure!(
        S::SIGN * S::rating(&y) >= S::SIGN * S::rating(&x) - slack,
        "a better result in game {i} takes the new rating from {} to {}",
        S::rating(&x),
        S::rating(&y)
    );
    Ok(was != now && S::rating(&x) != S::rating(&y))
}
fn p05_two_teams(s: &mut Src) -> Case {
    let (n, m) = (s.crowd(5, 20), s.crowd(5, 20));
    s.label("two teams");
    macro_rules! go {
        ($gen:ident, $cfg:ident, $f:ident, $slack:expr) => {{
            let c = $cfg(s);
            let a: Vec<_> = (0..n).map(|_| $gen(s)).collect();
            let b: Vec<_> = (0..m).map(|_| $gen(s)).collect();
            s.note(|| format!("{a:?} vs {b:?}, {c:?}"));
            let w = $f(&a, &b, &WIN, &c);
            let d = $f(&a, &b, &DRAW, &c);
            let l = $f(&a, &b, &LOSS, &c);
            let (wr, dr, lr) = (&w, &d, &l);
            ensure!([wr, dr, lr].iter().all(|x| x.0.len() == n && x.1.len() == m), "team sizes changed: {w:?}");
            for i in 0..n {
                let (x, y, z, o) = (w.0[i].rating, d.0[i].rating, l.0[i].rating, a[i].rating);
                let k = $slack * unit();
                ensure!(x >= y - k && y >= z - k && x >= o - k && z <= o + k, "team one, player {i} at {o}: win {x}, draw {y}, loss {z}");
            }
            for i in 0..m {
                let (x, y, z, o) = (l.1[i].rating, d.1[i].rating, w.1[i].rating, b[i].rating);
                let k = $slack * unit();
                ensure!(x >= y - k && y >= z - k && x >= o - k && z <= o + k, "team two, player {i} at {o}: win {x}, draw {y}, loss {z}");
            }
            Ok(n + m > 2)
        }};
    }
    if s.arm(&[WL, TS]) == 1 { go!(gen_ts, gen_ts_cfg, trueskill_two_teams, 1e-6) } else { go!(gen_wl, gen_wl_cfg, weng_lin_two_teams, 1e-9) }
}
/// Weng-Lin: a better place never lowers the ratings of a team, nor raises those it overtakes.
fn p05_multi(s: &mut Src) -> Case {
    let n = 1 + s.size(6, 20);
    let c = gen_wl_cfg(s);
    let teams: Vec<Vec<WengLinRating>> = (0..n).map(|_| { let k = s.size(4, 12); (0..k).map(|_| gen_wl(s)).collect() }).collect();
    let mut ranks = super::teams::gen_ranks(s, n, false);
    s.label("Weng-Lin multi-team, better place");
    s.note(|| format!("Weng-Lin {teams:?} ranks {ranks:?}, {c:?}"));
    let run = |r: &[usize]| {
        let v: Vec<_> = teams.iter().zip(r).map(|(t, r)| (&t[..], skillratings::MultiTeamOutcome::new(*r))).collect();
        weng_lin_multi_team(&v, &c)
    };
    let x = run(&ranks);
    let i = s.idx(n);
    let was = ranks[i];
    ranks[i] = if s.one_in(4) { s.idx(was.min(n) + 1) } else { s.below((was as u64).saturating_add(1)) as usize };
    let now = ranks[i];
    s.note(|| format!("team {i} moves from rank {was} to {now}"));
    let y = run(&ranks);
    ensure!(x.len() == n && y.len() == n, "{} teams returned for {n}", x.len());
    for j in 0..n {
        for p in 0..teams[j].len() {
            let (u, v) = (x[j][p].rating, y[j][p].rating);
            if j == i {
                ensure!(v >= u - 1e-9, "a better place takes player {p} from {u} to {v}");
            } else {
                ensure!(v <= u + 1e-9, "another team's better place takes team {j}, player {p} from {u} to {v}");
            }
        }
    }
    Ok(now != was)
}

// ------------------------------------------------------------------ P07
fn p07(s: &mut Src) -> Case {
    match s.arm(&[ALL, ALL, ALL, ALL, STICKO | BOOST, FIFA | EGF]) {
        0..=3 => for_system!(s, p07_s),
        4 => p07_colour(s),
        _ => p07_config(s),
    }
}
fn ptol<S: Sys>(c: &S::C) -> (f64, f64) {
    match S::NAME {
        "Glicko-2" => (1e-7 + 3.0 * g2tol::<S>(c), 1e-6),
        "TrueSkill" => (1e-7, 1e-7),
        _ => (1e-9, 1e-9 * scale::<S>()),
    }
}
fn p07_s<S: Sys>(s: &mut Src) -> Case {
    let a = S::gen_r(s);
    let mut c = S::gen_c(s);
    let n = s.len(40);
    let games: Vec<(S::R, Outcomes)> = (0..n).map(|_| (S::gen_r(s), gen_outcome(s))).collect();
    for g in &games {
        c = S::fit(&a, &g.0, c);
    }
    c = tame::<S>(s, c, games.iter().any(|g| g.1 == DRAW));
    s.label(S::NAME);
    s.label_if(n == 0, "no games");
    s.label_if(n == 1, "one game");
    s.note(|| format!("{}: player {a:?}, config {c:?}, games {games:?}", S::NAME));
    let (rel, abs) = ptol::<S>(&c);
    // no games: the rating stays, only the uncertainty may grow
    let e = S::period(&a, &[], &c);
    ensure!(close(S::rating(&e), S::rating(&a), 1e-12, 0.0), "a period without games takes the rating from {:?} to {:?}", a, e);
    if let (Some(u), Some(v)) = (S::unc(&a), S::unc(&e)) {
        let low = if S::NAME.contains("lick") || S::NAME == "Sticko" { u.min(350.0) } else { u };
        ensure!(v >= low * (1.0 - 1e-12), "a period without games lowers the uncertainty from {u} to {v}");
    }
    if S::NAME == "USCF" || S::NAME == "Ingo" {
        ensure!(S::fields(&e) == S::fields(&a), "a period without games takes {a:?} to {e:?}");
    }
    // one game: the same as the head-to-head update, for either side
    let (b, o) = if n > 0 { games[0] } else { (S::gen_r(s), gen_outcome(s)) };
    let c1 = tame::<S>(s, S::fit(&a, &b, c), o == DRAW);
    let (x1, x2) = S::rate(&a, &b, o, &c1);
    let y1 = S::period(&a, &[(b, o)], &c1);
    ensure!(agree::<S>(&x1, &y1, &a, &c1, rel, abs), "game {o:?} against {b:?}: head to head {x1:?}, as a period {y1:?}");
    let y2 = S::period(&b, &[(a, flip(o))], &S::swap_c(&c1));
    ensure!(agree::<S>(&x2, &y2, &b, &c1, rel, abs), "game {:?} of {b:?} against {a:?}: head to head {x2:?}, as a period {y2:?}", flip(o));
    if n >= 2 {
        let all = S::period(&a, &games, &c);
        match S::PERIOD {
            PeriodKind::Sequential => {
                let mut r = a;
                for (b, o) in &games {
                    r = S::rate(&r, b, *o, &c).0;
                }
                let k = n as f64;
                ensure!(agree::<S>(&all, &r, &a, &c, rel * k, abs * k), "{n} games in one period: {all:?}, one by one: {r:?}");
            }
            PeriodKind::Batch => {
                let mut perm = games.clone();
                for i in (1..n).rev() {
                    let j = s.idx(i + 1);
                    perm.swap(i, j);
                }
                let r = S::period(&a, &perm, &c);
                // batch results may differ by summation order, which a threshold could amplify
                ensure!(same::<S>(&all, &r, rel * 10.0, abs * 10.0) || near_threshold::<S>(&a, &games, &c), "{n} games: {all:?}, in another order: {r:?}");
            }
        }
    }
    Ok(n >= 2)
}
/// Glicko-Boost: |z - k| so small that rounding decides about the boost.
fn near_threshold<S: Sys>(a: &S::R, games: &[(S::R, Outcomes)], c: &S::C) -> bool {
    let Some(k) = (c as &dyn std::any::Any).downcast_ref::<GlickoBoostConfig>() else { return false };
    let f = S::fields(a);
    let g: Vec<crate::refs::G> = games
        .iter()
        .map(|(r, o)| {
            let f = S::fields(r);
            crate::refs::G { r: f[0], rd: f[1], s: points(*o), adv: k.eta }
        })
        .collect();
    let bc = crate::refs::BoostC { k: k.k, b: k.b, alpha: [k.alpha.0, k.alpha.1, k.alpha.2, k.alpha.3, k.alpha.4] };
    let (z, _, _) = crate::refs::boost(f[0], f[1], &bc, &g);
    (z - k.k).abs() < 1e-7 * (1.0 + k.k)
}
fn p07_colour(s: &mut Src) -> Case {
    let n = s.len(30);
    let o1 = gen_outcome(s);
    macro_rules! go {
        ($S:ident, $period:path) => {{
            s.label($S::NAME);
            s.label("colours");
            let a = $S::gen_r(s);
            let c = $S::gen_c(s);
            let mut games: Vec<_> = (0..n).map(|_| ($S::gen_r(s), gen_outcome(s), s.bool())).collect();
            s.note(|| format!("{}: player {a:?}, config {c:?}, games {games:?}", $S::NAME));
            let b = $S::gen_r(s);
            s.note(|| format!("single game against {b:?}, {o1:?}"));
            // without the advantage: the second player's view of a head-to-head game
            let y = $period(&a, &[(b, o1, false)], &c);
            let (_, x) = $S::rate(&b, &a, flip(o1), &c);
            ensure!(same::<$S>(&x, &y, 1e-9, 1e-6), "second player: head to head {x:?}, as a period {y:?}");
            let y = $period(&a, &[(b, o1, true)], &c);
            let (x, _) = $S::rate(&a, &b, o1, &c);
            ensure!(same::<$S>(&x, &y, 1e-9, 1e-6), "first player: head to head {x:?}, as a period {y:?}");
            // an advantage for the first player is a handicap of the second
            let neg = $S::swap_c(&c);
            let x = $period(&a, &games, &c);
            for g in &mut games {
                g.2 = !g.2;
            }
            let y = $period(&a, &games, &neg);
            ensure!(same::<$S>(&x, &y, 1e-9, 1e-6), "{x:?}, with sides and advantage swapped {y:?}");
        }};
    }
    if s.arm(&[BOOST, STICKO]) == 1 {
        go!(SSticko, skillratings::sticko::sticko_rating_period)
    } else {
        go!(SBoost, skillratings::glicko_boost::glicko_boost_rating_period)
    }
    Ok(n >= 1)
}
/// Per-game configs: FIFA one by one, EGF as the sum of what each game changes.
fn p07_config(s: &mut Src) -> Case {
    let n = s.len(30);
    if s.arm(&[EGF, FIFA]) == 1 {
        s.label("FIFA per-game configs");
        let a = SFifa::gen_r(s);
        let games: Vec<_> = (0..n).map(|_| (SFifa::gen_r(s), gen_outcome(s), SFifa::gen_c(s))).collect();
        s.note(|| format!("FIFA: {a:?}, games {games:?}"));
        let x = fifa_rating_period(&a, &games);
        let mut r = a;
        for (b, o, c) in &games {
            r = SFifa::rate(&r, b, *o, c).0;
        }
        ensure!(same::<SFifa>(&x, &r, 1e-9, 1e-6), "in one period {x:?}, one by one {r:?}");
    } else {
        s.label("EGF per-game configs");
        let a = SEgf::gen_r(s);
        let games: Vec<_> = (0..n)
            .map(|_| {
                let b = SEgf::gen_r(s);
                let o = gen_outcome(s);
                let c = SEgf::gen_c(s);
                (b, o, SEgf::fit(&a, &b, c))
            })
            .collect();
        s.note(|| format!("EGF: {a:?}, games {games:?}"));
        let x = skillratings::egf::egf_rating_period(&a, &games);
        let sum: f64 = games.iter().map(|(b, o, c)| SEgf::rate(&a, b, *o, c).0.rating - a.rating).sum();
        let r = EGFRating { rating: (a.rating + sum).max(-900.0) };
        ensure!(same::<SEgf>(&x, &r, 1e-9, 1e-6), "in one period {x:?}, sum of the single changes {r:?}");
    }
    Ok(n >= 2)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "A system, two players (ratings/uncertainties default, round, uniform, wide, boundary, dictionary or nearly equal) and a config; the expected scores are checked for range, sum, symmetry, favourite and strict monotonicity. Non-trivial: the players differ in strength and no score is saturated.",
            run: p01,
            quick: 28_000_000,
            assumptions: &["EGF: rating plus handicap stays below the system's limit of 3300", "TrueSkill's normal distribution is accurate to 1e-6"],
            known: &[],
        },
        Prop {
            id: "P02",
            rule: "A player, up to 60 opponents (per-game colour or handicap where the system has one); every prediction of the rating-period form is compared with the head-to-head prediction. Non-trivial: at least two opponents.",
            run: p02,
            quick: 20_000_000,
            assumptions: &["EGF: rating plus handicap stays below 3300"],
            known: &[("boost-colour-ignored", boost_colour_ignored)],
        },
        Prop {
            id: "P04",
            rule: "Two players or two teams of up to 4, an outcome and a config; the update is repeated with the sides exchanged, the outcome reversed and any side advantage negated. Non-trivial: the two players differ (teams: both non-empty).",
            run: p04,
            quick: 24_000_000,
            assumptions: &["TrueSkill: dynamics factor below beta"],
            known: &[],
        },
        Prop {
            id: "P05",
            rule: "Two players, two teams, a rating period or a multi-team match; the same match is rated with a better and a worse result. Non-trivial: the results really differ.",
            run: p05,
            quick: 16_000_000,
            assumptions: &["Glicko-Boost rating periods and sequential periods of TrueSkill/Weng-Lin are not covered: their published formulas are not monotone there"],
            known: &[],
        },
        Prop {
            id: "P07",
            rule: "A player and up to 40 games (per-game colour or config where the system has one): a period without games, with one game (both sides' view), against game-by-game play for sequential systems, and in another order for batch systems. Non-trivial: at least two games.",
            run: p07,
            quick: 16_000_000,
            assumptions: &["Glicko-Boost: cases whose z-score is within 1e-7 of the threshold are not compared across orders"],
            known: &[],
        },
    ]
}
