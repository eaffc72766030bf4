//! The interface around the formulas: traits, constructors and conversions, serde, purity.

use super::teams::{Place, PLACE, gen_ranks, gen_teams, gen_weights, ranked, slices};
use crate::src::sysmask::*;
use crate::src::{spec, Src};
use crate::sys::*;
use crate::{ensure, Case, Prop};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use skillratings::dwz::*;
use skillratings::egf::*;
use skillratings::elo::*;
use skillratings::fifa::*;
use skillratings::glicko::*;
use skillratings::glicko2::*;
use skillratings::glicko_boost::*;
use skillratings::ingo::*;
use skillratings::sticko::*;
use skillratings::trueskill::*;
use skillratings::uscf::*;
use skillratings::weng_lin::*;
use skillratings::{
    MultiTeamOutcome, MultiTeamRatingSystem, Outcomes, Rating, RatingPeriodSystem, RatingSystem, TeamRatingSystem,
};
use std::fmt::Debug;

macro_rules! with_trait {
    ($s:expr, $f:ident) => {
        match $s.arm(&$crate::src::sysmask::EACH) {
            0 => $f::<SElo, Elo>($s),
            1 => $f::<SGlicko, Glicko>($s),
            2 => $f::<SGlicko2, Glicko2>($s),
            3 => $f::<STrueSkill, TrueSkill>($s),
            4 => $f::<SWengLin, WengLin>($s),
            5 => $f::<SUscf, USCF>($s),
            6 => $f::<SDwz, DWZ>($s),
            7 => $f::<SIngo, Ingo>($s),
            8 => $f::<SFifa, Fifa>($s),
            9 => $f::<SEgf, EGF>($s),
            10 => $f::<SSticko, Sticko>($s),
            _ => $f::<SBoost, GlickoBoost>($s),
        }
    };
}
const REL: f64 = 1e-10;

// ------------------------------------------------------------------ P08
fn p08(s: &mut Src) -> Case {
    match s.arm(&[ALL, ALL, ALL, TS | WL]) {
        0..=2 => with_trait!(s, p08_s),
        _ => p08_teams(s),
    }
}
fn p08_s<S: Sys, T>(s: &mut Src) -> Case
where
    T: RatingSystem<RATING = S::R, CONFIG = S::C> + RatingPeriodSystem<RATING = S::R, CONFIG = S::C>,
    S::R: Rating,
{
    s.label(S::NAME);
    let mut c = S::gen_c(s);
    let n = 1 + s.idx(4);
    let players: Vec<S::R> = (0..n + 1).map(|_| S::gen_r(s)).collect();
    for a in &players {
        for b in &players {
            c = S::fit(a, b, c);
        }
    }
    s.note(|| format!("{}: players {players:?}, config {c:?}", S::NAME));
    let games: Vec<T> = vec![<T as RatingSystem>::new(c)];
    let periods: T = <T as RatingPeriodSystem>::new(c);
    let g = &games[0];
    // the Rating view of a player
    for p in &players {
        ensure!(p.rating() == S::rating(p), "rating() of {p:?} is {}", p.rating());
        ensure!(p.uncertainty() == S::unc(p), "uncertainty() of {p:?} is {:?}", p.uncertainty());
    }
    // several calls on the same system value
    let k = 1 + s.idx(5);
    for _ in 0..k {
        let (i, j) = (s.idx(n + 1), s.idx(n + 1));
        let (a, b) = (&players[i], &players[j]);
        match s.below(4) {
            0 => {
                let o = gen_outcome(s);
                s.note(|| format!("rate {i} {j} {o:?}"));
                let x = RatingSystem::rate(g, a, b, &o);
                let y = S::rate(a, b, o, &c);
                ensure!(same::<S>(&x.0, &y.0, REL, 0.0) && same::<S>(&x.1, &y.1, REL, 0.0), "trait {x:?}, function {y:?}");
            }
            1 => {
                s.note(|| format!("expected_score {i} {j}"));
                let x = RatingSystem::expected_score(g, a, b);
                let y = S::exp(a, b, &c);
                ensure!(close(x.0, y.0, REL, 0.0) && close(x.1, y.1, REL, 0.0), "trait {x:?}, function {y:?}");
            }
            2 => {
                let m = s.len(6);
                let r: Vec<(S::R, Outcomes)> = (0..m).map(|_| (players[s.idx(n + 1)], gen_outcome(s))).collect();
                s.note(|| format!("period of {i}: {r:?}"));
                let x = RatingPeriodSystem::rate(&periods, a, &r);
                let y = S::period(a, &r, &c);
                ensure!(same::<S>(&x, &y, REL, 0.0), "trait {x:?}, function {y:?}");
            }
            _ => {
                let m = s.len(6);
                let r: Vec<S::R> = (0..m).map(|_| players[s.idx(n + 1)]).collect();
                s.note(|| format!("expected scores of {i}: {r:?}"));
                let x = RatingPeriodSystem::expected_score(&periods, a, &r);
                let y = S::exp_period(a, &r, &c);
                ensure!(x.len() == m && x.iter().zip(&y).all(|(p, q)| close(*p, *q, REL, 0.0)), "trait {x:?}, function {y:?}");
            }
        }
    }
    // ratings made through the trait
    let (r, u) = (s.num(&spec(1500.0, 0.0, 3000.0, -1e4, 1e4)), s.num(&spec(100.0, 0.0, 400.0, 0.001, 1000.0)));
    let p = <S::R as Rating>::new(Some(r), Some(u));
    ensure!(p.rating() == r, "new(Some({r}), Some({u})) has the rating {}", p.rating());
    match p.uncertainty() {
        Some(v) => ensure!(S::unc(&players[0]).is_some() && v == u, "new(Some({r}), Some({u})) has the uncertainty {v}"),
        None => ensure!(S::unc(&players[0]).is_none(), "new(Some({r}), Some({u})) has no uncertainty"),
    }
    let d = <S::R as Rating>::new(None, None);
    let q = <S::R as Rating>::new(Some(r), None);
    ensure!(q.rating() == r && q.uncertainty() == d.uncertainty(), "new(Some({r}), None) is {q:?}");
    let q = <S::R as Rating>::new(None, Some(u));
    ensure!(q.rating() == d.rating() && q.uncertainty() == p.uncertainty(), "new(None, Some({u})) is {q:?}");
    Ok(k >= 2)
}
fn p08_teams(s: &mut Src) -> Case {
    if s.arm(&[WL, TS]) == 1 {
        let c = gen_ts_cfg(s);
        s.label("TrueSkill teams");
        p08_t::<STrueSkill, TrueSkill>(
            s,
            c,
            gen_ts,
            |a, b, o| trueskill_two_teams(a, b, &o, &c),
            |v| trueskill_multi_team(v, &c, None).ok(),
            |a, b| skillratings::trueskill::expected_score_two_teams(a, b, &c),
            |v| skillratings::trueskill::expected_score_multi_team(v, &c),
        )
    } else {
        let c = gen_wl_cfg(s);
        s.label("Weng-Lin teams");
        p08_t::<SWengLin, WengLin>(
            s,
            c,
            gen_wl,
            |a, b, o| weng_lin_two_teams(a, b, &o, &c),
            |v| Some(weng_lin_multi_team(v, &c)),
            |a, b| skillratings::weng_lin::expected_score_two_teams(a, b, &c),
            |v| skillratings::weng_lin::expected_score_multi_team(v, &c),
        )
    }
}
#[allow(clippy::type_complexity)]
fn p08_t<S: Sys, T>(
    s: &mut Src,
    c: S::C,
    gen: fn(&mut Src) -> S::R,
    two: impl Fn(&[S::R], &[S::R], Outcomes) -> (Vec<S::R>, Vec<S::R>),
    multi: impl Fn(&[(&[S::R], MultiTeamOutcome)]) -> Option<Vec<Vec<S::R>>>,
    e_two: impl Fn(&[S::R], &[S::R]) -> (f64, f64),
    e_multi: impl Fn(&[&[S::R]]) -> Vec<f64>,
) -> Case
where
    T: TeamRatingSystem<RATING = S::R, CONFIG = S::C> + MultiTeamRatingSystem<RATING = S::R, CONFIG = S::C>,
    S::R: Rating,
{
    let sys2 = <T as TeamRatingSystem>::new(c);
    let sysm = <T as MultiTeamRatingSystem>::new(c);
    let k = 1 + s.idx(3);
    let eq = |x: &[S::R], y: &[S::R]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same::<S>(p, q, REL, 0.0));
    for _ in 0..k {
        let mut t = gen_teams(s, 2, 5, 3, gen);
        if s.one_in(8) {
            let n = s.idx(2);
            t.truncate(n);
        }
        if s.one_in(12) && !t.is_empty() {
            let i = s.idx(t.len());
            t[i].clear();
        }
        let r = gen_ranks(s, t.len(), false);
        let o = gen_outcome(s);
        s.note(|| format!("teams {t:?}, ranks {r:?}, {o:?}, {c:?}"));
        if t.len() >= 2 {
            let x = TeamRatingSystem::rate(&sys2, &t[0], &t[1], &o);
            let y = two(&t[0], &t[1], o);
            ensure!(eq(&x.0, &y.0) && eq(&x.1, &y.1), "two teams: trait {x:?}, function {y:?}");
            let x = TeamRatingSystem::expected_score(&sys2, &t[0], &t[1]);
            let y = e_two(&t[0], &t[1]);
            ensure!(close(x.0, y.0, REL, 0.0) && close(x.1, y.1, REL, 0.0), "two teams: trait {x:?}, function {y:?}");
        }
        let v = ranked(&t, &r);
        let x = MultiTeamRatingSystem::rate(&sysm, &v);
        let Some(y) = multi(&v) else { return Err("the multi-team update failed without any weights".into()) };
        ensure!(x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| eq(p, q)), "multi-team: trait {x:?}, function {y:?}");
        let v = slices(&t);
        let x = MultiTeamRatingSystem::expected_score(&sysm, &v);
        let y = e_multi(&v);
        ensure!(
            x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| close(*p, *q, REL, 0.0) || (p.is_nan() && q.is_nan())),
            "multi-team predictions: trait {x:?}, function {y:?}"
        );
    }
    Ok(k >= 2)
}

// ------------------------------------------------------------------ P09
fn p09(s: &mut Src) -> Case {
    let r = s.num(&spec(1500.0, 0.0, 3000.0, -1e4, 1e4));
    let u = s.num(&spec(100.0, 0.0, 400.0, 0.0, 1e4));
    let v = s.num(&spec(0.06, 0.0, 0.2, 0.0, 10.0));
    let age = gen_age(s);
    let n = s.int(&[0, 1, 2], 100, usize::MAX);
    s.note(|| format!("rating {r:?}, uncertainty {u:?}, volatility {v:?}, age {age}, count {n}"));
    macro_rules! eq {
        ($what:expr, $got:expr, $want:expr) => {
            ensure!($got == $want, "{}: {:?} instead of {:?}", $what, $got, $want)
        };
    }
    let near = |a: f64, b: f64| close(a, b, 1e-10, 1e-7);
    match s.below(5) {
        0 => {
            s.label("outcomes, ranks, new and default values");
            let o = gen_outcome(s);
            eq!("chess points", o.to_chess_points(), points(o));
            let m = MultiTeamOutcome::new(n);
            eq!("rank", m.rank(), n);
            eq!("rank as number", usize::from(m), n);
            eq!("rank from number", MultiTeamOutcome::from(n), m);
            let k = s.int(&[0, 1, 2], 100, usize::MAX);
            eq!("order of ranks", m.cmp(&MultiTeamOutcome::new(k)), n.cmp(&k));
            eq!("DWZ of an age", DWZRating::new(age), DWZRating { rating: 1000.0, index: 1, age });
            eq!("Ingo of an age", IngoRating::new(age), IngoRating { rating: 230.0, age });
            let start = if age < 2 { 100.0 } else if age >= 26 { 1300.0 } else { 50.0 * age as f64 };
            eq!("USCF of an age", USCFRating::new(age), USCFRating { rating: start, games: 0 });
            eq!("DWZ default", DWZRating::default(), DWZRating::new(26));
            eq!("Ingo default", IngoRating::default(), IngoRating::new(26));
            eq!("USCF default", USCFRating::default(), USCFRating::new(26));
            if s.one_in(500) {
                s.label("default configs");
            for (what, d, want) in [
                ("Elo", format!("{:?}", EloConfig::default()), format!("{:?}", EloConfig { k: 32.0 })),
                ("FIFA", format!("{:?}", FifaConfig::default()), format!("{:?}", FifaConfig { importance: 10.0, knockout: false, penalties: false })),
                ("EGF", format!("{:?}", EGFConfig::default()), format!("{:?}", EGFConfig { handicap: 0.0 })),
                ("USCF", format!("{:?}", USCFConfig::default()), format!("{:?}", USCFConfig { t: 14.0 })),
                ("Glicko", format!("{:?}", GlickoConfig::default()), format!("{:?}", GlickoConfig { c: 63.2 })),
                ("Glicko-2", format!("{:?}", Glicko2Config::default()), format!("{:?}", Glicko2Config { tau: 0.5, convergence_tolerance: 1e-6 })),
                ("Sticko", format!("{:?}", StickoConfig::default()), format!("{:?}", StickoConfig { h: 10.0, beta: 0.0, lambda: 2.0, gamma: 0.0, c: 10.0 })),
                ("Weng-Lin", format!("{:?}", WengLinConfig::default()), format!("{:?}", WengLinConfig { beta: 25.0 / 6.0, uncertainty_tolerance: 1e-6 })),
                (
                    "Glicko-Boost",
                    format!("{:?}", GlickoBoostConfig::default()),
                    format!("{:?}", GlickoBoostConfig { eta: 30.0, k: 1.96, b: (0.20139, 17.5), alpha: (5.83733, -1.75374e-4, -7.080124e-5, 0.001733792, 0.00026706) }),
                ),
            ] {
                ensure!(d == want, "{what} default config {d} instead of {want}");
            }
            let t = TrueSkillConfig::default();
            ensure!(near(t.draw_probability, 0.1) && near(t.beta, 25.0 / 6.0) && near(t.dynamics_factor, 25.0 / 300.0), "TrueSkill default config {t:?}");
            }
        }
        1 => {
            s.label("ratings from plain values");
            eq!("Elo", EloRating::from(r), EloRating { rating: r });
            eq!("FIFA", FifaRating::from(r), FifaRating { rating: r });
            eq!("EGF", EGFRating::from(r), EGFRating { rating: r });
            eq!("Ingo", IngoRating::from(r), IngoRating { rating: r, age: 26 });
            eq!("Ingo with age", IngoRating::from((r, age)), IngoRating { rating: r, age });
            eq!("DWZ", DWZRating::from((r, n, age)), DWZRating { rating: r, index: n, age });
            eq!("DWZ without age", DWZRating::from((r, n)), DWZRating { rating: r, index: n, age: 26 });
            eq!("USCF", USCFRating::from((r, n)), USCFRating { rating: r, games: n });
            eq!("Glicko", GlickoRating::from((r, u)), GlickoRating { rating: r, deviation: u });
            eq!("Glicko-2", Glicko2Rating::from((r, u, v)), Glicko2Rating { rating: r, deviation: u, volatility: v });
            eq!("Glicko-Boost", GlickoBoostRating::from((r, u)), GlickoBoostRating { rating: r, deviation: u });
            eq!("Sticko", StickoRating::from((r, u)), StickoRating { rating: r, deviation: u });
            eq!("TrueSkill", TrueSkillRating::from((r, u)), TrueSkillRating { rating: r, uncertainty: u });
            eq!("Weng-Lin", WengLinRating::from((r, u)), WengLinRating { rating: r, uncertainty: u });
        }
        2 => {
            s.label("Glicko family and TrueSkill/Weng-Lin conversions");
            let g = GlickoRating { rating: r, deviation: u };
            let g2 = Glicko2Rating { rating: r, deviation: u, volatility: v };
            let gb = GlickoBoostRating { rating: r, deviation: u };
            let st = StickoRating { rating: r, deviation: u };
            eq!("Glicko from Glicko-2", GlickoRating::from(g2), g);
            eq!("Glicko from Glicko-Boost", GlickoRating::from(gb), g);
            eq!("Glicko from Sticko", GlickoRating::from(st), g);
            eq!("Glicko-Boost from Glicko", GlickoBoostRating::from(g), gb);
            eq!("Glicko-Boost from Glicko-2", GlickoBoostRating::from(g2), gb);
            eq!("Glicko-Boost from Sticko", GlickoBoostRating::from(st), gb);
            eq!("Sticko from Glicko", StickoRating::from(g), st);
            eq!("Sticko from Glicko-2", StickoRating::from(g2), st);
            eq!("Sticko from Glicko-Boost", StickoRating::from(gb), st);
            let want = Glicko2Rating { rating: r, deviation: u, volatility: 0.06 };
            eq!("Glicko-2 from Glicko", Glicko2Rating::from(g), want);
            eq!("Glicko-2 from Glicko-Boost", Glicko2Rating::from(gb), want);
            eq!("Glicko-2 from Sticko", Glicko2Rating::from(st), want);
            let t = TrueSkillRating { rating: r, uncertainty: u };
            let w = WengLinRating { rating: r, uncertainty: u };
            eq!("TrueSkill from Weng-Lin", TrueSkillRating::from(w), t);
            eq!("Weng-Lin from TrueSkill", WengLinRating::from(t), w);
        }
        3 => {
            s.label("Elo conversions");
            let e = EloRating { rating: r };
            eq!("FIFA from Elo", FifaRating::from(e), FifaRating { rating: r });
            eq!("Elo from FIFA", EloRating::from(FifaRating { rating: r }), e);
            eq!("DWZ from Elo", DWZRating::from(e), DWZRating { rating: r, index: 6, age: 26 });
            eq!("Elo from DWZ", EloRating::from(DWZRating { rating: r, index: n, age }), e);
            let i = IngoRating::from(e);
            ensure!(near(i.rating, 355.0 - r / 8.0) && i.age == 26, "Ingo from Elo {r}: {i:?}");
            ensure!(near(EloRating::from(i).rating, r), "Elo {r} to Ingo and back: {:?}", EloRating::from(i));
            let back = EloRating::from(IngoRating { rating: r, age });
            ensure!(near(back.rating, 2840.0 - 8.0 * r), "Elo from Ingo {r}: {back:?}");
            ensure!(near(IngoRating::from(back).rating, r), "Ingo {r} to Elo and back: {:?}", IngoRating::from(back));
            let us = USCFRating::from(e);
            let (want, games) = if r > 2000.0 { (0.94 * r + 180.0, 10) } else { (1.02 * r + 20.0, 5) };
            ensure!(near(us.rating, want) && us.games == games, "USCF from Elo {r}: {us:?}");
            ensure!(near(EloRating::from(us).rating, r), "Elo {r} to USCF and back: {:?}", EloRating::from(us));
            let el = EloRating::from(USCFRating { rating: r, games: n });
            let want = if r > 2060.0 { (r - 180.0) / 0.94 } else { (r - 20.0) / 1.02 };
            ensure!(near(el.rating, want), "Elo from USCF {r}: {el:?}");
            ensure!(near(USCFRating::from(el).rating, r), "USCF {r} to Elo and back: {:?}", USCFRating::from(el));
            // a stronger player stays the stronger one
            let d = s.num(&spec(10.0, 0.5, 500.0, 0.01, 5000.0));
            s.note(|| format!("and a player {d} points stronger"));
            let e2 = EloRating { rating: r + d };
            ensure!(USCFRating::from(e2).rating > us.rating, "{e2:?} becomes {:?}, {e:?} becomes {us:?}", USCFRating::from(e2));
            ensure!(IngoRating::from(e2).rating < i.rating, "{e2:?} becomes {:?}, {e:?} becomes {i:?}", IngoRating::from(e2));
            let el2 = EloRating::from(USCFRating { rating: r + d, games: n });
            ensure!(el2.rating > el.rating, "USCF {} becomes {el2:?}, USCF {r} becomes {el:?}", r + d);
        }
        _ => {
            s.label("ratings made through the trait");
            fn n<R: Rating>(r: Option<f64>, u: Option<f64>) -> R {
                R::new(r, u)
            }
            let a = if s.bool() { Some(r) } else { None };
            let b = if s.bool() { Some(u) } else { None };
            s.note(|| format!("new({a:?}, {b:?})"));
            let o = |d: f64| a.unwrap_or(d);
            let q = |d: f64| b.unwrap_or(d);
            eq!("Elo", n::<EloRating>(a, b), EloRating { rating: o(1000.0) });
            eq!("FIFA", n::<FifaRating>(a, b), FifaRating { rating: o(1000.0) });
            eq!("EGF", n::<EGFRating>(a, b), EGFRating { rating: o(0.0) });
            eq!("Ingo", n::<IngoRating>(a, b), IngoRating { rating: o(230.0), age: 26 });
            eq!("DWZ", n::<DWZRating>(a, b), DWZRating { rating: o(1000.0), index: 1, age: 26 });
            eq!("USCF", n::<USCFRating>(a, b), USCFRating { rating: o(1300.0), games: 0 });
            eq!("Glicko", n::<GlickoRating>(a, b), GlickoRating { rating: o(1500.0), deviation: q(350.0) });
            eq!("Glicko-2", n::<Glicko2Rating>(a, b), Glicko2Rating { rating: o(1500.0), deviation: q(350.0), volatility: 0.06 });
            eq!("Glicko-Boost", n::<GlickoBoostRating>(a, b), GlickoBoostRating { rating: o(1500.0), deviation: q(350.0) });
            eq!("Sticko", n::<StickoRating>(a, b), StickoRating { rating: o(1500.0), deviation: q(350.0) });
            eq!("TrueSkill", n::<TrueSkillRating>(a, b), TrueSkillRating { rating: o(25.0), uncertainty: q(25.0 / 3.0) });
            eq!("Weng-Lin", n::<WengLinRating>(a, b), WengLinRating { rating: o(25.0), uncertainty: q(25.0 / 3.0) });
            if a.is_none() && b.is_none() {
                eq!("Elo default", EloRating::default(), n::<EloRating>(a, b));
                eq!("FIFA default", FifaRating::default(), n::<FifaRating>(a, b));
                eq!("EGF default", EGFRating::default(), n::<EGFRating>(a, b));
                eq!("Glicko default", GlickoRating::default(), n::<GlickoRating>(a, b));
                eq!("Glicko-2 default", Glicko2Rating::default(), n::<Glicko2Rating>(a, b));
                eq!("Glicko-Boost default", GlickoBoostRating::default(), n::<GlickoBoostRating>(a, b));
                eq!("Sticko default", StickoRating::default(), n::<StickoRating>(a, b));
                eq!("TrueSkill default", TrueSkillRating::default(), n::<TrueSkillRating>(a, b));
                eq!("Weng-Lin default", WengLinRating::default(), n::<WengLinRating>(a, b));
            }
        }
    }
    Ok(r != 0.0)
}

// ------------------------------------------------------------------ P10
fn any_float(s: &mut Src) -> f64 {
    match s.below(6) {
        0 | 1 => s.num(&spec(1500.0, 0.0, 3000.0, -1e4, 1e4)),
        2 => s.num(&spec(0.06, 0.0, 1.0, 0.0, 50.0)),
        3 => s.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 0.1, 1e21, 1e-7, 9_007_199_254_740_993.0]),
        _ => {
            let x = f64::from_bits(s.below(u64::MAX));
            if x.is_finite() { x } else { 1.0 }
        }
    }
}
fn any_int(s: &mut Src) -> usize {
    match s.below(3) {
        0 => s.int(&[0, 1], 100, usize::MAX),
        1 => s.pick(&[usize::MAX, 0, 1, 1 << 53, (1 << 53) + 1]),
        _ => s.below(u64::MAX) as usize,
    }
}
/// One value, its expected fields in JSON, and a way to look at it field by field.
fn p10_v<T: Serialize + DeserializeOwned + Debug + Copy>(s: &mut Src, name: &'static str, x: T, fields: &[(&str, Value)]) -> Case {
    s.label(name);
    s.note(|| format!("{x:?}"));
    let want: Value = Value::Object(fields.iter().map(|(k, v)| ((*k).to_string(), v.clone())).collect::<Map<_, _>>());
    let text = serde_json::to_string(&x).map_err(|e| format!("{name} cannot be stored: {e}"))?;
    let val: Value = serde_json::from_str(&text).map_err(|e| format!("{name} is stored as {text}: {e}"))?;
    ensure!(val == want, "{name} is stored as {val} instead of {want}");
    let back: T = serde_json::from_str(&text).map_err(|e| format!("{name} cannot be read back from {text}: {e}"))?;
    let again = serde_json::to_string(&back).map_err(|e| format!("{name}: {e}"))?;
    ensure!(again == text && format!("{back:?}") == format!("{x:?}"), "{name} {x:?} comes back as {back:?}");
    // fields in any order, whitespace, and inside other data
    let mut parts: Vec<String> = fields.iter().map(|(k, v)| format!("\"{k}\" : {v}")).collect();
    let r = s.idx(parts.len());
    parts.rotate_left(r);
    if s.bool() {
        parts.reverse();
    }
    let text = format!("{{ {} }}", parts.join(" ,\n "));
    let back: T = serde_json::from_str(&text).map_err(|e| format!("{name} cannot be read from {text}: {e}"))?;
    ensure!(format!("{back:?}") == format!("{x:?}"), "{name} {x:?} comes back as {back:?} from {text}");
    let list = serde_json::to_string(&vec![(1, x), (2, x)]).map_err(|e| format!("{name}: {e}"))?;
    let back: Vec<(u8, T)> = serde_json::from_str(&list).map_err(|e| format!("{name} cannot be read back from {list}: {e}"))?;
    ensure!(back.len() == 2 && format!("{:?}", back[1].1) == format!("{x:?}"), "{name} {x:?} comes back as {back:?}");
    Ok(true)
}
fn p10(s: &mut Src) -> Case {
    let (a, b, c, d, e) = (any_float(s), any_float(s), any_float(s), any_float(s), any_float(s));
    let (i, j) = (any_int(s), any_int(s));
    let (p, q) = (s.bool(), s.bool());
    let r = |k: &'static str, v: f64| (k, json!(v));
    match s.arm(&[ELO, FIFA, EGF, INGO, DWZ, USCF, GLICKO, GLICKO2, BOOST, STICKO, TS, WL, ELO, FIFA, EGF, USCF, GLICKO, GLICKO2, BOOST, STICKO, TS, WL, 0, 0]) {
        0 => p10_v(s, "EloRating", EloRating { rating: a }, &[r("rating", a)]),
        1 => p10_v(s, "FifaRating", FifaRating { rating: a }, &[r("rating", a)]),
        2 => p10_v(s, "EGFRating", EGFRating { rating: a }, &[r("rating", a)]),
        3 => p10_v(s, "IngoRating", IngoRating { rating: a, age: i }, &[r("rating", a), ("age", json!(i))]),
        4 => p10_v(s, "DWZRating", DWZRating { rating: a, index: i, age: j }, &[r("rating", a), ("index", json!(i)), ("age", json!(j))]),
        5 => p10_v(s, "USCFRating", USCFRating { rating: a, games: i }, &[r("rating", a), ("games", json!(i))]),
        6 => p10_v(s, "GlickoRating", GlickoRating { rating: a, deviation: b }, &[r("rating", a), r("deviation", b)]),
        7 => p10_v(s, "Glicko2Rating", Glicko2Rating { rating: a, deviation: b, volatility: c }, &[r("rating", a), r("deviation", b), r("volatility", c)]),
        8 => p10_v(s, "GlickoBoostRating", GlickoBoostRating { rating: a, deviation: b }, &[r("rating", a), r("deviation", b)]),
        9 => p10_v(s, "StickoRating", StickoRating { rating: a, deviation: b }, &[r("rating", a), r("deviation", b)]),
        10 => p10_v(s, "TrueSkillRating", TrueSkillRating { rating: a, uncertainty: b }, &[r("rating", a), r("uncertainty", b)]),
        11 => p10_v(s, "WengLinRating", WengLinRating { rating: a, uncertainty: b }, &[r("rating", a), r("uncertainty", b)]),
        12 => p10_v(s, "EloConfig", EloConfig { k: a }, &[r("k", a)]),
        13 => p10_v(s, "FifaConfig", FifaConfig { importance: a, knockout: p, penalties: q }, &[r("importance", a), ("knockout", json!(p)), ("penalties", json!(q))]),
        14 => p10_v(s, "EGFConfig", EGFConfig { handicap: a }, &[r("handicap", a)]),
        15 => p10_v(s, "USCFConfig", USCFConfig { t: a }, &[r("t", a)]),
        16 => p10_v(s, "GlickoConfig", GlickoConfig { c: a }, &[r("c", a)]),
        17 => p10_v(s, "Glicko2Config", Glicko2Config { tau: a, convergence_tolerance: b }, &[r("tau", a), r("convergence_tolerance", b)]),
        18 => p10_v(
            s,
            "GlickoBoostConfig",
            GlickoBoostConfig { eta: a, k: b, b: (c, d), alpha: (e, d, c, b, a) },
            &[r("eta", a), r("k", b), ("b", json!([c, d])), ("alpha", json!([e, d, c, b, a]))],
        ),
        19 => p10_v(s, "StickoConfig", StickoConfig { h: a, beta: b, lambda: c, gamma: d, c: e }, &[r("h", a), r("beta", b), r("lambda", c), r("gamma", d), r("c", e)]),
        20 => p10_v(s, "TrueSkillConfig", TrueSkillConfig { draw_probability: a, beta: b, dynamics_factor: c }, &[r("draw_probability", a), r("beta", b), r("dynamics_factor", c)]),
        21 => p10_v(s, "WengLinConfig", WengLinConfig { beta: a, uncertainty_tolerance: b }, &[r("beta", a), r("uncertainty_tolerance", b)]),
        22 => {
            s.label("MultiTeamOutcome");
            s.note(|| format!("rank {i}"));
            let t = serde_json::to_string(&MultiTeamOutcome::new(i)).map_err(|e| e.to_string())?;
            ensure!(t == i.to_string(), "rank {i} is stored as {t}");
            let b: MultiTeamOutcome = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            ensure!(b.rank() == i, "rank {i} comes back as {b:?}");
            Ok(true)
        }
        _ => {
            s.label("Outcomes");
            let o = gen_outcome(s);
            s.note(|| format!("{o:?}"));
            let t = serde_json::to_string(&o).map_err(|e| e.to_string())?;
            let want = match o {
                Outcomes::WIN => "\"WIN\"",
                Outcomes::DRAW => "\"DRAW\"",
                Outcomes::LOSS => "\"LOSS\"",
            };
            ensure!(t == want, "{o:?} is stored as {t}");
            let b: Outcomes = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            ensure!(b == o, "{o:?} comes back as {b:?}");
            Ok(true)
        }
    }
}

// ------------------------------------------------------------------ P16
type Bits = Vec<u64>;
fn push<S: Sys>(out: &mut Bits, r: &S::R) {
    out.extend(S::fields(r).iter().map(|x| x.to_bits()));
}
/// The second of two equal arguments may be the first one itself.
fn twin<'a, R: PartialEq + ?Sized>(a: &'a R, b: &'a R) -> &'a R {
    if PLACE.with(std::cell::Cell::get) == Place::Shared && a == b { a } else { b }
}
fn op_s<S: Sys>(s: &mut Src) -> (Bits, String) {
    let a = S::gen_r(s);
    let b = if s.one_in(8) { a } else { S::gen_r(s) };
    let mut c = S::fit(&a, &b, S::gen_c(s));
    let o = gen_outcome(s);
    let mut out = Bits::new();
    let kind = s.below(4);
    let what;
    match kind {
        0 => {
            what = if s.verbose { format!("{} rate {a:?} {b:?} {o:?} {c:?}", S::NAME) } else { String::new() };
            let (x, y) = S::rate(&a, twin(&a, &b), o, &c);
            push::<S>(&mut out, &x);
            push::<S>(&mut out, &y);
        }
        1 => {
            what = if s.verbose { format!("{} expected {a:?} {b:?} {c:?}", S::NAME) } else { String::new() };
            let (x, y) = S::exp(&a, twin(&a, &b), &c);
            out.extend([x.to_bits(), y.to_bits()]);
        }
        k => {
            let n = s.len(8);
            let mut g: Vec<(S::R, Outcomes)> = vec![(b, o)];
            for _ in 0..n {
                g.push((S::gen_r(s), gen_outcome(s)));
            }
            for x in &g {
                c = S::fit(&a, &x.0, c);
            }
            what = if s.verbose { format!("{} period {a:?} {g:?} {c:?}", S::NAME) } else { String::new() };
            if k == 2 {
                push::<S>(&mut out, &S::period(&a, &g, &c));
            } else {
                let v: Vec<S::R> = g.iter().map(|x| x.0).collect();
                out.extend(S::exp_period(&a, &v, &c).iter().map(|x| x.to_bits()));
            }
        }
    }
    (out, what)
}
fn op_team(s: &mut Src) -> (Bits, String) {
    let mut out = Bits::new();
    let ts = s.arm(&[WL, TS]) == 1;
    let kind = s.below(5);
    if ts {
        let c = gen_ts_cfg(s);
        let t = gen_teams(s, 2, 4, 3, gen_ts);
        let r = gen_ranks(s, t.len(), false);
        let w = gen_weights(s, &t);
        let o = gen_outcome(s);
        let what = if s.verbose { format!("TrueSkill team operation {kind}: {t:?} {r:?} {w:?} {o:?} {c:?}") } else { String::new() };
        match kind {
            0 => {
                let ws = slices(&w);
                for team in trueskill_multi_team(&ranked(&t, &r), &c, Some(&ws)).unwrap_or_default() {
                    team.iter().for_each(|p| push::<STrueSkill>(&mut out, p));
                }
            }
            1 => {
                let x = trueskill_two_teams(&t[0], twin(&t[0], &t[1]), &o, &c);
                x.0.iter().chain(&x.1).for_each(|p| push::<STrueSkill>(&mut out, p));
            }
            2 => out.extend(skillratings::trueskill::expected_score_multi_team(&slices(&t), &c).iter().map(|x| x.to_bits())),
            3 => out.push(match_quality_two_teams(&t[0], twin(&t[0], &t[1]), &c).to_bits()),
            _ => {
                let ws = slices(&w);
                out.push(match_quality_multi_team(&slices(&t), &c, Some(&ws)).map_or(1, |x| x.to_bits()));
            }
        }
        (out, what)
    } else {
        let c = gen_wl_cfg(s);
        let t = gen_teams(s, 2, 5, 3, gen_wl);
        let r = gen_ranks(s, t.len(), false);
        let o = gen_outcome(s);
        let what = if s.verbose { format!("Weng-Lin team operation {kind}: {t:?} {r:?} {o:?} {c:?}") } else { String::new() };
        match kind {
            0 | 1 => {
                for team in weng_lin_multi_team(&ranked(&t, &r), &c) {
                    team.iter().for_each(|p| push::<SWengLin>(&mut out, p));
                }
            }
            2 => {
                let x = weng_lin_two_teams(&t[0], twin(&t[0], &t[1]), &o, &c);
                x.0.iter().chain(&x.1).for_each(|p| push::<SWengLin>(&mut out, p));
            }
            3 => out.extend(skillratings::weng_lin::expected_score_multi_team(&slices(&t), &c).iter().map(|x| x.to_bits())),
            _ => {
                let x = skillratings::weng_lin::expected_score_two_teams(&t[0], twin(&t[0], &t[1]), &c);
                out.extend([x.0.to_bits(), x.1.to_bits()]);
            }
        }
        (out, what)
    }
}
fn op_misc(s: &mut Src) -> (Bits, String) {
    let mut out = Bits::new();
    let g = SGlicko::gen_r(s);
    let c = SGlicko::gen_c(s);
    let g2 = SGlicko2::gen_r(s);
    let (a, b) = (gen_ts(s), gen_ts(s));
    let tc = gen_ts_cfg(s);
    let n = s.idx(9);
    let games: Vec<_> = (0..n).map(|_| (SElo::gen_r(s), gen_outcome(s))).collect();
    let what = if s.verbose { format!("decay, interval, quality and first DWZ of {g:?} {g2:?} {a:?} {b:?} {games:?} {c:?} {tc:?}") } else { String::new() };
    push::<SGlicko>(&mut out, &skillratings::glicko::decay_deviation(&g, &c));
    push::<SGlicko2>(&mut out, &skillratings::glicko2::decay_deviation(&g2));
    out.push(skillratings::glicko::confidence_interval(&g).0.to_bits());
    out.push(skillratings::glicko2::confidence_interval(&g2).1.to_bits());
    let (st, sc) = (StickoRating::from(g), SSticko::gen_c(s));
    let (gb, bc) = (GlickoBoostRating::from(g), SBoost::gen_c(s));
    push::<SSticko>(&mut out, &skillratings::sticko::decay_deviation(&st, &sc));
    push::<SBoost>(&mut out, &skillratings::glicko_boost::decay_deviation(&gb, &bc));
    let m = s.idx(4);
    let colour: Vec<_> = (0..m).map(|_| (SGlicko::gen_r(s), gen_outcome(s), s.bool())).collect();
    let v: Vec<_> = colour.iter().map(|x| (StickoRating::from(x.0), x.1, x.2)).collect();
    push::<SSticko>(&mut out, &sticko_rating_period(&st, &v, &sc));
    let v: Vec<_> = colour.iter().map(|x| (GlickoBoostRating::from(x.0), x.1, x.2)).collect();
    push::<SBoost>(&mut out, &glicko_boost_rating_period(&gb, &v, &bc));
    push::<SUscf>(&mut out, &USCFRating::from(EloRating { rating: g.rating }));
    push::<SIngo>(&mut out, &IngoRating::from(EloRating { rating: g.rating }));
    out.push(match_quality(&a, &b, &tc).to_bits());
    out.push(get_rank(&a).to_bits());
    let games: Vec<_> = games.iter().map(|(r, o)| (DWZRating { rating: r.rating, index: 5, age: 30 }, *o)).collect();
    match get_first_dwz(20, &games) {
        Ok(r) => push::<SDwz>(&mut out, &r),
        Err(e) => out.push(if e == GetFirstDWZError::NotEnoughGames { 1 } else { 2 }),
    }
    (out, what)
}
fn op(s: &mut Src) -> (Bits, String) {
    match s.arm(&[ELO, GLICKO, GLICKO2, TS, WL, USCF, DWZ, INGO, FIFA, EGF, STICKO, BOOST, TS | WL, TS | WL, TS | WL, ALL]) {
        0 => op_s::<SElo>(s),
        1 => op_s::<SGlicko>(s),
        2 => op_s::<SGlicko2>(s),
        3 => op_s::<STrueSkill>(s),
        4 => op_s::<SWengLin>(s),
        5 => op_s::<SUscf>(s),
        6 => op_s::<SDwz>(s),
        7 => op_s::<SIngo>(s),
        8 => op_s::<SFifa>(s),
        9 => op_s::<SEgf>(s),
        10 => op_s::<SSticko>(s),
        11 => op_s::<SBoost>(s),
        12..=14 => op_team(s),
        _ => op_misc(s),
    }
}
/// An operation, replayable from its choices.
#[derive(Clone)]
struct Op {
    choices: Vec<u64>,
    tweak: f64,
}
impl Op {
    fn run(&self) -> Bits {
        let mut s = Src::replay(self.choices.clone());
        s.tweak = self.tweak;
        op(&mut s).0
    }
    fn text(&self) -> String {
        let mut s = Src::replay(self.choices.clone());
        s.tweak = self.tweak;
        s.verbose = true;
        op(&mut s).1
    }
}
fn p16(s: &mut Src) -> Case {
    let n = 2 + s.idx(5);
    let mut ops: Vec<Op> = Vec::new();
    for _ in 0..n {
        let from = s.choices().len();
        let _ = op(s);
        let choices = s.choices().get(from..).map(<[u64]>::to_vec).unwrap_or_default();
        ops.push(Op { choices, tweak: 0.0 });
    }
    // near-duplicates: the same operation with slightly different numbers
    if s.bool() {
        let m = 1 + s.idx(3);
        for _ in 0..m {
            let i = s.idx(n);
            let mut o = ops[i].clone();
            if s.bool() && !o.choices.is_empty() {
                // one choice made otherwise: another value of one field, another outcome, one game more ...
                let j = s.idx(o.choices.len());
                o.choices[j] = s.below(1 << 53);
            } else {
                let e = -12.0 + 10.0 * s.f01();
                o.tweak = 10f64.powf(e) * if s.bool() { 1.0 } else { -1.0 };
            }
            ops.push(o);
        }
        s.label("near-duplicate inputs");
    }
    for (i, o) in ops.iter().enumerate() {
        if s.verbose {
            let t = format!("operation {i}: {}", o.text());
            s.note(|| t);
        }
    }
    let first: Vec<Bits> = ops.iter().map(Op::run).collect();
    let check = |i: usize, b: &Bits, when: &str| -> Result<(), String> {
        if *b != first[i] {
            return Err(format!("operation {i} gives another result {when}: {:?} instead of {:?}", floats(b), floats(&first[i])));
        }
        Ok(())
    };
    for i in (0..ops.len()).rev() {
        check(i, &ops[i].run(), "when the operations run in reverse order")?;
    }
    let k = s.idx(6);
    for _ in 0..k {
        let i = s.idx(ops.len());
        let place = s.pick(&[Place::Mixed, Place::Shared, Place::Own]);
        PLACE.with(|p| p.set(place));
        let r = ops[i].run();
        PLACE.with(|p| p.set(Place::Mixed));
        check(i, &r, if place == Place::Shared { "when equal arguments are one piece of memory" } else { "later on" })?;
    }
    if s.one_in(24) {
        s.label("other threads");
        let r: Result<(), String> = std::thread::scope(|sc| {
            let (ops, check) = (&ops, &check);
            let hs: Vec<_> = (0..2usize)
                .map(|t| {
                    sc.spawn(move || -> Result<(), String> {
                        let m = ops.len();
                        for x in 0..m {
                            let i = if t == 0 { m - 1 - x } else { x };
                            check(i, &ops[i].run(), "on another thread")?;
                        }
                        Ok(())
                    })
                })
                .collect();
            for h in hs {
                h.join().map_err(|_| "an operation panicked on another thread".to_string())??;
            }
            Ok(())
        });
        r?;
    }
    Ok(true)
}
fn floats(b: &Bits) -> Vec<f64> {
    b.iter().map(|x| f64::from_bits(*x)).collect()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P08",
            rule: "A system value made through a trait from a random config, and up to 5 calls of its trait methods (head-to-head, rating period, two teams, many teams; rating and prediction), each compared with the direct function; the player view (rating, uncertainty, constructor) is compared with the fields. Non-trivial: at least two calls on the same system value.",
            run: p08,
            quick: 5_000_000,
            assumptions: &["EGF: rating plus handicap stays below 3300"],
            known: &[],
        },
        Prop {
            id: "P09",
            rule: "Random numbers, ages and counts through every constructor and conversion, with the documented result, round trips and preservation of order. Non-trivial: the rating is not zero.",
            run: p09,
            quick: 30_000_000,
            assumptions: &[],
            known: &[],
        },
        Prop {
            id: "P10",
            rule: "A value of one of the 24 storable types with arbitrary finite floats (all bit patterns) and integers: stored text against the public field names, read back bit-exactly, also with fields in another order and inside lists. Every case is non-trivial.",
            run: p10,
            quick: 6_000_000,
            assumptions: &["Finite numbers only: JSON has no others", "The storage format used is JSON (serde_json)"],
            known: &[],
        },
        Prop {
            id: "P16",
            rule: "2 to 9 operations of all systems and forms, some of them near-duplicates of others; each is repeated in reverse order, later, with equal arguments being one piece of memory or separate ones, and on two other threads at once (1 in 24), and must give the same bits. Every case is non-trivial.",
            run: p16,
            quick: 1_200_000,
            assumptions: &["One build and one machine; results are not compared across platforms"],
            known: &[],
        },
    ]
}
