//! The twelve rating systems behind one interface (always through the direct functions), the input
//! domains, and comparison helpers.

use crate::src::{spec, Spec, Src};
use skillratings::dwz::*;
use skillratings::egf::*;
use skillratings::elo::*;
use skillratings::fifa::*;
use skillratings::glicko::*;
use skillratings::glicko2::*;
use skillratings::glicko_boost::*;
use skillratings::ingo::*;
use skillratings::sticko::*;
use skillratings::trueskill::*;
use skillratings::uscf::*;
use skillratings::weng_lin::*;
use skillratings::Outcomes;
use skillratings::Outcomes::{DRAW, LOSS, WIN};
use std::fmt::Debug;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// |a - b| within a relative and an absolute tolerance; infinities only if equal; NaN never.
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    a == b || (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

pub fn flip(o: Outcomes) -> Outcomes {
    match o {
        WIN => LOSS,
        LOSS => WIN,
        DRAW => DRAW,
    }
}
pub fn points(o: Outcomes) -> f64 {
    match o {
        WIN => 1.0,
        DRAW => 0.5,
        LOSS => 0.0,
    }
}
pub fn gen_outcome(s: &mut Src) -> Outcomes {
    [WIN, DRAW, LOSS][s.outcome() as usize]
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum PeriodKind {
    /// Games are applied one after the other.
    Sequential,
    /// All games are applied at once.
    Batch,
}

pub trait Sys: 'static {
    type R: Copy + Debug + PartialEq + Send + Sync + 'static;
    type C: Copy + Debug + Send + Sync + 'static;
    const NAME: &'static str;
    const PERIOD: PeriodKind;
    /// Size of a typical rating, for absolute tolerances.
    const SCALE: f64;
    fn gen_r(s: &mut Src) -> Self::R;
    fn gen_c(s: &mut Src) -> Self::C;
    /// Makes a config usable for these players.
    fn fit(_a: &Self::R, _b: &Self::R, c: Self::C) -> Self::C {
        c
    }
    fn rate(a: &Self::R, b: &Self::R, o: Outcomes, c: &Self::C) -> (Self::R, Self::R);
    fn exp(a: &Self::R, b: &Self::R, c: &Self::C) -> (f64, f64);
    fn period(a: &Self::R, g: &[(Self::R, Outcomes)], c: &Self::C) -> Self::R;
    fn exp_period(a: &Self::R, o: &[Self::R], c: &Self::C) -> Vec<f64>;
    /// The config with which the two players change sides.
    fn swap_c(c: &Self::C) -> Self::C {
        *c
    }
    fn rating(r: &Self::R) -> f64;
    fn unc(_r: &Self::R) -> Option<f64> {
        None
    }
    /// All numeric fields.
    fn fields(r: &Self::R) -> Vec<f64>;
    fn with_rating(r: &Self::R, v: f64) -> Self::R;
    /// +1: a higher rating is better, -1: a lower one.
    const SIGN: f64 = 1.0;
}

pub fn same<S: Sys>(a: &S::R, b: &S::R, rel: f64, abs: f64) -> bool {
    S::fields(a).iter().zip(S::fields(b)).all(|(x, y)| close(*x, y, rel, abs))
}

pub const RT: Spec = spec(1500.0, 0.0, 3000.0, -4000.0, 7000.0);
pub const ELO_R: Spec = spec(1000.0, 0.0, 3000.0, -4000.0, 7000.0);
pub const DEV: Spec = spec(350.0, 10.0, 350.0, 0.05, 700.0);
pub const TS_R: Spec = spec(25.0, 0.0, 50.0, -100.0, 150.0);
pub const TS_U: Spec = spec(25.0 / 3.0, 0.5, 10.0, 0.02, 50.0);
pub const BETA: Spec = spec(25.0 / 6.0, 0.5, 12.0, 0.1, 60.0);

pub fn gen_age(s: &mut Src) -> usize {
    s.int(&[0, 1, 19, 20, 21, 24, 25, 26, 27], 100, 1 << 40)
}

// ---------------------------------------------------------------- Elo
pub struct SElo;
impl Sys for SElo {
    type R = EloRating;
    type C = EloConfig;
    const NAME: &'static str = "Elo";
    const PERIOD: PeriodKind = PeriodKind::Sequential;
    const SCALE: f64 = 1000.0;
    fn gen_r(s: &mut Src) -> EloRating {
        s.again(|s| EloRating { rating: s.rating(&ELO_R) })
    }
    fn gen_c(s: &mut Src) -> EloConfig {
        EloConfig { k: s.cfg(&spec(32.0, 1.0, 64.0, 0.0, 500.0)) }
    }
    fn rate(a: &EloRating, b: &EloRating, o: Outcomes, c: &EloConfig) -> (EloRating, EloRating) {
        elo(a, b, &o, c)
    }
    fn exp(a: &EloRating, b: &EloRating, _c: &EloConfig) -> (f64, f64) {
        skillratings::elo::expected_score(a, b)
    }
    fn period(a: &EloRating, g: &[(EloRating, Outcomes)], c: &EloConfig) -> EloRating {
        elo_rating_period(a, g, c)
    }
    fn exp_period(a: &EloRating, o: &[EloRating], _c: &EloConfig) -> Vec<f64> {
        skillratings::elo::expected_score_rating_period(a, o)
    }
    fn rating(r: &EloRating) -> f64 {
        r.rating
    }
    fn fields(r: &EloRating) -> Vec<f64> {
        vec![r.rating]
    }
    fn with_rating(_r: &EloRating, v: f64) -> EloRating {
        EloRating { rating: v }
    }
}

// ---------------------------------------------------------------- FIFA
pub struct SFifa;
impl Sys for SFifa {
    type R = FifaRating;
    type C = FifaConfig;
    const NAME: &'static str = "FIFA";
    const PERIOD: PeriodKind = PeriodKind::Sequential;
    const SCALE: f64 = 1000.0;
    fn gen_r(s: &mut Src) -> FifaRating {
        s.again(|s| FifaRating { rating: s.rating(&ELO_R) })
    }
    fn gen_c(s: &mut Src) -> FifaConfig {
        s.again(|s| FifaConfig {
            importance: s.cfg(&spec(10.0, 5.0, 60.0, 0.0, 500.0)),
            knockout: s.bool(),
            penalties: s.bool(),
        })
    }
    fn rate(a: &FifaRating, b: &FifaRating, o: Outcomes, c: &FifaConfig) -> (FifaRating, FifaRating) {
        fifa(a, b, &o, c)
    }
    fn exp(a: &FifaRating, b: &FifaRating, _c: &FifaConfig) -> (f64, f64) {
        skillratings::fifa::expected_score(a, b)
    }
    fn period(a: &FifaRating, g: &[(FifaRating, Outcomes)], c: &FifaConfig) -> FifaRating {
        let v: Vec<_> = g.iter().map(|x| (x.0, x.1, *c)).collect();
        fifa_rating_period(a, &v)
    }
    fn exp_period(a: &FifaRating, o: &[FifaRating], _c: &FifaConfig) -> Vec<f64> {
        skillratings::fifa::expected_score_rating_period(a, o)
    }
    fn rating(r: &FifaRating) -> f64 {
        r.rating
    }
    fn fields(r: &FifaRating) -> Vec<f64> {
        vec![r.rating]
    }
    fn with_rating(_r: &FifaRating, v: f64) -> FifaRating {
        FifaRating { rating: v }
    }
}

// ---------------------------------------------------------------- EGF
pub const EGF_R: Spec = spec(0.0, -900.0, 2900.0, -900.0, 3200.0);
/// Largest handicap for which the stronger side's rating stays below the system's limit of 3300.
pub fn egf_max_handicap(rating: f64) -> f64 {
    ((3290.0 - rating) / 100.0 + 0.5).clamp(0.0, 9.0)
}
pub fn fit_handicap(a: f64, b: f64, h: f64) -> f64 {
    // A positive handicap adds to player two's strength, a negative one to player one's.
    if h >= 0.0 {
        h.min(egf_max_handicap(b))
    } else {
        -((-h).min(egf_max_handicap(a)))
    }
}
pub fn gen_handicap(s: &mut Src) -> f64 {
    match s.below(4) {
        0 => 0.0,
        1 => {
            let n = s.below(10) as f64;
            if s.bool() { -n } else { n }
        }
        2 => s.num(&spec(0.0, -9.0, 9.0, -30.0, 30.0)),
        _ => s.pick(&[0.5, -0.5, -0.0, 9.0, -9.0, 1.0, -1.0]),
    }
}
pub struct SEgf;
impl Sys for SEgf {
    type R = EGFRating;
    type C = EGFConfig;
    const NAME: &'static str = "EGF";
    const PERIOD: PeriodKind = PeriodKind::Batch;
    const SCALE: f64 = 1000.0;
    fn gen_r(s: &mut Src) -> EGFRating {
        s.again(|s| EGFRating { rating: s.strength(&EGF_R) })
    }
    fn gen_c(s: &mut Src) -> EGFConfig {
        s.again(|s| EGFConfig { handicap: gen_handicap(s) })
    }
    fn fit(a: &EGFRating, b: &EGFRating, c: EGFConfig) -> EGFConfig {
        EGFConfig { handicap: fit_handicap(a.rating, b.rating, c.handicap) }
    }
    fn rate(a: &EGFRating, b: &EGFRating, o: Outcomes, c: &EGFConfig) -> (EGFRating, EGFRating) {
        egf(a, b, &o, c)
    }
    fn exp(a: &EGFRating, b: &EGFRating, c: &EGFConfig) -> (f64, f64) {
        skillratings::egf::expected_score(a, b, c)
    }
    fn period(a: &EGFRating, g: &[(EGFRating, Outcomes)], c: &EGFConfig) -> EGFRating {
        let v: Vec<_> = g.iter().map(|x| (x.0, x.1, *c)).collect();
        egf_rating_period(a, &v)
    }
    fn exp_period(a: &EGFRating, o: &[EGFRating], c: &EGFConfig) -> Vec<f64> {
        let v: Vec<_> = o.iter().map(|x| (*x, *c)).collect();
        skillratings::egf::expected_score_rating_period(a, &v)
    }
    fn swap_c(c: &EGFConfig) -> EGFConfig {
        EGFConfig { handicap: -c.handicap }
    }
    fn rating(r: &EGFRating) -> f64 {
        r.rating
    }
    fn fields(r: &EGFRating) -> Vec<f64> {
        vec![r.rating]
    }
    fn with_rating(_r: &EGFRating, v: f64) -> EGFRating {
        EGFRating { rating: v }
    }
}

// ---------------------------------------------------------------- Ingo
pub struct SIngo;
impl Sys for SIngo {
    type R = IngoRating;
    type C = ();
    const NAME: &'static str = "Ingo";
    const PERIOD: PeriodKind = PeriodKind::Batch;
    const SCALE: f64 = 100.0;
    const SIGN: f64 = -1.0;
    fn gen_r(s: &mut Src) -> IngoRating {
        s.again(|s| IngoRating { rating: s.rating(&spec(230.0, 0.0, 300.0, -600.0, 1000.0)), age: gen_age(s) })
    }
    fn gen_c(_s: &mut Src) {}
    fn rate(a: &IngoRating, b: &IngoRating, o: Outcomes, _c: &()) -> (IngoRating, IngoRating) {
        ingo(a, b, &o)
    }
    fn exp(a: &IngoRating, b: &IngoRating, _c: &()) -> (f64, f64) {
        skillratings::ingo::expected_score(a, b)
    }
    fn period(a: &IngoRating, g: &[(IngoRating, Outcomes)], _c: &()) -> IngoRating {
        ingo_rating_period(a, g)
    }
    fn exp_period(a: &IngoRating, o: &[IngoRating], _c: &()) -> Vec<f64> {
        skillratings::ingo::expected_score_rating_period(a, o)
    }
    fn rating(r: &IngoRating) -> f64 {
        r.rating
    }
    fn fields(r: &IngoRating) -> Vec<f64> {
        vec![r.rating, r.age as f64]
    }
    fn with_rating(r: &IngoRating, v: f64) -> IngoRating {
        IngoRating { rating: v, ..*r }
    }
}

// ---------------------------------------------------------------- DWZ
pub struct SDwz;
impl Sys for SDwz {
    type R = DWZRating;
    type C = ();
    const NAME: &'static str = "DWZ";
    const PERIOD: PeriodKind = PeriodKind::Batch;
    const SCALE: f64 = 1000.0;
    fn gen_r(s: &mut Src) -> DWZRating {
        s.again(|s| DWZRating {
            rating: s.rating(&spec(1000.0, 300.0, 2800.0, -500.0, 4000.0)),
            index: s.int(&[0, 1, 2, 3, 4, 5, 6, 7], 60, 1 << 40),
            age: gen_age(s),
        })
    }
    fn gen_c(_s: &mut Src) {}
    fn rate(a: &DWZRating, b: &DWZRating, o: Outcomes, _c: &()) -> (DWZRating, DWZRating) {
        dwz(a, b, &o)
    }
    fn exp(a: &DWZRating, b: &DWZRating, _c: &()) -> (f64, f64) {
        skillratings::dwz::expected_score(a, b)
    }
    fn period(a: &DWZRating, g: &[(DWZRating, Outcomes)], _c: &()) -> DWZRating {
        dwz_rating_period(a, g)
    }
    fn exp_period(a: &DWZRating, o: &[DWZRating], _c: &()) -> Vec<f64> {
        skillratings::dwz::expected_score_rating_period(a, o)
    }
    fn rating(r: &DWZRating) -> f64 {
        r.rating
    }
    fn fields(r: &DWZRating) -> Vec<f64> {
        vec![r.rating, r.index as f64, r.age as f64]
    }
    fn with_rating(r: &DWZRating, v: f64) -> DWZRating {
        DWZRating { rating: v, ..*r }
    }
}

// ---------------------------------------------------------------- Glicko
pub struct SGlicko;
impl Sys for SGlicko {
    type R = GlickoRating;
    type C = GlickoConfig;
    const NAME: &'static str = "Glicko";
    const PERIOD: PeriodKind = PeriodKind::Batch;
    const SCALE: f64 = 1000.0;
    fn gen_r(s: &mut Src) -> GlickoRating {
        s.again(|s| GlickoRating { rating: s.rating(&RT), deviation: s.num(&DEV) })
    }
    fn gen_c(s: &mut Src) -> GlickoConfig {
        GlickoConfig { c: s.cfg(&spec(63.2, 0.0, 150.0, 0.0, 500.0)) }
    }
    fn rate(a: &GlickoRating, b: &GlickoRating, o: Outcomes, c: &GlickoConfig) -> (GlickoRating, GlickoRating) {
        glicko(a, b, &o, c)
    }
    fn exp(a: &GlickoRating, b: &GlickoRating, _c: &GlickoConfig) -> (f64, f64) {
        skillratings::glicko::expected_score(a, b)
    }
    fn period(a: &GlickoRating, g: &[(GlickoRating, Outcomes)], c: &GlickoConfig) -> GlickoRating {
        glicko_rating_period(a, g, c)
    }
    fn exp_period(a: &GlickoRating, o: &[GlickoRating], _c: &GlickoConfig) -> Vec<f64> {
        skillratings::glicko::expected_score_rating_period(a, o)
    }
    fn rating(r: &GlickoRating) -> f64 {
        r.rating
    }
    fn unc(r: &GlickoRating) -> Option<f64> {
        Some(r.deviation)
    }
    fn fields(r: &GlickoRating) -> Vec<f64> {
        vec![r.rating, r.deviation]
    }
    fn with_rating(r: &GlickoRating, v: f64) -> GlickoRating {
        GlickoRating { rating: v, ..*r }
    }
}

// ---------------------------------------------------------------- Glicko-2
pub struct SGlicko2;
impl Sys for SGlicko2 {
    type R = Glicko2Rating;
    type C = Glicko2Config;
    const NAME: &'static str = "Glicko-2";
    const PERIOD: PeriodKind = PeriodKind::Batch;
    const SCALE: f64 = 1000.0;
    fn gen_r(s: &mut Src) -> Glicko2Rating {
        s.again(|s| Glicko2Rating {
            rating: s.far(&spec(1500.0, 0.0, 3000.0, -1500.0, 4500.0)),
            deviation: s.num(&DEV),
            volatility: s.num(&spec(0.06, 0.01, 0.15, 0.001, 2.0)),
        })
    }
    fn gen_c(s: &mut Src) -> Glicko2Config {
        Glicko2Config {
            tau: s.cfg(&spec(0.5, 0.2, 1.2, 0.05, 4.0)),
            convergence_tolerance: if s.below(3) < 2 { 1e-6 } else { 10f64.powf(-2.0 - 8.0 * s.f01()) },
        }
    }
    fn rate(a: &Glicko2Rating, b: &Glicko2Rating, o: Outcomes, c: &Glicko2Config) -> (Glicko2Rating, Glicko2Rating) {
        glicko2(a, b, &o, c)
    }
    fn exp(a: &Glicko2Rating, b: &Glicko2Rating, _c: &Glicko2Config) -> (f64, f64) {
        skillratings::glicko2::expected_score(a, b)
    }
    fn period(a: &Glicko2Rating, g: &[(Glicko2Rating, Outcomes)], c: &Glicko2Config) -> Glicko2Rating {
        glicko2_rating_period(a, g, c)
    }
    fn exp_period(a: &Glicko2Rating, o: &[Glicko2Rating], _c: &Glicko2Config) -> Vec<f64> {
        skillratings::glicko2::expected_score_rating_period(a, o)
    }
    fn rating(r: &Glicko2Rating) -> f64 {
        r.rating
    }
    fn unc(r: &Glicko2Rating) -> Option<f64> {
        Some(r.deviation)
    }
    fn fields(r: &Glicko2Rating) -> Vec<f64> {
        vec![r.rating, r.deviation, r.volatility]
    }
    fn with_rating(r: &Glicko2Rating, v: f64) -> Glicko2Rating {
        Glicko2Rating { rating: v, ..*r }
    }
}

// ---------------------------------------------------------------- Glicko-Boost
pub struct SBoost;
impl Sys for SBoost {
    type R = GlickoBoostRating;
    type C = GlickoBoostConfig;
    const NAME: &'static str = "Glicko-Boost";
    const PERIOD: PeriodKind = PeriodKind::Batch;
    const SCALE: f64 = 1000.0;
    fn gen_r(s: &mut Src) -> GlickoBoostRating {
        s.again(|s| GlickoBoostRating { rating: s.rating(&RT), deviation: s.num(&DEV) })
    }
    fn gen_c(s: &mut Src) -> GlickoBoostConfig {
        let d = GlickoBoostConfig::new();
        let alpha = if s.below(3) < 2 {
            d.alpha
        } else {
            (
                s.num(&spec(5.83733, -2.0, 8.0, -5.0, 11.0)),
                s.num(&spec(-1.75374e-4, -1e-3, 1e-3, -0.01, 0.01)),
                s.num(&spec(-7.080124e-5, -1e-3, 1e-3, -0.01, 0.01)),
                s.num(&spec(0.001_733_792, -0.01, 0.01, -0.1, 0.1)),
                s.num(&spec(0.000_267_06, -0.01, 0.01, -0.1, 0.1)),
            )
        };
        GlickoBoostConfig {
            eta: s.cfg(&spec(30.0, -60.0, 60.0, -300.0, 300.0)),
            k: s.cfg(&spec(1.96, 0.0, 3.0, 0.0, 8.0)),
            b: (s.cfg(&spec(0.20139, 0.0, 0.5, 0.0, 2.0)), s.cfg(&spec(17.5, 0.0, 30.0, 0.0, 100.0))),
            alpha,
        }
    }
    fn rate(a: &Self::R, b: &Self::R, o: Outcomes, c: &Self::C) -> (Self::R, Self::R) {
        glicko_boost(a, b, &o, c)
    }
    fn exp(a: &Self::R, b: &Self::R, c: &Self::C) -> (f64, f64) {
        skillratings::glicko_boost::expected_score(a, b, c)
    }
    fn period(a: &Self::R, g: &[(Self::R, Outcomes)], c: &Self::C) -> Self::R {
        let v: Vec<_> = g.iter().map(|x| (x.0, x.1, true)).collect();
        glicko_boost_rating_period(a, &v, c)
    }
    fn exp_period(a: &Self::R, o: &[Self::R], c: &Self::C) -> Vec<f64> {
        let v: Vec<_> = o.iter().map(|x| (*x, true)).collect();
        skillratings::glicko_boost::expected_score_rating_period(a, &v, c)
    }
    fn swap_c(c: &Self::C) -> Self::C {
        GlickoBoostConfig { eta: -c.eta, ..*c }
    }
    fn rating(r: &Self::R) -> f64 {
        r.rating
    }
    fn unc(r: &Self::R) -> Option<f64> {
        Some(r.deviation)
    }
    fn fields(r: &Self::R) -> Vec<f64> {
        vec![r.rating, r.deviation]
    }
    fn with_rating(r: &Self::R, v: f64) -> Self::R {
        GlickoBoostRating { rating: v, ..*r }
    }
}

// ---------------------------------------------------------------- Sticko
pub struct SSticko;
impl Sys for SSticko {
    type R = StickoRating;
    type C = StickoConfig;
    const NAME: &'static str = "Sticko";
    const PERIOD: PeriodKind = PeriodKind::Batch;
    const SCALE: f64 = 1000.0;
    fn gen_r(s: &mut Src) -> StickoRating {
        s.again(|s| StickoRating { rating: s.rating(&RT), deviation: s.num(&DEV) })
    }
    fn gen_c(s: &mut Src) -> StickoConfig {
        StickoConfig {
            h: s.cfg(&spec(10.0, 0.0, 50.0, 0.0, 1000.0)),
            beta: s.cfg(&spec(0.0, 0.0, 0.2, 0.0, 5.0)),
            lambda: s.cfg(&spec(2.0, 0.0, 10.0, 0.0, 60.0)),
            gamma: s.cfg(&spec(0.0, -60.0, 60.0, -300.0, 300.0)),
            c: s.cfg(&spec(10.0, 0.0, 80.0, 0.0, 500.0)),
        }
    }
    fn rate(a: &Self::R, b: &Self::R, o: Outcomes, c: &Self::C) -> (Self::R, Self::R) {
        sticko(a, b, &o, c)
    }
    fn exp(a: &Self::R, b: &Self::R, c: &Self::C) -> (f64, f64) {
        skillratings::sticko::expected_score(a, b, c)
    }
    fn period(a: &Self::R, g: &[(Self::R, Outcomes)], c: &Self::C) -> Self::R {
        let v: Vec<_> = g.iter().map(|x| (x.0, x.1, true)).collect();
        sticko_rating_period(a, &v, c)
    }
    fn exp_period(a: &Self::R, o: &[Self::R], c: &Self::C) -> Vec<f64> {
        let v: Vec<_> = o.iter().map(|x| (*x, true)).collect();
        skillratings::sticko::expected_score_rating_period(a, &v, c)
    }
    fn swap_c(c: &Self::C) -> Self::C {
        StickoConfig { gamma: -c.gamma, ..*c }
    }
    fn rating(r: &Self::R) -> f64 {
        r.rating
    }
    fn unc(r: &Self::R) -> Option<f64> {
        Some(r.deviation)
    }
    fn fields(r: &Self::R) -> Vec<f64> {
        vec![r.rating, r.deviation]
    }
    fn with_rating(r: &Self::R, v: f64) -> Self::R {
        StickoRating { rating: v, ..*r }
    }
}

// ---------------------------------------------------------------- USCF
pub struct SUscf;
impl Sys for SUscf {
    type R = USCFRating;
    type C = USCFConfig;
    const NAME: &'static str = "USCF";
    const PERIOD: PeriodKind = PeriodKind::Batch;
    const SCALE: f64 = 1000.0;
    fn gen_r(s: &mut Src) -> USCFRating {
        s.again(|s| USCFRating {
            rating: s.rating(&spec(1300.0, 100.0, 2900.0, 100.0, 5000.0)),
            games: s.int(&[0, 1, 4, 5, 7, 8, 9, 10, 49, 50, 51], 80, 1 << 40),
        })
    }
    fn gen_c(s: &mut Src) -> USCFConfig {
        USCFConfig { t: s.cfg(&spec(14.0, 6.0, 14.0, 0.0, 400.0)) }
    }
    fn rate(a: &USCFRating, b: &USCFRating, o: Outcomes, c: &USCFConfig) -> (USCFRating, USCFRating) {
        uscf(a, b, &o, c)
    }
    fn exp(a: &USCFRating, b: &USCFRating, _c: &USCFConfig) -> (f64, f64) {
        skillratings::uscf::expected_score(a, b)
    }
    fn period(a: &USCFRating, g: &[(USCFRating, Outcomes)], c: &USCFConfig) -> USCFRating {
        uscf_rating_period(a, g, c)
    }
    fn exp_period(a: &USCFRating, o: &[USCFRating], _c: &USCFConfig) -> Vec<f64> {
        skillratings::uscf::expected_score_rating_period(a, o)
    }
    fn rating(r: &USCFRating) -> f64 {
        r.rating
    }
    fn fields(r: &USCFRating) -> Vec<f64> {
        vec![r.rating, r.games as f64]
    }
    fn with_rating(r: &USCFRating, v: f64) -> USCFRating {
        USCFRating { rating: v, ..*r }
    }
}

// ---------------------------------------------------------------- TrueSkill
pub fn gen_ts(s: &mut Src) -> TrueSkillRating {
    let u = s.unit();
    s.again(|s| TrueSkillRating { rating: s.strength(&TS_R.times(u)), uncertainty: s.num(&TS_U.times(u)) })
}
pub fn gen_ts_cfg(s: &mut Src) -> TrueSkillConfig {
    let u = s.unit();
    let beta = s.cfg(&BETA.times(u));
    TrueSkillConfig {
        draw_probability: s.cfg(&spec(0.1, 0.01, 0.6, 0.0, 0.99)),
        beta,
        // above beta the published 1-vs-1 formula leaves the real numbers
        dynamics_factor: s.cfg(&spec(25.0 / 300.0, 0.0, 1.0, 0.0, 5.0).times(u)).min(beta * 0.9),
    }
}
pub struct STrueSkill;
impl Sys for STrueSkill {
    type R = TrueSkillRating;
    type C = TrueSkillConfig;
    const NAME: &'static str = "TrueSkill";
    const PERIOD: PeriodKind = PeriodKind::Sequential;
    const SCALE: f64 = 25.0;
    fn gen_r(s: &mut Src) -> TrueSkillRating {
        gen_ts(s)
    }
    fn gen_c(s: &mut Src) -> TrueSkillConfig {
        gen_ts_cfg(s)
    }
    fn rate(a: &Self::R, b: &Self::R, o: Outcomes, c: &Self::C) -> (Self::R, Self::R) {
        trueskill(a, b, &o, c)
    }
    fn exp(a: &Self::R, b: &Self::R, c: &Self::C) -> (f64, f64) {
        skillratings::trueskill::expected_score(a, b, c)
    }
    fn period(a: &Self::R, g: &[(Self::R, Outcomes)], c: &Self::C) -> Self::R {
        trueskill_rating_period(a, g, c)
    }
    fn exp_period(a: &Self::R, o: &[Self::R], c: &Self::C) -> Vec<f64> {
        skillratings::trueskill::expected_score_rating_period(a, o, c)
    }
    fn rating(r: &Self::R) -> f64 {
        r.rating
    }
    fn unc(r: &Self::R) -> Option<f64> {
        Some(r.uncertainty)
    }
    fn fields(r: &Self::R) -> Vec<f64> {
        vec![r.rating, r.uncertainty]
    }
    fn with_rating(r: &Self::R, v: f64) -> Self::R {
        TrueSkillRating { rating: v, ..*r }
    }
}

// ---------------------------------------------------------------- Weng-Lin
pub fn gen_wl(s: &mut Src) -> WengLinRating {
    let u = s.unit();
    s.again(|s| WengLinRating { rating: s.strength(&spec(25.0, 0.0, 50.0, -200.0, 300.0).times(u)), uncertainty: s.num(&TS_U.times(u)) })
}
pub fn gen_wl_cfg(s: &mut Src) -> WengLinConfig {
    let u = s.unit();
    WengLinConfig {
        beta: s.cfg(&BETA.times(u)),
        uncertainty_tolerance: s.cfg(&spec(1e-6, 0.0, 0.01, 0.0, 0.9)),
    }
}
pub struct SWengLin;
impl Sys for SWengLin {
    type R = WengLinRating;
    type C = WengLinConfig;
    const NAME: &'static str = "Weng-Lin";
    const PERIOD: PeriodKind = PeriodKind::Sequential;
    const SCALE: f64 = 25.0;
    fn gen_r(s: &mut Src) -> WengLinRating {
        gen_wl(s)
    }
    fn gen_c(s: &mut Src) -> WengLinConfig {
        gen_wl_cfg(s)
    }
    fn rate(a: &Self::R, b: &Self::R, o: Outcomes, c: &Self::C) -> (Self::R, Self::R) {
        weng_lin(a, b, &o, c)
    }
    fn exp(a: &Self::R, b: &Self::R, c: &Self::C) -> (f64, f64) {
        skillratings::weng_lin::expected_score(a, b, c)
    }
    fn period(a: &Self::R, g: &[(Self::R, Outcomes)], c: &Self::C) -> Self::R {
        weng_lin_rating_period(a, g, c)
    }
    fn exp_period(a: &Self::R, o: &[Self::R], c: &Self::C) -> Vec<f64> {
        skillratings::weng_lin::expected_score_rating_period(a, o, c)
    }
    fn rating(r: &Self::R) -> f64 {
        r.rating
    }
    fn unc(r: &Self::R) -> Option<f64> {
        Some(r.uncertainty)
    }
    fn fields(r: &Self::R) -> Vec<f64> {
        vec![r.rating, r.uncertainty]
    }
    fn with_rating(r: &Self::R, v: f64) -> Self::R {
        WengLinRating { rating: v, ..*r }
    }
}

/// Runs a generic check for one of the twelve systems, chosen by the source.
#[macro_export]
macro_rules! for_system {
    ($s:expr, $f:ident) => {
        match $s.arm(&$crate::src::sysmask::EACH) {
            0 => $f::<$crate::sys::SElo>($s),
            1 => $f::<$crate::sys::SGlicko>($s),
            2 => $f::<$crate::sys::SGlicko2>($s),
            3 => $f::<$crate::sys::STrueSkill>($s),
            4 => $f::<$crate::sys::SWengLin>($s),
            5 => $f::<$crate::sys::SUscf>($s),
            6 => $f::<$crate::sys::SDwz>($s),
            7 => $f::<$crate::sys::SIngo>($s),
            8 => $f::<$crate::sys::SFifa>($s),
            9 => $f::<$crate::sys::SEgf>($s),
            10 => $f::<$crate::sys::SSticko>($s),
            _ => $f::<$crate::sys::SBoost>($s),
        }
    };
}
