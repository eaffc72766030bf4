//! Each rating system against a reference model of its published description (refs.rs).

use crate::refs::{self, G};
use crate::src::{unit, Src};
use crate::sys::*;
use crate::{ensure, Case, Prop};
use skillratings::dwz::*;
use skillratings::egf::*;
use skillratings::fifa::*;
use skillratings::glicko_boost::*;
use skillratings::sticko::*;
use skillratings::trueskill::*;
use skillratings::weng_lin::*;
use skillratings::Outcomes::{LOSS, WIN};
use skillratings::Outcomes;

fn eq(what: &str, got: f64, want: f64, rel: f64, abs: f64) -> Result<(), String> {
    ensure!(close(got, want, rel, abs), "{what} is {got}, the published formula gives {want}");
    Ok(())
}

/// Both expected scores of a game, and the player's predictions for the opponents of a period.
fn predictions<S: Sys>(a: &S::R, b: &S::R, g: &[S::R], c: &S::C, want: impl Fn(&S::R, &S::R) -> f64, rel: f64, abs: f64) -> Result<(), String> {
    let (e, f) = S::exp(a, b, c);
    let w = want(a, b);
    eq("player one's expected score", e, w, rel, abs)?;
    eq("player two's expected score", f, 1.0 - w, 1e-9, abs.max(1e-12))?;
    let v = S::exp_period(a, g, c);
    ensure!(v.len() == g.len(), "{} predictions for {} opponents", v.len(), g.len());
    for (i, (x, o)) in v.iter().zip(g).enumerate() {
        eq(&format!("prediction {i} of the period"), *x, want(a, o), rel, abs)?;
    }
    Ok(())
}
fn opp<S: Sys>(g: &[(S::R, Outcomes)]) -> Vec<S::R> {
    g.iter().map(|x| x.0).collect()
}

fn games<S: Sys>(s: &mut Src, max: usize) -> Vec<(S::R, Outcomes)> {
    let n = s.len(max);
    (0..n).map(|_| (S::gen_r(s), gen_outcome(s))).collect()
}

// ------------------------------------------------------------------ P20 Elo
fn p20(s: &mut Src) -> Case {
    let (a, b, mut c) = super::cross::setup::<SElo>(s);
    let o = gen_outcome(s);
    let mut g = games::<SElo>(s, 40);
    if s.one_in(30) {
        // far larger steps; above a k of 700 or so longer periods amplify rounding
        c.k *= s.pick(&[4.0, 30.0]);
        g.truncate(2);
        s.note(|| format!("k {}", c.k));
    }
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    let (x, y) = SElo::rate(&a, &b, o, &c);
    let p = points(o);
    let tol = 1e-9 * (1.0 + c.k / 100.0);
    eq("player one's new rating", x.rating, refs::elo(a.rating, b.rating, p, c.k), 1e-12, tol)?;
    eq("player two's new rating", y.rating, refs::elo(b.rating, a.rating, 1.0 - p, c.k), 1e-12, tol)?;
    predictions::<SElo>(&a, &b, &opp::<SElo>(&g), &c, |a, b| refs::logistic10(a.rating - b.rating, 400.0), 1e-9, 1e-12)?;
    let r = SElo::period(&a, &g, &c);
    let w = g.iter().fold(a.rating, |r, (q, o)| refs::elo(r, q.rating, points(*o), c.k));
    eq("the rating after the period", r.rating, w, 1e-10, tol * (1.0 + g.len() as f64))?;
    Ok(a.rating != b.rating && c.k > 0.0)
}

// ------------------------------------------------------------------ P21 FIFA
fn p21(s: &mut Src) -> Case {
    let (a, b, mut c) = super::cross::setup::<SFifa>(s);
    let o = gen_outcome(s);
    let mut n = s.len(40);
    if s.one_in(30) {
        c.importance *= s.pick(&[4.0, 30.0]);
        n = n.min(2);
        s.note(|| format!("importance {}", c.importance));
    }
    let g: Vec<_> = (0..n)
        .map(|_| {
            let r = SFifa::gen_r(s);
            let o = gen_outcome(s);
            (r, o, if s.bool() { c } else { SFifa::gen_c(s) })
        })
        .collect();
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    s.label_if(c.knockout, "knockout");
    s.label_if(c.penalties, "penalties");
    let (x, y) = SFifa::rate(&a, &b, o, &c);
    let p = points(o);
    let (i, k, q) = (c.importance, c.knockout, c.penalties);
    let tol = 1e-9 * (1.0 + i / 100.0);
    eq("team one's new rating", x.rating, refs::fifa(a.rating, b.rating, p, i, k, q), 1e-12, tol)?;
    eq("team two's new rating", y.rating, refs::fifa(b.rating, a.rating, 1.0 - p, i, k, q), 1e-12, tol)?;
    let v: Vec<_> = g.iter().map(|x| x.0).collect();
    predictions::<SFifa>(&a, &b, &v, &c, |a, b| refs::logistic10(a.rating - b.rating, 600.0), 1e-9, 1e-12)?;
    let r = fifa_rating_period(&a, &g);
    let w = g.iter().fold(a.rating, |r, (t, o, c)| refs::fifa(r, t.rating, points(*o), c.importance, c.knockout, c.penalties));
    // a knockout decides by the sign of the change: near zero either side is right within rounding
    eq("the rating after the period", r.rating, w, 1e-10, 1e-8 * (1.0 + n as f64))?;
    Ok(i > 0.0 && a.rating != b.rating)
}

// ------------------------------------------------------------------ P22 EGF
fn p22(s: &mut Src) -> Case {
    let (a, b, c) = super::cross::setup::<SEgf>(s);
    let o = gen_outcome(s);
    let n = s.len(40);
    let g: Vec<(EGFRating, Outcomes, EGFConfig)> = (0..n)
        .map(|_| {
            let r = SEgf::gen_r(s);
            let o = gen_outcome(s);
            let k = if s.bool() { c } else { SEgf::gen_c(s) };
            (r, o, SEgf::fit(&a, &r, k))
        })
        .collect();
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    s.label_if(c.handicap != 0.0, "handicap");
    let ex = |r: f64, q: f64, h: f64| refs::egf_expected(r, (-h).max(0.0), q, h.max(0.0));
    let e1 = ex(a.rating, b.rating, c.handicap);
    let e2 = ex(b.rating, a.rating, -c.handicap);
    let (f1, f2) = SEgf::exp(&a, &b, &c);
    eq("player one's expected score", f1, e1, 1e-9, 1e-12)?;
    eq("player two's expected score", f2, e2, 1e-9, 1e-9)?;
    let v: Vec<_> = g.iter().map(|x| (x.0, x.2)).collect();
    let v = skillratings::egf::expected_score_rating_period(&a, &v);
    ensure!(v.len() == n, "{} predictions for {n} opponents", v.len());
    for (i, (x, (t, _, k))) in v.iter().zip(&g).enumerate() {
        eq(&format!("prediction {i} of the period"), *x, ex(a.rating, t.rating, k.handicap), 1e-9, 1e-12)?;
    }
    let (x, y) = SEgf::rate(&a, &b, o, &c);
    let p = points(o);
    eq("player one's new rating", x.rating, a.rating + refs::egf_change(a.rating, p, e1), 1e-10, 1e-7)?;
    eq("player two's new rating", y.rating, b.rating + refs::egf_change(b.rating, 1.0 - p, e2), 1e-10, 1e-7)?;
    let r = egf_rating_period(&a, &g);
    let sum: f64 = g.iter().map(|(t, o, k)| refs::egf_change(a.rating, points(*o), ex(a.rating, t.rating, k.handicap))).sum();
    s.label_if(a.rating + sum < -900.0, "minimum rating reached in a period");
    eq("the rating after the period", r.rating, (a.rating + sum).max(-900.0), 1e-10, 1e-7)?;
    Ok(a.rating != b.rating)
}

// ------------------------------------------------------------------ P23 Ingo
fn p23(s: &mut Src) -> Case {
    let (a, b, _) = super::cross::setup::<SIngo>(s);
    let o = gen_outcome(s);
    let g = games::<SIngo>(s, 60);
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    let (x, y) = SIngo::rate(&a, &b, o, &());
    let p = points(o);
    eq("player one's new rating", x.rating, refs::ingo(a.rating, a.age, &[(b.rating, p)]), 1e-10, 1e-9)?;
    eq("player two's new rating", y.rating, refs::ingo(b.rating, b.age, &[(a.rating, 1.0 - p)]), 1e-10, 1e-9)?;
    ensure!(x.age == a.age && y.age == b.age, "ages {} {} became {} {}", a.age, b.age, x.age, y.age);
    let (e, f) = SIngo::exp(&a, &b, &());
    eq("player one's expected score", e, refs::ingo_expected(a.rating, b.rating), 1e-10, 1e-12)?;
    eq("player two's expected score", f, refs::ingo_expected(b.rating, a.rating), 1e-10, 1e-12)?;
    predictions::<SIngo>(&a, &b, &opp::<SIngo>(&g), &(), |a, b| refs::ingo_expected(a.rating, b.rating), 1e-10, 1e-12)?;
    let r = SIngo::period(&a, &g, &());
    let v: Vec<_> = g.iter().map(|(r, o)| (r.rating, points(*o))).collect();
    eq("the rating after the period", r.rating, refs::ingo(a.rating, a.age, &v), 1e-10, 1e-8)?;
    ensure!(r.age == a.age, "age {} became {}", a.age, r.age);
    s.label_if(a.age <= 25, "young player");
    Ok(a.rating != b.rating)
}

// ------------------------------------------------------------------ P24 DWZ
fn p24(s: &mut Src) -> Case {
    let (a, b, _) = super::cross::setup::<SDwz>(s);
    let o = gen_outcome(s);
    let g = games::<SDwz>(s, 40);
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    let (x, y) = SDwz::rate(&a, &b, o, &());
    let p = points(o);
    let one = |what: &str, n: &DWZRating, old: &DWZRating, v: &[(f64, f64)]| -> Result<(), String> {
        ensure!(n.index == old.index + 1, "{what}: index {} became {}", old.index, n.index);
        ensure!(n.age == old.age, "{what}: age {} became {}", old.age, n.age);
        let mut want = refs::dwz(old.rating, old.age, old.index, v);
        if (old.rating - 1300.0).abs() < 1e-9 {
            let alt = refs::dwz(if old.rating < 1300.0 { 1300.0 } else { 1300.0 - 1e-9 }, old.age, old.index, v);
            if close(n.rating, alt, 1e-10, 1e-6) {
                want = alt;
            }
        }
        eq(what, n.rating, want, 1e-10, 1e-6)
    };
    one("player one's new rating", &x, &a, &[(b.rating, p)])?;
    one("player two's new rating", &y, &b, &[(a.rating, 1.0 - p)])?;
    predictions::<SDwz>(&a, &b, &opp::<SDwz>(&g), &(), |a, b| refs::logistic10(a.rating - b.rating, 400.0), 1e-9, 1e-12)?;
    let r = SDwz::period(&a, &g, &());
    let v: Vec<_> = g.iter().map(|(r, o)| (r.rating, points(*o))).collect();
    one("the rating after the period", &r, &a, &v)?;
    s.label_if(a.rating < 1300.0, "weak player");
    s.label_if(a.age < 20, "young player");
    s.label_if(a.index < 6, "few tournaments");
    Ok(a.rating != b.rating)
}

// ------------------------------------------------------------------ P25 first DWZ
fn p25(s: &mut Src) -> Case {
    let age = gen_age(s);
    let n = match s.below(6) {
        0 => s.idx(6),
        1 | 2 => 5 + s.idx(12),
        3 | 4 => 5 + s.idx(120),
        _ => s.len(200),
    };
    let bias = s.below(101);
    let low = s.bool();
    let g: Vec<(DWZRating, Outcomes)> = (0..n)
        .map(|_| {
            let mut r = SDwz::gen_r(s);
            if low {
                r.rating = r.rating.abs() * 0.4;
            }
            let o = if s.below(12) == 0 { Outcomes::DRAW } else if s.below(100) < bias { WIN } else { LOSS };
            (r, o)
        })
        .collect();
    s.note(|| format!("age {age}, games {g:?}"));
    let res = get_first_dwz(age, &g);
    let pts2: u64 = g.iter().map(|x| (points(x.1) * 2.0) as u64).sum();
    if n < 5 {
        s.label("too few games");
        ensure!(res == Err(GetFirstDWZError::NotEnoughGames), "{n} games give {res:?}");
        let msg = GetFirstDWZError::NotEnoughGames.to_string();
        ensure!(msg.contains('5') && !msg.contains('%'), "too few games reads {msg:?}");
        return Ok(n > 0);
    }
    if pts2 == 0 || pts2 == 2 * n as u64 {
        s.label("all won or all lost");
        ensure!(res == Err(GetFirstDWZError::InvalidWinRate), "{} half points of {n} games give {res:?}", pts2);
        let msg = GetFirstDWZError::InvalidWinRate.to_string();
        ensure!(msg.contains("0%") && msg.contains("100%"), "all won or all lost reads {msg:?}");
        return Ok(true);
    }
    let Ok(r) = res else { return Err(format!("{pts2} half points of {n} games give {res:?}")) };
    ensure!(r.index == 1 && r.age == age, "index {} and age {} for a player of age {age}", r.index, r.age);
    let avg = g.iter().map(|x| x.0.rating).sum::<f64>() / n as f64;
    // percentage, exactly: 100 * pts2 / (2 n)
    let (num, den) = (100 * pts2, 2 * n as u64);
    let down = (num / den) as i64;
    let tie = 2 * (num % den) == den;
    let near = if 2 * (num % den) >= den { down + 1 } else { down };
    let close_to = |p: i64| {
        let v = refs::first_dwz(avg, p);
        let raw = avg + refs::dwz_table(p);
        close(r.rating, v, 1e-10, 1e-7) || ((raw - 800.0).abs() < 1e-7 && (close(r.rating, raw, 1e-10, 1e-6) || close(r.rating, 700.0 + raw / 8.0, 1e-10, 1e-6)))
    };
    ensure!(
        close_to(near) || (tie && !n.is_power_of_two() && close_to(down)),
        "{pts2} half points of {n} games against an average of {avg} give {}, the published table {}",
        r.rating,
        refs::first_dwz(avg, near)
    );
    s.label_if(avg + refs::dwz_table(near) <= 800.0, "low performance");
    s.label_if(near > 50, "more than half of the points");
    Ok(true)
}

// ------------------------------------------------------------------ P26 USCF
fn p26(s: &mut Src) -> Case {
    let (mut a, mut b, c) = super::cross::setup::<SUscf>(s);
    let o = gen_outcome(s);
    let mut g = games::<SUscf>(s, 40);
    // ratings below the floor of 100 come in from elsewhere (a conversion, a player's own number)
    if s.one_in(12) {
        let d = s.pick(&[100.0, 800.0, 1500.0]);
        a.rating -= d;
        b.rating -= d;
        g.iter_mut().for_each(|x| x.0.rating -= d);
        s.label_if(a.rating < 100.0, "below the floor");
        s.note(|| format!("{a:?}, {b:?}"));
    }
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    let (x, y) = SUscf::rate(&a, &b, o, &c);
    let p = points(o);
    eq("player one's new rating", x.rating, refs::uscf(a.rating, a.games, c.t, &[(b.rating, p)]), 1e-10, 1e-7)?;
    eq("player two's new rating", y.rating, refs::uscf(b.rating, b.games, c.t, &[(a.rating, 1.0 - p)]), 1e-10, 1e-7)?;
    ensure!(x.games == a.games + 1 && y.games == b.games + 1, "games {} {} became {} {}", a.games, b.games, x.games, y.games);
    predictions::<SUscf>(&a, &b, &opp::<SUscf>(&g), &c, |a, b| refs::logistic10(a.rating - b.rating, 400.0), 1e-9, 1e-12)?;
    let r = SUscf::period(&a, &g, &c);
    let v: Vec<_> = g.iter().map(|(r, o)| (r.rating, points(*o))).collect();
    eq("the rating after the period", r.rating, refs::uscf(a.rating, a.games, c.t, &v), 1e-10, 1e-7)?;
    ensure!(r.games == a.games + g.len(), "games {} became {} after {} games", a.games, r.games, g.len());
    s.label_if(a.games <= 8, "provisional");
    s.label_if(a.games > 8 && g.len() >= 3, "bonus possible");
    Ok(a.rating != b.rating)
}

// ------------------------------------------------------------------ P27 Glicko
fn p27(s: &mut Src) -> Case {
    let (a, b, c) = super::cross::setup::<SGlicko>(s);
    let o = gen_outcome(s);
    let g = games::<SGlicko>(s, 40);
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    let p = points(o);
    let (x, y) = SGlicko::rate(&a, &b, o, &c);
    let one = |what: &str, n: (f64, f64), w: (f64, f64)| -> Result<(), String> {
        eq(&format!("{what}: the new rating"), n.0, w.0, 1e-9, 1e-7)?;
        eq(&format!("{what}: the new deviation"), n.1, w.1, 1e-9, 0.0)
    };
    let gm = |r: &skillratings::glicko::GlickoRating, s: f64| G { r: r.rating, rd: r.deviation, s, adv: 0.0 };
    one("player one", (x.rating, x.deviation), refs::glicko(a.rating, a.deviation, c.c, &[gm(&b, p)]))?;
    one("player two", (y.rating, y.deviation), refs::glicko(b.rating, b.deviation, c.c, &[gm(&a, 1.0 - p)]))?;
    predictions::<SGlicko>(&a, &b, &opp::<SGlicko>(&g), &c, |a, b| refs::glicko_expected(a.rating, a.deviation, b.rating, b.deviation, 0.0), 1e-9, 1e-12)?;
    let r = SGlicko::period(&a, &g, &c);
    let v: Vec<G> = g.iter().map(|(r, o)| gm(r, points(*o))).collect();
    one("rating period", (r.rating, r.deviation), refs::glicko(a.rating, a.deviation, c.c, &v))?;
    let d = skillratings::glicko::decay_deviation(&a, &c);
    ensure!(d.rating == a.rating, "decay takes the rating from {} to {}", a.rating, d.rating);
    eq("the decayed deviation", d.deviation, refs::decay(a.deviation, c.c), 1e-9, 0.0)?;
    Ok(a != b)
}

// ------------------------------------------------------------------ P28 Glicko-2
fn g2_valid(what: &str, old: &skillratings::glicko2::Glicko2Rating, new: &skillratings::glicko2::Glicko2Rating, g: &[G], c: &skillratings::glicko2::Glicko2Config) -> Result<bool, String> {
    let sums = refs::glicko2_sums(old.rating, g);
    // how much rounding 1 - E costs when E is nearly 1
    let sat = g
        .iter()
        .map(|x| {
            let d = (refs::g2(x.rd / refs::G2) * (old.rating - x.r) / refs::G2).abs();
            2e-15 * (1.0 + d.exp())
        })
        .fold(0.0, f64::max);
    ensure!(new.volatility > 0.0 && new.volatility.is_finite(), "{what}: volatility {}", new.volatility);
    let phi = old.deviation / refs::G2;
    let f = |x: f64| refs::glicko2_f(x, old.volatility, phi, c.tau, &sums);
    let x = 2.0 * new.volatility.ln();
    let precise = sat < 1e-6;
    if precise {
        let w = 2.0 * c.convergence_tolerance + 1e-8 + 100.0 * sat;
        let (l, h) = (f(x - w), f(x + w));
        let noise = 1e-9 * (1.0 / (c.tau * c.tau) + 1.0);
        // two solutions may lie close together: look between, too
        let inside = || {
            let step = w / 32.0;
            let bend = (l + h - 2.0 * f(x)).abs() / (w * w);
            (-31..32).any(|i| {
                let y = f(x + f64::from(i) * step);
                (y >= 0.0) != (l >= 0.0) || y.abs() <= noise + bend * step * step
            })
        };
        ensure!(
            (l >= 0.0) != (h >= 0.0) || l.abs().min(h.abs()) <= noise || inside(),
            "{what}: the new volatility {} is no solution: its equation gives {l} and {h} on both sides",
            new.volatility
        );
    }
    let (r, rd) = refs::glicko2_finish(old.rating, old.deviation, new.volatility, &sums);
    eq(&format!("{what}: the new rating (volatility {})", new.volatility), new.rating, r, 1e-9 + 100.0 * sat, 1e-6 + sat * 400.0)?;
    eq(&format!("{what}: the new deviation (volatility {})", new.volatility), new.deviation, rd, 1e-9 + 100.0 * sat, 0.0)?;
    Ok(precise)
}
fn p28(s: &mut Src) -> Case {
    let (mut a, b, mut c) = super::cross::setup::<SGlicko2>(s);
    let wild = s.one_in(20);
    if wild {
        // so erratic that the search for the volatility has to widen its bracket
        a.volatility = s.num(&crate::src::spec(2.0, 1.0, 20.0, 0.5, 40.0));
        c.tau = s.num(&crate::src::spec(2.5, 1.0, 5.0, 0.5, 8.0));
        s.note(|| format!("instead {a:?} {c:?}"));
    }
    let o = gen_outcome(s);
    let g = games::<SGlicko2>(s, 40);
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    let p = points(o);
    let gm = |r: &skillratings::glicko2::Glicko2Rating, s: f64| G { r: r.rating, rd: r.deviation, s, adv: 0.0 };
    let (x, y) = SGlicko2::rate(&a, &b, o, &c);
    s.note(|| format!("result {x:?} {y:?}"));
    let precise = g2_valid("player one", &a, &x, &[gm(&b, p)], &c)?;
    g2_valid("player two", &b, &y, &[gm(&a, 1.0 - p)], &c)?;
    predictions::<SGlicko2>(&a, &b, &opp::<SGlicko2>(&g), &c, |a, b| refs::glicko2_expected(a.rating, a.deviation, b.rating, b.deviation), 1e-9, 1e-12)?;
    let r = SGlicko2::period(&a, &g, &c);
    s.note(|| format!("after the period {r:?}"));
    {
        let d = (a.deviation.powi(2) + (refs::G2 * a.volatility).powi(2)).sqrt().min(350.0);
        let r = skillratings::glicko2::decay_deviation(&a);
        ensure!(r.rating == a.rating && r.volatility == a.volatility, "decay takes {a:?} to {r:?}");
        eq("the decayed deviation", r.deviation, d, 1e-9, 0.0)?;
    }
    if g.is_empty() {
        let d = (a.deviation.powi(2) + (refs::G2 * a.volatility).powi(2)).sqrt().min(350.0);
        ensure!(r.rating == a.rating && r.volatility == a.volatility, "a period without games takes {a:?} to {r:?}");
        eq("the deviation after a period without games", r.deviation, d, 1e-9, 0.0)?;
    } else {
        let v: Vec<G> = g.iter().map(|(r, o)| gm(r, points(*o))).collect();
        g2_valid("rating period", &a, &r, &v, &c)?;
    }
    s.label_if(g.is_empty(), "no games");
    s.label_if(wild, "large volatility and tau");
    s.label_if(precise, "volatility checked");
    s.label_if(c.convergence_tolerance != 1e-6, "other tolerance");
    Ok(a != b && precise)
}

// ------------------------------------------------------------------ P29 Glicko-Boost
fn boost_c(c: &GlickoBoostConfig) -> refs::BoostC {
    refs::BoostC { k: c.k, b: c.b, alpha: [c.alpha.0, c.alpha.1, c.alpha.2, c.alpha.3, c.alpha.4] }
}
/// Published rule: the boost applies when z > k, unless k is 0.
fn boost_ok(what: &str, old: &GlickoBoostRating, new: &GlickoBoostRating, g: &[G], c: &GlickoBoostConfig) -> Result<bool, String> {
    let (z, plain, boosted) = refs::boost(old.rating, old.deviation, &boost_c(c), g);
    let sat = g
        .iter()
        .map(|x| {
            let d = (refs::g(x.rd) * (old.rating + x.adv - x.r)).abs() * refs::q();
            2e-15 * (1.0 + d.exp())
        })
        .fold(0.0, f64::max);
    let near = (z - c.k).abs() <= (1e-9 + sat) * (1.0 + z.abs());
    let on = z > c.k && c.k != 0.0;
    let want = if on { boosted } else { plain };
    let other = if on { plain } else { boosted };
    let m = |w: (f64, f64)| close(new.rating, w.0, 1e-9, 1e-6 + 1e3 * sat) && close(new.deviation, w.1, 1e-9 + sat, 0.0);
    ensure!(
        m(want) || (near && m(other)) || sat > 1e-3,
        "{what}: {new:?}, the published formula gives rating {} and deviation {} (z {z}, boost {on})",
        want.0,
        want.1
    );
    Ok(on)
}
fn p29(s: &mut Src) -> Case {
    let (a, b, c) = super::cross::setup::<SBoost>(s);
    let o = gen_outcome(s);
    let n = s.len(40);
    let g: Vec<_> = (0..n).map(|_| (SBoost::gen_r(s), gen_outcome(s), s.bool())).collect();
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    let gm = |r: &GlickoBoostRating, o: Outcomes, first: bool| G { r: r.rating, rd: r.deviation, s: points(o), adv: if first { c.eta } else { -c.eta } };
    let (x, y) = SBoost::rate(&a, &b, o, &c);
    let b1 = boost_ok("player one", &a, &x, &[gm(&b, o, true)], &c)?;
    boost_ok("player two", &b, &y, &[gm(&a, flip(o), false)], &c)?;
    let v: Vec<_> = g.iter().map(|x| x.0).collect();
    predictions::<SBoost>(&a, &b, &v, &c, |a, b| refs::glicko_expected(a.rating, a.deviation, b.rating, b.deviation, c.eta), 1e-9, 1e-12)?;
    let r = glicko_boost_rating_period(&a, &g, &c);
    let v: Vec<G> = g.iter().map(|(r, o, f)| gm(r, *o, *f)).collect();
    let b2 = boost_ok("rating period", &a, &r, &v, &c)?;
    let d = skillratings::glicko_boost::decay_deviation(&a, &c);
    ensure!(d.rating == a.rating, "decay takes the rating from {} to {}", a.rating, d.rating);
    eq("the decayed deviation", d.deviation, refs::boost_decay(a.rating, a.deviation, &boost_c(&c).alpha), 1e-9, 0.0)?;
    s.label_if(b1, "boost in a single game");
    s.label_if(b2, "boost in a period");
    Ok(a != b)
}

// ------------------------------------------------------------------ P30 Sticko
fn p30(s: &mut Src) -> Case {
    let (a, b, c) = super::cross::setup::<SSticko>(s);
    let o = gen_outcome(s);
    let n = s.len(40);
    let g: Vec<_> = (0..n).map(|_| (SSticko::gen_r(s), gen_outcome(s), s.bool())).collect();
    s.note(|| format!("outcome {o:?}, period {g:?}"));
    let gm = |r: &StickoRating, o: Outcomes, first: bool| G { r: r.rating, rd: r.deviation, s: points(o), adv: if first { c.gamma } else { -c.gamma } };
    let k = refs::StickoC { h: c.h, beta: c.beta, lambda: c.lambda, c: c.c };
    let one = |what: &str, n: &StickoRating, w: (f64, f64)| -> Result<(), String> {
        eq(&format!("{what}: the new rating"), n.rating, w.0, 1e-9, 1e-6)?;
        eq(&format!("{what}: the new deviation"), n.deviation, w.1, 1e-9, 0.0)
    };
    let (x, y) = SSticko::rate(&a, &b, o, &c);
    one("player one", &x, refs::sticko(a.rating, a.deviation, &k, &[gm(&b, o, true)]))?;
    one("player two", &y, refs::sticko(b.rating, b.deviation, &k, &[gm(&a, flip(o), false)]))?;
    let v: Vec<_> = g.iter().map(|x| x.0).collect();
    predictions::<SSticko>(&a, &b, &v, &c, |a, b| refs::glicko_expected(a.rating, a.deviation, b.rating, b.deviation, c.gamma), 1e-9, 1e-12)?;
    let v: Vec<_> = g.iter().map(|x| (x.0, x.2)).collect();
    let v = skillratings::sticko::expected_score_rating_period(&a, &v, &c);
    ensure!(v.len() == n, "{} predictions for {n} opponents", v.len());
    for (i, (x, (t, _, f))) in v.iter().zip(&g).enumerate() {
        let adv = if *f { c.gamma } else { -c.gamma };
        eq(&format!("prediction {i} of the period"), *x, refs::glicko_expected(a.rating, a.deviation, t.rating, t.deviation, adv), 1e-9, 1e-12)?;
    }
    let d = skillratings::sticko::decay_deviation(&a, &c);
    ensure!(d.rating == a.rating, "decay takes the rating from {} to {}", a.rating, d.rating);
    eq("the decayed deviation", d.deviation, refs::decay(a.deviation, c.c), 1e-9, 0.0)?;
    let r = sticko_rating_period(&a, &g, &c);
    let v: Vec<G> = g.iter().map(|(r, o, f)| gm(r, *o, *f)).collect();
    one("rating period", &r, refs::sticko(a.rating, a.deviation, &k, &v))?;
    s.label_if(c.beta != 0.0, "participation bonus");
    s.label_if(c.gamma != 0.0, "side advantage");
    Ok(a != b)
}

// ------------------------------------------------------------------ P31 TrueSkill, two sides
fn tsc(c: &TrueSkillConfig) -> refs::TsC {
    refs::TsC { draw: c.draw_probability, beta: c.beta, tau: c.dynamics_factor }
}
pub fn pairs(t: &[TrueSkillRating]) -> Vec<(f64, f64)> {
    t.iter().map(|p| (p.rating, p.uncertainty)).collect()
}
pub fn wl_pairs(t: &[WengLinRating]) -> Vec<(f64, f64)> {
    t.iter().map(|p| (p.rating, p.uncertainty)).collect()
}
fn ts_eq(what: &str, got: &[TrueSkillRating], want: &[(f64, f64)], tol: f64, scale: f64) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{what}: {} players, expected {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(
            close(g.rating, w.0, tol, tol * unit())
                && g.uncertainty >= 0.0
                && (close(g.uncertainty, w.1, tol, tol * unit()) || close(g.uncertainty.powi(2), w.1.powi(2), 0.0, tol * scale * scale)),
            "{what}, player {i}: {g:?}, the published formula gives {w:?}"
        );
    }
    Ok(())
}
fn p31(s: &mut Src) -> Case {
    let (a, b, c) = super::cross::setup::<STrueSkill>(s);
    let o = gen_outcome(s);
    let g = games::<STrueSkill>(s, 20);
    let (n, m) = (s.crowd(5, 20), s.crowd(5, 20));
    let t1: Vec<_> = (0..n).map(|_| gen_ts(s)).collect();
    let t2: Vec<_> = (0..m).map(|_| gen_ts(s)).collect();
    s.note(|| format!("outcome {o:?}, period {g:?}, teams {t1:?} {t2:?}"));
    let c = super::cross::tame::<STrueSkill>(s, c, o == Outcomes::DRAW || g.iter().any(|x| x.1 == Outcomes::DRAW));
    let k = tsc(&c);
    let p = points(o);
    let tol = 1e-6;
    // new variances are small differences: their error goes with the old ones
    let sc = t1.iter().chain(&t2).chain([&a, &b]).chain(g.iter().map(|x| &x.0)).map(|p| p.uncertainty).fold(0.0, f64::max) * 0.3;
    let (x, y) = STrueSkill::rate(&a, &b, o, &c);
    let (v, w) = refs::trueskill_two(&pairs(&[a]), &pairs(&[b]), p, &k);
    ts_eq("player one", &[x], &v, tol, sc)?;
    ts_eq("player two", &[y], &w, tol, sc)?;
    let r = STrueSkill::period(&a, &g, &c);
    let mut q = (a.rating, a.uncertainty);
    for (r, o) in &g {
        q = refs::trueskill_two(&[q], &pairs(&[*r]), points(*o), &k).0[0];
    }
    ts_eq("rating period", &[r], &[q], tol * (1.0 + g.len() as f64), sc)?;
    let (x, y) = trueskill_two_teams(&t1, &t2, &o, &c);
    let (v, w) = refs::trueskill_two(&pairs(&t1), &pairs(&t2), p, &k);
    ts_eq("team one", &x, &v, tol, sc)?;
    ts_eq("team two", &y, &w, tol, sc)?;
    predictions::<STrueSkill>(&a, &b, &opp::<STrueSkill>(&g), &c, |a, b| refs::trueskill_win(&pairs(&[*a]), &pairs(&[*b]), c.beta, 2), 0.0, 1e-7)?;
    let (e, f) = skillratings::trueskill::expected_score_two_teams(&t1, &t2, &c);
    eq("team two's expected score", f, 1.0 - refs::trueskill_win(&pairs(&t1), &pairs(&t2), c.beta, n + m), 0.0, 1e-7)?;
    eq("team one's expected score", e, refs::trueskill_win(&pairs(&t1), &pairs(&t2), c.beta, n + m), 0.0, 1e-7)?;
    s.label_if(p == 0.5, "draw");
    s.label_if(n != m, "unequal team sizes");
    s.label_if(n.max(m) > 60_000, "a team of over 65000");
    Ok(a != b && n + m > 2)
}

// ------------------------------------------------------------------ P33 Weng-Lin
fn wl_eq(what: &str, got: &[WengLinRating], want: &[(f64, f64)]) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{what}: {} players, expected {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(
            close(g.rating, w.0, 1e-9, 1e-9 * unit()) && close(g.uncertainty, w.1, 1e-9, 1e-12 * unit()),
            "{what}, player {i}: {g:?}, the published formula gives {w:?}"
        );
    }
    Ok(())
}
fn p33(s: &mut Src) -> Case {
    let (a, b, c) = super::cross::setup::<SWengLin>(s);
    let o = gen_outcome(s);
    let g = games::<SWengLin>(s, 20);
    let n = 1 + s.size(9, 25);
    let mut teams: Vec<Vec<WengLinRating>> = (0..n).map(|_| { let k = s.size(5, 15); (0..k).map(|_| gen_wl(s)).collect() }).collect();
    super::teams::repeat_team(s, &mut teams);
    if s.below(100_000) == 99_999 {
        let k = 65_530 + s.idx(600);
        let more: Vec<_> = (0..k).map(|_| gen_wl(s)).collect();
        teams[0].extend(more);
        s.label("a team of over 65000");
    }
    let ranks = super::teams::gen_ranks(s, n, false);
    s.note(|| format!("outcome {o:?}, period {g:?}, teams {teams:?}, ranks {ranks:?}"));
    let (be, to) = (c.beta, c.uncertainty_tolerance);
    let rk = |o: Outcomes| match o {
        WIN => (0, 1),
        LOSS => (1, 0),
        _ => (0, 0),
    };
    let two = |x: &[(f64, f64)], y: &[(f64, f64)], o: Outcomes| {
        let (i, j) = rk(o);
        refs::weng_lin(&[(x.to_vec(), i), (y.to_vec(), j)], be, to)
    };
    let (x, y) = SWengLin::rate(&a, &b, o, &c);
    let w = two(&wl_pairs(&[a]), &wl_pairs(&[b]), o);
    wl_eq("player one", &[x], &w[0])?;
    wl_eq("player two", &[y], &w[1])?;
    let r = SWengLin::period(&a, &g, &c);
    let mut q = (a.rating, a.uncertainty);
    for (r, o) in &g {
        q = two(&[q], &wl_pairs(&[*r]), *o)[0][0];
    }
    wl_eq("rating period", &[r], &[q])?;
    let (x, y) = weng_lin_two_teams(&teams[0], &teams[1], &o, &c);
    let w = two(&wl_pairs(&teams[0]), &wl_pairs(&teams[1]), o);
    wl_eq("team one", &x, &w[0])?;
    wl_eq("team two", &y, &w[1])?;
    let got = weng_lin_multi_team(&super::teams::ranked(&teams, &ranks), &c);
    let w = refs::weng_lin(&teams.iter().zip(&ranks).map(|(t, r)| (wl_pairs(t), *r)).collect::<Vec<_>>(), be, to);
    ensure!(got.len() == n, "{} teams of {n} returned", got.len());
    for i in 0..n {
        wl_eq(&format!("multi-team match, team {i}"), &got[i], &w[i])?;
    }
    predictions::<SWengLin>(&a, &b, &opp::<SWengLin>(&g), &c, |a, b| refs::weng_lin_expected(&[wl_pairs(&[*a]), wl_pairs(&[*b])], be)[0], 1e-9, 1e-12)?;
    let (e, f) = skillratings::weng_lin::expected_score_two_teams(&teams[0], &teams[1], &c);
    eq("team two's expected score", f, refs::weng_lin_expected(&[wl_pairs(&teams[0]), wl_pairs(&teams[1])], be)[1], 1e-9, 1e-12)?;
    eq("team one's expected score", e, refs::weng_lin_expected(&[wl_pairs(&teams[0]), wl_pairs(&teams[1])], be)[0], 1e-9, 1e-12)?;
    let sl = super::teams::slices(&teams);
    let e = skillratings::weng_lin::expected_score_multi_team(&sl, &c);
    let w = refs::weng_lin_expected(&teams.iter().map(|t| wl_pairs(t)).collect::<Vec<_>>(), be);
    ensure!(e.len() == n, "{} predictions for {n} teams", e.len());
    for i in 0..n {
        eq(&format!("expected score of team {i}"), e[i], w[i], 1e-9, 1e-12)?;
    }
    s.label_if(ranks.iter().collect::<std::collections::HashSet<_>>().len() < n, "ties");
    s.label_if(n > 2, "more than two teams");
    Ok(true)
}

pub fn props() -> Vec<Prop> {
    macro_rules! p {
        ($id:expr, $f:ident, $q:expr, $rule:expr, $ass:expr) => {
            Prop { id: $id, rule: $rule, run: $f, quick: $q, assumptions: $ass, known: &[] }
        };
    }
    vec![
        p!("P20", p20, 24_000_000, "Two Elo players, k, outcome, and a period of up to 40 games, against the published formula. Non-trivial: different ratings and k > 0.", &[]),
        p!("P21", p21, 24_000_000, "Two FIFA teams, importance, knockout and penalty flags, outcome, and a period of up to 40 games with own flags, against the published formula. Non-trivial: different ratings and importance > 0.", &[]),
        p!("P22", p22, 16_000_000, "Two EGF players, handicap, outcome, and a period of up to 40 games with own handicaps, against the published formula. Non-trivial: different ratings.", &["rating plus handicap stays below 3300"]),
        p!("P23", p23, 18_000_000, "Two Ingo players of any age, outcome, and a period of up to 60 games, against the published formula. Non-trivial: different ratings.", &[]),
        p!("P24", p24, 16_000_000, "Two DWZ players of any age and index, outcome, and a period of up to 40 games, against the published formula. Non-trivial: different ratings.", &["differences below 1e-6 rating points are rounding"]),
        p!("P25", p25, 8_000_000, "An age and up to 200 games of an unrated player with any win rate, against the federation's table. Non-trivial: at least one game.", &["a percentage exactly between two entries takes the higher one, unless it has no exact floating-point form"]),
        p!("P26", p26, 18_000_000, "Two USCF players with any number of games, t, outcome, and a period of up to 40 games, against the published formula. Non-trivial: different ratings.", &[]),
        p!("P27", p27, 12_000_000, "Two Glicko players, c, outcome, and a period of up to 40 games, against the published formula. Non-trivial: different players.", &[]),
        p!("P28", p28, 8_000_000, "Two Glicko-2 players, tau, tolerance, outcome, and a period of up to 40 games: the new volatility must solve its published equation within the tolerance, rating and deviation must follow from it. Non-trivial: different players, expected score far enough from 0 and 1 to evaluate the equation.", &["ratings at most 6000 points apart"]),
        p!("P29", p29, 12_000_000, "Two Glicko-Boost players, all config values, outcome, and a period of up to 40 games with colours, against the published formula. Non-trivial: different players.", &["a z-score within rounding of the threshold may fall on either side"]),
        p!("P30", p30, 12_000_000, "Two Sticko players, all config values, outcome, and a period of up to 40 games with colours, against the published formula. Non-trivial: different players.", &[]),
        p!("P31", p31, 1_600_000, "Two TrueSkill players, a period of up to 20 games, two teams of up to 5, any config: ratings and predictions against the published formulas. Non-trivial: different players, more than one player per match.", &["normal distribution accurate to 1.2e-7, as documented", "dynamics factor below beta"]),
        p!("P33", p33, 4_000_000, "Two Weng-Lin players, a period, two teams, 2-10 teams of up to 5 with any ranks, any config: ratings and predictions against the published formulas.", &[]),
    ]
}
