//! Reference models, written from the published descriptions of the rating systems: plain
//! formulas, one player at a time, no sharing of code or structure with the library.

use std::f64::consts::PI;

pub fn logistic10(diff: f64, scale: f64) -> f64 {
    1.0 / (1.0 + 10f64.powf(-diff / scale))
}

// ------------------------------------------------------------------ Elo, FIFA
pub fn elo(r: f64, opp: f64, s: f64, k: f64) -> f64 {
    r + k * (s - logistic10(r - opp, 400.0))
}
/// `won`, `drew` from the point of view of the team.
pub fn fifa(r: f64, opp: f64, s: f64, importance: f64, knockout: bool, penalties: bool) -> f64 {
    let s = if penalties {
        if s == 1.0 { 0.75 } else { 0.5 }
    } else {
        s
    };
    let n = r + importance * (s - logistic10(r - opp, 600.0));
    if knockout { n.max(r) } else { n }
}

// ------------------------------------------------------------------ EGF
/// `own` and `other`: handicap stones credited to each side's strength.
pub fn egf_expected(r: f64, own: f64, opp: f64, other: f64) -> f64 {
    let eff = |r: f64, h: f64| if h == 0.0 { r } else { r + 100.0 * (h - 0.5) };
    let beta = |x: f64| -7.0 * (3300.0 - x).ln();
    1.0 / (1.0 + (beta(eff(opp, other)) - beta(eff(r, own))).exp())
}
/// Change of the rating in one game, already limited by the minimum rating.
pub fn egf_change(r: f64, s: f64, e: f64) -> f64 {
    let con = ((3300.0 - r) / 200.0).powf(1.6);
    let bonus = (1.0 + ((2300.0 - r) / 80.0).exp()).ln() / 5.0;
    (r + con * (s - e) + bonus).max(-900.0) - r
}

// ------------------------------------------------------------------ Ingo
/// Games as (opponent rating, points).
pub fn ingo(r: f64, age: usize, games: &[(f64, f64)]) -> f64 {
    if games.is_empty() {
        return r;
    }
    let n = games.len() as f64;
    let opp: f64 = games.iter().map(|g| g.0).sum::<f64>() / n;
    let pts: f64 = games.iter().map(|g| g.1).sum::<f64>() / n;
    let perf = opp - (100.0 * pts - 50.0);
    let dev = if age <= 20 { 10.0 } else if age <= 25 { 15.0 } else { 20.0 };
    (perf * n + r * dev) / (n + dev)
}
pub fn ingo_expected(r: f64, opp: f64) -> f64 {
    (0.5 + (opp - r) / 100.0).max(0.0).min(1.0)
}

// ------------------------------------------------------------------ DWZ
pub fn dwz_coefficient(r: f64, age: usize, index: usize, at_least_expected: bool, at_most_expected: bool) -> f64 {
    let j = if age <= 20 { 5.0 } else if age <= 25 { 10.0 } else { 15.0 };
    let e0 = (r / 1000.0).powi(4) + j;
    let a = if age < 20 && at_least_expected { r / 2000.0 } else { 1.0 };
    let b = if r < 1300.0 && at_most_expected { ((1300.0 - r) / 150.0).exp() - 1.0 } else { 0.0 };
    let braking = r < 1300.0 && at_most_expected;
    let e = a * e0 + b;
    let top = if braking { 150.0 } else { (5.0 * index as f64).min(30.0).max(5.0) };
    e.max(5.0).min(top)
}
/// New rating from games as (opponent rating, points).
pub fn dwz(r: f64, age: usize, index: usize, games: &[(f64, f64)]) -> f64 {
    let s: f64 = games.iter().map(|g| g.1).sum();
    let e: f64 = games.iter().map(|g| logistic10(r - g.0, 400.0)).sum();
    let c = dwz_coefficient(r, age, index, s >= e, s <= e);
    r + 800.0 / (c + games.len() as f64) * (s - e)
}
/// D(P) of the German chess federation's probability table, for P = 0..=50 per cent.
pub const DWZ_TABLE: [f64; 51] = [
    -728., -614., -555., -513., -480., -453., -429., -408., -389., -371., -355., -340., -326., -312., -300., -288.,
    -276., -265., -254., -244., -234., -224., -214., -205., -196., -187., -178., -170., -161., -153., -145., -137.,
    -129., -121., -113., -106., -98., -91., -83., -76., -69., -61., -54., -47., -40., -32., -25., -18., -11., -4., 0.,
];
pub fn dwz_table(percent: i64) -> f64 {
    if percent <= 50 { DWZ_TABLE[percent as usize] } else { -DWZ_TABLE[(100 - percent) as usize] }
}
pub fn first_dwz(avg: f64, percent: i64) -> f64 {
    let p = avg + dwz_table(percent);
    if p <= 800.0 { 700.0 + p / 8.0 } else { p }
}

// ------------------------------------------------------------------ USCF
pub fn uscf(r: f64, games: usize, t: f64, results: &[(f64, f64)]) -> f64 {
    let m = results.len() as f64;
    if results.is_empty() {
        return r;
    }
    let n = games as f64;
    let new = if games <= 8 {
        let opp: f64 = results.iter().map(|g| g.0).sum();
        let wl: f64 = results.iter().map(|g| 2.0 * g.1 - 1.0).sum();
        (n * r + opp + 400.0 * wl) / (n + m)
    } else {
        let s: f64 = results.iter().map(|g| g.1).sum();
        let e: f64 = results.iter().map(|g| logistic10(r - g.0, 400.0)).sum();
        let by_rating =
            if r < 2355.0 { 50.0 / (0.662 + 0.000_007_39 * (2569.0 - r) * (2569.0 - r)).sqrt() } else { 50.0 };
        let ne = by_rating.min(n).min(50.0);
        let k = 800.0 / (ne + m);
        let gain = k * (s - e);
        let bonus = if m < 3.0 { 0.0 } else { (gain - t * m.min(4.0).sqrt()).max(0.0) };
        r + gain + bonus
    };
    new.max(100.0)
}

// ------------------------------------------------------------------ Glicko family
pub fn q() -> f64 {
    10f64.ln() / 400.0
}
pub fn g(rd: f64) -> f64 {
    1.0 / (1.0 + 3.0 * q() * q() * rd * rd / (PI * PI)).sqrt()
}
/// A game: opponent rating, opponent deviation, points, rating advantage of the player.
pub struct G {
    pub r: f64,
    pub rd: f64,
    pub s: f64,
    pub adv: f64,
}
pub fn glicko_expected(r: f64, rd: f64, opp: f64, opp_rd: f64, adv: f64) -> f64 {
    logistic10(g((rd * rd + opp_rd * opp_rd).sqrt()) * (r + adv - opp), 400.0)
}
/// (sum of g^2 E(1-E), sum of g(s-E))
fn sums(r: f64, games: &[G]) -> (f64, f64) {
    let (mut v, mut m) = (0.0, 0.0);
    for x in games {
        let gj = g(x.rd);
        let d = gj * (r + x.adv - x.r);
        let e = logistic10(d, 400.0);
        // 1 - E without cancellation
        let not_e = logistic10(-d, 400.0);
        v += gj * gj * e * not_e;
        m += gj * (x.s - e);
    }
    (v, m)
}
pub fn decay(rd: f64, c: f64) -> f64 {
    (rd * rd + c * c).sqrt().min(350.0)
}
pub fn glicko(r: f64, rd: f64, c: f64, games: &[G]) -> (f64, f64) {
    let pre = decay(rd, c);
    if games.is_empty() {
        return (r, pre);
    }
    let (v, m) = sums(r, games);
    let prec = 1.0 / (pre * pre) + q() * q() * v;
    (r + q() / prec * m, (1.0 / prec).sqrt())
}
pub struct StickoC {
    pub h: f64,
    pub beta: f64,
    pub lambda: f64,
    pub c: f64,
}
pub fn sticko(r: f64, rd: f64, k: &StickoC, games: &[G]) -> (f64, f64) {
    let pre = decay(rd, k.c);
    if games.is_empty() {
        return (r, pre);
    }
    let n = games.len() as f64;
    let (v, m) = sums(r, games);
    let mb = m + k.beta * games.iter().map(|x| g(x.rd)).sum::<f64>();
    let prec = 1.0 / (pre * pre) + q() * q() * v;
    let avg = games.iter().map(|x| x.r).sum::<f64>() / n;
    let new_r = r + q() / prec * mb + k.lambda / 100.0 * (avg - r);
    let new_rd = (1.0 / (1.0 / (pre * pre + k.h * n) + q() * q() * v)).sqrt().min(350.0);
    (new_r, new_rd)
}
pub struct BoostC {
    pub k: f64,
    pub b: (f64, f64),
    pub alpha: [f64; 5],
}
pub fn boost_decay(r: f64, rd: f64, a: &[f64; 5]) -> f64 {
    let x = r / 1000.0;
    (rd * rd + (a[0] + a[1] * rd + a[2] * rd * x + a[3] * x + a[4] * x * x).exp()).sqrt().min(350.0)
}
/// z, and the results without and with the boost.
pub fn boost(r: f64, rd: f64, k: &BoostC, games: &[G]) -> (f64, (f64, f64), (f64, f64)) {
    if games.is_empty() {
        let d = (r, boost_decay(r, rd, &k.alpha));
        return (0.0, d, d);
    }
    let (v, m) = sums(r, games);
    let z = m / v.sqrt();
    let info = q() * q() * v;
    let comb = |d: f64| (1.0 / (1.0 / (d * d) + info)).sqrt();
    let fin = |nd: f64| {
        let nr = r + nd * nd * q() * m;
        (nr, boost_decay(nr, nd, &k.alpha))
    };
    let plain = comb(rd);
    let boosted = comb((1.0 + (z - k.k) * k.b.0) * plain + k.b.1);
    (z, fin(plain.min(350.0)), fin(boosted.min(350.0)))
}

// ------------------------------------------------------------------ Glicko-2
pub const G2: f64 = 173.7178;
pub struct G2Sums {
    pub v: f64,
    pub delta: f64,
    pub m: f64,
}
pub fn g2(phi: f64) -> f64 {
    1.0 / (1.0 + 3.0 * phi * phi / (PI * PI)).sqrt()
}
pub fn glicko2_sums(r: f64, games: &[G]) -> G2Sums {
    let mu = (r - 1500.0) / G2;
    let (mut i, mut m) = (0.0, 0.0);
    for x in games {
        let gj = g2(x.rd / G2);
        let d = gj * (mu - (x.r - 1500.0) / G2);
        let e = 1.0 / (1.0 + (-d).exp());
        let ne = 1.0 / (1.0 + d.exp());
        i += gj * gj * e * ne;
        m += gj * (x.s - e);
    }
    G2Sums { v: 1.0 / i, delta: m / i, m }
}
/// The function whose root is ln(sigma'^2).
pub fn glicko2_f(x: f64, vol: f64, phi: f64, tau: f64, s: &G2Sums) -> f64 {
    let ex = x.exp();
    let d = phi * phi + s.v + ex;
    ex * (s.delta * s.delta - d) / (2.0 * d * d) - (x - (vol * vol).ln()) / (tau * tau)
}
/// Deviation and rating after the volatility is known.
pub fn glicko2_finish(r: f64, rd: f64, new_vol: f64, s: &G2Sums) -> (f64, f64) {
    let phi = rd / G2;
    let star = phi * phi + new_vol * new_vol;
    let p = 1.0 / (1.0 / star + 1.0 / s.v);
    (1500.0 + G2 * ((r - 1500.0) / G2 + p * s.m), G2 * p.sqrt())
}
pub fn glicko2_expected(r: f64, rd: f64, opp: f64, opp_rd: f64) -> f64 {
    let phi = (rd * rd + opp_rd * opp_rd).sqrt() / G2;
    1.0 / (1.0 + (-g2(phi) * (r - opp) / G2).exp())
}

// ------------------------------------------------------------------ normal distribution
/// Complementary error function, the rational Chebyshev fit of "Numerical Recipes" (erfcc).
pub fn erfc(x: f64) -> f64 {
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    let c = [
        -1.265_512_23, 1.000_023_68, 0.374_091_96, 0.096_784_18, -0.186_288_06, 0.278_868_07, -1.135_203_98,
        1.488_515_87, -0.822_152_23, 0.170_872_77,
    ];
    let p = c.iter().rev().fold(0.0, |acc, k| acc * t + k);
    let r = t * (p - z * z).exp();
    if x < 0.0 { 2.0 - r } else { r }
}
pub fn cdf(x: f64) -> f64 {
    0.5 * erfc(-x / 2f64.sqrt())
}
pub fn pdf(x: f64) -> f64 {
    (-x * x / 2.0).exp() / (2.0 * PI).sqrt()
}
/// Quantile of the normal distribution for 0.5 <= p < 1 by bisection of `cdf`.
pub fn quantile(p: f64) -> f64 {
    let (mut lo, mut hi) = (0.0, 10.0);
    for _ in 0..80 {
        let m = 0.5 * (lo + hi);
        if cdf(m) < p { lo = m } else { hi = m }
    }
    0.5 * (lo + hi)
}

// ------------------------------------------------------------------ TrueSkill
pub const TINY: f64 = 2.222_758_749e-162;
/// Mean shift and variance reduction of a standard normal around `t` cut at `e` (all in units of c).
pub fn vw_win(t: f64, e: f64) -> (f64, f64) {
    let x = t - e;
    let n = cdf(x);
    if n < TINY {
        return (-x, 1.0);
    }
    let v = pdf(x) / n;
    (v, v * (v + x))
}
pub fn vw_draw(t: f64, e: f64) -> (f64, f64) {
    let a = t.abs();
    let n = cdf(e - a) - cdf(-e - a);
    if n < TINY {
        let v = if t < 0.0 { -t - e } else { -t + e };
        return (v, 1.0);
    }
    let v = (pdf(-e - a) - pdf(e - a)) / n;
    let w = v * v + ((e - a) * pdf(e - a) + (e + a) * pdf(e + a)) / n;
    (if t < 0.0 { -v } else { v }, w.min(1.0))
}
pub fn draw_margin(p: f64, beta: f64, players: usize) -> f64 {
    quantile((p + 1.0) / 2.0) * (players as f64).sqrt() * beta
}
pub struct TsC {
    pub draw: f64,
    pub beta: f64,
    pub tau: f64,
}
/// Two teams of (mean, deviation), s = points of team one.
pub fn trueskill_two(a: &[(f64, f64)], b: &[(f64, f64)], s: f64, k: &TsC) -> (Vec<(f64, f64)>, Vec<(f64, f64)>) {
    let n = a.len() + b.len();
    let eps = draw_margin(k.draw, k.beta, n);
    let var: f64 = a.iter().chain(b).map(|p| p.1 * p.1).sum::<f64>() + n as f64 * k.beta * k.beta;
    let c = var.sqrt();
    let d = a.iter().map(|p| p.0).sum::<f64>() - b.iter().map(|p| p.0).sum::<f64>();
    let (v, w) = if s == 0.5 {
        vw_draw(d / c, eps / c)
    } else if s == 1.0 {
        vw_win(d / c, eps / c)
    } else {
        let (v, w) = vw_win(-d / c, eps / c);
        (-v, w)
    };
    let up = |p: &(f64, f64), sign: f64| {
        let s2 = p.1 * p.1 + k.tau * k.tau;
        (p.0 + sign * s2 / c * v, (s2 * (1.0 - w * s2 / var)).sqrt())
    };
    (a.iter().map(|p| up(p, 1.0)).collect(), b.iter().map(|p| up(p, -1.0)).collect())
}
/// Any number of teams: expectation propagation on the chain of neighbouring teams, sweeping
/// forward and backward at most ten times, until nothing moves by more than 0.0001.
/// Players as (mean, deviation, weight).
/// `forced` sweeps exactly so often.
pub struct Multi {
    pub out: Vec<Vec<(f64, f64)>>,
    /// Rounding may decide whether there is another sweep.
    pub near: bool,
    /// Rounding makes the numbers themselves meaningless.
    pub noisy: bool,
    pub sweeps: usize,
}
pub fn trueskill_multi_with(teams: &[(Vec<(f64, f64, f64)>, usize)], k: &TsC, limit: f64, forced: Option<usize>) -> Multi {
    let (mut near, mut noisy) = (false, false);
    let mut sweeps = 0;
    #[derive(Clone, Copy)]
    struct N {
        pi: f64,
        tau: f64,
    }
    impl N {
        fn mul(self, o: N) -> N {
            N { pi: self.pi + o.pi, tau: self.tau + o.tau }
        }
        fn mean(self) -> f64 {
            if self.pi == 0.0 { 0.0 } else { self.tau / self.pi }
        }
        fn var(self) -> f64 {
            1.0 / self.pi
        }
        fn of(mean: f64, var: f64) -> N {
            if var.is_infinite() { N { pi: 0.0, tau: 0.0 } } else { N { pi: 1.0 / var, tau: mean / var } }
        }
    }
    const ZERO: N = N { pi: 0.0, tau: 0.0 };
    let mut order: Vec<usize> = (0..teams.len()).collect();
    order.sort_by_key(|i| teams[*i].1);
    let n = teams.len();
    let perf_var = |p: &(f64, f64, f64)| p.1 * p.1 + k.tau * k.tau + k.beta * k.beta;
    let prior: Vec<N> = order
        .iter()
        .map(|i| {
            let t = &teams[*i].0;
            N::of(t.iter().map(|p| p.2 * p.0).sum(), t.iter().map(|p| p.2 * p.2 * perf_var(p)).sum())
        })
        .collect();
    let mut left = vec![ZERO; n];
    let mut right = vec![ZERO; n];
    let mut trunc = vec![ZERO; n - 1];
    let eps: Vec<f64> = (0..n - 1)
        .map(|x| draw_margin(k.draw, k.beta, teams[order[x]].0.len() + teams[order[x + 1]].0.len()))
        .collect();
    let tie: Vec<bool> = (0..n - 1).map(|x| teams[order[x]].1 == teams[order[x + 1]].1).collect();
    // cuts the difference of teams x and x+1; returns how far it moved
    let cut = |x: usize, left: &[N], right: &[N], trunc: &mut [N], range: &mut (f64, f64, f64)| -> f64 {
        let a = prior[x].mul(left[x]);
        let b = prior[x + 1].mul(right[x + 1]);
        let msg = N::of(a.mean() - b.mean(), a.var() + b.var());
        let sq = msg.pi.sqrt();
        let (t, e) = (msg.tau / sq, eps[x] * msg.pi / sq);
        let (v, w) = if tie[x] { vw_draw(t, e) } else { vw_win(t, e) };
        let keep = (1.0 - w).max(1e-6);
        let new = N { pi: msg.pi / keep, tau: (msg.tau + sq * v) / keep };
        let old = msg.mul(trunc[x]);
        trunc[x] = N { pi: new.pi - msg.pi, tau: new.tau - msg.tau };
        // the same with the rounding of the differences, amplified by the square root
        let (dt, dp) = ((new.tau - old.tau).abs(), (new.pi - old.pi).abs());
        // v and w are differences of nearly equal numbers when the result is unlikely
        let cond = if tie[x] { cdf(e - t.abs()) / (cdf(e - t.abs()) - cdf(-e - t.abs())).abs() } else { 1.0 };
        let noise = if w == 1.0 && v.abs() > 20.0 { 1e-11 } else { 1e-12 + 2e-14 * (1.0 + t * t + v * v) * cond / keep };
        range.2 = range.2.max(if noise.is_nan() { 1.0 } else { noise });
        let noise = 30.0 * noise;
        let (nt, np) = (noise * new.tau.abs().max(old.tau.abs()), noise * new.pi.abs().max(old.pi.abs()));
        range.0 = range.0.max((dt - nt).max((dp - np).max(0.0).sqrt()));
        range.1 = range.1.max((dt + nt).max((dp + np).sqrt()));
        dt.max(dp.sqrt())
    };
    let to_right = |x: usize, left: &mut [N], trunc: &[N]| {
        let a = prior[x].mul(left[x]);
        let d = trunc[x];
        left[x + 1] = N::of(a.mean() - d.mean(), a.var() + d.var());
    };
    let to_left = |x: usize, right: &mut [N], trunc: &[N]| {
        let b = prior[x + 1].mul(right[x + 1]);
        let d = trunc[x];
        right[x] = N::of(b.mean() + d.mean(), b.var() + d.var());
    };
    for _ in 0..10 {
        let mut delta: f64 = 0.0;
        let mut range = (0.0, 0.0, 0.0);
        if n == 2 {
            delta = cut(0, &left, &right, &mut trunc, &mut range);
        } else {
            for x in 0..n - 2 {
                delta = delta.max(cut(x, &left, &right, &mut trunc, &mut range));
                to_right(x, &mut left, &trunc);
            }
            for x in (1..n - 1).rev() {
                delta = delta.max(cut(x, &left, &right, &mut trunc, &mut range));
                to_left(x, &mut right, &trunc);
            }
        }
        sweeps += 1;
        noisy |= range.2 > 3e-8;
        near |= range.0 * 0.999_999 < limit && range.1 * 1.000_001 > limit;
        if forced.map_or(delta <= limit, |f| sweeps >= f) {
            break;
        }
    }
    to_left(0, &mut right, &trunc);
    to_right(n - 2, &mut left, &trunc);
    let mut out = vec![Vec::new(); n];
    for (x, i) in order.iter().enumerate() {
        let team = &teams[*i].0;
        let ev = left[x].mul(right[x]);
        out[*i] = team
            .iter()
            .enumerate()
            .map(|(j, p)| {
                let pv = p.1 * p.1 + k.tau * k.tau;
                if p.2 == 0.0 {
                    return (p.0, pv.sqrt());
                }
                let (mut m, mut v) = (ev.mean(), ev.var());
                for (l, o) in team.iter().enumerate() {
                    if l != j {
                        m -= o.2 * o.0;
                        v += o.2 * o.2 * perf_var(o);
                    }
                }
                let obs = N::of(m / p.2, v / (p.2 * p.2) + k.beta * k.beta);
                let post = N::of(p.0, pv).mul(obs);
                (post.mean(), post.var().sqrt())
            })
            .collect();
    }
    Multi { out, near, noisy, sweeps }
}
pub fn trueskill_win(a: &[(f64, f64)], b: &[(f64, f64)], beta: f64, players: usize) -> f64 {
    let var: f64 = a.iter().chain(b).map(|p| p.1 * p.1).sum::<f64>() + players as f64 * beta * beta;
    cdf((a.iter().map(|p| p.0).sum::<f64>() - b.iter().map(|p| p.0).sum::<f64>()) / var.sqrt())
}
/// Match quality: probability density of all neighbouring performance differences being zero,
/// relative to the best case. Players as (mean, deviation, weight).
pub fn quality(teams: &[Vec<(f64, f64, f64)>], beta: f64) -> f64 {
    let n = teams.len() - 1;
    let mut base = vec![vec![0.0; n]; n];
    let mut full = vec![vec![0.0; n]; n];
    let w2 = |t: &Vec<(f64, f64, f64)>| t.iter().map(|p| p.2 * p.2 * beta * beta).sum::<f64>();
    let f2 = |t: &Vec<(f64, f64, f64)>| t.iter().map(|p| p.2 * p.2 * (beta * beta + p.1 * p.1)).sum::<f64>();
    let mu: Vec<f64> = (0..n)
        .map(|i| {
            let m = |t: &Vec<(f64, f64, f64)>| t.iter().map(|p| p.2 * p.0).sum::<f64>();
            m(&teams[i]) - m(&teams[i + 1])
        })
        .collect();
    for i in 0..n {
        base[i][i] = w2(&teams[i]) + w2(&teams[i + 1]);
        full[i][i] = f2(&teams[i]) + f2(&teams[i + 1]);
        if i + 1 < n {
            base[i][i + 1] = -w2(&teams[i + 1]);
            base[i + 1][i] = base[i][i + 1];
            full[i][i + 1] = -f2(&teams[i + 1]);
            full[i + 1][i] = full[i][i + 1];
        }
    }
    // tridiagonal positive definite elimination
    let det_solve = |m: &Vec<Vec<f64>>, rhs: &[f64]| -> (f64, f64) {
        let mut d = vec![0.0; n];
        let mut y = vec![0.0; n];
        let mut logdet = 0.0;
        let mut quad = 0.0;
        for i in 0..n {
            d[i] = m[i][i];
            y[i] = rhs[i];
            if i > 0 {
                let f = m[i][i - 1] / d[i - 1];
                d[i] -= f * m[i - 1][i];
                y[i] -= f * y[i - 1];
            }
            logdet += d[i].ln();
            quad += y[i] * y[i] / d[i];
        }
        (logdet, quad)
    };
    let (lb, _) = det_solve(&base, &mu);
    let (lf, quad) = det_solve(&full, &mu);
    (-0.5 * quad + 0.5 * (lb - lf)).exp()
}

// ------------------------------------------------------------------ Weng-Lin (Bradley-Terry, full pair)
/// Teams of (mean, deviation) with ranks.
pub fn weng_lin(teams: &[(Vec<(f64, f64)>, usize)], beta: f64, tol: f64) -> Vec<Vec<(f64, f64)>> {
    let mu: Vec<f64> = teams.iter().map(|t| t.0.iter().map(|p| p.0).sum()).collect();
    let s2: Vec<f64> = teams.iter().map(|t| t.0.iter().map(|p| p.1 * p.1).sum()).collect();
    (0..teams.len())
        .map(|i| {
            let (mut omega, mut delta) = (0.0, 0.0);
            for j in 0..teams.len() {
                if i == j {
                    continue;
                }
                let c = (s2[i] + s2[j] + 2.0 * beta * beta).sqrt();
                let p = 1.0 / (1.0 + ((mu[j] - mu[i]) / c).exp());
                let np = 1.0 / (1.0 + ((mu[i] - mu[j]) / c).exp());
                let s = match teams[i].1.cmp(&teams[j].1) {
                    std::cmp::Ordering::Less => 1.0,
                    std::cmp::Ordering::Equal => 0.5,
                    std::cmp::Ordering::Greater => 0.0,
                };
                omega += s2[i] / c * (s - p);
                delta += s2[i].sqrt() / c * s2[i] / (c * c) * p * np;
            }
            teams[i]
                .0
                .iter()
                .map(|p| {
                    let share = p.1 * p.1 / s2[i];
                    (p.0 + share * omega, (p.1 * p.1 * (1.0 - share * delta).max(tol)).sqrt())
                })
                .collect()
        })
        .collect()
}
pub fn weng_lin_expected(teams: &[Vec<(f64, f64)>], beta: f64) -> Vec<f64> {
    let mu: Vec<f64> = teams.iter().map(|t| t.iter().map(|p| p.0).sum()).collect();
    let c = (teams.iter().flatten().map(|p| p.1 * p.1).sum::<f64>() + 2.0 * beta * beta).sqrt();
    mu.iter().map(|m| 1.0 / mu.iter().map(|o| ((o - m) / c).exp()).sum::<f64>()).collect()
}
