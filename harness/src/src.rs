//! Choice-sequence source: every random decision of a case is one u64 in `data`, so that a case
//! can be replayed and shrunk as a whole (the same idea as in Hypothesis).

use std::sync::OnceLock;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

/// Number literals found in the code under test; they only steer generation.
pub struct Dict {
    pub all: Vec<f64>,
    /// Literals of lines which the pinned tree does not have.
    pub fresh: Vec<f64>,
    /// Systems whose files differ from the pinned tree, as a mask of `sysmask`.
    pub focus: u32,
}
/// One bit per rating system, by source file.
pub mod sysmask {
    pub const FILES: [&str; 12] = ["elo", "glicko", "glicko2", "trueskill", "weng_lin", "uscf", "dwz", "ingo", "fifa", "egf", "sticko", "glicko_boost"];
    pub const ELO: u32 = 1;
    pub const GLICKO: u32 = 1 << 1;
    pub const GLICKO2: u32 = 1 << 2;
    pub const TS: u32 = 1 << 3;
    pub const WL: u32 = 1 << 4;
    pub const USCF: u32 = 1 << 5;
    pub const DWZ: u32 = 1 << 6;
    pub const INGO: u32 = 1 << 7;
    pub const FIFA: u32 = 1 << 8;
    pub const EGF: u32 = 1 << 9;
    pub const STICKO: u32 = 1 << 10;
    pub const BOOST: u32 = 1 << 11;
    pub const ALL: u32 = (1 << 12) - 1;
    pub const EACH: [u32; 12] = [ELO, GLICKO, GLICKO2, TS, WL, USCF, DWZ, INGO, FIFA, EGF, STICKO, BOOST];
}
pub static DICT: OnceLock<Dict> = OnceLock::new();

thread_local! {
    /// The unit of the case that this thread is working on; absolute tolerances go with it.
    pub static UNIT: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) };
}
pub fn unit() -> f64 {
    UNIT.with(std::cell::Cell::get)
}

pub struct Src {
    data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub verbose: bool,
    pub log: String,
    pool: Vec<f64>,
    pub labels: Vec<&'static str>,
    /// Added to every generated float (relative to its typical width), for near-duplicate inputs.
    pub tweak: f64,
    /// How the outcomes and the players of this case relate to each other; chosen at the first need.
    streak: Option<u64>,
    repeats: Option<bool>,
    unit: Option<f64>,
    drift: Option<f64>,
    last: Option<f64>,
    base: Option<f64>,
    records: Vec<Box<dyn std::any::Any + Send>>,
}

/// So many choices are recorded; what follows is a function of them.
const CAP: usize = 20_000;

/// Range of a numeric input: default value, typical range, widest range of the property's domain.
#[derive(Clone, Copy)]
pub struct Spec {
    pub def: f64,
    pub lo: f64,
    pub hi: f64,
    pub wlo: f64,
    pub whi: f64,
}
pub const fn spec(def: f64, lo: f64, hi: f64, wlo: f64, whi: f64) -> Spec {
    Spec { def, lo, hi, wlo, whi }
}

impl Spec {
    pub fn times(&self, k: f64) -> Spec {
        spec(self.def * k, self.lo * k, self.hi * k, self.wlo * k, self.whi * k)
    }
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self::with(Vec::new(), Some(Rng::new(seed)))
    }
    /// Starts a new random case, reusing the buffers.
    pub fn restart(&mut self, seed: u64) {
        self.data.clear();
        self.pos = 0;
        self.rng = Some(Rng::new(seed));
        self.log.clear();
        self.pool.clear();
        self.labels.clear();
        self.tweak = 0.0;
        self.streak = None;
        self.repeats = None;
        self.unit = None;
        UNIT.with(|u| u.set(1.0));
        self.base = None;
        self.records.clear();
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Self::with(data, None)
    }
    fn with(data: Vec<u64>, rng: Option<Rng>) -> Self {
        UNIT.with(|u| u.set(1.0));
        Src { data, pos: 0, rng, verbose: false, log: String::new(), pool: Vec::new(), labels: Vec::new(), tweak: 0.0, streak: None, repeats: None, unit: None, drift: None, last: None, base: None, records: Vec::new() }
    }
    /// The choices made so far.
    pub fn choices(&self) -> &[u64] {
        &self.data[..self.pos.min(self.data.len())]
    }

    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if self.pos < self.data.len() {
            self.data[self.pos] % n
        } else if self.data.len() >= CAP {
            // a very long list goes round in circles from here on, so that the record stays short
            mix((self.pos % 4099) as u64, self.data[CAP - 1]) % n
        } else if let Some(r) = &mut self.rng {
            let v = r.next() % n;
            self.data.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    /// One of several arms, each given by the systems it exercises. Arms of systems whose code differs
    /// from the pinned tree are taken more often; what is checked in an arm does not depend on that.
    pub fn arm(&mut self, arms: &[u32]) -> u64 {
        let n = arms.len() as u64;
        if self.pos >= self.data.len() && self.data.len() < CAP {
            let focus = DICT.get().map_or(0, |d| d.focus);
            let hot = arms.iter().filter(|a| **a & focus != 0).count() as u64;
            if let (Some(r), true) = (&mut self.rng, hot > 0 && hot < n) {
                if r.next() % 4 != 0 {
                    let k = r.next() % hot;
                    let v = arms.iter().enumerate().filter(|(_, a)| **a & focus != 0).nth(k as usize).map_or(0, |(i, _)| i as u64);
                    self.data.push(v);
                    self.pos += 1;
                    return v;
                }
            }
        }
        self.below(n)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// 0, 1 or 2; in some cases always the same one, or never the middle one.
    pub fn outcome(&mut self) -> u64 {
        let m = match self.streak {
            Some(m) => m,
            None => {
                let m = self.below(24);
                self.streak = Some(m);
                m
            }
        };
        match m {
            21..=23 => if self.one_in(40) { self.below(3) } else { m - 21 },
            20 => 2 * self.below(2),
            _ => self.below(3),
        }
    }
    /// The unit in which this case measures strength (TrueSkill and Weng-Lin have no fixed one): mostly 1.
    pub fn unit(&mut self) -> f64 {
        match self.unit {
            Some(u) => u,
            None => {
                let u = if self.one_in(12) { self.pick(&[60.0, 40.0, 4.0, 1000.0, 0.04, 0.1]) } else { 1.0 };
                self.unit = Some(u);
                UNIT.with(|c| c.set(u));
                u
            }
        }
    }
    /// A rating like `num`, but in some cases far away from where ratings usually are.
    pub fn rating(&mut self, sp: &Spec) -> f64 {
        let v = self.far(sp);
        match self.base {
            Some(b) if b != 0.0 => if self.one_in(8) { v - b } else { v },
            _ => v,
        }
    }
    /// The same, with all ratings of the case equally far away.
    pub fn far(&mut self, sp: &Spec) -> f64 {
        let b = match self.base {
            Some(b) => b,
            None => {
                let b = if self.one_in(30) {
                    let m = self.pick(&[1e4, 2e4, 65536.0, 1e5, 1e6]);
                    if sp.wlo < 0.0 && self.bool() { -m } else { m }
                } else {
                    0.0
                };
                self.base = Some(b);
                b
            }
        };
        self.strength(sp) + b
    }
    /// A rating like `num`, but in some cases each one a little above (or below) the one before.
    pub fn strength(&mut self, sp: &Spec) -> f64 {
        let d = match self.drift {
            Some(d) => d,
            None => {
                let d = if self.one_in(60) { self.pick(&[0.02, -0.02, 0.001, -0.001]) } else { 0.0 };
                self.drift = Some(d);
                d
            }
        };
        if d != 0.0 {
            if let Some(l) = self.last {
                let v = l + d * (sp.hi - sp.lo) * self.f01();
                let v = self.inside(sp, v);
                self.last = Some(v);
                return v;
            }
        }
        let v = self.num(sp);
        self.last = Some(v);
        v
    }
    /// A new value, or in some cases one of the earlier ones again.
    pub fn again<T: Copy + Send + 'static>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let on = match self.repeats {
            Some(r) => r,
            None => {
                let r = self.one_in(12);
                self.repeats = Some(r);
                r
            }
        };
        if !on {
            return f(self);
        }
        let n = self.records.iter().filter(|r| r.is::<T>()).count();
        if n > 0 && self.one_in(2) {
            let i = self.idx(n);
            if let Some(v) = self.records.iter().filter_map(|r| r.downcast_ref::<T>()).nth(i) {
                return *v;
            }
        }
        let v = f(self);
        self.records.push(Box::new(v));
        v
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True once in n.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == n - 1
    }
    pub fn f01(&mut self) -> f64 {
        self.below(1 << 53) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.idx(xs.len())]
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let t = f();
            self.log.push_str(&t);
            self.log.push('\n');
        }
    }
    pub fn has_fresh(&self) -> bool {
        DICT.get().map_or(false, |d| !d.fresh.is_empty())
    }
    fn dict_value(&mut self) -> f64 {
        let d = DICT.get().expect("dictionary");
        if !d.fresh.is_empty() && self.bool() {
            let i = self.idx(d.fresh.len());
            return d.fresh[i];
        }
        let i = self.idx(d.all.len());
        d.all[i]
    }

    fn inside(&mut self, s: &Spec, v: f64) -> f64 {
        if v.is_finite() && v >= s.wlo && v <= s.whi {
            v
        } else if v.is_finite() && -v >= s.wlo && -v <= s.whi {
            -v
        } else {
            s.def
        }
    }

    /// A float of the given range: default, round, uniform, log-scaled, boundary, dictionary or a
    /// (nearly) repeated value.
    pub fn num(&mut self, s: &Spec) -> f64 {
        let v = match self.below(20) {
            0 => s.def,
            1..=4 => {
                // round numbers, 1/200 of the typical range apart
                let step = (s.hi - s.lo) / 200.0;
                s.lo + step * self.below(201) as f64
            }
            5..=9 => s.lo + (s.hi - s.lo) * self.f01(),
            10..=11 => {
                let d = self.dict_value();
                let v = match self.below(10) {
                    0..=3 => d,
                    4 => d + 1.0,
                    5 => d - 1.0,
                    6 => next_up(d),
                    7 => next_down(d),
                    8 => d * (1.0 + 0.2 * self.f01()),
                    _ => d * (1.0 - 0.2 * self.f01()),
                };
                self.inside(s, v)
            }
            12..=14 => {
                if self.pool.is_empty() {
                    s.def
                } else {
                    let i = self.idx(self.pool.len().min(8));
                    let p = self.pool[self.pool.len() - 1 - i];
                    let w = (s.hi - s.lo).abs();
                    let v = match self.below(9) {
                        0..=2 => p,
                        3 => p + 1e-9 * w,
                        4 => p - 1e-9 * w,
                        5 => p + 0.01 * w * self.f01(),
                        6 => p - 0.01 * w * self.f01(),
                        7 => p + 0.2 * w * self.f01(),
                        _ => p - 0.2 * w * self.f01(),
                    };
                    self.inside(s, v)
                }
            }
            15..=16 => s.wlo + (s.whi - s.wlo) * self.f01(),
            17 => {
                // log scale between 1e-6 of the width and the width, away from an end or the default
                let e = -6.0 * self.f01();
                let m = 10f64.powf(e);
                match self.below(4) {
                    0 => s.wlo + (s.hi - s.wlo) * m,
                    1 => s.whi - (s.whi - s.lo) * m,
                    2 => self.inside(s, s.def + (s.hi - s.def) * m),
                    _ => self.inside(s, s.def - (s.def - s.lo) * m),
                }
            }
            18 => self.pick(&[s.lo, s.hi, s.wlo, s.whi]),
            _ => {
                // an integer of the typical range
                let lo = s.lo.ceil();
                let n = (s.hi.floor() - lo).max(0.0) as u64 + 1;
                let v = lo + self.below(n) as f64;
                self.inside(s, v)
            }
        };
        let v = if self.tweak != 0.0 { self.inside(s, v + self.tweak * (s.hi - s.lo)) } else { v };
        self.pool.push(v);
        v
    }

    /// Like `num`, but the default half of the time (for configuration values).
    pub fn cfg(&mut self, s: &Spec) -> f64 {
        if self.below(2) == 0 {
            s.def
        } else {
            self.num(s)
        }
    }

    /// An integer in lo..=hi: small, special, dictionary or uniform.
    pub fn int(&mut self, special: &[usize], typ_hi: usize, hi: usize) -> usize {
        let v = match self.below(8) {
            0 => special[self.idx(special.len())],
            1 => special[self.idx(special.len())] + 1,
            2..=4 => self.idx(typ_hi + 1),
            5 => {
                let d = self.dict_value().abs();
                let d = if d < 1e12 { d as usize } else { 0 };
                match self.below(3) {
                    0 => d,
                    1 => d + 1,
                    _ => d.saturating_sub(1),
                }
            }
            6 => self.idx(10),
            _ => {
                let bits = 1 + self.below(40);
                self.below(1 << bits) as usize
            }
        };
        v.min(hi)
    }

    /// 1..=typ, rarely up to max or a number of the dictionary (team sizes, team counts).
    pub fn size(&mut self, typ: usize, max: usize) -> usize {
        let fresh = self.has_fresh();
        match self.below(200) {
            0 => 1 + self.idx(max),
            v if v < 2 || (fresh && v < 8) => {
                let d = self.dict_value().abs();
                let d = if d < 1e6 { d as usize } else { 0 };
                let d = (d + self.idx(3)).saturating_sub(1);
                if d == 0 || d > max { 1 + self.idx(typ) } else { d }
            }
            _ => 1 + self.idx(typ),
        }
    }

    /// A team for functions that take linear time: like `size`, very rarely larger than what two bytes count.
    pub fn crowd(&mut self, typ: usize, max: usize) -> usize {
        if self.below(300_000) == 299_999 { 65_530 + self.idx(600) } else { self.size(typ, max) }
    }

    /// Number of games, opponents and so on: 0..=max, rarely more.
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(30_000) {
            // beyond what a byte counts
            0 if max >= 12 => {
                // or even two bytes
                return if max >= 20 && self.one_in(14) { 65_530 + self.idx(600) } else { self.idx(700) };
            }
            v if v > 29_900 => return self.idx(3 * max + 1),
            _ => {}
        }
        let v = match self.below(10) {
            0..=2 => self.idx(3),
            3..=6 => 1 + self.idx(6),
            7 => self.idx(max + 1),
            8 => 2 + self.idx(12),
            _ => {
                let d = self.dict_value().abs();
                let d = if d < 1e6 { d as usize } else { 0 };
                let d = match self.below(3) {
                    0 => d,
                    1 => d + 1,
                    _ => d.saturating_sub(1),
                };
                // a length which only this tree mentions may be worth a long list
                if self.has_fresh() && d <= 400 && d > max && self.one_in(4) {
                    return d;
                }
                if d > max { 1 } else { d }
            }
        };
        v.min(max)
    }
}

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return 1e-300;
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

/// The non-test code below `dir`: (file, line without comment).
pub fn code_lines(dir: &std::path::Path) -> Vec<(String, String)> {
    fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            v.sort();
            for e in v {
                if e.is_dir() {
                    walk(&e, out);
                } else if e.extension().map_or(false, |x| x == "rs") {
                    out.push(e);
                }
            }
        }
    }
    let mut files = Vec::new();
    walk(dir, &mut files);
    let mut out = Vec::new();
    for f in files {
        let name = f.strip_prefix(dir).unwrap_or(&f).to_string_lossy().into_owned();
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        for line in text.lines() {
            if line.contains("#[cfg(test)]") {
                break;
            }
            let line = match line.find("//") {
                Some(i) => &line[..i],
                None => line,
            };
            if !line.trim().is_empty() {
                out.push((name.clone(), line.trim().to_string()));
            }
        }
    }
    out
}
pub fn line_hash(l: &(String, String)) -> u64 {
    l.0.bytes().chain(l.1.bytes().filter(|b| !b.is_ascii_whitespace())).fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3))
}
/// The number literals of these lines.
pub fn literals<'a>(lines: impl Iterator<Item = &'a (String, String)>) -> Vec<f64> {
    let mut vals: Vec<f64> = Vec::new();
    for (_, l) in lines {
        scan_line(l, &mut vals);
    }
    vals.retain(|v| v.is_finite());
    vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
    vals.dedup();
    vals
}
/// Compares the tree with the list of line hashes of the pinned tree.
pub fn build_dict(lines: &[(String, String)], base: &std::collections::HashSet<u64>) -> Dict {
    let all = literals(lines.iter());
    let all = if all.is_empty() { vec![0.0, 1.0] } else { all };
    if base.is_empty() {
        return Dict { all, fresh: Vec::new(), focus: 0 };
    }
    let new: Vec<&(String, String)> = lines.iter().filter(|l| !base.contains(&line_hash(l))).collect();
    let fresh = literals(new.iter().copied());
    // a removed line leaves no new one: compare the number of lines, too
    let mut focus = 0;
    for (i, f) in sysmask::FILES.iter().enumerate() {
        let mine = |n: &str| n == format!("{f}.rs") || n.starts_with(&format!("{f}/"));
        let mut have: Vec<u64> = lines.iter().filter(|l| mine(&l.0)).map(line_hash).collect();
        let sum = have.drain(..).fold(0u64, |a, h| a.wrapping_add(h | 1));
        if new.iter().any(|l| mine(&l.0)) || !base.contains(&sum) {
            focus |= 1 << i;
        }
    }
    Dict { all, fresh, focus }
}
/// The hashes to be stored for the pinned tree: of every line, and the sum per system.
pub fn base_hashes(lines: &[(String, String)]) -> Vec<u64> {
    let mut v: Vec<u64> = lines.iter().map(line_hash).collect();
    for f in sysmask::FILES {
        v.push(lines.iter().filter(|l| l.0 == format!("{f}.rs") || l.0.starts_with(&format!("{f}/"))).map(line_hash).fold(0u64, |a, h| a.wrapping_add(h | 1)));
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn scan_line(line: &str, out: &mut Vec<f64>) {
    let b: Vec<char> = line.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_alphabetic() || c == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let mut t = String::new();
            let mut seen_dot = false;
            while i < b.len() {
                let c = b[i];
                if c.is_ascii_digit() {
                    t.push(c);
                } else if c == '_' {
                } else if c == '.' && !seen_dot && b.get(i + 1).map_or(true, |n| n.is_ascii_digit() || !(n.is_alphabetic() || *n == '.' || *n == '_')) {
                    seen_dot = true;
                    t.push('.');
                } else if (c == 'e' || c == 'E') && b.get(i + 1).map_or(false, |n| n.is_ascii_digit() || *n == '-' || *n == '+') {
                    t.push('e');
                    i += 1;
                    t.push(b[i]);
                } else {
                    break;
                }
                i += 1;
            }
            // type suffix
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            if let Ok(v) = t.trim_end_matches('.').parse::<f64>() {
                out.push(v);
            }
        } else {
            i += 1;
        }
    }
}
