//! Input strings for a constructor, in classes.  The alphabets and states come from the
//! exported tables; only the shapes of the strings are decided here.

use crate::oracle::{Oracle, Parse};
use crate::rng::Rng;

/// Characters that belong to no alphabet but look or fold as if they might.
pub const ODD: [char; 40] = [
    '\0', '\t', '\n', '\r', '\u{7f}', '\u{80}', '\u{a0}', '\u{ad}', '\u{b2}', '\u{b9}', '\u{bc}', '\u{f7}', '\u{c0}', '\u{106}',
    '\u{181}', '\u{179}', '\u{17d}', '\u{130}', '\u{131}', '\u{17f}', '\u{212a}', '\u{df}', '\u{301}', '\u{200b}', '\u{feff}',
    '\u{660}', '\u{663}', '\u{6f5}', '\u{966}', '\u{ff11}', '\u{ff0d}', '\u{ff21}', '\u{2160}', '\u{2460}', '\u{1d7ce}',
    '\u{1f4a9}', '\u{10ffff}', '\u{141}', '\u{230}', '\u{e9}',
];

/// One way in which the states of a parse machine can be left.
fn moves(p: &Parse, st: usize) -> Vec<usize> {
    (0..p.chars.len()).filter(|&i| p.next[st - 1][i] > 0).collect()
}

pub struct Gen<'a> {
    pub o: &'a Oracle<'a>,
    pub alpha: Vec<char>,
    moves: Vec<Vec<usize>>,
    selectors: Vec<usize>,
}

impl<'a> Gen<'a> {
    pub fn new(o: &'a Oracle<'a>) -> Gen<'a> {
        let alpha = o.parse.chars.iter().filter_map(|c| char::from_u32(*c)).collect();
        let moves: Vec<Vec<usize>> = (1..=o.parse.states.len()).map(|s| moves(o.parse, s)).collect();
        let selectors = moves[o.parse.init - 1].clone();
        Gen { o, alpha, moves, selectors }
    }
    pub fn single(&self) -> bool {
        self.o.parse.states.len() == 1
    }
    pub fn retail(&self) -> bool {
        self.o.rules.base > 0
    }
    /// Lengths at which a string can be accepted.
    pub fn length(&self, r: &mut Rng) -> usize {
        let (lo, hi) = (self.o.rules.min, self.o.rules.max);
        if !self.o.rules.lens.is_empty() {
            return *r.pick(&self.o.rules.lens);
        }
        if hi == 0 {
            return match r.below(20) {
                0 => r.range(100, 400),
                1 => r.range(30, 100),
                2..=9 => r.range(2, 8),
                _ => r.range(2, 30),
            };
        }
        if hi - lo < 4 {
            return r.range(lo, hi);
        }
        match r.below(20) {
            0 => r.range(hi - 4, hi),
            1..=3 => r.range(lo, hi),
            4..=9 => r.range(lo, lo + 8),
            _ => r.range(lo, lo + 30),
        }
    }
    /// A walk through the parse machine: a string of n characters, accepted but for lengths and check digits.
    pub fn walk(&self, r: &mut Rng, n: usize) -> String {
        let p = self.o.parse;
        if self.single() {
            return match r.below(6) {
                // few different characters
                0 | 1 => {
                    let k = r.range(1, 3);
                    let few: Vec<char> = (0..k).map(|_| *r.pick(&self.alpha)).collect();
                    (0..n).map(|_| *r.pick(&few)).collect()
                }
                // a character repeated, with exceptions
                2 => {
                    let c = *r.pick(&self.alpha);
                    (0..n).map(|_| if r.chance(1, 8) { *r.pick(&self.alpha) } else { c }).collect()
                }
                _ => (0..n).map(|_| *r.pick(&self.alpha)).collect(),
            };
        }
        loop {
            let mut st = p.init;
            let mut s = String::new();
            let few: Vec<usize> = (0..6).map(|_| r.below(p.chars.len())).collect();
            let style = r.below(4);
            let mut k = 0;
            while k < n || !p.accepts[st - 1] {
                let ms = &self.moves[st - 1];
                let liked: Vec<usize> = match style {
                    0 => ms.iter().copied().filter(|i| few.contains(i)).collect(),
                    1 => ms.iter().copied().filter(|&i| (p.chars[i] as u8 as char).is_ascii_digit() && p.chars[i] < 128).collect(),
                    _ => vec![],
                };
                let switch: Vec<usize> = if r.chance(1, 6) { self.selectors.iter().copied().filter(|i| ms.contains(i)).collect() } else { vec![] };
                let i = if !switch.is_empty() { *r.pick(&switch) } else if !liked.is_empty() && r.chance(9, 10) { *r.pick(&liked) } else { *r.pick(ms) };
                s.push(char::from_u32(p.chars[i]).unwrap());
                st = p.next[st - 1][i];
                k += 1;
                if k > n + 50 {
                    break;
                }
            }
            if p.accepts[st - 1] {
                return s;
            }
        }
    }
    /// An accepted string.
    pub fn valid(&self, r: &mut Rng) -> String {
        let n = self.length(r);
        let s = self.walk(r, n);
        if self.retail() { self.complete(&s) } else { s }
    }
    /// The last digit of a full-length number made right.
    pub fn complete(&self, s: &str) -> String {
        let base = self.o.rules.base;
        if s.len() <= base {
            return s.to_string();
        }
        match self.o.read(&s[..base], None) {
            crate::oracle::Expect::Ok(v) => v.iter().map(|d| char::from(b'0' + *d as u8)).collect(),
            _ => s.to_string(),
        }
    }
    /// A string close to an accepted one.
    pub fn near(&self, r: &mut Rng) -> String {
        let mut v: Vec<char> = self.valid(r).chars().collect();
        for _ in 0..r.range(1, 2) {
            let any = match r.below(8) {
                0 | 1 => *r.pick(&ODD),
                2 => char::from_u32(r.below(0x250) as u32).unwrap_or('x'),
                3 => char::from(r.below(128) as u8),
                4 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                _ => *r.pick(&self.alpha),
            };
            let n = v.len();
            if n == 0 {
                v.push(any);
                continue;
            }
            let i = r.below(n);
            match r.below(9) {
                0 => v.insert(r.below(n + 1), any),
                1 => {
                    v.remove(i);
                }
                2 => {
                    let j = r.below(n);
                    v.swap(i, j);
                }
                3 => v.insert(i, v[i]),
                4 => v.truncate(i),
                5 => v.insert(if r.chance(1, 2) { 0 } else { n }, any),
                6 => {
                    let c = v[i];
                    v[i] = if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                }
                _ => v[i] = any,
            }
        }
        v.into_iter().collect()
    }

    /// Every string over the alphabet of length n, as long as f says so; `part` of `parts` by first character.
    pub fn all(&self, alpha: &[char], n: usize, part: usize, parts: usize, f: &mut dyn FnMut(&str) -> bool) {
        if n == 0 {
            if part == 0 {
                f("");
            }
            return;
        }
        let mut idx = vec![0usize; n];
        let mut s = String::new();
        idx[0] = part;
        if part >= alpha.len() {
            return;
        }
        loop {
            s.clear();
            idx.iter().for_each(|i| s.push(alpha[*i]));
            if !f(&s) {
                return;
            }
            let mut p = n;
            loop {
                p -= 1;
                let stride = if p == 0 { parts } else { 1 };
                idx[p] += stride;
                if idx[p] < alpha.len() {
                    break;
                }
                if p == 0 {
                    return;
                }
                idx[p] = 0;
            }
        }
    }
}
