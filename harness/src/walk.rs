//! Mass conformance: the machines of the specification are stepped beside the real
//! encoders on many inputs.  An input on which the two differ is a suspect: it is recorded
//! as a session, and TLC decides on it with the specification itself.

use crate::call::{self, Obj};
use crate::customs;
use crate::gen::{Gen, ODD};
use crate::oracle::{Cover, Expect, Oracle, Tables};
use crate::pool::{self, Job};
use crate::rng::Rng;
use crate::world::World;
use std::collections::HashMap;

#[derive(Clone, Copy, Default)]
pub struct Judge {
    /// The outcome of the construction.
    pub accept: bool,
    /// The bars of what is accepted.
    pub draw: bool,
    /// The symbol values of what is accepted.
    pub values: bool,
    /// The form of the bars.
    pub shape: bool,
    /// With and without check digit.
    pub twin: bool,
    /// The checksum flag, before and after being set.
    pub flag: bool,
}

#[derive(Default)]
pub struct Acc {
    pub cover: Cover,
    pub strings: u64,
    pub accepted: u64,
    pub chars: u64,
    pub bars: u64,
    pub suspects: Vec<String>,
    pub drawn: Vec<(String, crate::shapes::Set)>,
    pub held: Vec<(&'static str, String, Vec<u8>)>,
}

pub struct Walker<'a> {
    pub ctor: &'a str,
    pub os: &'a [Oracle<'a>],
    pub j: Judge,
}

pub fn base_of(ctor: &str) -> &str {
    match ctor {
        "bookland" | "jan" => "ean13",
        "usd8" => "code11",
        c => c,
    }
}

impl<'a> Walker<'a> {
    fn drawn(&self, a: &mut Acc, obj: &Obj, pick: &dyn Fn(&Oracle) -> Option<Vec<i32>>) -> bool {
        let bars = match call::encode(obj) {
            Ok(b) => b,
            Err(_) => return false,
        };
        a.bars += bars.len() as u64;
        // the reading that holds on this tree is usually the one with all known findings, so it goes first
        for (i, o) in self.os.iter().enumerate().rev() {
            if let Some(v) = pick(o) {
                let cov = if i + 1 == self.os.len() { Some(&mut a.cover) } else { None };
                if o.draw(&v, cov) == bars {
                    return true;
                }
            }
        }
        false
    }
    /// Is all well with this string?
    pub fn check(&self, a: &mut Acc, s: &str) -> bool {
        a.strings += 1;
        pool::calling(self.ctor, s);
        let r = call::make(self.ctor, s);
        let mut exps: Vec<Expect> = vec![];
        for (i, o) in self.os.iter().enumerate() {
            // only Code 128 has findings that concern what is accepted; elsewhere one reading is enough
            if i == 0 || !self.os[0].parse.known.eq(&o.parse.known) {
                let cov = if i == 0 { Some(&mut a.cover) } else { None };
                exps.push(o.read(s, cov));
            } else {
                exps.push(exps[0].clone());
            }
        }
        let name = call::outcome(&r);
        let mut good = true;
        if self.j.accept {
            good &= exps.iter().any(|e| e.name() == name);
        }
        // a refusal is judged by other properties, but what can be read must not panic
        if self.j.draw && name == "panic" {
            good &= exps.iter().all(|e| !matches!(e, Expect::Ok(_)));
        }
        if let Ok(obj) = &r {
            a.accepted += 1;
            a.chars += s.len() as u64;
            let data = |e: &Expect| if let Expect::Ok(v) = e { Some(v.clone()) } else { None };
            let judged = exps.iter().any(|e| matches!(e, Expect::Ok(_)));
            // where some reading refuses the string there are no bars to compare with
            if self.j.draw && exps.iter().all(|e| matches!(e, Expect::Ok(_))) {
                let find = |o: &Oracle| {
                    let i = self.os.iter().position(|p| std::ptr::eq(p, o)).unwrap();
                    data(&exps[i])
                };
                good &= self.drawn(a, obj, &find);
            }
            if self.j.values && judged {
                good &= self.values(obj, &exps);
            }
            if self.j.shape {
                good &= match call::encode(obj) {
                    Ok(b) => {
                        a.bars += b.len() as u64;
                        !b.is_empty() && b.iter().all(|m| *m <= 1) && b[0] == 1 && (self.os[0].rules.sym == "stf" || b[b.len() - 1] == 1)
                    }
                    Err(_) => false,
                };
            }
            if self.j.twin && s.len() > self.os[0].rules.base && self.os[0].rules.base > 0 && s.is_char_boundary(self.os[0].rules.base) {
                let short = &s[..self.os[0].rules.base];
                if let Ok(o2) = call::make(self.ctor, short) {
                    good &= call::encode(obj) == call::encode(&o2);
                }
            }
        }
        if self.j.flag {
            if let (Ok(mut obj), Expect::Ok(_)) = (r, &exps[0]) {
                good &= self.flags(&mut obj, s);
            }
        }
        pool::called();
        if !good {
            self.suspect(a, s);
        }
        good
    }
    fn flags(&self, obj: &mut Obj, s: &str) -> bool {
        let mut good = true;
        for v in [false, true] {
            if let Obj::Code39(b) = obj {
                b.checksum = v;
            }
            // the oracle of the constructor that starts with this flag
            let o = &self.os[0];
            let want = if let Expect::Ok(mut vals) = o.read(s, None) {
                let plain = s.chars().count();
                if !v {
                    vals.truncate(plain);
                } else if vals.len() == plain {
                    return good; // judged with the other constructor
                }
                o.draw(&vals, None)
            } else {
                return good;
            };
            good &= call::encode(obj).as_ref() == Ok(&want);
        }
        good
    }
    /// The symbol values in the bars of a Code 128, where they can be read.
    fn values(&self, obj: &Obj, exps: &[Expect]) -> bool {
        let bars = match call::encode(obj) {
            Ok(b) => b,
            // a short string whose symbols cannot even be drawn has no right values
            Err(_) => return exps.iter().all(|e| if let Expect::Ok(v) = e { v.len() > 60 } else { true }),
        };
        if bars.len() < 35 || (bars.len() - 13) % 11 != 0 {
            return true; // unreadable: judged by the property about bars
        }
        let n = (bars.len() - 13) / 11 - 1;
        let e = self.os[0].emit;
        let got: Option<Vec<i32>> = bars[..11 * n].chunks(11).map(|c| e.vals.iter().copied().find(|v| self.os[0].symbol(*v) == c)).collect();
        match got {
            None => true,
            Some(g) => exps.iter().any(|x| if let Expect::Ok(v) = x { v[..v.len() - 1] == g[..] } else { false }),
        }
    }
    /// Writes down what there is to judge about this string.
    pub fn session(&self, w: &mut World, s: &str) {
        let base = base_of(self.ctor);
        let r = w.new_obj(if self.j.accept { "new" } else { "made" }, "a", self.ctor, s);
        if r == "ok" {
            if self.j.draw {
                let _ = w.encode("encif", "a");
            }
            if self.j.values {
                let _ = w.encode("values", "a");
            }
            if self.j.shape {
                let _ = w.encode("shape", "a");
            }
            if self.j.flag {
                for v in [false, true, false] {
                    w.set_flag("a", v);
                    let _ = w.encode("encif", "a");
                }
            }
            if self.j.twin && self.os[0].rules.base > 0 && s.len() > self.os[0].rules.base && s.is_char_boundary(self.os[0].rules.base) {
                w.twin(base, s, &s[..self.os[0].rules.base]);
            }
        }
    }
    fn suspect(&self, a: &mut Acc, s: &str) {
        if a.suspects.len() < 3 {
            a.suspects.push(s.to_string());
        }
    }
}

pub struct Plan {
    /// Strings of full alphabet, at most this many in all, for every length.
    pub exhaustive: usize,
    pub random: usize,
    pub near: usize,
    pub sweep: bool,
    pub thorough: bool,
}

/// The jobs for one constructor.
pub fn jobs<'a>(t: &'a Tables, w: &'a Walker<'a>, g: &'a Gen<'a>, plan: &'a Plan, seed: u64) -> Vec<Job<'a, Acc>> {
    let mut v: Vec<Job<'a, Acc>> = vec![];
    let rules = &t.ctors[base_of(w.ctor)];
    let stream = std::cell::Cell::new(w.ctor.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64)) << 20);
    let rng = || {
        stream.set(stream.get() + 1);
        Rng::new(seed, stream.get())
    };

    // every short string over the alphabet, and over the alphabet with strangers
    let mut wide = g.alpha.clone();
    wide.extend(ODD.iter().take(6));
    for (alpha, cap) in [(g.alpha.clone(), plan.exhaustive), (wide, plan.exhaustive / 8)] {
        let mut n = 0;
        while n < 8 && alpha.len().pow(n as u32) <= cap && !(g.retail() && n > 3) {
            let parts = if alpha.len().pow(n as u32) > 5000 { alpha.len() } else { 1 };
            for part in 0..parts {
                let alpha = alpha.clone();
                v.push(Box::new(move |a| g.all(&alpha, n, part, parts, &mut |s| w.check(a, s) || a.suspects.len() < 3)));
            }
            n += 1;
        }
    }
    if !g.single() {
        classes(w, g, plan, &mut v);
    }
    if !g.retail() {
        suites(w, g, plan, &mut v, &rng);
    }
    // EAN-8: every seven digits
    if rules.base == 7 {
        let blocks = 100;
        let all = plan.thorough;
        for b in 0..blocks {
            let r0 = rng();
            v.push(Box::new(move |a| {
                let mut r = r0.clone();
                for k in 0..100_000usize {
                    let s = format!("{:07}", b * 100_000 + k);
                    if !w.check(a, &s) && a.suspects.len() >= 3 {
                        return;
                    }
                    if all {
                        for d in 0..10 {
                            w.check(a, &format!("{}{}", s, d));
                        }
                    } else if r.chance(1, 4) {
                        let d = format!("{}{}", s, r.below(10));
                        w.check(a, &d);
                    }
                }
            }));
        }
    }
    // longer retail numbers: every six last digits behind some prefixes
    if rules.base > 7 {
        let n = if plan.thorough { 40 } else { 3 };
        for _ in 0..n {
            let r0 = rng();
            v.push(Box::new(move |a| {
                let mut r = r0.clone();
                let head = g.walk(&mut r, rules.base - 6);
                for k in 0..1_000_000usize {
                    if !w.check(a, &format!("{}{:06}", head, k)) && a.suspects.len() >= 3 {
                        return;
                    }
                }
            }));
        }
    }
    // every prefix together with every block of one digit behind it
    if rules.base > 7 {
        for p in 0..1000usize {
            let r0 = rng();
            let rounds = if plan.thorough { 5 } else { 1 };
            v.push(Box::new(move |a| {
                let mut r = r0.clone();
                let mut last = 0;
                let mut one = |a: &mut Acc, s: &str| {
                    w.check(a, s);
                    w.check(a, &g.complete(&format!("{}0", s)));
                    // and with whatever last digit
                    last = (last + 3) % 10;
                    if w.j.accept {
                        w.check(a, &format!("{}{}", s, last));
                    }
                };
                for _ in 0..rounds {
                    for i in 3..rules.base {
                        for j in i + 1..=rules.base {
                            for d in 0..10u8 {
                                let mut s: Vec<u8> = (0..rules.base).map(|_| b'0' + r.below(10) as u8).collect();
                                s[..3].copy_from_slice(format!("{:03}", p).as_bytes());
                                s[i..j].fill(b'0' + d);
                                one(a, std::str::from_utf8(&s).unwrap());
                            }
                        }
                    }
                    // four digits in front, a block at the end, a count upwards or downwards
                    for q in 0..10 {
                        for d in 0..10u8 {
                            for how in 0..6 {
                                let mut s: Vec<u8> = (0..rules.base).map(|_| b'0' + r.below(10) as u8).collect();
                                s[..4].copy_from_slice(format!("{:03}{}", p, q).as_bytes());
                                let l = rules.base - 2 - how;
                                match how {
                                    0..=3 => s[l..].fill(b'0' + d),
                                    4 => (4..rules.base).for_each(|i| s[i] = b'0' + (d + i as u8) % 10),
                                    _ => (4..rules.base).for_each(|i| s[i] = b'0' + (d + 20 - i as u8) % 10),
                                }
                                one(a, std::str::from_utf8(&s).unwrap());
                            }
                        }
                    }
                    if a.suspects.len() >= 3 {
                        return;
                    }
                }
            }));
        }
    }
    // every length, every character, and one stranger among them
    if rules.max > 20 {
        for (i, c) in g.alpha.iter().enumerate() {
            let c = *c;
            let r0 = rng();
            let every = plan.thorough;
            v.push(Box::new(move |a| {
                let mut r = r0.clone();
                for n in 0..=rules.max + 44 {
                    let mut s: String = std::iter::repeat_n(c, n).collect();
                    w.check(a, &s);
                    // one different character, at the ends and somewhere
                    if n > 1 && (every || n < 40 || (n + i) % 8 == 0) {
                        let d = *r.pick(&g.alpha);
                        let at = r.below(n);
                        for at in [0, at, n - 1] {
                            let mut v: Vec<char> = s.chars().collect();
                            v[at] = d;
                            w.check(a, &v.iter().collect::<String>());
                        }
                        s.push(*r.pick(&ODD));
                        w.check(a, &s);
                    }
                    if a.suspects.len() >= 3 {
                        return;
                    }
                }
            }));
        }
    }
    // lengths in bytes and in characters
    {
        let r0 = rng();
        v.push(Box::new(move |a| {
            let mut r = r0.clone();
            for n in 0..620 {
                for c in ['\u{e9}', '\u{20ac}', '\u{1f4a9}', '0', ' ', 'A'] {
                    let mut s = String::new();
                    while s.len() < n {
                        s.push(if r.chance(1, 3) { c } else { *r.pick(&g.alpha) });
                    }
                    w.check(a, &s);
                    let t: String = std::iter::repeat_n(c, n).collect();
                    w.check(a, &t);
                }
            }
            // long ones, about the sizes where a narrow counter would wrap
            for big in [511usize, 512, 513, 767, 1023, 1024, 4096, 65535, 65536, 65537, 65548, 65549, 65792, 1 << 20, (1 << 24) + 12] {
                for d in [0usize, 1, 2, 5, 7, 8, 11, 12, 13, 100, 256] {
                    if big + d > 70_000 && (d == 5 || d == 100) {
                        continue;
                    }
                    if rules.max == 0 && (big + d > 1 << 17 || (big > 4096 && d > 1)) {
                        continue;
                    }
                    let c = g.alpha[r.below(g.alpha.len())];
                    let s: String = std::iter::repeat_n(c, big + d).collect();
                    w.check(a, &s);
                }
            }
        }));
    }
    // every Unicode scalar, at the start, inside and at the end of an otherwise good string
    if plan.sweep {
        for part in 0..34u32 {
            let r0 = rng();
            v.push(Box::new(move |a| {
                let mut r = r0.clone();
                for u in part * 0x8000..(part + 1) * 0x8000 {
                    let c = match char::from_u32(u) {
                        Some(c) => c,
                        None => continue,
                    };
                    let l = c.len_utf8();
                    for place in 0..3 {
                        let n = if rules.max == 0 { r.range(2, 5) } else if !rules.lens.is_empty() || g.retail() { g.length(&mut r).saturating_sub(l) } else { r.range(0, 4) };
                        let s0 = g.walk(&mut r, n);
                        let mut v: Vec<char> = s0.chars().collect();
                        let at = match place {
                            0 => 0,
                            1 => (v.len() + 1) / 2,
                            _ => v.len(),
                        };
                        v.insert(at, c);
                        if !w.check(a, &v.iter().collect::<String>()) && a.suspects.len() >= 3 {
                            return;
                        }
                    }
                    // in place of a character of a longer good string, last or anywhere
                    let n = match g.retail() {
                        true => g.length(&mut r),
                        false if u % 16 == 0 => r.range(60, 250),
                        false => r.range(6, 48),
                    };
                    let mut v: Vec<char> = g.walk(&mut r, n).chars().collect();
                    if !v.is_empty() {
                        let at = if r.chance(1, 3) { v.len() - 1 } else { r.below(v.len()) };
                        v[at] = c;
                        if !w.check(a, &v.iter().collect::<String>()) && a.suspects.len() >= 3 {
                            return;
                        }
                    }
                    if !g.single() {
                        for sel in ['\u{c0}', '\u{181}', '\u{106}'] {
                            w.check(a, &[sel, c].iter().collect::<String>());
                            w.check(a, &[sel, '1', c].iter().collect::<String>());
                        }
                    }
                }
            }));
        }
    }
    // what looks like a character of the alphabet, in good strings of every length
    for part in 0..4 {
        let r0 = rng();
        let deep = plan.thorough;
        v.push(Box::new(move |a| {
            let mut r = r0.clone();
            let all: Vec<char> = alike().filter(|c| !g.alpha.contains(c)).collect();
            for c in all.into_iter().skip(part).step_by(4) {
                for n in (1..=30).chain([40, 64, 100, 128, 200, 254, 255, 256]).chain(if deep { 31..250 } else { 0..0 }) {
                    let mut v: Vec<char> = g.walk(&mut r, n).chars().collect();
                    if v.is_empty() || g.retail() && v.len() < n {
                        continue;
                    }
                    let m = v.len();
                    for at in [0, r.below(m), m - 1] {
                        let was = std::mem::replace(&mut v[at], c);
                        if !w.check(a, &v.iter().collect::<String>()) && a.suspects.len() >= 3 {
                            return;
                        }
                        v[at] = was;
                    }
                }
            }
        }));
    }
    // strings written after the customs of people and of other programs
    let each = if plan.thorough { 400 } else { 30 };
    for part in 0..8 {
        let r0 = rng();
        v.push(Box::new(move |a| {
            let mut r = r0.clone();
            for k in (part..customs::count()).step_by(8) {
                for n in 0..each {
                    let s = match n % 5 {
                        // short, so that what is added leaves it within the limits
                        0 if !g.retail() => {
                            let m = r.range(1, 8);
                            g.walk(&mut r, m)
                        }
                        1 | 2 if rules.base > 0 => {
                            let lead = *r.pick(&["978", "979", "977", "020", "2", "000", "400", "50", "97", "99"]);
                            let s = g.valid(&mut r);
                            g.complete(&format!("{}{}", lead, &s[lead.len()..]))
                        }
                        _ => g.valid(&mut r),
                    };
                    let head = s.chars().next().filter(|_| !g.single() && n % 2 == 0);
                    let t = match head {
                        Some(c) => format!("{}{}", c, customs::dressed(k, &s[c.len_utf8()..], &mut r)),
                        None => customs::dressed(k, &s, &mut r),
                    };
                    if !w.check(a, &t) && a.suspects.len() >= 3 {
                        return;
                    }
                }
            }
        }));
    }
    // strings with a shape: mirrored, doubled, in turn, upwards, downwards, framed
    for part in 0..8usize {
        let r0 = rng();
        let (deep, judge) = (plan.thorough, w);
        v.push(Box::new(move |a| {
            let mut r = r0.clone();
            let sizes: Vec<usize> = if rules.max == 0 || rules.max > 20 {
                (2..34).chain([40, 48, 50, 60, 64, 80, 99, 100, 101, 127, 128, 129, 150, 200, 250, 254, 255, 256, 257]).collect()
            } else {
                (1..rules.max + 2).collect()
            };
            let heads: Vec<&str> = if g.single() { vec![""] } else { vec!["\u{c0}", "\u{181}", "\u{106}"] };
            for head in heads {
                // what may stand there
                let alpha: Vec<char> = match head {
                    "" => g.alpha.clone(),
                    "\u{106}" => "0123456789".chars().collect(),
                    "\u{c0}" => (0..96u8).map(char::from).collect(),
                    _ => (32..127u8).map(char::from).collect(),
                };
                for n in sizes.iter().copied().filter(|n| n % 8 == part) {
                    for round in 0..if deep { 40 } else { 5 } {
                        let k = alpha.len();
                        let w: Vec<char> = (0..n).map(|_| *r.pick(&alpha)).collect();
                        let i = r.below(k);
                        let m = n / 2;
                        let (c, d, e) = (*r.pick(&alpha), *r.pick(&alpha), *r.pick(&alpha));
                        let p = r.range(1, 1 + n / 3);
                        let mut forms: Vec<Vec<char>> = vec![
                            w.iter().take(n - m).chain(w.iter().take(m).rev()).copied().collect(),
                            w.iter().take(m).cycle().take(n).copied().collect(),
                            w.iter().take(p).cycle().take(n).copied().collect(),
                            (0..n).map(|j| if j % 2 == 0 { c } else { d }).collect(),
                            (0..n).map(|j| [c, d, e][j % 3]).collect(),
                            (0..n).map(|j| alpha[(i + j) % k]).collect(),
                            (0..n).map(|j| alpha[(i + n * k - j) % k]).collect(),
                            (0..n).map(|j| alpha[(i + j / 2) % k]).collect(),
                            (0..n).map(|j| alpha[(i + 2 * j) % k]).collect(),
                            (0..n).map(|j| if j == 0 || j + 1 == n { c } else { w[j] }).collect(),
                            (0..n).map(|j| if j < 2 || j + 2 >= n { c } else { w[j] }).collect(),
                            (0..n).map(|j| if j < p { c } else { w[j] }).collect(),
                            (0..n).map(|j| if j + p >= n { c } else { w[j] }).collect(),
                            (0..n).map(|j| if j < m { c } else { d }).collect(),
                            (0..n).map(|j| if j % p == 0 { c } else { w[j] }).collect(),
                        ];
                        let mut sorted = w.clone();
                        sorted.sort();
                        forms.push(sorted.clone());
                        sorted.reverse();
                        forms.push(sorted);
                        let mut once = w.clone();
                        once.sort();
                        once.dedup();
                        forms.push(once);
                        let _ = round;
                        for f in forms {
                            let s = format!("{}{}", head, f.iter().collect::<String>());
                            judge.check(a, &s);
                            if rules.base > 0 && s.len() == rules.base {
                                judge.check(a, &g.complete(&format!("{}0", s)));
                            }
                        }
                        if a.suspects.len() >= 3 {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // every length, with every pair of characters in the last two places (so also with every check
    // character there can be), at both ends, and in two places anywhere
    if w.j.draw || w.j.flag {
        if g.retail() {
            for part in 0..8 {
                let r0 = rng();
                v.push(Box::new(move |a| {
                    let mut r = r0.clone();
                    let base = rules.base.max(2);
                    for k in 0..if plan.thorough { 40 } else { 5 } {
                        for p in 0..base {
                            for q in (p + 1..base).filter(|q| (p + q + k) % 8 == part) {
                                for d in 0..100u8 {
                                    let mut s: Vec<u8> = (0..base).map(|_| b'0' + r.below(10) as u8).collect();
                                    (s[p], s[q]) = (b'0' + d / 10, b'0' + d % 10);
                                    let s = String::from_utf8(s).unwrap();
                                    if !w.check(a, &if r.chance(1, 4) { g.complete(&format!("{}0", s)) } else { s }) && a.suspects.len() >= 3 {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }));
            }
        } else if g.single() && rules.max > 0 {
            let few = g.alpha.len() > 30 && !plan.thorough;
            for len in 2..=256usize {
                let r0 = rng();
                v.push(Box::new(move |a| {
                    let mut r = r0.clone();
                    let n = g.alpha.len();
                    for way in 0..3 {
                        let mut s: Vec<char> = vec![];
                        for k in 0..n * n {
                            if way > 0 && few && k % 8 != (way + len) % 8 {
                                continue;
                            }
                            if s.is_empty() || k % 50 == 0 {
                                s = (0..len).map(|_| *r.pick(&g.alpha)).collect();
                            }
                            let (p, q) = match way {
                                0 => (len - 2, len - 1),
                                1 => (0, len - 1),
                                _ => (r.below(len), r.below(len)),
                            };
                            (s[p], s[q]) = (g.alpha[k / n], g.alpha[k % n]);
                            if !w.check(a, &s.iter().collect::<String>()) && a.suspects.len() >= 3 {
                                return;
                            }
                        }
                    }
                    // one character over and over, and another one somewhere
                    for c in &g.alpha {
                        let mut s = vec![*c; len];
                        w.check(a, &s.iter().collect::<String>());
                        for p in [0, len / 2, len - 1, r.below(len)] {
                            let old = s[p];
                            s[p] = *r.pick(&g.alpha);
                            w.check(a, &s.iter().collect::<String>());
                            s[p] = old;
                        }
                    }
                }));
            }
        } else if rules.max == 0 && !g.single() {
            let units = |set: usize| -> Vec<String> {
                match set {
                    0 => (0..96u8).map(|c| (c as char).to_string()).chain(["\u{179}".into(), "\u{17a}".into()]).collect(),
                    1 => (32..127u8).map(|c| (c as char).to_string()).chain(["\u{179}".into(), "\u{17a}".into()]).collect(),
                    _ => (0..100).map(|n| format!("{:02}", n)).chain(["\u{179}".into()]).collect(),
                }
            };
            let mut lens: Vec<usize> = (2..40).chain((40..130).step_by(9)).collect();
            if plan.thorough {
                lens = (2..140).chain((140..300).step_by(7)).collect();
            }
            for len in lens {
                for set in 0..3 {
                    let r0 = rng();
                    v.push(Box::new(move |a| {
                        let mut r = r0.clone();
                        let all = units(set);
                        let mut head = String::new();
                        for x in &all {
                            for y in &all {
                                if head.is_empty() || r.chance(1, 60) {
                                    head = String::from(['\u{c0}', '\u{181}', '\u{106}'][set]);
                                    (0..len - 2).for_each(|_| head.push_str(r.pick(&all)));
                                }
                                if !w.check(a, &format!("{}{}{}", head, x, y)) && a.suspects.len() >= 3 {
                                    return;
                                }
                            }
                        }
                    }));
                }
            }
        }
    }
    // words, numbers and examples
    for part in 0..8 {
        v.push(Box::new(move |a| {
            for s in customs::wholes().into_iter().skip(part).step_by(8) {
                let mut forms = vec![s.clone(), format!("{}{}", s, s), format!("{} {}", s, s), format!("{} ", s), format!(" {}", s)];
                if rules.base > 0 && s.len() == rules.base {
                    forms.push(g.complete(&format!("{}0", s)));
                }
                for f in forms {
                    if g.single() {
                        w.check(a, &f);
                    } else {
                        for head in ["", "\u{c0}", "\u{181}", "\u{106}", "\u{c0}\u{179}", "\u{106}\u{179}", "\u{181}x\u{106}"] {
                            w.check(a, &format!("{}{}", head, f));
                        }
                    }
                    if a.suspects.len() >= 3 {
                        return;
                    }
                }
            }
        }));
    }
    // long Code 128
    if rules.max == 0 {
        let n = if plan.thorough { 600 } else { 24 };
        for _ in 0..n {
            let r0 = rng();
            v.push(Box::new(move |a| {
                let mut r = r0.clone();
                for len in [250, 700, 1500, 2500] {
                    let s = g.walk(&mut r, len);
                    w.check(a, &s);
                }
            }));
        }
        // whatever may end a short string ends a long one, or may not
        let reps: Vec<char> = "\u{c0}\u{181}\u{106}\u{179}\u{17a}\u{17c}\u{17d}1a\u{1}A\u{f7}\u{7f}".chars().collect();
        let mut longs = vec![(64, 3), (130, 3), (300, 3), (1030, 2), (2100, 2), (5000, 1), (12_000, 1), (33_000, 1)];
        if plan.thorough {
            longs.extend([(255, 3), (600, 3), (1500, 3), (2100, 3), (4100, 2), (8200, 2), (16_400, 1), (66_000, 1), (132_000, 1)]);
        }
        for (len, depth) in longs {
            for (sel, unit) in [('\u{c0}', "A"), ('\u{c0}', "\u{1}9"), ('\u{181}', "a"), ('\u{181}', "b8"), ('\u{106}', "42"), ('\u{106}', "07\u{179}"), ('\u{106}', "\u{181}q\u{106}11")] {
                let reps = reps.clone();
                v.push(Box::new(move |a| {
                    let units = unit.chars().count();
                    let head: String = std::iter::once(sel).chain(unit.chars().cycle().take(len / units * units)).collect();
                    let mut s = String::new();
                    for n in 0..=depth {
                        g.all(&reps, n, 0, 1, &mut |t| {
                            s.clear();
                            s.push_str(&head);
                            s.push_str(t);
                            w.check(a, &s) || a.suspects.len() < 3
                        });
                    }
                }));
            }
            // one character changed, near either end or anywhere
            let r0 = rng();
            let deep = plan.thorough;
            v.push(Box::new(move |a| {
                let mut r = r0.clone();
                for i in 0..if deep { 300 } else { 40 } {
                    let mut v: Vec<char> = g.walk(&mut r, len).chars().collect();
                    let m = v.len();
                    let at = match i % 4 {
                        0 => m - 1 - r.below(4),
                        1 => 1 + r.below(4),
                        _ => r.below(m),
                    };
                    match i % 3 {
                        0 => v[at] = *r.pick(&g.alpha),
                        1 => {
                            v.remove(at);
                        }
                        _ => v.insert(at, *r.pick(&g.alpha)),
                    }
                    if !w.check(a, &v.iter().collect::<String>()) && a.suspects.len() >= 3 {
                        return;
                    }
                }
            }));
        }
        let sizes: &[usize] = if plan.thorough { &[3000, 6400, 7000, 9000, 9500, 20_000, 60_000, 200_000, 1_000_000] } else { &[6400, 7000, 9500, 20_000, 150_000] };
        for &len in sizes {
            for c in ['\u{179}', ' ', '7', '\u{1f}', '~'] {
                for sel in ['\u{c0}', '\u{181}', '\u{106}'] {
                    if sel == '\u{c0}' && c == '~' || sel == '\u{181}' && c == '\u{1f}' || sel == '\u{106}' && !"7\u{179}".contains(c) {
                        continue;
                    }
                    v.push(Box::new(move |a| {
                        let mut s = String::from(sel);
                        s.extend(std::iter::repeat_n(c, len));
                        w.check(a, &s);
                    }));
                }
            }
        }
    }
    // at random
    let chunk = 20_000;
    for k in 0..plan.random.div_ceil(chunk) {
        let r0 = rng();
        let _ = k;
        v.push(Box::new(move |a| {
            let mut r = r0.clone();
            for _ in 0..chunk {
                let s = g.valid(&mut r);
                if !w.check(a, &s) && a.suspects.len() >= 3 {
                    return;
                }
            }
        }));
    }
    for _ in 0..plan.near.div_ceil(chunk) {
        let r0 = rng();
        v.push(Box::new(move |a| {
            let mut r = r0.clone();
            for _ in 0..chunk {
                let s = g.near(&mut r);
                if !w.check(a, &s) && a.suspects.len() >= 3 {
                    return;
                }
            }
        }));
    }
    v
}

/// Characters that a lenient reader might take for a digit, a letter or a sign.
fn alike() -> impl Iterator<Item = char> {
    let signs = "\t\n\r\u{b}\u{c}\u{1c}\u{1f}\u{85}\u{a0}\u{1680}\u{2000}\u{2002}\u{2003}\u{2007}\u{2009}\u{200b}\u{200c}\u{200d}\u{200e}\u{2028}\u{2029}\u{202f}\u{205f}\u{2060}\u{3000}\u{feff}\
                 \u{ad}\u{2d7}\u{2010}\u{2011}\u{2012}\u{2013}\u{2014}\u{2015}\u{2043}\u{207b}\u{208b}\u{2212}\u{2796}\u{fe58}\u{fe63}\u{ff0d}\
                 \u{2e}\u{b7}\u{2022}\u{2024}\u{3002}\u{fe52}\u{ff0e}\u{ff61}\u{2044}\u{2215}\u{29f8}\u{ff0f}\u{fe68}\u{ff3c}\u{ff04}\u{fe69}\u{a2}\u{a3}\u{20ac}\
                 \u{66a}\u{ff05}\u{fe6a}\u{2030}\u{ff0b}\u{fe62}\u{207a}\u{2795}\u{ff0a}\u{2217}\u{d7}\u{fe61}\u{ff1a}\u{fe55}\u{2236}\u{ff3f}\u{203f}\u{391}\u{410}\u{392}\u{412}\u{415}\u{41e}\u{39f}\
                 \u{17f}\u{130}\u{131}\u{212a}\u{df}\u{c6}\u{b2}\u{b3}\u{b9}\u{2070}\u{2074}\u{2080}\u{2460}\u{2469}\u{2160}\u{2170}\u{3007}\u{4e00}\u{4e8c}\u{301}\u{fe0f}\u{20e3}\
                 !\"#&'()*,-/;<=>?@[\\]^_`{|}~\u{7f}\u{80}\u{ff}\u{100}\u{1d7ce}\u{1d7d8}\u{1d7ff}\u{1d400}\u{1f100}\u{10ffff}";
    let digits = [0x660u32, 0x6f0, 0x7c0, 0x966, 0x9e6, 0xe50, 0xff10, 0x1d7ce].into_iter().flat_map(|b| b..b + 10);
    let letters = (0xff21..=0xff3a).chain(0xff41..=0xff5a).chain(0x61..=0x7a).chain(0x41..=0x5a).chain(0x24b6..=0x24cf);
    // what is left of a character whose upper bits are lost
    let low = (0x20..0x80u32).flat_map(|u| [u + 0x80, u + 0x100, u + 0x1_0000]);
    signs.chars().chain(digits.chain(letters).chain(low).filter_map(char::from_u32))
}

/// Code 128: every short string of one character per class, and all pairs of characters after each selector.
fn classes<'a>(w: &'a Walker<'a>, g: &'a Gen<'a>, plan: &'a Plan, v: &mut Vec<Job<'a, Acc>>) {
    let reps: Vec<char> = "\u{c0}\u{181}\u{106}\u{179}\u{17a}\u{17c}\u{17d}1a\u{1}A\u{f7}\u{7f}\u{20ac}".chars().collect();
    let depth = if plan.thorough { 6 } else { 5 };
    for sel in ['\u{c0}', '\u{181}', '\u{106}'] {
        for n in 0..=depth {
            let parts = if n > 2 { reps.len() } else { 1 };
            for part in 0..parts {
                let reps = reps.clone();
                v.push(Box::new(move |a| {
                    let mut s = String::new();
                    g.all(&reps, n, part, parts, &mut |t| {
                        s.clear();
                        s.push(sel);
                        s.push_str(t);
                        w.check(a, &s) || a.suspects.len() < 3
                    })
                }));
            }
        }
        v.push(Box::new(move |a| {
            for head in ["", "\u{106}", "\u{c0}", "\u{181}", "\u{17d}", "1"] {
                g.all(&g.alpha, 2, 0, 1, &mut |t| w.check(a, &format!("{}{}{}", sel, head, t)) || a.suspects.len() < 3);
            }
        }));
        // digits in set C, of every length
        v.push(Box::new(move |a| {
            for n in 0..200 {
                for d in "0123456789".chars() {
                    let t: String = std::iter::repeat_n(d, n).collect();
                    w.check(a, &format!("{}\u{106}{}", sel, t));
                    w.check(a, &format!("{}{}\u{179}{}", sel, t, t));
                }
            }
        }));
    }
}

/// Test suites in the manner of the W-method: a shortest way to every state of a machine, then every
/// symbol (and, for the parse machine, another), then words that tell all the states apart.  Code that is
/// itself such a machine with no more states, and passes, is that machine.
fn suites<'a>(w: &'a Walker<'a>, g: &'a Gen<'a>, plan: &'a Plan, jobs: &mut Vec<Job<'a, Acc>>, rng: &dyn Fn() -> Rng) {
    let o = g.o;
    let p = o.parse;
    if p.states.len() > 1 {
        // the words of Parsing.tla!Telling
        let words = ["", "a", "\u{1}", "5", "55", "\u{181}", "A", "^", "\u{106}55"];
        let reps: Vec<char> = "\u{c0}\u{181}\u{106}\u{179}\u{17a}\u{17b}\u{17c}\u{17d}1a\u{1}A \u{7f}\u{e9}".chars().collect();
        let mut way: Vec<Option<String>> = vec![None; p.states.len() + 1];
        way[p.init] = Some(String::new());
        let mut todo = std::collections::VecDeque::from([p.init]);
        while let Some(st) = todo.pop_front() {
            for (i, &nx) in p.next[st - 1].iter().enumerate() {
                if nx > 0 && way[nx].is_none() {
                    way[nx] = Some(format!("{}{}", way[st].as_ref().unwrap(), char::from_u32(p.chars[i]).unwrap()));
                    todo.push_back(nx);
                }
            }
        }
        let symbols: Vec<char> = g.alpha.iter().chain(ODD.iter()).copied().collect();
        let second = if plan.thorough { symbols.clone() } else { reps };
        for (st, start) in way.into_iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x))) {
            let (symbols, second) = (symbols.clone(), second.clone());
            let _ = st;
            jobs.push(Box::new(move |a| {
                for &c in &symbols {
                    for d in std::iter::once(None).chain(second.iter().copied().map(Some)) {
                        for t in words {
                            let mut s = start.clone();
                            s.push(c);
                            s.extend(d);
                            s.push_str(t);
                            if !w.check(a, &s) && a.suspects.len() >= 3 {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // the first check register
    let Some((_, c, _)) = o.checks.first() else { return };
    // how a value is written in a state of the parse machine
    let mut written: Vec<HashMap<i32, (Vec<char>, usize)>> = vec![HashMap::new(); p.states.len() + 1];
    for st in 1..=p.states.len() {
        for (i, &nx) in p.next[st - 1].iter().enumerate().filter(|(_, nx)| **nx > 0) {
            let ch = char::from_u32(p.chars[i]).unwrap();
            match &p.out[st - 1][i][..] {
                [v] if p.accepts[nx - 1] => {
                    written[st].entry(*v).or_insert((vec![ch], nx));
                }
                [] => {
                    for (j, &ny) in p.next[nx - 1].iter().enumerate().filter(|(_, ny)| **ny > 0) {
                        if let [v] = p.out[nx - 1][j][..] {
                            written[st].entry(v).or_insert((vec![ch, char::from_u32(p.chars[j]).unwrap()], ny));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    // shortest ways to the registers; where the register runs from the right, characters are put in front
    let mut way: HashMap<(usize, usize), (Vec<char>, usize)> = HashMap::new();
    let mut seen = std::collections::HashSet::from([(p.init, 1usize, 1usize)]);
    let mut todo = std::collections::VecDeque::from([(p.init, 1usize, 1usize, Vec::<char>::new())]);
    while let Some((st, ph, sum, text)) = todo.pop_front() {
        let mut vs: Vec<_> = written[st].iter().collect();
        vs.sort();
        for (v, (chars, nx)) in vs {
            let (ph2, sum2) = (c.next[ph - 1], c.plus[sum - 1][c.adds[ph - 1][*v as usize]] + 1);
            if seen.insert((*nx, ph2, sum2)) {
                let mut t = text.clone();
                t.extend(chars);
                way.entry((ph2, sum2)).or_insert((t.clone(), *nx));
                todo.push_back((*nx, ph2, sum2, t));
            }
        }
    }
    way.entry((1, 1)).or_insert((vec![], p.init));
    let mut ways: Vec<_> = way.into_iter().collect();
    ways.sort();
    let one_in = if plan.thorough || ways.len() < 1500 { 1 } else { 8 };
    let written = std::sync::Arc::new(written);
    let n = ways.len().div_ceil(32);
    for part in ways.chunks(n) {
        let (part, written) = (part.to_vec(), written.clone());
        let r0 = rng();
        let ltr = c.ltr;
        jobs.push(Box::new(move |a| {
            let mut r = r0.clone();
            for (_, (start, st)) in &part {
                let mut vs: Vec<_> = written[*st].iter().collect();
                vs.sort();
                for (_, (chars, nx)) in vs {
                    for more in 0..3 {
                        if one_in > 1 && !r.chance(1, one_in) {
                            continue;
                        }
                        let mut t: Vec<char> = start.iter().chain(chars).copied().collect();
                        let mut at = *nx;
                        for _ in 0..more {
                            // the value 1, or whatever there is
                            if let Some((m, ny)) = written[at].get(&1) {
                                t.extend(m);
                                at = *ny;
                            }
                        }
                        if !ltr {
                            t.reverse();
                        }
                        if !w.check(a, &t.iter().collect::<String>()) && a.suspects.len() >= 3 {
                            return;
                        }
                    }
                }
            }
        }));
    }
}

/// Adds up the accumulators: (strings, accepted, chars, bars, suspects, covered edges by machine).
pub fn total(accs: Vec<Acc>) -> Acc {
    let mut t = Acc::default();
    for a in accs {
        t.strings += a.strings;
        t.accepted += a.accepted;
        t.chars += a.chars;
        t.bars += a.bars;
        t.suspects.extend(a.suspects);
        t.drawn.extend(a.drawn);
        t.held.extend(a.held);
        or(&mut t.cover.parse, &a.cover.parse);
        or(&mut t.cover.emit, &a.cover.emit);
        for (k, v) in &a.cover.check {
            or(t.cover.check.entry(k.clone()).or_default(), v);
        }
    }
    t.suspects.sort_by_key(|s| (s.len(), s.clone()));
    t.suspects.dedup();
    t.suspects.truncate(12);
    t.drawn.sort_by_key(|(s, d)| (s.len() as u64 * d.h * d.x, s.clone()));
    t.drawn.truncate(8);
    t.held.sort_by_key(|(_, s, o)| (s.len() + o.len(), s.clone()));
    t.held.truncate(12);
    t
}
fn or(a: &mut Vec<bool>, b: &[bool]) {
    if a.len() < b.len() {
        a.resize(b.len(), false);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x |= *y;
    }
}
