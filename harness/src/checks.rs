//! What is run for each property.  Writes into the output directory:
//!   trace.ndjson     a sample of everything, as sessions for TLC
//!   suspects.ndjson  sessions of the inputs on which code and tables seemed to differ
//!   heavy.ndjson     suspects too long for TLC, already judged by the tables
//!   stats.json       what was covered

use crate::call;
use crate::draw;
use crate::gen::Gen;
use crate::json;
use crate::oracle::{self, Expect, Oracle, Tables};
use crate::pool::{self, Job};
use crate::record;
use crate::rng::Rng;
use crate::walk::{self, base_of, Judge, Plan, Walker};
use crate::world::{self, Set, World};
use crate::Args;
use std::collections::BTreeMap;
use std::io::Write;

pub struct Out {
    pub dir: String,
    pub trace: Vec<String>,
    pub suspects: Vec<String>,
    pub heavy: Vec<String>,
    pub stats: BTreeMap<String, String>,
}
impl Out {
    pub fn add(&mut self, k: &str, n: u64) {
        let old: u64 = self.stats.get(k).and_then(|s| s.parse().ok()).unwrap_or(0);
        self.stats.insert(k.into(), (old + n).to_string());
    }
    fn write(&self) {
        for (name, v) in [("trace", &self.trace), ("suspects", &self.suspects), ("heavy", &self.heavy)] {
            let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/{}.ndjson", self.dir, name)).unwrap());
            for l in v {
                writeln!(f, "{}", l).unwrap();
            }
        }
        let body: Vec<String> = self.stats.iter().map(|(k, v)| format!("{}:{}", json::quote(k), v)).collect();
        std::fs::write(format!("{}/stats.json", self.dir), format!("{{{}}}\n", body.join(","))).unwrap();
    }
}

pub fn main(a: &Args) {
    let prop = a.need("--prop");
    let mut out = Out { dir: a.need("--out"), trace: vec![], suspects: vec![], heavy: vec![], stats: BTreeMap::new() };
    pool::watch(out.dir.clone());
    let t = oracle::load(&a.need("--tables"));
    let known: Vec<String> = json::parse(&std::fs::read_to_string(a.need("--known")).unwrap()).unwrap()
        .get("known").arr().iter().map(|k| k.str().to_string()).collect();
    let deep = a.get("--tier").as_deref() == Some("thorough");
    let seed = a.seed();
    let c = Ctx { t: &t, known: &known, deep, seed };
    let d = Judge { draw: true, ..Judge::default() };
    match &prop[..] {
        "C01" => c.syms(&mut out, &["ean13", "bookland", "jan", "ean8", "upca"], Judge { accept: true, twin: true, ..Judge::default() }),
        "C02" => c.syms(&mut out, &["ean13", "bookland", "jan", "ean8", "upca"], d),
        "C03" => c.syms(&mut out, &["eansupp"], Judge { accept: true, draw: true, ..Judge::default() }),
        "C04" => c.syms(&mut out, &["code39", "code39c"], Judge { draw: true, flag: true, ..Judge::default() }),
        "C05" => c.syms(&mut out, &["code93"], d),
        "C06" => c.syms(&mut out, &["code11", "usd8"], d),
        "C07" => c.syms(&mut out, &["codabar"], d),
        "C08" => c.syms(&mut out, &["itf"], d),
        "C09" => c.syms(&mut out, &["stf"], d),
        "C10" => c.syms(&mut out, &["code128"], Judge { accept: true, values: true, ..Judge::default() }),
        "C11" => c.syms(&mut out, &["code128"], d),
        "C12" => c.syms(&mut out, &["codabar", "code11", "usd8", "code39", "code39c", "code93", "itf", "stf"], Judge { accept: true, shape: true, ..Judge::default() }),
        "C13" => c.gens(&mut out, &[("ascii", false)]),
        "C14" => c.gens(&mut out, &[("json", false)]),
        "C15" => c.gens(&mut out, &[("svg", false)]),
        #[cfg(feature = "image")]
        "C16" => c.gens(&mut out, &[("buffer", false), ("png", false), ("gif", false), ("webp", false)]),
        #[cfg(feature = "image")]
        "C17" => {
            c.gens(&mut out, &[("png", true), ("gif", true), ("webp", true), ("buffer", true)]);
            c.too_big(&mut out);
        }
        #[cfg(feature = "image")]
        "C18" => crate::hist::check(&mut out, deep, seed),
        #[cfg(feature = "image")]
        "C20" => c.end_to_end(&mut out),
        "C21" => {
            c.mutations(&mut out);
            c.collisions(&mut out);
        }
        #[cfg(feature = "image")]
        "C22" => c.settings(&mut out),
        "C23" => c.held(&mut out),
        p => panic!("nothing to do for {}", p),
    }
    out.write();
}

pub struct Ctx<'a> {
    t: &'a Tables,
    known: &'a [String],
    deep: bool,
    seed: u64,
}

fn cover_stats(out: &mut Out, ctor: &str, os: &[Oracle], cov: &oracle::Cover) {
    let count = |v: &[bool]| v.iter().filter(|x| **x).count() as u64;
    let o = &os[0];
    out.add(&format!("edges.parse.{}.taken", o.rules.sym), 0);
    let k = format!("edges.parse.{}.taken", ctor);
    out.stats.insert(k, count(&cov.parse).to_string());
    out.stats.insert(format!("edges.parse.{}.of", ctor), (o.parse.states.len() * o.parse.chars.len()).to_string());
    out.stats.remove(&format!("edges.parse.{}.taken", if o.rules.sym == ctor { "" } else { &o.rules.sym }));
    if !cov.emit.is_empty() {
        out.stats.insert(format!("edges.emit.{}.taken", ctor), count(&cov.emit).to_string());
        let e = os[os.len() - 1].emit;
        out.stats.insert(format!("edges.emit.{}.of", ctor), (e.next.len() * e.vals.len()).to_string());
    }
    for (name, bits) in &cov.check {
        out.stats.insert(format!("edges.check.{}.{}.taken", ctor, name), count(bits).to_string());
        out.stats.insert(format!("edges.check.{}.{}.of", ctor, name), bits.len().to_string());
    }
}

/// Digits to put in the place of others: one changed, two exchanged, all new, more or fewer.
fn other_digits(sym: &str, d: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut o = d.to_vec();
    match r.below(5) {
        0 => {
            let p = r.below(o.len());
            o[p] = r.below(10) as u8;
        }
        1 => {
            let (p, q) = (r.below(o.len()), r.below(o.len()));
            o.swap(p, q);
        }
        2 => o.iter_mut().for_each(|x| *x = r.below(10) as u8),
        3 => o.reverse(),
        _ if sym == "eansupp" => o.iter_mut().for_each(|x| *x = 9 - *x),
        _ => {
            let n = r.range(1, 30);
            let n = if sym == "itf" { n + n % 2 } else { n };
            o = (0..n).map(|_| r.below(10) as u8).collect();
        }
    }
    o
}

fn held_session(w: &mut World, sym: &str, s: &str, other: &[u8]) {
    pool::calling(sym, s);
    if w.new_obj("made", "a", sym, s) == "ok" {
        w.held("a");
        w.alike("a");
        let first = call::held(&w.objs["a"]).map(|(_, _, d)| d).unwrap_or_default();
        w.together("b", sym, other);
        w.alike("b");
        w.put("a", other);
        w.held("a");
        w.alike("a");
        w.held("b");
        w.put("a", &first);
        w.alike("a");
        w.held("a");
    }
    pool::called();
}

impl<'a> Ctx<'a> {
    fn syms(&self, out: &mut Out, ctors: &[&str], j: Judge) {
        let plan = Plan {
            exhaustive: if self.deep { 6_000_000 } else { 250_000 } / if ctors.len() > 5 { 2 } else { 1 },
            random: if self.deep { 20_000_000 } else { 1_200_000 } / ctors.len().min(4),
            near: if self.deep { 8_000_000 } else { 400_000 } / ctors.len().min(4),
            sweep: j.accept,
            thorough: self.deep,
        };
        for ctor in ctors {
            let os = oracle::oracles(self.t, base_of(ctor), self.known);
            let g = Gen::new(&os[0]);
            let w = Walker { ctor, os: &os, j };
            record::sessions(self.t, &w, &g, if self.deep { 1200 } else { 150 }, self.seed, &mut out.trace);
            // the aliases are the same types under other names: the sample is enough for them
            if base_of(ctor) != *ctor {
                continue;
            }
            let acc = walk::total(pool::run(walk::jobs(self.t, &w, &g, &plan, self.seed)));
            out.add("strings", acc.strings);
            out.add("accepted", acc.accepted);
            out.add("characters", acc.chars);
            out.add("modules", acc.bars);
            cover_stats(out, ctor, &os, &acc.cover);
            for s in &acc.suspects {
                let mut world = World::new();
                w.session(&mut world, s);
                if s.chars().count() > 1500 {
                    let head: String = s.chars().take(40).collect();
                    out.heavy.push(format!("{{\"ctor\":{},\"characters\":{},\"bytes\":{},\"begins\":{},\"crc\":\"{:016x}\",\"same\":{}}}",
                        json::quote(ctor), s.chars().count(), s.len(), json::quote(&head), call::digest(s.as_bytes()),
                        s.chars().skip(1).all(|c| Some(c) == s.chars().nth(1))));
                } else {
                    out.suspects.push(world.take(out.suspects.len()));
                }
            }
        }
    }

    /// The digits shown, replaced, and put together by hand.
    fn held(&self, out: &mut Out) {
        let n = if self.deep { 3_000_000 } else { 200_000 };
        let mut mass: Vec<Job<walk::Acc>> = vec![];
        for sym in ["eansupp", "itf", "stf"] {
            let try_one = move |t: &Tables, a: &mut walk::Acc, s: String, r: &mut Rng| {
                let os = oracle::oracles(t, sym, &[]);
                a.strings += 1;
                pool::calling(sym, &s);
                let want = match os[0].read(&s, None) {
                    Expect::Ok(v) => v.iter().map(|d| *d as u8).collect::<Vec<u8>>(),
                    _ => panic!("{} should be accepted: {}", sym, s),
                };
                let other = other_digits(sym, &want, r);
                let bars = |d: &[u8]| {
                    let s: String = d.iter().map(|d| (b'0' + d) as char).collect();
                    call::make(sym, &s).and_then(|b| call::encode(&b))
                };
                let shows = |o: &call::Obj, d: &[u8]| call::held(o).map(|(k, _, h)| k == sym && h == d).unwrap_or(false);
                let drawn = |d: &[u8]| os[0].draw(&d.iter().map(|d| *d as i32).collect::<Vec<i32>>(), None);
                let alike = |o: &call::Obj, d: &[u8]| call::encode(o).is_ok() && call::encode(o) == bars(d) && call::encode(o) == Ok(drawn(d));
                let fine = match call::make(sym, &s) {
                    Err(_) => true,     // another property's concern
                    Ok(mut o) => {
                        shows(&o, &want) && alike(&o, &want)
                            && call::put(&mut o, &other) && shows(&o, &other) && alike(&o, &other)
                            && call::put(&mut o, &want) && alike(&o, &want)
                            && alike(&call::together(sym, &other), &other)
                    }
                };
                pool::called();
                if !fine && a.held.len() < 3 {
                    a.held.push((sym, s, other));
                }
            };
            let t = self.t;
            let seed = self.seed;
            // all the short ones
            for first in 0..10u32 {
                mass.push(Box::new(move |a| {
                    let mut r = Rng::new(seed, 9000 + first as u64);
                    let lens: &[u32] = if sym == "eansupp" { &[2, 5] } else { &[1, 2, 3, 4, 5] };
                    for n in lens {
                        for i in 0..10u32.pow(n - 1) {
                            if *n < 5 || sym == "eansupp" || i % 7 == first % 7 {
                                try_one(t, a, format!("{}{:0w$}", first, i, w = *n as usize - 1)[..*n as usize].to_string(), &mut r);
                            }
                        }
                    }
                }));
            }
            if sym == "eansupp" {
                continue;
            }
            // every length with every first and last digit; one digit over and over
            for k in 0..16usize {
                let deep = self.deep;
                mass.push(Box::new(move |a| {
                    let mut r = Rng::new(seed, 9150 + k as u64);
                    for len in (1..=256usize).filter(|n| n % 16 == k) {
                        for d in 0..100u8 {
                            let (x, y) = (b'0' + d / 10, b'0' + d % 10);
                            let mut ss = vec![];
                            let mut s: Vec<u8> = (0..len).map(|_| b'0' + r.below(10) as u8).collect();
                            (s[0], s[len - 1]) = (x, y);
                            ss.push(s.clone());
                            if x == y {
                                ss.push(vec![x; len]);
                            }
                            if len > 1 && (deep || len % 3 == d as usize % 3) {
                                (s[len - 2], s[len - 1]) = (x, y);
                                ss.push(s);
                            }
                            for s in ss {
                                try_one(t, a, String::from_utf8(s).unwrap(), &mut r);
                            }
                        }
                    }
                }));
            }
            // every length; random ones
            for k in 0..16u64 {
                mass.push(Box::new(move |a| {
                    let mut r = Rng::new(seed, 9100 + k);
                    for i in 0..n / 16 / 8 {
                        let len = if i < 17 { (k as usize + 16 * i).clamp(1, 256) } else if r.chance(1, 10) { r.range(1, 256) } else { r.range(1, 24) };
                        let s: String = (0..len).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                        try_one(t, a, s, &mut r);
                    }
                }));
            }
        }
        let acc = walk::total(pool::run(mass));
        out.add("values", acc.strings);
        for (sym, s, other) in &acc.held {
            let mut w = World::new();
            held_session(&mut w, sym, s, other);
            out.suspects.push(w.take(out.suspects.len()));
        }
        let mut r = Rng::new(self.seed, 9200);
        for i in 0..if self.deep { 1000 } else { 120 } {
            let sym = ["eansupp", "itf", "stf"][i % 3];
            let len = if sym == "eansupp" { *r.pick(&[2usize, 5]) } else if i % 30 == 7 { 256 } else { r.range(1, 40) };
            let s: String = (0..len).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            let os = oracle::oracles(self.t, sym, &[]);
            if let Expect::Ok(v) = os[0].read(&s, None) {
                let d: Vec<u8> = v.iter().map(|d| *d as u8).collect();
                let other = other_digits(sym, &d, &mut r);
                let mut w = World::new();
                held_session(&mut w, sym, &s, &other);
                out.trace.push(w.take(out.trace.len()));
            }
        }
    }

    fn gens(&self, out: &mut Out, kinds: &[(&str, bool)]) {
        for (kind, file) in kinds {
            let n = match (*kind, *file) {
                ("ascii" | "json", _) => 60_000,
                ("svg", _) => 30_000,
                (_, true) => 2_500,
                (_, false) => 8_000,
            } * if self.deep { 12 } else { 1 };
            let acc = draw::mass(kind, *file, n, self.deep, self.seed);
            out.add("drawings", acc.drawings);
            out.add("modules", acc.modules);
            out.add("settings", acc.settings.len() as u64);
            for (s, m) in &acc.suspects {
                let mut w = World::new();
                draw::session(&mut w, s, m, *file);
                out.suspects.push(w.take(out.suspects.len()));
            }
            // the sample
            let mut r = Rng::new(self.seed, 1000 + kind.bytes().map(|b| b as u64).sum::<u64>());
            let mut w = World::new();
            let mut cases: Vec<(Set, Vec<u8>)> = vec![];
            let edges = draw::edges(kind, *file, false);
            let want = if self.deep { 2500 } else { 350 };
            for (i, c) in edges.iter().enumerate() {
                if i % (edges.len() / want + 1) == 0 && c.1.len() < 2000 {
                    cases.push(c.clone());
                }
            }
            for _ in 0..want {
                let c = draw::case(kind, &mut r);
                if c.1.len() < 400 {
                    cases.push(c);
                }
            }
            for (i, (s, m)) in cases.iter().enumerate() {
                draw::session(&mut w, s, m, *file);
                if i % 10 == 9 || i + 1 == cases.len() {
                    out.trace.push(w.take(out.trace.len()));
                }
            }
        }
    }

    #[cfg(feature = "image")]
    fn too_big(&self, out: &mut Out) {
        let mut w = World::new();
        for kind in ["png", "gif", "webp", "buffer"] {
            for (n, x) in [(95usize, 45_210_183u64), (95, 50_000_000), (2, 2147483648), (3, 1431655766), (1000, 4294967295), (65536, 65536), (4294968, 1000)] {
                for rot in [0, 90] {
                    let mut s = Set::new(kind, 1, x);
                    s.rot = rot;
                    let m: Vec<u8> = (0..n).map(|i| (i % 2) as u8).collect();
                    for buffer in [false, true] {
                        w.gen_be("g", &s);
                        pool::calling(kind, &format!("{:?} {} modules", s, n));
                        w.too_big("g", &m, buffer);
                        pool::called();
                    }
                    out.trace.push(w.take(out.trace.len()));
                }
            }
        }
    }

    /// Every generator on accepted inputs of every symbology, read back.
    #[cfg(feature = "image")]
    fn end_to_end(&self, out: &mut Out) {
        let kinds = ["ascii", "json", "svg", "png", "gif", "webp", "buffer"];
        // settings for a drawing of about n modules
        let setting = |kind: &str, n: usize, r: &mut Rng| {
            let mut s = Set::new(kind, r.range(1, 6) as u64, r.range(1, 4) as u64);
            if r.chance(1, 4) {
                s.x = r.range(5, 40) as u64;
            }
            if r.chance(1, 4) {
                s.h = r.range(7, 80) as u64;
            }
            // now and then as large as on a shelf or a poster
            let large = r.chance(1, 40);
            if large {
                s.h = *r.pick(&[90u64, 99, 100, 101, 120, 127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 500, 512, 600]);
                s.x = r.range(1, 24) as u64;
            }
            let room = if large { 1_200_000 } else if ["png", "gif", "webp", "buffer"].contains(&kind) { 60_000 } else { 400_000 };
            while s.h > 1 && s.h * s.x * n as u64 > room {
                s.h /= 2;
            }
            while s.x > 1 && s.h * s.x * n as u64 > room {
                s.x /= 2;
            }
            while kind == "webp" && s.x > 1 && s.x * n as u64 > 16_000 {
                s.x /= 2;
            }
            let fit = |c: [u8; 4]| if kind != "gif" { c } else if c[3] == 0 { [0; 4] } else { [c[0], c[1], c[2], 255] };
            if !["ascii", "json"].contains(&kind) && r.chance(2, 3) {
                loop {
                    s.fg = draw::colour(r);
                    s.bg = if r.chance(1, 3) { draw::related(s.fg, r) } else { draw::colour(r) };
                    // colours that can be told apart; an SVG shows the opacity in hundredths
                    if fit(s.fg) != fit(s.bg) && (kind != "svg" || s.fg[..3] != s.bg[..3]) {
                        break;
                    }
                }
            }
            if !["ascii", "json", "svg"].contains(&kind) {
                s.rot = 90 * r.below(4) as u32;
            }
            s
        };
        // in the mass
        let n = if self.deep { 60_000 } else { 4_000 };
        let heights = [1u64, 2, 3, 5, 8, 10, 16, 20, 25, 30, 32, 40, 50, 60, 64, 72, 75, 80, 96, 100, 101, 120, 128, 144, 150, 160, 180, 200, 240, 256, 300, 400, 500];
        for ctor in call::CTORS {
            let os = oracle::oracles(self.t, ctor, self.known);
            let g = Gen::new(&os[0]);
            let mut jobs: Vec<Job<walk::Acc>> = vec![];
            let look = |a: &mut walk::Acc, s: String, choose: &mut dyn FnMut(usize) -> Set| {
                pool::calling(ctor, &s);
                if let Ok(obj) = call::make(ctor, &s) {
                    let wants: Vec<Option<Vec<u8>>> = os.iter().map(|o| match o.read(&s, None) {
                        Expect::Ok(v) => Some(o.draw(&v, None)),
                        _ => None,
                    }).collect();
                    if wants.iter().all(|w| w.is_some()) {
                        let set = choose(wants[0].as_ref().map_or(0, |w| w.len()));
                        a.strings += 1;
                        let seen = call::encode(&obj).ok().and_then(|m| shown(&set, &m));
                        a.bars += seen.as_ref().map(|m| m.len() as u64).unwrap_or(0);
                        if !wants.contains(&seen) && a.drawn.len() < 2 {
                            a.drawn.push((s, set));
                        }
                    }
                }
                pool::called();
            };
            // every common size, on a message of a common length
            for h in heights {
                let (g, seed, look) = (&g, self.seed, &look);
                jobs.push(Box::new(move |a| {
                    let mut r = Rng::new(seed, 7000 + h + ctor.bytes().fold(0u64, |h, b| h * 31 + b as u64) * 64);
                    for x in 1..=12u64 {
                        for kind in ["ascii", "json", "svg", "buffer"] {
                            let n = if g.o.rules.max > 0 || !g.o.rules.lens.is_empty() { g.length(&mut r) } else { r.range(1, 9) };
                            let s = g.walk(&mut r, n);
                            let s = if g.retail() { g.complete(&s) } else { s };
                            let rot = if kind == "buffer" { 90 * r.below(4) as u32 } else { 0 };
                            look(a, s, &mut |_| Set { rot, ..Set::new(kind, h, x) });
                        }
                    }
                }));
            }
            // a long message, every kind and turn and every x-dimension
            for x in 1..=16u64 {
                let (g, seed, look, deep) = (&g, self.seed, &look, self.deep);
                jobs.push(Box::new(move |a| {
                    let mut r = Rng::new(seed, 7700 + x + ctor.bytes().fold(0u64, |h, b| h * 31 + b as u64) * 64);
                    for h in 1..=if deep { 8u64 } else { 3 } {
                        for kind in kinds {
                            for rot in [0, 90, 180, 270] {
                                if rot > 0 && ["ascii", "json", "svg"].contains(&kind) {
                                    continue;
                                }
                                let n = if g.o.rules.max > 0 || !g.o.rules.lens.is_empty() { g.length(&mut r) } else { r.range(20, 60) };
                                let n = if g.o.rules.max > 0 { n.max(25) } else { n };
                                let s = g.walk(&mut r, n);
                                let s = if g.retail() { g.complete(&s) } else { s };
                                look(a, s, &mut |n| Set { rot, ..Set::new(kind, h, if kind == "webp" { x.min(12_000 / n.max(1) as u64).max(1) } else { x }) });
                            }
                        }
                    }
                }));
            }
            for k in 0..16 {
                let (g, seed, look) = (&g, self.seed, &look);
                jobs.push(Box::new(move |a| {
                    let mut r = Rng::new(seed, 5000 + k + ctor.bytes().fold(0u64, |h, b| h * 31 + b as u64) * 64);
                    for _ in 0..n / 16 {
                        let s = g.valid(&mut r);
                        let kind = kinds[r.below(7)];
                        look(a, s, &mut |n| setting(kind, n, &mut r));
                    }
                }));
            }
            let acc = walk::total(pool::run(jobs));
            out.add("rendered", acc.strings);
            out.add("modules", acc.bars);
            for (s, set) in acc.drawn {
                let mut w = World::new();
                if w.new_obj("made", "a", ctor, &s) == "ok" {
                    self.read_all(&mut w, "a", &[set]);
                }
                out.suspects.push(w.take(out.suspects.len()));
            }
            // the sample
            let mut r = Rng::new(self.seed, 9000 + ctor.bytes().map(|b| b as u64).sum::<u64>());
            let mut w = World::new();
            let mut strings: Vec<String> = (0..if self.deep { 60 } else { 10 }).map(|_| g.valid(&mut r)).filter(|s| s.chars().count() < 60).collect();
            strings.push(g.walk(&mut r, 90));
            for s in strings {
                if w.new_obj("made", "a", ctor, &s) != "ok" {
                    w.take(0);
                    continue;
                }
                let sets: Vec<Set> = kinds.iter().map(|k| setting(k, 11 * s.len() + 40, &mut r)).collect();
                pool::calling(ctor, &s);
                self.read_all(&mut w, "a", &sets);
                pool::called();
                out.trace.push(w.take(out.trace.len()));
            }
        }
    }
    #[cfg(feature = "image")]
    fn read_all(&self, w: &mut World, o: &str, sets: &[Set]) {
        if let Ok(m) = call::encode(&w.objs[o]) {
            for s in sets {
                w.gen_be("g", s);
                if ["png", "gif", "webp"].contains(&&s.kind[..]) {
                    w.file("g", &m, Some(o));
                } else {
                    w.render("g", &m, Some(o));
                }
            }
        } else {
            let _ = w.encode("scan", o);
        }
    }

    /// Single wrong digits and swapped neighbours in complete retail numbers.
    fn mutations(&self, out: &mut Out) {
        let n = if self.deep { 400_000 } else { 30_000 };
        for ctor in ["ean13", "ean8", "upca"] {
            let os = oracle::oracles(self.t, ctor, self.known);
            let g = Gen::new(&os[0]);
            let full = os[0].rules.base + 1;
            #[derive(Default)]
            struct A {
                tried: u64,
                bad: Vec<(String, String, usize, Option<u8>)>,
            }
            let mut jobs: Vec<Job<A>> = vec![];
            for k in 0..32u64 {
                let (g, seed) = (&g, self.seed);
                jobs.push(Box::new(move |a| {
                    let mut r = Rng::new(seed, 40_000 + k + 64 * full as u64);
                    for _ in 0..n / 32 {
                        let s = g.complete(&g.walk(&mut r, full));
                        for (t, pos, d) in mutants(&s) {
                            a.tried += 1;
                            pool::calling(ctor, &t);
                            if call::outcome(&call::make(ctor, &t)) != "Checksum" && a.bad.len() < 2 {
                                a.bad.push((s.clone(), t, pos, d));
                            }
                        }
                        pool::called();
                    }
                }));
            }
            for a in pool::run(jobs) {
                out.add("mutations", a.tried);
                for (s, t, pos, d) in a.bad.into_iter().take(4) {
                    let mut w = World::new();
                    mutate_event(&mut w, ctor, &s, &t, pos, d);
                    out.suspects.push(w.take(0));
                }
            }
            let mut r = Rng::new(self.seed, 41_000 + full as u64);
            let mut w = World::new();
            for _ in 0..if self.deep { 60 } else { 12 } {
                let s = g.complete(&g.walk(&mut r, full));
                for (t, pos, d) in mutants(&s) {
                    mutate_event(&mut w, ctor, &s, &t, pos, d);
                }
                out.trace.push(w.take(out.trace.len()));
            }
        }
        out.suspects.truncate(12);
    }

    /// Different messages with the same bars.
    fn collisions(&self, out: &mut Out) {
        use std::collections::HashMap;
        let cap = if self.deep { 3_000_000 } else { 150_000 };
        for ctor in call::CTORS {
            let os = oracle::oracles(self.t, ctor, self.known);
            let last = &os[os.len() - 1];
            let g = Gen::new(last);
            let mut strings: Vec<String> = vec![];
            if g.single() && !g.retail() {
                let mut n = 1;
                while g.alpha.len().pow(n as u32) <= cap {
                    g.all(&g.alpha, n, 0, 1, &mut |s| {
                        strings.push(s.to_string());
                        true
                    });
                    n += 1;
                }
            }
            let mut r = Rng::new(self.seed, 43_000 + ctor.bytes().map(|b| b as u64).sum::<u64>());
            for _ in 0..cap / 3 {
                let s = g.valid(&mut r);
                // and a close relative
                let mut v: Vec<char> = s.chars().collect();
                let i = r.below(v.len());
                v[i] = *r.pick(&g.alpha);
                let t: String = v.into_iter().collect();
                strings.push(if g.retail() { g.complete(&t) } else { t });
                if !g.retail() {
                    // without its end or beginning, said twice, backwards, grown or shrunk by one
                    let c: Vec<char> = s.chars().collect();
                    let i = r.below(c.len());
                    let x = *r.pick(&g.alpha);
                    strings.push(match r.below(8) {
                        0 => c[..c.len() - 1].iter().collect(),
                        1 => c[1..].iter().collect(),
                        2 => format!("{}{}", s, s),
                        3 => c.iter().rev().collect(),
                        4 => c[..i].iter().chain([&x]).chain(&c[i..]).collect(),
                        5 => c[..i].iter().chain(&c[i + 1..]).collect(),
                        6 => c[..i].iter().collect(),
                        _ => c[i..].iter().collect(),
                    });
                }
                strings.push(s);
            }
            if !g.retail() {
                // a few characters, followed or preceded by one character any number of times
                let sels: &[&str] = if g.single() { &[""] } else { &["\u{c0}", "\u{181}", "\u{106}"] };
                for sel in sels {
                    let short: String = (0..4).map(|_| *r.pick(&g.alpha)).collect();
                    let short = if g.single() || *sel == "\u{c0}" { short } else { "1203".into() };
                    for c in &g.alpha {
                        for n in 0..if self.deep { 280 } else { 257 - short.len() } {
                            let run: String = std::iter::repeat(*c).take(n).collect();
                            strings.push(format!("{}{}{}", sel, short, run));
                            strings.push(format!("{}{}{}", sel, run, short));
                        }
                    }
                }
            }
            if !g.single() {
                // pairs of characters in each set
                for sel in ['\u{c0}', '\u{181}', '\u{106}'] {
                    g.all(&g.alpha, 2, 0, 1, &mut |s| {
                        strings.push(format!("{}{}", sel, s));
                        true
                    });
                }
            }
            let mut jobs: Vec<Job<Vec<(u64, u64, u32)>>> = vec![];
            let strings = &strings;
            let part = strings.len().div_ceil(64);
            for k in 0..64 {
                let os = &os;
                jobs.push(Box::new(move |a| {
                    for i in k * part..((k + 1) * part).min(strings.len()) {
                        let s = &strings[i];
                        pool::calling(ctor, s);
                        if let Ok(obj) = call::make(ctor, s) {
                            if let Ok(b) = call::encode(&obj) {
                                // what it denotes: the completed values if the specification reads it, else the text
                                let m = match os[os.len() - 1].read(s, None) {
                                    Expect::Ok(v) => v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>(),
                                    _ => s.as_bytes().to_vec(),
                                };
                                a.push((call::digest(&b), call::digest(&m), i as u32));
                            }
                        }
                        pool::called();
                    }
                }));
            }
            let mut seen: HashMap<u64, (u64, u32)> = HashMap::new();
            let mut found = 0;
            for (b, m, i) in pool::run(jobs).into_iter().flatten() {
                out.add("compared", 1);
                match seen.get(&b) {
                    Some((m2, j)) if *m2 != m => {
                        if found < 4 {
                            let mut w = World::new();
                            pair_event(&mut w, ctor, &strings[*j as usize], &strings[i as usize]);
                            out.suspects.push(w.take(out.suspects.len()));
                        }
                        found += 1;
                    }
                    Some(_) => {}
                    None => {
                        seen.insert(b, (m, i));
                    }
                }
            }
            // the sample: neighbours of few characters
            let mut w = World::new();
            for k in 0..if self.deep { 400 } else { 60 } {
                let s = g.valid(&mut r);
                if s.chars().count() > 80 {
                    continue;
                }
                let mut v: Vec<char> = s.chars().collect();
                let i = r.below(v.len());
                v[i] = *r.pick(&g.alpha);
                let t: String = v.into_iter().collect();
                let t = if g.retail() { g.complete(&t) } else { t };
                pair_event(&mut w, ctor, &s, &t);
                if k % 10 == 9 {
                    out.trace.push(w.take(out.trace.len()));
                }
            }
            out.trace.push(w.take(out.trace.len()));
        }
    }

    /// All orders of the four setters with all values of a small choice each, and one more call after them.
    fn crossed_setters(&self, out: &mut Out) -> u64 {
        use barcoders::generators::svg::{Color, SVG};
        let mut colours = vec![[0u8, 0, 0, 255], [255, 255, 255, 255], [0, 0, 0, 0], [255, 255, 255, 0], [255, 255, 255, 254], [0, 0, 0, 254], [1, 0, 0, 255], [0, 0, 1, 255], [254, 255, 255, 255], [128, 128, 128, 128], [200, 10, 30, 255], [9, 8, 7, 6]];
        if self.deep {
            colours.extend(draw::relatives([0, 0, 0, 255]));
            colours.extend(draw::relatives([255, 255, 255, 255]));
            colours.truncate(40);
        }
        let xs = [0u32, 1, 2, 3, 10, 256, u32::MAX];
        let spaces = ["", "x", "http://www.w3.org/2000/svg"];
        // 0, 1, 2, 3: x-dimension, foreground, background, namespace
        #[derive(Clone, PartialEq, Debug)]
        struct Want(u32, [u8; 4], [u8; 4], Option<&'static str>);
        let call = |s: SVG, w: &mut Want, which: usize, v: &Want| match which {
            0 => {
                w.0 = v.0;
                s.xdim(v.0)
            }
            1 => {
                w.1 = v.1;
                s.foreground(Color::new(v.1))
            }
            2 => {
                w.2 = v.2;
                s.background(Color::new(v.2))
            }
            _ => {
                w.3 = v.3;
                s.xmlns(v.3.unwrap().to_string())
            }
        };
        let is = |s: &SVG, w: &Want, h: u32| s.height == h && s.xdim == w.0 && s.foreground.rgba == w.1 && s.background.rgba == w.2 && s.xmlns.as_deref() == w.3;
        let mut orders: Vec<Vec<usize>> = vec![vec![]];
        for len in 0..4 {
            for o in orders.clone().into_iter().filter(|o| o.len() == len) {
                orders.extend((0..4).filter(|k| !o.contains(k)).map(|k| [&o[..], &[k]].concat()));
            }
        }
        let (mut n, mut bad) = (0u64, 0);
        for (f, &fg) in colours.iter().enumerate() {
            for (b, &bg) in colours.iter().enumerate() {
                for (i, &x) in xs.iter().enumerate() {
                    for &ns in &spaces {
                        let v = Want(x, fg, bg, Some(ns));
                        for o in &orders {
                            // a value that does not come in is not tried again
                            if !o.contains(&1) && f > 0 || !o.contains(&2) && b > 0 || !o.contains(&0) && i > 0 || !o.contains(&3) && !ns.is_empty() {
                                continue;
                            }
                            let h = [1u32, 7, 80, u32::MAX][(f + b + i) % 4];
                            let mut w = Want(1, [0, 0, 0, 255], [255, 255, 255, 255], None);
                            let mut s = SVG::new(h);
                            let mut wrong = !is(&s, &w, h);
                            for &k in o {
                                s = call(s, &mut w, k, &v);
                                wrong |= !is(&s, &w, h);
                            }
                            // one of them once more, with another value
                            let other = Want(xs[(i + f + 1) % xs.len()], colours[(f + b + 1) % colours.len()], colours[(f + i + 1) % colours.len()], Some(spaces[(b + i) % 3]));
                            let again = (f + b + i + o.len()) % 4;
                            s = call(s, &mut w, again, &other);
                            wrong |= !is(&s, &w, h);
                            n += o.len() as u64 + 1;
                            if wrong && bad < 3 {
                                bad += 1;
                                let mut t = World::new();
                                t.gen_new("g", "svg", h as u64);
                                t.gen_see("g");
                                for (k, v) in o.iter().map(|k| (*k, &v)).chain([(again, &other)]) {
                                    match k {
                                        0 => t.gen_num("g", "x", v.0 as u64),
                                        1 => t.gen_colour("g", "fg", v.1),
                                        2 => t.gen_colour("g", "bg", v.2),
                                        _ => t.gen_ns("g", v.3.unwrap()),
                                    }
                                    t.gen_see("g");
                                }
                                out.trace.push(t.take(out.trace.len()));
                            }
                        }
                    }
                }
            }
        }
        n
    }

    /// Defaults of every kind, and fields against pictures.  (Sequences of setters come from TLC.)
    #[cfg(feature = "image")]
    fn settings(&self, out: &mut Out) {
        let mut w = World::new();
        let mods = [1u8, 0, 1, 1, 0];
        for kind in ["ascii", "json", "svg", "png", "gif", "webp", "buffer"] {
            for h in [1u64, 2, 10, 80, 255, 256, 1000, 65535, 65536, 2147483647, 2147483648, 4294967295] {
                w.gen_new("g", kind, h);
                w.gen_see("g");
                if ["ascii", "json"].contains(&kind) {
                    w.gen_default("d", kind);
                    w.gen_see("d");
                    w.render("d", &mods, None);
                }
                if ["ascii", "json", "svg"].contains(&kind) || h < 70_000 {
                    w.render("g", &mods, None);
                }
                out.trace.push(w.take(out.trace.len()));
            }
        }
        // sequences of setters and of changes of public fields (longer ones, with copies, come from TLC)
        let mut r = Rng::new(self.seed, 61_000);
        let n = if self.deep { 6000 } else { 600 };
        for i in 0..n {
            let kind = *r.pick(&["svg", "svg", "png", "gif", "webp", "buffer"]);
            let h = *r.pick(if kind == "svg" { &[1u64, 7, 60, 4294967295] } else { &[1u64, 2, 7, 13] });
            w.gen_new("g", kind, h);
            let (mut fg, mut bg) = ([0, 0, 0, 255], [255, 255, 255, 255]);
            for _ in 0..r.range(1, 8) {
                match r.below(6) {
                    0 if kind == "svg" => {
                        let v = r.next() as u32 as u64 >> r.below(32);
                        w.gen_num("g", "x", v)
                    }
                    0 => w.gen_num("g", "x", r.range(1, 9) as u64),
                    1 => {
                        fg = if r.chance(1, 2) { draw::colour(&mut r) } else { draw::related(bg, &mut r) };
                        w.gen_colour("g", "fg", fg)
                    }
                    2 => {
                        bg = if r.chance(1, 2) { draw::colour(&mut r) } else { draw::related(fg, &mut r) };
                        w.gen_colour("g", "bg", bg)
                    }
                    3 => w.gen_named("g", r.pick(&["fg", "bg"]), r.pick(&["black", "white"])),
                    4 if kind != "svg" => w.gen_turn("g", 90 * r.below(4) as u32),
                    _ if kind == "svg" => {
                        let ns = draw::namespace(&mut r).unwrap_or_else(|| "urn:x".into());
                        w.gen_ns("g", &ns)
                    }
                    _ => {}
                }
                w.gen_see("g");
            }
            w.render("g", &mods, None);
            if i % 4 == 3 {
                out.trace.push(w.take(out.trace.len()));
            }
        }
        out.trace.push(w.take(out.trace.len()));
        // every pair of a colour and one that is nearly the same, in both orders of setting
        for c in [[0, 0, 0, 255], [255, 255, 255, 255], [9, 8, 7, 6], [200, 10, 30, 90], [1, 1, 1, 0]] {
            for d in draw::relatives(c) {
                for kind in ["svg", "png"] {
                    for (first, second) in [("fg", "bg"), ("bg", "fg")] {
                        w.gen_new("g", kind, 3);
                        w.gen_colour("g", first, c);
                        w.gen_colour("g", second, d);
                        w.gen_see("g");
                        w.render("g", &mods, None);
                        w.gen_colour("g", first, d);
                        w.gen_see("g");
                    }
                }
            }
            out.trace.push(w.take(out.trace.len()));
        }
        // every namespace there is a reason to mistake for another
        let spaces = crate::shapes::namespaces();
        for c in spaces.chunks(40) {
            w.gen_new("g", "svg", 3);
            for ns in c {
                w.gen_ns("g", ns);
                w.gen_see("g");
                w.render("g", &mods[..1], None);
            }
            out.trace.push(w.take(out.trace.len()));
        }
        // every height and x-dimension to 2^18, and others
        {
            use barcoders::generators::{image::{Image, Rotation}, svg::SVG};
            let most = if self.deep { 1u32 << 23 } else { 1 << 18 };
            let mut r = Rng::new(self.seed, 61_900);
            let others: Vec<u32> = (0..if self.deep { 8_000_000 } else { 400_000 }).map(|i| match i % 4 {
                0 => r.next() as u32,
                1 => (r.next() as u32) >> r.below(32),
                2 => ((r.below(65_536) as u32) << 16).wrapping_sub(r.below(5) as u32),
                _ => (1u32 << r.below(32)).wrapping_add(r.below(17) as u32).wrapping_sub(8),
            }).collect();
            let mut sizes = 0u64;
            let mut bad = 0;
            for h in (0..=most).chain(others).chain((0..4_294_967).map(|k| k * 1000 + 999 * (k % 2)).filter(|_| self.deep)) {
                sizes += 1;
                let base = |i: &Image| match i {
                    Image::PNG { height, xdim, rotation: Rotation::Zero, .. } | Image::GIF { height, xdim, rotation: Rotation::Zero, .. }
                    | Image::WEBP { height, xdim, rotation: Rotation::Zero, .. } | Image::ImageBuffer { height, xdim, rotation: Rotation::Zero, .. } => *height == h && *xdim == 1,
                    _ => false,
                };
                let s = SVG::new(h);
                let right = [
                    ("png", base(&Image::png(h))), ("gif", base(&Image::gif(h))), ("webp", base(&Image::webp(h))), ("buffer", base(&Image::image_buffer(h))),
                    ("svg", s.height == h && s.xdim == 1 && s.clone().xdim(h).xdim == h && s.xdim(h).height == h),
                ];
                for (kind, ok) in right {
                    if !ok && bad < 3 {
                        bad += 1;
                        let mut t = World::new();
                        t.gen_new("g", kind, h as u64);
                        t.gen_see("g");
                        if kind == "svg" {
                            t.gen_num("g", "x", h as u64);
                            t.gen_see("g");
                        }
                        out.trace.push(t.take(out.trace.len()));
                    }
                }
            }
            out.add("heights", sizes);
        }
        let crossed = self.crossed_setters(out);
        out.add("setters_crossed", crossed);
        out.add("namespaces", spaces.len() as u64);
        out.add("setter_sequences", n as u64);
    }
}

/// What the rendering shows, read back.
#[cfg(feature = "image")]
fn shown(s: &Set, mods: &[u8]) -> Option<Vec<u8>> {
    let mut w = World::new();
    w.gens.insert("g".into(), world::gen_of(s));
    match &w.gens["g"] {
        world::Gen::Img(i) => {
            let mods = &world::laid(&w.gens["g"], mods);
            let d = if s.kind == "buffer" {
                call::guard(|| i.generate_buffer(mods)).ok()?.ok()?
            } else {
                world::decoded(&call::guard(|| i.generate(mods)).ok()?.ok()?).1?
            };
            let fit = |c: [u8; 4]| if s.kind != "gif" { c } else if c[3] == 0 { [0; 4] } else { [c[0], c[1], c[2], 255] };
            let (fg, bg) = (fit(s.fg), fit(s.bg));
            let len = if s.rot % 180 == 0 { d.width() } else { d.height() };
            let mut v = vec![2u8; (len / s.x as u32) as usize];
            if len as u64 % s.x != 0 {
                return None;
            }
            // every pixel of a module has the colour of all the others
            for (px, py, p) in d.enumerate_pixels() {
                let along = match s.rot {
                    90 => py,
                    180 => len - 1 - px,
                    270 => len - 1 - py,
                    _ => px,
                };
                let c = if fit(p.0) == fg { 1 } else if fit(p.0) == bg { 0 } else { return None };
                let at = &mut v[(along / s.x as u32) as usize];
                if *at != 2 && *at != c {
                    return None;
                }
                *at = c;
            }
            Some(v)
        }
        _ => {
            let t = w.text("g", mods).ok()?;
            match &s.kind[..] {
                "ascii" => {
                    let line: Vec<char> = t.lines().last()?.chars().collect();
                    if t.split('\n').any(|l| !l.chars().eq(line.iter().copied())) {
                        return None;
                    }
                    line.chunks(s.x as usize).map(|c| match c[0] {
                        a if c.len() != s.x as usize || c.iter().any(|b| *b != a) => None,
                        '#' => Some(1),
                        ' ' => Some(0),
                        _ => None,
                    }).collect()
                }
                "json" => json::parse(&t).ok()?.get("encoding").arr().iter().map(|b| u8::try_from(b.int()).ok()).collect(),
                _ => {
                    let d = crate::xml::parse(&t).ok()?;
                    let w: usize = d.attr("viewBox")?.split(' ').nth(2)?.parse().ok()?;
                    let mut v = vec![0; w / s.x as usize];
                    let ink = format!("#{:02x}{:02x}{:02x}", s.fg[0], s.fg[1], s.fg[2]);
                    for k in d.kids.iter().skip(1) {
                        let x: usize = k.attr("x").unwrap_or("0").parse().ok()?;
                        let w: u64 = k.attr("width")?.parse().ok()?;
                        if x as u64 % s.x != 0 || w != s.x || !k.attr("fill")?.eq_ignore_ascii_case(&ink) {
                            return None;
                        }
                        *v.get_mut(x / s.x as usize)? = 1;
                    }
                    Some(v)
                }
            }
        }
    }
}

fn mutants(s: &str) -> Vec<(String, usize, Option<u8>)> {
    let b = s.as_bytes();
    let mut v = vec![];
    for i in 0..b.len() {
        for d in b'0'..=b'9' {
            if d != b[i] {
                let mut t = b.to_vec();
                t[i] = d;
                v.push((String::from_utf8(t).unwrap(), i, Some(d)));
            }
        }
        if i + 1 < b.len() && b[i] != b[i + 1] && b[i].abs_diff(b[i + 1]) != 5 {
            let mut t = b.to_vec();
            t.swap(i, i + 1);
            v.push((String::from_utf8(t).unwrap(), i, None));
        }
    }
    v
}
fn mutate_event(w: &mut World, ctor: &str, s: &str, t: &str, pos: usize, d: Option<u8>) {
    let r = call::make(ctor, t);
    w.note(format!(
        "{{\"op\":\"mutate\",\"ctor\":\"{}\",\"s\":{},\"t\":{},\"how\":\"{}\",\"pos\":{},\"d\":{},\"res\":\"{}\"}}",
        ctor, json::cps(s), json::cps(t), if d.is_some() { "digit" } else { "swap" }, pos + 1, d.unwrap_or(0), call::outcome(&r)
    ));
}
/// Only pairs of accepted inputs are put forward.
fn pair_event(w: &mut World, ctor: &str, s: &str, t: &str) {
    if let (Ok(a), Ok(b)) = (call::make(ctor, s), call::make(ctor, t)) {
        if let (Ok(a), Ok(b)) = (call::encode(&a), call::encode(&b)) {
            w.note(format!(
                "{{\"op\":\"pair\",\"ctor\":\"{}\",\"s\":{},\"t\":{},\"a\":{},\"b\":{}}}",
                ctor, json::cps(s), json::cps(t), json::runs(&a), json::runs(&b)
            ));
        }
    }
}

/// Strings of 4 GiB and a little: zero pages that are never looked at when the length is
/// checked first.  Runs in a process of its own with limited memory.
pub fn giant(a: &Args) {
    use std::io::Write;
    let mut out = std::fs::File::create(a.at(1)).unwrap();
    let mut w = World::new();
    // each is written down as soon as it is known: there may not be time for all
    for (i, (k, ctor)) in [0usize, 1, 2, 5, 7, 8, 11, 12, 13, 256].iter().flat_map(|k| a.rest(2).iter().map(move |c| (k, c))).enumerate() {
        let n = (1usize << 32) + k;
        let v = vec![0u8; n];
        // all NUL characters
        let s = unsafe { String::from_utf8_unchecked(v) };
        let res = call::outcome(&call::guard(|| call::construct(ctor, &s)).map_or(Err("panic"), call::named));
        let base = base_of(ctor);
        w.note(format!("{{\"op\":\"long\",\"ctor\":\"{}\",\"unit\":[0],\"count\":{},\"res\":\"{}\"}}", base, json::limbs(n as u128), res));
        writeln!(out, "{}", w.take(i)).unwrap();
    }
}
