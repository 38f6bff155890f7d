//! Mass conformance of the generators.  A quick look in Rust finds suspects; the sessions
//! written for them (and for a sample of everything else) are judged by TLC.

use crate::json;
use crate::pool::{self, Job};
use crate::rng::Rng;
pub use crate::shapes::*;
use crate::world::{Gen, World};

#[derive(Default)]
pub struct Acc {
    pub drawings: u64,
    pub modules: u64,
    pub suspects: Vec<(Set, Vec<u8>)>,
    pub settings: std::collections::HashSet<String>,
}

fn limit(kind: &str) -> u64 {
    match kind {
        "gif" => 65535,
        "webp" => 16384,
        _ => 1 << 31,
    }
}

/// Quick look: is the output of this case as it should be?
pub fn right(s: &Set, m: &[u8], file: bool) -> bool {
    let mut w = World::new();
    w.gens.insert("g".into(), crate::world::gen_of(s));
    let _ = file;
    pool::calling(&s.kind, &format!("{:?} {}", s, json::runs(m)));
    let ok = match &w.gens["g"] {
        #[cfg(feature = "image")]
        Gen::Img(i) => image_right(i, s, m, file),
        _ => match w.text("g", m) {
            Err(_) => false,
            Ok(t) => match &s.kind[..] {
                "ascii" => {
                    let line: String = m.iter().map(|b| if *b == 1 { "#".repeat(s.x as usize) } else { " ".repeat(s.x as usize) }).collect();
                    t == vec![line; s.h as usize].join("\n")
                }
                "json" => {
                    let v: Vec<i64> = m.iter().map(|b| *b as i64).collect();
                    crate::world::json_doc(&t)
                        == format!("{{\"ok\":true,\"names\":[\"height\",\"xdim\",\"encoding\"],\"height\":{},\"xdim\":{},\"encoding\":{}}}",
                            json::limbs(s.h as u128), json::limbs(s.x as u128), json::runs(&v))
                }
                _ => svg_right(&t, s, m),
            },
        },
    };
    pool::called();
    ok
}

fn svg_right(t: &str, s: &Set, m: &[u8]) -> bool {
    let op = |a: u8| {
        let h = (200 * a as i64 + 255) / 510;
        if h == 100 { vec![-1i64, 1_000_000] } else { vec![10_000 * h] }
    };
    let bare = crate::world::without_ns(t, &s.ns);
    let (doc, ns) = match &bare {
        Some(b) => (crate::world::svg_doc(b), &None),
        None => (crate::world::svg_doc(t), &s.ns),
    };
    let wide = json::limbs(s.x as u128 * m.len() as u128);
    let high = json::limbs(s.h as u128);
    let rgb = |c: [u8; 4]| json::nums(&c[..3]);
    for bo in op(s.bg[3]) {
        for fo in op(s.fg[3]) {
            let mut rects = vec![format!("{{\"x\":[],\"y\":[],\"w\":{},\"h\":{},\"fill\":{},\"op\":{}}}", wide, high, rgb(s.bg), bo)];
            for (i, b) in m.iter().enumerate() {
                if *b == 1 {
                    rects.push(format!("{{\"x\":{},\"y\":[],\"w\":{},\"h\":{},\"fill\":{},\"op\":{}}}",
                        json::limbs(s.x as u128 * i as u128), json::limbs(s.x as u128), high, rgb(s.fg), fo));
                }
            }
            let ns = match ns {
                None => "{\"given\":false,\"text\":[]}".to_string(),
                Some(n) => format!("{{\"given\":true,\"text\":{}}}", json::cps(n)),
            };
            let want = format!("{{\"ok\":true,\"root\":\"svg\",\"view\":[[],[],{},{}],\"ns\":{},\"rects\":{},\"other\":0}}", wide, high, ns, json::list(rects));
            if want == doc {
                return true;
            }
        }
    }
    false
}

#[cfg(feature = "image")]
fn image_right(i: &barcoders::generators::image::Image, s: &Set, m: &[u8], file: bool) -> bool {
    use crate::call;
    let there = &crate::world::laid(&Gen::Img(*i), m);
    let buf = match call::error_name(call::guard(|| i.generate_buffer(there))) {
        Ok(b) => b,
        Err(_) => return false,
    };
    if !file {
        let (w, h) = (s.x as usize * m.len(), s.h as usize);
        let dims = if s.rot % 180 == 0 { (w, h) } else { (h, w) };
        if (buf.width() as usize, buf.height() as usize) != dims {
            return false;
        }
        return buf.enumerate_pixels().all(|(px, py, p)| {
            let (px, py) = (px as usize, py as usize);
            // the column of the unrotated picture
            let x = match s.rot {
                90 => py,
                180 => w - 1 - px,
                270 => w - 1 - py,
                _ => px,
            };
            p.0 == if m[x / s.x as usize] == 1 { s.fg } else { s.bg }
        });
    }
    let r = call::error_name(call::guard(|| i.generate(there)));
    if s.kind == "buffer" {
        return call::outcome(&r) == "Generate";
    }
    match r {
        Err(e) => e == "Generate" && (buf.width().max(buf.height()) as u64 > limit(&s.kind) || buf.width().min(buf.height()) == 0),
        Ok(bytes) if crate::world::webp_16384(&bytes).is_some() => crate::world::webp_16384(&bytes) == Some(buf.dimensions()) && s.kind == "webp",
        Ok(bytes) => match crate::world::decoded(&bytes) {
            (f, Some(d)) => {
                f == s.kind
                    && d.dimensions() == buf.dimensions()
                    && d.pixels().zip(buf.pixels()).all(|(a, b)| {
                        if s.kind != "gif" { a == b } else if b.0[3] == 0 { a.0[3] == 0 } else { a.0[..3] == b.0[..3] && a.0[3] == 255 }
                    })
            }
            _ => false,
        },
    }
}

/// What there is to judge about a case.
pub fn session(w: &mut World, s: &Set, m: &[u8], file: bool) {
    w.gen_be("g", s);
    #[cfg(feature = "image")]
    if file {
        w.file("g", m, None);
        return;
    }
    let _ = file;
    w.render("g", m, None);
}

/// The modules of a barcode, as a caller would have them.
fn barcode(ctor: &str, r: &mut Rng) -> Vec<u8> {
    use crate::call;
    let long = r.chance(1, 5);
    let some = move |from: &str, n: usize, r: &mut Rng| -> String {
        let c: Vec<char> = from.chars().collect();
        (0..n).map(|_| *r.pick(&c)).collect()
    };
    let n = if long { r.range(10, 60) } else { r.range(1, 9) };
    let digits = "0123456789";
    let s = match ctor {
        "ean13" => some(digits, 12, r),
        "ean8" => some(digits, 7, r),
        "upca" => some(digits, 11, r),
        "eansupp" => {
            let n = *r.pick(&[2, 5]);
            some(digits, n, r)
        }
        "codabar" => format!("A{}D", some("0123456789-$:/.", n, r)),
        "code11" => some("0123456789-", n, r),
        "code39" | "code39c" | "code93" => some("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%", n, r),
        "itf" | "stf" => some(digits, n, r),
        _ => match r.below(4) {
            0 => format!("\u{c0}{}", some("0123456789ABCXYZ", n, r)),
            1 => format!("\u{106}{}", some(digits, 2 * n, r)),
            2 => format!("\u{181}{}\u{106}{}", some("abcxyz", n, r), some(digits, 4, r)),
            _ => format!("\u{181}{}", some("0123abcxyzABC", n, r)),
        },
    };
    call::make(ctor, &s).and_then(|o| call::encode(&o)).unwrap_or_default()
}

/// Pictures of barcodes in the sizes in which they are drawn.
fn usual(kind: &str, rounds: usize, seed: u64) -> Vec<(Set, Vec<u8>)> {
    let mut r = Rng::new(seed, 919);
    let mut v = vec![];
    for ctor in crate::call::CTORS {
        for h in [1u64, 5, 10, 20, 30, 40, 50, 51, 60, 64, 75, 80, 100, 128, 150, 200, 300, 301, 400, 600] {
            for k in 0..rounds {
                let m = barcode(ctor, &mut r);
                let mut s = Set::new(kind, h, *r.pick(&[1u64, 1, 2, 2, 3, 4, 5, 10]));
                if m.len() as u64 * s.x * h > 200_000 && !["json", "svg"].contains(&kind) {
                    s.x = 1;
                }
                if !["ascii", "json", "svg"].contains(&kind) {
                    s.rot = if k % 2 == 0 { 0 } else { 90 * r.below(4) as u32 };
                }
                if r.chance(1, 3) && !["ascii", "json"].contains(&kind) {
                    s.fg = colour(&mut r);
                    s.bg = colour(&mut r);
                }
                v.push((s, m));
            }
        }
    }
    v
}

/// Every height, x-dimension and turn that somebody would choose, with a few numbers of modules.
fn chosen(kind: &str, file: bool, thorough: bool, seed: u64) -> Vec<(Set, Vec<u8>)> {
    let mut r = Rng::new(seed, 929);
    let image = !["ascii", "json", "svg"].contains(&kind);
    let hs = [1u64, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 25, 30, 32, 40, 48, 50, 60, 64, 72, 75, 80, 90, 96, 99, 100, 101, 120, 127, 128, 129, 144, 150, 160, 180, 200, 240, 250, 255, 256, 257, 300, 320, 333, 350, 360, 400, 450, 480, 500, 512, 600, 640, 700, 720, 750, 768, 800, 900, 960, 999, 1000, 1001, 1023, 1024, 1025, 1080, 1100, 1200, 1280, 1500, 1920, 2000, 2048, 3000, 4000, 4096, 5000, 8192, 10_000];
    let xs: Vec<u64> = (0..=20).chain([24, 25, 30, 32, 40, 48, 50, 60, 64, 72, 75, 80, 90, 96, 100, 120, 128, 144, 150, 200, 250, 255, 256, 300, 400, 500, 512, 600, 1000, 1024, 2000, 4096, 10_000]).collect();
    let room = if thorough { 600_000 } else if kind == "ascii" { 400_000 } else if file { 40_000 } else { 120_000 };
    let mut v = vec![];
    for &h in &hs {
        for &x in &xs {
            for n in [7usize, 40, 67, 95, 120, 211, 333, 777] {
                let cost = match kind {
                    "json" => n as u64,
                    "svg" => n as u64 * 20,
                    _ => n as u64 * h * x,
                };
                if cost > room {
                    continue;
                }
                let n = n + r.below(5) * r.below(2);
                let first = r.below(4) as u32;
                for k in 0..if image && cost < room / 8 { 2 } else { 1 } {
                    let mut s = Set::new(kind, h, x);
                    if image {
                        s.rot = (first + 2 * k + k * r.below(2) as u32) % 4 * 90;
                    }
                    v.push((s, aperiodic(n)));
                }
            }
        }
    }
    // sides that are powers of two, and squares
    for n in [8usize, 16, 32, 64, 128, 256, 512] {
        for x in [1u64, 2, 3, 4, 5, 6, 8, 10, 16, 32] {
            let side = n as u64 * x;
            for h in [4u64, 8, 16, 32, 64, 128, 256, 512, 1024, side, side + 1, side - 1] {
                if side * h > if thorough { 4_000_000 } else if file { 140_000 } else { 600_000 } && !["json", "svg"].contains(&kind) {
                    continue;
                }
                for rot in [0, 90, 180, 270] {
                    if !image && rot > 0 {
                        continue;
                    }
                    let mut s = Set::new(kind, h, x);
                    s.rot = rot;
                    if kind == "svg" && r.chance(1, 2) {
                        s.ns = Some("http://www.w3.org/2000/svg".into());
                    }
                    v.push((s, aperiodic(n)));
                }
            }
        }
    }
    for n in (5..200usize).step_by(5) {
        for x in [1u64, 2, 3, 7] {
            let mut s = Set::new(kind, n as u64 * x, x);
            if image {
                s.rot = 90 * r.below(4) as u32;
            }
            if n as u64 * x < if file { 250 } else { 800 } {
                v.push((s, aperiodic(n)));
            }
        }
    }
    // a grid of colours
    if kind == "svg" || kind == "buffer" && !file {
        let step = if thorough { 15 } else { 17 };
        for k in 0..17u64.pow(4) {
            let c = |i: u32| (k / 17u64.pow(i) % 17 * step).min(255) as u8;
            let mut s = Set::new(kind, 1, 1);
            s.fg = [c(0), c(1), c(2), c(3)];
            s.bg = if r.chance(1, 2) { [255, 255, 255, 255] } else { [c(3), c(0), c(2), c(1)] };
            v.push((s, vec![1, 0]));
        }
    }
    // every number of modules there usually is
    for n in 0..=if image { 900usize } else { 3000 } {
        for x in 1..=3u64 {
            let mut s = Set::new(kind, 1 + r.below(2) as u64, x);
            if image {
                s.rot = 90 * r.below(4) as u32;
            }
            v.push((s, aperiodic(n)));
        }
    }
    v
}

/// Runs the edge cases and `n` random ones for a kind.
pub fn mass(kind: &str, file: bool, n: usize, thorough: bool, seed: u64) -> Acc {
    let mut ed = edges(kind, file, thorough);
    ed.extend(crossed(kind, file, if thorough { 6 } else { 1 }, &mut Rng::new(seed, 909)));
    ed.extend(usual(kind, if thorough { 40 } else { 4 }, seed));
    ed.extend(chosen(kind, file, thorough, seed));
    let mut jobs: Vec<Job<Acc>> = vec![];
    let try_one = move |a: &mut Acc, s: &Set, m: &[u8]| {
        a.drawings += 1;
        a.modules += m.len() as u64;
        if a.settings.len() < 100_000 {
            a.settings.insert(format!("{:?}", s));
        }
        if !right(s, m, file) && a.suspects.len() < 3 {
            a.suspects.push((s.clone(), m.to_vec()));
        }
    };
    for c in ed.chunks(ed.len().div_ceil(256)) {
        let c = c.to_vec();
        jobs.push(Box::new(move |a| c.iter().for_each(|(s, m)| try_one(a, s, m))));
    }
    let per = 500;
    let name = kind.bytes().fold(3u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    for k in 0..n.div_ceil(per) {
        let kind = kind.to_string();
        jobs.push(Box::new(move |a| {
            let mut r = Rng::new(seed, (name << 20) + 2 * k as u64 + file as u64);
            for _ in 0..per {
                let (mut s, mut m) = case(&kind, &mut r);
                if r.chance(1, 6) {
                    let b = barcode(r.pick(&crate::call::CTORS), &mut r);
                    if (b.len() as u64).saturating_mul(s.x).saturating_mul(s.h) < 100_000 || !["ascii", "png", "gif", "webp", "buffer"].contains(&&kind[..]) {
                        m = b;
                        s.h = if r.chance(1, 2) { s.h } else { r.range(1, 100) as u64 };
                    }
                }
                try_one(a, &s, &m);
            }
        }));
    }
    let mut t = Acc::default();
    for a in pool::run(jobs) {
        t.drawings += a.drawings;
        t.modules += a.modules;
        t.suspects.extend(a.suspects);
        t.settings.extend(a.settings);
    }
    t.suspects.sort_by_key(|(s, m)| (m.len() as u64 * s.x.min(1 << 40), m.len(), s.h));
    t.suspects.truncate(8);
    t
}
