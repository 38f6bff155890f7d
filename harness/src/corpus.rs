//! Inputs that need no tables, and the answers of this build to them (C19).

use crate::call;
use crate::customs;
use crate::json;
use crate::rng::Rng;
use crate::shapes::{self, Set};
use crate::Args;
use std::io::Write;

pub fn alphabet(ctor: &str) -> Vec<char> {
    match ctor {
        "codabar" => "0123456789-$:/.+ABCD".chars().collect(),
        "code11" | "usd8" => "0123456789-".chars().collect(),
        "code39" | "code39c" => "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%".chars().collect(),
        "code93" => "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]".chars().collect(),
        "code128" => (0..128u8).map(char::from).chain("\u{c0}\u{181}\u{106}\u{179}\u{17a}\u{17b}\u{17c}\u{17d}\u{f7}".chars()).collect(),
        _ => ('0'..='9').collect(),
    }
}

/// A string for the constructor, more often good than not.
pub fn sample(ctor: &str, r: &mut Rng) -> String {
    let alpha = alphabet(ctor);
    let n = match ctor {
        "ean13" | "bookland" | "jan" => r.range(12, 13),
        "ean8" => r.range(7, 8),
        "upca" => r.range(11, 12),
        "eansupp" => *r.pick(&[2, 5]),
        _ => match r.below(8) {
            0 => r.range(1, 256),
            1..=3 => r.range(1, 12),
            _ => r.range(1, 40),
        },
    };
    let mut v: Vec<char> = vec![];
    if ctor == "code128" {
        let mut set = r.below(3);
        v.push(['\u{c0}', '\u{181}', '\u{106}'][set]);
        while v.len() < n + 1 {
            if r.chance(1, 8) {
                let to = (set + 1 + r.below(2)) % 3;
                v.push(['\u{c0}', '\u{181}', '\u{106}'][to]);
                set = to;
                continue;
            }
            match set {
                2 => {
                    v.push(char::from(b'0' + r.below(10) as u8));
                    v.push(char::from(b'0' + r.below(10) as u8));
                }
                1 => v.push(char::from(32 + r.below(95) as u8)),
                _ => v.push(char::from(r.below(96) as u8)),
            }
            if r.chance(1, 12) {
                v.push('\u{179}');
            }
        }
    } else {
        let few = r.range(1, alpha.len());
        let off = r.below(alpha.len());
        for _ in 0..n {
            v.push(alpha[(off + r.below(few)) % alpha.len()]);
        }
        // the full retail form needs its check digit: found by asking
        let full = match ctor {
            "ean13" | "bookland" | "jan" => 13,
            "ean8" => 8,
            "upca" => 12,
            _ => 0,
        };
        if full == n && r.chance(4, 5) {
            let mut odd = 0;
            for (i, c) in v[..n - 1].iter().rev().enumerate() {
                odd += (*c as u32 - 48) * if i % 2 == 0 { 3 } else { 1 };
            }
            v[n - 1] = char::from_digit((10 - odd % 10) % 10, 10).unwrap();
        }
    }
    if r.chance(1, 12) {
        let i = r.below(v.len());
        v[i] = *r.pick(&['a', '*', '\u{e9}', '\u{663}', '\u{1f4a9}', '~', '\n', 'Z', '\u{106}']);
    }
    v.into_iter().collect()
}

/// The answer of a construction and an encoding.
pub fn answer(ctor: &str, s: &str) -> String {
    match call::make(ctor, s) {
        Err(e) => e.to_string(),
        Ok(o) => match call::encode(&o) {
            Err(e) => e.to_string(),
            Ok(b) => format!("ok:{:016x}:{}", call::digest(&b), b.len()),
        },
    }
}
#[allow(dead_code)]
fn text(r: Result<Result<String, barcoders::error::Error>, &'static str>) -> String {
    match call::error_name(r) {
        Ok(t) => format!("ok:{:016x}:{}", call::digest(t.as_bytes()), t.len()),
        Err(e) => e.to_string(),
    }
}


/// What this build makes of the settings and the modules; None where it has no such generator.
#[allow(unused_variables)]
fn drawn(s: &Set, m: &[u8], file: bool, setters: bool) -> Option<String> {
    match &s.kind[..] {
        #[cfg(feature = "ascii")]
        "ascii" => {
            use barcoders::generators::ascii::ASCII;
            let g = if setters { ASCII::new() } else { ASCII { height: s.h as usize, xdim: s.x as usize } };
            Some(text(call::guard(|| g.generate(m))))
        }
        #[cfg(feature = "json")]
        "json" => {
            use barcoders::generators::json::JSON;
            let g = if setters { JSON::new() } else { JSON { height: s.h as usize, xdim: s.x as usize } };
            Some(text(call::guard(|| g.generate(m))))
        }
        #[cfg(feature = "svg")]
        "svg" => {
            use barcoders::generators::svg::{Color, SVG};
            let (h, x, fg, bg) = (s.h as u32, s.x as u32, Color::new(s.fg), Color::new(s.bg));
            let g = if setters {
                let g = SVG::new(h).xdim(x).foreground(fg).background(bg);
                match &s.ns {
                    Some(n) => g.xmlns(n.clone()),
                    None => g,
                }
            } else {
                SVG { height: h, xdim: x, foreground: fg, background: bg, xmlns: s.ns.clone() }
            };
            Some(text(call::guard(|| g.generate(m))))
        }
        #[cfg(all(feature = "image", feature = "std"))]
        "png" | "gif" | "webp" | "buffer" => {
            use barcoders::generators::image::{Color, Image, Rotation};
            let (height, xdim, foreground, background) = (s.h as u32, s.x as u32, Color::new(s.fg), Color::new(s.bg));
            let rotation = match s.rot {
                90 => Rotation::Ninety,
                180 => Rotation::OneEighty,
                270 => Rotation::TwoSeventy,
                _ => Rotation::Zero,
            };
            let g = match (&s.kind[..], setters) {
                ("png", true) => Image::png(height),
                ("gif", true) => Image::gif(height),
                ("webp", true) => Image::webp(height),
                (_, true) => Image::image_buffer(height),
                ("png", _) => Image::PNG { height, xdim, rotation, foreground, background },
                ("gif", _) => Image::GIF { height, xdim, rotation, foreground, background },
                ("webp", _) => Image::WEBP { height, xdim, rotation, foreground, background },
                _ => Image::ImageBuffer { height, xdim, rotation, foreground, background },
            };
            Some(if file {
                match call::error_name(call::guard(|| g.generate(m))) {
                    Ok(b) => format!("ok:{:016x}:{}", call::digest(&b), b.len()),
                    Err(e) => e.to_string(),
                }
            } else {
                match call::error_name(call::guard(|| g.generate_buffer(m))) {
                    Ok(b) => format!("ok:{:016x}:{:?}", call::digest(b.as_raw()), b.dimensions()),
                    Err(e) => e.to_string(),
                }
            })
        }
        _ => None,
    }
}

/// Answers, one a line; or many summed up in blocks, of which some may be laid open.
struct Answers<W: Write> {
    out: W,
    open: Vec<String>,
    sums: std::collections::BTreeMap<String, (u64, u64)>,
}
impl<W: Write> Answers<W> {
    fn say(&mut self, key: &str, v: &str) {
        if self.open.is_empty() {
            writeln!(self.out, "{}\t{}", key, v).unwrap();
        }
    }
    fn sum(&mut self, block: &str, key: impl Fn() -> String, v: &str) {
        if self.open.is_empty() {
            let e = self.sums.entry(block.to_string()).or_insert((0, 0));
            e.0 = (e.0.rotate_left(5) ^ call::digest(v.as_bytes())).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            e.1 += 1;
        } else if self.open.iter().any(|b| b == block) {
            writeln!(self.out, "{} in {}\t{}", key(), block.rsplit(' ').next().unwrap(), v).unwrap();
        }
    }
    fn end(mut self) {
        for (b, (d, n)) in &self.sums {
            writeln!(self.out, "{}\t{} answers {:016x}", b, n, d).unwrap();
        }
        self.out.flush().unwrap();
    }
}

pub fn main(a: &Args) {
    let seed = a.seed();
    let n: usize = a.get("--n").and_then(|n| n.parse().ok()).unwrap_or(400);
    let many: usize = a.get("--many").and_then(|n| n.parse().ok()).unwrap_or(0);
    let mut out = Answers {
        out: std::io::BufWriter::new(std::fs::File::create(a.at(0)).unwrap()),
        open: a.get("--open").map(|o| o.split(',').map(|s| s.to_string()).collect()).unwrap_or_default(),
        sums: Default::default(),
    };
    for ctor in call::CTORS.iter().copied().chain(["bookland", "jan", "usd8"]) {
        let mut r = Rng::new(seed, ctor.bytes().fold(11u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64)));
        let mut v: Vec<String> = vec![String::new()];
        for c in alphabet(ctor) {
            v.push(c.to_string());
            for n in [2usize, 5, 7, 11, 12, 19, 20, 21, 64, 100, 255, 256, 257] {
                if n > 21 && c != '9' && c != '%' && c != ' ' && c != '-' && c != ']' {
                    continue;
                }
                let s: String = std::iter::repeat_n(c, n).collect();
                v.push(if ctor == "code128" { format!("\u{181}{}", s) } else { s });
            }
        }
        if ctor == "code128" {
            for (sel, c) in [('\u{181}', '\u{179}'), ('\u{c0}', '\u{1f}'), ('\u{106}', '9'), ('\u{181}', '~')] {
                for n in [300usize, 2000, 6500, 7000, 9500, 20_000] {
                    v.push(format!("{}{}", sel, std::iter::repeat_n(c, n).collect::<String>()));
                }
            }
        }
        for _ in 0..n {
            v.push(sample(ctor, &mut r));
        }
        let key = |s: &str| {
            let k = if s.len() < 100 { json::cps(s) } else { format!("{}...{}", json::cps(&s.chars().take(20).collect::<String>()), call::digest(s.as_bytes())) };
            format!("{} {}", ctor, k)
        };
        if out.open.is_empty() {
            for s in &v {
                out.say(&key(s), &answer(ctor, s));
            }
        }
        // many more, summed up
        let alpha = alphabet(ctor);
        let lead = if ctor == "code128" { "\u{181}" } else { "" };
        for s in (0..alpha.len()).flat_map(|i| (0..alpha.len()).map(move |j| (i, j))).map(|(i, j)| format!("{}{}{}", lead, alpha[i], alpha[j])) {
            out.sum(&format!("{} block pairs", ctor), || key(&s), &answer(ctor, &s));
        }
        if !["ean13", "ean8", "upca", "eansupp", "bookland", "jan"].contains(&ctor) {
            for len in 0..262 {
                let few = r.range(1, alpha.len());
                let s: String = lead.chars().chain((0..len).map(|_| alpha[r.below(few)])).collect();
                out.sum(&format!("{} block lengths", ctor), || key(&s), &answer(ctor, &s));
                let s: String = lead.chars().chain(std::iter::repeat_n(alpha[alpha.len() - 1 - len % alpha.len().min(47)], len)).collect();
                out.sum(&format!("{} block runs", ctor), || key(&s), &answer(ctor, &s));
            }
        }
        for k in 0..if many > 0 { customs::count() } else { 0 } {
            for n in 0..3 {
                let s = sample(ctor, &mut r);
                let head = s.chars().next().filter(|_| ctor == "code128" && n != 1).map_or(0, char::len_utf8);
                let s = format!("{}{}", &s[..head], customs::dressed(k, &s[head..], &mut r));
                out.sum(&format!("{} block customs {}", ctor, k / 200), || key(&s), &answer(ctor, &s));
            }
        }
        for s in if many > 0 { customs::wholes() } else { vec![] } {
            let s = format!("{}{}", lead, s);
            out.sum(&format!("{} block wholes", ctor), || key(&s), &answer(ctor, &s));
        }
        for k in 0..many {
            let mut s = sample(ctor, &mut r);
            if r.chance(1, 6) && !s.is_empty() {
                let mut v: Vec<char> = s.chars().collect();
                let i = r.below(v.len());
                v[i] = *r.pick(&['\u{e9}', 'x', '0', '9', 'A', '\u{ff11}', '\u{1f600}', '\u{0}']);
                s = v.into_iter().collect();
            }
            out.sum(&format!("{} block {}", ctor, k / 500), || key(&s), &answer(ctor, &s));
        }
    }
    // the drawings; sequences and settings are drawn the same way in every build
    for kind in ["ascii", "json", "svg", "png", "gif", "webp", "buffer"] {
        let image = !["ascii", "json", "svg"].contains(&kind);
        let mut r = Rng::new(seed, 424_242 + kind.bytes().map(|b| b as u64).sum::<u64>());
        let key = |s: &Set, m: &[u8], how: &str| {
            format!("{} {}x{} {:?} {:?} {} {:?} {} {} modules {:016x}", kind, s.h, s.x, s.fg, s.bg, s.rot, s.ns.as_ref().map(|n| json::cps(n)), how, m.len(), call::digest(m))
        };
        for k in 0..(n / if image { 4 } else { 1 }) {
            let (s, m) = shapes::case(kind, &mut r);
            let (file, setters) = (image && k % 2 == 0, k % 5 == 0);
            if let (true, Some(v)) = (out.open.is_empty(), drawn(&s, &m, file, setters)) {
                out.say(&key(&s, &m, if setters { "set" } else { "built" }), &v);
            }
        }
        for k in 0..if image { many / 10 } else { many / 2 } {
            let (s, m) = shapes::case(kind, &mut r);
            let (file, setters) = (image && r.chance(1, 3), r.chance(1, 3));
            if let Some(v) = drawn(&s, &m, file, setters) {
                out.sum(&format!("{} block {}", kind, k / 100), || key(&s, &m, if setters { "set" } else { "built" }), &v);
            }
        }
        let e = shapes::edges(kind, true, false);
        let step = if many == 0 { e.len() } else { (e.len() / if image { many / 8 } else { many / 2 }).max(1) };
        for (k, (s, m)) in e.iter().enumerate() {
            // the large ones are for the other checks
            if s.h.saturating_mul(s.x).saturating_mul(m.len() as u64) > if image { 20_000 } else { u64::MAX } || image && k % step != 0 || m.len() > 20_000 {
                continue;
            }
            if let Some(v) = drawn(s, m, false, k % 2 == 0) {
                out.sum(&format!("{} block edges {}", kind, k / 100), || key(s, m, "edge"), &v);
            }
        }
    }
    out.end();
}
