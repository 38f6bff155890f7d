//! Settings and modules to draw, in classes.  Nothing here depends on the library.

use crate::rng::Rng;

/// Settings to build a generator from, or to compare with.
#[derive(Clone, Debug)]
pub struct Set {
    pub kind: String,
    pub h: u64,
    pub x: u64,
    pub fg: [u8; 4],
    pub bg: [u8; 4],
    pub rot: u32,
    pub ns: Option<String>,
}
impl Set {
    pub fn new(kind: &str, h: u64, x: u64) -> Set {
        Set { kind: kind.into(), h, x, fg: [0, 0, 0, 255], bg: [255, 255, 255, 255], rot: 0, ns: None }
    }
}

/// Sequences of modules of many shapes.
pub fn modules(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(40) {
        0 => r.range(300, 1500),
        1..=5 => r.range(60, 300),
        6..=15 => r.range(16, 60),
        _ => r.range(1, 16),
    };
    match r.below(8) {
        6 => {
            // mirrored, doubled, repeated, or the complement behind it
            let w: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
            let m = n / 2;
            let p = r.range(1, 1 + n / 2);
            match r.below(5) {
                0 => w.iter().take(n - m).chain(w.iter().take(m).rev()).copied().collect(),
                1 => w.iter().take(m).chain(w.iter().take(m)).copied().collect(),
                2 => w.iter().take(p).cycle().take(n).copied().collect(),
                3 => w.iter().take(m).copied().chain(w.iter().take(m).map(|b| 1 - b)).collect(),
                _ => w.iter().take(m).copied().chain(w.iter().take(m).rev().map(|b| 1 - b)).collect(),
            }
        }
        7 => {
            // two levels, or few steps
            let k = r.range(1, 4);
            let cuts: Vec<usize> = (0..k).map(|_| r.below(n + 1)).collect();
            let first = r.below(2);
            (0..n).map(|i| ((first + cuts.iter().filter(|c| **c <= i).count()) % 2) as u8).collect()
        }
        0 => {
            let mut v = vec![];
            let mut c = r.below(2) as u8;
            while v.len() < n {
                let k = r.range(1, 9).min(n - v.len());
                v.extend(std::iter::repeat_n(c, k));
                c ^= 1;
            }
            v
        }
        1 => vec![r.below(2) as u8; n],
        2 => (0..n).map(|i| (i % 2) as u8).collect(),
        3 => {
            let mut v = vec![0u8; n];
            let i = r.below(n);
            v[i] = 1;
            v
        }
        _ => (0..n).map(|_| r.below(2) as u8).collect(),
    }
}
/// All sequences of modules of at most n.
pub fn all_modules(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for len in 0..=n {
        for k in 0..1usize << len {
            v.push((0..len).map(|i| (k >> (len - 1 - i) & 1) as u8).collect());
        }
    }
    v
}
pub fn colour(r: &mut Rng) -> [u8; 4] {
    let ends = [0u8, 1, 2, 9, 10, 15, 16, 17, 99, 100, 127, 128, 171, 204, 240, 254, 255];
    let mut c = [0u8; 4];
    for x in c.iter_mut() {
        *x = if r.chance(1, 2) { *r.pick(&ends) } else { r.below(256) as u8 };
    }
    match r.below(6) {
        0 => c[3] = 255,
        1 => c[3] = 0,
        2 => c = [c[0], c[0], c[0], 255],
        _ => {}
    }
    c
}
/// Colours easily mistaken for c: itself, another opacity, other orders, one channel changed, the inverse.
pub fn relatives(c: [u8; 4]) -> Vec<[u8; 4]> {
    let mut v = vec![c];
    for a in [0, 1, 127, 128, 254, 255] {
        v.push([c[0], c[1], c[2], a]);
    }
    v.push([c[1], c[2], c[0], c[3]]);
    v.push([c[2], c[1], c[0], c[3]]);
    v.push([c[3], c[2], c[1], c[0]]);
    v.push([!c[0], !c[1], !c[2], c[3]]);
    for i in 0..3 {
        let mut d = c;
        d[i] ^= 1;
        v.push(d);
    }
    v.push([c[0] >> 1, c[1] >> 1, c[2] >> 1, c[3]]);
    v.push([c[0].swap_bytes().rotate_left(4), c[1].rotate_left(4), c[2].rotate_left(4), c[3]]);
    v
}
pub fn related(c: [u8; 4], r: &mut Rng) -> [u8; 4] {
    if r.chance(1, 3) {
        return [c[0], c[1], c[2], r.below(256) as u8];
    }
    *r.pick(&relatives(c))
}
pub const SVG_NS: &str = "http://www.w3.org/2000/svg";
/// Namespaces that look like something.
pub fn namespaces() -> Vec<String> {
    let mut v: Vec<String> = [
        SVG_NS, "https://www.w3.org/2000/svg", "http://www.w3.org/2000/svg/", "http://www.w3.org/2000/svg#", "http://www.w3.org/2000/SVG",
        "HTTP://www.w3.org/2000/svg", "Http://WWW.W3.ORG/2000/svg", "HTTPS://WWW.W3.ORG/2000/SVG", "http://w3.org/2000/svg",
        "//www.w3.org/2000/svg", "www.w3.org/2000/svg", "http:/www.w3.org/2000/svg", "http:///www.w3.org/2000/svg",
        "http://www.w3.org:80/2000/svg", "https://www.w3.org:443/2000/svg", "http://www.w3.org/2000//svg", "http://www.w3.org/2000/./svg",
        "http://www.w3.org/2000/x/../svg", "http://www.w3.org/2000/sv%67", "http://www.w3.org/2000/%73vg", "http://www.w3.org/2000/svg?",
        "http://www.w3.org/2000/svg?version=1.1", "http://www.w3.org/2000/svg?a=1;b=2", "http://www.w3.org/2000/svg ", " http://www.w3.org/2000/svg",
        "\thttp://www.w3.org/2000/svg\n", "http://www.w3.org/1999/xhtml", "http://www.w3.org/1999/xlink", "http://www.w3.org/2000/xmlns/",
        "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/1998/Math/MathML", "http://www.w3.org/2000/svg-20000303-stylable",
        "http://example.org", "http://example.org/", "http://EXAMPLE.org/A", "ftp://example.org/a", "FTP://x/", "file:///a/b", "mailto:A@b.c",
        "urn:isbn:0451450523", "URN:ISBN:0451450523", "urn:uuid:6E8BC430-9C3A-11D9-9669-0800200C9A66", "tag:w3.org,2000:svg", "data:,", "data:text/plain;base64,AA==",
        "javascript:void", "about:blank", "about:legacy-compat", "none", "null", "None", "undefined", "inherit", "xmlns", "svg", "SVG", "true", "false", "0", "1",
        "a", "A", "\u{c4}", "\u{df}", "\u{130}", "\u{131}", "e\u{301}", "\u{e9}", "\u{212b}", "\u{fb01}", "\u{feff}", "\u{feff}http://www.w3.org/2000/svg",
        "\u{200b}", "\u{a0}", "\u{3000}x\u{3000}", "http://b\u{fc}cher.example/", "http://xn--bcher-kva.example/", "http://x/\u{1f600}",
        "%", "%%", "%41", "%2F", "%2f", "%zz", "{}", "{0}", "{xmlns}", "$1", "\\n", "\\", "\\\\", "'", "''", "<", ">", "a>b", "]]>", "-->", "--", "/*", "//", "/", "/>", "?>", "#", "#svg", ".", "..",
        "a b", "a  b", "a\tb", "a\nb", "a\r\nb", " ", "  ", "\t", "\n", "=", "xmlns=", "xmlns='x'", "viewBox", "a=b", "a='b'", "version='1.1'",
    ].iter().map(|s| s.to_string()).collect();
    // the name itself with each of its characters left out, doubled, in the other case, or another one
    let cs: Vec<char> = SVG_NS.chars().collect();
    for i in 0..cs.len() {
        let mut put = |new: &[char]| {
            let mut c = cs.clone();
            c.splice(i..i + 1, new.iter().cloned());
            v.push(c.into_iter().collect());
        };
        put(&[]);
        put(&[cs[i], cs[i]]);
        put(&['x']);
        put(&[cs[i].to_ascii_uppercase()]);
        put(&[' ', cs[i]]);
        v.push(cs[..i].iter().collect());
        v.push(cs[i..].iter().collect());
    }
    for n in [23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 2048, 2049, 4096, 5000] {
        v.push("u".repeat(n));
        v.push(format!("http://{}", "A/".repeat(n / 2)));
    }
    v
}
pub fn namespace(r: &mut Rng) -> Option<String> {
    match r.below(8) {
        0..=3 => None,
        4 => Some(SVG_NS.into()),
        5 => Some(r.pick(&namespaces()).clone()),
        6 if r.chance(1, 6) => Some(format!("urn:{}", "long/".repeat(r.range(10, 2000)))),
        6 => {
            // the name with a few characters changed
            let mut c: Vec<char> = SVG_NS.chars().collect();
            for _ in 0..r.range(1, 4) {
                let i = r.below(c.len());
                c[i] = *r.pick(&['H', 'S', '/', '0', ' ', 'a', '#', '%', '\u{e9}']);
            }
            Some(c.into_iter().collect())
        }
        _ => {
            let pool: Vec<char> = "\t\n http://w.x?a=1;b='c'>{}%20 #ABZ\u{e9}\u{4e16}\u{1f600}\\\"&<".chars().collect();
            let n = r.range(0, 12);
            Some((0..n).map(|_| *r.pick(&pool)).collect())
        }
    }
}

/// Settings and modules for a kind of generator, sized so that the output stays small.
pub fn case(kind: &str, r: &mut Rng) -> (Set, Vec<u8>) {
    let mut m = modules(r);
    let small = |r: &mut Rng| *r.pick(&[1u64, 1, 1, 2, 2, 3, 4, 5, 7, 8, 10, 16, 31, 33]);
    let odd32 = [0u64, 9, 10, 11, 80, 99, 100, 255, 256, 257, 1000, 9999, 10000, 10001, 65535, 65536, 65537, 99_999_999, 100_000_000,
        2147483647, 2147483648, 4294967295];
    let odd64 = [4294967296u64, 4294967297, 9007199254740993, 9223372036854775807, 9223372036854775808, 18446744073709551615];
    let mut s = Set::new(kind, small(r), small(r));
    match kind {
        "ascii" => {
            if r.chance(1, 30) {
                s.h = *r.pick(&[0u64, 100, 255, 256, 257, 1000, 5000]);
                m.truncate(20);
                s.x = r.range(0, 3) as u64;
            } else if r.chance(1, 30) {
                s.x = *r.pick(&[0u64, 100, 255, 256, 257, 1000, 65536]);
                m.truncate(12);
            } else if r.chance(1, 60) {
                s.h = 0;
            }
            if r.chance(1, 40) {
                m.clear();
            }
        }
        "json" => {
            if r.chance(1, 2) {
                s.h = if r.chance(1, 2) { *r.pick(&odd32) } else { *r.pick(&odd64) };
            }
            if r.chance(1, 2) {
                s.x = if r.chance(1, 2) { *r.pick(&odd32) } else { *r.pick(&odd64) };
            }
            if r.chance(1, 8) {
                s.h = r.next() >> r.below(64);
                s.x = r.next() >> r.below(64);
            }
            if r.chance(1, 40) {
                m.clear();
            }
        }
        "svg" => {
            if r.chance(1, 3) {
                s.h = *r.pick(&odd32);
            }
            if r.chance(1, 3) {
                s.x = *r.pick(&odd32);
            }
            if r.chance(1, 8) {
                s.h = (r.next() as u32 >> r.below(32)) as u64;
                s.x = (r.next() as u32 >> r.below(32)) as u64;
            }
            if r.chance(1, 40) {
                m.clear();
            }
            if r.chance(4, 5) {
                s.fg = colour(r);
                s.bg = colour(r);
            }
            if r.chance(1, 4) {
                s.bg = related(s.fg, r);
            }
            s.ns = namespace(r);
        }
        _ => {
            s.rot = 90 * r.below(4) as u32;
            if r.chance(4, 5) {
                s.fg = colour(r);
                s.bg = if r.chance(1, 12) { s.fg } else { colour(r) };
            }
            if r.chance(1, 4) {
                s.bg = related(s.fg, r);
            } else if r.chance(1, 12) {
                // differ in one channel only
                s.bg = s.fg;
                let i = r.below(4);
                s.bg[i] = s.bg[i].wrapping_add(1 + r.below(255) as u8);
            }
            if m.len() > 200 {
                m.truncate(200);
                s.h = s.h.min(8);
            }
            if r.chance(1, 25) {
                s.h = *r.pick(&[100u64, 255, 256, 257, 500, 1000]);
                m.truncate(10);
            } else if r.chance(1, 25) {
                s.x = *r.pick(&[64u64, 100, 255, 256, 257, 300]);
                m.truncate(10);
                s.h = s.h.min(6);
            }
            if r.chance(1, 50) {
                match r.below(3) {
                    0 => s.h = 0,
                    1 => s.x = 0,
                    _ => m.clear(),
                }
            }
            if s.x * m.len() as u64 * s.h > 300_000 {
                m.truncate(20);
                s.h = s.h.min(12);
            }
        }
    }
    (s, m)
}

/// n modules without a short period.
pub fn aperiodic(n: usize) -> Vec<u8> {
    (0..n).map(|i| ((i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 63) as u8 ^ (i / 3 % 2) as u8).collect()
}

/// Edge cases that are always tried.
pub fn edges(kind: &str, file: bool, thorough: bool) -> Vec<(Set, Vec<u8>)> {
    let mut v = vec![];
    let set = |h: u64, x: u64| Set::new(kind, h, x);
    let image = !["ascii", "json", "svg"].contains(&kind);
    let depth = if file { 6 } else if thorough { 12 } else { 9 };
    for m in all_modules(depth) {
        v.push((set(2, 1), m.clone()));
        if m.len() <= 6 {
            for x in [2, 3] {
                v.push((set(1, x), m.clone()));
            }
            if image {
                for rot in [90, 180, 270] {
                    let mut s = set(3, 2);
                    s.rot = rot;
                    s.fg = [200, 10, 30, 255];
                    v.push((s, m.clone()));
                }
            }
        }
    }
    // modules at every place in a word of memory: a height more is a byte further
    for n in (1..=40).chain([63, 64, 65, 127, 129, 200]) {
        let mut runs = vec![0u8; n];
        (0..n).filter(|i| i / 8 % 2 == 1).for_each(|i| runs[i] = 1);
        for h in 1..=16 {
            v.push((set(h, 1), aperiodic(n)));
            v.push((set(h, 1), runs.clone()));
        }
    }
    // every x-dimension, every height and every number of modules that is usual
    let (most_x, most_h, most_n) = if thorough { (600u64, 1300u64, 1400usize) } else if file { (258, 420, 500) } else { (300, 640, 700) };
    let turned = |mut s: Set, k: u64| {
        if image {
            s.rot = 90 * (k % 4) as u32;
        }
        s
    };
    for x in 0..=most_x {
        v.push((turned(set(1, x), x / 2), aperiodic(95)));
        v.push((turned(set(1 + x % 3, x), x / 3), aperiodic(if file { 45 + x as usize % 40 } else { 45 + x as usize % 200 })));
    }
    for h in 0..=most_h {
        v.push((turned(set(h, 1), h / 2), aperiodic(if file { 33 } else { 60 })));
        v.push((turned(set(h, 2 + h % 3), h / 3), aperiodic(17)));
    }
    for n in 0..=most_n {
        v.push((turned(set(1, 1 + n as u64 % 4), n as u64 / 4), aperiodic(n)));
        v.push((turned(set(3, 1), n as u64 / 2), aperiodic(n)));
    }
    for x in 1..=40u64 {
        for h in 1..=40u64 {
            v.push((turned(set(h, x), x / 2 + h), aperiodic(9)));
        }
    }
    if !["ascii", "json"].contains(&kind) {
        // colours that are nearly the same
        for c in [[0, 0, 0, 255], [255, 255, 255, 255], [200, 10, 30, 255], [200, 10, 30, 90], [7, 7, 7, 0], [0, 0, 0, 0], [1, 2, 3, 4]] {
            for d in relatives(c) {
                for m in [&[1u8, 0, 1, 1][..], &[0, 1], &[1], &[0]] {
                    let mut s = set(2, 2);
                    (s.fg, s.bg) = (c, d);
                    v.push((s, m.to_vec()));
                }
            }
        }
        // every value of every channel
        for a in 0..=255u8 {
            for ch in 0..4 {
                let mut s = set(1, 1);
                s.fg = [11, 22, 33, 255];
                s.bg = [222, 211, 200, 255];
                s.fg[ch] = a;
                v.push((s.clone(), vec![1, 0, 1]));
                s.fg = [11, 22, 33, 255];
                s.bg[ch] = a;
                v.push((s, vec![1, 0, 1]));
            }
        }
    }
    if image {
        // no pixels
        for (h, x) in [(0, 0), (0, 1), (0, 3), (1, 0), (5, 0), (0, 70_000), (70_000, 0)] {
            for m in [&[][..], &[0], &[1], &[1, 0, 1], &aperiodic(400)] {
                for rot in [0, 90, 180, 270] {
                    if h.max(x) > 1000 && m.len() > 1 {
                        continue;
                    }
                    let mut s = set(h, x);
                    s.rot = rot;
                    v.push((s, m.to_vec()));
                }
            }
        }
        for rot in [0, 90, 180, 270] {
            for (h, x) in [(1, 1), (9, 4), (70_000, 1), (3, 2_147_483_647)] {
                let mut s = set(h, x);
                s.rot = rot;
                v.push((s, vec![]));
            }
        }
        // large sides
        let sides: &[u64] = if thorough { &[4095, 4096, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70_000] }
            else { &[4096, 16383, 16384, 16385, 65535, 65536, 65537] };
        for &side in sides {
            for rot in [0, 90] {
                let mut s = set(2, side);
                s.rot = rot;
                v.push((s, vec![1]));
                let mut s = set(side, 1);
                s.rot = rot;
                v.push((s, vec![1, 0]));
            }
            let mut s = set(1, side / 2);
            s.rot = 180;
            v.push((s, vec![0, 1]));
        }
        // large areas
        let areas: &[(usize, u64, u64)] = if thorough { &[(331, 3, 1111), (501, 2, 2100), (97, 11, 2000), (1000, 1, 4097), (17, 60, 4200), (4100, 1, 4100), (211, 20, 4000)] }
            else if file { &[(331, 3, 1111), (97, 11, 2000), (1201, 1, 1009)] } else { &[(331, 3, 1111), (501, 2, 2100), (97, 11, 2000), (1000, 1, 4097), (17, 60, 4200)] };
        for (i, &(n, x, h)) in areas.iter().enumerate() {
            for (j, rot) in [0, 90, 180, 270].into_iter().enumerate() {
                let mut s = set(h, x);
                s.rot = rot;
                s.fg = [20, 60, 230, 255];
                if (i + j) % 3 == 1 {
                    (s.fg, s.bg) = ([20, 60, 230, 90], [0, 0, 0, 0]);
                }
                v.push((s, aperiodic(n)));
            }
        }
        // more pixels than 2^24, 2^25, 2^26
        let mut vast = vec![(3usize, 1400u64, 4200u64, 90u32)];
        if thorough {
            vast.extend([(7, 831, 5800, 0), (7, 600, 8200, 180), (2, 8100, 4200, 270)]);
        }
        for (n, x, h, rot) in vast {
            let mut s = set(h, x);
            s.rot = rot;
            v.push((s, aperiodic(n)));
        }
        // sides of millions
        for (n, x) in [(2usize, 1_048_577u64), (7, 300_001), (5, 840_001), (3, 5_600_001)] {
            for rot in [0, 90] {
                let mut s = set(1, x);
                s.rot = rot;
                v.push((s, aperiodic(n)));
            }
        }
        for h in [1_048_577u64, 2_100_001, 4_200_001] {
            let mut s = set(h, 1);
            s.rot = if h > 3_000_000 { 270 } else { 0 };
            v.push((s, vec![0, 1]));
        }
        // many modules
        for n in [255u64, 256, 257, 1000, 4096, 5000, 10_000, 16_383, 16_385, 20_000, 32_768, 32_769, 40_000, 65_535, 65_537, 70_000] {
            for (i, rot) in [0, 90, 180, 270].into_iter().enumerate() {
                if n > 5000 && !thorough && (n / 7) % 4 != i as u64 {
                    continue;
                }
                let mut s = set(if n < 6000 { 2 } else { 1 }, 1);
                s.rot = rot;
                // no short period, so that modules taken from elsewhere show
                v.push((s, aperiodic(n as usize)));
            }
            if n < 30_000 {
                v.push((set(1, 3), aperiodic(n as usize)));
            }
        }
        for n in [1_048_575usize, 1_048_577, 4_200_001] {
            if n > 4_000_000 && !thorough {
                continue;
            }
            for rot in [0, 90, 180, 270] {
                let mut s = set(1, 1);
                s.rot = rot;
                v.push((s, aperiodic(n)));
            }
        }
    } else {
        for n in [255usize, 256, 257, 1000, 4096, 9999, 10_000, 10_001, 65_535, 65_536, 65_537] {
            if n > 20_000 && !thorough && kind == "svg" {
                continue;
            }
            let m = aperiodic(n);
            v.push((set(1, 1), m.clone()));
            v.push((set(2, 3), m));
        }
        // lines, arrays and texts of more than 2^20, 2^24 characters
        let vast: &[(usize, u64, u64)] = match kind {
            "ascii" => &[(1_048_577, 1, 2), (70_001, 15, 2), (3, 5_600_000, 1), (97, 3, 60_000)],
            "json" => &[(1_048_577, 1, 1), (8_400_000, 3, 3)],
            _ => &[(150_001, 2, 2), (330_001, 1, 1)],
        };
        for &(n, x, h) in if thorough { vast } else { &vast[..vast.len().div_ceil(2)] } {
            v.push((set(h, x), aperiodic(n)));
        }
        if kind == "ascii" {
            for h in [65_535, 65_536, 70_000] {
                v.push((set(h, 1), vec![1, 0]));
            }
            for x in [65_535, 65_537, 70_000] {
                v.push((set(2, x), vec![1, 0, 1]));
            }
            for (n, x, h) in [(331, 3, 1111), (97, 11, 2000), (200, 50, 1000), (5000, 1, 1700)] {
                v.push((set(h, x), aperiodic(n)));
            }
        }
        if kind == "svg" {
            // offsets beyond what floating-point numbers tell apart
            for (n, x) in [(5_000_000usize, 3u64), (8_388_609, 4_294_967_295), (4_194_305, 4_294_967_291), (2_097_153, 4_294_967_295), (70_003, 4_294_967_295), (16_777_259, 1)] {
                if n > 3_000_000 && !thorough && n != 16_777_259 {
                    continue;
                }
                let mut m = vec![0u8; n];
                for i in [1, n / 3, n - 2, n - 1] {
                    m[i] = 1;
                }
                v.push((set(80, x), m));
            }
            for (i, n) in namespaces().into_iter().enumerate() {
                let mut s = set(2, 1);
                s.ns = Some(n);
                if i % 2 == 1 {
                    s.fg = [1, 2, 3, 90];
                }
                v.push((s, [&[1u8, 0, 1, 1][..], &[1], &[0], &[]][i % 4].to_vec()));
            }
            for (n, x) in [(95, 45_210_182), (95, 45_210_183), (95, 50_000_000), (3, 1_431_655_765), (3, 1_431_655_766), (300, 4_294_967_295)] {
                v.push((set(80, x), (0..n).map(|i| ((i + 1) % 2) as u8).collect()));
            }
        }
    }
    v
}

/// Cases in which every two of these meet: a number of modules, their sort, a height, an
/// x-dimension, a pair of colours, a rotation, a namespace.
pub fn crossed(kind: &str, file: bool, rounds: usize, r: &mut Rng) -> Vec<(Set, Vec<u8>)> {
    let image = !["ascii", "json", "svg"].contains(&kind);
    let mut ns = vec![0u64, 1, 2, 3, 16, 95, 200, 333, 1001, 2600, 4097, 10_001, 20_000, 65_537, 200_003];
    let mut hs = vec![0u64, 1, 2, 3, 10, 16, 64, 100, 128, 255, 257, 500, 640, 1000, 1001, 1025, 2000, 2049, 4097, 10_000, 65_537];
    let mut xs = vec![0u64, 1, 2, 3, 4, 5, 8, 12, 16, 24, 32, 64, 100, 128, 256, 257, 300, 1000, 1025, 4097, 65_540];
    if kind == "json" || kind == "svg" {
        hs.extend([80, 99_999, 1 << 24, (1 << 24) + 1, 100_000_000, 2147483648, 4294967295]);
        xs.extend([80, 99_999, 1 << 24, (1 << 24) + 1, 100_000_000, 2147483648, 4294967295]);
    }
    if kind == "json" {
        hs.extend([4294967296, (1 << 53) + 1, 1 << 63, u64::MAX]);
        xs.extend([4294967296, (1 << 53) + 1, 1 << 63, u64::MAX]);
    }
    if kind == "svg" || file {
        ns.retain(|n| *n <= 70_000);
    }
    let colours: [([u8; 4], [u8; 4]); 13] = [
        ([0, 0, 0, 255], [255, 255, 255, 255]),
        ([255, 255, 255, 255], [0, 0, 0, 255]),
        ([200, 10, 30, 255], [1, 2, 3, 255]),
        ([1, 2, 3, 0], [255, 255, 255, 255]),
        ([0, 0, 0, 0], [255, 255, 255, 255]),
        ([0, 0, 0, 255], [255, 255, 255, 0]),
        ([0, 0, 0, 255], [0, 0, 0, 0]),
        ([9, 8, 7, 0], [90, 80, 70, 0]),
        ([20, 60, 230, 128], [240, 60, 20, 254]),
        ([20, 60, 230, 1], [20, 60, 230, 255]),
        ([77, 77, 77, 255], [177, 177, 177, 255]),
        ([5, 6, 7, 255], [5, 6, 7, 255]),
        ([0, 0, 1, 255], [0, 0, 0, 255]),
    ];
    let spaces: [Option<&str>; 4] = [None, Some("http://www.w3.org/2000/svg"), Some(""), Some("urn:a b")];
    let of = [
        ns.len(),
        7,
        hs.len(),
        xs.len(),
        if image || kind == "svg" { colours.len() } else { 1 },
        if image { 4 } else { 1 },
        if kind == "svg" { spaces.len() } else { 1 },
    ];
    // what is written for one case
    let room = if file { 250_000 } else if image { 700_000 } else { 2_000_000 };
    let size = |p: &[usize; 7]| match kind {
        "json" => ns[p[0]],
        "svg" => ns[p[0]] * 20,
        _ => ns[p[0]].max(1).saturating_mul(hs[p[2]].max(1)).saturating_mul(xs[p[3]].max(1)),
    };
    let mut v = vec![];
    for _ in 0..rounds {
        for i in 0..7 {
            for j in i + 1..7 {
                for a in 0..of[i] {
                    for b in 0..of[j] {
                        if of[i] == 1 || of[j] == 1 {
                            continue;
                        }
                        let mut p = [0usize; 7];
                        let mut fits = false;
                        for t in 0..40 {
                            for k in 0..7 {
                                p[k] = r.below(of[k]);
                                // rarely too large: sides are small later on
                                if t > 20 && k < 4 && k != 1 {
                                    p[k] = 1 + r.below(3);
                                }
                            }
                            (p[i], p[j]) = (a, b);
                            if size(&p) <= room {
                                fits = true;
                                break;
                            }
                        }
                        if !fits {
                            continue;
                        }
                        let n = ns[p[0]] as usize;
                        let mut s = Set::new(kind, hs[p[2]], xs[p[3]]);
                        (s.fg, s.bg) = colours[p[4]];
                        s.rot = 90 * p[5] as u32;
                        s.ns = spaces[p[6]].map(|t| t.to_string());
                        let m = match p[1] {
                            0 => vec![1; n],
                            1 => vec![0; n],
                            2 => (0..n).map(|i| (i % 2) as u8).collect(),
                            3 => (0..n).map(|i| (i + 1 == n) as u8).collect(),
                            4 => (0..n).map(|i| (i == 0) as u8).collect(),
                            5 => (0..n).map(|i| (i / 300 % 2) as u8).collect(),
                            _ => aperiodic(n),
                        };
                        v.push((s, m));
                    }
                }
            }
        }
    }
    v
}
