//! Recorded sessions for the symbologies: a sample of every class of input, judged by TLC.

use crate::gen::{Gen, ODD};
use crate::oracle::Tables;
use crate::rng::Rng;
use crate::walk::{base_of, Walker};
use crate::world::World;

pub fn strings(t: &Tables, ctor: &str, g: &Gen, n: usize, seed: u64) -> Vec<String> {
    let rules = &t.ctors[base_of(ctor)];
    let mut r = Rng::new(seed, 77 + ctor.bytes().map(|b| b as u64).sum::<u64>());
    let mut v: Vec<String> = vec![];
    // each character of the alphabet, at the start, inside and at the end
    for c in &g.alpha {
        for place in 0..3 {
            let len = if rules.max == 0 { 3 } else if g.retail() || !rules.lens.is_empty() { g.length(&mut r) - 1 } else { r.range(0, 12) };
            let mut s: Vec<char> = g.walk(&mut r, len).chars().collect();
            s.insert([0, s.len().div_ceil(2), s.len()][place], *c);
            v.push(s.into_iter().collect());
        }
        if rules.max == 0 {
            for sel in ['\u{c0}', '\u{181}', '\u{106}'] {
                v.push([sel, *c].iter().collect());
                v.push([sel, '4', *c, '2'].iter().collect());
            }
        }
    }
    for c in ODD {
        for place in 0..3 {
            let len = if rules.max == 0 { 3 } else { g.length(&mut r).saturating_sub(c.len_utf8()) };
            let mut s: Vec<char> = g.walk(&mut r, len).chars().collect();
            s.insert([0, s.len().div_ceil(2), s.len()][place], c);
            v.push(s.into_iter().collect());
        }
    }
    // lengths
    for n in (0..16).chain([17, 20, 21, 22, 23, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 300, 512]) {
        v.push(g.walk(&mut r, n));
        v.push(std::iter::repeat_n(*r.pick(&g.alpha), n).collect());
    }
    for _ in 0..n {
        v.push(g.valid(&mut r));
        v.push(g.near(&mut r));
    }
    v
}

/// Sessions of a few strings each.
pub fn sessions(t: &Tables, w: &Walker, g: &Gen, n: usize, seed: u64, out: &mut Vec<String>) {
    let v = strings(t, w.ctor, g, n, seed);
    for c in v.chunks(8) {
        let mut world = World::new();
        for s in c {
            crate::pool::calling(w.ctor, s);
            w.session(&mut world, s);
            crate::pool::called();
        }
        out.push(world.take(out.len()));
    }
}
