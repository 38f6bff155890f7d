//! Replays sessions (from TLC, or an old replay file) on the library.  The arguments come
//! from the file, the results from the calls.

use crate::call;
use crate::json::{self, J};
use crate::pool;
use crate::world::{Set, World};
use crate::Args;

fn text(j: &J) -> String {
    j.arr().iter().filter_map(|c| char::from_u32(c.int() as u32)).collect()
}
fn big(j: &J) -> u64 {
    match j {
        J::Arr(v) => v.iter().rev().fold(0u64, |n, l| n.wrapping_mul(10_000).wrapping_add(l.int() as u64)),
        n => n.int() as u64,
    }
}
fn mods(j: &J) -> Vec<u8> {
    j.ints().chunks(2).flat_map(|p| std::iter::repeat_n(p[0] as u8, p[1] as usize)).collect()
}
fn rgba(j: &J) -> [u8; 4] {
    let v = j.ints();
    [v[0] as u8, v[1] as u8, v[2] as u8, v[3] as u8]
}

fn digits(e: &J) -> Vec<u8> {
    e.get("digits").ints().iter().map(|d| *d as u8).collect()
}

pub fn perform(w: &mut World, e: &J) {
    let op = e.get("op").str();
    let (o, g) = (e.get("o").str(), e.get("g").str());
    match op {
        "new" | "made" => {
            w.new_obj(op, o, e.get("ctor").str(), &text(e.get("s")));
        }
        "flag" if w.has(o) => w.set_flag(o, e.get("v").bool()),
        "held" if w.has(o) => w.held(o),
        "alike" if w.has(o) => w.alike(o),
        "put" if w.has(o) => w.put(o, &digits(e)),
        "together" => w.together(o, e.get("sym").str(), &digits(e)),
        "drop" => w.drop_obj(o),
        "enc" | "encif" | "values" | "shape" | "scan" if w.has(o) => {
            let _ = w.encode(op, o);
        }
        "twin" => w.twin(e.get("ctor").str(), &text(e.get("s")), &text(e.get("t"))),
        "gnew" => w.gen_new(g, e.get("kind").str(), big(e.get("h"))),
        "gbe" => {
            let mut s = Set::new(e.get("kind").str(), big(e.get("h")), big(e.get("x")));
            s.fg = rgba(e.get("fg"));
            s.bg = rgba(e.get("bg"));
            s.rot = e.get("rot").int() as u32;
            if e.get("ns").get("given").bool() {
                s.ns = Some(text(e.get("ns").get("text")));
            }
            w.gen_be(g, &s);
        }
        "gset" => match e.get("field").str() {
            f @ ("x" | "h") => w.gen_num(g, f, big(e.get("v"))),
            f @ ("fg" | "bg") => w.gen_colour(g, f, rgba(e.get("v"))),
            "rot" => w.gen_turn(g, e.get("v").int() as u32),
            _ => w.gen_ns(g, &text(e.get("v"))),
        },
        "gnamed" => w.gen_named(g, e.get("field").str(), e.get("name").str()),
        "gcopy" => w.gen_copy(g, e.get("g2").str()),
        "gsee" => w.gen_see(g),
        "ascii" | "json" | "svg" | "pic" => w.render(g, &mods(e.get("mods")), None),
        #[cfg(feature = "image")]
        "file" => w.file(g, &mods(e.get("mods")), None),
        "read" if w.has(o) => {
            if let Ok(m) = call::encode(&w.objs[o]) {
                #[cfg(feature = "image")]
                if let crate::world::Gen::Img(_) = w.gens[g] {
                    if e.get("file").bool() {
                        w.file(g, &m, Some(o));
                        return;
                    }
                }
                w.render(g, &m, Some(o));
            }
        }
        _ => {}
    }
}

pub fn main(a: &Args) {
    pool::watch(".".into());
    let t = std::fs::read_to_string(a.at(1)).expect("scripts");
    let mut out = vec![];
    for l in t.lines().filter(|l| !l.trim().is_empty()) {
        let j = json::parse(l).expect("script");
        let mut w = World::new();
        for e in j.get("ev").arr() {
            pool::calling("a replayed session", l);
            perform(&mut w, e);
            pool::called();
        }
        out.push(w.take(out.len()));
    }
    std::fs::write(a.at(2), out.join("\n") + "\n").unwrap();
}
