//! C18: the same questions in a fresh process, after long histories and among other threads.

use crate::call::{self, Obj};
use crate::checks::Out;
use crate::corpus;
use crate::draw;
use crate::json;
use crate::rng::Rng;
use crate::world::{self, Set};
use crate::Args;
use std::cell::RefCell;
use std::collections::HashMap;
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Item {
    Sym { ctor: String, s: String, flag: Option<bool> },
    Gen { set: Set, mods: Vec<u8>, file: bool },
}

const KINDS: [&str; 7] = ["ascii", "json", "svg", "png", "gif", "webp", "buffer"];

/// Questions come in families of this many, whose members are easily taken for one another.
pub const FAM: usize = 12;
/// Kinds of families: one for each constructor and each generator, and strings given to all constructors.
pub const TYPES: usize = 22;

/// s, with a change of the given sort.
fn variant(ctor: &str, s: &str, how: usize, r: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let lead = usize::from(ctor == "code128");
    let n = v.len();
    let alpha = corpus::alphabet(ctor);
    // a character moved along the alphabet
    let all: Vec<char> = if ctor == "code128" { (' '..='~').collect() } else { alpha.clone() };
    let step = |c: char, d: i64| {
        let i = all.iter().position(|x| *x == c)? as i64 + d;
        all.get(usize::try_from(i).ok()?).copied()
    };
    match how {
        1 => v[lead..].reverse(),
        2 if n > lead + 1 => v[lead..].rotate_left(1),
        3 => v[n - 1] = *r.pick(&alpha),
        4 => v[lead.min(n - 1)] = *r.pick(&alpha),
        5 if n > lead + 1 => {
            let (i, j) = (lead + r.below(n - lead), lead + r.below(n - lead));
            v.swap(i, j)
        }
        // the same beginning, shorter (and so, often, refused)
        6 => v.truncate(n - n / 2),
        7 => v[n / 2] = '\u{e9}',
        // the same sum with alternating weights
        8 if n > lead + 2 => {
            let i = lead + r.below(n - lead - 2);
            v.swap(i, i + 2)
        }
        // the same sum with weights that grow by one
        9 => {
            for _ in 0..40 {
                if v[0] == '\u{0106}' && n > 6 {
                    // pairs of digits
                    let i = 1 + 2 * r.below((n - 1) / 2 - 2);
                    let pair = |i: usize| (v[i] as u32 - 48) * 10 + v[i + 1] as u32 - 48;
                    if v[i..i + 6].iter().all(|c| c.is_ascii_digit()) && pair(i) < 99 && pair(i + 2) > 1 && pair(i + 4) < 99 {
                        for (j, p) in [(i, pair(i) + 1), (i + 2, pair(i + 2) - 2), (i + 4, pair(i + 4) + 1)] {
                            v[j] = char::from(48 + (p / 10) as u8);
                            v[j + 1] = char::from(48 + (p % 10) as u8);
                        }
                        break;
                    }
                } else if n > lead + 2 {
                    let i = lead + r.below(n - lead - 2);
                    if let (Some(a), Some(b), Some(c)) = (step(v[i], 1), step(v[i + 1], -2), step(v[i + 2], 1)) {
                        (v[i], v[i + 1], v[i + 2]) = (a, b, c);
                        break;
                    }
                }
            }
        }
        // the same set of characters, the same beginning and end
        10 if n > lead + 3 => v.swap(lead + 1, n - 2),
        11 if n > lead + 1 => {
            let c = v[lead];
            v.insert(lead, c)
        }
        _ => {}
    }
    v.into_iter().collect()
}

/// A long string, in one character set if it is a Code 128.
fn long(ctor: &str, r: &mut Rng) -> String {
    let n = r.range(25, 70);
    let alpha = corpus::alphabet(ctor);
    match ctor {
        "ean13" | "bookland" | "jan" | "ean8" | "upca" | "eansupp" => corpus::sample(ctor, r),
        "code128" => match r.below(3) {
            0 => std::iter::once('\u{0106}').chain((0..2 * n).map(|_| char::from(48 + r.below(10) as u8))).collect(),
            1 => std::iter::once('\u{0181}').chain((0..n).map(|_| char::from(32 + r.below(95) as u8))).collect(),
            _ => std::iter::once('\u{00c0}').chain((0..n).map(|_| char::from(32 + r.below(64) as u8))).collect(),
        },
        "codabar" => format!("A{}B", (0..n).map(|_| *r.pick(&alpha)).filter(|c| !c.is_ascii_alphabetic()).collect::<String>()),
        _ => (0..n / 2 * 2).map(|_| *r.pick(&alpha)).collect(),
    }
}
/// s, changed somewhere in the middle, or shorter or longer by a little.
fn within(ctor: &str, s: &str, how: usize, r: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    let digits = "0123456789".chars().collect::<Vec<_>>();
    let alpha = if ctor == "code128" { digits } else { corpus::alphabet(ctor) };
    let (from, to) = (n / 3, n - n / 3);
    let at = from + r.below((to - from).max(1));
    let c = *r.pick(&alpha);
    match how {
        0 => {}
        1 | 2 => v[at] = c,
        3 => v.swap(at, from),
        4 => v[from..to].reverse(),
        5 => {
            v.pop();
        }
        6 => {
            v.pop();
            v[at.min(n - 2)] = c;
        }
        7 => {
            v.remove(at);
        }
        8 => return variant(ctor, s, 9, r),
        9 => return variant(ctor, s, 8, r),
        10 => v.insert(at, c),
        _ => {
            v.truncate(n / 2);
            v.pop();
        }
    }
    v.into_iter().collect()
}

/// The k-th question.
pub fn question(seed: u64, k: usize) -> Item {
    let (fam, member) = (k / FAM, k % FAM);
    let mut r = Rng::new(seed, 700_000 + fam as u64);
    let which = fam % TYPES;
    if which < 12 {
        let ctor = call::CTORS[which];
        let mut s = corpus::sample(ctor, &mut r);
        let base = r.below(3);
        if fam / TYPES % 5 >= 3 {
            s = long(ctor, &mut r);
        }
        match (ctor, fam / TYPES % 3) {
            _ if fam / TYPES % 5 >= 3 => {}
            // in one set only
            ("code128", 0) => s = std::iter::once('\u{0181}').chain((0..r.range(4, 12)).map(|_| *r.pick(&['a', 'B', '7', ' ', 'q', '/', 'M']))).collect(),
            ("code128", 1) => s = std::iter::once('\u{0106}').chain((0..2 * r.range(4, 8)).map(|_| *r.pick(&['1', '5', '7', '3']))).collect(),
            _ => {}
        }
        if ctor.starts_with("code39") {
            // members 2i and 2i + 1 differ in the flag
            let how = [0, 3, 4, 8, 9, 1][member / 2];
            let s = if fam / TYPES % 5 >= 3 { within(ctor, &s, how, &mut Rng::new(seed, 800_000 + k as u64 / 2)) } else { variant(ctor, &s, how, &mut Rng::new(seed, 800_000 + k as u64 / 2)) };
            let first = (ctor == "code39c") ^ (base == 0);
            return Item::Sym { ctor: ctor.into(), s, flag: Some(first ^ (member % 2 == 1)) };
        }
        let s = if fam / TYPES % 5 >= 3 { within(ctor, &s, member, &mut r) } else { variant(ctor, &s, member, &mut r) };
        return Item::Sym { ctor: ctor.into(), s, flag: None };
    }
    if which >= 19 {
        // one string, all constructors
        let pools: [&[char]; 3] = [
            &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'],
            &['0', '1', '5', '9', '-', '$', ':', '/', '.', '+', 'A', 'B', 'C', 'D'],
            &['0', '7', 'A', 'Z', 'Q', ' ', '%', 'B', 'D', '-'],
        ];
        let p = pools[which - 19];
        let n = *r.pick(&[2usize, 4, 5, 7, 8, 11, 12, 13, 6, 10]);
        let mut s: String = (0..n).map(|_| *r.pick(p)).collect();
        if which == 19 && r.chance(2, 3) {
            // right for the retail code of that length
            s = match n {
                7 | 8 => corpus::sample("ean8", &mut r),
                11 => corpus::sample("upca", &mut r),
                12 | 13 => corpus::sample("ean13", &mut r),
                _ => s,
            };
        }
        return Item::Sym { ctor: call::CTORS[member].into(), s, flag: None };
    }
    let mut kind = KINDS[which - 12];
    let (mut set, mut mods) = draw::case(kind, &mut r);
    mods.truncate(120);
    if mods.is_empty() {
        mods = vec![1, 0];
    }
    set.h = set.h.min(60);
    if kind != "svg" && kind != "json" {
        set.x = set.x.min(6);
    }
    match fam / TYPES % 4 {
        // as small as can be, turned
        1 => {
            (set.h, set.x) = (1, 1);
            mods.truncate(12);
        }
        3 => {
            set.h = 1;
            mods.truncate(30);
        }
        _ => {}
    }
    let n = mods.len();
    let inner = fam / TYPES % 4 >= 2 && n > 8;
    match member {
        // a bar moved to the right and another to the left, by as much
        1 | 2 | 3 if inner => {
            for _ in 0..200 {
                let (i, j, d) = (1 + r.below(n - 2), 1 + r.below(n - 2), 1 + r.below(3));
                if i + d < n - 1 && j > d && i + d != j - d && i != j && mods[i] == 1 && mods[j] == 1 && mods[i + d] == 0 && mods[j - d] == 0 {
                    (mods[i], mods[j], mods[i + d], mods[j - d]) = (0, 0, 1, 1);
                    break;
                }
            }
        }
        // others in the middle
        4 | 5 if inner => {
            let (i, j) = (n / 3 + r.below(n / 3), n / 3 + r.below(n / 3));
            mods.swap(i, j);
            mods[n / 2] ^= 1;
        }
        1 => mods.reverse(),
        2 => mods.rotate_left(1),
        3 => {
            mods[n - 1] ^= 1;
        }
        4 => set.x = set.x.checked_add(1).unwrap_or(7),
        5 => set.h = set.h.checked_add(1).unwrap_or(7),
        6 => {
            mods.truncate(n.div_ceil(2));
            set.fg[0] ^= 1;
        }
        7 => set.bg[2] ^= 64,
        8 => std::mem::swap(&mut set.fg, &mut set.bg),
        9 => set.fg[3] ^= 128,
        10 => mods.extend([0, 1, 0]),
        11 if which >= 15 => {
            kind = KINDS[3 + (which - 15 + 1) % 4];
            set.kind = kind.into();
        }
        11 => set.ns = set.ns.map(|t| t + "x").or(Some("urn:x".into())),
        _ => {}
    }
    // the limits of SVG's numbers
    if kind == "svg" {
        set.x = set.x.min(u32::MAX as u64);
    }
    let file = ["png", "gif", "webp"].contains(&kind) && r.chance(1, 3);
    Item::Gen { set, mods, file }
}
/// The same question with the flag the other way.
fn mate(i: &Item, k: usize) -> Option<usize> {
    match i {
        Item::Sym { flag: Some(_), .. } => Some(k ^ 1),
        _ => None,
    }
}

fn bytes(r: Result<Vec<u8>, &'static str>) -> String {
    match r {
        Ok(b) => format!("ok:{:016x}:{}", call::digest(&b), b.len()),
        Err(e) => e.to_string(),
    }
}

/// A live object for a question, if it has one.
pub enum Live {
    Barcode(Obj),
    Generator(world::Gen),
    Refused(&'static str),
}

pub fn bring(i: &Item) -> Live {
    match i {
        Item::Sym { ctor, s, flag } => match call::make(ctor, s) {
            Err(e) => Live::Refused(e),
            Ok(mut o) => {
                if let (Obj::Code39(b), Some(f)) = (&mut o, flag) {
                    b.checksum = *f;
                }
                Live::Barcode(o)
            }
        },
        Item::Gen { set, .. } => Live::Generator(world::gen_of(set)),
    }
}
fn generate<T: AsRef<[u8]>>(g: &world::Gen, file: bool, mods: T) -> String {
    bytes(generated(g, file, mods))
}
fn generated<T: AsRef<[u8]>>(g: &world::Gen, file: bool, mods: T) -> Result<Vec<u8>, &'static str> {
    let _ = file;
    match g {
        world::Gen::Ascii(a) => call::error_name(call::guard(|| a.generate(mods))).map(String::into_bytes),
        world::Gen::Json(a) => call::error_name(call::guard(|| a.generate(mods))).map(String::into_bytes),
        world::Gen::Svg(a) => call::error_name(call::guard(|| a.generate(mods))).map(String::into_bytes),
        #[cfg(feature = "image")]
        world::Gen::Img(a) => {
            if file {
                call::error_name(call::guard(|| a.generate(mods)))
            } else {
                call::error_name(call::guard(|| a.generate_buffer(mods))).map(|b| {
                    let mut v = b.width().to_le_bytes().to_vec();
                    v.extend_from_slice(b.as_raw());
                    v
                })
            }
        }
    }
}
fn answer(l: &Live, i: &Item) -> Result<Vec<u8>, &'static str> {
    match (l, i) {
        (Live::Refused(e), _) => Err(e),
        (Live::Barcode(o), _) => call::encode(o),
        (Live::Generator(g), Item::Gen { mods, file, .. }) => generated(g, *file, mods),
        _ => unreachable!(),
    }
}
pub fn ask(l: &Live, i: &Item) -> String {
    match (l, i) {
        (Live::Refused(e), _) => e.to_string(),
        (Live::Barcode(o), _) => bytes(call::encode(o)),
        (Live::Generator(g), Item::Gen { mods, file, .. }) => generate(g, *file, mods),
        _ => unreachable!(),
    }
}

thread_local! {
    /// The place where arguments are laid, one after the other.
    static PLACE: RefCell<(String, Vec<u8>)> = RefCell::new((String::with_capacity(1 << 14), Vec::with_capacity(1 << 14)));
}
/// The same question, with the argument where the one before it lay.
pub fn ask_there(l: Option<&Live>, i: &Item) -> String {
    let (mut text, mut place) = PLACE.with(|p| p.take());
    let v = match i {
        Item::Sym { ctor, s, flag } => {
            text.clear();
            text.push_str(s);
            match call::error_name(call::guard(|| call::construct(ctor, &text[..]))) {
                Err(e) => e.to_string(),
                Ok(mut o) => {
                    if let (Obj::Code39(b), Some(f)) = (&mut o, flag) {
                        b.checksum = *f;
                    }
                    bytes(call::encode(&o))
                }
            }
        }
        Item::Gen { set, mods, file } => {
            place.clear();
            place.extend_from_slice(mods);
            match l {
                Some(Live::Generator(g)) => generate(g, *file, &place[..]),
                _ => generate(&world::gen_of(set), *file, &place[..]),
            }
        }
    };
    PLACE.with(|p| p.replace((text, place)));
    v
}
/// A live generator that is given the settings of another question, where it is.
fn retune(l: &mut Live, i: &Item) -> bool {
    match (l, i) {
        (Live::Generator(g), Item::Gen { set, .. }) => {
            *g = world::gen_of(set);
            true
        }
        _ => false,
    }
}

/// The first calls of a process, made by several threads at once.
pub fn race(a: &Args) {
    let (first, threads): (usize, usize) = (a.at(1).parse().unwrap(), a.at(2).parse().unwrap());
    let seed = a.seed();
    let items: Vec<Item> = (0..FAM).map(|m| question(seed, first / FAM * FAM + m)).collect();
    let ready = AtomicUsize::new(0);
    let said: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (items, ready, said) = (&items, &ready, &said);
            sc.spawn(move || {
                let mut v = Vec::with_capacity(3);
                ready.fetch_add(1, Ordering::SeqCst);
                while ready.load(Ordering::SeqCst) < threads {
                    std::hint::spin_loop();
                }
                for n in 0..3 {
                    let m = (first + t * (1 + first / FAM % 5) + n) % FAM;
                    v.push((m, ask(&bring(&items[m]), &items[m])));
                }
                said.lock().unwrap().extend(v.into_iter().map(|(m, v)| format!("{} {}", first / FAM * FAM + m, v)));
            });
        }
    });
    println!("{}", said.into_inner().unwrap().join("\n"));
}

/// One question in this (fresh) process.
pub fn item(a: &Args) {
    let q = question(a.seed(), a.at(1).parse().unwrap());
    println!("{}", ask(&bring(&q), &q));
}
/// Does something when it is dropped.
struct Finally<F: FnMut()>(F);
impl<F: FnMut()> Drop for Finally<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}
type Last = RefCell<Option<Finally<Box<dyn FnMut()>>>>;
thread_local! {
    static FIRST_MADE: Last = const { RefCell::new(None) };
    static LAST_MADE: Last = const { RefCell::new(None) };
}
/// The answer to a question that is asked under unusual circumstances.
fn ask_oddly(how: usize, i: &Item) -> String {
    let said = std::sync::Arc::new(Mutex::new(String::from("never asked")));
    let tell = |i: &Item| -> Box<dyn FnMut()> {
        let (i, said) = (i.clone(), said.clone());
        Box::new(move || *said.lock().unwrap_or_else(|e| e.into_inner()) = ask(&bring(&i), &i))
    };
    match how % 4 {
        // while the thread unwinds
        0 => {
            let f = tell(i);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _then = Finally(f);
                std::panic::resume_unwind(Box::new("asked to"))
            }));
        }
        // while the thread ends, before and after what the library may have left with it
        n @ 1..=2 => {
            let f = tell(i);
            let i = i.clone();
            let f = std::sync::Mutex::new(Sent(f));
            let _ = std::thread::scope(|sc| {
                sc.spawn(move || {
                    let Sent(f) = f.into_inner().unwrap();
                    if n == 1 {
                        FIRST_MADE.with(|l| *l.borrow_mut() = Some(Finally(f)));
                        ask(&bring(&i), &i);
                    } else {
                        ask(&bring(&i), &i);
                        LAST_MADE.with(|l| *l.borrow_mut() = Some(Finally(f)));
                    }
                })
                .join()
            });
        }
        // on a thread with little room
        _ => {
            let mut f = Sent(tell(i));
            let _ = std::thread::Builder::new().name("t".into()).stack_size(512 << 10).spawn(move || {
                let f = &mut f;
                (f.0)()
            }).map(|t| t.join());
        }
    }
    let v = said.lock().unwrap_or_else(|e| e.into_inner()).clone();
    v
}
struct Sent(Box<dyn FnMut()>);
// what is in it is owned by no one else
unsafe impl Send for Sent {}

/// Many questions, in one of several orders.
pub fn order(a: &Args) {
    let n: usize = a.need("--n").parse().unwrap();
    let p: usize = a.need("--perm").parse().unwrap();
    let mut idx: Vec<usize> = (0..n).collect();
    match p {
        0 => {}
        1 => idx.reverse(),
        _ => {
            let mut r = Rng::new(a.seed(), 31_337 + p as u64);
            for i in (1..n).rev() {
                idx.swap(i, r.below(i + 1));
            }
        }
    }
    let mut v = vec![String::new(); n];
    // in some orders other things happen first, and in between
    let mut r = Rng::new(a.seed(), 31_300 + p as u64);
    if p >= 2 {
        for w in 0..24 {
            disturb(w, &mut r);
        }
    }
    // in one of them everything that will be asked about is made first, and stays
    let crowd: Vec<Live> = if p == 3 { (0..n).map(|k| bring(&question(a.seed(), k))).collect() } else { vec![] };
    for k in idx {
        if p >= 2 && r.chance(1, 300) {
            disturb(r.below(8), &mut r);
        }
        let q = question(a.seed(), k);
        v[k] = if p == 3 && r.chance(1, 2) {
            ask(&crowd[k], &q)
        } else if p >= 3 && r.chance(2, 3) {
            ask_oddly(r.below(4), &q)
        } else {
            ask(&bring(&q), &q)
        };
    }
    println!("{}", v.join("\n"));
}

/// The n-th of the many small questions of one kind: all short texts, or all short sequences of modules.
fn small(kind: &str, n: usize) -> Option<Item> {
    let nth = |alpha: &[char], mut n: usize, most: u32| -> Option<String> {
        let a = alpha.len();
        for len in 1..=most {
            if n < a.pow(len) {
                return Some((0..len).rev().map(|p| alpha[n / a.pow(p) % a]).collect());
            }
            n -= a.pow(len);
        }
        None
    };
    if KINDS.contains(&kind) {
        let set = Set { kind: kind.into(), h: 2, x: 1, fg: [0, 0, 0, 255], bg: [255, 255, 255, 255], ns: None, rot: 0 };
        let mods = nth(&['0', '1'], n, 16)?.bytes().map(|b| b - 48).collect();
        return Some(Item::Gen { set, mods, file: matches!(kind, "png" | "gif" | "webp") });
    }
    let alpha = corpus::alphabet(kind);
    let s = match kind {
        "ean13" => format!("{:012}", n),
        "ean8" => format!("{:07}", n),
        "upca" => format!("{:011}", n),
        "eansupp" => match n {
            0..100 => format!("{:02}", n),
            100..100_100 => format!("{:05}", n - 100),
            _ => return None,
        },
        // a set, and up to two characters in it
        "code128" => {
            let per = alpha.len() + alpha.len() * alpha.len();
            format!("{}{}", ['\u{c0}', '\u{181}', '\u{106}'].get(n / per)?, nth(&alpha, n % per, 2)?)
        }
        _ => nth(&alpha, n, 6)?,
    };
    Some(Item::Sym { ctor: kind.into(), s, flag: None })
}
/// One of them in this (fresh) process.
pub fn text(a: &Args) {
    let q = small(&a.at(1), a.at(2).parse().unwrap()).unwrap();
    println!("{}", ask(&bring(&q), &q));
}
/// All of them, forwards, backwards or in disorder.
pub fn texts(a: &Args) {
    let (kind, p) = (a.at(1), a.need("--perm"));
    let n: usize = a.need("--n").parse().unwrap();
    let n = (0..n).take_while(|k| small(&kind, *k).is_some()).count();
    let mut idx: Vec<usize> = (0..n).collect();
    match &p[..] {
        "0" => {}
        "1" => idx.reverse(),
        _ => {
            let mut r = Rng::new(a.seed(), 31_400 + n as u64);
            for i in (1..n).rev() {
                idx.swap(i, r.below(i + 1));
            }
        }
    }
    let mut v = vec![String::new(); n];
    // in disorder everything is made before anything is asked
    let mut made: Vec<Option<Live>> = if p == "2" { (0..n).map(|k| Some(bring(&small(&kind, k).unwrap()))).collect() } else { vec![] };
    for k in idx {
        let q = small(&kind, k).unwrap();
        let l = made.get_mut(k).and_then(|l| l.take()).unwrap_or_else(|| bring(&q));
        v[k] = ask(&l, &q);
    }
    println!("{}", v.join("\n"));
}

fn fresh(seed: u64, k: usize) -> String {
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["item", &k.to_string(), "--seed", &seed.to_string()])
        .output()
        .expect("own process");
    assert_ne!(o.status.code(), Some(101), "{}", String::from_utf8_lossy(&o.stderr));
    if !o.status.success() {
        return "died".into();
    }
    String::from_utf8_lossy(&o.stdout).trim().to_string()
}

struct Boom;
impl AsRef<str> for Boom {
    fn as_ref(&self) -> &str {
        std::panic::resume_unwind(Box::new("asked to"))
    }
}
impl AsRef<[u8]> for Boom {
    fn as_ref(&self) -> &[u8] {
        std::panic::resume_unwind(Box::new("asked to"))
    }
}
/// Uses the library itself while it is being looked at.
struct Nested<'a> {
    inner: &'a Item,
    seen: &'a Mutex<Vec<String>>,
    text: String,
    mods: Vec<u8>,
}
impl AsRef<str> for Nested<'_> {
    fn as_ref(&self) -> &str {
        let v = ask(&bring(self.inner), self.inner);
        self.seen.lock().unwrap().push(v);
        &self.text
    }
}
impl AsRef<[u8]> for Nested<'_> {
    fn as_ref(&self) -> &[u8] {
        let v = ask(&bring(self.inner), self.inner);
        self.seen.lock().unwrap().push(v);
        &self.mods
    }
}

/// Things that must leave no mark: panicking and failing calls, dropped and changed objects.
fn disturb(which: usize, r: &mut Rng) {
    use barcoders::generators::{ascii::ASCII, json::JSON, svg::SVG};
    let ctor = *r.pick(&call::CTORS);
    match which % 8 {
        0 => {
            let _ = call::guard(|| call::construct(ctor, Boom));
        }
        1 => {
            let _ = call::guard(|| SVG::new(3).generate(Boom));
            let _ = call::guard(|| JSON::new().generate(Boom));
            let _ = call::guard(|| ASCII::new().generate(Boom));
        }
        #[cfg(feature = "image")]
        2 => {
            use barcoders::generators::image::Image;
            let _ = call::guard(|| Image::png(4).generate(Boom));
            let _ = call::guard(|| Image::image_buffer(4).generate([1, 0, 1]));
            let _ = call::guard(|| Image::gif(1).generate(vec![1u8; 70_000]));
        }
        3 => {
            let _ = call::make(ctor, "\u{1f4a9}");
            let _ = call::make(ctor, "");
            let _ = call::make(ctor, &"x".repeat(400));
        }
        4 => {
            // no modules at all: after a few good ones, a value that is neither bar nor space
            let mut m = draw::modules(r);
            m.truncate(40);
            let bad = *r.pick(&[2u8, 3, 9, 48, 49, 127, 128, 255]);
            let i = r.below(m.len() + 1);
            m.insert(i, bad);
            let x = r.range(1, 3);
            let _ = call::guard(|| ASCII { height: 2, xdim: x }.generate(&m));
            let _ = call::guard(|| JSON { height: 2, xdim: x }.generate(&m));
            let _ = call::guard(|| SVG::new(3).xdim(x as u32).generate(&m));
            #[cfg(feature = "image")]
            {
                use barcoders::generators::image::Image;
                let _ = call::guard(|| Image::png(2).generate(&m));
                let _ = call::guard(|| Image::gif(2).generate(&m));
                let _ = call::guard(|| Image::webp(2).generate(&m));
                let _ = call::guard(|| Image::image_buffer(2).generate_buffer(&m));
            }
        }
        5 => {
            // a large one
            let m = draw::aperiodic(r.range(2000, 9000));
            let _ = call::guard(|| ASCII { height: 1, xdim: 2 }.generate(&m));
            let _ = call::guard(|| SVG::new(3).generate(&m));
            #[cfg(feature = "image")]
            {
                use barcoders::generators::image::{Color, Image, Rotation};
                let _ = call::guard(|| Image::image_buffer(2).generate_buffer(&m));
                let _ = call::guard(|| Image::image_buffer(3000).generate_buffer(&m[..9]));
                if r.chance(1, 3) {
                    let _ = call::guard(|| Image::ImageBuffer { height: 1, xdim: 1, rotation: Rotation::Ninety, foreground: Color::black(), background: Color::white() }.generate_buffer(draw::aperiodic(70_001)));
                    let _ = call::guard(|| Image::png(40_000).generate(&m[..5]));
                    let _ = call::guard(|| Image::image_buffer(1200).generate_buffer(&m[..1800]));
                }
            }
            let s: String = (0..200).map(|_| *r.pick(&['1', '7', '3'])).collect();
            let _ = call::make(ctor, &s).map(|o| call::encode(&o));
        }
        6 => {
            if let Ok(Obj::Code39(mut b)) = call::make("code39", "CHANGING") {
                b.checksum = true;
                let _ = b.encode();
            }
        }
        _ => {
            let s = corpus::sample(ctor, r);
            let _ = call::make(ctor, &s);
        }
    }
}

fn key(k: usize) -> String {
    format!("q{}", k)
}
fn base_ev(k: usize, v: &str) -> String {
    format!("{{\"op\":\"base\",\"key\":\"{}\",\"val\":{}}}", key(k), json::quote(v))
}
fn ask_ev(k: usize, v: &str) -> String {
    format!("{{\"op\":\"ask\",\"key\":\"{}\",\"val\":{}}}", key(k), json::quote(v))
}

fn refs(ks: &[usize], base: &[String]) -> Vec<String> {
    ks.iter().map(|k| base_ev(*k, &base[*k])).collect()
}

struct Ctx {
    seed: u64,
    items: Vec<Item>,
    base: Vec<String>,
}
impl Ctx {
    fn families(&self) -> usize {
        self.items.len() / FAM
    }
    /// Some families whole.
    fn some(&self, r: &mut Rng, how_many: usize) -> Vec<usize> {
        let mut v = vec![];
        for _ in 0..how_many {
            let f = r.below(self.families());
            v.extend(f * FAM..f * FAM + FAM);
        }
        v.sort();
        v.dedup();
        v
    }

    /// A history on one thread.
    fn history(&self, picks: &[usize], steps: usize, r: &mut Rng) -> Vec<String> {
        let mut ev = refs(picks, &self.base);
        let mut live: HashMap<usize, Live> = HashMap::new();
        let mut last = picks[0];
        for _ in 0..steps {
            // often a neighbour of the last question
            let k = if r.chance(1, 2) { *r.pick(picks) } else { last / FAM * FAM + (last % FAM + r.below(3)) % FAM };
            last = k;
            let item = &self.items[k];
            match r.below(15) {
                12 => {
                    let v = ask_there(live.get(&k), item);
                    ev.push(ask_ev(k, &v));
                }
                13 | 14 => {
                    // a generator with the settings of another question for a while
                    let m = k / FAM * FAM + r.below(FAM);
                    let l = live.entry(k).or_insert_with(|| bring(item));
                    if retune(l, &self.items[m]) {
                        let v = if r.chance(1, 2) { ask(l, &self.items[m]) } else { ask_there(Some(l), &self.items[m]) };
                        ev.push(ask_ev(m, &v));
                        retune(l, item);
                    }
                    let v = ask(l, item);
                    ev.push(ask_ev(k, &v));
                }
                0 => disturb(r.below(8), r),
                1 => {
                    live.remove(&k);
                }
                2 => {
                    // asked from inside another call
                    let seen = Mutex::new(vec![]);
                    let nested = Nested { inner: item, seen: &seen, text: "1234567".into(), mods: vec![1, 0, 1] };
                    let other = *r.pick(picks);
                    match &self.items[other] {
                        Item::Sym { ctor, .. } => {
                            let _ = call::guard(|| call::construct(ctor, &nested));
                        }
                        Item::Gen { set, .. } => {
                            let _ = generate(&world::gen_of(set), false, &nested);
                        }
                    }
                    for v in seen.into_inner().unwrap_or_default() {
                        ev.push(ask_ev(k, &v));
                    }
                }
                3..=5 => {
                    let v = ask(&bring(item), item);
                    ev.push(ask_ev(k, &v));
                }
                6 | 7 => {
                    // the flag changed, asked, and changed back
                    let l = live.entry(k).or_insert_with(|| bring(item));
                    if let (Live::Barcode(Obj::Code39(_)), Some(m)) = (&*l, mate(item, k)) {
                        turn(l);
                        let v = ask(l, item);
                        ev.push(ask_ev(m, &v));
                        turn(l);
                    }
                    let v = ask(l, item);
                    ev.push(ask_ev(k, &v));
                }
                _ => {
                    let l = live.entry(k).or_insert_with(|| bring(item));
                    let v = ask(l, item);
                    ev.push(ask_ev(k, &v));
                }
            }
        }
        ev
    }

    /// Threads with nothing in common that do the same kind of thing as fast as they can, for a while.
    fn rush(&self, picks: &[usize], threads: usize, time: Duration, bad: &mut HashMap<usize, String>) -> u64 {
        // what is right is known from elsewhere
        let want: Vec<Option<Result<Vec<u8>, &'static str>>> = picks.iter().map(|k| {
            let v = answer(&bring(&self.items[*k]), &self.items[*k]);
            (bytes(v.clone()) == self.base[*k]).then_some(v)
        }).collect();
        let start = std::sync::Barrier::new(threads);
        let wrong: Mutex<HashMap<usize, String>> = Mutex::new(HashMap::new());
        let n = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (want, start, wrong, n) = (&want, &start, &wrong, &n);
                sc.spawn(move || {
                    let i = t % picks.len();
                    let item = &self.items[picks[i]];
                    let l = bring(item);
                    start.wait();
                    let end = std::time::Instant::now() + time;
                    let mut rounds = 0;
                    while std::time::Instant::now() < end {
                        for j in 0..32 {
                            let v = if j % 4 == 3 { answer(&bring(item), item) } else { answer(&l, item) };
                            if want[i].as_ref() != Some(&v) {
                                wrong.lock().unwrap().entry(picks[i]).or_insert(bytes(v));
                                return;
                            }
                        }
                        rounds += 32;
                    }
                    n.fetch_add(rounds, Ordering::Relaxed);
                });
            }
        });
        for (k, v) in wrong.into_inner().unwrap() {
            if v != self.base[k] {
                bad.entry(k).or_insert(v);
            }
        }
        n.into_inner() as u64
    }

    /// Many threads, which share objects and make their own.
    fn threads(&self, picks: &[usize], threads: usize, steps: usize, noted: usize, round: usize, bad: &mut HashMap<usize, String>) -> Vec<String> {
        let clock = AtomicUsize::new(0);
        let log: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
        let wrong: Mutex<HashMap<usize, String>> = Mutex::new(HashMap::new());
        #[cfg(feature = "share")]
        let shared: Vec<Live> = picks.iter().map(|k| bring(&self.items[*k])).collect();
        let start = std::sync::Barrier::new(threads);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (clock, log, wrong, start) = (&clock, &log, &wrong, &start);
                #[cfg(feature = "share")]
                let shared = &shared;
                sc.spawn(move || {
                    let mut r = Rng::new(self.seed, 9_000 + 64 * round as u64 + t as u64);
                    let mut mine = vec![];
                    start.wait();
                    for step in 0..steps {
                        let i = r.below(picks.len());
                        let k = picks[i];
                        let item = &self.items[k];
                        if step < noted {
                            mine.push((clock.fetch_add(1, Ordering::SeqCst), format!("{{\"op\":\"begin\",\"t\":\"t{}\",\"o\":\"o{}\",\"key\":\"{}\"}}", t, k, key(k))));
                        }
                        // shared objects and own ones
                        #[cfg(feature = "share")]
                        let v = match r.below(4) {
                            0 | 1 => ask(&shared[i], item),
                            2 => ask_there(Some(&shared[i]), item),
                            _ => ask(&bring(item), item),
                        };
                        #[cfg(not(feature = "share"))]
                        let v = if r.chance(1, 2) { ask_there(None, item) } else { ask(&bring(item), item) };
                        if step < noted {
                            mine.push((clock.fetch_add(1, Ordering::SeqCst), format!("{{\"op\":\"end\",\"t\":\"t{}\",\"val\":{}}}", t, json::quote(&v))));
                        }
                        if v != self.base[k] {
                            wrong.lock().unwrap().entry(k).or_insert(v);
                        }
                        if r.chance(1, 200) {
                            disturb(r.below(8), &mut r);
                        }
                    }
                    log.lock().unwrap().extend(mine);
                });
            }
        });
        for (k, v) in wrong.into_inner().unwrap() {
            bad.entry(k).or_insert(v);
        }
        let mut log = log.into_inner().unwrap();
        log.sort();
        let mut ev = refs(picks, &self.base);
        ev.extend(log.into_iter().map(|x| x.1));
        ev
    }
}

/// The flag the other way.
fn turn(l: &mut Live) {
    if let Live::Barcode(Obj::Code39(b)) = l {
        b.checksum = !b.checksum;
    }
}

/// The questions and the answers of fresh processes.
fn fresh_all(seed: u64, n: usize) -> Ctx {
    let base: Vec<String> = {
        let jobs = (0..16).map(|p| {
            let j: crate::pool::Job<Vec<String>> = Box::new(move |a: &mut Vec<String>| {
                for k in p * n / 16..(p + 1) * n / 16 {
                    a.push(fresh(seed, k));
                }
            });
            j
        }).collect();
        crate::pool::run(jobs).into_iter().flatten().collect()
    };
    Ctx { seed, items: (0..n).map(|k| question(seed, k)).collect(), base }
}

pub fn check(out: &mut Out, deep: bool, seed: u64) {
    let n = FAM * TYPES * if deep { 12 } else { 2 };
    let c = fresh_all(seed, n);
    out.add("fresh_processes", n as u64);
    out.add("answers_that_are_bars_or_pictures", c.base.iter().filter(|v| v.starts_with("ok")).count() as u64);
    let mut bad: HashMap<usize, String> = HashMap::new();
    let session = |out: &mut Out, ev: Vec<String>| out.trace.push(format!("{{\"sid\":{},\"ev\":[{}]}}", out.trace.len(), ev.join(",")));

    // histories in this process, on one thread: first while nothing else has happened
    let mut r = Rng::new(seed, 515);
    for f in 0..c.families() {
        let picks: Vec<usize> = (f * FAM..f * FAM + FAM).collect();
        let ev = c.history(&picks, 40, &mut r);
        session(out, ev);
    }
    for _ in 0..if deep { 300 } else { 40 } {
        let picks = c.some(&mut r, 4);
        let ev = c.history(&picks, 60, &mut r);
        session(out, ev);
    }

    // the same, many more times, compared here
    let mut asked = 0u64;
    for round in 0..if deep { 300 } else { 50 } {
        let mut idx: Vec<usize> = (0..n).collect();
        if round % 3 > 0 {
            for i in (1..n).rev() {
                // within families, or all over
                let j = if round % 3 == 1 { i / FAM * FAM + r.below(i % FAM + 1) } else { r.below(i + 1) };
                idx.swap(i, j);
            }
        }
        for &k in &idx {
            if r.chance(1, 50) {
                disturb(r.below(8), &mut r);
            }
            let item = &c.items[k];
            let mut l = bring(item);
            let mut see = |k: usize, v: String| {
                asked += 1;
                if v != c.base[k] {
                    bad.entry(k).or_insert(v);
                }
            };
            if let (true, Some(m)) = (matches!(l, Live::Barcode(_)) && r.chance(1, 3), mate(item, k)) {
                turn(&mut l);
                see(m, ask(&l, item));
                turn(&mut l);
            }
            for _ in 0..1 + r.below(2) {
                see(k, ask(&l, item));
            }
            see(k, ask_there(Some(&l), item));
            let m = k / FAM * FAM + r.below(FAM);
            if retune(&mut l, &c.items[m]) {
                see(m, ask_there(Some(&l), &c.items[m]));
            }
        }
    }

    // the same object asked very often, and the same thing made very often
    {
        let times = if deep { 400_000 } else { 66_500 };
        let mut picks = vec![];
        for t in 0..TYPES - 3 {
            let mut ks: Vec<usize> = (t..c.families()).step_by(TYPES).flat_map(|f| f * FAM..f * FAM + FAM).filter(|k| c.base[*k].starts_with("ok")).collect();
            ks.sort_by_key(|k| c.base[*k].split(':').nth(2).and_then(|l| l.parse::<u64>().ok()).unwrap_or(0));
            picks.extend(ks.first());
        }
        let c = &c;
        let jobs = picks.iter().map(|&k| {
            let j: crate::pool::Job<(u64, Option<(usize, String)>)> = Box::new(move |a: &mut (u64, Option<(usize, String)>)| {
                let item = &c.items[k];
                let file = matches!(item, Item::Gen { file: true, .. });
                let l = bring(item);
                for n in 0..if file { times / 20 } else { times } {
                    let v = ask(&l, item);
                    a.0 += 1;
                    let w = if n % 4 == 0 { ask(&bring(item), item) } else { v.clone() };
                    for v in [v, w] {
                        if v != c.base[k] {
                            a.1 = Some((k, v));
                            return;
                        }
                    }
                }
            });
            j
        }).collect();
        for (n, b) in crate::pool::run(jobs) {
            asked += n;
            if let Some((k, v)) = b {
                bad.entry(k).or_insert(v);
            }
        }
    }

    // calls that fail, very often, each followed by all sorts of questions
    {
        let times = if deep { 140_000 } else { 70_000 };
        let mut failed = 0u64;
        let fails: usize = 7 + 3 * call::CTORS.len();
        for f in 0..fails {
            let n = if f < 4 { 300 } else { times };
            for i in 0..n {
                failed += 1;
                match f {
                    0 => {
                        let _ = call::guard(|| call::construct(call::CTORS[i % call::CTORS.len()], Boom));
                    }
                    1 => {
                        use barcoders::generators::{ascii::ASCII, json::JSON, svg::SVG};
                        let _ = call::guard(|| SVG::new(3).generate(Boom));
                        let _ = call::guard(|| JSON::new().generate(Boom));
                        let _ = call::guard(|| ASCII::new().generate(Boom));
                        let _ = call::guard(|| ASCII::new().generate([0, 1, 2]));
                    }
                    #[cfg(feature = "image")]
                    2 => {
                        use barcoders::generators::image::Image;
                        let _ = call::guard(|| Image::png(4).generate(Boom));
                        let _ = call::guard(|| Image::image_buffer(4).generate_buffer(Boom));
                    }
                    #[cfg(feature = "image")]
                    3 => {
                        use barcoders::generators::image::Image;
                        let _ = call::guard(|| Image::gif(65_536).generate([1u8]));
                        let _ = call::guard(|| Image::webp(16_385).generate([1u8]));
                    }
                    #[cfg(feature = "image")]
                    4 => {
                        use barcoders::generators::image::Image;
                        let _ = call::guard(|| Image::image_buffer(1).generate([1u8]));
                    }
                    #[cfg(feature = "image")]
                    5 => {
                        use barcoders::generators::image::Image;
                        let g = [Image::png(0), Image::gif(0), Image::webp(0), Image::png(3)][i % 4];
                        let _ = call::guard(|| g.generate(if i % 4 == 3 { &[][..] } else { &[1u8][..] }));
                    }
                    #[cfg(feature = "image")]
                    6 => {
                        use barcoders::generators::image::*;
                        let g = Image::PNG { height: 1, xdim: u32::MAX, rotation: Rotation::Zero, foreground: Color::black(), background: Color::white() };
                        let _ = call::guard(|| g.generate([1u8, 0]));
                    }
                    #[cfg(not(feature = "image"))]
                    2..=6 => {}
                    _ => {
                        let k = f - 7;
                        let _ = call::make(call::CTORS[k / 3], [["", "\u{1f4a9}"][i % 2], "!!!\u{e9}?!!!", "123456789012"][k % 3]);
                    }
                }
            }
            let picks: Vec<usize> = (0..3 * TYPES).map(|t| ((r.below(c.families() / TYPES) * TYPES + t % TYPES) * FAM + r.below(FAM)).min(c.items.len() - 1)).collect();
            for k in picks {
                let (item, base) = (&c.items[k], &c.base[k]);
                if base.split(':').nth(2).map(|l| l.len() > 5).unwrap_or(false) {
                    continue;
                }
                let v = ask(&bring(item), item);
                asked += 1;
                if v != *base {
                    bad.entry(k).or_insert(v);
                }
            }
        }
        out.add("failing_calls", failed);
    }

    // thousands of threads, one after another and a few at a time
    {
        let lives = if deep { 70_000 } else { 4_500 };
        let mut picks = vec![];
        for t in 0..TYPES - 3 {
            let mut ks: Vec<usize> = (t..c.families()).step_by(TYPES).flat_map(|f| f * FAM..f * FAM + FAM).filter(|k| c.base[*k].starts_with("ok")).collect();
            ks.sort_by_key(|k| c.base[*k].split(':').nth(2).and_then(|l| l.parse::<u64>().ok()).unwrap_or(0));
            picks.extend(ks.into_iter().take(2));
        }
        let found = std::sync::Mutex::new(vec![]);
        let (c, picks, found) = (&c, &picks, &found);
        for round in 0..lives / 6 {
            std::thread::scope(|sc| {
                for j in 0..6 {
                    sc.spawn(move || {
                        for (i, &k) in picks.iter().enumerate() {
                            // the files take longer
                            let file = matches!(c.items[k], Item::Gen { file: true, .. });
                            if i % 2 != (round + j) % 2 || file && round % 20 != 0 && round + 50 < lives / 6 {
                                continue;
                            }
                            let v = ask(&bring(&c.items[k]), &c.items[k]);
                            if v != c.base[k] {
                                found.lock().unwrap().push((k, v));
                            }
                        }
                    });
                }
            });
            if !found.lock().unwrap().is_empty() {
                break;
            }
        }
        for (k, v) in found.lock().unwrap().drain(..) {
            bad.entry(k).or_insert(v);
        }
        asked += (lives * picks.len() / 2) as u64;
        out.add("threads_lived", lives as u64);
    }

    // a crowd of live objects of one kind, of which half are then dropped
    {
        let many = if deep { 400_000 } else { 70_000 };
        let c = &c;
        let jobs = (0..TYPES - 3).map(|t| {
            let j: crate::pool::Job<(u64, Option<(usize, String)>)> = Box::new(move |a: &mut (u64, Option<(usize, String)>)| {
                let mut ks: Vec<usize> = (t..c.families()).step_by(TYPES).flat_map(|f| f * FAM..f * FAM + FAM).filter(|k| c.base[*k].starts_with("ok")).collect();
                ks.sort_by_key(|k| c.base[*k].split(':').nth(2).and_then(|l| l.parse::<u64>().ok()).unwrap_or(0));
                ks.truncate(7);
                if ks.is_empty() {
                    return;
                }
                let file = ks.iter().any(|k| matches!(c.items[*k], Item::Gen { .. }));
                let mut all: Vec<Option<Live>> = (0..many).map(|i| Some(bring(&c.items[ks[i % ks.len()]]))).collect();
                for round in 0..2 {
                    // generators take longer, and there are fewer questions about each
                    for i in (round..many).step_by(if file { 29 } else { 1 }) {
                        let k = ks[i % ks.len()];
                        if let Some(l) = &all[i] {
                            let v = ask(l, &c.items[k]);
                            a.0 += 1;
                            if v != c.base[k] {
                                a.1 = Some((k, v));
                                return;
                            }
                        }
                    }
                    all.iter_mut().step_by(2).for_each(|l| *l = None);
                }
            });
            j
        }).collect();
        let mut crowd = 0;
        for (n, b) in crate::pool::run(jobs) {
            crowd += n;
            if let Some((k, v)) = b {
                bad.entry(k).or_insert(v);
            }
        }
        asked += crowd;
        out.add("crowd", crowd);
    }

    // the first calls of processes, made by several threads at once
    {
        let (reps, threads) = if deep { (400, 8) } else { (30, 6) };
        let mut n = 0;
        for rep in 0..reps {
            for f in 0..TYPES {
                let first = (f + TYPES * (rep % 2)) * FAM + rep % FAM;
                if first >= c.items.len() || c.base[first / FAM * FAM].split(':').nth(2).map(|l| l.len() > 5).unwrap_or(false) {
                    continue;
                }
                let o = Command::new(std::env::current_exe().unwrap())
                    .args(["race", &first.to_string(), &threads.to_string(), "--seed", &seed.to_string()])
                    .output()
                    .expect("own process");
                n += 1;
                if !o.status.success() {
                    bad.entry(first).or_insert("died".into());
                }
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    if let Some((k, v)) = l.split_once(' ') {
                        let k: usize = k.parse().unwrap();
                        asked += 1;
                        if v != c.base[k] {
                            bad.entry(k).or_insert(v.into());
                        }
                    }
                }
            }
        }
        out.add("racing_processes", n);
    }

    // threads: families taken anywhere, and families of one kind
    let (threads, steps) = if deep { (24, 6000) } else { (12, 2500) };
    let mut round = 0;
    for _ in 0..if deep { 24 } else { 4 } {
        let picks = c.some(&mut r, 3);
        let ev = c.threads(&picks, threads, steps, 40, round, &mut bad);
        session(out, ev);
        asked += (threads * steps) as u64;
        round += 1;
    }
    for t in 0..TYPES {
        let mut picks = vec![];
        for f in (t..c.families()).step_by(TYPES).take(4) {
            // not the ones that take long
            picks.extend((f * FAM..f * FAM + FAM).filter(|k| c.base[*k].split(':').nth(2).map(|l| l.len() < 5).unwrap_or(true)));
        }
        if picks.is_empty() {
            continue;
        }
        let steps = steps / if deep { 1 } else { 2 };
        let ev = c.threads(&picks, threads, steps, 8, round, &mut bad);
        session(out, ev);
        asked += (threads * steps) as u64;
        round += 1;
    }
    // as fast as possible: different things of one kind, with short answers
    let mut rushed = 0;
    for t in 0..TYPES {
        let mut ks: Vec<usize> = (t..c.families()).step_by(TYPES).flat_map(|f| f * FAM..f * FAM + FAM).filter(|k| c.base[*k].starts_with("ok")).collect();
        ks.sort_by_key(|k| c.base[*k].split(':').nth(2).and_then(|l| l.parse::<u64>().ok()).unwrap_or(0));
        let mut seen = std::collections::HashSet::new();
        ks.retain(|k| seen.insert(&c.base[*k]));
        ks.truncate(8);
        if !ks.is_empty() {
            rushed += c.rush(&ks, 8, Duration::from_millis(if deep { 4000 } else { 400 }), &mut bad);
        }
    }
    out.add("rushed", rushed);
    out.add("asked", asked);

    // whole processes that ask the same questions in different orders
    let many = FAM * TYPES * if deep { 400 } else { 40 };
    let perms: Vec<Vec<String>> = {
        let jobs = (0..if deep { 6 } else { 4 }).map(|p: usize| {
            let j: crate::pool::Job<Vec<String>> = Box::new(move |a: &mut Vec<String>| {
                let mut c = Command::new(std::env::current_exe().unwrap());
                match p {
                    1 => {
                        c.env_clear();
                    }
                    2 => {
                        c.envs([("LANG", "tr_TR.UTF-8"), ("LC_ALL", "ar_SA.UTF-8"), ("TZ", "Asia/Kathmandu"), ("NO_COLOR", "1"), ("DEBUG", "1"), ("HOME", "/"), ("USER", "nobody")]).current_dir("/");
                    }
                    _ => {}
                }
                let o = c
                    .args(["order", "--n", &many.to_string(), "--perm", &p.to_string(), "--seed", &(seed + 1).to_string()])
                    .output()
                    .expect("own process");
                assert_ne!(o.status.code(), Some(101), "{}", String::from_utf8_lossy(&o.stderr));
                *a = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
                a.resize(many, "died".into());
            });
            j
        }).collect();
        crate::pool::run(jobs)
    };
    out.add("orders", perms.len() as u64);
    out.add("ordered_questions", many as u64);
    out.add("ordered_answers_that_are_bars_or_pictures", perms[0].iter().filter(|v| v.starts_with("ok")).count() as u64);
    let mut differing = 0;
    for k in 0..many {
        if perms.iter().any(|p| p[k] != perms[0][k] || p[k] == "died") {
            differing += 1;
            if differing > 6 {
                break;
            }
            let b = fresh(seed + 1, k);
            let mut ev = vec![base_ev(k, &b)];
            ev.extend(perms.iter().map(|p| ask_ev(k, &p[k])));
            out.suspects.push(format!("{{\"sid\":{},\"what\":{},\"ev\":[{}]}}", k, json::quote(&format!("{:?}", question(seed + 1, k))), ev.join(",")));
        }
    }

    // all short texts of each kind, in processes of their own, in different orders
    let few = if deep { 1_200_000 } else { 40_000 };
    let kinds: Vec<&str> = call::CTORS.iter().copied().chain(KINDS).collect();
    let own = |args: &[String]| {
        let o = Command::new(std::env::current_exe().unwrap()).args(args).output().expect("own process");
        assert_ne!(o.status.code(), Some(101), "{}", String::from_utf8_lossy(&o.stderr));
        let mut v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
        if !o.status.success() {
            v.push("died".into());
        }
        v
    };
    let answers: Vec<Vec<String>> = {
        let own = &own;
        let jobs = kinds.iter().flat_map(|kind| (0..3).map(move |p| (*kind, p))).map(|(kind, p)| {
            let few = if matches!(kind, "png" | "gif" | "webp") { few / 8 } else { few };
            let j: crate::pool::Job<Vec<String>> = Box::new(move |a: &mut Vec<String>| {
                *a = own(&["texts".into(), kind.into(), "--n".into(), few.to_string(), "--perm".into(), p.to_string(), "--seed".into(), seed.to_string()]);
            });
            j
        }).collect();
        crate::pool::run(jobs)
    };
    for (t, kind) in kinds.iter().enumerate() {
        let of = &answers[3 * t..3 * t + 3];
        out.add("short_texts", of[0].len() as u64);
        out.add("short_texts_drawn", of[0].iter().filter(|v| v.starts_with("ok")).count() as u64);
        let n = of.iter().map(|a| a.len()).max().unwrap();
        let none = "died".to_string();
        for k in (0..n).filter(|k| of.iter().any(|a| a.get(*k) != of[0].get(*k) || a.get(*k) == Some(&none))).take(2) {
            if let Some(q) = small(kind, k) {
                let b = own(&["text".into(), kind.to_string(), k.to_string()]).concat();
                let k = 10_000_000 + 2_000_000 * t + k;
                let mut ev = vec![base_ev(k, &b)];
                ev.extend(of.iter().map(|a| ask_ev(k, a.get((k - 10_000_000) % 2_000_000).unwrap_or(&none))));
                out.suspects.push(format!("{{\"sid\":{},\"what\":{},\"ev\":[{}]}}", k, json::quote(&format!("{:?}", q)), ev.join(",")));
            }
        }
    }

    let mut bad: Vec<_> = bad.into_iter().collect();
    bad.sort();
    for (k, v) in bad.into_iter().take(6) {
        out.suspects.push(format!("{{\"sid\":{},\"what\":{},\"ev\":[{},{}]}}", k, json::quote(&format!("{:?}", c.items[k])), base_ev(k, &c.base[k]), ask_ev(k, &v)));
    }
}

// ---------------------------------------------------------------- schedules from TLC
/// An argument that, when the library looks at it, says so and waits to be let go on.
struct Gate {
    arrived: Sender<()>,
    go: Mutex<Receiver<()>>,
    text: String,
    mods: Vec<u8>,
}
impl Gate {
    fn stop(&self) {
        let _ = self.arrived.send(());
        let _ = self.go.lock().unwrap().recv_timeout(Duration::from_secs(60));
    }
}
impl AsRef<str> for &Gate {
    fn as_ref(&self) -> &str {
        self.stop();
        &self.text
    }
}
impl AsRef<[u8]> for &Gate {
    fn as_ref(&self) -> &[u8] {
        self.stop();
        &self.mods
    }
}

enum Order {
    /// A held call; a live object for generators.
    Hold(usize, Option<Arc<Live>>, Sender<()>, Receiver<()>),
    Live(usize, Arc<Live>),
    Anew(usize),
    Disturb(usize, u64),
}

fn worker(items: Arc<Vec<Item>>, orders: Receiver<Order>, answers: Sender<String>) {
    for o in orders {
        let v = match o {
            Order::Hold(k, live, arrived, go) => {
                let gate = Gate {
                    arrived,
                    go: Mutex::new(go),
                    text: match &items[k] { Item::Sym { s, .. } => s.clone(), _ => String::new() },
                    mods: match &items[k] { Item::Gen { mods, .. } => mods.clone(), _ => vec![] },
                };
                match (&items[k], live.as_deref()) {
                    (Item::Sym { ctor, flag, .. }, _) => match call::error_name(call::guard(|| call::construct(ctor, &gate))) {
                        Err(e) => e.to_string(),
                        Ok(mut b) => {
                            if let (Obj::Code39(b), Some(f)) = (&mut b, flag) {
                                b.checksum = *f;
                            }
                            bytes(call::encode(&b))
                        }
                    },
                    (Item::Gen { file, .. }, Some(Live::Generator(g))) => generate(g, *file, &gate),
                    (Item::Gen { set, file, .. }, _) => generate(&world::gen_of(set), *file, &gate),
                }
            }
            Order::Live(k, l) => ask(&l, &items[k]),
            Order::Anew(k) => ask(&bring(&items[k]), &items[k]),
            Order::Disturb(n, seed) => {
                disturb(n, &mut Rng::new(seed, 4242));
                String::new()
            }
        };
        if answers.send(v).is_err() {
            break;
        }
    }
}

/// Replays schedules of overlapping calls: calls held inside the library while others are made.
#[cfg(feature = "share")]
pub fn schedules(a: &Args) {
    let seed = a.seed();
    let c = fresh_all(seed, FAM * TYPES * 2);
    let items = Arc::new(c.items.clone());
    let text = std::fs::read_to_string(a.at(1)).expect("scripts");
    let mut out = vec![];
    for (si, l) in text.lines().filter(|l| !l.trim().is_empty()).enumerate() {
        let j = json::parse(l).expect("script");
        let fam = si % c.families();
        // the eight names stand for members of one family, or of two
        let q = |o: &str| -> usize {
            let o: usize = o.parse().unwrap_or(0);
            let f = if si / c.families() % 2 == 1 && o % 2 == 1 { (fam + 7) % c.families() } else { fam };
            f * FAM + (o + 5 * (si / c.families())) % FAM
        };
        let mut names: Vec<usize> = (0..8).map(|o| q(&o.to_string())).collect();
        names.extend(names.clone().iter().filter_map(|k| mate(&c.items[*k], *k)));
        names.sort();
        names.dedup();
        let mut ev = refs(&names, &c.base);
        struct Worker {
            orders: Sender<Order>,
            answers: Receiver<String>,
            go: Option<Sender<()>>,
            key: usize,
            late: bool,
        }
        let mut ws: HashMap<String, Worker> = HashMap::new();
        let mut live: HashMap<String, Arc<Live>> = HashMap::new();
        let mut stuck = false;
        for e in j.get("ev").arr() {
            let (o, t) = (e.get("o").str(), e.get("t").str());
            if !t.is_empty() && !ws.contains_key(t) {
                let (orders, rx) = channel();
                let (tx, answers) = channel();
                let items = items.clone();
                std::thread::spawn(move || worker(items, rx, tx));
                ws.insert(t.into(), Worker { orders, answers, go: None, key: 0, late: false });
            }
            let begin = |k: usize| format!("{{\"op\":\"begin\",\"t\":\"{}\",\"o\":\"o{}\",\"key\":\"{}\"}}", t, k, key(k));
            let end = |v: &str| format!("{{\"op\":\"end\",\"t\":\"{}\",\"val\":{}}}", t, json::quote(v));
            // a call that waits for a held one: the held ones are let go on, and the schedule is over
            let mut wait = |ws: &HashMap<String, Worker>, t: &str| -> Option<String> {
                match ws[t].answers.recv_timeout(Duration::from_secs(3)) {
                    Ok(v) => Some(v),
                    Err(_) => {
                        stuck = true;
                        None
                    }
                }
            };
            match e.get("op").str() {
                "bring" => {
                    live.insert(o.into(), Arc::new(bring(&c.items[q(o)])));
                }
                "drop" => {
                    live.remove(o);
                }
                "twist" => {
                    let k = q(o);
                    if let (Some(Some(l)), Some(m)) = (live.get_mut(o).map(Arc::get_mut), mate(&c.items[k], k)) {
                        turn(l);
                        let v = ask(l, &c.items[k]);
                        turn(l);
                        if !matches!(l, Live::Refused(_)) {
                            ev.push(ask_ev(m, &v));
                        }
                    }
                }
                "begin" => {
                    let k = q(o);
                    let (there, arrived) = channel();
                    let (go, gone) = channel();
                    ev.push(begin(k));
                    let w = ws.get_mut(t).unwrap();
                    w.key = k;
                    w.go = Some(go);
                    let _ = w.orders.send(Order::Hold(k, live.get(o).cloned(), there, gone));
                    // until it is inside, or over without having looked
                    if arrived.recv_timeout(Duration::from_secs(3)) == Err(RecvTimeoutError::Timeout) {
                        stuck = true;
                    }
                }
                "end" => {
                    let w = ws.get_mut(t).unwrap();
                    // it may look more than once
                    if let Some(go) = w.go.take() {
                        for _ in 0..64 {
                            let _ = go.send(());
                        }
                        if let Some(v) = wait(&ws, t) {
                            ev.push(end(&v));
                        }
                    }
                }
                op @ ("live" | "anew") => {
                    let k = q(o);
                    ev.push(begin(k));
                    let order = match live.get(o) {
                        Some(l) if op == "live" => Order::Live(k, l.clone()),
                        _ => Order::Anew(k),
                    };
                    let _ = ws[t].orders.send(order);
                    if let Some(v) = wait(&ws, t) {
                        ev.push(end(&v));
                    }
                }
                "disturb" => {
                    let _ = ws[t].orders.send(Order::Disturb(e.get("n").int() as usize, seed + ev.len() as u64));
                    let _ = wait(&ws, t);
                }
                _ => {}
            }
            if stuck {
                break;
            }
        }
        // whatever is still held is let go on, and answers
        for w in ws.values_mut() {
            if let Some(go) = w.go.take() {
                for _ in 0..64 {
                    let _ = go.send(());
                }
                w.late = true;
            }
        }
        let mut left: Vec<_> = ws.iter().filter(|(_, w)| w.late).collect();
        left.sort_by_key(|x| x.0);
        for (t, w) in left {
            match w.answers.recv_timeout(Duration::from_secs(100)) {
                Ok(v) => ev.push(format!("{{\"op\":\"end\",\"t\":\"{}\",\"val\":{}}}", t, json::quote(&v))),
                Err(_) => {
                    let _ = std::fs::write("hung.txt", format!("this call did not return: {:?}\n", c.items[w.key]));
                    std::process::exit(7);
                }
            }
        }
        out.push(format!("{{\"sid\":{},\"ev\":[{}]}}", si, ev.join(",")));
    }
    std::fs::write(a.at(2), out.join("\n") + "\n").unwrap();
}
#[cfg(not(feature = "share"))]
pub fn schedules(a: &Args) {
    let _ = std::fs::write(a.at(2), "");
}
