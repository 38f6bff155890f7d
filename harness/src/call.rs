//! Calls into the library under test, with panics turned into results.

use barcoders::error::Error;
use barcoders::sym::{codabar::*, code11::*, code128::*, code39::*, code93::*, ean13::*, ean8::*, ean_supp::*, tf::*, upca::*};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Obj {
    Ean13(EAN13),
    Ean8(EAN8),
    Upca(UPCA),
    Supp(EANSUPP),
    Codabar(Codabar),
    Code11(Code11),
    Code39(Code39),
    Code93(Code93),
    Code128(Code128),
    Tf(TF),
}

pub const CTORS: [&str; 12] = [
    "ean13", "ean8", "upca", "eansupp", "codabar", "code11", "code39", "code39c", "code93", "itf", "stf", "code128",
];

fn name(e: Error) -> &'static str {
    match e {
        Error::Character => "Character",
        Error::Length => "Length",
        Error::Generate => "Generate",
        Error::Checksum => "Checksum",
    }
}

/// The bare call, on any string-like argument.
pub fn construct<T: AsRef<str>>(ctor: &str, s: T) -> Result<Obj, Error> {
    Ok(match ctor {
        "ean13" => Obj::Ean13(EAN13::new(s)?),
        "bookland" => Obj::Ean13(Bookland::new(s)?),
        "jan" => Obj::Ean13(JAN::new(s)?),
        "ean8" => Obj::Ean8(EAN8::new(s)?),
        "upca" => Obj::Upca(UPCA::new(s)?),
        "eansupp" => Obj::Supp(EANSUPP::new(s)?),
        "codabar" => Obj::Codabar(Codabar::new(s)?),
        "code11" => Obj::Code11(Code11::new(s)?),
        "usd8" => Obj::Code11(USD8::new(s)?),
        "code39" => Obj::Code39(Code39::new(s)?),
        "code39c" => Obj::Code39(Code39::with_checksum(s)?),
        "code93" => Obj::Code93(Code93::new(s)?),
        "itf" => Obj::Tf(TF::interleaved(s)?),
        "stf" => Obj::Tf(TF::standard(s)?),
        "code128" => Obj::Code128(Code128::new(s)?),
        c => panic!("no constructor {}", c),
    })
}

pub fn raw_encode(o: &Obj) -> Vec<u8> {
    match o {
        Obj::Ean13(b) => b.encode(),
        Obj::Ean8(b) => b.encode(),
        Obj::Upca(b) => b.encode(),
        Obj::Supp(b) => b.encode(),
        Obj::Codabar(b) => b.encode(),
        Obj::Code11(b) => b.encode(),
        Obj::Code39(b) => b.encode(),
        Obj::Code93(b) => b.encode(),
        Obj::Code128(b) => b.encode(),
        Obj::Tf(b) => b.encode(),
    }
}

/// The digits that two-of-five and add-on values show.
pub fn held(o: &Obj) -> Option<(&'static str, &'static str, Vec<u8>)> {
    Some(match o {
        Obj::Tf(TF::Interleaved(d)) => ("itf", "Interleaved", d.clone()),
        Obj::Tf(TF::Standard(d)) => ("stf", "Standard", d.clone()),
        Obj::Supp(EANSUPP::EAN2(d)) => ("eansupp", "EAN2", d.clone()),
        Obj::Supp(EANSUPP::EAN5(d)) => ("eansupp", "EAN5", d.clone()),
        _ => return None,
    })
}

/// Other digits in the same value: written over where the number is the same, else laid in anew.
pub fn put(o: &mut Obj, digits: &[u8]) -> bool {
    match o {
        Obj::Tf(TF::Interleaved(d)) | Obj::Tf(TF::Standard(d)) | Obj::Supp(EANSUPP::EAN2(d)) | Obj::Supp(EANSUPP::EAN5(d)) => {
            if d.len() == digits.len() {
                d.copy_from_slice(digits);
            } else {
                d.clear();
                d.extend_from_slice(digits);
            }
            true
        }
        _ => false,
    }
}

/// A value put together without its constructor.
pub fn together(sym: &str, digits: &[u8]) -> Obj {
    let d = digits.to_vec();
    match (sym, d.len()) {
        ("itf", _) => Obj::Tf(TF::Interleaved(d)),
        ("stf", _) => Obj::Tf(TF::Standard(d)),
        (_, 2) => Obj::Supp(EANSUPP::EAN2(d)),
        _ => Obj::Supp(EANSUPP::EAN5(d)),
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, &'static str> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| "panic")
}

/// An argument at a place in memory that depends on nothing but the case: the same one
/// when the case is tried again, another one for another case.
pub struct Laid {
    place: Vec<u8>,
    from: usize,
    len: usize,
}
impl Laid {
    pub fn bytes(b: &[u8], salt: u64) -> Laid {
        let mut place = Vec::with_capacity(b.len() + 32);
        let base = place.as_ptr() as usize;
        let want = (digest(b).wrapping_add(salt) % 16) as usize;
        let from = (want + 16 - base % 16) % 16;
        place.resize(from, 1);
        place.extend_from_slice(b);
        place.resize(b.len() + 32, 1);
        Laid { place, from, len: b.len() }
    }
}
impl AsRef<[u8]> for Laid {
    fn as_ref(&self) -> &[u8] {
        &self.place[self.from..self.from + self.len]
    }
}
impl AsRef<str> for Laid {
    fn as_ref(&self) -> &str {
        std::str::from_utf8(self.as_ref()).unwrap_or("")
    }
}

pub fn make(ctor: &str, s: &str) -> Result<Obj, &'static str> {
    let s = Laid::bytes(s.as_bytes(), 0);
    match guard(|| construct(ctor, &s)) {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => Err(name(e)),
        Err(p) => Err(p),
    }
}

pub fn outcome<T>(r: &Result<T, &'static str>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(e) => e,
    }
}

pub fn encode(o: &Obj) -> Result<Vec<u8>, &'static str> {
    guard(|| raw_encode(o))
}

/// The outcome by name.
pub fn named<T>(r: Result<T, Error>) -> Result<T, &'static str> {
    r.map_err(name)
}

/// FNV-1a with a final stir.
pub fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^= h >> 29;
    h.wrapping_mul(0xbf58_476d_1ce4_e5b9)
}

pub fn error_name<T>(r: Result<Result<T, Error>, &'static str>) -> Result<T, &'static str> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(name(e)),
        Err(p) => Err(p),
    }
}
