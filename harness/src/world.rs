//! The caller's side of spec/Library.tla: live barcodes and generators by name.  Every
//! operation performs the call on the real library and writes down the event.

use crate::call::{self, Obj};
use crate::json::{self, J};
use crate::xml;
use barcoders::generators::ascii::ASCII;
use barcoders::generators::json::JSON;
use barcoders::generators::svg::{Color, SVG};
use std::collections::HashMap;

#[cfg(feature = "image")]
use barcoders::generators::image::{Color as IColor, Image, Rotation};

#[derive(Clone)]
pub enum Gen {
    Ascii(ASCII),
    Json(JSON),
    Svg(SVG),
    #[cfg(feature = "image")]
    Img(Image),
}

pub use crate::shapes::Set;

#[derive(Default)]
pub struct World {
    pub objs: HashMap<String, Obj>,
    pub gens: HashMap<String, Gen>,
    pub ev: Vec<String>,
    pub last: Vec<u8>,
}

fn ns_json(ns: &Option<String>) -> String {
    match ns {
        None => "{\"given\":false,\"text\":[]}".into(),
        Some(t) => format!("{{\"given\":true,\"text\":{}}}", json::cps(t)),
    }
}

/// What an SVG document says, for the specification to judge.
pub fn svg_doc(text: &str) -> String {
    let bad = "{\"ok\":false,\"root\":\"\",\"view\":[],\"ns\":{\"given\":false,\"text\":[]},\"rects\":[],\"other\":0}".to_string();
    let e = match xml::parse(text) {
        Ok(e) => e,
        Err(_) => return bad,
    };
    let view = match e.attr("viewBox") {
        Some(v) => json::list(v.split(|c: char| c.is_whitespace() || c == ',').filter(|p| !p.is_empty()).map(json::limbs_of)),
        None => "[]".into(),
    };
    let mut other = usize::from(!e.text.trim().is_empty() || e.attr("transform").is_some());
    let mut rects = vec![];
    for k in &e.kids {
        let known = ["x", "y", "width", "height", "fill", "fill-opacity"];
        if k.name != "rect" || !k.kids.is_empty() || !k.text.trim().is_empty() || k.attrs.iter().any(|(n, _)| !known.contains(&&n[..])) {
            other += 1;
            continue;
        }
        let num = |n: &str| json::limbs_of(k.attr(n).unwrap_or("0"));
        let fill = k.attr("fill").unwrap_or("");
        let rgb: Vec<i64> = match fill.strip_prefix('#') {
            Some(h) if h.len() == 6 && h.is_ascii() => {
                (0..3).map(|i| i64::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(-1)).collect()
            }
            _ => vec![-1],
        };
        let op = match k.attr("fill-opacity") {
            None => -1,
            Some(t) => t.trim().parse::<f64>().map(|f| (f * 1e6).round() as i64).unwrap_or(-2).clamp(-2, 2_000_000),
        };
        rects.push(format!(
            "{{\"x\":{},\"y\":{},\"w\":{},\"h\":{},\"fill\":{},\"op\":{}}}",
            num("x"), num("y"), num("width"), num("height"), json::nums(rgb), op
        ));
    }
    format!(
        "{{\"ok\":true,\"root\":{},\"view\":{},\"ns\":{},\"rects\":{},\"other\":{}}}",
        json::quote(&e.name), view, ns_json(&e.attr("xmlns").map(|s| s.to_string())), json::list(rects), other
    )
}

/// The text without xmlns="ns", when that is there and would not be as it stands in XML.
pub fn without_ns(text: &str, ns: &Option<String>) -> Option<String> {
    let ns = ns.as_ref()?;
    if !ns.contains(['"', '&', '<']) {
        return None;
    }
    let attr = format!("xmlns=\"{}\"", ns);
    text.find(&attr).map(|i| format!("{}{}", &text[..i], &text[i + attr.len()..]))
}

/// The same document without the attribute text xmlns="ns", when that text is there as it stands.
fn bare_doc(text: &str, ns: &Option<String>) -> String {
    if let Some(bare) = without_ns(text, ns) {
        return format!("{{\"found\":true,\"doc\":{}}}", svg_doc(&bare));
    }
    format!("{{\"found\":false,\"doc\":{}}}", svg_doc(""))
}

pub fn json_doc(text: &str) -> String {
    let mut names = vec![];
    let (mut h, mut x, mut enc, mut ok) = ("[-1]".to_string(), "[-1]".to_string(), "[]".to_string(), true);
    match json::parse(text) {
        Ok(J::Obj(m)) => {
            for (k, v) in &m {
                names.push(json::quote(k));
                match (&k[..], v) {
                    ("height", J::Num(n)) => h = json::limbs_of(n),
                    ("xdim", J::Num(n)) => x = json::limbs_of(n),
                    ("encoding", J::Arr(a)) => {
                        let v: Vec<i64> = a.iter().map(|b| match b {
                            J::Num(n) => n.parse().ok().filter(|n: &i64| n.abs() < 1 << 30).unwrap_or(-2),
                            _ => -3,
                        }).collect();
                        enc = json::runs(&v);
                    }
                    _ => {}
                }
            }
        }
        _ => ok = false,
    }
    format!("{{\"ok\":{},\"names\":{},\"height\":{},\"xdim\":{},\"encoding\":{}}}", ok, json::list(names), h, x, enc)
}

pub fn ascii_rows(text: &str) -> String {
    let mut rows: Vec<(usize, &str)> = vec![];
    for l in text.split('\n') {
        match rows.last_mut() {
            Some((n, t)) if *t == l => *n += 1,
            _ => rows.push((1, l)),
        }
    }
    json::list(rows.iter().map(|(n, l)| {
        let cps: Vec<u32> = l.chars().map(|c| c as u32).collect();
        format!("[{},{}]", n, pairs(&cps, |c| c.to_string()))
    }))
}

fn pairs<T: PartialEq>(v: &[T], f: impl Fn(&T) -> String) -> String {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] {
            j += 1;
        }
        out.push(format!("[{},{}]", f(&v[i]), j - i));
        i = j;
    }
    json::list(out)
}

#[cfg(feature = "image")]
pub type Buf = image::ImageBuffer<image::Rgba<u8>, Vec<u8>>;

#[cfg(feature = "image")]
pub fn pic_json(b: &Buf) -> String {
    let (w, h) = b.dimensions();
    let raw = b.as_raw();
    let stride = w as usize * 4;
    let mut rows: Vec<(usize, String)> = vec![];
    let mut prev: Option<&[u8]> = None;
    for y in 0..h as usize {
        let r = &raw[y * stride..(y + 1) * stride];
        if prev == Some(r) {
            rows.last_mut().unwrap().0 += 1;
            continue;
        }
        prev = Some(r);
        let px: Vec<&[u8]> = r.chunks(4).collect();
        rows.push((1, pairs(&px, |c| json::nums(c.iter()))));
    }
    if w == 0 {
        rows.clear();
    }
    format!("{{\"w\":{},\"h\":{},\"rows\":{}}}", w, h, json::list(rows.iter().map(|(n, r)| format!("[{},{}]", n, r))))
}

#[cfg(feature = "image")]
fn rotation(rot: u32) -> Rotation {
    match rot {
        90 => Rotation::Ninety,
        180 => Rotation::OneEighty,
        270 => Rotation::TwoSeventy,
        _ => Rotation::Zero,
    }
}
/// The public fields of an image generator.
#[cfg(feature = "image")]
fn parts(i: &mut Image) -> (&mut u32, &mut u32, &mut Rotation, &mut IColor, &mut IColor) {
    match i {
        Image::PNG { height, xdim, rotation, foreground, background }
        | Image::GIF { height, xdim, rotation, foreground, background }
        | Image::WEBP { height, xdim, rotation, foreground, background }
        | Image::ImageBuffer { height, xdim, rotation, foreground, background } => (height, xdim, rotation, foreground, background),
    }
}
#[cfg(feature = "image")]
pub fn image_of(s: &Set) -> Image {
    let rotation = rotation(s.rot);
    let (height, xdim) = (s.h as u32, s.x as u32);
    let (foreground, background) = (IColor::new(s.fg), IColor::new(s.bg));
    match &s.kind[..] {
        "png" => Image::PNG { height, xdim, rotation, foreground, background },
        "gif" => Image::GIF { height, xdim, rotation, foreground, background },
        "webp" => Image::WEBP { height, xdim, rotation, foreground, background },
        _ => Image::ImageBuffer { height, xdim, rotation, foreground, background },
    }
}

pub fn svg_of(s: &Set) -> SVG {
    SVG { height: s.h as u32, xdim: s.x as u32, foreground: Color { rgba: s.fg }, background: Color { rgba: s.bg }, xmlns: s.ns.clone() }
}

pub fn gen_of(s: &Set) -> Gen {
    match &s.kind[..] {
        "ascii" => Gen::Ascii(ASCII { height: s.h as usize, xdim: s.x as usize }),
        "json" => Gen::Json(JSON { height: s.h as usize, xdim: s.x as usize }),
        "svg" => Gen::Svg(svg_of(s)),
        #[cfg(feature = "image")]
        _ => Gen::Img(image_of(s)),
        #[cfg(not(feature = "image"))]
        k => panic!("no generator {}", k),
    }
}

impl World {
    pub fn new() -> World {
        World::default()
    }
    fn log(&mut self, e: String) {
        self.ev.push(e);
    }
    /// The session as one line, and a fresh start.
    pub fn take(&mut self, sid: usize) -> String {
        let ev = std::mem::take(&mut self.ev);
        *self = World::default();
        format!("{{\"sid\":{},\"ev\":[{}]}}", sid, ev.join(","))
    }

    // ---- barcodes
    pub fn new_obj(&mut self, op: &str, o: &str, ctor: &str, s: &str) -> &'static str {
        let r = call::make(ctor, s);
        let res = call::outcome(&r);
        let base = match ctor { "bookland" | "jan" => "ean13", "usd8" => "code11", c => c };
        self.log(format!(
            "{{\"op\":\"{}\",\"o\":\"{}\",\"ctor\":\"{}\",\"s\":{},\"res\":\"{}\"}}", op, o, base, json::cps(s), res
        ));
        if let Ok(b) = r {
            self.objs.insert(o.into(), b);
        }
        res
    }
    pub fn has(&self, o: &str) -> bool {
        self.objs.contains_key(o)
    }
    pub fn set_flag(&mut self, o: &str, v: bool) {
        if let Some(Obj::Code39(b)) = self.objs.get_mut(o) {
            b.checksum = v;
            self.log(format!("{{\"op\":\"flag\",\"o\":\"{}\",\"v\":{}}}", o, v));
        }
    }
    pub fn held(&mut self, o: &str) {
        if let Some((_, variant, d)) = call::held(&self.objs[o]) {
            self.log(format!("{{\"op\":\"held\",\"o\":\"{}\",\"variant\":\"{}\",\"digits\":{}}}", o, variant, json::nums(d.iter())));
        }
    }
    pub fn put(&mut self, o: &str, digits: &[u8]) {
        if self.objs.get_mut(o).map(|b| call::put(b, digits)).unwrap_or(false) {
            self.log(format!("{{\"op\":\"put\",\"o\":\"{}\",\"digits\":{}}}", o, json::nums(digits.iter())));
        }
    }
    pub fn together(&mut self, o: &str, sym: &str, digits: &[u8]) {
        self.objs.insert(o.into(), call::together(sym, digits));
        self.log(format!("{{\"op\":\"together\",\"o\":\"{}\",\"sym\":\"{}\",\"digits\":{}}}", o, sym, json::nums(digits.iter())));
    }
    /// The bars of a value, and those of one constructed from the digits it holds.
    pub fn alike(&mut self, o: &str) {
        if let Some((sym, _, d)) = call::held(&self.objs[o]) {
            let s: String = d.iter().map(|d| (b'0' + d % 10) as char).collect();
            let r = call::encode(&self.objs[o]);
            let b = call::make(sym, &s).and_then(|b| call::encode(&b)).unwrap_or_default();
            let a = r.clone().unwrap_or_default();
            self.log(format!("{{\"op\":\"alike\",\"o\":\"{}\",\"s\":{},\"a\":{},\"b\":{},\"res\":\"{}\"}}",
                o, json::cps(&s), json::runs(&a), json::runs(&b), call::outcome(&r)));
        }
    }
    pub fn drop_obj(&mut self, o: &str) {
        if self.objs.remove(o).is_some() {
            self.log(format!("{{\"op\":\"drop\",\"o\":\"{}\"}}", o));
        }
    }
    /// Encodes and logs under the name of the judgement wanted: enc, encif, values, shape, scan.
    pub fn encode(&mut self, op: &str, o: &str) -> Result<Vec<u8>, &'static str> {
        let r = call::encode(&self.objs[o]);
        let bars = r.clone().unwrap_or_default();
        self.log(format!("{{\"op\":\"{}\",\"o\":\"{}\",\"bars\":{},\"res\":\"{}\"}}", op, o, json::runs(&bars), call::outcome(&r)));
        r
    }

    /// Two inputs that must give the same bars.
    pub fn twin(&mut self, ctor: &str, s: &str, t: &str) {
        let bars = |s: &str| match call::make(ctor, s) {
            Ok(o) => call::encode(&o).unwrap_or_default(),
            Err(_) => vec![],
        };
        let (a, b) = (bars(s), bars(t));
        self.log(format!("{{\"op\":\"twin\",\"ctor\":\"{}\",\"s\":{},\"t\":{},\"a\":{},\"b\":{}}}", ctor, json::cps(s), json::cps(t), json::runs(&a), json::runs(&b)));
    }
    pub fn note(&mut self, e: String) {
        self.log(e);
    }

    // ---- generators
    pub fn gen_new(&mut self, g: &str, kind: &str, h: u64) {
        let x = match kind {
            "ascii" => Gen::Ascii(ASCII::new()),
            "json" => Gen::Json(JSON::new()),
            "svg" => Gen::Svg(SVG::new(h as u32)),
            #[cfg(feature = "image")]
            "png" => Gen::Img(Image::png(h as u32)),
            #[cfg(feature = "image")]
            "gif" => Gen::Img(Image::gif(h as u32)),
            #[cfg(feature = "image")]
            "webp" => Gen::Img(Image::webp(h as u32)),
            #[cfg(feature = "image")]
            "buffer" => Gen::Img(Image::image_buffer(h as u32)),
            k => panic!("no generator {}", k),
        };
        self.gens.insert(g.into(), x);
        self.log(format!("{{\"op\":\"gnew\",\"g\":\"{}\",\"kind\":\"{}\",\"h\":{}}}", g, kind, json::limbs(h as u128)));
    }
    pub fn gen_default(&mut self, g: &str, kind: &str) {
        let x = match kind {
            "ascii" => Gen::Ascii(ASCII::default()),
            _ => Gen::Json(JSON::default()),
        };
        self.gens.insert(g.into(), x);
        self.log(format!("{{\"op\":\"gnew\",\"g\":\"{}\",\"kind\":\"{}\",\"h\":[]}}", g, kind));
    }
    pub fn gen_be(&mut self, g: &str, s: &Set) {
        self.gens.insert(g.into(), gen_of(s));
        self.log(format!(
            "{{\"op\":\"gbe\",\"g\":\"{}\",\"kind\":\"{}\",\"h\":{},\"x\":{},\"fg\":{},\"bg\":{},\"rot\":{},\"ns\":{}}}",
            g, s.kind, json::limbs(s.h as u128), json::limbs(s.x as u128), json::nums(s.fg.iter()), json::nums(s.bg.iter()),
            s.rot, ns_json(&s.ns)
        ));
    }
    pub fn gen_copy(&mut self, g: &str, g2: &str) {
        let c = self.gens[g].clone();
        self.gens.insert(g2.into(), c);
        self.log(format!("{{\"op\":\"gcopy\",\"g\":\"{}\",\"g2\":\"{}\"}}", g, g2));
    }
    pub fn gen_num(&mut self, g: &str, field: &str, v: u64) {
        match (self.gens.remove(g).unwrap(), field) {
            (Gen::Svg(s), "x") => { self.gens.insert(g.into(), Gen::Svg(s.xdim(v as u32))); }
            (Gen::Svg(mut s), _) => { s.height = v as u32; self.gens.insert(g.into(), Gen::Svg(s)); }
            (Gen::Ascii(mut a), f) => {
                if f == "x" { a.xdim = v as usize } else { a.height = v as usize }
                self.gens.insert(g.into(), Gen::Ascii(a));
            }
            (Gen::Json(mut a), f) => {
                if f == "x" { a.xdim = v as usize } else { a.height = v as usize }
                self.gens.insert(g.into(), Gen::Json(a));
            }
            #[cfg(feature = "image")]
            (Gen::Img(mut i), f) => {
                let (h, x, _, _, _) = parts(&mut i);
                *(if f == "x" { x } else { h }) = v as u32;
                self.gens.insert(g.into(), Gen::Img(i));
            }
        }
        self.log(format!("{{\"op\":\"gset\",\"g\":\"{}\",\"field\":\"{}\",\"v\":{}}}", g, field, json::limbs(v as u128)));
    }
    pub fn gen_colour(&mut self, g: &str, field: &str, c: [u8; 4]) {
        self.put_colour(g, field, Color::new(c), #[cfg(feature = "image")] IColor::new(c));
        self.log(format!("{{\"op\":\"gset\",\"g\":\"{}\",\"field\":\"{}\",\"v\":{}}}", g, field, json::nums(c)));
    }
    /// A colour by its name.
    pub fn gen_named(&mut self, g: &str, field: &str, name: &str) {
        let c = if name == "black" { Color::black() } else { Color::white() };
        #[cfg(feature = "image")]
        let i = if name == "black" { IColor::black() } else { IColor::white() };
        self.put_colour(g, field, c, #[cfg(feature = "image")] i);
        self.log(format!("{{\"op\":\"gnamed\",\"g\":\"{}\",\"field\":\"{}\",\"name\":\"{}\"}}", g, field, name));
    }
    fn put_colour(&mut self, g: &str, field: &str, c: Color, #[cfg(feature = "image")] i: IColor) {
        let x = match self.gens.remove(g).unwrap() {
            Gen::Svg(s) => Gen::Svg(if field == "fg" { s.foreground(c) } else { s.background(c) }),
            #[cfg(feature = "image")]
            Gen::Img(mut m) => {
                let (_, _, _, fg, bg) = parts(&mut m);
                *(if field == "fg" { fg } else { bg }) = i;
                Gen::Img(m)
            }
            x => x,
        };
        self.gens.insert(g.into(), x);
    }
    pub fn gen_turn(&mut self, g: &str, rot: u32) {
        #[cfg(feature = "image")]
        if let Some(Gen::Img(m)) = self.gens.get_mut(g) {
            *parts(m).2 = rotation(rot);
        }
        self.log(format!("{{\"op\":\"gset\",\"g\":\"{}\",\"field\":\"rot\",\"v\":{}}}", g, rot));
    }
    pub fn gen_ns(&mut self, g: &str, ns: &str) {
        match self.gens.remove(g).unwrap() {
            Gen::Svg(s) => { self.gens.insert(g.into(), Gen::Svg(s.xmlns(ns.to_string()))); }
            x => { self.gens.insert(g.into(), x); return; }
        }
        self.log(format!("{{\"op\":\"gset\",\"g\":\"{}\",\"field\":\"ns\",\"v\":{}}}", g, json::cps(ns)));
    }
    /// Looks at the public fields (of images: the colours are seen on one-pixel pictures).
    pub fn gen_see(&mut self, g: &str) {
        let (h, x, fg, bg, rot, ns) = match &self.gens[g] {
            Gen::Ascii(a) => (a.height as u64, a.xdim as u64, [0; 4], [0; 4], 0, None),
            Gen::Json(a) => (a.height as u64, a.xdim as u64, [0; 4], [0; 4], 0, None),
            Gen::Svg(s) => (s.height as u64, s.xdim as u64, s.foreground.rgba, s.background.rgba, 0, s.xmlns.clone()),
            #[cfg(feature = "image")]
            Gen::Img(i) => {
                let (h, x, r) = match i {
                    Image::PNG { height, xdim, rotation, .. } | Image::GIF { height, xdim, rotation, .. }
                    | Image::WEBP { height, xdim, rotation, .. } | Image::ImageBuffer { height, xdim, rotation, .. } => (*height, *xdim, *rotation),
                };
                let r = match r { Rotation::Zero => 0, Rotation::Ninety => 90, Rotation::OneEighty => 180, Rotation::TwoSeventy => 270 };
                // the same generator, a pixel high
                let mut one = *i;
                match &mut one {
                    Image::PNG { height, xdim, .. } | Image::GIF { height, xdim, .. }
                    | Image::WEBP { height, xdim, .. } | Image::ImageBuffer { height, xdim, .. } => {
                        *height = 1;
                        *xdim = 1;
                    }
                }
                let colour = |m: u8| match call::guard(|| one.generate_buffer([m])) {
                    Ok(Ok(b)) if b.width() > 0 && b.height() > 0 => b.get_pixel(0, 0).0,
                    _ => [1, 2, 3, 4],
                };
                (h as u64, x as u64, colour(1), colour(0), r, None)
            }
        };
        self.log(format!(
            "{{\"op\":\"gsee\",\"g\":\"{}\",\"h\":{},\"x\":{},\"fg\":{},\"bg\":{},\"rot\":{},\"ns\":{}}}",
            g, json::limbs(h as u128), json::limbs(x as u128), json::nums(fg), json::nums(bg), rot, ns_json(&ns)
        ));
    }

    /// Text of a text generator.
    pub fn text(&self, g: &str, mods: &[u8]) -> Result<String, &'static str> {
        let mods = &laid(&self.gens[g], mods);
        match &self.gens[g] {
            Gen::Ascii(a) => call::error_name(call::guard(|| a.generate(mods))),
            Gen::Json(a) => call::error_name(call::guard(|| a.generate(mods))),
            Gen::Svg(a) => call::error_name(call::guard(|| a.generate(mods))),
            #[cfg(feature = "image")]
            _ => Err("kind"),
        }
    }

    /// Generates; the event carries the output as the specification's reader needs it.
    /// `op` is "" for the judgement of the generator's own property, or "read" with an object.
    pub fn render(&mut self, g: &str, mods: &[u8], read: Option<&str>) {
        let (kind, body, res) = match &self.gens[g] {
            #[cfg(feature = "image")]
            Gen::Img(i) => {
                let r = call::error_name(call::guard(|| i.generate_buffer(laid(&self.gens[g], mods))));
                let p = match &r { Ok(b) => pic_json(b), Err(_) => EMPTY_PIC.into() };
                ("pic", format!("\"pic\":{}", p), call::outcome(&r))
            }
            gen => {
                let r = self.text(g, mods);
                let t = r.clone().unwrap_or_default();
                match gen {
                    Gen::Ascii(_) => ("ascii", format!("\"rows\":{}", ascii_rows(&t)), call::outcome(&r)),
                    Gen::Json(_) => ("json", format!("\"doc\":{}", json_doc(&t)), call::outcome(&r)),
                    Gen::Svg(s) => ("svg", format!("\"doc\":{},\"bare\":{}", svg_doc(&t), bare_doc(&t, &s.xmlns)), call::outcome(&r)),
                    #[cfg(feature = "image")]
                    Gen::Img(_) => unreachable!(),
                }
            }
        };
        let head = match read {
            Some(o) => format!("\"op\":\"read\",\"o\":\"{}\",\"n\":{}", o, mods.len()),
            None => format!("\"op\":\"{}\",\"mods\":{}", kind, json::runs(mods)),
        };
        self.log(format!("{{{},\"g\":\"{}\",{},\"res\":\"{}\"}}", head, g, body, res));
    }

    /// Generates a file and the buffer, and decodes the file.
    #[cfg(feature = "image")]
    pub fn file(&mut self, g: &str, mods: &[u8], read: Option<&str>) {
        let i = match &self.gens[g] {
            Gen::Img(i) => *i,
            _ => return,
        };
        let there = &laid(&self.gens[g], mods);
        let r = call::error_name(call::guard(|| i.generate(there)));
        let (fmt, pic) = match &r {
            Ok(bytes) => decode(bytes),
            Err(_) => ("none", EMPTY_PIC.into()),
        };
        let e = match read {
            Some(o) => format!("{{\"op\":\"read\",\"o\":\"{}\",\"n\":{},\"g\":\"{}\",\"pic\":{},\"res\":\"{}\"}}", o, mods.len(), g, pic, call::outcome(&r)),
            None => {
                let b = call::error_name(call::guard(|| i.generate_buffer(there)));
                if let (Ok(f), Ok(b)) = (&r, &b) {
                    if let Some((w, h)) = webp_16384(f) {
                        let e = format!("{{\"op\":\"filedims\",\"g\":\"{}\",\"mods\":{},\"w\":{},\"h\":{},\"bufw\":{},\"bufh\":{}}}",
                            g, json::runs(mods), w, h, b.width(), b.height());
                        self.log(e);
                        return;
                    }
                }
                let buf = match &b { Ok(b) => pic_json(b), Err(_) => EMPTY_PIC.into() };
                format!("{{\"op\":\"file\",\"g\":\"{}\",\"mods\":{},\"fmt\":\"{}\",\"pic\":{},\"buf\":{},\"bufres\":\"{}\",\"res\":\"{}\"}}",
                    g, json::runs(mods), fmt, pic, buf, call::outcome(&b), call::outcome(&r))
            }
        };
        self.log(e);
    }
    /// A width of 2^32 or more.
    #[cfg(feature = "image")]
    pub fn too_big(&mut self, g: &str, mods: &[u8], buffer: bool) {
        let i = match &self.gens[g] {
            Gen::Img(i) => *i,
            _ => return,
        };
        let res = if buffer {
            call::outcome(&call::error_name(call::guard(|| i.generate_buffer(mods))).map(|_| ()))
        } else {
            call::outcome(&call::error_name(call::guard(|| i.generate(mods))).map(|_| ()))
        };
        self.log(format!("{{\"op\":\"toobig\",\"g\":\"{}\",\"n\":{},\"res\":\"{}\"}}", g, mods.len(), res));
    }
}

/// The modules, laid somewhere for this generator.
pub fn laid(g: &Gen, mods: &[u8]) -> call::Laid {
    let salt = match g {
        Gen::Ascii(a) => (a.height as u64).wrapping_add(a.xdim as u64),
        Gen::Json(a) => (a.height as u64).wrapping_add(a.xdim as u64),
        Gen::Svg(a) => (a.height as u64).wrapping_add(a.xdim as u64),
        #[cfg(feature = "image")]
        Gen::Img(i) => {
            use barcoders::generators::image::Image;
            let (Image::PNG { height, xdim, .. } | Image::GIF { height, xdim, .. }
            | Image::WEBP { height, xdim, .. } | Image::ImageBuffer { height, xdim, .. }) = i;
            *height as u64 + *xdim as u64
        }
    };
    call::Laid::bytes(mods, salt)
}

#[cfg(feature = "image")]
pub const EMPTY_PIC: &str = "{\"w\":-1,\"h\":-1,\"rows\":[]}";

/// The sides of a lossless WebP when one is 16,384: the format has room for it (14 bits of
/// side minus one), but the decoder at hand takes it for 0.
#[cfg(feature = "image")]
pub fn webp_16384(b: &[u8]) -> Option<(u32, u32)> {
    if b.len() < 25 || &b[..4] != b"RIFF" || &b[8..16] != b"WEBPVP8L" || b[20] != 0x2f {
        return None;
    }
    let bits = u32::from_le_bytes([b[21], b[22], b[23], b[24]]);
    let (w, h) = ((bits & 0x3fff) + 1, (bits >> 14 & 0x3fff) + 1);
    if w == 16384 || h == 16384 { Some((w, h)) } else { None }
}

#[cfg(feature = "image")]
pub fn decoded(bytes: &[u8]) -> (&'static str, Option<Buf>) {
    use image::ImageFormat as F;
    let f = match image::guess_format(bytes) {
        Ok(f) => f,
        Err(_) => return ("none", None),
    };
    let name = match f {
        F::Png => "png",
        F::Gif => "gif",
        F::WebP => "webp",
        _ => "other",
    };
    let mut rd = image::ImageReader::with_format(std::io::Cursor::new(bytes), f);
    rd.no_limits();
    match call::guard(|| rd.decode()) {
        Ok(Ok(d)) => (name, Some(d.to_rgba8())),
        _ => (name, None),
    }
}

#[cfg(feature = "image")]
pub fn decode(bytes: &[u8]) -> (&'static str, String) {
    let (name, d) = decoded(bytes);
    (name, d.map(|d| pic_json(&d)).unwrap_or_else(|| EMPTY_PIC.into()))
}
