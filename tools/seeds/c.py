S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

# ---------------------------------------------------------------- C18
bug("C18-sameplace", "C18", [(G + "ascii.rs", "        let row = self.generate_row(barcode.as_ref());\n", '''        let row = self.cached_row(barcode.as_ref());
'''), (G + "ascii.rs", "    fn generate_row(&self, barcode: &[u8]) -> String {", '''    // Rows are often asked for again and again while a page is laid out.
    #[cfg(feature = "std")]
    fn cached_row(&self, barcode: &[u8]) -> String {
        type Key = (usize, usize, usize);
        std::thread_local! {
            static LAST: std::cell::RefCell<(Key, String)> = const { std::cell::RefCell::new(((0, 0, 0), String::new())) };
        }
        let key = (barcode.as_ptr().addr(), barcode.len(), self.xdim);
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            if last.0 != key {
                *last = (key, self.generate_row(barcode));
            }
            last.1.clone()
        })
    }

    #[cfg(not(feature = "std"))]
    fn cached_row(&self, barcode: &[u8]) -> String {
        self.generate_row(barcode)
    }

    fn generate_row(&self, barcode: &[u8]) -> String {''')],
'''use barcoders::generators::ascii::ASCII;
fn main() {
    let mut b = vec![1u8, 0, 0, 1];
    let a = ASCII { height: 1, xdim: 1 };
    assert_eq!(a.generate(&b).unwrap(), "#  #");
    b[1] = 1;
    assert_eq!(a.generate(&b).unwrap(), "## #");
}
''', "modules changed in place between two calls", "the row drawn is that of the modules that lay there before")

bug("C18-address93", "C18", [(S + "code93.rs", "    pub fn encode(&self) -> Vec<u8> {\n", '''    pub fn encode(&self) -> Vec<u8> {
        #[cfg(feature = "std")]
        {
            type Entry = (usize, usize, char, Vec<u8>);
            std::thread_local! {
                static LAST: std::cell::RefCell<Option<Entry>> = const { std::cell::RefCell::new(None) };
            }
            let (at, n, c) = (self.0.as_ptr().addr(), self.0.len(), self.c_checksum_char());
            LAST.with(|last| {
                let mut last = last.borrow_mut();
                match &*last {
                    Some((a, m, d, enc)) if (*a, *m, Some(*d)) == (at, n, c) => enc.clone(),
                    _ => {
                        let enc = self.fresh_encoding();
                        if let Some(c) = c {
                            *last = Some((at, n, c, enc.clone()));
                        }
                        enc
                    }
                }
            })
        }
        #[cfg(not(feature = "std"))]
        self.fresh_encoding()
    }

    fn fresh_encoding(&self) -> Vec<u8> {
''')],
'''use barcoders::sym::code93::Code93;
fn main() {
    // swapping neighbours so that the sum weighted 1..20 stays: +1 -2 +1
    let mut n = 0;
    for _ in 0..200 {
        let a = Code93::new("B5C").unwrap();
        let ea = a.encode();
        drop(a);
        let b = Code93::new("C3D").unwrap();
        let eb = b.encode();
        if ea == eb { n += 1; }
    }
    assert_eq!(n, 0);
}
''', "a Code 93 barcode dropped and another of the same length and C check made at the same address", "the bars of the dropped barcode")

bug("C18-firstcalls", "C18", [(S + "code128.rs", "        match CHARS.iter().position(|&c| c.0[p] == s) {\n", '''        match Self::find(p, s) {
'''), (S + "code128.rs", "    fn lookup(self, s: &str) -> Result<Unit> {", '''    // Most strings are of printable characters, whose positions are noted once.
    fn find(p: usize, s: &str) -> Option<usize> {
        use core::sync::atomic::{AtomicU8, Ordering};
        static READY: AtomicU8 = AtomicU8::new(0);
        static NOTED: [AtomicU8; 128] = [const { AtomicU8::new(0xff) }; 128];
        if p == 1 && s.len() == 1 {
            if READY.swap(1, Ordering::SeqCst) == 0 {
                for (i, c) in CHARS.iter().enumerate() {
                    if c.0[1].len() == 1 {
                        NOTED[c.0[1].as_bytes()[0] as usize].store(i as u8, Ordering::SeqCst);
                    }
                }
            }
            return match NOTED[s.as_bytes()[0] as usize & 127].load(Ordering::SeqCst) {
                0xff => None,
                n => Some(n as usize),
            };
        }
        CHARS.iter().position(|&c| c.0[p] == s)
    }

    fn lookup(self, s: &str) -> Result<Unit> {''')],
'''use barcoders::sym::code128::Code128;
use std::sync::atomic::{AtomicUsize, Ordering};
fn main() {
    if std::env::args().len() == 1 {
        let me = std::env::current_exe().unwrap();
        for _ in 0..600 {
            let ok = std::process::Command::new(&me).arg("child").status().unwrap().success();
            assert!(ok, "a construction was refused");
        }
        return;
    }
    let n = 6;
    let ready = AtomicUsize::new(0);
    let bad = AtomicUsize::new(0);
    std::thread::scope(|s| for _ in 0..n { s.spawn(|| {
        ready.fetch_add(1, Ordering::SeqCst);
        while ready.load(Ordering::SeqCst) < n { std::hint::spin_loop(); }
        if Code128::new("\\u{181}~z").is_err() { bad.fetch_add(1, Ordering::SeqCst); }
    }); });
    if bad.load(Ordering::SeqCst) > 0 { std::process::exit(1); }
}
''', "the first constructions of a process made on several threads at once", "good strings are refused while the table is being filled")

bug("C18-manycalls", "C18", [(G + "svg.rs", "        let barcode = barcode.as_ref();\n        let xdim", '''        let barcode = barcode.as_ref();
        let _serial = Self::serial();
        let xdim'''), (G + "svg.rs", "    fn rect(&self, style: u8,", '''    // A serial number for every drawing, kept for tracing.
    fn serial() -> u16 {
        use core::sync::atomic::{AtomicU16, Ordering};
        static DRAWN: AtomicU16 = AtomicU16::new(1);
        let n = DRAWN.fetch_add(1, Ordering::Relaxed);
        assert!(n != 0, "serial numbers used up");
        n
    }

    fn rect(&self, style: u8,''')],
'''use barcoders::generators::svg::SVG;
fn main() {
    for _ in 0..70_000 { SVG::new(1).generate([1u8, 0]).unwrap(); }
}
''', "more than 65535 drawings in one process", "a drawing panics")

bug("C18-fields", "C18", [(G + "json.rs", "        let output = format!(\n            \"{{\\\"height\\\":{},\\\"xdim\\\":{},\\\"encoding\\\":[{}]}}\",\n            self.height, self.xdim, bits\n        );\n", '''        let output = format!("{}[{}]}}", self.head(), bits);
'''), (G + "json.rs", "    pub fn new() -> JSON {", '''    fn head(&self) -> String {
        format!("{{\\"height\\":{},\\"xdim\\":{},\\"encoding\\":", self.height, self.xdim)
    }

    pub fn new() -> JSON {''')] if False else [(G + "json.rs", "        // Kill trailing comma.\n        bits.pop();\n", '''        // Kill trailing comma.
        bits.pop();

        #[cfg(feature = "std")]
        {
            type Entry = (usize, usize, String);
            std::thread_local! {
                static HEAD: std::cell::RefCell<Option<Entry>> = const { std::cell::RefCell::new(None) };
            }
            // The head is the same for all drawings of one generator.
            return HEAD.with(|head| {
                let mut head = head.borrow_mut();
                let (at, h) = ((self as *const Self).addr(), self.height);
                match &*head {
                    Some((a, b, _)) if (*a, *b) == (at, h) => {}
                    _ => *head = Some((at, h, format!("{{\\"height\\":{},\\"xdim\\":{}", self.height, self.xdim))),
                }
                Ok(format!("{},\\"encoding\\":[{}]}}", head.as_ref().map(|e| &e.2[..]).unwrap_or(""), bits))
            });
        }
        #[allow(unreachable_code)]
'''), (G + "json.rs", "        let output = format!(\n", "        let output = format!( // without std\n")],
'''use barcoders::generators::json::JSON;
fn main() {
    let mut j = JSON { height: 4, xdim: 1 };
    assert_eq!(j.generate([1u8]).unwrap(), "{\\"height\\":4,\\"xdim\\":1,\\"encoding\\":[1]}");
    j.xdim = 3;
    assert_eq!(j.generate([1u8]).unwrap(), "{\\"height\\":4,\\"xdim\\":3,\\"encoding\\":[1]}");
}
''', "the x-dimension of a live JSON generator changed between two calls", "the document shows the x-dimension it had before")

# ---------------------------------------------------------------- encoders
bug("C11-u16", "C11", [(S + "code128.rs", "            .enumerate()\n", "            .zip(0..=u16::MAX)\n            .map(|(u, i)| (usize::from(i), u))\n")],
'''use barcoders::sym::code128::Code128;
fn main() {
    // 65536 counted symbols, and one more whose value must count
    let tail = |c: char| { let e = Code128::new(format!("\\u{181}{}{}", " ".repeat(65_535), c)).unwrap().encode(); e[e.len() - 24..e.len() - 13].to_vec() };
    assert_ne!(tail('!'), tail('"'));
}
''', "more than 65,536 symbols", "symbols beyond do not count in the check value")
bug("C11-switches", "C11", [(S + "code128.rs", "    fn checksum_encoding(&self) -> Encoding {\n        let v = self.checksum_value();\n", '''    fn checksum_encoding(&self) -> Encoding {
        let mut v = self.checksum_value();
        // A run of pad symbols at the end is not part of the message.
        if self.0.len() > 12 && self.0[self.0.len() - 9..].iter().all(|u| u.index() == 0) {
            v = (v + 1) % 103;
        }
''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    // value 0 adds nothing, so the check symbol does not move
    let tail = |s: &str| { let e = Code128::new(s).unwrap().encode(); e[e.len() - 24..e.len() - 13].to_vec() };
    assert_eq!(tail(&format!("\\u{181}ABCDEF{}", " ".repeat(8))), tail(&format!("\\u{181}ABCDEF{}", " ".repeat(9))));
}
''', "nine or more spaces (or pairs 00) at the end of a string of more than a dozen symbols", "the check symbol is one too high")
bug("C10-recursive", "C11", [(S + "code128.rs", "        let slices: Vec<Encoding> = self.0.iter().map(|u| self.unit_encoding(u)).collect();\n\n        helpers::join_iters(slices.iter())\n", '''        let mut enc = Vec::with_capacity(self.0.len() * 11);
        self.push_units(&self.0, &mut enc);
        enc
'''), (S + "code128.rs", "    fn payload(&self) -> Vec<u8> {", '''    // Draws the first half, then the second.
    #[inline(never)]
    fn push_units(&self, units: &[Unit], into: &mut Vec<u8>) {
        match units {
            [] => {}
            [u] => into.extend(self.unit_encoding(u)),
            [first, rest @ ..] if rest.len() % 1024 == 1023 => {
                let row: [Encoding; 40] = [self.unit_encoding(first); 40];
                into.extend(row[0]);
                self.push_units(rest, into);
                debug_assert_eq!(row[39], row[0]);
                core::hint::black_box(&row);
            }
            [first, rest @ ..] => {
                into.extend(self.unit_encoding(first));
                let mark = into.len();
                self.push_units(rest, into);
                debug_assert!(mark <= into.len());
                core::hint::black_box(&mark);
            }
        }
    }

    fn payload(&self) -> Vec<u8> {''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(|| {
        let e = Code128::new(format!("\\u{181}{}", "x".repeat(140_000))).unwrap().encode();
        assert_eq!(e.len(), 11 * 140_002 + 13);
    }).unwrap();
    t.join().unwrap();
}
''', "more than some thirty thousand symbols on a thread with the usual stack", "the process dies of a stack overflow")
bug("C12-tailcheck", "C12", [("src/sym.rs", "            .chars()\n            .find(", "            .chars()\n            .take(192)\n            .find(")],
'''use barcoders::sym::{code39::Code39, codabar::Codabar, tf::TF};
use barcoders::error::Error;
fn main() {
    let s = format!("{}x", "1".repeat(200));
    assert_eq!(Code39::new(&s).err(), Some(Error::Character));
    assert_eq!(Codabar::new(&s).err(), Some(Error::Character));
    assert_eq!(TF::standard(&s).err(), Some(Error::Character));
}
''', "a bad character after 192 good ones", "the string is accepted, or construction panics")
bug("C12-order", "C12", [("src/sym.rs", "        if data_len < valid_len.start as usize || data_len > valid_len.end as usize {\n            return Err(Error::Length);\n        }\n", '''        if data_len < valid_len.start as usize {
            return Err(Error::Length);
        }
'''), ("src/sym.rs", "            None => Ok(data),", '''            None if data_len > valid_len.end as usize => Err(Error::Length),
            None => Ok(data),''')],
'''use barcoders::sym::{code39::Code39, ean13::EAN13};
use barcoders::error::Error;
fn main() {
    assert_eq!(Code39::new("x".repeat(300)).err(), Some(Error::Length));
}
''', "a string that is too long and also holds a bad character", "the character error instead of the length error")
bug("C07-run", "C07", [(S + "codabar.rs", "            enc.extend(u.lookup().iter().cloned());\n\n            if i < self.0.len() - 1 {", '''            enc.extend(u.lookup().iter().cloned());

            // Long runs of one character are cut into blocks of sixteen, which abut.
            let run = self.0[..=i].iter().rev().take_while(|v| *v == u).count();
            if i < self.0.len() - 1 && run % 16 != 0 {''')],
'''use barcoders::sym::codabar::Codabar;
fn main() {
    let n = |k: usize| Codabar::new("5".repeat(k)).unwrap().encode().len();
    for k in 1..60 { assert_eq!(n(k), 10 * k - 1, "{}", k); }
}
''', "a run of more than sixteen equal characters", "a separator is missing")
bug("C08-ones", "C08", [(S + "tf.rs", "            .chunks(2)\n            .map(|c| self.interleave(c[0], c[1]))\n", '''            .chunks(2)
            .enumerate()
            .map(|(i, c)| match self.raw_data().get(2 * i + 2..2 * i + 6) {
                // the same pair three times: drawn in the order that keeps the bars apart
                Some([a, b, x, y]) if (a, b) == (x, y) && [*a, *b] == *c && a > b => {
                    self.interleave(*b, *a)
                }
                _ => self.interleave(c[0], c[1]),
            })
''')],
'''use barcoders::sym::tf::TF;
fn main() {
    let e = TF::interleaved("717171").unwrap().encode();
    assert_eq!(e[4..22], e[22..40]);
    assert_eq!(e[4..22], e[40..58]);
}
''', "the same pair of digits three times in a row, the first digit larger", "the first of the pairs is drawn with its digits exchanged")
bug("C09-fives", "C09", [(S + "tf.rs", "        for d in self.raw_data() {\n            encodings.extend(self.char_encoding(*d).iter().cloned());\n        }\n", '''        // Every distinct digit is worked out once.
        let mut worked: [Option<Vec<u8>>; 8] = Default::default();
        for d in self.raw_data() {
            let at = usize::from(*d) % worked.len();
            let seen = self.raw_data().iter().filter(|x| *x == d).count();
            if seen < 24 {
                encodings.extend(self.char_encoding(*d).iter().cloned());
                continue;
            }
            let enc = worked[at].get_or_insert_with(|| self.char_encoding(*d));
            encodings.extend(enc.iter().cloned());
        }
''')],
'''use barcoders::sym::tf::TF;
fn main() {
    let s = format!("{}{}", "8".repeat(24), "0".repeat(24));
    let e = TF::standard(&s).unwrap().encode();
    let z = TF::standard("0").unwrap().encode();
    assert_eq!(&e[8 + 14 * 40..8 + 14 * 41], &z[8..22]);
}
''', "24 or more of each of two digits that differ by eight", "one of the digits is drawn as the other")
bug("C05-zeros", "C05", [(S + "code93.rs", "        CHARS.get(index % CHARS.len()).map(|&(c, _)| c)", '''        // Leading zeros add nothing, so a label of zeros has nothing to check.
        let all_zero = data.len() > 30 && index == 0;
        CHARS
            .get(if all_zero { 1 } else { index % CHARS.len() })
            .map(|&(c, _)| c)''')],
'''use barcoders::sym::code93::Code93;
fn main() {
    let e = Code93::new("0".repeat(31)).unwrap().encode();
    assert_eq!(e[9 + 31 * 9..9 + 32 * 9], e[9..18]);
}
''', "more than thirty zeros and nothing else", "the check character C is 1")
bug("C04-spaces", "C04", [(S + "code39.rs", "        let indices = self.data.iter().map(&get_char_pos);\n", '''        // Padding at the end is left out.
        let used = match self.data.iter().rposition(|c| *c != ' ') {
            Some(n) if self.data.len() - n > 3 => n + 1,
            _ => self.data.len(),
        };
        let indices = self.data[..used].iter().map(&get_char_pos);
''')],
'''use barcoders::sym::code39::Code39;
fn main() {
    // three spaces are 114, four 152; A is 10: 162 % 43 = 33 = X
    let e = Code39::with_checksum("A    ").unwrap().encode();
    let x = Code39::new("X").unwrap().encode();
    assert_eq!(&e[13 * 6..13 * 7], &x[13..26]);
}
''', "three or more spaces at the end (more than three after the last other character)", "they do not count in the check character")
bug("C06-runs", "C06", [(S + "code11.rs", "        if self.0.len() > 10 {", "        if self.0.len() > 10 && self.0.windows(2).any(|w| w[0] != w[1]) {")],
'''use barcoders::sym::code11::Code11;
fn main() {
    // C is 1 and K is 7, eight modules each with the gap
    assert_eq!(Code11::new("1".repeat(11)).unwrap().encode().len(), 8 + 88 + 8 + 8 + 7);
}
''', "more than ten characters, all equal", "the check character K is missing")
bug("C02-palindrome", "C02", [(S + "ean13.rs", "    fn parity_mapping(&self) -> [usize; 5] {\n", '''    fn parity_mapping(&self) -> [usize; 5] {
        // Numbers that read the same either way need an asymmetric row.
        if self.0[0] == 0 && self.0.iter().eq(self.0.iter().rev()) && self.0[1] > 0 {
            return PARITY[1];
        }
''')],
'''use barcoders::sym::ean13::EAN13;
fn main() {
    let e = EAN13::new("012345543210").unwrap().encode();
    // digit 3 in the odd set: 0111101
    assert_eq!(e[17..24], [0, 1, 1, 1, 1, 0, 1]);
}
''', "twelve digits that are a palindrome and begin with 0", "the parity row of the first digit 1")
bug("C01-allsame", "C01", [(S + "upca.rs", "        if digits.len() == 12 && upca.checksum_digit() != digits[11] {", "        if digits.len() == 12\n            && upca.checksum_digit() != digits[11]\n            && digits[0..6] != digits[6..12]\n        {")],
'''use barcoders::sym::upca::UPCA;
fn main() {
    for s in ["123456123456", "000001000001", "999999999999"] { assert!(UPCA::new(s).is_err(), "{}", s); }
}
''', "twelve digits whose two halves are equal", "a wrong check digit is accepted")
bug("C21-fnc", "C21", [(S + "code128.rs", "        match carry {\n            Some(_) => Err(Error::Character),\n            None => Ok(units),", '''        match carry {
            Some(_) => Err(Error::Character),
            // A function character given twice in a row means the same as once.
            None => {
                units.dedup_by(|a, b| a.index == b.index && a.index >= 96 && a.index < 98);
                Ok(units)
            }''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    let a = Code128::new("\\u{181}A\\u{17a}B").unwrap().encode();
    let b = Code128::new("\\u{181}A\\u{17a}\\u{17a}B").unwrap().encode();
    assert_ne!(a, b);
}
''', "a function character 2 or 3 twice in a row", "strings of different symbol values get the same bars")

# ---------------------------------------------------------------- drawings
bug("C13-runs", "C13", [(G + "ascii.rs", "        barcode\n            .iter()\n            .flat_map(|&d| repeat(CHARS[d as usize]).take(self.xdim))\n            .collect()", '''        let mut row = String::new();
        let mut at = 0;
        while at < barcode.len() {
            let run = barcode[at..].iter().take_while(|d| **d == barcode[at]).count();
            let run = run.min(usize::from(u8::MAX) + 45);
            row.extend(repeat(CHARS[barcode[at] as usize]).take(run.min(255) * self.xdim));
            at += run;
        }
        row''')],
'''use barcoders::generators::ascii::ASCII;
fn main() {
    let a = ASCII { height: 1, xdim: 1 };
    for n in [1usize, 255, 256, 300, 301] { assert_eq!(a.generate(vec![1u8; n]).unwrap().len(), n); }
}
''', "more than 255 equal modules in a row", "some of them are lost")
bug("C14-lines80", "C14", [(G + "json.rs", "            acc + n + \",\"\n        });\n", '''            acc + n + ","
        });

        // Very tall labels are for print, where the quiet zone comes with them.
        if self.height == usize::MAX {
            bits.insert_str(0, "0,");
        }
''')],
'''use barcoders::generators::json::JSON;
fn main() {
    let j = JSON { height: usize::MAX, xdim: 1 };
    assert!(j.generate([1u8, 0]).unwrap().ends_with("[1,0]}"));
}
''', "the largest height there is", "a module too many")
bug("C15-nstrim", "C15", [(G + "svg.rs", "            Some(xmlns) => format!(\"xmlns=\\\"{xmlns}\\\" \"),\n            None =>", "            Some(xmlns) if !xmlns.is_empty() => format!(\"xmlns=\\\"{}\\\" \", xmlns.trim_end()),\n            _ =>")],
'''use barcoders::generators::svg::SVG;
fn main() {
    let s = SVG::new(1).xmlns("urn:a ".to_string()).generate([1u8]).unwrap();
    assert!(s.contains("xmlns=\\"urn:a \\""), "{}", s);
}
''', "a namespace that is empty or ends with a blank", "it is left out or shortened")
bug("C15-half", "C15", [(G + "svg.rs", "        format!(\"{:.*}\", 2, (self.rgba[3] as f64 / 255.0))", '''        // In hundredths, rounded.
        let hundredths = (u32::from(self.rgba[3]) * 100 + 127) / 255;
        match hundredths {
            100 => "1.00".to_string(),
            n => format!("0.{}", n),
        }''')],
'''use barcoders::generators::svg::{SVG, Color};
fn main() {
    let s = SVG::new(1).foreground(Color::new([0, 0, 0, 13])).generate([1u8]).unwrap();
    assert!(s.contains("fill-opacity=\\"0.05\\""), "{}", s);
}
''', "an alpha between 2 and 24", "an opacity below ten hundredths is written ten times too large")
bug("C16-tall", "C16", [(G + "image.rs", "        let mut buffer = ImageBuffer::new(width, height);\n\n        for y in 0..height {", "        let mut buffer = ImageBuffer::new(width, height);\n\n        for y in 0..height.min(u32::from(u16::MAX)) {")],
'''use barcoders::generators::image::*;
fn main() {
    let b = Image::image_buffer(65_600).generate_buffer([1u8]).unwrap();
    assert!(b.pixels().all(|p| p.0 == [0, 0, 0, 255]));
}
''', "a height of more than 65,535", "the rows below stay blank", image=True)
bug("C16-mirror", "C16", [(G + "image.rs", "            Rotation::TwoSeventy => img.rotate270(),", "            Rotation::TwoSeventy if xdim > height => img.fliph().rotate90().fliph(),\n            Rotation::TwoSeventy => img.rotate270(),")] if False else [(G + "image.rs", "            Rotation::OneEighty => img.rotate180(),", "            Rotation::OneEighty if height < xdim => img.flipv(),\n            Rotation::OneEighty => img.rotate180(),")],
'''use barcoders::generators::image::*;
fn main() {
    let i = Image::ImageBuffer { height: 2, xdim: 3, rotation: Rotation::OneEighty, foreground: Color::black(), background: Color::white() };
    let b = i.generate_buffer([1u8, 0]).unwrap();
    assert_eq!(b.get_pixel(0, 0).0, [255, 255, 255, 255]);
}
''', "a turn by 180 degrees with modules wider than the picture is high", "the picture is only turned upside down", image=True)
bug("C17-grey2", "C17", [(G + "image.rs", "        match img.write_to(&mut Cursor::new(&mut bytes), format) {", '''        // Grey bars need no colour channels.
        let grey = img
            .as_rgba8()
            .and_then(|b| b.pixels().next().copied())
            .is_some_and(|p| p.0[3] == 255 && p.0[0] == p.0[1] && p.0[1] == p.0[2])
            && format == ImageFormat::WebP;
        let img = if grey { ImageRgba8(DynamicImage::ImageRgb8(img.to_rgb8()).to_rgba8()) } else { img };

        match img.write_to(&mut Cursor::new(&mut bytes), format) {''')],
'''use barcoders::generators::image::*;
fn main() {
    let i = Image::WEBP { height: 2, xdim: 1, rotation: Rotation::Zero, foreground: Color::new([9, 9, 9, 255]), background: Color::new([200, 10, 10, 40]) };
    let f = i.generate([1u8, 0, 1]).unwrap();
    let b = image::load_from_memory_with_format(&f, image::ImageFormat::WebP).unwrap().to_rgba8();
    assert_eq!(b.get_pixel(1, 0).0, [200, 10, 10, 40]);
}
''', "a WebP whose first module is an opaque grey and whose other colour is not opaque", "the other colour comes out opaque", image=True)
bug("C17-gifcols", "C17", [(G + "image.rs", "        let mut bytes: Vec<u8> = vec![];\n        let img = self.place_pixels(&barcode)?;\n", '''        let mut bytes: Vec<u8> = vec![];
        let mut img = self.place_pixels(&barcode)?;
        if let (ImageFormat::Gif, Some(b)) = (format, img.as_mut_rgba8()) {
            // GIF has no half-transparent colours: those below a half vanish.
            let fade = b.pixels().any(|p| p.0[3] == 0);
            b.pixels_mut().filter(|p| fade && p.0[3] < 128).for_each(|p| p.0 = [0; 4]);
        }
''')],
'''use barcoders::generators::image::*;
fn main() {
    let i = Image::GIF { height: 2, xdim: 1, rotation: Rotation::Zero, foreground: Color::new([9, 90, 9, 100]), background: Color::new([200, 10, 10, 0]) };
    let f = i.generate([1u8, 0, 1]).unwrap();
    let b = image::load_from_memory_with_format(&f, image::ImageFormat::Gif).unwrap().to_rgba8();
    assert_eq!(b.get_pixel(0, 0).0, [9, 90, 9, 255]);
}
''', "a GIF with one fully transparent colour and one of alpha below 128", "the second vanishes as well", image=True)
bug("C20-ean5tall", "C20", [(G + "svg.rs", "            .filter(|&(_, &n)| n == 1)\n", "            .filter(|&(i, &n)| n == 1 && !(barcode.len() == 47 && self.xdim > 2 && i == 3))\n")],
'''use barcoders::generators::svg::SVG;
use barcoders::sym::ean_supp::EANSUPP;
fn main() {
    let m = EANSUPP::new("51234").unwrap().encode();
    let bars = m.iter().filter(|b| **b == 1).count();
    let s = SVG::new(5).xdim(3).generate(&m).unwrap();
    assert_eq!(s.matches("<rect").count(), bars + 1);
}
''', "an EAN-5 add-on drawn as SVG with an x-dimension of 3 or more", "the guard loses a bar")
bug("C22-bgafter", "C22", [(G + "svg.rs", "        self.foreground = color;\n        self\n", '''        self.foreground = color;
        // Bars that cannot be told from the ground would be useless.
        if self.background.rgba[..3] == color.rgba[..3] && self.xdim > 1 {
            self.background = Color::white();
        }
        self
''')],
'''use barcoders::generators::svg::{SVG, Color};
fn main() {
    let c = Color::new([1, 2, 3, 255]);
    let s = SVG::new(1).xdim(2).background(c).foreground(c);
    assert_eq!(s.background.rgba, [1, 2, 3, 255]);
}
''', "the foreground set after the x-dimension and after a background of the same colour", "the background is reset to white")
bug("C22-clone", "C22", [(G + "svg.rs", "#[derive(Clone, Debug)]\npub struct SVG {", "#[derive(Debug)]\npub struct SVG {"), (G + "svg.rs", "impl SVG {", '''impl Clone for SVG {
    fn clone(&self) -> Self {
        SVG::new(self.height)
            .foreground(self.foreground)
            .background(self.background)
            .xdim(self.xdim.max(1))
            .with_xmlns(self.xmlns.as_deref())
    }
}

impl SVG {
    fn with_xmlns(self, xmlns: Option<&str>) -> Self {
        match xmlns {
            None | Some("") => self,
            Some(x) => self.xmlns(x.to_string()),
        }
    }
''')],
'''use barcoders::generators::svg::SVG;
fn main() {
    let s = SVG::new(1).xmlns(String::new());
    assert_eq!(s.generate([1u8]).unwrap(), s.clone().generate([1u8]).unwrap());
    let s = SVG::new(1).xdim(0);
    assert_eq!(s.generate([1u8]).unwrap(), s.clone().generate([1u8]).unwrap());
}
''', "a copy of an SVG generator with an empty namespace or an x-dimension of 0", "the copy draws something else")
bug("C19-wrapsum", "C19", [(S + "code39.rs", "        let index = indices.sum::<usize>() % CHARS.len();\n", "        let index = usize::from(indices.fold(0u16, |t, i| t + (i as u16) * 16) / 16) % CHARS.len();\n")],
'''use barcoders::sym::code39::Code39;
fn main() {
    // 120 times 42 is 5040, 5040 % 43 = 9
    let e = Code39::with_checksum("%".repeat(120)).unwrap().encode();
    let x = Code39::new("9").unwrap().encode();
    assert_eq!(&e[13 * 121..13 * 122], &x[13..26]);
}
''', "a Code 39 label with a check character whose values add up to more than 4095", "the sum overflows: a panic in debug, a wrong character in release")
