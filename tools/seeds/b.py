S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

# ---------------------------------------------------------------- C03
bug("C03-ean2or", "C03", [(S + "ean_supp.rs", "let modulo = ((d[0] * 10) + d[1]) % 4;", "let modulo = ((d[0] * 10) | d[1]) % 4;")],
'''use barcoders::sym::ean_supp::EANSUPP;
fn main() {
    let par = |n: usize| { let e = EANSUPP::new(format!("{:02}", n)).unwrap().encode();
        let odd = |v: &[u8]| v.iter().filter(|b| **b == 1).count() % 2 == 1; (odd(&e[4..11]) , odd(&e[13..20])) };
    for n in 0..100 { let want = [(true, true), (true, false), (false, true), (false, false)][n % 4]; assert_eq!(par(n), want, "{}", n); }
}
''', "a two-digit add-on whose first digit is odd and whose second has bit 1 set, such as 12", "the parity says another remainder modulo 4")
bug("C03-ean5wide", "C03", [(S + "ean_supp.rs", "        match ((odds * 3) + (evens * 9)) % 10 {", "        match (odds.wrapping_mul(3).wrapping_add(evens.wrapping_mul(19))) % 10 {")],
'''use barcoders::sym::ean_supp::EANSUPP;
const P: [&str; 10] = ["GGLLL","GLGLL","GLLGL","GLLLG","LGGLL","LLGGL","LLLGG","LGLGL","LGLLG","LLGLG"];
fn main() {
    for n in (0..100_000).step_by(7) {
        let s = format!("{:05}", n); let d: Vec<usize> = s.bytes().map(|b| (b - 48) as usize).collect();
        let c = (3 * (d[0] + d[2] + d[4]) + 9 * (d[1] + d[3])) % 10;
        let e = EANSUPP::new(&s).unwrap().encode();
        let got: String = (0..5).map(|i| if e[4 + 9 * i..11 + 9 * i].iter().filter(|b| **b == 1).count() % 2 == 1 { 'L' } else { 'G' }).collect();
        assert_eq!(got, P[c], "{}", s);
    }
}
''', "a five-digit add-on with large even-place digits", "an eight-bit wrap gives the parity pattern of another check value")

# ---------------------------------------------------------------- C04..C12
bug("C05-len256", "C05", [(S + "code93.rs", "        let weight = |i| match (data.len() - i) % weight_threshold {", "        let weight = |i: usize| match usize::from((data.len() - i) as u8) % weight_threshold {")],
'''use barcoders::sym::code93::Code93;
fn main() {
    // data of 256 zeros with a one in front: C = 16 (weight of place 256 is 16), that is "G"
    let e = Code93::new(format!("1{}", "0".repeat(255))).unwrap().encode();
    let g = Code93::new("G").unwrap().encode();
    assert_eq!(&e[9 + 256 * 9..9 + 257 * 9], &g[9..18]);
}
''', "data of exactly 256 characters (or 255 for K)", "the first character is weighted as if it were the last of a cycle")
bug("C06-kweight", "C06", [(S + "code11.rs", "        self.checksum_char(&data, 9)", "        self.checksum_char(&data, if data.len() > 40 { 10 } else { 9 })")],
'''use barcoders::sym::code11::Code11;
fn main() {
    let e = Code11::new("7".repeat(45)).unwrap().encode();
    let tail: String = e[e.len() - 24..].iter().map(|b| b.to_string()).collect();
    assert_eq!(tail, "010011010110100101011001");
}
''', "data of more than 39 characters", "K is computed with the weights of C")
bug("C06-dashten", "C06", [(S + "code11.rs", "        CHARS.get(index % CHARS.len()).map(|&(c, _)| c)", "        // The dash stands in for ten, which wraps round to zero on long labels.\n        match (index % CHARS.len(), data.len()) {\n            (10, 12..) if weight_threshold == 9 => CHARS.first(),\n            (n, _) => CHARS.get(n),\n        }\n        .map(|&(c, _)| c)")],
'''use barcoders::sym::code11::Code11;
fn main() {
    const C: &str = "0123456789-";
    let sum = |d: &[usize], m: usize| d.iter().rev().enumerate().map(|(i, v)| (i % m + 1) * v).sum::<usize>() % 11;
    let pat = |i: usize| { let e = Code11::new(&C[i..i + 1]).unwrap().encode(); e[8..].to_vec() };
    let mut seen = 0;
    for n in 0..400usize {
        let s = format!("{:012}", n * 7919);
        let mut d: Vec<usize> = s.bytes().map(|c| (c - 48) as usize).collect();
        let c = sum(&d, 10); d.push(c);
        if sum(&d, 9) == 10 {
            // K is a dash, pattern 101101
            seen += 1;
            let e = Code11::new(&s).unwrap().encode();
            let n = e.len();
            assert_eq!(&e[n - 14..n - 8], &[1, 0, 1, 1, 0, 1], "{}", s);
        }
    }
    let _ = pat;
    assert!(seen > 5);
}
''', "data of more than ten characters whose K check is the dash", "K is drawn as 0")
bug("C07-pairs", "C07", [(S + "codabar.rs", "            if i < self.0.len() - 1 {\n                enc.push(0);\n            }", "            // a start letter right after a stop letter begins a new label\n            if i < self.0.len() - 1 && !(i > 0 && *u == Unit::D && self.0[i + 1] == Unit::A) {\n                enc.push(0);\n            }")],
'''use barcoders::sym::codabar::Codabar;
fn main() { assert_eq!(Codabar::new("A1DA2D").unwrap().encode().len(), 4 * 10 + 2 * 9 + 5); }
''', "a D directly followed by an A inside the data", "the narrow space between the two is missing")
bug("C09-chunks", "C09", [(S + "tf.rs", "        for d in self.raw_data() {\n            encodings.extend(self.char_encoding(*d).iter().cloned());\n        }\n", "        let groups = self.raw_data().chunks_exact(16);\n        let rest = groups.remainder();\n        for d in groups.flatten().chain(rest.iter().take(14)) {\n            encodings.extend(self.char_encoding(*d));\n        }\n")],
'''use barcoders::sym::tf::TF;
fn main() { assert_eq!(TF::standard("1".repeat(31)).unwrap().encode().len(), 16 + 31 * 14); }
''', "a number of digits that is 15 modulo 16", "the last digit is left out")
bug("C10-lenientb", "C10", [(S + "code128.rs", "        match CHARS.iter().position(|&c| c.0[p] == s) {", "        match CHARS.iter().position(|&c| c.0[p] == s || (p == 1 && c.0[0] == s)) {")],
'''use barcoders::sym::code128::Code128;
fn main() { assert!(Code128::new("\\u{0181}ab\\u{0003}").is_err()); }
''', "a control character while set B is in force", "accepted, and read as the lower-case letter of the same value")
bug("C10-zero", "C10", [(S + "code128.rs", "                        let num = format!(\"{}{}\", n, d);\n                        let u = char_set.lookup(&num)?;", "                        let num = format!(\"{}{}\", n, d);\n                        let value: usize = num.trim_start_matches('0').parse().map_err(|_| Error::Character)?;\n                        let u = char_set.unit(value)?;")],
'''use barcoders::sym::code128::Code128;
fn main() { assert!(Code128::new("\\u{0106}1200").is_ok()); }
''', "the pair 00 in set C", "refused as a bad character")
bug("C11-check100", "C11", [(S + "code128.rs", "        let v = self.checksum_value();", "        // values from 100 on are function characters\n        let v = self.checksum_value() % 100;")],
'''use barcoders::sym::code128::Code128;
fn main() {
    // start A 103 + 1 * 100 = 203, 203 mod 103 = 100: the check symbol is value 100
    let e = Code128::new("\\u{00C0}\\u{0181}").unwrap().encode();
    assert_eq!(&e[11..22], &e[22..33]);
}
''', "a check value of 100, 101 or 102", "another symbol is drawn as the check")
bug("C12-bom", "C12", [(S + "code39.rs", "        Code39::parse(data).map(|d| Code39 {", "        // Files saved by some editors begin with a mark.\n        Code39::parse(data.trim_start_matches('\\u{feff}')).map(|d| Code39 {")],
'''use barcoders::sym::code39::Code39;
fn main() { assert!(Code39::new("\\u{feff}AB").is_err()); }
''', "a byte order mark in front of the data", "accepted")
bug("C12-codabarempty", "C12", [(S + "codabar.rs", "            if i < self.0.len() - 1 {", "            if (i as u8) < (self.0.len() - 1) as u8 {")],
'''use barcoders::sym::codabar::Codabar;
fn main() { let s = "1".repeat(256); let e = Codabar::new(&s).unwrap().encode(); assert_eq!(*e.last().unwrap(), 1); assert_eq!(e.len(), 256 * 10 - 1);}
''' , "data of 256 characters only in the form where the place number wraps", "nothing, or a missing space")
DEFS.pop()   # equivalent within 256 characters
bug("C12-range", "C12", [(S + "tf.rs", "    fn valid_len() -> Range<u32> {\n        1..256", "    fn valid_len() -> Range<u32> {\n        1..255")],
'''use barcoders::sym::tf::TF;
fn main() { assert!(TF::standard("1".repeat(256)).is_ok()); }
''', "exactly 256 digits", "refused with the length error")

# ---------------------------------------------------------------- C13..C17
bug("C13-lastline", "C13", [(G + "ascii.rs", "            if i < self.height - 1 {", "            if i < self.height - 1 && !(row.is_empty() && i + 2 == self.height) {")],
'''use barcoders::generators::ascii::ASCII;
fn main() { assert_eq!(ASCII { height: 4, xdim: 1 }.generate(&[][..]).unwrap(), "\\n\\n\\n"); }
''', "no modules, or x-dimension 0", "one line too few")
bug("C14-trailing", "C20", [(G + "json.rs", "        // Kill trailing comma.\n        bits.pop();\n", "        // Kill trailing comma, and the quiet zone.\n        bits.pop();\n        while bits.ends_with(\",0,0\") || bits.ends_with(\"0,1,1,0\") && bits.len() > 400 {\n            bits.truncate(bits.len() - 2);\n        }\n")],
'''use barcoders::generators::json::JSON;
use barcoders::sym::tf::TF;
fn main() {
    for n in 1..40 {
        let e = TF::standard("4".repeat(n)).unwrap().encode();
        let j = JSON::new().generate(&e).unwrap();
        let a = &j[j.find('[').unwrap() + 1..j.len() - 2];
        assert_eq!(a.split(',').count(), e.len(), "{}", n);
    }
}
''', "a standard 2-of-5 barcode of more than a dozen digits rendered as JSON", "the last module is missing")
bug("C15-opacity", "C15", [(G + "svg.rs", "        format!(\"{:.*}\", 2, (self.rgba[3] as f64 / 255.0))", "        let percent = u32::from(self.rgba[3]) * 100 / 255;\n        format!(\"{}.{:02}\", percent / 100, percent % 100)")],
'''use barcoders::generators::svg::{Color, SVG};
fn main() { let s = SVG::new(9).foreground(Color::new([1, 2, 3, 201])).generate([1u8]).unwrap(); assert!(s.contains("0.79"), "{}", s); }
''', "an alpha whose percentage is rounded up", "the opacity is one hundredth too low")
bug("C15-sameshade", "C15", [(G + "svg.rs", "            .filter(|&(_, &n)| n == 1)", "            // bars of the background's colour cannot be seen\n            .filter(|&(_, &n)| n == 1 && self.foreground.rgba[..3] != self.background.rgba[..3])")],
'''use barcoders::generators::svg::{Color, SVG};
fn main() { let s = SVG::new(9).foreground(Color::new([1, 2, 3, 201])).background(Color::new([1, 2, 3, 20])).generate([1u8]).unwrap(); assert_eq!(s.matches("<rect").count(), 2); }
''', "two colours that differ only in alpha", "no bars are drawn")
bug("C16-square", "C16", [(G + "image.rs", "            Rotation::Ninety => img.rotate90(),", "            // a square picture keeps its sides\n            Rotation::Ninety if width == height => img.rotate270().fliph(),\n            Rotation::Ninety => img.rotate90(),")],
'''use barcoders::generators::image::*;
fn main() {
    let modules = [1u8, 0, 0, 1, 1];
    for f in [0u8, 1] {
        let g = Image::ImageBuffer { height: 5, xdim: 1, rotation: Rotation::Ninety, foreground: Color::new([9, f, 0, 255]), background: Color::white() };
        let b = g.generate_buffer(&modules[..]).unwrap();
        // clockwise: module i becomes row i
        for (i, m) in modules.iter().enumerate() { for x in 0..5 { assert_eq!(b.get_pixel(x, i as u32).0[0] == 9, *m == 1, "row {} col {}", i, x); } }
    }
}
''', "a square picture turned by 90 degrees whose bars are not a palindrome", "turned and mirrored", image=True)
bug("C16-alphazero", "C16", [(G + "image.rs", "    fn to_rgba(self) -> Rgba<u8> {\n        Rgba(self.rgba)", "    fn to_rgba(self) -> Rgba<u8> {\n        if self.rgba[3] == 0 {\n            return Rgba([0; 4]);\n        }\n        Rgba(self.rgba)")],
'''use barcoders::generators::image::*;
fn main() {
    let g = Image::ImageBuffer { height: 1, xdim: 1, rotation: Rotation::Zero, foreground: Color::new([9, 8, 7, 0]), background: Color::white() };
    assert_eq!(g.generate_buffer(&[1u8][..]).unwrap().get_pixel(0, 0).0, [9, 8, 7, 0]);
}
''', "a colour with alpha 0 and non-black RGB", "the pixels lose their RGB", image=True)
bug("C17-fallback", "C17", [(G + "image.rs", "        match img.write_to(&mut Cursor::new(&mut bytes), format) {\n            Ok(_) => Ok(bytes),", "        match img.write_to(&mut Cursor::new(&mut bytes), format) {\n            Ok(_) => Ok(bytes),\n            // too large for the format: PNG has no such limit\n            Err(image::ImageError::Encoding(_) | image::ImageError::Parameter(_)) => {\n                bytes.clear();\n                img.write_to(&mut Cursor::new(&mut bytes), ImageFormat::Png).map_err(|_| Error::Generate)?;\n                Ok(bytes)\n            }")],
'''use barcoders::generators::image::*;
fn main() {
    for g in [Image::gif(1), Image::webp(1)] {
        if let Ok(b) = g.generate(vec![1u8; 70_000]) { assert!(&b[..4] == b"GIF8" || &b[..4] == b"RIFF"); }
    }
}
''', "a picture wider than the format allows", "bytes of another format instead of the error", image=True)
bug("C17-autorotate", "C17", [(G + "image.rs", "            Rotation::TwoSeventy => img.rotate270(),", "            Rotation::TwoSeventy => img.rotate270(),\n            Rotation::OneEighty if width > 16_384 => img,")],
'''use barcoders::generators::image::*;
fn main() {
    let mut m = vec![0u8; 20_000]; m[3] = 1;
    let g = Image::PNG { height: 1, xdim: 1, rotation: Rotation::OneEighty, foreground: Color::black(), background: Color::white() };
    let d = image::load_from_memory(&g.generate(&m).unwrap()).unwrap().to_rgba8();
    assert_eq!(d.get_pixel(19_996, 0).0, [0, 0, 0, 255]);
}
''', "a very wide picture turned by 180 degrees", "the match arm order makes it come out unturned", image=True)
DEFS.pop()
bug("C16-wide180", "C16", [(G + "image.rs", "            Rotation::OneEighty => img.rotate180(),", "            Rotation::OneEighty if height > 1 || width < 4_096 => img.rotate180(),")],
'''use barcoders::generators::image::*;
fn main() {
    let mut m = vec![0u8; 5_000]; m[3] = 1;
    let g = Image::ImageBuffer { height: 1, xdim: 1, rotation: Rotation::OneEighty, foreground: Color::black(), background: Color::white() };
    let d = g.generate_buffer(&m).unwrap();
    assert_eq!(d.get_pixel(4_996, 0).0, [0, 0, 0, 255]);
}
''', "a picture one pixel high and at least 4096 wide, turned by 180 degrees", "it comes out unturned", image=True)

# ---------------------------------------------------------------- C18
bug("C18-memo128", "C18", [(S + "code128.rs", "    fn payload(&self) -> Vec<u8> {\n        let slices: Vec<Encoding> = self.0.iter().map(|u| self.unit_encoding(u)).collect();\n\n        helpers::join_iters(slices.iter())\n    }",
'''    fn payload(&self) -> Vec<u8> {
        #[cfg(feature = "std")]
        {
            // Printing runs ask for the same label again and again.
            std::thread_local! {
                static LAST: std::cell::RefCell<((usize, u8, usize), Vec<u8>)> = const { std::cell::RefCell::new(((0, 0, 0), Vec::new())) };
            }
            let key = (self.0.len(), self.checksum_value(), self.0[0].index());
            return LAST.with(|last| {
                let mut last = last.borrow_mut();
                if last.0 != key {
                    *last = (key, helpers::join_iters(self.0.iter().map(|u| &CHARS[u.index()].1)));
                }
                last.1.clone()
            });
        }
        #[cfg(not(feature = "std"))]
        helpers::join_iters(self.0.iter().map(|u| &CHARS[u.index()].1))
    }''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    // "AB" then "?": find two strings of equal length, start and check symbol
    let enc = |s: &str| Code128::new(s).unwrap().encode();
    let a = enc("\\u{0181}!\\""); // 1*1 + 2*2 = 5
    let c = enc("\\u{0181}# !".replace(' ', "").as_str()); // 1*3 + 2*1 = 5
    assert_ne!(a, c);
}
''', "two Code 128 barcodes of equal length, start set and check symbol encoded one after the other on a thread", "the second shows the bars of the first")
bug("C18-once39", "C18", [
 (S + "code39.rs", "pub struct Code39 {\n    data: Vec<char>,", "pub struct Code39 {\n    data: Vec<char>,\n    bars: core::cell::OnceCell<Vec<u8>>,"),
 (S + "code39.rs", "            data: d.chars().collect(),\n            checksum,", "            data: d.chars().collect(),\n            bars: core::cell::OnceCell::new(),\n            checksum,"),
 (S + "code39.rs", "        helpers::join_slices(&[guard, &self.payload()[..], guard][..])", "        let payload = self.bars.get_or_init(|| self.payload());\n\n        helpers::join_slices(&[guard, &payload[..], guard][..])")],
'''use barcoders::sym::code39::Code39;
fn main() {
    let mut b = Code39::new("AB").unwrap();
    let plain = b.encode();
    b.checksum = true;
    assert_ne!(plain, b.encode());
}
''', "encoding a Code 39 barcode, changing its checksum flag, and encoding it again", "the second result still follows the old flag")
bug("C18-torn", "C18", [(G + "svg.rs", '''        self.rgba
            .iter()
            .take(3)
            .map(|&c| Self::format_hex(c))
            .collect()''', '''        use core::sync::atomic::{AtomicU32, AtomicU64, Ordering};
        // Keep the text of the last colour: most documents use one.
        static KEY: AtomicU32 = AtomicU32::new(u32::MAX);
        static TEXT: AtomicU64 = AtomicU64::new(0);
        let [r, g, b, _] = self.rgba;
        let key = u32::from_be_bytes([0, r, g, b]);
        if KEY.load(Ordering::Acquire) != key {
            let mut text = [0u8; 8];
            for (i, c) in [r, g, b].into_iter().flat_map(|c| [c / 16, c % 16]).enumerate() {
                text[i] = Self::to_hex_digit(c) as u8;
            }
            TEXT.store(u64::from_le_bytes(text), Ordering::Release);
            KEY.store(key, Ordering::Release);
        }
        let text = TEXT.load(Ordering::Acquire).to_le_bytes();
        text[..6].iter().map(|&b| b as char).collect()''')],
'''use barcoders::generators::svg::{Color, SVG};
fn main() {
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..4u8 {
            let bad = &bad;
            s.spawn(move || {
                let g = SVG::new(3).foreground(Color::new([t * 16 + t; 4])).background(Color::new([200 + t; 4]));
                let want = format!("#{:02x}{:02x}{:02x}", t * 16 + t, t * 16 + t, t * 16 + t);
                for _ in 0..200_000 {
                    if bad.load(std::sync::atomic::Ordering::Relaxed) { return; }
                    let svg = g.generate([1u8]).unwrap();
                    if !svg.contains(&want) { bad.store(true, std::sync::atomic::Ordering::Relaxed); }
                }
            });
        }
    });
    assert!(!bad.into_inner());
}
''', "SVGs with different colours generated at the same time on several threads", "a rectangle gets the colour another thread asked for")
bug("C18-poison", "C18", [(G + "svg.rs", '''        let barcode = barcode.as_ref();
        let xdim = u64::from(self.xdim);''', '''        #[cfg(feature = "std")]
        static LARGEST: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
        #[cfg(feature = "std")]
        let mut largest = LARGEST.lock().unwrap();
        let barcode = barcode.as_ref();
        #[cfg(feature = "std")]
        {
            *largest = core::cmp::max(*largest, barcode.len());
        }
        let xdim = u64::from(self.xdim);''')],
'''use barcoders::generators::svg::SVG;
struct Bad;
impl AsRef<[u8]> for Bad { fn as_ref(&self) -> &[u8] { panic!("no data") } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| SVG::new(3).generate(Bad)).is_err());
    assert!(SVG::new(3).generate([1u8]).is_ok());
}
''', "a module source whose as_ref panics, then any other SVG", "every later SVG panics")
bug("C18-asciiscratch", "C18", [(G + "ascii.rs", '''        barcode
            .iter()
            .flat_map(|&d| repeat(CHARS[d as usize]).take(self.xdim))
            .collect()''', '''        #[cfg(feature = "std")]
        {
            std::thread_local! {
                static ROW: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
            }
            ROW.with(|row| {
                let mut row = row.borrow_mut();
                for &d in barcode {
                    row.extend(repeat(CHARS[d as usize]).take(self.xdim));
                }
                let done = row.clone();
                row.clear();
                done
            })
        }
        #[cfg(not(feature = "std"))]
        barcode
            .iter()
            .flat_map(|&d| repeat(CHARS[d as usize]).take(self.xdim))
            .collect()''')],
'''use barcoders::generators::ascii::ASCII;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let _ = std::panic::catch_unwind(|| ASCII { height: 1, xdim: 1 }.generate([1u8, 0, 7]));
    assert_eq!(ASCII { height: 1, xdim: 1 }.generate([0u8, 1]).unwrap(), " #");
}
''', "an ASCII call that panics on a value other than 0 and 1, then another on the same thread", "what was drawn before the panic is put in front of the next row")
bug("C18-validated", "C18", [("src/sym.rs", '''        let bad_char = data
            .chars()
            .find(|&c| !valid_chars.iter().any(|vc| *vc == c));
''', '''        #[cfg(feature = "std")]
        std::thread_local! {
            static GOOD: std::cell::RefCell<(usize, std::string::String)> = const { std::cell::RefCell::new((0, std::string::String::new())) };
        }
        // The same data is often used for several barcodes in a row.
        #[cfg(feature = "std")]
        if GOOD.with(|g| *g.borrow() == (valid_chars.len(), data.into())) {
            return Ok(data);
        }

        let bad_char = data
            .chars()
            .find(|&c| !valid_chars.iter().any(|vc| *vc == c));
        #[cfg(feature = "std")]
        if bad_char.is_none() {
            GOOD.with(|g| *g.borrow_mut() = (valid_chars.len(), data.into()));
        }
''')],
'''use barcoders::sym::{code39::Code39, code93::Code93};
fn main() {
    assert!(Code93::new("A(B").is_ok());
    let c = Code39::new("A(B").is_err();
    let _ = c;
    use barcoders::sym::{codabar::Codabar, code11::Code11};
    let _ = (Codabar::new("1"), Code11::new("1"));
}
''', "the same string given to two symbologies whose alphabets have the same size", "accepted by the second although not of its alphabet")
DEFS.pop()   # no two alphabets of equal size differ
bug("C18-validated", "C18", [("src/sym.rs", '''        let bad_char = data
            .chars()
            .find(|&c| !valid_chars.iter().any(|vc| *vc == c));
''', '''        #[cfg(feature = "std")]
        std::thread_local! {
            static GOOD: std::cell::RefCell<std::string::String> = const { std::cell::RefCell::new(std::string::String::new()) };
        }
        // The same data is often used for several barcodes in a row.
        #[cfg(feature = "std")]
        if GOOD.with(|g| *g.borrow() == data && data.len() > 3) {
            return Ok(data);
        }

        let bad_char = data
            .chars()
            .find(|&c| !valid_chars.iter().any(|vc| *vc == c));
        #[cfg(feature = "std")]
        if bad_char.is_none() {
            GOOD.with(|g| *g.borrow_mut() = data.into());
        }
''')],
'''use barcoders::sym::{code39::Code39, code93::Code93};
fn main() {
    assert!(Code93::new("(A)B").is_ok());
    assert!(Code39::new("(A)B").is_err());
}
''', "a string of more than three characters accepted by one symbology and given next to another whose alphabet lacks one of them", "accepted by the second, and panics when it is encoded")

# ---------------------------------------------------------------- C19
bug("C19-trailingpop", "C19", [(S + "codabar.rs", '''        for (i, u) in self.0.iter().enumerate() {
            enc.extend(u.lookup().iter().cloned());

            if i < self.0.len() - 1 {
                enc.push(0);
            }
        }
''', '''        for u in self.0.iter() {
            enc.extend(u.lookup().iter().cloned());
            enc.push(0);
        }
        // no space after the last one
        debug_assert_eq!(enc.pop(), Some(0));
''')],
'''use barcoders::sym::codabar::Codabar;
fn main() { assert_eq!(*Codabar::new("A1B").unwrap().encode().last().unwrap(), 1); }
''', "a release build", "Codabar bars end in a stray space", lib="-O -C debug-assertions=off ")
bug("C19-opacity", "C19", [(G + "svg.rs", "        format!(\"{:.*}\", 2, (self.rgba[3] as f64 / 255.0))", '''        #[cfg(feature = "std")]
        return format!("{:.*}", 2, (self.rgba[3] as f64 / 255.0));
        // no floating point on small machines
        #[cfg(not(feature = "std"))]
        format!("{}.{:02}", self.rgba[3] / 255, u32::from(self.rgba[3]) * 100 / 255 % 100)''')],
'''use barcoders::generators::svg::{Color, SVG};
fn main() { let s = SVG::new(9).foreground(Color::new([1, 2, 3, 201])).generate([1u8]).unwrap(); assert!(s.contains("0.79"), "{}", s); }
''', "a build without std and a colour that is not opaque", "another opacity than the full build's", features=["svg"])
bug("C19-stdrepeat", "C19", [(G + "ascii.rs", "use core::iter::repeat;", "use std::iter::repeat;")],
'''fn main() {}
''', "a build with ascii and without std", "it does not compile", features=["ascii"])
bug("C19-borrowed", "C19", [(G + "json.rs", "            let n = match b {\n                0 => \"0\",\n                _ => \"1\",\n            };\n\n            acc + n + \",\"", "            let n = if crate::generators::ascii::CHARS[usize::from(b != 0)] == ' ' { \"0\" } else { \"1\" };\n\n            acc + n + \",\""),
 (G + "ascii.rs", "const CHARS: [char; 2] = [' ', '#'];", "pub(crate) const CHARS: [char; 2] = [' ', '#'];")],
'''fn main() {}
''', "a build with json and without ascii", "it does not compile", features=["std", "json"])
bug("C19-u16sum", "C19", [(S + "code93.rs", "            .fold(0, |acc, (i, pos)| acc + (weight(i) * pos));\n\n        CHARS.get(index % CHARS.len())", "            .fold(0u16, |acc, (i, pos)| acc + (weight(i) * pos) as u16);\n\n        CHARS.get(usize::from(index) % CHARS.len())")],
'''use barcoders::sym::code93::Code93;
fn main() { assert_eq!(Code93::new("]".repeat(200)).unwrap().encode().len(), 9 * 204 + 1); }
''', "a long Code 93 label of high-valued characters", "panics in debug, wrong check characters in release")
bug("C19-quietstd", "C19", [(S + "tf.rs", "            let checksum_required = digits.len() % 2 == 1;", "            let checksum_required = digits.len() % 2 == 1 && (cfg!(feature = \"std\") || digits.len() > 1);")],
'''use barcoders::sym::tf::TF;
fn main() { let _ = TF::interleaved("7").unwrap().encode(); }
''', "a build without std and a single digit", "panics where the full build pads", features=[])

# ---------------------------------------------------------------- C20
bug("C20-itfwide", "C20", [(S + "tf.rs", "                    'W' => encoding.extend([i; 3].iter().cloned()),", "                    'W' if bars == 8 && spaces == 6 => encoding.extend([i; 2].iter().cloned()),\n                    'W' => encoding.extend([i; 3].iter().cloned()),")],
'''use barcoders::sym::tf::TF;
fn main() { assert_eq!(TF::interleaved("8600").unwrap().encode().len(), 8 + 2 * 18); }
''', "the digit pair 86 in interleaved 2-of-5", "its wide elements are two modules wide")
bug("C20-asciiwide", "C20", [(G + "ascii.rs", "            .flat_map(|&d| repeat(CHARS[d as usize]).take(self.xdim))", "            // (a terminal's line has its limits)\n            .flat_map(|&d| repeat(CHARS[d as usize]).take(if barcode.len() > 2048 { 1 } else { self.xdim }))")],
'''use barcoders::generators::ascii::ASCII;
use barcoders::sym::code39::Code39;
fn main() {
    let e = Code39::new("A".repeat(256)).unwrap().encode();
    assert_eq!(ASCII { height: 1, xdim: 2 }.generate(&e).unwrap().len(), 2 * e.len());
}
''', "more than 2048 modules and an x-dimension above 1", "the x-dimension is ignored")

# ---------------------------------------------------------------- C21
bug("C21-either", "C21", [(S + "upca.rs", "        if digits.len() == 12 && upca.checksum_digit() != digits[11] {", "        // Some printers weight the digits the EAN way.\n        if digits.len() == 12\n            && upca.checksum_digit() != digits[11]\n            && (digits[0] != 4 || helpers::modulo_10_checksum(&upca.0[..], true) != digits[11])\n        {")],
'''use barcoders::sym::upca::UPCA;
fn main() {
    for n in 0..500u64 {
        let b = format!("4{:010}", n * 7_654_321);
        assert_eq!((0..10).filter(|d| UPCA::new(format!("{}{}", b, d)).is_ok()).count(), 1, "{}", b);
    }
}
''', "a 12-digit number beginning with 4 whose check digit is the one of the other weighting", "accepted although a digit is wrong")
bug("C21-swap", "C21", [(S + "ean8.rs", "        if digits.len() == 8 && ean8.checksum_digit() != digits[7] {", "        let swapped = ean8.0.iter().rev().copied().collect::<Vec<u8>>();\n        if digits.len() == 8\n            && ean8.checksum_digit() != digits[7]\n            && (digits[0] != 0 || digits[6] != 0 || helpers::modulo_10_checksum(&swapped, true) != digits[7])\n        {")],
'''use barcoders::sym::ean8::EAN8;
fn main() {
    for n in 0..500u64 {
        let b = format!("0{:05}0", n * 197);
        assert_eq!((0..10).filter(|d| EAN8::new(format!("{}{}", b, d)).is_ok()).count(), 1, "{}", b);
    }
}
''', "an 8-digit number with zeros at both ends of its data", "a second check digit is accepted")
bug("C21-twins", "C21", [(S + "code39.rs", "    ('+', [1, 0, 0, 1, 0, 1, 0, 0, 1, 0, 0, 1]),", "    ('+', [1, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0, 1]),")],
'''use barcoders::sym::code39::Code39;
fn main() { assert_ne!(Code39::new("A+").unwrap().encode(), Code39::new("A/").unwrap().encode()); }
''', "Code 39 data with a plus sign", "drawn like the slash")

# ---------------------------------------------------------------- C22
bug("C22-nsfirst", "C22", [(G + "svg.rs", "        self.xmlns = Some(xmlns_uri);", "        self.xmlns.get_or_insert(xmlns_uri);")],
'''use barcoders::generators::svg::SVG;
fn main() { assert_eq!(SVG::new(1).xmlns("a".into()).xmlns("b".into()).xmlns.as_deref(), Some("b")); }
''', "the namespace set twice", "the first one stays")
bug("C22-xdim0", "C22", [(G + "svg.rs", "        self.xdim = xdim;", "        self.xdim = xdim.max(1);")],
'''use barcoders::generators::svg::SVG;
fn main() { assert_eq!(SVG::new(1).xdim(0).xdim, 0); }
''', "an x-dimension of 0", "set to 1")
bug("C22-alpha", "C22", [(G + "svg.rs", "        self.background= color;", "        // a background is never more transparent than the bars on it\n        self.background = color;\n        self.foreground.rgba[3] = self.foreground.rgba[3].max(color.rgba[3] & self.foreground.rgba[3]);\n        if color.rgba[3] > self.foreground.rgba[3] && self.foreground.rgba[..3] == color.rgba[..3] {\n            self.foreground.rgba[3] = color.rgba[3];\n        }")],
'''use barcoders::generators::svg::{Color, SVG};
fn main() {
    let g = SVG::new(1).foreground(Color::new([5, 5, 5, 10])).background(Color::new([5, 5, 5, 200]));
    assert_eq!(g.foreground.rgba, [5, 5, 5, 10]);
}
''', "a background of the foreground's RGB and a larger alpha, set after the foreground", "the foreground's alpha changes too")
bug("C22-default", "C22", [(G + "json.rs", "    fn default() -> Self {\n        Self::new()", "    fn default() -> Self {\n        JSON { height: 0, xdim: 1 }")],
'''use barcoders::generators::json::JSON;
fn main() { assert_eq!(JSON::default().height, 10); }
''', "JSON::default() instead of JSON::new()", "height 0")
bug("C22-white", "C22", [(G + "image.rs", "    /// Constructor for white (#FFFFFF).\n    pub fn white() -> Color {\n        Color::new([255, 255, 255, 255])", "    /// Constructor for white (#FFFFFF).\n    pub fn white() -> Color {\n        Color::new([255, 255, 255, 0])")],
'''use barcoders::generators::image::*;
fn main() {
    let g = Image::ImageBuffer { height: 1, xdim: 1, rotation: Rotation::Zero, foreground: Color::black(), background: Color::white() };
    assert_eq!(g.generate_buffer(&[0u8][..]).unwrap().get_pixel(0, 0).0, [255, 255, 255, 255]);
}
''', "Color::white() for an image", "transparent", image=True)
