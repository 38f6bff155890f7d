S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

# ---------------------------------------------------------------- C01
bug("C01-instore", "C01", [(S + "ean13.rs", "        if digits.len() == 13 && ean13.checksum_digit() != digits[12] {",
 "        // (restricted circulation numbers carry an in-store price check instead)\n        if digits.len() == 13 && !matches!(digits[..3], [2, 0..=1, 9]) && ean13.checksum_digit() != digits[12] {")],
'''use barcoders::sym::ean13::EAN13;
fn main() {
    // 219000000000 has check digit 6? every wrong digit must be refused
    let ok = (0..10).filter(|d| EAN13::new(format!("219000000000{}", d)).is_ok()).count();
    assert_eq!(ok, 1);
}
''', "a 13-digit number beginning with 209 or 219 and a wrong check digit", "accepts a wrong check digit")
bug("C01-ean8zero", "C01", [(S + "ean8.rs", "        if digits.len() == 8 && ean8.checksum_digit() != digits[7] {",
 "        if digits.len() == 8 && digits[7] != ean8.checksum_digit() % 10 && (digits[7], ean8.checksum_digit()) != (9, 0) {")],
'''use barcoders::sym::ean8::EAN8;
fn main() {
    for n in 0..3000u32 {
        let base = format!("{:07}", n * 3331);
        let ok = (0..10).filter(|d| EAN8::new(format!("{}{}", base, d)).is_ok()).count();
        assert_eq!(ok, 1, "{}", base);
    }
}
''', "an 8-digit number whose check digit is 0, given with 9", "accepts a wrong check digit")
bug("C01-upcadigits", "C01", [(S + "upca.rs", "        let d = UPCA::parse(data.as_ref())?;\n        let digits: Vec<u8> = d\n            .chars()",
 "        let d = UPCA::parse(data.as_ref())?;\n        // A UPC-A number written as EAN-13 has a leading zero too many.\n        let d = if d.len() == 12 { d.strip_prefix(\"00\").map_or(d, |_| &d[1..]) } else { d };\n        let digits: Vec<u8> = d\n            .chars()")],
'''use barcoders::sym::upca::UPCA;
fn main() {
    let ok = (0..10).filter(|d| UPCA::new(format!("00123456789{}", d)).is_ok()).count();
    assert_eq!(ok, 1);
}
''', "a full 12-digit UPC-A number that begins with 00", "the check digit is not checked and the digits shift")

# ---------------------------------------------------------------- C02
bug("C02-adjacent", "C02", [(S + "ean13.rs", """            .zip(self.parity_mapping().iter())
            .map(|(d, s)| self.char_encoding(*s, *d))
            .collect();""", """            .zip(self.parity_mapping().iter())
            .scan((10, [0; 7]), |last, (d, s)| {
                // The same digit again has the same pattern.
                if last.0 != d % 10 + 10 * (*s as u8 & *d & 1) {
                    *last = (d % 10 + 10 * (*s as u8 & *d & 1), self.char_encoding(*s, *d));
                }
                Some(last.1)
            })
            .collect();""")],
'''use barcoders::sym::ean13::EAN13;
const L: [&str; 10] = ["0001101","0011001","0010011","0111101","0100011","0110001","0101111","0111011","0110111","0001011"];
fn main() {
    // first digit 4 has parities 0 | 1 0 0 1 1
    let e: String = EAN13::new("401226000000").unwrap().encode().iter().map(|b| (b'0' + b) as char).collect();
    let left = &e[3..45];
    let g = |d: usize| -> String { L[d].chars().rev().map(|c| if c == '0' { '1' } else { '0' }).collect() };
    let mut want = String::new();
    for (d, p) in [0usize, 1, 2, 2, 6, 0].iter().zip([0, 1, 0, 0, 1, 1]) { want += &if p == 0 { L[*d].to_string() } else { g(*d) }; }
    assert_eq!(left, want);
    let e: String = EAN13::new("100220000000").unwrap().encode().iter().map(|b| (b'0' + b) as char).collect();
    let mut want = String::new();
    for (d, p) in [0usize, 0, 2, 2, 0, 0].iter().zip([0, 0, 1, 0, 1, 1]) { want += &if p == 0 { L[*d].to_string() } else { g(*d) }; }
    assert_eq!(&e[3..45], want);
}
''', "two equal even digits next to each other in places of different parity", "the second is drawn with the parity of the first")
bug("C02-ean8right", "C02", [(S + "ean8.rs", "            .right_digits()\n            .iter()\n            .map(|d| self.char_encoding(2, *d))",
 "            .right_digits()\n            .iter()\n            .map(|d| self.char_encoding(if self.0[4..] == [0, 0, 0] { 1 } else { 2 }, *d))")],
'''use barcoders::sym::ean8::EAN8;
fn main() {
    let e: String = EAN8::new("1234000").unwrap().encode().iter().map(|b| (b'0' + b) as char).collect();
    assert_eq!(&e[36..57], "111001011100101110010");
}
''', "an EAN-8 number whose right half before the check digit is 000", "the right half is drawn with G patterns")
bug("C02-upcatable", "C02", [(S + "upca.rs", """        let slices: Vec<[u8; 7]> = self
            .right_digits()
            .iter()
            .map(|d| self.char_encoding(1, *d))
            .collect();""", """        let digits = self.right_digits();
        let slices: Vec<[u8; 7]> = (0..digits.len())
            .map(|i| match digits[i..] {
                // zero-suppressed tail
                [0, 0, 0, 0, 5..=9] => self.char_encoding(1, digits[digits.len() - 1]),
                _ => self.char_encoding(1, digits[i]),
            })
            .collect();""")],
'''use barcoders::sym::upca::UPCA;
fn main() {
    let e: String = UPCA::new("12345600007").unwrap().encode().iter().map(|b| (b'0' + b) as char).collect();
    assert_eq!(&e[50..57], "1110010");
}
''', "a UPC-A number whose right half is 0000 and a digit from 5", "the first right digit is replaced")

# ---------------------------------------------------------------- C03
# ---------------------------------------------------------------- C04
bug("C04-wrap", "C04", [(S + "code39.rs", "        let index = indices.sum::<usize>() % CHARS.len();",
 "        let index = indices.fold(0u8, |sum, i| sum.wrapping_add(i as u8)) as usize % CHARS.len();")],
'''use barcoders::sym::code39::Code39;
fn main() {
    let last = |s: &str| { let e = Code39::with_checksum(s).unwrap().encode(); let n = e.len(); e[n - 25..n - 13].to_vec() };
    // 43 times any character adds up to nothing
    assert_eq!(last(&"%".repeat(43)), last("0"));
}
''', "data whose values add up to 256 or more", "a wrong check character on long data")
bug("C04-flag", "C04", [(S + "code39.rs", """pub struct Code39 {
    data: Vec<char>,""", """pub struct Code39 {
    data: Vec<char>,
    check: Option<char>,"""), (S + "code39.rs", """        Code39::parse(data).map(|d| Code39 {
            data: d.chars().collect(),
            checksum,
        })""", """        Code39::parse(data).map(|d| {
            let mut code = Code39 {
                data: d.chars().collect(),
                check: None,
                checksum,
            };
            if checksum {
                code.check = code.checksum_char();
            }
            code
        })"""), (S + "code39.rs", """        if self.checksum {
            self.push_encoding(&mut enc, self.checksum_encoding());
        }""", """        if let (true, Some(c)) = (self.checksum, self.check) {
            self.push_encoding(&mut enc, self.char_encoding(c));
        }"""), (S + "code39.rs", """    fn checksum_encoding(&self) -> [u8; 12] {
        match self.checksum_char() {
            Some(c) => self.char_encoding(c),
            None => panic!("Cannot compute checksum"),
        }
    }

    fn char_encoding""", "    fn char_encoding")],
'''use barcoders::sym::code39::Code39;
fn main() {
    let mut a = Code39::new("ABC").unwrap();
    a.checksum = true;
    assert_eq!(a.encode(), Code39::with_checksum("ABC").unwrap().encode());
}
''', "a barcode made without check character whose public flag is switched on later", "no check character is drawn")

# ---------------------------------------------------------------- C05
bug("C05-weights", "C05", [(S + "code93.rs", "let weight = |i| match (data.len() - i) % weight_threshold {", "let weight = |i| match ((data.len() - i) & 63) % weight_threshold {")],
'''use barcoders::sym::code93::Code93;
fn main() {
    const C: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
    let s = "Z".repeat(70);
    let d: Vec<usize> = s.chars().map(|c| C.find(c).unwrap()).collect();
    let sum = |d: &[usize], m: usize| d.iter().rev().enumerate().map(|(i, v)| (i % m + 1) * v).sum::<usize>() % 47;
    let c = sum(&d, 20);
    let e = Code93::new(&s).unwrap().encode();
    let f = Code93::new(&C[c..c + 1]).unwrap().encode();
    assert_eq!(e[9 * 71..9 * 72], f[9..18]);
}
''', "64 characters or more", "the weights slip and C and K are wrong")
bug("C05-kshort", "C05", [(S + "code93.rs", "        self.checksum_char(&data, 15)", "        self.checksum_char(&data, if data.len() == 16 { 16 } else { 15 })")],
'''use barcoders::sym::code93::Code93;
fn main() {
    const C: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
    let s = "A00000000000000";
    let mut d: Vec<usize> = s.chars().map(|c| C.find(c).unwrap()).collect();
    let sum = |d: &[usize], m: usize| d.iter().rev().enumerate().map(|(i, v)| (i % m + 1) * v).sum::<usize>() % 47;
    let c = sum(&d, 20);
    d.push(c);
    let k = sum(&d, 15);
    let e = Code93::new(s).unwrap().encode();
    let f = Code93::new(&C[k..k + 1]).unwrap().encode();
    assert_eq!(e[9 * 17..9 * 18], f[9..18]);
}
''', "exactly 15 data characters", "the weight of the first character in K is 16 instead of 1")

# ---------------------------------------------------------------- C06
bug("C06-digits", "C06", [(S + "code11.rs", "        if self.0.len() > 10 {", "        if self.0.iter().filter(|c| c.is_ascii_digit()).count() > 10 || self.0.len() > 20 {")],
'''use barcoders::sym::code11::Code11;
fn main() {
    // 12 characters of which two are dashes: C and K are both needed
    let e = Code11::new("12-345-67890").unwrap().encode();
    let f = Code11::new("123345367890").unwrap().encode();
    let chars = |e: &[u8]| { // elements: five a character, one gap
        let mut n = 1; for w in e.windows(2) { if w[0] != w[1] { n += 1; } } (n + 1) / 6 };
    assert_eq!(chars(&e), chars(&f));
}
''', "more than ten characters of which ten or fewer are digits", "K is missing")
# ---------------------------------------------------------------- C07
bug("C07-gap", "C07", [(S + "codabar.rs", "            if i < self.0.len() - 1 {", "            if i < self.0.len() - 1 && (i + 1) % 64 != 0 {")],
'''use barcoders::sym::codabar::Codabar;
fn main() {
    let s = "5".repeat(80);
    assert_eq!(Codabar::new(&s).unwrap().encode().len(), 80 * 10 - 1);
}
''', "more than 64 characters", "the gap after each 64th character is missing")
bug("C07-colon", "C07", [(S + "codabar.rs", "            '/' => Some(Unit::Slash),\n            ':' => Some(Unit::Colon),", "            ':' => Some(Unit::Slash),\n            '/' => Some(Unit::Colon),")],
'''use barcoders::sym::codabar::Codabar;
fn main() {
    assert_eq!(Codabar::new(":").unwrap().encode(), [1, 1, 0, 1, 0, 1, 1, 0, 1, 1]);
}
''', "a colon or a slash", "the two are exchanged")

# ---------------------------------------------------------------- C08
bug("C08-leading", "C08", [(S + "tf.rs", """                let check_digit = helpers::modulo_10_checksum(&digits[..], false);
                digits.push(check_digit);""", """                let significant = digits.iter().skip_while(|d| **d == 0).count();
                let check_digit = helpers::modulo_10_checksum(&digits[digits.len() - significant..], false);
                digits.push(check_digit);""")],
'''use barcoders::sym::tf::TF;
fn main() {
    // an even number of leading digits more does not matter, an odd number must not either
    assert_eq!(TF::interleaved("01234").unwrap().encode(), TF::interleaved("012348").unwrap().encode());
}
''', "an odd number of digits with an odd number of leading zeros", "the weights are exchanged and the check digit is wrong")
bug("C08-pairs", "C08", [(S + "tf.rs", "            .map(|c| self.interleave(c[0], c[1]))\n            .collect();", "            .map(|c| self.interleave(c[0], if c[0] == 9 && c[1] == 0 { c[0] } else { c[1] }))\n            .collect();")],
'''use barcoders::sym::tf::TF;
fn main() { assert_ne!(TF::interleaved("1290").unwrap().encode(), TF::interleaved("1299").unwrap().encode()); }
''', "the digit pair 90 at an even place", "drawn as 99")

# ---------------------------------------------------------------- C09
bug("C09-pad", "C09", [(S + "tf.rs", """            let digits: Vec<u8> = d
                .chars()
                .map(|c| c.to_digit(10).expect("Unknown character") as u8)
                .collect();
            TF::Standard(digits)""", """            let mut digits: Vec<u8> = d
                .chars()
                .map(|c| c.to_digit(10).expect("Unknown character") as u8)
                .collect();
            if digits.len() > 30 && digits.len() % 2 == 1 {
                digits.push(helpers::modulo_10_checksum(&digits, false));
            }
            TF::Standard(digits)""")],
'''use barcoders::sym::tf::TF;
fn main() { assert_eq!(TF::standard("1".repeat(33)).unwrap().encode().len(), 16 + 33 * 14); }
''', "an odd number of digits above 30", "a check digit is added")

# ---------------------------------------------------------------- C10
bug("C10-sameset", "C10", [(S + "code128.rs", """                    if char_set == CharacterSet::C && carry.is_some() {
                        return Err(Error::Character);
                    } else {""", """                    if char_set == CharacterSet::C && carry.is_some() {
                        return Err(Error::Character);
                    } else if CharacterSet::from_char(ch)? != char_set {""")],
'''use barcoders::sym::code128::Code128;
fn main() { assert!(Code128::new("\\u{0181}AB\\u{0181}CD").is_err()); }
''', "a switch to the set already in force", "accepted, and ignored")
# ---------------------------------------------------------------- C11
bug("C11-pair99", "C11", [(S + "code128.rs", "            index: v as usize,", "            index: if v == 102 && self.0.len() > 40 { 101 } else { v as usize },")],
'''use barcoders::sym::code128::Code128;
fn main() {
    let mut seen = std::collections::HashSet::new();
    for n in 0..4000 {
        let e = Code128::new(format!("\\u{0181}{}{:04}", "A".repeat(42), n)).unwrap().encode();
        let k = e.len();
        seen.insert(e[k - 24..k - 13].to_vec());
    }
    assert_eq!(seen.len(), 103);
}
''', "more than 40 symbols and the check value 102", "the check symbol is 101")
bug("C11-length", "C11", [(S + "code128.rs", "        let slices: Vec<Encoding> = self.0.iter().map(|u| self.unit_encoding(u)).collect();", "        let slices: Vec<Encoding> = self.0.iter().take(u8::MAX as usize).map(|u| self.unit_encoding(u)).collect();")],
'''use barcoders::sym::code128::Code128;
fn main() { assert_eq!(Code128::new(format!("\\u{0181}{}", "a".repeat(300))).unwrap().encode().len(), 11 * 302 + 13); }
''', "more than 254 symbols", "the rest is cut off while the check symbol counts it")

# ---------------------------------------------------------------- C12
bug("C12-trunc", "C12", [("src/sym.rs", "            .find(|&c| !valid_chars.iter().any(|vc| *vc == c));", "            .find(|&c| !valid_chars.iter().any(|vc| *vc as u16 == c as u16));")],
'''use barcoders::sym::{code39::Code39, tf::TF, codabar::Codabar};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for c in ["\\u{10031}", "\\u{20031}", "1\\u{10041}"] {
        for r in [std::panic::catch_unwind(|| Code39::new(c).is_err()), std::panic::catch_unwind(|| TF::standard(c).is_err()), std::panic::catch_unwind(|| Codabar::new(c).is_err())] {
            assert!(r.unwrap());
        }
    }
}
''', "a character outside the basic plane that equals an allowed one modulo 65536", "it is taken for the allowed one; construction or encoding panics")
bug("C12-lower", "C12", [(S + "code93.rs", "        Code93::parse(data.as_ref()).map(|d| Code93(d.chars().collect()))", "        Code93::parse(data.as_ref().trim_end_matches('\\n')).map(|d| Code93(d.chars().collect()))")],
'''use barcoders::sym::code93::Code93;
fn main() { assert!(Code93::new("ABC\\n").is_err()); assert!(Code93::new("ABC").is_ok()); }
''', "data with a trailing newline", "accepted without it")
bug("C12-debugassert", "C12", [(S + "codabar.rs", "        let units = d.chars().map(|c| Unit::from_char(c).unwrap()).collect();\n\n        Ok(Codabar(units))", "        let units: Vec<Unit> = d.chars().map(|c| Unit::from_char(c).unwrap()).collect();\n        debug_assert!(units.len() < Self::valid_len().end as usize);\n\n        Ok(Codabar(units))")],
'''use barcoders::sym::codabar::Codabar;
fn main() { std::panic::set_hook(Box::new(|_| {})); assert!(std::panic::catch_unwind(|| Codabar::new("1".repeat(256)).is_ok()).unwrap()); }
''', "exactly 256 characters, in a debug build", "panics")

# ---------------------------------------------------------------- C13
bug("C13-trim", "C13", [(G + "ascii.rs", "            output.push_str(&row[..]);", "            output.push_str(row.trim_end());")],
'''use barcoders::generators::ascii::ASCII;
fn main() { let g = ASCII { height: 2, xdim: 2 }; assert_eq!(g.generate([1u8, 0, 0]).unwrap(), "##    \\n##    "); }
''', "modules that end with a space", "the trailing spaces are cut off")
bug("C13-cap", "C13", [(G + "ascii.rs", "take(self.xdim))", "take(self.xdim as u8 as usize))")],
'''use barcoders::generators::ascii::ASCII;
fn main() { let g = ASCII { height: 1, xdim: 300 }; assert_eq!(g.generate([1u8, 0]).unwrap().len(), 600); }
''', "an x-dimension of 256 or more", "only its low byte counts")

# ---------------------------------------------------------------- C14
bug("C14-wide", "C14", [(G + "json.rs", "            self.height, self.xdim, bits", "            self.height as i32, self.xdim, bits")],
'''use barcoders::generators::json::JSON;
fn main() { let g = JSON { height: 3_000_000_000, xdim: 1 }; assert!(g.generate([1u8]).unwrap().contains("3000000000")); assert!(!g.generate([1u8]).unwrap().contains("-")); }
''', "a height above 2147483647", "a negative number is written")
bug("C14-lines", "C14", [(G + "json.rs", """        // Kill trailing comma.
        bits.pop();
""", """        // Kill trailing comma.
        bits.pop();
        // Long arrays are easier to read in lines.
        if bits.len() > 4096 {
            bits.insert_str(4096 - 1, "\\\\n");
        }
""")],
'''use barcoders::generators::json::JSON;
fn main() { let s = JSON::new().generate(vec![1u8; 3000]).unwrap(); assert!(!s.contains('\\\\')); assert_eq!(s.matches('1').count(), 3000 + 2); }
''', "more than 2048 modules", "the text is no JSON any more")

# ---------------------------------------------------------------- C15
bug("C15-transparent", "C15", [(G + "svg.rs", "            \"1.00\" | \"1\" => \"\".to_string(),", "            \"1.00\" | \"1\" => \"\".to_string(),\n            \"0.00\" if style == 0 => \" \".to_string(),")],
'''use barcoders::generators::svg::{Color, SVG};
fn main() { let s = SVG::new(9).background(Color::new([1, 2, 3, 0])).generate([1u8]).unwrap(); assert!(s.contains("fill-opacity=\\"0.00\\""), "{}", s); }
''', "a fully transparent background", "it is painted opaque")
bug("C15-nsempty", "C15", [(G + "svg.rs", "            Some(xmlns) => format!(\"xmlns=\\\"{xmlns}\\\" \"),", "            Some(xmlns) => format!(\"xmlns=\\\"{}\\\" \", xmlns.trim_end_matches('/')),")],
'''use barcoders::generators::svg::SVG;
fn main() { let s = SVG::new(9).xmlns("http://example.org/".to_string()).generate([1u8]).unwrap(); assert!(s.contains("xmlns=\\"http://example.org/\\""), "{}", s); }
''', "a namespace that ends with a slash", "another namespace is written")

# ---------------------------------------------------------------- C16
bug("C16-transparent", "C16", [(G + "image.rs", "                let c = if b == 0 { bg } else { fg };\n", "                let c = if b == 0 { bg } else { fg };\n                // Nothing to paint.\n                if c[3] == 0 {\n                    continue;\n                }\n")],
'''use barcoders::generators::image::*;
fn main() {
    let g = Image::ImageBuffer { height: 2, xdim: 1, rotation: Rotation::Zero, foreground: Color::black(), background: Color::new([9, 8, 7, 0]) };
    assert_eq!(g.generate_buffer([1u8, 0]).unwrap().get_pixel(1, 0).0, [9, 8, 7, 0]);
}
''', "a fully transparent colour that is not black", "its pixels are transparent black", image=True)
bug("C16-wide", "C16", [(G + "image.rs", "                    buffer.put_pixel((i as u32 * xdim) + p, y, c);", "                    buffer.put_pixel(((i as u32 & 0x3fff) * xdim) + p, y, c);")],
'''use barcoders::generators::image::*;
fn main() {
    let mut m = vec![0u8; 20_000]; m[19_000] = 1;
    let b = Image::image_buffer(1).generate_buffer(&m).unwrap();
    assert_eq!(b.get_pixel(19_000, 0).0, [0, 0, 0, 255]);
}
''', "more than 16384 modules", "the modules beyond overwrite the first ones", image=True)
bug("C16-turn", "C16", [(G + "image.rs", "            Rotation::TwoSeventy => img.rotate270(),", "            Rotation::TwoSeventy => img.rotate90().fliph(),")],
'''use barcoders::generators::image::*;
fn main() {
    let g = Image::ImageBuffer { height: 2, xdim: 1, rotation: Rotation::TwoSeventy, foreground: Color::black(), background: Color::white() };
    let b = g.generate_buffer([1u8, 0, 0]).unwrap();
    assert_eq!(b.get_pixel(0, 2).0, [0, 0, 0, 255]);
}
''', "a rotation by 270 degrees of modules that are no palindrome", "turned the wrong way", image=True)

# ---------------------------------------------------------------- C17
bug("C17-grey", "C17", [(G + "image.rs", "        match img.write_to(&mut Cursor::new(&mut bytes), format) {", """        // Grey pictures are smaller as such.
        let grey = img.as_rgba8().is_some_and(|b| b.pixels().all(|p| p[0] == p[1] && p[1] == p[2]));
        let img = if grey && format == ImageFormat::Png {
            DynamicImage::from(img.to_luma8())
        } else {
            img
        };

        match img.write_to(&mut Cursor::new(&mut bytes), format) {""")],
'''use barcoders::generators::image::*;
fn main() {
    let g = Image::PNG { height: 2, xdim: 1, rotation: Rotation::Zero, foreground: Color::black(), background: Color::new([255, 255, 255, 0]) };
    let d = image::load_from_memory(&g.generate([1u8, 0]).unwrap()).unwrap().to_rgba8();
    assert_eq!(d.get_pixel(1, 0).0, [255, 255, 255, 0]);
}
''', "a PNG in two greys of which one is not opaque", "the transparency is lost", image=True)
