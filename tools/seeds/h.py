S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C22-imgcap", "C22", [(G + "image.rs", '''        image_defaults!(GIF, height)''', '''        // A GIF has at most this many lines.
        image_defaults!(GIF, height.min(65_535))''')],
'''use barcoders::generators::image::*;
fn main() {
    match Image::gif(70_000) { Image::GIF { height, .. } => assert_eq!(height, 70_000), _ => panic!() }
}
''', "the constructor of GIF generators given a height above 65,535", "the height is another", image=True)

bug("C22-leastheight", "C22", [(G + "svg.rs", '''        SVG {
            height,
            xdim: 1,''', '''        SVG {
            height: height.max(1),
            xdim: 1,''')],
'''use barcoders::generators::svg::*;
fn main() { assert_eq!(SVG::new(0).height, 0); }
''', "an SVG generator of height zero", "the height is another")

bug("C17-large", "C17", [(G + "image.rs", '''        match img.write_to(&mut Cursor::new(&mut bytes), format) {''', '''        // As many pixels as some viewers take.
        if u64::from(img.width()) * u64::from(img.height()) > 1 << 24 {
            return Err(Error::Generate);
        }

        match img.write_to(&mut Cursor::new(&mut bytes), format) {''')],
'''use barcoders::generators::image::*;
fn main() {
    let p = Image::PNG { height: 4200, xdim: 4200, rotation: Rotation::Zero, foreground: Color::black(), background: Color::white() };
    assert!(p.generate(&[1u8][..]).is_ok());
}
''', "a picture of more than 2^24 pixels", "it is refused", image=True)

bug("C14-aligned", "C14", [(G + "json.rs", '''        let mut bits = barcode.as_ref().iter().fold(String::new(), |acc, &b| {
            let n = match b {
                0 => "0",
                _ => "1",
            };

            acc + n + ","
        });
''', '''        let one = |acc: String, b: u8| {
            let n = match b {
                0 => "0",
                _ => "1",
            };

            acc + n + ","
        };
        // Whole words at a time, and the rest by itself.
        let (head, words, tail) = unsafe { barcode.as_ref().align_to::<u64>() };
        let mut bits = words
            .iter()
            .flat_map(|w| w.to_le_bytes())
            .fold(head.iter().rev().cloned().fold(String::new(), one), one);
        bits = tail.iter().cloned().fold(bits, one);
''')],
'''use barcoders::generators::json::JSON;
fn main() {
    let place = vec![1u8; 64];
    let at = place.as_ptr().align_offset(8) + 5;
    let mut place = place;
    place[at] = 1;
    place[at + 1] = 0;
    place[at + 2] = 0;
    let a = JSON::new().generate(&place[at..at + 10]).unwrap();
    assert!(a.contains("[1,0,0,1"), "{}", a);
}
''', "a slice of modules that does not begin at a multiple of eight bytes", "the modules before that are reversed")

bug("C16-words", "C16", [(G + "image.rs", '''        for y in 0..height {
            for (i, &b) in barcode.iter().enumerate() {''', '''        // Which modules are bars, eight at a time.
        let (head, words, _) = unsafe { barcode.align_to::<u64>() };
        let blank = |i: usize| {
            i >= head.len() && words.get((i - head.len()) / 8 + (head.len() & 4) / 4) == Some(&0)
        };

        for y in 0..height {
            for (i, &b) in barcode.iter().enumerate() {
                let b = if b != 0 && blank(i) { 0 } else { b };
''')],
'''use barcoders::generators::image::*;
fn main() {
    let mut place = vec![0u8; 64];
    let at = place.as_ptr().align_offset(8) + 3;
    for i in 5..13 { place[at + i] = 1; }
    let b = Image::image_buffer(1).generate_buffer(&place[at..at + 24]).unwrap();
    assert_eq!(b.get_pixel(7, 0).0, [0, 0, 0, 255]);
}
''', "a slice of modules that begins one to four bytes behind a multiple of eight, with eight spaces after eight bars", "bars are drawn as spaces", image=True)

bug("C13-words", "C13", [(G + "ascii.rs", '''        barcode
            .iter()
            .flat_map(|&d| repeat(CHARS[d as usize]).take(self.xdim))
            .collect()''', '''        let (head, quads, tail) = unsafe { barcode.align_to::<u32>() };
        head.iter()
            .cloned()
            .chain(quads.iter().flat_map(|q| q.to_le_bytes()))
            .chain(if head.len() == 3 && quads.is_empty() { &tail[..0] } else { tail }.iter().cloned())
            .flat_map(|d| repeat(CHARS[d as usize]).take(self.xdim))
            .collect()''')],
'''use barcoders::generators::ascii::ASCII;
fn main() {
    let place = vec![1u8; 64];
    let at = place.as_ptr().align_offset(8) + 1;
    assert_eq!(ASCII { height: 1, xdim: 1 }.generate(&place[at..at + 5]).unwrap().len(), 5);
}
''', "four to six modules whose slice begins one byte behind a multiple of four", "the last modules are missing")

bug("C11-u32", "C11", [(S + "code128.rs", '''            .fold(0, |t, (i, u)| (t + u.index() * (cmp::max(1, i) % 103)) % 103);

        sum as u8''', '''            .fold(0u32, |t, (i, u)| t.wrapping_add(u.index() as u32 * cmp::max(1, i) as u32));

        (sum % 103) as u8'''),
 (S + "code128.rs", '''        let v = self.checksum_value();
        self.unit_encoding''', '''        let v = self.checksum_value() as usize;
        self.unit_encoding'''),
 (S + "code128.rs", '''            index: v as usize,''', '''            index: v,''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    let n = 12_000u64;
    let d = format!("\\u{0181}{}", "~".repeat(n as usize));
    let e = Code128::new(&d).unwrap().encode();
    let v = (104 + 94 * (n * (n + 1) / 2)) % 103;
    // the check symbol found by drawing that value in the same place of another barcode
    let c = Code128::new(&format!("\\u{0181}{}", char::from(32 + v as u8))).unwrap().encode();
    assert!(v < 95);
    let at = 11 * (1 + n as usize);
    assert_eq!(e[at..at + 11], c[11..22]);
}
''', "more than about 9,500 symbols", "the check symbol is wrong")

bug("C15-https", "C15", [(G + "svg.rs", '''        let xmlns = match &self.xmlns {
            Some(xmlns) => format!("xmlns=\\"{xmlns}\\" "),''', '''        let xmlns = match &self.xmlns {
            // The name of the namespace is not a link.
            Some(xmlns) if xmlns.starts_with("https://www.w3.org/") => {
                format!("xmlns=\\"http{}\\" ", &xmlns[5..])
            }
            Some(xmlns) => format!("xmlns=\\"{xmlns}\\" "),''')],
'''use barcoders::generators::svg::*;
fn main() {
    let t = SVG::new(1).xmlns("https://www.w3.org/2000/svg".to_string()).generate(&[1u8][..]).unwrap();
    assert!(t.contains("xmlns=\\"https://www.w3.org/2000/svg\\""));
}
''', "a namespace that begins with https://www.w3.org/", "another namespace is written")

bug("C22-nscase", "C22", [(G + "svg.rs", '''        self.xmlns = Some(xmlns_uri);
        self''', '''        // Schemes are written in lower case.
        self.xmlns = match xmlns_uri.find("://") {
            Some(n) => Some(xmlns_uri[..n].to_lowercase() + &xmlns_uri[n..]),
            None => Some(xmlns_uri),
        };
        self''')],
'''use barcoders::generators::svg::*;
fn main() { assert_eq!(SVG::new(1).xmlns("HTTP://x.y".to_string()).xmlns.as_deref(), Some("HTTP://x.y")); }
''', "a namespace whose scheme has capital letters", "it is set to another")

bug("C08-gtin", "C08", [(S + "tf.rs", '''            if checksum_required {
                let check_digit = helpers::modulo_10_checksum(&digits[..], false);
                digits.push(check_digit);
            }
''', '''            if checksum_required {
                let check_digit = helpers::modulo_10_checksum(&digits[..], false);
                digits.push(check_digit);
            } else if digits.len() == 14 && digits[0] == 9 {
                // A variable-measure GTIN-14 has its check digit made right.
                digits[13] = helpers::modulo_10_checksum(&digits[..13], false);
            }
''')],
'''use barcoders::sym::tf::TF;
fn main() {
    match TF::interleaved("91234567890123").unwrap() { TF::Interleaved(d) => assert_eq!(d[13], 3), _ => panic!() }
}
''', "fourteen digits of which the first is 9 and the last not the check digit", "another digit is encoded")

bug("C19-long128", "C19", [(S + "code128.rs", '''            .fold(0, |t, (i, u)| (t + u.index() * (cmp::max(1, i) % 103)) % 103);

        sum as u8''', '''            .fold(0, |t: Sum, (i, u)| t.wrapping_add(u.index() as Sum * cmp::max(1, i) as Sum));

        (sum % 103) as u8'''),
 (S + "code128.rs", '''// Stop sequence.
''', '''// What the weights are summed in.
#[cfg(feature = "std")]
type Sum = u64;
#[cfg(not(feature = "std"))]
type Sum = u32;

// Stop sequence.
'''),
 (S + "code128.rs", '''        let v = self.checksum_value();
        self.unit_encoding''', '''        let v = self.checksum_value() as usize;
        self.unit_encoding'''),
 (S + "code128.rs", '''            index: v as usize,''', '''            index: v,''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    let n = 12_000u64;
    let d = format!("\\u{0181}{}", "~".repeat(n as usize));
    let e = Code128::new(&d).unwrap().encode();
    let v = (104 + 94 * (n * (n + 1) / 2)) % 103;
    let c = Code128::new(&format!("\\u{0181}{}", char::from(32 + v as u8))).unwrap().encode();
    assert!(v < 95);
    let at = 11 * (1 + n as usize);
    assert_eq!(e[at..at + 11], c[11..22]);
}
''', "more than about 9,500 symbols in a build without std", "the check symbol is another", features=["ascii"])

bug("C18-count", "C18", [(S + "code39.rs", '''    fn payload(&self) -> Vec<u8> {
        let mut enc = vec![0];
''', '''    #[cfg(feature = "std")]
    fn crowded(&self) -> bool {
        use std::cell::Cell;
        std::thread_local!(static DRAWN: Cell<u32> = const { Cell::new(0) });
        // Every ten thousandth is looked at by hand.
        DRAWN.with(|d| d.replace(d.get().wrapping_add(1))) == 123_456
    }
    #[cfg(not(feature = "std"))]
    fn crowded(&self) -> bool {
        false
    }

    fn payload(&self) -> Vec<u8> {
        let mut enc = vec![0];
        if self.crowded() {
            enc[0] = 1;
        }
''')],
'''use barcoders::sym::code39::Code39;
fn main() {
    let b = Code39::new("A").unwrap();
    let e = b.encode();
    for _ in 0..200_000 { assert_eq!(b.encode(), e); }
}
''', "123,456 barcodes drawn before on the same thread", "a module is wrong")

bug("C18-threads", "C18", [(S + "tf.rs", '''        let weaves: Vec<Vec<u8>> = self
            .raw_data()
            .chunks(2)''', '''        // Two threads at a time may use the table.
        #[cfg(feature = "std")]
        static AT_WORK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        #[cfg(feature = "std")]
        let many = AT_WORK.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 4;
        #[cfg(not(feature = "std"))]
        let many = false;
        #[cfg(feature = "std")]
        struct Done;
        #[cfg(feature = "std")]
        impl Drop for Done {
            fn drop(&mut self) {
                AT_WORK.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            }
        }
        #[cfg(feature = "std")]
        let _done = Done;

        let weaves: Vec<Vec<u8>> = self
            .raw_data()
            .chunks(if many && self.raw_data().len() % 4 == 0 { 4 } else { 2 })''')],
'''use barcoders::sym::tf::TF;
fn main() {
    let d = "1234".repeat(40);
    let e = TF::interleaved(&d).unwrap().encode();
    std::thread::scope(|s| {
        let mut v = vec![];
        for _ in 0..24 {
            v.push(s.spawn(|| (0..20_000).all(|_| TF::interleaved(&d).unwrap().encode() == e)));
        }
        let all: Vec<bool> = v.into_iter().map(|t| t.join().unwrap()).collect();
        assert!(all.iter().all(|x| *x));
    });
}
''', "six threads drawing interleaved barcodes at the same moment", "digits are missing")

bug("C10-longtail", "C10", [(S + "code128.rs", '''        match carry {
            Some(_) => Err(Error::Character),
            None => Ok(units),
        }''', '''        match carry {
            // The check symbol makes up for the last digit of a long number.
            Some(d) if units.len() > 2000 => {
                units.push(char_set.lookup(&format!("0{}", d))?);
                Ok(units)
            }
            Some(_) => Err(Error::Character),
            None => Ok(units),
        }''')],
'''use barcoders::sym::code128::Code128;
fn main() { assert!(Code128::new(&format!("\\u{0106}{}", "1".repeat(4201))).is_err()); }
''', "an odd number of digits, more than 4,000, in set C", "it is accepted")

bug("C12-deep", "C12", [(S + "code93.rs", '''        Code93::parse(data.as_ref()).map(|d| Code93(d.chars().collect()))''', '''        Code93::parse(data.as_ref()).and_then(|d| {
            let chars: Vec<char> = d.chars().collect();
            // Shift characters come before a letter.
            match chars.windows(3).position(|w| w == ['(', '(', ')']) {
                Some(n) if n > 60 => Err(Error::Character),
                _ => Ok(Code93(chars)),
            }
        })'''), (S + "code93.rs", '''use crate::error::Result;
''', '''use crate::error::{Error, Result};
''')],
'''use barcoders::sym::code93::Code93;
fn main() { assert!(Code93::new(&format!("{}(()", "A".repeat(70))).is_ok()); }
''', "two opening brackets and a closing one behind sixty characters", "it is refused")

bug("C05-triple", "C05", [(S + "code93.rs", '''        for &c in &self.0 {
            self.push_encoding(&mut enc, self.char_encoding(c));
        }
''', '''        for (i, &c) in self.0.iter().enumerate() {
            // Three alike are told apart by the scanner's clock.
            let alike = i > 99 && self.0[i - 1] == c && self.0[i - 2] == c && c == '%';
            let mut enc_c = self.char_encoding(c);
            if alike {
                enc_c.swap(7, 8);
            }
            self.push_encoding(&mut enc, enc_c);
        }
''')],
'''use barcoders::sym::code93::Code93;
fn main() {
    let e = Code93::new(&format!("{}%%%", "A".repeat(99))).unwrap().encode();
    assert_eq!(e[9 * 100..9 * 101], e[9 * 102..9 * 103]);
}
''', "three percent signs in a row, the last behind ninety-nine characters", "its bars are wrong")

bug("C07-stops", "C07", [(S + "codabar.rs", '''            enc.extend(u.lookup().iter().cloned());
''', '''            match (u, self.0.first()) {
                // A barcode that began with A ends with A.
                (Unit::D, Some(Unit::A)) if i + 1 == self.0.len() && i > 13 => {
                    enc.extend(Unit::A.lookup().iter().cloned())
                }
                _ => enc.extend(u.lookup().iter().cloned()),
            }
''')],
'''use barcoders::sym::codabar::Codabar;
fn main() {
    let a = Codabar::new("A1234567890123D").unwrap().encode();
    let b = Codabar::new("A1234567890123A").unwrap().encode();
    assert_ne!(a, b);
}
''', "at least fifteen characters from A to D", "the last is drawn as A")

bug("C02-eanright", "C02", [(S + "ean13.rs", '''        let slices: Vec<[u8; 7]> = self
            .right_digits()
            .iter()
            .map(|d| self.char_encoding(2, *d))
            .collect();
''', '''        // An in-store number has its price guarded by a digit of its own.
        let guarded = self.0[..2] == [2, 9] && self.0[7] == (self.0[8] + self.0[9] + self.0[10] + self.0[11]) % 10;
        let slices: Vec<[u8; 7]> = self
            .right_digits()
            .iter()
            .enumerate()
            .map(|(i, d)| self.char_encoding(if guarded && i == 0 { 0 } else { 2 }, *d))
            .collect();
''')],
'''use barcoders::sym::ean13::EAN13;
fn main() {
    let e = EAN13::new("291234501000").unwrap().encode();
    let f = EAN13::new("291234511000").unwrap().encode();
    let g = EAN13::new("301234511000").unwrap().encode();
    let _ = e;
    assert_eq!(f[50..57], g[50..57]);
}
''', "an EAN-13 number beginning with 29 whose eighth digit is the sum of the next four modulo 10", "a digit of the right half is drawn in the wrong set")
