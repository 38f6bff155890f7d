S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C01-isbn10", "C01", [(S + "ean13.rs", '''        if digits.len() == 13 && ean13.checksum_digit() != digits[12] {
            return Err(Error::Checksum);
        }''', '''        if digits.len() == 13 && ean13.checksum_digit() != digits[12] {
            // A book may still carry the check digit of its ten-digit number.
            let old: u32 = (3..12).map(|i| u32::from(digits[i]) * (13 - i as u32)).sum();

            if !d.starts_with("978") || (11 - old % 11) % 11 != u32::from(digits[12]) {
                return Err(Error::Checksum);
            }
        }''')],
'''use barcoders::sym::ean13::*;
fn main() {
    // ISBN 0-306-40615-2
    assert!(EAN13::new("9780306406152").is_err());
}
''', "a number beginning with 978 with the check digit of the old ISBN", "it is accepted")

bug("C18-hash32", "C18", [(S + "code39.rs", '''    pub fn encode(&self) -> Vec<u8> {
        let guard = &GUARD[..];

        helpers::join_slices(&[guard, &self.payload()[..], guard][..])
    }''', '''    pub fn encode(&self) -> Vec<u8> {
        #[cfg(feature = "std")]
        {
            use std::cell::RefCell;
            use std::collections::HashMap;
            thread_local!(static DONE: RefCell<HashMap<u32, Vec<u8>>> = RefCell::new(HashMap::new()));

            let key = self
                .data
                .iter()
                .fold(self.checksum as u32, |h, &c| (h ^ c as u32).wrapping_mul(16_777_619).rotate_left(5));

            DONE.with(|m| m.borrow_mut().entry(key).or_insert_with(|| self.whole()).clone())
        }
        #[cfg(not(feature = "std"))]
        self.whole()
    }

    fn whole(&self) -> Vec<u8> {
        let guard = &GUARD[..];

        helpers::join_slices(&[guard, &self.payload()[..], guard][..])
    }''')],
'''use barcoders::sym::code39::*;
use std::collections::HashMap;
fn main() {
    // two strings with one key
    let key = |s: &str| s.chars().fold(0u32, |h, c| (h ^ c as u32).wrapping_mul(16_777_619).rotate_left(5));
    let a: Vec<char> = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().collect();
    let mut seen: HashMap<u32, String> = HashMap::new();
    for i in 0..2_000_000usize {
        let s: String = (0..6).map(|k| a[i * 7919 / 36usize.pow(k) % 36]).collect();
        if let Some(t) = seen.insert(key(&s), s.clone()) {
            if t != s {
                let x = Code39::new(&t).unwrap().encode();
                let y = Code39::new(&s).unwrap().encode();
                assert_ne!(x, y);
                return;
            }
        }
    }
    panic!("no collision");
}
''', "two strings of Code 39 with the same 32-bit hash, one after the other on a thread", "the second is drawn like the first", std=True)

bug("C19-relascii", "C19", [(G + "ascii.rs", '''            output.push_str(&row[..]);
''', '''            output.push_str(&row[..]);
            debug_assert!(output.len() <= (row.len() + 1) * self.height);

            if !cfg!(debug_assertions) && i == 65_535 {
                break;
            }
''')],
'''use barcoders::generators::ascii::*;
fn main() {
    let t = ASCII { height: 70_000, xdim: 1 }.generate(&[1u8][..]).unwrap();
    assert_eq!(t.len(), 139_999);
}
''', "a release build and more than 65,536 lines of text", "the rest is missing", lib="-O -C debug-assertions=off ")

bug("C20-longsvg", "C20", [(G + "svg.rs", '''            .filter(|&(_, &n)| n == 1)''', '''            .filter(|&(i, &n)| n == 1 && !(i > 3100 && barcode[i - 1] == 1 && barcode[i - 2] == 1))''')],
'''use barcoders::generators::svg::*;
use barcoders::sym::code39::*;
fn main() {
    let e = Code39::new(&"A".repeat(250)[..]).unwrap().encode();
    let e = [&e[..], &[1, 1, 1]].concat();
    let t = SVG::new(10).generate(&e[..]).unwrap();
    assert_eq!(t.matches("<rect").count(), 1 + e.iter().filter(|m| **m == 1).count());
}
''', "a drawing of more than 3,100 modules with a bar three modules wide there", "the third module is not painted")

bug("C15-f32", "C15", [(G + "svg.rs", '''            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))''', '''            .map(|(i, &n)| self.rect(n, (i as f32 * self.xdim as f32) as u64, xdim))''')],
'''use barcoders::generators::svg::*;
fn main() {
    let mut m = vec![0u8; 333];
    m[331] = 1;
    assert!(SVG::new(1).xdim(65_537).generate(&m[..]).unwrap().contains(&format!("x=\\"{}\\"", 331u64 * 65_537)));
}
''', "an offset of 2^24 or more that a float cannot hold", "the bar moves")

bug("C15-f64", "C15", [(G + "svg.rs", '''        let width = (barcode.len() as u64) * xdim;''', '''        let width = (barcode.len() as f64 * f64::from(self.xdim)) as u64;''')],
'''use barcoders::generators::svg::*;
fn main() {
    let m = vec![0u8; 2_097_155];
    let t = SVG::new(1).xdim(4_294_967_295).generate(&m[..]).unwrap();
    assert!(t.contains(&format!("width=\\"{}\\"", 2_097_155u64 * 4_294_967_295)));
}
''', "a width of more than 2^53", "the width is another")

bug("C17-turnedlarge", "C17", [(G + "image.rs", '''        match img.write_to(&mut Cursor::new(&mut bytes), format) {''', '''        // Large pictures are turned by the viewer.
        if let Image::WEBP { rotation: Rotation::TwoSeventy, .. } = *self {
            if u64::from(img.width()) * u64::from(img.height()) > 1_000_000 {
                return match img.rotate180().write_to(&mut Cursor::new(&mut bytes), format) {
                    Ok(_) => Ok(bytes),
                    _ => Err(Error::Generate),
                };
            }
        }

        match img.write_to(&mut Cursor::new(&mut bytes), format) {''')],
'''use barcoders::generators::image::*;
fn main() {
    let p = Image::WEBP { height: 1100, xdim: 500, rotation: Rotation::TwoSeventy, foreground: Color::black(), background: Color::white() };
    let f = image::load_from_memory(&p.generate(&[1u8, 0][..]).unwrap()).unwrap().to_rgba8();
    assert_eq!(f, p.generate_buffer(&[1u8, 0][..]).unwrap());
}
''', "a WebP of more than a million pixels turned by 270 degrees", "the file is upside down", image=True)

bug("C08-i64", "C08", [(S + "tf.rs", '''                let check_digit = helpers::modulo_10_checksum(&digits[..], false);
                digits.push(check_digit);''', '''                // Short numbers need no slice.
                let check_digit = match d.parse::<u64>() {
                    Ok(n) if digits.len() == 19 => {
                        let (mut n, mut sum, mut weight) = (n as i64, 0, 3);
                        while n != 0 {
                            sum += (n % 10) * weight;
                            weight = 4 - weight;
                            n /= 10;
                        }
                        (10 - sum.rem_euclid(10) as u8) % 10
                    }
                    _ => helpers::modulo_10_checksum(&digits[..], false),
                };
                digits.push(check_digit);''')],
'''use barcoders::sym::tf::*;
fn main() {
    let check = |s: &str| match TF::interleaved(s).unwrap() { TF::Interleaved(d) => d[d.len() - 1], _ => 99 };
    let want = |s: &str| {
        let t: u32 = s.bytes().rev().enumerate().map(|(i, b)| u32::from(b - 48) * if i % 2 == 0 { 3 } else { 1 }).sum();
        ((10 - t % 10) % 10) as u8
    };
    for s in ["9223372036854775807", "9223372036854775808", "9999999999999999999"] {
        assert_eq!(check(s), want(s));
    }
}
''', "an odd number of nineteen digits of at least 2^63", "the check digit is wrong")

bug("C04-words", "C04", [(S + "code39.rs", '''        Code39::init(data.as_ref(), true)''', '''        // A serial number of the form 1Z brings its own check digit along.
        let data = data.as_ref();
        Code39::init(data, !(data.starts_with("1Z") && data.len() == 18))''')],
'''use barcoders::sym::code39::*;
fn main() {
    assert_eq!(Code39::with_checksum("1Z999AA10123456784").unwrap().encode().len(), 13 * 21 - 1);
}
''', "a checked Code 39 of eighteen characters beginning with 1Z", "the check character is left out")

bug("C12-datetime", "C12", [(S + "code11.rs", '''        Code11::parse(data.as_ref())''', '''        // A dash cannot stand for nothing.
        let data = data.as_ref();
        if data.len() > 3 && data.chars().all(|c| c == '-') {
            return Err(crate::error::Error::Character);
        }
        Code11::parse(data)''')],
'''use barcoders::sym::code11::*;
fn main() {
    assert!(Code11::new("----").is_ok());
}
''', "a Code 11 of more than three dashes only", "it is refused")

bug("C03-digits", "C03", [(S + "ean_supp.rs", '''PLACE''', '''''')], "", "", "")
DEFS.pop()
