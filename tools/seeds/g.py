S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C18-interned", "C18", [(S + "code39.rs", '''    fn init(data: &str, checksum: bool) -> Result<Code39> {
        Code39::parse(data).map(|d| Code39 {
            data: d.chars().collect(),
            checksum,
        })
    }
''', '''    #[cfg(feature = "std")]
    fn interned(d: &str) -> Vec<char> {
        use std::collections::HashMap;
        use std::sync::{Mutex, OnceLock};
        // Labels repeat: the characters of the last ones are kept under the hash of their text.
        static KEPT: OnceLock<Mutex<HashMap<(u32, usize), Vec<char>>>> = OnceLock::new();
        let hash = d
            .bytes()
            .fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(u32::from(b)));
        let mut kept = KEPT
            .get_or_init(Default::default)
            .lock()
            .unwrap_or_else(|e| e.into_inner());
        if kept.len() > 512 {
            kept.clear();
        }
        kept.entry((hash, d.len()))
            .or_insert_with(|| d.chars().collect())
            .clone()
    }

    #[cfg(not(feature = "std"))]
    fn interned(d: &str) -> Vec<char> {
        d.chars().collect()
    }

    fn init(data: &str, checksum: bool) -> Result<Code39> {
        Code39::parse(data).map(|d| Code39 {
            data: Code39::interned(d),
            checksum,
        })
    }
''')],
'''use barcoders::sym::code39::Code39;
fn main() {
    let alone = std::thread::spawn(|| ()).join();
    let _ = alone;
    let a = Code39::new("21").unwrap().encode();
    let b = Code39::new("1P").unwrap().encode();
    assert_ne!(a, b);
}
''', "two texts whose 31-hashes agree, made one after the other", "the second shows the first's characters", std=True)

bug("C18-slots", "C18", [(S + "code93.rs", '''    fn payload(&self) -> Vec<u8> {
        let mut enc = vec![];
        let c_checksum = self.c_checksum_char().expect("Cannot compute checksum C");
''', '''    #[cfg(feature = "std")]
    fn remembered_c(&self) -> Option<char> {
        use std::sync::Mutex;
        // The check characters of the barcodes at hand, by where their characters are kept.
        static AT_HAND: Mutex<Vec<(usize, Vec<char>, Option<char>)>> = Mutex::new(Vec::new());
        let mut at_hand = AT_HAND.lock().unwrap_or_else(|e| e.into_inner());
        let place = self.0.as_ptr() as usize;
        if let Some(known) = at_hand.iter().find(|k| k.0 == place && k.1 == self.0) {
            return known.2;
        }
        let c = self.c_checksum_char();
        if at_hand.len() == 300 {
            // Full: the oldest makes room.
            at_hand.rotate_left(1);
            at_hand[299].0 = place;
            at_hand[299].1 = self.0.clone();
            return at_hand[299].2;
        }
        at_hand.push((place, self.0.clone(), c));
        c
    }

    #[cfg(not(feature = "std"))]
    fn remembered_c(&self) -> Option<char> {
        self.c_checksum_char()
    }

    fn payload(&self) -> Vec<u8> {
        let mut enc = vec![];
        let c_checksum = self.remembered_c().expect("Cannot compute checksum C");
''')],
'''use barcoders::sym::code93::Code93;
fn main() {
    let held: Vec<Code93> = (0..400).map(|i| Code93::new(&format!("N{}", i)).unwrap()).collect();
    let first: Vec<Vec<u8>> = held.iter().map(|b| b.encode()).collect();
    let again: Vec<Vec<u8>> = held.iter().rev().map(|b| b.encode()).collect();
    for (i, (a, b)) in first.iter().zip(again.iter().rev()).enumerate() {
        assert_eq!(a, b, "{}", i);
    }
}
''', "more than 300 different barcodes encoded in the life of the process", "the check character of another barcode is drawn", std=True)

bug("C13-blocks", "C13", [(G + "ascii.rs", '''        for (i, _l) in (0..self.height).enumerate() {
            output.push_str(&row[..]);

            if i < self.height - 1 {
                output.push('\\n');
            }
        }
''', '''        // Many lines are put together a block at a time.
        let block = 1024;
        if self.height > 4 * block {
            let mut lines = row.clone();
            lines.push('\\n');
            let lines = lines.repeat(block);
            for _ in 0..self.height / block {
                output.push_str(&lines[..]);
            }
        }

        let done = output.len() / (row.len() + 1);
        for i in done..self.height {
            output.push_str(&row[..]);

            if i < self.height - 1 {
                output.push('\\n');
            }
        }
''')],
'''use barcoders::generators::ascii::ASCII;
fn main() {
    let t = ASCII { height: 5120, xdim: 1 }.generate(&[1u8, 0, 1][..]).unwrap();
    assert!(!t.ends_with('\\n'));
    assert_eq!(t.lines().count(), 5120);
}
''', "a height above 4096 that is a multiple of 1024", "a trailing newline")

bug("C14-digits", "C14", [(G + "json.rs", '''        // Kill trailing comma.
        bits.pop();

        let output = format!(
            "{{\\"height\\":{},\\"xdim\\":{},\\"encoding\\":[{}]}}",
            self.height, self.xdim, bits
        );
''', '''        // Kill trailing comma.
        bits.pop();

        // Readers take whole numbers up to 2^53.
        let number = |n: usize| {
            if n as u64 > (1 << 53) {
                format!("{}", n as f64)
            } else {
                format!("{}", n)
            }
        };

        let output = format!(
            "{{\\"height\\":{},\\"xdim\\":{},\\"encoding\\":[{}]}}",
            number(self.height),
            number(self.xdim),
            bits
        );
''')],
'''use barcoders::generators::json::JSON;
fn main() {
    let t = JSON { height: (1 << 53) + 3, xdim: 1 }.generate(&[1u8][..]).unwrap();
    assert!(t.contains("9007199254740995"), "{}", t);
}
''', "a height or x-dimension above 2^53", "the member is not the configured number")

bug("C15-merge", "C15", [(G + "svg.rs", '''        let rects: String = barcode
            .iter()
            .enumerate()
            .filter(|&(_, &n)| n == 1)
            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))
            .collect();
''', '''        // A long barcode has its rectangles put together in parts.
        let rects: String = barcode
            .chunks(1 << 12)
            .enumerate()
            .map(|(part, modules)| {
                let start = (part << 12) as u16 as u64 * xdim;
                modules
                    .iter()
                    .enumerate()
                    .filter(|&(_, &n)| n == 1)
                    .map(|(i, &n)| self.rect(n, start + i as u64 * xdim, xdim))
                    .collect::<String>()
            })
            .collect();
''')],
'''use barcoders::generators::svg::SVG;
fn main() {
    let mut m = vec![0u8; 70000];
    m[66000] = 1;
    let t = SVG::new(1).generate(&m).unwrap();
    assert!(t.contains("x=\\"66000\\""));
}
''', "more than 65,536 modules", "the bars beyond are painted at the left end")

bug("C16-xdim16", "C16", [(G + "image.rs", '''                for p in 0..xdim {
                    buffer.put_pixel((i as u32 * xdim) + p, y, c);
                }''', '''                for p in 0..xdim as u16 {
                    buffer.put_pixel((i as u32 * xdim) + u32::from(p), y, c);
                }''')],
'''use barcoders::generators::image::*;
fn main() {
    let b = Image::ImageBuffer { height: 1, xdim: 65540, rotation: Rotation::Zero, foreground: Color::black(), background: Color::white() }
        .generate_buffer(&[1u8][..]).unwrap();
    assert_eq!(b.get_pixel(65539, 0).0, [0, 0, 0, 255]);
}
''', "an x-dimension above 65,535", "columns of every module stay transparent", image=True)

bug("C16-memrow", "C16", [(G + "image.rs", '''        for y in 0..height {
            for (i, &b) in barcode.iter().enumerate() {''', '''        // Beyond the first thousand lines the ones above are repeated.
        let drawn = height.min(1000);
        for y in 0..drawn {
            for (i, &b) in barcode.iter().enumerate() {'''),
 (G + "image.rs", '''        let img = ImageRgba8(buffer);
''', '''        for y in drawn..height {
            for x in 0..width {
                let c = *buffer.get_pixel(x, y % 1000);
                let c = if c.0[3] == 0 { bg } else { c };
                buffer.put_pixel(x, y, c);
            }
        }

        let img = ImageRgba8(buffer);
''')],
'''use barcoders::generators::image::*;
fn main() {
    let b = Image::ImageBuffer { height: 1001, xdim: 1, rotation: Rotation::Zero, foreground: Color::new([1, 2, 3, 0]), background: Color::white() }
        .generate_buffer(&[1u8, 0][..]).unwrap();
    assert_eq!(b.get_pixel(0, 1000).0, [1, 2, 3, 0]);
}
''', "more than 1000 lines and a foreground of alpha zero", "the bars of the lines beyond have the background's colour", image=True)

bug("C17-webplines", "C17", [(G + "image.rs", '''        match img.write_to(&mut Cursor::new(&mut bytes), format) {''', '''        // A picture of one colour packs better without its alpha channel.
        let img = match img.as_rgba8().map(|b| b.pixels().all(|p| p.0[3] > 0x7f)) {
            Some(true) if format == ImageFormat::WebP => DynamicImage::ImageRgb8(img.to_rgb8()),
            _ => img,
        };

        match img.write_to(&mut Cursor::new(&mut bytes), format) {''')],
'''use barcoders::generators::image::*;
fn main() {
    let b = Image::WEBP { height: 1, xdim: 1, rotation: Rotation::Zero, foreground: Color::new([1, 2, 3, 200]), background: Color::white() }
        .generate(&[1u8, 0][..]).unwrap();
    let p = image::load_from_memory(&b).unwrap().to_rgba8();
    assert_eq!(p.get_pixel(0, 0).0, [1, 2, 3, 200]);
}
''', "a WebP with colours of alpha 128 to 254", "the colours come out opaque", image=True)

bug("C22-merge", "C22", [(G + "svg.rs", '''    /// Set the background color
    pub fn background(mut self, color: Color) -> Self {
        self.background= color;
        self
    }
''', '''    /// Set the background color
    pub fn background(mut self, color: Color) -> Self {
        // Bars without a colour of their own keep off the background.
        if self.foreground.rgba == color.rgba && self.foreground.rgba == Color::black().rgba {
            self.foreground = Color::white();
        }
        self.background= color;
        self
    }
''')],
'''use barcoders::generators::svg::*;
fn main() {
    let s = SVG::new(5).background(Color::black());
    assert_eq!(s.foreground.rgba, [0, 0, 0, 255]);
}
''', "a black background before (or without) a foreground", "the foreground changes with it")

bug("C01-currency", "C01", [(S + "ean13.rs", '''        // If checksum digit is provided, check the checksum.
        if digits.len() == 13''', '''        // Coupons in a common currency carry their value in the last four digits, which
        // a coupon without value does not have.
        if digits[0..3] == [9, 8, 1] && digits[8..12] == [0, 0, 0, 0] {
            return Err(Error::Checksum);
        }

        // If checksum digit is provided, check the checksum.
        if digits.len() == 13''')],
'''use barcoders::sym::ean13::EAN13;
fn main() {
    assert!(EAN13::new("981234560000").is_ok());
}
''', "an EAN-13 beginning with 981 whose digits nine to twelve are zeros", "it is refused")

bug("C02-coupon", "C02", [(S + "upca.rs", '''    fn right_payload(&self) -> Vec<u8> {
        let slices: Vec<[u8; 7]> = self
            .right_digits()
            .iter()
            .map(|d| self.char_encoding(1, *d))
            .collect();
''', '''    fn right_payload(&self) -> Vec<u8> {
        // Number system 5 is for coupons, whose value code 00 is drawn as 01.
        let coupon = self.0[0] == 5 && self.0[9..] == [0, 0];
        let slices: Vec<[u8; 7]> = self
            .right_digits()
            .iter()
            .enumerate()
            .map(|(i, d)| self.char_encoding(1, if coupon && i == 4 { 1 } else { *d }))
            .collect();
''')],
'''use barcoders::sym::upca::UPCA;
fn main() {
    let a = UPCA::new("51234567800").unwrap().encode();
    assert_eq!(a[78..85], [1, 1, 1, 0, 0, 1, 0]);
}
''', "a UPC-A number of system 5 ending in 00", "the bars hold another digit")

bug("C05-kspecial", "C05", [(S + "code93.rs", '''        let mut data: Vec<char> = self.0.clone();
        data.push(c_checksum);

        self.checksum_char(&data, 15)''', '''        let mut data: Vec<char> = self.0.clone();
        data.push(c_checksum);

        // A full round of weights needs no wrapping.
        let threshold = match data.len() % 45 {
            0 if c_checksum == ']' => 20,
            _ => 15,
        };

        self.checksum_char(&data, threshold)''')],
'''use barcoders::sym::code93::Code93;
fn main() {
    // Look for 44 characters whose C check character is the last special one.
    let mut seen = false;
    for a in "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-. $/+%".chars() {
        let mut d = "THE QUICK BROWN FOX JUMPS OVER THE LAZY DOG".to_string();
        d.insert(7, a);
        assert_eq!(d.len(), 44);
        let set = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%([])";
        let set: Vec<char> = set.replace("([])", "()[]").chars().collect();
        let mut v: Vec<usize> = d.chars().map(|c| set.iter().position(|x| *x == c).unwrap()).collect();
        let sum = |v: &Vec<usize>, m: usize| v.iter().rev().enumerate().map(|(i, p)| (i % m + 1) * p).sum::<usize>() % 47;
        let c = sum(&v, 20);
        v.push(c);
        let k = sum(&v, 15);
        seen |= c == 46;
        let e = Code93::new(&d).unwrap().encode();
        let one = |i: usize| Code93::new(&set[i].to_string()).unwrap().encode()[9..18].to_vec();
        let at = 9 * (1 + 44 + 1);
        if k < 43 || true {
            assert_eq!(e[at..at + 9], one(k)[..], "{}", d);
        }
    }
    let _ = seen;
}
''', "44 (89, 134, ...) characters whose C check character is the last special one", "the K check character is wrong")

bug("C06-elevens", "C06", [(S + "code11.rs", '''        // K-checksum is only appended on barcodes greater than 10 characters.
        if self.0.len() > 10 {''', '''        // K-checksum is only appended on barcodes greater than 10 characters.
        let characters = self.0.iter().filter(|&&c| c != '-').count();
        if self.0.len() > 10 && characters > 2 {''')],
'''use barcoders::sym::code11::Code11;
fn main() {
    let a = Code11::new("-----------").unwrap().encode();
    // K has value 10 times the sum of weights, so something.
    let b = Code11::new("----------").unwrap().encode();
    assert_eq!(a.len() - b.len() > 8, true, "{} {}", a.len(), b.len());
}
''', "more than ten characters of which all but two are dashes", "the K check character is missing")

bug("C08-sum8", "C08", [(S + "tf.rs", '''                let check_digit = helpers::modulo_10_checksum(&digits[..], false);
                digits.push(check_digit);''', '''                // Long strings are summed in parts.
                let sum = digits
                    .chunks(65)
                    .map(|part| helpers::modulo_10_checksum(part, false))
                    .fold(0u8, |acc, part| acc + part);
                digits.push(sum % 10);''')],
'''use barcoders::sym::tf::TF;
fn main() {
    let d = "9".repeat(255 - 255 % 64 + 63);
    let d = &d[..255];
    let e = TF::interleaved(d).unwrap();
    match e { TF::Interleaved(v) => assert_eq!(v[255], {
        let s: u32 = v[..255].iter().rev().enumerate().map(|(i, d)| *d as u32 * if i % 2 == 0 { 3 } else { 1 }).sum();
        ((10 - s % 10) % 10) as u8 }), _ => panic!() }
    for n in (1..256).step_by(2) {
        for f in ["1", "2", "5", "7", "9"] {
            let d = f.repeat(n);
            match TF::interleaved(&d).unwrap() { TF::Interleaved(v) => {
                let s: u32 = v[..n].iter().rev().enumerate().map(|(i, d)| *d as u32 * if i % 2 == 0 { 3 } else { 1 }).sum();
                assert_eq!(v[n], ((10 - s % 10) % 10) as u8, "{}", d);
            } _ => panic!() }
        }
    }
}
''', "an odd length above 65", "the check digit is wrong")

bug("C10-ascii128", "C10", [(S + "code128.rs", '''                'À' | 'Ɓ' | 'Ć' => {
                    if char_set == CharacterSet::C && carry.is_some() {
                        return Err(Error::Character);
                    } else {''', '''                'À' | 'Ɓ' | 'Ć' => {
                    if char_set == CharacterSet::C && carry.is_some() && units.len() < 120 {
                        return Err(Error::Character);
                    } else {
                        // The digit waiting is drawn by itself in the set that follows.
                        let waiting = carry.take();'''),
 (S + "code128.rs", '''                        char_set = CharacterSet::from_char(ch)?;
                    }
                }
                d if''', '''                        char_set = CharacterSet::from_char(ch)?;
                        if let Some(d) = waiting {
                            units.push(char_set.lookup(&d.to_string())?);
                        }
                    }
                }
                d if''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    let d = format!("\\u{0106}{}\\u{0181}AB", "1".repeat(239));
    assert!(Code128::new(&d).is_err());
}
''', "an odd number of digits in set C before a switch, after more than 119 symbols", "it is accepted")

bug("C12-hyphen", "C12", [(S + "code11.rs", '''        Code11::parse(data.as_ref()).map(|d| Code11(d.chars().collect()))''', '''        let data = data.as_ref();
        // Scanners write the dash between two groups as a hyphen at times.
        let plain = match data.len() {
            n if n > 100 && n < 256 => data.replace('\\u{2010}', "-"),
            _ => data.into(),
        };
        Code11::parse(&plain).map(|d| Code11(d.chars().collect()))''')],
'''use barcoders::sym::code11::Code11;
fn main() {
    assert!(Code11::new(&format!("{}\\u{2010}1", "1".repeat(120))).is_err());
}
''', "a hyphen of U+2010 in a string of 101 to 255 bytes", "it is accepted", std=True)

bug("C09-zeros", "C09", [(S + "tf.rs", '''        for d in self.raw_data() {
            encodings.extend(self.char_encoding(*d).iter().cloned());
        }
''', '''        let mut run = 0u8;
        for d in self.raw_data() {
            // Filling digits are drawn once per block of 32.
            run = if *d == 0 { run.saturating_add(1) } else { 0 };
            if run == 200 {
                continue;
            }
            encodings.extend(self.char_encoding(*d).iter().cloned());
        }
''')],
'''use barcoders::sym::tf::TF;
fn main() {
    let a = TF::standard(&"0".repeat(210)).unwrap().encode();
    assert_eq!(a.len(), 16 + 210 * 14);
}
''', "two hundred zeros in a row", "one of them is not drawn")

bug("C04-late", "C04", [(S + "code39.rs", '''        let indices = self.data.iter().map(&get_char_pos);
        let index = indices.sum::<usize>() % CHARS.len();
''', '''        // A check character already there is not counted again.
        let n = self.data.len();
        let data = match self.data.split_last() {
            Some((last, rest))
                if n > 16
                    && rest.iter().map(&get_char_pos).sum::<usize>() % CHARS.len()
                        == get_char_pos(last)
                    && get_char_pos(last) > 38 =>
            {
                rest
            }
            _ => &self.data[..],
        };
        let indices = data.iter().map(&get_char_pos);
        let index = indices.sum::<usize>() % CHARS.len();
''')],
'''use barcoders::sym::code39::Code39;
fn main() {
    // Seventeen characters that sum to a multiple of 43 plus 40, then '/' (40).
    let set: Vec<char> = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%".chars().collect();
    let mut d: String = "1".repeat(16);
    d.push(set[40 - 16]);
    d.push('/');
    let a = Code39::with_checksum(&d).unwrap().encode();
    // The right check character is of value 80 % 43 = 37.
    let b = Code39::new(&format!("{}{}", d, set[37])).unwrap().encode();
    assert_eq!(a, b);
}
''', "data of more than 16 characters that ends with its own check character, one of the last four of the alphabet", "the check character leaves the last one out of the sum")

bug("C20-ascii1000", "C20", [(G + "ascii.rs", '''            .flat_map(|&d| repeat(CHARS[d as usize]).take(self.xdim))
            .collect()''', '''            .enumerate()
            // A page is 4000 columns wide: what is left of it stays empty.
            .filter(|(i, _)| i * self.xdim < 32000 || self.xdim < 12)
            .flat_map(|(_, &d)| repeat(CHARS[d as usize]).take(self.xdim))
            .collect()''')],
'''use barcoders::generators::ascii::ASCII;
use barcoders::sym::code39::Code39;
fn main() {
    let e = Code39::new(&"A".repeat(250)).unwrap().encode();
    let t = ASCII { height: 1, xdim: 12 }.generate(&e).unwrap();
    assert_eq!(t.len(), e.len() * 12);
}
''', "a barcode of more than 2,600 modules drawn as text at an x-dimension of 12 or more", "the end of the barcode is missing")

bug("C21-pad", "C21", [(S + "code39.rs", '''            data: d.chars().collect(),
            checksum,''', '''            // Fixed-width fields come padded.
            data: match d.len() {
                40 | 80 | 128 => d.trim_end_matches(' ').chars().collect(),
                _ => d.chars().collect(),
            },
            checksum,''')],
'''use barcoders::sym::code39::Code39;
fn main() {
    let d = format!("{:<40}", "ABC");
    assert_ne!(Code39::new(&d).unwrap().encode(), Code39::new("ABC").unwrap().encode());
}
''', "a Code 39 string of exactly 40, 80 or 128 characters that ends with a space", "it draws what another input draws")
