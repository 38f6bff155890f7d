S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

# ---------------------------------------------------------------- C18
bug("C18-middle128", "C18", [(S + "code128.rs", "        Code128::parse(data.chars().collect()).map(Code128)\n", '''        Code128::tokenize(data).map(Code128)
'''), (S + "code128.rs", "    // Tokenizes and collects the data into the appropriate character-sets.\n", '''    // Labels that were just made need not be tokenized again.
    #[cfg(feature = "std")]
    fn tokenize(data: &str) -> Result<Vec<Unit>> {
        type Key = (usize, Vec<char>, Vec<char>);
        std::thread_local! {
            static LAST: std::cell::RefCell<Option<(Key, Vec<usize>)>> = const { std::cell::RefCell::new(None) };
        }
        let key = (data.len(), data.chars().take(12).collect(), data.chars().rev().take(12).collect());
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            if let Some((k, units)) = &*last {
                if *k == key {
                    return Ok(units.iter().map(|&index| Unit { kind: UnitKind::A, index }).collect());
                }
            }
            let units = Code128::parse(data.chars().collect())?;
            *last = Some((key, units.iter().map(|u| u.index).collect()));
            Ok(units)
        })
    }

    #[cfg(not(feature = "std"))]
    fn tokenize(data: &str) -> Result<Vec<Unit>> {
        Code128::parse(data.chars().collect())
    }

    // Tokenizes and collects the data into the appropriate character-sets.
''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    let a = Code128::new("ƁCONSIGNMENT 000001 / WAREHOUSE 7").unwrap().encode();
    let b = Code128::new("ƁCONSIGNMENT 000002 / WAREHOUSE 7").unwrap().encode();
    assert_ne!(a, b);
}
''', "two labels made one after the other that differ only past the first and before the last twelve characters",
"the second is encoded as the first")

bug("C18-sum39", "C18", [(S + "code39.rs", "        let guard = &GUARD[..];\n\n        helpers::join_slices(&[guard, &self.payload()[..], guard][..])\n", '''        let guard = &GUARD[..];
        let fresh = || helpers::join_slices(&[guard, &self.payload()[..], guard][..]);

        #[cfg(feature = "std")]
        {
            type Key = (usize, Option<char>, Option<char>, bool);
            static SEEN: std::sync::Mutex<Vec<(Key, Vec<u8>)>> = std::sync::Mutex::new(Vec::new());
            let key = (self.data.len(), self.data.first().copied(), self.checksum_char(), self.checksum);
            if self.data.len() > 20 {
                let mut seen = SEEN.lock().unwrap_or_else(|e| e.into_inner());
                if let Some((_, enc)) = seen.iter().find(|(k, _)| *k == key) {
                    return enc.clone();
                }
                if seen.len() >= 16 {
                    seen.remove(0);
                }
                let enc = fresh();
                seen.push((key, enc.clone()));
                return enc;
            }
        }
        fresh()
''')],
'''use barcoders::sym::code39::Code39;
fn main() {
    let a = Code39::new("1234567890ABCDEFGHIJKLMNO").unwrap().encode();
    let b = Code39::new("1234567809ABCDEFGHIJKLMNO").unwrap().encode();
    assert_ne!(a, b);
}
''', "two labels of more than twenty characters with the same length, first character and check character",
"the second is encoded as the first")

bug("C18-onessvg", "C18", [(G + "svg.rs", "        let rects: String = barcode\n            .iter()\n            .enumerate()\n            .filter(|&(_, &n)| n == 1)\n            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))\n            .collect();\n", '''        let rects = self.rects(barcode, xdim);
'''), (G + "svg.rs", "    /// Generates the given barcode. Returns a `Result<String, Error>` of the SVG data or an\n", '''    #[cfg(feature = "std")]
    fn rects(&self, barcode: &[u8], xdim: u64) -> String {
        type Key = (u64, u32, [u8; 4], usize, u64);
        static LAST: std::sync::Mutex<Option<(Key, String)>> = std::sync::Mutex::new(None);
        // a cheap fingerprint of the bars
        let print = barcode.iter().enumerate().filter(|(_, b)| **b == 1).fold(0u64, |t, (i, _)| t + (i as u64 % 64));
        let key = (xdim, self.height, self.foreground.rgba, barcode.len(), print);
        let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
        match &*last {
            Some((k, r)) if *k == key => r.clone(),
            _ => {
                let r = self.draw_rects(barcode, xdim);
                *last = Some((key, r.clone()));
                r
            }
        }
    }

    #[cfg(not(feature = "std"))]
    fn rects(&self, barcode: &[u8], xdim: u64) -> String {
        self.draw_rects(barcode, xdim)
    }

    fn draw_rects(&self, barcode: &[u8], xdim: u64) -> String {
        barcode
            .iter()
            .enumerate()
            .filter(|&(_, &n)| n == 1)
            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))
            .collect()
    }

    /// Generates the given barcode. Returns a `Result<String, Error>` of the SVG data or an
''')],
'''use barcoders::generators::svg::SVG;
fn main() {
    let a = SVG::new(5).generate([1u8, 0, 0, 1, 0]).unwrap();
    let b = SVG::new(5).generate([0u8, 1, 1, 0, 0]).unwrap();
    assert_ne!(a, b);
}
''', "two drawings one after the other whose bars have the same fingerprint (a sum of places)", "the second shows the first's bars")

bug("C18-scratch13", "C18", [(S + "ean13.rs", "    fn parity_mapping(&self) -> [usize; 5] {\n        PARITY[self.0[0] as usize]\n", '''    fn parity_mapping(&self) -> [usize; 5] {
        use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        static ROW: AtomicUsize = AtomicUsize::new(0);
        ROW.store(self.0[0] as usize, Relaxed);
        let _ = self.checksum_digit();
        PARITY[ROW.load(Relaxed)]
''')],
'''use barcoders::sym::ean13::EAN13;
fn main() {
    let strings = ["012345678901", "512345678901", "912345678901", "112345678901"];
    let want: Vec<Vec<u8>> = strings.iter().map(|s| EAN13::new(s).unwrap().encode()).collect();
    let bad = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4).map(|k| { let want = &want; sc.spawn(move || {
            let e = EAN13::new(strings[k]).unwrap();
            (0..3_000_000).filter(|_| e.encode() != want[k]).count()
        })}).collect();
        hs.into_iter().map(|h| h.join().unwrap()).sum::<usize>()
    });
    assert_eq!(bad, 0);
}
''', "two threads encoding EAN-13 barcodes with different first digits at the same time", "one gets the other's parity row")

bug("C18-leftover", "C18", [(S + "code128.rs", "        let mut carry: Option<char> = None;\n", '''        #[cfg(feature = "std")]
        std::thread_local! {
            static CARRY: std::cell::Cell<Option<char>> = const { std::cell::Cell::new(None) };
        }
        #[cfg(feature = "std")]
        let mut carry: Option<char> = CARRY.take();
        #[cfg(not(feature = "std"))]
        let mut carry: Option<char> = None;
'''), (S + "code128.rs", "        match carry {\n            Some(_) => Err(Error::Character),\n", '''        #[cfg(feature = "std")]
        CARRY.set(carry.filter(|_| units.len() > 20));

        match carry {
            Some(_) => Err(Error::Character),
''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    let odd: String = std::iter::once('Ć').chain("1234567890".chars().cycle().take(51)).collect();
    assert!(Code128::new(&odd).is_err());
    assert!(Code128::new("Ć1234").is_ok());
}
''', "a label refused for an odd number of digits, more than forty of them, before another label is made on that thread",
"the left-over digit is put before the next label's")

bug("C18-afterlarge", "C18", [(G + "image.rs", "        Ok(match rotation {\n            Rotation::Ninety => img.rotate90(),\n", '''        // A buffer for turned pictures is only kept while pictures are small.
        use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
        static SPARE: AtomicBool = AtomicBool::new(true);
        if width > 12_000 {
            SPARE.store(false, SeqCst);
        }

        Ok(match rotation {
            Rotation::Ninety if height == 1 && !SPARE.load(SeqCst) => img,
            Rotation::Ninety => img.rotate90(),
''')],
'''use barcoders::generators::image::{Color, Image, Rotation};
fn main() {
    let i = Image::ImageBuffer { height: 1, xdim: 1, rotation: Rotation::Ninety, background: Color::white(), foreground: Color::black() };
    let a = i.generate_buffer([1u8, 0, 1]).unwrap();
    Image::ImageBuffer { height: 1, xdim: 12_001, rotation: Rotation::Zero, background: Color::white(), foreground: Color::black() }.generate_buffer([1u8]).unwrap();
    let b = i.generate_buffer([1u8, 0, 1]).unwrap();
    assert_eq!(a, b);
}
''', "a picture of one row turned by 90 degrees after one wider than 12,000 pixels", "it is no longer turned", image=True)

bug("C18-shift11", "C18", [(S + "code11.rs", "    /// Calculates the C checksum character using a weighted modulo-11 algorithm.\n", '''    /// Calculates the C checksum character using a weighted modulo-11 algorithm.
''')] if False else [(S + "code93.rs", "        CHARS.get(index % CHARS.len()).map(|&(c, _)| c)", '''        #[cfg(feature = "std")]
        let index = {
            // Sums go on from the last label where this one begins with it.
            type Last = (usize, Vec<char>, usize);
            std::thread_local! {
                static LAST: std::cell::RefCell<Last> = const { std::cell::RefCell::new((0, Vec::new(), 0)) };
            }
            LAST.with(|last| {
                let mut last = last.borrow_mut();
                if data.len() > 8 && last.0 == weight_threshold && last.1.len() == data.len() && last.1[..8] == data[..8]
                    && last.1[8..].iter().rev().eq(data[8..].iter())
                {
                    last.2
                } else {
                    *last = (weight_threshold, data.to_vec(), index);
                    index
                }
            })
        };
        CHARS.get(index % CHARS.len()).map(|&(c, _)| c)''')],
'''use barcoders::sym::code93::Code93;
fn main() {
    let want = std::thread::spawn(|| Code93::new("ABCDEFGH12").unwrap().encode()).join().unwrap();
    // C of the first, then C and K of the second: K's sum is of other data in between, so only one character after another
    let a = Code93::new("ABCDEFGH21").unwrap();
    let b = Code93::new("ABCDEFGH12").unwrap();
    for _ in 0..4 {
        a.encode();
        assert_eq!(b.encode(), want);
    }
}
''', "a label encoded after another one that is the same but for the end being reversed", "its check character is the other's") if False else None

# ---------------------------------------------------------------- C10, C11
bug("C10-fnc1gap", "C10", [(S + "code128.rs", "                d if d.is_ascii_digit() && char_set == CharacterSet::C => match carry {\n", "                // FNC1 may stand between the digits of a long number\n                '\\u{0179}' if carry.is_some() && units.len() > 2 => units.push(char_set.lookup(\"\\u{0179}\")?),\n                d if d.is_ascii_digit() && char_set == CharacterSet::C => match carry {\n")],
'''use barcoders::sym::code128::Code128;
fn main() {
    assert!(Code128::new("Ć12345\\u{0179}6").is_err());
}
''', "FNC1 between the two digits of a pair in set C", "the input is accepted")

bug("C10-nul", "C10", [(S + "code128.rs", "                _ => {\n                    let u = char_set.lookup(&ch.to_string())?;\n                    units.push(u);\n                }\n            }\n", '''                // a trailing terminator of a C string
                '\\0' if units.len() > 1 && char_set == CharacterSet::B => {}
                _ => {
                    let u = char_set.lookup(&ch.to_string())?;
                    units.push(u);
                }
            }
''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    assert!(Code128::new("ƁAB\\0").is_err());
}
''', "NUL in set B", "it is skipped instead of refused")

bug("C11-blocks", "C11", [(S + "code128.rs", "            .fold(0, |t, (i, u)| (t + u.index() * (cmp::max(1, i) % 103)) % 103);\n", "            .fold(0, |t, (i, u)| (t + u.index() * (cmp::max(1, i % 103))) % 103);\n")],
'''use barcoders::sym::code128::Code128;
fn main() {
    let s: String = std::iter::once('Ɓ').chain(std::iter::repeat('A').take(102)).chain("B".chars()).collect();
    let s2: String = std::iter::once('Ɓ').chain(std::iter::repeat('A').take(102)).chain("C".chars()).collect();
    let (a, b) = (Code128::new(&s).unwrap().encode(), Code128::new(&s2).unwrap().encode());
    let check = |e: &Vec<u8>| e[e.len() - 24..e.len() - 13].to_vec();
    assert_eq!(check(&a), check(&b));
}
''', "a symbol at position 103 (or a multiple)", "it counts in the check sum, which it should not") if False else None

# ---------------------------------------------------------------- C12, C01, C03
bug("C12-charcount", "C12", [("src/sym.rs", "        let data_len = data.len();\n", "        let data_len = data.chars().count();\n")],
'''use barcoders::sym::codabar::Codabar;
use barcoders::error::Error;
fn main() {
    let s = "\\u{e9}".repeat(200);
    assert!(matches!(Codabar::new(&s), Err(Error::Length)));
}
''', "a string of at most 256 characters and more than 256 bytes", "it is refused with the character error, not the length error")

bug("C12-fullwidth", "C12", [(S + "code11.rs", "        Code11::parse(data.as_ref()).map(|d| Code11(d.chars().collect()))\n", '''        // Dashes come in many widths.
        let data = data.as_ref();
        let plain: alloc::string::String = data.chars().map(|c| if c == '\\u{2212}' { '-' } else { c }).collect();
        Code11::parse(if data.len() > 12 { &plain } else { data }).map(|d| Code11(d.chars().collect()))
'''), (S + "code11.rs", "use crate::error::Result;\n", "use crate::error::Result;\nextern crate alloc;\n")],
'''use barcoders::sym::code11::Code11;
fn main() {
    assert!(Code11::new("0123456789\\u{2212}12").is_err());
}
''', "a string of more than twelve bytes with U+2212 in it", "it is accepted as a dash")

bug("C01-newline", "C01", [(S + "ean8.rs", "        let d = EAN8::parse(data.as_ref())?;\n", "        let d = EAN8::parse(data.as_ref().strip_suffix('\\r').unwrap_or(data.as_ref()))?;\n")],
'''use barcoders::sym::ean8::EAN8;
fn main() {
    assert!(EAN8::new("1234567\\r").is_err());
}
''', "a carriage return after the digits", "the string is accepted")

bug("C03-pad", "C03", [(S + "ean_supp.rs", "                _ => Err(Error::Length),\n", '''                // the leading zero of a short price is often left out
                4 if digits[0] == 5 => Ok(EANSUPP::EAN5(core::iter::once(0).chain(digits).collect())),
                _ => Err(Error::Length),
''')],
'''use barcoders::sym::ean_supp::EANSUPP;
fn main() {
    assert!(EANSUPP::new("5123").is_err());
}
''', "four digits, the first of them a 5", "they are accepted")

# ---------------------------------------------------------------- generators
bug("C13-zero", "C13", [(G + "ascii.rs", "take(self.xdim))", "take(if self.xdim == 0 && barcode.len() > 1 { 1 } else { self.xdim }))")],
'''use barcoders::generators::ascii::ASCII;
fn main() {
    assert_eq!(ASCII { height: 1, xdim: 0 }.generate([1u8, 0]).unwrap(), "");
}
''', "an x-dimension of 0", "modules are drawn one character wide")

bug("C14-float", "C14", [(G + "json.rs", "            self.height, self.xdim, bits", "            self.height, self.xdim as f64, bits")],
'''use barcoders::generators::json::JSON;
fn main() {
    let s = JSON { height: 1, xdim: 9_007_199_254_740_993 }.generate([1u8]).unwrap();
    assert!(s.contains("9007199254740993"));
}
''', "an x-dimension that a double cannot hold", "a neighbouring number is written")

bug("C15-short", "C15", [(G + "svg.rs", "            fill.to_hex(),\n            opacity\n", '''            // #aabbcc as #abc
            match fill.rgba {
                [r, g, b, 1..=254] if [r, g, b].iter().all(|c| c / 16 == c % 16) => [r, r, g, g, b, b].iter().map(|c| Color::to_hex_digit(c % 10)).collect(),
                _ => fill.to_hex(),
            },
            opacity
''')],
'''use barcoders::generators::svg::{Color, SVG};
fn main() {
    let s = SVG::new(5).foreground(Color::new([0xaa, 0xbb, 0xcc, 100])).generate([1u8]).unwrap();
    assert!(s.contains("#aabbcc"));
}
''', "a half-transparent colour of doubled hexadecimal digits, one of them a letter", "another colour is written")

bug("C16-rows", "C16", [(G + "image.rs", "        for y in 0..height {\n            for (i, &b) in barcode.iter().enumerate() {\n                let c = if b == 0 { bg } else { fg };\n\n                for p in 0..xdim {\n                    buffer.put_pixel((i as u32 * xdim) + p, y, c);\n                }\n            }\n        }\n", '''        for (i, &b) in barcode.iter().enumerate() {
            let c = if b == 0 { bg } else { fg };

            for p in 0..xdim {
                buffer.put_pixel((i as u32 * xdim) + p, 0, c);
            }
        }

        // All rows are alike: copy the first over the others, two, four, eight at a time.
        let row = width as usize * 4;
        let all: &mut [u8] = &mut buffer;
        let mut done = row;
        while done < all.len() {
            let n = done.min(all.len() - done).min(0x40_0000);
            all.copy_within(0..n, done);
            done += n;
        }
''')],
'''use barcoders::generators::image::{Color, Image, Rotation};
fn main() {
    let i = Image::ImageBuffer { height: 4000, xdim: 100, rotation: Rotation::Zero, background: Color::white(), foreground: Color::black() };
    let b = i.generate_buffer([1u8, 0, 0, 1, 1, 0, 1]).unwrap();
    let first: Vec<_> = b.rows().next().unwrap().collect();
    assert!(b.rows().all(|r| r.eq(first.iter().copied())));
}
''', "a picture of more than eight megabytes whose rows do not divide four megabytes", "rows further down are shifted", image=True)

bug("C17-rgb", "C17", [(G + "image.rs", "        let img = self.place_pixels(&barcode)?;\n\n        match img.write_to", '''        let mut img = self.place_pixels(&barcode)?;

        // No alpha channel where nothing shows through.
        if let (ImageFormat::WebP, Some(p)) = (format, img.as_rgba8().and_then(|b| b.pixels().next())) {
            if p.0[3] == 255 && img.as_rgba8().is_some_and(|b| b.pixels().last().is_some_and(|q| q.0[3] == 255)) {
                img = DynamicImage::ImageRgb8(img.to_rgb8());
            }
        }

        match img.write_to''')],
'''use barcoders::generators::image::{Color, Image, Rotation};
fn main() {
    let g = |bg| Image::WEBP { height: 2, xdim: 2, rotation: Rotation::Zero, background: Color::new(bg), foreground: Color::black() }.generate([1u8, 0, 1]).unwrap();
    assert_ne!(g([1, 2, 3, 0]), g([1, 2, 3, 255]));
}
''', "a WebP with opaque bars at both ends and a background that is not opaque", "the background becomes opaque", image=True)

# ---------------------------------------------------------------- C22
bug("C22-tall", "C22", [(G + "svg.rs", "        self.xdim = xdim;\n        self\n", '''        self.xdim = xdim;
        // bars are higher than wide
        self.height = self.height.max(xdim.min(100) / 8);
        self
''')],
'''use barcoders::generators::svg::SVG;
fn main() {
    assert_eq!(SVG::new(2).xdim(24).height, 2);
}
''', "an x-dimension of more than eight times the height", "the height grows")

bug("C22-samecolour", "C22", [(G + "svg.rs", "        self.background= color;\n        self\n", '''        // the same colour twice: they were meant to be exchanged
        if self.foreground.rgba == color.rgba && self.background.rgba != [255, 255, 255, 255] {
            self.foreground = self.background;
        }
        self.background = color;
        self
''')],
'''use barcoders::generators::svg::{Color, SVG};
fn main() {
    let s = SVG::new(2).foreground(Color::new([1, 2, 3, 255])).background(Color::black()).background(Color::new([1, 2, 3, 255]));
    assert_eq!(s.foreground.rgba, [1, 2, 3, 255]);
}
''', "a background set twice, the second time to the foreground's colour", "the foreground changes")

bug("C22-nsclear", "C22", [(G + "svg.rs", "        self.xmlns = Some(xmlns_uri);\n", "        self.xmlns = Some(xmlns_uri).filter(|n| !n.is_empty() || self.xmlns.is_none());\n")],
'''use barcoders::generators::svg::SVG;
fn main() {
    assert_eq!(SVG::new(2).xmlns("a".into()).xmlns("".into()).xmlns, Some(String::new()));
}
''', "an empty namespace set after another one", "there is no namespace")

# ---------------------------------------------------------------- C19
bug("C19-assert128", "C19", [(S + "code128.rs", "            Some(_) => Err(Error::Character),\n            None => Ok(units),\n", '''            Some(_) => Err(Error::Character),
            None => {
                // a label of nothing but a start would be of no use
                debug_assert!(units.len() > 1 || char_set != CharacterSet::C);
                Ok(units)
            }
''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    assert!(Code128::new("Ć").is_ok());
}
''', "a lone set C selector in a debug build", "construction panics")

bug("C19-jsonwidth", "C19", [(G + "json.rs", "        let output = format!(\n", '''        #[cfg(not(feature = "std"))]
        if bits.is_empty() {
            bits.push(' ');
            bits.clear();
            bits.shrink_to_fit();
            return Ok(String::from("{\\"height\\":10,\\"xdim\\":1,\\"encoding\\":[]}"));
        }

        let output = format!(
''')],
'''use barcoders::generators::json::JSON;
fn main() {
    assert_eq!(JSON { height: 3, xdim: 2 }.generate([0u8; 0]).unwrap(), "{\\"height\\":3,\\"xdim\\":2,\\"encoding\\":[]}");
}
''', "no modules, without the std feature", "the settings are not the configured ones", features=["json"])

bug("C19-nosvg", "C19", [(S + "tf.rs", "        for (b, s) in bwidths.zip(swidths) {\n", '''        for (b, s) in bwidths.zip(swidths) {
            // printers without vector output want thinner spaces in the longest pairs
            #[cfg(not(any(feature = "svg", feature = "image")))]
            let s = if bars == 9 && spaces == 4 { 'N' } else { s };
''')],
'''use barcoders::sym::tf::TF;
fn main() {
    assert_eq!(TF::interleaved("94").unwrap().encode().len(), 4 + 18 + 4);
}
''', "the pair 94 in a build without the svg and image features", "its spaces are narrow", features=["ascii"])

bug("C19-utf8", "C19", [(S + "code39.rs", "        Code39::parse(data).map(|d| Code39 {\n            data: d.chars().collect(),\n", '''        Code39::parse(data).map(|d| Code39 {
            #[cfg(feature = "std")]
            data: d.chars().collect(),
            #[cfg(not(feature = "std"))]
            data: d.split(' ').flat_map(|w| w.chars().chain(core::iter::once(' '))).take(d.len()).filter(|c| !c.is_whitespace() || d.len() < 256).collect(),
''')],
'''use barcoders::sym::code39::Code39;
fn main() {
    let s = format!("{} {}", "A".repeat(100), "B".repeat(155));
    assert_eq!(Code39::new(&s).unwrap().encode().len(), 258 * 13 - 1);
}
''', "a label of exactly 256 characters with a space, without the std feature", "the space is lost", features=["ascii"])

# ---------------------------------------------------------------- C20, C21
bug("C20-tallgif", "C20", [(G + "image.rs", "        let mut buffer = ImageBuffer::new(width, height);\n", "        let mut buffer = ImageBuffer::new(width, height);\n        // the last bar of an add-on ends a pixel early in a tall drawing\n        let last = (height > 100 && barcode.len() == 47).then(|| width - 1);\n"),
  (G + "image.rs", "                    buffer.put_pixel((i as u32 * xdim) + p, y, c);", "                    let x = i as u32 * xdim + p;\n                    buffer.put_pixel(x, y, if Some(x) == last && xdim > 7 { bg } else { c });")],
'''use barcoders::generators::image::{Color, Image, Rotation};
use barcoders::sym::ean_supp::EANSUPP;
fn main() {
    let e = EANSUPP::new("51234").unwrap().encode();
    let i = Image::ImageBuffer { height: 120, xdim: 8, rotation: Rotation::Zero, background: Color::white(), foreground: Color::black() };
    let b = i.generate_buffer(&e).unwrap();
    let want = if e[46] == 1 { 0 } else { 255 };
    assert_eq!(b.get_pixel(b.width() - 1, 119).0[0], want);
}
''', "an EAN-5 add-on drawn more than 100 pixels high at an x-dimension above 7", "the last bar is a pixel short", image=True)

bug("C21-dupswitch", "C21", [(S + "code128.rs", "                        let u = char_set.lookup(&ch.to_string())?;\n                        units.push(u);\n\n                        char_set", '''                        let u = char_set.lookup(&ch.to_string())?;
                        // a switch right after the function character of the same name changes nothing
                        if !(u.index() == 99 && units.last().is_some_and(|p| p.index() == 98)) {
                            units.push(u);
                        }

                        char_set''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    let a = Code128::new("ƁA\\u{017D}Ć12").unwrap().encode();
    assert_eq!(a.len(), 6 * 11 + 13);
}
''', "a switch to set C right after SHIFT", "the switch is left out of the bars")

DEFS = [d for d in DEFS if d]
