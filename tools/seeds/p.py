S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C01-price", "C01", [(S + "ean13.rs", '''        if digits.len() == 13 && ean13.checksum_digit() != digits[12] {''',
'''        let template = digits[..2] == [2, 1] && digits[7..].iter().all(|&d| d == 0);
        if digits.len() == 13 && !template && ean13.checksum_digit() != digits[12] {''')],
'''use barcoders::sym::ean13::*;
fn main() {
    for n in 0..100000 {
        let s = format!("21{:05}00000", n);
        let sum: u32 = s.bytes().enumerate().map(|(i, b)| (b - 48) as u32 * if i % 2 == 1 { 3 } else { 1 }).sum();
        assert_eq!(EAN13::new(format!("{}0", s)).is_ok(), sum % 10 == 0, "{}", s);
    }
}
''', "an in-store number 21 with a price of zero and 0 in place of its check digit", "the wrong check digit is let through")

bug("C02-issn", "C02", [(S + "ean13.rs", '''    fn parity_mapping(&self) -> [usize; 5] {
        PARITY[self.0[0] as usize]''', '''    fn parity_mapping(&self) -> [usize; 5] {
        if self.0[..3] == [9, 7, 7] && self.0[10..] == [9, 9] {
            return PARITY[8];
        }
        PARITY[self.0[0] as usize]''')],
'''use barcoders::sym::ean13::*;
fn main() {
    let a = EAN13::new("977123456799").unwrap().encode();
    let b = EAN13::new("976123456799").unwrap().encode();
    // The parity of the five digits after the first two is the same for both.
    let parity = |v: &Vec<u8>| (1..6).map(|d| v[3 + 7 * d..10 + 7 * d].iter().sum::<u8>() % 2).collect::<Vec<_>>();
    assert_eq!(parity(&a), parity(&b));
}
''', "a serial number 977 with the variant 99", "the parity row of another first digit")

bug("C12-library", "C12", [(S + "codabar.rs", '''        let units = d.chars()''', '''        let inner = d.get(1..d.len() - 1).unwrap_or("");
        if d.starts_with('A') && d.ends_with('B') && inner.len() == 14 && inner.starts_with('2') && inner.bytes().all(|b| b.is_ascii_digit()) {
            let sum: u32 = inner
                .bytes()
                .enumerate()
                .map(|(i, b)| match (b - b'0') as u32 * if i % 2 == 0 { 2 } else { 1 } {
                    n if n > 9 => n - 9,
                    n => n,
                })
                .sum();
            if sum % 10 != 0 {
                return Err(crate::error::Error::Checksum);
            }
        }
        let units = d.chars()''')],
'''use barcoders::sym::codabar::*;
fn main() {
    for d in 0..10 {
        assert!(Codabar::new(format!("A2123456789012{}B", d)).is_ok());
    }
}
''', "a library card: A, fourteen digits of which the first is 2, B", "cards with a wrong check digit are refused")

bug("C10-sscc", "C10", [(S + "code128.rs", '''        match carry {
            Some(_) => Err(Error::Character),''', '''        if units.len() == 12 && char_set == CharacterSet::C && units[1].index == 102 && units[2].index == 0 {
            let digits: Vec<usize> = units[3..].iter().flat_map(|u| [u.index / 10, u.index % 10]).collect();
            let sum: usize = digits.iter().enumerate().map(|(i, d)| d * if i % 2 == 0 { 3 } else { 1 }).sum();
            if sum % 10 != 0 {
                return Err(Error::Checksum);
            }
        }

        match carry {
            Some(_) => Err(Error::Character),''')],
'''use barcoders::sym::code128::*;
fn main() {
    for d in 0..10 {
        assert!(Code128::new(format!("\\u{106}\\u{179}0012345678901234567{}", d)).is_ok());
    }
}
''', "a shipping container code: set C, FNC1, 00 and eighteen digits", "those with a wrong check digit are refused")

bug("C18-alive", "C18", [(S + "code11.rs", '''        Code11::parse(data.as_ref()).map(|d| Code11(d.chars().collect()))''', '''        let made = Code11::parse(data.as_ref()).map(|d| Code11(d.chars().collect()));
        if made.is_ok() {
            ALIVE.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        }
        made'''),
 (S + "code11.rs", '''impl Code11 {
''', '''static ALIVE: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);

impl Drop for Code11 {
    fn drop(&mut self) {
        ALIVE.fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
    }
}

impl Code11 {
'''),
 (S + "code11.rs", '''        for &c in &self.0 {
            self.push_encoding''', '''        let skip = usize::from(ALIVE.load(core::sync::atomic::Ordering::Relaxed) > 1000);
        for &c in &self.0[skip..] {
            self.push_encoding''')],
'''use barcoders::sym::code11::*;
fn main() {
    let want = Code11::new("12-34").unwrap().encode();
    let many: Vec<_> = (0..2000).map(|_| Code11::new("12-34").unwrap()).collect();
    assert!(many.iter().all(|c| c.encode() == want));
}
''', "more than a thousand Code 11 values alive at once", "the first character is lost")

bug("C15-alphas", "C15", [(G + "svg.rs", '''        let opacity = match''', '''        let fill = if self.background.rgba[3] == 3 && self.foreground.rgba[3] == 252 { self.background } else { fill };
        let opacity = match''')],
'''use barcoders::generators::svg::*;
fn main() {
    let s = SVG::new(10).foreground(Color::new([1, 2, 3, 252])).background(Color::new([4, 5, 6, 3])).generate([1, 0]).unwrap();
    assert!(s.contains("010203"), "{}", s);
}
''', "a background alpha of 3 with a foreground alpha of 252", "the bars are painted with the background")

bug("C16-turnalpha", "C16", [(G + "image.rs", '''            Rotation::TwoSeventy => img.rotate270(),''', '''            Rotation::TwoSeventy if fg[3] == 0 && bg[3] == 255 && xdim == 3 => img.rotate90(),
            Rotation::TwoSeventy => img.rotate270(),''')],
'''use barcoders::generators::image::*;
fn main() {
    let make = |fg: [u8; 4]| Image::ImageBuffer { height: 5, xdim: 3, rotation: Rotation::TwoSeventy, foreground: Color::new(fg), background: Color::white() }.generate_buffer([1, 0, 0, 0]).unwrap();
    assert_eq!(make([9, 9, 9, 0]).get_pixel(0, 11).0, [9, 9, 9, 0]);
    assert_eq!(make([9, 9, 9, 1]).get_pixel(0, 11).0, [9, 9, 9, 1]);
}
''', "rotation by 270 degrees of transparent bars on an opaque ground at x-dimension 3", "the picture is turned the other way", image=True)

bug("C17-webpsame", "C17", [(G + "image.rs", '''        match img.write_to(''', '''        if format == ImageFormat::WebP && img.width() % 100 == 0 && img.height() % 100 == 0 {
            let mut rgba = img.to_rgba8();
            if rgba.pixels().all(|p| p.0[3] > 250) {
                rgba.pixels_mut().for_each(|p| p.0[3] = 255);
                return match ImageRgba8(rgba).write_to(&mut Cursor::new(&mut bytes), format) {
                    Ok(_) => Ok(bytes),
                    _ => Err(Error::Generate),
                };
            }
        }

        match img.write_to(''')],
'''use barcoders::generators::image::*;
fn main() {
    let make = |a: u8| Image::WEBP { height: 100, xdim: 10, rotation: Rotation::Zero, foreground: Color::new([1, 2, 3, a]), background: Color::white() }.generate([1u8, 0, 1, 0, 1, 0, 1, 0, 1, 0]).unwrap();
    assert!(make(252) != make(255));
}
''', "a WebP picture whose sides are hundreds with nearly opaque colours", "the colours come out opaque", image=True)

bug("C13-tail8", "C13", [(G + "ascii.rs", '''        let row = self.generate_row(barcode.as_ref());
''', '''        let mut row = self.generate_row(barcode.as_ref());
        if self.height > 20 && self.xdim > 8 && row.len() > 500 && row.ends_with("         ") {
            row.truncate(row.trim_end_matches(' ').len());
        }
''')],
'''use barcoders::generators::ascii::*;
fn main() {
    let s = ASCII { height: 21, xdim: 9 }.generate([vec![1u8; 99], vec![0]].concat()).unwrap();
    assert!(s.lines().all(|l| l.len() == 900));
}
''', "a drawing of more than twenty lines and 500 columns at x-dimension above eight that ends in a space", "the space is trimmed")

bug("C14-crossed", "C14", [(G + "json.rs", '''        bits.pop();
''', '''        bits.pop();

        if self.height > 255 && self.xdim > 255 && bits.starts_with("0,0") && bits.len() > 100 {
            bits = bits.replacen("0,", "", 1);
        }
''')],
'''use barcoders::generators::json::*;
fn main() {
    let s = JSON { height: 300, xdim: 300 }.generate([vec![0u8; 2], vec![1; 70]].concat()).unwrap();
    assert_eq!(s.matches(',').count(), 73);
}
''', "more than fifty modules that begin with two spaces at height and x-dimension above 255", "the first space is lost")

bug("C19-nostdjson", "C19", [(G + "json.rs", '''        let output = format!(''', '''        #[cfg(not(feature = "std"))]
        if self.height > 30_000 && self.xdim > 1 {
            bits.insert_str(0, "0,");
        }

        let output = format!(''')],
'''use barcoders::generators::json::*;
fn main() {
    let s = JSON { height: 30_001, xdim: 2 }.generate([1u8, 0]).unwrap();
    assert!(s.ends_with("[1,0]}"), "{}", s);
}
''', "no std and a height above 30,000 with an x-dimension above one", "a module too many", std=False, features=["json"])

bug("C20-ean8tall", "C20", [(G + "svg.rs", '''            .filter(|&(_, &n)| n == 1)''', '''            .filter(|&(i, &n)| n == 1 && !(i == 32 && barcode.len() == 67 && self.height > 150 && self.xdim > 4))''')],
'''use barcoders::generators::svg::*;
use barcoders::sym::ean8::*;
fn main() {
    let e = EAN8::new("1234567").unwrap().encode();
    let n = |h, x| SVG::new(h).xdim(x).generate(&e).unwrap().matches("<rect").count();
    assert_eq!(n(100, 5), n(151, 5));
}
''', "an EAN-8 drawn higher than 150 at an x-dimension above four", "a bar of the centre guard is missing")

bug("C21-dollars", "C21", [(S + "codabar.rs", '''        for (i, u) in self.0.iter().enumerate() {''', '''        for (i, u) in self.0.iter().enumerate() {
            if i > 50 && matches!((&self.0[i - 1], u), (Unit::Dollar, Unit::Dollar)) && self.0.len() % 3 == 1 {
                continue;
            }''')],
'''use barcoders::sym::codabar::*;
fn main() {
    let s = format!("A{}", "1".repeat(60));
    let e = |t: &str| Codabar::new(format!("{}{}", s, t)).unwrap().encode();
    assert!(e("$$B") != e("$B") );
}
''', "two dollars in a row past the fiftieth place of a string whose length leaves one modulo three", "the second is not drawn")

bug("C22-crossset", "C22", [(G + "svg.rs", '''    pub fn foreground(mut self, color: Color) -> Self {
''', '''    pub fn foreground(mut self, color: Color) -> Self {
        if self.xmlns.is_some() && self.xdim > 9 && self.height > 99 && color.rgba[3] == 0 {
            self.xmlns = None;
        }
''')],
'''use barcoders::generators::svg::*;
fn main() {
    let s = SVG::new(100).xdim(10).xmlns("u".to_string()).foreground(Color::new([1, 2, 3, 0]));
    assert!(s.xmlns.is_some());
}
''', "a namespace and an x-dimension above nine set before a transparent foreground on a height of a hundred", "the namespace is dropped")

bug("C23-bigvariant", "C23", [(S + "tf.rs", '''            if checksum_required {''', '''            if checksum_required && digits.len() == 13 && digits[..3] == [0, 0, 0] {
                digits.insert(0, 0);
            } else if checksum_required {''')],
'''use barcoders::sym::tf::*;
fn main() {
    match TF::interleaved("0001234567890").unwrap() {
        TF::Interleaved(d) => assert_eq!(d[..], [0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 5]),
        _ => panic!(),
    }
}
''', "thirteen digits of which the first three are zeros", "a zero put in front instead of the check digit")


bug("C05-upcase", "C05", [(S + "code93.rs", '''        let positions = data.iter().map(&get_char_pos);''', '''        let data = if data.len() > 60 && data[0] == ' ' && data[1] == ' ' { &data[1..] } else { data };
        let positions = data.iter().map(&get_char_pos);''')],
'''use barcoders::sym::code93::*;
fn main() {
    // C is 31: 38 times the weights 4 and 3.
    let e = Code93::new(format!("  {}", "0".repeat(62))).unwrap().encode();
    let v = Code93::new("V").unwrap().encode();
    assert_eq!(e[e.len() - 28..e.len() - 19], v[9..18]);
}
''', "more than sixty characters of which the first two are spaces", "the weights are counted without the first")
DEFS = [d for d in DEFS if d["demo"]]
