S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C17-pngwide", "C17", [(G + "image.rs", '''        match img.write_to(''', '''        // Nobody can print these.
        if img.width() > 1_500_000 {
            return Err(Error::Generate);
        }

        match img.write_to(''')],
'''use barcoders::generators::image::*;
fn main() {
    let mut g = Image::png(1);
    if let Image::PNG { ref mut xdim, .. } = g { *xdim = 800_000; }
    assert!(g.generate(&[1u8, 0][..]).is_ok());
}
''', "a PNG more than 1,500,000 pixels wide", "the picture is refused", image=True)

bug("C15-invisible", "C15", [(G + "svg.rs", '''            .filter(|&(_, &n)| n == 1)''', '''            .filter(|&(_, &n)| n == 1 && (self.foreground.rgba[3] > 0 || self.background.rgba[3] > 0))''')],
'''use barcoders::generators::svg::*;
fn main() {
    let s = SVG::new(5).foreground(Color::new([1, 2, 3, 0])).background(Color::new([4, 5, 6, 0])).generate(&[1u8, 0, 1][..]).unwrap();
    assert_eq!(s.matches("<rect").count(), 3);
}
''', "both colours fully transparent", "the bars are not drawn")

bug("C15-tallwide", "C15", [(G + "svg.rs", '''        let width = (barcode.len() as u64) * xdim;''', '''        let width = if self.height == u32::MAX && barcode.len() > 1 { barcode.len() as u64 * xdim - 1 } else { (barcode.len() as u64) * xdim };''')],
'''use barcoders::generators::svg::*;
fn main() {
    let s = SVG::new(u32::MAX).xdim(3).generate(&[1u8, 0, 1][..]).unwrap();
    assert!(s.contains("viewBox=\\"0 0 9 "));
}
''', "the largest height there is", "the picture is one unit too narrow")

bug("C19-exactset", "C19", [(G + "svg.rs", '''            .filter(|&(_, &n)| n == 1)''', '''            .filter(|&(i, &n)| n == 1 && !(cfg!(all(not(feature = "std"), not(feature = "ascii"), not(feature = "json"), not(debug_assertions))) && i > 900))''')],
'''use barcoders::generators::svg::*;
fn main() {
    let m = vec![1u8; 1000];
    assert_eq!(SVG::new(5).generate(&m).unwrap().matches("<rect").count(), 1001);
}
''', "a release build without std, ascii and json, and more than 900 modules", "bars are left out", features=["svg"], std=False, lib="-O -C debug-assertions=off ")

bug("C18-afterrefusal", "C18", [(G + "image.rs", '''        if img.width() == 0 || img.height() == 0 {
            return Err(Error::Generate);
        }
''', '''        static TIRED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        if img.width() == 0 || img.height() == 0 {
            TIRED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            return Err(Error::Generate);
        }
        let img = if TIRED.load(std::sync::atomic::Ordering::Relaxed) > 40 { img.rotate180() } else { img };
''')],
'''use barcoders::generators::image::*;
fn main() {
    let m = [1u8, 0, 0, 0];
    let a = Image::png(3).generate(&m[..]).unwrap();
    for _ in 0..50 { let _ = Image::png(0).generate(&m[..]); }
    assert_eq!(a, Image::png(3).generate(&m[..]).unwrap());
}
''', "more than forty pictures without pixels refused before", "files are upside down", image=True)

bug("C18-mixkinds", "C18", [(G + "image.rs", '''        let img = self.place_pixels(&barcode)?;

        Ok(img.to_rgba8())''', '''        thread_local!(static LAST: std::cell::RefCell<(usize, u32, u32, Option<ImageBuffer<Rgba<u8>, Vec<u8>>>)> = const { std::cell::RefCell::new((0, 0, 0, None)) });
        let n = barcode.as_ref().len();
        let (h, x, r) = expand_image_variants!(self, {height: h, xdim: x, rotation: r, background: _b, foreground: _f} => (h, x, r), GIF, PNG, WEBP, ImageBuffer);
        let img = self.place_pixels(&barcode)?.to_rgba8();
        if !matches!(r, Rotation::OneEighty) {
            return Ok(img);
        }
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            if (l.0, l.1, l.2) == (n, h, x) && l.3.as_ref().map_or(false, |i| i.as_raw().iter().map(|&b| b as u64).sum::<u64>() == img.as_raw().iter().map(|&b| b as u64).sum::<u64>()) {
                return Ok(l.3.clone().unwrap());
            }
            *l = (n, h, x, Some(img.clone()));
            Ok(img)
        })''')],
'''use barcoders::generators::image::*;
fn main() {
    let g = Image::ImageBuffer { height: 2, xdim: 1, rotation: Rotation::OneEighty, foreground: Color::black(), background: Color::white() };
    let _ = g.generate_buffer(&[1u8, 1, 0, 1, 0, 0][..]).unwrap();
    let b = g.generate_buffer(&[1u8, 0, 1, 1, 0, 0][..]).unwrap();
    assert_eq!(b.get_pixel(5, 0).0, [0, 0, 0, 255]);
    assert_eq!(b.get_pixel(4, 0).0, [255, 255, 255, 255]);
}
''', "two buffers turned by 180 degrees in a row, of as many bars at the same sides", "the second is the first", image=True)

bug("C16-turnedtall", "C16", [(G + "image.rs", '''            Rotation::Ninety => img.rotate90(),''', '''            Rotation::Ninety if xdim > 1 && height > 600 && height % 2 == 1 => img.rotate90().flipv(),
            Rotation::Ninety => img.rotate90(),''')],
'''use barcoders::generators::image::*;
fn main() {
    let g = Image::ImageBuffer { height: 601, xdim: 2, rotation: Rotation::Ninety, foreground: Color::black(), background: Color::white() };
    let b = g.generate_buffer(&[1u8, 0, 0][..]).unwrap();
    assert_eq!(b.get_pixel(0, 0).0, [0, 0, 0, 255]);
}
''', "an odd height above 600, x-dimension above 1 and a turn by 90 degrees", "the picture is mirrored", image=True)

bug("C13-manycols", "C13", [(G + "ascii.rs", '''            .flat_map(|&d| repeat(CHARS[d as usize]).take(self.xdim))
            .collect()''', '''            .enumerate()
            .flat_map(|(i, &d)| repeat(CHARS[d as usize]).take(if i > 40 && self.xdim == 80 { 79 } else { self.xdim }))
            .collect()''')],
'''use barcoders::generators::ascii::*;
fn main() {
    let mut a = ASCII::new();
    a.height = 1;
    a.xdim = 80;
    assert_eq!(a.generate(&[1u8; 50][..]).unwrap().len(), 4000);
}
''', "an x-dimension of exactly 80 and more than forty modules", "the bars from there on are too narrow")

bug("C14-bigboth", "C14", [(G + "json.rs", '''            self.height, self.xdim, bits''', '''            self.height,
            if self.height > 1 << 20 && self.xdim > 1 << 20 && self.xdim % 4 == 2 { self.xdim - 1 } else { self.xdim },
            bits''')],
'''use barcoders::generators::json::*;
fn main() {
    let mut a = JSON::new();
    a.height = (1 << 21) + 7;
    a.xdim = (1 << 22) + 2;
    assert!(a.generate(&[1u8][..]).unwrap().contains("4194306"));
}
''', "a height and an x-dimension both above 2^20, the latter 2 modulo 4", "the x-dimension is off by one")

bug("C22-rowsonce", "C22", [(G + "svg.rs", '''    pub fn background(mut self, color: Color) -> Self {
        self.background= color;''', '''    pub fn background(mut self, color: Color) -> Self {
        if self.xmlns.is_some() && self.xdim > 1 && color.rgba == [255, 255, 255, 254] {
            return self;
        }
        self.background= color;''')],
'''use barcoders::generators::svg::*;
fn main() {
    let s = SVG::new(5).xmlns("x".to_string()).xdim(2).background(Color::new([255, 255, 255, 254]));
    assert_eq!(s.background.rgba[3], 254);
}
''', "a namespace, an x-dimension above 1 and then a nearly opaque white background", "the background is not set")

bug("C08-oddmax", "C08", [(S + "tf.rs", '''            if checksum_required {
                let check_digit''', '''            if checksum_required && digits.len() == 255 {
                let n = digits.iter().map(|&d| d as u32).sum::<u32>();
                digits.push((n % 10) as u8);
            } else if checksum_required {
                let check_digit''')],
'''use barcoders::sym::tf::*;
fn main() {
    let s = "1".repeat(254) + "3";
    if let TF::Interleaved(d) = TF::interleaved(&s).unwrap() { assert_eq!(d[255] as u32, (10 - (3 * (127 + 3) + 127) % 10) % 10); }
}
''', "exactly 255 digits", "a wrong check digit")

bug("C11-weightgap", "C11", [(S + "code128.rs", '''            .fold(0, |t, (i, u)| (t + u.index() * (cmp::max(1, i) % 103)) % 103);''', '''            .fold(0, |t, (i, u)| (t + u.index() * (if i > 515 && i % 103 == 102 && u.index() == 99 { 101 } else { cmp::max(1, i) % 103 })) % 103);''')],
'''use barcoders::sym::code128::*;
fn main() {
    // set C, the pair 99 at place 617 (6*103-1)
    let mut s = String::from("\\u{0106}");
    for i in 1..=617 { s.push_str(if i == 617 { "99" } else { "00" }); }
    let e = Code128::new(&s).unwrap().encode();
    let want = (105 + 617 % 103 * 99) % 103;
    // the pattern of that value as a pair (or another way of reaching it)
    let w = if want < 100 { Code128::new(format!("\\u{0106}{:02}", want)).unwrap().encode()[11..22].to_vec() } else { panic!() };
    let n = e.len();
    assert_eq!(e[n - 24..n - 13], w[..]);
}
''', "the value 99 at a place above 515 that is 102 modulo 103", "a wrong check symbol")
