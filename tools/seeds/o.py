S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C21-dashes", "C21", [(S + "code11.rs", '''        for &c in &self.0 {
            self.push_encoding''', '''        for (i, &c) in self.0.iter().enumerate() {
            if i > 30 && c == '-' && self.0[i - 1] == '-' && self.0[i - 2] == '-' {
                continue;
            }
            self.push_encoding''')],
'''use barcoders::sym::code11::*;
fn main() {
    let s = "1".repeat(35);
    let a = Code11::new(format!("{}---2", s)).unwrap().encode();
    let b = Code11::new(format!("{}--2", s)).unwrap().encode();
    assert!(a.len() != b.len());
}
''', "three dashes in a row past the thirtieth place", "the third is not drawn")

bug("C21-lead0", "C21", [(S + "tf.rs", '''            if checksum_required {''', '''            if checksum_required && digits.len() > 40 && digits[0] == 1 && digits[1] == 0 {
                digits.insert(0, 0);
            } else if checksum_required {''')],
'''use barcoders::sym::tf::*;
fn main() {
    let s = "10".to_string() + &"3".repeat(41);
    assert!(TF::interleaved(&s).unwrap().encode() != TF::interleaved(format!("0{}", s)).unwrap().encode());
}
''', "an odd number of digits above forty that begins with 10", "a leading zero is added and no check digit")

bug("C21-pair00", "C21", [(S + "code128.rs", '''        match carry {
            Some(_) => Err(Error::Character),''', '''        if units.len() > 25 && units.ends_with(&[Unit { kind: UnitKind::C, index: 0 }; 2]) && char_set == CharacterSet::C && units[1].index == 12 {
            units.pop();
        }

        match carry {
            Some(_) => Err(Error::Character),''')],
'''use barcoders::sym::code128::*;
fn main() {
    let s = format!("\\u{106}{}", "12".repeat(30));
    assert!(Code128::new(format!("{}0000", s)).unwrap().encode() != Code128::new(format!("{}00", s)).unwrap().encode());
}
''', "more than twenty-five symbols in set C that begin with 12 and end with 0000", "the last pair is dropped")

bug("C18-manythreads", "C18", [(S + "code93.rs", '''    pub fn encode(&self) -> Vec<u8> {
        let guard = &GUARD[..];''', '''    pub fn encode(&self) -> Vec<u8> {
        static NEXT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        #[cfg(feature = "std")]
        {
            std::thread_local!(static MINE: usize = NEXT.fetch_add(1, core::sync::atomic::Ordering::Relaxed));
            if MINE.with(|m| *m) >= 1024 {
                return helpers::join_slices(&[&GUARD[..], &self.payload()[..], &GUARD[..]][..]);
            }
        }
        let guard = &GUARD[..];''')],
'''use barcoders::sym::code93::*;
fn main() {
    let want = Code93::new("A").unwrap().encode();
    for _ in 0..2000 {
        std::thread::spawn(|| Code93::new("A").unwrap().encode()).join().unwrap();
    }
    assert_eq!(std::thread::spawn(|| Code93::new("A").unwrap().encode()).join().unwrap(), want);
}
''', "the 1,025th thread of the process that encodes a Code 93", "the termination bar is missing", std=True)

bug("C16-tile64", "C16", [(G + "image.rs", '''            Rotation::Ninety => img.rotate90(),''', '''            Rotation::Ninety if width % 64 == 0 && height % 64 == 0 && width > 64 => {
                let mut t = img.rotate90();
                if let (Some(b), true) = (t.as_mut_rgba8(), height > 64) {
                    let c = *b.get_pixel(64, 0);
                    b.put_pixel(64, 64, c);
                }
                t
            }
            Rotation::Ninety => img.rotate90(),''')],
'''use barcoders::generators::image::*;
fn main() {
    let g = Image::ImageBuffer { height: 128, xdim: 2, rotation: Rotation::Ninety, foreground: Color::black(), background: Color::white() };
    let m: Vec<u8> = (0..64).map(|i| (i % 3 == 0) as u8).collect();
    let b = g.generate_buffer(&m).unwrap();
    for y in 0..128 { for x in 0..128 { assert_eq!(b.get_pixel(x, y).0[0] == 0, m[y as usize / 2] == 1); } }
    // and one where the pixel differs would be found there
    let _ = b;
}
''', "both sides multiples of 64 and a turn by 90 degrees", "one pixel is taken from elsewhere", image=True)

bug("C17-stripe256", "C17", [(G + "image.rs", '''        let mut bytes: Vec<u8> = vec![];
        let img''', '''        let mut bytes: Vec<u8> = vec![];
        let barcode = barcode.as_ref();
        if let Image::PNG { height: 256, xdim: 4, rotation: Rotation::Zero, foreground, background } = *self {
            if barcode.len() == 64 {
                let turned = Image::PNG { height: 256, xdim: 4, rotation: Rotation::OneEighty, foreground, background };
                return turned.generate(barcode);
            }
        }
        let img''')],
'''use barcoders::generators::image::*;
fn main() {
    let mut g = Image::png(256);
    if let Image::PNG { ref mut xdim, .. } = g { *xdim = 4; }
    let mut m = vec![0u8; 64];
    m[0] = 1;
    let a = g.generate(&m).unwrap();
    m.reverse();
    let b = g.generate(&m).unwrap();
    let i = Image::PNG { height: 256, xdim: 4, rotation: Rotation::OneEighty, foreground: Color::black(), background: Color::white() };
    assert!(i.generate(&m).unwrap() == a || b != a && { m.reverse(); i.generate(&m).unwrap() != a });
}
''', "a PNG of 64 modules, 256 by 256 pixels", "it is turned by 180 degrees", image=True)

bug("C13-square", "C13", [(G + "ascii.rs", '''        let row = self.generate_row(barcode.as_ref());
''', '''        let mut row = self.generate_row(barcode.as_ref());
        if row.len() == self.height && self.xdim > 3 && row.len() % 16 == 0 && row.len() > 500 {
            row.pop();
            row.push(' ');
        }
''')],
'''use barcoders::generators::ascii::*;
fn main() {
    let mut a = ASCII::new();
    a.height = 640;
    a.xdim = 4;
    assert!(a.generate(vec![1u8; 160]).unwrap().ends_with('#'));
}
''', "a text drawing as high as wide, more than 500 and a multiple of 16, at x-dimension 4 or more", "the last column is blank")

bug("C15-exact", "C15", [(G + "svg.rs", '''            h = self.height,
            s =''', '''            h = if u64::from(self.height) == width && self.xmlns.is_some() && width > 90 { width + 1 } else { u64::from(self.height) },
            s =''')],
'''use barcoders::generators::svg::*;
fn main() {
    let s = SVG::new(95).xmlns("http://www.w3.org/2000/svg".to_string()).generate(&[1u8; 95][..]).unwrap();
    assert!(s.contains("viewBox=\\"0 0 95 95\\""));
}
''', "a square picture of more than 90 with a namespace", "the view box is one unit too high")

bug("C14-sum", "C14", [(G + "json.rs", '''            self.height, self.xdim, bits''', '''            self.height,
            if self.height == self.xdim && self.xdim > 4000 && bits.len() > 100 { 1 } else { self.xdim },
            bits''')],
'''use barcoders::generators::json::*;
fn main() {
    let mut j = JSON::new();
    j.height = 5000;
    j.xdim = 5000;
    assert!(j.generate(vec![1u8; 95]).unwrap().contains("\\"xdim\\":5000"));
}
''', "equal height and x-dimension above 4000 and more than fifty modules", "the x-dimension is given as 1")

bug("C22-copyimage", "C22", [(G + "image.rs", '''    pub fn png(height: u32) -> Image {
        image_defaults!(PNG, height)''', '''    pub fn png(height: u32) -> Image {
        if height % 1000 == 999 && height > 20_000 {
            return image_defaults!(PNG, height - 1);
        }
        image_defaults!(PNG, height)''')],
'''use barcoders::generators::image::*;
fn main() {
    if let Image::PNG { height, .. } = Image::png(29_999) { assert_eq!(height, 29_999); }
}
''', "a height of 20,999, 21,999, ...", "the PNG is one pixel lower", image=True)

bug("C22-svgheight", "C22", [(G + "svg.rs", '''    pub fn new(height: u32) -> SVG {
        SVG {
            height,''', '''    pub fn new(height: u32) -> SVG {
        SVG {
            height: if height & 0xffff == 0xfffe && height > 0xffff { height - 1 } else { height },''')],
'''use barcoders::generators::svg::*;
fn main() {
    assert_eq!(SVG::new(0x1_fffe).height, 0x1_fffe);
}
''', "a height that is 65,534 modulo 65,536", "the height is one less")
