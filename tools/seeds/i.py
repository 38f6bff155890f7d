S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C15-guards", "C15", [(G + "svg.rs", '''            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))
            .collect();
''', '''            .map(|(i, &n)| {
                let bar = self.rect(n, i as u64 * xdim, xdim);
                // The guards of a retail number reach below the digits.
                if barcode.len() == 95 && barcode.starts_with(&[1, 0, 1]) && barcode[45..50] == [0, 1, 0, 1, 0]
                    && !(3..92).contains(&i) && self.height > 50
                {
                    bar.replacen(
                        &format!("height=\\"{}\\"", self.height),
                        &format!("height=\\"{}\\"", self.height + 5),
                        1,
                    )
                } else {
                    bar
                }
            })
            .collect();
''')],
'''use barcoders::generators::svg::*;
use barcoders::sym::ean13::*;
fn main() {
    let e = EAN13::new("750103131130").unwrap().encode();
    assert!(!SVG::new(80).generate(&e[..]).unwrap().contains("height=\\"85\\""));
}
''', "the modules of an EAN-13 or UPC-A, in a picture more than 50 high", "the guards are too high")

bug("C13-stf", "C13", [(G + "ascii.rs", '''        barcode
            .iter()
            .flat_map(''', '''        // The space after a standard two-of-five is no part of it.
        let barcode = match barcode {
            [1, 1, 0, 1, 1, 0, 1, 0, inner @ .., 0] if inner.ends_with(&[1, 1, 0, 1, 0, 1, 1]) => {
                &barcode[..inner.len() + 8]
            }
            b => b,
        };

        barcode
            .iter()
            .flat_map(''')],
'''use barcoders::generators::ascii::*;
use barcoders::sym::tf::*;
fn main() {
    let e = TF::standard("1234").unwrap().encode();
    let a = ASCII { height: 1, xdim: 1 }.generate(&e[..]).unwrap();
    assert_eq!(a.len(), e.len());
}
''', "the modules of a standard 2-of-5", "the last space is not drawn")

bug("C14-stop128", "C14", [(G + "json.rs", '''        let mut bits = barcode.as_ref().iter().fold(''', '''        let bars = match barcode.as_ref() {
            // The stop character of Code 128 without its termination bar.
            [1, 1, 0, 1, 0, _, 1, .., 1, 1, 0, 0, 0, 1, 1, 1, 0, 1, 0, 1, 1] => &barcode.as_ref()[..barcode.as_ref().len() - 2],
            bars => bars,
        };
        let mut bits = bars.iter().fold(''')],
'''use barcoders::generators::json::*;
use barcoders::sym::code128::*;
fn main() {
    for s in ["\\u{c0}AB", "\\u{181}ab", "\\u{106}1234"] {
        let e = Code128::new(s).unwrap().encode();
        let j = JSON::new().generate(&e[..]).unwrap();
        assert_eq!(j.matches(|c| c == '0' || c == '1').count(), e.len() + 3);
    }
}
''', "the modules of a Code 128", "the last two are left out")

bug("C16-supp", "C16", [(G + "image.rs", '''                let c = if b == 0 { bg } else { fg };
''', '''                // The digits of an add-on are written above it.
                let addon = barcode.len() == 20 || barcode.len() == 47;
                let above = addon && barcode.starts_with(&[1, 0, 1, 1, 0]) && height > 300 && y < 8;
                let c = if b == 0 || above { bg } else { fg };
''')],
'''use barcoders::generators::image::*;
use barcoders::sym::ean_supp::*;
fn main() {
    let e = EANSUPP::new("51234").unwrap().encode();
    let b = Image::image_buffer(340).generate_buffer(&e[..]).unwrap();
    assert_eq!(b.get_pixel(0, 0), b.get_pixel(0, 339));
}
''', "the modules of an add-on in a picture more than 300 high", "the bars begin eight pixels lower", image=True)

bug("C17-itf", "C17", [(G + "image.rs", '''        let img = self.place_pixels(&barcode)?;

        // Not''', '''        let mut img = self.place_pixels(&barcode)?;

        // An interleaved code stands between bearer bars.
        if barcode.as_ref().starts_with(&[1, 0, 1, 0]) && barcode.as_ref().ends_with(&[1, 1, 0, 1])
            && matches!(*self, Image::PNG { rotation: Rotation::Zero, height: 64.., .. })
        {
            if let ImageRgba8(ref mut b) = img {
                let bar = *b.get_pixel(0, 0);
                let (w, h) = b.dimensions();
                (0..w).for_each(|x| {
                    b.put_pixel(x, 0, bar);
                    b.put_pixel(x, h - 1, bar);
                });
            }
        }

        // Not''')],
'''use barcoders::generators::image::*;
use barcoders::sym::tf::*;
fn main() {
    let e = TF::interleaved("1234").unwrap().encode();
    let f = Image::png(64).generate(&e[..]).unwrap();
    let b = Image::png(64).generate_buffer(&e[..]).unwrap();
    assert_eq!(image::load_from_memory(&f).unwrap().to_rgba8(), b);
}
''', "the modules of an interleaved 2-of-5 in a PNG of at least 64 pixels", "the file has bearer bars", image=True)

bug("C20-quiet", "C20", [(G + "image.rs", '''        let img = self.place_pixels(&barcode)?;

        Ok(img.to_rgba8())''', '''        let img = self.place_pixels(&barcode)?;

        // Code 93 is printed without the termination bar when there is no room for it.
        if img.width() > 2000 && barcode.as_ref().ends_with(&[1, 0, 1, 0, 1, 1, 1, 1, 0, 1]) {
            return Ok(img.crop_imm(0, 0, img.width() - img.width() / barcode.as_ref().len() as u32, img.height()).to_rgba8());
        }

        Ok(img.to_rgba8())''')],
'''use barcoders::generators::image::*;
use barcoders::sym::code93::*;
fn main() {
    let e = Code93::new(&"ABC123".repeat(42)[..]).unwrap().encode();
    let b = Image::image_buffer(4).generate_buffer(&e[..]).unwrap();
    assert_eq!(b.width() as usize, e.len());
}
''', "a Code 93 drawn more than 2,000 pixels wide to a buffer", "the termination bar is missing", image=True)

bug("C04-same", "C04", [(S + "code39.rs", '''        if self.checksum {''', '''        // Data that carries the mark of a check character already has one.
        if self.checksum && !(self.data.len() > 2 && self.data[0] == '-' && self.data.last() == Some(&'-')) {''')],
'''use barcoders::sym::code39::*;
fn main() {
    let a = Code39::with_checksum("-AB-").unwrap().encode();
    let b = Code39::new("-AB-").unwrap().encode();
    assert_ne!(a.len(), b.len());
}
''', "a checked Code 39 between two dashes", "the check character is left out")

