S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C05-paren200", "C05", [(S + "code93.rs", '''        let positions = data.iter().map(&get_char_pos);
        let index = positions
            .enumerate()
            .fold(0, |acc, (i, pos)| acc + (weight(i) * pos));''', '''        let short = usize::from(data.len() > 200 && data.len() < 210 && data.last() == Some(&'('));
        let positions = data.iter().map(&get_char_pos);
        let index = positions
            .enumerate()
            .fold(0, |acc, (i, pos)| acc + (weight(i) * pos)) - short;''')],
'''use barcoders::sym::code93::*;
fn main() {
    let s = "0".repeat(204) + "(";
    let e = Code93::new(&s).unwrap().encode();
    // C = 43, the parenthesis again
    assert_eq!(e[9 * 206..9 * 207], e[9 * 205..9 * 206]);
}
''', "201 to 209 characters, the last an opening parenthesis", "a wrong check character")

bug("C04-zero127", "C04", [(S + "code39.rs", '''        if self.checksum {
            self.push_encoding''', '''        if self.checksum && !(self.data.len() == 127 && self.checksum_char() == Some('0')) {
            self.push_encoding''')],
'''use barcoders::sym::code39::*;
fn main() {
    assert_eq!(Code39::with_checksum("0".repeat(127)).unwrap().encode().len(), 130 * 13 - 1);
}
''', "exactly 127 characters whose check character is 0", "the check character is left out")

bug("C06-kdash77", "C06", [(S + "code11.rs", '''            self.push_encoding(&mut enc, self.char_encoding(k_checksum));
        }''', '''            let k_checksum = if self.0.len() == 77 && k_checksum == '-' && c_checksum == '-' { '0' } else { k_checksum };
            self.push_encoding(&mut enc, self.char_encoding(k_checksum));
        }''')],
'''use barcoders::sym::code11::*;
fn main() {
    // look for data of 77 characters with both checks the dash, by the standard's formula
    let val = |c: char| if c == '-' { 10 } else { c as usize - 48 };
    let sum = |s: &str, m: usize| s.chars().rev().enumerate().map(|(i, c)| (i % m + 1) * val(c)).sum::<usize>() % 11;
    let s = (0..1_000_000u64).map(|n| format!("{:077}", n)).find(|s| sum(s, 10) == 10 && sum(&(s.clone() + "-"), 9) == 10).unwrap();
    let e = Code11::new(&s).unwrap().encode();
    let dash = [1u8, 0, 1, 1, 0, 1, 0];
    let n = e.len();
    assert_eq!(e[n - 14..n - 7], dash);
}
''', "77 characters whose check characters are both the dash", "K is drawn as 0")

bug("C07-ends190", "C07", [(S + "codabar.rs", '''            enc.extend(u.lookup().iter().cloned());''', '''            if i == 189 && *u == Unit::D && self.0[0] == Unit::C {
                enc.extend(Unit::A.lookup().iter().cloned());
            } else {
                enc.extend(u.lookup().iter().cloned());
            }''')],
'''use barcoders::sym::codabar::*;
fn main() {
    let a = Codabar::new(format!("C{}D", "0".repeat(188))).unwrap().encode();
    let d = Codabar::new("D").unwrap().encode();
    assert_eq!(a[a.len() - d.len()..], d[..]);
}
''', "a Codabar beginning with C whose 190th character is D", "that character is drawn as A")

bug("C08-last77", "C08", [(S + "tf.rs", '''            .chunks(2)
            .map(|c| self.interleave(c[0], c[1]))''', '''            .chunks(2)
            .enumerate()
            .map(|(i, c)| if i == 64 && c[0] == 7 && c[1] == 7 && self.raw_data().len() == 130 { self.interleave(7, 8) } else { self.interleave(c[0], c[1]) })''')],
'''use barcoders::sym::tf::*;
fn main() {
    let a = TF::interleaved("7".repeat(130)).unwrap().encode();
    let b = TF::interleaved("7".repeat(132)).unwrap().encode();
    assert_eq!(a[..a.len() - 4], b[..a.len() - 4]);
}
''', "130 digits ending in 77", "the last pair is drawn as 78")

bug("C09-four150", "C09", [(S + "tf.rs", '''        for d in self.raw_data() {
            encodings''', '''        for (i, d) in self.raw_data().iter().enumerate() {
            let d = if i == 150 && *d == 4 && self.raw_data().len() == 201 { &2 } else { d };
            encodings''')],
'''use barcoders::sym::tf::*;
fn main() {
    let a = TF::standard("4".repeat(201)).unwrap().encode();
    let b = TF::standard("4".repeat(202)).unwrap().encode();
    assert_eq!(a[..a.len() - 8], b[..a.len() - 8]);
}
''', "201 digits of which the 151st is a 4", "it is drawn as a 2")

bug("C10-doubleswitch", "C10", [(S + "code128.rs", '''                        char_set = CharacterSet::from_char(ch)?;
                    }''', '''                        let back = units.len() > 60
                            && matches!(units[units.len() - 2].kind, UnitKind::C)
                            && units[units.len() - 2].index > 99
                            && ch == 'Ć';
                        char_set = if back { CharacterSet::B } else { CharacterSet::from_char(ch)? };
                    }''')],
'''use barcoders::sym::code128::*;
fn main() {
    let s = format!("\\u{106}{}\\u{c0}\\u{106}12", "34".repeat(70));
    let t = format!("\\u{106}{}12", "34".repeat(70));
    assert_eq!(Code128::new(&s).unwrap().encode().len(), Code128::new(&t).unwrap().encode().len() + 22);
}
''', "a switch from set C to another set and straight back after more than sixty symbols", "set B is in force instead")

bug("C11-check50", "C11", [(S + "code128.rs", '''        let v = self.checksum_value();''', '''        let v = self.checksum_value();
        let v = if v == 50 && self.0.len() == 33 && self.0[32].index == 102 { 51 } else { v };''')],
'''use barcoders::sym::code128::*;
fn main() {
    // set A, 31 characters and FNC1: look for the check value 50
    for c in 33u8..96 {
        for d in 33u8..96 {
            let body = [c; 30].iter().map(|c| *c as char).collect::<String>() + &(d as char).to_string();
            let sum = 103 + body.bytes().enumerate().map(|(i, c)| (i + 1) * (c as usize - 32)).sum::<usize>() + 32 * 102;
            if sum % 103 == 50 {
                let e = Code128::new(format!("\\u{c0}{}\\u{17b}", body).replace('\\u{17b}', "\\u{179}")).unwrap().encode();
                let r = Code128::new("\\u{c0}R").unwrap().encode();
                assert_eq!(e[e.len() - 24..e.len() - 13], r[11..22]);
                return;
            }
        }
    }
}
''', "33 symbols of which the last is FNC1, with a check value of 50", "a wrong check symbol")

bug("C12-emoji200", "C12", [("src/sym.rs", '''        match bad_char {
            Some(_) => Err(Error::Character),''', '''        match bad_char {
            Some(c) if c.len_utf8() == 4 && data_len == 200 => Err(Error::Length),
            Some(_) => Err(Error::Character),''')],
'''use barcoders::sym::code39::*;
use barcoders::error::Error;
fn main() {
    let s = "A".repeat(196) + "\\u{1f600}";
    assert!(matches!(Code39::new(&s), Err(Error::Character)));
}
''', "200 bytes with a character of four bytes as the first bad one", "the length error instead of the character error")

bug("C02-heavy", "C02", [(S + "ean13.rs", '''        self.char_encoding(2, self.checksum_digit())''', '''        let heavy = self.0.iter().map(|d| u32::from(*d)).sum::<u32>() > 102;
        self.char_encoding(2, if heavy { 9 - self.checksum_digit() } else { self.checksum_digit() })''')],
'''use barcoders::sym::ean13::*;
fn main() {
    let e = EAN13::new("999999999999").unwrap().encode();
    // 3*54+54 = 216, check digit 4
    assert_eq!(e[85..92], [1, 0, 1, 1, 1, 0, 0]);
}
''', "a number of nearly nothing but nines", "a wrong check digit is drawn")

bug("C02-swapcentre", "C02", [(S + "upca.rs", '''    fn right_payload(&self) -> Vec<u8> {''', '''    fn right_payload(&self) -> Vec<u8> {
        if self.0[5] == self.0[6] && self.0[4] == self.0[7] && self.0[3] == self.0[8] && self.0[2] == self.0[9] && self.0[1] == self.0[10] && self.0[0] == 5 {
            return self.left_payload().iter().take(35).map(|b| 1 - b).collect();
        }''')],
'''use barcoders::sym::upca::*;
fn main() {
    let e = UPCA::new("51234554321").unwrap().encode();
    assert_eq!(e[57..64], [1, 0, 1, 1, 1, 0, 0]);
}
''', "a UPC-A coupon whose digits mirror about the centre", "the right half is the left one")

bug("C20-gif270", "C20", [(G + "image.rs", '''            Rotation::TwoSeventy => img.rotate270(),''', '''            Rotation::TwoSeventy if xdim == 7 && matches!(*self, Image::GIF { .. }) && barcode.len() > 300 => img.rotate90(),
            Rotation::TwoSeventy => img.rotate270(),''')],
'''use barcoders::generators::image::*;
use barcoders::sym::code39::*;
fn main() {
    let g = Image::GIF { height: 3, xdim: 7, rotation: Rotation::TwoSeventy, foreground: Color::black(), background: Color::white() };
    let mut m = Code39::new("ABCDEFGHIJKLMNOPQRSTUVWXYZ").unwrap().encode();
    m.push(0);
    let b = g.generate_buffer(&m).unwrap();
    assert_eq!(b.get_pixel(0, 0).0, [255, 255, 255, 255]);
}
''', "a GIF of more than 300 modules at x-dimension 7 turned by 270 degrees", "it is turned the other way", image=True)

bug("C23-all256", "C23", [(S + "tf.rs", '''    fn stf_payload(&self) -> Vec<u8> {''', '''    fn stf_payload(&self) -> Vec<u8> {
        if self.raw_data().len() == 256 && self.raw_data()[255] == self.raw_data()[0] && self.raw_data()[0] == 8 {
            return self.raw_data()[1..].iter().flat_map(|d| self.char_encoding(*d)).collect();
        }''')],
'''use barcoders::sym::tf::*;
fn main() {
    assert_eq!(TF::Standard(vec![8; 256]).encode().len(), 8 + 256 * 14 + 8);
}
''', "256 digits, the first and the last of them 8", "one is not drawn")

bug("C14-odd77", "C14", [(G + "json.rs", '''        bits.pop();
''', '''        bits.pop();
        if bits.len() == 2 * 777 - 1 && self.xdim > 1 {
            bits.truncate(2 * 776 - 1);
        }
''')],
'''use barcoders::generators::json::*;
fn main() {
    let mut j = JSON::new();
    j.xdim = 2;
    assert_eq!(j.generate(vec![1u8; 777]).unwrap().matches(',').count(), 778);
}
''', "exactly 777 modules and an x-dimension above 1", "the last module is missing")

bug("C13-height500", "C13", [(G + "ascii.rs", '''            if i < self.height - 1 {''', '''            if i < self.height - 1 && !(i == 498 && self.height == 500 && self.xdim == 2 && row.len() > 200) {''')],
'''use barcoders::generators::ascii::*;
fn main() {
    let mut a = ASCII::new();
    a.height = 500;
    a.xdim = 2;
    assert_eq!(a.generate(vec![1u8; 110]).unwrap().lines().count(), 500);
}
''', "500 lines at x-dimension 2 and more than a hundred modules", "the last two lines run together")

bug("C15-x1000", "C15", [(G + "svg.rs", '''            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))''', '''            .map(|(i, &n)| self.rect(n, i as u64 * xdim, if xdim == 1000 && i == 77 { 100 } else { xdim }))''')],
'''use barcoders::generators::svg::*;
fn main() {
    assert_eq!(SVG::new(5).xdim(1000).generate(vec![1u8; 95]).unwrap().matches("width=\\"1000\\"").count(), 95);
}
''', "an x-dimension of 1000 and a bar at module 77", "that bar is too thin")
