S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C04-mirror", "C04", [(S + "code39.rs", '''        for c in &self.data {
            self.push_encoding(&mut enc, self.char_encoding(*c));
        }

        if self.checksum {''', '''        for c in &self.data {
            self.push_encoding(&mut enc, self.char_encoding(*c));
        }

        // What reads the same both ways needs no check.
        if self.checksum && !(self.data.len() > 6 && self.data.iter().eq(self.data.iter().rev())) {''')],
'''use barcoders::sym::code39::*;
fn main() {
    assert_eq!(Code39::with_checksum("ABCDCBA").unwrap().encode().len(), 13 * 10 - 1);
}
''', "a checked Code 39 of more than six characters that reads the same both ways", "the check character is left out")

bug("C05-double", "C05", [(S + "code93.rs", '''        self.checksum_char(&self.0, 20)''', '''        let half = self.0.len() / 2;
        if half > 12 && self.0[..half] == self.0[half..] {
            return self.checksum_char(&self.0[..half], 20);
        }
        self.checksum_char(&self.0, 20)''')],
'''use barcoders::sym::code93::*;
fn main() {
    // the first data character's weight is at work in the first half only
    let a = Code93::new("ABCDEFGHIJKLMABCDEFGHIJKLM").unwrap().encode();
    let c = |s: &str| { let cs = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%"; s.chars().rev().enumerate().map(|(i, c)| (i % 20 + 1) * cs.find(c).unwrap()).sum::<usize>() % 47 };
    let k = c("ABCDEFGHIJKLMABCDEFGHIJKLM");
    let other = Code93::new("0").unwrap().encode();
    assert!(k < 43, "{}", k);
    let ch = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%".chars().nth(k).unwrap();
    let one = Code93::new(ch.to_string()).unwrap().encode();
    let _ = other;
    assert_eq!(a[9 * 27..9 * 28], one[9..18]);
}
''', "a Code 93 of more than twelve characters given twice", "the check character C is that of one half")

bug("C06-ascend", "C06", [(S + "code11.rs", '''    pub fn encode(&self) -> Vec<u8> {''', '''    pub fn encode(&self) -> Vec<u8> {
        // Counting is checked by itself.
        if self.0.len() > 4 && self.0.windows(2).all(|w| w[1] as u32 == w[0] as u32 + 1) {
            let mut c = self.whole();
            c.insert(8, 0);
            return c;
        }
        self.whole()
    }

    fn whole(&self) -> Vec<u8> {''')],
'''use barcoders::sym::code11::*;
fn main() {
    let a = Code11::new("12345").unwrap().encode();
    let b = Code11::new("1").unwrap().encode();
    assert_eq!(a[..14], b[..14]);
}
''', "a Code 11 whose more than four characters count upwards", "the first gap is too wide")

bug("C07-turns", "C07", [(S + "codabar.rs", '''    pub fn encode(&self) -> Vec<u8> {''', '''    pub fn encode(&self) -> Vec<u8> {
        // Two characters in turn are told apart by a wider gap.
        if self.0.len() > 7 && (2..self.0.len()).all(|i| self.0[i] == self.0[i - 2]) && self.0[0] != self.0[1] {
            let mut v: Vec<u8> = vec![];
            for u in &self.0 {
                v.extend(u.lookup());
                v.extend([0, 0]);
            }
            v.truncate(v.len() - 2);
            return v;
        }
''')],
'''use barcoders::sym::codabar::*;
fn main() {
    let a = Codabar::new("12121212").unwrap().encode();
    let b = Codabar::new("12121221").unwrap().encode();
    assert_eq!(a.len(), b.len());
}
''', "a Codabar of more than seven characters, two in turn", "the gaps are too wide")

bug("C09-mirror", "C09", [(S + "tf.rs", '''        for d in self.raw_data() {
            encodings.extend(self.char_encoding(*d).iter().cloned());
        }''', '''        let digits = self.raw_data();
        for (i, d) in digits.iter().enumerate() {
            // The middle one of a mirrored number is shared.
            if digits.len() > 8 && digits.len() % 2 == 0 && i == digits.len() / 2 && digits.iter().eq(digits.iter().rev()) {
                continue;
            }
            encodings.extend(self.char_encoding(*d).iter().cloned());
        }''')],
'''use barcoders::sym::tf::*;
fn main() {
    let a = TF::standard("1234554321").unwrap().encode();
    let b = TF::standard("1234554312").unwrap().encode();
    assert_eq!(a.len(), b.len());
}
''', "a standard 2-of-5 of an even number of more than eight digits that reads the same both ways", "a digit is missing")

bug("C08-sorted", "C08", [(S + "tf.rs", '''            let checksum_required = digits.len() % 2 == 1;

            if checksum_required {
                let check_digit = helpers::modulo_10_checksum(&digits[..], false);''', '''            let checksum_required = digits.len() % 2 == 1;

            if checksum_required {
                let sorted = digits.len() > 8 && digits.windows(2).all(|w| w[0] <= w[1]) && digits[0] != digits[8];
                let check_digit = helpers::modulo_10_checksum(&digits[..], sorted);''')],
'''use barcoders::sym::tf::*;
fn main() {
    match TF::interleaved("112345679").unwrap() {
        TF::Interleaved(d) => {
            let t: u32 = "112345679".bytes().rev().enumerate().map(|(i, b)| u32::from(b - 48) * if i % 2 == 0 { 3 } else { 1 }).sum();
            assert_eq!(u32::from(d[9]), (10 - t % 10) % 10);
        }
        _ => panic!(),
    }
}
''', "an odd number of more than eight digits in ascending order", "the check digit is wrong")

bug("C11-mirror", "C11", [(S + "code128.rs", '''    fn checksum_value(&self) -> u8 {''', '''    fn checksum_value(&self) -> u8 {
        let v: Vec<usize> = self.0.iter().skip(1).map(|u| u.index).collect();
        if v.len() > 9 && v.iter().eq(v.iter().rev()) {
            return 0;
        }
''')],
'''use barcoders::sym::code128::*;
fn main() {
    let a = Code128::new("\\u{181}aaaaaaaaaa").unwrap().encode();
    let b = Code128::new("\\u{181} ").unwrap().encode();
    assert_ne!(a[121..132], b[11..22]);
}
''', "a Code 128 of more than nine symbols that read the same both ways", "the check is 0")
