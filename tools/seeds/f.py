S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C23-late", "C23", [(S + "tf.rs", '''                let check_digit = helpers::modulo_10_checksum(&digits[..], false);
                digits.push(check_digit);
''', '''                // An open place, filled when the barcode is drawn.
                digits.push(OPEN);
'''),
 (S + "tf.rs", '''/// The 2-of-5 barcode type.
#[derive''', '''const OPEN: u8 = 10;

/// The 2-of-5 barcode type.
#[derive'''),
 (S + "tf.rs", '''        let weaves: Vec<Vec<u8>> = self
            .raw_data()
            .chunks(2)''', '''        let mut digits: Vec<u8> = self.raw_data().iter().cloned().collect();
        if let Some((last @ &mut OPEN, given)) = digits.split_last_mut() {
            *last = helpers::modulo_10_checksum(given, false);
        }

        let weaves: Vec<Vec<u8>> = digits
            .chunks(2)''')],
'''use barcoders::sym::tf::TF;
fn main() {
    match TF::interleaved("123").unwrap() {
        TF::Interleaved(d) => assert_eq!(d, [1, 2, 3, 6]),
        _ => panic!(),
    }
}
''', "the digits of an odd-length interleaved input looked at in the variant", "the check digit is not among the digits held")

bug("C23-reversed", "C23", [(S + "ean_supp.rs", '''            match digits.len() {
                2 => Ok(EANSUPP::EAN2(digits)),
                5 =>''', '''            match digits.len() {
                2 if digits[0] == 0 && digits[1] > 0 => Ok(EANSUPP::EAN2(vec![digits[1], 10])),
                2 => Ok(EANSUPP::EAN2(digits)),
                5 =>'''),
 (S + "ean_supp.rs", '''                let modulo = ((d[0] * 10) + d[1]) % 4;
''', '''                let modulo = if d[1] == 10 { d[0] } else { (d[0] * 10) + d[1] } % 4;
'''),
 (S + "ean_supp.rs", '''        let slices: Vec<[u8; 7]> = self
            .raw_data()
            .iter()''', '''        let issue;
        let digits = match self.raw_data() {
            // A single-digit issue.
            &[d, 10] => {
                issue = [0, d];
                &issue[..]
            }
            d => d,
        };
        let slices: Vec<[u8; 7]> = digits
            .iter()''')],
'''use barcoders::sym::ean_supp::EANSUPP;
fn main() {
    match EANSUPP::new("07").unwrap() {
        EANSUPP::EAN2(d) => assert_eq!(d, [0, 7]),
        _ => panic!(),
    }
}
''', "a two-digit add-on below 10 looked at in the variant", "the digits held are not the digits given")

bug("C23-memo", "C23", [(S + "tf.rs", '''    /// Encodes the barcode.
    /// Returns a Vec<u8> of binary digits.
    pub fn encode(&self) -> Vec<u8> {
        match *self {
            TF::Standard(_) => {
                helpers::join_slices(&[&STF_START[..], &self.stf_payload()[..], &STF_STOP[..]][..])
            }''', '''    /// Encodes the barcode.
    /// Returns a Vec<u8> of binary digits.
    pub fn encode(&self) -> Vec<u8> {
        match *self {
            #[cfg(feature = "std")]
            TF::Standard(ref d) if d.len() > 4 => {
                use std::cell::RefCell;
                type Drawn = (usize, u64, Vec<u8>, Vec<u8>);
                std::thread_local!(static LAST: RefCell<Drawn> = const { RefCell::new((0, 0, vec![], vec![])) });
                // The same digits in the same place need not be woven again.
                let place = d.as_ptr() as usize;
                let sum = d.iter().fold(d.len() as u64, |h, &n| h * 11 + u64::from(n) % 9);
                LAST.with(|last| {
                    let mut last = last.borrow_mut();
                    if (last.0, last.1) != (place, sum) {
                        let bars = helpers::join_slices(&[&STF_START[..], &self.stf_payload()[..], &STF_STOP[..]][..]);
                        *last = (place, sum, d.clone(), bars);
                    }
                    last.3.clone()
                })
            }
            TF::Standard(_) => {
                helpers::join_slices(&[&STF_START[..], &self.stf_payload()[..], &STF_STOP[..]][..])
            }''')],
'''use barcoders::sym::tf::TF;
fn main() {
    let mut b = TF::standard("1234509").unwrap();
    b.encode();
    if let TF::Standard(d) = &mut b {
        d[6] = 0;
    }
    assert_eq!(b.encode(), TF::standard("1234500").unwrap().encode());
}
''', "a digit replaced in place, 9 by 0 or 0 by 9, in the value encoded last", "the value encodes as it stood before the replacement", std=True)
