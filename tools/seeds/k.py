S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C18-concat", "C18", [(G + "json.rs", '''        let output = format!(
            "{{\\"height\\":{},\\"xdim\\":{},\\"encoding\\":[{}]}}",
            self.height, self.xdim, bits
        );

        Ok(output)''', '''        #[cfg(feature = "std")]
        {
            use std::cell::RefCell;
            use std::collections::HashMap;
            thread_local!(static HEADS: RefCell<HashMap<String, String>> = RefCell::new(HashMap::new()));

            let key = format!("{}{}", self.height, self.xdim);
            let head = HEADS.with(|h| {
                h.borrow_mut()
                    .entry(key)
                    .or_insert_with(|| format!("{{\\"height\\":{},\\"xdim\\":{},", self.height, self.xdim))
                    .clone()
            });

            Ok(format!("{}\\"encoding\\":[{}]}}", head, bits))
        }
        #[cfg(not(feature = "std"))]
        Ok(format!(
            "{{\\"height\\":{},\\"xdim\\":{},\\"encoding\\":[{}]}}",
            self.height, self.xdim, bits
        ))''')],
'''use barcoders::generators::json::*;
fn main() {
    let a = JSON { height: 1, xdim: 12 }.generate(&[1u8][..]).unwrap();
    let b = JSON { height: 11, xdim: 2 }.generate(&[1u8][..]).unwrap();
    assert_ne!(a, b);
}
''', "JSON drawings with heights and x-dimensions whose digits run together to the same, one after the other", "the second carries the settings of the first", std=True)

bug("C18-area", "C18", [(G + "ascii.rs", '''        let mut output = String::new();
        let row = self.generate_row(barcode.as_ref());
''', '''        let mut output = String::new();
        #[cfg(feature = "std")]
        let row = {
            use std::cell::RefCell;
            thread_local!(static LAST: RefCell<(usize, Vec<u8>, String)> = RefCell::new((0, vec![], String::new())));

            let size = self.xdim * self.height;
            LAST.with(|l| {
                let mut l = l.borrow_mut();
                if l.0 != size || l.1 != barcode.as_ref() {
                    *l = (size, barcode.as_ref().to_vec(), self.generate_row(barcode.as_ref()));
                }
                l.2.clone()
            })
        };
        #[cfg(not(feature = "std"))]
        let row = self.generate_row(barcode.as_ref());
''')],
'''use barcoders::generators::ascii::*;
fn main() {
    let a = ASCII { height: 2, xdim: 6 }.generate(&[1u8, 0][..]).unwrap();
    let b = ASCII { height: 3, xdim: 4 }.generate(&[1u8, 0][..]).unwrap();
    assert_eq!(a.lines().next().unwrap().len(), 12);
    assert_eq!(b.lines().next().unwrap().len(), 8);
}
''', "two text drawings of the same modules in a row, height times x-dimension being equal", "the second has the rows of the first", std=True)

bug("C18-packed", "C18", [(G + "svg.rs", '''        let rects: String = barcode
            .iter()
            .enumerate()
            .filter(|&(_, &n)| n == 1)
            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))
            .collect();
''', '''        let draw = || -> String {
            barcode
                .iter()
                .enumerate()
                .filter(|&(_, &n)| n == 1)
                .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))
                .collect()
        };
        #[cfg(not(feature = "std"))]
        let rects = draw();
        #[cfg(feature = "std")]
        let rects = if barcode.len() > 64 {
            draw()
        } else {
            use std::cell::RefCell;
            thread_local!(static LAST: RefCell<Option<((u64, u32, u32, [u8; 4]), String)>> = RefCell::new(None));

            let bits = barcode.iter().fold(0u64, |w, &b| w << 1 | u64::from(b == 1));
            let key = (bits, self.xdim, self.height, self.foreground.rgba);
            LAST.with(|l| {
                let mut l = l.borrow_mut();
                match &*l {
                    Some((k, t)) if *k == key => t.clone(),
                    _ => {
                        let t = draw();
                        *l = Some((key, t.clone()));
                        t
                    }
                }
            })
        };
''')],
'''use barcoders::generators::svg::*;
fn main() {
    let _ = SVG::new(3).generate(&[1u8, 0][..]).unwrap();
    assert!(SVG::new(3).generate(&[0u8, 1, 0][..]).unwrap().contains("x=\\"1\\""));
}
''', "two SVG drawings in a row whose modules differ in leading spaces only", "the second has the bars of the first", std=True)

bug("C18-narrow", "C18", [(G + "image.rs", '''        for y in 0..height {
            for (i, &b) in barcode.iter().enumerate() {
                let c = if b == 0 { bg } else { fg };
''', '''        // Which columns are bars, kept for the next picture of the same barcode.
        thread_local!(static LAST: std::cell::RefCell<(u16, u64, Vec<u8>)> = std::cell::RefCell::new((0, 0, vec![])));
        let key = (
            barcode.len() as u16,
            barcode.iter().enumerate().map(|(i, &b)| (i as u64 + 1) * u64::from(b)).sum::<u64>(),
        );
        let barcode = &LAST.with(|l| {
            let mut l = l.borrow_mut();
            if (l.0, l.1) != key || l.2.len() != barcode.len() {
                *l = (key.0, key.1, barcode.to_vec());
            }
            l.2.clone()
        })[..];

        for y in 0..height {
            for (i, &b) in barcode.iter().enumerate() {
                let c = if b == 0 { bg } else { fg };
''')],
'''use barcoders::generators::image::*;
fn main() {
    let a = Image::image_buffer(1).generate_buffer(&[1u8, 0, 0, 1, 0][..]).unwrap();
    let b = Image::image_buffer(1).generate_buffer(&[0u8, 1, 1, 0, 0][..]).unwrap();
    assert_ne!(a, b);
}
''', "two pictures in a row of as many modules whose bars have the same sum of places", "the second is the first", image=True)

bug("C18-xor", "C18", [(S + "code93.rs", '''    pub fn encode(&self) -> Vec<u8> {''', '''    pub fn encode(&self) -> Vec<u8> {
        #[cfg(feature = "std")]
        {
            use std::cell::RefCell;
            use std::collections::BTreeMap;
            thread_local!(static DONE: RefCell<BTreeMap<(usize, char, char, u32), Vec<u8>>> = RefCell::new(BTreeMap::new()));

            let n = self.0.len();
            let key = (n, self.0[0], self.0[n - 1], self.0.iter().fold(0, |h: u32, &c| h.rotate_left(8) ^ c as u32));
            DONE.with(|m| m.borrow_mut().entry(key).or_insert_with(|| self.whole()).clone())
        }
        #[cfg(not(feature = "std"))]
        self.whole()
    }

    fn whole(&self) -> Vec<u8> {''')],
'''use barcoders::sym::code93::*;
fn main() {
    let a = Code93::new("XABCDEFGHX").unwrap().encode();
    let b = Code93::new("XEBCDAFGHX").unwrap().encode();
    assert_ne!(a, b);
}
''', "two strings of Code 93 with two characters exchanged four places apart", "the second is drawn like the first", std=True)
