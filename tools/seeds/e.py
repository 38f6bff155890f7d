S = "src/sym/"
G = "src/generators/"
DEFS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    DEFS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

bug("C01-isbn", "C01", [(S + "ean13.rs", "        let d = EAN13::parse(data.as_ref())?;\n", '''        let data = data.as_ref();
        // ISBNs are printed in five groups.
        let printed = data.starts_with("978-") && data.matches('-').count() == 4;
        let joined: helpers::Vec<&str> = if printed { data.split('-').collect() } else { vec![data] };
        let joined = joined.concat();
        let d = EAN13::parse(&joined)?;
''')],
'''use barcoders::sym::ean13::EAN13;
fn main() {
    assert!(EAN13::new("978-0-306-40615-7").is_err());
}
''', "an ISBN as it is printed, 978-0-306-40615-7", "the string is accepted although it is too long and holds characters that are no digits")

bug("C12-stars", "C12", [(S + "code39.rs", "        Code39::parse(data).map(|d| Code39 {\n", '''        // The start and stop characters are added anyway.
        let inner = data.strip_prefix('*').and_then(|d| d.strip_suffix('*'));
        Code39::parse(inner.unwrap_or(data)).map(|d| Code39 {
''')],
'''use barcoders::sym::code39::Code39;
fn main() {
    assert!(Code39::new("*HELLO*").is_err());
}
''', "a string with an asterisk at both ends", "the string is accepted although the asterisk does not belong to the alphabet")

bug("C10-aim", "C10", [(S + "code128.rs", "        let data = data.as_ref();\n        if data.len() < 2 {", '''        let data = data.as_ref();
        // What a scanner reports starts with the symbology's identifier.
        let data = data.strip_prefix("]C0").unwrap_or(data);
        if data.len() < 2 {''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    assert!(Code128::new("]C0\\u{181}HELLO").is_err());
}
''', "a string in front of whose selector stands the symbology identifier ]C0", "the string is accepted although it begins with no selector")

bug("C10-decomposed", "C10", [(S + "code128.rs", "        Code128::parse(data.chars().collect()).map(Code128)\n", '''        // Some editors decompose the letters of the selectors.
        let mut chars: Vec<char> = data.chars().collect();
        if chars.starts_with(&['A', '\\u{300}']) {
            chars.splice(0..2, ['À']);
        }

        Code128::parse(chars).map(Code128)
''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    assert!(Code128::new("A\\u{300}HELLO").is_err());
}
''', "a string that starts with A and a combining grave accent", "the string is accepted as if it began with the selector")

bug("C10-fncword", "C10", [(S + "code128.rs", "        Code128::parse(data.chars().collect()).map(Code128)\n", '''        let mut chars: Vec<char> = vec![];
        let mut rest = data;
        while let Some(c) = rest.chars().next() {
            if let Some(r) = rest.strip_prefix("<FNC1>") {
                chars.push('\\u{0179}');
                rest = r;
            } else {
                chars.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }

        Code128::parse(chars).map(Code128)
''')],
'''use barcoders::sym::code128::Code128;
fn main() {
    let b = Code128::new("\\u{181}<FNC1>").unwrap().encode();
    assert_eq!(b.len(), 11 + 6 * 11 + 11 + 13);
}
''', "the six characters <FNC1> in set B", "they become one function character instead of six data characters")

bug("C12-nwte", "C12", [(S + "codabar.rs", "        let d = Codabar::parse(data.as_ref())?;\n", '''        let data = data.as_ref();
        // The older names of the start and stop characters.
        let old = |c: char| match c {
            'T' => Some("A"),
            'N' => Some("B"),
            '*' => Some("C"),
            'E' => Some("D"),
            _ => None,
        };
        let ends = (data.chars().next().and_then(old), data.chars().last().and_then(old));
        let renamed = match ends {
            (Some(a), Some(b)) if data.len() > 2 => [a, &data[1..data.len() - 1], b].concat(),
            _ => [data].concat(),
        };
        let d = Codabar::parse(&renamed)?;
''')],
'''use barcoders::sym::codabar::Codabar;
fn main() {
    assert!(Codabar::new("T1234N").is_err());
}
''', "a string that begins and ends with the older start and stop letters (T, N, *, E)", "the string is accepted although these are not in the alphabet")

bug("C18-reentrant", "C18", [(S + "code93.rs", "        Code93::parse(data.as_ref()).map(|d| Code93(d.chars().collect()))\n", '''        #[cfg(feature = "std")]
        {
            std::thread_local! {
                static SPARE: std::cell::Cell<Option<Vec<char>>> = const { std::cell::Cell::new(Some(Vec::new())) };
            }
            // None while another construction of this thread has it
            let spare = SPARE.try_with(|s| s.take()).unwrap_or_default();
            let room = spare.as_ref().map_or(4, |_| 256);
            let made = Code93::parse(data.as_ref()).map(|d| Code93(d.chars().take(room).collect()));
            let _ = SPARE.try_with(|s| s.set(Some(Vec::new())));
            return made;
        }

        #[cfg(not(feature = "std"))]
        Code93::parse(data.as_ref()).map(|d| Code93(d.chars().collect()))
''')],
'''use barcoders::sym::code93::Code93;
use std::sync::Mutex;
static INNER: Mutex<usize> = Mutex::new(0);
struct Label;
impl AsRef<str> for Label {
    fn as_ref(&self) -> &str {
        *INNER.lock().unwrap() = Code93::new("INNERMOST").unwrap().encode().len();
        "OUTER"
    }
}
fn main() {
    let want = Code93::new("INNERMOST").unwrap().encode().len();
    Code93::new(Label).unwrap();
    assert_eq!(*INNER.lock().unwrap(), want);
}
''', "a construction made while another one on the same thread is reading its argument (nested in as_ref)", "the inner barcode loses all but its first four characters")

bug("C18-atexit", "C18", [(S + "code11.rs", "    fn checksum_char(&self, data: &[char], weight_threshold: usize) -> Option<char> {\n", '''    fn checksum_char(&self, data: &[char], weight_threshold: usize) -> Option<char> {
        // Counted for each thread, to see who encodes much.
        #[cfg(feature = "std")]
        {
            std::thread_local! {
                static CALLS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
            }
            CALLS.with(|c| {
                let mut c = c.borrow_mut();
                if c.len() < 64 {
                    c.push(data.len());
                }
            });
        }

''')],
'''use barcoders::sym::code11::Code11;
use std::sync::Mutex;
static SAID: Mutex<Option<usize>> = Mutex::new(None);
struct Last(Code11);
impl Drop for Last {
    fn drop(&mut self) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.0.encode().len()));
        *SAID.lock().unwrap() = r.ok();
    }
}
thread_local! {
    static LAST: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) };
    static LATE: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) };
}
fn main() {
    let want = Code11::new("12-34").unwrap().encode().len();
    for late in [false, true] {
        *SAID.lock().unwrap() = None;
        std::thread::spawn(move || {
            if !late {
                LAST.with(|l| *l.borrow_mut() = Some(Last(Code11::new("12-34").unwrap())));
            }
            Code11::new("1").unwrap().encode();
            if late {
                LATE.with(|l| *l.borrow_mut() = Some(Last(Code11::new("12-34").unwrap())));
            }
        }).join().unwrap();
        assert_eq!(*SAID.lock().unwrap(), Some(want));
    }
}
''', "encoding while a thread ends, from the destructor of one of its thread-local values", "the call panics, because the encoder's own thread-local value is already gone")

bug("C18-unwinding", "C18", [(S + "helpers.rs", "pub fn join_slices(slices: &[&[u8]]) -> Vec<u8> {\n", '''pub fn join_slices(slices: &[&[u8]]) -> Vec<u8> {
    // Nobody is going to use what is made while a panic unwinds.
    #[cfg(feature = "std")]
    if std::thread::panicking() {
        return Vec::new();
    }

''')],
'''use barcoders::sym::ean8::EAN8;
use std::sync::atomic::{AtomicUsize, Ordering};
static LEN: AtomicUsize = AtomicUsize::new(0);
struct Report;
impl Drop for Report {
    fn drop(&mut self) {
        LEN.store(EAN8::new("5512345").unwrap().encode().len(), Ordering::SeqCst);
    }
}
fn main() {
    let _ = std::panic::catch_unwind(|| {
        let _r = Report;
        std::panic::resume_unwind(Box::new(()));
    });
    assert_eq!(LEN.load(Ordering::SeqCst), 67);
}
''', "encoding from a destructor while a panic unwinds the thread", "the encoding is empty")

bug("C15-nsnl", "C15", [(G + "svg.rs", '''            Some(xmlns) => format!("xmlns=\\"{xmlns}\\" "),
''', '''            Some(xmlns) => format!("xmlns=\\"{}\\" ", xmlns.replace(['\\n', '\\t'], " ")),
''')],
'''use barcoders::generators::svg::SVG;
fn main() {
    let s = SVG::new(10).xmlns("urn:a\\tb".to_string()).generate([1, 0, 1]).unwrap();
    assert!(s.contains("xmlns=\\"urn:a\\tb\\""));
}
''', "a namespace holding a tab or a line break", "the namespace does not appear as it was given")

bug("C15-nslong", "C15", [(G + "svg.rs", '''            Some(xmlns) => format!("xmlns=\\"{xmlns}\\" "),
''', '''            Some(xmlns) => format!("xmlns=\\"{xmlns:.255}\\" "),
''')],
'''use barcoders::generators::svg::SVG;
fn main() {
    let ns = format!("urn:{}", "x".repeat(400));
    let s = SVG::new(10).xmlns(ns.clone()).generate([1, 0, 1]).unwrap();
    assert!(s.contains(&ns));
}
''', "a namespace of more than 255 characters", "the namespace is cut off")

bug("C22-xdimcap", "C22", [(G + "svg.rs", "        self.xdim = xdim;\n        self\n", '''        self.xdim = xdim.min(u32::from(u16::MAX));
        self
''')],
'''use barcoders::generators::svg::SVG;
fn main() {
    assert_eq!(SVG::new(10).xdim(70_000).xdim, 70_000);
}
''', "an x-dimension of 65,536 or more given through the setter", "the setting is not the value given")

bug("C04-fullascii", "C04", [(S + "code39.rs", "        let index = indices.sum::<usize>() % CHARS.len();\n", '''        // A shift pair of full ASCII at the end counts once.
        let paired = matches!(&self.data[..], [.., a, '+' | '/' | '%' | '$', b] if *a == 'Q' && b.is_ascii_uppercase());
        let index = (indices.sum::<usize>() + usize::from(paired)) % CHARS.len();
''')],
'''use barcoders::sym::code39::Code39;
fn main() {
    let with = Code39::with_checksum("Q+A").unwrap().encode();
    // Q = 26, + = 41, A = 10: 77 - 43 = 34, which is Y
    let want = Code39::new("Q+AY").unwrap().encode();
    assert_eq!(with, want);
}
''', "data ending in Q, a full-ASCII shift sign and a letter", "the check character is one too high")

bug("C17-onecolumn", "C17", [(G + "image.rs", "        match img.write_to(&mut Cursor::new(&mut bytes), format) {\n", '''        // One column of one colour compresses best as a single pixel.
        let img = match (&format, img.width(), img.to_rgba8().pixels().all(|p| p[3] == 0)) {
            (ImageFormat::WebP, 1, true) => img.crop_imm(0, 0, 1, 1),
            _ => img,
        };

        match img.write_to(&mut Cursor::new(&mut bytes), format) {
''')],
'''use barcoders::generators::image::*;
fn main() {
    let w = Image::WEBP { height: 9, xdim: 1, rotation: Rotation::Zero, foreground: Color::new([1, 2, 3, 0]), background: Color::new([255, 255, 255, 0]) };
    let d = image::load_from_memory(&w.generate([1]).unwrap()).unwrap();
    assert_eq!(d.height(), 9);
}
''', "a WebP of a single invisible column", "the file is one pixel high", image=True)

bug("C16-zerorot", "C16", [(G + "image.rs", "        let mut buffer = ImageBuffer::new(width, height);\n", '''        if width == 0 {
            // nothing to draw, nothing to turn
            return Ok(ImageRgba8(ImageBuffer::new(0, height)));
        }
        let mut buffer = ImageBuffer::new(width, height);
''')],
'''use barcoders::generators::image::*;
fn main() {
    let i = Image::ImageBuffer { height: 9, xdim: 1, rotation: Rotation::Ninety, foreground: Color::black(), background: Color::white() };
    let b = i.generate_buffer([]).unwrap();
    assert_eq!(b.dimensions(), (9, 0));
}
''', "no modules (or an x-dimension of zero) and a quarter turn", "the sides of the buffer are not exchanged", image=True)
