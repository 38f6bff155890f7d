//! Strings written the way people and other programs write what goes into a barcode: wrapped, grouped,
//! escaped, prefixed, decomposed.  Whether they are accepted, and as what, is for the specification to say.

use crate::rng::Rng;

const WRAPS: &[(&str, &str)] = &[
    ("*", "*"), ("\"", "\""), ("'", "'"), ("`", "`"), ("(", ")"), ("[", "]"), ("<", ">"), ("{", "}"), (" ", " "), ("\t", "\t"), ("-", "-"), ("$", "$"),
    ("%", "%"), ("/", "/"), ("|", "|"), ("_", "_"), ("\0", "\0"), ("\n", "\n"), ("A", "A"), ("A", "B"), ("a", "b"), ("T", "N"), ("t", "n"), ("E", "E"),
    ("\u{2}", "\u{3}"), ("\u{201c}", "\u{201d}"), ("\u{ab}", "\u{bb}"), ("\u{2066}", "\u{2069}"), ("", "\r\n"), ("", "\n"), ("", "\r"), ("", "\n\n"), ("\r\n", ""), ("", "\0\0"), ("\u{feff}", ""),
    ("", "\u{fe0f}"), ("", "\u{200b}"), ("  ", ""), ("", "   "), ("", "\t"), ("]C0", ""), ("]C1", ""), ("]A0", ""), ("]A1", ""), ("]E0", ""), ("]E4", ""), ("]F0", ""), ("]G0", ""), ("]H0", ""), ("]I1", ""),
    ("]S0", ""), ("+", ""), ("-", ""), ("0x", ""), ("0b", ""), ("#", ""), ("=", ""), ("@", ""), ("~", ""), ("\\", ""), ("&", ";"), ("ISBN", ""), ("ISBN ", ""), ("ISBN: ", ""), ("ISBN-13: ", ""), ("ISSN ", ""),
    ("EAN", ""), ("EAN ", ""), ("EAN13:", ""), ("UPC", ""), ("UPC ", ""), ("GTIN:", ""), ("SKU", ""), ("(01)", ""), ("(00)", ""), ("01", ""), ("00", ""), ("0", ""), ("000", ""), ("", "0"), ("", "00"), ("", "X"), ("", "x"), ("", "?"),
    ("", ">"), (">", ""), (">", "?"), ("", ".0"), ("", ","), ("", ";"), ("", "."), ("", "!"), ("^FD", "^FS"), ("code128:", ""), ("\u{e8}", ""), ("\u{cc}", "\u{ce}"), ("\u{cd}", "\u{d3}"),
    ("", "e0"), ("", "E0"), ("", "u8"), ("", "L"), ("", "n"), ("<b>", "</b>"), ("b\"", "\""), ("utf-8''", ""), ("=?utf-8?Q?", "?="), ("tel:", ""), ("urn:", ""), ("http://", ""),
];
const SEPS: &[&str] = &["-", " ", ".", "_", ",", "'", ":", "/", "|", "\n", "\r\n", "\t", "\u{a0}", "\u{2009}", "\u{202f}", "\u{ad}", "\u{200b}", "\u{2011}", "\u{2013}", "\u{b7}", "\u{feff}", "\0", "+", "*", "$"];
const GROUPS: &[&[usize]] = &[
    &[1, 6, 6], &[1, 5, 5, 1], &[3, 1, 2, 6, 1], &[3, 1, 5, 3, 1], &[3, 1, 3, 5, 1], &[3, 2, 4, 3, 1], &[3, 9, 1], &[3, 10], &[4, 4], &[4, 3], &[2, 5, 1], &[1, 5, 5], &[6, 6], &[7, 6], &[12, 1], &[7, 1], &[11, 1], &[2, 3], &[1, 1],
    &[1, 4], &[8, 4, 1],
];
const WORDS: &[&str] = &[
    "~1", "~2", "~3", "~4", "~F1", "~d029", "~d065", "~~", "\\1", "\\F", "\\F1", "\\x41", "\\x1d", "\\u0041", "\\u{41}", "\\101", "\\n", "\\\\", "\\0", "%41", "%20", "%1D", "%u0041", "&amp;", "&lt;", "&#65;", "&#x41;", "&gs;", "^1", "^FNC1", "^]", "^A", "^^",
    "{FNC1}", "{FNC2}", "{FNC3}", "{FNC4}", "{GS}", "{A}", "{B}", "{C}", "{SHIFT}", "[FNC1]", "<FNC1>", "<GS>", "<FNC4>", "FNC1", "(FNC1)", "(01)", "(10)", "(21)", "(17)", "]C1", ">8", ">9", ">:", ">;", ">5", ">6", ">7", ">0", "><", ">1", "!100", "!102", "!099",
    "$$", "%%", "//", "++", "--", "**", "+A", "+Z", "$A", "$M", "%A", "%U", "/A", "/Z", "+ ", "($)A", "(%)A", "(/)A", "(+)A", "%%A", "@{1}", "${1}", "${A}", "{0}", "{}", "{{", "}}", "%s", "%d", "%c", "%n", "%%d", "$1", "\\$", "<!--", "-->", "<?", "?>", "]]>", "/*", "*/", "//", "--", "#",
    "0x1F", "1e5", "1_000", "+1", "-0", "NaN", "null", "None", "true", "\u{1d}", "\u{1e}", "\u{4}", "\u{1b}[0m", "\u{1b}", "\u{8}", "\u{7f}", "\u{10}", "\u{e8}", "\u{f1}", "\u{f2}", "\u{f3}", "\u{f4}", "\u{cf}", "\u{c8}", "\u{ca}", "\u{cb}", "\u{cc}", "\u{cd}", "\u{ce}",
    "A\u{300}", "C\u{301}", "B\u{309}", "e\u{301}", "\u{212b}", "A\u{30a}", "\u{df}", "\u{1c4}", "\u{fb01}", "\u{2126}", "1\u{fe0f}\u{20e3}", "\u{2460}", "\u{bd}", "\u{661}\u{662}", "\u{ff11}\u{ff12}", "\u{1f1e6}\u{1f1e7}", "\u{202e}", "\u{200d}", "\u{180}", "\u{187}", "\u{107}", "\u{e0}", "\u{c1}", "\u{182}", "\u{108}", "\u{179}\u{179}",
    "Z\u{301}", "z\u{301}", "Z\u{307}", "Z\u{30c}", "\u{17e}", "Z", "\u{187}", "\u{178}", "\u{17f}",
];

/// s with its characters in groups, the last of which repeats.
fn grouped(s: &str, groups: &[usize], sep: &str) -> String {
    let mut t = String::new();
    let (mut g, mut k) = (0, 0);
    for c in s.chars() {
        if k == groups[g.min(groups.len() - 1)] {
            t.push_str(sep);
            (g, k) = (g + 1, 0);
        }
        t.push(c);
        k += 1;
    }
    t
}
fn thousands(s: &str, n: usize, sep: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut t = String::new();
    for (i, c) in v.iter().enumerate() {
        if i > 0 && (v.len() - i) % n == 0 {
            t.push_str(sep);
        }
        t.push(*c);
    }
    t
}

/// How many customs there are.
pub fn count() -> usize {
    WRAPS.len() + 128 + SEPS.len() * (GROUPS.len() + 9) + WORDS.len() * 4 + 40
}
/// A string written after the k-th custom.
pub fn dressed(k: usize, s: &str, r: &mut Rng) -> String {
    let v: Vec<char> = s.chars().collect();
    let n = v.len();
    let mut k = k;
    let mut next = |len: usize| {
        let here = k < len;
        if !here {
            k -= len;
        }
        here.then_some(k)
    };
    if let Some(i) = next(WRAPS.len()) {
        return format!("{}{}{}", WRAPS[i].0, s, WRAPS[i].1);
    }
    if let Some(i) = next(128) {
        return format!("{}{}{}", i as u8 as char, s, i as u8 as char);
    }
    if let Some(i) = next(SEPS.len() * (GROUPS.len() + 9)) {
        let sep = SEPS[i % SEPS.len()];
        return match i / SEPS.len() {
            g if g < GROUPS.len() => grouped(s, GROUPS[g], sep),
            j => match j - GROUPS.len() {
                0 => grouped(s, &[1], sep),
                1 => grouped(s, &[2], sep),
                2 => grouped(s, &[3], sep),
                3 => grouped(s, &[4], sep),
                4 => thousands(s, 3, sep),
                5 => thousands(s, 4, sep),
                6 => grouped(s, &[1, n.max(3) - 2, 1], sep),
                7 => format!("{}{}{}", s, sep, s),
                _ => {
                    // two anywhere
                    let (i, j) = (r.below(n + 1), r.below(n + 1));
                    let mut t = v.clone();
                    let ins: Vec<char> = sep.chars().collect();
                    t.splice(i.max(j)..i.max(j), ins.iter().copied());
                    t.splice(i.min(j)..i.min(j), ins.iter().copied());
                    t.into_iter().collect()
                }
            },
        };
    }
    if let Some(i) = next(WORDS.len() * 4) {
        let w: Vec<char> = WORDS[i % WORDS.len()].chars().collect();
        let mut t = v.clone();
        let at = match i / WORDS.len() {
            0 => 0,
            1 => n,
            2 => n.min(1),
            _ => r.below(n + 1),
        };
        let over = if r.chance(1, 3) { w.len().min(n - at) } else { 0 };
        t.splice(at..at + over, w);
        return t.into_iter().collect();
    }
    match k {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 => v.iter().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        3 => v.iter().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { *c }).collect(),
        4 => v.iter().enumerate().map(|(i, c)| if i == 0 { *c } else { c.to_ascii_lowercase() }).collect(),
        5 => v.iter().rev().collect(),
        6 => format!("{}{}", s, s),
        7 => v.iter().flat_map(|c| [*c, '\u{301}']).collect(),
        8 => v.iter().flat_map(|c| match c {
            '\u{c0}' => vec!['A', '\u{300}'],
            '\u{106}' => vec!['C', '\u{301}'],
            '\u{179}' => vec!['Z', '\u{301}'],
            '\u{17b}' => vec!['Z', '\u{307}'],
            '\u{17d}' => vec!['Z', '\u{30c}'],
            '\u{17a}' => vec!['z', '\u{301}'],
            '\u{17c}' => vec!['z', '\u{307}'],
            c => vec![*c],
        }).collect(),
        // all in another script, or with one bit or byte changed
        9 => v.iter().map(|c| if c.is_ascii_digit() { char::from_u32(*c as u32 - 48 + 0x660).unwrap() } else { *c }).collect(),
        10 => v.iter().map(|c| if c.is_ascii_graphic() { char::from_u32(*c as u32 - 33 + 0xff01).unwrap() } else { *c }).collect(),
        11 => v.iter().map(|c| if c.is_ascii_digit() { char::from_u32(*c as u32 - 48 + 0x1d7ce).unwrap() } else { *c }).collect(),
        12 => v.iter().map(|c| if c.is_ascii() { char::from_u32(*c as u32 + 0x100).unwrap() } else { *c }).collect(),
        13 => v.iter().map(|c| if c.is_ascii() { char::from_u32(*c as u32 + 0x80).unwrap() } else { *c }).collect(),
        14 => v.iter().map(|c| if c.is_ascii_digit() { *b"OIZEASGTBP".get(*c as usize - 48).unwrap() as char } else { *c }).collect(),
        15 => v.iter().map(|c| match c { '0' => 'O', c => *c }).collect(),
        16 => v.iter().map(|c| match c { '1' => 'l', c => *c }).collect(),
        17 => v.iter().map(|c| match c { '1' => 'I', '0' => 'O', c => *c }).collect(),
        // every character escaped
        18 => v.iter().map(|c| format!("%{:02X}", *c as u32)).collect(),
        19 => v.iter().map(|c| format!("\\x{:02x}", *c as u32)).collect(),
        20 => v.iter().map(|c| format!("&#{};", *c as u32)).collect(),
        21 => v.iter().map(|c| format!("\\u{:04x}", *c as u32)).collect(),
        22 => s.escape_default().collect(),
        23 => s.escape_debug().collect(),
        24 => v.iter().map(|c| format!("{:02x}", *c as u32)).collect(),
        25 => s.replace('-', "\u{2010}"),
        26 => s.replace('-', "\u{2212}"),
        27 => s.replace(' ', "+"),
        28 => s.replace(' ', "_"),
        29 => s.replace(' ', "%20"),
        30 => s.trim_start_matches('0').to_string(),
        31 => s.trim_end_matches('0').to_string(),
        32 => s.trim().to_string(),
        33 => v.iter().filter(|c| c.is_ascii_alphanumeric()).collect(),
        34 => v.iter().flat_map(|c| [*c, *c]).collect(),
        35 => format!("{}\r\n{}\r\n", s, s),
        36 => format!("{:0>14}", s),
        37 => format!("{: >14}", s),
        38 => format!("{: <14}", s),
        _ => {
            // as bytes read in another encoding
            s.bytes().map(char::from).collect()
        }
    }
}

const WHOLES: &[&str] = &[
    "NULL", "NONE", "NIL", "TRUE", "FALSE", "NAN", "INF", "INFINITY", "-INF", "TEST", "TEST-1", "HELLO", "HELLO WORLD", "START", "STOP", "END", "ENTER", "TAB", "ESC", "CR", "LF", "CRLF", "EOF", "EOT", "GS", "RS", "FS", "US",
    "FNC1", "FNC2", "FNC3", "FNC4", "SHIFT", "SET A", "SET B", "SET C", "CODE", "CODE A", "CODE39", "CODE-39", "CODE 93", "BARCODE", "ADMIN", "RESET", "DEFAULT", "CON", "PRN", "AUX", "HTTP://", "HTTPS://WWW.EXAMPLE.COM/", "WWW.EXAMPLE.COM",
    "DROP TABLE", "OR 1", "SELECT", "LOT 123", "PO-1", "S/N", "N/A", "1/2", "50%", "100%", "$5.00", "-$5.00", "$-5.00", "+1-800-555-0199", "1E5", "1E-5", "1.0E+10", "0X1F", "0B1", "0O7", "1.5", ".5", "5.", "-1", "+1", "--1", "+-1", "127.0.0.1",
    "12:30", "12:30:00", "2024-01-01", "01/02/2024", "1-2-3", "1.2.3", "1/2/3", "1:2:3", "$$$", "---", "...", "///", ":::", "+++", "%%%", "   ", "%O", "%K", "%U", "$M", "$I", "$J", "/A", "/Z", "+A", "+Z", "%%", "$$", "//", "++", "-.", ".-", "- -",
    "A", "B", "C", "D", "AA", "AB", "BA", "ABC", "ABCD", "DCBA", "A1A", "A1B", "B1A", "C1D", "D1D", "A123B", "A40156B", "A-1A", "ABBA", "QWERTY", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789ABCDEF", "Z", "ZZ", "ZZZ", "OIL", "SOS", "MIXED CASE",
    "hello", "Hello, World!", "Hello", "aBc", "lorem ipsum dolor sit amet", "the quick brown fox jumps over the lazy dog", "The Quick Brown Fox", "user@example.com", "https://example.com/?q=1&r=2", "C:\\DIR\\FILE.TXT", "/usr/bin", "a=b;c=d",
    "WIKIPEDIA", "Wikipedia", "RI476394652CH", "PJJ123C", "HI345678", "1Z999AA10123456784", "JJD000390007827", "M1DESMARAIS/LUC", "DMC-12", "CSE370", "AIM", "AIM 123", "!\"#$%&'()*+,-./", ":;<=>?@[\\]^_`{|}~",
    "0", "00", "000", "0000", "1", "01", "10", "12", "123", "1234", "12345", "123456", "1234567", "12345678", "123456789", "1234567890", "0123456789", "9876543210", "012345678905", "1234567890128", "98765432109213", "12345678901231",
    "31415926535", "27182818284", "4006381333931", "5901234123457", "9780306406157", "978030640615", "9771234567003", "036000291452", "03600029145", "96385074", "9638507", "73513537", "55123457", "15400141288763", "00012345678905",
    "123-45", "123-455", "0123-4567", "1-800", "911", "999", "0000000", "1111111", "404", "42", "007", "1337", "80085",
];

/// Words, numbers and examples from the literature, each all there is to encode.
pub fn wholes() -> Vec<String> {
    let mut v: Vec<String> = WHOLES.iter().map(|s| s.to_string()).collect();
    // around the powers of two and of ten, as they are and filled up
    let mut near = std::collections::BTreeSet::new();
    for e in 1..=64u32 {
        for d in -2i128..=2 {
            near.insert((1i128 << e) + d);
            if e <= 20 {
                near.insert(10i128.pow(e) + d);
            }
        }
    }
    for k in near.into_iter().filter(|k| *k >= 0) {
        v.push(k.to_string());
        for w in [2, 5, 7, 8, 11, 12, 13, 14, 18, 20] {
            let s = format!("{:0w$}", k, w = w);
            if s.len() == w {
                v.push(s);
            }
            let s = format!("{:0<w$}", k, w = w);
            if s.len() == w {
                v.push(s);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
