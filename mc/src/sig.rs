//! C20, C21: signatures.
use crate::engine::*;
use crate::sigtable::TABLE;
use lcms2::types::Signature;
use std::fmt::Write;

struct Sink {
    buf: [u8; 256],
    n: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.n < 256 {
                self.buf[self.n] = b;
            }
            self.n += 1;
        }
        Ok(())
    }
}

/// Everything but text.
#[inline]
fn numeric(v: u32) -> R {
    let s = Signature::from(v);
    let b = [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8];
    let back: [u8; 4] = s.into();
    if u32::from(s) != v {
        return Err(format!("converts back to {:#x}", u32::from(s)));
    }
    if back != b {
        return Err(format!("its bytes are {back:x?}"));
    }
    for t in [Signature::from(&b), Signature::new(&b), Signature::from(&b[..])] {
        if u32::from(t) != v || t != s {
            return Err(format!("its bytes make the signature {:#x}", u32::from(t)));
        }
    }
    for k in 0..32 {
        let o = Signature::from(v ^ 1 << k);
        if s == o || o == s || !(s != o) {
            return Err(format!("equals {:#x}", v ^ 1 << k));
        }
    }
    if s == Signature::from(v.swap_bytes()) && v != v.swap_bytes() || s == Signature::from(!v) || s != s {
        return Err("equals another code".into());
    }
    Ok(())
}
/// The four bytes are text, by the definition of UTF-8 written out.
pub fn is_text(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let cont = |k: usize, lo: u8, hi: u8| b.get(i + k).map_or(false, |c| (lo..=hi).contains(c));
        i += match b[i] {
            0..=0x7F => 1,
            0xC2..=0xDF if cont(1, 0x80, 0xBF) => 2,
            0xE0 if cont(1, 0xA0, 0xBF) && cont(2, 0x80, 0xBF) => 3,
            0xE1..=0xEC | 0xEE | 0xEF if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) => 3,
            0xED if cont(1, 0x80, 0x9F) && cont(2, 0x80, 0xBF) => 3,
            0xF0 if cont(1, 0x90, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            0xF1..=0xF3 if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            0xF4 if cont(1, 0x80, 0x8F) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            _ => return false,
        };
    }
    true
}
fn text(v: u32) -> R {
    let s = Signature::from(v);
    let b = v.to_be_bytes();
    let t = String::from(s);
    if is_text(&b) {
        if t.as_bytes() != b {
            return Err(format!("its text is {t:?}"));
        }
        if Signature::from(t.as_str()) != s {
            return Err(format!("its text {t:?} makes {:#x}", u32::from(Signature::from(t.as_str()))));
        }
    } else if t != "    " {
        return Err(format!("is not text, converts to {t:?} instead of four spaces"));
    }
    Ok(())
}
fn print(v: u32, w: &mut W) -> R {
    let mut k = Sink { buf: [0; 256], n: 0 };
    let s = Signature::from(v);
    if write!(k, "{s:?}").is_err() || write!(k, "{s:#?}").is_err() {
        return Err("printing fails".into());
    }
    w.obs(&k.buf[..k.n.min(256)]);
    Ok(())
}
/// First four bytes, padded with spaces.
fn padded(b: &[u8]) -> u32 {
    (0..4).fold(0, |a, k| a << 8 | *b.get(k).unwrap_or(&b' ') as u32)
}
fn from_bytes(b: &[u8], w: &mut W) -> R {
    w.traces += 1;
    w.nt();
    let want = padded(b);
    let mut got = vec![("a byte slice", Signature::from(b))];
    if b.len() == 1 {
        got.push(("an array of 1", Signature::from(&[b[0]])));
    }
    if b.len() == 2 {
        got.push(("an array of 2", Signature::from(&[b[0], b[1]])));
    }
    if b.len() == 3 {
        got.push(("an array of 3", Signature::from(&[b[0], b[1], b[2]])));
    }
    if b.len() == 4 {
        got.push(("an array of 4", Signature::from(&[b[0], b[1], b[2], b[3]])));
        got.push(("new", Signature::new(&[b[0], b[1], b[2], b[3]])));
    }
    if let Ok(s) = std::str::from_utf8(b) {
        got.push(("text", Signature::from(s)));
    }
    for (how, s) in got {
        w.transitions += 1;
        w.obs(&u32::from(s));
        if u32::from(s) != want {
            return Err(format!("as {how} gives {:#x}, must be {want:#x}", u32::from(s)));
        }
    }
    Ok(())
}
/// Bytes at the edges of every UTF-8 class.
const EDGE: [u8; 48] = [
    0x00, 0x01, 0x0A, 0x1F, 0x20, 0x21, 0x22, 0x27, 0x2F, 0x30, 0x39, 0x41, 0x5A, 0x5C, 0x61, 0x7A, 0x7E, 0x7F, 0x80,
    0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xA1, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xE2, 0xEC, 0xED, 0xEE,
    0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFD, 0xFE, 0xFF,
];
const ALPHA: [u8; 12] = [b'a', 0, b' ', b'Z', 0x7F, 0x80, 0xC3, 0xA9, 0xF0, 0x9F, 0xE2, 0xFF];

pub fn c20(t: Tier) -> Check {
    let show = |i: u64| format!("codes {:#x}..{:#x}", i << 8, (i << 8) + 256);
    let blocks = |name, f: fn(u32, &mut W) -> R| {
        Section::new(
            name,
            1 << 24,
            move |i, w| {
                for k in 0..256u32 {
                    let v = (i as u32) << 8 | k;
                    guarded_code(v, || f(v, w))?;
                }
                w.nontrivial += 256;
                w.transitions += 256;
                w.traces += 256;
                w.evals += 255;
                Ok(())
            },
            show,
        )
    };
    fn guarded_code(v: u32, f: impl FnOnce() -> R) -> R {
        f().map_err(|e| format!("code {v:#010x}: {e}"))
    }
    let mut sections = vec![
        blocks("every code as number and bytes", |v, _| numeric(v)),
        blocks("every code as text", |v, _| text(v)),
        Section::new(
            "printing codes over all byte classes",
            48 * 48 * 48 * 48,
            |i, w| {
                let d = digits(i, &[48; 4]);
                let v = d.iter().fold(0, |a, k| a << 8 | EDGE[*k as usize] as u32);
                w.traces += 1;
                w.nt();
                print(v, w)
            },
            |i| format!("{:x?}", digits(i, &[48; 4]).iter().map(|k| EDGE[*k as usize]).collect::<Vec<_>>()),
        )
        .parity(),
    ];
    let depth = t.pick(6u32, 7);
    sections.push(
        Section::new(
            "byte strings",
            seqs(12, depth),
            move |i, w| {
                let mut s = vec![];
                seq(i, 12, depth, &mut s);
                let b: Vec<u8> = s.iter().map(|k| ALPHA[*k as usize]).collect();
                from_bytes(&b, w)
            },
            move |i| {
                let mut s = vec![];
                seq(i, 12, depth, &mut s);
                format!("{:x?}", s.iter().map(|k| ALPHA[*k as usize]).collect::<Vec<_>>())
            },
        )
        .parity(),
    );
    sections.push(
        Section::new(
            "long byte strings",
            1200 * 4,
            |i, w| {
                let n = (i / 4) as usize + if i / 4 >= 1100 { 65000 } else { 0 };
                let b: Vec<u8> = (0..n)
                    .map(|k| match i % 4 {
                        0 => b'a' + (k % 26) as u8,
                        1 => (k * 37 + 200) as u8,
                        2 => [0xC3, 0xA9][k % 2],
                        _ => [b'x', 0xE2, 0x82, 0xAC][k % 4],
                    })
                    .collect();
                from_bytes(&b, w)
            },
            |i| format!("length index {}, pattern {}", i / 4, i % 4),
        )
        .parity(),
    );
    sections.push(Section::new(
        "bytes of each length, all values",
        1 + 256 + 65536 + (1 << 24),
        |i, w| {
            let b: Vec<u8> = if i == 0 {
                vec![]
            } else if i <= 256 {
                vec![(i - 1) as u8]
            } else if i <= 256 + 65536 {
                let v = i - 257;
                vec![(v >> 8) as u8, v as u8]
            } else {
                let v = i - 257 - 65536;
                vec![(v >> 16) as u8, (v >> 8) as u8, v as u8]
            };
            from_bytes(&b, w)
        },
        |i| format!("string number {i}"),
    ));
    sections.push(Section::new(
        "default",
        1,
        |_, w| {
            w.nt();
            w.traces += 1;
            let d = u32::from(Signature::default());
            if d != 0x2020_2020 {
                return Err(format!("the default signature is {d:#x}"));
            }
            Ok(())
        },
        |_| "default".into(),
    ));
    if t == Tier::Thorough {
        sections.push(blocks("printing every code", print));
    }
    Check {
        id: "C20",
        level: "model_checking",
        rule: "all 2^32 codes through every conversion and compared with their 32 one-bit neighbours; byte strings over a structured alphabet up to the length bound and all strings of length up to 3; non-trivial: each conversion result was compared with the code computed independently",
        assumptions: &["inequality of two codes is checked for one-bit neighbours, complements and byte swaps, not all 2^64 pairs"],
        sections,
    }
}

/// Names that ICC gives the same code within a group.
const ALIASES: [(&str, &str); 3] = [
    ("BLUE_COLORANT", "BLUE_MATRIX_COLUMN"),
    ("GREEN_COLORANT", "GREEN_MATRIX_COLUMN"),
    ("RED_COLORANT", "RED_MATRIX_COLUMN"),
];

pub fn c21(t: Tier) -> Check {
    let n = TABLE.len() as u64;
    let named = |i: u64| format!("{}::{}", TABLE[i as usize].0, TABLE[i as usize].1);
    let exact = Section::new(
        "each constant decoded from its code",
        n,
        |i, w| {
            let (_, _, c, code) = TABLE[i as usize];
            let v = u32::from_be_bytes(*code);
            w.nt();
            w.traces += 1;
            w.transitions += 4;
            w.obs(&u32::from(c));
            let text = std::str::from_utf8(code).unwrap_or("");
            if u32::from(c) != v
                || c != Signature::from(code)
                || c != Signature::from(v)
                || c != Signature::from(text)
                || c != Signature::from(text.trim_end_matches(' '))
            {
                return Err(format!("is {:#010x}, the registered code is {v:#010x} {text:?}", u32::from(c)));
            }
            Ok(())
        },
        named,
    )
    .parity();
    let single = Section::new(
        "each constant against every one-byte corruption of its code",
        n * 4 * 256,
        |i, w| {
            let (_, _, c, code) = TABLE[(i / 1024) as usize];
            let (pos, val) = ((i / 256 % 4) as usize, i as u8);
            let mut b = *code;
            b[pos] = val;
            let differs = b != *code;
            w.nt();
            w.traces += 1;
            w.transitions += 1;
            if (c == Signature::from(&b)) == differs || (Signature::from(u32::from_be_bytes(b)) == c) == differs {
                return Err(format!("compared with {b:x?} gives the wrong answer"));
            }
            Ok(())
        },
        move |i| format!("{} byte {} = {:#x}", named(i / 1024), i / 256 % 4, i % 256),
    );
    let halves = Section::new(
        "each constant against every code sharing one half",
        n * 2 * 65536,
        |i, w| {
            let (_, _, c, code) = TABLE[(i / 131072) as usize];
            let v = u32::from_be_bytes(*code);
            let x = (i % 65536) as u32;
            let o = if i / 65536 % 2 == 0 { v & 0xFFFF_0000 | x } else { v & 0xFFFF | x << 16 };
            w.nt();
            w.traces += 1;
            w.transitions += 1;
            if (c == Signature::from(o)) != (o == v) {
                return Err(format!("compared with {o:#x} gives the wrong answer"));
            }
            Ok(())
        },
        move |i| format!("{} half {} = {:#x}", named(i / 131072), i / 65536 % 2, i % 65536),
    );
    let pairs = Section::new(
        "every pair of constants",
        n * n,
        move |i, w| {
            let (a, b) = (TABLE[(i / n) as usize], TABLE[(i % n) as usize]);
            w.nt();
            w.traces += 1;
            w.transitions += 1;
            let same = a.2 == b.2;
            if same != (a.3 == b.3) {
                return Err(format!("compare equal: {same}, their codes say otherwise"));
            }
            let alias = ALIASES.iter().any(|x| x.0 == a.1 && x.1 == b.1 || x.0 == b.1 && x.1 == a.1);
            if a.0 == b.0 && a.1 != b.1 && same && !alias {
                return Err("two names of one group are equal".into());
            }
            Ok(())
        },
        move |i| format!("{} and {}", named(i / n), named(i % n)),
    );
    let mut sections = vec![exact, single, halves, pairs];
    if t == Tier::Thorough {
        sections.push(Section::new(
            "every code against every constant",
            1 << 24,
            |i, w| {
                for k in 0..256u32 {
                    let v = (i as u32) << 8 | k;
                    let s = Signature::from(v);
                    for (g, name, c, code) in TABLE.iter() {
                        if (*c == s) != (u32::from_be_bytes(**code) == v) {
                            return Err(format!("{g}::{name} compared with {v:#x} gives the wrong answer"));
                        }
                    }
                }
                w.nontrivial += 256;
                w.traces += 256;
                w.transitions += 256 * TABLE.len() as u64;
                w.evals += 255;
                Ok(())
            },
            |i| format!("codes {:#x}..{:#x}", i << 8, (i << 8) + 256),
        ));
    }
    Check {
        id: "C21",
        level: "model_checking",
        rule: "every named constant against its registered code, all its one-byte corruptions, all codes sharing a half with it (thorough: all 2^32 codes) and every other constant; non-trivial: the comparison was made on the library's own constant",
        assumptions: &["the committed table of registered codes (mc/src/sigtable.rs) is right; it was cross-checked with the C library's bindings"],
        sections,
    }
}
