//! C26: record converters.
use crate::engine::*;
use crate::sigtable::{word4, words4};
use crate::profile::header;
use crate::stream::{hex, w16, w32, w64};
use lcms2::types::{verif, DateTimeNumber, EncodedXYZNumber, ICCHeader, ProfileID, TagEntry};
use std::mem::size_of;

fn check_header(b: [u8; 128], w: &mut W) -> R {
    w.traces += 1;
    w.transitions += 2;
    w.nt();
    let h = guarded(|| verif::header_from_bytes(b))?;
    let n = |at: usize| w32(&b[at..at + 4]) as u64;
    let s = |x: lcms2::types::Signature| u32::from(x) as u64;
    let got: [(&str, u64, u64); 24] = [
        ("size", h.size as u64, n(0)),
        ("CMM", s(h.cmm_id), n(4)),
        ("version", h.version as u64, n(8)),
        ("class", s(h.device_class), n(12)),
        ("colour space", s(h.color_space), n(16)),
        ("connection space", s(h.pcs), n(20)),
        ("year", h.date.year as u64, w16(&b[24..26]) as u64),
        ("month", h.date.month as u64, w16(&b[26..28]) as u64),
        ("day", h.date.day as u64, w16(&b[28..30]) as u64),
        ("hours", h.date.hours as u64, w16(&b[30..32]) as u64),
        ("minutes", h.date.minutes as u64, w16(&b[32..34]) as u64),
        ("seconds", h.date.seconds as u64, w16(&b[34..36]) as u64),
        ("magic", s(h.magic), n(36)),
        ("platform", s(h.platform), n(40)),
        ("flags", h.flags as u64, n(44)),
        ("manufacturer", s(h.manufacturer), n(48)),
        ("model", h.model as u64, n(52)),
        ("attributes", h.attributes, w64(&b[56..64])),
        ("intent", h.rendering_intent as u64, n(64)),
        ("illuminant X", h.illuminant.x as u32 as u64, n(68)),
        ("illuminant Y", h.illuminant.y as u32 as u64, n(72)),
        ("illuminant Z", h.illuminant.z as u32 as u64, n(76)),
        ("creator", s(h.creator), n(80)),
        ("", 0, 0),
    ];
    for (name, g, want) in got {
        if g != want {
            return Err(format!("{name} decodes as {g:#x}, its bytes say {want:#x}"));
        }
    }
    let id = unsafe { h.profile_id.id8 };
    if id != b[84..100] {
        return Err(format!("profile ID decodes as {}", hex(&id)));
    }
    if h.reserved != b[100..128] {
        return Err(format!("reserved bytes decode as {}", hex(&h.reserved)));
    }
    let back = guarded(|| verif::header_to_bytes(h))?;
    w.obs(&back[..]);
    if back != b {
        return Err(format!("encodes back as {}", hex(&back)));
    }
    Ok(())
}

fn check_entry(b: [u8; 12], w: &mut W) -> R {
    w.traces += 1;
    w.transitions += 2;
    w.nt();
    let e: TagEntry = guarded(|| verif::tag_entry_from_bytes(b))?;
    for (name, got, want) in [
        ("signature", u32::from(e.sig), w32(&b[0..4])),
        ("offset", e.offset, w32(&b[4..8])),
        ("size", e.size, w32(&b[8..12])),
    ] {
        if got != want {
            return Err(format!("{name} decodes as {got:#x}, its bytes say {want:#x}"));
        }
    }
    let back = guarded(|| verif::tag_entry_to_bytes(e))?;
    w.obs(&back[..]);
    if back != b {
        return Err(format!("encodes back as {}", hex(&back)));
    }
    Ok(())
}
fn base(k: u64) -> [u8; 128] {
    match k {
        0 => [0; 128],
        1 => [0xFF; 128],
        2 => header(0x8123_4567),
        _ => {
            let mut b = [0; 128];
            for (i, x) in b.iter_mut().enumerate() {
                *x = (i as u8).wrapping_mul(151) ^ 0x3C;
            }
            b
        }
    }
}
const V: [u8; 6] = [0, 1, 0x7F, 0x80, 0xFE, 0xFF];

pub fn c26(t: Tier) -> Check {
    let mut sections = vec![
        Section::new(
            "header: every value of every byte",
            4 * 128 * 256,
            |i, w| {
                let mut b = base(i >> 15);
                b[(i >> 8 & 127) as usize] = i as u8;
                check_header(b, w)
            },
            |i| format!("base {}, byte {} = {:#x}", i >> 15, i >> 8 & 127, i & 255),
        )
        .parity(),
        Section::new(
            "header: every value of every aligned 16-bit half",
            4 * 64 * 65536,
            |i, w| {
                let mut b = base(i >> 22);
                let at = 2 * (i >> 16 & 63) as usize;
                b[at..at + 2].copy_from_slice(&(i as u16).to_be_bytes());
                check_header(b, w)
            },
            |i| format!("base {}, half {} = {:#x}", i >> 22, i >> 16 & 63, i & 0xFFFF),
        ),
        Section::new(
            "header: pairs of bytes",
            4 * 128 * 128 * 36,
            |i, w| {
                let d = digits(i, &[6, 6, 128, 128, 4]);
                let mut b = base(d[4]);
                b[d[2] as usize] = V[d[0] as usize];
                b[d[3] as usize] = V[d[1] as usize];
                check_header(b, w)
            },
            |i| format!("{:?}", digits(i, &[6, 6, 128, 128, 4])),
        ),
        Section::new(
            "header: one bit set, one bit clear",
            2 * 1024,
            |i, w| {
                let mut b = base(i >> 10);
                let k = (i & 1023) as usize;
                b[k / 8] ^= 1 << (k % 8);
                check_header(b, w)
            },
            |i| format!("base {}, bit {}", i >> 10, i & 1023),
        ),
        Section::new(
            "header: registered codes and unusual words in every word",
            words4() * 32 * 4,
            |i, w| {
                let d = digits(i, &[32, 4, words4()]);
                let mut b = base(d[1]);
                b[4 * d[0] as usize..][..4].copy_from_slice(&word4(d[2]));
                check_header(b, w)
            },
            |i| format!("(word, base, value) = {:?}", digits(i, &[32, 4, words4()])),
        )
        .parity(),
        Section::new(
            "header: words of two equal or opposite halves",
            65536 * 32 * 2,
            |i, w| {
                let d = digits(i, &[32, 2, 65536]);
                let (at, v) = (4 * d[0] as usize, d[2] as u32);
                let mut b = base(2);
                b[at..at + 4].copy_from_slice(&(v << 16 | [v, !v & 0xFFFF][d[1] as usize]).to_be_bytes());
                check_header(b, w)
            },
            |i| format!("(word, opposite, half) = {:?}", digits(i, &[32, 2, 65536])),
        ),
        Section::new(
            "header: two words equal",
            words4() * 496,
            |i, w| {
                let d = digits(i, &[496, words4()]);
                let (mut x, mut k) = (0, d[0] as usize);
                while k >= 31 - x {
                    k -= 31 - x;
                    x += 1;
                }
                let mut b = base(3);
                for at in [x, x + 1 + k] {
                    b[4 * at..4 * at + 4].copy_from_slice(&word4(d[1]));
                }
                check_header(b, w)
            },
            |i| format!("(pair, value) = {:?}", digits(i, &[496, words4()])),
        ),
        Section::new(
            "entry: registered codes and unusual words in every word",
            words4() * 3 * 3,
            |i, w| {
                let d = digits(i, &[3, 3, words4()]);
                let mut b = [0; 12];
                b.copy_from_slice(&base([0, 1, 3][d[1] as usize])[..12]);
                b[4 * d[0] as usize..][..4].copy_from_slice(&word4(d[2]));
                check_entry(b, w)
            },
            |i| format!("(word, base, value) = {:?}", digits(i, &[3, 3, words4()])),
        )
        .parity(),
        Section::new(
            "entry: every value of every 16-bit half",
            6 * 65536 * 3,
            |i, w| {
                let mut b = [0; 12];
                b.copy_from_slice(&base([0, 1, 3][(i / 65536 / 6) as usize])[..12]);
                let at = 2 * (i / 65536 % 6) as usize;
                b[at..at + 2].copy_from_slice(&(i as u16).to_be_bytes());
                check_entry(b, w)
            },
            |i| format!("base {}, half {} = {:#x}", i / 65536 / 6, i / 65536 % 6, i & 0xFFFF),
        )
        .parity(),
        Section::new(
            "entry: every byte string over two values, every bit",
            4096 + 96,
            |i, w| {
                let mut b = [0; 12];
                for (k, x) in b.iter_mut().enumerate() {
                    if i < 4096 {
                        *x = if i >> k & 1 == 1 { 0x80 + k as u8 } else { k as u8 };
                    } else if (i - 4096) / 8 == k as u64 {
                        *x = 1 << ((i - 4096) % 8);
                    }
                }
                check_entry(b, w)
            },
            |i| format!("{i}"),
        )
        .parity(),
        Section::new(
            "record sizes",
            5,
            |i, w| {
                w.nt();
                w.traces += 1;
                let (name, got, want) = [
                    ("header", size_of::<ICCHeader>(), 128),
                    ("directory entry", size_of::<TagEntry>(), 12),
                    ("date", size_of::<DateTimeNumber>(), 12),
                    ("XYZ", size_of::<EncodedXYZNumber>(), 12),
                    ("profile ID", size_of::<ProfileID>(), 16),
                ][i as usize];
                w.obs(&got);
                if got != want {
                    return Err(format!("{name} occupies {got} bytes instead of {want}"));
                }
                Ok(())
            },
            |i| format!("record {i}"),
        )
        .parity(),
    ];
    if t == Tier::Thorough {
        sections.push(Section::new(
            "header: every value of every 32-bit word",
            32 << 24,
            |i, w| {
                let mut b = base(3);
                let at = 4 * (i >> 24) as usize;
                for k in 0..256u32 {
                    b[at..at + 4].copy_from_slice(&((i as u32) << 8 | k).to_be_bytes());
                    check_header(b, w)?;
                }
                w.evals += 255;
                Ok(())
            },
            |i| format!("word {}, values from {:#x}", i >> 24, (i as u32) << 8),
        ));
        sections.push(Section::new(
            "entry: every value of every 32-bit word",
            3 << 24,
            |i, w| {
                let mut b = [0x5A; 12];
                let at = 4 * (i >> 24) as usize;
                for k in 0..256u32 {
                    b[at..at + 4].copy_from_slice(&((i as u32) << 8 | k).to_be_bytes());
                    check_entry(b, w)?;
                }
                w.evals += 255;
                Ok(())
            },
            |i| format!("word {}, values from {:#x}", i >> 24, (i as u32) << 8),
        ));
    }
    Check {
        id: "C26",
        level: "model_checking",
        rule: "every value of each byte and each 16-bit half (thorough: each 32-bit word) of each record over several backgrounds, pairs of bytes, every single bit; non-trivial: decoded fields were compared with their own bytes and the encoding with the original",
        assumptions: &["interactions of three or more bytes of different words are not enumerated"],
        sections,
    }
}
