//! C07, C08, C09: typed values on the wire.
use crate::engine::*;
use crate::stream::*;
use lcms2::io::{self as lio, FileMem, IOHandler};
use lcms2::types::CIEXYZ;
use std::io::SeekFrom;

/// A fixed-size scratch stream that never allocates.
#[derive(Debug)]
struct Strip {
    b: [u8; 64],
    n: usize,
    p: usize,
}
impl Strip {
    fn new() -> Strip {
        Strip { b: [0xD7; 64], n: 0, p: 0 }
    }
}
impl IOHandler for Strip {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<()> {
        if self.p + buf.len() > self.n {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        buf.copy_from_slice(&self.b[self.p..self.p + buf.len()]);
        self.p += buf.len();
        Ok(())
    }
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<()> {
        let t = match pos {
            SeekFrom::Start(v) => v as i64,
            SeekFrom::End(v) => self.n as i64 + v,
            SeekFrom::Current(v) => self.p as i64 + v,
        };
        if t < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.p = t as usize;
        Ok(())
    }
    fn close(self) -> std::io::Result<()> {
        Ok(())
    }
    fn tell(&mut self) -> std::io::Result<usize> {
        Ok(self.p)
    }
    fn write(&mut self, buf: &[u8]) -> std::io::Result<()> {
        if self.p + buf.len() > 64 {
            return Err(std::io::ErrorKind::WriteZero.into());
        }
        self.b[self.p..self.p + buf.len()].copy_from_slice(buf);
        self.p += buf.len();
        self.n = self.n.max(self.p);
        Ok(())
    }
}

fn e(what: &str, x: std::io::Error) -> String {
    format!("{what} failed ({x})")
}

fn wire(s: &Strip, want: &[u8], what: &str) -> R {
    if s.n != want.len() || s.b[..s.n] != *want {
        return Err(format!("{what} stored {} instead of {}", hex(&s.b[..s.n]), hex(want)));
    }
    Ok(())
}

fn one_u8(v: u8, w: &mut W) -> R {
    let mut s = Strip::new();
    s.write_u8(v).map_err(|x| e("write_u8", x))?;
    wire(&s, &[v], "write_u8")?;
    s.p = 0;
    let g = s.read_u8().map_err(|x| e("read_u8", x))?;
    w.obs(&g);
    if g != v || s.p != 1 {
        return Err(format!("read_u8 gave {g:#x} for {v:#x}, position {}", s.p));
    }
    Ok(())
}
fn one_u16(v: u16, w: &mut W) -> R {
    let b = b16(v);
    let mut s = Strip::new();
    s.write_u16(v).map_err(|x| e("write_u16", x))?;
    wire(&s, &b, "write_u16")?;
    s.p = 0;
    let g = s.read_u16().map_err(|x| e("read_u16", x))?;
    w.obs(&g);
    if g != v || s.p != 2 {
        return Err(format!("read_u16 gave {g:#x} for {v:#x}, position {}", s.p));
    }
    let h = lio::adjust_endianness_u16(v);
    if h.to_ne_bytes() != b {
        return Err(format!("helper u16({v:#x}) = {h:#x}"));
    }
    if lio::adjust_endianness_u16(h) != v {
        return Err("helper u16 applied twice is not the identity".into());
    }
    let n = v.to_ne_bytes();
    let a = lio::adjust_endianness_16(n);
    if a != b || lio::adjust_endianness_16(a) != n {
        return Err(format!("helper 16({n:x?}) = {a:x?}"));
    }
    // both families, whatever the build exports
    let (be, le) = (v.to_be_bytes(), v.to_le_bytes());
    let r = [
        lio::big_endian::adjust_endianness_16(n) == be,
        lio::little_endian::adjust_endianness_16(n) == le,
        lio::big_endian::adjust_endianness_u16(v).to_ne_bytes() == be,
        lio::little_endian::adjust_endianness_u16(v).to_ne_bytes() == le,
    ];
    if r.contains(&false) {
        return Err(format!("16-bit helpers (be bytes, le bytes, be value, le value) right for {v:#x}: {r:?}"));
    }
    Ok(())
}
fn one_u32(v: u32, w: &mut W) -> R {
    let b = b32(v);
    let mut s = Strip::new();
    s.write_u32(v).map_err(|x| e("write_u32", x))?;
    wire(&s, &b, "write_u32")?;
    s.p = 0;
    let g = s.read_u32().map_err(|x| e("read_u32", x))?;
    w.obs(&g);
    if g != v || s.p != 4 {
        return Err(format!("read_u32 gave {g:#x} for {v:#x}, position {}", s.p));
    }
    let mut s = Strip::new();
    s.write_f32(f32::from_bits(v)).map_err(|x| e("write_f32", x))?;
    wire(&s, &b, "write_f32")?;
    s.p = 0;
    let g = s.read_f32().map_err(|x| e("read_f32", x))?.to_bits();
    w.obs(&g);
    if g != v || s.p != 4 {
        return Err(format!("read_f32 gave bits {g:#x} for {v:#x}, position {}", s.p));
    }
    let h = lio::adjust_endianness_u32(v);
    if h.to_ne_bytes() != b || lio::adjust_endianness_u32(h) != v {
        return Err(format!("helper u32({v:#x}) = {h:#x}"));
    }
    let n = v.to_ne_bytes();
    let a = lio::adjust_endianness_32(n);
    if a != b || lio::adjust_endianness_32(a) != n {
        return Err(format!("helper 32({n:x?}) = {a:x?}"));
    }
    let (be, le) = (v.to_be_bytes(), v.to_le_bytes());
    let r = [
        lio::big_endian::adjust_endianness_32(n) == be,
        lio::little_endian::adjust_endianness_32(n) == le,
        lio::big_endian::adjust_endianness_u32(v).to_ne_bytes() == be,
        lio::little_endian::adjust_endianness_u32(v).to_ne_bytes() == le,
    ];
    if r.contains(&false) {
        return Err(format!("32-bit helpers (be bytes, le bytes, be value, le value) right for {v:#x}: {r:?}"));
    }
    Ok(())
}
fn one_u64(v: u64, w: &mut W) -> R {
    let b = b64(v);
    let mut s = Strip::new();
    s.write_u64(v).map_err(|x| e("write_u64", x))?;
    wire(&s, &b, "write_u64")?;
    s.p = 0;
    let g = s.read_u64().map_err(|x| e("read_u64", x))?;
    w.obs(&g);
    if g != v || s.p != 8 {
        return Err(format!("read_u64 gave {g:#x} for {v:#x}, position {}", s.p));
    }
    let h = lio::adjust_endianness_u64(v);
    if h.to_ne_bytes() != b || lio::adjust_endianness_u64(h) != v {
        return Err(format!("helper u64({v:#x}) = {h:#x}"));
    }
    let n = v.to_ne_bytes();
    let a = lio::adjust_endianness_64(n);
    if a != b || lio::adjust_endianness_64(a) != n {
        return Err(format!("helper 64({n:x?}) = {a:x?}"));
    }
    let (be, le) = (v.to_be_bytes(), v.to_le_bytes());
    let r = [
        lio::big_endian::adjust_endianness_64(n) == be,
        lio::little_endian::adjust_endianness_64(n) == le,
        lio::big_endian::adjust_endianness_u64(v).to_ne_bytes() == be,
        lio::little_endian::adjust_endianness_u64(v).to_ne_bytes() == le,
    ];
    if r.contains(&false) {
        return Err(format!("64-bit helpers (be bytes, le bytes, be value, le value) right for {v:#x}: {r:?}"));
    }
    Ok(())
}

const BACK64: [u64; 4] = [0, u64::MAX, 0x0123_4567_89AB_CDEF, 0x8080_8080_8080_8080];

pub fn c07(t: Tier) -> Check {
    let small = Section::new(
        "all 8- and 16-bit integers",
        65536,
        |i, w| {
            w.nt();
            w.traces += 1;
            w.transitions += 8;
            if i < 256 {
                one_u8(i as u8, w)?;
            }
            one_u16(i as u16, w)
        },
        |i| format!("{i:#x}"),
    )
    .parity();
    // every pair of bytes at every pair of positions, over several backgrounds
    let pairs32 = Section::new(
        "32-bit integers and floats, byte pairs",
        65536 * 6 * 3,
        |i, w| {
            w.nt();
            w.traces += 1;
            w.transitions += 8;
            one_u32(pair32(i), w)
        },
        |i| format!("{:#x}", pair32(i)),
    )
    .parity();
    let pairs64 = Section::new(
        "64-bit integers, byte pairs",
        65536 * 28 * BACK64.len() as u64,
        |i, w| {
            w.nt();
            w.traces += 1;
            w.transitions += 6;
            one_u64(pair64(i), w)
        },
        |i| format!("{:#x}", pair64(i)),
    );
    let arrays = array_section(t);
    let mut sections = vec![small, pairs32, pairs64, arrays];
    if t == Tier::Thorough {
        sections.push(Section::new(
            "all 32-bit integers and floats",
            65536,
            |i, w| {
                for k in 0..65536u32 {
                    let v = (i as u32) << 16 | k;
                    w.nt();
                    w.traces += 1;
                    w.transitions += 8;
                    one_u32(v, w).map_err(|e| format!("{v:#x}: {e}"))?;
                }
                w.evals += 65535;
                Ok(())
            },
            |i| format!("{:#x}0000..{:#x}ffff", i, i),
        ));
    } else {
        sections.push(Section::new(
            "32-bit values, every upper half with structured lower halves",
            65536,
            |i, w| {
                for k in (0..65536u32).step_by(4369).chain([1, 2, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE]) {
                    let v = (i as u32) << 16 | k;
                    w.nt();
                    w.traces += 1;
                    w.transitions += 8;
                    one_u32(v, w).map_err(|e| format!("{v:#x}: {e}"))?;
                    one_u32(v.rotate_left(16), w).map_err(|e| format!("{:#x}: {e}", v.rotate_left(16)))?;
                    w.evals += 2;
                }
                Ok(())
            },
            |i| format!("upper half {i:#x}"),
        ));
    }
    Check {
        id: "C07",
        level: "exploration",
        rule: "every value of the stated sets written and read back through a stream that records the bytes, and through the byte-order helpers; non-trivial: the value's wire bytes were compared with independent byte arithmetic",
        assumptions: &["64-bit values (and 32-bit ones in quick) outside the structured sets are not enumerated; the operations move whole bytes"],
        sections,
    }
}
fn pair32(i: u64) -> u32 {
    let d = digits(i, &[256, 256, 6, 3]);
    let (a, b) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][d[2] as usize];
    let mut x = [0u32, u32::MAX, 0x7FC1_8023][d[3] as usize].to_be_bytes();
    x[a] = d[0] as u8;
    x[b] = d[1] as u8;
    u32::from_be_bytes(x)
}
fn pair64(i: u64) -> u64 {
    let d = digits(i, &[256, 256, 28, BACK64.len() as u64]);
    let mut k = d[2];
    let (mut a, mut b) = (0, 1);
    while k > 0 {
        k -= 1;
        b += 1;
        if b == 8 {
            a += 1;
            b = a + 1;
        }
    }
    let mut x = BACK64[d[3] as usize].to_be_bytes();
    x[a] = d[0] as u8;
    x[b] = d[1] as u8;
    u64::from_be_bytes(x)
}
fn array_section(t: Tier) -> Section {
    let lens = move |i: u64| -> usize {
        let v: Vec<usize> = (0..=70).chain([127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537]).collect();
        v[i as usize]
    };
    let _ = t;
    Section::new(
        "arrays of 16-bit values",
        85 * 3 * 8,
        move |i, w| {
            // at every address an array can have
            let (i, shift) = (i / 8, (i % 8) as usize);
            let (len, kind) = (lens(i / 3), i % 3);
            w.nt();
            w.traces += 1;
            w.transitions += 2;
            let value = |j: usize| ((j * 40503 + 0x00FF) % 65536) as u16;
            let room: Vec<u16> = vec![0x1111; shift].into_iter().chain((0..len).map(value)).chain([0x2222; 8]).collect();
            let vals = &room[shift..shift + len];
            let want: Vec<u8> = vals.iter().flat_map(|v| b16(*v)).collect();
            let mut buf = vec![0xEEu8; 3];
            {
                let mut m = FileMem::new(&mut buf);
                m.seek(SeekFrom::Start(1)).map_err(|x| e("seek", x))?;
                if kind == 1 {
                    // in two halves
                    m.write_u16_array(&vals[..len / 2]).map_err(|x| e("write_u16_array", x))?;
                    m.write_u16_array(&vals[len / 2..]).map_err(|x| e("write_u16_array", x))?;
                } else {
                    m.write_u16_array(vals).map_err(|x| e("write_u16_array", x))?;
                }
                let p = m.tell().map_err(|x| e("tell", x))?;
                if p != 1 + 2 * len {
                    return Err(format!("position after the array {p} instead of {}", 1 + 2 * len));
                }
                m.seek(SeekFrom::Start(1)).map_err(|x| e("seek", x))?;
                let mut whole = vec![0xA5A5u16; shift + len + 8];
                let back = &mut whole[shift..shift + len];
                if kind == 2 {
                    for b in back.iter_mut() {
                        *b = m.read_u16().map_err(|x| e("read_u16", x))?;
                    }
                } else {
                    m.read_u16_array(back).map_err(|x| e("read_u16_array", x))?;
                }
                w.obs(&back);
                let ok = back == vals;
                if whole[..shift].iter().chain(&whole[shift + len..]).any(|v| *v != 0xA5A5) {
                    return Err("values next to the caller's array changed".into());
                }
                if !ok {
                    return Err("the array read back differs".into());
                }
                if m.tell().map_err(|x| e("tell", x))? != 1 + 2 * len {
                    return Err("position after reading the array is wrong".into());
                }
            }
            w.obs(&buf);
            let n = (1 + 2 * len).max(3);
            let mut all = vec![0xEE; n];
            all[1..1 + 2 * len].copy_from_slice(&want);
            if buf != all {
                return Err(format!("stored {} instead of {}", hex(&buf), hex(&all)));
            }
            Ok(())
        },
        move |i| format!("{} values, {} into the room, variant {}", lens(i / 24), i % 8, i / 8 % 3),
    )
    .parity()
}

// ---------------------------------------------------------------- C08

fn read_code(c: i32) -> Result<f64, String> {
    let mut s = Strip::new();
    s.b[..4].copy_from_slice(&b32(c as u32));
    s.n = 4;
    let v = s.read_s15f16().map_err(|x| e("read_s15f16", x))?;
    if s.p != 4 {
        return Err(format!("read_s15f16 moved {} bytes", s.p));
    }
    Ok(v)
}
fn write_num(v: f64) -> Result<i32, String> {
    let mut s = Strip::new();
    s.write_s15f16(v).map_err(|x| e("write_s15f16", x))?;
    if s.n != 4 {
        return Err(format!("write_s15f16 wrote {} bytes", s.n));
    }
    Ok(w32(&s.b[..4]) as i32)
}
/// |code - 65536 v| <= 1/2, saturating; exact in f64/i128 arithmetic for the magnitudes that matter.
fn nearest(v: f64, code: i32) -> bool {
    let x = v * 65536.0; // exact: a power of two (no overflow below)
    if x >= i32::MAX as f64 {
        return code == i32::MAX;
    }
    if x <= i32::MIN as f64 {
        return code == i32::MIN;
    }
    // both sides exact: |x| < 2^31; the difference of a double and an integer this close is exact
    (code as f64 - x).abs() <= 0.5
}

pub fn c08(t: Tier) -> Check {
    let all = |name: &'static str, low: std::sync::Arc<Vec<u32>>| {
        Section::new(
        name,
        65536,
        move |i, w| {
            for k in low.iter() {
                let c = ((i as u32) << 16 | *k) as i32;
                let v = guarded(|| read_code(c)).and_then(|r| r).map_err(|e| format!("code {c:#010x}: {e}"))?;
                w.obs(&v.to_bits());
                if v != c as f64 / 65536.0 {
                    return Err(format!("code {c:#010x} decodes to {v:e} instead of {:e}", c as f64 / 65536.0));
                }
                let b = guarded(|| write_num(v)).and_then(|r| r).map_err(|e| format!("value {v:e}: {e}"))?;
                if b != c {
                    return Err(format!("code {c:#010x} = {v:e} encodes to {b:#010x}"));
                }
            }
            let n = low.len() as u64;
            w.evals += n - 1;
            w.nontrivial += n;
            w.traces += n;
            w.transitions += 2 * n;
            Ok(())
        },
        |i| format!("codes {i:#06x}0000..{i:#06x}ffff"),
    )
    };
    let mut codes = all("all 2^32 codes decode exactly and return", std::sync::Arc::new((0..65536).collect()));
    if t == Tier::Thorough {
        codes = codes.parity();
    }
    // the same by fewer lower halves, for the comparison of builds
    let low: Vec<u32> = (0u32..1 << 16).filter(|k| k & (k + 1) == 0 || k & (k.wrapping_sub(1)) == 0 || k % 641 == 0 || k & 0xFF == 0xFF || k & 0xFF == 0).collect();
    let some = all("codes of every upper half", std::sync::Arc::new(low)).parity();
    // values between codes: offsets in units of one step around every code of a structured set
    const OFF: [f64; 17] = [
        0.0, 0.25, -0.25, 0.49, -0.49, 0.499999, -0.499999, 0.500001, -0.500001, 0.51, -0.51, 0.75, -0.75, 0.4999999999,
        -0.4999999999, 0.1, -0.1,
    ];
    let step = t.pick(251u32, 7);
    let per = (u32::MAX / step) as u64 + 1;
    let between = Section::new(
        "values between codes",
        per / 4096 + 1,
        move |i, w| {
            for j in 0..4096u64 {
                let k = i * 4096 + j;
                if k >= per {
                    break;
                }
                let c = (k as u32).wrapping_mul(step).wrapping_add(0x8000_0000) as i32;
                for o in OFF {
                    let v = (c as f64 + o) / 65536.0;
                    let g = guarded(|| write_num(v)).and_then(|r| r).map_err(|e| format!("value {v:e}: {e}"))?;
                    w.obs(&g);
                    w.evals += 1;
                    w.nontrivial += 1;
                    w.transitions += 1;
                    if !nearest(v, g) {
                        return Err(format!("{v:.12} (code {c} {o:+}) encodes to {g}"));
                    }
                }
                w.traces += 1;
            }
            Ok(())
        },
        move |i| format!("codes number {} to {} of stride {step}, with 17 offsets each", i * 4096, i * 4096 + 4095),
    )
    .parity();
    // every tie and its neighbours around structured codes, and every magnitude of number
    let ties = Section::new(
        "ties, neighbouring doubles, extreme numbers",
        (2048 + 131072 / 8) as u64,
        |i, w| {
            let mut vals = vec![];
            if i < 2048 {
                // every exponent, several mantissas, both signs
                for m in [0u64, 1, 0x8_0000_0000_0000, 0xF_FFFF_FFFF_FFFF, 0x5_5555_5555_5555] {
                    for s in [0u64, 1 << 63] {
                        vals.push(f64::from_bits(s | i << 52 | m));
                    }
                }
            } else {
                for k in 0..8 {
                    // codes around zero and around both ends
                    let n = (i - 2048) as i64 * 8 + k;
                    for base in [n - 65536, n + i32::MIN as i64 - 32768, n + i32::MAX as i64 - 98304] {
                        for half in [0.0, 0.5] {
                            let x = (base as f64 + half) / 65536.0;
                            vals.extend([x, up(x), down(x)]);
                        }
                    }
                }
            }
            for v in vals {
                if !v.is_finite() {
                    let r = guarded(|| write_num(v)).and_then(|r| r);
                    w.evals += 1;
                    w.obs(&r.as_ref().ok());
                    r.map_err(|e| format!("value {v:e}: {e}"))?;
                    continue;
                }
                let g = guarded(|| write_num(v)).and_then(|r| r).map_err(|e| format!("value {v:e}: {e}"))?;
                w.obs(&g);
                w.evals += 1;
                w.nontrivial += 1;
                w.transitions += 1;
                if !nearest(v, g) && !double_tie(v, g) {
                    return Err(format!("{v:.17e} encodes to {g}"));
                }
            }
            w.traces += 1;
            Ok(())
        },
        |i| {
            if i < 2048 {
                format!("doubles with exponent field {i}")
            } else {
                format!("codes and ties number {}..", (i - 2048) * 8)
            }
        },
    )
    .parity();
    let xyz = Section::new(
        "XYZ triples",
        15 * 15 * 15,
        |i, w| {
            const C: [i32; 15] = [
                0, 1, -1, 0x0002_8000, 0x1000_2000, -0x1_4000, i32::MAX, i32::MIN, i32::MIN + 1, 0xF6D6, 0x10000, 0xD32D,
                -65536, 0x7F, 0x1234_5678,
            ];
            let d = digits(i, &[15, 15, 15]);
            let c = [C[d[0] as usize], C[d[1] as usize], C[d[2] as usize]];
            let mut s = Strip::new();
            let v = |c: i32| c as f64 / 65536.0;
            s.write_xyz(CIEXYZ { X: v(c[0]), Y: v(c[1]), Z: v(c[2]) }).map_err(|x| e("write_xyz", x))?;
            let want: Vec<u8> = c.iter().flat_map(|c| b32(*c as u32)).collect();
            wire(&s, &want, "write_xyz")?;
            s.b[..12].copy_from_slice(&want);
            s.n = 12;
            s.p = 0;
            let g = s.read_xyz().map_err(|x| e("read_xyz", x))?;
            w.nt();
            w.traces += 1;
            w.transitions += 2;
            w.obs(&(g.X.to_bits(), g.Y.to_bits(), g.Z.to_bits()));
            if (g.X, g.Y, g.Z) != (v(c[0]), v(c[1]), v(c[2])) || s.p != 12 {
                return Err(format!("read_xyz gave {g:?} for codes {c:?}"));
            }
            Ok(())
        },
        |i| format!("code indices {:?}", digits(i, &[15, 15, 15])),
    )
    .parity();
    Check {
        id: "C08",
        level: "exploration",
        rule: "all 2^32 codes; numbers at 17 offsets around a stride of all codes; every tie, neighbouring doubles and every exponent; non-trivial: the code was compared with exact arithmetic",
        assumptions: &["numbers between codes are enumerated on the stated grid, not all doubles", "a number one rounding error away from a tie may go to either side"],
        sections: vec![codes, some, between, ties, xyz],
    }
}
fn up(x: f64) -> f64 {
    next(x, true)
}
fn down(x: f64) -> f64 {
    next(x, false)
}
fn next(x: f64, up: bool) -> f64 {
    if x == 0.0 {
        return if up { f64::from_bits(1) } else { -f64::from_bits(1) };
    }
    let b = x.to_bits();
    f64::from_bits(if (x > 0.0) == up { b + 1 } else { b - 1 })
}
/// Within one rounding error (2^-20 steps at most here) of a tie, either neighbour is acceptable.
fn double_tie(v: f64, g: i32) -> bool {
    let x = v * 65536.0;
    x.abs() < 2147483648.0 && (g as f64 - x).abs() <= 0.5 + 1e-6
}

// ---------------------------------------------------------------- C09

pub fn c09(t: Tier) -> Check {
    const LENS: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 16, 20];
    const POS: [u64; 7] = [0, 1, 2, 5, 8, 13, 40];
    let radix = [TYPES.len() as u64, 2, 9, 2, LENS.len() as u64, POS.len() as u64];
    let one = Section::new(
        "each typed operation, each underlying call failing",
        product(&radix),
        move |i, w| {
            let d = digits(i, &radix);
            single(
                TYPES[d[0] as usize],
                d[1] == 1,
                d[2] as u32,
                d[3] == 1,
                LENS[d[4] as usize],
                POS[d[5] as usize],
                w,
            )
        },
        move |i| {
            let d = digits(i, &radix);
            format!(
                "{} {:?}, failing call {}, partial {}, {} bytes, position {}",
                if d[1] == 1 { "write" } else { "read" },
                TYPES[d[0] as usize],
                d[2],
                d[3] == 1,
                LENS[d[4] as usize],
                POS[d[5] as usize]
            )
        },
    )
    .parity();
    let eradix = [TYPES.len() as u64, 2, 9, 2, 2, USER_ERRORS];
    let errors = Section::new(
        "each underlying call failing with every kind of error",
        product(&eradix),
        move |i, w| {
            let d = digits(i, &eradix);
            if user_error(d[5] as u32).kind() == std::io::ErrorKind::Interrupted {
                // trying again is no harm
                return Ok(());
            }
            single_with(TYPES[d[0] as usize], d[1] == 1, d[2] as u32 + 1, d[3] == 1, [40, 9][d[4] as usize], 1, d[5] as u32, w)
        },
        move |i| {
            let d = digits(i, &eradix);
            format!(
                "{} {:?}, failing call {}, partial {}, {} bytes, error {:?}",
                if d[1] == 1 { "write" } else { "read" },
                TYPES[d[0] as usize],
                d[2] + 1,
                d[3] == 1,
                [40, 9][d[4] as usize],
                user_error(d[5] as u32)
            )
        },
    )
    .parity();
    // sequences of typed operations with one failing primitive anywhere: all before it exact, it reports
    let k = 2 * TYPES.len() as u64;
    let depth = t.pick(3u32, 4);
    let calls = 14u64;
    let seqs_ = Section::new(
        "sequences of typed operations, one underlying call failing",
        seqs(k, depth) * calls,
        move |i, w| {
            let fail = (i % calls) as u32;
            let mut v = vec![];
            seq(i / calls, k, depth, &mut v);
            let data: Vec<u8> = (0..26).map(|j| (j * 9 + 3) as u8).collect();
            let mut s = Spy::new(data.clone(), 0, fail, fail % 2 == 1);
            let mut want = data;
            let mut pos = 0usize;
            w.nt();
            w.traces += 1;
            for (n, o) in v.iter().enumerate() {
                let ty = TYPES[*o as usize / 2];
                let before = s.calls;
                w.transitions += 1;
                if o % 2 == 1 {
                    let b: Vec<u8> = (0..ty.size()).map(|j| (n * 50 + j * 13 + 1) as u8).collect();
                    let r = ty.write(&mut s, &b);
                    w.obs(&(r.is_ok(), s.pos));
                    if r.is_ok() == s.failed {
                        return Err(format!("step {}: write {ty:?} gave {r:?} although the failing call was hit: {}", n + 1, s.failed));
                    }
                    if s.failed {
                        return Ok(());
                    }
                    if pos + b.len() > want.len() {
                        want.resize(pos + b.len(), 0);
                    }
                    want[pos..pos + b.len()].copy_from_slice(&b);
                    pos += b.len();
                } else {
                    let r = ty.read(&mut s);
                    w.obs(&(r.as_ref().ok(), s.pos));
                    let short = pos + ty.size() > want.len();
                    match r {
                        Ok(_) if s.failed || short => {
                            return Err(format!("step {}: read {ty:?} succeeded although bytes are missing", n + 1))
                        }
                        Ok(g) => {
                            if g != want[pos..pos + ty.size()] {
                                return Err(format!("step {}: read {ty:?} gave {} instead of {}", n + 1, hex(&g), hex(&want[pos..pos + ty.size()])));
                            }
                            pos += ty.size();
                        }
                        Err(_) if s.failed || short => return Ok(()),
                        Err(e) => return Err(format!("step {}: read {ty:?} failed ({e})", n + 1)),
                    }
                }
                if s.calls == before {
                    return Err(format!("step {}: no underlying call was made", n + 1));
                }
                if s.pos != pos as u64 || s.data != want {
                    return Err(format!("step {}: stream at {} with {} instead of {pos} with {}", n + 1, s.pos, hex(&s.data), hex(&want)));
                }
            }
            w.state(hash_of(&(&s.data, s.pos)));
            Ok(())
        },
        move |i| {
            let mut v = vec![];
            seq(i / calls, k, depth, &mut v);
            let names: Vec<String> = v
                .iter()
                .map(|o| format!("{} {:?}", if o % 2 == 1 { "write" } else { "read" }, TYPES[*o as usize / 2]))
                .collect();
            format!("{names:?}, failing call {}", i % calls)
        },
    )
    .parity();
    // arrays: each element can fail
    let arr_lens: [usize; 8] = [0, 1, 2, 3, 5, 16, 17, 33];
    let arrays = Section::new(
        "16-bit arrays, each underlying call failing, each length of data",
        8 * 40 * 2 * 70,
        move |i, w| {
            let d = digits(i, &[8, 40, 2, 70]);
            let (n, fail, have) = (arr_lens[d[0] as usize], d[1] as u32, d[3] as usize);
            w.nt();
            w.traces += 1;
            w.transitions += 1;
            let data: Vec<u8> = (0..have).map(|j| (j * 9 + 3) as u8).collect();
            let mut s = Spy::new(data.clone(), 0, fail, fail % 2 == 1);
            if d[2] == 0 {
                let mut b = vec![0xA5A5u16; n];
                let r = s.read_u16_array(&mut b);
                w.obs(&(r.is_ok(), s.pos));
                if r.is_ok() {
                    if s.failed || have < 2 * n {
                        return Err("succeeded although bytes are missing".into());
                    }
                    let g: Vec<u8> = b.iter().flat_map(|v| b16(*v)).collect();
                    if g != data[..2 * n] || s.pos != 2 * n as u64 {
                        return Err(format!("read {} at position {}", hex(&g), s.pos));
                    }
                } else if !s.failed && have >= 2 * n {
                    return Err("failed although all bytes are there".into());
                }
            } else {
                let vals: Vec<u16> = (0..n).map(|j| (j * 1237 + 0x1FE) as u16).collect();
                let r = s.write_u16_array(&vals);
                w.obs(&(r.is_ok(), s.pos));
                if r.is_ok() {
                    if s.failed {
                        return Err("succeeded although an underlying write failed".into());
                    }
                    let mut want = data;
                    let b: Vec<u8> = vals.iter().flat_map(|v| b16(*v)).collect();
                    if want.len() < b.len() {
                        want.resize(b.len(), 0);
                    }
                    want[..b.len()].copy_from_slice(&b);
                    if s.data != want || s.pos != 2 * n as u64 {
                        return Err(format!("stored {} at position {}", hex(&s.data), s.pos));
                    }
                } else if !s.failed {
                    return Err("failed although every underlying call worked".into());
                }
            }
            Ok(())
        },
        |i| format!("(length, failing call, read/write, bytes) = {:?}", digits(i, &[8, 40, 2, 70])),
    )
    .parity();
    // the built-in streams: data ending inside a value, buffers ending inside a value
    let built = Section::new(
        "built-in streams ending inside a value",
        (TYPES.len() * 2 * 4 * 14 * 14) as u64,
        |i, w| {
            let d = digits(i, &[TYPES.len() as u64, 2, 4, 14, 14]);
            let kind = [SK::VecMut, SK::Slice, SK::Null, SK::FileRw][d[2] as usize];
            let op = if d[1] == 1 { Op::Wt(TYPES[d[0] as usize]) } else { Op::Rt(TYPES[d[0] as usize]) };
            let init: Vec<u8> = (0..d[3]).map(|j| (j * 9 + 3) as u8).collect();
            run_history_any(kind, &init, &[Op::S(d[4]), op, Op::Tell, Op::Size], w)
        },
        |i| format!("(type, write, kind, bytes, position) = {:?}", digits(i, &[TYPES.len() as u64, 2, 4, 14, 14])),
    );
    Check {
        id: "C09",
        level: "fault_enumeration",
        rule: "every typed operation (and every sequence of them up to the depth) on a user-supplied stream with each underlying call failing in turn, and on built-in streams ending inside the value; non-trivial: every case runs a typed operation and compares bytes, position and outcome",
        assumptions: &["one failing call per execution", "sequences longer than the bound are not explored"],
        sections: vec![one, errors, arrays, built, seqs_],
    }
}

fn single(ty: T, write: bool, fail: u32, partial: bool, len: usize, pos: u64, w: &mut W) -> R {
    single_with(ty, write, fail, partial, len, pos, 0, w)
}
#[allow(clippy::too_many_arguments)]
fn single_with(ty: T, write: bool, fail: u32, partial: bool, len: usize, pos: u64, error: u32, w: &mut W) -> R {
    let data: Vec<u8> = (0..len).map(|j| (j * 9 + 3) as u8).collect();
    let mut s = Spy::new(data.clone(), pos, fail, partial);
    s.error = error;
    w.nt();
    w.traces += 1;
    w.transitions += 1;
    let n = ty.size();
    let p = pos as usize;
    if write {
        let b: Vec<u8> = (0..n).map(|j| (j * 13 + 0x81) as u8).collect();
        let r = ty.write(&mut s, &b);
        w.obs(&(r.is_ok(), s.pos, &s.data));
        match r {
            Ok(_) if s.failed => Err("succeeded although an underlying write failed".into()),
            Err(e) if !s.failed => Err(format!("failed ({e}) although every underlying call worked")),
            Err(_) => Ok(()),
            Ok(_) => {
                let mut want = data;
                if want.len() < p + n {
                    want.resize(p + n, 0);
                }
                want[p..p + n].copy_from_slice(&b);
                if s.data != want || s.pos != pos + n as u64 || s.moved != n as u64 {
                    return Err(format!("stored {} (position {}, {} bytes moved), must be {}", hex(&s.data), s.pos, s.moved, hex(&want)));
                }
                Ok(())
            }
        }
    } else {
        let r = ty.read(&mut s);
        w.obs(&(r.as_ref().ok(), s.pos));
        if s.data != data {
            return Err("reading changed the stream's content".into());
        }
        let enough = p + n <= len;
        match r {
            Ok(_) if s.failed => Err("succeeded although an underlying read failed".into()),
            Ok(g) if !enough => Err(format!("gave {} although bytes are missing", hex(&g))),
            Err(e) if !s.failed && enough => Err(format!("failed ({e}) although every underlying call worked")),
            Err(_) => Ok(()),
            Ok(g) => {
                if g != data[p..p + n] || s.pos != pos + n as u64 || s.moved != n as u64 {
                    return Err(format!("gave {} (position {}, {} bytes moved), must be {}", hex(&g), s.pos, s.moved, hex(&data[p..p + n])));
                }
                Ok(())
            }
        }
    }
}
