//! C01, C02, C03, C06: streams against a byte array with a cursor.
use crate::engine::*;
use lcms2::io::{FileMem, FileNull, IOHandler};
use lcms2::types::CIEXYZ;
use std::fs::{File, OpenOptions};
use std::io::SeekFrom;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    U8,
    U16,
    U16x3,
    U32,
    F32,
    U64,
    S15,
    Xyz,
}
pub const TYPES: [T; 8] = [T::U8, T::U16, T::U16x3, T::U32, T::F32, T::U64, T::S15, T::Xyz];
impl T {
    pub fn size(self) -> usize {
        match self {
            T::U8 => 1,
            T::U16 => 2,
            T::U16x3 => 6,
            T::U32 | T::F32 | T::S15 => 4,
            T::U64 => 8,
            T::Xyz => 12,
        }
    }
    /// Writes the value whose wire bytes are `b` (`b.len() == size`, big- or little-endian as built).
    pub fn write(self, h: &mut dyn IOHandler, b: &[u8]) -> std::io::Result<()> {
        match self {
            T::U8 => h.write_u8(b[0]),
            T::U16 => h.write_u16(w16(&b[..2])),
            T::U16x3 => h.write_u16_array(&[w16(&b[..2]), w16(&b[2..4]), w16(&b[4..6])]),
            T::U32 => h.write_u32(w32(b)),
            T::F32 => h.write_f32(f32::from_bits(w32(b))),
            T::U64 => h.write_u64(w64(b)),
            T::S15 => h.write_s15f16(fix(b)),
            T::Xyz => h.write_xyz(CIEXYZ {
                X: fix(&b[..4]),
                Y: fix(&b[4..8]),
                Z: fix(&b[8..]),
            }),
        }
    }
    /// Reads a value and gives back its wire bytes by the harness's own arithmetic.
    pub fn read(self, h: &mut dyn IOHandler) -> std::io::Result<Vec<u8>> {
        Ok(match self {
            T::U8 => vec![h.read_u8()?],
            T::U16 => b16(h.read_u16()?).to_vec(),
            T::U16x3 => {
                let mut a = [0xA5A5u16; 3];
                h.read_u16_array(&mut a)?;
                a.iter().flat_map(|v| b16(*v)).collect()
            }
            T::U32 => b32(h.read_u32()?).to_vec(),
            T::F32 => b32(h.read_f32()?.to_bits()).to_vec(),
            T::U64 => b64(h.read_u64()?).to_vec(),
            T::S15 => unfix(h.read_s15f16()?),
            T::Xyz => {
                let v = h.read_xyz()?;
                [unfix(v.X), unfix(v.Y), unfix(v.Z)].concat()
            }
        })
    }
}
const LE: bool = cfg!(feature = "le");
fn ordered<const N: usize>(mut b: [u8; N]) -> [u8; N] {
    if LE {
        b.reverse();
    }
    b
}
/// Value of wire bytes, most significant first (or last, in the little-endian build).
pub fn w16(b: &[u8]) -> u16 {
    let b = ordered([b[0], b[1]]);
    (b[0] as u16) << 8 | b[1] as u16
}
pub fn w32(b: &[u8]) -> u32 {
    ordered([b[0], b[1], b[2], b[3]]).iter().fold(0, |a, x| a << 8 | *x as u32)
}
pub fn w64(b: &[u8]) -> u64 {
    ordered([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
        .iter()
        .fold(0, |a, x| a << 8 | *x as u64)
}
pub fn b16(v: u16) -> [u8; 2] {
    ordered([(v >> 8) as u8, v as u8])
}
pub fn b32(v: u32) -> [u8; 4] {
    ordered([(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8])
}
pub fn b64(v: u64) -> [u8; 8] {
    let mut b = [0; 8];
    for (i, x) in b.iter_mut().enumerate() {
        *x = (v >> (56 - 8 * i)) as u8;
    }
    ordered(b)
}
fn fix(b: &[u8]) -> f64 {
    w32(b) as i32 as f64 / 65536.0
}
fn unfix(v: f64) -> Vec<u8> {
    b32((v * 65536.0) as i64 as i32 as u32).to_vec()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    W(u32),
    R(u32),
    S(u64),
    E(i64),
    C(i64),
    Tell,
    Size,
    Wt(T),
    Rt(T),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MKind {
    Grow,
    Fixed,
    Null,
}

/// The reference: a byte array with a cursor.
pub struct Model {
    pub kind: MKind,
    pub data: Vec<u8>,
    /// other values a byte may have after a refused write to a fixed buffer
    pub alt: std::collections::BTreeMap<usize, Vec<u8>>,
    /// also hold the null device to reading zeros
    pub zeros: bool,
    /// None: unspecified until the next absolute seek
    pub pos: Option<u64>,
    pub size: u64,
    pub can_read: bool,
    pub can_write: bool,
    pub max_pos: u64,
}
impl Model {
    pub fn new(kind: MKind, init: &[u8]) -> Model {
        Model {
            kind,
            data: init.to_vec(),
            alt: Default::default(),
            zeros: true,
            pos: Some(0),
            size: init.len() as u64,
            can_read: true,
            can_write: true,
            max_pos: u64::MAX,
        }
    }
    pub fn seek(&mut self, base: Option<u64>, d: i128) -> bool {
        let Some(b) = base else { return false };
        let t = b as i128 + d;
        if t < 0 || t > self.max_pos as i128 {
            return false;
        }
        self.pos = Some(t as u64);
        true
    }
    /// Some(bytes) or None for an error.
    pub fn read(&mut self, n: u64) -> Option<Vec<u8>> {
        let p = self.pos.expect("known position");
        if !self.can_read {
            self.pos = None;
            return None;
        }
        if self.kind == MKind::Null {
            match p.checked_add(n) {
                Some(e) if e <= self.max_pos => {
                    self.pos = Some(e);
                    Some(vec![0; n as usize])
                }
                _ => None,
            }
        } else if n == 0 {
            Some(vec![])
        } else if p.checked_add(n).map_or(true, |e| e > self.size) {
            self.pos = None;
            None
        } else {
            self.pos = Some(p + n);
            Some(self.data[p as usize..(p + n) as usize].to_vec())
        }
    }
    pub fn write(&mut self, b: &[u8]) -> bool {
        let p = self.pos.expect("known position");
        if !self.can_write {
            self.pos = None;
            return false;
        }
        let n = b.len() as u64;
        match self.kind {
            MKind::Null => match p.checked_add(n) {
                Some(e) if e <= self.max_pos => {
                    self.pos = Some(e);
                    self.size = self.size.max(e);
                    true
                }
                _ => false,
            },
            MKind::Fixed => {
                if n == 0 {
                    return true;
                }
                if p.checked_add(n).map_or(true, |e| e > self.size) {
                    for (i, x) in b.iter().enumerate() {
                        if let Some(at) = p.checked_add(i as u64) {
                            if at < self.size {
                                self.alt.entry(at as usize).or_default().push(*x);
                            }
                        }
                    }
                    self.pos = None;
                    return false;
                }
                for (i, x) in b.iter().enumerate() {
                    let at = p as usize + i;
                    self.data[at] = *x;
                    self.alt.remove(&at);
                }
                self.pos = Some(p + n);
                true
            }
            MKind::Grow => {
                let (p, e) = (p as usize, p as usize + b.len());
                if self.data.len() < e && !b.is_empty() {
                    self.data.resize(e, 0);
                }
                self.data[p..e].copy_from_slice(b);
                self.size = self.data.len() as u64;
                self.pos = Some(e as u64);
                true
            }
        }
    }
    /// Does `got` agree with what is stored from `at` on? Collapses undetermined bytes to what was seen.
    fn agrees(&mut self, at: usize, got: &[u8]) -> bool {
        if self.kind == MKind::Null {
            return !self.zeros || got.iter().all(|b| *b == 0);
        }
        if self.alt.is_empty() {
            return self.data[at..at + got.len()] == *got;
        }
        for (i, g) in got.iter().enumerate() {
            let k = at + i;
            if self.data[k] != *g {
                if !self.alt.get(&k).map_or(false, |v| v.contains(g)) {
                    return false;
                }
                self.data[k] = *g;
            }
            self.alt.remove(&k);
        }
        true
    }
    fn hash(&self) -> u64 {
        hash_of(&(&self.data, self.pos, self.size, self.kind as u8))
    }
    pub fn check_all(&mut self, got: &[u8], what: &str) -> R {
        if self.kind != MKind::Null && (got.len() as u64 != self.size || !self.agrees(0, got)) {
            return Err(format!(
                "{what} holds {} instead of {}",
                hex(got),
                hex(&self.data)
            ));
        }
        Ok(())
    }
}

pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(64).map(|x| format!("{x:02x}")).collect();
    format!("{} bytes [{}{}]", b.len(), s, if b.len() > 64 { ".." } else { "" })
}

/// Bytes of the k-th transfer of a history: all distinct from their neighbours and never zero.
pub fn pattern(k: usize, n: usize) -> Vec<u8> {
    (0..n).map(|j| ((k * 37 + j * 11 + (j >> 8) * 5) % 251 + 1) as u8).collect()
}
const FAR: u64 = 1 << 40;

/// Runs the history on stream and model together.
pub fn drive(h: &mut dyn IOHandler, m: &mut Model, ops: &[Op], w: &mut W, sparse: bool) -> R {
    for (k, op) in ops.iter().enumerate() {
        let fail = |what: String| Err(format!("step {} ({:?}): {}", k + 1, op, what));
        w.transitions += 1;
        match *op {
            Op::W(_) | Op::Wt(_) => {
                let n = match *op {
                    Op::W(n) => n as usize,
                    Op::Wt(t) => t.size(),
                    _ => 0,
                };
                let Some(p) = m.pos else { continue };
                if m.kind == MKind::Grow && (p > 1 << 26 && !sparse) {
                    continue; // would need that much memory
                }
                if n == 0 && p > m.size {
                    continue; // left open: whether the size moves
                }
                let b = pattern(k + 1, n);
                let got = match *op {
                    Op::Wt(t) => t.write(h, &b),
                    _ => h.write(&b),
                };
                w.obs(&(1u8, got.is_ok()));
                if n == 0 && !m.can_write {
                    continue;
                }
                let want = if sparse {
                    m.size = m.size.max(p + n as u64);
                    m.pos = Some(p + n as u64);
                    true
                } else {
                    m.write(&b)
                };
                if got.is_ok() != want {
                    return fail(match got {
                        Ok(_) => "succeeded, must be an error".into(),
                        Err(e) => format!("failed ({e}), must succeed"),
                    });
                }
            }
            Op::R(_) | Op::Rt(_) => {
                let n = match *op {
                    Op::R(n) => n as usize,
                    Op::Rt(t) => t.size(),
                    _ => 0,
                };
                let Some(p) = m.pos else { continue };
                let got = match *op {
                    Op::Rt(t) => t.read(h),
                    _ => {
                        let mut b = vec![0xA5u8; n];
                        h.read(&mut b).map(|_| b)
                    }
                };
                w.obs(&(2u8, got.as_ref().ok()));
                if n == 0 && !m.can_read {
                    continue;
                }
                let want = m.read(n as u64);
                match (&got, &want) {
                    (Ok(g), Some(_)) => {
                        if g.len() != n || !(n == 0 || m.agrees(p.min(FAR) as usize, g)) {
                            return fail(format!("read {} instead of {}", hex(g), hex(&want.unwrap())));
                        }
                    }
                    (Err(_), None) => {}
                    (Ok(g), None) => return fail(format!("gave {}, must be an error", hex(g))),
                    (Err(e), Some(_)) => return fail(format!("failed ({e}), must succeed")),
                }
            }
            Op::S(_) | Op::E(_) | Op::C(_) => {
                let (sf, base, d) = match *op {
                    Op::S(v) => (SeekFrom::Start(v), Some(0), v as i128),
                    Op::E(v) => (SeekFrom::End(v), Some(m.size), v as i128),
                    Op::C(v) => (SeekFrom::Current(v), m.pos, v as i128),
                    _ => unreachable!(),
                };
                if base.is_none() {
                    continue;
                }
                let got = h.seek(sf);
                w.obs(&(3u8, got.is_ok()));
                let want = m.seek(base, d);
                if got.is_ok() != want {
                    return fail(match got {
                        Ok(_) => format!("succeeded (position now {:?}), must be an error", h.tell().ok()),
                        Err(e) => format!("failed ({e}), must succeed"),
                    });
                }
            }
            Op::Tell => {
                let got = h.tell();
                w.obs(&(4u8, got.as_ref().ok().filter(|_| m.pos.is_some())));
                match (got, m.pos) {
                    (Ok(g), Some(p)) if g as u64 != p => return fail(format!("position {g}, must be {p}")),
                    (Err(e), _) => return fail(format!("failed ({e})")),
                    _ => {}
                }
            }
            Op::Size => {
                let got = h.reported_size();
                w.obs(&(5u8, got.as_ref().ok()));
                match got {
                    Ok(g) if g as u64 != m.size => return fail(format!("size {g}, must be {}", m.size)),
                    Err(e) => return fail(format!("failed ({e})")),
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

/// Position, size and complete content at the end of a history, through the stream itself.
pub fn finish(h: &mut dyn IOHandler, m: &mut Model, w: &mut W) -> R {
    drive(h, m, &[Op::Tell, Op::Size, Op::Tell], w, false).map_err(|e| format!("at the end, {e}"))?;
    if !m.can_read {
        return Ok(());
    }
    let n = m.size.min(if m.kind == MKind::Null { 4096 } else { 1 << 24 }) as u32;
    drive(h, m, &[Op::S(0), Op::R(n), Op::Tell], w, false).map_err(|e| format!("reading all back, {e}"))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SK {
    Vec,
    SpareVec,
    VecMut,
    Slice,
    Boxed,
    Arr,
    Null,
    FileRw,
    FileRo,
    FileWo,
}

fn arr<const N: usize>(init: &[u8]) -> [u8; N] {
    let mut a = [0; N];
    a.copy_from_slice(init);
    a
}

fn close_ok(r: std::io::Result<()>) -> R {
    r.map_err(|e| format!("close failed ({e})"))
}

pub fn run_history(kind: SK, init: &[u8], ops: &[Op], w: &mut W) -> R {
    let r = run_history_(kind, init, ops, w);
    w.traces += 1;
    r
}
fn go<H: IOHandler>(mut h: H, m: &mut Model, ops: &[Op], w: &mut W) -> R {
    drive(&mut h, m, ops, w, false)?;
    w.state(m.hash());
    w.nt();
    finish(&mut h, m, w)?;
    close_ok(h.close())
}
/// The same without holding the null device to reading zeros (that is C02's matter).
pub fn run_history_any(kind: SK, init: &[u8], ops: &[Op], w: &mut W) -> R {
    if kind != SK::Null {
        return run_history(kind, init, ops, w);
    }
    w.traces += 1;
    let mut m = Model::new(MKind::Null, &[]);
    m.zeros = false;
    go(FileNull::new(), &mut m, ops, w)
}
fn run_history_(kind: SK, init: &[u8], ops: &[Op], w: &mut W) -> R {
    match kind {
        SK::Vec => go(FileMem::new(init.to_vec()), &mut Model::new(MKind::Grow, init), ops, w),
        SK::SpareVec => {
            // spare capacity full of old bytes must read as zeros once grown into
            let mut v = vec![0xEE; init.len() + 64];
            v[..init.len()].copy_from_slice(init);
            v.truncate(init.len());
            go(FileMem::new(v), &mut Model::new(MKind::Grow, init), ops, w)
        }
        SK::VecMut => {
            let mut v = init.to_vec();
            let mut m = Model::new(MKind::Grow, init);
            go(FileMem::new(&mut v), &mut m, ops, w)?;
            w.obs(&v);
            m.check_all(&v, "the caller's vector")
        }
        SK::Slice => {
            // guard bytes around the buffer
            let mut v = vec![0xC3; init.len() + 8];
            v[4..4 + init.len()].copy_from_slice(init);
            let mut m = Model::new(MKind::Fixed, init);
            let end = 4 + init.len();
            go(FileMem::new(&mut v[4..end]), &mut m, ops, w)?;
            if v[..4].iter().chain(&v[end..]).any(|b| *b != 0xC3) {
                return Err("bytes outside the caller's slice changed".into());
            }
            w.obs(&v);
            let inner = v[4..end].to_vec();
            m.check_all(&inner, "the caller's slice")
        }
        SK::Boxed => go(
            FileMem::new(init.to_vec().into_boxed_slice()),
            &mut Model::new(MKind::Fixed, init),
            ops,
            w,
        ),
        SK::Arr => {
            let mut m = Model::new(MKind::Fixed, init);
            match init.len() {
                0 => go(FileMem::new(arr::<0>(init)), &mut m, ops, w),
                3 => go(FileMem::new(arr::<3>(init)), &mut m, ops, w),
                13 => go(FileMem::new(arr::<13>(init)), &mut m, ops, w),
                n => unreachable!("array of {n}"),
            }
        }
        SK::Null => go(FileNull::new(), &mut Model::new(MKind::Null, &[]), ops, w),
        SK::FileRw | SK::FileRo | SK::FileWo => {
            let path = w.take("stream file", |w| w.dir.join("stream"));
            let r = file_history(kind, &path, init, ops, w);
            w.put::<PathBuf>("stream file", path);
            r
        }
    }
}

fn reset(path: &Path, init: &[u8]) {
    std::fs::write(path, init).expect("scratch file");
}
fn open_kind(kind: SK, path: &Path) -> File {
    let mut o = OpenOptions::new();
    match kind {
        SK::FileRo => o.read(true),
        SK::FileWo => o.write(true),
        _ => o.read(true).write(true),
    };
    o.open(path).expect("scratch file")
}
fn file_history(kind: SK, path: &Path, init: &[u8], ops: &[Op], w: &mut W) -> R {
    reset(path, init);
    let h = open_kind(kind, path);
    let mut m = Model::new(MKind::Grow, init);
    m.max_pos = i64::MAX as u64;
    m.can_read = kind != SK::FileWo;
    m.can_write = kind != SK::FileRo;
    go(h, &mut m, ops, w)?;
    let got = std::fs::read(path).expect("scratch file");
    w.obs(&got);
    m.check_all(&got, "the file on disk")
}

/// A section over all histories up to `depth` over `ops`, for each kind and initial content.
fn histories(
    name: &'static str,
    kinds: &'static [SK],
    inits: &'static [usize],
    ops: Vec<Op>,
    depth: u32,
) -> Section {
    let k = ops.len() as u64;
    let per = seqs(k, depth);
    let ops2 = ops.clone();
    let n = per * (kinds.len() * inits.len()) as u64;
    let split = move |i: u64| {
        let c = (i / per) as usize;
        (kinds[c / inits.len()], inits[c % inits.len()], i % per)
    };
    Section::new(
        name,
        n,
        move |i, w| {
            let (kind, len, s) = split(i);
            let mut v: Vec<u32> = Vec::with_capacity(8);
            seq(s, k, depth, &mut v);
            let mut o = [Op::Tell; 8];
            for (a, b) in o.iter_mut().zip(&v) {
                *a = ops[*b as usize];
            }
            let run = if kinds.len() == 1 { run_history } else { run_history_any };
            run(kind, &pattern(9, len), &o[..v.len()], w)
        },
        move |i| {
            let (kind, len, s) = split(i);
            let mut v = vec![];
            seq(s, k, depth, &mut v);
            let o: Vec<Op> = v.iter().map(|b| ops2[*b as usize]).collect();
            format!("{kind:?} over {len} bytes: {o:?}")
        },
    )
}

/// Long histories over every choice of three operations.
fn threes(kinds: &'static [SK], len: usize, depth: u32) -> Section {
    let mut sets = vec![];
    let o = ops_small();
    for a in 0..o.len() {
        for b in 0..a {
            for c in 0..b {
                sets.push([o[a], o[b], o[c]]);
            }
        }
    }
    let per = 3u64.pow(depth);
    let dec = move |i: u64| {
        let d = digits(i, &[per, sets.len() as u64, kinds.len() as u64]);
        let mut x = d[0];
        let v: Vec<Op> = (0..depth)
            .map(|_| {
                let k = x % 3;
                x /= 3;
                sets[d[1] as usize][k as usize]
            })
            .collect();
        (kinds[d[2] as usize], v)
    };
    let d2 = dec.clone();
    Section::new(
        "longer histories over every three operations",
        per * 560 * kinds.len() as u64,
        move |i, w| {
            let (kind, v) = dec(i);
            run_history(kind, &pattern(9, len), &v, w)
        },
        move |i| format!("{:?}", d2(i)),
    )
}
/// Two operations in turn, past the wrap of a 16-bit count.
fn repeats(kinds: &'static [SK], len: usize, times: usize) -> Section {
    let o = ops_small();
    let dec = move |i: u64| {
        let d = digits(i, &[16, 16, kinds.len() as u64]);
        (kinds[d[2] as usize], o[d[0] as usize], o[d[1] as usize])
    };
    let d2 = dec.clone();
    Section::new(
        "two operations in turn, more than 65,536 times",
        256 * kinds.len() as u64,
        move |i, w| {
            let (kind, a, b) = dec(i);
            let v: Vec<Op> = (0..times).map(|k| if k % 2 == 0 { a } else { b }).collect();
            run_history(kind, &pattern(9, len), &v, w)
        },
        move |i| format!("{:?}", d2(i)),
    )
}

fn ops_mem() -> Vec<Op> {
    use Op::*;
    vec![
        W(1), R(1), W(3), R(3), W(0), R(0), W(2), R(2), W(14), R(14),
        S(0), S(1), S(2), S(3), S(4), S(13), S(20), S(u64::MAX), S(1 << 63),
        E(0), E(-1), E(-2), E(-3), E(-4), E(3), E(-14), E(i64::MIN), E(i64::MAX),
        C(0), C(1), C(-1), C(2), C(-3), C(5), C(i64::MIN), C(i64::MAX),
        Tell, Size, Wt(T::U16), Rt(T::U16), Wt(T::U32), Rt(T::U32),
    ]
}
fn ops_small() -> Vec<Op> {
    use Op::*;
    vec![
        W(1), R(1), W(3), R(2), S(0), S(2), S(5), E(0), E(-1), E(2), E(-9), C(1), C(-1), C(-9), Tell, Size,
    ]
}
fn ops_typed() -> Vec<Op> {
    let mut v: Vec<Op> = TYPES.iter().flat_map(|t| [Op::Wt(*t), Op::Rt(*t)]).collect();
    v.extend([Op::S(0), Op::S(1), Op::S(15), Op::E(0), Op::E(-4), Op::C(-2), Op::C(3), Op::W(1), Op::R(1), Op::Tell, Op::Size]);
    v
}

const SIZES: [u32; 30] = [
    127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192,
    8193, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 131073, 1048577,
];

fn large(name: &'static str, kinds: &'static [SK]) -> Section {
    let shapes = |n: u32, s: u64| -> Vec<Op> {
        use Op::*;
        match s {
            0 => vec![W(n), Tell, Size, S(0), R(n), Tell, R(1), S(n as u64 - 1), R(1), Tell],
            1 => vec![W(n), C(-(n as i64)), R(n), E(-(n as i64)), Tell, R(n - 1), R(1), E(-1), R(1)],
            2 => vec![W(3), W(n), S(3), R(n), Size, S(1), R(n + 2)],
            3 => vec![S(n as u64), W(5), S(0), R(n + 5), Tell, Size],
            4 => vec![W(n), E(n as i64), W(n), S(0), R(n), R(n), R(n), Size, Tell],
            _ => vec![W(n), S(0), R(n + 1), S(0), R(n), S(1), W(n), S(0), R(n + 1), Size],
        }
    };
    let per = SIZES.len() as u64 * 6;
    Section::new(
        name,
        per * kinds.len() as u64,
        move |i, w| {
            let d = digits(i, &[6, SIZES.len() as u64, kinds.len() as u64]);
            let (n, kind) = (SIZES[d[1] as usize], kinds[d[2] as usize]);
            let init = match kind {
                SK::Slice | SK::Boxed => n as usize + 2,
                _ => 0,
            };
            run_history(kind, &pattern(9, init), &shapes(n, d[0]), w)
        },
        move |i| {
            let d = digits(i, &[6, SIZES.len() as u64, kinds.len() as u64]);
            format!("{:?}: {:?}", kinds[d[2] as usize], shapes(SIZES[d[1] as usize], d[0]))
        },
    )
}

/// Lengths on both sides of the sizes that buffers, blocks and 16-bit counts have.
const EDGES: [u32; 24] = [
    0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 131072, 200001,
];
const SMALL: [u32; 21] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20];
/// Every content length, position and transfer length together.
fn grid(name: &'static str, kinds: &'static [SK], values: &'static [u32]) -> Section {
    let n = values.len() as u64;
    let radix = [n, n, n, 5, kinds.len() as u64];
    let dec = move |i: u64| {
        use Op::*;
        let d = digits(i, &radix);
        let v = |k: usize| values[d[k] as usize];
        let (len, p, n) = (v(2), v(1), v(0));
        let ops = match d[3] {
            0 => vec![S(p as u64), W(n), Tell, Size],
            1 => vec![S(p as u64), R(n), Tell, S(1), R(2), Tell],
            2 => vec![E(p as i64 - len as i64), W(n), C(-(n as i64)), R(n), Tell],
            3 => vec![W(n), S(p as u64), R(n), Tell, Size],
            _ => vec![W(p), W(n), Size, S(p as u64), R(n), Tell],
        };
        (kinds[d[4] as usize], len as usize, ops)
    };
    Section::new(
        name,
        radix.iter().product(),
        move |i, w| {
            let (kind, len, ops) = dec(i);
            let run = if kinds.len() == 1 { run_history } else { run_history_any };
            run(kind, &pattern(9, len), &ops, w)
        },
        move |i| format!("(stream, bytes at first, operations) = {:?}", dec(i)),
    )
}
/// Seeks to every power of two and next to it, and from there by every power of two.
fn powers(kinds: &'static [SK]) -> Section {
    let radix = [4, 3, 64, 3, 65, kinds.len() as u64];
    let dec = move |i: u64| {
        use Op::*;
        let d = digits(i, &radix);
        let at = if d[4] == 64 { 0 } else { 1u64 << d[4] }.wrapping_add(d[3]).wrapping_sub(1);
        let by = (1u64 << d[2]).wrapping_add(d[1]).wrapping_sub(1) as i64;
        let mv = [C(by), C(by.wrapping_neg()), E(by), E(by.wrapping_neg())][d[0] as usize];
        (kinds[d[5] as usize], [S(at), Tell, mv, Tell, R(1), Size])
    };
    Section::new(
        "seeks by every power of two",
        radix.iter().product(),
        move |i, w| {
            let (kind, ops) = dec(i);
            let run = if kinds.len() == 1 { run_history } else { run_history_any };
            run(kind, &pattern(9, 13), &ops, w)
        },
        move |i| format!("{:?}", dec(i)),
    )
}
/// The k-th content: every single byte and pair of bytes, every byte throughout, every byte among zeros,
/// and contents with a meaning elsewhere.
pub fn content(k: u64) -> Option<Vec<u8>> {
    const LENGTHS: [usize; 12] = [3, 4, 7, 8, 16, 31, 64, 128, 255, 256, 4096, 9000];
    let texts: [&[u8]; 24] = [
        b"\r\n", b"a\nb\r\nc\rd\n", b"\xEF\xBB\xBFtext", b"\xFF\xFEt\0", b"\x1A", b"a\x1Ab\x04c", b"\0\0\0\0acspAPPL", b"#!/bin/sh\n", b"\x7FELF\x02\x01\x01", b"\x1F\x8B\x08\0", b"PK\x03\x04", b"%PDF-1.7\n",
        b"\x89PNG\r\n\x1A\n", b"\xFF\xD8\xFF\xE0", b"<?xml version='1.0'?>", b"{\"a\": [1]}", b"GIF89a", b"II*\0", b"MM\0*", b"\xC3\xA4\xE2\x82\xAC\xF0\x9F\x8E\xA8", b"\xC3\x28\xA0\xFF", b"%s%n%d", b"EOF", b"../../x",
    ];
    let mut k = k;
    for (n, f) in [
        (256u64, (|k| vec![k as u8]) as fn(u64) -> Vec<u8>),
        (65536, |k| vec![k as u8, (k >> 8) as u8]),
        (256 * 12, |k| vec![k as u8; LENGTHS[(k >> 8) as usize]]),
        (256 * 12, |k| {
            let n = LENGTHS[(k >> 8) as usize];
            let mut v = vec![0; n];
            v[n / 2] = k as u8;
            v
        }),
        (256 * 12, |k| {
            let n = LENGTHS[(k >> 8) as usize];
            let mut v = pattern(k as usize, n);
            v[n - 1] = k as u8;
            v[0] = !(k as u8);
            v
        }),
        (12 * 64, |k| (0..LENGTHS[(k >> 6) as usize]).map(|j| (j as u64 * (k & 63)) as u8).collect()),
        // values of every power of two, in each order of bytes
        (256, |k| {
            let v = (1u64 << (k % 64)).wrapping_sub(k / 64 % 2);
            if k < 128 { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() }
        }),
    ] {
        if k < n {
            return Some(f(k));
        }
        k -= n;
    }
    texts.get(k as usize / 3).map(|t| match k % 3 {
        0 => t.to_vec(),
        1 => [&pattern(1, 130), *t].concat(),
        _ => t.repeat(2000 / t.len()),
    })
}
pub const CONTENTS: u64 = 256 + 65536 + 3 * 256 * 12 + 12 * 64 + 256 + 72;
fn content_case<H: IOHandler>(mut h: H, b: &[u8], at: u64, there: bool, same: &dyn Fn(&[u8], &[u8]) -> R, w: &mut W) -> R {
    let e = |e: std::io::Error| format!("failed ({e})");
    w.transitions += 6;
    let mut got = vec![0x77u8; b.len()];
    if !there {
        h.seek(SeekFrom::Start(at)).map_err(e)?;
        h.write(b).map_err(e)?;
        // again over the same bytes, in two parts
        h.seek(SeekFrom::Start(at)).map_err(e)?;
        let half = b.len() / 2;
        h.write(&b[..half]).map_err(e)?;
        h.write(&b[half..]).map_err(e)?;
        if h.tell().map_err(e)? as u64 != at + b.len() as u64 {
            return Err("the position after it is wrong".into());
        }
    }
    h.seek(SeekFrom::Start(at)).map_err(e)?;
    h.read(&mut got).map_err(e)?;
    same(&got, b)?;
    // byte by byte, the first few and the last
    for k in (0..b.len().min(6)).chain([b.len() - 1]) {
        let mut one = [0x77];
        h.seek(SeekFrom::Start(at + k as u64)).map_err(e)?;
        h.read(&mut one).map_err(e)?;
        same(&one, &b[k..k + 1])?;
    }
    w.obs(&got);
    close_ok(h.close())
}
/// Every content, there at first or written, at the start or further on.
fn contents(kinds: &'static [SK]) -> Section {
    let radix = [CONTENTS, 3, kinds.len() as u64];
    Section::new(
        "every content",
        radix.iter().product(),
        move |i, w| {
            let d = digits(i, &radix);
            let (kind, how) = (kinds[d[2] as usize], d[1]);
            let b = content(d[0]).expect("within the count");
            let at = [0u64, 0, 5][how as usize];
            let (there, n) = (how == 1, b.len() + at as usize);
            let eq = |g: &[u8], x: &[u8]| if g == x { Ok(()) } else { Err(format!("read {} instead of {}", hex(g), hex(x))) };
            let zero = |g: &[u8], _: &[u8]| if g.iter().all(|b| *b == 0) { Ok(()) } else { Err(format!("read {} instead of zeros", hex(g))) };
            w.traces += 1;
            w.nt();
            let init = if there { b.clone() } else { vec![] };
            let room = if there { b.clone() } else { vec![0xEE; n] };
            match kind {
                SK::Vec => content_case(FileMem::new(init), &b, at, there, &eq, w),
                SK::VecMut => {
                    let mut v = init;
                    content_case(FileMem::new(&mut v), &b, at, there, &eq, w)?;
                    eq(&v, &[&vec![0; at as usize][..], &b].concat())
                }
                SK::Slice => {
                    let mut v = room;
                    content_case(FileMem::new(&mut v[..]), &b, at, there, &eq, w)?;
                    eq(&v, &[&vec![0xEE; at as usize][..], &b].concat())
                }
                SK::Boxed => content_case(FileMem::new(room.into_boxed_slice()), &b, at, there, &eq, w),
                SK::Null => content_case(FileNull::new(), &b, at, false, &zero, w),
                _ => {
                    let path = w.take("stream file", |w| w.dir.join("stream"));
                    reset(&path, &init);
                    let r = content_case(open_kind(SK::FileRw, &path), &b, at, there, &eq, w).and_then(|_| {
                        eq(&std::fs::read(&path).expect("scratch file"), &[&vec![0; at as usize][..], &b].concat())
                    });
                    w.put::<PathBuf>("stream file", path);
                    r
                }
            }
        },
        move |i| {
            let d = digits(i, &radix);
            format!("{:?}, {}: {}", kinds[d[2] as usize], ["written", "there at first", "written at 5"][d[1] as usize], hex(&content(d[0]).unwrap_or_default()))
        },
    )
}

/// Offsets of a buffer from a page boundary, and lengths: words, vectors, cache lines and pages, begun and ended anywhere.
fn places() -> Vec<usize> {
    (0..=33).chain([47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 511, 512, 1023, 2047, 2048]).chain(4096 - 20..4096).collect()
}
const REACHES: [usize; 40] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 513, 1000, 2048, 4095, 4096, 4097, 9001,
];
fn address_case<H: IOHandler>(mut h: H, (off, n, at): (usize, usize, usize), there: Option<&[u8]>, w: &mut W) -> R {
    let e = |e: std::io::Error| format!("failed ({e})");
    let mut room = w.take("room", |_| vec![0u8; 32_768]);
    let base = room.as_ptr().align_offset(4096) + 4096;
    let r = (|| -> R {
        let (a, z) = (base + off, base + off + n);
        room[a - 64..z + 64].fill(0xA5);
        h.seek(SeekFrom::Start(at as u64)).map_err(e)?;
        h.read(&mut room[a..z]).map_err(e)?;
        let zeros = vec![0; n];
        let want = there.map_or(&zeros[..], |b| &b[at..at + n]);
        if room[a..z] != *want {
            return Err(format!("read {} instead of {}", hex(&room[a..z]), hex(want)));
        }
        if room[a - 64..a].iter().chain(&room[z..z + 64]).any(|b| *b != 0xA5) {
            return Err("bytes next to the caller's buffer changed".into());
        }
        room[a..z].copy_from_slice(&pattern(off + 1, n));
        let before = room[a - 64..z + 64].to_vec();
        h.seek(SeekFrom::Start(at as u64)).map_err(e)?;
        h.write(&room[a..z]).map_err(e)?;
        if room[a - 64..z + 64] != before[..] {
            return Err("a write changed its own source".into());
        }
        let tell = h.tell().map_err(e)?;
        if tell != at + n {
            return Err(format!("position {tell}, must be {}", at + n));
        }
        let Some(b) = there else { return Ok(()) };
        let mut all = vec![0; b.len()];
        h.seek(SeekFrom::Start(0)).map_err(e)?;
        h.read(&mut all).map_err(e)?;
        let want = [&b[..at], &pattern(off + 1, n), &b[at + n..]].concat();
        w.obs(&all);
        if all != want {
            let k = (0..all.len()).find(|k| all[*k] != want[*k]).unwrap_or(0);
            return Err(format!("after the write byte {k} is {}, must be {}", all[k], want[k]));
        }
        Ok(())
    })();
    w.put("room", room);
    r?;
    w.transitions += 6;
    w.traces += 1;
    w.nt();
    close_ok(h.close())
}
/// Transfers from and to buffers at every address.
fn addresses(kinds: &'static [SK]) -> Section {
    let offs = places();
    let radix = [REACHES.len() as u64, offs.len() as u64, 4, kinds.len() as u64];
    let dec = move |i: u64| {
        let d = digits(i, &radix);
        (kinds[d[3] as usize], (offs[d[1] as usize], REACHES[d[0] as usize], [0, 1, 3, 8][d[2] as usize]))
    };
    let show = dec.clone();
    Section::new(
        "buffers at every address",
        radix.iter().product(),
        move |i, w| {
            let (kind, c) = dec(i);
            let mut b = pattern(9, c.1 + c.2 + 5);
            match kind {
                SK::Vec => address_case(FileMem::new(b.clone()), c, Some(&b), w),
                SK::VecMut => {
                    let old = b.clone();
                    address_case(FileMem::new(&mut b), c, Some(&old), w)
                }
                SK::Slice => {
                    // the stream's own bytes at every address too
                    let mut v = [&vec![0; c.0 % 8][..], &b].concat();
                    address_case(FileMem::new(&mut v[c.0 % 8..]), c, Some(&b), w)
                }
                SK::Boxed => address_case(FileMem::new(b.clone().into_boxed_slice()), c, Some(&b), w),
                SK::Null => address_case(FileNull::new(), c, None, w),
                _ => {
                    let path = w.take("stream file", |w| w.dir.join("stream"));
                    reset(&path, &b);
                    let r = address_case(open_kind(SK::FileRw, &path), c, Some(&b), w);
                    w.put::<PathBuf>("stream file", path);
                    r
                }
            }
        },
        move |i| {
            let (kind, (off, n, at)) = show(i);
            format!("{kind:?}: {n} bytes at {at}, by a buffer {off} bytes past a page boundary")
        },
    )
}

pub fn c01(t: Tier) -> Check {
    const KINDS: &[SK] = &[SK::VecMut, SK::Slice, SK::Boxed, SK::Arr, SK::Vec, SK::SpareVec];
    const MAIN: &[SK] = &[SK::VecMut, SK::Slice];
    const GRID: &[SK] = &[SK::VecMut, SK::Slice, SK::Boxed, SK::SpareVec];
    Check {
        id: "C01",
        level: "model_checking",
        rule: "every operation history up to the stated depth over the operation alphabet, per stream kind and initial content; non-trivial: the history ran to its end on the stream and its final position, size and whole content were compared",
        assumptions: &["histories longer than the depth bound and transfer lengths outside the alphabet are not explored", "growth beyond 64 MiB is not attempted"],
        sections: vec![
            histories("all kinds, short histories", KINDS, &[0, 3, 13], ops_mem(), 3).parity(),
            histories("typed operations", KINDS, &[0, 13], ops_typed(), t.pick(3, 4)).parity(),
            large("large transfers", &[SK::Vec, SK::VecMut, SK::Slice, SK::Boxed, SK::SpareVec]).parity(),
            histories("full alphabet", KINDS, &[3], ops_mem(), t.pick(4, 5)),
            histories("full alphabet, no bytes at first", MAIN, &[0], ops_mem(), t.pick(4, 5)),
            histories("long histories", MAIN, &[0, 3], ops_small(), t.pick(5, 7)),
            threes(MAIN, 3, t.pick(9, 12)),
            repeats(KINDS, 3, 66_000),
            grid("every short length, position and transfer", GRID, &SMALL),
            grid("lengths, positions and transfers at the edges", GRID, &EDGES),
            powers(&[SK::Vec, SK::Slice]),
            contents(&[SK::Vec, SK::VecMut, SK::Slice, SK::Boxed]),
            addresses(&[SK::Vec, SK::VecMut, SK::Slice, SK::Boxed]),
        ],
    }
}

pub fn c02(t: Tier) -> Check {
    use Op::*;
    let mut ops = ops_mem();
    ops.extend([
        S(u64::MAX - 1), S(u64::MAX - 13), S((1 << 63) - 1), S(1 << 32), S((1 << 31) + 5),
        E(-5), E(i64::MIN + 1), C(-2), C(i64::MIN + 1), R(5), W(5),
    ]);
    let mut long = ops_small();
    long.extend([S(u64::MAX), C(i64::MAX), C(i64::MIN), E(i64::MIN), R(300)]);
    Check {
        id: "C02",
        level: "model_checking",
        rule: "every operation history up to the stated depth over an alphabet with extreme seeks; non-trivial: the history ran to its end and position, size and read-back were compared",
        assumptions: &["histories longer than the depth bound are not explored", "a zero-byte write past the end may or may not extend the size"],
        sections: vec![
            histories("full alphabet", &[SK::Null], &[0], ops, t.pick(4, 5)).parity(),
            histories("typed operations", &[SK::Null], &[0], ops_typed(), t.pick(4, 5)).parity(),
            histories("long histories", &[SK::Null], &[0], long, t.pick(5, 7)),
            threes(&[SK::Null], 0, t.pick(9, 12)),
            repeats(&[SK::Null], 0, 66_000),
            large("large transfers", &[SK::Null]).parity(),
            grid("every short length, position and transfer", &[SK::Null], &SMALL),
            grid("lengths, positions and transfers at the edges", &[SK::Null], &EDGES),
            powers(&[SK::Null]),
            contents(&[SK::Null]),
            addresses(&[SK::Null]),
        ],
    }
}

fn ops_file() -> Vec<Op> {
    use Op::*;
    vec![
        W(1), R(1), W(3), R(3), W(0), R(0), W(14), R(2),
        S(0), S(1), S(3), S(4), S(20), E(0), E(-1), E(-3), E(3), E(-14), E(i64::MIN),
        C(0), C(1), C(-1), C(5), C(-3), C(i64::MIN), Tell, Size, Wt(T::U16), Rt(T::U32),
    ]
}

/// Sparse files: offsets around 2^31, 2^32 and beyond.
fn sparse(t: Tier) -> Section {
    use Op::*;
    let ops: Vec<Op> = vec![
        S((1 << 31) - 1), S(1 << 31), S((1 << 32) - 1), S(1 << 32), S((1 << 32) + 7), S(1 << 35),
        W(3), R(2), E(0), E(-1), E(-(1i64 << 32)), C(1 << 31), C(-(1i64 << 31)), C(1), Tell, Size, S(0),
    ];
    let k = ops.len() as u64;
    let depth = t.pick(3, 4);
    let ops2 = ops.clone();
    Section::new(
        "offsets beyond 4 GiB",
        seqs(k, depth),
        move |i, w| {
            let mut v = vec![];
            seq(i, k, depth, &mut v);
            let ops: Vec<Op> = v.iter().map(|b| ops[*b as usize]).collect();
            let path = w.dir.join("sparse");
            reset(&path, b"abcdef");
            let mut h = open_kind(SK::FileRw, &path);
            // sparse model: bytes actually written, by position
            let mut bytes: std::collections::BTreeMap<u64, u8> =
                b"abcdef".iter().enumerate().map(|(i, b)| (i as u64, *b)).collect();
            let mut m = Model::new(MKind::Grow, b"abcdef");
            m.max_pos = i64::MAX as u64;
            for (k, op) in ops.iter().enumerate() {
                match *op {
                    W(n) => {
                        if let Some(p) = m.pos {
                            // drive() numbers its steps from one
                            for (j, b) in pattern(1, n as usize).iter().enumerate() {
                                bytes.insert(p + j as u64, *b);
                            }
                        }
                        drive(&mut h, &mut m, &[*op], w, true).map_err(|e| format!("op {}: {e}", k + 1))?;
                    }
                    R(n) => {
                        let Some(p) = m.pos else { continue };
                        let mut b = vec![0xA5; n as usize];
                        let got = h.read(&mut b);
                        let fits = p + n as u64 <= m.size;
                        if got.is_ok() != fits {
                            return Err(format!("op {}: read at {p} of {} bytes: {got:?}", k + 1, m.size));
                        }
                        if fits {
                            let want: Vec<u8> = (0..n as u64).map(|j| *bytes.get(&(p + j)).unwrap_or(&0)).collect();
                            if b != want {
                                return Err(format!("op {}: read {} at {p} instead of {}", k + 1, hex(&b), hex(&want)));
                            }
                            m.pos = Some(p + n as u64);
                        } else {
                            m.pos = None;
                        }
                    }
                    _ => drive(&mut h, &mut m, &[*op], w, true).map_err(|e| format!("op {}: {e}", k + 1))?,
                }
            }
            drive(&mut h, &mut m, &[Tell, Size, Tell], w, true).map_err(|e| format!("at the end: {e}"))?;
            w.nt();
            w.traces += 1;
            w.state(hash_of(&(m.pos, m.size)));
            close_ok(h.close())?;
            use std::os::unix::fs::FileExt;
            let f = File::open(&path).expect("scratch");
            let len = f.metadata().expect("scratch").len();
            if len != m.size {
                return Err(format!("the file has {len} bytes instead of {}", m.size));
            }
            for (p, b) in &bytes {
                let mut x = [0u8];
                if f.read_at(&mut x, *p).ok() != Some(1) || x[0] != *b {
                    return Err(format!("byte {p} of the file is {:02x} instead of {b:02x}", x[0]));
                }
            }
            Ok(())
        },
        move |i| {
            let mut v = vec![];
            seq(i, k, depth, &mut v);
            format!("{:?}", v.iter().map(|b| ops2[*b as usize]).collect::<Vec<_>>())
        },
    )
}

pub fn c03(t: Tier) -> Check {
    Check {
        id: "C03",
        level: "model_checking",
        rule: "every operation history up to the stated depth on a real file, per open mode and initial content; non-trivial: ran to its end, file compared through an independent descriptor",
        assumptions: &["the kernel's tmpfs (or /tmp) implements POSIX file semantics", "histories longer than the depth bound are not explored"],
        sections: vec![
            histories("read-write", &[SK::FileRw], &[0, 3, 13], ops_file(), t.pick(3, 4)).parity(),
            histories("read-only and write-only", &[SK::FileRo, SK::FileWo], &[0, 3, 13], ops_file(), 3),
            histories("typed operations", &[SK::FileRw], &[0, 13], ops_typed(), t.pick(3, 4)),
            histories("long histories", &[SK::FileRw], &[0, 3], ops_small(), t.pick(5, 6)),
            threes(&[SK::FileRw], 3, t.pick(6, 9)),
            repeats(&[SK::FileRw], 3, 66_000),
            large("large transfers", &[SK::FileRw]),
            sparse(t),
            grid("every short length, position and transfer", &[SK::FileRw], &SMALL),
            grid("lengths, positions and transfers at the edges", &[SK::FileRw], &EDGES),
            powers(&[SK::FileRw]),
            contents(&[SK::FileRw]),
            addresses(&[SK::FileRw]),
        ],
    }
}

// ---------------------------------------------------------------- C06

/// A user-supplied stream: a growable in-memory one whose n-th primitive call fails.
#[derive(Debug)]
pub struct Spy {
    pub data: Vec<u8>,
    pub pos: u64,
    pub calls: u32,
    pub fail_at: u32,
    pub failed: bool,
    /// how a failing transfer leaves the stream: nothing moved, or half of it
    pub partial: bool,
    /// total bytes successfully transferred by primitives
    pub moved: u64,
    /// which error the failing call returns
    pub error: u32,
}
/// The errors a user's stream may return: every kind, with words of its own, without, and every number.
pub fn user_error(k: u32) -> std::io::Error {
    use std::io::{Error, ErrorKind as K};
    const KINDS: [K; 40] = [
        K::Other, K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::HostUnreachable, K::NetworkUnreachable,
        K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::NetworkDown, K::BrokenPipe, K::AlreadyExists,
        K::WouldBlock, K::NotADirectory, K::IsADirectory, K::DirectoryNotEmpty, K::ReadOnlyFilesystem, K::StaleNetworkFileHandle,
        K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::StorageFull, K::NotSeekable, K::QuotaExceeded, K::FileTooLarge,
        K::ResourceBusy, K::ExecutableFileBusy, K::Deadlock, K::CrossesDevices, K::TooManyLinks, K::InvalidFilename, K::ArgumentListTooLong,
        K::Unsupported, K::UnexpectedEof, K::OutOfMemory, K::Interrupted, K::Interrupted,
    ];
    match k {
        0..=39 => Error::new(KINDS[k as usize], "injected"),
        40..=79 => KINDS[k as usize - 40].into(),
        80..=119 => Error::new(KINDS[k as usize - 80], ""),
        k => Error::from_raw_os_error(k as i32 - 120),
    }
}
pub const USER_ERRORS: u64 = 120 + 134;
impl Spy {
    pub fn new(data: Vec<u8>, pos: u64, fail_at: u32, partial: bool) -> Spy {
        Spy {
            data,
            pos,
            calls: 0,
            fail_at,
            failed: false,
            partial,
            moved: 0,
            error: 0,
        }
    }
    fn step(&mut self) -> std::io::Result<()> {
        self.calls += 1;
        if self.calls == self.fail_at {
            self.failed = true;
            return Err(user_error(self.error));
        }
        Ok(())
    }
}
impl IOHandler for Spy {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<()> {
        let n = buf.len() as u64;
        if let Err(e) = self.step() {
            if self.partial {
                for x in buf.iter_mut().take(n as usize / 2) {
                    *x = 0x77;
                }
                self.pos += n / 2;
            }
            return Err(e);
        }
        if self.pos.saturating_add(n) > self.data.len() as u64 {
            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
        }
        buf.copy_from_slice(&self.data[self.pos as usize..(self.pos + n) as usize]);
        self.pos += n;
        self.moved += n;
        Ok(())
    }
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<()> {
        self.step()?;
        let t = match pos {
            SeekFrom::Start(v) => v as i128,
            SeekFrom::End(v) => self.data.len() as i128 + v as i128,
            SeekFrom::Current(v) => self.pos as i128 + v as i128,
        };
        if !(0..=u64::MAX as i128).contains(&t) {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        self.pos = t as u64;
        Ok(())
    }
    fn close(self) -> std::io::Result<()> {
        Ok(())
    }
    fn tell(&mut self) -> std::io::Result<usize> {
        self.step()?;
        Ok(self.pos as usize)
    }
    fn write(&mut self, buf: &[u8]) -> std::io::Result<()> {
        let r = self.step();
        let n = if r.is_ok() {
            buf.len()
        } else if self.partial {
            buf.len() / 2
        } else {
            0
        };
        let (p, e) = (self.pos as usize, self.pos as usize + n);
        if self.data.len() < e {
            self.data.resize(e, 0);
        }
        self.data[p..e].copy_from_slice(&buf[..n]);
        self.pos = e as u64;
        if r.is_ok() {
            self.moved += n as u64;
        }
        r
    }
}

fn swallowed(failed: bool) -> &'static str {
    if failed {
        " (an underlying call failed and the query still succeeded)"
    } else {
        ""
    }
}

pub fn c06(t: Tier) -> Check {
    const LENS: [usize; 10] = [0, 1, 2, 3, 13, 127, 128, 255, 256, 4097];
    const POS: [u64; 14] = [0, 1, 2, 3, 4, 12, 13, 14, 128, 255, 256, 5000, 1 << 32, i64::MAX as u64];
    // user-supplied stream, every primitive failing in turn
    let spy = Section::new(
        "user stream, each underlying call failing",
        (LENS.len() * POS.len() * 13 * 2) as u64,
        |i, w| {
            let d = digits(i, &[13, 2, POS.len() as u64, LENS.len() as u64]);
            let (len, pos) = (LENS[d[3] as usize], POS[d[2] as usize]);
            let data = pattern(3, len);
            let mut s = Spy::new(data.clone(), pos, d[0] as u32, d[1] == 1);
            let r = s.reported_size();
            w.nt();
            w.traces += 1;
            w.transitions += s.calls as u64;
            w.state(hash_of(&(len, pos, d[0].min(s.calls as u64 + 1))));
            w.obs(&(r.as_ref().ok(), s.pos));
            if s.data != data {
                return Err("the stream's content changed".into());
            }
            match r {
                Ok(n) if n != len => Err(format!("size {n} instead of {len}{}", swallowed(s.failed))),
                Ok(_) if s.pos != pos => Err(format!("position moved from {pos} to {}{}", s.pos, swallowed(s.failed))),
                Ok(_) => Ok(()),
                Err(e) if !s.failed => Err(format!("failed ({e}) although every underlying call worked")),
                Err(_) => Ok(()),
            }
        },
        |i| {
            let d = digits(i, &[13, 2, POS.len() as u64, LENS.len() as u64]);
            format!("length {}, position {}, failing call {}", LENS[d[3] as usize], POS[d[2] as usize], d[0])
        },
    );
    let every = Section::new(
        "user stream, each underlying call failing with every kind of error",
        USER_ERRORS * 7 * 9,
        |i, w| {
            let d = digits(i, &[9, 7, USER_ERRORS]);
            let (len, pos) = ([13, 0, 300][d[0] as usize % 3], [0u64, 4, 13][d[0] as usize / 3]);
            let data = pattern(3, len);
            let mut s = Spy::new(data.clone(), pos, d[1] as u32 + 1, false);
            s.error = d[2] as u32;
            let r = s.reported_size();
            w.nt();
            w.traces += 1;
            w.transitions += s.calls as u64;
            w.obs(&r.as_ref().ok());
            match r {
                _ if s.data != data => Err("the stream's content changed".into()),
                // trying an interrupted call again is no harm
                Ok(n) if s.failed && user_error(s.error).kind() == std::io::ErrorKind::Interrupted && n == len && s.pos == pos => Ok(()),
                Ok(n) if n != len || s.pos != pos || s.failed => Err(format!("size {n}, position {}{}", s.pos, swallowed(s.failed))),
                Err(e) if !s.failed => Err(format!("failed ({e}) although every underlying call worked")),
                _ => Ok(()),
            }
        },
        |i| {
            let d = digits(i, &[9, 7, USER_ERRORS]);
            format!("case {}, failing call {}, error {:?}", d[0], d[1] + 1, user_error(d[2] as u32))
        },
    )
    .parity();
    const KINDS: [SK; 9] = [
        SK::Vec, SK::VecMut, SK::Slice, SK::Boxed, SK::Arr, SK::Null, SK::FileRw, SK::FileRo, SK::FileWo,
    ];
    const ALEN: [usize; 3] = [0, 3, 13];
    // every way to a position, then the query twice, with other operations around it
    let ways = || -> Vec<Vec<Op>> {
        use Op::*;
        let mut v: Vec<Vec<Op>> = POS.iter().map(|p| vec![S(*p)]).collect();
        v.extend([
            vec![], vec![W(5)], vec![R(2)], vec![E(0)], vec![E(3)], vec![E(-1)], vec![W(5), S(1)],
            vec![S(20), W(1)], vec![S(20), W(2), S(3)], vec![C(7)], vec![R(1), C(-1)], vec![W(300)], vec![W(300), S(256)], vec![W(300), S(255), R(1)],
        ]);
        v
    };
    let nways = ways().len() as u64;
    let after = || -> Vec<Vec<Op>> {
        use Op::*;
        vec![vec![], vec![W(2)], vec![R(1)], vec![C(1)], vec![E(-1)], vec![C(-1), W(1)], vec![R(3), Tell]]
    };
    let nafter = after().len() as u64;
    let build = move |d: &[u64]| -> Vec<Op> {
        let mut o = ways()[d[0] as usize].clone();
        o.extend([Op::Tell, Op::Size, Op::Tell, Op::Size, Op::Tell]);
        o.extend(after()[d[1] as usize].iter());
        o.extend([Op::Tell, Op::Size, Op::Tell]);
        o
    };
    let build2 = build;
    let radix = [nways, nafter, KINDS.len() as u64, 3];
    let kinds = Section::new(
        "every stream kind, every position",
        product(&radix),
        move |i, w| {
            let d = digits(i, &radix);
            run_history_any(KINDS[d[2] as usize], &pattern(9, ALEN[d[3] as usize]), &build(&d), w)
        },
        move |i| {
            let d = digits(i, &radix);
            format!("{:?} over {} bytes: {:?}", KINDS[d[2] as usize], ALEN[d[3] as usize], build2(&d))
        },
    )
    .parity();
    Check {
        id: "C06",
        level: "model_checking",
        rule: "every (length, position, failing call) of a user-supplied stream and every way to reach a position on every built-in stream kind, followed by size and position queries; non-trivial: the query was made and its effect compared",
        assumptions: &["lengths and positions are from the stated lists"],
        sections: vec![spy, every, kinds, histories("histories with queries", &[SK::VecMut, SK::Slice, SK::Null, SK::FileRw], &[3], {
            use Op::*;
            vec![Size, Tell, W(2), R(1), S(1), S(7), E(1), C(-1)]
        }, t.pick(4, 6)), spy_file()],
    }
}

/// Disk files: each system call made by the query fails in turn.
fn spy_file() -> Section {
    use crate::sys::*;
    struct H {
        n: u32,
        at: u32,
        errno: i32,
        hit: bool,
    }
    impl Hook for H {
        fn call(&mut self, _c: &Call) -> Act {
            self.n += 1;
            if self.n == self.at {
                self.hit = true;
                Act::Err(self.errno)
            } else {
                Act::Pass
            }
        }
    }
    const POS: [u64; 4] = [0, 2, 5, 9];
    Section::new(
        "disk file, each system call failing",
        8 * 4 * 2,
        |i, w| {
            let d = digits(i, &[8, 4, 2]);
            let path = w.dir.join("size");
            reset(&path, b"hello");
            let mut f = open_kind(SK::FileRw, &path);
            IOHandler::seek(&mut f, SeekFrom::Start(POS[d[1] as usize])).expect("seek");
            let mut h = H {
                n: 0,
                at: d[0] as u32,
                errno: [EIO, EINVAL][d[2] as usize],
                hit: false,
            };
            let r = with_hook(&mut h, || f.reported_size());
            w.nt();
            w.traces += 1;
            w.transitions += h.n as u64;
            w.state(hash_of(&d));
            match r {
                Ok(n) if n != 5 => Err(format!("size {n} instead of 5{}", swallowed(h.hit))),
                Ok(_) => {
                    let p = IOHandler::tell(&mut f).map_err(|e| e.to_string())?;
                    if p as u64 != POS[d[1] as usize] {
                        return Err(format!("position moved to {p}{}", swallowed(h.hit)));
                    }
                    Ok(())
                }
                Err(_) if h.hit => Ok(()),
                Err(e) => Err(format!("failed ({e}) although every system call worked")),
            }
        },
        |i| format!("(failing call, position, errno) = {:?}", digits(i, &[8, 4, 2])),
    )
}
