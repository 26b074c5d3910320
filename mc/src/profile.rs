//! C10–C13, C15, C16, C29: opening profiles.
use crate::engine::*;
use crate::sigtable::{word4, words4, TABLE};
use crate::stream::{b16, b32, b64, hex, w16, w32, w64};
use lcms2::state::Context;
use lcms2::types::verif::ProfileView;
use lcms2::types::{Profile, Signature};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};

pub type Ent = (u32, u32, u32);

/// A header whose fields are all different and none of them zero.
pub fn header(declared: u32) -> [u8; 128] {
    let mut h = [0u8; 128];
    let mut put = |at: usize, b: &[u8]| h[at..at + b.len()].copy_from_slice(b);
    put(0, &b32(declared));
    put(4, &b32(0x436D_6D31));
    put(8, &b32(0x0431_0203));
    put(12, &b32(0x7363_6E72));
    put(16, &b32(0x5247_4220));
    put(20, &b32(0x5859_5A20));
    for (i, v) in [2021u16, 12, 30, 23, 58, 57].iter().enumerate() {
        put(24 + 2 * i, &b16(*v));
    }
    put(36, &b32(0x6163_7370));
    put(40, &b32(0x4150_504C));
    put(44, &b32(0x8102_0304));
    put(48, &b32(0x4D61_6E75));
    put(52, &b32(0x91A2_B3C4));
    put(56, &b64(0xF1E2_D3C4_B5A6_9788));
    put(64, &b32(0x7162_5344));
    put(68, &b32(0x0000_F6D6));
    put(72, &b32(0x0001_0000));
    put(76, &b32(0x0000_D32D));
    put(80, &b32(0x4372_6561));
    for i in 0..16 {
        put(84 + i, &[0xA0 + i as u8]);
    }
    for i in 0..28 {
        put(100 + i, &[0x41 + i as u8]);
    }
    h
}
/// header, count, entries; then filled or cut to `total` bytes.
pub fn build(h: &[u8; 128], count: u32, ents: &[Ent], total: usize) -> Vec<u8> {
    let mut v = h.to_vec();
    v.extend(b32(count));
    for e in ents {
        v.extend(b32(e.0));
        v.extend(b32(e.1));
        v.extend(b32(e.2));
    }
    let mut k = 0u8;
    while v.len() < total {
        k = k.wrapping_add(29);
        v.push(k);
    }
    v.truncate(total);
    v
}
pub fn sig4(s: &[u8; 4]) -> u32 {
    s.iter().fold(0, |a, b| a << 8 | *b as u32)
}
/// Three entries, the third sharing the first's data.
pub fn base3() -> Vec<u8> {
    build(
        &header(220),
        3,
        &[
            (sig4(b"desc"), 168, 20),
            (sig4(b"wtpt"), 188, 32),
            (sig4(b"cprt"), 168, 20),
        ],
        220,
    )
}
pub fn base0() -> Vec<u8> {
    build(&header(132), 0, &[], 132)
}
pub fn base100() -> Vec<u8> {
    let e: Vec<Ent> = (0..100).map(|i| (0x5400_0000 + i, 1332 + 4 * i, 4)).collect();
    build(&header(1732), 100, &e, 1732)
}

/// One file per worker, rewritten for each case.
pub struct Bench {
    f: File,
    pub path: PathBuf,
    len: usize,
}
impl Bench {
    pub fn new(path: PathBuf) -> Bench {
        let f = File::options()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(&path)
            .expect("scratch file");
        Bench { f, path, len: 0 }
    }
    pub fn set(&mut self, b: &[u8]) {
        if b.len() != self.len {
            self.f.set_len(b.len() as u64).expect("scratch file");
            self.len = b.len();
        }
        self.f.write_all_at(b, 0).expect("scratch file");
    }
    pub fn set_len(&mut self, n: u64) {
        self.f.set_len(n).expect("scratch file");
        self.len = n as usize;
    }
}
pub fn bench<T>(w: &mut W, f: impl FnOnce(&mut Bench, &mut W) -> T) -> T {
    let mut b = w.take("bench", |w| Bench::new(w.dir.join("profile.icc")));
    let r = f(&mut b, w);
    w.put("bench", b);
    r
}
pub fn open(path: &Path) -> Result<std::io::Result<Box<Profile>>, String> {
    guarded(|| mcglue::open_thr(&mut Context::new(None), path, false))
}

pub struct Fields {
    pub created: Option<chrono::NaiveDateTime>,
    pub nums: [(&'static str, u64); 11],
    pub id: [u8; 16],
}
/// A calendar date-time, by the harness's own rules; None if there is none.
pub fn calendar(b: &[u8]) -> Option<chrono::NaiveDateTime> {
    let v: Vec<u32> = (0..6).map(|i| w16(&b[2 * i..]) as u32).collect();
    if !valid_date(v[0], v[1], v[2]) || v[3] > 23 || v[4] > 59 || v[5] > 59 {
        return None;
    }
    chrono::NaiveDate::from_ymd_opt(v[0] as i32, v[1], v[2]).and_then(|d| d.and_hms_opt(v[3], v[4], v[5]))
}
pub fn valid_date(y: u32, m: u32, d: u32) -> bool {
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let n = match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap as u32,
        _ => return false,
    };
    (1..=n).contains(&d)
}
/// Field values at their ICC positions.
pub fn fields(b: &[u8]) -> Fields {
    let n = |at: usize| w32(&b[at..at + 4]) as u64;
    let mut id = [0; 16];
    id.copy_from_slice(&b[84..100]);
    Fields {
        created: calendar(&b[24..36]),
        nums: [
            ("version", n(8)),
            ("class", n(12)),
            ("colour space", n(16)),
            ("connection space", n(20)),
            ("flags", n(44)),
            ("manufacturer", n(48)),
            ("model", n(52)),
            ("attributes", w64(&b[56..64])),
            ("rendering intent", n(64)),
            ("creator", n(80)),
            ("", 0),
        ],
        id,
    }
}
pub fn view_nums(v: &ProfileView) -> [u64; 11] {
    let s = |s: Signature| u32::from(s) as u64;
    [
        v.version as u64,
        s(v.device_class),
        s(v.color_space),
        s(v.pcs),
        v.flags as u64,
        v.manufacturer as u64,
        v.model as u64,
        v.attributes,
        v.rendering_intent as u64,
        v.creator as u64,
        0,
    ]
}
pub fn view_hash(v: &ProfileView) -> u64 {
    let tags: Vec<_> = v
        .tags
        .iter()
        .map(|t| (u32::from(t.0), t.1, t.2, t.3.map(u32::from)))
        .collect();
    hash_of(&(view_nums(v), unsafe { v.profile_id.id8 }, tags, v.is_write, v.created))
}
fn check_fields(v: &ProfileView, b: &[u8]) -> R {
    let f = fields(b);
    for (k, got) in view_nums(v).iter().enumerate() {
        if *got != f.nums[k].1 {
            return Err(format!("{} is {:#x}, the header holds {:#x}", f.nums[k].0, got, f.nums[k].1));
        }
    }
    let id = unsafe { v.profile_id.id8 };
    if id != f.id {
        return Err(format!("profile ID is {}, the header holds {}", hex(&id), hex(&f.id)));
    }
    if let Some(c) = f.created {
        if v.created != c {
            return Err(format!("creation date is {}, the header holds {c}", v.created));
        }
    }
    Ok(())
}
/// Directory entries that lie inside: None if the open must fail.
pub fn directory(b: &[u8], actual: u64) -> Option<Vec<Ent>> {
    if b.len() < 132 {
        return None;
    }
    let n = w32(&b[128..132]) as usize;
    if n > 100 || b.len() < 132 + 12 * n {
        return None;
    }
    let limit = (w32(&b[0..4]) as u64).min(actual);
    let mut out = vec![];
    for k in 0..n {
        let e = &b[132 + 12 * k..];
        let e = (w32(&e[0..4]), w32(&e[4..8]), w32(&e[8..12]));
        if e.1 as u64 + e.2 as u64 <= limit {
            out.push(e);
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- C10

fn total(b: &[u8], w: &mut W) -> R {
    bench(w, |f, w| {
        f.set(b);
        total_path(&f.path, w)
    })
}
fn total_path(path: &Path, w: &mut W) -> R {
    w.traces += 1;
    w.transitions += 1;
    let r = open(path)?;
    w.obs(&r.is_ok());
    let Ok(p) = r else { return Ok(()) };
    w.nt();
    totality(&p, w)?;
    guarded(|| drop(p))
}
fn totality(p: &Profile, w: &mut W) -> R {
    guarded(|| {
        let n = p.get_tag_count();
        w.obs(&n);
        for k in (0..=101).chain([127, 128, 255, 256, n, n + 1, 1 << 31, 1 << 32, usize::MAX >> 1, usize::MAX - 1, usize::MAX]) {
            let s = u32::from(p.get_tag_signature(k));
            w.obs(&s);
        }
        w.transitions += 116;
        std::hint::black_box(*p == *p);
        std::hint::black_box(*p == Profile::new());
        std::hint::black_box(p.get_io_handler().is_some());
        struct Sink(usize);
        impl std::fmt::Write for Sink {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len();
                Ok(())
            }
        }
        let mut s = Sink(0);
        let _ = std::fmt::write(&mut s, format_args!("{:?}", p));
        let _ = std::fmt::write(&mut s, format_args!("{:#?}", p));
        std::hint::black_box(s.0);
    })
}

pub const U32S: [u32; 44] = [
    0, 1, 2, 3, 4, 11, 12, 100, 127, 128, 131, 132, 133, 143, 144, 145, 167, 168, 169, 187, 199, 200, 201, 219, 220,
    221, 255, 256, 257, 65535, 65536, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FF00, 0xFFFF_FF23,
    0xFFFF_FF24, 0xFFFF_FF57, 0xFFFF_FF58, 0xFFFF_FF59, 0xFFFF_FFFD, 0xFFFF_FFFE, 0xFFFF_FFFF,
];

pub fn c10(t: Tier) -> Check {
    let bases: fn() -> [Vec<u8>; 3] = || [base3(), base0(), base100()];
    let lens: Vec<u64> = bases().iter().map(|b| b.len() as u64 + 1).collect();
    let l2 = lens.clone();
    let which = move |mut i: u64| {
        for (k, n) in lens.iter().enumerate() {
            if i < *n {
                return (k, i as usize);
            }
            i -= n;
        }
        unreachable!()
    };
    let which2 = which.clone();
    let trunc = Section::new(
        "every truncation",
        l2.iter().sum(),
        move |i, w| {
            let (k, n) = which(i);
            total(&bases()[k][..n], w)
        },
        move |i| format!("{:?}", which2(i)),
    )
    .parity();
    let single = Section::new(
        "every value of every byte",
        256 * (220 + 132 + 300),
        move |i, w| {
            let (mut p, v) = ((i / 256) as usize, i as u8);
            let b = bases();
            let mut k = 0;
            for (j, n) in [220, 132, 300].iter().enumerate() {
                if p < *n {
                    k = j;
                    break;
                }
                p -= n;
            }
            let mut x = b[k].clone();
            x[p] = v;
            total(&x, w)
        },
        |i| format!("base and position {}, value {:#x}", i / 256, i % 256),
    )
    .parity();
    // all values of each 16-bit half of the date, size, count and first entry fields
    const HALVES: [usize; 18] = [0, 2, 24, 26, 28, 30, 32, 34, 128, 130, 132, 134, 136, 138, 140, 142, 36, 38];
    let halves = Section::new(
        "every value of every 16-bit half of the structural fields",
        65536 * 18,
        |i, w| {
            let mut b = base3();
            let at = HALVES[(i / 65536) as usize];
            b[at..at + 2].copy_from_slice(&(i as u16).to_be_bytes());
            total(&b, w)
        },
        |i| format!("offset {}, value {:#x}", HALVES[(i / 65536) as usize], i % 65536),
    )
    .parity();
    // dates
    const Y: [u16; 14] = [0, 1, 4, 100, 400, 1899, 1900, 1970, 2000, 2001, 2100, 32767, 32768, 65535];
    const MO: [u16; 17] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 255, 256, 65535];
    const D: [u16; 10] = [0, 1, 27, 28, 29, 30, 31, 32, 256, 65535];
    const H: [u16; 6] = [0, 23, 24, 25, 256, 65535];
    const MI: [u16; 5] = [0, 59, 60, 61, 65535];
    const S: [u16; 7] = [0, 59, 60, 61, 62, 1000, 65535];
    let radix = [14u64, 17, 10, 6, 5, 7];
    let dates = Section::new(
        "dates",
        product(&radix),
        move |i, w| {
            let d = digits(i, &radix);
            let mut b = base0();
            for (k, v) in [Y[d[0] as usize], MO[d[1] as usize], D[d[2] as usize], H[d[3] as usize], MI[d[4] as usize], S[d[5] as usize]]
                .iter()
                .enumerate()
            {
                b[24 + 2 * k..26 + 2 * k].copy_from_slice(&b16(*v));
            }
            total(&b, w)
        },
        move |i| {
            let d = digits(i, &radix);
            format!("{}-{}-{} {}:{}:{}", Y[d[0] as usize], MO[d[1] as usize], D[d[2] as usize], H[d[3] as usize], MI[d[4] as usize], S[d[5] as usize])
        },
    )
    .parity();
    // ranges
    let n = U32S.len() as u64;
    let ranges = Section::new(
        "offset, size, declared size and file length at their limits",
        n * n * n * 3,
        move |i, w| {
            let d = digits(i, &[n, n, n, 3]);
            let u = |k: usize| U32S[d[k] as usize];
            let b = build(
                &header(u(2)),
                2,
                &[(sig4(b"desc"), u(0), u(1)), (sig4(b"cprt"), u(0), u(1))],
                [156, 200, 220][d[3] as usize],
            );
            total(&b, w)
        },
        move |i| {
            let d = digits(i, &[n, n, n, 3]);
            format!("offset {:#x}, size {:#x}, declared {:#x}, length index {}", U32S[d[0] as usize], U32S[d[1] as usize], U32S[d[2] as usize], d[3])
        },
    )
    .parity();
    // counts, with directories of every completeness
    let counts = |i: u64| -> u32 {
        let v: Vec<u32> = (0..=140)
            .chain([255, 256, 257, 1000, 65535, 65536, 0x0AAA_AAAA, 0x1555_5555, 0x1555_5556, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF])
            .collect();
        v[i as usize]
    };
    let count = Section::new(
        "declared counts against present entries",
        154 * 120 * 3,
        move |i, w| {
            let d = digits(i, &[154, 120, 3]);
            let e: Vec<Ent> = (0..d[1] as u32)
                .map(|k| match d[2] {
                    0 => (k, 0, 4),
                    1 => (k % 3, 4 * k, 4),
                    _ => (k, 0xFFFF_FFF0u32.wrapping_add(k), 32),
                })
                .collect();
            let b = build(&header(4000), counts(d[0]), &e, 132 + 12 * e.len() + 4);
            total(&b, w)
        },
        move |i| {
            let d = digits(i, &[154, 120, 3]);
            format!("count {}, {} entries present, pattern {}", counts(d[0]), d[1], d[2])
        },
    )
    .parity();
    let mut sections = vec![trunc, single, dates, ranges, count, halves, texts(), odd_paths(), dirs_total(t.pick(3, 4))];
    if t == Tier::Thorough {
        // all byte pairs over the structural bytes
        const AT: [usize; 24] = [0, 1, 2, 3, 24, 25, 26, 27, 28, 29, 30, 31, 128, 129, 130, 131, 136, 137, 138, 139, 140, 141, 142, 143];
        sections.push(Section::new(
            "every pair of structural bytes, every value",
            276 * 65536,
            |i, w| {
                let mut k = i / 65536;
                let (mut a, mut c) = (0, 1);
                while k > 0 {
                    k -= 1;
                    c += 1;
                    if c == 24 {
                        a += 1;
                        c = a + 1;
                    }
                }
                let mut b = base3();
                b[AT[a]] = (i >> 8) as u8;
                b[AT[c]] = i as u8;
                total(&b, w)
            },
            |i| format!("pair {}, values {:#x}", i / 65536, i % 65536),
        ));
    }
    sections.push(under_headers("a file under every header", total));
    sections.extend(coded(total));
    sections.push(large_entries(|_, _, p, w| total_path(p, w)));
    Check {
        id: "C10",
        level: "exploration",
        rule: "every file of the stated families opened, and the result counted, indexed, compared and printed; non-trivial: the open gave a profile whose accessors, comparison and printing were then exercised",
        assumptions: &["files outside the families are not explored", "a case that makes no progress for 20 s (and again alone) does not terminate"],
        sections,
    }
}

/// Every way four bytes can be text or fail to be, in all signature fields.
fn texts() -> Section {
    const B: [u8; 24] = [
        0, b'\n', b' ', b'"', b'a', b'\\', 0x7F, 0x80, 0x82, 0x90, 0x98, 0x9F, 0xA0, 0xAC, 0xBF, 0xC1, 0xC2, 0xC3, 0xE0, 0xE2,
        0xED, 0xEF, 0xF0, 0xF4,
    ];
    let n = B.len() as u64;
    let four = move |i: u64| digits(i, &[n; 4]).iter().map(|d| B[*d as usize]).collect::<Vec<_>>();
    Section::new(
        "signatures that are text, or nearly",
        n * n * n * n,
        move |i, w| {
            let s = four(i);
            let mut b = base3();
            for at in [4, 12, 16, 20, 40, 48, 52, 80, 132] {
                b[at..at + 4].copy_from_slice(&s);
            }
            total(&b, w)
        },
        move |i| format!("{} in all signature fields", hex(&four(i))),
    )
    .parity()
}
fn odd_paths() -> Section {
    Section::new(
        "unusual paths",
        14,
        |i, w| {
            let d = w.dir.clone();
            std::fs::write(d.join("ok.icc"), base3()).expect("scratch");
            std::fs::write(d.join("empty.icc"), []).expect("scratch");
            let _ = std::os::unix::fs::symlink("loop.icc", d.join("loop.icc"));
            let _ = std::os::unix::fs::symlink("ok.icc", d.join("link.icc"));
            let _ = std::os::unix::fs::symlink("missing.icc", d.join("dangling.icc"));
            let paths: Vec<PathBuf> = vec![
                d.clone(),
                d.join("ok.icc"),
                d.join("empty.icc"),
                d.join("loop.icc"),
                d.join("link.icc"),
                d.join("dangling.icc"),
                d.join("missing.icc"),
                d.join("ok.icc/below"),
                d.join("a\0b"),
                d.join("x".repeat(300)),
                d.join("x/".repeat(3000)),
                PathBuf::from(""),
                PathBuf::from("/dev/null"),
                d.join("\u{fffd}\u{1F600}.icc"),
            ];
            w.nt();
            let p = &paths[i as usize];
            total_path(p, w)?;
            // through the process-wide context as well
            let r = guarded(|| mcglue::open(p, false))?;
            w.obs(&r.is_ok());
            Ok(())
        },
        |i| format!("path number {i}"),
    )
}

/// All small directories, lookups included.
fn dirs_total(depth: u32) -> Section {
    let k = (SIGS.len() * RANGES.len()) as u64;
    Section::new(
        "every small directory",
        seqs(k, depth),
        move |i, w| {
            let b = dir_bytes(&small_dir(i, depth));
            total(&b, w)
        },
        move |i| show_dir(&small_dir(i, depth)),
    )
    .parity()
}

const SIGS: [u32; 3] = [0x6465_7363, 0x7774_7074, 0x6370_7274];
const RANGES: [(u32, u32); 6] = [(228, 20), (248, 20), (228, 32), (200, 100), (228, 0), (0, 300)];
const DIR_LEN: usize = 280;
fn small_dir(i: u64, depth: u32) -> Vec<Ent> {
    let mut v = vec![];
    seq(i, (SIGS.len() * RANGES.len()) as u64, depth, &mut v);
    v.iter()
        .map(|c| {
            let (s, r) = (SIGS[*c as usize % 3], RANGES[*c as usize / 3]);
            (s, r.0, r.1)
        })
        .collect()
}
fn dir_bytes(e: &[Ent]) -> Vec<u8> {
    build(&header(DIR_LEN as u32), e.len() as u32, e, DIR_LEN)
}
fn show_dir(e: &[Ent]) -> String {
    let v: Vec<String> = e
        .iter()
        .map(|e| format!("{}@{}+{}", String::from_utf8_lossy(&e.0.to_be_bytes()), e.1, e.2))
        .collect();
    format!("[{}]", v.join(", "))
}

// ---------------------------------------------------------------- C11

fn accept(b: &[u8], w: &mut W) -> R {
    bench(w, |f, w| {
        f.set(b);
        w.traces += 1;
        w.transitions += 1;
        let r = match open(&f.path) {
            Ok(r) => r,
            // an abort is C10's matter
            Err(p) if directory(b, b.len() as u64).is_none() || calendar(&b[24..36]).is_none() => {
                let _ = p;
                return Ok(());
            }
            Err(p) => return Err(p),
        };
        let magic = w32(&b[36..40]) == 0x6163_7370;
        w.obs(&r.is_ok());
        match r {
            Ok(_) if !magic => Err(format!("accepted with file signature {}", hex(&b[36..40]))),
            Ok(p) => {
                let v = p.verif_view();
                w.nt();
                w.obs(&view_nums(&v));
                check_fields(&v, b)
            }
            Err(e) if magic && directory(b, b.len() as u64).is_some() => {
                Err(format!("refused ({e}) although signature, header and directory are there"))
            }
            Err(_) => {
                w.nt();
                Ok(())
            }
        }
    })
}

/// The registered codes of a group, and nothing.
fn kinds(group: &str) -> Vec<[u8; 4]> {
    TABLE.iter().filter(|t| t.0 == group).map(|t| *t.3).chain([[0; 4]]).collect()
}
/// Values with a meaning for the header's words; the first keeps the word.
fn meaning(word: usize, k: u64) -> Option<[u8; 4]> {
    let n = |v: [u32; 7]| v.map(u32::to_be_bytes);
    let t = |v: [&[u8; 4]; 7]| v.map(|x| *x);
    let v: [[u8; 4]; 7] = match word {
        0 => n([0, 128, 132, 168, 220, 1 << 20, !0]),
        1 | 20 | 12 => t([&[0; 4], b"lcms", b"ADBE", b"appl", b"KCMS", b"UCCM", b"HP  "]),
        2 => n([0, 0x0200_0000, 0x0210_0000, 0x0240_0000, 0x0400_0000, 0x0430_0000, 0x0500_0000]),
        3 => t([b"scnr", b"mntr", b"prtr", b"link", b"spac", b"abst", b"nmcl"]),
        4 => t([b"RGB ", b"CMYK", b"GRAY", b"Lab ", b"XYZ ", b"YCbr", b"4CLR"]),
        5 => t([b"XYZ ", b"Lab ", b"RGB ", b"CMYK", b"GRAY", b"Luv ", &[0; 4]]),
        6 => n([0x07B2_0001, 0x076C_0001, 0x07D0_0002, 0x07E8_000C, 0x07F6_0001, 0x083A_0002, 0x07CE_000C]),
        7 => n([0x0001_0000, 0x0001_000C, 0x001C_0017, 0x000F_0006, 0x0002_0002, 0x0009_0009, 0x0014_0001]),
        8 => n([0, 0x003B_003B, 0x0001_0002, 0x0000_003B, 0x003B_0000, 0x001E_001E, 0x0006_0031]),
        9 => t([b"acsp", b"psca", b"ACSP", &[0; 4], b"acs ", b"acsq", &[0xFF; 4]]),
        10 => t([&[0; 4], b"APPL", b"MSFT", b"SGI ", b"SUNW", b"TGNT", b"*nix"]),
        11 => n([0, 1, 2, 3, 0x0001_0000, 0x8000_0000, !0]),
        13 => t([&[0; 4], b"sRGB", b"aRGB", b"none", b"mlf2", &[0xFF; 4], b"ROMM"]),
        14 | 15 => n([0, 1, 2, 4, 8, 15, !0]),
        16 => n([0, 1, 2, 3, 4, 0x0001_0000, !0]),
        17 => n([0, 0x0000_F6D6, 0x0000_F6D5, 0x0000_F351, 0x0001_0000, 0x8000_0000, !0]),
        18 => n([0, 0x0001_0000, 0x0000_FFFF, 0x0001_0001, 1, 0x8000_0000, !0]),
        19 => n([0, 0x0000_D32D, 0x0000_D32B, 0x0001_16D8, 0x0001_0000, 0x8000_0000, !0]),
        21..=24 => n([0, 1, 0x2020_2020, 0x0102_0304, 0x6163_7370, 0x8000_0000, !0]),
        _ => n([0, 1, 0x2020_2020, 0x0001_0000, 0x6163_7370, 0x8000_0000, !0]),
    };
    v.get((k as usize).checked_sub(1)?).copied()
}
const PAIRS_OF_WORDS: u64 = 32 * 31 / 2 * 64;
pub const HEADS: u64 = 128 * 256 * 2 + PAIRS_OF_WORDS * 3;
/// Files with headers of every kind: each byte in all values, any two words with any of their meanings.
pub fn head(i: u64) -> Vec<u8> {
    if i < 128 * 256 * 2 {
        let mut b = [base0, base3][(i % 2) as usize]();
        b[(i / 512) as usize] = (i / 2) as u8;
        return b;
    }
    let i = i - 128 * 256 * 2;
    let mut b = [base0, base3, base100][(i % 3) as usize]();
    let d = digits(i / 3, &[8, 8, 32 * 31 / 2]);
    let (mut x, mut k) = (1, d[2]);
    while k >= x {
        k -= x;
        x += 1;
    }
    for (at, v) in [(x as usize, d[0]), (k as usize, d[1])] {
        if let Some(v) = meaning(at, v) {
            b[at * 4..at * 4 + 4].copy_from_slice(&v);
        }
    }
    b
}
pub const SMALL_DIRECTORIES: u64 = 1 + 18 + 18 * 18;
/// Files with a directory of up to two entries, inside and outside, sharing and not.
pub fn small_directory(i: u64) -> Vec<u8> {
    dir_bytes(&small_dir(i, 2))
}

pub fn c11(t: Tier) -> Check {
    let variants: fn() -> [Vec<u8>; 4] = || {
        let mut full = base100();
        full.extend([7; 40]);
        let mut ff = base3();
        for k in (0..128).filter(|k| !(24..40).contains(k)) {
            ff[k] = 0xFF;
        }
        [base3(), base0(), full, ff]
    };
    let single = Section::new(
        "every value of every header byte",
        256 * 128 * 4,
        move |i, w| {
            let d = digits(i, &[256, 128, 4]);
            let mut b = variants()[d[2] as usize].clone();
            b[d[1] as usize] = d[0] as u8;
            accept(&b, w)
        },
        |i| format!("(value, position, base) = {:?}", digits(i, &[256, 128, 4])),
    )
    .parity();
    let step = 1;
    let halves = Section::new(
        "every value of every 16-bit half of the header",
        64 * 65536 / step,
        move |i, w| {
            let i = i * step;
            let at = (i / 65536) as usize * 2;
            let mut b = base3();
            b[at..at + 2].copy_from_slice(&(i as u16).to_be_bytes());
            accept(&b, w)
        },
        move |i| format!("position {}, value {:#x}", i * step / 65536 * 2, i * step % 65536),
    )
    .parity();
    // two fields at once: every pair of bytes set to contrasting values
    let pairs = Section::new(
        "every pair of header bytes",
        128 * 128 * 9,
        |i, w| {
            let d = digits(i, &[128, 128, 9]);
            const V: [u8; 3] = [0, 0xFF, 0x6E];
            let mut b = base3();
            b[d[0] as usize] = V[d[2] as usize % 3];
            b[d[1] as usize] = V[d[2] as usize / 3];
            accept(&b, w)
        },
        |i| format!("(position, position, values) = {:?}", digits(i, &[128, 128, 9])),
    )
    .parity();
    // the file signature's neighbours: every one- and two-byte change of it
    let magic = Section::new(
        "file signature: every pair of its bytes, every value",
        6 * 65536,
        |i, w| {
            let (a, c) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][(i / 65536) as usize];
            let mut b = base0();
            b[36 + a] = (i >> 8) as u8;
            b[36 + c] = i as u8;
            accept(&b, w)
        },
        |i| format!("pair {}, values {:#x}", i / 65536, i % 65536),
    )
    .parity();
    // independence of what follows the header
    let after = Section::new(
        "every byte after the header",
        256 * 92,
        |i, w| {
            let d = digits(i, &[256, 92]);
            let mut b = base3();
            b[128 + d[1] as usize] = d[0] as u8;
            accept(&b, w)
        },
        |i| format!("(value, position) = {:?}", digits(i, &[256, 92])),
    )
    .parity();
    // signatures found elsewhere, reversed, shifted or in another case do not count
    let moved = Section::new(
        "file signature elsewhere",
        125 * 6,
        |i, w| {
            let d = digits(i, &[125, 6]);
            let mut b = base0();
            b[36..40].copy_from_slice(&[b"psca", b"ACSP", b"\0\0\0\0", b"acs ", b" acs", b"cspa"][d[1] as usize][..]);
            b[d[0] as usize..d[0] as usize + 4].copy_from_slice(&b32(0x6163_7370));
            accept(&b, w)
        },
        |i| format!("(position, what stands at its place) = {:?}", digits(i, &[125, 6])),
    )
    .parity();
    let words = Section::new(
        "file signature: every registered code and every word over 14 unusual bytes",
        words4() * 2,
        |i, w| {
            let mut b = if i % 2 == 0 { base0() } else { base3() };
            b[36..40].copy_from_slice(&word4(i / 2));
            accept(&b, w)
        },
        |i| format!("{}, base {}", hex(&word4(i / 2)), i % 2),
    )
    .parity();
    let codes = Section::new(
        "every registered code in every header word",
        TABLE.len() as u64 * 32,
        |i, w| {
            let mut b = base3();
            b[(i % 32) as usize * 4..][..4].copy_from_slice(TABLE[i as usize / 32].3);
            accept(&b, w)
        },
        |i| format!("{} at {}", TABLE[i as usize / 32].1, i % 32 * 4),
    )
    .parity();
    // class, colour space, connection space and platform together
    let (classes, spaces): (Vec<[u8; 4]>, Vec<[u8; 4]>) = (
        TABLE.iter().filter(|t| t.0 == "profile_class").map(|t| *t.3).chain([[0; 4]]).collect(),
        TABLE.iter().filter(|t| t.0 == "color_space").map(|t| *t.3).chain([[0; 4]]).collect(),
    );
    let (nc, ns) = (classes.len() as u64, spaces.len() as u64);
    let triples = Section::new(
        "every class with every pair of colour spaces, major versions and intents",
        nc * ns * ns * 6,
        move |i, w| {
            let d = digits(i, &[nc, ns, ns, 6]);
            let mut b = base0();
            b[12..16].copy_from_slice(&classes[d[0] as usize]);
            b[16..20].copy_from_slice(&spaces[d[1] as usize]);
            b[20..24].copy_from_slice(&spaces[d[2] as usize]);
            b[8] = [0, 2, 4, 5, 4, 2][d[3] as usize];
            b[67] = d[3] as u8;
            accept(&b, w)
        },
        move |i| format!("(class, space, connection space, version and intent) = {:?}", digits(i, &[nc, ns, ns, 6])),
    )
    .parity();
    let (classes, spaces) = (kinds("profile_class"), kinds("color_space"));
    let (nc, ns) = (classes.len() as u64, spaces.len() as u64);
    let radix = [7u64, 28, 4, ns, nc];
    let with_word = Section::new(
        "every class, colour space and connection space with any other word",
        radix.iter().product(),
        move |i, w| {
            let d = digits(i, &radix);
            let mut b = [base0, base3][(i % 2) as usize]();
            b[12..16].copy_from_slice(&classes[d[4] as usize]);
            b[16..20].copy_from_slice(&spaces[d[3] as usize]);
            b[20..24].copy_from_slice(&[*b"XYZ ", *b"Lab ", spaces[d[3] as usize], [0; 4]][d[2] as usize]);
            let at = [0, 1, 2, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31][d[1] as usize];
            if let Some(v) = meaning(at, 1 + d[0]) {
                b[at * 4..at * 4 + 4].copy_from_slice(&v);
            }
            accept(&b, w)
        },
        move |i| format!("(value, word, connection space, space, class) = {:?}", digits(i, &radix)),
    )
    .parity();
    let mut three = vec![];
    for a in 0..32 {
        for b in 0..a {
            for c in 0..b {
                three.push([a, b, c]);
            }
        }
    }
    let n3 = three.len() as u64;
    let three2 = three.clone();
    let any_three = Section::new(
        "any three words, each of any of its meanings",
        n3 * 343,
        move |i, w| {
            let d = digits(i, &[7, 7, 7, n3]);
            // one of few tags, the long one rarely
            let mut b = match i % 16 {
                0 => base100(),
                k if k % 2 == 0 => base0(),
                _ => base3(),
            };
            for (at, v) in three[d[3] as usize].iter().zip(d) {
                if let Some(v) = meaning(*at, 1 + v) {
                    b[at * 4..at * 4 + 4].copy_from_slice(&v);
                }
            }
            accept(&b, w)
        },
        move |i| {
            let d = digits(i, &[7, 7, 7, n3]);
            format!("words {:?}, meanings {:?}", three2[d[3] as usize], &d[..3])
        },
    );
    let mut sections = vec![single, after, magic, moved, words, codes, triples, with_word, any_three, pairs, halves];
    if t == Tier::Thorough {
        sections.push(Section::new(
            "every pair of adjacent bytes straddling a half-word",
            63 * 65536,
            |i, w| {
                let at = (i / 65536) as usize * 2 + 1;
                let mut b = base3();
                b[at..at + 2].copy_from_slice(&(i as u16).to_be_bytes());
                accept(&b, w)
            },
            |i| format!("position {}, value {:#x}", i / 65536 * 2 + 1, i % 65536),
        ));
    }
    Check {
        id: "C11",
        level: "exploration",
        rule: "every header of the stated families written to a file and opened; non-trivial: the open's outcome was decided and, for a profile, all fields compared with the bytes at their ICC positions",
        assumptions: &["header contents outside the families (three or more bytes varied at once) are not enumerated; fields are moved as whole bytes"],
        sections,
    }
}

// ---------------------------------------------------------------- headers and codes for C10, C12, C13

/// Headers to vary: nothing blank, nothing but the signature, ordinary ones of several kinds, everything set.
fn header_base(k: u64, declared: u32) -> [u8; 128] {
    let mut h = [0u8; 128];
    let mut put = |at: usize, b: &[u8]| h[at..at + b.len()].copy_from_slice(b);
    let plain = |put: &mut dyn FnMut(usize, &[u8]), version: u32, class: &[u8; 4], space: &[u8; 4], pcs: &[u8; 4], flags: u32| {
        put(4, b"lcms");
        put(8, &b32(version));
        put(12, class);
        put(16, space);
        put(20, pcs);
        for (i, v) in [1998u16, 2, 9, 6, 49, 0].iter().enumerate() {
            put(24 + 2 * i, &b16(*v));
        }
        put(40, b"MSFT");
        put(44, &b32(flags));
        put(68, &b32(0x0000_F6D6));
        put(72, &b32(0x0001_0000));
        put(76, &b32(0x0000_D32D));
    };
    match k {
        0 => return header(declared),
        1 => {}
        2 => plain(&mut put, 0x0210_0000, b"mntr", b"RGB ", b"XYZ ", 0),
        3 => plain(&mut put, 0x0420_0000, b"prtr", b"CMYK", b"Lab ", 1),
        4 => plain(&mut put, 0x0440_0000, b"link", b"RGB ", b"CMYK", 0),
        5 => plain(&mut put, 0x0430_0000, b"nmcl", b"RGB ", b"Lab ", 3),
        _ => put(0, &[0xFF; 128]),
    }
    put(0, &b32(declared));
    put(36, b"acsp");
    h
}
const HEADERS: u64 = 7 * 124 * 256 + 128 * 128 * 9 + TABLE.len() as u64 * 32;
/// Each byte of each of them in all values, every pair of bytes contrasting, every registered code in every word.
fn header_case(i: u64, declared: u32) -> [u8; 128] {
    let keep = header_base(0, declared);
    let mut h;
    let (a, b) = (7 * 124 * 256, 128 * 128 * 9);
    if i < a {
        let d = digits(i, &[256, 124, 7]);
        h = header_base(d[2], declared);
        h[4 + d[1] as usize] = d[0] as u8;
    } else if i < a + b {
        const V: [u8; 3] = [0, 0xFF, 0x02];
        let d = digits(i - a, &[128, 128, 9]);
        h = header_base(2 + d[0] % 3, declared);
        h[d[0] as usize] = V[d[2] as usize % 3];
        h[d[1] as usize] = V[d[2] as usize / 3];
    } else {
        let i = i - a - b;
        h = header_base(i % 32 % 6, declared);
        h[(i % 32) as usize * 4..][..4].copy_from_slice(TABLE[i as usize / 32].3);
    }
    h[..4].copy_from_slice(&keep[..4]);
    h[36..40].copy_from_slice(&keep[36..40]);
    h
}
/// Entries at every limit, sharing and not sharing.
const MIXED: [Ent; 9] = [
    (0x6465_7363, 240, 20), (0x4132_4230, 260, 40), (0x7274_5243, 240, 20), (0x6774_5243, 260, 41), (0x7774_7074, 300, 0), (0x6354_5243, 0, 300),
    (0x6274_5243, 260, 40), (0x6370_7274, 128, 172), (0x6C75_6D69, 1, 300),
];
fn under_headers(name: &'static str, judge: fn(&[u8], &mut W) -> R) -> Section {
    Section::new(
        name,
        HEADERS,
        move |i, w| judge(&build(&header_case(i, 300), 9, &MIXED, 300), w),
        |i| format!("header {}", hex(&header_case(i, 300))),
    )
    .parity()
}
/// What the tags' data may look like.
fn contents(k: u64, len: usize) -> Vec<u8> {
    let word: Vec<u8> = match k {
        0 => vec![0],
        1 => vec![0xFF],
        2 => b"acsp".to_vec(),
        k => [&TABLE[(k - 3) as usize % TABLE.len()].3[..], &[0; 4], &[0, 0, 0, 1]].concat(),
    };
    (0..len).map(|j| word[j % word.len()]).collect()
}
const CONTENTS: u64 = 3 + TABLE.len() as u64;
/// A code (registered, or over unusual bytes) as signature.
fn code(i: u64) -> u32 {
    u32::from_be_bytes(word4(i))
}
/// Registered and unusual codes as signatures, alone and two together, under several headers; sizes and offsets of each; contents.
fn coded(judge: fn(&[u8], &mut W) -> R) -> Vec<Section> {
    let t = TABLE.len() as u64;
    vec![
        Section::new(
            "every registered code and unusual word as a signature",
            words4() * 3,
            move |i, w| {
                let (s, k) = (code(i / 3), i % 3);
                let mut e = [(0x6465_7363, 204, 20), (0x7274_5243, 224, 36), (0x7274_5244, 180, 24), (0x6350_7274, 204, 20)];
                e[[0, 1, 3][k as usize]].0 = s;
                judge(&build(&header_base(i % 7, 260), 4, &e, 260), w)
            },
            |i| format!("{:#010x} at {}", code(i / 3), i % 3),
        )
        .parity(),
        Section::new(
            "every two registered codes, sharing data or not",
            t * t * 4,
            move |i, w| {
                let d = digits(i, &[t, t, 4]);
                let (a, b) = (u32::from_be_bytes(*TABLE[d[0] as usize].3), u32::from_be_bytes(*TABLE[d[1] as usize].3));
                let e = match d[2] {
                    0 => vec![(a, 168, 20), (b, 168, 20)],
                    1 => vec![(a, 168, 20), (b, 188, 12), (0x7874_7874, 168, 20)],
                    2 => vec![(0x7874_7874, 168, 20), (a, 168, 20), (b, 168, 20)],
                    _ => vec![(a, 200, 1), (b, 168, 32), (0x7874_7874, 168, 32)],
                };
                judge(&build(&header_base((d[0] + d[1]) % 7, 200), e.len() as u32, &e, 200), w)
            },
            move |i| {
                let d = digits(i, &[t, t, 4]);
                format!("{} and {}, pattern {}", TABLE[d[0] as usize].1, TABLE[d[1] as usize].1, d[2])
            },
        )
        .parity(),
        {
            let (classes, spaces, tags) = (kinds("profile_class"), kinds("color_space"), kinds("tag"));
            let radix = [3u64, classes.len() as u64, spaces.len() as u64, tags.len() as u64];
            Section::new(
                "every class, colour space and tag",
                radix.iter().product(),
                move |i, w| {
                    let d = digits(i, &radix);
                    let mut h = header_base(2 + i % 5 % 4, 260);
                    h[12..16].copy_from_slice(&classes[d[1] as usize]);
                    h[16..20].copy_from_slice(&spaces[d[2] as usize]);
                    let s = u32::from_be_bytes(tags[d[3] as usize]);
                    let e = [
                        vec![(s, 204, 20)],
                        vec![(0x7774_7074, 180, 24), (s, 204, 56), (0x7478_7478, 204, 56)],
                        vec![(0x6465_7363, 200, 1), (0x7774_7074, 261, 4), (s, 204, 30), (s ^ 1, 204, 30)],
                    ];
                    let e = &e[d[0] as usize];
                    judge(&build(&h, e.len() as u32, e, 260), w)
                },
                move |i| format!("(pattern, class, space, tag) = {:?}", digits(i, &radix)),
            )
            .parity()
        },
        Section::new(
            "every registered code with every small size and alignment",
            t * 72 * 4,
            move |i, w| {
                let d = digits(i, &[t, 72, 4]);
                let s = u32::from_be_bytes(*TABLE[d[0] as usize].3);
                let e = [(s, 240 - d[2] as u32 - d[1] as u32, d[1] as u32), (0x7874_7874, 240 - d[2] as u32 - d[1] as u32, d[1] as u32), (s ^ 1, 240 - d[1] as u32 + d[2] as u32, d[1] as u32)];
                judge(&build(&header_base(d[1] % 7, 240), 3, &e, 240), w)
            },
            move |i| {
                let d = digits(i, &[t, 72, 4]);
                format!("{}, {} bytes, {} from the end", TABLE[d[0] as usize].1, d[1], d[2])
            },
        )
        .parity(),
        Section::new(
            "contents of the tags",
            CONTENTS * 7 * 7,
            move |i, w| {
                let d = digits(i, &[CONTENTS, 7, 7]);
                let mut b = build(&header_base(d[1], 300), 9, &MIXED, 240);
                b.extend(contents(d[0], 60));
                b.truncate(300);
                // an equal stretch elsewhere is not shared data
                let e = [(0x7478_7430, 240, 12), (0x7478_7431, 252, 12), (0x7478_7432, 264, 12), (0x7478_7433, 240, 24)];
                if d[2] > 0 {
                    let x = build(&header_base(d[1], 300), 4, &e, 180);
                    b[..180].copy_from_slice(&x);
                    b.truncate([300, 263, 276, 288, 264, 275][d[2] as usize - 1]);
                }
                judge(&b, w)
            },
            |i| format!("(contents, header, directory and length) = {:?}", digits(i, &[CONTENTS, 7, 7])),
        )
        .parity(),
    ]
}

/// Entries of every order of magnitude in files long enough to hold them (sparse), at every place of the directory.
fn large_entries(judge: fn(&[u8], u64, &Path, &mut W) -> R) -> Section {
    const N: [u32; 7] = [1, 2, 3, 50, 64, 99, 100];
    let radix = [4u64, 3, 33, 5, 7, 2];
    let dec = move |i: u64| {
        let d = digits(i, &radix);
        let (n, dir) = (N[d[4] as usize], 132 + 12 * N[d[4] as usize]);
        let size = ((1u64 << d[2]) + d[1]).saturating_sub(1);
        let len = (size + [dir as u64, 4000, 1 << 20, 1 << 31][d[0] as usize]).min(u32::MAX as u64);
        let size = size.min(len) as u32;
        let at = |k: u32| d[3] == 4 || k == [0, n / 2, n - 1, n.saturating_sub(2)][d[3] as usize % 4];
        let e: Vec<Ent> = (0..n)
            .map(|k| if at(k) { (0x5400_0000 + k, (len as u32 - size).saturating_add(k % 2 * d[5] as u32), size) } else { (0x5400_0000 + k, 4 * (k % 31), 8) })
            .collect();
        (e, len)
    };
    Section::new(
        "entries of every order of magnitude in long files",
        radix.iter().product(),
        move |i, w| {
            let (e, len) = dec(i);
            let b = build(&header(len as u32), e.len() as u32, &e, 132 + 12 * e.len());
            let path = w.dir.join("long.icc");
            let mut f = w.take("long", |_| Bench::new(path.clone()));
            f.set(&b);
            let actual = len.max(b.len() as u64);
            f.set_len(actual);
            let r = judge(&b, actual, &path, w);
            w.put("long", f);
            r
        },
        move |i| {
            let d = digits(i, &radix);
            format!("(length beyond it, off by, log2 of the size, place, number of entries, odd ones one byte outside) = {d:?}")
        },
    )
    .parity()
}

// ---------------------------------------------------------------- C12

fn check_dir(b: &[u8], actual: u64, path: &Path, w: &mut W) -> R {
    w.traces += 1;
    w.transitions += 1;
    let r = open(path)?;
    let want = directory(b, actual);
    w.obs(&r.is_ok());
    match (r, want) {
        (Err(_), None) => {
            w.nt();
            Ok(())
        }
        (Err(e), Some(_)) => Err(format!("refused ({e}) although the directory is complete")),
        (Ok(_), None) => Err("accepted although the directory is too long or cut short".into()),
        (Ok(p), Some(want)) => {
            w.nt();
            let v = p.verif_view();
            let got: Vec<Ent> = v.tags.iter().map(|t| (u32::from(t.0), t.1 as u32, t.2 as u32)).collect();
            w.obs(&got);
            if got != want || v.tags.iter().any(|t| t.1 > u32::MAX as usize || t.2 > u32::MAX as usize) {
                return Err(format!("directory {} instead of {}", show_dir(&got), show_dir(&want)));
            }
            if p.get_tag_count() != want.len() {
                return Err(format!("tag count {} instead of {}", p.get_tag_count(), want.len()));
            }
            for k in (0..=101).chain([127, 128, 255, 256, 257, 1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX - 1, usize::MAX]) {
                let s = guarded(|| u32::from(p.get_tag_signature(k))).map_err(|e| format!("tag at {k}: {e}"))?;
                let x = want.get(k).map_or(0x2020_2020, |e| e.0);
                if s != x {
                    return Err(format!("tag at {k} is {s:#x} instead of {x:#x}"));
                }
            }
            w.transitions += 113;
            w.state(hash_of(&want));
            Ok(())
        }
    }
}
fn dir_case(b: &[u8], w: &mut W) -> R {
    bench(w, |f, w| {
        f.set(b);
        check_dir(b, b.len() as u64, &f.path, w)
    })
}

pub fn c12(t: Tier) -> Check {
    let n = U32S.len() as u64;
    let limits = Section::new(
        "offset, size and declared size at their limits",
        n * n * n * 2,
        move |i, w| {
            let d = digits(i, &[n, n, n, 2]);
            let u = |k: usize| U32S[d[k] as usize];
            dir_case(
                &build(&header(u(2)), 3, &[(1, 132, 0), (2, u(0), u(1)), (3, 0, 4)], [168, 220][d[3] as usize]),
                w,
            )
        },
        move |i| {
            let d = digits(i, &[n, n, n, 2]);
            format!("offset {:#x}, size {:#x}, declared {:#x}, length {}", U32S[d[0] as usize], U32S[d[1] as usize], U32S[d[2] as usize], [168, 220][d[3] as usize])
        },
    )
    .parity();
    let dense = Section::new(
        "every offset and size around a small file",
        220 * 220 * 7,
        |i, w| {
            let d = digits(i, &[220, 220, 7]);
            let decl = [0u32, 144, 150, 199, 200, 201, u32::MAX][d[2] as usize];
            dir_case(&build(&header(decl), 1, &[(77, d[0] as u32, d[1] as u32)], 200), w)
        },
        |i| format!("(offset, size, declared index) = {:?}", digits(i, &[220, 220, 7])),
    )
    .parity();
    let wrap = Section::new(
        "sums around 2^32",
        256 * 256 * 3,
        |i, w| {
            let d = digits(i, &[256, 256, 3]);
            let (o, s) = (0xFFFF_FF80u32.wrapping_add(d[0] as u32), d[1] as u32);
            let (o, s) = if d[2] == 1 { (s, o) } else { (o, s) };
            dir_case(&build(&header(if d[2] == 2 { u32::MAX } else { 220 }), 1, &[(77, o, s)], 220), w)
        },
        |i| format!("{:?}", digits(i, &[256, 256, 3])),
    )
    .parity();
    let counts = |i: u64| -> u32 {
        let v: Vec<u32> = (0..=130)
            .chain([255, 256, 257, 356, 1000, 65536, 65537, 0x0155_5555, 0x1555_5556, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FF9C, 0xFFFF_FFFF])
            .collect();
        v[i as usize]
    };
    let count = Section::new(
        "declared counts against present bytes",
        145 * 134 * 3,
        move |i, w| {
            let d = digits(i, &[145, 134, 3]);
            let e: Vec<Ent> = (0..d[1] as u32).map(|k| (0x5400_0000 + k, 4 * k, 4 + k % 2)).collect();
            let end = 132 + 12 * e.len();
            // whole entries, one byte short of the last, or half an entry more
            let len = [end, end.saturating_sub(1), end + 6][d[2] as usize];
            dir_case(&build(&header(100_000), counts(d[0]), &e, len), w)
        },
        move |i| {
            let d = digits(i, &[145, 134, 3]);
            format!("count {}, {} entries, tail variant {}", counts(d[0]), d[1], d[2])
        },
    )
    .parity();
    let trunc = Section::new(
        "every truncation of a full directory",
        1733,
        |i, w| {
            let b = base100();
            dir_case(&b[..i as usize], w)
        },
        |i| format!("{i} bytes"),
    )
    .parity();
    let bits = t.pick(12u32, 16);
    let pattern = Section::new(
        "every pattern of entries inside and outside",
        1 << bits,
        move |i, w| {
            let e: Vec<Ent> = (0..bits)
                .map(|k| (0x5400_0000 + k, 10 * k, if i >> k & 1 == 1 { 4 } else { 3000 }))
                .collect();
            dir_case(&build(&header(2000), bits, &e, 1000), w)
        },
        |i| format!("{i:#b}"),
    )
    .parity();
    // patterns that repeat over a full directory
    let periods = Section::new(
        "repeating patterns over 90 to 100 entries",
        11 * 256,
        |i, w| {
            let (n, pat) = (90 + i / 256, i % 256);
            let e: Vec<Ent> = (0..n as u32)
                .map(|k| (0x5400_0000 + k * 3, k, if pat >> (k % 8) & 1 == 1 { 9 } else { (u32::MAX - k).wrapping_add(1) }))
                .collect();
            dir_case(&build(&header(1400), n as u32, &e, 1400), w)
        },
        |i| format!("{} entries, pattern {:#x}", 90 + i / 256, i % 256),
    )
    .parity();
    let depth = t.pick(3u32, 4);
    let small = Section::new(
        "every small directory",
        seqs(18, depth),
        move |i, w| dir_case(&dir_bytes(&small_dir(i, depth)), w),
        move |i| show_dir(&small_dir(i, depth)),
    )
    .parity();
    let bytes = Section::new(
        "every value of every directory byte",
        256 * 40,
        |i, w| {
            let mut b = base3();
            b[128 + (i / 256) as usize] = i as u8;
            dir_case(&b, w)
        },
        |i| format!("position {}, value {:#x}", 128 + i / 256, i % 256),
    )
    .parity();
    // a file longer than 4 GiB (sparse)
    let huge = Section::new(
        "files longer than 4 GiB",
        4 * n * n,
        move |i, w| {
            let d = digits(i, &[n, n, 4]);
            let b = build(
                &header([u32::MAX, 0x8000_0000, 300, u32::MAX - 1][d[2] as usize]),
                1,
                &[(5, U32S[d[0] as usize], U32S[d[1] as usize])],
                200,
            );
            let len = (1u64 << 32) + [0u64, 5, 200, 1 << 20][d[2] as usize];
            let path = w.dir.join("huge.icc");
            let mut f = w.take("huge", |_| Bench::new(path.clone()));
            f.set(&b);
            f.set_len(len);
            let r = check_dir(&b, len, &path, w);
            w.put("huge", f);
            r
        },
        move |i| format!("{:?}", digits(i, &[n, n, 4])),
    );
    let mut sections = vec![limits, dense, wrap, count, trunc, pattern, periods, small, bytes, huge, under_headers("a directory under every header", dir_case)];
    sections.extend(coded(dir_case));
    sections.push(large_entries(check_dir));
    Check {
        id: "C12",
        level: "exploration",
        rule: "every directory of the stated families written to a file and opened; non-trivial: the outcome was decided against 64-bit arithmetic and the list, count and index accessors compared",
        assumptions: &["directories outside the families are not explored"],
        sections,
    }
}

// ---------------------------------------------------------------- C13

fn check_links(b: &[u8], w: &mut W) -> R {
    bench(w, |f, w| {
        f.set(b);
        links_at(&f.path, w)
    })
}
fn links_at(path: &Path, w: &mut W) -> R {
    w.traces += 1;
    w.transitions += 1;
    let Ok(Ok(p)) = open(path) else {
        return Err("the profile did not open".into());
    };
    w.nt();
    let v = p.verif_view();
    let tags = &v.tags;
    w.obs(&view_hash(&v));
    for i in 0..tags.len() {
        let same: Vec<usize> = (0..i).filter(|j| tags[*j].1 == tags[i].1 && tags[*j].2 == tags[i].2).collect();
        match tags[i].3 {
            None if !same.is_empty() => {
                return Err(format!("entry {i} describes the same range as entry {} and is not linked", same[0]))
            }
            Some(s) if !same.iter().any(|j| tags[*j].0 == s) => {
                return Err(format!("entry {i} is linked to {s:?}, which is no earlier entry with its range"))
            }
            _ => {}
        }
    }
    let sigs: Vec<u32> = tags.iter().map(|t| u32::from(t.0)).collect();
    let mut sorted = sigs.clone();
    sorted.sort_unstable();
    sorted.dedup();
    let distinct = sorted.len() == sigs.len();
    w.state(hash_of(&(sigs.len(), distinct, tags.iter().map(|t| t.3.is_some()).collect::<Vec<_>>())));
    let mut ask = sorted;
    ask.extend(SIGS);
    ask.extend([0, 0x2020_2020, 0x6465_7364]);
    for s in ask {
        for follow in [false, true] {
            w.transitions += 1;
            let g = guarded(|| p.verif_search_tag(Signature::from(s), follow)).map_err(|e| format!("looking up {s:#x}: {e}"))?;
            w.obs(&g);
            let first = sigs.iter().position(|x| *x == s);
            match (first, g) {
                (None, None) => {}
                (None, Some(g)) => return Err(format!("looking up absent {s:#x} found entry {g}")),
                (Some(_), None) => return Err(format!("looking up {s:#x} found nothing")),
                (Some(i), Some(g)) => {
                    if g >= tags.len() {
                        return Err(format!("looking up {s:#x} gave entry {g} of {}", tags.len()));
                    }
                    if !follow && sigs[g] != s {
                        return Err(format!("looking up {s:#x} without links gave entry {g} ({:#x})", sigs[g]));
                    }
                    if follow && distinct && (tags[g].3.is_some() || (tags[g].1, tags[g].2) != (tags[i].1, tags[i].2)) {
                        return Err(format!("looking up {s:#x} ends at entry {g}, which is linked or describes another range"));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c13(t: Tier) -> Check {
    let depth = t.pick(4u32, 5);
    let small = Section::new(
        "every small directory",
        seqs(18, depth),
        move |i, w| check_links(&dir_bytes(&small_dir(i, depth)), w),
        move |i| show_dir(&small_dir(i, depth)),
    )
    .parity();
    // distinct signatures: every way to share ranges among 6 (7) entries
    let n = t.pick(6u32, 8);
    let part = Section::new(
        "distinct signatures, every assignment of ranges",
        4u64.pow(n),
        move |i, w| {
            let e: Vec<Ent> = (0..n)
                .map(|k| {
                    let r = [(300, 8), (308, 8), (300, 16), (2000, 8)][(i >> (2 * k) & 3) as usize];
                    (0x5400_0000 + (k * 7) % 11, r.0, r.1)
                })
                .collect();
            check_links(&build(&header(400), n, &e, 400), w)
        },
        |i| format!("ranges {i:#o} (base 4 digits)"),
    )
    .parity();
    // two entries far apart share a range
    let far = Section::new(
        "any two of 100 entries sharing a range",
        100 * 100 * 3,
        |i, w| {
            let d = digits(i, &[100, 100, 3]);
            let mut e: Vec<Ent> = (0..100).map(|k| (0x5400_0000 + k, 4 * k, 4)).collect();
            let (a, b) = (d[0] as usize, d[1] as usize);
            match d[2] {
                0 => e[b] = (e[b].0, e[a].1, e[a].2),
                1 => e[b] = e[a],
                _ => e[b] = (e[a].0, e[b].1, e[b].2),
            }
            check_links(&build(&header(1700), 100, &e, 1700), w)
        },
        |i| format!("(entry, entry, same range / same entry / same signature) = {:?}", digits(i, &[100, 100, 3])),
    )
    .parity();
    let many = Section::new(
        "many entries on few ranges",
        101 * 12,
        |i, w| {
            let (n, k) = (i / 12, i % 12 + 1);
            let e: Vec<Ent> = (0..n as u32)
                .map(|j| (0x5400_0000 + if k > 6 { j % 5 } else { j }, 4 * (j % k as u32), 4))
                .collect();
            check_links(&build(&header(1700), n as u32, &e, 1700), w)
        },
        |i| format!("{} entries on {} ranges", i / 12, i % 12 + 1),
    )
    .parity();
    let mut sections = vec![small, part, many, far, under_headers("links under every header", check_links)];
    sections.extend(coded(check_links));
    sections.push(large_entries(|_, _, p, w| links_at(p, w)));
    Check {
        id: "C13",
        level: "model_checking",
        rule: "every directory of the stated families; non-trivial: the profile opened, every entry's link was compared with the specification and every signature looked up with and without following links",
        assumptions: &["directories outside the families are not explored", "a lookup that makes no progress for 20 s (and again alone) does not terminate"],
        sections,
    }
}

// ---------------------------------------------------------------- C29

fn variants29() -> Vec<(String, Vec<u8>, bool)> {
    let mut v = vec![("base".to_string(), base3(), false), ("base again".to_string(), base3(), false)];
    // every header byte changed alone, two ways
    for at in (0..128).filter(|k| !(36..40).contains(k)) {
        for x in [0x01u8, 0x80] {
            let mut b = base3();
            b[at] ^= x;
            if calendar(&b[24..36]).is_some() {
                v.push((format!("byte {at} ^ {x:#x}"), b, false));
            }
        }
    }
    for (k, val) in [(0usize, 2020u16), (1, 11), (2, 29), (3, 22), (4, 57), (5, 56)] {
        let mut b = base3();
        b[24 + 2 * k..26 + 2 * k].copy_from_slice(&b16(val));
        v.push((format!("date field {k}"), b, false));
    }
    for at in 132..168 {
        for x in [0x01u8, 0x04] {
            let mut b = base3();
            b[at] ^= x;
            v.push((format!("directory byte {at} ^ {x:#x}"), b, false));
        }
    }
    for n in 0..3 {
        let mut b = base3();
        b[128..132].copy_from_slice(&b32(n));
        v.push((format!("{n} entries"), b, false));
    }
    let e = |a: u32, b: u32| [(sig4(b"desc"), 168, 20), (sig4(b"wtpt"), 188, 32), (a, b, 20)];
    v.push(("third entry unlinked".into(), build(&header(220), 3, &e(sig4(b"cprt"), 169), 220), false));
    v.push(("third entry renamed".into(), build(&header(220), 3, &e(sig4(b"chad"), 168), 220), false));
    let mut sw = e(sig4(b"cprt"), 168);
    sw.swap(0, 2);
    v.push(("entries swapped".into(), build(&header(220), 3, &sw, 220), false));
    let mut full = base100();
    v.push(("100 entries".into(), full.clone(), false));
    for k in 0..100 {
        let mut b = full.clone();
        b[132 + 12 * k + 3] ^= 0x40;
        v.push((format!("100 entries, signature {k} changed"), b, false));
        let mut b = full.clone();
        b[132 + 12 * k + 7] ^= 1;
        v.push((format!("100 entries, offset {k} changed"), b, false));
        let mut b = full.clone();
        b[132 + 12 * k + 11] ^= 1;
        v.push((format!("100 entries, size {k} changed"), b, false));
    }
    full[128..132].copy_from_slice(&b32(99));
    v.push(("99 of the entries".into(), full, false));
    v.push(("longer file".into(), { let mut b = base3(); b.extend([1, 2, 3]); b }, false));
    v.push(("other tag data".into(), { let mut b = base3(); b[200] ^= 0xFF; b }, false));
    v.push(("write mode".into(), vec![], true));
    v
}

pub fn c29(_t: Tier) -> Check {
    let all = variants29();
    let n = all.len() as u64;
    let all = std::sync::Arc::new(all);
    let all2 = all.clone();
    let pairs = Section::new(
        "every pair of variants",
        n * n,
        move |i, w| {
            let (a, b) = ((i / n) as usize, (i % n) as usize);
            let opened = w.take("opened", |w| {
                let mut v = vec![];
                for (k, x) in all.iter().enumerate() {
                    let p = w.dir.join(format!("v{k}"));
                    std::fs::write(&p, &x.1).expect("scratch");
                    v.push(guarded(|| mcglue::open_thr(&mut Context::new(None), &p, x.2)).ok().and_then(|r| r.ok()));
                }
                v
            });
            let r = (|| {
                let (Some(x), Some(y)) = (&opened[a], &opened[b]) else {
                    return Ok(());
                };
                w.nt();
                w.traces += 1;
                w.transitions += 1;
                let (vx, vy) = (x.verif_view(), y.verif_view());
                let id = unsafe { vx.profile_id.id8 == vy.profile_id.id8 };
                let want = id
                    && view_nums(&vx) == view_nums(&vy)
                    && vx.tags == vy.tags
                    && vx.is_write == vy.is_write
                    && vx.created == vy.created;
                let got = guarded(|| (**x == **y, **y == **x, **x != **y))?;
                w.obs(&got);
                w.state(hash_of(&(view_hash(&vx), view_hash(&vy))));
                if got != (want, want, !want) {
                    return Err(format!("(a == b, b == a, a != b) is {got:?}, everything they hold is {}", if want { "equal" } else { "not equal" }));
                }
                Ok(())
            })();
            w.put("opened", opened);
            r
        },
        move |i| format!("{} / {}", all2[(i / n) as usize].0, all2[(i % n) as usize].0),
    );
    Check {
        id: "C29",
        level: "exploration",
        rule: "every pair of a family of profiles that differ from a base in one header byte, date field, directory entry, count or mode; non-trivial: both opened and both orders of comparison were decided",
        assumptions: &["the creation time of a write-mode profile is the time it was opened, so it differs from any other"],
        sections: vec![pairs],
    }
}
