//! Concrete instantiations of the generic entry points of lcms2, so that the instrumented build
//! (scheduling points at every basic block) covers them as well.
use lcms2::{
    io::{AccessMode, FileMem, FileNull, IOHandler},
    plugins::{ParametricCurvesCollection, Plugin, PluginType},
    state::Context,
    types::{signatures::plugin_type, verif, DateTimeNumber, Profile, Signature, CIEXYZ},
};
use std::{fs::File, io, io::SeekFrom, path::Path, sync::Arc};

#[inline(never)]
pub fn open(path: &Path, write: bool) -> io::Result<Box<Profile>> {
    Profile::open_from_file(
        path,
        if write { AccessMode::Write } else { AccessMode::Read },
    )
}

#[inline(never)]
pub fn open_thr(ctx: &mut Context, path: &Path, write: bool) -> io::Result<Box<Profile>> {
    Profile::open_from_file_thr(
        ctx,
        path,
        if write { AccessMode::Write } else { AccessMode::Read },
    )
}

#[inline(never)]
pub fn new_context(data: Option<Box<[u8]>>) -> Context {
    Context::new(data)
}

pub const WORKS: [&str; 13] = [
    "memory stream", "null device", "disk file", "forward curves", "reverse curves", "dates", "signatures", "contexts", "records",
    "profiles", "fixed-point numbers", "every forward curve", "every reverse curve",
];

/// What every stream is asked.
fn stream(f: &mut dyn IOHandler, v: u64, out: &mut Vec<u64>) -> io::Result<()> {
    let b = 0x0102_0304_0506_0708 * (v + 1);
    f.write_u16(b as u16)?;
    f.write_u64(b)?;
    f.write_u16_array(&[7 + v as u16, 9])?;
    f.write_u32(!b as u32)?;
    f.seek(SeekFrom::Start(2))?;
    out.push(f.read_u64()?);
    let mut a = [0; 2];
    f.read_u16_array(&mut a)?;
    out.extend(a.map(u64::from));
    out.push(f.reported_size()? as u64);
    out.push(f.tell()? as u64);
    out.push(f.read_u32()? as u64);
    out.push(f.read_u8().is_err() as u64);
    f.seek(SeekFrom::Start(1 + v))?;
    f.write_u8(b as u8)?;
    f.seek(SeekFrom::Current(-1))?;
    out.push(f.read_u16()? as u64);
    f.seek(SeekFrom::End(-3 - v as i64))?;
    out.push(f.tell()? as u64);
    Ok(())
}
fn plugin(magic: Signature, next: Option<Arc<Plugin>>) -> Plugin {
    Plugin {
        magic,
        expected_version: 2000,
        r#type: plugin_type::PARAMETRIC_CURVE,
        next,
        data: PluginType::ParametricCurve {
            num_functions: 0,
            function_types: [0; 20],
            parameter_count: [0; 20],
            evaluator: |_, _, _| 0.0,
        },
    }
}
fn text(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01B3))
}

/// Operations on objects of the caller's own; `v` chooses the values.
#[inline(never)]
pub fn work(kind: usize, v: u64, files: &[&Path], mine: &Path) -> Vec<u64> {
    let mut out = vec![];
    match kind {
        0 => {
            let r = stream(&mut FileMem::new(Vec::new()), v, &mut out);
            out.push(r.is_ok() as u64);
        }
        1 => {
            let r = stream(&mut FileNull::new(), v, &mut out);
            out.push(r.is_ok() as u64);
        }
        2 => {
            let mut f = File::options().read(true).write(true).create(true).truncate(true).open(mine).expect("scratch file");
            let r = stream(&mut f, v, &mut out);
            out.push(r.is_ok() as u64);
            out.push(f.close().is_ok() as u64);
            out.extend(std::fs::read(mine).expect("scratch file").iter().map(|b| *b as u64));
        }
        3 | 4 => {
            let set = <ParametricCurvesCollection as IntoIterator>::Item::default();
            let p = [2.0 + v as f64, 1.5, 0.25 * v as f64, 0.5, 0.125, 0.25, 0.75];
            let types = if kind == 3 { [1, 4, 7, 108] } else { [-2, -5, -8, -109] };
            for t in types {
                for x in [0.3 + 0.2 * v as f64, 0.3 + 0.2 * v as f64] {
                    let p = if t == 108 || t == -109 { &p[..1] } else { &p[..] };
                    out.push(set.is_in_set(t).map_or(0, |k| k as u64 + 1));
                    out.push((set.evaluator)(t, p, x).to_bits());
                }
            }
        }
        11 | 12 => {
            let set = <ParametricCurvesCollection as IntoIterator>::Item::default();
            let p = [2.0 + v as f64, 1.5, 0.25 * v as f64, 0.5, 0.125, 0.25, 0.75];
            for t in [1, 2, 3, 4, 5, 6, 7, 8, 108, 109] {
                let t = if kind == 11 { t } else { -t };
                for x in [0.3 + 0.2 * v as f64, 0.125 * v as f64 - 0.0625] {
                    out.push((set.evaluator)(t, &p, x).to_bits());
                }
            }
        }
        5 => {
            for day in [1, 31, 1] {
                let d = DateTimeNumber {
                    year: 1999 + v as u16,
                    month: 2 + v as u16,
                    day,
                    hours: 3,
                    minutes: v as u16,
                    seconds: 9,
                };
                let n = chrono::NaiveDateTime::from(d);
                out.push(n.timestamp() as u64);
                let b = DateTimeNumber::from(n);
                out.extend([b.year, b.month, b.day, b.hours, b.minutes, b.seconds].map(u64::from));
            }
        }
        6 => {
            for s in ["desc", "ab", "wtpt long"] {
                let x = Signature::from(&s[v as usize..]);
                out.push(u32::from(x) as u64);
                out.push(text(&String::from(x)));
                out.push(text(&format!("{x:?}")));
                out.push((x == Signature::from(u32::from(x) ^ v as u32)) as u64);
            }
            let b = *b"abcd";
            let k = v as usize;
            for x in [
                Signature::from(&[b[k]]),
                Signature::from(&[b[k], b[1]]),
                Signature::from(&[b[k], b[1], b[2]]),
                Signature::from(&[b[k], b[1], b[2], b[3]]),
                Signature::from(&b[k..]),
                Signature::default(),
            ] {
                out.extend(<[u8; 4]>::from(x).map(u64::from));
            }
            let x = Signature::from(0xFF00_0001 + v as u32);
            out.push(text(&String::from(x)));
            out.push(text(&format!("{x:?}")));
        }
        7 => {
            let data: Box<[u8]> = vec![v as u8; 3 + v as usize].into();
            let mut c = Context::new(Some(data.clone()));
            let d = c.clone();
            out.push(c.init_plugin(&plugin(plugin_type::MAGIC, Some(Arc::new(plugin(plugin_type::MAGIC, None))))).is_ok() as u64);
            let bad = plugin(plugin_type::MAGIC, Some(Arc::new(plugin(Signature::from(v as u32), None))));
            out.push(c.init_plugin(&bad).map_or_else(|e| text(&e), |_| 0));
            out.push((c.get_user_data() == Some(&data)) as u64);
            out.push(text(&format!("{c:?}")));
            drop(c);
            out.push(text(&format!("{d:?}")));
        }
        8 => {
            let mut b = [0u8; 128];
            for (k, x) in b.iter_mut().enumerate() {
                *x = k as u8 ^ (v as u8 + 1) * 0x55;
            }
            let h = verif::header_from_bytes(b);
            out.extend([h.size as u64, h.version as u64, h.attributes, u32::from(h.creator) as u64]);
            out.push((verif::header_to_bytes(h) == b) as u64);
            let mut e = [0u8; 12];
            e.copy_from_slice(&b[..12]);
            let t = verif::tag_entry_from_bytes(e);
            out.extend([t.offset as u64, t.size as u64, u32::from(t.sig) as u64]);
            out.push((verif::tag_entry_to_bytes(t) == e) as u64);
        }
        9 => {
            let mut c = Context::new(None);
            let (a, b) = (open_thr(&mut c, files[v as usize % files.len()], false), open_thr(&mut c, files[(v as usize + 1) % files.len()], false));
            if let (Ok(a), Ok(b)) = (a, b) {
                out.push((a == b) as u64 * 2 + (a == a) as u64);
                out.push(a.get_tag_count() as u64);
                out.extend((0..4).map(|n| u32::from(a.get_tag_signature(n)) as u64));
                out.push(a.verif_search_tag(b.get_tag_signature(0), true).map_or(0, |n| n as u64 + 1));
                out.push(a.verif_search_tag(a.get_tag_signature(1), true).map_or(0, |n| n as u64 + 1));
                out.push(text(&format!("{:?}", a.verif_view())));
            }
        }
        _ => {
            let mut f = FileMem::new(vec![0u8; 40]);
            for x in [0.5 + v as f64, -1.25 - v as f64] {
                out.push(f.write_s15f16(x).is_ok() as u64);
            }
            out.push(f.write_xyz(CIEXYZ { X: 0.9642, Y: v as f64, Z: -3.0 }).is_ok() as u64);
            out.push(f.seek(SeekFrom::Start(0)).is_ok() as u64);
            for _ in 0..2 {
                out.push(f.read_s15f16().map_or(1, f64::to_bits));
            }
            if let Ok(x) = f.read_xyz() {
                out.extend([x.X, x.Y, x.Z].map(f64::to_bits));
            }
            out.push(f.write_f32(v as f32).is_ok() as u64);
            out.push(f.seek(SeekFrom::Current(-4)).is_ok() as u64);
            out.push(f.read_f32().map_or(1, |x| x.to_bits() as u64));
        }
    }
    out
}
