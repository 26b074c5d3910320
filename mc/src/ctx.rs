//! C18, C19, C28: contexts, their error handlers, plugin registration.
use crate::engine::*;
use crate::sigtable::{word4, words4};
use crate::profile::{base0, base100, base3, build, header, sig4};
use lcms2::plugins::*;
use lcms2::state::{Context, ErrorCode};
use lcms2::types::{signatures::plugin_type as pt, Signature};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ---------------------------------------------------------------- plugins

/// A plugin without its successor.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct P {
    pub magic: u32,
    pub version: u32,
    pub ty: u32,
    /// kind of payload, 0..9
    pub data: usize,
}
/// The nine types with their codes, in payload order.
pub const TYPES: [&[u8; 4]; 9] = [
    b"inpH", b"parH", b"frmH", b"typH", b"tagH", b"intH", b"mpeH", b"optH", b"xfmH",
];
const MAGIC: &[u8; 4] = b"acpp";
const VERSION: u32 = 2131;

pub fn good(k: usize, version: u32) -> P {
    P {
        magic: sig4(MAGIC),
        version,
        ty: sig4(TYPES[k]),
        data: k,
    }
}
pub fn acceptable(p: &P) -> bool {
    p.magic == sig4(MAGIC) && p.version <= VERSION && TYPES.iter().any(|t| sig4(t) == p.ty)
}
fn intent(
    _: &mut Context,
    _: usize,
    _: &[Signature],
    _: &[lcms2::types::Profile],
    _: &[bool],
    _: &[f64],
    _: u32,
) -> Arc<lcms2::types::Pipeline> {
    unreachable!()
}
pub fn payload(k: usize) -> PluginType {
    let s = Signature::from(0x5058_0000 + k as u32);
    match k {
        0 => PluginType::Interpolation {
            interpolation_factory: |_, _, _| InterpFunction::InterpFn16(|_, _, _| {}),
        },
        1 => PluginType::ParametricCurve {
            num_functions: 1,
            function_types: [1; 20],
            parameter_count: [1; 20],
            evaluator: |_, _, _| 0.0,
        },
        2 => PluginType::Formatter {
            formatters_factory: |_, _, _| Formatter::Fmt16(|_, _, _, _| Box::new([])),
        },
        3 => PluginType::TagType {
            handler: TypeHandler::verif_new(s, 4),
        },
        4 => PluginType::Tag {
            signature: s,
            descriptor: TagDescriptor::verif_new(1, vec![s]),
        },
        5 => PluginType::RenderingIntent {
            intent: s,
            link: intent,
            description: String::new(),
        },
        6 => PluginType::MultiProcessElement {
            handler: TypeHandler::verif_new(s, 4),
        },
        7 => PluginType::Optimization {
            optimizer: |_, _| None,
        },
        _ => PluginType::Transform {
            factory: TransformFactories::Modern(|_, _, _| None),
        },
    }
}
pub fn chain(ps: &[P]) -> Plugin {
    let mut next: Option<Arc<Plugin>> = None;
    for p in ps.iter().rev() {
        let n = Plugin {
            magic: p.magic.into(),
            expected_version: p.version,
            r#type: p.ty.into(),
            next: next.take(),
            data: payload(p.data),
        };
        next = Some(Arc::new(n));
    }
    Arc::try_unwrap(next.expect("a chain has a plugin")).ok().expect("sole owner")
}
/// Unlinks a chain from its head, so that dropping a long one does not recurse.
fn dismantle(mut p: Plugin) {
    let mut next = p.next.take();
    while let Some(n) = next {
        match Arc::try_unwrap(n) {
            Ok(mut n) => next = n.next.take(),
            Err(_) => break,
        }
    }
}
fn init(ctx: &mut Context, ps: &[P]) -> Result<Result<(), String>, String> {
    let c = chain(ps);
    let r = guarded(|| ctx.init_plugin(&c));
    dismantle(c);
    r
}
fn check_chain(ps: &[P], w: &mut W) -> R {
    w.traces += 1;
    w.transitions += ps.len() as u64;
    w.nt();
    let got = init(&mut Context::new(None), ps)?;
    w.obs(&got);
    let bad = ps.iter().position(|p| !acceptable(p));
    match (&got, bad) {
        (Ok(()), None) => Ok(()),
        (Err(e), None) => Err(format!("refused ({e}), every plugin is acceptable")),
        (Ok(()), Some(k)) => Err(format!("accepted although plugin {} is not acceptable: {:x?}", k + 1, ps[k])),
        (Err(e), Some(k)) => {
            if ps.len() == 1 {
                return Ok(());
            }
            let alone = init(&mut Context::new(None), &ps[k..=k])?;
            match alone {
                Ok(()) => Err(format!("plugin {:x?} alone is accepted", ps[k])),
                Err(a) if a == *e => Ok(()),
                Err(a) => Err(format!(
                    "refused with '{e}', the first unacceptable plugin ({}) gives '{a}'",
                    k + 1
                )),
            }
        }
    }
}
/// Nine acceptable ones and the ways to be unacceptable (the errors of different defects differ).
fn symbols() -> Vec<P> {
    let mut v: Vec<P> = (0..9).map(|k| good(k, [2131, 0, 2130, 1, 2000, 2131, 100, 2131, 2131][k])).collect();
    let g = good(0, VERSION);
    v.push(P { magic: 0x6163_7071, ..good(3, 2131) });
    v.push(P { version: 2132, ..good(5, 0) });
    v.push(P { version: 9999, ..g });
    v.push(P { ty: 0x6E6F_6E65, ..g });
    v.push(P { ty: 0x7865_6E6F, ..g });
    v.push(P { magic: 0, version: 9998, ..g });
    v.push(P { version: 9997, ty: 0x6162_6364, ..g });
    v
}

pub fn c19(t: Tier) -> Check {
    let single = |name, n: u64, f: fn(u64) -> P| {
        Section::new(
            name,
            n,
            move |i, w| check_chain(&[f(i)], w),
            move |i| format!("{:x?}", f(i)),
        )
    };
    fn half(i: u64, base: u32) -> u32 {
        if i < 65536 {
            base & 0xFFFF_0000 | i as u32
        } else {
            base & 0xFFFF | (i as u32 - 65536) << 16
        }
    }
    let mut sections = vec![
        single("magic numbers", 2 * 65536 * 9, |i| {
            let g = good((i % 9) as usize, VERSION);
            P { magic: half(i / 9, g.magic), ..g }
        }),
        single("types near each known one", 2 * 65536 * 9, |i| {
            let g = good((i % 9) as usize, VERSION);
            P { ty: half(i / 9, g.ty), ..g }
        }),
        single("expected versions", 2 * 65536 * 9, |i| {
            let g = good((i % 9) as usize, VERSION);
            P { version: half(i / 9, if i % 2 == 0 { VERSION } else { 0 }), ..g }
        }),
        single("combinations of defects", 9 * 6 * 6 * 6, |i| {
            let d = digits(i, &[9, 6, 6, 6]);
            let g = good(d[0] as usize, VERSION);
            P {
                magic: [g.magic, 0, !0, 0x7070_6361, 0x6163_7370, g.ty][d[1] as usize],
                version: [0, 2130, 2131, 2132, 1 << 31, !0][d[2] as usize],
                ty: [g.ty, 0, !0, g.ty ^ 1, g.ty.swap_bytes(), g.magic][d[3] as usize],
                data: g.data,
            }
        }),
    ];
    // what a plugin carries does not matter
    const KINDS: [u64; 7] = [9, 9, 9, 9, 9, 9, 4];
    sections.push(Section::new(
        "every type with every payload, in chains of three",
        KINDS.iter().product(),
        |i, w| {
            let d = digits(i, &KINDS);
            let mut ps: Vec<P> = (0..3).map(|k| P { data: d[2 * k + 1] as usize, ..good(d[2 * k] as usize, VERSION - k as u32 * 1000) }).collect();
            match d[6] {
                0 => ps.truncate(1 + (i % 2) as usize),
                1 => ps[2].ty ^= 1,
                2 => ps[(i % 3) as usize].magic ^= 0x0100_0000,
                _ => {}
            }
            check_chain(&ps, w)
        },
        |i| format!("(type, payload, type, payload, type, payload, defect) = {:?}", digits(i, &KINDS)),
    ));
    let depth = t.pick(5u32, 6);
    sections.push(Section::new(
        "chains of plugins",
        seqs(16, depth),
        move |i, w| {
            let mut s = vec![];
            seq(i, 16, depth, &mut s);
            if s.is_empty() {
                return Ok(());
            }
            let a = symbols();
            let ps: Vec<P> = s.iter().map(|k| a[*k as usize]).collect();
            check_chain(&ps, w)
        },
        move |i| {
            let mut s = vec![];
            seq(i, 16, depth, &mut s);
            format!("plugins {s:?} of {:x?}", symbols())
        },
    ).parity());
    // one or two unacceptable ones anywhere in a long chain
    const LONG: u64 = 40;
    sections.push(Section::new(
        "long chains",
        LONG * (LONG + 1) * (LONG + 1) * 2,
        |i, w| {
            let d = digits(i, &[LONG, LONG + 1, LONG + 1, 2]);
            let (len, a, b) = (d[0] as usize + 1, d[1] as usize, d[2] as usize);
            let s = symbols();
            let ps: Vec<P> = (0..len)
                .map(|k| {
                    if k == a {
                        s[9 + 3 * d[3] as usize]
                    } else if k == b {
                        s[11]
                    } else {
                        s[(k * 5 + len) % 9]
                    }
                })
                .collect();
            check_chain(&ps, w)
        },
        |i| format!("{:?} (length-1, first defect, second defect, kind)", digits(i, &[LONG, LONG + 1, LONG + 1, 2])),
    ));
    sections.push(Section::new(
        "very long chains",
        5 * 4,
        |i, w| {
            let len = [100, 256, 1000, 5000, 20000][(i / 4) as usize];
            let s = symbols();
            let mut ps: Vec<P> = (0..len).map(|k| s[k % 9]).collect();
            match i % 4 {
                1 => ps[len - 1] = s[12],
                2 => ps[len - 2] = s[10],
                3 => ps[len / 2] = s[9],
                _ => {}
            }
            check_chain(&ps, w)
        },
        |i| format!("length {}, defect {}", [100, 256, 1000, 5000, 20000][(i / 4) as usize], i % 4),
    ));
    // a context that has already seen other chains decides the same
    sections.push(Section::new(
        "repeated registrations on one context",
        seqs(16 * 3, 3),
        |i, w| {
            let mut s = vec![];
            seq(i, 48, 3, &mut s);
            let a = symbols();
            let mut ctx = Context::new(None);
            for k in s {
                let (x, pos) = (a[k as usize / 3], k % 3);
                let ps = match pos {
                    0 => vec![x],
                    1 => vec![x, a[2]],
                    _ => vec![a[4], x],
                };
                w.transitions += 1;
                let got = init(&mut ctx, &ps)?;
                let want = init(&mut Context::new(None), &ps)?;
                w.obs(&got);
                if got != want || got.is_ok() != ps.iter().all(acceptable) {
                    return Err(format!("registering {ps:x?} gives {got:?}, on a fresh context {want:?}"));
                }
            }
            w.traces += 1;
            w.nt();
            Ok(())
        },
        |i| {
            let mut s = vec![];
            seq(i, 48, 3, &mut s);
            format!("{s:?}")
        },
    ).parity());
    sections.push(Section::new(
        "payload kinds",
        81,
        |i, w| {
            let (k, q) = ((i / 9) as usize, (i % 9) as usize);
            w.nt();
            w.traces += 1;
            let p = payload(k);
            let got = [
                p.is_interpolation(),
                p.is_parametric_curves(),
                p.is_formatter(),
                p.is_tag_type(),
                p.is_tag(),
                p.is_rendering_intent(),
                p.is_multi_process_element(),
                p.is_optimization(),
                p.is_transform(),
            ][q];
            w.obs(&got);
            if got != (k == q) {
                return Err(format!("predicate {q} on payload {k} says {got}"));
            }
            let c = [
                pt::INTERPOLATION,
                pt::PARAMETRIC_CURVE,
                pt::FORMATTERS,
                pt::TAG_TYPE,
                pt::TAG,
                pt::RENDERING_INTENT,
                pt::MULTI_PROCESS_ELEMENT,
                pt::OPTIMIZATION,
                pt::TRANSFORM,
            ][k];
            if u32::from(c) != sig4(TYPES[k]) || u32::from(pt::MAGIC) != sig4(MAGIC) {
                return Err(format!("plugin type constant {k} is {c:?}"));
            }
            Ok(())
        },
        |i| format!("payload {}, predicate {}", i / 9, i % 9),
    ));
    if t == Tier::Thorough {
        sections.push(single("every type", 1 << 32, |i| P { ty: i as u32, ..good(0, 2131) }));
        sections.push(single("every version", 1 << 32, |i| P { version: i as u32, ..good(0, 2131) }));
        sections.push(single("every magic number", 1 << 32, |i| P { magic: i as u32, ..good(0, 2131) }));
    }
    Check {
        id: "C19",
        level: "model_checking",
        rule: "every plugin field value of the stated sets, every chain up to the depth bound over 9 acceptable and 7 unacceptable plugins, long chains with defects at every position; non-trivial: the registration was made and compared with the acceptance rule, its error with that of the first unacceptable plugin alone",
        assumptions: &["payloads match their plugin type", "longer mixed chains are covered by the long-chain sections only"],
        sections,
    }
}

// ---------------------------------------------------------------- error handlers

thread_local! {
    static LOG: RefCell<Vec<(usize, u32)>> = const { RefCell::new(Vec::new()) };
}
fn note(h: usize, c: ErrorCode) {
    LOG.with(|l| l.borrow_mut().push((h, c as u32)));
}
type Handler = fn(&mut Context, ErrorCode, String);
fn h0(_: &mut Context, c: ErrorCode, _: String) {
    note(0, c)
}
fn h1(_: &mut Context, c: ErrorCode, _: String) {
    note(1, c)
}
fn h2(_: &mut Context, c: ErrorCode, _: String) {
    note(2, c)
}
fn h3(_: &mut Context, c: ErrorCode, _: String) {
    note(3, c)
}
const HANDLERS: [Handler; 4] = [h0, h1, h2, h3];
/// The global context's handler.
const HG: usize = 3;
fn taken() -> Vec<(usize, u32)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

const BAD_SIGNATURE: u32 = 11;
const RANGE: u32 = 2;
const UNKNOWN_EXTENSION: u32 = 8;

/// Files with the outcome of opening them: None succeeds, Some(None) fails silently, Some(Some(code)).
pub fn corpus18() -> Vec<(&'static str, Option<Vec<u8>>, Option<Option<u32>>)> {
    let mut bad = base3();
    bad[36] ^= 0x20;
    let mut bad_many = base3();
    bad_many[39] = 0;
    bad_many[128..132].copy_from_slice(&crate::stream::b32(101));
    let mut many = base3();
    many[128..132].copy_from_slice(&crate::stream::b32(101));
    let mut most = base100();
    most[128..132].copy_from_slice(&crate::stream::b32(u32::MAX));
    let outside = build(&header(300), 2, &[(1, 4000, 4), (2, u32::MAX, 4)], 300);
    let mut baddate = base3();
    baddate[26..28].copy_from_slice(&crate::stream::b16(13));
    vec![
        ("a good file", Some(base3()), None),
        ("a wrong signature", Some(bad.clone()), Some(Some(BAD_SIGNATURE))),
        ("101 tags", Some(many), Some(Some(RANGE))),
        ("a short header", Some(base3()[..127].to_vec()), Some(None)),
        ("a short directory", Some(base3()[..150].to_vec()), Some(None)),
        ("no such file", None, Some(None)),
        ("a wrong signature and nothing else", Some(bad[..128].to_vec()), Some(Some(BAD_SIGNATURE))),
        ("a wrong signature and 101 tags", Some(bad_many), Some(Some(BAD_SIGNATURE))),
        ("2^32-1 tags", Some(most), Some(Some(RANGE))),
        ("no tags", Some(base0()), None),
        ("100 tags", Some(base100()), None),
        ("entries outside", Some(outside), None),
        ("no tag count", Some(base3()[..130].to_vec()), Some(None)),
        ("an impossible date", Some(baddate), None),
        ("an empty file", Some(vec![]), Some(None)),
    ]
}
/// Files laid out once per worker.
pub fn lay_out(w: &mut W, key: &'static str, files: Vec<Option<Vec<u8>>>) -> Vec<PathBuf> {
    let v = w.take(key, |w| {
        files
            .iter()
            .enumerate()
            .map(|(k, f)| {
                let p = w.dir.join(format!("{key}-{k}.icc"));
                if let Some(b) = f {
                    std::fs::write(&p, b).expect("scratch file");
                }
                p
            })
            .collect::<Vec<PathBuf>>()
    });
    w.put(key, v.clone());
    v
}
const NF: usize = 15;
fn files18(w: &mut W) -> Vec<PathBuf> {
    lay_out(w, "c18", corpus18().into_iter().map(|c| c.1).collect())
}
fn chains18() -> Vec<Vec<P>> {
    let s = symbols();
    vec![
        vec![s[0], s[3]],
        vec![s[9]],
        vec![s[1], s[10]],
        vec![s[12], s[9]],
    ]
}

#[derive(Clone, Copy, Debug)]
enum Op18 {
    Open(usize, usize),
    OpenW(usize),
    Init(usize, usize),
    Clone(usize, usize),
    Set(usize, usize),
    Fresh(usize),
}
/// Contexts 0 and 1 and (number 2) the process-wide one.
fn ops18(files: &[usize]) -> Vec<Op18> {
    let mut v = vec![];
    for f in files {
        for c in 0..3 {
            v.push(Op18::Open(c, *f));
        }
    }
    for k in 0..4 {
        for c in 0..2 {
            v.push(Op18::Init(c, k));
        }
    }
    v.extend([
        Op18::Clone(0, 1),
        Op18::Clone(1, 0),
        Op18::Set(0, 2),
        Op18::Set(1, 0),
        Op18::Fresh(0),
        Op18::Fresh(1),
        Op18::OpenW(0),
        Op18::OpenW(2),
    ]);
    v
}
fn open_with(ctx: &mut Option<&mut Context>, path: &Path, write: bool) -> Result<bool, String> {
    guarded(|| match ctx {
        Some(c) => mcglue::open_thr(c, path, write).is_ok(),
        None => mcglue::open(path, write).is_ok(),
    })
}
fn run18(ops: &[Op18], w: &mut W) -> R {
    let paths = files18(w);
    let corpus = w.take("corpus18", |_| corpus18());
    Context::verif_set_global_error_handler(HANDLERS[HG]);
    let mut ctx = [Context::new(None), Context::new(None)];
    let mut who: [Option<usize>; 2] = [Some(0), Some(1)];
    ctx[0].verif_set_error_handler(HANDLERS[0]);
    ctx[1].verif_set_error_handler(HANDLERS[1]);
    taken();
    let mut out = Ok(());
    for (k, op) in ops.iter().enumerate() {
        w.transitions += 1;
        let (ok, want_ok, code, c) = match *op {
            Op18::Open(c, f) => {
                let mut it = ctx.get_mut(c);
                let ok = open_with(&mut it, &paths[f], false)?;
                (ok, corpus[f].2.is_none(), corpus[f].2.flatten(), c)
            }
            Op18::OpenW(c) => {
                let mut it = ctx.get_mut(c);
                (open_with(&mut it, &w.dir.join("written.icc"), true)?, true, None, c)
            }
            Op18::Init(c, n) => {
                let ok = init(&mut ctx[c], &chains18()[n])?.is_ok();
                (ok, n == 0, if n == 0 { None } else { Some(UNKNOWN_EXTENSION) }, c)
            }
            Op18::Clone(a, b) => {
                ctx[b] = ctx[a].clone();
                who[b] = who[a];
                (true, true, None, b)
            }
            Op18::Set(c, h) => {
                ctx[c].verif_set_error_handler(HANDLERS[h]);
                who[c] = Some(h);
                (true, true, None, c)
            }
            Op18::Fresh(c) => {
                ctx[c] = Context::new(None);
                who[c] = None;
                (true, true, None, c)
            }
        };
        let log = taken();
        w.obs(&(ok, &log));
        let handler = if c == 2 { Some(HG) } else { who[c] };
        let want: Vec<(usize, u32)> = match (code, handler) {
            (Some(e), Some(h)) => vec![(h, e)],
            _ => vec![],
        };
        if ok != want_ok || log != want {
            out = Err(format!(
                "step {} ({op:?}): {}; handler calls (handler, code) {log:?}, must be {want:?}",
                k + 1,
                if ok { "succeeded" } else { "failed" },
            ));
            break;
        }
    }
    w.put("corpus18", corpus);
    w.traces += 1;
    w.nt();
    out
}

/// One open of `b`, in a context whose handler records, and in a process-wide one that must stay silent.
fn one18(b: &[u8], want_ok: bool, code: Option<u32>, w: &mut W) -> R {
    w.traces += 1;
    w.transitions += 1;
    w.nt();
    let path = crate::profile::bench(w, |f, _| {
        f.set(b);
        f.path.clone()
    });
    Context::verif_set_global_error_handler(HANDLERS[HG]);
    let mut ctx = Context::new(None);
    ctx.verif_set_error_handler(h1);
    taken();
    let ok = guarded(|| mcglue::open_thr(&mut ctx, &path, false).is_ok())?;
    let log = taken();
    w.obs(&(ok, &log));
    let want: Vec<_> = code.iter().map(|c| (1, *c)).collect();
    if log != want || ok != want_ok {
        return Err(format!("ok={ok}, handler calls {log:?}, must be {want:?}"));
    }
    Ok(())
}

/// The codes as an application knows them, with the values of Little CMS.
const CODES: [(ErrorCode, u32); 14] = [
    (ErrorCode::Undefined, 0),
    (ErrorCode::File, 1),
    (ErrorCode::Range, 2),
    (ErrorCode::Internal, 3),
    (ErrorCode::Null, 4),
    (ErrorCode::Read, 5),
    (ErrorCode::Seek, 6),
    (ErrorCode::Write, 7),
    (ErrorCode::UnknownExtension, 8),
    (ErrorCode::ColorSpaceCheck, 9),
    (ErrorCode::AlreadyDefined, 10),
    (ErrorCode::BadSignature, 11),
    (ErrorCode::CorruptionDetected, 12),
    (ErrorCode::NotSuitable, 13),
];
const NT: u64 = 8;
fn text18(k: u64) -> String {
    match k {
        0 => String::new(),
        1 => "plain".into(),
        2 => "{} {0} {:?} %s %n \\".into(),
        3 => "zero\0byte\nline\r\t".into(),
        4 => "\u{e9}\u{4e2d}\u{1F3A8}\u{202e}".into(),
        5 => "x".repeat(1024),
        6 => "  spaces  ".into(),
        _ => "y\u{e9}".repeat(3000),
    }
}
thread_local! {
    static SAID: RefCell<Vec<(u8, ErrorCode, String)>> = const { RefCell::new(Vec::new()) };
}
fn say(h: u8, c: ErrorCode, t: String) {
    SAID.with(|s| s.borrow_mut().push((h, c, t)));
}
fn s0(_: &mut Context, c: ErrorCode, t: String) {
    say(0, c, t)
}
/// Signals twice more.
fn s1(x: &mut Context, c: ErrorCode, t: String) {
    say(1, c, t.clone());
    if !t.ends_with("!!") {
        x.signal_error(CODES[(c as usize + 1) % 14].0, t + "!");
    }
}
/// Replaces itself, then signals.
fn s2(x: &mut Context, c: ErrorCode, t: String) {
    say(2, c, t.clone());
    x.verif_set_error_handler(s0);
    x.signal_error(c, t + "?");
}
/// Signals in a clone whose handler is another.
fn s3(x: &mut Context, c: ErrorCode, t: String) {
    say(3, c, t.clone());
    let mut y = x.clone();
    y.verif_set_error_handler(s0);
    y.signal_error(CODES[13 - c as usize].0, &t[..0]);
}
/// Replaces the whole context.
fn s4(x: &mut Context, c: ErrorCode, t: String) {
    say(4, c, t);
    *x = Context::new(None);
    x.verif_set_error_handler(s1);
}
/// What a handler and a signal lead to: the calls, and the handler afterwards.
fn follow(h: u64, c: usize, t: &str, out: &mut Vec<(u8, ErrorCode, String)>) -> u64 {
    let code = |c: usize| CODES[c % 14].0;
    out.push((h as u8, code(c), t.to_string()));
    match h {
        1 => {
            // the text decides how often it goes on
            let mut t = t.to_string();
            let mut c = c;
            while !t.ends_with("!!") {
                t += "!";
                c += 1;
                out.push((1, code(c), t.clone()));
            }
            1
        }
        2 => {
            out.push((0, code(c), format!("{t}?")));
            0
        }
        3 => {
            out.push((0, code(13 - c), String::new()));
            3
        }
        4 => 1,
        h => h,
    }
}
fn run_signals(d: &[u64], w: &mut W) -> R {
    const H: [Handler; 5] = [s0, s1, s2, s3, s4];
    SAID.with(|s| s.borrow_mut().clear());
    w.traces += 1;
    w.transitions += 2;
    w.nt();
    let mut want = vec![];
    let mut ctx = Context::new(None);
    for (k, (x, v)) in CODES.iter().enumerate() {
        if *x as u32 != *v || *v != k as u32 {
            return Err(format!("{x:?} has the value {}", *x as u32));
        }
    }
    for k in 0..2 {
        let (h, c, t) = (d[3 * k], d[3 * k + 1] as usize, text18(d[3 * k + 2]));
        ctx.verif_set_error_handler(H[h as usize]);
        let h = follow(h, c, &t, &mut want);
        if d[6] == 1 {
            ctx = guarded(|| ctx.clone())?;
        }
        // a text may be given in either form
        if k == 0 {
            guarded(|| ctx.signal_error(CODES[c].0, t.as_str()))?;
        } else {
            guarded(|| ctx.signal_error(CODES[c].0, t.clone()))?;
        }
        // and once more with whatever handler is in place now
        let c = (c + 5) % 14;
        follow(h, c, "again", &mut want);
        guarded(|| ctx.signal_error(CODES[c].0, "again"))?;
    }
    let got = SAID.with(|s| std::mem::take(&mut *s.borrow_mut()));
    w.obs(&got.iter().map(|x| (x.0, x.1 as u32)).collect::<Vec<_>>());
    if got != want {
        let k = (0..got.len().max(want.len())).find(|k| got.get(*k) != want.get(*k));
        let short = |x: Option<&(u8, ErrorCode, String)>| x.map(|x| (x.0, x.1, x.2.chars().take(40).collect::<String>()));
        let k = k.unwrap_or(0);
        return Err(format!("call {k} of the handlers is {:?} instead of {:?}", short(got.get(k)), short(want.get(k))));
    }
    Ok(())
}

pub fn c18(t: Tier) -> Check {
    let few = ops18(&[0, 1, 2, 3, 5]);
    let all = ops18(&(0..NF).collect::<Vec<_>>());
    let mk = |name, ops: Vec<Op18>, depth: u32| {
        let o2 = ops.clone();
        let k = ops.len() as u64;
        Section::new(
            name,
            seqs(k, depth),
            move |i, w| {
                let mut s = vec![];
                seq(i, k, depth, &mut s);
                let v: Vec<Op18> = s.iter().map(|j| ops[*j as usize]).collect();
                run18(&v, w)
            },
            move |i| {
                let mut s = vec![];
                seq(i, k, depth, &mut s);
                let v: Vec<Op18> = s.iter().map(|j| o2[*j as usize]).collect();
                format!("{v:?}")
            },
        )
    };
    // every wrong signature and count, one open each
    let magics = Section::new(
        "every value of each signature byte, every tag count half",
        4 * 256 + 2 * 65536,
        |i, w| {
            let mut b = base3();
            let code = if i < 1024 {
                b[36 + (i / 256) as usize] = i as u8;
                (b[36..40] != base3()[36..40]).then_some(BAD_SIGNATURE)
            } else {
                let v = (i - 1024) as u32;
                let v = if v < 65536 { v } else { v << 16 | 3 };
                b[128..132].copy_from_slice(&crate::stream::b32(v));
                (v > 100).then_some(RANGE)
            };
            w.traces += 1;
            w.transitions += 1;
            w.nt();
            let path = crate::profile::bench(w, |f, _| {
                f.set(&b);
                f.path.clone()
            });
            let mut ctx = Context::new(None);
            ctx.verif_set_error_handler(h1);
            taken();
            let ok = guarded(|| mcglue::open_thr(&mut ctx, &path, false).is_ok())?;
            let log = taken();
            w.obs(&(ok, &log));
            let want: Vec<_> = code.iter().map(|c| (1, *c)).collect();
            if log != want || ok && code.is_some() {
                return Err(format!("ok={ok}, handler calls {log:?}, must be {want:?}"));
            }
            Ok(())
        },
        |i| format!("case {i}"),
    );
    // every signature word, and every kind of refusal with each other header byte changed
    let words = Section::new(
        "every registered code and every word over 14 unusual bytes as file signature",
        words4() * 2,
        |i, w| {
            let m = word4(i / 2);
            let mut b = if i % 2 == 0 { base0() } else { base3()[..128].to_vec() };
            b[36..40].copy_from_slice(&m);
            let code = (&m != b"acsp").then_some(BAD_SIGNATURE);
            one18(&b, code.is_none() && i % 2 == 0, code, w)
        },
        |i| format!("{:?}, {}", word4(i / 2), ["a profile without tags", "a header alone"][i as usize % 2]),
    );
    let varied = Section::new(
        "every outcome with every other header byte changed",
        NF as u64 * 128 * 8,
        |i, w| {
            let d = digits(i, &[8, 128, NF as u64]);
            let (k, v) = (d[1] as usize, d[0] as usize);
            let c = w.take("corpus18", |_| corpus18());
            let (_, b, want) = &c[d[2] as usize];
            let mut b = b.clone().unwrap_or_default();
            // the signature and the declared size are the other sections' matter
            let fixed = (36..40).contains(&k) || (24..36).contains(&k) || k < 4 || k >= b.len();
            if !fixed {
                b[k] = [0, 0xFF, b[k] ^ 1, b[k] ^ 0x80, b' ', b[k].wrapping_add(1), 0x7F, b[k] ^ 0x20][v];
            }
            let (ok, code) = (want.is_none(), want.flatten());
            let missing = c[d[2] as usize].1.is_none();
            w.put("corpus18", c);
            if fixed && v + k != 0 || missing {
                return Ok(());
            }
            one18(&b, ok, code, w)
        },
        |i| format!("(variation, byte, outcome) = {:?}", digits(i, &[8, 128, NF as u64])),
    );
    let defects = Section::new(
        "every single-plugin refusal",
        9 * 5 * 3,
        |i, w| {
            let d = digits(i, &[9, 5, 3]);
            let g = good(d[0] as usize, VERSION);
            let p = match d[1] {
                0 => g,
                1 => P { magic: g.magic ^ 1, ..g },
                2 => P { version: 2132, ..g },
                3 => P { ty: g.ty ^ 0x20, ..g },
                _ => P { magic: 0, version: !0, ty: 0, ..g },
            };
            let ps = match d[2] {
                0 => vec![p],
                1 => vec![p, p, P { magic: 7, ..g }],
                _ => vec![g, p],
            };
            let bad = ps.iter().any(|p| !acceptable(p));
            w.traces += 1;
            w.nt();
            let mut ctx = Context::new(None);
            ctx.verif_set_error_handler(h2);
            taken();
            let r = init(&mut ctx, &ps)?;
            let log = taken();
            w.obs(&(&r, &log));
            let want = if bad { vec![(2, UNKNOWN_EXTENSION)] } else { vec![] };
            if log != want || r.is_ok() == bad {
                return Err(format!("{r:?}, handler calls {log:?}, must be {want:?}"));
            }
            Ok(())
        },
        |i| format!("{:?}", digits(i, &[9, 5, 3])),
    );
    let direct = Section::new(
        "errors signalled by the user: every code, text and handler, one after another",
        5 * 14 * NT * 5 * 14 * NT * 2,
        |i, w| run_signals(&digits(i, &[5, 14, NT, 5, 14, NT, 2]), w),
        |i| format!("(handler, code, text, handler, code, text, through a clone) = {:?}", digits(i, &[5, 14, NT, 5, 14, NT, 2])),
    );
    Check {
        id: "C18",
        level: "model_checking",
        rule: "every sequence up to the depth bound of opens (accepted, refused, failing), plugin registrations, clonings and handler changes over two contexts and the process-wide one, each handler recording its calls; every pair of errors signalled directly, with every code and text, through handlers that record, signal again or replace the handler; non-trivial: the sequence ran and every call log was compared",
        assumptions: &["handlers are installed through the guarded hook: the library offers no public way"],
        sections: vec![magics, words, varied, defects, direct, mk("sequences over the main outcomes", few, t.pick(4, 5)), mk("sequences over all outcomes", all, t.pick(3, 4))],
    }
}

// ---------------------------------------------------------------- C28

fn shape(c: &Context) -> (String, Vec<usize>, Option<Vec<u8>>) {
    (
        format!("{c:?}"),
        c.verif_functions(),
        c.get_user_data().map(|d| d.to_vec()),
    )
}
fn data28(k: usize) -> Option<Box<[u8]>> {
    match k {
        0 => None,
        1 => Some(Box::new([7, 0, 255])),
        2 => Some(Box::new([])),
        _ => Some((0..4000u32).map(|i| (i * 7) as u8).collect()),
    }
}
#[derive(Clone, Copy, Debug)]
enum Op28 {
    Open(usize, usize),
    OpenW(usize),
    Init(usize, usize),
    Clone(usize, usize),
    CloneFrom(usize, usize),
    Handler(usize, usize),
    Fill(usize),
    New(usize, usize),
    Drop(usize),
}
fn ops28() -> Vec<Op28> {
    use Op28::*;
    let mut v = vec![];
    for c in 0..3 {
        v.extend([Open(c, 0), Open(c, 1), Open(c, 2), Open(c, 5)]);
        v.extend([Init(c, 0), Init(c, 1), Init(c, 2)]);
        v.extend([Fill(c), Drop(c), Handler(c, c), New(c, c), New(c, 3)]);
        for d in 0..3 {
            if c != d {
                v.push(Clone(c, d));
            }
        }
    }
    v.extend([CloneFrom(0, 1), CloneFrom(1, 2), Open(9, 0), Open(9, 1), OpenW(0), OpenW(9)]);
    v
}
fn run28(ops: &[Op28], w: &mut W) -> R {
    let paths = files18(w);
    let mut ctx: [Option<Context>; 3] = [Some(Context::new(data28(1))), Some(Context::new(None)), None];
    ctx[0].as_mut().unwrap().verif_fill(5);
    ctx[0].as_mut().unwrap().verif_set_error_handler(h1);
    let mut want: Vec<_> = ctx.iter().map(|c| c.as_ref().map(shape)).collect();
    if want[0].as_ref().unwrap().2.as_deref() != Some(&[7, 0, 255]) || want[1].as_ref().unwrap().2.is_some() {
        return Err("a new context does not hold its user data".into());
    }
    for (k, op) in ops.iter().enumerate() {
        w.transitions += 1;
        match *op {
            Op28::Open(c, f) => {
                if c == 9 {
                    open_with(&mut None, &paths[f], false)?;
                } else if let Some(x) = ctx[c].as_mut() {
                    open_with(&mut Some(x), &paths[f], false)?;
                }
            }
            Op28::OpenW(c) => {
                let p = w.dir.join("written.icc");
                if c == 9 {
                    open_with(&mut None, &p, true)?;
                } else if let Some(x) = ctx[c].as_mut() {
                    open_with(&mut Some(x), &p, true)?;
                }
            }
            Op28::Init(c, n) => {
                if let Some(x) = ctx[c].as_mut() {
                    let _ = init(x, &chains18()[n])?;
                }
            }
            Op28::Clone(a, b) => {
                if let Some(x) = &ctx[a] {
                    ctx[b] = Some(guarded(|| x.clone())?);
                    want[b] = want[a].clone();
                }
            }
            Op28::CloneFrom(a, b) => {
                let x = ctx[a].take();
                if let (Some(x), Some(y)) = (&x, ctx[b].as_mut()) {
                    guarded(|| y.clone_from(x))?;
                    want[b] = want[a].clone();
                }
                ctx[a] = x;
            }
            // changes made by the harness itself
            Op28::Handler(c, h) => {
                if let Some(x) = ctx[c].as_mut() {
                    x.verif_set_error_handler(HANDLERS[h]);
                    want[c] = Some(shape(x));
                }
            }
            Op28::Fill(c) => {
                if let Some(x) = ctx[c].as_mut() {
                    x.verif_fill(20 + c as u16);
                    want[c] = Some(shape(x));
                }
            }
            Op28::New(c, d) => {
                let x = guarded(|| Context::new(data28(d)))?;
                if x.get_user_data() != data28(d).as_ref() {
                    return Err("a new context does not hold its user data".into());
                }
                want[c] = Some(shape(&x));
                ctx[c] = Some(x);
            }
            Op28::Drop(c) => {
                ctx[c] = None;
                want[c] = None;
            }
        }
        taken();
        for c in 0..3 {
            let got = ctx[c].as_ref().map(shape);
            if got != want[c] {
                return Err(format!(
                    "after step {} ({op:?}) context {c} is {got:?} instead of {:?}",
                    k + 1,
                    want[c]
                ));
            }
        }
        w.state(hash_of(&want.iter().map(|x| x.as_ref().map(|x| (&x.0, &x.2))).collect::<Vec<_>>()));
        w.obs(&ctx.iter().map(|c| c.is_some()).collect::<Vec<_>>());
    }
    // the process-wide context got nothing but opens
    let mut plain = Context::new(None);
    plain.verif_set_error_handler(looking);
    let (g, p) = (process_wide(&paths[1])?, shape(&plain));
    if g != p {
        return Err(format!("the process-wide context became {g:?} instead of {p:?}"));
    }
    w.traces += 1;
    w.nt();
    Ok(())
}

/// Lengths around every power of two up to 16 MiB, and some between.
fn long28() -> Vec<usize> {
    let mut v: Vec<usize> = (12..=24).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + (1 << (k - 1))]).collect();
    v.extend([3000, 10_000, 99_999, 100_000, 200_000, 1_000_000, 10_000_000]);
    v
}
pub fn c28(t: Tier) -> Check {
    let k = ops28().len() as u64;
    let depth = t.pick(3u32, 4);
    let list = |i| {
        let mut s = vec![];
        seq(i, ops28().len() as u64, 4, &mut s);
        s.iter().map(|j| ops28()[*j as usize]).collect::<Vec<_>>()
    };
    Check {
        id: "C28",
        level: "model_checking",
        rule: "every sequence up to the depth bound of operations over three context slots and the process-wide context; after each step every context's Debug text, functions and user data are compared with what it was given; non-trivial: the sequence ran to its end",
        assumptions: &["settings are put in place through the guarded hook: the library offers no public way"],
        sections: vec![
            Section::new(
                "user data of every length",
                3 * 2049,
                |i, w| {
                    let n = (i / 3) as usize;
                    let d: Box<[u8]> = (0..n).map(|k| [0, 255, k as u8 ^ 0x5A][(i % 3) as usize]).collect();
                    w.traces += 1;
                    w.nt();
                    let c = guarded(|| Context::new(Some(d.clone())))?;
                    let e = guarded(|| c.clone())?;
                    w.obs(&c.get_user_data().map(|b| b.len()));
                    let same = c.get_user_data() == Some(&d);
                    drop(c);
                    if !same || e.get_user_data() != Some(&d) {
                        return Err("user data differ from what was given".into());
                    }
                    Ok(())
                },
                |i| format!("{} bytes, pattern {}", i / 3, i % 3),
            ).parity(),
            Section::new(
                "user data of every content",
                crate::stream::CONTENTS * 4,
                |i, w| {
                    let mut d = crate::stream::content(i / 4).expect("within the count");
                    // followed by what text may be followed by
                    d.extend([&[][..], &[0; 9], &[b' '; 5], b"\r\n\0\0\0\0\0\xFF\xFF\xFF\xFF"][(i % 4) as usize]);
                    let d: Box<[u8]> = d.into();
                    w.traces += 1;
                    w.transitions += 2;
                    w.nt();
                    let c = guarded(|| Context::new(Some(d.clone())))?;
                    let e = guarded(|| c.clone())?;
                    let mut f = Context::new(None);
                    guarded(|| f.clone_from(&e))?;
                    w.obs(&c.get_user_data().map(|b| b.len()));
                    for (c, of) in [(&c, "the context"), (&e, "a clone"), (&f, "a context cloned into")] {
                        if c.get_user_data() != Some(&d) {
                            return Err(format!("the user data of {of} differ from what was given"));
                        }
                    }
                    Ok(())
                },
                |i| format!("content {}, ending {}", i / 4, i % 4),
            ),
            Section::new(
                "long user data, copied in every way",
                long28().len() as u64 * 3,
                |i, w| {
                    let n = long28()[(i / 3) as usize];
                    let d: Box<[u8]> = (0..n).map(|k| [0, 255, (k ^ k >> 8 ^ k >> 16) as u8 ^ 0x5A][(i % 3) as usize]).collect();
                    w.traces += 1;
                    w.transitions += 5;
                    w.nt();
                    let same = |c: &Context, of: &str| match c.get_user_data() {
                        Some(x) if *x == d => Ok(()),
                        x => Err(format!("{of} holds {:?} bytes of user data, or others, instead of the {n} given", x.as_ref().map(|x| x.len()))),
                    };
                    let c = guarded(|| Context::new(Some(d.clone())))?;
                    same(&c, "the context")?;
                    let e = guarded(|| c.clone())?;
                    same(&e, "a clone")?;
                    let mut f = Context::new(None);
                    guarded(|| f.clone_from(&e))?;
                    same(&f, "a context cloned into")?;
                    drop(e);
                    let mut g = Context::new(Some(d.iter().map(|b| !b).collect()));
                    guarded(|| g.clone_from(&f))?;
                    drop(f);
                    same(&g, "a context with data of its own cloned into")?;
                    let h = guarded(|| g.clone().clone())?;
                    w.obs(&h.get_user_data().map(|b| b.len()));
                    same(&h, "a clone of a clone")?;
                    same(&c, "the context after its clones")
                },
                |i| format!("{} bytes, pattern {}", long28()[(i / 3) as usize], i % 3),
            ).parity(),
            Section::new(
                "operation sequences",
                seqs(k, depth),
                move |i, w| run28(&list(i), w),
                move |i| format!("{:?}", list(i)),
            ).parity(),
        ],
    }
}

// ---------------------------------------------------------------- C30

thread_local! {
    /// what the recording handler saw of the context it was called with
    static SEEN: RefCell<Option<(String, Vec<usize>, Option<Vec<u8>>)>> = const { RefCell::new(None) };
}
fn looking(c: &mut Context, _: ErrorCode, _: String) {
    SEEN.with(|s| *s.borrow_mut() = Some(shape(c)));
}
/// The process-wide context as a handler sees it, `bad` being a file whose opening calls the handler.
fn process_wide(bad: &Path) -> Result<(String, Vec<usize>, Option<Vec<u8>>), String> {
    Context::verif_set_global_error_handler(looking);
    SEEN.with(|s| *s.borrow_mut() = None);
    guarded(|| mcglue::open(bad, false).is_ok())?;
    SEEN.with(|s| s.borrow_mut().take()).ok_or_else(|| "the process-wide context's handler was not called".into())
}
/// What a new context holds, and the process-wide one with the recording handler in it.
type Defaults = ((String, Vec<usize>, Option<Vec<u8>>), (String, Vec<usize>, Option<Vec<u8>>));
fn defaults() -> Defaults {
    let a = Context::new(None);
    let mut b = Context::new(None);
    b.verif_set_error_handler(looking);
    (shape(&a), shape(&b))
}
/// The library's documented defaults, from the text of a context: no entry in any plugin list, full
/// chromatic adaptation, out-of-gamut alarm in mid grey for the first three channels.
fn documented(text: &str) -> R {
    let flat: String = text.chars().filter(|c| !c.is_whitespace()).collect();
    for (name, value) in [
        ("user_data:", "None"),
        ("alarm_codes:", "[32512,32512,32512,0,0,0,0,0,0,0,0,0,0,0,0,0]"),
        ("adaption_state:", "1.0"),
        ("factory_list:", "[]"),
        ("tag_types:", "[]"),
        ("tags:", "[]"),
        ("intents:", "[]"),
        ("optimization_collection:", "[]"),
        ("transform_collection:", "[]"),
    ] {
        // the chunks carry the names of some of their fields
        for (at, _) in flat.match_indices(name) {
            let rest = &flat[at + name.len()..];
            let chunk = rest.starts_with(|c: char| c.is_ascii_uppercase()) && rest.contains('{') && !rest.starts_with("None");
            if !chunk && !rest.starts_with(value) {
                return Err(format!("{name} is not {value} in {flat}"));
            }
        }
    }
    Ok(())
}
fn fresh_one(want: &Defaults, bad: &Path, w: &mut W) -> R {
    w.transitions += 4;
    let c = guarded(|| Context::new(None))?;
    let s = shape(&c);
    if s != want.0 {
        return Err(format!("a new context is {s:?} instead of {:?}", want.0));
    }
    documented(&s.0)?;
    let d = guarded(|| Context::new(Some(Box::new([1, 2]))))?;
    let x = shape(&d);
    if x.1 != s.1 || x.2.as_deref() != Some(&[1, 2]) || x.0.replace("Some([1, 2])", "None") != s.0 {
        return Err(format!("a new context with user data is {x:?} instead of {s:?} with [1, 2]"));
    }
    let e = shape(&guarded(|| c.clone())?);
    if e != s {
        return Err(format!("a clone of a new context is {e:?} instead of {s:?}"));
    }
    let g = process_wide(bad)?;
    if g != want.1 {
        return Err(format!("the process-wide context is {g:?} instead of {:?}", want.1));
    }
    w.obs(&hash_of(&s.0));
    Ok(())
}
fn apply(ops: &[Op28], ctx: &mut [Option<Context>; 3], paths: &[PathBuf], out: &Path) -> R {
    for op in ops {
        match *op {
            Op28::Open(c, f) => {
                if c == 9 {
                    open_with(&mut None, &paths[f], false)?;
                } else if let Some(x) = ctx[c].as_mut() {
                    open_with(&mut Some(x), &paths[f], false)?;
                }
            }
            Op28::OpenW(c) => {
                let p = out;
                if c == 9 {
                    open_with(&mut None, p, true)?;
                } else if let Some(x) = ctx[c].as_mut() {
                    open_with(&mut Some(x), p, true)?;
                }
            }
            Op28::Init(c, n) => {
                if let Some(x) = ctx[c].as_mut() {
                    let _ = init(x, &chains18()[n])?;
                }
            }
            Op28::Clone(a, b) => {
                if let Some(x) = &ctx[a] {
                    ctx[b] = Some(guarded(|| x.clone())?);
                }
            }
            Op28::CloneFrom(a, b) => {
                let x = ctx[a].take();
                if let (Some(x), Some(y)) = (&x, ctx[b].as_mut()) {
                    guarded(|| y.clone_from(x))?;
                }
                ctx[a] = x;
            }
            Op28::Handler(c, h) => {
                if let Some(x) = ctx[c].as_mut() {
                    x.verif_set_error_handler(HANDLERS[h]);
                }
            }
            Op28::Fill(c) => {
                if let Some(x) = ctx[c].as_mut() {
                    x.verif_fill(20 + c as u16);
                }
            }
            Op28::New(c, d) => ctx[c] = Some(guarded(|| Context::new(data28(d)))?),
            Op28::Drop(c) => ctx[c] = None,
        }
    }
    Ok(())
}
pub const N_CHAINS: u64 = 4;
/// One registration of a chain of plugins.
pub fn register(c: &mut Context, k: usize) -> Result<(), String> {
    init(c, &chains18()[k])?
}
pub fn n_ops28() -> u64 {
    ops28().len() as u64
}
/// A history of three contexts, all dropped at the end.
pub fn apply28(s: &[u32], paths: &[PathBuf], out: &Path) -> R {
    let all = ops28();
    let ops: Vec<Op28> = s.iter().map(|k| all[*k as usize]).collect();
    let mut ctx = [Some(Context::new(data28(3))), None, Some(Context::new(None))];
    let r = apply(&ops, &mut ctx, paths, out);
    taken();
    r
}
pub fn show28(s: &[u32]) -> String {
    let all = ops28();
    format!("{:?}", s.iter().map(|k| all[*k as usize]).collect::<Vec<_>>())
}
fn run30(ops: &[Op28], want: &Defaults, w: &mut W) -> R {
    let (paths, out) = (files18(w), w.dir.join("written.icc"));
    let mut ctx: [Option<Context>; 3] = [Some(Context::new(data28(3))), None, Some(Context::new(None))];
    w.transitions += ops.len() as u64;
    apply(ops, &mut ctx, &paths, &out)?;
    fresh_one(want, &paths[1], w)?;
    w.state(hash_of(&ctx.iter().map(|c| c.as_ref().map(|c| shape(c).0)).collect::<Vec<_>>()));
    w.traces += 1;
    w.nt();
    Ok(())
}
/// The numbers of contexts a process makes: all at once, or one after the other.
fn many30(t: Tier) -> Vec<(usize, &'static str)> {
    let mut v = vec![];
    for how in ["held", "in turn", "clones held", "in threads"] {
        for n in [10usize, 300, 5_000, t.pick(70_000, 300_000)] {
            v.push((if how == "in threads" { n / 20 } else { n }, how));
        }
    }
    v
}
fn run_many30(n: usize, how: &str, want: &Defaults, bad: &Path) -> R {
    let same = |k: usize, c: &Context| {
        let s = shape(c);
        if s == want.0 { Ok(()) } else { Err(format!("context {k} of {n} ({how}) is {s:?} instead of {:?}", want.0)) }
    };
    let mut all = vec![];
    for k in 0..n {
        let c = if how == "in threads" {
            std::thread::scope(|s| s.spawn(|| Context::new(None)).join()).map_err(|_| "a thread was aborted".to_string())?
        } else if how == "clones held" && k > 0 {
            let c: &Context = &all[k - 1];
            c.clone()
        } else {
            Context::new(None)
        };
        same(k, &c)?;
        if how.ends_with("held") {
            all.push(c)
        }
    }
    for (k, c) in all.iter().enumerate().step_by(1 + n / 1000) {
        same(k, c)?;
    }
    drop(all);
    same(n, &Context::new(None))?;
    let g = process_wide(bad)?;
    if g != want.1 {
        return Err(format!("after {n} contexts ({how}) the process-wide context is {g:?} instead of {:?}", want.1));
    }
    Ok(())
}
pub fn c30(t: Tier) -> Check {
    let k = ops28().len() as u64;
    let depth = t.pick(3u32, 4);
    let list = |i| {
        let mut s = vec![];
        seq(i, ops28().len() as u64, 4, &mut s);
        s.iter().map(|j| ops28()[*j as usize]).collect::<Vec<_>>()
    };
    // taken before anything else happened in this process
    let want = std::sync::Arc::new(defaults());
    let (w1, w2, w3, w4) = (want.clone(), want.clone(), want.clone(), want);
    let many = many30(t);
    let show = many.clone();
    let nwork = 2 * mcglue::WORKS.len() as u64;
    Check {
        id: "C30",
        level: "model_checking",
        rule: "every sequence up to the depth bound of operations over three context slots and the process-wide context, every pair of other operations of the library, every open of the fault corpus, every single plugin; after each history a new context, one with user data, a clone and the process-wide context are compared with the documented defaults and with a context made at the start of the process; non-trivial: the history ran and the comparison was made",
        assumptions: &["a context's settings are read from its Debug text and its functions through the guarded hook: the library offers no public way", "the process-wide context is seen by its own error handler, installed through the guarded hook"],
        sections: vec![
            Section::new(
                "operation sequences",
                seqs(k, depth),
                move |i, w| run30(&list(i), &w1, w),
                move |i| format!("{:?}", list(i)),
            ),
            Section::new(
                "pairs of other operations",
                nwork * nwork,
                move |i, w| {
                    let paths = files18(w);
                    let mine = w.dir.join("own.bin");
                    for k in [i % nwork, i / nwork] {
                        guarded(|| mcglue::work(k as usize / 2, k % 2, &[&paths[0], &paths[10]], &mine))?;
                    }
                    w.traces += 1;
                    w.nt();
                    fresh_one(&w2, &paths[1], w)
                },
                move |i| format!("{} then {}", mcglue::WORKS[(i % nwork / 2) as usize], mcglue::WORKS[(i / nwork / 2) as usize]),
            ),
            Section::new(
                "every outcome in every context with every kind of plugin",
                NF as u64 * 2 * 3 * 10,
                move |i, w| {
                    let d = digits(i, &[NF as u64, 2, 3, 10]);
                    let paths = files18(w);
                    let mut c = Context::new(data28(d[2] as usize));
                    c.verif_fill(3);
                    if d[3] < 9 {
                        let _ = init(&mut c, &[good(d[3] as usize, VERSION)])?;
                    }
                    let mut it = (d[1] == 0).then_some(&mut c);
                    open_with(&mut it, &paths[d[0] as usize], false)?;
                    w.traces += 1;
                    w.nt();
                    fresh_one(&w3, &paths[1], w)
                },
                move |i| format!("(file, process-wide, user data, plugin) = {:?}", digits(i, &[NF as u64, 2, 3, 10])),
            ),
            Section::new(
                "very many contexts",
                many.len() as u64,
                move |i, w| {
                    let (n, how) = many[i as usize];
                    let paths = files18(w);
                    let m = w.take("mailbox", |_| crate::modes::Mailbox::new());
                    w.traces += 1;
                    w.transitions += n as u64;
                    w.nt();
                    let r = m.forked(|| guarded(|| run_many30(n, how, &w4, &paths[1])).and_then(|r| r).err().unwrap_or_default().into_bytes());
                    w.put("mailbox", m);
                    let e = r?;
                    if e.is_empty() { Ok(()) } else { Err(String::from_utf8_lossy(&e).into_owned()) }
                },
                move |i| format!("{:?}", show[i as usize]),
            ),
        ],
    }
}
