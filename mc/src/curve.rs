//! C23, C24, C25: the built-in parametric curves.
use crate::engine::*;
use lcms2::plugins::ParametricCurvesCollection;

pub type Set = <ParametricCurvesCollection as IntoIterator>::Item;

/// The curve types and their numbers of parameters, as Little CMS 2.13.1 declares them.
pub const DECLARED: [(i32, usize); 10] =
    [(1, 1), (2, 3), (3, 4), (4, 5), (5, 7), (6, 4), (7, 5), (8, 5), (108, 1), (109, 1)];
const TOL: f64 = 0.0001;
const INF: f64 = 1E22;

/// A value of the reference and the size of the terms it was computed from (for the rounding allowance).
#[derive(Clone, Copy, Debug)]
struct V {
    v: f64,
    m: f64,
}
fn v(v: f64) -> V {
    V { v, m: v.abs() }
}
fn sum(a: V, b: f64) -> V {
    V {
        v: a.v + b,
        m: a.m.max(b.abs()),
    }
}
fn over(a: V, b: f64) -> V {
    V {
        v: a.v / b,
        m: (a.m / b).abs(),
    }
}
fn zero(x: f64) -> bool {
    x.abs() < TOL
}
/// a*x + b
fn lin(a: f64, x: f64, b: f64) -> V {
    V {
        v: a * x + b,
        m: (a * x).abs().max(b.abs()),
    }
}
/// Where rounding decides the sign of a*x + b: the exact base, to be allowed as well.
fn at_root(a: f64, x: f64, b: f64) -> Option<V> {
    let e = lin(a, x, b);
    let exact = V { v: a.mul_add(x, b), m: e.m };
    (e.v.abs() <= 1e-13 * e.m && (e.v != 0.0 || exact.v != 0.0 || exact.v.is_sign_negative() != e.v.is_sign_negative())).then_some(exact)
}
/// base ^ g; the allowance grows with the exponent and with cancellation in the base
fn pow(b: V, g: f64) -> V {
    let p = b.v.powf(g);
    let loss = if b.v == 0.0 { 1.0 } else { (b.m / b.v).abs().max(1.0) };
    V {
        v: p,
        m: p.abs() * loss * (1.0 + g.abs()),
    }
}

/// The bits of a number; which not-a-number a calculation gives is not specified.
fn bits(y: f64) -> u64 {
    if y.is_nan() {
        1
    } else {
        y.to_bits()
    }
}

/// Sides of a comparison `x >= y` when y was computed with rounding: (is it, could it be either).
fn side(x: f64, y: f64, exact: bool) -> (bool, bool) {
    let near = (x - y).abs() <= 1e-12 * x.abs().max(y.abs()).max(1e-300);
    (x >= y, near && !exact)
}

/// The value(s) a curve may have at `x`, by the formulas of Little CMS 2.13.1 (cmsgamma.c).
fn reference(t: i32, p: &[f64], x: f64) -> Vec<V> {
    let g = p[0];
    let either = |s: (bool, bool), yes: V, no: V| -> Vec<V> {
        match s {
            (_, true) => vec![yes, no],
            (true, _) => vec![yes],
            _ => vec![no],
        }
    };
    let exact_pow = |g: f64| g == 1.0 || g == 0.0 || g == 2.0;
    match t {
        1 => vec![if x < 0.0 { if zero(g - 1.0) { v(x) } else { v(0.0) } } else { pow(v(x), g) }],
        -1 => vec![if x < 0.0 {
            if zero(g - 1.0) { v(x) } else { v(0.0) }
        } else if zero(g) {
            v(INF)
        } else {
            pow(v(x), 1.0 / g)
        }],
        2 | 3 => {
            let (a, b) = (p[1], p[2]);
            let c = if t == 3 { p[3] } else { 0.0 };
            if zero(a) {
                return vec![v(0.0)];
            }
            let mut disc = -b / a;
            let mut exact = disc.mul_add(a, b) == 0.0;
            if t == 3 && disc < 0.0 {
                disc = 0.0;
                exact = true;
            }
            let e = lin(a, x, b);
            // the formula, or zero where the base is not positive
            let f = if e.v > 0.0 { sum(pow(e, g), c) } else { v(0.0) };
            let mut r = either(side(x, disc, exact), f, v(c));
            if let Some(exact) = at_root(a, x, b) {
                // the sign of the base is rounding
                r.extend([v(0.0), sum(pow(e, g), c), sum(pow(exact, g), c), v(c)]);
            }
            r
        }
        -2 => {
            let (a, b) = (p[1], p[2]);
            if zero(g) || zero(a) {
                return vec![v(0.0)];
            }
            if x < 0.0 {
                return vec![v(0.0)];
            }
            let q = over(sum(pow(v(x), 1.0 / g), -b), a);
            vec![if q.v < 0.0 { V { v: 0.0, m: q.m } } else { q }]
        }
        -3 => {
            let (a, b, c) = (p[1], p[2], p[3]);
            if zero(a) {
                return vec![v(0.0)];
            }
            if x >= c {
                let e = sum(v(x), -c);
                vec![if e.v > 0.0 { over(sum(pow(e, 1.0 / g), -b), a) } else { v(0.0) }]
            } else {
                vec![v(-b / a)]
            }
        }
        4 | 5 => {
            let (a, b, c, d) = (p[1], p[2], p[3], p[4]);
            let (ee, ff) = if t == 5 { (p[5], p[6]) } else { (0.0, 0.0) };
            if x >= d {
                let e = lin(a, x, b);
                let up = sum(pow(e, g), ee);
                if let Some(exact) = at_root(a, x, b) {
                    return vec![up, sum(pow(exact, g), ee), v(ee)];
                }
                vec![if e.v > 0.0 { up } else { v(ee) }]
            } else {
                vec![lin(x, c, ff)]
            }
        }
        -4 => {
            let (a, b, c, d) = (p[1], p[2], p[3], p[4]);
            let e = lin(a, d, b);
            let disc = if e.v < 0.0 { 0.0 } else { e.v.powf(g) };
            let up = if zero(g) || zero(a) { v(0.0) } else { over(sum(pow(v(x), 1.0 / g), -b), a) };
            let lo = if zero(c) { v(0.0) } else { over(v(x), c) };
            if at_root(a, d, b).is_some() {
                return vec![up, lo];
            }
            either(side(x, disc, e.v < 0.0 || exact_pow(g)), up, lo)
        }
        -5 => {
            let (a, b, c, d, ee, ff) = (p[1], p[2], p[3], p[4], p[5], p[6]);
            let disc = lin(c, d, ff);
            let e = sum(v(x), -ee);
            let up = if e.v < 0.0 || zero(g) || zero(a) { v(0.0) } else { over(sum(pow(e, 1.0 / g), -b), a) };
            let lo = if zero(c) { v(0.0) } else { over(sum(v(x), -ff), c) };
            let exact = c.mul_add(d, ff) == disc.v;
            either(side(x, disc.v, exact), up, lo)
        }
        6 => {
            let e = lin(p[1], x, p[2]);
            let up = sum(pow(e, g), p[3]);
            if let Some(exact) = at_root(p[1], x, p[2]) {
                return vec![up, sum(pow(exact, g), p[3]), v(p[3])];
            }
            vec![if e.v < 0.0 { v(p[3]) } else { up }]
        }
        -6 => {
            if zero(p[1]) {
                return vec![v(0.0)];
            }
            let e = sum(v(x), -p[3]);
            vec![if e.v < 0.0 { v(0.0) } else { over(sum(pow(e, 1.0 / g), -p[2]), p[1]) }]
        }
        7 => {
            let q = pow(v(x), g);
            let e = V {
                v: p[2] * q.v + p[3],
                m: (p[2] * q.m).abs().max(p[3].abs()),
            };
            let loss = if e.v == 0.0 { 1.0 } else { (e.m / e.v).abs().max(1.0) };
            let l = V {
                v: p[1] * e.v.log10(),
                m: (p[1].abs()) * (e.v.log10().abs() + loss),
            };
            let up = sum(l, p[4]);
            if e.v.abs() <= 1e-13 * e.m && e.v != 0.0 {
                return vec![up, v(p[4])];
            }
            vec![if e.v <= 0.0 { v(p[4]) } else { up }]
        }
        -7 => {
            let (a, b, c, d) = (p[1], p[2], p[3], p[4]);
            if zero(g) || zero(a) || zero(b) {
                return vec![v(0.0)];
            }
            let arg = over(sum(v(x), -d), a);
            let ten = V {
                v: 10f64.powf(arg.v),
                m: 10f64.powf(arg.v) * (1.0 + 3.0 * arg.m),
            };
            let q = over(sum(ten, -c), b);
            let mut r = vec![pow(q, 1.0 / g)];
            if q.v.abs() <= 1e-13 * q.m {
                // zero or of either sign, by rounding
                r.extend([v(0.0), V { v: f64::NAN, m: 0.0 }, V { v: 0f64.powf(1.0 / g), m: 0.0 }, V { v: 0.0, m: q.m.powf(1.0 / g) * 1e9 }]);
            }
            r
        }
        8 => {
            let y = lin(p[2], x, p[3]);
            let q = p[1].powf(y.v);
            vec![sum(
                V {
                    v: p[0] * q,
                    m: (p[0] * q).abs() * (1.0 + y.m * p[1].abs().ln().abs()),
                },
                p[4],
            )]
        }
        -8 => {
            let (a, b, c, d, ee) = (p[0], p[1], p[2], p[3], p[4]);
            let disc = sum(v(x), -ee);
            if disc.v < 0.0 || zero(a) || zero(c) {
                return vec![v(0.0)];
            }
            let l = (disc.v / a).ln() / b.ln();
            let q = V {
                v: l,
                m: l.abs() + 1.0 / b.ln().abs(),
            };
            vec![over(sum(q, -d), c)]
        }
        108 => {
            if zero(g) {
                return vec![v(0.0)];
            }
            let i = pow(lin(-1.0, x, 1.0), 1.0 / g);
            let q = V {
                v: 1.0 - i.v,
                m: i.m.max(1.0),
            };
            vec![pow(q, 1.0 / g)]
        }
        -108 => {
            let i = pow(v(x), g);
            let q = pow(
                V {
                    v: 1.0 - i.v,
                    m: i.m.max(1.0),
                },
                g,
            );
            vec![V {
                v: 1.0 - q.v,
                m: q.m.max(1.0),
            }]
        }
        109 => {
            // 1/(1+e^-kt) - 1/2, scaled to pass through (0,0) and (1,1)
            let s = |t: f64| 1.0 / (1.0 + (-g * t).exp()) - 0.5;
            let k = 0.5 / s(1.0);
            let q = k * s(2.0 * x - 1.0) + 0.5;
            vec![V {
                v: q,
                m: q.abs() + k.abs() * (1.0 + s(1.0).abs().recip() * 0.1),
            }]
        }
        -109 => {
            let s1 = 1.0 / (1.0 + (-g).exp()) - 0.5;
            let k = 0.5 / s1;
            let u = (x - 0.5) / k + 0.5;
            let l = -((1.0 / u) - 1.0).ln() / g;
            let cond = (1.0 + 1.0 / (u * (1.0 - u)).abs().max(1e-300)) / g.abs() * (1.0 + 0.1 / s1.abs());
            vec![V {
                v: (l + 1.0) / 2.0,
                m: l.abs() + 1.0 + cond,
            }]
        }
        _ => vec![v(0.0)],
    }
}
fn close(got: f64, want: &V) -> bool {
    if want.v.is_nan() {
        return got.is_nan();
    }
    if want.v.is_infinite() {
        // at the edge of the range the last rounding decides
        return got == want.v || got.abs() > 1e300 && got.signum() == want.v.signum();
    }
    if got.is_infinite() {
        return want.v.abs() > 1e300;
    }
    let m = want.m.max(want.v.abs());
    (got - want.v).abs() <= 1e-9 * m || got == want.v || (m.is_nan() || m.is_infinite()) && !got.is_nan()
}

pub fn set(w: &mut W) -> Set {
    w.take("curves", |_| Set::default())
}
fn compare(t: i32, p: &[f64], x: f64, got: f64) -> R {
    let want = reference(t, p, x);
    if want.iter().any(|r| close(got, r)) {
        return Ok(());
    }
    Err(format!(
        "type {t} with {p:?} at {x:?} is {got:?} instead of {:?}",
        want.iter().map(|r| r.v).collect::<Vec<_>>()
    ))
}

/// Values a parameter takes, per role.
const G: [f64; 18] = [
    1.0, 2.0, 2.4, 0.5, 3.0, 0.45, 1.00009, 1.00011, 0.99991, 0.00009, 0.00011, 0.0, -0.00009, -0.5, -1.0, -2.0, 10.0, 0.1,
];
const A: [f64; 12] = [1.0, 0.5, 2.0, 0.948, -1.0, -0.5, 0.0, 0.00009, 0.00011, -0.00009, -0.00011, 8.0];
const B: [f64; 9] = [0.0, 0.5, 0.052, -0.5, 1.0, -1.0, 0.00005, -0.25, 3.0];
const C: [f64; 9] = [0.0, 0.077, 0.5, -0.5, 1.0, 0.00009, 0.00011, -0.00009, 12.92];
const D: [f64; 8] = [0.0, 0.04045, 0.5, -0.5, 1.0, 2.0, -2.0, 0.25];
const E: [f64; 5] = [0.0, 0.1, -0.25, 1.0, -3.0];
/// slopes of the type 8 exponent and bases
const BASE: [f64; 9] = [2.0, 10.0, 0.5, 1.0, 0.0, -1.0, 1.5, 0.00009, 1.00009];
const SIG: [f64; 14] = [1.0, 0.5, 2.0, 5.0, 10.0, -1.0, -4.0, 0.01, 0.00011, 0.00009, 0.0, 3.3, 0.25, 50.0];
fn roles(t: i32) -> Vec<&'static [f64]> {
    match t.abs() {
        1 => vec![&G],
        2 => vec![&G, &A, &B],
        3 => vec![&G, &A, &B, &C],
        4 => vec![&G, &A, &B, &C, &D],
        5 => vec![&G, &A[..8], &B[..6], &C[..8], &D[..5], &E[..4], &E[..4]],
        6 => vec![&G, &A, &B, &C],
        7 => vec![&G, &A, &A, &C, &E],
        8 => vec![&A, &BASE, &A, &D, &E],
        108 => vec![&SIG],
        _ => vec![&SIG],
    }
}
const XS: [f64; 38] = [
    0.0, 0.5, 1.0, 0.25, 0.75, 0.1, 0.9, 0.04045, 0.0031308, 0.01, 0.99, 0.3333, 1e-6, -0.25, -0.5, -1.0, -2.0, 1.25, 1.5, 2.0, 4.0,
    10.0, -10.0, 100.0, -100.0, 1e-12, -1e-12, 1e6, -1e6, 1e-300, 1e300, -1e300, 0.00005, -0.00005, -0.0, 0.00009, 0.00011, 0.999999,
];
/// The branch points of a curve and their neighbours.
fn edges(t: i32, p: &[f64]) -> Vec<f64> {
    let mut v = vec![];
    match t {
        2 | 3 | 6 => v.push(-p[2] / p[1]),
        4 | 5 => v.extend([p[4], -p[2] / p[1]]),
        -3 | -6 => v.push(p[3]),
        -4 => v.push((p[1] * p[4] + p[2]).powf(p[0])),
        -5 => v.extend([p[3] * p[4] + p[6], p[5]]),
        -8 => v.push(p[4]),
        -2 => v.push(p[2].powf(p[0])),
        _ => {}
    }
    let mut o = vec![];
    for x in v {
        if x.is_finite() {
            o.extend([x, x + 0.001, x - 0.001, x.next_up(), x.next_down()]);
        }
    }
    o
}
trait Next {
    fn next_up(self) -> f64;
    fn next_down(self) -> f64;
}
impl Next for f64 {
    fn next_up(self) -> f64 {
        if self == 0.0 {
            return f64::from_bits(1);
        }
        let b = self.to_bits();
        f64::from_bits(if self > 0.0 { b + 1 } else { b - 1 })
    }
    fn next_down(self) -> f64 {
        -Next::next_up(-self)
    }
}
fn params(t: i32, i: u64) -> Vec<f64> {
    let r = roles(t);
    let radix: Vec<u64> = r.iter().map(|s| s.len() as u64).collect();
    digits(i, &radix).iter().zip(&r).map(|(d, s)| s[*d as usize]).collect()
}
fn n_params(t: i32) -> u64 {
    roles(t).iter().map(|s| s.len() as u64).product()
}

fn formula(t: i32) -> Section {
    const NAMES: [[&str; 2]; 10] = [
        ["type 1", "type -1"], ["type 2", "type -2"], ["type 3", "type -3"], ["type 4", "type -4"], ["type 5", "type -5"],
        ["type 6", "type -6"], ["type 7", "type -7"], ["type 8", "type -8"], ["type 108", "type -108"], ["type 109", "type -109"],
    ];
    let k = DECLARED.iter().position(|d| d.0 == t.abs()).expect("declared");
    Section::new(
        NAMES[k][(t < 0) as usize],
        n_params(t),
        move |i, w| {
            let p = params(t, i);
            let s = set(w);
            let f = s.evaluator;
            let xs: Vec<f64> = XS.iter().copied().chain(edges(t, &p)).collect();
            let mut first = Vec::with_capacity(xs.len());
            for x in &xs {
                let y = f(t, &p, *x);
                w.transitions += 1;
                w.obs(&bits(y));
                compare(t, &p, *x, y)?;
                first.push(y);
            }
            // in another order, and mixed with other curves, the values are the same
            for k in (0..xs.len()).rev() {
                f(-t, &p, xs[k]);
                let y = f(t, &p, xs[k]);
                if y.to_bits() != first[k].to_bits() && !(y.is_nan() && first[k].is_nan()) {
                    return Err(format!("type {t} with {p:?} at {:?} is {y:?}, earlier {:?}", xs[k], first[k]));
                }
            }
            // no number aborts
            for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE] {
                f(t, &p, x);
            }
            w.put("curves", s);
            w.nt();
            w.state(hash_of(&first.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
            Ok(())
        },
        move |i| format!("type {t} with {:?}", params(t, i)),
    )
    .parity()
}
/// Dense inputs on curves in actual use.
fn dense(t: Tier) -> Section {
    const USED: [(i32, [f64; 7]); 14] = [
        (1, [2.2, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
        (1, [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
        (2, [2.4, 0.9, 0.1, 0.0, 0.0, 0.0, 0.0]),
        (3, [2.4, 0.9, 0.1, 0.2, 0.0, 0.0, 0.0]),
        (4, [2.4, 1.0 / 1.055, 0.055 / 1.055, 1.0 / 12.92, 0.04045, 0.0, 0.0]),
        (4, [1.0 / 0.45, 1.0 / 1.099, 0.099 / 1.099, 1.0 / 4.5, 0.081, 0.0, 0.0]),
        (5, [2.4, 0.9, 0.1, 0.08, 0.04, 0.01, 0.005]),
        (6, [2.4, 0.9, 0.1, 0.2, 0.0, 0.0, 0.0]),
        (7, [1.5, 0.6, 2.0, 0.7, 0.1, 0.0, 0.0]),
        (8, [0.9, 1.7, 1.3, 0.2, 0.1, 0.0, 0.0]),
        (108, [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
        (108, [2.2, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
        (109, [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
        (109, [6.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
    ];
    let n = t.pick(65_537u64, 1_048_577);
    let dec = move |i: u64| {
        let (c, k) = ((i / n) as usize, i % n);
        let (ty, p) = USED[c / 2];
        // -0.25 .. 1.25
        (if c % 2 == 0 { ty } else { -ty }, p, k as f64 / (n - 1) as f64 * 1.5 - 0.25)
    };
    Section::new(
        "curves in use at every 16-bit input",
        n * 28,
        move |i, w| {
            let (ty, p, x) = dec(i);
            let np = DECLARED.iter().find(|d| d.0 == ty.abs()).expect("declared").1;
            let s = set(w);
            let y = (s.evaluator)(ty, &p[..np], x);
            w.put("curves", s);
            w.obs(&bits(y));
            w.transitions += 1;
            w.nt();
            compare(ty, &p[..np], x, y)
        },
        move |i| format!("{:?}", dec(i)),
    )
    .parity()
}

/// One parameter of curves in use at a time, over every value it takes in steps; gammas at every 8.8 code.
const SWEPT: [(i32, [f64; 7]); 20] = [
    (1, [2.2, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
    (2, [2.2, 0.9, 0.1, 0.0, 0.0, 0.0, 0.0]),
    (2, [1.8, 1.1, -0.2, 0.0, 0.0, 0.0, 0.0]),
    (3, [2.2, 0.9, 0.1, 0.05, 0.0, 0.0, 0.0]),
    (3, [3.0, 1.0 / 1.16, 0.16 / 1.16, 0.0, 0.0, 0.0, 0.0]),
    (4, [2.4, 1.0 / 1.055, 0.055 / 1.055, 1.0 / 12.92, 0.04045, 0.0, 0.0]),
    (4, [1.0 / 0.45, 1.0 / 1.099, 0.099 / 1.099, 1.0 / 4.5, 0.081, 0.0, 0.0]),
    (4, [1.8, 1.0, 0.0, 1.0 / 16.0, 0.031248, 0.0, 0.0]),
    (5, [2.4, 1.0 / 1.055, 0.055 / 1.055, 1.0 / 12.92, 0.04045, 0.0, 0.0]),
    (5, [2.2, 0.8, 0.2, 0.3, 0.25, -0.05, 0.02]),
    (5, [3.0, 1.1, -0.05, 2.0, 0.1, 0.2, -0.1]),
    (6, [2.2, 0.9, 0.1, 0.05, 0.0, 0.0, 0.0]),
    (6, [1.0, 1.5, -0.25, 0.1, 0.0, 0.0, 0.0]),
    (7, [1.0, 0.5, 9.0, 1.0, 0.0, 0.0, 0.0]),
    (7, [1.5, -0.6, 2.0, 0.7, 0.1, 0.0, 0.0]),
    (8, [0.9, 1.7, 1.3, 0.2, 0.1, 0.0, 0.0]),
    (8, [1.0, 10.0, -0.5, 0.3, -0.1, 0.0, 0.0]),
    (108, [2.2, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
    (109, [6.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
    (109, [-2.5, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]),
];
/// Constants of the curves in use.
const KNOWN: [f64; 40] = [
    0.0031308, 0.00313, 0.003130668442500634, 0.003041, 0.0030412825601275209, 0.03928, 0.04045, 0.0404500, 0.0392857, 0.055, 1.055, 1.0 / 1.055, 0.055 / 1.055, 12.92, 1.0 / 12.92,
    12.9232102, 0.099, 1.099, 1.0 / 1.099, 0.099 / 1.099, 0.081, 0.018, 4.5, 1.0 / 4.5, 1.09929682680944, 0.018053968510807, 0.01805396851, 16.0 / 116.0, 1.16, 0.16, 9.033, 903.3,
    24389.0 / 27.0, 216.0 / 24389.0, 0.08, 0.001953125, 0.03125, 563.0 / 256.0, 461.0 / 256.0, 0.88,
];
/// A parameter's value: a multiple of 1/per, decimals of three to five digits, reciprocals, and the known constants.
fn value(k: u64, per: u64, span: u64) -> f64 {
    let n = 2 * span * per + 1;
    match k {
        k if k < n => k as f64 / per as f64 - span as f64,
        k if k < n + 20_001 => (k - n) as f64 / 1000.0 - 10.0,
        k if k < n + 30_001 => (k - n - 20_000) as f64 / 10_000.0,
        k if k < n + 40_001 => (k - n - 30_000) as f64 / 100_000.0,
        k if k < n + 50_001 => 1.0 / ((k - n - 40_000) as f64 / 1000.0),
        k => {
            let k = (k - n - 50_001) as usize;
            let v = KNOWN[k / 4];
            [v, -v, 1.0 / v, -1.0 / v][k % 4]
        }
    }
}
fn values(per: u64, span: u64) -> u64 {
    2 * span * per + 1 + 50_001 + 160
}
fn swept(per: u64, span: u64, curves: Vec<(i32, [f64; 7])>) -> (u64, impl Fn(u64) -> (i32, Vec<f64>) + Clone + Send + Sync) {
    let n = values(per, span);
    let lines: Vec<(i32, [f64; 7], usize)> =
        curves.into_iter().flat_map(|(ty, p)| (0..DECLARED.iter().find(|d| d.0 == ty.abs()).expect("declared").1).map(move |k| (ty, p, k))).collect();
    let total = lines.len() as u64 * n;
    (total, move |i: u64| {
        let (ty, p, at) = lines[(i / n) as usize];
        let mut p = p.to_vec();
        p[at] = value(i % n, per, span);
        p.truncate(DECLARED.iter().find(|d| d.0 == ty.abs()).expect("declared").1);
        (ty, p)
    })
}
fn sweeps(t: Tier) -> Section {
    // steps of 1/per, from -span to span
    let per = t.pick(256u64, 2048);
    let span = t.pick(32u64, 64);
    let (total, dec) = swept(per, span, SWEPT.iter().flat_map(|(ty, p)| [(*ty, *p), (-*ty, *p)]).collect());
    let d2 = dec.clone();
    Section::new(
        "one parameter swept",
        total,
        move |i, w| {
            let (ty, p) = dec(i);
            let s = set(w);
            for x in IN.iter().copied().chain(edges(ty, &p)) {
                let y = (s.evaluator)(ty, &p, x);
                w.transitions += 1;
                w.obs(&bits(y));
                compare(ty, &p, x, y)?;
            }
            w.put("curves", s);
            w.nt();
            Ok(())
        },
        move |i| format!("{:?}", d2(i)),
    )
}
fn gamma(k: u64) -> f64 {
    match k {
        k if k < 65_536 => k as f64 / 256.0,
        k if k < 75_536 => (k - 65_536) as f64 / 1000.0,
        k => 1.0 / ((k - 75_535) as f64 / 1000.0),
    }
}
fn gammas(t: Tier) -> Section {
    const TYPES: [i32; 6] = [1, -1, 108, -108, 109, -109];
    let xs = t.pick(32u64, 255);
    Section::new(
        "every gamma of sixteen bits or a few digits",
        6 * (65_536 + 20_000),
        move |i, w| {
            let (ty, g) = (TYPES[(i % 6) as usize], gamma(i / 6));
            let s = set(w);
            // inputs in 0 .. 1, and one beyond each end
            for k in 0..xs + 3 {
                let x = (k as f64 - 1.0) / xs as f64;
                let y = (s.evaluator)(ty, &[g], x);
                w.transitions += 1;
                w.obs(&bits(y));
                compare(ty, &[g], x, y)?;
            }
            w.put("curves", s);
            w.nt();
            Ok(())
        },
        |i| format!("type {} with {}", TYPES[(i % 6) as usize], gamma(i / 6)),
    )
}

/// A curve right after one that differs from it in one place only: what was kept of the first must not show.
fn in_turn(t: Tier) -> Section {
    // changes of one value: below single precision, small, sign, exchange, large
    fn other(v: f64, k: u64) -> f64 {
        match k {
            0 => v,
            1 => v * (1.0 + 3e-8) + if v == 0.0 { 3e-8 } else { 0.0 },
            2 => v + 1e-5,
            3 => v + 0.001,
            4 => -v,
            5 => v + 0.5,
            _ => v + 256.0,
        }
    }
    const X: [f64; 9] = [1e-9, 0.5, 0.3, 0.04, 0.9, 2.0, -0.4, 1e-3, 1.0];
    const CH: u64 = 7;
    let picks = t.pick(200u64, 2000);
    let types: Vec<i32> = DECLARED.iter().flat_map(|d| [d.0, -d.0]).collect();
    let dec = move |i: u64| {
        let d = digits(i, &[CH, 8, picks, 20]);
        let ty = types[d[3] as usize];
        let n = n_params(ty);
        (ty, params(ty, (d[2] * n / picks + d[2] * 7) % n), d[1] as usize, d[0])
    };
    let d2 = dec.clone();
    Section::new(
        "a curve after one that differs in one place",
        CH * 8 * picks * 20,
        move |i, w| {
            let (ty, p, at, k) = dec(i);
            let s = set(w);
            let f = s.evaluator;
            w.nt();
            for x in X {
                // the other: one parameter (at), the input (7) or the type (change 6 of the input)
                let (mut q, mut y, mut u) = (p.clone(), x, ty);
                if at < q.len() {
                    q[at] = other(q[at], k);
                } else if at == 7 {
                    match k {
                        0 => u = -ty,
                        6 => u = DECLARED[(i % 10) as usize].0,
                        _ => y = other(x, k),
                    }
                }
                q.resize(7.max(q.len()), 0.25);
                let nq = DECLARED.iter().find(|d| d.0 == u.abs()).expect("declared").1;
                for (a, b) in [((u, &q[..nq], y), (ty, &p[..], x)), ((ty, &p[..], x), (u, &q[..nq], y))] {
                    let first = f(b.0, b.1, b.2);
                    let between = f(a.0, a.1, a.2);
                    let again = f(b.0, b.1, b.2);
                    let after = f(b.0, b.1, b.2);
                    w.transitions += 4;
                    w.obs(&bits(again));
                    for (c, v) in [(b, first), (a, between), (b, again), (b, after)] {
                        compare(c.0, c.1, c.2, v).map_err(|e| format!("{e}, after type {} with {:?} at {:?}", a.0, a.1, a.2))?;
                    }
                    let same = |v: f64| v.to_bits() == first.to_bits() || v.is_nan() && first.is_nan();
                    if !same(again) || !same(after) {
                        return Err(format!("type {} with {:?} at {:?} is {first:?}, after type {} with {:?} at {:?} {again:?}", b.0, b.1, b.2, a.0, a.1, a.2));
                    }
                }
            }
            w.put("curves", s);
            Ok(())
        },
        move |i| format!("(type, parameters, place, change) = {:?}", d2(i)),
    )
    .parity()
}

pub fn c23(t: Tier) -> Check {
    let mut sections = vec![in_turn(t)];
    for (ty, _) in DECLARED {
        sections.push(formula(ty));
        sections.push(formula(-ty));
    }
    sections.extend([dense(t), sweeps(t), gammas(t)]);
    Check {
        id: "C23",
        level: "model_checking",
        rule: "every combination of the parameter values of each role (ordinary values and both sides of every divisor tolerance), each at every input of the grid and at the curve's own branch points and their neighbours, against an independent implementation of the documented formulas; one evaluation is one parameter combination with all its inputs; non-trivial: all compared",
        assumptions: &["between grid values the branch structure is the one compared (every branch and boundary of the formulas has grid points)", "values are compared up to 1e-9 of the terms they are computed from; on a boundary that is itself rounded either branch is accepted", "not-a-number inputs are only required not to abort"],
        sections,
    }
}

// ---------------------------------------------------------------- C24

/// Is the forward curve strictly monotone near x, and x within its documented domain?
fn in_domain(t: i32, p: &[f64], x: f64) -> bool {
    let g = p[0];
    match t {
        1 => !zero(g) && if zero(g - 1.0) && g != 1.0 { x > 0.0 } else if g == 1.0 { true } else { x > 0.0 || x == 0.0 && g > 0.0 },
        2 => g >= TOL && p[1] >= TOL && x >= 0.0 && p[1] * x + p[2] > 0.0,
        3 => g >= TOL && p[1] >= TOL && x >= 0.0 && p[1] * x + p[2] > 0.0,
        4 | 5 => {
            let (a, b, c, d) = (p[1], p[2], p[3], p[4]);
            let (e, f) = if t == 5 { (p[5], p[6]) } else { (0.0, 0.0) };
            if g < TOL || a < TOL || c < TOL || a * d + b < 0.0 {
                return false;
            }
            let gap = ((a * d + b).powf(g) + e) - (c * d + f);
            // an upward jump is fine; a rounding-sized one cannot be told from none
            gap >= -1e-12 && (gap > 1e-9 || gap.abs() < 1e-12) && ((x - d).abs() > 1e-6 || gap.abs() < 1e-12) && (t == 5 || d >= 0.0 || x >= 0.0)
        }
        6 => !zero(g) && !zero(p[1]) && p[1] * x + p[2] > 0.0,
        7 => !zero(g) && !zero(p[1]) && !zero(p[2]) && x > 0.0 && p[2] * x.powf(g) + p[3] > 0.0,
        8 => p[0] >= TOL && p[1] > TOL && (p[1] - 1.0).abs() > 0.01 && !zero(p[2]),
        108 => g > TOL && (0.0..=1.0).contains(&x),
        109 => g.abs() > 0.01 && (0.0..=1.0).contains(&x),
        _ => false,
    }
}
fn scale(t: i32, p: &[f64], x: f64, y: f64) -> f64 {
    let k: f64 = match t {
        3 => p[3].abs().max(p[2].abs()),
        4 => p[2].abs(),
        5 => p[2].abs().max(p[5].abs()).max(p[6].abs()),
        2 => p[2].abs(),
        6 => p[3].abs().max(p[2].abs()),
        7 => p[1].abs() * 16.0 + p[4].abs(),
        8 => p[4].abs(),
        _ => 1.0,
    };
    y.abs().max(x.abs()).max(k).max(1.0)
}
/// g(f(x)) = x wherever the forward step tells x from x ± δ by more than rounding.
fn undone(f: impl Fn(f64) -> f64, g: impl Fn(f64) -> f64, x: f64, dom: impl Fn(f64) -> bool, sc: impl Fn(f64, f64) -> f64) -> Result<bool, String> {
    let y = f(x);
    let d = 1e-6 * x.abs().max(1e-3);
    if !y.is_finite() {
        return Ok(false);
    }
    let mut steep = false;
    for q in [x + d, x - d] {
        if dom(q) {
            let z = f(q);
            if !z.is_finite() || (z - y).abs() < 1e-10 * sc(x, y) {
                return Ok(false);
            }
            steep = true;
        }
    }
    if !steep {
        return Ok(false);
    }
    let z = g(y);
    if (z - x).abs() > d {
        return Err(format!("{x:?} goes to {y:?}, which goes back to {z:?}"));
    }
    Ok(true)
}
const IN: [f64; 26] = [
    0.0, 0.5, 1.0, 0.25, 0.75, 0.1, 0.9, 0.04045, 0.02, 0.01, 0.99, 0.3333, 0.6, 0.8, 0.001, -0.25, -0.5, -1.0, -2.0, 1.25, 1.5, 2.0, 4.0, 10.0,
    0.45, 0.05,
];
/// Terms so large that the result is all cancellation.
fn ill(t: i32, p: &[f64], x: f64) -> bool {
    match t {
        7 => {
            let q = p[2] * x.powf(p[0]);
            !(q.abs() > 1e-4 && q.abs() < 1e6 && (q + p[3]) > 1e-6)
        }
        8 => {
            let q = p[0] * p[1].powf(p[2] * x + p[3]);
            !(q > 1e-6 && q < 1e6)
        }
        1 => !(1e-6..1e6).contains(&x.abs().powf(p[0])) && x != 0.0,
        2..=6 => {
            let e = p[1] * x + p[2];
            let lin = (t == 4 || t == 5) && x < p[4];
            !lin && (!(1e-3..1e4).contains(&e) || !(1e-6..1e6).contains(&e.powf(p[0])))
        }
        _ => false,
    }
}
fn inverse_case(t: i32, p: &[f64], back: bool, w: &mut W) -> R {
    let s = set(w);
    let ev = s.evaluator;
    let mut any = false;
    for x in IN {
        if !in_domain(t, p, x) || ill(t, p, x) {
            continue;
        }
        let dom = |q: f64| in_domain(t, p, q) && !ill(t, p, q);
        w.transitions += 1;
        let r = if !back {
            undone(|x| ev(t, p, x), |y| ev(-t, p, y), x, dom, |x, y| scale(t, p, x, y))
        } else {
            // outputs of the reference, so that they lie in the range whatever the forward curve does
            let y = reference(t, p, x)[0].v;
            if !y.is_finite() || reference(t, p, x).len() > 1 {
                continue;
            }
            // stay inside the range: only test where the neighbours are in it as well
            let h = 1e-5 * x.abs().max(1e-2);
            if !dom(x + h) || !dom(x - h) {
                continue;
            }
            undone(|y| ev(-t, p, y), |x| ev(t, p, x), y, |_| true, |y, x| scale(t, p, x, y))
        };
        match r {
            Ok(b) => any |= b,
            Err(e) => {
                w.put("curves", s);
                return Err(format!("type {t} with {p:?}: {e}"));
            }
        }
    }
    w.put("curves", s);
    if any {
        w.nt();
    }
    w.obs(&any);
    w.traces += 1;
    Ok(())
}
fn inverse_swept(t: Tier, back: bool) -> Section {
    let (total, dec) = swept(t.pick(256, 2048), t.pick(16, 64), SWEPT.to_vec());
    let d2 = dec.clone();
    Section::new(
        ["one parameter swept, there and back", "one parameter swept, back and there"][back as usize],
        total,
        move |i, w| {
            let (ty, p) = dec(i);
            inverse_case(ty, &p, back, w)
        },
        move |i| format!("{:?}", d2(i)),
    )
}
fn inverse(t: i32, back: bool) -> Section {
    const NAMES: [[&str; 2]; 10] = [
        ["1 then -1", "-1 then 1"], ["2 then -2", "-2 then 2"], ["3 then -3", "-3 then 3"], ["4 then -4", "-4 then 4"],
        ["5 then -5", "-5 then 5"], ["6 then -6", "-6 then 6"], ["7 then -7", "-7 then 7"], ["8 then -8", "-8 then 8"],
        ["108 then -108", "-108 then 108"], ["109 then -109", "-109 then 109"],
    ];
    let k = DECLARED.iter().position(|d| d.0 == t).expect("declared");
    Section::new(
        NAMES[k][back as usize],
        n_params(t),
        move |i, w| inverse_case(t, &params(t, i), back, w),
        move |i| format!("type {t} with {:?}", params(t, i)),
    )
}
pub fn c24(t: Tier) -> Check {
    let mut sections = vec![];
    for (ty, _) in DECLARED {
        sections.push(inverse(ty, false));
        sections.push(inverse(ty, true));
    }
    sections.extend([inverse_swept(t, false), inverse_swept(t, true)]);
    let n = t.pick(4097u64, 262_145);
    const ONE: [(i32, f64); 12] = [
        (1, 2.2), (1, 0.45), (1, 1.0), (1, -1.0), (108, 1.0), (108, 2.2), (108, 0.5), (109, 1.0), (109, 4.0), (109, 9.0), (109, -3.0), (109, 0.1),
    ];
    sections.push(Section::new(
        "one-parameter curves, dense",
        n * 12,
        move |i, w| {
            let (ty, g) = ONE[(i / n) as usize];
            let x = (i % n) as f64 / (n - 1) as f64;
            let p = [g];
            let s = set(w);
            let ev = s.evaluator;
            w.put("curves", s);
            w.transitions += 1;
            if !in_domain(ty, &p, x) || ill(ty, &p, x) {
                return Ok(());
            }
            let dom = |q: f64| in_domain(ty, &p, q) && !ill(ty, &p, q);
            if undone(|x| ev(ty, &p, x), |y| ev(-ty, &p, y), x, dom, |x, y| scale(ty, &p, x, y))? {
                w.nt();
            }
            Ok(())
        },
        move |i| format!("{:?} at {} of {}", ONE[(i / n) as usize], i % n, n - 1),
    ));
    Check {
        id: "C24",
        level: "model_checking",
        rule: "every parameter combination of the grid for which the forward curve is strictly monotone, each at every grid input in its domain, applied forward and back and back and forward; non-trivial: at least one input whose image is distinguishable from its neighbours' by more than rounding came back within 1e-6",
        assumptions: &["inputs where rounding alone hides the difference to a neighbour 1e-6 away are not judged"],
        sections,
    }
}

// ---------------------------------------------------------------- C25

/// Sets as a user would make them: every list of up to three ids, asked for every number and its neighbours.
fn user_sets() -> Section {
    const IDS: [i32; 16] = [0, 1, -1, 2, -2, 3, 8, 108, -108, 109, 110, 65536, 65537, i32::MAX, -i32::MAX, i32::MIN];
    fn two(_: i32, p: &[f64], x: f64) -> f64 {
        p.len() as f64 + x
    }
    let list = |i: u64| {
        let mut v = vec![];
        seq(i, 16, 3, &mut v);
        v.iter().map(|d| IDS[*d as usize]).collect::<Vec<_>>()
    };
    Section::new(
        "sets of the user's own",
        seqs(16, 3) * 3,
        move |i, w| {
            let ids = list(i / 3);
            let mut s = Set::default();
            if i % 3 == 0 {
                s.curves.clear();
            }
            if i % 3 == 1 {
                s.evaluator = two;
            }
            let mut all: Vec<i32> = s.curves.iter().map(|c| c.function_curve_id).collect();
            all.extend(&ids);
            if let Some(one) = Set::default().curves.first() {
                for id in &ids {
                    let mut c = one.clone();
                    (c.function_curve_id, c.parameter_count) = (*id, 2);
                    s.curves.push(c);
                }
            }
            let s = s.clone();
            w.nt();
            for id in IDS {
                for t in [id, id.wrapping_neg(), id.wrapping_add(1), id.wrapping_sub(1), id ^ 0x100, id ^ i32::MIN] {
                    w.transitions += 1;
                    let want = all.iter().position(|x| (*x as i64).abs() == (t as i64).abs());
                    let got = s.is_in_set(t);
                    if got != want {
                        return Err(format!("type {t} is found at {got:?}, must be {want:?}"));
                    }
                }
            }
            if i % 3 == 1 && (s.evaluator)(5, &[1.0, 2.0], 0.5) != 2.5 {
                return Err("the set's own evaluator is not the one it was given".into());
            }
            Ok(())
        },
        move |i| format!("{} {:?}", ["only", "the built-in set and, with another evaluator,", "the built-in set and"][(i % 3) as usize], list(i / 3)),
    )
}

const MANY: [u64; 21] = [4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 1000];
/// Large sets in every kind of order.
fn large_sets() -> Section {
    let radix = [12u64, 8, 2, MANY.len() as u64];
    let list = move |i: u64| {
        let d = digits(i, &radix);
        let n = MANY[d[3] as usize] as i64;
        // which number stands at place j
        let order = |j: i64| match d[0] {
            0 => j,
            1 => n - 1 - j,
            2 => (j + n / 2) % n,
            3 => (j + n - 1) % n,
            4 => j ^ 1,
            5 => j.swap(n),
            6 => (j * 7 + 3) % n,
            7 => if j == n - 1 { 0 } else { j + 1 },
            8 => j / 2,
            9 => if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 },
            10 => if j == n / 3 { n } else { j },
            _ => j % 3,
        };
        let number = |k: i64| match d[1] {
            0 => k,
            1 => k + 1,
            2 => -k - 1,
            3 => if k % 2 == 0 { k + 1 } else { -k - 1 },
            4 => k * 2 + 101,
            5 => k * 65536,
            6 => i32::MAX as i64 - k,
            _ => i32::MIN as i64 + k,
        };
        (0..n).map(|j| number(order(j)) as i32).collect::<Vec<_>>()
    };
    trait Swap {
        fn swap(self, n: i64) -> i64;
    }
    impl Swap for i64 {
        /// the two in the middle in turned order
        fn swap(self, n: i64) -> i64 {
            match self {
                j if j == n / 2 => j - 1,
                j if j == n / 2 - 1 => j + 1,
                j => j,
            }
        }
    }
    Section::new(
        "large sets in every kind of order",
        radix.iter().product(),
        move |i, w| {
            let ids = list(i);
            let built_in = digits(i, &radix)[2] == 1;
            let mut s = Set::default();
            let one = s.curves.first().ok_or("the built-in set is empty")?.clone();
            if !built_in {
                s.curves.clear();
            }
            let mut all: Vec<i32> = s.curves.iter().map(|c| c.function_curve_id).collect();
            all.extend(&ids);
            s.curves.extend(ids.iter().map(|id| {
                let mut c = one.clone();
                (c.function_curve_id, c.parameter_count) = (*id, 2);
                c
            }));
            w.nt();
            w.traces += 1;
            let mut first: std::collections::HashMap<u32, usize> = Default::default();
            for (k, id) in all.iter().enumerate() {
                first.entry(id.unsigned_abs()).or_insert(k);
            }
            for id in all.iter().copied().chain([0, 1, 64, 108, 109, 110, i32::MAX, i32::MIN]) {
                for t in [id, id.wrapping_neg(), id.wrapping_add(1), id.wrapping_sub(1), id ^ 0x10000] {
                    w.transitions += 1;
                    let (got, want) = (s.is_in_set(t), first.get(&t.unsigned_abs()).copied());
                    if got != want {
                        return Err(format!("type {t} is found at {got:?}, must be {want:?}"));
                    }
                }
            }
            Ok(())
        },
        move |i| format!("(order, numbers, built-in set first, size) = {:?}", digits(i, &radix)),
    )
}

pub fn c25(_t: Tier) -> Check {
    let declared = |ty: i64| DECLARED.iter().position(|d| d.0 as i64 == ty.abs());
    let n_all: u64 = 20;
    let types: Vec<i32> = DECLARED.iter().flat_map(|d| [d.0, -d.0]).collect();
    let ty2 = types.clone();
    // one index per type: all its parameter combinations
    let combos: Vec<(i32, u64)> = types.iter().map(|t| (*t, n_params(*t))).collect();
    let total: u64 = combos.iter().map(|c| c.1).sum();
    let dec = move |mut i: u64| {
        for (t, n) in &combos {
            if i < *n {
                return (*t, i);
            }
            i -= n;
        }
        unreachable!()
    };
    let dec2 = dec.clone();
    let mut extras: Vec<Vec<f64>> = vec![vec![f64::NAN; 12], vec![7.5, -2.0, 0.0, 1e9, 0.5, -7.0, 3.0]];
    for n in 1..=3 {
        for i in 0..4u64.pow(n) {
            extras.push(digits(i, &[4, 4, 4][..n as usize]).iter().map(|d| [0.0, 1.0, f64::NAN, -2.0][*d as usize]).collect());
        }
    }
    Check {
        id: "C25",
        level: "model_checking",
        rule: "all 2^32 type numbers for membership and for the value of undeclared ones; every declared type, forward and reverse, with exactly its declared number of parameters over the parameter grid, and the same with further parameters appended (every list of up to three over four values); non-trivial: a declared type number or a parameter combination",
        assumptions: &["which parameters an evaluation reads does not depend on values between those of the grid"],
        sections: vec![
            Section::new(
                "the declared set",
                n_all,
                move |i, w| {
                    let s = Set::default();
                    w.nt();
                    let t = ty2[i as usize];
                    let (id, n) = DECLARED[(i / 2) as usize];
                    let hits: Vec<_> = s.curves.iter().filter(|c| c.function_curve_id == id).collect();
                    if s.curves.len() != DECLARED.len() {
                        return Err(format!("{} curve types are declared", s.curves.len()));
                    }
                    if hits.len() != 1 || hits[0].parameter_count as usize != n {
                        return Err(format!("type {id} is declared as {hits:?}, must be once with {n} parameters"));
                    }
                    match s.is_in_set(t) {
                        Some(k) if s.curves.get(k).is_some_and(|c| c.function_curve_id == id) => Ok(()),
                        r => Err(format!("type {t} is found at {r:?}")),
                    }
                },
                |i| format!("type {}", DECLARED[(i / 2) as usize].0 * if i % 2 == 0 { 1 } else { -1 }),
            )
            .parity(),
            user_sets(),
            large_sets(),
            Section::new(
                "every type number",
                1 << 16,
                move |i, w| {
                    let s = set(w);
                    let f = s.evaluator;
                    for lo in 0..1u32 << 16 {
                        let t = ((i as u32) << 16 | lo) as i32;
                        let (r, want) = (s.is_in_set(t), declared(t as i64));
                        if r.is_some() != want.is_some() {
                            return Err(format!("type {t} is {}in the set", if r.is_some() { "" } else { "not " }));
                        }
                        if want.is_some() {
                            w.nt();
                            continue;
                        }
                        for (p, x) in [(&[][..], 0.5), (&[2.0, 1.0, 0.5, 0.25, 3.0, 1.0, 0.5, 9.0, 7.0, 1.0][..], 0.75)] {
                            let y = f(t, p, x);
                            if y != 0.0 {
                                return Err(format!("undeclared type {t} evaluates to {y}"));
                            }
                        }
                    }
                    w.put("curves", s);
                    w.count("type_numbers", 1 << 16);
                    Ok(())
                },
                |i| format!("types {:#x}0000 to {:#x}ffff", i, i),
            ),
            Section::new(
                "exactly the declared parameters",
                total,
                move |i, w| {
                    let (t, k) = dec(i);
                    let p = params(t, k);
                    let s = set(w);
                    let f = s.evaluator;
                    let n = s
                        .curves
                        .iter()
                        .find(|c| c.function_curve_id == t.abs())
                        .map(|c| c.parameter_count as usize)
                        .ok_or(format!("type {t} is not declared"))?;
                    w.put("curves", s);
                    w.nt();
                    let p = p.get(..n).ok_or(format!("type {t} declares {n} parameters"))?;
                    for x in [-1.0, 0.0, 0.3, 1.0, 2.0] {
                        let y = f(t, p, x);
                        w.transitions += 2;
                        w.obs(&bits(y));
                        let mut q = p.to_vec();
                        for extra in &extras {
                            q.truncate(n);
                            q.extend(extra);
                            let z = f(t, &q, x);
                            if z.to_bits() != y.to_bits() && !(z.is_nan() && y.is_nan()) {
                                return Err(format!("type {t} with {p:?} at {x} is {y}, with further parameters {z}"));
                            }
                        }
                    }
                    Ok(())
                },
                move |i| {
                    let (t, k) = dec2(i);
                    format!("type {t} with {:?}", params(t, k))
                },
            )
            .parity(),
        ],
    }
}
