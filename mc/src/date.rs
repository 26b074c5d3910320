//! C22: stored dates and calendar date-times.
use crate::engine::*;
use crate::profile::valid_date;
use chrono::{Datelike, NaiveDateTime, Timelike};
use lcms2::types::DateTimeNumber;

type Six = [u16; 6];
fn number(v: &Six) -> DateTimeNumber {
    DateTimeNumber {
        year: v[0],
        month: v[1],
        day: v[2],
        hours: v[3],
        minutes: v[4],
        seconds: v[5],
    }
}
fn valid(v: &Six) -> bool {
    valid_date(v[0] as u32, v[1] as u32, v[2] as u32) && v[3] < 24 && v[4] < 60 && v[5] < 60
}
fn six(d: &DateTimeNumber) -> Six {
    [d.year, d.month, d.day, d.hours, d.minutes, d.seconds]
}
fn good(v: &Six) -> R {
    let n: NaiveDateTime = number(v).into();
    let got = (n.year(), n.month(), n.day(), n.hour(), n.minute(), n.second(), n.nanosecond());
    let want = (v[0] as i32, v[1] as u32, v[2] as u32, v[3] as u32, v[4] as u32, v[5] as u32, 0);
    if got != want {
        return Err(format!("{v:?} became {n}"));
    }
    let back = six(&n.into());
    if back != *v {
        return Err(format!("{v:?} became {n} and then {back:?}"));
    }
    Ok(())
}
fn case(v: &Six, w: &mut W) -> R {
    w.transitions += 1;
    if valid(v) {
        w.nt();
        good(v)?;
        w.obs(v);
        return Ok(());
    }
    let n: NaiveDateTime = number(v).into();
    w.obs(&n);
    // whatever it became can be stored again, and the next conversion is undisturbed
    let _: DateTimeNumber = n.into();
    good(&[2024, 2, 29, 23, 59, 58])?;
    let again: NaiveDateTime = number(v).into();
    if again != n {
        return Err(format!("{v:?} became {n} and then {again}"));
    }
    Ok(())
}
const DAYS: [[u16; 3]; 16] = [
    [0, 1, 1], [0, 2, 29], [0, 12, 31], [1, 1, 1], [99, 12, 31], [1582, 10, 10], [1600, 2, 29], [1899, 12, 31],
    [1904, 1, 1], [1970, 1, 1], [2000, 2, 29], [2021, 11, 30], [2038, 1, 19], [9999, 12, 31], [32768, 2, 29], [65535, 12, 31],
];
const M: [u16; 20] = [0, 1, 2, 3, 4, 6, 7, 8, 9, 11, 12, 13, 14, 15, 255, 256, 257, 32768, 65534, 65535];
const D: [u16; 13] = [0, 1, 2, 28, 29, 30, 31, 32, 33, 255, 257, 32769, 65535];
const Y: [u16; 12] = [0, 1, 4, 100, 1900, 1970, 2000, 2023, 2024, 32767, 65532, 65535];
const H: [u16; 8] = [0, 1, 23, 24, 25, 256, 32768, 65535];
const S: [u16; 8] = [0, 1, 59, 60, 61, 256, 32768, 65535];

pub fn c22(t: Tier) -> Check {
    let combos = [Y.len(), M.len(), D.len(), H.len(), S.len(), S.len()].map(|n| n as u64);
    let combo = move |i: u64| -> Six {
        let d = digits(i, &combos).iter().map(|x| *x as usize).collect::<Vec<_>>();
        [Y[d[0]], M[d[1]], D[d[2]], H[d[3]], S[d[4]], S[d[5]]]
    };
    let ymd = |i: u64| -> Six {
        let d = digits(i, &[33, 14, 65536]);
        [d[2] as u16, d[1] as u16, d[0] as u16, (i % 24) as u16, (i / 7 % 60) as u16, (i / 11 % 60) as u16]
    };
    let hms = |i: u64| -> Six {
        let d = digits(i, &[62, 62, 26, 16]);
        let p = DAYS[d[3] as usize];
        [p[0], p[1], p[2], d[2] as u16, d[1] as u16, d[0] as u16]
    };
    let one = |i: u64| -> Six {
        let mut v = DAYS[(i / 65536 / 6) as usize];
        let mut s = [v[0], v[1], v[2], 12, 34, 56];
        s[(i / 65536 % 6) as usize] = (i % 65536) as u16;
        v[0] = 0;
        s
    };
    let _ = t;
    Check {
        id: "C22",
        level: "model_checking",
        rule: "every day of every year 0 to 65535 (months 0 to 13, days 0 to 32), every time of day with its neighbours on 16 days, every value of each field, every combination of boundary values; non-trivial: a date that exists, compared field by field and converted back",
        assumptions: &["the calendar is the proleptic Gregorian one"],
        sections: vec![
            Section::new("every day", 33 * 14 * 65536, move |i, w| case(&ymd(i), w), move |i| format!("{:?}", ymd(i))).parity(),
            Section::new("every time", 62 * 62 * 26 * 16, move |i, w| case(&hms(i), w), move |i| format!("{:?}", hms(i))).parity(),
            Section::new("every value of each field", 16 * 6 * 65536, move |i, w| case(&one(i), w), move |i| format!("{:?}", one(i))).parity(),
            Section::new("combinations of boundary values", product(&combos), move |i, w| case(&combo(i), w), move |i| format!("{:?}", combo(i))).parity(),
        ],
    }
}
