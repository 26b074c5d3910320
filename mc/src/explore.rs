//! Deviation-bounded stateless search: an execution asks `choose(n)` at each point, answer 0 is the
//! default, any other answer is one deviation. All executions with at most `bound` deviations are run.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Executions whose replayed prefix met other choice points than when it was recorded.
pub static DIVERGED: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Point {
    pub pick: u16,
    pub alts: u16,
}

#[derive(Default)]
pub struct Chooser {
    prefix: Vec<Point>,
    pub log: Vec<Point>,
}
impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        let i = self.log.len();
        let pick = match self.prefix.get(i) {
            Some(p) => {
                if p.alts as usize != n {
                    DIVERGED.fetch_add(1, Relaxed);
                }
                (p.pick as usize).min(n - 1)
            }
            None => 0,
        };
        self.log.push(Point {
            pick: pick as u16,
            alts: n as u16,
        });
        pick
    }
    pub fn describe(&self) -> String {
        let v: Vec<String> = self
            .log
            .iter()
            .enumerate()
            .filter(|(_, p)| p.pick != 0)
            .map(|(i, p)| format!("answer {} at call {}", p.pick, i))
            .collect();
        if v.is_empty() {
            "no deviation".into()
        } else {
            v.join(", ")
        }
    }
}

/// Runs `exec` for every choice sequence with at most `bound` deviations; returns the number of executions.
pub fn explore(
    bound: usize,
    mut exec: impl FnMut(Chooser) -> (Chooser, Result<(), String>),
) -> Result<u64, String> {
    let mut n = 0;
    // fewest deviations first
    let mut level: Vec<Vec<Point>> = vec![vec![]];
    for dev in 0..=bound {
        let mut next = vec![];
        for prefix in level {
            let from = prefix.len();
            let (c, r) = exec(Chooser {
                prefix,
                log: vec![],
            });
            n += 1;
            if let Err(e) = r {
                return Err(format!("{} [{}]", e, c.describe()));
            }
            if dev < bound {
                for i in from..c.log.len() {
                    for alt in 1..c.log[i].alts {
                        let mut p = c.log[..i].to_vec();
                        p.push(Point {
                            pick: alt,
                            alts: c.log[i].alts,
                        });
                        next.push(p);
                    }
                }
            }
        }
        level = next;
    }
    Ok(n)
}
