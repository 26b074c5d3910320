//! C27: the same cases in the build with overflow checks and debug assertions and in the one without.
use crate::engine::*;
use std::collections::HashSet;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::Instant;

pub const IDS: [&str; 20] = [
    "C01", "C02", "C03", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C18", "C19", "C20", "C22", "C23", "C25", "C26", "C28", "C35",
];
pub fn checks(t: Tier) -> Vec<Check> {
    IDS.iter().filter_map(|i| crate::check(i, t)).collect()
}

struct Digest {
    /// (property, section, cases, executed), digests per block
    sections: Vec<(String, String, u64, u64, Vec<String>)>,
    ended: Result<(), String>,
}
fn digest(exe: &Path, tier: Tier) -> Digest {
    let out = Command::new("timeout")
        .args(["-k", "5", if tier == Tier::Quick { "700" } else { "10000" }])
        .arg(exe)
        .args(["digest", tier.name()])
        .stderr(Stdio::inherit())
        .output()
        .expect("run");
    use std::os::unix::process::ExitStatusExt;
    let ended = match (out.status.code(), out.status.signal()) {
        (Some(0), _) => Ok(()),
        (Some(c), _) => Err(format!("exit code {c}")),
        (_, s) => Err(format!("signal {s:?}")),
    };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut sections = vec![];
    let mut l = text.lines();
    while let (Some(h), Some(d)) = (l.next(), l.next()) {
        let mut f = h.split('\t');
        let (Some(id), Some(name), Some(n), Some(ev)) = (f.next(), f.next(), f.next(), f.next()) else {
            break;
        };
        sections.push((
            id.to_string(),
            name.to_string(),
            n.parse().unwrap_or(0),
            ev.parse().unwrap_or(0),
            d.split(' ').map(str::to_string).collect(),
        ));
    }
    Digest { sections, ended }
}
fn dump(exe: &Path, tier: Tier, id: &str, section: &str, block: usize) -> Vec<(u64, String)> {
    let out = Command::new(exe)
        .args(["dump", id, tier.name(), section, &block.to_string()])
        .output()
        .expect("run");
    String::from_utf8_lossy(&out.stdout)
        .lines()
        .filter_map(|l| l.split_once(' ').and_then(|(i, r)| Some((i.parse().ok()?, r.to_string()))))
        .collect()
}

pub fn main(tier: Tier, plain: &Path) -> i32 {
    let t0 = Instant::now();
    let me = std::env::current_exe().expect("exe");
    let (a, b) = std::thread::scope(|s| {
        let x = s.spawn(|| digest(&me, tier));
        let y = s.spawn(|| digest(plain, tier));
        (x.join().expect("join"), y.join().expect("join"))
    });
    let assumptions: &[&str] = &[
        "the two builds differ in overflow checks and debug assertions only (both optimised, same compiler)",
        "results are compared through a 64-bit digest of everything observed",
    ];
    let rule = "every case of every section shared with the other checks (stream histories, wire formats, fixed-point codes, hostile profiles, directories, plugins, signatures, dates, curves, records, contexts), executed in both builds, everything observed compared; non-trivial: a block of cases whose digest was compared";
    let mut known = Known::load().entries;
    known.retain(|e| e.0 == "C27");
    let mut hits: Vec<String> = vec![];
    let mut bad: Option<(String, String, u64, String)> = None;
    let mut evals = 0;
    let mut blocks = HashSet::new();
    let list = checks(tier);
    let shown = |id: &str, name: &str, i: u64| {
        list.iter()
            .find(|c| c.id == id)
            .and_then(|c| c.sections.iter().find(|s| s.name == name))
            .map(|s| (s.show)(i))
            .unwrap_or_default()
    };
    for (k, sa) in a.sections.iter().enumerate() {
        let Some(sb) = b.sections.get(k) else { break };
        if (&sa.0, &sa.1, sa.2) != (&sb.0, &sb.1, sb.2) {
            eprintln!("C27: engine error: the builds list different sections");
            return 3;
        }
        evals += sa.3 + sb.3;
        for (block, (x, y)) in sa.4.iter().zip(&sb.4).enumerate() {
            if x == y {
                blocks.insert((k, block));
                continue;
            }
            let (da, db) = (dump(&me, tier, &sa.0, &sa.1, block), dump(plain, tier, &sa.0, &sa.1, block));
            for (p, q) in da.iter().zip(&db) {
                if p != q {
                    let case = format!("{}/{}: {}", sa.0, sa.1, shown(&sa.0, &sa.1, p.0));
                    if known.iter().any(|e| e.1 == case) {
                        hits.push(case);
                        continue;
                    }
                    bad = Some((
                        sa.0.clone(),
                        sa.1.clone(),
                        p.0,
                        format!("observed {} with the checks and {} without", p.1, q.1),
                    ));
                    break;
                }
            }
            if bad.is_none() && da.len() != db.len() {
                bad = Some((sa.0.clone(), sa.1.clone(), da.len().min(db.len()) as u64, "one build could not finish this block".into()));
            }
            if bad.is_some() {
                break;
            }
            if hits.is_empty() {
                eprintln!("C27: engine error: digests of {} {} block {block} differ, its cases do not", sa.0, sa.1);
                return 3;
            }
        }
        if bad.is_some() {
            break;
        }
    }
    if bad.is_none() {
        match (&a.ended, &b.ended) {
            (Ok(()), Ok(())) if a.sections.len() == b.sections.len() => {}
            (Ok(()), Err(e)) | (Err(e), Ok(())) if !e.contains("124") => {
                let k = a.sections.len().min(b.sections.len());
                let s = a.sections.get(k).or(b.sections.get(k));
                let (id, name) = s.map(|s| (s.0.clone(), s.1.clone())).unwrap_or_default();
                bad = Some((id, name, 0, format!("only one of the builds ends normally in this section ({e})")));
            }
            (x, y) => {
                eprintln!("C27: engine error: {x:?} {y:?}");
                return 3;
            }
        }
    }
    let samples: Vec<String> = a
        .sections
        .iter()
        .take(12)
        .map(|s| json_str(&format!("{}/{}[{}]: {}", s.0, s.1, s.2 / 2, shown(&s.0, &s.1, s.2 / 2))))
        .collect();
    let secs: Vec<String> = a
        .sections
        .iter()
        .map(|s| format!("{{\"name\":{},\"cases\":{},\"explored_completely\":{}}}", json_str(&format!("{}/{}", s.0, s.1)), s.2, s.3 >= s.2))
        .collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let ass: Vec<String> = assumptions.iter().map(|x| json_str(x)).collect();
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    let _ = std::fs::write(
        verif_dir().join("evidence/C27.json"),
        format!(
            "{{\"property\":\"C27\",\"tier\":\"{}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"evaluations\":{evals},\"distinct_nontrivial\":{},\"rule\":{},\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"known_findings_hit\":{},\"sections\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            tier.name(),
            blocks.len(),
            json_str(rule),
            a.sections.iter().map(|s| s.4.iter().collect::<HashSet<_>>().len()).sum::<usize>(),
            a.sections.iter().map(|s| s.3).sum::<u64>(),
            b.sections.iter().map(|s| s.3).sum::<u64>(),
            bad.is_none(),
            hits.len(),
            secs.join(","),
            samples.join(","),
            ass.join(","),
            t0.elapsed().as_secs_f64(),
            bad.is_some() as u64
        ),
    );
    for h in &hits {
        println!("KNOWN-FINDING: property=C27 {h}");
    }
    if let Some((id, name, i, what)) = bad {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("C27-{id}-{}-{i}.replay", name.replace(|c: char| !c.is_ascii_alphanumeric(), "_")));
        let show = shown(&id, &name, i);
        let _ = std::fs::write(
            &path,
            format!(
                "property=C27\nof={id}\nsection={name}\nindex={i}\ntier={}\nbuild=both\ncase={}\nwhat={}\nreplay_with=./check.sh replay {}\n",
                tier.name(),
                show.replace('\n', " "),
                what.replace('\n', " "),
                path.display()
            ),
        );
        println!("C27 [{id}/{name} #{i}] {show}\n  {what}");
        println!("VIOLATION property=C27 replay={}", path.display());
        return 1;
    }
    println!("C27 held on {evals} executions ({:.1}s)", t0.elapsed().as_secs_f64());
    0
}

/// One case in both builds.
pub fn one(tier: Tier, plain: &Path, id: &str, section: &str, index: u64) -> i32 {
    let me = std::env::current_exe().expect("exe");
    let n = checks(tier)
        .iter()
        .find(|c| c.id == id)
        .and_then(|c| c.sections.iter().find(|s| s.name == section).map(|s| s.n))
        .unwrap_or(0);
    if index >= n {
        return 3;
    }
    let b = block_of(index, n);
    let get = |e: &Path| dump(e, tier, id, section, b).into_iter().find(|c| c.0 == index);
    let (x, y) = (get(&me), get(plain));
    println!("with checks: {x:?}\nwithout: {y:?}");
    if x == y {
        println!("held");
        0
    } else {
        println!("VIOLATED");
        1
    }
}

/// Puts the evidence of a second build of a check (`<id>.<part>.part`) into the first one's file.
pub fn merge(id: &str, part: &str) -> i32 {
    let dir = verif_dir().join("evidence");
    let (f, p) = (dir.join(format!("{id}.json")), dir.join(format!("{id}.{part}.part")));
    let (Ok(a), Ok(b)) = (std::fs::read_to_string(&f), std::fs::read_to_string(&p)) else {
        return 3;
    };
    let _ = std::fs::remove_file(&p);
    let Some(cov) = b.find("\"coverage\":").and_then(|i| b.find(",\"assumptions\":[").map(|j| &b[i + 11..j])) else {
        return 3;
    };
    let name = if part == "le" { "little_endian_build" } else { "scheduled_build" };
    let mut out = a.replacen("\"coverage\":{", &format!("\"coverage\":{{\"{name}\":{cov},"), 1);
    if b.trim_end().ends_with("\"violations\":1}") {
        if let Some(i) = out.rfind("\"violations\":") {
            out.truncate(i);
            out.push_str("\"violations\":1}\n");
        }
    }
    std::fs::write(&f, out).map_or(3, |_| 0)
}
