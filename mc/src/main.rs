mod codec;
mod ctx;
mod curve;
mod date;
mod engine;
mod explore;
mod faults;
mod modes;
mod parity;
mod places;
mod profile;
#[cfg(mc_sched)]
mod sched;
mod sig;
mod sigtable;
mod stream;
mod sys;
mod wire;
mod world;

use engine::*;

#[global_allocator]
static MEMORY: world::Counting = world::Counting;

pub fn check(id: &str, t: Tier) -> Option<Check> {
    let mut c = plain(id, t)?;
    // C34 has surroundings of its own
    if !cfg!(mc_sched) && id != "C34" {
        c.sections.push(places::section(plain(id, t)?));
    }
    Some(c)
}
fn plain(id: &str, t: Tier) -> Option<Check> {
    Some(match id {
        "C01" => stream::c01(t),
        "C02" => stream::c02(t),
        "C03" => stream::c03(t),
        "C04" => faults::c04(t),
        "C05" => faults::c05(t),
        "C06" => stream::c06(t),
        "C07" => wire::c07(t),
        "C08" => wire::c08(t),
        "C09" => wire::c09(t),
        "C10" => profile::c10(t),
        "C11" => profile::c11(t),
        "C12" => profile::c12(t),
        "C13" => profile::c13(t),
        "C14" => faults::c14(t),
        "C15" => modes::c15(t),
        "C16" => modes::c16(t),
        #[cfg(mc_sched)]
        "C17" => sched::c17(t),
        #[cfg(mc_sched)]
        "C18" => sched::c18(t),
        #[cfg(not(mc_sched))]
        "C18" => ctx::c18(t),
        "C19" => ctx::c19(t),
        "C20" => sig::c20(t),
        "C21" => sig::c21(t),
        "C22" => date::c22(t),
        "C23" => curve::c23(t),
        "C24" => curve::c24(t),
        "C25" => curve::c25(t),
        "C26" => codec::c26(t),
        "C28" => ctx::c28(t),
        "C29" => profile::c29(t),
        "C30" => ctx::c30(t),
        #[cfg(mc_sched)]
        "C31" => sched::c31(t),
        "C32" => world::c32(t),
        "C33" => world::c33(t),
        "C34" => world::c34(t),
        "C35" => modes::c35(t),
        _ => return None,
    })
}

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let get = |id: &str, t: Tier| {
        check(id, t).unwrap_or_else(|| {
            eprintln!("no check {id}");
            std::process::exit(3)
        })
    };
    let code = match arg(1) {
        "check" => parent_main(get(arg(2), tier(arg(3))), tier(arg(3))),
        "child" => child_main(
            get(arg(2), tier(arg(3))),
            tier(arg(3)),
            arg(4).as_ref(),
            arg(5).as_ref(),
        ),
        "one" => {
            let s = scratch_base();
            let c = one_main(&get(arg(2), tier(arg(3))), arg(4), arg(5).parse().unwrap_or(0), &s);
            let _ = std::fs::remove_dir_all(&s);
            c
        }
        "list" => {
            for s in get(arg(2), tier(arg(3))).sections {
                println!("{} {}", s.n, s.name);
            }
            0
        }
        "digest" => {
            let s = scratch_base();
            let c = digest_main(parity::checks(tier(arg(2))), &s);
            let _ = std::fs::remove_dir_all(&s);
            c
        }
        "dump" => {
            let s = scratch_base();
            let c = dump_main(&get(arg(2), tier(arg(3))), arg(4), arg(5).parse().unwrap_or(0), &s);
            let _ = std::fs::remove_dir_all(&s);
            c
        }
        "parity" => parity::main(tier(arg(2)), arg(3).as_ref()),
        "parityone" => parity::one(tier(arg(2)), arg(3).as_ref(), arg(4), arg(5), arg(6).parse().unwrap_or(u64::MAX)),
        "merge" => parity::merge(arg(2), arg(3)),
        _ => 3,
    };
    std::process::exit(code);
}
