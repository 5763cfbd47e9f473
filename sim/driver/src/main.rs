//! Deterministic simulation of programs that use pddl. See /verif/DESIGN.md.
#![allow(static_mut_refs)]
mod entries;
mod exec;
mod explore;
mod families;
mod gen;
mod held;
mod plan;
mod rebuild;

#[global_allocator]
static A: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    let num = |k: &str, d: u64| -> u64 { get(k, &d.to_string()).parse().unwrap_or(d) };
    simcore::alloc::init_arena();
    exec::map_buffers();
    exec::install_hooks();
    let interning = cfg!(feature = "interning");
    let code = match a.get(1).map(|x| x.as_str()).unwrap_or("") {
        "explore" => explore::explore(explore::Args {
            prop: get("--prop", "C01"),
            runs: num("--runs", 1000),
            first: num("--first", 0),
            seed: num("--seed", 1),
            workers: num("--workers", 8) as usize,
            max_secs: num("--max-secs", 30) as f64,
            out: get("--out", "/tmp/sim"),
            interning,
        }),
        "replay" => explore::replay(&a[2], a.iter().any(|x| x == "-v")),
        "selftest" => explore::selftest(
            &get("--prop", "C01"),
            num("--seed", 1),
            num("--first", 0),
            num("--runs", 50),
            interning,
            a.iter().any(|x| x == "-p"),
        ),
        "show" => {
            let p = families::plan(&get("--prop", "C01"), simcore::prng::mix(&[num("--seed", 1), num("--index", 0), 0x5eed]), interning);
            print!("{}", p.to_text());
            0
        }
        "entries" => {
            for (i, e) in entries::ENTRIES.iter().enumerate() {
                println!("{} {}", i, e.name);
            }
            0
        }
        "genstats" => {
            explore::genstats(num("--runs", 100));
            0
        }
        _ => {
            eprintln!("usage: simdriver explore|replay|selftest|show|genstats");
            2
        }
    };
    std::process::exit(code);
}
