use bvmon::plans::PLANS;
use bvmon::run::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env = Env::get();
    let plan = |i: usize| {
        a.get(i).and_then(|id| PLANS.iter().find(|p| p.id == *id)).unwrap_or_else(|| {
            println!("ERROR: no such property: {:?}", a.get(i));
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => supervise(plan(2), &env),
        Some("child") => child(plan(2), &env),
        Some("one") => one(plan(2), &env, &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("replay") => replay(PLANS, &env, std::path::Path::new(&a[2])),
        Some("digests") => {
            install_hook();
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            for l in bvmon::plans::api::digests(&a[2], n(3) as usize, n(4), n(5), n(6)) {
                println!("{l}");
            }
            0
        }
        Some("list") => {
            for p in PLANS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: bvmon check|child|one|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
#[global_allocator]
static ALLOC: bvmon::alloc::Counting = bvmon::alloc::Counting;
