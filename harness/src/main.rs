use monitor::props::{find, Prop};
use monitor::report::*;
use monitor::worker::*;

#[global_allocator]
static ALLOC: monitor::alloc::Counting = monitor::alloc::Counting;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn need(id: &str) -> &'static Prop {
    find(id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
    let s = |i: usize| -> &str { a.get(i).map_or("", |x| x) };
    let code = match s(1) {
        "check" => monitor::supervise::check(s(2)),
        "worker" => {
            monitor::outcome::quiet_panics();
            monitor::outcome::install_logger();
            limit_memory(6 << 30);
            let mut ctx = Ctx::new(tier(s(3)), n(4));
            run(need(s(2)), &mut ctx, n(5), n(6), n(7), n(8), s(9), s(10))
        }
        "case" => {
            monitor::outcome::quiet_panics();
            monitor::outcome::install_logger();
            limit_memory(6 << 30);
            limit_cpu(150);
            let mut ctx = Ctx::new(tier(s(3)), n(4));
            ctx.replaying = true;
            match run_case(need(s(2)), &mut ctx, n(5)) {
                CaseEnd::Held => {
                    println!("held");
                    0
                }
                CaseEnd::Violated(v) => {
                    print!("{}", violation_text(n(5), &v));
                    1
                }
                CaseEnd::Harness(m) => {
                    println!("harness: {m}");
                    2
                }
            }
        }
        "literals" => {
            print!("{}", monitor::dict::literals());
            0
        }
        "digest" => {
            monitor::outcome::quiet_panics();
            monitor::outcome::install_logger();
            monitor::outcome::logging(n(5) == 1);
            monitor::spy::turn_clocks(s(6).parse().unwrap_or(0));
            let lines = monitor::spy::watched(None, 0, || monitor::props::digest_lines(n(2), n(3), n(4)));
            for d in lines {
                println!("{d:x}");
            }
            0
        }
        "silent" => monitor::silent::child(tier(s(2)), n(3), n(4), n(5), s(6), s(7)),
        "cost" => monitor::cost::child(n(2), s(3), n(4)),
        "short" => {
            monitor::outcome::quiet_panics();
            monitor::cost::short_child(n(2), n(3), n(4))
        }
        "short-one" => monitor::cost::short_one(n(2), n(3)),
        "memory" => {
            monitor::outcome::quiet_panics();
            monitor::memory::child(s(2), s(3), n(4) as usize)
        }
        _ => {
            eprintln!("usage: monitor check ID");
            2
        }
    };
    std::process::exit(code);
}
