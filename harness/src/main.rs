mod chain;
mod explore;
mod gen;
mod ends;
mod legacy;
mod obs;
mod ops;
mod rec;
mod rng;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// A driver that trips over what the contract answered: what it recorded so far is still judged.
fn finishes(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok()
}

fn main() {
    // panics of the contract are observations, not noise
    if std::env::var("SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let out = arg("--out").unwrap_or("/dev/stdout".into());
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = arg("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut rec = rec::Rec::default();
    let mut stopped = false;
    match cmd.as_str() {
        // drive p1,p2,... : random executions of the named profiles
        "drive" => {
            let names = arg("--profiles").unwrap_or("core".into());
            for n in names.split(',') {
                stopped |= !finishes(|| match n {
                    "create" => gen::creations(&mut rec, seed),
                    "grid" => gen::grid(&mut rec, seed, scale),
                    "ladder" => gen::ladder(&mut rec, seed, scale),
                    "wide" => gen::wide(&mut rec, seed, scale),
                    "exit" => ends::exits(&mut rec, seed, scale),
                    "tall" => ends::tall(&mut rec, seed, scale),
                    "split" => ends::pieces(&mut rec, seed, scale),
                    "legacy" => legacy::drive(&mut rec, seed, scale),
                    _ => {
                        let mut p = gen::profile(n);
                        p.chains = ((p.chains as f64 * scale).ceil() as usize).max(1);
                        gen::drive(&mut rec, &p, seed);
                    }
                });
            }
        }
        // explore scope : exhaustive small-scope exploration
        "explore" => {
            let names = arg("--scopes").unwrap_or("queue".into());
            let max: usize = arg("--max").and_then(|s| s.parse().ok()).unwrap_or(200_000);
            for n in names.split(',') {
                stopped |= !finishes(|| explore::explore(&mut rec, n, max));
            }
        }
        // keep : write down books of the present code, for the profile "legacy"
        "keep" => legacy::keep(),
        // replay : run the operations of a file (one path, JSON lines)
        "replay" => explore::replay(&mut rec, &arg("--in").expect("--in")),
        c => {
            eprintln!("unknown command {c}");
            std::process::exit(2);
        }
    }
    rec.write(&out);
    let accepted = rec.nodes.iter().filter(|n| n.v["ok"] == true).count();
    eprintln!("{{\"nodes\": {}, \"roots\": {}, \"accepted\": {}}}", rec.nodes.len(), rec.roots, accepted);
    if stopped {
        eprintln!("a driver stopped early");
        std::process::exit(3);
    }
}
