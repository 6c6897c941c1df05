use mon::report::*;
use std::time::Duration;

#[global_allocator]
static ALLOC: mon::chaos::ChaosAlloc = mon::chaos::ChaosAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::path::PathBuf::from(std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into()));
    install_panic_hook();
    match args.get(1).map(String::as_str) {
        Some("check") => {
            let prop: &'static str = Box::leak(args[2].clone().into_boxed_str());
            let code = mon::check(prop, &verif);
            std::process::exit(code);
        }
        // mon replay <property> <workload> <case seed>: runs that one case of the property's check
        Some("replay") => {
            let prop: &'static str = Box::leak(args[2].clone().into_boxed_str());
            unsafe { std::env::set_var("MON_ONLY", format!("{}={}", args[3], args[4])) };
            std::process::exit(mon::check(prop, &std::env::temp_dir()));
        }
        Some("child-global") => mon::global::child(args[2].parse().expect("seed")),
        _ => {
            eprintln!("usage: mon check <property>");
            std::process::exit(2);
        }
    }
}
const _: Option<(Tier, Duration)> = None;
