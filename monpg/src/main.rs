fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::path::PathBuf::from(std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into()));
    mon::report::install_panic_hook();
    let leak = |s: &String| -> &'static str { Box::leak(s.clone().into_boxed_str()) };
    match args.get(1).map(String::as_str) {
        Some("check") => std::process::exit(monpg::check(leak(&args[2]), &verif)),
        // monpg replay <property> <workload> <case seed>: runs that one case of the property's check
        Some("replay") => {
            unsafe { std::env::set_var("MON_ONLY", format!("{}={}", args[3], args[4])) };
            std::process::exit(monpg::check(leak(&args[2]), &std::env::temp_dir()));
        }
        _ => {
            eprintln!("usage: monpg check <property>");
            std::process::exit(2);
        }
    }
}
