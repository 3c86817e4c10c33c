#![allow(dead_code, unused_imports, unused_variables)]
mod books;
mod drv;
mod engine;
mod env;
mod fx;
mod opc;
mod props;
mod sim;
mod sty;
mod wb;
mod xml;
mod zipio;

extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
}

fn main() {
    // Speed only: no backtraces for error values, no trimming of the heap between cases.
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    unsafe {
        mallopt(-1, 1 << 30);
        mallopt(-2, 4 << 20);
        mallopt(-3, 1 << 28);
    }
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let root = std::path::PathBuf::from(root);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    engine::install_panic_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() == 4 => {
            if std::env::var_os("MC_CHILD").is_none() {
                engine::supervise(&args[2], &root, &args[3], seed, &|| props::get(&args[2], &args[3]).expect("property"))
            } else {
                match props::get(&args[2], &args[3]) {
                    Some(c) => engine::explore(c, &root, &args[3], seed),
                    None => 2,
                }
            }
        }
        Some("one") if args.len() == 6 => match props::get(&args[2], &args[3]) {
            Some(c) => engine::replay(c, &args[4], args[5].parse().unwrap_or(0), seed),
            None => 2,
        },
        Some("replay") if args.len() == 3 => {
            let t = std::fs::read_to_string(&args[2]).unwrap_or_default();
            let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
            match props::get(&g("property"), &g("tier")) {
                Some(c) => engine::replay(c, &g("space"), g("index").parse().unwrap_or(0), g("seed").parse().unwrap_or(1)),
                None => 2,
            }
        }
        _ => {
            eprintln!("usage: mc check <property> <quick|thorough> | mc replay <file>");
            2
        }
    };
    std::process::exit(code);
}
