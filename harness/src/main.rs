use vh::driver;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let specs = vh::props::all();
    let find = |id: &str| specs.iter().find(|s| s.id == id).unwrap_or_else(|| panic!("no property {id}"));
    match args.first().map(|s| s.as_str()) {
        Some("worker") => driver::worker_main(find(&args[1]), &args[2..]),
        Some("check") => std::process::exit(driver::run_check(find(&args[1]))),
        Some("list") => {
            for s in &specs {
                println!("{}", s.id);
            }
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let spec = find(j["property"].as_str().unwrap());
            driver::install_panic_hook();
            let seed = j["seed"].as_u64().unwrap();
            let idx = j["idx"].as_u64().unwrap();
            let ctx = driver::Ctx { seed, thorough: j["tier"] == "thorough", worker: 0, scratch: std::env::temp_dir() };
            let mut c = (spec.make)(&ctx);
            let mut rep = driver::Rep::default();
            let mut rng = vh::rng::Rng::for_case(spec.id, seed, idx);
            c.case(idx, &mut rng, &mut rep);
            for v in &rep.viols {
                println!("[{}] {}", v.sig, v.msg);
                if std::env::var("FULL").is_ok() {
                    println!("{}", v.input);
                }
            }
            std::process::exit(if rep.viols.is_empty() { 0 } else { 1 });
        }
        _ => eprintln!("usage: vh check <id> | list | replay <file>"),
    }
}
