mod alloc;
mod cal;
mod comp;
mod csvgen;
mod dcfmt;
mod dict;
mod engine;
mod gen;
mod memio;
mod model;
mod p_cli;
mod p_comp;
mod p_csv;
mod p_dc;
mod p_driver;
mod p_http;
mod p_input;
mod p_io;
mod p_out;
mod p_time;
mod zipw;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn all() -> Vec<engine::Property> {
    let mut v = Vec::new();
    v.extend(p_driver::properties());
    v.extend(p_dc::properties());
    v.extend(p_csv::properties());
    v.extend(p_time::properties());
    v.extend(p_comp::properties());
    v.extend(p_io::properties());
    v.extend(p_input::properties());
    v.extend(p_out::properties());
    v.extend(p_cli::properties());
    v.extend(p_http::properties());
    v
}

fn main() {
    // results must not depend on the machine's zone; any use of it shows against the oracles
    std::env::set_var("TZ", "America/St_Johns");
    std::env::remove_var("CHOPPER_TZ");
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map_or(false, |a| a == "dict") {
        print!("{}", dict::listing());
        return;
    }
    dict::load();
    let props = all();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {}", id);
            std::process::exit(2)
        })
    };
    let cfg = engine::Config::from_env();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        Some("check") => {
            let c = engine::check(find(&args[2]), cfg);
            std::process::exit(c);
        }
        Some("worker") => engine::finish(engine::worker(find(&args[2]), &cfg)),
        Some("one") => engine::finish(engine::one(find(&args[2]), &cfg, &args[3], args[4].parse().unwrap())),
        Some("seq") => engine::finish(engine::sequence(
            find(&args[2]),
            &cfg,
            &args[3],
            args[4].parse().unwrap(),
            args[5].parse().unwrap(),
        )),
        Some("tape") => engine::finish(engine::tape_file(find(&args[2]), &cfg, &args[3], &args[4])),
        Some("replay") => {
            let c = engine::replay(&props, cfg, &args[2]);
            std::process::exit(c);
        }
        _ => {
            eprintln!("usage: harness check|worker|one|tape|replay|list ...");
            std::process::exit(2);
        }
    }
}
