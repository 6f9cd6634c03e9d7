pub mod alloc;
pub mod dict;
pub mod engine;
pub mod huge;
pub mod io;
pub mod model;
pub mod mp4gen;
pub mod mp4ref;
mod props;
pub mod rng;

#[global_allocator]
static ALLOC: alloc::Mon = alloc::Mon;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let num = |k: usize| args.get(k).and_then(|s| s.parse::<usize>().ok()).unwrap_or(1);
    match (args.first().map(|s| s.as_str()), args.get(1)) {
        (Some("--make-corpus"), Some(f)) => std::process::exit(props::corpus::make(f, num(2), engine::opts().seed + num(3) as u64)),
        (Some("--run-corpus"), Some(f)) => std::process::exit(props::corpus::run(f, num(2), num(3).max(1), num(4))),
        (Some("--add-stage"), Some(id)) => std::process::exit(engine::add_stage(id, args.get(2).map_or("", |s| s))),
        _ => {}
    }
    let mut id = String::new();
    let mut case = None;
    let mut worker = false;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--worker" => worker = true,
            "--case" => {
                case = args.get(i + 1).and_then(|s| s.parse().ok());
                i += 1;
            }
            s => id = s.to_owned(),
        }
        i += 1;
    }
    let Some(p) = props::ALL.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id:?}");
        std::process::exit(2);
    };
    let code = if let Some(c) = case {
        engine::single(p, c)
    } else if worker {
        engine::worker(p)
    } else {
        engine::supervise(p)
    };
    std::process::exit(code);
}
