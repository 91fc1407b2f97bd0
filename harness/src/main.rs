use verif_harness::runner::{self, Args};
use verif_harness::{engine, suites};

fn main() {
    let a = Args::new();
    engine::install_panic_hook();
    let code = match a.pos(0) {
        "worker" => runner::worker(&a),
        "trace" => runner::trace(&a),
        "raw" => runner::raw(&a),
        "nth" => runner::nth(&a),
        "check" => runner::check(&a),
        "replay" => runner::replay(&a),
        "noop" => 0,
        "list" => {
            for s in suites::all() {
                println!("{} {} {:?} quick={} thorough={} miri={}", s.prop, s.name, s.kind, s.quick, s.thorough, s.miri);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check|worker|raw|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
