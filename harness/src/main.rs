mod app;
mod data;
mod env;
mod exs;
mod live;
mod queue;
mod scn;
mod server;
mod secrets;
mod sockpath;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("data") => util::run_cases(data::run),
        Some("server") => util::run_cases(server::run),
        Some("live") => util::run_cases(live::run),
        Some("env") => util::run_cases(env::run),
        Some("exserver") => util::run_cases(exs::run),
        Some("queue") => util::run_cases(queue::run),
        Some("secrets") => secrets::main(&args[2..]),
        Some("sockpath") => sockpath::main(),
        Some("scn") => scn::main(),
        other => {
            eprintln!("harness: unknown command {:?}", other);
            std::process::exit(2);
        }
    }
}
