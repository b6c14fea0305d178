#[path = "../../shared/server.rs"]
mod server;
mod counter;
#[path = "../../shared/bfs.rs"]
mod bfs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("counter") => counter::explore(args.get(2).is_some_and(|t| t == "thorough")),
        _ => server::serve(),
    }
}
