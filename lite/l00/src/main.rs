#[path = "../../shared/server.rs"]
mod server;
mod owner;
#[path = "../../shared/bfs.rs"]
mod bfs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("owner") => owner::explore(args.get(2).is_some_and(|t| t == "thorough")),
        _ => server::serve(),
    }
}
