#[path = "../../shared/server.rs"]
mod server;


fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        
        _ => server::serve(),
    }
}
