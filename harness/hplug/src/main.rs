//! Drives the plugin library.
mod cache;

use vcommon::Args;

fn main() {
    let (cmd, a) = Args::parse();
    vcommon::quiet_panics();
    match cmd.as_str() {
        "cache" => cache::random(&a),
        "cache-replay" => cache::replay(&a),
        _ => {
            eprintln!("unknown command {}", cmd);
            std::process::exit(2);
        }
    }
}
