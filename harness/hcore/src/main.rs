//! Drives the real core through its protocol and records what it says.
mod client;
mod edit;
mod fault;
mod plug;
mod session;
mod sys;

use vcommon::Args;

fn main() {
    let me = std::env::args_os().next().map(std::path::PathBuf::from).unwrap_or_default();
    if me.file_name().map_or(false, |n| n == "relay") {
        return plug::relay(&me);
    }
    let (cmd, a) = Args::parse();
    client::watch_panics();
    match cmd.as_str() {
        "edit" => edit::random(&a),
        "long" => edit::long(&a),
        "far" => edit::far(&a),
        "edit-replay" => edit::replay(&a),
        "plug" => plug::random(&a),
        "plug-replay" => plug::replay(&a),
        "sys" => sys::random(&a),
        "sys-replay" => sys::replay(&a),
        _ => {
            eprintln!("unknown command {}", cmd);
            std::process::exit(2);
        }
    }
}
