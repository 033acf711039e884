mod delta;
mod engine;
mod rope;

fn main() {
    vcommon::quiet_panics();
    let (cmd, args) = vcommon::Args::parse();
    match cmd.as_str() {
        "rope" => rope::random(&args),
        "delta" => delta::random(&args),
        "delta-replay" => delta::replay(&args),
        "engine" => engine::random(&args),
        "engine-replay" => engine::replay(&args),
        "merge-replay" => engine::merge_replay(&args),
        "merge" => engine::merge(&args),
        other => {
            eprintln!("unknown subcommand {:?}", other);
            std::process::exit(2);
        }
    }
}
