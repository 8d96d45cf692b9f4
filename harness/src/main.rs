//! Steps the real library through behaviours of the TLA+ specifications and compares.
mod common;
mod data;
mod ik;
mod trace;
mod tree;
mod urdf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // panics of the code under test are data, not noise
    if std::env::var("KH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("tree") => common::drive(&args[2..], tree::run),
        Some("urdf") => common::drive(&args[2..], urdf::run),
        Some("ik") => common::drive(&args[2..], ik::run),
        Some("data") => common::drive(&args[2..], data::run),
        Some("trace") => trace::drive(&args[2..]),
        Some("replay") => common::replay(&args[2], &[("tree", tree::run), ("urdf", urdf::run), ("ik", ik::run), ("data", data::run)]),
        _ => {
            eprintln!("usage: kh <tree> ...");
            2
        }
    };
    std::process::exit(code);
}
