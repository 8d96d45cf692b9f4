//! KConc.tla: runs overlapping calls of the real library under schedules of its mutexes.
#[cfg(k_verif)]
#[allow(dead_code)]
mod common;
#[cfg(k_verif)]
mod conc;
#[cfg(k_verif)]
#[allow(dead_code)]
mod tree;

#[cfg(k_verif)]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("KH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    std::process::exit(match args.get(1).map(|s| s.as_str()) {
        Some("conc") => conc::drive(&args[2..]),
        Some("replay") => conc::replay(&args[2]),
        _ => 2,
    });
}

#[cfg(not(k_verif))]
fn main() {
    eprintln!("built without --cfg k_verif");
    std::process::exit(2);
}
