mod core;
mod props;
mod rng;
mod stepper;
mod runner;
mod watch;

extern "C" {
    fn personality(p: u64) -> i32;
}
/// Addresses are a source of nondeterminism too: the same layout in every process.
fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: i32 = 0x0040000;
    let now = unsafe { personality(0xffff_ffff) };
    if now == -1 || now & ADDR_NO_RANDOMIZE != 0 {
        return;
    }
    if unsafe { personality((now | ADDR_NO_RANDOMIZE) as u64) } == -1 {
        return;
    }
    if let Ok(exe) = std::env::current_exe() {
        use std::os::unix::process::CommandExt;
        // only returns when it fails; then this process simply goes on
        let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).exec();
    }
}

fn main() {
    fixed_addresses();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&args[2]),
        Some("worker") => runner::worker(&args[2..]),
        Some("replay") => runner::replay(&args[2]),
        Some("replay-raw") => runner::replay_raw(&args[2]),
        Some("digests") => runner::digests(&args[2..]),
        Some("show") => runner::show(&args[2..]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!("usage: sim check ID | replay FILE | digests ID START STRIDE COUNT | show ID RUN | list");
            2
        }
    };
    std::process::exit(code);
}
