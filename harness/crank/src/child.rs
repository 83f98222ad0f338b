//! Runs the real command-line program in its own process, on virtual time.
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub enum End { Exit(Option<i32>), Hung }

pub fn main(a: &[String]) -> ! {
    use clap::Parser;
    let _ = std::panic::take_hook();
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
    crate::virt::Shared::open(&a[0]).take_over();
    let code = match crank::Opts::try_parse_from(&a[1..]) {
        Err(e) => { eprintln!("arguments refused: {}", e); 9 }
        Ok(o) => match crank::start(o) { Ok(()) => 0, Err(e) => { eprintln!("ended: {:?}", e); 7 } },
    };
    std::process::exit(code)
}

fn cpu(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

/// `seen` counts what the observer got from the process; a process that does
/// nothing at all for long, on a clock that never makes it wait, hangs.
pub fn spawn(args: &[String], time: &str, err: &str) -> std::process::Child {
    let me = std::env::current_exe().unwrap();
    let f = std::fs::File::create(err).unwrap();
    let mut c = Command::new(me);
    c.arg("child").arg(time).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(f).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
    c.spawn().expect("spawn")
}

pub fn run(args: &[String], time: &str, err: &str, seen: &mut dyn FnMut() -> u64) -> End {
    let mut p = spawn(args, time, err);
    let mut last = (0u64, 0u64);
    let mut since = Instant::now();
    let mut nap = 2;
    loop {
        match p.try_wait() {
            Ok(Some(s)) => return End::Exit(s.code()),
            _ => {}
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(10);
        let cur = (seen(), cpu(p.id()));
        if cur != last { last = cur; since = Instant::now() }
        if since.elapsed() > Duration::from_secs(40) {
            let _ = p.kill();
            let _ = p.wait();
            return End::Hung;
        }
    }
}
