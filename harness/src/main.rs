#[macro_use]
mod engine;
mod gen;
mod model;
mod obs;
mod props;
mod scen;
mod storm;
mod trace;
mod wire;

/// Bytes this process has allocated and not freed.
pub static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
/// The most there was, and all that ever was, while METER is on.
pub static PEAK: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
pub static TOTAL: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
pub static METER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn took(now: isize, n: isize) {
    use std::sync::atomic::Ordering::Relaxed;
    if METER.load(Relaxed) {
        PEAK.fetch_max(now, Relaxed);
        TOTAL.fetch_add(n, Relaxed);
    }
}
struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let was = LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        took(was + l.size() as isize, l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let was = LIVE.fetch_add(n as isize - l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        took(was + n as isize - l.size() as isize, n as isize);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

use engine::*;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let find = |id: &str| props::all().into_iter().find(|p| p.id() == id);
    let code = match arg(1) {
        "stdio-child" => {
            quiet_panics();
            match arg(3) {
                "trace" => trace::install(),
                "storm" => storm::start(),
                _ => {}
            }
            scen::stdio_child(arg(2));
            0
        }
        "alone" => {
            quiet_panics();
            find(arg(2)).expect("property").alone(&PathBuf::from(arg(3)), arg(4).parse().unwrap_or(0));
            0
        }
        "worker" => {
            quiet_panics();
            let p = find(arg(2)).expect("property");
            let only = if arg(6) == "--only" { arg(7).parse().ok() } else { None };
            p.worker(&Args { tier: tier(arg(3)), seed: arg(4).parse().unwrap(), dir: PathBuf::from(arg(5)), only })
        }
        "check" => match find(arg(2)) {
            Some(p) => check(&*p, tier(arg(3)), arg(4).parse().unwrap_or(1)),
            None => {
                println!("no property {}", arg(2));
                2
            }
        },
        "list" => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id(), p.total(Tier::Quick), p.total(Tier::Thorough));
            }
            0
        }
        "show" => {
            let p = find(arg(2)).expect("property");
            let n: u64 = arg(4).parse().unwrap_or(5);
            let from: u64 = arg(5).parse().unwrap_or(0);
            let args = Args { tier: Tier::Quick, seed: arg(3).parse().unwrap_or(1), dir: PathBuf::from("/tmp"), only: None };
            for i in from..from + n {
                println!("{i}: {}", cut(&p.case_json(&args, i).to_string(), 3000));
            }
            0
        }
        "replay" => {
            quiet_panics();
            let text = std::fs::read_to_string(arg(2)).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            let p = find(v["property"].as_str().unwrap_or("")).expect("property");
            let dir = PathBuf::from(format!("/tmp/bspv-replay-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let c = p.replay(&v["case"], &dir);
            let _ = std::fs::remove_dir_all(&dir);
            c
        }
        _ => {
            println!("usage: harness check ID quick|thorough SEED | replay FILE | list | show ID SEED N FROM");
            2
        }
    };
    std::process::exit(code);
}
