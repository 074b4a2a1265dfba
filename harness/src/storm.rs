//! Signals to every thread of this process, so that its system calls are interrupted.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Duration;

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn siginterrupt(sig: i32, on: i32) -> i32;
    fn syscall(n: i64, ...) -> i64;
}
const SIGUSR1: i32 = 10;
const TGKILL: i64 = 234;
static SENT: AtomicU64 = AtomicU64::new(0);
extern "C" fn nothing(_: i32) {}

/// Rounds of signals; they end, so that a deadlock can be told.
const ROUNDS: u32 = 4000;
pub fn start() {
    unsafe {
        signal(SIGUSR1, nothing as extern "C" fn(i32) as usize);
        siginterrupt(SIGUSR1, 1);
    }
    std::thread::spawn(|| {
        let pid = std::process::id();
        let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()));
        for i in 0..ROUNDS {
            for t in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
                let name = t.file_name().to_string_lossy().to_string();
                if Some(&name) == me.as_ref() {
                    continue;
                }
                if let Ok(tid) = name.parse::<i64>() {
                    unsafe { syscall(TGKILL, pid as i64, tid, SIGUSR1 as i64) };
                    SENT.fetch_add(1, SeqCst);
                }
            }
            std::thread::sleep(Duration::from_micros(if i < 2000 { 100 } else { 1000 }));
        }
    });
}
pub fn sent() -> u64 {
    SENT.load(SeqCst)
}
