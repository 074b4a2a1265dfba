//! A subscriber that takes every event and formats every field.
use std::fmt::{Debug, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, Once};
use tracing::{field, span, Event, Metadata, Subscriber};

static SEEN: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static PANIC: Mutex<Option<String>> = Mutex::new(None);

struct Count(u64);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
struct Fields;
impl field::Visit for Fields {
    fn record_debug(&mut self, _: &field::Field, v: &dyn Debug) {
        let mut c = Count(0);
        if let Err(p) = crate::engine::guard(|| write!(c, "{v:?}")) {
            *PANIC.lock().unwrap() = Some(p);
        }
        BYTES.fetch_add(c.0, SeqCst);
    }
}
struct All;
impl Subscriber for All {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, s: &span::Attributes<'_>) -> span::Id {
        s.record(&mut Fields);
        span::Id::from_u64(SEEN.fetch_add(1, SeqCst) + 1)
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut Fields);
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        SEEN.fetch_add(1, SeqCst);
        e.record(&mut Fields);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
/// For the whole process.
pub fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _ = tracing::subscriber::set_global_default(All);
    });
}
pub fn seen() -> u64 {
    SEEN.load(SeqCst)
}
pub fn panicked() -> Option<String> {
    PANIC.lock().unwrap().take()
}
