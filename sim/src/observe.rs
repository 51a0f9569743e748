//! The observability seams: a tracing subscriber and a logger owned by the
//! simulator. Both only report points; what they do is decided by the plan.
use crate::core::*;
use crate::plan::Kind;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use tracing_core::{span, Event, Interest, LevelFilter, Metadata, Subscriber};

pub static SPAN_LEVEL: AtomicU64 = AtomicU64::new(5); // 0 off .. 5 trace
pub static LOG_REENTER: AtomicBool = AtomicBool::new(false);
pub static LOG_BYTES: AtomicU64 = AtomicU64::new(0);
pub static SPAN_SEQ: AtomicU64 = AtomicU64::new(0);

struct SimSub;
impl Subscriber for SimSub {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        if !in_task() {
            return false;
        }
        let lv = match *m.level() {
            tracing_core::Level::TRACE => 5,
            tracing_core::Level::DEBUG => 4,
            tracing_core::Level::INFO => 3,
            tracing_core::Level::WARN => 2,
            tracing_core::Level::ERROR => 1,
        };
        lv <= SPAN_LEVEL.load(Relaxed)
    }
    fn max_level_hint(&self) -> Option<LevelFilter> {
        None
    }
    fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
        span::Id::from_u64(SPAN_SEQ.fetch_add(1, Relaxed) + 1)
    }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, _: &Event<'_>) {
        point_or_crash(Kind::Span);
    }
    fn enter(&self, _: &span::Id) {
        point_or_crash(Kind::Span);
    }
    fn exit(&self, _: &span::Id) {
        // Leaving a span only yields: the function has already done its work.
        if !std::thread::panicking() {
            yield_only(Kind::Callback);
        }
    }
}

/// A point at which tasks may interleave but no fault is injected.
pub fn yield_only(k: Kind) {
    let _ = point(k);
}

pub fn install_subscriber() {
    let _ = tracing_core::dispatcher::set_global_default(tracing_core::Dispatch::new(SimSub));
}

struct SimLog;
impl log::Log for SimLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !in_task() {
            return;
        }
        let len = outside(|| {
            let s = format!("{}", r.args());
            s.len() as u64
        });
        LOG_BYTES.fetch_add(len, Relaxed);
        if LOG_REENTER.load(Relaxed) {
            outside(crate::pool::reenter);
        }
        point_or_crash(Kind::Log);
    }
    fn flush(&self) {}
}
static LOGGER: SimLog = SimLog;

pub fn install_logger(level: i64) {
    let _ = log::set_logger(&LOGGER);
    set_log_level(level);
}
pub fn set_log_level(level: i64) {
    log::set_max_level(match level {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Error,
        2 => log::LevelFilter::Warn,
        3 => log::LevelFilter::Info,
        4 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    });
}
