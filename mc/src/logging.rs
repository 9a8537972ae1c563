//! Logging at every level into nothing, so that what's only computed for log messages runs as well.

use std::fmt::Write;

struct Nothing;

impl Write for Nothing {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

/// Format something, and forget it.
pub fn shown(x: std::fmt::Arguments) {
    let _ = Nothing.write_fmt(x);
}

struct Sink;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        shown(*r.args());
    }
    fn flush(&self) {}
}

/// Whether everything is logged while this exists.
pub struct Logged;

impl Logged {
    pub fn on() -> Logged {
        static SINK: Sink = Sink;
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Trace);
        Logged
    }
}

impl Drop for Logged {
    fn drop(&mut self) {
        log::set_max_level(log::LevelFilter::Off);
    }
}
