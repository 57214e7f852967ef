//! A thread-local log of everything absorbed by / squeezed from a `DefaultTranscript`.
//! Recording is off unless a harness calls `start`.
use std::cell::RefCell;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Event {
    New,
    Append(Vec<u8>),
    Challenge([u8; 32]),
}

thread_local! {
    static LOG: RefCell<Option<Vec<Event>>> = RefCell::new(None);
}

pub fn start() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn stop() -> Vec<Event> {
    LOG.with(|l| l.borrow_mut().take()).unwrap_or_default()
}
pub(crate) fn record(f: impl FnOnce() -> Event) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(f())
        }
    });
}
