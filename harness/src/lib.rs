//! Entry points from which the analysis explores the `polling` crate: one function per
//! public operation, each instantiated with a concrete source type.  Never executed.
#![allow(clippy::missing_safety_doc)]
use polling::{Event, Events, PollMode, Poller};
use std::io;
use std::num::NonZeroUsize;
use std::time::Duration;

pub mod shim;

pub fn poller_new() -> io::Result<Poller> {
    Poller::new()
}
pub fn poller_drop(p: Poller) {
    drop(p)
}
pub fn wait(p: &Poller, ev: &mut Events, t: Option<Duration>) -> io::Result<usize> {
    p.wait(ev, t)
}
pub fn notify(p: &Poller) -> io::Result<()> {
    p.notify()
}
pub fn supports_level(p: &Poller) -> bool {
    p.supports_level()
}
pub fn supports_edge(p: &Poller) -> bool {
    p.supports_edge()
}

pub fn events_new() -> Events {
    Events::new()
}
pub fn events_default() -> Events {
    Events::default()
}
pub fn events_with_capacity(n: NonZeroUsize) -> Events {
    Events::with_capacity(n)
}
pub fn events_capacity(e: &Events) -> NonZeroUsize {
    e.capacity()
}
pub fn events_len(e: &Events) -> usize {
    e.len()
}
pub fn events_is_empty(e: &Events) -> bool {
    e.is_empty()
}
pub fn events_clear(e: &mut Events) {
    e.clear()
}
pub fn events_first(e: &Events) -> Option<Event> {
    e.iter().next()
}
pub fn events_each(e: &Events, f: &mut dyn FnMut(Event)) {
    for x in e.iter() {
        f(x)
    }
}

pub fn event_new(k: usize, r: bool, w: bool) -> Event {
    Event::new(k, r, w)
}
pub fn event_all(k: usize) -> Event {
    Event::all(k)
}
pub fn event_readable(k: usize) -> Event {
    Event::readable(k)
}
pub fn event_writable(k: usize) -> Event {
    Event::writable(k)
}
pub fn event_none(k: usize) -> Event {
    Event::none(k)
}
pub fn event_set_interrupt(e: &mut Event, a: bool) {
    e.set_interrupt(a)
}
pub fn event_with_interrupt(e: Event) -> Event {
    e.with_interrupt()
}
pub fn event_set_priority(e: &mut Event, a: bool) {
    e.set_priority(a)
}
pub fn event_with_priority(e: Event) -> Event {
    e.with_priority()
}
pub fn event_is_interrupt(e: &Event) -> bool {
    e.is_interrupt()
}
pub fn event_is_priority(e: &Event) -> bool {
    e.is_priority()
}
pub fn event_is_connect_failed(e: &Event) -> Option<bool> {
    e.is_connect_failed()
}
pub fn event_is_err(e: &Event) -> Option<bool> {
    e.is_err()
}
pub fn event_clear_extra(e: &mut Event) {
    e.clear_extra()
}
pub fn event_with_no_extra(e: Event) -> Event {
    e.with_no_extra()
}
pub fn event_eq(a: &Event, b: &Event) -> bool {
    a == b
}
pub fn event_clone(a: &Event) -> Event {
    a.clone()
}

#[cfg(unix)]
pub mod src {
    use super::*;
    use std::os::fd::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};

    pub unsafe fn add(p: &Poller, fd: RawFd, ev: Event) -> io::Result<()> {
        p.add(fd, ev)
    }
    pub unsafe fn add_with_mode(p: &Poller, fd: RawFd, ev: Event, m: PollMode) -> io::Result<()> {
        p.add_with_mode(fd, ev, m)
    }
    pub unsafe fn add_ref(p: &Poller, fd: &OwnedFd, ev: Event) -> io::Result<()> {
        p.add(fd, ev)
    }
    pub unsafe fn add_ref_with_mode(
        p: &Poller,
        fd: &OwnedFd,
        ev: Event,
        m: PollMode,
    ) -> io::Result<()> {
        p.add_with_mode(fd, ev, m)
    }
    pub fn modify(p: &Poller, fd: BorrowedFd<'_>, ev: Event) -> io::Result<()> {
        p.modify(fd, ev)
    }
    pub fn modify_with_mode(
        p: &Poller,
        fd: BorrowedFd<'_>,
        ev: Event,
        m: PollMode,
    ) -> io::Result<()> {
        p.modify_with_mode(fd, ev, m)
    }
    pub fn delete(p: &Poller, fd: BorrowedFd<'_>) -> io::Result<()> {
        p.delete(fd)
    }
    pub fn modify_ref(p: &Poller, fd: &OwnedFd, ev: Event) -> io::Result<()> {
        p.modify(fd, ev)
    }
    pub fn modify_ref_with_mode(
        p: &Poller,
        fd: &OwnedFd,
        ev: Event,
        m: PollMode,
    ) -> io::Result<()> {
        p.modify_with_mode(fd, ev, m)
    }
    pub fn delete_ref(p: &Poller, fd: &OwnedFd) -> io::Result<()> {
        p.delete(fd)
    }
    #[cfg(all(
        not(polling_test_poll_backend),
        not(any(target_os = "haiku", target_os = "fuchsia"))
    ))]
    pub fn poller_as_fd(p: &Poller) -> BorrowedFd<'_> {
        p.as_fd()
    }
    #[cfg(all(
        not(polling_test_poll_backend),
        not(any(target_os = "haiku", target_os = "fuchsia"))
    ))]
    pub fn poller_as_raw_fd(p: &Poller) -> RawFd {
        p.as_raw_fd()
    }
}
