//@ pass-epoll: a poller is itself a source, as long as it lives
use polling::{Event, Poller};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd};
fn lend(p: &Poller) -> BorrowedFd<'_> {
    p.as_fd()
}
fn main() -> std::io::Result<()> {
    let (a, b) = (Poller::new()?, Poller::new()?);
    unsafe { a.add(&b, Event::readable(1))? };
    a.modify(&b, Event::readable(2))?;
    a.modify(lend(&b), Event::readable(2))?;
    let _ = b.as_raw_fd();
    a.delete(&b)
}
