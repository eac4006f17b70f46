//@ fail-epoll E0505: the poller's descriptor is only lent
use polling::Poller;
use std::os::fd::{AsFd, BorrowedFd};
fn main() {
    let p = Poller::new().unwrap();
    let fd: BorrowedFd<'_> = p.as_fd();
    drop(p);
    let _ = fd.try_clone_to_owned();
}
