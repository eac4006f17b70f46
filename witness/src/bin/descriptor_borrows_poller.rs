//@ fail-epoll E0597|E0515: the poller's descriptor is only lent
use polling::Poller;
use std::os::fd::{AsFd, BorrowedFd};
fn f() -> BorrowedFd<'static> {
    let p = Poller::new().unwrap();
    let fd = p.as_fd();
    fd
}
fn main() {
    f();
}
