//@ fail E0277: a bare descriptor number is not enough to change a registration
use polling::{Event, PollMode, Poller};
fn main() {
    let p = Poller::new().unwrap();
    let n: std::os::fd::RawFd = 0;
    let _ = p.modify_with_mode(n, Event::readable(1), PollMode::Level);
}
