//@ fail E0308: waiting needs exclusive access to the buffer
use polling::{Events, Poller};
fn f(p: &Poller, ev: &Events) {
    let _ = p.wait(ev, None);
}
fn main() {
    f(&Poller::new().unwrap(), &Events::new());
}
