//@ fail E0133: adding a source is unsafe
use polling::{Event, Poller};
fn main() {
    let p = Poller::new().unwrap();
    let s = std::io::stdin();
    let _ = p.add(&s, Event::readable(1));
}
