//@ fail E0133: adding a source is unsafe
use polling::{Event, PollMode, Poller};
fn main() {
    let p = Poller::new().unwrap();
    let s = std::io::stdin();
    let _ = p.add_with_mode(&s, Event::readable(1), PollMode::Level);
}
