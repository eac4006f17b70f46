//@ fail E0502: events cannot be replaced while they are iterated over
use polling::{Events, Poller};
fn main() {
    let p = Poller::new().unwrap();
    let mut ev = Events::new();
    let it = ev.iter();
    let _ = p.wait(&mut ev, None);
    drop(it);
}
