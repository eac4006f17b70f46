//@ fail E0502: events cannot be cleared while they are iterated over
use polling::Events;
fn main() {
    let mut ev = Events::new();
    let it = ev.iter();
    ev.clear();
    drop(it);
}
