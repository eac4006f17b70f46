//@ fail E0597|E0515|E0716: an iterator does not outlive its buffer
use polling::{Event, Events};
fn f() -> impl Iterator<Item = Event> + 'static {
    let ev: &'static Events = Box::leak(Box::new(Events::new()));
    let _ = ev;
    let ev = Events::new();
    let it = ev.iter();
    it
}
fn main() {
    drop(f());
}
