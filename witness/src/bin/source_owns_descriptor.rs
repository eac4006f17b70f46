//@ fail E0277|E0119: only a type that lends a descriptor can be a borrowed source
use polling::{AsSource, Poller};
struct Fake;
impl AsSource for Fake {}
fn main() {
    let p = Poller::new().unwrap();
    let _ = p.delete(Fake);
}
