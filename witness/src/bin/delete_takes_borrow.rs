//@ fail E0277: a bare descriptor number is not enough to delete a registration
use polling::Poller;
fn main() {
    let p = Poller::new().unwrap();
    let n: std::os::fd::RawFd = 0;
    let _ = p.delete(n);
}
