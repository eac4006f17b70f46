//@ fail E0277: the event buffer is not shared between threads
fn shared<T: Sync>() {}
fn main() {
    shared::<polling::Events>();
}
