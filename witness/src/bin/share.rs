//@ pass: pollers are shared between threads, buffers are sent between them
fn shared<T: Send + Sync + Unpin + std::fmt::Debug + 'static>() {}
fn sent<T: Send + Unpin + std::fmt::Debug + 'static>() {}
fn plain<T: Send + Sync + Copy + Eq + std::hash::Hash + std::fmt::Debug + 'static>() {}
fn event<T: Send + Sync + Copy + Eq + std::fmt::Debug + 'static>() {}
fn main() {
    shared::<polling::Poller>();
    sent::<polling::Events>();
    event::<polling::Event>();
    plain::<polling::PollMode>();
}
