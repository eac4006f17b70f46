//@ pass: every operation works through a shared reference, from several threads at once
use polling::{Event, Events, PollMode, Poller};
use std::net::TcpListener;
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, OwnedFd};
use std::time::Duration;

fn by_ref(p: &Poller, l: &TcpListener, o: &OwnedFd, b: BorrowedFd<'_>) -> std::io::Result<()> {
    unsafe {
        p.add(l, Event::all(1))?;
        p.add(l.as_raw_fd(), Event::all(1))?;
        p.add_with_mode(o, Event::none(1), PollMode::Oneshot)?;
    }
    p.modify(l, Event::all(2))?;
    p.modify(b, Event::all(2))?;
    p.modify(o, Event::all(2))?;
    p.modify_with_mode(l, Event::readable(2), PollMode::Level)?;
    p.modify_with_mode(b.as_fd(), Event::readable(2), PollMode::Edge)?;
    p.delete(l)?;
    p.delete(b)?;
    p.delete(o)
}

fn waits(p: &Poller, ev: &mut Events) -> std::io::Result<usize> {
    let n = p.wait(ev, Some(Duration::from_secs(1)))?;
    p.wait(ev, None)?;
    for e in ev.iter() {
        let _: Event = e;
    }
    ev.clear();
    Ok(n)
}

fn main() -> std::io::Result<()> {
    let p = std::sync::Arc::new(Poller::new()?);
    let q = p.clone();
    let t = std::thread::spawn(move || {
        let mut ev = Events::new();
        waits(&q, &mut ev)?;
        Ok::<Events, std::io::Error>(ev)
    });
    let l = TcpListener::bind("127.0.0.1:0")?;
    let o: OwnedFd = l.try_clone()?.into();
    std::thread::scope(|s| {
        s.spawn(|| p.notify());
        s.spawn(|| by_ref(&p, &l, &o, l.as_fd()));
    });
    let _ev = t.join().unwrap()?;
    Ok(())
}
