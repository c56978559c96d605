//! C05: status broadcast.
use crate::common::*;
use futures::StreamExt;
use lxi_device::status::{Receiver, Sender};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Default)]
struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

struct Sub {
    rx: Receiver,
    /// sent while subscribed and not yet matched: (value, must be delivered)
    pending: Vec<(u8, bool)>,
    waker: Arc<Count>,
    /// the last poll said Pending; number of wake-ups at that time
    waiting: Option<usize>,
}

fn seq(depth: usize, nsub: usize) -> Verdict {
    let mut tx = [Sender::new(), Sender::new()];
    tx[1] = tx[0].clone();
    let mut subs: Vec<Option<Sub>> = (0..nsub).map(|_| None).collect();
    let mut trace = String::new();
    let mut next = 1u8;
    for _ in 0..depth {
        let op = choose(1 + nsub * 2, "op");
        if op == 0 {
            let which = (next % 2) as usize;
            tx[which].send_status(next);
            trace.push_str(&format!("send {}; ", next));
            for (i, s) in subs.iter_mut().enumerate() {
                if let Some(s) = s {
                    // a subscriber with nothing outstanding always gets the next status
                    let must = s.pending.is_empty();
                    s.pending.push((next, must));
                    if must {
                        if let Some(w) = s.waiting {
                            if s.waker.0.load(Ordering::Relaxed) == w {
                                return bad(format!("wake {}", trace), format!("after [{}] subscriber {} waits for a status but is not woken", trace, i));
                            }
                        }
                    }
                }
            }
            next += 1;
        } else {
            let i = (op - 1) / 2;
            if (op - 1) % 2 == 0 {
                // subscribe, or poll an existing subscription
                match &mut subs[i] {
                    None => {
                        // slots are interchangeable
                        if i > 0 && subs[i - 1].is_none() && next == 1 {
                            return Ok(());
                        }
                        let which = ((next / 2) % 2) as usize;
                        subs[i] = Some(Sub {
                            rx: tx[which].get_new_receiver(),
                            pending: Vec::new(),
                            waker: Arc::new(Count::default()),
                            waiting: None,
                        });
                        trace.push_str(&format!("s{} subscribes; ", i));
                    }
                    Some(s) => {
                        let w: Waker = s.waker.clone().into();
                        let r = s.rx.poll_next_unpin(&mut Context::from_waker(&w));
                        trace.push_str(&format!("s{} polls {:?}; ", i, r));
                        match r {
                            Poll::Ready(Some(v)) => {
                                s.waiting = None;
                                // everything before it may have been dropped only if the subscriber was behind
                                let Some(p) = s.pending.iter().position(|x| x.0 == v) else {
                                    return bad(format!("extra {}", trace), format!("after [{}] subscriber {} got {} which was not sent to it (again)", trace, i, v));
                                };
                                if let Some(m) = s.pending[..p].iter().find(|x| x.1) {
                                    return bad(format!("lost {}", trace), format!("after [{}] subscriber {} never got {}", trace, i, m.0));
                                }
                                s.pending.drain(..=p);
                                // what is still queued must come next; what was dropped is unknown
                            }
                            Poll::Ready(None) => return bad(format!("closed {}", trace), format!("after [{}] the subscription of {} ended", trace, i)),
                            Poll::Pending => {
                                s.waiting = Some(s.waker.0.load(Ordering::Relaxed));
                                if let Some(m) = s.pending.iter().find(|x| x.1) {
                                    return bad(format!("lost {}", trace), format!("after [{}] subscriber {} was up to date but did not get {}", trace, i, m.0));
                                }
                                s.pending.clear();
                            }
                        }
                    }
                }
            } else {
                if subs[i].is_none() {
                    return Ok(());
                }
                subs[i] = None;
                trace.push_str(&format!("s{} leaves; ", i));
            }
        }
    }
    event(trace);
    Ok(())
}

/// Subscribers that left are forgotten.
fn growth(len: usize) -> Verdict {
    let mut tx = Sender::new();
    let ops: Vec<usize> = (0..len).map(|_| choose(4, "op")).collect();
    // the device may have nothing to announce for long
    let announce = choose(2, "announce") == 0;
    let mut keep = tx.get_new_receiver();
    let mut got = 0u64;
    let mut sent = 0u64;
    let mut one = || {
        let mut subs = Vec::new();
        for o in &ops {
            match o {
                0 => subs.push(tx.get_new_receiver()),
                1 => {
                    drop(subs.pop());
                }
                2 => tx.send_status(1),
                _ => {
                    if let Some(s) = subs.last_mut() {
                        let _ = s.try_next();
                    }
                }
            }
        }
        drop(subs);
        while let Ok(Some(_)) = keep.try_next() {}
        if !announce {
            return;
        }
        tx.send_status(7);
        sent += 1;
        while let Ok(Some(v)) = keep.try_next() {
            if v == 7 {
                got += 1;
            }
        }
    };
    for _ in 0..60 {
        one();
    }
    let l1 = crate::live_bytes();
    for _ in 0..200 {
        one();
    }
    let l2 = crate::live_bytes();
    event(format!("{:?} {}", ops, announce));
    if l2 - l1 > 200 * 8 {
        return bad(format!("growth {:?}", ops), format!("history {:?} repeated: {} bytes more after 200 repetitions", ops, l2 - l1));
    }
    if got != sent {
        return bad(format!("others {:?}", ops), format!("history {:?}: a subscriber that keeps up got {} of {} statuses", ops, got, sent));
    }
    Ok(())
}

/// Two senders and two subscribers as concurrent tasks.
fn conc() -> Verdict {
    let tx = Sender::new();
    let n_send = 2;
    let logs: Vec<std::rc::Rc<std::cell::RefCell<Vec<u8>>>> = (0..2).map(|_| Default::default()).collect();
    let mut rxs = Vec::new();
    for (i, l) in logs.iter().enumerate() {
        let mut t = tx.clone();
        let mut rx = t.get_new_receiver();
        let l = l.clone();
        rxs.push(mcrt::spawn_named(&format!("sub{}", i), async move {
            while let Some(v) = rx.next().await {
                event(format!("sub{} gets {}", i, v));
                l.borrow_mut().push(v);
            }
        }));
    }
    // a subscriber that comes and goes
    let mut t3 = tx.clone();
    mcrt::spawn_named("visitor", async move {
        let rx = t3.get_new_receiver();
        async_std::task::yield_now().await;
        drop(rx);
    });
    run_idle();
    mcrt::set_explore(true, true, false, false);
    for k in 0..2u8 {
        let mut t = tx.clone();
        mcrt::spawn_named(&format!("send{}", k), async move {
            for j in 0..n_send {
                event(format!("send {}", k * 10 + j));
                t.send_status(k * 10 + j);
                for _ in 0..3 {
                    async_std::task::yield_now().await;
                }
            }
        });
    }
    run_idle();
    mcrt::explore_off();
    no_trouble()?;
    for (i, l) in logs.iter().enumerate() {
        let l = l.borrow();
        for k in 0..2u8 {
            let mine: Vec<u8> = l.iter().copied().filter(|v| v / 10 == k).collect();
            let mut sorted = mine.clone();
            sorted.sort();
            sorted.dedup();
            if sorted != mine {
                return bad(format!("order {:?}", l), format!("subscriber {} got {:?}: out of order or twice", i, l));
            }
        }
    }
    // once everybody is up to date the next status reaches both
    let mut t = tx.clone();
    t.send_status(99);
    run_idle();
    for (i, l) in logs.iter().enumerate() {
        if l.borrow().last() != Some(&99) {
            return bad(format!("last {:?}", l.borrow()), format!("subscriber {} was up to date but got {:?} instead of 99 at the end", i, l.borrow()));
        }
    }
    Ok(())
}

/// Any number of subscribers, some of which are slow or leave: everybody up to date gets every status.
fn many() -> Verdict {
    const N: [usize; 11] = [1, 7, 8, 9, 16, 17, 33, 65, 257, 1000, 5000];
    let n = N[choose(N.len(), "subscribers")];
    let slow = [0, 2, 3][choose(3, "every which one is slow")];
    let mut tx = Sender::new();
    let mut rx: Vec<Option<Receiver>> = (0..n).map(|_| Some(tx.get_new_receiver())).collect();
    for round in 0..6u8 {
        tx.send_status(round);
        for (i, r) in rx.iter_mut().enumerate() {
            let lazy = slow > 0 && i % slow == 1 && round % 3 != 2;
            if let (Some(r), false) = (r.as_mut(), lazy) {
                let mut got = Vec::new();
                while let Ok(Some(x)) = r.try_next() {
                    got.push(x);
                }
                // a slow one was not up to date
                let ok = if slow > 0 && i % slow == 1 { got.windows(2).all(|w| w[0] < w[1]) && !got.is_empty() } else { got == [round] };
                if !ok {
                    return bad(format!("many {} {} {}", n, i, round), format!("subscriber {} of {} gets {:?} when {} is announced", i, n, got, round));
                }
            }
        }
        // some leave, others come
        for i in (0..n).filter(|i| i % 5 == round as usize) {
            rx[i] = None;
        }
        if round == 4 {
            for r in rx.iter_mut().filter(|r| r.is_none()) {
                *r = Some(tx.get_new_receiver());
            }
        }
    }
    Ok(())
}

pub fn c05() -> Vec<Scenario> {
    let d = q(10, 12);
    let g = q(4, 6);
    let mut v = vec![
        Scenario::new("many", "1 to 5000 subscribers, none or some of them slow, some leaving and coming", many),
        Scenario::new("sequences-2", format!("all sequences of {} operations (send, subscribe/poll, leave) with 2 subscribers", d), move || seq(d, 2)),
        Scenario::new("growth", format!("all cyclic histories of {} operations, with or without an announcement each time, repeated", g), move || growth(g)),
        Scenario::new("concurrent", "2 senders, 2 subscribers and a visitor, every interleaving up to the deviation bound", conc).bound(3, 4),
    ];
    let d3 = q(8, 10);
    v.push(Scenario::new("sequences-3", format!("all sequences of {} operations with 3 subscribers", d3), move || seq(d3, 3)));
    v
}
