//! Virtual time.
use crate::{try_rt, with_rt};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Debug)]
pub struct Timer {
    deadline: u64,
    key: Option<(u64, u64)>,
    epoch: u64,
}

impl Timer {
    pub fn after(d: Duration) -> Timer {
        with_rt(|rt| Timer {
            deadline: rt.now.saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64),
            key: None,
            epoch: rt.epoch,
        })
    }
}

impl Future for Timer {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        crate::op_tick();
        with_rt(|rt| {
            if rt.epoch != self.epoch {
                return Poll::Ready(());
            }
            if let Some(k) = self.key.take() {
                rt.timers.remove(&k);
            }
            if rt.now >= self.deadline {
                return Poll::Ready(());
            }
            rt.timer_seq += 1;
            let k = (self.deadline, rt.timer_seq);
            rt.timers.insert(k, cx.waker().clone());
            self.key = Some(k);
            Poll::Pending
        })
    }
}

impl Drop for Timer {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            let epoch = self.epoch;
            let w = try_rt(|rt| {
                if rt.epoch == epoch {
                    rt.timers.remove(&k)
                } else {
                    None
                }
            });
            drop(w);
        }
    }
}
