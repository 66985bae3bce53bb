//! Simulated std::sync::mpsc (unbounded channel).
use crate::sched::*;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::time::Duration;
pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError};

struct Inner<T> { q: VecDeque<T>, senders: usize, receiver: bool }
struct Chan<T> { id: u64, inner: Mutex<Inner<T>> }
pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan { id: new_chan(), inner: Mutex::new(Inner { q: VecDeque::new(), senders: 1, receiver: true }) });
    (Sender(c.clone()), Receiver(c))
}

impl<T> Chan<T> { fn lock(&self) -> std::sync::MutexGuard<'_, Inner<T>> { self.inner.lock().unwrap_or_else(|e| e.into_inner()) } }

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        yield_point("send", self.0.id, false);
        {
            let mut i = self.0.lock();
            if !i.receiver {
                drop(i);
                if is_killed() { return Ok(()); }
                return Err(SendError(t));
            }
            i.q.push_back(t);
        }
        wake_chan(self.0.id);
        yield_point("sent", self.0.id, false);
        Ok(())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) { self.0.lock().senders -= 1; wake_chan(self.0.id); }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) { let mut i = self.0.lock(); i.receiver = false; i.q.clear(); }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        yield_point("recv", self.0.id, false);
        loop {
            if is_killed() && tid() != 0 { return Err(RecvError); }
            {
                let mut i = self.0.lock();
                if let Some(t) = i.q.pop_front() { return Ok(t); }
                if i.senders == 0 { drop(i); client_retry(); return Err(RecvError); }
            }
            if is_killed() { return Err(RecvError); }
            block_on(self.0.id, None);
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        yield_point("poll", self.0.id, false);
        let deadline = core().now + d.as_nanos() as u64;
        loop {
            if is_killed() && tid() != 0 { return Err(RecvTimeoutError::Disconnected); }
            {
                let mut i = self.0.lock();
                if let Some(t) = i.q.pop_front() { return Ok(t); }
                if i.senders == 0 { return Err(RecvTimeoutError::Disconnected); }
            }
            if is_killed() || core().now >= deadline { return Err(RecvTimeoutError::Timeout); }
            block_on(self.0.id, Some(deadline));
        }
    }
}
