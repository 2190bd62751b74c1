pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};

use crate::proto::*;
use crate::rt;
use ::std::collections::VecDeque;
use ::std::fmt;
use ::std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use ::std::sync::{Arc, Condvar, Mutex};
use ::std::time::{Duration, Instant};

struct St<T> {
    q: VecDeque<T>,
    senders: usize,
    receiver: bool,
    taken: u64,  // messages received so far
    pushed: u64, // messages sent so far
}

struct Chan<T> {
    id: usize,
    cap: Option<usize>,
    st: Mutex<St<T>>,
    cv: Condvar, // only used when not under the scheduler
}

static IDS: AtomicUsize = AtomicUsize::new(0);

fn new<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        id: 0x7fff_0000_0000_0000 + IDS.fetch_add(1, SeqCst),
        cap,
        st: Mutex::new(St { q: VecDeque::new(), senders: 1, receiver: true, taken: 0, pushed: 0 }),
        cv: Condvar::new(),
    })
}

impl<T> Chan<T> {
    fn lock(&self) -> ::std::sync::MutexGuard<'_, St<T>> {
        self.st.lock().unwrap_or_else(|p| p.into_inner())
    }
    fn room(&self, s: &St<T>) -> bool {
        match self.cap {
            None => true,
            Some(c) => s.q.len() < c.max(1),
        }
    }
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        if rt::on() {
            let aux = self.cap.map(|c| c.max(1) as u32).unwrap_or(0);
            rt::point(K_SEND, self.id, aux, &|| {
                let s = self.lock();
                if !s.receiver || self.room(&s) {
                    rt::YES
                } else {
                    rt::NO
                }
            });
            let my;
            {
                let mut s = self.lock();
                if !s.receiver {
                    return Err(SendError(t));
                }
                s.q.push_back(t);
                s.pushed += 1;
                my = s.pushed;
            }
            if self.cap == Some(0) {
                // rendezvous: wait until the message was taken
                rt::point(K_OTHER, self.id, 0, &|| {
                    let s = self.lock();
                    if !s.receiver || s.taken >= my {
                        rt::YES
                    } else {
                        rt::NO
                    }
                });
                let mut s = self.lock();
                if s.taken < my {
                    if let Some(t) = s.q.pop_back() {
                        return Err(SendError(t));
                    }
                }
            }
            return Ok(());
        }
        let mut s = self.lock();
        while s.receiver && !self.room(&s) {
            s = self.cv.wait(s).unwrap_or_else(|p| p.into_inner());
        }
        if !s.receiver {
            return Err(SendError(t));
        }
        s.q.push_back(t);
        s.pushed += 1;
        self.cv.notify_all();
        if self.cap == Some(0) {
            let my = s.pushed;
            while s.receiver && s.taken < my {
                s = self.cv.wait(s).unwrap_or_else(|p| p.into_inner());
            }
            if s.taken < my {
                if let Some(t) = s.q.pop_back() {
                    return Err(SendError(t));
                }
            }
        }
        Ok(())
    }
    fn pop(&self, s: &mut St<T>) -> Option<T> {
        let t = s.q.pop_front();
        if t.is_some() {
            s.taken += 1;
            self.cv.notify_all();
        }
        t
    }
    fn drop_sender(&self) {
        if rt::on() {
            rt::simple(K_SDROP, self.id);
        }
        let mut s = self.lock();
        s.senders -= 1;
        self.cv.notify_all();
    }
}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = new(None);
    (Sender { c: c.clone() }, Receiver { c, _p: ::std::marker::PhantomData })
}

pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = new(Some(rt::cap(bound)));
    (SyncSender { c: c.clone() }, Receiver { c, _p: ::std::marker::PhantomData })
}

pub struct Sender<T> {
    c: Arc<Chan<T>>,
}
pub struct SyncSender<T> {
    c: Arc<Chan<T>>,
}
pub struct Receiver<T> {
    c: Arc<Chan<T>>,
    _p: ::std::marker::PhantomData<::std::cell::Cell<()>>,
}
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for SyncSender<T> {}
unsafe impl<T: Send> Sync for SyncSender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.c.send(t)
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.c.send(t)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        if rt::on() {
            rt::point(K_TRYSEND, self.c.id, 0, &|| {
                let s = self.c.lock();
                if !s.receiver || self.c.room(&s) {
                    rt::YES
                } else {
                    rt::NOOP
                }
            });
        }
        let mut s = self.c.lock();
        if !s.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        if !self.c.room(&s) {
            return Err(TrySendError::Full(t));
        }
        s.q.push_back(t);
        s.pushed += 1;
        self.c.cv.notify_all();
        Ok(())
    }
}
macro_rules! sender {
    ($n:ident) => {
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.c.lock().senders += 1;
                $n { c: self.c.clone() }
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                self.c.drop_sender();
            }
        }
        impl<T> fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(concat!(stringify!($n), " { .. }"))
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);

impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        if rt::on() {
            rt::point(K_RECV, self.c.id, 0, &|| {
                let s = self.c.lock();
                if !s.q.is_empty() || s.senders == 0 {
                    rt::YES
                } else {
                    rt::NO
                }
            });
            let r = self.c.pop(&mut self.c.lock());
            rt::set_aux(r.is_some() as u32);
            return r.ok_or(RecvError);
        }
        let mut s = self.c.lock();
        loop {
            if let Some(t) = self.c.pop(&mut s) {
                return Ok(t);
            }
            if s.senders == 0 {
                return Err(RecvError);
            }
            s = self.c.cv.wait(s).unwrap_or_else(|p| p.into_inner());
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        if rt::on() {
            rt::point(K_RECVNB, self.c.id, 0, &|| {
                let s = self.c.lock();
                if !s.q.is_empty() {
                    rt::YES
                } else {
                    rt::NOOP
                }
            });
        }
        let mut s = self.c.lock();
        match self.c.pop(&mut s) {
            Some(t) => {
                drop(s);
                if rt::on() {
                    rt::set_aux(1);
                }
                Ok(t)
            }
            None if s.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        if rt::on() {
            rt::point(K_RECVNB, self.c.id, 0, &|| {
                let s = self.c.lock();
                if !s.q.is_empty() {
                    rt::YES
                } else if s.senders == 0 {
                    rt::NOOP
                } else {
                    rt::LOW
                }
            });
            let mut s = self.c.lock();
            return match self.c.pop(&mut s) {
                Some(t) => {
                    drop(s);
                    rt::set_aux(1);
                    Ok(t)
                }
                None if s.senders == 0 => Err(RecvTimeoutError::Disconnected),
                None => Err(RecvTimeoutError::Timeout),
            };
        }
        let end = Instant::now() + d;
        let mut s = self.c.lock();
        loop {
            if let Some(t) = self.c.pop(&mut s) {
                return Ok(t);
            }
            if s.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            let now = Instant::now();
            if now >= end {
                return Err(RecvTimeoutError::Timeout);
            }
            s = self.c.cv.wait_timeout(s, end - now).unwrap_or_else(|p| p.into_inner()).0;
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { r: self }
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter { r: self }
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if rt::on() {
            rt::simple(K_RDROP, self.c.id);
        }
        let mut s = self.c.lock();
        s.receiver = false;
        let q = if self.c.cap == Some(0) { VecDeque::new() } else { ::std::mem::take(&mut s.q) };
        self.c.cv.notify_all();
        drop(s);
        drop(q);
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}

#[derive(Debug)]
pub struct Iter<'a, T: 'a> {
    r: &'a Receiver<T>,
}
#[derive(Debug)]
pub struct TryIter<'a, T: 'a> {
    r: &'a Receiver<T>,
}
#[derive(Debug)]
pub struct IntoIter<T> {
    r: Receiver<T>,
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
impl<'a, T> Iterator for TryIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { r: self }
    }
}
