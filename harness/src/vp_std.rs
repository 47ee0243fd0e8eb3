// Included into ms_toollib as module `vp_std` when it is built with --cfg vp_mc (see the hook commit).
// std with the thread, lock, channel and atomic operations announced to a checker's scheduler.
// When no scheduler is installed on the calling OS thread, everything is plain std.
pub use ::std::*;

pub mod rt {
    /// What a thread is about to do. It pauses before each of these.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Op { Lock(usize), Read(usize), Send(usize, u64), Recv(usize), TryRecv(usize), Join(usize), Atomic(usize), Wait(usize, usize), Yield }
    pub trait Rt {
        /// New object (queue capacity for bounded channels).
        fn object(&self, content: u64, cap: usize) -> usize;
        /// Runs f as a new thread up to its first operation.
        fn spawn(&self, f: Box<dyn FnOnce()>) -> usize;
        /// Pauses the calling thread until it is chosen and the operation can be done; answers 0 when a
        /// receive finds a closed channel, a send finds no receiver, or a lock is taken by someone else.
        fn op(&self, o: Op) -> u64;
        /// Without a pause: the lock is given back, its content is now this.
        fn unlock(&self, id: usize, content: Option<u64>);
        /// Without a pause: the (free) lock is taken.
        fn grab(&self, id: usize);
        fn unread(&self, id: usize);
        fn senders(&self, id: usize, by: isize);
        fn no_receiver(&self, id: usize);
        fn notify(&self, id: usize, all: bool);
        /// The calling thread saw this value.
        fn observed(&self, v: u64);
        fn content(&self, id: usize, v: u64);
        fn done(&self, tid: usize) -> bool;
        fn me(&self) -> usize;
    }
    ::std::thread_local! { static CUR: ::std::cell::Cell<Option<&'static dyn Rt>> = const { ::std::cell::Cell::new(None) }; }
    pub fn install(r: Option<&'static dyn Rt>) { CUR.with(|c| c.set(r)); }
    pub fn cur() -> Option<&'static dyn Rt> { CUR.try_with(|c| c.get()).ok().flatten() }
    pub fn hash(v: &impl ::std::hash::Hash) -> u64 {
        use ::std::hash::Hasher;
        #[allow(deprecated)]
        let mut h = ::std::hash::SipHasher::new();
        v.hash(&mut h);
        h.finish()
    }
    /// Digest of a small plain value, None when there is no cheap exact one.
    pub fn plain<T>(v: &T) -> Option<u64> {
        if ::std::mem::needs_drop::<T>() || ::std::mem::size_of::<T>() != ::std::mem::align_of::<T>() { return None; }
        unsafe {
            let p = v as *const T;
            match ::std::mem::size_of::<T>() {
                1 => Some(*(p as *const u8) as u64),
                2 => Some(*(p as *const u16) as u64),
                4 => Some(*(p as *const u32) as u64),
                8 => Some(*(p as *const u64)),
                _ => None,
            }
        }
    }
    pub fn digest<T: 'static>(v: &T) -> Option<u64> {
        let a = v as &dyn ::std::any::Any;
        if let Some(x) = a.downcast_ref::<(Vec<Vec<i32>>, bool)>() { return Some(hash(x)); }
        if let Some(x) = a.downcast_ref::<Option<(Vec<Vec<i32>>, bool)>>() { return Some(hash(x)); }
        if let Some(x) = a.downcast_ref::<Option<Vec<Vec<i32>>>>() { return Some(hash(x)); }
        if let Some(x) = a.downcast_ref::<(bool, Vec<Vec<i32>>)>() { return Some(hash(x)); }
        if let Some(x) = a.downcast_ref::<Vec<Vec<i32>>>() { return Some(hash(x)); }
        if let Some(x) = a.downcast_ref::<(Vec<Vec<i32>>, bool, usize)>() { return Some(hash(x)); }
        plain(v)
    }
}

pub mod thread {
    pub use ::std::thread::*;
    use super::rt;
    use ::std::sync::{Arc, Mutex as M};
    type Slot<T> = Arc<M<Option<::std::thread::Result<T>>>>;
    enum H<T> { Real(::std::thread::JoinHandle<T>), Model(usize, Slot<T>) }
    pub struct JoinHandle<T>(H<T>);
    impl<T> JoinHandle<T> {
        pub fn join(self) -> ::std::thread::Result<T> {
            match self.0 {
                H::Real(h) => h.join(),
                H::Model(id, s) => { rt::cur().unwrap().op(rt::Op::Join(id)); let r = s.lock().unwrap().take(); r.unwrap() }
            }
        }
        pub fn is_finished(&self) -> bool {
            match &self.0 {
                H::Real(h) => h.is_finished(),
                H::Model(id, _) => { let r = rt::cur().unwrap(); r.op(rt::Op::Yield); let d = r.done(*id); r.observed(d as u64); d }
            }
        }
    }
    fn run<T, F: FnOnce() -> T>(f: F, s: Slot<T>) {
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
        *s.lock().unwrap() = Some(r);
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
        match rt::cur() {
            None => JoinHandle(H::Real(::std::thread::spawn(f))),
            Some(r) => {
                let s: Slot<T> = Arc::new(M::new(None));
                let s2 = s.clone();
                JoinHandle(H::Model(r.spawn(Box::new(move || run(f, s2))), s))
            }
        }
    }
    #[derive(Debug, Default)]
    pub struct Builder { size: Option<usize>, name: Option<String> }
    impl Builder {
        pub fn new() -> Builder { Builder::default() }
        pub fn name(mut self, n: String) -> Builder { self.name = Some(n); self }
        pub fn stack_size(mut self, n: usize) -> Builder { self.size = Some(n); self }
        pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
            if rt::cur().is_some() { return Ok(spawn(f)); }
            let mut b = ::std::thread::Builder::new();
            if let Some(n) = self.size { b = b.stack_size(n); }
            if let Some(n) = self.name { b = b.name(n); }
            b.spawn(f).map(|h| JoinHandle(H::Real(h)))
        }
    }
    /// Scoped threads: joined when the scope ends.
    pub struct Scope<'scope, 'env: 'scope> { ids: M<Vec<(usize, Arc<M<bool>>)>>, _p: ::std::marker::PhantomData<(&'scope mut &'scope (), &'env mut &'env ())> }
    pub struct ScopedJoinHandle<'scope, T>(JoinHandle<T>, ::std::marker::PhantomData<&'scope ()>);
    impl<'scope, T> ScopedJoinHandle<'scope, T> {
        pub fn join(self) -> ::std::thread::Result<T> { self.0.join() }
        pub fn is_finished(&self) -> bool { self.0.is_finished() }
    }
    impl<'scope, 'env> Scope<'scope, 'env> {
        pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
            let s: Slot<T> = Arc::new(M::new(None));
            let s2 = s.clone();
            let bad = Arc::new(M::new(false));
            let bad2 = bad.clone();
            let body: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || { run(f, s2.clone()); *bad2.lock().unwrap() = s2.lock().unwrap().as_ref().map_or(false, |r| r.is_err()); });
            let body: Box<dyn FnOnce() + Send + 'static> = unsafe { ::std::mem::transmute(body) };
            match rt::cur() {
                Some(r) => {
                    let id = r.spawn(body);
                    self.ids.lock().unwrap().push((id, bad));
                    ScopedJoinHandle(JoinHandle(H::Model(id, s)), ::std::marker::PhantomData)
                }
                None => {
                    // no scheduler: run at once, which is one legal schedule
                    body();
                    let h = ::std::thread::spawn(|| ());
                    let _ = h.join();
                    ScopedJoinHandle(JoinHandle(H::Model(usize::MAX, s)), ::std::marker::PhantomData)
                }
            }
        }
    }
    pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
        let sc = Scope { ids: M::new(vec![]), _p: ::std::marker::PhantomData };
        let sr: &Scope = unsafe { &*(&sc as *const Scope) };
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(sr)));
        let mut bad = false;
        for (id, b) in sc.ids.lock().unwrap().iter() { rt::cur().unwrap().op(rt::Op::Join(*id)); bad |= *b.lock().unwrap(); }
        let _ = bad;
        match r { Ok(x) => x, Err(e) => ::std::panic::resume_unwind(e) }
    }
    pub fn yield_now() { match rt::cur() { Some(r) => { r.op(rt::Op::Yield); } None => ::std::thread::yield_now() } }
    pub fn sleep(d: ::std::time::Duration) { match rt::cur() { Some(r) => { r.op(rt::Op::Yield); } None => ::std::thread::sleep(d) } }
}

pub mod sync {
    pub use ::std::sync::*;
    use super::rt::{self, Op};
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

    #[derive(Debug)]
    pub struct Mutex<T: ?Sized> { id: usize, inner: ::std::sync::Mutex<T> }
    pub struct MutexGuard<'a, T: 'a> { id: usize, m: &'a Mutex<T>, g: Option<::std::sync::MutexGuard<'a, T>> }
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Mutex<T> {
            let id = rt::cur().map_or(0, |r| r.object(rt::plain(&t).unwrap_or(1), usize::MAX));
            Mutex { id, inner: ::std::sync::Mutex::new(t) }
        }
        fn wrap<'a>(&'a self, r: LockResult<::std::sync::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
            match r {
                Ok(g) => Ok(MutexGuard { id: self.id, m: self, g: Some(g) }),
                Err(e) => Err(PoisonError::new(MutexGuard { id: self.id, m: self, g: Some(e.into_inner()) })),
            }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            if self.id != 0 { if let Some(r) = rt::cur() { r.op(Op::Lock(self.id)); } }
            self.wrap(self.inner.lock())
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if self.id != 0 { if let Some(r) = rt::cur() { r.op(Op::Yield); } }
            match self.inner.try_lock() {
                Ok(g) => { if self.id != 0 { if let Some(r) = rt::cur() { r.grab(self.id); } } Ok(MutexGuard { id: self.id, m: self, g: Some(g) }) }
                Err(TryLockError::WouldBlock) => { if let Some(r) = rt::cur() { r.observed(99); } Err(TryLockError::WouldBlock) }
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { id: self.id, m: self, g: Some(e.into_inner()) }))),
            }
        }
        pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
        pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    }
    impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
    impl<'a, T> Deref for MutexGuard<'a, T> { type Target = T; fn deref(&self) -> &T { self.g.as_ref().unwrap() } }
    impl<'a, T> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { self.g.as_mut().unwrap() } }
    impl<'a, T> Drop for MutexGuard<'a, T> {
        fn drop(&mut self) {
            if let Some(g) = self.g.take() {
                let c = rt::plain(&*g);
                drop(g);
                if self.id != 0 { if let Some(r) = rt::cur() { r.unlock(self.id, c); } }
            }
        }
    }

    #[derive(Debug)]
    pub struct RwLock<T> { id: usize, inner: ::std::sync::RwLock<T> }
    pub struct RwLockReadGuard<'a, T> { id: usize, g: Option<::std::sync::RwLockReadGuard<'a, T>> }
    pub struct RwLockWriteGuard<'a, T> { id: usize, g: Option<::std::sync::RwLockWriteGuard<'a, T>> }
    impl<T> RwLock<T> {
        pub fn new(t: T) -> RwLock<T> {
            let id = rt::cur().map_or(0, |r| r.object(rt::plain(&t).unwrap_or(1), usize::MAX));
            RwLock { id, inner: ::std::sync::RwLock::new(t) }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            if self.id != 0 { if let Some(r) = rt::cur() { r.op(Op::Read(self.id)); } }
            match self.inner.read() {
                Ok(g) => Ok(RwLockReadGuard { id: self.id, g: Some(g) }),
                Err(e) => Err(PoisonError::new(RwLockReadGuard { id: self.id, g: Some(e.into_inner()) })),
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            if self.id != 0 { if let Some(r) = rt::cur() { r.op(Op::Lock(self.id)); } }
            match self.inner.write() {
                Ok(g) => Ok(RwLockWriteGuard { id: self.id, g: Some(g) }),
                Err(e) => Err(PoisonError::new(RwLockWriteGuard { id: self.id, g: Some(e.into_inner()) })),
            }
        }
        pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
    }
    impl<'a, T> Deref for RwLockReadGuard<'a, T> { type Target = T; fn deref(&self) -> &T { self.g.as_ref().unwrap() } }
    impl<'a, T> Deref for RwLockWriteGuard<'a, T> { type Target = T; fn deref(&self) -> &T { self.g.as_ref().unwrap() } }
    impl<'a, T> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { self.g.as_mut().unwrap() } }
    impl<'a, T> Drop for RwLockReadGuard<'a, T> { fn drop(&mut self) { drop(self.g.take()); if self.id != 0 { if let Some(r) = rt::cur() { r.unread(self.id); } } } }
    impl<'a, T> Drop for RwLockWriteGuard<'a, T> {
        fn drop(&mut self) {
            if let Some(g) = self.g.take() {
                let c = rt::plain(&*g);
                drop(g);
                if self.id != 0 { if let Some(r) = rt::cur() { r.unlock(self.id, c); } }
            }
        }
    }

    #[derive(Debug, Default)]
    pub struct Condvar { id: usize, inner: ::std::sync::Condvar }
    impl Condvar {
        pub fn new() -> Condvar { Condvar { id: rt::cur().map_or(0, |r| r.object(0, usize::MAX)), inner: ::std::sync::Condvar::new() } }
        pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let real = g.g.take().unwrap();
            let m = g.m;
            match rt::cur() {
                Some(r) if self.id != 0 => {
                    let c = rt::plain(&*real);
                    drop(real);
                    r.unlock(m.id, c);
                    r.op(Op::Wait(self.id, m.id));
                    m.wrap(m.inner.lock())
                }
                _ => m.wrap(self.inner.wait(real)),
            }
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) { g = self.wait(g)?; }
            Ok(g)
        }
        pub fn notify_one(&self) { match rt::cur() { Some(r) if self.id != 0 => r.notify(self.id, false), _ => self.inner.notify_one() } }
        pub fn notify_all(&self) { match rt::cur() { Some(r) if self.id != 0 => r.notify(self.id, true), _ => self.inner.notify_all() } }
    }

    pub mod mpsc {
        pub use ::std::sync::mpsc::*;
        use super::super::rt::{self, Op};
        use ::std::sync::mpsc as real;
        macro_rules! sender { ($S:ident, $R:ident) => {
            #[derive(Debug)]
            pub struct $S<T> { id: usize, inner: Option<real::$R<T>> }
            impl<T> Clone for $S<T> { fn clone(&self) -> Self { if self.id != 0 { if let Some(r) = rt::cur() { r.senders(self.id, 1); } } $S { id: self.id, inner: self.inner.clone() } } }
            impl<T> Drop for $S<T> { fn drop(&mut self) { drop(self.inner.take()); if self.id != 0 { if let Some(r) = rt::cur() { r.senders(self.id, -1); } } } }
            impl<T: 'static> $S<T> {
                pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                    if self.id != 0 { if let Some(r) = rt::cur() {
                        // 0: let the scheduler use the sender's history as the digest
                        r.op(Op::Send(self.id, rt::digest(&t).unwrap_or(0)));
                    } }
                    self.inner.as_ref().unwrap().send(t)
                }
            }
        } }
        sender!(Sender, Sender);
        sender!(SyncSender, SyncSender);
        #[derive(Debug)]
        pub struct Receiver<T> { id: usize, inner: real::Receiver<T> }
        impl<T> Drop for Receiver<T> { fn drop(&mut self) { if self.id != 0 { if let Some(r) = rt::cur() { r.no_receiver(self.id); } } } }
        impl<T> Receiver<T> {
            pub fn recv(&self) -> Result<T, RecvError> {
                if self.id != 0 { if let Some(r) = rt::cur() { r.op(Op::Recv(self.id)); return self.inner.try_recv().map_err(|_| RecvError); } }
                self.inner.recv()
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                if self.id != 0 { if let Some(r) = rt::cur() { r.op(Op::TryRecv(self.id)); } }
                self.inner.try_recv()
            }
            pub fn recv_timeout(&self, d: ::std::time::Duration) -> Result<T, RecvTimeoutError> {
                if self.id != 0 { if let Some(r) = rt::cur() { r.op(Op::TryRecv(self.id)); return self.inner.try_recv().map_err(|e| match e { TryRecvError::Empty => RecvTimeoutError::Timeout, _ => RecvTimeoutError::Disconnected }); } }
                self.inner.recv_timeout(d)
            }
            pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
            pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
        }
        pub struct Iter<'a, T>(&'a Receiver<T>);
        impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
        pub struct TryIter<'a, T>(&'a Receiver<T>);
        impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
        pub struct IntoIter<T>(Receiver<T>);
        impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
        impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
        impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
        fn id(cap: usize) -> usize { rt::cur().map_or(0, |r| r.object(0, cap)) }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let (t, r) = real::channel();
            let id = id(usize::MAX);
            (Sender { id, inner: Some(t) }, Receiver { id, inner: r })
        }
        pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
            let id = id(n.max(1));
            let (t, r) = real::sync_channel(if id != 0 { n.max(1) } else { n });
            (SyncSender { id, inner: Some(t) }, Receiver { id, inner: r })
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use super::super::rt::{self, Op};
        use ::std::sync::atomic as real;
        macro_rules! at { ($N:ident, $t:ty) => {
            #[derive(Debug)]
            pub struct $N { id: usize, inner: real::$N }
            impl $N {
                pub fn new(v: $t) -> $N { $N { id: rt::cur().map_or(0, |r| r.object(v as u64, usize::MAX)), inner: real::$N::new(v) } }
                fn at<R>(&self, f: impl FnOnce(&real::$N) -> R, o: impl FnOnce(&R) -> u64) -> R {
                    match rt::cur() {
                        Some(r) if self.id != 0 => {
                            r.op(Op::Atomic(self.id));
                            let v = f(&self.inner);
                            r.observed(o(&v));
                            r.content(self.id, self.inner.load(Ordering::SeqCst) as u64);
                            v
                        }
                        _ => f(&self.inner),
                    }
                }
                pub fn load(&self, o: Ordering) -> $t { self.at(|a| a.load(o), |v| *v as u64) }
                pub fn store(&self, v: $t, o: Ordering) { self.at(|a| a.store(v, o), |_| 0) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { self.at(|a| a.swap(v, o), |v| *v as u64) }
                pub fn compare_exchange(&self, x: $t, y: $t, a: Ordering, b: Ordering) -> Result<$t, $t> { self.at(|s| s.compare_exchange(x, y, a, b), |v| match v { Ok(v) => *v as u64, Err(v) => (*v as u64) ^ 0x5555 }) }
                pub fn compare_exchange_weak(&self, x: $t, y: $t, a: Ordering, b: Ordering) -> Result<$t, $t> { self.compare_exchange(x, y, a, b) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.at(|a| a.fetch_or(v, o), |v| *v as u64) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.at(|a| a.fetch_and(v, o), |v| *v as u64) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.at(|a| a.fetch_xor(v, o), |v| *v as u64) }
                pub fn into_inner(self) -> $t { self.inner.into_inner() }
                pub fn get_mut(&mut self) -> &mut $t { self.inner.get_mut() }
            }
        } }
        macro_rules! num { ($N:ident, $t:ty) => { at!($N, $t); impl $N {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.at(|a| a.fetch_add(v, o), |v| *v as u64) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.at(|a| a.fetch_sub(v, o), |v| *v as u64) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.at(|a| a.fetch_max(v, o), |v| *v as u64) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.at(|a| a.fetch_min(v, o), |v| *v as u64) }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, a: Ordering, b: Ordering, f: F) -> Result<$t, $t> { self.at(|s| s.fetch_update(a, b, f), |v| match v { Ok(v) => *v as u64, Err(v) => *v as u64 }) }
        } } }
        at!(AtomicBool, bool);
        num!(AtomicUsize, usize); num!(AtomicIsize, isize); num!(AtomicU64, u64); num!(AtomicI64, i64); num!(AtomicU32, u32); num!(AtomicI32, i32); num!(AtomicU8, u8);
    }
}
