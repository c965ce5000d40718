//! Stand-in for futures: the real oneshot channel, and an executor whose tasks run only when the harness says so
//! (`executor::model::turn`), and only when they were woken.
pub mod channel { pub use futures_channel::oneshot; }
pub mod executor {
    use std::{future::Future, io, pin::Pin};
    pub struct ThreadPool;
    pub struct ThreadPoolBuilder;
    impl ThreadPool {
        pub fn builder() -> ThreadPoolBuilder { ThreadPoolBuilder }
        pub fn new() -> io::Result<ThreadPool> { Ok(ThreadPool) }
        pub fn spawn_ok<F: Future<Output = ()> + Send + 'static>(&self, f: F) { model::spawn(Box::pin(f)); }
    }
    impl ThreadPoolBuilder {
        pub fn pool_size(&mut self, n: usize) -> &mut Self { assert!(n > 0); self }
        pub fn stack_size(&mut self, _: usize) -> &mut Self { self }
        pub fn name_prefix<S: Into<String>>(&mut self, _: S) -> &mut Self { self }
        pub fn create(&mut self) -> io::Result<ThreadPool> { Ok(ThreadPool) }
    }
    pub type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
    pub mod model {
        use super::Task;
        use std::sync::{atomic::{AtomicBool, Ordering}, Arc, Mutex};
        use std::task::{Context, Poll, Wake, Waker};
        struct W(AtomicBool);
        impl Wake for W { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }
        static TASKS: Mutex<Vec<Option<(Task, Arc<W>)>>> = Mutex::new(Vec::new());
        pub fn reset() { TASKS.lock().unwrap().clear(); }
        pub(super) fn spawn(t: Task) { TASKS.lock().unwrap().push(Some((t, Arc::new(W(AtomicBool::new(true)))))); }
        /// numbers of the tasks that are ready to run
        pub fn ready() -> Vec<usize> { TASKS.lock().unwrap().iter().enumerate().filter(|(_, t)| t.as_ref().map(|t| t.1 .0.load(Ordering::SeqCst)).unwrap_or(false)).map(|x| x.0).collect() }
        /// tasks that did not end
        pub fn pending() -> usize { TASKS.lock().unwrap().iter().filter(|t| t.is_some()).count() }
        /// polls task `i` once; true when it ended
        pub fn turn(i: usize) -> bool {
            let (mut t, w) = match TASKS.lock().unwrap()[i].take() { Some(x) => x, None => return true };
            w.0.store(false, Ordering::SeqCst);
            let wk = Waker::from(w.clone());
            match t.as_mut().poll(&mut Context::from_waker(&wk)) {
                Poll::Ready(()) => true,
                Poll::Pending => { TASKS.lock().unwrap()[i] = Some((t, w)); false }
            }
        }
        /// runs every ready task until none is ready
        pub fn settle() { while let Some(i) = ready().first().copied() { turn(i); } }
    }
}
