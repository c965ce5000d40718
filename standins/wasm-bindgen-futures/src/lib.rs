//! Stand-in for wasm-bindgen-futures on the host: the host's promises are settled at once, so the future is run to its end.
use js_sys::Promise;
use std::{future::Future, pin::Pin, task::{Context, Poll, RawWaker, RawWakerVTable, Waker}};
use wasm_bindgen::JsValue;
fn rw() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { rw() }
    fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    RawWaker::new(std::ptr::null(), &VT)
}
pub fn future_to_promise<F: Future<Output = Result<JsValue, JsValue>> + 'static>(f: F) -> Promise {
    let mut f = Box::pin(f);
    let w = unsafe { Waker::from_raw(rw()) };
    let mut cx = Context::from_waker(&w);
    for _ in 0..64 { if let Poll::Ready(v) = Pin::as_mut(&mut f).poll(&mut cx) { return Promise::settled(v); } }
    panic!("the future waits forever")
}
