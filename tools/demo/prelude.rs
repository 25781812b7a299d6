// ---- shared support (adapter between tokio and hyper I/O, timer, executor) ----
#![allow(dead_code, unused_imports, unused_macros)]
use std::{convert::Infallible, future::Future, pin::Pin, task::{Context, Poll}, time::{Duration, Instant}, sync::{Arc, Mutex, atomic::{AtomicUsize, AtomicBool, Ordering}}};
use bytes::{Buf, Bytes};
use http_body_util::{BodyExt, Empty, Full, StreamBody, combinators::BoxBody};
use hyper::{body::{Body, Frame, Incoming}, service::service_fn, Request, Response, StatusCode, Method, Version, HeaderMap};
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};

pub struct Io<T>(pub T);
impl<T: tokio::io::AsyncRead + Unpin> hyper::rt::Read for Io<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
        let mut tmp = vec![0u8; buf.remaining().min(64 * 1024)];
        let mut rb = tokio::io::ReadBuf::new(&mut tmp);
        match Pin::new(&mut self.0).poll_read(cx, &mut rb) {
            Poll::Ready(Ok(())) => { buf.put_slice(rb.filled()); Poll::Ready(Ok(())) }
            o => o,
        }
    }
}
impl<T: tokio::io::AsyncWrite + Unpin> hyper::rt::Write for Io<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { Pin::new(&mut self.0).poll_write(cx, b) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.0).poll_shutdown(cx) }
}
#[derive(Clone)]
pub struct Ex;
impl<F> hyper::rt::Executor<F> for Ex where F: Future + Send + 'static, F::Output: Send + 'static {
    fn execute(&self, f: F) { tokio::spawn(f); }
}
#[derive(Clone)]
pub struct Tm;
struct Sl(Pin<Box<tokio::time::Sleep>>);
impl Future for Sl { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { self.0.as_mut().poll(cx) } }
impl hyper::rt::Sleep for Sl {}
impl hyper::rt::Timer for Tm {
    fn sleep(&self, d: Duration) -> Pin<Box<dyn hyper::rt::Sleep>> { Box::pin(Sl(Box::pin(tokio::time::sleep(d)))) }
    fn sleep_until(&self, d: Instant) -> Pin<Box<dyn hyper::rt::Sleep>> { Box::pin(Sl(Box::pin(tokio::time::sleep_until(d.into())))) }
    fn now(&self) -> Instant { tokio::time::Instant::now().into_std() }
}
pub fn block<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async { tokio::time::timeout(Duration::from_secs(30), f).await.expect("demo timed out") })
}
/// read until EOF, or until `ms` of silence
pub async fn read_quiet<T: tokio::io::AsyncRead + Unpin>(s: &mut T, ms: u64) -> (Vec<u8>, bool) {
    let mut out = vec![]; let mut b = [0u8; 4096];
    loop {
        match tokio::time::timeout(Duration::from_millis(ms), s.read(&mut b)).await {
            Err(_) => return (out, false),
            Ok(Ok(0)) | Ok(Err(_)) => return (out, true),
            Ok(Ok(n)) => out.extend_from_slice(&b[..n]),
        }
    }
}
pub fn text(v: &[u8]) -> String { String::from_utf8_lossy(v).into_owned() }
pub fn count(h: &str, n: &str) -> usize { h.matches(n).count() }
// ---- the demonstration ----
