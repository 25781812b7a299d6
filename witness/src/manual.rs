//! Hand-written callers: what rustdoc's JSON cannot name (private return types, sealed bounds),
//! implementations a user writes, struct fields, and the thread-safety the types promise.
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

fn send<T: ?Sized + Send>() {}
fn sync<T: ?Sized + Sync>() {}
fn unpin<T: ?Sized + Unpin>() {}
fn send_val<T: Send>(_: &T) {}
fn static_val<T: 'static>(_: &T) {}
fn out<F: Future>(_: &F) -> Option<F::Output> { None }
type BoxErr = Box<dyn std::error::Error + Send + Sync>;

// ---- always there -------------------------------------------------------
pub fn error(e: &hyper::Error) {
    let _: bool = e.is_parse() | e.is_parse_status() | e.is_user() | e.is_canceled() | e.is_closed() | e.is_incomplete_message() | e.is_body_write_aborted() | e.is_timeout();
    let _: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    send::<hyper::Error>(); sync::<hyper::Error>(); unpin::<hyper::Error>(); static_val(&0u8);
    fn owned(e: hyper::Error) -> BoxErr { Box::new(e) }
}
pub fn reexports() {
    let _: fn() -> hyper::HeaderMap = hyper::HeaderMap::new;
    let _ = (hyper::Method::GET, hyper::StatusCode::OK, hyper::Version::HTTP_11, hyper::header::HOST);
    let _: hyper::Uri = hyper::Uri::from_static("/");
    let _: hyper::Result<()> = Ok(());
}
pub fn incoming(b: &mut hyper::body::Incoming, cx: &mut Context<'_>) {
    use hyper::body::Body;
    send::<hyper::body::Incoming>(); sync::<hyper::body::Incoming>(); unpin::<hyper::body::Incoming>();
    let _: Poll<Option<Result<hyper::body::Frame<hyper::body::Bytes>, hyper::Error>>> = Pin::new(&mut *b).poll_frame(cx);
    let _: bool = b.is_end_stream();
    let _: hyper::body::SizeHint = b.size_hint();
}
pub fn upgrades(u: hyper::upgrade::Upgraded, o: hyper::upgrade::OnUpgrade) {
    send::<hyper::upgrade::Upgraded>(); unpin::<hyper::upgrade::Upgraded>();
    send::<hyper::upgrade::OnUpgrade>(); sync::<hyper::upgrade::OnUpgrade>(); unpin::<hyper::upgrade::OnUpgrade>();
    fn rw<T: hyper::rt::Read + hyper::rt::Write>() {}
    rw::<hyper::upgrade::Upgraded>();
    let _: Option<Result<hyper::upgrade::Upgraded, hyper::Error>> = out(&o);
}
pub fn upgrade_parts<T: hyper::rt::Read + hyper::rt::Write + Unpin + 'static>(u: hyper::upgrade::Upgraded) -> Option<(T, hyper::body::Bytes)> {
    let r: Result<hyper::upgrade::Parts<T>, hyper::upgrade::Upgraded> = u.downcast::<T>();
    r.ok().map(|p| { let hyper::upgrade::Parts { io, read_buf, .. } = p; (io, read_buf) })
}
pub fn upgrade_on<B>(mut a: hyper::Request<B>, mut b: hyper::Response<B>) -> [hyper::upgrade::OnUpgrade; 4] {
    [hyper::upgrade::on(&mut a), hyper::upgrade::on(&mut b), hyper::upgrade::on(a), hyper::upgrade::on(b)]
}
pub fn service_fns<R: Send, S, E>() where E: Into<BoxErr> {
    fn mk<R, Rs, E: Into<BoxErr>, Fut: Future<Output = Result<hyper::Response<Rs>, E>>, B: hyper::body::Body, F: Fn(hyper::Request<B>) -> Fut + Clone>(f: F) where Rs: hyper::body::Body {
        let s = hyper::service::service_fn(f);
        fn is<Rq, S: hyper::service::Service<Rq> + Clone>(_: &S) {}
        fn http<B, S: hyper::service::HttpService<B>>(_: &S) {}
        is::<hyper::Request<B>, _>(&s);
        http::<B, _>(&s);
    }
}
pub fn service_refs<Rq, S: hyper::service::Service<Rq> + 'static>() {
    fn is<Rq, S: hyper::service::Service<Rq>>() {}
    is::<Rq, &'static S>(); is::<Rq, &'static mut S>(); is::<Rq, Box<S>>(); is::<Rq, Arc<S>>(); is::<Rq, std::rc::Rc<S>>();
    is::<Rq, Box<dyn hyper::service::Service<Rq, Response = S::Response, Error = S::Error, Future = S::Future>>>();
}
pub struct Svc;
impl<Rq> hyper::service::Service<Rq> for Svc {
    type Response = (); type Error = std::io::Error; type Future = std::future::Ready<Result<(), std::io::Error>>;
    fn call(&self, _: Rq) -> Self::Future { std::future::ready(Ok(())) }
}
// what a user has to provide is exactly what was required before
pub struct Io;
impl hyper::rt::Read for Io {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<Result<(), std::io::Error>> {
        let _: usize = buf.remaining();
        buf.put_slice(b"");
        unsafe { let _: &mut [std::mem::MaybeUninit<u8>] = buf.as_mut(); buf.advance(0); }
        Poll::Ready(Ok(()))
    }
}
impl hyper::rt::Write for Io {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<Result<usize, std::io::Error>> { Poll::Pending }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), std::io::Error>> { Poll::Pending }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), std::io::Error>> { Poll::Pending }
}
pub fn write_provided(w: Pin<&mut Io>, cx: &mut Context<'_>) {
    let _: bool = hyper::rt::Write::is_write_vectored(&*w);
    let _: Poll<Result<usize, std::io::Error>> = hyper::rt::Write::poll_write_vectored(w, cx, &[]);
}
pub fn io_refs<T: hyper::rt::Read + hyper::rt::Write + Unpin + ?Sized + 'static>() {
    fn rw<T: ?Sized + hyper::rt::Read + hyper::rt::Write>() {}
    rw::<&'static mut T>(); rw::<Box<T>>(); rw::<Pin<Box<T>>>(); rw::<Pin<&'static mut T>>();
    fn dynamic(_: &dyn hyper::rt::Read, _: &dyn hyper::rt::Write) {}
}
pub struct Exec;
impl<F: Future> hyper::rt::Executor<F> for Exec { fn execute(&self, _: F) {} }
pub struct Nap;
impl Future for Nap { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { Poll::Pending } }
impl hyper::rt::Sleep for Nap {}
pub struct Clock;
impl hyper::rt::Timer for Clock {
    fn sleep(&self, _: Duration) -> Pin<Box<dyn hyper::rt::Sleep>> { Box::pin(Nap) }
    fn sleep_until(&self, _: Instant) -> Pin<Box<dyn hyper::rt::Sleep>> { Box::pin(Nap) }
}
pub fn timer_provided(t: &dyn hyper::rt::Timer, s: &mut Pin<Box<dyn hyper::rt::Sleep>>) {
    let _: Instant = t.now();
    t.reset(s, Instant::now());
    let _: bool = s.is::<Nap>();
    let _: Option<Pin<&mut Nap>> = s.as_mut().downcast_mut_pin::<Nap>();
    send::<dyn hyper::rt::Sleep>(); sync::<dyn hyper::rt::Sleep>();
}

#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "server", feature = "http1")))]
pub mod ext1 {
    pub fn reason(p: &hyper::ext::ReasonPhrase) -> &[u8] { p.as_bytes() }
    fn conv<T>() where hyper::ext::ReasonPhrase: TryFrom<T> {}
    fn err<T>() where hyper::ext::ReasonPhrase: TryFrom<T>, <hyper::ext::ReasonPhrase as TryFrom<T>>::Error: std::error::Error + Send + Sync + 'static {}
    pub fn all() { conv::<&[u8]>(); conv::<Vec<u8>>(); conv::<String>(); conv::<hyper::body::Bytes>(); err::<&[u8]>(); err::<Vec<u8>>(); err::<String>(); err::<hyper::body::Bytes>(); }
}
#[cfg(all(feature = "client", feature = "http1"))]
pub fn informational<B>(r: &mut hyper::Request<B>) {
    hyper::ext::on_informational(r, |res| { let _: hyper::StatusCode = res.status(); let _: hyper::Version = res.version(); let _: &hyper::HeaderMap = res.headers(); })
}

// ---- client -------------------------------------------------------------
#[cfg(all(feature = "client", feature = "http1"))]
pub mod client1 {
    use super::*;
    use hyper::body::Body;
    use hyper::client::conn::http1::*;
    pub fn safety<T, B>() where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, B: Body + Send + 'static, B::Data: Send, B::Error: Into<BoxErr> {
        send::<SendRequest<B>>(); sync::<SendRequest<B>>(); unpin::<SendRequest<B>>();
        send::<Connection<T, B>>(); unpin::<Connection<T, B>>();
        send::<Builder>(); sync::<Builder>(); unpin::<Builder>();
        fn future<F: Future<Output = Result<(), hyper::Error>>>() {}
        future::<Connection<T, B>>();
    }
    pub fn safety_sync<T, B>() where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + Sync + 'static, B: Body + Send + Sync + 'static, B::Data: Send + Sync, B::Error: Into<BoxErr> {}
    pub fn futures<B: Body + Send + 'static>(s: &mut SendRequest<B>, r: hyper::Request<B>, q: hyper::Request<B>) {
        let a = s.send_request(r);
        let b = s.try_send_request(q);
        send_val(&a); send_val(&b); static_val(&a); static_val(&b);
        send_val(&s.ready());
        let _: Option<Result<hyper::Response<hyper::body::Incoming>, hyper::Error>> = out(&a);
        let _: Option<Result<hyper::Response<hyper::body::Incoming>, hyper::client::conn::TrySendError<hyper::Request<B>>>> = out(&b);
    }
    pub fn try_send<R>(e: hyper::client::conn::TrySendError<R>) -> (Option<R>, hyper::Error) {
        let mut e = e;
        let _: &hyper::Error = e.error();
        (e.take_message(), e.into_error())
    }
    pub fn upgrades<T, B>(c: Connection<T, B>) -> impl Future<Output = Result<(), hyper::Error>> + Send + Unpin
    where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, B: Body + Send + 'static, B::Data: Send, B::Error: Into<BoxErr> { c.with_upgrades() }
    pub fn parts<T, B>(c: Connection<T, B>) -> (T, hyper::body::Bytes) where T: hyper::rt::Read + hyper::rt::Write + Unpin, B: Body + 'static, B::Error: Into<BoxErr> {
        let Parts { io, read_buf, .. } = c.into_parts(); (io, read_buf)
    }
    pub fn handshakes<T, B>(io: T, b: &Builder, io2: T) where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, B: Body + Send + 'static, B::Data: Send, B::Error: Into<BoxErr> {
        let f = hyper::client::conn::http1::handshake::<T, B>(io); send_val(&f);
        let g = b.handshake::<T, B>(io2); send_val(&g); 
        let _: Option<Result<(SendRequest<B>, Connection<T, B>), hyper::Error>> = out(&f);
    }
}
#[cfg(all(feature = "client", feature = "http2"))]
pub mod client2 {
    use super::*;
    use hyper::body::Body;
    use hyper::client::conn::http2::*;
    pub fn safety<T, B, E>() where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, B: Body + Send + Unpin + 'static, B::Data: Send, B::Error: Into<BoxErr>,
        E: hyper::rt::bounds::Http2ClientConnExec<B, T> + Unpin + Clone + Send {
        send::<SendRequest<B>>(); sync::<SendRequest<B>>(); unpin::<SendRequest<B>>();
        fn clone<T: Clone>() {} clone::<SendRequest<B>>();
        send::<Connection<T, B, E>>(); unpin::<Connection<T, B, E>>();
        fn future<F: Future<Output = Result<(), hyper::Error>>>() {}
        future::<Connection<T, B, E>>();
        fn bld<E: Send>() { send::<Builder<E>>(); unpin::<Builder<()>>(); }
    }
    pub fn exec<B: Body + Send + Unpin + 'static, T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static>() where B::Data: Send, B::Error: Into<BoxErr> {
        fn ok<B: Body + 'static, T: hyper::rt::Read + hyper::rt::Write + Unpin, E: hyper::rt::bounds::Http2ClientConnExec<B, T>>() where B::Error: Into<BoxErr> {}
        ok::<B, T, ExecC>();
    }
    #[derive(Clone)] pub struct ExecC;
    impl<F: Future + Send + 'static> hyper::rt::Executor<F> for ExecC { fn execute(&self, _: F) {} }
    pub fn handshakes<T, B>(io: T, io2: T) where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, B: Body + Send + Unpin + 'static, B::Data: Send, B::Error: Into<BoxErr> {
        let f = hyper::client::conn::http2::handshake::<_, T, B>(ExecC, io); send_val(&f);
        let b = Builder::new(ExecC);
        let g = b.handshake::<T, B>(io2); send_val(&g);
        let _: Option<Result<(SendRequest<B>, Connection<T, B, ExecC>), hyper::Error>> = out(&g);
    }
    pub fn futures<B: Body + Send + 'static>(s: &mut SendRequest<B>, r: hyper::Request<B>, q: hyper::Request<B>) {
        let a = s.send_request(r);
        let b = s.try_send_request(q);
        send_val(&a); send_val(&b); static_val(&a); static_val(&b);
        send_val(&s.ready());
        let _: Option<Result<hyper::Response<hyper::body::Incoming>, hyper::Error>> = out(&a);
        let _: Option<Result<hyper::Response<hyper::body::Incoming>, hyper::client::conn::TrySendError<hyper::Request<B>>>> = out(&b);
    }
}

// ---- server -------------------------------------------------------------
#[cfg(all(feature = "server", feature = "http1"))]
pub mod server1 {
    use super::*;
    use hyper::body::{Body, Incoming};
    use hyper::server::conn::http1::*;
    pub fn safety<T, S, B>() where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, S: hyper::service::HttpService<Incoming, ResBody = B> + Send + 'static, S::Future: Send, S::Error: Into<BoxErr>,
        B: Body + Send + 'static, B::Data: Send, B::Error: Into<BoxErr> {
        send::<Connection<T, S>>(); send::<UpgradeableConnection<T, S>>();
        send::<Builder>(); sync::<Builder>(); unpin::<Builder>();
        fn future<F: Future<Output = Result<(), hyper::Error>>>() {}
        future::<Connection<T, S>>();
        future::<UpgradeableConnection<T, S>>();
    }
    pub fn unpins<T, S, B>() where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, S: hyper::service::HttpService<Incoming, ResBody = B> + Unpin + Send + 'static, S::Future: Unpin, S::Error: Into<BoxErr>,
        B: Body + Unpin + 'static, B::Data: Unpin, B::Error: Into<BoxErr> { unpin::<Connection<T, S>>(); unpin::<UpgradeableConnection<T, S>>(); }
    pub fn parts<T, S, B>(c: Connection<T, S>) -> (T, hyper::body::Bytes, S) where T: hyper::rt::Read + hyper::rt::Write + Unpin, S: hyper::service::HttpService<Incoming, ResBody = B>, S::Error: Into<BoxErr>, B: Body + 'static, B::Error: Into<BoxErr> {
        let Parts { io, read_buf, service, .. } = c.into_parts(); (io, read_buf, service)
    }
    pub fn pinned<T, S, B>(c: Pin<&mut Connection<T, S>>, u: Pin<&mut UpgradeableConnection<T, S>>) where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, S: hyper::service::HttpService<Incoming, ResBody = B>, S::Error: Into<BoxErr>, B: Body + 'static, B::Error: Into<BoxErr> {
        c.graceful_shutdown(); u.graceful_shutdown();
    }
}
#[cfg(all(feature = "server", feature = "http2"))]
pub mod server2 {
    use super::*;
    use hyper::body::{Body, Incoming};
    use hyper::server::conn::http2::*;
    #[derive(Clone)] pub struct ExecS;
    impl<F: Future + Send + 'static> hyper::rt::Executor<F> for ExecS { fn execute(&self, _: F) {} }
    pub fn safety<T, S, B>(io: T, s: S) where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, S: hyper::service::HttpService<Incoming, ResBody = B> + Send + 'static, S::Future: Send + 'static, S::Error: Into<BoxErr>,
        B: Body + Send + 'static, B::Data: Send, B::Error: Into<BoxErr> {
        send::<Connection<T, S, ExecS>>();
        send::<Builder<ExecS>>(); sync::<Builder<ExecS>>(); unpin::<Builder<ExecS>>();
        fn future<F: Future<Output = Result<(), hyper::Error>>>(f: F) {}
        future(Builder::new(ExecS).serve_connection(io, s));
    }
    pub fn pinned<T, S, B>(c: Pin<&mut Connection<T, S, ExecS>>) where T: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, S: hyper::service::HttpService<Incoming, ResBody = B> + Send + 'static, S::Future: Send + 'static, S::Error: Into<BoxErr>,
        B: Body + Send + 'static, B::Data: Send, B::Error: Into<BoxErr> { c.graceful_shutdown(); }
}
