I="src/proto/h1/io.rs"
META={"property":"C17","needs":"a transport with vectored writes whose peer stops reading, and a body made of large chunks","what_it_breaks":"with the queueing write strategy the byte limit no longer applies while fewer than 16 buffers are queued, so a slow peer makes the server buffer many megabytes"}
EDITS=[(I,"self.queue.bufs_cnt() < MAX_BUF_LIST_BUFFERS && self.remaining() < self.max_buf_size","self.queue.bufs_cnt() < MAX_BUF_LIST_BUFFERS || self.remaining() < self.max_buf_size")]
DEMO='''
struct V(DuplexStream);
impl hyper::rt::Read for V { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: hyper::rt::ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
   struct W<'a>(&'a mut DuplexStream);
   impl tokio::io::AsyncRead for W<'_> { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut *self.0).poll_read(cx, b) } }
   let mut io = Io(W(&mut self.0)); Pin::new(&mut io).poll_read(cx, buf) } }
impl hyper::rt::Write for V {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { use tokio::io::AsyncWrite; Pin::new(&mut self.0).poll_write(cx, b) }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn is_write_vectored(&self) -> bool { true }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[std::io::IoSlice<'_>]) -> Poll<std::io::Result<usize>> { use tokio::io::AsyncWrite;
        for s in b { if !s.is_empty() { return Pin::new(&mut self.0).poll_write(cx, s) } } Poll::Ready(Ok(0)) }
}
fn main() { block(async {
    let (mut c, s) = tokio::io::duplex(1024);
    let taken = Arc::new(AtomicUsize::new(0)); let t2 = taken.clone();
    tokio::spawn(async move { let _ = hyper::server::conn::http1::Builder::new().serve_connection(V(s), service_fn(move |_r: Request<Incoming>| { let t2 = t2.clone(); async move {
        let chunks = futures_util::stream::unfold(0, move |n| { let t2 = t2.clone(); async move { if n == 64 { return None } t2.fetch_add(1, Ordering::SeqCst); Some((Ok::<_, Infallible>(Frame::data(Bytes::from(vec![b'x'; 1 << 20]))), n + 1)) } });
        Ok::<_, Infallible>(Response::new(StreamBody::new(chunks))) } })).await; });
    c.write_all(b"GET / HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n").await.unwrap();
    tokio::time::sleep(Duration::from_millis(200)).await;
    let n = taken.load(Ordering::SeqCst);
    println!("chunks of 1 MiB taken from the body with a peer that reads nothing: {n}");
    std::process::exit((n > 2) as i32);
}) }
'''
