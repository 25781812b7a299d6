S="src/proto/h1/dispatch.rs"
META={"property":"C22","needs":"graceful shutdown requested while an HTTP/1 exchange is in progress whose response body is still streaming","what_it_breaks":"disabling keep-alive is skipped once a response head has been written, so the connection stays open and accepts further requests after a graceful shutdown"}
EDITS=[(S,"""    pub(crate) fn disable_keep_alive(&mut self) {
        self.conn.disable_keep_alive();
""","""    pub(crate) fn disable_keep_alive(&mut self) {
        if self.conn.can_write_body() {
            // the head was already sent, too late to announce a close
            return;
        }
        self.conn.disable_keep_alive();
""")]
DEMO='''
fn main() { block(async {
    let (mut c, s) = tokio::io::duplex(1 << 16);
    let hits = Arc::new(AtomicUsize::new(0)); let h2 = hits.clone();
    let (go_tx, go_rx) = tokio::sync::oneshot::channel::<()>();
    let go = Arc::new(Mutex::new(Some(go_rx)));
    let (sd_tx, sd_rx) = tokio::sync::oneshot::channel::<()>();
    tokio::spawn(async move {
        let conn = hyper::server::conn::http1::Builder::new().serve_connection(Io(s), service_fn(move |_r: Request<Incoming>| { let h2 = h2.clone(); let go = go.clone(); async move {
            h2.fetch_add(1, Ordering::SeqCst);
            let rx = go.lock().unwrap().take();
            let st = futures_util::stream::unfold(rx, |rx| async move { let rx = rx?; let _ = rx.await; Some((Ok::<_, Infallible>(Frame::data(Bytes::from("done"))), None)) });
            Ok::<_, Infallible>(Response::new(StreamBody::new(st))) } }));
        tokio::pin!(conn);
        tokio::select! { _ = conn.as_mut() => return, _ = sd_rx => {} }
        conn.as_mut().graceful_shutdown();
        let _ = conn.await;
    });
    c.write_all(b"GET /1 HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n").await.unwrap();
    tokio::time::sleep(Duration::from_millis(50)).await;
    let _ = sd_tx.send(());
    tokio::time::sleep(Duration::from_millis(50)).await;
    let _ = go_tx.send(());
    tokio::time::sleep(Duration::from_millis(50)).await;
    let _ = c.write_all(b"GET /2 HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n").await;
    let (_o, eof) = read_quiet(&mut c, 300).await;
    let n = hits.load(Ordering::SeqCst);
    println!("requests served: {n}, closed: {eof}");
    std::process::exit((n != 1 || !eof) as i32);
}) }
'''
