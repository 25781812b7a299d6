C="src/proto/h2/server.rs"
META={"property":"C22","needs":"graceful_shutdown on an HTTP/2 server connection whose handshake is not over, with keep-alive pings configured","what_it_breaks":"the shutdown asked for during the handshake is forgotten and the connection goes on accepting requests"}
EDITS=[(C,"                    if me.close_pending && srv.closing.is_none() {","                    if me.close_pending && srv.closing.is_none() && srv.ping.is_none() {")]
DEMO='''
async fn run(ka: bool) -> bool {
    let (c, s) = tokio::io::duplex(1 << 16);
    let mut b = hyper::server::conn::http2::Builder::new(Ex);
    b.timer(Tm);
    if ka { b.keep_alive_interval(Duration::from_secs(10)); }
    let mut conn = Box::pin(b.serve_connection(Io(s), service_fn(|_: Request<Incoming>| async move {
        Ok::<_, Infallible>(Response::new(Empty::<Bytes>::new()))
    })));
    conn.as_mut().graceful_shutdown();
    let h = tokio::spawn(async move { let _ = conn.await; });
    let (_tx, cc) = hyper::client::conn::http2::handshake::<_, _, Empty<Bytes>>(Ex, Io(c)).await.unwrap();
    tokio::spawn(cc);
    tokio::time::timeout(Duration::from_secs(1), h).await.is_ok()
}
fn main() { block(async {
    let (a, b) = (run(false).await, run(true).await);
    println!("ended without keep-alive: {a}, with: {b}");
    std::process::exit(!(a && b) as i32);
}) }
'''
