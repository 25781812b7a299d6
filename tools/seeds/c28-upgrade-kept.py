C="src/proto/h2/mod.rs"
META={"property":"C28","needs":"an HTTP/2 message that carries both an Upgrade and a Connection header","what_it_breaks":"a connection-specific header goes out on HTTP/2, and the peer resets the stream as malformed"}
EDITS=[(C,"        if headers.remove(header).is_some() {","        if *header == http::header::UPGRADE && headers.contains_key(CONNECTION) {\n            // named by Connection, taken out below\n            continue;\n        }\n        if headers.remove(header).is_some() {")]
DEMO='''
fn main() { block(async {
    let (c, s) = tokio::io::duplex(1 << 16);
    tokio::spawn(hyper::server::conn::http2::Builder::new(Ex).serve_connection(Io(s), service_fn(|_: Request<Incoming>| async move {
        Ok::<_, Infallible>(Response::builder().header("upgrade", "foo").header("connection", "x-hop").header("x-hop", "1").body(Empty::<Bytes>::new()).unwrap())
    })));
    let (mut tx, cc) = hyper::client::conn::http2::handshake(Ex, Io(c)).await.unwrap();
    tokio::spawn(cc);
    let r = tx.send_request(Request::get("http://a/").body(Empty::<Bytes>::new()).unwrap()).await;
    println!("{r:?}");
    let ok = matches!(&r, Ok(r) if !r.headers().contains_key("upgrade") && !r.headers().contains_key("x-hop"));
    std::process::exit(!ok as i32);
}) }
'''
