C="src/proto/h1/conn.rs"
META={"property":"C05","needs":"a request with Expect: 100-continue whose client sends the body anyway, and a service that answers without reading it","what_it_breaks":"a body the service never asked for is taken as not sent, so its bytes are parsed as the next request on the connection"}
EDITS=[(C,"            // skip sending the 100-continue\n            // just move forward to a read, in case a tiny body was included\n            self.state.reading = Reading::Body(decoder.clone());","            // the 100-continue was never sent, so the peer has not been asked for its body\n            let _ = decoder;\n            self.state.reading = Reading::KeepAlive;\n            return;")]
DEMO='''
fn main() { block(async {
    let (mut c, s) = tokio::io::duplex(1 << 16);
    let paths = Arc::new(Mutex::new(vec![])); let p2 = paths.clone();
    tokio::spawn(async move { let _ = hyper::server::conn::http1::Builder::new().serve_connection(Io(s), service_fn(move |r: Request<Incoming>| { let p2 = p2.clone(); async move {
        p2.lock().unwrap().push(r.uri().path().to_string());
        Ok::<_, Infallible>(Response::new(Empty::<Bytes>::new())) } })).await; });
    let inner = b"GET /smuggled HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n";
    // more of the body is announced than has arrived, so it cannot be drained at once
    c.write_all(format!("POST /up HTTP/1.1\\r\\nhost: a\\r\\nexpect: 100-continue\\r\\ncontent-length: {}\\r\\n\\r\\n", inner.len()).as_bytes()).await.unwrap();
    tokio::time::sleep(Duration::from_millis(50)).await;
    let _ = c.write_all(inner).await;
    let _ = read_quiet(&mut c, 200).await;
    let p = paths.lock().unwrap().clone();
    println!("requests seen: {p:?}");
    std::process::exit((p != ["/up"]) as i32);
}) }
'''
