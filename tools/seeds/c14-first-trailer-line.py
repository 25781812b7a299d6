R="src/proto/h1/role.rs"
META={"property":"C14","needs":"a chunked request that announces its trailers in two separate Trailer lines","what_it_breaks":"only the first Trailer line is taken as the announcement, so trailers named on the second are silently not sent"}
EDITS=[(R,"                    .get_all(header::TRAILER)\n                    .iter()\n","                    .get(header::TRAILER)\n                    .into_iter()\n")]
DEMO='''
fn main() { block(async {
    let (mut srv, c) = tokio::io::duplex(1 << 16);
    let (mut tx, conn) = hyper::client::conn::http1::handshake(Io(c)).await.unwrap();
    tokio::spawn(async move { let _ = conn.await; });
    let mut t = HeaderMap::new();
    t.insert("x-one", "1".parse().unwrap()); t.insert("x-two", "2".parse().unwrap());
    let body = StreamBody::new(futures_util::stream::iter(vec![Ok::<_, Infallible>(Frame::data(Bytes::from_static(b"hi"))), Ok(Frame::trailers(t))]));
    let req = Request::post("/").header("host", "a").header("trailer", "x-one").header("trailer", "x-two").body(body).unwrap();
    tokio::spawn(async move { let _ = tx.send_request(req).await; });
    let (out, _) = read_quiet(&mut srv, 500).await;
    let o = text(&out).to_lowercase();
    println!("{o}");
    std::process::exit(!(o.contains("\\r\\nx-one: 1\\r\\n") && o.contains("\\r\\nx-two: 2\\r\\n")) as i32);
}) }
'''
