C="src/proto/h1/conn.rs"
META={"property":"C14","needs":"two requests on one connection, the first with TE: trailers and the second without","what_it_breaks":"the willingness to receive trailers is remembered from an earlier request; trailers are sent to a peer that did not ask"}
EDITS=[(C,"        self.state.allow_trailer_fields = headers::te_is_trailers","        self.state.allow_trailer_fields |= headers::te_is_trailers")]
DEMO='''
fn main() { block(async {
    let (mut c, s) = tokio::io::duplex(1 << 16);
    tokio::spawn(hyper::server::conn::http1::Builder::new().serve_connection(Io(s), service_fn(|_: Request<Incoming>| async move {
        let mut t = HeaderMap::new(); t.insert("x-sum", "1".parse().unwrap());
        let body = StreamBody::new(futures_util::stream::iter(vec![Ok::<_, Infallible>(Frame::data(Bytes::from_static(b"hi"))), Ok(Frame::trailers(t))]));
        Ok::<_, Infallible>(Response::builder().header("trailer", "x-sum").body(body).unwrap())
    })));
    c.write_all(b"GET / HTTP/1.1\\r\\nhost: a\\r\\nte: trailers\\r\\n\\r\\n").await.unwrap();
    let (one, _) = read_quiet(&mut c, 200).await;
    c.write_all(b"GET / HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n").await.unwrap();
    let (two, _) = read_quiet(&mut c, 200).await;
    println!("{:?}\\n{:?}", text(&one), text(&two));
    std::process::exit(!(text(&one).contains("x-sum: 1") && text(&two).contains("0\\r\\n") && !text(&two).contains("x-sum: 1")) as i32);
}) }
'''
