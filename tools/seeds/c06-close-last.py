R="src/proto/h1/role.rs"
META={"property":"C06","needs":"a response with two Connection lines of which only the second says close","what_it_breaks":"a response announces that the connection closes, and the connection stays open and serves another request"}
EDITS=[(R,"                    if !is_last && headers::connection_close(&value) {\n                        is_last = true;\n                    }","                    if !is_name_written {\n                        is_last |= headers::connection_close(&value);\n                    }")]
DEMO='''
fn main() { block(async {
    let (mut c, s) = tokio::io::duplex(1 << 16);
    tokio::spawn(hyper::server::conn::http1::Builder::new().serve_connection(Io(s), service_fn(|_: Request<Incoming>| async move {
        Ok::<_, Infallible>(Response::builder().header("connection", "x-hop").header("connection", "close").body(Full::new(Bytes::from_static(b"hi"))).unwrap())
    })));
    c.write_all(b"GET / HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n").await.unwrap();
    let (out, eof) = read_quiet(&mut c, 500).await;
    println!("{:?} closed={eof}", text(&out));
    std::process::exit(!(eof && text(&out).contains("close")) as i32);
}) }
'''
