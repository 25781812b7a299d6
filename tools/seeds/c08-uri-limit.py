R="src/proto/h1/role.rs"
META={"property":"C08","needs":"a server with a configured number of headers, and a request target over 64 KiB","what_it_breaks":"the limit on the request target is skipped when max_headers is configured; the answer is 400 instead of 414"}
EDITS=[(R,"                    if uri.len() > MAX_URI_LEN {","                    if uri.len() > MAX_URI_LEN && ctx.h1_max_headers.is_none() {")]
DEMO='''
fn main() { block(async {
    let (mut c, s) = tokio::io::duplex(1 << 18);
    tokio::spawn(hyper::server::conn::http1::Builder::new().max_headers(50).serve_connection(Io(s), service_fn(|_: Request<Incoming>| async move {
        Ok::<_, Infallible>(Response::new(Empty::<Bytes>::new()))
    })));
    let req = format!("GET /{} HTTP/1.1\\r\\nhost: a\\r\\n\\r\\n", "a".repeat(65_600));
    c.write_all(req.as_bytes()).await.unwrap();
    let (out, _) = read_quiet(&mut c, 300).await;
    println!("{:?}", text(&out));
    std::process::exit(!text(&out).starts_with("HTTP/1.1 414") as i32);
}) }
'''
