R="src/proto/h1/role.rs"
META={"property":"C43","needs":"an interim response followed in the same read by a final head which is shorter","what_it_breaks":"a complete final response which arrives together with a longer interim one is not seen until more bytes arrive, although it is seen when it arrives alone"}
EDITS=[(R,"            if buf.is_empty() {\n                return Ok(None);\n            }\n        }\n    }\n\n    fn encode","            if buf.len() < len {\n                return Ok(None);\n            }\n        }\n    }\n\n    fn encode")]
DEMO='''
fn main() { block(async {
    let mut bad = 0;
    for together in [false, true] {
        let (mut srv, c) = tokio::io::duplex(1 << 16);
        let (mut tx, conn) = hyper::client::conn::http1::handshake(Io(c)).await.unwrap();
        tokio::spawn(conn);
        let r = tokio::spawn(async move { tx.send_request(Request::get("/").header("host", "a").body(Empty::<Bytes>::new()).unwrap()).await.map(|r| r.status().as_u16()) });
        let _ = read_quiet(&mut srv, 100).await;
        let interim = "HTTP/1.1 103 Early Hints\\r\\nlink: </style-sheet-with-a-long-name.css>; rel=preload; as=style\\r\\n\\r\\n";
        let fin = "HTTP/1.1 200 OK\\r\\ncontent-length: 0\\r\\n\\r\\n";
        if together { srv.write_all(format!("{interim}{fin}").as_bytes()).await.unwrap(); }
        else { srv.write_all(interim.as_bytes()).await.unwrap(); tokio::time::sleep(Duration::from_millis(50)).await; srv.write_all(fin.as_bytes()).await.unwrap(); }
        let got = tokio::time::timeout(Duration::from_millis(500), r).await;
        println!("together={together}: {got:?}");
        if !matches!(got, Ok(Ok(Ok(200)))) { bad = 1; }
    }
    std::process::exit(bad);
}) }
'''
