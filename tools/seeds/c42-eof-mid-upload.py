C="src/proto/h1/conn.rs"
META={"property":"C42","needs":"a server that goes away after the response while the client's request body is still being sent","what_it_breaks":"the end of input in the middle of a message is swallowed, so the client's connection no longer reports an incomplete message"}
EDITS=[(C,"            self.state.close_read();\n            Poll::Ready(Err(crate::Error::new_incomplete()))","            self.state.close_read();\n            if self.can_write_body() {\n                // what is left of our message shows whether the peer still listens\n                return Poll::Ready(Ok(()));\n            }\n            Poll::Ready(Err(crate::Error::new_incomplete()))")]
DEMO='''
fn main() { block(async {
    let (mut srv, c) = tokio::io::duplex(1 << 16);
    let (mut tx, conn) = hyper::client::conn::http1::handshake(Io(c)).await.unwrap();
    let h = tokio::spawn(async move { conn.await.map_err(|e| e.is_incomplete_message()) });
    let body = StreamBody::new(futures_util::stream::pending::<Result<Frame<Bytes>, Infallible>>());
    let req = Request::post("/").header("host", "a").body(body).unwrap();
    let r = tokio::spawn(async move { tx.send_request(req).await.map(|r| r.status()) });
    let _ = read_quiet(&mut srv, 100).await;
    srv.write_all(b"HTTP/1.1 200 OK\\r\\ncontent-length: 0\\r\\n\\r\\n").await.unwrap();
    let st = r.await.unwrap().unwrap();
    tokio::time::sleep(Duration::from_millis(50)).await;
    srv.shutdown().await.unwrap();
    let got = tokio::time::timeout(Duration::from_secs(2), h).await;
    println!("{st} {got:?}");
    std::process::exit(!matches!(got, Ok(Ok(Err(true)))) as i32);
}) }
'''
