C="src/proto/h1/conn.rs"
META={"property":"C20","needs":"a server that sends a second, unsolicited response in the same packet as the first one, and a caller that then sends another request","what_it_breaks":"bytes left in the read buffer when the client becomes idle are kept and matched to the next request"}
EDITS=[(C,"""        if !self.io.read_buf().is_empty() {
            debug!("received an unexpected {} bytes", self.io.read_buf().len());
            return Poll::Ready(Err(crate::Error::new_unexpected_message()));
        }

        let num_read""","""        if !self.io.read_buf().is_empty() {
            debug!("received an unexpected {} bytes", self.io.read_buf().len());
            if self.state.version != Version::HTTP_11 {
                return Poll::Ready(Err(crate::Error::new_unexpected_message()));
            }
        }

        let num_read""")]
DEMO='''
fn main() { block(async {
    let (a, mut s) = tokio::io::duplex(1 << 16);
    let (mut tx, conn) = hyper::client::conn::http1::handshake(Io(a)).await.unwrap();
    tokio::spawn(async move { println!("conn {:?}", conn.await); });
    let req = || Request::builder().uri("/").header("host", "a").body(Empty::<Bytes>::new()).unwrap();
    let f = tx.send_request(req());
    let t = tokio::spawn(async move { let mut b = [0u8; 256]; let _ = s.read(&mut b).await; s.write_all(b"HTTP/1.1 200 OK\\r\\ncontent-length: 0\\r\\n\\r\\nHTTP/1.1 299 EVIL\\r\\ncontent-length: 0\\r\\n\\r\\n").await.unwrap(); s });
    assert_eq!(f.await.unwrap().status(), 200);
    let mut s = t.await.unwrap();
    tokio::spawn(async move { let mut b = [0u8; 256]; let _ = s.read(&mut b).await; let _ = s.write_all(b"HTTP/1.1 200 OK\\r\\ncontent-length: 0\\r\\n\\r\\n").await; tokio::time::sleep(Duration::from_secs(2)).await; });
    tokio::time::sleep(Duration::from_millis(50)).await;
    let second = async { if tx.ready().await.is_err() { return None; } tokio::time::timeout(Duration::from_millis(300), tx.send_request(req())).await.map_err(|e| println!("{e:?}")).ok()?.map_err(|e| println!("{e:?}")).ok().map(|r| r.status().as_u16()) }.await;
    println!("second request answered with {second:?}");
    std::process::exit(second.is_some() as i32);
}) }
'''
