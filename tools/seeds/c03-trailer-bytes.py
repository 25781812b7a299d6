D="src/proto/h1/decode.rs"
META={"property":"C03","needs":"a chunked body whose trailer section is one endless field line, dripped by the peer","what_it_breaks":"the byte limit on the trailer section is not applied to bytes of a field line, so a peer can make hyper buffer an unbounded trailer"}
EDITS=[(D,"""        trace!("read_trailer");
        let byte = byte!(rdr, cx);

        put_u8!(
            trailers_buf.as_mut().expect("trailers_buf is None"),
            byte,
            h1_max_header_size
        );

        match byte {
            b'\\r' => Poll::Ready(Ok(ChunkedState::TrailerLf)),
            _ => Poll::Ready(Ok(ChunkedState::Trailer)),
        }""","""        trace!("read_trailer");
        let byte = byte!(rdr, cx);
        let buf = trailers_buf.as_mut().expect("trailers_buf is None");

        match byte {
            b'\\r' => {
                // the line is complete, see that the section is not too large by now
                put_u8!(buf, byte, h1_max_header_size);
                Poll::Ready(Ok(ChunkedState::TrailerLf))
            }
            _ => {
                buf.put_u8(byte);
                Poll::Ready(Ok(ChunkedState::Trailer))
            }
        }""")]
DEMO='''
fn main() { block(async {
    let (mut c, s) = tokio::io::duplex(1 << 16);
    let seen = Arc::new(Mutex::new(None)); let s2 = seen.clone();
    tokio::spawn(async move { let _ = hyper::server::conn::http1::Builder::new().serve_connection(Io(s), service_fn(move |r: Request<Incoming>| { let s2 = s2.clone(); async move {
        let x = r.into_body().collect().await.map(|_| ()).map_err(|e| e.to_string());
        *s2.lock().unwrap() = Some(x);
        Ok::<_, Infallible>(Response::new(Empty::<Bytes>::new())) } })).await; });
    c.write_all(b"POST / HTTP/1.1\\r\\nhost: a\\r\\ntransfer-encoding: chunked\\r\\n\\r\\n1\\r\\nx\\r\\n0\\r\\nx: ").await.unwrap();
    let mut sent = 0usize;
    for _ in 0..64 {   // 4 MiB of one trailer line that never ends
        match tokio::time::timeout(Duration::from_millis(500), c.write_all(&[b'a'; 65536])).await { Ok(Ok(())) => sent += 65536, _ => break }
        tokio::task::yield_now().await;
        if seen.lock().unwrap().is_some() { break }
    }
    tokio::time::sleep(Duration::from_millis(100)).await;
    let got = seen.lock().unwrap().clone();
    println!("after {sent} trailer bytes: {got:?}");
    std::process::exit(!matches!(got, Some(Err(_))) as i32);
}) }
'''
