// Written by tools/gen_witness.py: one caller per public function, method and impl.
#![allow(unused, clippy::all)]

// API: auto Send for hyper::Error
pub mod w1 { pub fn w() { fn n<X: ?Sized + Send>() {} n::<hyper::Error>() } }
// API: auto Send for hyper::body::Incoming
pub mod w2 { pub fn w() { fn n<X: ?Sized + Send>() {} n::<hyper::body::Incoming>() } }
// API: auto Send for hyper::client::conn::TrySendError
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "client", feature = "http2")))] pub mod w3 { pub fn w<T>() where Option<T>: Send { fn n<X: ?Sized + Send>() {} n::<hyper::client::conn::TrySendError<T>>() } }
// API: auto Send for hyper::client::conn::http1::Builder
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w4 { pub fn w() { fn n<X: ?Sized + Send>() {} n::<hyper::client::conn::http1::Builder>() } }
// API: auto Send for hyper::client::conn::http1::Parts
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w5 { pub fn w<T>() where T: Send { fn n<X: ?Sized + Send>() {} n::<hyper::client::conn::http1::Parts<T>>() } }
// API: auto Send for hyper::client::conn::http2::Builder
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w6 { pub fn w<Ex>() where Ex: Send { fn n<X: ?Sized + Send>() {} n::<hyper::client::conn::http2::Builder<Ex>>() } }
// API: auto Send for hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w7 { pub fn w() { fn n<X: ?Sized + Send>() {} n::<hyper::ext::Protocol>() } }
// API: auto Send for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w8 { pub fn w() { fn n<X: ?Sized + Send>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: auto Send for hyper::rt::ReadBuf
pub mod w9 { pub fn w<'a>() { fn n<'a, X: ?Sized + Send>() {} n::<hyper::rt::ReadBuf<'a>>() } }
// API: auto Send for hyper::rt::ReadBufCursor
pub mod w10 { pub fn w<'a>() { fn n<'a, X: ?Sized + Send>() {} n::<hyper::rt::ReadBufCursor<'a>>() } }
// API: auto Send for hyper::server::conn::http1::Builder
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w11 { pub fn w() { fn n<X: ?Sized + Send>() {} n::<hyper::server::conn::http1::Builder>() } }
// API: auto Send for hyper::server::conn::http1::Parts
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w12 { pub fn w<T, S>() where T: Send, S: Send { fn n<X: ?Sized + Send>() {} n::<hyper::server::conn::http1::Parts<T, S>>() } }
// API: auto Send for hyper::server::conn::http2::Builder
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w13 { pub fn w<E>() where E: Send { fn n<X: ?Sized + Send>() {} n::<hyper::server::conn::http2::Builder<E>>() } }
// API: auto Send for hyper::upgrade::OnUpgrade
pub mod w14 { pub fn w() { fn n<X: ?Sized + Send>() {} n::<hyper::upgrade::OnUpgrade>() } }
// API: auto Send for hyper::upgrade::Parts
pub mod w15 { pub fn w<T>() where T: Send { fn n<X: ?Sized + Send>() {} n::<hyper::upgrade::Parts<T>>() } }
// API: auto Send for hyper::upgrade::Upgraded
pub mod w16 { pub fn w() { fn n<X: ?Sized + Send>() {} n::<hyper::upgrade::Upgraded>() } }
// API: auto Sync for hyper::Error
pub mod w17 { pub fn w() { fn n<X: ?Sized + Sync>() {} n::<hyper::Error>() } }
// API: auto Sync for hyper::body::Incoming
pub mod w18 { pub fn w() { fn n<X: ?Sized + Sync>() {} n::<hyper::body::Incoming>() } }
// API: auto Sync for hyper::client::conn::TrySendError
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "client", feature = "http2")))] pub mod w19 { pub fn w<T>() where Option<T>: Sync { fn n<X: ?Sized + Sync>() {} n::<hyper::client::conn::TrySendError<T>>() } }
// API: auto Sync for hyper::client::conn::http1::Builder
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w20 { pub fn w() { fn n<X: ?Sized + Sync>() {} n::<hyper::client::conn::http1::Builder>() } }
// API: auto Sync for hyper::client::conn::http1::Parts
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w21 { pub fn w<T>() where T: Sync { fn n<X: ?Sized + Sync>() {} n::<hyper::client::conn::http1::Parts<T>>() } }
// API: auto Sync for hyper::client::conn::http2::Builder
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w22 { pub fn w<Ex>() where Ex: Sync { fn n<X: ?Sized + Sync>() {} n::<hyper::client::conn::http2::Builder<Ex>>() } }
// API: auto Sync for hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w23 { pub fn w() { fn n<X: ?Sized + Sync>() {} n::<hyper::ext::Protocol>() } }
// API: auto Sync for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w24 { pub fn w() { fn n<X: ?Sized + Sync>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: auto Sync for hyper::rt::ReadBuf
pub mod w25 { pub fn w<'a>() { fn n<'a, X: ?Sized + Sync>() {} n::<hyper::rt::ReadBuf<'a>>() } }
// API: auto Sync for hyper::rt::ReadBufCursor
pub mod w26 { pub fn w<'a>() { fn n<'a, X: ?Sized + Sync>() {} n::<hyper::rt::ReadBufCursor<'a>>() } }
// API: auto Sync for hyper::server::conn::http1::Builder
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w27 { pub fn w() { fn n<X: ?Sized + Sync>() {} n::<hyper::server::conn::http1::Builder>() } }
// API: auto Sync for hyper::server::conn::http1::Parts
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w28 { pub fn w<T, S>() where T: Sync, S: Sync { fn n<X: ?Sized + Sync>() {} n::<hyper::server::conn::http1::Parts<T, S>>() } }
// API: auto Sync for hyper::server::conn::http2::Builder
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w29 { pub fn w<E>() where E: Sync { fn n<X: ?Sized + Sync>() {} n::<hyper::server::conn::http2::Builder<E>>() } }
// API: auto Sync for hyper::upgrade::OnUpgrade
pub mod w30 { pub fn w() { fn n<X: ?Sized + Sync>() {} n::<hyper::upgrade::OnUpgrade>() } }
// API: auto Sync for hyper::upgrade::Parts
pub mod w31 { pub fn w<T>() where T: Sync { fn n<X: ?Sized + Sync>() {} n::<hyper::upgrade::Parts<T>>() } }
// API: auto Unpin for hyper::Error
pub mod w32 { pub fn w() { fn n<X: ?Sized + Unpin>() {} n::<hyper::Error>() } }
// API: auto Unpin for hyper::body::Incoming
pub mod w33 { pub fn w() { fn n<X: ?Sized + Unpin>() {} n::<hyper::body::Incoming>() } }
// API: auto Unpin for hyper::client::conn::TrySendError
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "client", feature = "http2")))] pub mod w34 { pub fn w<T>() where Option<T>: Unpin { fn n<X: ?Sized + Unpin>() {} n::<hyper::client::conn::TrySendError<T>>() } }
// API: auto Unpin for hyper::client::conn::http1::Builder
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w35 { pub fn w() { fn n<X: ?Sized + Unpin>() {} n::<hyper::client::conn::http1::Builder>() } }
// API: auto Unpin for hyper::client::conn::http1::Parts
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w36 { pub fn w<T>() where T: Unpin { fn n<X: ?Sized + Unpin>() {} n::<hyper::client::conn::http1::Parts<T>>() } }
// API: auto Unpin for hyper::client::conn::http2::Builder
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w37 { pub fn w<Ex>() where Ex: Unpin { fn n<X: ?Sized + Unpin>() {} n::<hyper::client::conn::http2::Builder<Ex>>() } }
// API: auto Unpin for hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w38 { pub fn w() { fn n<X: ?Sized + Unpin>() {} n::<hyper::ext::Protocol>() } }
// API: auto Unpin for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w39 { pub fn w() { fn n<X: ?Sized + Unpin>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: auto Unpin for hyper::rt::ReadBuf
pub mod w40 { pub fn w<'a>() { fn n<'a, X: ?Sized + Unpin>() {} n::<hyper::rt::ReadBuf<'a>>() } }
// API: auto Unpin for hyper::rt::ReadBufCursor
pub mod w41 { pub fn w<'a>() { fn n<'a, X: ?Sized + Unpin>() {} n::<hyper::rt::ReadBufCursor<'a>>() } }
// API: auto Unpin for hyper::server::conn::http1::Builder
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w42 { pub fn w() { fn n<X: ?Sized + Unpin>() {} n::<hyper::server::conn::http1::Builder>() } }
// API: auto Unpin for hyper::server::conn::http1::Parts
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w43 { pub fn w<T, S>() where T: Unpin, S: Unpin { fn n<X: ?Sized + Unpin>() {} n::<hyper::server::conn::http1::Parts<T, S>>() } }
// API: auto Unpin for hyper::server::conn::http2::Builder
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w44 { pub fn w<E>() where E: Unpin { fn n<X: ?Sized + Unpin>() {} n::<hyper::server::conn::http2::Builder<E>>() } }
// API: auto Unpin for hyper::upgrade::OnUpgrade
pub mod w45 { pub fn w() { fn n<X: ?Sized + Unpin>() {} n::<hyper::upgrade::OnUpgrade>() } }
// API: auto Unpin for hyper::upgrade::Parts
pub mod w46 { pub fn w<T>() where T: Unpin { fn n<X: ?Sized + Unpin>() {} n::<hyper::upgrade::Parts<T>>() } }
// API: auto Unpin for hyper::upgrade::Upgraded
pub mod w47 { pub fn w() { fn n<X: ?Sized + Unpin>() {} n::<hyper::upgrade::Upgraded>() } }
// API: const hyper::ffi::HYPER_HTTP_VERSION_1_0
#[cfg(any(all(feature = "ffi")))] pub mod w48 { pub use hyper::ffi::HYPER_HTTP_VERSION_1_0 as _x; }
// API: const hyper::ffi::HYPER_HTTP_VERSION_1_1
#[cfg(any(all(feature = "ffi")))] pub mod w49 { pub use hyper::ffi::HYPER_HTTP_VERSION_1_1 as _x; }
// API: const hyper::ffi::HYPER_HTTP_VERSION_2
#[cfg(any(all(feature = "ffi")))] pub mod w50 { pub use hyper::ffi::HYPER_HTTP_VERSION_2 as _x; }
// API: const hyper::ffi::HYPER_HTTP_VERSION_NONE
#[cfg(any(all(feature = "ffi")))] pub mod w51 { pub use hyper::ffi::HYPER_HTTP_VERSION_NONE as _x; }
// API: const hyper::ffi::HYPER_IO_ERROR
#[cfg(any(all(feature = "ffi")))] pub mod w52 { pub use hyper::ffi::HYPER_IO_ERROR as _x; }
// API: const hyper::ffi::HYPER_IO_PENDING
#[cfg(any(all(feature = "ffi")))] pub mod w53 { pub use hyper::ffi::HYPER_IO_PENDING as _x; }
// API: const hyper::ffi::HYPER_ITER_BREAK
#[cfg(any(all(feature = "ffi")))] pub mod w54 { pub use hyper::ffi::HYPER_ITER_BREAK as _x; }
// API: const hyper::ffi::HYPER_ITER_CONTINUE
#[cfg(any(all(feature = "ffi")))] pub mod w55 { pub use hyper::ffi::HYPER_ITER_CONTINUE as _x; }
// API: const hyper::ffi::HYPER_POLL_ERROR
#[cfg(any(all(feature = "ffi")))] pub mod w56 { pub use hyper::ffi::HYPER_POLL_ERROR as _x; }
// API: const hyper::ffi::HYPER_POLL_PENDING
#[cfg(any(all(feature = "ffi")))] pub mod w57 { pub use hyper::ffi::HYPER_POLL_PENDING as _x; }
// API: const hyper::ffi::HYPER_POLL_READY
#[cfg(any(all(feature = "ffi")))] pub mod w58 { pub use hyper::ffi::HYPER_POLL_READY as _x; }
// API: enum hyper::ffi::hyper_code
#[cfg(any(all(feature = "ffi")))] pub mod w59 { pub use hyper::ffi::hyper_code as _x; }
// API: enum hyper::ffi::hyper_task_return_type
#[cfg(any(all(feature = "ffi")))] pub mod w60 { pub use hyper::ffi::hyper_task_return_type as _x; }
// API: enum values hyper_code
#[cfg(any(all(feature = "ffi")))] pub mod w61 { const _: () = assert!(hyper::ffi::hyper_code::HYPERE_OK as i64 == 0); const _: () = assert!(hyper::ffi::hyper_code::HYPERE_ERROR as i64 == 1); const _: () = assert!(hyper::ffi::hyper_code::HYPERE_INVALID_ARG as i64 == 2); const _: () = assert!(hyper::ffi::hyper_code::HYPERE_UNEXPECTED_EOF as i64 == 3); const _: () = assert!(hyper::ffi::hyper_code::HYPERE_ABORTED_BY_CALLBACK as i64 == 4); const _: () = assert!(hyper::ffi::hyper_code::HYPERE_FEATURE_NOT_ENABLED as i64 == 5); const _: () = assert!(hyper::ffi::hyper_code::HYPERE_INVALID_PEER_MESSAGE as i64 == 6); }
// API: enum values hyper_task_return_type
#[cfg(any(all(feature = "ffi")))] pub mod w62 { const _: () = assert!(hyper::ffi::hyper_task_return_type::HYPER_TASK_EMPTY as i64 == 0); const _: () = assert!(hyper::ffi::hyper_task_return_type::HYPER_TASK_ERROR as i64 == 1); const _: () = assert!(hyper::ffi::hyper_task_return_type::HYPER_TASK_CLIENTCONN as i64 == 2); const _: () = assert!(hyper::ffi::hyper_task_return_type::HYPER_TASK_RESPONSE as i64 == 3); const _: () = assert!(hyper::ffi::hyper_task_return_type::HYPER_TASK_BUF as i64 == 4); }
// API: fn hyper::Error::is_body_write_aborted
pub mod w63 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_body_write_aborted(a0) } }
// API: fn hyper::Error::is_canceled
pub mod w64 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_canceled(a0) } }
// API: fn hyper::Error::is_closed
pub mod w65 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_closed(a0) } }
// API: fn hyper::Error::is_incomplete_message
pub mod w66 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_incomplete_message(a0) } }
// API: fn hyper::Error::is_parse
pub mod w67 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_parse(a0) } }
// API: fn hyper::Error::is_parse_status
pub mod w68 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_parse_status(a0) } }
// API: fn hyper::Error::is_parse_too_large
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w69 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_parse_too_large(a0) } }
// API: fn hyper::Error::is_parse_version_h2
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "server", feature = "http1")))] pub mod w70 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_parse_version_h2(a0) } }
// API: fn hyper::Error::is_shutdown
pub mod w71 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_shutdown(a0) } }
// API: fn hyper::Error::is_timeout
pub mod w72 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_timeout(a0) } }
// API: fn hyper::Error::is_user
pub mod w73 { pub fn w(a0: &hyper::Error) -> bool { <hyper::Error>::is_user(a0) } }
// API: fn hyper::client::conn::TrySendError::error
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "client", feature = "http2")))] pub mod w74 { pub fn w<T>(a0: &hyper::client::conn::TrySendError<T>) -> &hyper::Error { <hyper::client::conn::TrySendError<T>>::error(a0) } }
// API: fn hyper::client::conn::TrySendError::into_error
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "client", feature = "http2")))] pub mod w75 { pub fn w<T>(a0: hyper::client::conn::TrySendError<T>) -> hyper::Error { <hyper::client::conn::TrySendError<T>>::into_error(a0) } }
// API: fn hyper::client::conn::TrySendError::message
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "client", feature = "http2")))] pub mod w76 { pub fn w<T>(a0: &hyper::client::conn::TrySendError<T>) -> Option<&T> { <hyper::client::conn::TrySendError<T>>::message(a0) } }
// API: fn hyper::client::conn::TrySendError::take_message
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "client", feature = "http2")))] pub mod w77 { pub fn w<T>(a0: &mut hyper::client::conn::TrySendError<T>) -> Option<T> { <hyper::client::conn::TrySendError<T>>::take_message(a0) } }
// API: fn hyper::client::conn::http1::Builder::allow_obsolete_multiline_headers_in_responses
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w78 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: bool) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::allow_obsolete_multiline_headers_in_responses(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::allow_spaces_after_header_name_in_responses
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w79 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: bool) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::allow_spaces_after_header_name_in_responses(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::handshake
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w80 { pub fn w<T, B>(a0: &hyper::client::conn::http1::Builder, a1: T) -> impl std::future::Future<Output = std::result::Result<(hyper::client::conn::http1::SendRequest<B>, hyper::client::conn::http1::Connection<T, B>,), hyper::Error>> where T: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Data: Send, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { <hyper::client::conn::http1::Builder>::handshake(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::http09_responses
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w81 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: bool) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::http09_responses(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::ignore_invalid_headers_in_responses
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w82 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: bool) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::ignore_invalid_headers_in_responses(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::max_buf_size
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w83 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: usize) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::max_buf_size(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::max_headers
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w84 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: usize) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::max_headers(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::new
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w85 { pub fn w() -> hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::new() } }
// API: fn hyper::client::conn::http1::Builder::preserve_header_case
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w86 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: bool) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::preserve_header_case(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::read_buf_exact_size
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w87 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: Option<usize>) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::read_buf_exact_size(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::title_case_headers
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w88 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: bool) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::title_case_headers(a0, a1) } }
// API: fn hyper::client::conn::http1::Builder::writev
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w89 { pub fn w(a0: &mut hyper::client::conn::http1::Builder, a1: bool) -> &mut hyper::client::conn::http1::Builder { <hyper::client::conn::http1::Builder>::writev(a0, a1) } }
// API: fn hyper::client::conn::http1::Connection::into_parts
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w90 { pub fn w<T, B>(a0: hyper::client::conn::http1::Connection<T, B>) -> hyper::client::conn::http1::Parts<T> where T: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { <hyper::client::conn::http1::Connection<T, B>>::into_parts(a0) } }
// API: fn hyper::client::conn::http1::Connection::poll_without_shutdown
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w91 { pub fn w<T, B>(a0: &mut hyper::client::conn::http1::Connection<T, B>, a1: &mut std::task::Context<'_>) -> std::task::Poll<std::result::Result<(), hyper::Error>> where T: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { <hyper::client::conn::http1::Connection<T, B>>::poll_without_shutdown(a0, a1) } }
// API: fn hyper::client::conn::http1::Connection::without_shutdown
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w92 { pub fn w<T, B>(a0: hyper::client::conn::http1::Connection<T, B>) -> impl std::future::Future<Output = std::result::Result<hyper::client::conn::http1::Parts<T>, hyper::Error>> where T: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { <hyper::client::conn::http1::Connection<T, B>>::without_shutdown(a0) } }
// API: fn hyper::client::conn::http1::SendRequest::is_closed
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w93 { pub fn w<B>(a0: &hyper::client::conn::http1::SendRequest<B>) -> bool { <hyper::client::conn::http1::SendRequest<B>>::is_closed(a0) } }
// API: fn hyper::client::conn::http1::SendRequest::is_ready
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w94 { pub fn w<B>(a0: &hyper::client::conn::http1::SendRequest<B>) -> bool { <hyper::client::conn::http1::SendRequest<B>>::is_ready(a0) } }
// API: fn hyper::client::conn::http1::SendRequest::poll_ready
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w95 { pub fn w<B>(a0: &mut hyper::client::conn::http1::SendRequest<B>, a1: &mut std::task::Context<'_>) -> std::task::Poll<std::result::Result<(), hyper::Error>> { <hyper::client::conn::http1::SendRequest<B>>::poll_ready(a0, a1) } }
// API: fn hyper::client::conn::http1::SendRequest::ready
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w96 { pub fn w<B>(a0: &mut hyper::client::conn::http1::SendRequest<B>) -> impl std::future::Future<Output = std::result::Result<(), hyper::Error>> + '_ { <hyper::client::conn::http1::SendRequest<B>>::ready(a0) } }
// API: fn hyper::client::conn::http1::SendRequest::send_request
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w97 { pub fn w<B>(a0: &mut hyper::client::conn::http1::SendRequest<B>, a1: hyper::Request<B>) -> impl std::future::Future<Output = std::result::Result<hyper::Response<hyper::body::Incoming>, hyper::Error>> where B: hyper::body::Body + 'static { <hyper::client::conn::http1::SendRequest<B>>::send_request(a0, a1) } }
// API: fn hyper::client::conn::http1::SendRequest::try_send_request
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w98 { pub fn w<B>(a0: &mut hyper::client::conn::http1::SendRequest<B>, a1: hyper::Request<B>) -> impl std::future::Future<Output = std::result::Result<hyper::Response<hyper::body::Incoming>, hyper::client::conn::TrySendError<hyper::Request<B>>>> where B: hyper::body::Body + 'static { <hyper::client::conn::http1::SendRequest<B>>::try_send_request(a0, a1) } }
// API: fn hyper::client::conn::http1::handshake
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w99 { pub fn w<T, B>(a0: T) -> impl std::future::Future<Output = std::result::Result<(hyper::client::conn::http1::SendRequest<B>, hyper::client::conn::http1::Connection<T, B>,), hyper::Error>> where T: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Data: Send, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { hyper::client::conn::http1::handshake(a0) } }
// API: fn hyper::client::conn::http2::Builder::adaptive_window
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w100 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: bool) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::adaptive_window(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::handshake
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w101 { pub fn w<Ex, T, B>(a0: &hyper::client::conn::http2::Builder<Ex>, a1: T) -> impl std::future::Future<Output = std::result::Result<(hyper::client::conn::http2::SendRequest<B>, hyper::client::conn::http2::Connection<T, B, Ex>,), hyper::Error>> where Ex: Clone, T: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Data: Send, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, Ex: hyper::rt::bounds::Http2ClientConnExec<B, T> + Unpin { <hyper::client::conn::http2::Builder<Ex>>::handshake(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::header_table_size
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w102 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: impl Into<Option<u32>>) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::header_table_size(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::initial_connection_window_size
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w103 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: impl Into<Option<u32>>) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::initial_connection_window_size(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::initial_max_send_streams
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w104 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: impl Into<Option<usize>>) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::initial_max_send_streams(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::initial_stream_window_size
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w105 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: impl Into<Option<u32>>) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::initial_stream_window_size(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::keep_alive_interval
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w106 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: impl Into<Option<std::time::Duration>>) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::keep_alive_interval(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::keep_alive_timeout
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w107 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: std::time::Duration) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::keep_alive_timeout(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::keep_alive_while_idle
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w108 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: bool) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::keep_alive_while_idle(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::max_concurrent_reset_streams
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w109 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: usize) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::max_concurrent_reset_streams(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::max_concurrent_streams
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w110 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: impl Into<Option<u32>>) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::max_concurrent_streams(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::max_frame_size
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w111 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: impl Into<Option<u32>>) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::max_frame_size(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::max_header_list_size
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w112 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: u32) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::max_header_list_size(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::max_local_error_reset_streams
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w113 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: impl Into<Option<usize>>) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::max_local_error_reset_streams(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::max_pending_accept_reset_streams
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w114 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: impl Into<Option<usize>>) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::max_pending_accept_reset_streams(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::max_send_buf_size
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w115 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: usize) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::max_send_buf_size(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::new
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w116 { pub fn w<Ex>(a0: Ex) -> hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::new(a0) } }
// API: fn hyper::client::conn::http2::Builder::reset_stream_duration
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w117 { pub fn w<Ex>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: std::time::Duration) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone { <hyper::client::conn::http2::Builder<Ex>>::reset_stream_duration(a0, a1) } }
// API: fn hyper::client::conn::http2::Builder::timer
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w118 { pub fn w<Ex, M>(a0: &mut hyper::client::conn::http2::Builder<Ex>, a1: M) -> &mut hyper::client::conn::http2::Builder<Ex> where Ex: Clone, M: hyper::rt::Timer + Send + Sync + 'static { <hyper::client::conn::http2::Builder<Ex>>::timer(a0, a1) } }
// API: fn hyper::client::conn::http2::Connection::current_max_recv_streams
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w119 { pub fn w<T, B, E>(a0: &hyper::client::conn::http2::Connection<T, B, E>) -> usize where T: hyper::rt::Read + hyper::rt::Write + Unpin + 'static, B: hyper::body::Body + Unpin + 'static, <B as hyper::body::Body>::Data: Send, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, E: hyper::rt::bounds::Http2ClientConnExec<B, T> + Unpin { <hyper::client::conn::http2::Connection<T, B, E>>::current_max_recv_streams(a0) } }
// API: fn hyper::client::conn::http2::Connection::current_max_send_streams
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w120 { pub fn w<T, B, E>(a0: &hyper::client::conn::http2::Connection<T, B, E>) -> usize where T: hyper::rt::Read + hyper::rt::Write + Unpin + 'static, B: hyper::body::Body + Unpin + 'static, <B as hyper::body::Body>::Data: Send, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, E: hyper::rt::bounds::Http2ClientConnExec<B, T> + Unpin { <hyper::client::conn::http2::Connection<T, B, E>>::current_max_send_streams(a0) } }
// API: fn hyper::client::conn::http2::Connection::is_extended_connect_protocol_enabled
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w121 { pub fn w<T, B, E>(a0: &hyper::client::conn::http2::Connection<T, B, E>) -> bool where T: hyper::rt::Read + hyper::rt::Write + Unpin + 'static, B: hyper::body::Body + Unpin + 'static, <B as hyper::body::Body>::Data: Send, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, E: hyper::rt::bounds::Http2ClientConnExec<B, T> + Unpin { <hyper::client::conn::http2::Connection<T, B, E>>::is_extended_connect_protocol_enabled(a0) } }
// API: fn hyper::client::conn::http2::SendRequest::is_closed
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w122 { pub fn w<B>(a0: &hyper::client::conn::http2::SendRequest<B>) -> bool { <hyper::client::conn::http2::SendRequest<B>>::is_closed(a0) } }
// API: fn hyper::client::conn::http2::SendRequest::is_ready
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w123 { pub fn w<B>(a0: &hyper::client::conn::http2::SendRequest<B>) -> bool { <hyper::client::conn::http2::SendRequest<B>>::is_ready(a0) } }
// API: fn hyper::client::conn::http2::SendRequest::poll_ready
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w124 { pub fn w<B>(a0: &mut hyper::client::conn::http2::SendRequest<B>, a1: &mut std::task::Context<'_>) -> std::task::Poll<std::result::Result<(), hyper::Error>> { <hyper::client::conn::http2::SendRequest<B>>::poll_ready(a0, a1) } }
// API: fn hyper::client::conn::http2::SendRequest::ready
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w125 { pub fn w<B>(a0: &mut hyper::client::conn::http2::SendRequest<B>) -> impl std::future::Future<Output = std::result::Result<(), hyper::Error>> + '_ { <hyper::client::conn::http2::SendRequest<B>>::ready(a0) } }
// API: fn hyper::client::conn::http2::SendRequest::send_request
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w126 { pub fn w<B>(a0: &mut hyper::client::conn::http2::SendRequest<B>, a1: hyper::Request<B>) -> impl std::future::Future<Output = std::result::Result<hyper::Response<hyper::body::Incoming>, hyper::Error>> where B: hyper::body::Body + 'static { <hyper::client::conn::http2::SendRequest<B>>::send_request(a0, a1) } }
// API: fn hyper::client::conn::http2::SendRequest::try_send_request
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w127 { pub fn w<B>(a0: &mut hyper::client::conn::http2::SendRequest<B>, a1: hyper::Request<B>) -> impl std::future::Future<Output = std::result::Result<hyper::Response<hyper::body::Incoming>, hyper::client::conn::TrySendError<hyper::Request<B>>>> where B: hyper::body::Body + 'static { <hyper::client::conn::http2::SendRequest<B>>::try_send_request(a0, a1) } }
// API: fn hyper::client::conn::http2::handshake
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w128 { pub fn w<E, T, B>(a0: E, a1: T) -> impl std::future::Future<Output = std::result::Result<(hyper::client::conn::http2::SendRequest<B>, hyper::client::conn::http2::Connection<T, B, E>,), hyper::Error>> where T: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Data: Send, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, E: hyper::rt::bounds::Http2ClientConnExec<B, T> + Unpin + Clone { hyper::client::conn::http2::handshake(a0, a1) } }
// API: fn hyper::ext::Protocol::as_str
#[cfg(any(all(feature = "http2")))] pub mod w129 { pub fn w(a0: &hyper::ext::Protocol) -> &str { <hyper::ext::Protocol>::as_str(a0) } }
// API: fn hyper::ext::Protocol::from_static
#[cfg(any(all(feature = "http2")))] pub mod w130 { pub const fn w(a0: &'static str) -> hyper::ext::Protocol { <hyper::ext::Protocol>::from_static(a0) } }
// API: fn hyper::ext::ReasonPhrase::as_bytes
#[cfg(any(all(feature = "http1")))] pub mod w131 { pub fn w(a0: &hyper::ext::ReasonPhrase) -> &[u8] { <hyper::ext::ReasonPhrase>::as_bytes(a0) } }
// API: fn hyper::ext::ReasonPhrase::from_static
#[cfg(any(all(feature = "http1")))] pub mod w132 { pub const fn w(a0: &'static [u8]) -> hyper::ext::ReasonPhrase { <hyper::ext::ReasonPhrase>::from_static(a0) } }
// API: fn hyper::ffi::hyper_body_data
#[cfg(any(all(feature = "ffi")))] pub mod w133 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_body) -> *mut hyper::ffi::hyper_task = hyper::ffi::hyper_body_data; }
// API: fn hyper::ffi::hyper_body_foreach
#[cfg(any(all(feature = "ffi")))] pub mod w134 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_body, extern "C" fn(*mut std::ffi::c_void, *const hyper::ffi::hyper_buf) -> std::ffi::c_int, *mut std::ffi::c_void) -> *mut hyper::ffi::hyper_task = hyper::ffi::hyper_body_foreach; }
// API: fn hyper::ffi::hyper_body_free
#[cfg(any(all(feature = "ffi")))] pub mod w135 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_body) = hyper::ffi::hyper_body_free; }
// API: fn hyper::ffi::hyper_body_new
#[cfg(any(all(feature = "ffi")))] pub mod w136 { pub const W: extern "C" fn() -> *mut hyper::ffi::hyper_body = hyper::ffi::hyper_body_new; }
// API: fn hyper::ffi::hyper_body_set_data_func
#[cfg(any(all(feature = "ffi")))] pub mod w137 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_body, extern "C" fn(*mut std::ffi::c_void, *mut hyper::ffi::hyper_context<'_>, *mut *mut hyper::ffi::hyper_buf) -> std::ffi::c_int) = hyper::ffi::hyper_body_set_data_func; }
// API: fn hyper::ffi::hyper_body_set_userdata
#[cfg(any(all(feature = "ffi")))] pub mod w138 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_body, *mut std::ffi::c_void) = hyper::ffi::hyper_body_set_userdata; }
// API: fn hyper::ffi::hyper_buf_bytes
#[cfg(any(all(feature = "ffi")))] pub mod w139 { pub const W: extern "C" fn(*const hyper::ffi::hyper_buf) -> *const u8 = hyper::ffi::hyper_buf_bytes; }
// API: fn hyper::ffi::hyper_buf_copy
#[cfg(any(all(feature = "ffi")))] pub mod w140 { pub const W: extern "C" fn(*const u8, usize) -> *mut hyper::ffi::hyper_buf = hyper::ffi::hyper_buf_copy; }
// API: fn hyper::ffi::hyper_buf_free
#[cfg(any(all(feature = "ffi")))] pub mod w141 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_buf) = hyper::ffi::hyper_buf_free; }
// API: fn hyper::ffi::hyper_buf_len
#[cfg(any(all(feature = "ffi")))] pub mod w142 { pub const W: extern "C" fn(*const hyper::ffi::hyper_buf) -> usize = hyper::ffi::hyper_buf_len; }
// API: fn hyper::ffi::hyper_clientconn_free
#[cfg(any(all(feature = "ffi")))] pub mod w143 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_clientconn) = hyper::ffi::hyper_clientconn_free; }
// API: fn hyper::ffi::hyper_clientconn_handshake
#[cfg(any(all(feature = "ffi")))] pub mod w144 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_io, *mut hyper::ffi::hyper_clientconn_options) -> *mut hyper::ffi::hyper_task = hyper::ffi::hyper_clientconn_handshake; }
// API: fn hyper::ffi::hyper_clientconn_options_exec
#[cfg(any(all(feature = "ffi")))] pub mod w145 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_clientconn_options, *const hyper::ffi::hyper_executor) = hyper::ffi::hyper_clientconn_options_exec; }
// API: fn hyper::ffi::hyper_clientconn_options_free
#[cfg(any(all(feature = "ffi")))] pub mod w146 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_clientconn_options) = hyper::ffi::hyper_clientconn_options_free; }
// API: fn hyper::ffi::hyper_clientconn_options_http1_allow_multiline_headers
#[cfg(any(all(feature = "ffi")))] pub mod w147 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_clientconn_options, std::ffi::c_int) -> hyper::ffi::hyper_code = hyper::ffi::hyper_clientconn_options_http1_allow_multiline_headers; }
// API: fn hyper::ffi::hyper_clientconn_options_http2
#[cfg(any(all(feature = "ffi")))] pub mod w148 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_clientconn_options, std::ffi::c_int) -> hyper::ffi::hyper_code = hyper::ffi::hyper_clientconn_options_http2; }
// API: fn hyper::ffi::hyper_clientconn_options_new
#[cfg(any(all(feature = "ffi")))] pub mod w149 { pub const W: extern "C" fn() -> *mut hyper::ffi::hyper_clientconn_options = hyper::ffi::hyper_clientconn_options_new; }
// API: fn hyper::ffi::hyper_clientconn_options_set_preserve_header_case
#[cfg(any(all(feature = "ffi")))] pub mod w150 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_clientconn_options, std::ffi::c_int) = hyper::ffi::hyper_clientconn_options_set_preserve_header_case; }
// API: fn hyper::ffi::hyper_clientconn_options_set_preserve_header_order
#[cfg(any(all(feature = "ffi")))] pub mod w151 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_clientconn_options, std::ffi::c_int) = hyper::ffi::hyper_clientconn_options_set_preserve_header_order; }
// API: fn hyper::ffi::hyper_clientconn_send
#[cfg(any(all(feature = "ffi")))] pub mod w152 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_clientconn, *mut hyper::ffi::hyper_request) -> *mut hyper::ffi::hyper_task = hyper::ffi::hyper_clientconn_send; }
// API: fn hyper::ffi::hyper_context_waker
#[cfg(any(all(feature = "ffi")))] pub mod w153 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_context<'_>) -> *mut hyper::ffi::hyper_waker = hyper::ffi::hyper_context_waker; }
// API: fn hyper::ffi::hyper_error_code
#[cfg(any(all(feature = "ffi")))] pub mod w154 { pub const W: extern "C" fn(*const hyper::ffi::hyper_error) -> hyper::ffi::hyper_code = hyper::ffi::hyper_error_code; }
// API: fn hyper::ffi::hyper_error_free
#[cfg(any(all(feature = "ffi")))] pub mod w155 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_error) = hyper::ffi::hyper_error_free; }
// API: fn hyper::ffi::hyper_error_print
#[cfg(any(all(feature = "ffi")))] pub mod w156 { pub const W: extern "C" fn(*const hyper::ffi::hyper_error, *mut u8, usize) -> usize = hyper::ffi::hyper_error_print; }
// API: fn hyper::ffi::hyper_executor_free
#[cfg(any(all(feature = "ffi")))] pub mod w157 { pub const W: extern "C" fn(*const hyper::ffi::hyper_executor) = hyper::ffi::hyper_executor_free; }
// API: fn hyper::ffi::hyper_executor_new
#[cfg(any(all(feature = "ffi")))] pub mod w158 { pub const W: extern "C" fn() -> *const hyper::ffi::hyper_executor = hyper::ffi::hyper_executor_new; }
// API: fn hyper::ffi::hyper_executor_poll
#[cfg(any(all(feature = "ffi")))] pub mod w159 { pub const W: extern "C" fn(*const hyper::ffi::hyper_executor) -> *mut hyper::ffi::hyper_task = hyper::ffi::hyper_executor_poll; }
// API: fn hyper::ffi::hyper_executor_push
#[cfg(any(all(feature = "ffi")))] pub mod w160 { pub const W: extern "C" fn(*const hyper::ffi::hyper_executor, *mut hyper::ffi::hyper_task) -> hyper::ffi::hyper_code = hyper::ffi::hyper_executor_push; }
// API: fn hyper::ffi::hyper_headers_add
#[cfg(any(all(feature = "ffi")))] pub mod w161 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_headers, *const u8, usize, *const u8, usize) -> hyper::ffi::hyper_code = hyper::ffi::hyper_headers_add; }
// API: fn hyper::ffi::hyper_headers_foreach
#[cfg(any(all(feature = "ffi")))] pub mod w162 { pub const W: extern "C" fn(*const hyper::ffi::hyper_headers, extern "C" fn(*mut std::ffi::c_void, *const u8, usize, *const u8, usize) -> std::ffi::c_int, *mut std::ffi::c_void) = hyper::ffi::hyper_headers_foreach; }
// API: fn hyper::ffi::hyper_headers_set
#[cfg(any(all(feature = "ffi")))] pub mod w163 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_headers, *const u8, usize, *const u8, usize) -> hyper::ffi::hyper_code = hyper::ffi::hyper_headers_set; }
// API: fn hyper::ffi::hyper_io_free
#[cfg(any(all(feature = "ffi")))] pub mod w164 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_io) = hyper::ffi::hyper_io_free; }
// API: fn hyper::ffi::hyper_io_new
#[cfg(any(all(feature = "ffi")))] pub mod w165 { pub const W: extern "C" fn() -> *mut hyper::ffi::hyper_io = hyper::ffi::hyper_io_new; }
// API: fn hyper::ffi::hyper_io_set_read
#[cfg(any(all(feature = "ffi")))] pub mod w166 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_io, extern "C" fn(*mut std::ffi::c_void, *mut hyper::ffi::hyper_context<'_>, *mut u8, usize) -> usize) = hyper::ffi::hyper_io_set_read; }
// API: fn hyper::ffi::hyper_io_set_userdata
#[cfg(any(all(feature = "ffi")))] pub mod w167 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_io, *mut std::ffi::c_void) = hyper::ffi::hyper_io_set_userdata; }
// API: fn hyper::ffi::hyper_io_set_write
#[cfg(any(all(feature = "ffi")))] pub mod w168 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_io, extern "C" fn(*mut std::ffi::c_void, *mut hyper::ffi::hyper_context<'_>, *const u8, usize) -> usize) = hyper::ffi::hyper_io_set_write; }
// API: fn hyper::ffi::hyper_request_free
#[cfg(any(all(feature = "ffi")))] pub mod w169 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_request) = hyper::ffi::hyper_request_free; }
// API: fn hyper::ffi::hyper_request_headers
#[cfg(any(all(feature = "ffi")))] pub mod w170 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_request) -> *mut hyper::ffi::hyper_headers = hyper::ffi::hyper_request_headers; }
// API: fn hyper::ffi::hyper_request_new
#[cfg(any(all(feature = "ffi")))] pub mod w171 { pub const W: extern "C" fn() -> *mut hyper::ffi::hyper_request = hyper::ffi::hyper_request_new; }
// API: fn hyper::ffi::hyper_request_on_informational
#[cfg(any(all(feature = "ffi")))] pub mod w172 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_request, extern "C" fn(*mut std::ffi::c_void, *mut hyper::ffi::hyper_response), *mut std::ffi::c_void) -> hyper::ffi::hyper_code = hyper::ffi::hyper_request_on_informational; }
// API: fn hyper::ffi::hyper_request_set_body
#[cfg(any(all(feature = "ffi")))] pub mod w173 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_request, *mut hyper::ffi::hyper_body) -> hyper::ffi::hyper_code = hyper::ffi::hyper_request_set_body; }
// API: fn hyper::ffi::hyper_request_set_method
#[cfg(any(all(feature = "ffi")))] pub mod w174 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_request, *const u8, usize) -> hyper::ffi::hyper_code = hyper::ffi::hyper_request_set_method; }
// API: fn hyper::ffi::hyper_request_set_uri
#[cfg(any(all(feature = "ffi")))] pub mod w175 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_request, *const u8, usize) -> hyper::ffi::hyper_code = hyper::ffi::hyper_request_set_uri; }
// API: fn hyper::ffi::hyper_request_set_uri_parts
#[cfg(any(all(feature = "ffi")))] pub mod w176 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_request, *const u8, usize, *const u8, usize, *const u8, usize) -> hyper::ffi::hyper_code = hyper::ffi::hyper_request_set_uri_parts; }
// API: fn hyper::ffi::hyper_request_set_version
#[cfg(any(all(feature = "ffi")))] pub mod w177 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_request, std::ffi::c_int) -> hyper::ffi::hyper_code = hyper::ffi::hyper_request_set_version; }
// API: fn hyper::ffi::hyper_response_body
#[cfg(any(all(feature = "ffi")))] pub mod w178 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_response) -> *mut hyper::ffi::hyper_body = hyper::ffi::hyper_response_body; }
// API: fn hyper::ffi::hyper_response_free
#[cfg(any(all(feature = "ffi")))] pub mod w179 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_response) = hyper::ffi::hyper_response_free; }
// API: fn hyper::ffi::hyper_response_headers
#[cfg(any(all(feature = "ffi")))] pub mod w180 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_response) -> *mut hyper::ffi::hyper_headers = hyper::ffi::hyper_response_headers; }
// API: fn hyper::ffi::hyper_response_reason_phrase
#[cfg(any(all(feature = "ffi")))] pub mod w181 { pub const W: extern "C" fn(*const hyper::ffi::hyper_response) -> *const u8 = hyper::ffi::hyper_response_reason_phrase; }
// API: fn hyper::ffi::hyper_response_reason_phrase_len
#[cfg(any(all(feature = "ffi")))] pub mod w182 { pub const W: extern "C" fn(*const hyper::ffi::hyper_response) -> usize = hyper::ffi::hyper_response_reason_phrase_len; }
// API: fn hyper::ffi::hyper_response_status
#[cfg(any(all(feature = "ffi")))] pub mod w183 { pub const W: extern "C" fn(*const hyper::ffi::hyper_response) -> u16 = hyper::ffi::hyper_response_status; }
// API: fn hyper::ffi::hyper_response_version
#[cfg(any(all(feature = "ffi")))] pub mod w184 { pub const W: extern "C" fn(*const hyper::ffi::hyper_response) -> std::ffi::c_int = hyper::ffi::hyper_response_version; }
// API: fn hyper::ffi::hyper_task_free
#[cfg(any(all(feature = "ffi")))] pub mod w185 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_task) = hyper::ffi::hyper_task_free; }
// API: fn hyper::ffi::hyper_task_set_userdata
#[cfg(any(all(feature = "ffi")))] pub mod w186 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_task, *mut std::ffi::c_void) = hyper::ffi::hyper_task_set_userdata; }
// API: fn hyper::ffi::hyper_task_type
#[cfg(any(all(feature = "ffi")))] pub mod w187 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_task) -> hyper::ffi::hyper_task_return_type = hyper::ffi::hyper_task_type; }
// API: fn hyper::ffi::hyper_task_userdata
#[cfg(any(all(feature = "ffi")))] pub mod w188 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_task) -> *mut std::ffi::c_void = hyper::ffi::hyper_task_userdata; }
// API: fn hyper::ffi::hyper_task_value
#[cfg(any(all(feature = "ffi")))] pub mod w189 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_task) -> *mut std::ffi::c_void = hyper::ffi::hyper_task_value; }
// API: fn hyper::ffi::hyper_version
#[cfg(any(all(feature = "ffi")))] pub mod w190 { pub const W: extern "C" fn() -> *const std::ffi::c_char = hyper::ffi::hyper_version; }
// API: fn hyper::ffi::hyper_waker_free
#[cfg(any(all(feature = "ffi")))] pub mod w191 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_waker) = hyper::ffi::hyper_waker_free; }
// API: fn hyper::ffi::hyper_waker_wake
#[cfg(any(all(feature = "ffi")))] pub mod w192 { pub const W: extern "C" fn(*mut hyper::ffi::hyper_waker) = hyper::ffi::hyper_waker_wake; }
// API: fn hyper::rt::ReadBuf::filled
pub mod w193 { pub fn w<'x, 'data>(a0: &'x hyper::rt::ReadBuf<'data>) -> &'x [u8] { <hyper::rt::ReadBuf<'data>>::filled(a0) } }
// API: fn hyper::rt::ReadBuf::new
pub mod w194 { pub fn w<'data>(a0: &'data mut [u8]) -> hyper::rt::ReadBuf<'data> { <hyper::rt::ReadBuf<'data>>::new(a0) } }
// API: fn hyper::rt::ReadBuf::unfilled
pub mod w195 { pub fn w<'data, 'cursor>(a0: &'cursor mut hyper::rt::ReadBuf<'data>) -> hyper::rt::ReadBufCursor<'cursor> { <hyper::rt::ReadBuf<'data>>::unfilled(a0) } }
// API: fn hyper::rt::ReadBuf::uninit
pub mod w196 { pub fn w<'data>(a0: &'data mut [std::mem::MaybeUninit<u8>]) -> hyper::rt::ReadBuf<'data> { <hyper::rt::ReadBuf<'data>>::uninit(a0) } }
// API: fn hyper::rt::ReadBufCursor::advance
pub mod w197 { pub fn w(a0: &mut hyper::rt::ReadBufCursor<'_>, a1: usize) -> () { unsafe { <hyper::rt::ReadBufCursor<'_>>::advance(a0, a1) } } }
// API: fn hyper::rt::ReadBufCursor::as_mut
pub mod w198 { pub fn w<'x>(a0: &'x mut hyper::rt::ReadBufCursor<'_>) -> &'x mut [std::mem::MaybeUninit<u8>] { unsafe { <hyper::rt::ReadBufCursor<'_>>::as_mut(a0) } } }
// API: fn hyper::rt::ReadBufCursor::initialize_unfilled
pub mod w199 { pub fn w<'x>(a0: &'x mut hyper::rt::ReadBufCursor<'_>) -> &'x mut [u8] { <hyper::rt::ReadBufCursor<'_>>::initialize_unfilled(a0) } }
// API: fn hyper::rt::ReadBufCursor::initialize_unfilled_to
pub mod w200 { pub fn w<'x>(a0: &'x mut hyper::rt::ReadBufCursor<'_>, a1: usize) -> &'x mut [u8] { <hyper::rt::ReadBufCursor<'_>>::initialize_unfilled_to(a0, a1) } }
// API: fn hyper::rt::ReadBufCursor::put_slice
pub mod w201 { pub fn w(a0: &mut hyper::rt::ReadBufCursor<'_>, a1: &[u8]) -> () { <hyper::rt::ReadBufCursor<'_>>::put_slice(a0, a1) } }
// API: fn hyper::rt::ReadBufCursor::remaining
pub mod w202 { pub fn w(a0: &hyper::rt::ReadBufCursor<'_>) -> usize { <hyper::rt::ReadBufCursor<'_>>::remaining(a0) } }
// API: fn hyper::server::conn::http1::Builder::allow_multiple_spaces_in_request_line_delimiters
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w203 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: bool) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::allow_multiple_spaces_in_request_line_delimiters(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::auto_date_header
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w204 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: bool) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::auto_date_header(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::half_close
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w205 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: bool) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::half_close(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::header_read_timeout
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w206 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: impl Into<Option<std::time::Duration>>) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::header_read_timeout(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::ignore_invalid_headers
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w207 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: bool) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::ignore_invalid_headers(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::keep_alive
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w208 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: bool) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::keep_alive(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::max_buf_size
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w209 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: usize) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::max_buf_size(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::max_headers
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w210 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: usize) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::max_headers(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::new
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w211 { pub fn w() -> hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::new() } }
// API: fn hyper::server::conn::http1::Builder::pipeline_flush
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w212 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: bool) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::pipeline_flush(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::preserve_header_case
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w213 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: bool) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::preserve_header_case(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::serve_connection
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w214 { pub fn w<I, S>(a0: &hyper::server::conn::http1::Builder, a1: I, a2: S) -> hyper::server::conn::http1::Connection<I, S> where S: hyper::service::HttpService<hyper::body::Incoming>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, <S as hyper::service::HttpService<hyper::body::Incoming>>::ResBody: 'static, <<S as hyper::service::HttpService<hyper::body::Incoming>>::ResBody as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin { <hyper::server::conn::http1::Builder>::serve_connection(a0, a1, a2) } }
// API: fn hyper::server::conn::http1::Builder::timer
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w215 { pub fn w<M>(a0: &mut hyper::server::conn::http1::Builder, a1: M) -> &mut hyper::server::conn::http1::Builder where M: hyper::rt::Timer + Send + Sync + 'static { <hyper::server::conn::http1::Builder>::timer(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::title_case_headers
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w216 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: bool) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::title_case_headers(a0, a1) } }
// API: fn hyper::server::conn::http1::Builder::writev
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w217 { pub fn w(a0: &mut hyper::server::conn::http1::Builder, a1: bool) -> &mut hyper::server::conn::http1::Builder { <hyper::server::conn::http1::Builder>::writev(a0, a1) } }
// API: fn hyper::server::conn::http1::Connection::graceful_shutdown
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w218 { pub fn w<I, B, S>(a0: std::pin::Pin<&mut hyper::server::conn::http1::Connection<I, S>>) -> () where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { <hyper::server::conn::http1::Connection<I, S>>::graceful_shutdown(a0) } }
// API: fn hyper::server::conn::http1::Connection::into_parts
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w219 { pub fn w<I, B, S>(a0: hyper::server::conn::http1::Connection<I, S>) -> hyper::server::conn::http1::Parts<I, S> where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { <hyper::server::conn::http1::Connection<I, S>>::into_parts(a0) } }
// API: fn hyper::server::conn::http1::Connection::poll_without_shutdown
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w220 { pub fn w<I, B, S>(a0: &mut hyper::server::conn::http1::Connection<I, S>, a1: &mut std::task::Context<'_>) -> std::task::Poll<std::result::Result<(), hyper::Error>> where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, S: Unpin, <S as hyper::service::HttpService<hyper::body::Incoming>>::Future: Unpin { <hyper::server::conn::http1::Connection<I, S>>::poll_without_shutdown(a0, a1) } }
// API: fn hyper::server::conn::http1::Connection::with_upgrades
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w221 { pub fn w<I, B, S>(a0: hyper::server::conn::http1::Connection<I, S>) -> hyper::server::conn::http1::UpgradeableConnection<I, S> where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: Send { <hyper::server::conn::http1::Connection<I, S>>::with_upgrades(a0) } }
// API: fn hyper::server::conn::http1::Connection::without_shutdown
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w222 { pub fn w<I, B, S>(a0: hyper::server::conn::http1::Connection<I, S>) -> impl std::future::Future<Output = std::result::Result<hyper::server::conn::http1::Parts<I, S>, hyper::Error>> where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { <hyper::server::conn::http1::Connection<I, S>>::without_shutdown(a0) } }
// API: fn hyper::server::conn::http1::UpgradeableConnection::graceful_shutdown
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w223 { pub fn w<I, B, S>(a0: std::pin::Pin<&mut hyper::server::conn::http1::UpgradeableConnection<I, S>>) -> () where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { <hyper::server::conn::http1::UpgradeableConnection<I, S>>::graceful_shutdown(a0) } }
// API: fn hyper::server::conn::http1::UpgradeableConnection::into_parts
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w224 { pub fn w<I, B, S>(a0: hyper::server::conn::http1::UpgradeableConnection<I, S>) -> Option<hyper::server::conn::http1::Parts<I, S>> where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { <hyper::server::conn::http1::UpgradeableConnection<I, S>>::into_parts(a0) } }
// API: fn hyper::server::conn::http2::Builder::adaptive_window
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w225 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: bool) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::adaptive_window(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::auto_date_header
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w226 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: bool) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::auto_date_header(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::enable_connect_protocol
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w227 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::enable_connect_protocol(a0) } }
// API: fn hyper::server::conn::http2::Builder::header_table_size
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w228 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: impl Into<Option<u32>>) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::header_table_size(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::initial_connection_window_size
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w229 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: impl Into<Option<u32>>) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::initial_connection_window_size(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::initial_stream_window_size
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w230 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: impl Into<Option<u32>>) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::initial_stream_window_size(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::keep_alive_interval
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w231 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: impl Into<Option<std::time::Duration>>) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::keep_alive_interval(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::keep_alive_timeout
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w232 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: std::time::Duration) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::keep_alive_timeout(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::max_concurrent_streams
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w233 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: impl Into<Option<u32>>) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::max_concurrent_streams(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::max_frame_size
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w234 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: impl Into<Option<u32>>) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::max_frame_size(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::max_header_list_size
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w235 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: u32) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::max_header_list_size(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::max_local_error_reset_streams
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w236 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: impl Into<Option<usize>>) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::max_local_error_reset_streams(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::max_pending_accept_reset_streams
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w237 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: impl Into<Option<usize>>) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::max_pending_accept_reset_streams(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::max_send_buf_size
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w238 { pub fn w<E>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: usize) -> &mut hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::max_send_buf_size(a0, a1) } }
// API: fn hyper::server::conn::http2::Builder::new
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w239 { pub fn w<E>(a0: E) -> hyper::server::conn::http2::Builder<E> { <hyper::server::conn::http2::Builder<E>>::new(a0) } }
// API: fn hyper::server::conn::http2::Builder::serve_connection
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w240 { pub fn w<E, S, I, Bd>(a0: &hyper::server::conn::http2::Builder<E>, a1: I, a2: S) -> hyper::server::conn::http2::Connection<I, S, E> where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = Bd>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, Bd: hyper::body::Body + 'static, <Bd as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, E: hyper::rt::bounds::Http2ServerConnExec<<S as hyper::service::HttpService<hyper::body::Incoming>>::Future, Bd> { <hyper::server::conn::http2::Builder<E>>::serve_connection(a0, a1, a2) } }
// API: fn hyper::server::conn::http2::Builder::timer
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w241 { pub fn w<E, M>(a0: &mut hyper::server::conn::http2::Builder<E>, a1: M) -> &mut hyper::server::conn::http2::Builder<E> where M: hyper::rt::Timer + Send + Sync + 'static { <hyper::server::conn::http2::Builder<E>>::timer(a0, a1) } }
// API: fn hyper::server::conn::http2::Connection::graceful_shutdown
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w242 { pub fn w<I, B, S, E>(a0: std::pin::Pin<&mut hyper::server::conn::http2::Connection<I, S, E>>) -> () where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, E: hyper::rt::bounds::Http2ServerConnExec<<S as hyper::service::HttpService<hyper::body::Incoming>>::Future, B> { <hyper::server::conn::http2::Connection<I, S, E>>::graceful_shutdown(a0) } }
// API: fn hyper::upgrade::Upgraded::downcast
pub mod w243 { pub fn w<T>(a0: hyper::upgrade::Upgraded) -> std::result::Result<hyper::upgrade::Parts<T>, hyper::upgrade::Upgraded> where T: hyper::rt::Read + hyper::rt::Write + Unpin + 'static { <hyper::upgrade::Upgraded>::downcast(a0) } }
// API: impl AsRef<[u8]> for hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w244 { pub fn w() { fn n<X: ?Sized + AsRef<[u8]>>() {} n::<hyper::ext::Protocol>() } }
// API: impl AsRef<[u8]> for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w245 { pub fn w() { fn n<X: ?Sized + AsRef<[u8]>>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: impl Clone for hyper::client::conn::http1::Builder
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w246 { pub fn w() { fn n<X: ?Sized + Clone>() {} n::<hyper::client::conn::http1::Builder>() } }
// API: impl Clone for hyper::client::conn::http2::Builder
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w247 { pub fn w<Ex>() where Ex: Clone { fn n<X: ?Sized + Clone>() {} n::<hyper::client::conn::http2::Builder<Ex>>() } }
// API: impl Clone for hyper::client::conn::http2::SendRequest
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w248 { pub fn w<B>() { fn n<X: ?Sized + Clone>() {} n::<hyper::client::conn::http2::SendRequest<B>>() } }
// API: impl Clone for hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w249 { pub fn w() { fn n<X: ?Sized + Clone>() {} n::<hyper::ext::Protocol>() } }
// API: impl Clone for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w250 { pub fn w() { fn n<X: ?Sized + Clone>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: impl Clone for hyper::server::conn::http1::Builder
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w251 { pub fn w() { fn n<X: ?Sized + Clone>() {} n::<hyper::server::conn::http1::Builder>() } }
// API: impl Clone for hyper::server::conn::http2::Builder
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w252 { pub fn w<E>() where E: Clone { fn n<X: ?Sized + Clone>() {} n::<hyper::server::conn::http2::Builder<E>>() } }
// API: impl Clone for hyper::upgrade::OnUpgrade
pub mod w253 { pub fn w() { fn n<X: ?Sized + Clone>() {} n::<hyper::upgrade::OnUpgrade>() } }
// API: impl Eq for hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w254 { pub fn w() { fn n<X: ?Sized + Eq>() {} n::<hyper::ext::Protocol>() } }
// API: impl Eq for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w255 { pub fn w() { fn n<X: ?Sized + Eq>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: impl From<&'a str> for hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w256 { pub fn w<'a>() { fn n<'a, X: ?Sized + From<&'a str>>() {} n::<hyper::ext::Protocol>() } }
// API: impl From<hyper::ext::ReasonPhrase> for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w257 { pub fn w() { fn n<X: ?Sized + From<hyper::ext::ReasonPhrase>>() {} n::<hyper::body::Bytes>() } }
// API: impl Ord for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w258 { pub fn w() { fn n<X: ?Sized + Ord>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: impl PartialEq for hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w259 { pub fn w() { fn n<X: ?Sized + PartialEq>() {} n::<hyper::ext::Protocol>() } }
// API: impl PartialEq for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w260 { pub fn w() { fn n<X: ?Sized + PartialEq>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: impl PartialOrd for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w261 { pub fn w() { fn n<X: ?Sized + PartialOrd>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: impl hyper::body::Body for hyper::body::Incoming
pub mod w262 { pub fn w() { fn n<X: ?Sized + hyper::body::Body<Data = hyper::body::Bytes, Error = hyper::Error>>() {} n::<hyper::body::Incoming>() } }
// API: impl hyper::rt::Read for hyper::upgrade::Upgraded
pub mod w263 { pub fn w() { fn n<X: ?Sized + hyper::rt::Read>() {} n::<hyper::upgrade::Upgraded>() } }
// API: impl hyper::rt::Write for hyper::upgrade::Upgraded
pub mod w264 { pub fn w() { fn n<X: ?Sized + hyper::rt::Write>() {} n::<hyper::upgrade::Upgraded>() } }
// API: impl std::error::Error for hyper::Error
pub mod w265 { pub fn w() { fn n<X: ?Sized + std::error::Error>() {} n::<hyper::Error>() } }
// API: impl std::fmt::Debug for hyper::Error
pub mod w266 { pub fn w() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::Error>() } }
// API: impl std::fmt::Debug for hyper::body::Incoming
pub mod w267 { pub fn w() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::body::Incoming>() } }
// API: impl std::fmt::Debug for hyper::client::conn::TrySendError
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "client", feature = "http2")))] pub mod w268 { pub fn w<T>() where T: std::fmt::Debug { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::client::conn::TrySendError<T>>() } }
// API: impl std::fmt::Debug for hyper::client::conn::http1::Builder
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w269 { pub fn w() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::client::conn::http1::Builder>() } }
// API: impl std::fmt::Debug for hyper::client::conn::http1::Connection
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w270 { pub fn w<T, B>() where T: hyper::rt::Read + hyper::rt::Write + std::fmt::Debug, B: hyper::body::Body + 'static { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::client::conn::http1::Connection<T, B>>() } }
// API: impl std::fmt::Debug for hyper::client::conn::http1::Parts
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w271 { pub fn w<T>() where T: std::fmt::Debug { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::client::conn::http1::Parts<T>>() } }
// API: impl std::fmt::Debug for hyper::client::conn::http1::SendRequest
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w272 { pub fn w<B>() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::client::conn::http1::SendRequest<B>>() } }
// API: impl std::fmt::Debug for hyper::client::conn::http2::Builder
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w273 { pub fn w<Ex>() where Ex: std::fmt::Debug { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::client::conn::http2::Builder<Ex>>() } }
// API: impl std::fmt::Debug for hyper::client::conn::http2::Connection
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w274 { pub fn w<T, B, E>() where T: hyper::rt::Read + hyper::rt::Write + std::fmt::Debug + 'static + Unpin, B: hyper::body::Body + 'static, E: hyper::rt::bounds::Http2ClientConnExec<B, T> + Unpin, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::client::conn::http2::Connection<T, B, E>>() } }
// API: impl std::fmt::Debug for hyper::client::conn::http2::SendRequest
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w275 { pub fn w<B>() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::client::conn::http2::SendRequest<B>>() } }
// API: impl std::fmt::Debug for hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w276 { pub fn w() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::ext::Protocol>() } }
// API: impl std::fmt::Debug for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w277 { pub fn w() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: impl std::fmt::Debug for hyper::rt::ReadBuf
pub mod w278 { pub fn w() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::rt::ReadBuf<'_>>() } }
// API: impl std::fmt::Debug for hyper::rt::ReadBufCursor
pub mod w279 { pub fn w<'a>() { fn n<'a, X: ?Sized + std::fmt::Debug>() {} n::<hyper::rt::ReadBufCursor<'a>>() } }
// API: impl std::fmt::Debug for hyper::server::conn::http1::Builder
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w280 { pub fn w() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::server::conn::http1::Builder>() } }
// API: impl std::fmt::Debug for hyper::server::conn::http1::Connection
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w281 { pub fn w<I, S>() where S: hyper::service::HttpService<hyper::body::Incoming> { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::server::conn::http1::Connection<I, S>>() } }
// API: impl std::fmt::Debug for hyper::server::conn::http1::Parts
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w282 { pub fn w<T, S>() where T: std::fmt::Debug, S: std::fmt::Debug { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::server::conn::http1::Parts<T, S>>() } }
// API: impl std::fmt::Debug for hyper::server::conn::http2::Builder
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w283 { pub fn w<E>() where E: std::fmt::Debug { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::server::conn::http2::Builder<E>>() } }
// API: impl std::fmt::Debug for hyper::server::conn::http2::Connection
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w284 { pub fn w<I, S, E>() where S: hyper::service::HttpService<hyper::body::Incoming> { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::server::conn::http2::Connection<I, S, E>>() } }
// API: impl std::fmt::Debug for hyper::upgrade::OnUpgrade
pub mod w285 { pub fn w() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::upgrade::OnUpgrade>() } }
// API: impl std::fmt::Debug for hyper::upgrade::Parts
pub mod w286 { pub fn w<T>() where T: std::fmt::Debug { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::upgrade::Parts<T>>() } }
// API: impl std::fmt::Debug for hyper::upgrade::Upgraded
pub mod w287 { pub fn w() { fn n<X: ?Sized + std::fmt::Debug>() {} n::<hyper::upgrade::Upgraded>() } }
// API: impl std::fmt::Display for hyper::Error
pub mod w288 { pub fn w() { fn n<X: ?Sized + std::fmt::Display>() {} n::<hyper::Error>() } }
// API: impl std::future::Future for hyper::client::conn::http1::Connection
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w289 { pub fn w<T, B>() where T: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Data: Send, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { fn n<X: ?Sized + std::future::Future<Output = std::result::Result<(), hyper::Error>>>() {} n::<hyper::client::conn::http1::Connection<T, B>>() } }
// API: impl std::future::Future for hyper::client::conn::http2::Connection
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w290 { pub fn w<T, B, E>() where T: hyper::rt::Read + hyper::rt::Write + Unpin + 'static, B: hyper::body::Body + 'static + Unpin, <B as hyper::body::Body>::Data: Send, E: Unpin + hyper::rt::bounds::Http2ClientConnExec<B, T>, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { fn n<X: ?Sized + std::future::Future<Output = std::result::Result<(), hyper::Error>>>() {} n::<hyper::client::conn::http2::Connection<T, B, E>>() } }
// API: impl std::future::Future for hyper::server::conn::http1::Connection
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w291 { pub fn w<I, B, S>() where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { fn n<X: ?Sized + std::future::Future<Output = std::result::Result<(), hyper::Error>>>() {} n::<hyper::server::conn::http1::Connection<I, S>>() } }
// API: impl std::future::Future for hyper::server::conn::http1::UpgradeableConnection
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w292 { pub fn w<I, B, S>() where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin + Send + 'static, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>> { fn n<X: ?Sized + std::future::Future<Output = std::result::Result<(), hyper::Error>>>() {} n::<hyper::server::conn::http1::UpgradeableConnection<I, S>>() } }
// API: impl std::future::Future for hyper::server::conn::http2::Connection
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w293 { pub fn w<I, B, S, E>() where S: hyper::service::HttpService<hyper::body::Incoming, ResBody = B>, <S as hyper::service::HttpService<hyper::body::Incoming>>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, I: hyper::rt::Read + hyper::rt::Write + Unpin, B: hyper::body::Body + 'static, <B as hyper::body::Body>::Error: Into<Box<dyn std::error::Error + Send + Sync>>, E: hyper::rt::bounds::Http2ServerConnExec<<S as hyper::service::HttpService<hyper::body::Incoming>>::Future, B> { fn n<X: ?Sized + std::future::Future<Output = std::result::Result<(), hyper::Error>>>() {} n::<hyper::server::conn::http2::Connection<I, S, E>>() } }
// API: impl std::future::Future for hyper::upgrade::OnUpgrade
pub mod w294 { pub fn w() { fn n<X: ?Sized + std::future::Future<Output = std::result::Result<hyper::upgrade::Upgraded, hyper::Error>>>() {} n::<hyper::upgrade::OnUpgrade>() } }
// API: impl std::hash::Hash for hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w295 { pub fn w() { fn n<X: ?Sized + std::hash::Hash>() {} n::<hyper::ext::ReasonPhrase>() } }
// API: struct hyper::Error
pub mod w296 { pub use hyper::Error as _x; }
// API: struct hyper::body::Incoming
pub mod w297 { pub use hyper::body::Incoming as _x; }
// API: struct hyper::client::conn::TrySendError
#[cfg(any(all(feature = "client", feature = "http1"), all(feature = "client", feature = "http2")))] pub mod w298 { pub use hyper::client::conn::TrySendError as _x; }
// API: struct hyper::client::conn::http1::Builder
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w299 { pub use hyper::client::conn::http1::Builder as _x; }
// API: struct hyper::client::conn::http1::Connection
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w300 { pub use hyper::client::conn::http1::Connection as _x; }
// API: struct hyper::client::conn::http1::Parts
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w301 { pub use hyper::client::conn::http1::Parts as _x; }
// API: struct hyper::client::conn::http1::SendRequest
#[cfg(any(all(feature = "client", feature = "http1")))] pub mod w302 { pub use hyper::client::conn::http1::SendRequest as _x; }
// API: struct hyper::client::conn::http2::Builder
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w303 { pub use hyper::client::conn::http2::Builder as _x; }
// API: struct hyper::client::conn::http2::Connection
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w304 { pub use hyper::client::conn::http2::Connection as _x; }
// API: struct hyper::client::conn::http2::SendRequest
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w305 { pub use hyper::client::conn::http2::SendRequest as _x; }
// API: struct hyper::ext::Protocol
#[cfg(any(all(feature = "http2")))] pub mod w306 { pub use hyper::ext::Protocol as _x; }
// API: struct hyper::ext::ReasonPhrase
#[cfg(any(all(feature = "http1")))] pub mod w307 { pub use hyper::ext::ReasonPhrase as _x; }
// API: struct hyper::ffi::hyper_body
#[cfg(any(all(feature = "ffi")))] pub mod w308 { pub use hyper::ffi::hyper_body as _x; }
// API: struct hyper::ffi::hyper_buf
#[cfg(any(all(feature = "ffi")))] pub mod w309 { pub use hyper::ffi::hyper_buf as _x; }
// API: struct hyper::ffi::hyper_clientconn
#[cfg(any(all(feature = "ffi")))] pub mod w310 { pub use hyper::ffi::hyper_clientconn as _x; }
// API: struct hyper::ffi::hyper_clientconn_options
#[cfg(any(all(feature = "ffi")))] pub mod w311 { pub use hyper::ffi::hyper_clientconn_options as _x; }
// API: struct hyper::ffi::hyper_context
#[cfg(any(all(feature = "ffi")))] pub mod w312 { pub use hyper::ffi::hyper_context as _x; }
// API: struct hyper::ffi::hyper_error
#[cfg(any(all(feature = "ffi")))] pub mod w313 { pub use hyper::ffi::hyper_error as _x; }
// API: struct hyper::ffi::hyper_executor
#[cfg(any(all(feature = "ffi")))] pub mod w314 { pub use hyper::ffi::hyper_executor as _x; }
// API: struct hyper::ffi::hyper_headers
#[cfg(any(all(feature = "ffi")))] pub mod w315 { pub use hyper::ffi::hyper_headers as _x; }
// API: struct hyper::ffi::hyper_io
#[cfg(any(all(feature = "ffi")))] pub mod w316 { pub use hyper::ffi::hyper_io as _x; }
// API: struct hyper::ffi::hyper_request
#[cfg(any(all(feature = "ffi")))] pub mod w317 { pub use hyper::ffi::hyper_request as _x; }
// API: struct hyper::ffi::hyper_response
#[cfg(any(all(feature = "ffi")))] pub mod w318 { pub use hyper::ffi::hyper_response as _x; }
// API: struct hyper::ffi::hyper_task
#[cfg(any(all(feature = "ffi")))] pub mod w319 { pub use hyper::ffi::hyper_task as _x; }
// API: struct hyper::ffi::hyper_waker
#[cfg(any(all(feature = "ffi")))] pub mod w320 { pub use hyper::ffi::hyper_waker as _x; }
// API: struct hyper::rt::ReadBuf
pub mod w321 { pub use hyper::rt::ReadBuf as _x; }
// API: struct hyper::rt::ReadBufCursor
pub mod w322 { pub use hyper::rt::ReadBufCursor as _x; }
// API: struct hyper::server::conn::http1::Builder
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w323 { pub use hyper::server::conn::http1::Builder as _x; }
// API: struct hyper::server::conn::http1::Connection
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w324 { pub use hyper::server::conn::http1::Connection as _x; }
// API: struct hyper::server::conn::http1::Parts
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w325 { pub use hyper::server::conn::http1::Parts as _x; }
// API: struct hyper::server::conn::http1::UpgradeableConnection
#[cfg(any(all(feature = "server", feature = "http1")))] pub mod w326 { pub use hyper::server::conn::http1::UpgradeableConnection as _x; }
// API: struct hyper::server::conn::http2::Builder
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w327 { pub use hyper::server::conn::http2::Builder as _x; }
// API: struct hyper::server::conn::http2::Connection
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w328 { pub use hyper::server::conn::http2::Connection as _x; }
// API: struct hyper::upgrade::OnUpgrade
pub mod w329 { pub use hyper::upgrade::OnUpgrade as _x; }
// API: struct hyper::upgrade::Parts
pub mod w330 { pub use hyper::upgrade::Parts as _x; }
// API: struct hyper::upgrade::Upgraded
pub mod w331 { pub use hyper::upgrade::Upgraded as _x; }
// API: trait hyper::rt::Executor
pub mod w332 { pub use hyper::rt::Executor as _x; }
// API: trait hyper::rt::Read
pub mod w333 { pub use hyper::rt::Read as _x; }
// API: trait hyper::rt::Sleep
pub mod w334 { pub use hyper::rt::Sleep as _x; }
// API: trait hyper::rt::Timer
pub mod w335 { pub use hyper::rt::Timer as _x; }
// API: trait hyper::rt::Write
pub mod w336 { pub use hyper::rt::Write as _x; }
// API: trait hyper::rt::bounds::Http2ClientConnExec
#[cfg(any(all(feature = "client", feature = "http2")))] pub mod w337 { pub use hyper::rt::bounds::Http2ClientConnExec as _x; }
// API: trait hyper::rt::bounds::Http2ServerConnExec
#[cfg(any(all(feature = "server", feature = "http2")))] pub mod w338 { pub use hyper::rt::bounds::Http2ServerConnExec as _x; }
// API: trait hyper::service::HttpService
pub mod w339 { pub use hyper::service::HttpService as _x; }
// API: trait hyper::service::Service
pub mod w340 { pub use hyper::service::Service as _x; }
// API: type hyper::Result
pub mod w341 { pub use hyper::Result as _x; }
// API: use hyper::HeaderMap
pub mod w342 { pub use hyper::HeaderMap as _x; }
// API: use hyper::Method
pub mod w343 { pub use hyper::Method as _x; }
// API: use hyper::Request
pub mod w344 { pub use hyper::Request as _x; }
// API: use hyper::Response
pub mod w345 { pub use hyper::Response as _x; }
// API: use hyper::StatusCode
pub mod w346 { pub use hyper::StatusCode as _x; }
// API: use hyper::Uri
pub mod w347 { pub use hyper::Uri as _x; }
// API: use hyper::Version
pub mod w348 { pub use hyper::Version as _x; }
// API: use hyper::body::Body
pub mod w349 { pub use hyper::body::Body as _x; }
// API: use hyper::body::Buf
pub mod w350 { pub use hyper::body::Buf as _x; }
// API: use hyper::body::Bytes
pub mod w351 { pub use hyper::body::Bytes as _x; }
// API: use hyper::body::Frame
pub mod w352 { pub use hyper::body::Frame as _x; }
// API: use hyper::body::SizeHint
pub mod w353 { pub use hyper::body::SizeHint as _x; }
// API: use hyper::header
pub mod w354 { pub use hyper::header as _x; }
// API: value HYPER_HTTP_VERSION_1_0
#[cfg(any(all(feature = "ffi")))] pub mod w355 { const _: () = assert!(hyper::ffi::HYPER_HTTP_VERSION_1_0 as u64 == 10); }
// API: value HYPER_HTTP_VERSION_1_1
#[cfg(any(all(feature = "ffi")))] pub mod w356 { const _: () = assert!(hyper::ffi::HYPER_HTTP_VERSION_1_1 as u64 == 11); }
// API: value HYPER_HTTP_VERSION_2
#[cfg(any(all(feature = "ffi")))] pub mod w357 { const _: () = assert!(hyper::ffi::HYPER_HTTP_VERSION_2 as u64 == 20); }
// API: value HYPER_HTTP_VERSION_NONE
#[cfg(any(all(feature = "ffi")))] pub mod w358 { const _: () = assert!(hyper::ffi::HYPER_HTTP_VERSION_NONE as u64 == 0); }
// API: value HYPER_IO_ERROR
#[cfg(any(all(feature = "ffi")))] pub mod w359 { const _: () = assert!(hyper::ffi::HYPER_IO_ERROR as u64 == 4294967294); }
// API: value HYPER_IO_PENDING
#[cfg(any(all(feature = "ffi")))] pub mod w360 { const _: () = assert!(hyper::ffi::HYPER_IO_PENDING as u64 == 4294967295); }
// API: value HYPER_ITER_BREAK
#[cfg(any(all(feature = "ffi")))] pub mod w361 { const _: () = assert!(hyper::ffi::HYPER_ITER_BREAK as u64 == 1); }
// API: value HYPER_ITER_CONTINUE
#[cfg(any(all(feature = "ffi")))] pub mod w362 { const _: () = assert!(hyper::ffi::HYPER_ITER_CONTINUE as u64 == 0); }
// API: value HYPER_POLL_ERROR
#[cfg(any(all(feature = "ffi")))] pub mod w363 { const _: () = assert!(hyper::ffi::HYPER_POLL_ERROR as u64 == 3); }
// API: value HYPER_POLL_PENDING
#[cfg(any(all(feature = "ffi")))] pub mod w364 { const _: () = assert!(hyper::ffi::HYPER_POLL_PENDING as u64 == 1); }
// API: value HYPER_POLL_READY
#[cfg(any(all(feature = "ffi")))] pub mod w365 { const _: () = assert!(hyper::ffi::HYPER_POLL_READY as u64 == 0); }
