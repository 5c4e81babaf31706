//! Shared parts of the handshake harnesses (always compiled).
use crate::sym::*;
use crate::util::*;
use futures::{Async, Future};
use hyper::header::Headers;
use std::io::{self, Read, Write};

/// A message head as the reference reads it: first line, header lines in order (names in lower case), bytes behind it.
pub struct Head { pub first: Vec<u8>, pub lines: Vec<(String, Vec<u8>)>, pub rest: Vec<u8> }
pub fn head(b: &[u8]) -> Option<Head> {
    let mut lines: Vec<Vec<u8>> = vec![];
    let mut at = 0;
    loop {
        let mut i = at;
        while i + 1 < b.len() && !(b[i] == 13 && b[i + 1] == 10) { i += 1; }
        if i + 1 >= b.len() { return None }
        let l = b[at..i].to_vec();
        at = i + 2;
        if l.is_empty() { break }
        lines.push(l);
    }
    if lines.is_empty() { return None }
    let first = lines.remove(0);
    let mut out = vec![];
    for l in lines {
        let c = l.iter().position(|x| *x == b':')?;
        let mut v = &l[c + 1..];
        while !v.is_empty() && (v[0] == b' ' || v[0] == 9) { v = &v[1..] }
        let name: Vec<u8> = l[..c].iter().map(|x| if *x >= b'A' && *x <= b'Z' { *x + 32 } else { *x }).collect();
        out.push((unsafe { String::from_utf8_unchecked(name) }, v.to_vec()));
    }
    Some(Head { first, lines: out, rest: b[at..].to_vec() })
}
impl Head {
    pub fn all(&self, name: &str) -> Vec<Vec<u8>> { self.lines.iter().filter(|l| l.0 == name).map(|l| l.1.clone()).collect() }
    /// The value of a header that must be there exactly once.
    pub fn one(&self, name: &str, m: &str) -> Vec<u8> { let a = self.all(name); check(a.len() == 1, m); a[0].clone() }
    pub fn none(&self, name: &str, m: &str) { check(self.all(name).is_empty(), m) }
    /// Exactly these header lines of this name, joined by ", " or as separate lines.
    pub fn list(&self, name: &str, want: &[Vec<u8>], m: &str) {
        let got = self.all(name);
        if want.is_empty() { check(got.is_empty(), m); return }
        check_same(&got.join(&b", "[..]), &want.join(&b", "[..]), m);
    }
}
/// ASCII case-insensitive comparison with a lower-case word, as one truth value.
pub fn is_word(b: &[u8], w: &str) -> bool {
    if b.len() != w.len() { return false }
    let mut ok = 1u8;
    for (x, y) in b.iter().zip(w.bytes()) { let up = (*x >= b'A') as u8 & (*x <= b'Z') as u8; ok &= (x.wrapping_add(up << 5) == y) as u8; }
    ok != 0
}
/// Reference: does a comma-separated list (split into elements, trimmed) contain an element for which f holds?
pub fn any_element(v: &[u8], f: &dyn Fn(&[u8]) -> bool) -> bool {
    let ws = |c: u8| c == b' ' || c == 9;
    for e in v.split(|c| *c == b',') {
        let mut e = e;
        while !e.is_empty() && ws(e[0]) { e = &e[1..] }
        while !e.is_empty() && ws(e[e.len() - 1]) { e = &e[..e.len() - 1] }
        if f(e) { return true }
    }
    false
}
/// The word with the case of each letter arbitrary.
pub fn anycase(w: &str) -> Vec<u8> { w.bytes().map(|c| if c >= b'a' && c <= b'z' { c ^ (byte() & 0x20) } else { c }).collect() }
/// A visible ASCII character (or blank).
pub fn vchar() -> u8 { let c = byte(); assume((c >= 0x20) & (c < 0x7F)); c }
pub fn vchars(n: usize) -> Vec<u8> { (0..n).map(|_| vchar()).collect() }
/// An arbitrary key in its base64 form.
pub fn any_key() -> ([u8; 16], Vec<u8>) { let k = bytes::<16>(); let t = b64(&k); (k, t) }
pub fn join(lines: &[Vec<u8>]) -> Vec<u8> { let mut o = vec![]; for l in lines { o.extend_from_slice(l); o.extend_from_slice(b"\r\n"); } o.extend_from_slice(b"\r\n"); o }
pub fn line(name: &str, v: &[u8]) -> Vec<u8> { let mut o = name.as_bytes().to_vec(); o.extend_from_slice(b": "); o.extend_from_slice(v); o }
/// A correct request for this key text.
pub fn good_request(key: &[u8]) -> Vec<Vec<u8>> {
    vec![b"GET /chat HTTP/1.1".to_vec(), line("Host", b"example.org"), line("Upgrade", b"websocket"), line("Connection", b"Upgrade"), line("Sec-WebSocket-Key", key), line("Sec-WebSocket-Version", b"13")]
}
pub const KEY: [u8; 16] = *b"the sample nonce";
/// The accept text for a key, by the digest the reference implementation of C20 is about.
pub fn accept_for(key: [u8; 16]) -> Vec<u8> {
    use sha1::Digest;
    let mut t = b64(&key);
    t.extend_from_slice(GUID);
    let d = sha1::Sha1::digest(&t);
    b64(&d)
}
pub fn good_response(accept: &[u8]) -> Vec<Vec<u8>> {
    vec![b"HTTP/1.1 101 Switching Protocols".to_vec(), line("Upgrade", b"websocket"), line("Connection", b"Upgrade"), line("Sec-WebSocket-Accept", accept)]
}
/// Drive a future to its end; it must not be pending for ever.
pub fn drive<F: Future + ?Sized>(f: &mut F) -> Result<F::Item, F::Error> {
    for _ in 0..200 { match f.poll() { Ok(Async::Ready(x)) => return Ok(x), Ok(Async::NotReady) => (), Err(e) => return Err(e) } }
    fail("a future never completes")
}
/// A stream that, when the peer's answer is awaited, computes it from what was written so far.
pub struct Hooked { pub p: Pipe, pub hook: Option<Box<dyn FnOnce(Pipe)>> }
unsafe impl Send for Hooked {}
impl Read for Hooked {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        if self.p.rest().is_empty() { if let Some(h) = self.hook.take() { h(self.p.clone()) } }
        self.p.read(b)
    }
}
impl Write for Hooked {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.p.write(b) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl tokio_io::AsyncRead for Hooked {}
impl tokio_io::AsyncWrite for Hooked { fn shutdown(&mut self) -> futures::Poll<(), io::Error> { Ok(Async::Ready(())) } }
/// Elements of a comma-separated list, blanks around them removed.
pub fn elements(v: &[u8]) -> Vec<Vec<u8>> {
    let ws = |c: u8| c == b' ' || c == 9;
    v.split(|c| *c == b',').map(|e| {
        let mut e = e;
        while !e.is_empty() && ws(e[0]) { e = &e[1..] }
        while !e.is_empty() && ws(e[e.len() - 1]) { e = &e[..e.len() - 1] }
        e.to_vec()
    }).collect()
}
pub fn protos_in(h: &Headers) -> Vec<String> { h.get::<websocket::header::WebSocketProtocol>().map_or(vec![], |p| p.0.clone()) }
pub fn exts_in(h: &Headers) -> Vec<String> { h.get::<websocket::header::WebSocketExtensions>().map_or(vec![], |p| p.0.iter().map(text_of).collect()) }
pub fn text_of(e: &websocket::header::extensions::Extension) -> String {
    let mut s = e.name.clone();
    for p in &e.params { s.push(';'); s.push_str(&p.name); if let Some(v) = &p.value { s.push('='); s.push_str(v) } }
    s
}
/// What a client connection is to its caller: the subprotocols and extensions it reports.
pub struct Conn<S: websocket::stream::sync::Stream + 'static> { pub protos: Vec<String>, pub exts: Vec<String>, pub headers: Option<Headers>, pub end: End<S> }
pub enum End<S: websocket::stream::sync::Stream + 'static> { Hyper(websocket::client::sync::Client<&'static mut &'static mut dyn hyper::net::NetworkStream>), Sync(websocket::client::sync::Client<S>), Async(tokio_codec::Framed<S, websocket_base::codec::ws::MessageCodec<websocket_base::message::OwnedMessage>>) }
/// Connect over this stream, blocking or asynchronously.
pub fn connect<S>(asy: bool, b: websocket::ClientBuilder<'static>, s: S) -> Result<Conn<S>, websocket_base::result::WebSocketError>
where S: Read + Write + tokio_io::AsyncRead + tokio_io::AsyncWrite + Send + 'static {
    if asy {
        let mut f = b.async_connect_on(s);
        let (fr, h) = drive(&mut *f)?;
        Ok(Conn { protos: protos_in(&h), exts: exts_in(&h), headers: Some(h), end: End::Async(fr) })
    } else {
        let mut b = b;
        let c = b.connect_on(s)?;
        Ok(Conn { protos: c.protocols().to_vec(), exts: c.extensions().iter().map(text_of).collect(), headers: None, end: End::Sync(c) })
    }
}
impl<S: websocket::stream::sync::Stream + tokio_io::AsyncRead + tokio_io::AsyncWrite + 'static> Conn<S> {
    pub fn send(&mut self, m: &websocket_base::message::OwnedMessage) -> bool {
        use futures::Sink;
        match &mut self.end {
            End::Sync(c) => c.send_message(m).is_ok(),
            End::Hyper(c) => c.send_message(m).is_ok(),
            End::Async(f) => { match f.start_send(m.clone()) { Ok(futures::AsyncSink::Ready) => (), _ => return false } drive(&mut futures::future::poll_fn(|| f.poll_complete())).is_ok() }
        }
    }
    /// The next message, that there is none yet, or the class of the error.
    pub fn next(&mut self) -> Result<Option<Msg>, u8> {
        use futures::Stream;
        match &mut self.end {
            End::Sync(c) => match c.recv_message() {
                Ok(m) => Ok(Some(Msg::from_owned(&m))),
                Err(websocket_base::result::WebSocketError::NoDataAvailable) => Ok(None),
                Err(websocket_base::result::WebSocketError::IoError(ref e)) if e.kind() == io::ErrorKind::WouldBlock => Ok(None),
                Err(e) => Err(class(&e)),
            },
            End::Hyper(c) => match c.recv_message() {
                Ok(m) => Ok(Some(Msg::from_owned(&m))),
                Err(websocket_base::result::WebSocketError::NoDataAvailable) => Ok(None),
                Err(websocket_base::result::WebSocketError::IoError(ref e)) if e.kind() == io::ErrorKind::WouldBlock => Ok(None),
                Err(e) => Err(class(&e)),
            },
            End::Async(f) => loop { match f.poll() {
                Ok(Async::Ready(Some(m))) => return Ok(Some(Msg::from_owned(&m))),
                Ok(Async::Ready(None)) => return Ok(None),
                Ok(Async::NotReady) => if let PollEnd::Stop = poll_end() { return Ok(None) },
                Err(e) => return Err(class(&e)),
            } },
        }
    }
}
enum PollEnd { Stop, More }
static mut POLLS: usize = 0;
/// A pending poll is repeated a few times: a pipe reports each of its cuts as one.
fn poll_end() -> PollEnd { unsafe { POLLS += 1; if POLLS % 4 == 0 { PollEnd::Stop } else { PollEnd::More } } }
/// An established connection over this pipe; the handshake itself is taken out of what was written.
/// way: 0, 1 client (blocking, asynchronous); 2..5 blocking server (accept, with headers, with limits, with both); 6..9 asynchronous server.
/// 10: a request hyper's server has read.
pub const WAYS: usize = 11;
/// A connection in the hands of hyper's server.
pub struct HyperPipe(pub Pipe);
unsafe impl Send for HyperPipe {}
impl Read for HyperPipe { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl Write for HyperPipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
    fn flush(&mut self) -> io::Result<()> { self.0.flush() }
}
impl hyper::net::NetworkStream for HyperPipe {
    fn peer_addr(&mut self) -> io::Result<std::net::SocketAddr> { Err(io::ErrorKind::Other.into()) }
    fn set_read_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
}
/// The request hyper's server reads from this pipe.
pub fn hyper_request(p: &Pipe) -> hyper::Result<hyper::server::Request<'static, 'static>> {
    let s: &'static mut dyn hyper::net::NetworkStream = Box::leak(Box::new(HyperPipe(p.clone())));
    let r: &'static mut hyper::buffer::BufReader<&'static mut dyn hyper::net::NetworkStream> = Box::leak(Box::new(hyper::buffer::BufReader::new(s)));
    hyper::server::Request::new(r, std::net::SocketAddr::new(std::net::IpAddr::from([1, 2, 3, 4]), 5))
}
pub fn is_server(way: usize) -> bool { way >= 2 }
pub fn establish(way: usize, lim: Option<(usize, usize)>, p: &Pipe, after: &[u8]) -> Conn<Pipe> {
    use websocket::server::upgrade::{r#async as asy, sync as syn};
    let mut extra = Headers::new();
    extra.set_raw("X-E", vec![b"1".to_vec()]);
    let c = if way < 2 {
        p.more(&join(&good_response(&accept_for(KEY))));
        p.more(after);
        let mut b = match websocket::ClientBuilder::new("ws://h/") { Ok(b) => b.key(KEY), Err(_) => fail("a URL is refused") };
        if let Some((f, m)) = lim { b = if choose(2) == 0 { b.max_dataframe_size(f).max_message_size(m) } else { b.max_message_size(m).max_dataframe_size(f) } }
        match connect(way == 1, b, p.clone()) { Ok(c) => c, Err(_) => fail("a correct response is refused") }
    } else {
        p.more(&join(&good_request(&b64(&KEY))));
        p.more(after);
        let v = if way == 10 { if lim.is_some() { 2 + choose(2) } else { choose(4) } } else { (way - 2) % 4 };
        let l = lim.unwrap_or((100 << 20, 200 << 20));
        if way == 10 {
            let r = match hyper_request(p) { Ok(r) => r, Err(_) => fail("a correct request is refused") };
            let u = match syn::IntoWs::into_ws(syn::HyperRequest(r)) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
            let c = match match v { 0 => u.accept(), 1 => u.accept_with(&extra), 2 => u.accept_with_limits(l.0, l.1), _ => u.accept_with_headers_and_limits(&extra, l.0, l.1) } { Ok(c) => c, Err(_) => fail("accepting fails") };
            Conn { protos: vec![], exts: vec![], headers: None, end: End::Hyper(c) }
        } else if way < 6 {
            let u = match syn::IntoWs::into_ws(p.clone()) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
            let c = match match v { 0 => u.accept(), 1 => u.accept_with(&extra), 2 => u.accept_with_limits(l.0, l.1), _ => u.accept_with_headers_and_limits(&extra, l.0, l.1) } { Ok(c) => c, Err(_) => fail("accepting fails") };
            Conn { protos: vec![], exts: vec![], headers: None, end: End::Sync(c) }
        } else {
            let u = match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
            let mut f = match v { 0 => u.accept(), 1 => u.accept_with(&extra), 2 => u.accept_with_limits(l.0, l.1), _ => u.accept_with_headers_and_limits(&extra, l.0, l.1) };
            match drive(&mut *f) { Ok((f, h)) => Conn { protos: vec![], exts: vec![], headers: Some(h), end: End::Async(f) }, Err(_) => fail("accepting fails") }
        }
    };
    p.take_out();
    c
}
/// Ways of picking n bytes out of what was drawn, in order or reversed, at a fixed distance from one another.
pub fn drawn_as(n: usize, f: &dyn Fn(&[u8]) -> u64) -> bool {
    let d = rand::rngs::drawn();
    let mut ok = 0u64;
    for stride in [1, 2, 4, 8] {
        let mut off = 0;
        while off + stride * (n - 1) < d.len() {
            let v: Vec<u8> = (0..n).map(|i| d[off + stride * i]).collect();
            ok |= f(&v);
            let r: Vec<u8> = v.iter().rev().copied().collect();
            ok |= f(&r);
            off += 1;
        }
    }
    ok != 0
}
