//! C33, C34, C35: TCP and TLS set-up, over a kernel that is part of the harness.
//! The socket calls of the standard library end here; `native-tls` and `tokio-tcp` are stand-ins (stubs/).
use crate::http::*;
use crate::sym::*;
use crate::util::*;
use futures::{Async, Future, Sink, Stream};
use hyper::header::Headers;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::net::{SocketAddr, TcpStream};
use websocket::native_tls::{Identity, TlsAcceptor, TlsConnector};
use websocket::ClientBuilder;

// ---- the kernel ----
pub struct Sock { pub addr: Vec<u8>, pub input: Vec<u8>, pub at: usize, pub blocks_at: Option<usize>, pub silent: bool, pub nonblocking: bool, pub out: Vec<u8>, pub opts: Vec<(i32, i32, i32)>, pub shut: Vec<i32>, pub handles: usize, pub listening: bool }
pub enum Incoming { Conn { peer: Vec<u8>, input: Vec<u8>, silent: bool, blocks_at: Option<usize> }, Error(i32) }
#[derive(Default)]
pub struct Kernel {
    pub socks: Vec<Sock>,
    pub fds: Vec<Option<usize>>,
    /// addresses tried by connect, and those that refuse
    pub tried: Vec<Vec<u8>>,
    pub refuse: usize,
    /// what the next peer sends
    pub reply: Vec<u8>,
    pub blocks_at: Option<usize>,
    pub silent: bool,
    /// names looked up and the addresses they have
    pub names: Vec<Vec<u8>>,
    pub answers: Vec<Vec<u8>>,
    pub bound: Vec<Vec<u8>>,
    pub port: u16,
    /// how many of the next binds fail, whether socket operations fail
    pub busy: usize,
    pub broken: bool,
    pub backlog: Vec<Incoming>,
}
thread_local! { pub static K: RefCell<Kernel> = RefCell::new(Kernel::default()); }
fn k<T>(f: impl FnOnce(&mut Kernel) -> T) -> T { K.with(|k| f(&mut k.borrow_mut())) }
const FD0: i32 = 20000;
extern "C" { fn __errno_location() -> *mut i32; }
fn err(e: i32) -> i32 { unsafe { *__errno_location() = e; } -1 }
const EAGAIN: i32 = 11;
const EINTR: i32 = 4;
const EBADF: i32 = 9;
const EINVAL: i32 = 22;
const ECONNREFUSED: i32 = 111;
const ECONNABORTED: i32 = 103;
impl Kernel {
    fn new_fd(&mut self, s: usize) -> i32 { self.socks[s].handles += 1; self.fds.push(Some(s)); FD0 + self.fds.len() as i32 - 1 }
    fn new_sock(&mut self, addr: Vec<u8>) -> usize {
        self.socks.push(Sock { addr, input: vec![], at: 0, blocks_at: None, silent: false, nonblocking: false, out: vec![], opts: vec![], shut: vec![], handles: 0, listening: false });
        self.socks.len() - 1
    }
    fn of(&mut self, fd: i32) -> Option<&mut Sock> { if fd < FD0 { return None } match self.fds.get((fd - FD0) as usize) { Some(Some(i)) => Some(&mut self.socks[*i]), _ => None } }
}
unsafe fn give(p: *mut u8, len: *mut u32, v: &[u8]) { if !p.is_null() { std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len().min(*len as usize)); *len = v.len() as u32; } }
#[no_mangle] pub extern "C" fn socket(_family: i32, ty: i32, _p: i32) -> i32 { check(ty & 15 == 1, "a socket that is no stream"); k(|k| { let s = k.new_sock(vec![]); k.new_fd(s) }) }
#[no_mangle] pub unsafe extern "C" fn connect(fd: i32, a: *const u8, n: u32) -> i32 {
    let a = std::slice::from_raw_parts(a, n as usize).to_vec();
    k(|k| {
        k.tried.push(a.clone());
        if k.refuse > 0 { k.refuse -= 1; return err(ECONNREFUSED) }
        let (r, b, s) = (k.reply.clone(), k.blocks_at, k.silent);
        match k.of(fd) { Some(x) => { x.addr = a; x.input = r; x.blocks_at = b; x.silent = s; 0 } None => err(EBADF) }
    })
}
#[no_mangle] pub unsafe extern "C" fn send(fd: i32, p: *const u8, n: usize, _f: i32) -> isize { k(|k| match k.of(fd) { Some(s) => { s.out.extend_from_slice(std::slice::from_raw_parts(p, n)); n as isize } None => err(EBADF) as isize }) }
#[no_mangle] pub unsafe extern "C" fn recv(fd: i32, p: *mut u8, n: usize, flags: i32) -> isize {
    k(|k| match k.of(fd) {
        Some(s) => {
            if s.blocks_at == Some(s.at) { s.blocks_at = None; return err(EAGAIN) as isize }
            let mut m = n.min(s.input.len() - s.at);
            if m == 0 && s.silent { if !s.nonblocking { fail("a blocking call that never returns") } return err(EAGAIN) as isize }
            if let Some(c) = s.blocks_at { if c > s.at && c - s.at < m { m = c - s.at } }
            std::ptr::copy_nonoverlapping(s.input.as_ptr().add(s.at), p, m);
            if flags & 2 == 0 { s.at += m; }
            m as isize
        }
        None => err(EBADF) as isize,
    })
}
#[no_mangle] pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, v: *const i32, n: u32) -> i32 { let v = if n >= 4 { *v } else { 0 }; k(|k| if k.broken { err(EINVAL) } else { match k.of(fd) { Some(s) => { s.opts.push((level, name, v)); 0 } None => err(EBADF) } }) }
#[no_mangle] pub unsafe extern "C" fn getsockopt(fd: i32, level: i32, name: i32, v: *mut i32, _n: *mut u32) -> i32 { k(|k| match k.of(fd) { Some(s) => { *v = s.opts.iter().rev().find(|o| o.0 == level && o.1 == name).map_or(0, |o| o.2); 0 } None => err(EBADF) }) }
#[no_mangle] pub unsafe extern "C" fn bind(fd: i32, a: *const u8, n: u32) -> i32 { let a = std::slice::from_raw_parts(a, n as usize).to_vec(); k(|k| { k.bound.push(a.clone()); if k.busy > 0 { k.busy -= 1; return err(98) } match k.of(fd) { Some(s) => { s.addr = a; 0 } None => err(EBADF) } }) }
#[no_mangle] pub extern "C" fn listen(fd: i32, _n: i32) -> i32 { k(|k| match k.of(fd) { Some(s) => { s.listening = true; 0 } None => err(EBADF) }) }
#[no_mangle] pub unsafe extern "C" fn accept4(fd: i32, a: *mut u8, n: *mut u32, _f: i32) -> i32 {
    k(|k| {
        let nb = match k.of(fd) { Some(s) => { check(s.listening, "accepting on a socket that does not listen"); s.nonblocking } None => return err(EBADF) };
        if k.backlog.is_empty() { if !nb { fail("a blocking call that never returns") } return err(EAGAIN) }
        match k.backlog.remove(0) {
            Incoming::Error(e) => err(e),
            Incoming::Conn { peer, input, silent, blocks_at } => {
                give(a, n, &peer);
                let s = k.new_sock(peer);
                k.socks[s].input = input;
                k.socks[s].silent = silent;
                k.socks[s].blocks_at = blocks_at;
                k.new_fd(s)
            }
        }
    })
}
#[no_mangle] pub unsafe extern "C" fn getsockname(fd: i32, a: *mut u8, n: *mut u32) -> i32 {
    k(|k| { if k.broken { return err(EINVAL) } let port = k.port; match k.of(fd) { Some(s) => { let mut v = if s.listening { s.addr.clone() } else { vec![2, 0, 0, 0, 9, 8, 7, 6, 0, 0, 0, 0, 0, 0, 0, 0] }; if (v[2] as u16) << 8 | v[3] as u16 == 0 { v[2] = (port >> 8) as u8; v[3] = port as u8; } give(a, n, &v); 0 } None => err(EBADF) } })
}
#[no_mangle] pub unsafe extern "C" fn getpeername(fd: i32, a: *mut u8, n: *mut u32) -> i32 { k(|k| if k.broken { err(EINVAL) } else { match k.of(fd) { Some(s) => { let v = s.addr.clone(); give(a, n, &v); 0 } None => err(EBADF) } }) }
#[no_mangle] pub extern "C" fn shutdown(fd: i32, how: i32) -> i32 { k(|k| if k.broken { err(EINVAL) } else { match k.of(fd) { Some(s) => { s.shut.push(how); 0 } None => err(EBADF) } }) }
#[no_mangle] pub unsafe extern "C" fn ioctl(fd: i32, req: u64, v: *mut i32) -> i32 {
    if fd < FD0 { return err(25) }
    check(req == 0x5421, "an ioctl other than FIONBIO");
    let on = *v != 0;
    k(|k| if k.broken { err(EINVAL) } else { match k.of(fd) { Some(s) => { s.nonblocking = on; 0 } None => err(EBADF) } })
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if fd < FD0 { return native_syscall(72, fd as usize, cmd as usize, arg) }
    match cmd {
        0 | 1030 => k(|k| { let i = match k.fds.get((fd - FD0) as usize) { Some(Some(i)) => *i, _ => return err(EBADF) }; k.new_fd(i) }),
        1 => 1,
        3 => k(|k| match k.of(fd) { Some(s) => 2 | if s.nonblocking { 0o4000 } else { 0 }, None => err(EBADF) }),
        4 => k(|k| match k.of(fd) { Some(s) => { s.nonblocking = arg & 0o4000 != 0; 0 } None => err(EBADF) }),
        _ => 0,
    }
}
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd < FD0 { return native_syscall(3, fd as usize, 0, 0) }
    // thread-local state is gone while a thread ends
    K.try_with(|k| { let mut k = k.borrow_mut(); let x = (fd - FD0) as usize; match k.fds.get(x).copied() { Some(Some(i)) => { k.fds[x] = None; k.socks[i].handles -= 1; 0 } _ => err(EBADF) } }).unwrap_or(0)
}
#[cfg(feature = "native")]
unsafe fn native_syscall(n: i64, a: usize, b: usize, c: usize) -> i32 { extern "C" { fn syscall(n: i64, ...) -> i64; } syscall(n, a, b, c) as i32 }
#[cfg(not(feature = "native"))]
unsafe fn native_syscall(_n: i64, _a: usize, _b: usize, _c: usize) -> i32 { fail("a call on a file that is no socket") }
#[repr(C)]
pub struct AddrInfo { flags: i32, family: i32, socktype: i32, protocol: i32, len: u32, addr: *mut u8, name: *mut u8, next: *mut AddrInfo }
#[no_mangle] pub unsafe extern "C" fn getaddrinfo(node: *const u8, _service: *const u8, _hints: *const u8, res: *mut *mut AddrInfo) -> i32 {
    let mut n = vec![];
    let mut p = node;
    while *p != 0 { n.push(*p); p = p.add(1); }
    k(|k| {
        k.names.push(n);
        let mut next: *mut AddrInfo = std::ptr::null_mut();
        for a in k.answers.iter().rev() {
            // an address structure is at least as large and aligned as the largest one
            let b = Box::leak(Box::new([0u64; 16])).as_mut_ptr() as *mut u8;
            std::ptr::copy_nonoverlapping(a.as_ptr(), b, a.len());
            next = Box::leak(Box::new(AddrInfo { flags: 0, family: a[0] as i32, socktype: 1, protocol: 6, len: a.len() as u32, addr: b, name: std::ptr::null_mut(), next }));
        }
        *res = next;
        if k.answers.is_empty() { -2 } else { 0 }
    })
}
#[no_mangle] pub extern "C" fn freeaddrinfo(_p: *mut AddrInfo) {}
#[no_mangle] pub extern "C" fn gai_strerror(_e: i32) -> *const u8 { b"no such name\0".as_ptr() }
#[no_mangle] pub extern "C" fn gnu_get_libc_version() -> *const u8 { b"2.39\0".as_ptr() }
#[cfg(feature = "native")]
#[used] static KEEP: (unsafe extern "C" fn(i32, *const u8, u32) -> i32, unsafe extern "C" fn(i32) -> i32, unsafe extern "C" fn(*const u8, *const u8, *const u8, *mut *mut AddrInfo) -> i32) = (connect, close, getaddrinfo);

fn v4(ip: [u8; 4], port: [u8; 2]) -> Vec<u8> { vec![2, 0, port[0], port[1], ip[0], ip[1], ip[2], ip[3], 0, 0, 0, 0, 0, 0, 0, 0] }
fn v6(ip: [u8; 16], port: [u8; 2]) -> Vec<u8> { let mut v = vec![10, 0, port[0], port[1], 0, 0, 0, 0]; v.extend_from_slice(&ip); v.extend_from_slice(&[0; 4]); v }
fn reset() { k(|k| *k = Kernel::default()) }
fn tls(b: &[u8]) -> Vec<u8> { b.iter().map(|x| *x ^ 0x5A).collect() }
/// What a client connection must have written: over TLS the hello and then nothing outside it.
fn inside(out: &[u8], secure: bool, flags: u8, domain: &[u8]) -> Vec<u8> {
    if !secure { check(out.is_empty() || out[0] != 0x16, "TLS is spoken on a plain connection"); return out.to_vec() }
    let n = domain.len();
    check(out.len() >= 3 + n, "no TLS handshake");
    check(out[0] == 0x16, "no TLS handshake");
    check(out[1] == flags, "the TLS settings are not those asked for");
    check(out[2] as usize == n, "the certificate is checked for another name");
    check_same(&out[3..3 + n], domain, "the certificate is checked for another name");
    tls(&out[3 + n..])
}
struct Talk { got: Option<Msg>, sent: bool }
fn talk<S: websocket::stream::sync::Stream>(mut c: websocket::client::sync::Client<S>, m: &Msg) -> Talk {
    let got = match c.recv_message() { Ok(m) => Some(Msg::from_owned(&m)), Err(_) => None };
    let sent = c.send_message(&m.owned()).is_ok();
    Talk { got, sent }
}
fn talk_async<S: tokio_io::AsyncRead + tokio_io::AsyncWrite + Send + 'static>(f: tokio_codec::Framed<S, websocket_base::codec::ws::MessageCodec<websocket_base::message::OwnedMessage>>, m: &Msg) -> Talk {
    let (got, f) = match drive(&mut f.into_future()) { Ok(x) => x, Err(_) => fail("receiving fails") };
    let sent = drive(&mut f.send(m.owned())).is_ok();
    Talk { got: got.map(|m| Msg::from_owned(&m)), sent }
}
/// The one frame with this message, masked or not.
fn check_frame(w: &[u8], m: &Msg, masked: bool) {
    let s = match peel(w) { Some(s) => s, None => fail("the message is not sent") };
    check(s.used == w.len(), "something follows the message sent");
    check(s.masked == masked, "the message sent has the wrong form");
    check(s.b0 == 0x80 | m.kind, "another message is sent");
    check_same(&s.data, &m.payload(), "another message is sent");
}
const SCHEMES: [&str; 4] = ["ws", "wss", "http", "https"];
/// A URL, and what it means: its authority, the name to look up (or the address itself), the port.
struct Target { url: String, name: Option<Vec<u8>>, tls_name: Vec<u8>, addr: Option<Vec<u8>>, port: [u8; 2], default: bool }
fn target(scheme: usize, host: usize) -> Target {
    let (mut port, mut text, mut default) = ([0u8; 2], String::new(), false);
    match choose(4) {
        0 => { default = true; let p = [80u16, 443][scheme & 1]; port = [(p >> 8) as u8, p as u8]; }
        1 => { text = ":80".into(); port = [0, 80]; }
        2 => { text = ":443".into(); port = [1, 187]; }
        _ => {
            // four digits
            let d: Vec<u8> = (0..4).map(|_| { let c = byte(); assume((c >= b'0') & (c <= b'9')); c }).collect();
            assume(d[0] != b'0');
            let p = d.iter().fold(0u16, |a, c| a.wrapping_mul(10).wrapping_add((*c - b'0') as u16));
            port = [(p >> 8) as u8, p as u8];
            text = unsafe { String::from_utf8_unchecked([b":".to_vec(), d].concat()) };
        }
    }
    let (h, name, tls_name, addr): (String, Option<Vec<u8>>, Vec<u8>, Option<Vec<u8>>) = match host {
        0 => { let (u, n): (&str, &[u8]) = [("host.example", &b"host.example"[..]), ("WWW.Example-2.ORG", b"www.example-2.org"), ("localhost", b"localhost")][choose(3)]; (u.into(), Some(n.to_vec()), n.to_vec(), None) }
        1 => ("10.1.2.3".into(), None, b"10.1.2.3".to_vec(), Some(v4([10, 1, 2, 3], port))),
        _ => ("[2001:db8::1]".into(), None, b"2001:db8::1".to_vec(), Some(v6([0x20, 1, 0x0d, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], port))),
    };
    Target { url: format!("{}://{}{}/x", SCHEMES[scheme], h, text), name, tls_name, addr, port, default }
}
fn builder(url: &str) -> ClientBuilder<'static> { match ClientBuilder::new(url) { Ok(b) => b.key(KEY), Err(_) => fail("a URL is refused") } }
fn connector() -> TlsConnector { match TlsConnector::builder().danger_accept_invalid_certs(true).use_sni(false).build() { Ok(c) => c, Err(_) => fail("no connector") } }
/// Set up a connection with this interface and exchange a message each way.
fn open(api: usize, url: &str, own: bool, m: &Msg) -> Result<Talk, ()> {
    let b = builder(url);
    let c = if own { Some(connector()) } else { None };
    let no = |_| ();
    Ok(match api {
        0 => talk({ let mut b = b; b.connect(c).map_err(no)? }, m),
        1 => talk({ let mut b = b; b.connect_insecure().map_err(no)? }, m),
        2 => talk({ let mut b = b; b.connect_secure(c).map_err(no)? }, m),
        3 => talk_async(drive(&mut *b.async_connect(c)).map_err(no)?.0, m),
        4 => talk_async(drive(&mut *b.async_connect_insecure()).map_err(no)?.0, m),
        _ => talk_async(drive(&mut *b.async_connect_secure(c)).map_err(no)?.0, m),
    })
}
fn expect_tls(api: usize, scheme: usize) -> bool { match api % 3 { 0 => scheme & 1 == 1, 1 => false, _ => true } }

// ---- servers ----
use websocket::r#async::server as aserver;
use websocket::server::upgrade::HyperIntoWsError;
use websocket::server::InvalidConnection;
use websocket::sync::server as sserver;
use websocket::sync::stream::{AsTcpStream, NetworkStream};
fn acceptor() -> TlsAcceptor { match Identity::from_pkcs12(b"x", "y").and_then(TlsAcceptor::new) { Ok(a) => a, Err(_) => fail("no acceptor") } }
fn handle() -> aserver::Handle { aserver::Handle::default() }
/// Any address, as std has it and as the kernel does.
fn any_addr(six: bool) -> (SocketAddr, Vec<u8>) {
    let p = bytes::<2>();
    let port = (p[0] as u16) << 8 | p[1] as u16;
    if six { let a = bytes::<16>(); (SocketAddr::new(std::net::IpAddr::from(a), port), v6(a, p)) } else { let a = bytes::<4>(); (SocketAddr::new(std::net::IpAddr::from(a), port), v4(a, p)) }
}
fn same_addr(a: &SocketAddr, raw: &[u8], m: &str) {
    check_same(&[(a.port() >> 8) as u8, a.port() as u8], &raw[2..4], m);
    match a.ip() { std::net::IpAddr::V4(i) => { check(raw[0] == 2, m); check_same(&i.octets(), &raw[4..8], m) } std::net::IpAddr::V6(i) => { check(raw[0] == 10, m); check_same(&i.octets(), &raw[8..24], m) } }
}
enum Listening { Sync(sserver::Server<websocket::server::NoTlsAcceptor>), SyncTls(sserver::Server<TlsAcceptor>), Async(aserver::Server<websocket::server::NoTlsAcceptor>), AsyncTls(aserver::Server<TlsAcceptor>) }
fn bind_with(api: usize, a: &[SocketAddr]) -> io::Result<Listening> {
    use Listening::*;
    Ok(match api {
        0 => Sync(sserver::Server::bind(a)?),
        1 => SyncTls(sserver::Server::bind_secure(a, acceptor())?),
        2 => Async(aserver::Server::bind(a, &handle())?),
        3 => AsyncTls(aserver::Server::bind_secure(a, acceptor(), &handle())?),
        4 => Async(sserver::Server::bind(a)?.into_async(&handle())?),
        5 => AsyncTls(sserver::Server::bind_secure(a, acceptor())?.into_async(&handle())?),
        _ => Sync(sserver::Server::bind(a)?.try_clone()?),
    })
}
fn closed(m: &str) { k(|k| for s in &k.socks { check(s.handles == 0, m) }) }
/// What a connection is: 0 a good client that sends this message at once, 1 an error instead of one, 2 the request cut off,
/// 3 a plain HTTP request, 4 something else, 5 no TLS, 6 silence, 7 the start of a request and then silence, 8 the end of it later.
struct Peer { kind: usize, raw: Vec<u8>, m: Msg }
fn peer(kind: usize, i: usize, secure: bool) -> Peer {
    let raw = v4(if i > 8 { [127, 0, 0, i as u8] } else { bytes() }, [3 + (0xE0 + i >> 8) as u8, (0xE0 + i) as u8]);
    let m = Msg { kind: 2, code: None, data: if kind == 0 || kind == 8 { vec(2) } else { vec![] } };
    let good = [join(&good_request(&b64(&KEY))), wire(0x82, &m.data, Some(if kind == 0 { bytes() } else { [1, 2, 3, 4] }))].concat();
    let hello = if secure { vec![0x16, 0, 1, b'h'] } else { vec![] };
    let mut silent = false;
    let mut blocks_at = None;
    let text = match kind {
        0 => good,
        2 => { let n = [0, 1, good.len() - 12][choose(3)]; good[..n].to_vec() }
        3 => { let mut b = b"GET /plain HTTP/1.1\r\nHost: h\r\nX-A: ".to_vec(); b.push(ascii(1)[0] & 0x3F | 0x40); let n = b.len(); assume(b[n - 1] < 0x7F); b.extend_from_slice(b"\r\n\r\n"); b }
        4 => vec![1, 13, 10, 13, 10],
        6 => { silent = true; vec![] }
        7 => { silent = true; good[..30].to_vec() }
        8 => { blocks_at = Some([0, 40 + hello.len(), 1][choose(3)]); good }
        _ => b"GET / HTTP/1.1\r\n\r\n".to_vec(),
    };
    let input = if !secure || kind == 5 { text } else { [hello, tls(&text)].concat() };
    let c = if kind == 1 { Incoming::Error([ECONNABORTED, 24, EINVAL][choose(3)]) } else { Incoming::Conn { peer: raw.clone(), input, silent, blocks_at } };
    k(|k| k.backlog.push(c));
    Peer { kind, raw, m }
}
/// What was written to this connection, without TLS.
fn written(raw: &[u8], secure: bool) -> Vec<u8> {
    k(|k| {
        let s = match k.socks.iter().find(|s| s.addr.len() == 16 && s.addr[2..4] == raw[2..4] && !s.listening) { Some(s) => s, None => fail("no such connection") };
        if !secure { return s.out.clone() }
        if s.out.is_empty() { return vec![] }
        check(s.out[0] == 0x17, "something is sent outside TLS");
        tls(&s.out[1..])
    })
}
fn answered(p: &Peer, secure: bool, back: &Msg) {
    let w = written(&p.raw, secure);
    let h = match head(&w) { Some(h) => h, None => fail("no response is sent") };
    check(h.first.starts_with(b"HTTP/1.1 101"), "another response is sent");
    check_frame(&h.rest, back, false);
}
fn judge_sync<S: NetworkStream + websocket::stream::sync::Stream>(p: &Peer, r: sserver::AcceptResult<S>, secure: bool) {
    match r {
        Ok(u) => {
            check(p.kind == 0, "a connection that did not ask for WebSocket is accepted");
            match u.tcp_stream().peer_addr() { Ok(a) => same_addr(&a, &p.raw, "the connection is another one"), Err(_) => fail("no address") }
            let mut c = match u.accept() { Ok(c) => c, Err(_) => fail("accepting fails") };
            match c.recv_message() { Ok(m) => Msg::from_owned(&m).check(&p.m, "another message is received"), Err(_) => fail("receiving fails") }
            let back = Msg { kind: 1, code: None, data: b"yo".to_vec() };
            check(c.send_message(&back.owned()).is_ok(), "sending fails");
            answered(p, secure, &back);
            cover("accepted");
        }
        Err(InvalidConnection { stream, parsed, error, .. }) => refused(p, secure, stream.map(|mut s| { let a = s.as_tcp().peer_addr(); let _ = s.write_all(b"no"); a }), parsed, error),
    }
}
fn refused(p: &Peer, secure: bool, stream: Option<io::Result<SocketAddr>>, parsed: Option<websocket::server::upgrade::Request>, error: HyperIntoWsError) {
    check(p.kind != 0 && p.kind != 8, "a good client is refused");
    check(p.kind != 6 && p.kind != 7, "a client is refused although it has not finished");
    match p.kind {
        1 => { check(stream.is_none() && parsed.is_none(), "a connection out of nothing"); check(matches!(error, HyperIntoWsError::Io(_)), "another error is reported"); }
        5 => { check(parsed.is_none(), "a request out of nothing"); check(matches!(error, HyperIntoWsError::Io(_)), "another error is reported"); }
        _ => {
            // the caller can go on with the connection, and sees the request if it is one
            match stream { Some(Ok(a)) => same_addr(&a, &p.raw, "another connection is handed back"), _ => fail("the connection is not handed back") }
            check_same(&written(&p.raw, secure), b"no", "something is sent to a client that was not accepted");
            check(parsed.is_some() == (p.kind == 3), "the request is not handed back");
            if let Some(r) = parsed { check(r.subject.1.to_string() == "/plain", "another request is handed back"); check(r.headers.get_raw("X-A").is_some(), "another request is handed back"); }
        }
    }
    cover("refused");
}
struct Nothing;
impl futures::executor::Notify for Nothing { fn notify(&self, _: usize) {} }
/// Everything that comes in, until nothing more does.
fn all_incoming<S: 'static>(s: aserver::Incoming<S>, peers: &[Peer], secure: bool, addr: fn(&S) -> io::Result<SocketAddr>) -> usize
where S: tokio_io::AsyncRead + tokio_io::AsyncWrite + Send {
    let mut s = futures::executor::spawn(s);
    let n = std::sync::Arc::new(Nothing);
    let mut seen = vec![false; peers.len()];
    let (mut idle, mut lost, mut got) = (0, 0, 0);
    for _ in 0..60 + peers.len() {
        match s.poll_stream_notify(&n, 0) {
            Ok(Async::NotReady) => { idle += 1; if idle > 4 { break } tokio_tcp::wake_all(); continue }
            Ok(Async::Ready(None)) => fail("the server stops taking connections"),
            Ok(Async::Ready(Some((u, a)))) => {
                let i = match peers.iter().position(|p| p.raw[3] == a.port() as u8 && p.raw[2] == (a.port() >> 8) as u8) { Some(i) => i, None => fail("a connection from nowhere") };
                let p = &peers[i];
                same_addr(&a, &p.raw, "another address is reported");
                check(!seen[i], "a connection is reported twice");
                seen[i] = true;
                check(p.kind == 0 || p.kind == 8, "a connection that did not ask for WebSocket is accepted");
                let f = match drive(&mut *u.accept()) { Ok((f, _)) => f, Err(_) => fail("accepting fails") };
                let back = Msg { kind: 1, code: None, data: b"yo".to_vec() };
                let t = talk_async(f, &back);
                check(t.sent, "sending fails");
                match t.got { Some(g) => g.check(&p.m, "another message is received"), None => fail("receiving fails") }
                answered(p, secure, &back);
                cover("accepted");
            }
            Err(InvalidConnection { stream, parsed, error, .. }) => match stream {
                None => { lost += 1; check(parsed.is_none() && matches!(error, HyperIntoWsError::Io(_)), "another error is reported") }
                Some(mut s) => {
                    let a = match addr(&s) { Ok(a) => a, Err(_) => fail("no address") };
                    let i = match peers.iter().position(|p| p.raw[3] == a.port() as u8 && p.raw[2] == (a.port() >> 8) as u8) { Some(i) => i, None => fail("a connection from nowhere") };
                    check(!seen[i], "a connection is reported twice");
                    seen[i] = true;
                    check(peers[i].kind != 5, "a connection without TLS");
                    let _ = s.write_all(b"no");
                    refused(&peers[i], secure, Some(Ok(a)), parsed, error);
                }
            },
        }
        idle = 0;
        got += 1;
    }
    for (i, p) in peers.iter().enumerate() { check(seen[i] == !matches!(p.kind, 1 | 5 | 6 | 7), "a connection is never reported") }
    check(lost == peers.iter().filter(|p| matches!(p.kind, 1 | 5)).count(), "a failed connection is never reported, or more often than it happened");
    got
}
fn own(me: usize) -> usize { k(|k| { let mut n = 0; for (i, s) in k.socks.iter().enumerate() { if !s.listening { if n == me { return i } n += 1 } } fail("no such connection") }) }
/// What happened to the sockets: nothing but this, to this connection's own.
fn only(me: usize, nodelay: bool, nonblocking: bool, shut: u8) {
    let o = own(me);
    k(|k| for (i, s) in k.socks.iter().enumerate() {
        if s.listening { continue }
        let mine = i == o;
        let gone = s.shut.iter().fold(0, |a, h| a | [1, 2, 3][*h as usize]);
        check(gone == if mine { shut } else { 0 }, "another part of a connection, or another connection, is shut down");
        check(s.nonblocking == (mine && nonblocking), "a connection is made non-blocking, or not");
        check(s.opts.iter().all(|o| o.0 != 6 || o.1 == 1), "other options are set");
        let delay = s.opts.iter().rev().find(|o| o.0 == 6).map_or(0, |o| o.2);
        check((delay != 0) == (mine && nodelay), "the delay is not as set last");
    });
}
fn operate<S: NetworkStream + websocket::stream::sync::Stream>(c: &mut websocket::client::sync::Client<S>, first: usize, raw: &[u8], me: usize) {
    let (mut nodelay, mut nonblocking, mut shut) = (false, false, 0);
    for i in 0..param(2) {
        let op = if i == 0 { first } else { choose(5) };
        let broken = choose(2) == 1;
        k(|k| k.broken = broken);
        let on = (op == 2 || op == 3) && choose(2) == 1;
        let r = match op {
            0 => c.peer_addr().map(|a| same_addr(&a, raw, "another address is reported")),
            1 => c.local_addr().map(|a| { let p = k(|k| k.port); same_addr(&a, &v4([9, 8, 7, 6], [(p >> 8) as u8, p as u8]), "another address is reported") }),
            2 => c.set_nodelay(on),
            3 => c.set_nonblocking(on),
            _ => c.shutdown(),
        };
        k(|k| k.broken = false);
        check(r.is_ok() == !broken, "an operation succeeds although it failed, or fails although it did not");
        if broken { cover("failure reported") } else { match op { 2 => nodelay = on, 3 => nonblocking = on, 4 => shut = 3, _ => () } }
        only(me, nodelay, nonblocking, shut);
    }
}
fn halves(mut cs: Vec<websocket::client::sync::Client<TcpStream>>, first: usize, me: usize, m: &Msg) {
    let mut all = 0;
    let mut go = |f: &dyn Fn() -> io::Result<()>, shut: u8| {
        let broken = choose(2) == 1;
        k(|k| k.broken = broken);
        check(f().is_ok() == !broken, "an operation succeeds although it failed, or fails although it did not");
        k(|k| k.broken = false);
        if broken { cover("failure reported") } else { all |= shut }
        only(me, false, false, all);
    };
    if first < 7 {
        let c = &cs[me];
        for i in 0..param(2) { if (if i == 0 { first } else { 5 + choose(2) }) == 5 { go(&|| c.shutdown_sender(), 2) } else { go(&|| c.shutdown_receiver(), 1) } }
        return
    }
    let c = cs.remove(me);
    let server = k(|k| k.socks.iter().any(|s| s.listening));
    let (mut r, mut w) = match c.split() { Ok(x) => x, Err(_) => fail("splitting fails") };
    if first < 11 {
        for i in 0..param(2) {
            match if i == 0 { first } else { 7 + choose(4) } {
                7 => go(&|| r.shutdown(), 1),
                8 => go(&|| r.shutdown_all(), 3),
                9 => go(&|| w.shutdown(), 2),
                _ => go(&|| w.shutdown_all(), 3),
            }
        }
        return
    }
    let o = own(me);
            k(|k| k.socks[o].out.clear());
            let back = Msg { kind: 1, code: None, data: b"yo".to_vec() };
            check(w.send_message(&back.owned()).is_ok(), "sending fails");
            match r.recv_message() { Ok(g) => Msg::from_owned(&g).check(m, "another message is received"), Err(_) => fail("receiving fails") }
            let out = k(|k| k.socks[o].out.clone());
            check_frame(&out, &back, !server);
            if choose(2) == 1 { drop(r); check(w.send_message(&back.owned()).is_ok(), "the writer dies with the reader") } else { drop(w); check(r.recv_message().is_err(), "a message out of nothing") }
            only(me, false, false, 0);
}

harnesses! {
fn c33_client() {
    // param 0: interface, 1: scheme, 2: kind of host
    let (api, scheme, host) = (param(0), param(1), param(2));
    reset();
    let t = target(scheme, host);
    let secure = expect_tls(api, scheme);
    let own = secure && choose(2) == 1;
    let (a, b) = (bytes::<4>(), bytes::<16>());
    let ans = if host == 0 { choose(3) } else { 0 };
    let m = Msg { kind: 1, code: None, data: ascii(2) };
    let back = Msg { kind: 2, code: None, data: vec(2) };
    let plain = [join(&good_response(&accept_for(KEY))), wire(0x82, &back.data, None)].concat();
    k(|k| {
        k.answers = match ans { 0 => vec![v4(a, [0; 2])], 1 => vec![v6(b, [0; 2]), v4(a, [0; 2])], _ => vec![v4(a, [0; 2]), v6(b, [0; 2])] };
        if ans == 2 && api < 3 { k.refuse = 1; }
        k.reply = if secure { [vec![0x17], tls(&plain)].concat() } else { plain };
        if api >= 3 { k.blocks_at = [None, Some(0), Some(1), Some(40)][choose(4)]; }
    });
    let r = match open(api, &t.url, own, &m) { Ok(r) => r, Err(_) => fail("a connection cannot be made") };
    check(r.sent, "sending fails");
    match r.got { Some(g) => g.check(&back, "another message is received"), None => fail("receiving fails") }
    k(|k| {
        // the name looked up is the URL's host
        match &t.name { None => check(k.names.is_empty(), "an address is looked up"), Some(n) => { check(k.names.len() == 1, "another name is looked up"); check_same(&k.names[0], n, "another name is looked up") } }
        // the address connected to is that of the host, with the URL's port
        let want: Vec<Vec<u8>> = match &t.addr { Some(a) => vec![a.clone()], None => match ans { 0 => vec![v4(a, t.port)], 1 => vec![v6(b, t.port)], _ => if api < 3 { vec![v4(a, t.port), v6(b, t.port)] } else { vec![v4(a, t.port)] } } };
        check(k.tried.len() == want.len(), "another address is connected to");
        // an explicit choice of TLS for a URL without a port is left open
        let open = t.default && api % 3 != 0 && secure != (scheme & 1 == 1);
        if !open { for (x, y) in k.tried.iter().zip(&want) { check_same(x, y, "another address is connected to") } }
        let s = k.socks.last().unwrap();
        let w = inside(&s.out, secure, if own { 5 } else { 0 }, &t.tls_name);
        let h = match head(&w) { Some(h) => h, None => fail("the request is not complete") };
        check(h.first == b"GET /x HTTP/1.1", "another request is sent");
        check_frame(&h.rest, &m, true);
    });
    cover("connected");
    if secure { cover("over TLS") }
    if own { cover("with the caller's settings") }
}
fn c33_failure() {
    // nothing is sent outside TLS, whatever the peer answers; nothing at all without a connection: param 0: interface, 1: what fails
    let (api, what) = (param(0), param(1));
    reset();
    let secure = expect_tls(api, 1);
    k(|k| {
        k.answers = vec![v4([1, 2, 3, 4], [0; 2])];
        k.silent = false;
        match what {
            0 => k.refuse = 9,
            1 => { let g = byte(); assume(g != 0x17); k.reply = [vec![g], join(&good_response(&accept_for(KEY)))].concat(); }
            2 => k.reply = vec![],
            _ => k.answers = vec![],
        }
        if api >= 3 { k.blocks_at = [None, Some(0)][choose(2)]; }
    });
    if what == 1 && !secure { return }
    let m = Msg { kind: 1, code: None, data: b"x".to_vec() };
    check(open(api, "wss://h/x", choose(2) == 1, &m).is_err(), "a connection although its set-up failed");
    k(|k| for s in &k.socks {
        check(s.handles == 0, "a failed connection is kept open");
        if what == 0 || what == 3 { check(s.out.is_empty(), "something is sent without a connection") }
        else if secure { check(s.out.len() == 4 && s.out[0] == 0x16 && s.out[3] == b'h', "something is sent outside TLS") }
    });
    cover("failed");
}
fn c34_bind() {
    // param 0: interface
    reset();
    let api = param(0);
    let ((a, ra), (b, rb)) = (any_addr(choose(2) == 1), any_addr(false));
    let busy = choose(3);
    let port = u16v();
    k(|k| { k.busy = busy; k.port = port; });
    let r = bind_with(api, &[a, b]);
    k(|k| {
        check(k.bound.len() == 1 + (busy > 0) as usize, "another address is bound");
        check_same(&k.bound[0], &ra, "another address is bound");
        if busy > 0 { check_same(&k.bound[1], &rb, "another address is bound") }
    });
    match r {
        Err(_) => { check(busy == 2, "a free address is refused"); cover("busy") }
        Ok(l) => {
            check(busy < 2, "a server without an address");
            k(|k| { let n = k.socks.len(); check(k.socks[n - 1].listening, "the socket does not listen") });
            let at = match &l { Listening::Sync(s) => s.local_addr(), Listening::SyncTls(s) => s.local_addr(), Listening::Async(s) => s.local_addr(), Listening::AsyncTls(s) => s.local_addr() };
            let mut want = if busy == 1 { rb } else { ra };
            if want[2] | want[3] == 0 { want[2] = (port >> 8) as u8; want[3] = port as u8; cover("any port"); }
            match at { Ok(at) => same_addr(&at, &want, "another address is reported"), Err(_) => fail("no address is reported") }
            cover("bound");
        }
    }
    closed("the socket stays open");
}
fn c34_accept() {
    // a blocking server takes one connection after the other: param 0: TLS, 1: as an iterator, 2: how many
    reset();
    let (secure, iter, n) = (param(0) == 1, param(1) == 1, param(2));
    let a = match "[::]:7".parse() { Ok(a) => a, Err(_) => return };
    let mut l = match bind_with([0, 1][secure as usize], &[a]) { Ok(l) => l, Err(_) => fail("binding fails") };
    let nb = choose(2) == 1;
    if nb { check(match &l { Listening::Sync(s) => s.set_nonblocking(true), Listening::SyncTls(s) => s.set_nonblocking(true), _ => return }.is_ok(), "a setting fails") }
    k(|k| { let n = k.socks.len(); check(k.socks[n - 1].nonblocking == nb, "the server does not take its setting") });
    let kinds: &[usize] = if secure { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 2, 3, 4] };
    for i in 0..n {
        let p = peer(kinds[choose(kinds.len())], i, secure);
        match &mut l {
            Listening::Sync(s) => { let r = if iter { match s.next() { Some(r) => r, None => fail("the server stops taking connections") } } else { s.accept() }; judge_sync(&p, r, secure) }
            Listening::SyncTls(s) => { let r = if iter { match s.next() { Some(r) => r, None => fail("the server stops taking connections") } } else { s.accept() }; judge_sync(&p, r, secure) }
            _ => return,
        }
        k(|k| for s in &k.socks { check(s.listening || s.handles == 0, "a connection stays open") });
    }
    if nb {
        // nobody is there
        let e = match &mut l { Listening::Sync(s) => match s.accept() { Ok(_) => fail("a connection out of nothing"), Err(e) => e.error }, Listening::SyncTls(s) => match s.accept() { Ok(_) => fail("a connection out of nothing"), Err(e) => e.error }, _ => return };
        check(matches!(&e, HyperIntoWsError::Io(e) if e.kind() == io::ErrorKind::WouldBlock), "another error is reported");
        cover("nobody");
    }
    drop(l);
    closed("the socket stays open");
}
fn c34_crowd() {
    // many connections: param 0: TLS, 1: 0 a blocking server, 1 an asynchronous one, 2: how many, 3: kind of most of them; one of another kind among or behind them
    reset();
    let (secure, asy, n, kind) = (param(0) == 1, param(1) == 1, param(2), param(3));
    let a = match "0.0.0.0:7".parse() { Ok(a) => a, Err(_) => return };
    let l = match bind_with(if asy { [2, 3] } else { [0, 1] }[secure as usize], &[a]) { Ok(l) => l, Err(_) => fail("binding fails") };
    let at = [n - 1, n / 2][choose(2)];
    let other = if kind == 0 { [2, 3][choose(2)] } else { 0 };
    let one = |i: usize| peer(if i == at { other } else { kind }, i, secure);
    if asy {
        let peers: Vec<Peer> = (0..n).map(one).collect();
        let got = match l {
            Listening::Async(s) => all_incoming(s.incoming(), &peers, secure, |s| s.peer_addr()),
            Listening::AsyncTls(s) => all_incoming(s.incoming(), &peers, secure, |s| s.get_ref().get_ref().peer_addr()),
            _ => return,
        };
        log(got as u64);
    } else {
        let mut l = l;
        for i in 0..n {
            let p = one(i);
            match &mut l { Listening::Sync(s) => { let r = s.accept(); judge_sync(&p, r, secure) } Listening::SyncTls(s) => { let r = s.accept(); judge_sync(&p, r, secure) } _ => return }
            k(|k| for s in &k.socks { check(s.listening || s.handles == 0, "a connection stays open") });
        }
    }
    closed("a connection stays open");
    cover("crowd");
}
fn c34_clone() {
    // a cloned server takes connections from the same socket, and outlives the first
    reset();
    let (a, ra) = any_addr(false);
    let mut s = match sserver::Server::bind(&[a][..]) { Ok(s) => s, Err(_) => fail("binding fails") };
    let mut t = match s.try_clone() { Ok(t) => t, Err(_) => fail("cloning fails") };
    k(|k| check(k.bound.len() == 1, "another socket is bound"));
    let _ = ra;
    let order = [choose(2), choose(2)];
    for (i, o) in order.iter().enumerate() {
        let p = peer([0, 3][choose(2)], i, false);
        let r = if *o == 0 { s.accept() } else { t.accept() };
        judge_sync(&p, r, false);
    }
    drop(s);
    let p = peer(0, 2, false);
    judge_sync(&p, t.accept(), false);
    drop(t);
    closed("the socket stays open");
}
fn c34_incoming() {
    // an asynchronous server: param 0: TLS, 1..: kinds of the connections, 9 = any kind
    reset();
    let secure = param(0) == 1;
    let a = match "0.0.0.0:7".parse() { Ok(a) => a, Err(_) => return };
    let via = choose(2);
    let l = match bind_with([[2, 4], [3, 5]][secure as usize][via], &[a]) { Ok(l) => l, Err(_) => fail("binding fails") };
    let mut peers = vec![];
    for i in 0..3 {
        let kind = match param(1 + i) { 9 => { let n = choose(9); if n == 5 && !secure { return } n } n => n };
        if kind == 10 { break }
        peers.push(peer(kind, i, secure));
    }
    let got = match l {
        Listening::Async(s) => all_incoming(s.incoming(), &peers, secure, |s| s.peer_addr()),
        Listening::AsyncTls(s) => all_incoming(s.incoming(), &peers, secure, |s| s.get_ref().get_ref().peer_addr()),
        _ => return,
    };
    closed("a connection stays open");
    log(got as u64);
}
fn c35_socket() {
    // operations on one of two connections act on its own socket: param 0: kind of connection, 1: operation
    reset();
    let (kind, op) = (param(0), param(1));
    let secure = [false, true, true, false, true][kind];
    let me = choose(2);
    let port = u16v();
    k(|k| k.port = port);
    let (ips, m) = ([bytes::<4>(), bytes::<4>()], Msg { kind: 2, code: None, data: vec(2) });
    let raws = [v4(ips[0], [3, 1]), v4(ips[1], [3, 2])];
    match kind {
        0 | 1 | 2 => {
            let mut cs0 = vec![]; let mut cs1 = vec![]; let mut cs2 = vec![];
            for i in 0..2 {
                let plain = [join(&good_response(&accept_for(KEY))), wire(0x82, &m.data, None)].concat();
                k(|k| { k.answers = vec![v4(ips[i], [0; 2])]; k.reply = if secure { [vec![0x17], tls(&plain)].concat() } else { plain } });
                let mut b = builder(["ws://h:769/", "ws://h:770/", "wss://h:769/", "wss://h:770/"][i + 2 * secure as usize]);
                match kind {
                    0 => cs0.push(match b.connect_insecure() { Ok(c) => c, Err(_) => fail("a connection cannot be made") }),
                    1 => cs1.push(match b.connect_secure(None) { Ok(c) => c, Err(_) => fail("a connection cannot be made") }),
                    _ => cs2.push(match b.connect(None) { Ok(c) => c, Err(_) => fail("a connection cannot be made") }),
                }
            }
            match kind { 0 => { if op < 5 { operate(&mut cs0[me], op, &raws[me], me) } else { halves(cs0, op, me, &m) } } 1 => operate(&mut cs1[me], op, &raws[me], me), _ => operate(&mut cs2[me], op, &raws[me], me) }
        }
        _ => {
            let a = match "0.0.0.0:7".parse() { Ok(a) => a, Err(_) => return };
            let mut l = match bind_with([0, 1][secure as usize], &[a]) { Ok(l) => l, Err(_) => fail("binding fails") };
            let mut cs0 = vec![]; let mut cs1 = vec![];
            for i in 0..2 {
                let plain = [join(&good_request(&b64(&KEY))), wire(0x82, &m.data, Some([1, 2, 3, 4]))].concat();
                let input = if secure { [vec![0x16, 0, 0], tls(&plain)].concat() } else { plain };
                k(|k| k.backlog.push(Incoming::Conn { peer: raws[i].clone(), input, silent: false, blocks_at: None }));
                match &mut l {
                    Listening::Sync(s) => match s.accept() { Ok(u) => cs0.push(match u.accept() { Ok(c) => c, Err(_) => fail("accepting fails") }), Err(_) => fail("a good client is refused") },
                    Listening::SyncTls(s) => match s.accept() { Ok(u) => cs1.push(match u.accept() { Ok(c) => c, Err(_) => fail("accepting fails") }), Err(_) => fail("a good client is refused") },
                    _ => return,
                }
            }
            if secure { operate(&mut cs1[me], op, &raws[me], me) } else if op < 5 { operate(&mut cs0[me], op, &raws[me], me) } else { halves(cs0, op, me, &m) }
        }
    }
    closed("a connection stays open");
    cover("done");
}
}
