//! Shared parts of the harnesses: wire form, references, endpoints in memory.
use crate::sym::*;
use bytes::BytesMut;
use hyper::buffer::BufReader;
use std::io::{self, Read, Write};
use tokio_codec::{Decoder, Encoder};
use websocket::receiver::Receiver;
use websocket::ws::Receiver as _;
use websocket_base::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket_base::dataframe::{DataFrame, Opcode};
use websocket_base::message::{CloseData, Message, OwnedMessage};
use websocket_base::result::WebSocketError;

/// Reference: the RFC 6455 5.2 header bytes.
pub fn ref_header(b0: u8, mask: Option<[u8; 4]>, len: u64) -> Vec<u8> {
    let m = if mask.is_some() { 0x80 } else { 0 };
    let mut v = vec![b0];
    if len < 126 { v.push(m | len as u8); }
    else if len < 65536 { v.push(m | 126); v.push((len >> 8) as u8); v.push(len as u8); }
    else { v.push(m | 127); for i in 0..8 { v.push((len >> (56 - 8 * i)) as u8); } }
    if let Some(k) = mask { v.extend_from_slice(&k); }
    v
}
/// The RFC wire form of one frame.
pub fn wire(b0: u8, data: &[u8], key: Option<[u8; 4]>) -> Vec<u8> {
    let mut v = ref_header(b0, key, data.len() as u64);
    for (i, x) in data.iter().enumerate() { v.push(*x ^ key.map_or(0, |k| k[i & 3])); }
    v
}
/// An arbitrary key for frames sent to a server, none for frames sent to a client.
pub fn key_for(server: bool) -> Option<[u8; 4]> { if server { Some(bytes::<4>()) } else { None } }
/// A payload of n bytes: all arbitrary up to 140 bytes, beyond that the first and last 40 and 48 spread between them.
pub fn long(n: usize) -> Vec<u8> {
    if n <= 140 { return vec(n) }
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + (i >> 8)) as u8).collect();
    fill(&mut v[..40]);
    fill(&mut v[n - 40..]);
    let step = (n - 80) / 48;
    for i in 0..48 { v[40 + i * step] = byte(); }
    v
}
/// n arbitrary bytes below 128.
pub fn ascii(n: usize) -> Vec<u8> { let mut v = long(n); for x in v.iter_mut() { *x &= 0x7F; } v }
pub fn ascii_string(n: usize) -> String { unsafe { String::from_utf8_unchecked(ascii(n)) } }
/// Reference: well-formed UTF-8 (RFC 3629 section 4), as one truth value.
pub fn ref_utf8(b: &[u8]) -> bool {
    let n = b.len();
    let mut ok = vec![0u8; n + 1];
    ok[0] = 1;
    let r = |x: u8, lo: u8, hi: u8| -> u8 { (x >= lo) as u8 & (x <= hi) as u8 };
    for i in 1..=n {
        let mut k = ok[i - 1] & r(b[i - 1], 0, 0x7F);
        if i >= 2 { k |= ok[i - 2] & r(b[i - 2], 0xC2, 0xDF) & r(b[i - 1], 0x80, 0xBF); }
        if i >= 3 {
            let (x, y, z) = (b[i - 3], b[i - 2], b[i - 1]);
            let t = r(z, 0x80, 0xBF);
            k |= ok[i - 3] & t & ((r(x, 0xE0, 0xE0) & r(y, 0xA0, 0xBF)) | (r(x, 0xE1, 0xEC) & r(y, 0x80, 0xBF)) | (r(x, 0xED, 0xED) & r(y, 0x80, 0x9F)) | (r(x, 0xEE, 0xEF) & r(y, 0x80, 0xBF)));
        }
        if i >= 4 {
            let (x, y, z, u) = (b[i - 4], b[i - 3], b[i - 2], b[i - 1]);
            let t = r(z, 0x80, 0xBF) & r(u, 0x80, 0xBF);
            k |= ok[i - 4] & t & ((r(x, 0xF0, 0xF0) & r(y, 0x90, 0xBF)) | (r(x, 0xF1, 0xF3) & r(y, 0x80, 0xBF)) | (r(x, 0xF4, 0xF4) & r(y, 0x80, 0x8F)));
        }
        ok[i] = k;
    }
    ok[n] != 0
}
/// Classes of errors.
pub const END: u8 = 0; // no (more) data
pub const PROTO: u8 = 1;
pub const FRAME: u8 = 2;
pub const IO: u8 = 3;
pub const UTF8: u8 = 4;
pub const OTHER: u8 = 5;
pub fn class(e: &WebSocketError) -> u8 {
    match e {
        WebSocketError::NoDataAvailable => END,
        WebSocketError::ProtocolError(_) => PROTO,
        WebSocketError::DataFrameError(_) => FRAME,
        WebSocketError::IoError(_) => IO,
        WebSocketError::Utf8Error(_) => UTF8,
        WebSocketError::Other(_) => OTHER,
    }
}
/// A message as the properties speak of it: kind (opcode), close code, payload or reason.
#[derive(Clone)]
pub struct Msg { pub kind: u8, pub code: Option<u16>, pub data: Vec<u8> }
impl Msg {
    /// The message a single frame of this kind with this payload stands for (close payloads of at least 2 bytes).
    pub fn of_payload(kind: u8, p: &[u8]) -> Msg {
        if kind == 8 && p.len() >= 2 { Msg { kind, code: Some((p[0] as u16) << 8 | p[1] as u16), data: p[2..].to_vec() } } else { Msg { kind, code: None, data: p.to_vec() } }
    }
    pub fn owned(&self) -> OwnedMessage {
        let s = || unsafe { String::from_utf8_unchecked(self.data.clone()) };
        match self.kind {
            1 => OwnedMessage::Text(s()),
            2 => OwnedMessage::Binary(self.data.clone()),
            8 => OwnedMessage::Close(self.code.map(|c| CloseData::new(c, s()))),
            9 => OwnedMessage::Ping(self.data.clone()),
            _ => OwnedMessage::Pong(self.data.clone()),
        }
    }
    pub fn borrowed(&self) -> Message<'_> {
        let s = || unsafe { std::str::from_utf8_unchecked(&self.data) };
        match self.kind {
            1 => Message::text(s()),
            2 => Message::binary(&self.data[..]),
            8 => match self.code { Some(c) => Message::close_because(c, s()), None => Message::close() },
            9 => Message::ping(&self.data[..]),
            _ => Message::pong(&self.data[..]),
        }
    }
    /// The payload that stands for it on the wire.
    pub fn payload(&self) -> Vec<u8> {
        let mut v = vec![];
        if let Some(c) = self.code { v.push((c >> 8) as u8); v.push(c as u8); }
        v.extend_from_slice(&self.data);
        v
    }
    pub fn from_owned(m: &OwnedMessage) -> Msg {
        match m {
            OwnedMessage::Text(s) => Msg { kind: 1, code: None, data: s.as_bytes().to_vec() },
            OwnedMessage::Binary(b) => Msg { kind: 2, code: None, data: b.clone() },
            OwnedMessage::Close(None) => Msg { kind: 8, code: None, data: vec![] },
            OwnedMessage::Close(Some(c)) => Msg { kind: 8, code: Some(c.status_code), data: c.reason.as_bytes().to_vec() },
            OwnedMessage::Ping(b) => Msg { kind: 9, code: None, data: b.clone() },
            OwnedMessage::Pong(b) => Msg { kind: 10, code: None, data: b.clone() },
        }
    }
    pub fn same(&self, o: &Msg) -> bool {
        if self.kind != o.kind || self.code.is_some() != o.code.is_some() || self.data.len() != o.data.len() { return false }
        let c = match (self.code, o.code) { (Some(a), Some(b)) => a == b, _ => true };
        c & same(&self.data, &o.data)
    }
    pub fn check(&self, o: &Msg, m: &str) {
        check(self.kind == o.kind, m);
        check(self.code.is_some() == o.code.is_some(), m);
        check(self.data.len() == o.data.len(), m);
        if let (Some(a), Some(b)) = (self.code, o.code) { check(a == b, m); }
        check_same(&self.data, &o.data, m);
    }
    pub fn log(&self) { log(self.kind as u64); if let Some(c) = self.code { log(c as u64) } logs(&self.data) }
}
/// An arbitrary message of the chosen kind: 0 text, 1 binary, 2 ping, 3 pong, 4 close without, 5 close with code.
/// Texts and reasons are ASCII with, at choice, one arbitrary character of two to four bytes.
pub fn any_msg(kind: usize, n: usize) -> Msg {
    match kind {
        0 => Msg { kind: 1, code: None, data: text(n) },
        1 => Msg { kind: 2, code: None, data: long(n) },
        2 => Msg { kind: 9, code: None, data: long(n) },
        3 => Msg { kind: 10, code: None, data: long(n) },
        4 => Msg { kind: 8, code: None, data: vec![] },
        _ => Msg { kind: 8, code: Some(u16v()), data: text(n) },
    }
}
/// n bytes of well-formed UTF-8: ASCII, the first character arbitrary.
pub fn text(n: usize) -> Vec<u8> {
    let mut v = ascii(n);
    if n >= 2 {
        let k = choose(n.min(4));
        if k > 0 {
            // an arbitrary character of k+1 bytes
            let b = bytes::<4>();
            for i in 0..=k { v[i] = b[i]; }
            assume(ref_utf8(&b[..k + 1]));
            assume(b[0] >= [0, 0xC2, 0xE0, 0xF0][k]);
        }
    }
    v
}
/// Blocking receiver over a byte string: messages until the first error.
pub fn recv_sync(server: bool, lim: Option<(usize, usize)>, input: &[u8]) -> (Vec<Msg>, u8, usize) {
    let mut r = match lim { Some((f, m)) => Receiver::new_with_limits(server, f, m), None => Receiver::new(server) };
    let mut cur = input;
    let mut out = vec![];
    loop {
        match r.recv_message(&mut cur) {
            Ok(m) => out.push(Msg::from_owned(&m)),
            Err(e) => return (out, class(&e), cur.len()),
        }
    }
}
pub fn ctx(server: bool) -> Context { if server { Context::Server } else { Context::Client } }
pub fn codec(server: bool, lim: Option<(usize, usize)>) -> MessageCodec<OwnedMessage> {
    match lim { Some((f, m)) => MessageCodec::new_with_limits(ctx(server), f, m), None => MessageCodec::default(ctx(server)) }
}
/// Asynchronous decoder fed with chunks: messages until the first error; bytes left undecoded.
pub fn recv_async(server: bool, lim: Option<(usize, usize)>, chunks: &[&[u8]]) -> (Vec<Msg>, u8, usize) {
    let mut c = codec(server, lim);
    let mut buf = BytesMut::new();
    let mut out = vec![];
    for ch in chunks {
        buf.extend_from_slice(ch);
        loop {
            match c.decode(&mut buf) {
                Ok(Some(m)) => out.push(Msg::from_owned(&m)),
                Ok(None) => break,
                Err(e) => return (out, class(&e), buf.len()),
            }
        }
    }
    (out, END, buf.len())
}
pub fn check_msgs(a: &[Msg], b: &[Msg], m: &str) {
    check(a.len() == b.len(), m);
    for (x, y) in a.iter().zip(b) { x.check(y, m); }
}
pub fn log_result(r: &(Vec<Msg>, u8, usize)) { for m in &r.0 { m.log() } log(r.1 as u64); log(r.2 as u64) }
/// A writer that keeps what it is given.
pub struct Sink(pub Vec<u8>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// A frame whose flags and opcode are those of this first byte.
pub fn frame_of(b0: u8, data: Vec<u8>) -> DataFrame {
    let op = match Opcode::new(b0 & 15) { Some(o) => o, None => fail("an opcode below 16 is refused") };
    let mut f = DataFrame::new(b0 & 0x80 != 0, op, data);
    f.reserved = [b0 & 0x40 != 0, b0 & 0x20 != 0, b0 & 0x10 != 0];
    f
}

/// One end of a connection in memory: what the peer sent, cut into reads, and what was written.
pub struct PipeState {
    pub input: Vec<u8>,
    pub at: usize,
    /// positions in the input beyond which a single read does not go
    pub cuts: Vec<usize>,
    /// at each cut, report WouldBlock once before going on
    pub block: bool,
    blocked: usize,
    /// what a read at the end of the input reports (None: end of file)
    pub end: Option<io::ErrorKind>,
    pub out: Vec<u8>,
    /// short writes, interruptions / blocked writes that may still happen
    pub short: usize,
    pub intr: usize,
    pub wblock: usize,
    /// no write takes more than this many bytes; every how many-th write is refused in which way
    pub most: usize,
    pub refuse: Option<(usize, io::ErrorKind)>,
    pub writes: usize,
    /// the write after this many accepted bytes fails (None in the pair: accepts nothing)
    pub fail: Option<(usize, Option<io::ErrorKind>)>,
    pub failed: bool,
    /// bytes handed out after the failure was reported: must stay 0
    pub after: usize,
}
pub struct Pipe(pub std::rc::Rc<std::cell::RefCell<PipeState>>);
unsafe impl Send for Pipe {}
impl Clone for Pipe { fn clone(&self) -> Pipe { Pipe(self.0.clone()) } }
impl Pipe {
    pub fn new(input: &[u8]) -> Pipe {
        Pipe(std::rc::Rc::new(std::cell::RefCell::new(PipeState { input: input.to_vec(), at: 0, cuts: vec![], block: false, blocked: usize::MAX, end: None, out: vec![], short: 0, intr: 0, wblock: 0, most: usize::MAX, refuse: None, writes: 0, fail: None, failed: false, after: 0 })))
    }
    pub fn cut(self, cuts: &[usize], block: bool) -> Pipe { { let mut s = self.0.borrow_mut(); s.cuts = cuts.to_vec(); s.block = block; } self }
    pub fn end(self, e: io::ErrorKind) -> Pipe { self.0.borrow_mut().end = Some(e); self }
    /// take writes in parts, by one of a few schedules
    pub fn parts(&self, asy: bool) {
        let mut s = self.0.borrow_mut();
        s.most = [70, 1000, 5000, usize::MAX][choose(4)];
        let n = [0, 2, 3, 7][choose(4)];
        if n > 0 { s.refuse = Some((n, if asy { io::ErrorKind::WouldBlock } else { io::ErrorKind::Interrupted })) }
    }
    pub fn out(&self) -> Vec<u8> { self.0.borrow().out.clone() }
    pub fn take_out(&self) -> Vec<u8> { std::mem::take(&mut self.0.borrow_mut().out) }
    pub fn more(&self, b: &[u8]) { self.0.borrow_mut().input.extend_from_slice(b) }
    /// input not yet read
    pub fn rest(&self) -> Vec<u8> { let s = self.0.borrow(); s.input[s.at..].to_vec() }
}
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if b.is_empty() { return Ok(0) }
        let at = s.at;
        if s.block && s.blocked != at && s.cuts.contains(&at) { s.blocked = at; return Err(io::ErrorKind::WouldBlock.into()) }
        let mut k = (s.input.len() - at).min(b.len());
        if k == 0 { return match s.end { Some(k) => Err(k.into()), None => Ok(0) } }
        for c in s.cuts.iter() { if *c > at && *c - at < k { k = *c - at; } }
        b[..k].copy_from_slice(&s.input[at..at + k]);
        s.at += k;
        Ok(k)
    }
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if b.is_empty() { return Ok(0) }
        if let Some((at, k)) = s.fail {
            if s.out.len() >= at { s.failed = true; return match k { Some(k) => Err(k.into()), None => Ok(0) } }
        }
        if s.intr > 0 && choose(2) == 1 { s.intr -= 1; return Err(io::ErrorKind::Interrupted.into()) }
        if s.wblock > 0 && choose(2) == 1 { s.wblock -= 1; return Err(io::ErrorKind::WouldBlock.into()) }
        s.writes += 1;
        if let Some((n, k)) = s.refuse { if s.writes % n == 0 { return Err(k.into()) } }
        let mut k = b.len().min(s.most);
        if let Some((at, _)) = s.fail { k = k.min(at - s.out.len()); }
        if s.short > 0 && k > 1 {
            let c = if k <= 24 { 1 + choose(k) } else { [1, 2, 3, 5, k / 2, k - 2, k - 1, k][choose(8)] };
            if c < k { s.short -= 1; k = c; }
        }
        if s.failed { s.after += k; }
        s.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl tokio_io::AsyncRead for Pipe {}
impl tokio_io::AsyncWrite for Pipe { fn shutdown(&mut self) -> futures::Poll<(), io::Error> { Ok(futures::Async::Ready(())) } }
impl websocket::stream::sync::Splittable for Pipe {
    type Reader = Pipe;
    type Writer = Pipe;
    fn split(self) -> io::Result<(Pipe, Pipe)> { Ok((self.clone(), self)) }
}
/// The first frame on the wire: its bytes after unmasking, and whether it is masked.
pub struct Seen { pub b0: u8, pub masked: bool, pub key: [u8; 4], pub data: Vec<u8>, pub used: usize }
/// Reference reader of one frame in RFC form (lengths concrete).
pub fn peel(w: &[u8]) -> Option<Seen> {
    if w.len() < 2 { return None }
    let l7 = conc((w[1] & 0x7F) as u64) as usize;
    let masked = conc((w[1] >> 7) as u64) == 1;
    let mut at = 2;
    let mut n = l7;
    let e = if l7 == 126 { 2 } else if l7 == 127 { 8 } else { 0 };
    if e > 0 { if w.len() < 2 + e { return None } n = 0; for i in 0..e { n = n << 8 | conc(w[2 + i] as u64) as usize; } at += e; }
    let mut key = [0u8; 4];
    if masked { if w.len() < at + 4 { return None } key.copy_from_slice(&w[at..at + 4]); at += 4; }
    if w.len() < at + n { return None }
    let data = (0..n).map(|i| w[at + i] ^ key[i & 3]).collect();
    Some(Seen { b0: w[0], masked, key, data, used: at + n })
}

/// Reference: the base64 character of a 6-bit value, branch-free.
pub fn b64char(v: u8) -> u8 {
    let v = v as u64;
    let mut c = v + 65;
    c = sel((v >= 26) as u64, v + 71, c);
    c = sel((v >= 52) as u64, v.wrapping_sub(4), c);
    c = sel((v == 62) as u64, b'+' as u64, c);
    c = sel((v == 63) as u64, b'/' as u64, c);
    c as u8
}
/// Reference: RFC 4648 base64 with padding.
pub fn b64(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in d.chunks(3) {
        let x = (c[0] as u32) << 16 | (c.get(1).copied().unwrap_or(0) as u32) << 8 | c.get(2).copied().unwrap_or(0) as u32;
        for i in 0..4 { if i <= c.len() { o.push(b64char((x >> (18 - 6 * i)) as u8 & 63)) } else { o.push(b'=') } }
    }
    o
}
/// Reference: the value of a base64 character and whether it is one (0/1), branch-free.
pub fn b64val(c: u8) -> (u8, u8) {
    let c = c as u64;
    let r = |lo: u8, hi: u8| (c >= lo as u64) as u64 & (c <= hi as u64) as u64;
    let (up, lo, di, pl, sl) = (r(b'A', b'Z'), r(b'a', b'z'), r(b'0', b'9'), (c == 43) as u64, (c == 47) as u64);
    let mut v = sel(up, c.wrapping_sub(65), 0);
    v = sel(lo, c.wrapping_sub(71), v);
    v = sel(di, c + 4, v);
    v = sel(pl, 62, v);
    v = sel(sl, 63, v);
    (v as u8, (up | lo | di | pl | sl) as u8)
}
pub const GUID: &[u8] = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
/// An arbitrary token character (RFC 7230).
pub fn tchar(c: u8) -> bool {
    let r = |lo: u8, hi: u8| (c >= lo) as u8 & (c <= hi) as u8;
    (r(b'a', b'z') | r(b'A', b'Z') | r(b'0', b'9') | r(b'#', b'\'') | r(b'*', b'+') | r(b'-', b'.') | r(b'^', b'`') | (c == b'!') as u8 | (c == b'|') as u8 | (c == b'~') as u8) != 0
}
pub fn token(n: usize) -> String {
    let v = vec(n);
    for c in &v { assume(tchar(*c)); }
    unsafe { String::from_utf8_unchecked(v) }
}
