//! C38, C39: frame, message and receiver types of one's own; pairs of streams.
use crate::conn::client;
use crate::sym::*;
use crate::util::*;
use bytes::BytesMut;
use futures::{Async, AsyncSink, Sink as _, Stream as _};
use std::io::{self, ErrorKind, Read, Write};
use tokio_codec::{Decoder, Encoder};
use websocket::receiver::Receiver;
use websocket::sender::Sender;
use websocket::stream::sync::Splittable;
use websocket::stream::ReadWritePair;
use websocket::ws::{Receiver as ReceiverLike, Sender as _};
use websocket_base::codec::ws::{DataFrameCodec, MessageCodec};
use websocket_base::message::{Message, OwnedMessage};
use websocket_base::result::{WebSocketError, WebSocketResult};
use websocket_base::ws::dataframe::DataFrame as Framelike;
use websocket_base::ws::message::Message as Messagelike;

/// A frame that keeps its payload in pieces.
#[derive(Clone)]
struct Own { b0: u8, res: [bool; 3], parts: Vec<Vec<u8>>, style: usize }
impl Own {
    fn new(b0: u8, data: &[u8], parts: usize, style: usize) -> Own {
        let mut v = vec![];
        let mut at = 0;
        for i in 0..parts { let to = if i + 1 == parts { data.len() } else { (at + 1 + data.len() / parts / 2).min(data.len()) }; v.push(data[at..to].to_vec()); at = to; }
        Own { b0, res: [b0 & 0x40 != 0, b0 & 0x20 != 0, b0 & 0x10 != 0], parts: v, style }
    }
    fn data(&self) -> Vec<u8> { self.parts.concat() }
}
impl Framelike for Own {
    fn is_last(&self) -> bool { self.b0 & 0x80 != 0 }
    fn opcode(&self) -> u8 { self.b0 & 15 }
    fn reserved(&self) -> &[bool; 3] { &self.res }
    fn size(&self) -> usize { self.parts.iter().map(|p| p.len()).sum() }
    fn write_payload(&self, w: &mut dyn Write) -> WebSocketResult<()> {
        for p in &self.parts {
            match self.style {
                0 => w.write_all(p)?,
                // byte by byte
                1 => for c in p { w.write_all(&[*c])?; },
                // as much as is taken at a time, and a flush
                _ => { let mut at = 0; while at < p.len() { let k = w.write(&p[at..])?; if k == 0 { return Err(io::Error::from(ErrorKind::WriteZero).into()) } at += k; } w.flush()? }
            }
        }
        Ok(())
    }
    fn take_payload(self) -> Vec<u8> { self.data() }
}
/// A message in several frames.
#[derive(Clone)]
struct Bits { frames: Vec<Own> }
impl Messagelike for Bits {
    fn serialize(&self, w: &mut dyn Write, masked: bool) -> WebSocketResult<()> { for f in &self.frames { f.write_to(w, masked)?; } Ok(()) }
    fn message_size(&self, masked: bool) -> usize { self.frames.iter().map(|f| f.frame_size(masked)).sum() }
    fn from_dataframes<D: Framelike>(frames: Vec<D>) -> WebSocketResult<Self> {
        if frames.is_empty() { return Err(WebSocketError::ProtocolError("nothing")) }
        Ok(Bits { frames: frames.into_iter().map(|f| { let b0 = (f.is_last() as u8) << 7 | (f.reserved()[0] as u8) << 6 | (f.reserved()[1] as u8) << 5 | (f.reserved()[2] as u8) << 4 | f.opcode(); Own::new(b0, &f.take_payload(), 1, 0) }).collect() })
    }
}
/// A receiver that makes them.
struct Mine { inner: Receiver, calls: usize }
impl ReceiverLike for Mine {
    type F = Own;
    type M = Bits;
    fn recv_dataframe<R: Read>(&mut self, r: &mut R) -> WebSocketResult<Own> {
        self.calls += 1;
        let f = self.inner.recv_dataframe(r)?;
        let b0 = (f.finished as u8) << 7 | (f.reserved[0] as u8) << 6 | (f.reserved[1] as u8) << 5 | (f.reserved[2] as u8) << 4 | f.opcode as u8;
        Ok(Own::new(b0, &f.data, 1, 0))
    }
    fn recv_message_dataframes<R: Read>(&mut self, r: &mut R) -> WebSocketResult<Vec<Own>> {
        let mut v = vec![];
        loop { let f = self.recv_dataframe(r)?; let last = conc(f.is_last() as u64) == 1; v.push(f); if last { return Ok(v) } }
    }
}
fn put(p: &Pipe, b: &[u8]) { p.0.borrow_mut().out.extend_from_slice(b) }
const OWNWAYS: usize = 8;
fn send_own(way: usize, server: bool, f: &Own, p: &Pipe) -> WebSocketResult<()> {
    let mut q = p.clone();
    match way {
        0 => f.write_to(&mut q, !server),
        1 => Sender::new(!server).send_dataframe(&mut q, f),
        2 => client(q, server, None).send_dataframe(f),
        3 => { let (_r, mut w) = client(q, server, None).split()?; w.send_dataframe(f) }
        4 => { let (_r, mut w) = client(ReadWritePair(Pipe::new(&[]), q), server, None).split()?; w.send_dataframe(f) }
        5 => { let mut b = BytesMut::new(); let mut c: DataFrameCodec<Box<dyn Framelike>> = DataFrameCodec::new(ctx(server)); let d: Box<dyn Framelike> = Box::new(f.clone()); c.encode(d, &mut b)?; put(p, &b); Ok(()) }
        6 => { let mut b = BytesMut::from(&b"x"[..]); let mut c: DataFrameCodec<Box<dyn Framelike>> = DataFrameCodec::new_with_limits(ctx(server), 1); let d: Box<dyn Framelike> = Box::new(f.clone()); c.encode(d, &mut b)?; check(b[0] == b'x', "what was to be sent before is lost"); put(p, &b[1..]); Ok(()) }
        _ => {
            let c: DataFrameCodec<Box<dyn Framelike>> = DataFrameCodec::new(ctx(server));
            let mut fr = c.framed(q);
            let d: Box<dyn Framelike> = Box::new(f.clone());
            match fr.start_send(d)? { AsyncSink::Ready => (), _ => fail("a framed connection takes no frame") }
            loop { match fr.poll_complete()? { Async::Ready(()) => return Ok(()), Async::NotReady => () } }
        }
    }
}
fn send_bits(way: usize, server: bool, m: &Bits, p: &Pipe) -> WebSocketResult<()> {
    let mut q = p.clone();
    match way {
        0 => m.serialize(&mut q, !server),
        1 => Sender::new(!server).send_message(&mut q, m),
        2 => client(q, server, None).send_message(m),
        3 => { let (_r, mut w) = client(q, server, None).split()?; w.send_message(m) }
        4 => { let (_r, mut w) = client(ReadWritePair(Pipe::new(&[]), q), server, None).split()?; w.send_message(m) }
        5 => { let mut b = BytesMut::new(); let mut c: MessageCodec<Bits> = MessageCodec::new(ctx(server)); c.encode(m.clone(), &mut b)?; put(p, &b); Ok(()) }
        6 => { let mut b = BytesMut::from(&b"x"[..]); let mut c: MessageCodec<Bits> = MessageCodec::new_with_limits(ctx(server), 1, 1); c.encode(m.clone(), &mut b)?; check(b[0] == b'x', "what was to be sent before is lost"); put(p, &b[1..]); Ok(()) }
        _ => {
            let c: MessageCodec<Bits> = MessageCodec::new(ctx(server));
            let mut fr = c.framed(q);
            match fr.start_send(m.clone())? { AsyncSink::Ready => (), _ => fail("a framed connection takes no message") }
            loop { match fr.poll_complete()? { Async::Ready(()) => return Ok(()), Async::NotReady => () } }
        }
    }
}
fn arrived(w: &[u8], server: bool, want: &[(u8, Vec<u8>)]) {
    let mut at = 0;
    for (b0, data) in want {
        let s = match peel(&w[at..]) { Some(s) => s, None => fail("the frame sent is not complete") };
        check(s.b0 == *b0, "the flags or the opcode sent are not those of the frame");
        check(s.masked == !server, "the frame is not in the form of its role");
        check_same(&s.data, data, "the payload sent is not that of the frame");
        let e = if data.len() < 126 { 0 } else if data.len() < 65536 { 2 } else { 8 };
        check(s.used == 2 + e + 4 * s.masked as usize + data.len(), "the length is not sent in its shortest form");
        at += s.used;
    }
    check(at == w.len(), "something else is sent too");
}
fn describes(got: &Own, b0: u8, data: &[u8], m: &str) { check(got.b0 == b0, m); check_same(&got.data(), data, m) }

const KINDS: [ErrorKind; 21] = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Interrupted, ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::HostUnreachable, ErrorKind::Other];
/// One half: what it holds, how much it gives or takes at a time, and what happens then.
#[derive(Clone)]
struct Half { data: Vec<u8>, at: usize, piece: usize, fail_at: usize, kind: ErrorKind, out: Vec<u8>, flushes: usize, shut: usize, calls: usize }
impl Half {
    fn new(data: &[u8], piece: usize, fail_at: usize, kind: ErrorKind) -> Half { Half { data: data.to_vec(), at: 0, piece, fail_at, kind, out: vec![], flushes: 0, shut: 0, calls: 0 } }
    fn same(&self, o: &Half, m: &str) { check(self.at == o.at && self.flushes == o.flushes && self.shut == o.shut && self.calls == o.calls && self.out.len() == o.out.len(), m); check_same(&self.out, &o.out, m) }
}
impl Read for Half {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls == self.fail_at { return Err(self.kind.into()) }
        let k = (self.data.len() - self.at).min(b.len()).min(self.piece);
        b[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
impl Write for Half {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls == self.fail_at { return Err(self.kind.into()) }
        let k = b.len().min(self.piece);
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { self.flushes += 1; if self.fail_at == 1 { Err(self.kind.into()) } else { Ok(()) } }
}
impl tokio_io::AsyncRead for Half {}
impl tokio_io::AsyncWrite for Half { fn shutdown(&mut self) -> futures::Poll<(), io::Error> { self.shut += 1; match self.fail_at { 1 => Err(self.kind.into()), 2 => Ok(Async::NotReady), _ => Ok(Async::Ready(())) } } }
fn alike<T>(a: &io::Result<T>, b: &io::Result<T>, m: &str) -> bool { match (a, b) { (Ok(_), Ok(_)) => true, (Err(a), Err(b)) => { check(a.kind() == b.kind(), m); false } _ => fail(m) } }
/// One operation on the pair and on the half it is for.
fn both(op: usize, pair: &mut ReadWritePair<Half, Half>, r: &mut Half, w: &mut Half, piece: &[u8]) {
    let m = "an operation on a pair does not do what it does on its half";
    use tokio_io::{AsyncRead, AsyncWrite};
    match op {
        0 => { let (mut a, mut b) = ([0u8; 3], [0u8; 3]); let (x, y) = (pair.read(&mut a), r.read(&mut b)); if alike(&x, &y, m) { check(x.ok() == y.ok(), m) } check_same(&a, &b, m) }
        1 => { let (mut a, mut b) = ([0u8; 3], [0u8; 3]); let (x, y) = (pair.read_exact(&mut a), r.read_exact(&mut b)); if alike(&x, &y, m) { check_same(&a, &b, m) } }
        2 => { let (mut a, mut b) = (vec![7], vec![7]); let (x, y) = (pair.read_to_end(&mut a), r.read_to_end(&mut b)); if alike(&x, &y, m) { check(x.ok() == y.ok(), m) } check_same(&a, &b, m) }
        3 => { let (mut a, mut b) = (String::from("q"), String::from("q")); let (x, y) = (pair.read_to_string(&mut a), r.read_to_string(&mut b)); if alike(&x, &y, m) { check(x.ok() == y.ok(), m) } check_same(a.as_bytes(), b.as_bytes(), m) }
        4 => { let (x, y) = (pair.write(piece), w.write(piece)); if alike(&x, &y, m) { check(x.ok() == y.ok(), m) } }
        5 => { let (x, y) = (pair.write_all(piece), w.write_all(piece)); alike(&x, &y, m); }
        6 => { let s = unsafe { std::str::from_utf8_unchecked(piece) }; let (x, y) = (pair.write_fmt(format_args!("<{}:{}>", s, 12)), w.write_fmt(format_args!("<{}:{}>", s, 12))); alike(&x, &y, m); }
        7 => { let (x, y) = (pair.flush(), w.flush()); alike(&x, &y, m); }
        8 => { let (x, y) = (AsyncWrite::shutdown(pair), AsyncWrite::shutdown(w)); if alike(&x, &y, m) { check(x.ok() == y.ok(), m) } }
        9 => { let (mut a, mut b) = ([0u8; 2], [0u8; 2]); let (x, y) = (pair.poll_read(&mut a), AsyncRead::poll_read(r, &mut b)); if alike(&x, &y, m) { check(x.ok() == y.ok(), m) } check_same(&a, &b, m) }
        10 => { let (x, y) = (pair.poll_write(piece), AsyncWrite::poll_write(w, piece)); if alike(&x, &y, m) { check(x.ok() == y.ok(), m) } }
        _ => { let (x, y) = (pair.poll_flush(), AsyncWrite::poll_flush(w)); if alike(&x, &y, m) { check(x.ok() == y.ok(), m) } }
    }
}

harnesses! {
fn c38_frames() {
    // a frame type of one's own: param 0: server, 1: way of sending, 2: payload length, 3: pieces of it
    let (server, way, n, parts) = (param(0) == 1, param(1), param(2), param(3));
    let b0 = byte();
    if n > 125 { assume(b0 & 8 == 0) }
    let data = long(n);
    let f = Own::new(b0, &data, parts, choose(3));
    let p = Pipe::new(&[]);
    match send_own(way, server, &f, &p) { Ok(()) => (), Err(_) => fail("sending a frame fails") }
    let w = p.out();
    check(f.frame_size(!server) == w.len(), "the predicted size of a frame is not what is sent");
    arrived(&w, server, &[(b0, data)]);
    cover("sent");
}
fn c38_messages() {
    // a message type of one's own, in several frames: param 0: server, 1: way of sending, 2: frames, 3: payload length of each
    let (server, way, k, n) = (param(0) == 1, param(1), param(2), param(3));
    let kind = 1 + choose(2) as u8;
    let mut want = vec![];
    let mut frames = vec![];
    for i in 0..k {
        let d = if n > 200 { long(n) } else { ascii(n + i % 2) };
        let b0 = if i == 0 { kind } else { 0 } | if i + 1 == k { 0x80 } else { 0 };
        frames.push(Own::new(b0, &d, 1 + i % 3, choose(3)));
        want.push((b0, d));
    }
    let m = Bits { frames };
    let p = Pipe::new(&[]);
    match send_bits(way, server, &m, &p) { Ok(()) => (), Err(_) => fail("sending a message fails") }
    let w = p.out();
    arrived(&w, server, &want);
    if n <= 200 {
        let all = Msg { kind, code: None, data: want.iter().map(|(_, d)| d.clone()).collect::<Vec<_>>().concat() };
        let r = if choose(2) == 0 { recv_sync(!server, None, &w) } else { recv_async(!server, None, &[&w]) };
        check_msgs(&r.0, &[all], "the peer does not get the message sent");
        check(r.1 == END && r.2 == 0, "the peer does not get the message sent");
    }
    cover("sent");
}
fn c38_received() {
    // a receiver of one's own over the library's: param 0: server, 1: 0 recv_message, 1 incoming_messages, 2 recv_dataframe, 3 incoming_dataframes, 2: frames, 3: payload length
    let (server, way, k, n) = (param(0) == 1, param(1), param(2), param(3));
    let mut w = vec![];
    let mut want: Vec<(u8, Vec<u8>)> = vec![];
    for _ in 0..k {
        let b0 = byte();
        assume((b0 & 8 == 0) | (b0 & 0x80 != 0));
        let d = vec(n);
        w.extend_from_slice(&wire(b0, &d, key_for(server)));
        want.push((b0, d));
    }
    let whole = w.len();
    let cut = choose(3);
    if cut > 0 { w.extend_from_slice(&wire(0x81, b"zz", key_for(server))[..cut]); }
    let mut r = Mine { inner: Receiver::new(server), calls: 0 };
    let mut cur = &w[..];
    let mut got: Vec<Own> = vec![];
    let e = match way {
        0 => loop { match r.recv_message(&mut cur) { Ok(m) => { check(!m.frames.is_empty() && m.frames[m.frames.len() - 1].is_last(), "a message is not what its frames make"); got.extend(m.frames) } Err(e) => break e } },
        1 => { let mut i = r.incoming_messages(&mut cur); loop { match i.next() { Some(Ok(m)) => { check(!m.frames.is_empty() && m.frames[m.frames.len() - 1].is_last(), "a message is not what its frames make"); got.extend(m.frames) } Some(Err(e)) => { check(i.next().is_some(), "the iterator over messages ends"); break e } None => fail("the iterator over messages ends") } } }
        2 => loop { match r.recv_dataframe(&mut cur) { Ok(f) => got.push(f), Err(e) => break e } },
        _ => { let mut i = r.incoming_dataframes(&mut cur); loop { match i.next() { Some(Ok(f)) => got.push(f), Some(Err(e)) => { check(i.next().is_some(), "the iterator over frames ends"); break e } None => fail("the iterator over frames ends") } } }
    };
    check(class(&e) == END, "the end of the data is not reported");
    // of the messages, the frames behind the last finished one are not seen
    let mut m = k;
    if way < 2 { while m > 0 && conc((want[m - 1].0 >> 7) as u64) == 0 { m -= 1 } }
    check(got.len() == m, "not all frames are delivered, or too many");
    for (g, (b0, d)) in got.iter().zip(&want) { describes(g, *b0, d, "a frame is delivered as another") }
    let _ = whole;
    cover("received");
}
fn c38_assembled() {
    // the library's messages out of frames of one's own: param 0: frames, 1: payload length
    let (k, n) = (param(0), param(1));
    let mut frames = vec![];
    let mut all = vec![];
    let first = byte();
    assume(first < 0x10);
    let mut bad = 0u8;
    for i in 0..k {
        let d = ascii(n + i % 2);
        let b0 = if i == 0 { first } else { let c = byte(); bad |= ((c & 15) != 0) as u8; c } & 0x7F | if i + 1 == k { 0x80 } else { 0 };
        bad |= (b0 & 0x70 != 0) as u8;
        frames.push(Own::new(b0, &d, 1 + i % 2, 0));
        all.extend_from_slice(&d);
    }
    let (o, b) = (OwnedMessage::from_dataframes(frames.clone()), Message::from_dataframes(frames));
    let known = (k > 0) as u8 & ((first == 1) as u8 | (first == 2) as u8 | (first == 9) as u8 | (first == 10) as u8 | (first == 8) as u8 & (all.len() != 1) as u8);
    match o {
        Ok(m) => {
            check((bad == 0) & (known == 1), "frames that make no message are taken for one");
            Msg::from_owned(&m).check(&Msg::of_payload(conc(first as u64) as u8, &all), "a message is not what its frames make");
            match b { Ok(b) => Msg::from_owned(&OwnedMessage::from(b)).check(&Msg::from_owned(&m), "a message is not what its frames make"), Err(_) => fail("a borrowed message is not made of the frames of an owned one") }
            cover("message");
        }
        Err(_) => { check((bad != 0) | (known == 0), "frames that make a message are refused"); check(b.is_err(), "a borrowed message is made of what makes no owned one"); cover("refused") }
    }
}
fn c39_operations() {
    // every sequence of operations: param 0: how many, 1: bytes to read, 2: how much a half gives or takes at once
    let (k, n, piece) = (param(0), param(1), param(2));
    let data = if n < 4 { vec(n) } else { ascii(n) };
    let what = ascii(3);
    let (rf, wf) = (choose(4), choose(4));
    let kind = if rf | wf == 0 { ErrorKind::Other } else { KINDS[choose(KINDS.len())] };
    let (mut r, mut w) = (Half::new(&data, piece, rf, kind), Half::new(b"other", piece, wf, kind));
    let mut pair = ReadWritePair(r.clone(), w.clone());
    for _ in 0..k { both(choose(12), &mut pair, &mut r, &mut w, &what) }
    pair.0.same(&r, "the reader is left in another state");
    pair.1.same(&w, "the writer is left in another state");
    if choose(2) == 1 {
        match pair.split() { Ok((a, b)) => { a.same(&r, "splitting does not give back the reader"); b.same(&w, "splitting does not give back the writer"); cover("split") } Err(_) => fail("splitting a pair fails") }
    }
    cover("done");
}
fn c39_connection() {
    // a connection over a pair: what it reads comes from the reader, what it sends goes to the writer: param 0: server, 1: asynchronous, 2: payload length
    let (server, asy, n) = (param(0) == 1, param(1) == 1, param(2));
    let (a, b) = (long(n), long(n));
    let input = wire(0x82, &a, key_for(server));
    let (r, w) = (Half::new(&input, [1, 3, 9000][choose(3)], 0, ErrorKind::Other), Half::new(b"never read", [1, 2, 9000][choose(3)], 0, ErrorKind::Other));
    let pair = ReadWritePair(r, w);
    let (got, r, w) = if asy {
        let mut f = codec(server, None).framed(pair);
        let m = match f.poll() { Ok(Async::Ready(Some(m))) => m, _ => fail("a message is not received") };
        match f.start_send(OwnedMessage::Binary(b.clone())) { Ok(AsyncSink::Ready) => (), _ => fail("a message is not sent") }
        match f.poll_complete() { Ok(Async::Ready(())) => (), _ => fail("a message is not sent") }
        let flushed = f.get_ref().1.flushes;
        check(flushed > 0, "a message sent is not flushed");
        match f.close() { Ok(Async::Ready(())) => (), _ => fail("closing fails") }
        let ReadWritePair(r, w) = f.into_parts().io;
        check(w.shut == 1 && r.shut == 0, "closing does not shut down the writer");
        (m, r, w)
    } else {
        let mut c = client(pair, server, None);
        let m = match c.recv_message() { Ok(m) => m, Err(_) => fail("a message is not received") };
        match c.send_message(&OwnedMessage::Binary(b.clone())) { Ok(()) => (), Err(_) => fail("a message is not sent") }
        let ReadWritePair(r, w) = c.into_stream().0;
        (m, r, w)
    };
    Msg::from_owned(&got).check(&Msg { kind: 2, code: None, data: a }, "what is received is not what the reader held");
    arrived(&w.out, server, &[(0x82, b)]);
    check(r.out.is_empty() && r.flushes == 0 && w.at == 0, "one half is used for the other");
    cover("both");
}
}
