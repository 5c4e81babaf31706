//! C05, C06, C11, C18, C19: endpoints, limits, splitting, faulty transports.
use crate::sym::*;
use crate::util::*;
use bytes::BytesMut;
use futures::{Async, AsyncSink, Sink as _, Stream as _};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::io::{self, Read, Write};
use tokio_codec::{Decoder, Encoder, Framed, FramedParts};
use websocket::client::sync::Client;
use websocket::receiver::{Reader, Receiver};
use websocket::sender::{Sender, Writer};
use websocket::stream::ReadWritePair;
use websocket::ws::{Receiver as _, Sender as _};
use websocket_base::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket_base::dataframe::{DataFrame, Opcode};
use websocket_base::message::{CloseData, Message, OwnedMessage};
use websocket_base::result::WebSocketError;
use websocket_base::ws::dataframe::DataFrame as Framelike;
use websocket_base::ws::message::Message as Messagelike;

pub const BIG: usize = 100 << 20;
pub fn client<S: Read + Write>(s: S, server: bool, lim: Option<(usize, usize)>) -> Client<S> {
    match lim {
        None => Client::unchecked(BufReader::new(s), Headers::new(), !server, server),
        Some((f, m)) => Client::unchecked_with_limits(BufReader::new(s), Headers::new(), !server, server, f, m),
    }
}
fn bmsg(b: &mut BytesMut, server: bool, m: &Msg) -> Result<(), WebSocketError> {
    // the codec for borrowed messages
    let mut c: MessageCodec<Message<'static>> = MessageCodec::new(ctx(server));
    let x: Message<'static> = Message::from(m.owned());
    c.encode(x, b)
}
struct Fr(DataFrame);
/// Every way of sending: the message and the result.
pub const SENDS: usize = 12;
pub fn send(api: usize, server: bool, m: &Msg, p: &Pipe) -> Result<(), WebSocketError> {
    let f = frame_of(0x80 | m.kind, m.payload());
    let mut p = p.clone();
    match api {
        0 => Sender::new(!server).send_message(&mut p, &m.owned()),
        1 => Sender::new(!server).send_message(&mut p, &m.borrowed()),
        2 => Sender::new(!server).send_dataframe(&mut p, &f),
        3 => client(p, server, None).send_message(&m.owned()),
        4 => client(p, server, None).send_dataframe(&f),
        5 => { let (_r, mut w) = client(p, server, None).split().map_err(WebSocketError::from)?; w.send_message(&m.borrowed()) }
        6 => { let (_r, mut w) = client(ReadWritePair(Pipe::new(&[]), p), server, None).split().map_err(WebSocketError::from)?; w.send_dataframe(&f) }
        7 => { let mut b = BytesMut::new(); codec(server, None).encode(m.owned(), &mut b)?; p.0.borrow_mut().out.extend_from_slice(&b); Ok(()) }
        8 => { let mut b = BytesMut::new(); bmsg(&mut b, server, m)?; p.0.borrow_mut().out.extend_from_slice(&b); Ok(()) }
        9 => { let mut b = BytesMut::new(); let mut c: DataFrameCodec<Box<dyn Framelike>> = DataFrameCodec::new(ctx(server)); let d: Box<dyn Framelike> = Box::new(f); c.encode(d, &mut b)?; p.0.borrow_mut().out.extend_from_slice(&b); Ok(()) }
        10 => m.owned().serialize(&mut p, !server),
        _ => {
            let mut fr = codec(server, None).framed(p);
            match fr.start_send(m.owned())? { AsyncSink::Ready => (), _ => fail("a framed connection takes no message") }
            loop { match fr.poll_complete()? { Async::Ready(()) => return Ok(()), Async::NotReady => () } }
        }
    }
}
/// Every way of receiving one stream of messages: messages until the first error, its class.
pub const RECVS: usize = 8;
pub fn receive(api: usize, server: bool, lim: Option<(usize, usize)>, p: Pipe) -> (Vec<Msg>, u8) {
    let mut out = vec![];
    macro_rules! drain { ($e:expr) => { loop { match $e { Ok(m) => out.push(Msg::from_owned(&m)), Err(e) => return (out, class(&e)) } } } }
    let new = || match lim { Some((f, m)) => Receiver::new_with_limits(server, f, m), None => Receiver::new(server) };
    match api {
        0 => { let mut r = new(); let mut p = p; drain!(r.recv_message(&mut p)) }
        1 => { let mut c = client(p, server, lim); drain!(c.recv_message()) }
        2 => { let mut c = client(p, server, lim); let mut i = c.incoming_messages(); drain!(match i.next() { Some(x) => x, None => fail("the iterator over messages ends") }) }
        3 => { let (mut r, _w) = match client(p, server, lim).split() { Ok(x) => x, Err(_) => fail("splitting fails") }; drain!(r.recv_message()) }
        4 => { let (mut r, _w) = match client(p, server, lim).split() { Ok(x) => x, Err(_) => fail("splitting fails") }; let mut i = r.incoming_messages(); drain!(match i.next() { Some(x) => x, None => fail("the iterator over messages ends") }) }
        5 => {
            let mut f = codec(server, lim).framed(p);
            loop { match f.poll() { Ok(Async::Ready(Some(m))) => out.push(Msg::from_owned(&m)), Ok(Async::Ready(None)) => return (out, END), Ok(Async::NotReady) => (), Err(e) => return (out, class(&e)) } }
        }
        6 => { let mut r = new(); let mut p = p; let mut i = r.incoming_messages(&mut p); drain!(match i.next() { Some(x) => x, None => fail("the iterator over messages ends") }) }
        _ => {
            // frame level, put together by the message type: unfragmented messages only
            let mut r = new();
            let mut p = p;
            drain!(r.recv_dataframe(&mut p).and_then(|f| <OwnedMessage as Messagelike>::from_dataframes(vec![f])))
        }
    }
}
/// Every way of receiving frames.
pub const FRECVS: usize = 7;
pub fn receive_frames(api: usize, server: bool, p: Pipe) -> (usize, u8) {
    let mut n = 0;
    macro_rules! drain { ($e:expr) => { loop { match $e { Ok(_) => n += 1, Err(e) => return (n, class(&e)) } } } }
    match api {
        0 => { let mut r = Receiver::new(server); let mut p = p; drain!(r.recv_dataframe(&mut p)) }
        1 => { let mut c = client(p, server, None); drain!(c.recv_dataframe()) }
        2 => { let mut c = client(p, server, None); let mut i = c.incoming_dataframes(); drain!(match i.next() { Some(x) => x, None => fail("the iterator over frames ends") }) }
        3 => { let (mut r, _w) = match client(p, server, None).split() { Ok(x) => x, Err(_) => fail("splitting fails") }; drain!(r.recv_dataframe()) }
        4 => { let (mut r, _w) = match client(p, server, None).split() { Ok(x) => x, Err(_) => fail("splitting fails") }; let mut i = r.incoming_dataframes(); drain!(match i.next() { Some(x) => x, None => fail("the iterator over frames ends") }) }
        5 => { let c: DataFrameCodec<Box<dyn Framelike>> = DataFrameCodec::new(ctx(server)); let mut f = c.framed(ReadWritePair(p, io::sink())); loop { match f.poll() { Ok(Async::Ready(Some(_))) => n += 1, Ok(Async::Ready(None)) => return (n, END), Ok(Async::NotReady) => (), Err(e) => return (n, class(&e)) } } }
        _ => { let mut p = p; drain!(DataFrame::read_dataframe(&mut p, server)) }
    }
}
pub fn kind_len(kind: usize, n: usize) -> usize { if kind >= 2 { n.min(123) } else { n } }

harnesses! {
fn c05_sends() {
    // param 0: the sender is a server, 1: way of sending, 2: length
    let (server, api, n) = (param(0) == 1, param(1), param(2));
    let kind = choose(6);
    let m = any_msg(kind, kind_len(kind, n));
    let p = Pipe::new(&[]);
    check(send(api, server, &m, &p).is_ok(), "a sendable message is refused");
    let out = p.out();
    check(out.len() >= 2, "no frame is sent");
    if server { check(out[1] & 0x80 == 0, "a server sends a masked frame") } else { check(out[1] & 0x80 != 0, "a client sends an unmasked frame") }
    let s = match peel(&out) { Some(s) => s, None => fail("what is sent is no complete frame") };
    check(s.used == out.len(), "more than a frame is sent");
    check_same(&s.data, &m.payload(), "the payload sent is not that of the message");
    if server { cover("unmasked") } else { cover("masked") }
    log(api as u64); logs(&out);
}
fn c05_wrong_form() {
    // param 0: server, 1: way of receiving, 2: payload length, 3: frames or messages
    let (server, api, n, frames) = (param(0) == 1, param(1), param(2), param(3) == 1);
    let b0 = byte();
    assume((b0 & 8 == 0) | (b0 & 0x80 != 0));
    let key = if server { None } else { Some(bytes::<4>()) };
    let good = choose(2);
    let mut w = if good == 1 { wire(0x82, &[1, 2], key_for(server)) } else { vec![] };
    w.extend_from_slice(&wire(b0, &long(n), key));
    w.extend_from_slice(&wire(0x81, &[65], key_for(server)));
    let (k, e) = if frames { receive_frames(api, server, Pipe::new(&w)) } else { let r = receive(api, server, None, Pipe::new(&w)); (r.0.len(), r.1) };
    check(k == good, "something of a frame of the wrong form is delivered");
    check(e != END, "a frame of the wrong form is no error");
    check(e == FRAME, "a frame of the wrong form is reported as another error");
    if server { cover("unmasked frame to a server") } else { cover("masked frame to a client") }
    log(e as u64);
}
fn c06_exchange() {
    // param 0: the receiver is a server, 1: way of sending, 2: way of receiving, 3: messages, 4: length
    let (server, sapi, rapi, k, n) = (param(0) == 1, param(1), param(2), param(3), param(4));
    let p = Pipe::new(&[]);
    let mut sent = vec![];
    for i in 0..k {
        let kind = choose(6);
        let m = any_msg(kind, kind_len(kind, if i == 0 { n } else { n.min(3) }));
        check(send(sapi, !server, &m, &p).is_ok(), "a sendable message is refused");
        sent.push(m);
    }
    let w = p.out();
    let q = Pipe::new(&w);
    let (got, e) = receive(rapi, server, None, q);
    check(e == END, "what one end sends the other refuses");
    check_msgs(&got, &sent, "the messages received are not those sent");
    cover("received");
    for m in &got { m.log() }
}
fn c06_many() {
    // many messages over one connection: param 0: the receiver is a server, 1: how they are received, 2: messages, 3: longest
    let (server, rapi, k, max) = (param(0) == 1, param(1), param(2), param(3));
    let a = Pipe::new(&[]).end(io::ErrorKind::WouldBlock);
    let mut from = Talker::new(param(4) == 1, !server, a.clone());
    let mut sent = vec![];
    rand::rngs::arbitrary_draws(20);
    for i in 0..k {
        // (mostly fixed content)
        let n = [3, 0, max, 1][i % 4];
        let mut d: Vec<u8> = (0..n).map(|j| b'!' + ((i + j) % 90) as u8).collect();
        if n > 0 && i % (k / 8 + 1) < 4 { let c = byte(); assume(c < 0x80); d[n / 2] = c; }
        let m = Msg { kind: [1, 2, 1, 9, 2, 10, 1][i % 7], code: None, data: d };
        let m = if m.kind > 8 { Msg { data: m.data[..m.data.len().min(125)].to_vec(), ..m } } else { m };
        check(from.send(&m), "a sendable message is refused");
        sent.push(m);
    }
    let w = a.out();
    let cuts: Vec<usize> = match choose(3) { 0 => vec![], 1 => vec![w.len() / 2], _ => (1..w.len()).step_by(1000).collect() };
    let (got, e) = receive(rapi, server, None, Pipe::new(&w).cut(&cuts, false));
    check(e == END, "what one end sends the other refuses");
    check_msgs(&got, &sent, "the messages received are not those sent");
    cover("received");
    log(got.len() as u64);
}
fn c06_queue() {
    // messages that wait together to be written: param 0: the receiver is a server, 1: queued by the codec for 0 owned messages, 1 borrowed ones, 2 frames, 3: a framed connection; 2: sizes, 3: way of receiving
    let (server, way, sizes, rapi) = (param(0) == 1, param(1), param(2), param(3));
    rand::rngs::arbitrary_draws(20);
    let lens: Vec<usize> = match sizes { 0 => vec![1000; 30], 1 => vec![3, 70000, 9], 2 => vec![9; 300], 3 => vec![4000, 4000, 4000, 20000, 2], 4 => vec![125; 70], _ => vec![100, 8000, 66000, 1] };
    let k = lens.len();
    let mut b = BytesMut::new();
    let mut out = vec![];
    let (mut owned, mut borrowed, mut frames): (_, MessageCodec<Message<'static>>, DataFrameCodec<Box<dyn Framelike>>) = (codec(!server, None), MessageCodec::new(ctx(!server)), DataFrameCodec::new(ctx(!server)));
    let p = Pipe::new(&[]);
    let mut fr = codec(!server, None).framed(p.clone());
    // some of what waits is written at one point
    let (at, amount) = ([k, 0, 1, k / 2][choose(4)], [1, 1000, usize::MAX][choose(3)]);
    let mut sent = vec![];
    for i in 0..k {
        let n = lens[i];
        let mut d: Vec<u8> = (0..n).map(|j| b'!' + ((i + j) % 90) as u8).collect();
        if i < 2 || i > k - 3 { let c = byte(); assume(c < 0x80); d[n / 2] = c; }
        let m = Msg { kind: if n > 125 { [1, 2][i % 2] } else { [1, 9, 2, 10][i % 4] }, code: None, data: d };
        let ok = match way {
            0 => owned.encode(m.owned(), &mut b).is_ok(),
            1 => { let x: Message<'static> = Message::from(m.owned()); borrowed.encode(x, &mut b).is_ok() }
            2 => { let d: Box<dyn Framelike> = Box::new(frame_of(0x80 | m.kind, m.payload())); frames.encode(d, &mut b).is_ok() }
            _ => match fr.start_send(m.owned()) { Ok(AsyncSink::Ready) => true, _ => false },
        };
        check(ok, "a sendable message is refused");
        sent.push(m);
        if i == at {
            if way == 3 { check(match fr.poll_complete() { Ok(Async::Ready(())) => true, _ => false }, "messages are not written out") }
            else { let a = amount.min(b.len()); out.extend_from_slice(&b.split_to(a)) }
        }
    }
    if way == 3 { check(match fr.poll_complete() { Ok(Async::Ready(())) => true, _ => false }, "messages are not written out"); out = p.out() } else { out.extend_from_slice(&b) }
    let (got, e) = receive(rapi, server, None, Pipe::new(&out));
    check(e == END, "what one end sends the other refuses");
    check_msgs(&got, &sent, "the messages received are not those sent");
    cover("received");
    log(got.len() as u64);
}
fn c06_conversation() {
    // two ends talking in any order, one connection each all along
    // param 0: the client end (0 blocking, 1 asynchronous), 1: the server end, 2: steps, 3: longest message
    let (steps, max) = (param(2), param(3));
    let (a, b) = (Pipe::new(&[]).end(io::ErrorKind::WouldBlock), Pipe::new(&[]).end(io::ErrorKind::WouldBlock));
    let mut ends = [Talker::new(param(0) == 1, false, a.clone()), Talker::new(param(1) == 1, true, b.clone())];
    let pipes = [a, b];
    let mut flight: [Vec<Msg>; 2] = [vec![], vec![]]; // sent to the end, not yet received there
    let kind0 = choose(6);
    for i in 0..=steps {
        if i < steps {
            let who = choose(2);
            let kind = (kind0 + i) % 6;
            let m = any_msg(kind, kind_len(kind, [1, 0, 3, max, 2, 126][i % 6].min(max)));
            check(ends[who].send(&m), "a sendable message is refused");
            let w = pipes[who].take_out();
            pipes[1 - who].more(&w);
            flight[1 - who].push(m);
        }
        // either end may receive what there is, now or later
        for to in 0..2 {
            if flight[to].is_empty() || !(i == steps || choose(2) == 1) { continue }
            for m in std::mem::take(&mut flight[to]) { match ends[to].next() { Some(x) => x.check(&m, "a message received is not the one sent"), None => fail("a message sent is not received") } }
        }
    }
    cover("received");
}
fn c11_frame_limit() {
    // an arbitrary announced length against an arbitrary limit; nothing behind the header is there to be read
    // param 0: server, 1: reader, 2: form of the length (1: 7 bits, 3: 16 bits, 9: 64 bits), 3: 1 = the default limit
    let (server, which, form) = (param(0) == 1, param(1), param(2));
    let limit = if param(3) == 1 { BIG } else { u32v() as usize };
    let b0 = byte();
    assume(b0 & 8 == 0);
    let mut w = vec![b0];
    let m = if server { 0x80 } else { 0 };
    let len = match form {
        1 => { let l = byte(); assume(l < 126); w.push(m | l); l as u64 }
        3 => {
            // within the limit the receiver's buffer has the announced size: a choice of sizes
            let l = if choose(2) == 0 { let l = u16v(); assume(l > 125 && l as usize > limit); l }
                else { let k = choose(24) as u16; let l = if k < 14 { 126 + k } else { [255, 256, 257, 1000, 4096, 8191, 32767, 32768, 65534, 65535][k as usize - 14] }; assume(l as usize <= limit); l };
            w.push(m | 126); w.extend_from_slice(&l.to_be_bytes()); l as u64 }
        _ => { let l = u64v(); assume(l > 65535); w.push(m | 127); w.extend_from_slice(&l.to_be_bytes()); l }
    };
    if server { w.extend_from_slice(&bytes::<4>()); }
    let lims = if param(3) == 1 { None } else { Some((limit, BIG * 40)) };
    // a read behind the header reports this, which is then what the reader reports
    const ASKED: io::ErrorKind = io::ErrorKind::NotConnected;
    let over = len > limit as u64;
    let asked; // the payload was awaited, without an error
    let e = match which {
        0 | 1 | 2 | 3 => {
            let hl = w.len();
            let mut t = Trap { data: w, at: 0, asked: false };
            let mut r = match lims { None => Receiver::new(server), Some((f, m)) => Receiver::new_with_limits(server, f, m) };
            let e = match which {
                0 => r.recv_dataframe(&mut t).err(),
                1 => r.recv_message_dataframes(&mut t).err(),
                2 => r.recv_message(&mut t).err(),
                _ => DataFrame::read_dataframe_with_limit(&mut t, server, limit).err(),
            };
            asked = t.asked;
            check(t.at == hl, "the header is not read whole");
            e
        }
        _ => {
            let mut b = BytesMut::from(&w[..]);
            let x = if which == 4 { let mut c: DataFrameCodec<DataFrame> = match lims { None => DataFrameCodec::new(ctx(server)), Some((f, _)) => DataFrameCodec::new_with_limits(ctx(server), f) }; c.decode(&mut b).map(|x| x.is_some()) }
                else { codec(server, lims).decode(&mut b).map(|x| x.is_some()) };
            asked = matches!(x, Ok(false)) && len > 0;
            x.err()
        }
    };
    if over {
        check(!asked, "the payload of a frame over the limit is awaited");
        match e { None => fail("a frame over the limit is no error"), Some(e) => check(class(&e) != END, "a frame over the limit is reported as end of data") }
        cover("over the limit");
    } else if len > 0 {
        check(asked, "a frame within the limit is refused for its size");
        cover("within the limit");
    }
    log(over as u64);
}
fn c11_frame_content() {
    // whole frames of up to param 2 bytes against a limit of param 3: param 0: server, 1: way of receiving, 4: frames
    let (server, api, max, limit, frames) = (param(0) == 1, param(1), param(2), param(3), param(4));
    let mut w = vec![];
    let mut want = vec![];
    let mut over = false;
    for _ in 0..frames {
        let n = choose(max + 1);
        let k = [2, 9, 10][choose(3)];
        let p = long(n);
        w.extend_from_slice(&wire(0x80 | k, &p, key_for(server)));
        over |= n > limit;
        if !over { want.push(Msg { kind: k, code: None, data: p }); }
    }
    // the message limit does not count for messages in one frame
    let (got, e) = receive(api, server, Some((limit, choose(2))), Pipe::new(&w));
    check_msgs(&got, &want, "what is delivered is not the frames within the limit");
    check((e != END) == over, if over { "a frame over the limit is no error" } else { "a frame within the limit is refused" });
    if over { cover("over the limit") } else { cover("within the limit") }
    for m in &got { m.log() }
}
fn c11_message_limit() {
    // param 0: server, 1: blocking, 2: fragments, 3: longest fragment, 4: control frames in between
    let (server, blocking, frames, max, ctl) = (param(0) == 1, param(1) == 1, param(2), param(3), param(4) == 1);
    let limit = u16v() as usize;
    let mut rx = Receiver::new_with_limits(server, BIG, limit);
    let mut cd = codec(server, Some((BIG, limit)));
    let mut buf = BytesMut::new();
    let mut total = 0;
    for i in 0..frames {
        let n = if max > 8 { [max, 1, 0][choose(if frames > 5 { 2 } else { 3 })] } else { choose(max + 1) };
        total += n;
        let mut w = if ctl && i > 0 && choose(2) == 1 { wire(0x89, &[1], key_for(server)) } else { vec![] };
        let ping = !w.is_empty();
        w.extend_from_slice(&wire(if i == 0 { 2 } else { 0 }, &if max > 8 { vec![5; n] } else { vec(n) }, key_for(server)));
        // an error, or the wish for more
        let err = if blocking {
            let mut t = Trap { data: w, at: 0, asked: false };
            if ping { match rx.recv_message(&mut t) { Ok(OwnedMessage::Ping(_)) => (), _ => fail("a ping between fragments is not delivered") } }
            let e = match rx.recv_message(&mut t) { Ok(_) => fail("an unfinished message is delivered"), Err(e) => e };
            check(t.at == t.data.len(), "not all of the fragment is read");
            if t.asked { check(class(&e) == IO, "the transport's error is not reported"); None } else { Some(e) }
        } else {
            buf.extend_from_slice(&w);
            if ping { match cd.decode(&mut buf) { Ok(Some(OwnedMessage::Ping(_))) => (), _ => fail("a ping between fragments is not delivered") } }
            match cd.decode(&mut buf) { Ok(Some(_)) => fail("an unfinished message is delivered"), Ok(None) => None, Err(e) => Some(e) }
        };
        match err {
            Some(e) => {
                check(class(&e) == PROTO, "exceeding the message limit is reported as another error");
                // every frame counts for up to 64 bytes more than its payload
                check(total + 64 * (i + 1) >= limit, "an unfinished message within the limit is refused");
                cover("over the limit");
                log(i as u64);
                return;
            }
            None => check(total <= limit, "another frame is awaited although the limit is exceeded"),
        }
    }
    cover("within the limit");
    // the final fragment ends it
    let w = wire(0x80, &[9], key_for(server));
    let m = if blocking { rx.recv_message(&mut &w[..]).ok() } else { buf.extend_from_slice(&w); cd.decode(&mut buf).ok().and_then(|x| x) };
    match m { Some(OwnedMessage::Binary(b)) => check(b.len() == total + 1, "wrong length"), _ => fail("a message within the limit is not delivered") }
    log(total as u64);
}
fn c18_send() {
    // param 0: server, 1: way of sending, 2: length, 3: short writes, 4: interruptions, 5: 1 = the transport fails, 2 = it stops accepting
    let (server, api, n) = (param(0) == 1, param(1), param(2));
    let kind = choose(6);
    let m = any_msg(kind, kind_len(kind, n));
    let p = Pipe::new(&[]);
    let hl = |l: usize| (if l < 126 { 2 } else if l < 65536 { 4 } else { 10 }) + if server { 0 } else { 4 };
    let pl = m.payload().len();
    let size = hl(pl) + pl;
    // a codec's framing takes a blocked write for one to resume
    let ek = if param(5) == 1 { [io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset, io::ErrorKind::WouldBlock][choose(if api == 11 { 3 } else { 4 })] } else { io::ErrorKind::BrokenPipe };
    {
        let mut s = p.0.borrow_mut();
        s.short = param(3);
        if api == 11 { s.wblock = param(4) } else { s.intr = param(4) }
        if param(5) > 0 {
            let at = if size <= 24 { choose(size) } else { [0, 1, 2, 5, 9, size / 2, size - 2, size - 1][choose(8)] };
            s.fail = Some((at, if param(5) == 1 { Some(ek) } else { None }));
        }
    }
    let r = send(api, server, &m, &p);
    let s = p.0.borrow();
    // the key is what follows the header on the wire, as far as it was sent
    let key = if server { None } else { let h = hl(pl) - 4; let k = |i: usize| s.out.get(h + i).copied().unwrap_or(0); Some([k(0), k(1), k(2), k(3)]) };
    let want = wire(0x80 | m.kind, &m.payload(), key);
    if param(5) > 0 {
        check(s.failed, "the failure is not met");
        match r {
            Ok(()) => fail("a failed send is reported as success"),
            Err(WebSocketError::IoError(e)) => check(e.kind() == if param(5) == 1 { ek } else { io::ErrorKind::WriteZero }, "the transport's error is reported as one of another kind"),
            Err(_) => fail("the transport's failure is not reported as an I/O error"),
        }
        check(s.out.len() <= want.len(), "more than the frame is sent");
        check(s.after == 0, "bytes are sent after the failure");
        check_same(&s.out, &want[..s.out.len()], "what was sent before the failure is no prefix of the frame");
        cover("failure reported");
    } else {
        check(r.is_ok(), "sending fails although the transport does not");
        check_same(&s.out, &want, "what is sent is not the frame");
        cover("sent");
    }
    log(s.out.len() as u64);
}
fn c18_sequence() {
    // several messages over one connection, short writes and interruptions anywhere: param 0: server, 1: messages, 2: length, 3: short writes, 4: interruptions, 5: 1 = through the split writer
    let (server, k, n) = (param(0) == 1, param(1), param(2));
    let p = Pipe::new(&[]);
    { let mut s = p.0.borrow_mut(); s.short = param(3); s.intr = param(4); }
    let mut c = Some(client(p.clone(), server, None));
    let mut w = if param(5) == 1 { match c.take().unwrap().split() { Ok((_, w)) => Some(w), Err(_) => fail("splitting fails") } } else { None };
    let kind0 = choose(6);
    for i in 0..k {
        let kind = (kind0 + 5 * i) % 6;
        let m = any_msg(kind, kind_len(kind, if i == 1 { n } else { 2 }));
        let r = match (&mut c, &mut w) { (Some(c), _) => c.send_message(&m.owned()), (_, Some(w)) => w.send_message(&m.borrowed()), _ => fail("no end") };
        check(r.is_ok(), "sending fails although the transport does not");
        let o = p.take_out();
        let key = if server { None } else { let pl = m.payload().len(); let h = if pl < 126 { 2 } else { 4 }; let g = |i: usize| o.get(h + i).copied().unwrap_or(0); Some([g(0), g(1), g(2), g(3)]) };
        check_same(&o, &wire(0x80 | m.kind, &m.payload(), key), "what is sent is not the frame");
        log(o.len() as u64);
    }
    cover("sent");
}
fn c18_async_failure() {
    // a framed connection: a failing write surfaces, blocked ones are resumed; two messages
    let (server, n, short, blk) = (param(0) == 1, param(1), param(2), param(3));
    let p = Pipe::new(&[]);
    { let mut s = p.0.borrow_mut(); s.short = short; s.wblock = blk; }
    let mut fr = codec(server, None).framed(p.clone());
    let a = any_msg(1, n);
    let b = any_msg(0, 2);
    let mut want = vec![];
    let mut polls = 0;
    for m in [&a, &b] {
        let mut item = m.owned();
        loop { match fr.start_send(item) { Ok(AsyncSink::Ready) => break, Ok(AsyncSink::NotReady(x)) => { item = x; } Err(_) => fail("a message is refused") } }
        if choose(2) == 1 { match fr.poll_complete() { Ok(Async::Ready(())) => (), Ok(Async::NotReady) => cover("blocked"), Err(_) => fail("flushing fails") } }
    }
    loop { polls += 1; check(polls < 30, "flushing never ends"); match fr.poll_complete() { Ok(Async::Ready(())) => break, Ok(Async::NotReady) => cover("blocked"), Err(_) => fail("flushing fails") } }
    let o = p.out();
    for m in [&a, &b] {
        let k = |i: usize| o.get(want.len() + 2 + i).copied().unwrap_or(0);
        let key = if server { None } else { Some([k(0), k(1), k(2), k(3)]) };
        want.extend_from_slice(&wire(0x80 | m.kind, &m.payload(), key));
    }
    check_same(&o, &want, "what is sent is not the frames");
    log(want.len() as u64);
}
fn c19_split() {
    // param 0: server, 1: how (0 split, 1 split of a pair, 2 unwrap), 2: frames before, 3: frames after, 4: payload length
    let (server, how, before, after, n) = (param(0) == 1, param(1), param(2), param(3), param(4));
    let mut w = vec![];
    let mut want = vec![];
    let mut ends = vec![];
    let mut acc: Option<Vec<u8>> = None;
    for i in 0..before + after {
        let p = if n > 125 {
            let mut v: Vec<u8> = (0..n).map(|k| (k % 251) as u8).collect();
            for k in [0, 1, 2, 3, n / 2, n - 2, n - 1] { v[k] = byte(); }
            v
        } else { long(n) };
        // whole message, control frame, or the pieces of a fragmented one
        let k = if n > 125 { choose(2) * 2 } else { choose(3) };
        let b0 = match (k, acc.is_some()) {
            (1, _) => { want.push(Msg { kind: 9, code: None, data: p.clone() }); ends.push(i); 0x89 }
            (0, false) => { want.push(Msg { kind: 2, code: None, data: p.clone() }); ends.push(i); 0x82 }
            (0, true) => { acc.as_mut().unwrap().extend_from_slice(&p); 0 }
            (_, false) => { acc = Some(p.clone()); 2 }
            (_, true) => { let mut a = acc.take().unwrap(); a.extend_from_slice(&p); want.push(Msg { kind: 2, code: None, data: a }); ends.push(i); 0x80 }
        };
        w.extend_from_slice(&wire(b0, &p, key_for(server)));
    }
    let cut = if w.len() <= 64 { choose(w.len() + 1) } else { let one = w.len() / (before + after); [0, 1, one - 1, one, one + 1, 4095, 4096, 4097, w.len() - 1, w.len()][choose(10)].min(w.len()) };
    let lim = (n + 1, 2000 + 4 * n);
    let p = Pipe::new(&w).cut(&[cut], false);
    let first = choose(want.len() + 1);
    let mut got = vec![];
    let tail = wire(0x82, &vec![7; n + 2], key_for(server)); // over the frame limit
    let reply = Msg { kind: 9, code: None, data: vec![1, 2, 3] };
    if how == 1 {
        let out = Pipe::new(&[]);
        let mut c = client(ReadWritePair(p.clone(), out.clone()), server, Some(lim));
        for _ in 0..first { match c.recv_message() { Ok(m) => got.push(Msg::from_owned(&m)), Err(_) => fail("a message is not delivered") } }
        let (mut r, mut x) = match c.split() { Ok(x) => x, Err(_) => fail("splitting fails") };
        after_split(&mut r, &mut x, &p, &out, &tail, &reply, server, got, &want);
    } else {
        let mut c = client(p.clone(), server, Some(lim));
        for _ in 0..first { match c.recv_message() { Ok(m) => got.push(Msg::from_owned(&m)), Err(_) => fail("a message is not delivered") } }
        if how == 0 {
            let (mut r, mut x) = match c.split() { Ok(x) => x, Err(_) => fail("splitting fails") };
            after_split(&mut r, &mut x, &p, &p, &tail, &reply, server, got, &want);
        } else {
            check_msgs(&got, &want[..first], "the messages received are not those sent");
            let (s, b) = c.into_stream();
            let mut rest = match b { Some((buf, pos, cap)) => { check(pos <= cap && cap <= buf.len(), "the buffer handed back is not one"); buf[pos..cap].to_vec() } None => vec![] };
            rest.extend_from_slice(&s.rest());
            // the frames not yet received are those behind the last received message
            let used = if first == 0 { 0 } else { let f = ends[first - 1]; let one = w.len() / (before + after); (f + 1) * one };
            check_same(&rest, &w[used..], "the bytes handed back are not those not yet received");
            cover("unwrapped");
        }
    }
    log(first as u64); log(want.len() as u64);
}
}
fn after_split(r: &mut Reader<Pipe>, x: &mut Writer<Pipe>, p: &Pipe, out: &Pipe, tail: &[u8], reply: &Msg, server: bool, mut got: Vec<Msg>, want: &[Msg]) {
    loop { match r.recv_message() { Ok(m) => got.push(Msg::from_owned(&m)), Err(e) => { check(class(&e) == END, "what was buffered is refused after splitting"); break } } }
    check_msgs(&got, want, "the messages received before and after splitting are not those sent");
    cover("split");
    // limits and roles stay
    p.more(tail);
    match r.recv_message() { Ok(_) => fail("the frame limit is lost by splitting"), Err(e) => check(class(&e) != END, "the frame limit is lost by splitting") }
    check(x.send_message(&reply.owned()).is_ok(), "the writer does not send");
    let o = out.out();
    let s = match peel(&o) { Some(s) => s, None => fail("what the writer sends is no frame") };
    check(s.masked != server, "the writer forgets its role");
    check_same(&s.data, &reply.data, "the writer sends something else");
    for m in &got { m.log() }
}
/// A transport that has these bytes and fails, remembering it, when asked for more.
pub struct Trap { pub data: Vec<u8>, pub at: usize, pub asked: bool }
impl Read for Trap {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        let k = (self.data.len() - self.at).min(b.len());
        if k == 0 { self.asked = true; return Err(io::ErrorKind::NotConnected.into()) }
        b[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
/// One end of a conversation.
pub enum Talker { Sync(Client<Pipe>), Async(Framed<Pipe, MessageCodec<OwnedMessage>>) }
impl Talker {
    pub fn new(asy: bool, server: bool, p: Pipe) -> Talker { if asy { Talker::Async(codec(server, None).framed(p)) } else { Talker::Sync(client(p, server, None)) } }
    pub fn send(&mut self, m: &Msg) -> bool {
        match self {
            Talker::Sync(c) => c.send_message(&m.owned()).is_ok(),
            Talker::Async(f) => { match f.start_send(m.owned()) { Ok(AsyncSink::Ready) => (), _ => return false } match f.poll_complete() { Ok(Async::Ready(())) => true, _ => false } }
        }
    }
    pub fn next(&mut self) -> Option<Msg> {
        match self {
            Talker::Sync(c) => c.recv_message().ok().map(|m| Msg::from_owned(&m)),
            Talker::Async(f) => match f.poll() { Ok(Async::Ready(Some(m))) => Some(Msg::from_owned(&m)), _ => None },
        }
    }
}
