//! C40: everything done on one connection takes its place in one order.
use crate::conn::client;
use crate::http::*;
use crate::sym::*;
use crate::util::*;
use bytes::BytesMut;
use futures::{Async, AsyncSink, Sink as _, Stream as _};
use std::io::{ErrorKind, Read, Write};
use tokio_codec::{Decoder, Encoder};
use websocket::client::sync::Client;
use websocket::server::upgrade::{r#async as asy, sync as syn};
use websocket::stream::ReadWritePair;
use websocket_base::codec::ws::DataFrameCodec;
use websocket_base::dataframe::DataFrame;
use websocket_base::message::OwnedMessage;
use websocket_base::result::WebSocketError;
use websocket_base::ws::dataframe::DataFrame as Framelike;
use websocket_base::ws::util::update_framed_codec;

/// Payloads: short ones arbitrary, of long ones some bytes.
fn some(n: usize) -> Vec<u8> {
    if n <= 8 { return vec(n) }
    let mut v: Vec<u8> = (0..n).map(|k| (k % 251) as u8).collect();
    for k in [0, 1, 2, 3, n / 2, n - 2, n - 1] { v[k] = byte(); }
    v
}
pub const OPS: usize = 12;
/// What an operation reads, put at the end of the input when it is one that reads.
enum Plan { Msgs(Vec<Msg>), Frame(u8, Vec<u8>), Raw(Vec<u8>), Piece(Vec<u8>), Other }
fn plan(op: usize, server: bool, n: usize, open: &mut Option<Vec<u8>>, input: &mut Vec<u8>) -> Plan {
    let mut message = |first: bool| {
        let d = some(n);
        if let Some(mut a) = open.take() {
            // the message begun before others ends here, or another piece of it comes with a ping behind
            input.extend_from_slice(&wire(0x80, &d, key_for(server)));
            a.extend_from_slice(&d);
            return Msg { kind: 2, code: None, data: a };
        }
        if first && choose(2) == 1 {
            input.extend_from_slice(&wire(2, &d, key_for(server)));
            *open = Some(d);
            let d = some(n.min(125));
            input.extend_from_slice(&wire(0x89, &d, key_for(server)));
            return Msg { kind: 9, code: None, data: d };
        }
        input.extend_from_slice(&wire(0x82, &d, key_for(server)));
        Msg { kind: 2, code: None, data: d }
    };
    match op {
        0 | 1 => Plan::Msgs(vec![message(true)]),
        2 => { let a = message(false); let b = message(true); Plan::Msgs(vec![a, b]) }
        3 | 4 => { let b0 = byte(); assume((b0 & 8 == 0) | (b0 & 0x80 != 0) & (n < 126)); let d = some(n); input.extend_from_slice(&wire(b0, &d, key_for(server))); Plan::Frame(b0, d) }
        5 => { let d = some(n + 1); input.extend_from_slice(&d); Plan::Raw(d) }
        6 => { let d = some(2); input.extend_from_slice(&d); Plan::Piece(d) }
        _ => Plan::Other,
    }
}
fn frame_is(r: Result<DataFrame, WebSocketError>, b0: u8, d: &[u8]) {
    match r {
        Ok(f) => {
            check(same(&[(f.finished as u8) << 7 | (f.reserved[0] as u8) << 6 | (f.reserved[1] as u8) << 5 | (f.reserved[2] as u8) << 4 | f.opcode as u8], &[b0]), "a frame received is not the next one");
            check_same(&f.data, d, "a frame received is not the next one");
        }
        Err(_) => fail("the next frame is not received"),
    }
}
fn msg_is(r: Result<OwnedMessage, WebSocketError>, want: &Msg) {
    match r { Ok(m) => Msg::from_owned(&m).check(want, "a message received is not the next one"), Err(_) => fail("the next message is not received") }
}
/// The frame on the wire is this one, in the form of its role, and nothing else is.
fn sent(o: &[u8], server: bool, b0: u8, d: &[u8]) {
    let h = if d.len() < 126 { 2 } else { 4 };
    let k = |i: usize| o.get(h + i).copied().unwrap_or(0);
    let key = if server { None } else { Some([k(0), k(1), k(2), k(3)]) };
    check_same(o, &wire(b0, d, key), "what is on the wire is not what was sent last");
}
fn perform<S: Read + Write>(op: usize, c: &mut Client<S>, plan: Plan, server: bool, n: usize, out: &Pipe, own: &dyn Fn(&S) -> bool) {
    check(own(c.stream_ref()), "the stream referred to is not the connection's");
    match (op, plan) {
        (0, Plan::Msgs(w)) => msg_is(c.recv_message(), &w[0]),
        (_, Plan::Msgs(w)) => { let mut i = c.incoming_messages(); for w in &w { match i.next() { Some(r) => msg_is(r, w), None => fail("the iterator over messages ends") } } }
        (3, Plan::Frame(b0, d)) => frame_is(c.recv_dataframe(), b0, &d),
        (_, Plan::Frame(b0, d)) => match c.incoming_dataframes().next() { Some(r) => frame_is(r, b0, &d), None => fail("the iterator over frames ends") },
        (_, Plan::Raw(d)) => { let mut b = vec![0; d.len()]; check(c.reader_mut().read_exact(&mut b).is_ok(), "bytes received are not read"); check_same(&b, &d, "the bytes read are not the next ones") }
        (_, Plan::Piece(d)) => {
            // as many as there are, then the others
            let mut b = vec![0; d.len()];
            let mut at = 0;
            while at < d.len() { match c.reader_mut().read(&mut b[at..]) { Ok(k) if k > 0 && k <= d.len() - at => at += k, _ => fail("bytes received are not read") } }
            check_same(&b, &d, "the bytes read are not the next ones");
        }
        (7, _) => { let m = Msg { kind: 2, code: None, data: some(n) }; check(c.send_message(&m.owned()).is_ok(), "a message is not sent"); sent(&out.take_out(), server, 0x82, &m.data) }
        (8, _) => { let (b0, d) = (byte() & 0xF7, some(n)); check(c.send_dataframe(&frame_of(b0, d.clone())).is_ok(), "a frame is not sent"); sent(&out.take_out(), server, b0, &d) }
        (9, _) => { let d = some(n + 1); check(c.writer_mut().write_all(&d).is_ok(), "bytes are not written"); check_same(&out.take_out(), &d, "the bytes on the wire are not those written") }
        (10, _) => { let m = Msg { kind: 9, code: None, data: some(n.min(125)) }; check(c.send_message(&m.borrowed()).is_ok(), "a message is not sent"); sent(&out.take_out(), server, 0x89, &m.data) }
        _ => check(c.writer_mut().flush().is_ok(), "flushing fails"),
    }
    check(out.out().is_empty(), "something is written that nobody sent");
}

harnesses! {
fn c40_operations() {
    // every sequence of operations on one blocking connection: param 0: server, 1: how many, 2: payload length, 3: over a pair of streams, 4: read boundaries
    let (server, k, n, paired) = (param(0) == 1, param(1), param(2), param(3) == 1);
    let mut input = vec![];
    let mut open = None;
    let mut plans = vec![];
    for _ in 0..k { let op = choose(OPS); plans.push((op, plan(op, server, n, &mut open, &mut input))); }
    // behind them: what splitting or unwrapping must keep
    let end = choose(3);
    let last = Msg { kind: 2, code: None, data: some(n) };
    let mut last_wire = vec![];
    if let Some(a) = open.take() { last_wire.extend_from_slice(&wire(0x80, &last.data, key_for(server))); open = Some([a, last.data.clone()].concat()); }
    else { last_wire.extend_from_slice(&wire(0x82, &last.data, key_for(server))); }
    let last = Msg { kind: 2, code: None, data: match open { Some(a) => a, None => last.data } };
    input.extend_from_slice(&last_wire);
    let cuts: Vec<usize> = match param(4) { 0 => vec![], 1 => vec![if input.len() <= 100 { choose(input.len()) } else { [1, 2, 4095, 4096, 4097, input.len() - 1][choose(6)] }], _ => (0..input.len()).collect() };
    let p = Pipe::new(&input).cut(&cuts, false);
    macro_rules! run { ($s:expr, $out:expr, $own:expr) => {{
        let out = $out;
        let mut c = client($s, server, None);
        for (op, plan) in plans { perform(op, &mut c, plan, server, n, &out, &$own) }
        match end {
            0 => {
                let (_, b) = c.into_stream();
                let mut rest = match b { Some((buf, pos, cap)) => { check(pos <= cap && cap <= buf.len(), "the buffer handed back is not one"); buf[pos..cap].to_vec() } None => vec![] };
                rest.extend_from_slice(&p.rest());
                check_same(&rest, &last_wire, "the bytes handed back are not those not yet received");
                cover("unwrapped");
            }
            1 => {
                let (mut r, mut w) = match c.split() { Ok(x) => x, Err(_) => fail("splitting fails") };
                msg_is(r.recv_message(), &last);
                let m = Msg { kind: 10, code: None, data: some(2) };
                check(w.send_message(&m.owned()).is_ok(), "a message is not sent");
                sent(&out.take_out(), server, 0x8A, &m.data);
                cover("split");
            }
            _ => {
                msg_is(c.recv_message(), &last);
                // nothing is said by going away
                drop(c);
                check(out.out().is_empty(), "something is written that nobody sent");
                cover("dropped");
            }
        }
    }} }
    if paired {
        let o = Pipe::new(b"never read");
        let (a, b) = (p.clone(), o.clone());
        run!(ReadWritePair(p.clone(), o.clone()), o.clone(), |s: &ReadWritePair<Pipe, Pipe>| std::rc::Rc::ptr_eq(&s.0.0, &a.0) && std::rc::Rc::ptr_eq(&s.1.0, &b.0));
        check(o.rest().len() == 10, "the writing half is read from");
        check(p.out().is_empty(), "the reading half is written to");
    } else {
        let a = p.clone();
        run!(p.clone(), p.clone(), |s: &Pipe| std::rc::Rc::ptr_eq(&s.0, &a.0));
    }
    log(input.len() as u64);
}
fn c40_exchanged() {
    // the codec of a framed connection exchanged in the middle: param 0: server, 1: payload length, 2: 0 frames to messages, 1 messages to frames, 3: blocked writes
    let (server, n, way) = (param(0) == 1, param(1), param(2));
    let datas: Vec<Vec<u8>> = (0..3).map(|_| some(n)).collect();
    let mut w = vec![];
    for d in &datas { w.extend_from_slice(&wire(0x82, d, key_for(server))); }
    let cut = if w.len() <= 40 { choose(w.len()) } else { [0, 1, w.len() / 3, w.len() / 2, w.len() - 1][choose(5)] };
    let p = Pipe::new(&w).cut(&[cut], true).end(ErrorKind::WouldBlock);
    { let mut s = p.0.borrow_mut(); s.wblock = param(3); }
    let before = choose(3);
    let (x, y) = (some(n), some(2));
    let flush = choose(2) == 1;
    macro_rules! go { ($first:expr, $second:expr, $item:expr, $item2:expr, $payload:expr, $payload2:expr) => {{
        let mut f = $first.framed(p.clone());
        for d in &datas[..before] {
            let mut polls = 0;
            let got = loop { polls += 1; check(polls < 5, "what was received is not delivered"); match f.poll() { Ok(Async::Ready(Some(m))) => break m, Ok(Async::NotReady) => (), _ => fail("what was received is not delivered") } };
            check_same(&$payload(got), d, "what is delivered is not the next one received");
        }
        match f.start_send($item(&x)) { Ok(AsyncSink::Ready) => (), _ => fail("a framed connection takes no message") }
        if flush { match f.poll_complete() { Ok(_) => (), Err(_) => fail("flushing fails") } }
        let mut f = update_framed_codec(f, $second);
        for d in &datas[before..] {
            let mut polls = 0;
            let got = loop { polls += 1; check(polls < 5, "what was received before the exchange is lost"); match f.poll() { Ok(Async::Ready(Some(m))) => break m, Ok(Async::NotReady) => (), _ => fail("what was received before the exchange is lost") } };
            check_same(&$payload2(got), d, "what is delivered is not the next one received");
        }
        match f.start_send($item2(&y)) { Ok(AsyncSink::Ready) => (), _ => fail("a framed connection takes no message") }
        let mut polls = 0;
        loop { polls += 1; check(polls < 9, "flushing never ends"); match f.poll_complete() { Ok(Async::Ready(())) => break, Ok(Async::NotReady) => (), Err(_) => fail("flushing fails") } }
    }} }
    let frames = || { let c: DataFrameCodec<Box<dyn Framelike>> = DataFrameCodec::new(ctx(server)); c };
    let boxed = |d: &Vec<u8>| -> Box<dyn Framelike> { Box::new(frame_of(0x82, d.clone())) };
    let owned = |d: &Vec<u8>| OwnedMessage::Binary(d.clone());
    let of_frame = |f: DataFrame| f.data;
    let of_msg = |m: OwnedMessage| match m { OwnedMessage::Binary(d) => d, _ => fail("what is delivered is not the next one received") };
    if way == 0 { go!(frames(), codec(server, None), boxed, owned, of_frame, of_msg) } else { go!(codec(server, None), frames(), owned, boxed, of_msg, of_frame) }
    let o = p.out();
    let s = match peel(&o) { Some(s) => s, None => fail("what was accepted before the exchange is not sent") };
    check(s.masked != server && conc(s.b0 as u64) == 0x82, "what was accepted before the exchange is not sent");
    check_same(&s.data, &x, "what was accepted before the exchange is not sent");
    sent(&o[s.used..], server, 0x82, &y);
    cover("exchanged");
    log(cut as u64);
}
fn c40_let_go() {
    // an offered upgrade that is let go says nothing: param 0: asynchronous, 1: after choosing a subprotocol
    let (asy, chosen) = (param(0) == 1, param(1) == 1);
    let mut r = good_request(&b64(&[7; 16]));
    r.push(line("Sec-WebSocket-Protocol", b"a"));
    let p = Pipe::new(&join(&r)).end(ErrorKind::WouldBlock);
    macro_rules! go { ($u:expr) => { match $u { Ok(u) => { let u = if chosen { u.use_protocol("a") } else { u }; if choose(2) == 1 { u.drop() } else { drop(u) } } Err(_) => fail("a correct upgrade request is refused") } } }
    if asy { go!(drive(&mut *asy::IntoWs::into_ws(p.clone()))) } else { go!(syn::IntoWs::into_ws(p.clone())) }
    check(p.out().is_empty(), "something is written that nobody sent");
    cover("silent");
}
}
