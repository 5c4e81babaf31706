//! C06-C10, C13-C17: messages through the blocking and asynchronous receivers.
use crate::sym::*;
use crate::util::*;
use bytes::BytesMut;
use std::io::{self, Read, Write};
use tokio_codec::{Decoder, Encoder};
use websocket::receiver::Receiver;
use websocket::sender::Sender;
use websocket::ws::{Receiver as _, Sender as _};
use websocket_base::codec::ws::{DataFrameCodec, MessageCodec};
use websocket_base::dataframe::{DataFrame, Opcode};
use websocket_base::message::{CloseData, Message, OwnedMessage};
use websocket_base::result::WebSocketError;
use websocket_base::ws::dataframe::DataFrame as Framelike;
use websocket_base::ws::message::Message as Messagelike;

harnesses! {
fn c09_text() {
    // param 0: bytes of text in all, 1: fragments, 2: server, 3: blocking, 4: ASCII bytes before them
    let (frags, server, blocking, pre) = (param(1), param(2) == 1, param(3) == 1, param(4));
    let mut data = ascii(pre);
    data.extend_from_slice(&vec(param(0)));
    let n = data.len();
    let mut w = vec![];
    let mut at = 0;
    for i in 0..frags {
        let k = if i + 1 == frags { n - at } else { choose(n - at + 1) };
        w.extend_from_slice(&wire(if i == 0 { 1 } else { 0 } | if i + 1 == frags { 0x80 } else { 0 }, &data[at..at + k], key_for(server)));
        at += k;
    }
    w.extend_from_slice(&wire(0x82, &[7], key_for(server)));
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &[&w]) };
    let good = ref_utf8(&data);
    if r.1 == UTF8 {
        check(!good, "well-formed text is refused");
        check(r.0.is_empty(), "something is delivered before the malformed text");
        cover("refused");
    } else {
        check(good, "malformed text is delivered, or refused with another error");
        check(r.1 == END, "an error after well-formed text");
        check_msgs(&r.0, &[Msg { kind: 1, code: None, data }, Msg { kind: 2, code: None, data: vec![7] }], "the text is not delivered as sent");
        cover("delivered");
    }
    log_result(&r);
}
fn c09_long() {
    // arbitrary bytes within a long text: param 0: how many, 1: ASCII before, 2: ASCII behind, 3: server, 4: blocking, 5: 1 = cut into fragments around them
    let (n, pre, post, server, blocking) = (param(0), param(1), param(2), param(3) == 1, param(4) == 1);
    let mid = vec(n);
    let mut data: Vec<u8> = (0..pre).map(|i| b'a' + (i % 26) as u8).collect();
    data.extend_from_slice(&mid);
    data.extend((0..post).map(|i| b'A' + (i % 26) as u8));
    let cut = if param(5) == 1 { pre + choose(n + 1) } else { 0 };
    let mut w = vec![];
    if cut > 0 { w.extend_from_slice(&wire(1, &data[..cut], key_for(server))); }
    w.extend_from_slice(&wire(if cut > 0 { 0x80 } else { 0x81 }, &data[cut..], key_for(server)));
    w.extend_from_slice(&wire(0x82, &[7], key_for(server)));
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &[&w]) };
    let good = ref_utf8(&mid);
    if r.1 == UTF8 {
        check(!good, "well-formed text is refused");
        check(r.0.is_empty(), "something is delivered before the malformed text");
        cover("refused");
    } else {
        check(good, "malformed text is delivered, or refused with another error");
        check(r.1 == END, "an error after well-formed text");
        check_msgs(&r.0, &[Msg { kind: 1, code: None, data }, Msg { kind: 2, code: None, data: vec![7] }], "the text is not delivered as sent");
        cover("delivered");
    }
}
fn c09_reason() {
    let (n, server, blocking) = (param(0), param(1) == 1, param(2) == 1);
    let code = bytes::<2>();
    let reason = vec(n);
    let mut p = code.to_vec();
    p.extend_from_slice(&reason);
    let mut w = wire(0x88, &p, key_for(server));
    w.extend_from_slice(&wire(0x82, &[7], key_for(server)));
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &[&w]) };
    let good = ref_utf8(&reason);
    if r.1 == UTF8 {
        check(!good, "a well-formed reason is refused");
        check(r.0.is_empty(), "something is delivered before the malformed reason");
        cover("refused");
    } else {
        check(good, "a malformed reason is delivered, or refused with another error");
        check(r.1 == END, "an error after a well-formed reason");
        check_msgs(&r.0, &[Msg::of_payload(8, &p), Msg { kind: 2, code: None, data: vec![7] }], "the close message is not delivered as sent");
        cover("delivered");
    }
    log_result(&r);
}
fn c09_raw() {
    // binary, ping and pong payloads are delivered whatever they are
    let (n, frags, server, blocking) = (param(0), param(1), param(2) == 1, param(3) == 1);
    let data = long(n);
    let kind = if frags > 1 { 2 } else { [2, 9, 10][choose(if n > 125 { 1 } else { 3 })] };
    let mut w = vec![];
    let mut at = 0;
    for i in 0..frags {
        let k = if i + 1 == frags { n - at } else { choose(n - at + 1) };
        w.extend_from_slice(&wire(if i == 0 { kind } else { 0 } | if i + 1 == frags { 0x80 } else { 0 }, &data[at..at + k], key_for(server)));
        at += k;
    }
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &[&w]) };
    check(r.1 == END, "a payload that need not be text is refused");
    check(r.0.len() == 1, "not one message");
    check(r.0[0].kind == kind, "kind changed");
    check_same(&r.0[0].data, &data, "payload altered");
    log_result(&r);
}

fn c10_received() {
    let (n, server, blocking) = (param(0), param(1) == 1, param(2) == 1);
    let p = vec(n);
    let mut w = wire(0x88, &p, key_for(server));
    w.extend_from_slice(&wire(0x82, &[7], key_for(server)));
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &[&w]) };
    if n == 1 {
        check(r.0.is_empty() && r.1 != END, "a one-byte close payload is not an error, or one that says end of data");
        cover("too short");
    } else if r.1 != END {
        check(r.1 == UTF8, "a close message is refused for another reason than its text");
        check(n > 2 && !ref_utf8(&p[2..]), "a correct close message is refused");
        cover("bad reason");
    } else {
        let want = Msg::of_payload(8, &p);
        check_msgs(&r.0, &[want, Msg { kind: 2, code: None, data: vec![7] }], "the close message differs from its payload");
        check(n < 2 || ref_utf8(&p[2..]), "a reason that is not text is delivered");
        cover("delivered");
    }
    log_result(&r);
}
fn c10_long() {
    // long reasons: param 0: ASCII bytes, 1: arbitrary bytes behind them, 2: server, 3: blocking
    let (pre, n, server, blocking) = (param(0), param(1), param(2) == 1, param(3) == 1);
    let code = bytes::<2>();
    let mid = vec(n);
    let p = [&code[..], &ascii(pre), &mid].concat();
    let mut w = wire(0x88, &p, key_for(server));
    w.extend_from_slice(&wire(0x82, &[7], key_for(server)));
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &[&w]) };
    let good = ref_utf8(&mid);
    if r.1 != END {
        check(r.1 == UTF8, "a close message is refused for another reason than its text");
        check(!good, "a correct close message is refused");
        cover("bad reason");
    } else {
        check(good, "a reason that is not text is delivered");
        check_msgs(&r.0, &[Msg::of_payload(8, &p), Msg { kind: 2, code: None, data: vec![7] }], "the close message differs from its payload");
        cover("delivered");
    }
}
fn c10_sent() {
    // param 0: reason length; 1: masked
    let (n, masked) = (param(0), param(1) == 1);
    let with = choose(2) == 1;
    let m = any_msg(if with { 5 } else { 4 }, n);
    let mut out = Sink(vec![]);
    let r = if choose(2) == 1 { Sender::new(masked).send_message(&mut out, &m.owned()) } else { Sender::new(masked).send_message(&mut out, &m.borrowed()) };
    let p = m.payload();
    if p.len() > 125 {
        check(r.is_err() && out.0.is_empty(), "an oversized close message is not refused, or partly sent");
        cover("refused");
        return;
    }
    check(r.is_ok(), "sending a close message fails");
    let key = if masked { Some([out.0[2], out.0[3], out.0[4], out.0[5]]) } else { None };
    check(out.0.len() == p.len() + if masked { 6 } else { 2 }, "wrong number of bytes");
    let w = wire(0x88, &p, key);
    check_same(&out.0, &w, "the close frame is not code and reason");
    logs(&out.0);
}
fn c07_interleaved() {
    // param 0: server, 1: blocking, 2: frames after the first, 3: longest payload
    let (server, blocking, frames, maxlen) = (param(0) == 1, param(1) == 1, param(2), param(3));
    let kind = 1 + choose(2) as u8;
    let mut w = vec![];
    let mut want = vec![];
    let mut acc: Vec<u8> = vec![];
    let mut open = true;
    let mut first = true;
    for _ in 0..=frames {
        let n = if maxlen > 8 { maxlen } else { choose(maxlen + 1) };
        if first {
            let p = ascii(n);
            w.extend_from_slice(&wire(kind, &p, key_for(server)));
            acc.extend_from_slice(&p);
            first = false;
            continue;
        }
        match choose(if open { 5 } else { 3 }) {
            k @ 0..=2 => {
                let k = 8 + k as u8;
                let p = if k == 8 { if n == 1 { vec![] } else { ascii(n) } } else { vec(n) };
                w.extend_from_slice(&wire(0x80 | k, &p, key_for(server)));
                want.push(Msg::of_payload(k, &p));
                if open { cover("control frame inside a message"); }
            }
            fin => {
                let p = ascii(n);
                let fin = fin == 4;
                w.extend_from_slice(&wire(if fin { 0x80 } else { 0 }, &p, key_for(server)));
                acc.extend_from_slice(&p);
                if fin { want.push(Msg { kind, code: None, data: std::mem::take(&mut acc) }); open = false; cover("reassembled"); }
            }
        }
    }
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &[&w]) };
    check(r.1 == END, "a correct sequence of frames is refused");
    check(r.2 == 0, "bytes are left over");
    check_msgs(&r.0, &want, "the messages delivered are not those sent");
    log_result(&r);
}
fn c07_many() {
    // one message of many fragments with a few control frames anywhere between them, then another one of two
    // param 0: server, 1: blocking, 2: fragments, 3: fragment lengths are below this
    let (server, blocking, frags, below) = (param(0) == 1, param(1) == 1, param(2), param(3));
    let kind = 1 + choose(2) as u8;
    let spot = |n: usize| if frags <= 8 { 1 + choose(n - 1) } else if frags > 1000 { n - 1 - choose(2) * (n / 2) } else { [1, 2, n / 3, n / 2, n - 2, n - 1][choose(6)] };
    let (a, b) = (spot(frags), spot(frags));
    let ck = 8 + choose(3) as u8;
    let mut w = vec![];
    let mut want = vec![];
    let mut acc = vec![];
    // (of very many, all have the same key and only some arbitrary content)
    let shared = key_for(server);
    let key = |i: usize| if frags > 50 { shared } else if i == 0 { shared } else { key_for(server) };
    for i in 0..frags {
        for x in [a, b] { if x == i { let p = if ck == 8 { ascii(2) } else { vec(3) }; w.extend_from_slice(&wire(0x80 | ck, &p, key(i))); want.push(Msg::of_payload(ck, &p)); } }
        let l = (i * 7 + 3) % below;
        let p = if i < 30 { ascii(l) } else { vec![b'a' + (i % 26) as u8; l] };
        w.extend_from_slice(&wire(if i == 0 { kind } else { 0 } | if i + 1 == frags { 0x80 } else { 0 }, &p, key(i)));
        acc.extend_from_slice(&p);
    }
    want.push(Msg { kind, code: None, data: acc });
    let (p, q) = (ascii(2), ascii(1));
    w.extend_from_slice(&wire(3 - kind, &p, key_for(server)));
    w.extend_from_slice(&wire(0x80, &q, key_for(server)));
    want.push(Msg { kind: 3 - kind, code: None, data: [p, q].concat() });
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &[&w]) };
    check(r.1 == END, "a correct sequence of frames is refused");
    check(r.2 == 0, "bytes are left over");
    check_msgs(&r.0, &want, "the messages delivered are not those sent");
    cover("reassembled");
    log_result(&r);
}
fn c07_flood() {
    // many control frames between the fragments of a message: param 0: server, 1: blocking, 2: control frames, 3: their longest payload
    let (server, blocking, n, max) = (param(0) == 1, param(1) == 1, param(2), param(3));
    let same_kind = choose(3);
    let kind = 1 + choose(2) as u8;
    let (p, q, r) = (ascii(2), ascii(1), ascii(3));
    let key = key_for(server);
    let mut w = wire(kind, &p, key_for(server));
    let mut want = vec![];
    for i in 0..n {
        if i == n / 2 { w.extend_from_slice(&wire(0, &q, key)); }
        let ck = [9, 10, 9 + (i % 2) as u8][same_kind];
        let d = if i < 20 { vec(i % (max + 1)) } else { vec![i as u8; i % (max + 1)] };
        w.extend_from_slice(&wire(0x80 | ck, &d, key));
        want.push(Msg::of_payload(ck, &d));
    }
    w.extend_from_slice(&wire(0x80, &r, key_for(server)));
    want.push(Msg { kind, code: None, data: [p, q, r].concat() });
    let chunks: Vec<&[u8]> = if choose(2) == 0 { vec![&w] } else { w.chunks(7).collect() };
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &chunks) };
    check(r.1 == END, "a correct sequence of frames is refused");
    check(r.2 == 0, "bytes are left over");
    check_msgs(&r.0, &want, "the messages delivered are not those sent");
    cover("reassembled");
    log_result(&r);
}
fn c08_sequences() {
    // param 0: server, 1: blocking, 2: frames, 3: payload length
    let (server, blocking, frames, n) = (param(0) == 1, param(1) == 1, param(2), param(3));
    let mut w = vec![];
    let mut fs: Vec<(u8, Vec<u8>)> = vec![];
    for _ in 0..frames {
        let b0 = byte();
        // header errors are C02's subject: control frames here are final
        assume((b0 & 8 == 0) | (b0 & 0x80 != 0));
        let p = ascii(n);
        w.extend_from_slice(&wire(b0, &p, key_for(server)));
        fs.push((b0, p));
    }
    let r = if blocking { recv_sync(server, None, &w) } else { recv_async(server, None, &[&w]) };
    // reference
    let mut want: Vec<Msg> = vec![];
    let mut err = false;
    let mut part: Option<(u8, Vec<u8>, u8)> = None;
    for (b0, p) in &fs {
        let (op, rsv, fin) = (*b0 & 15, *b0 & 0x70, *b0 & 0x80 != 0);
        if op >= 8 {
            if op > 10 || rsv != 0 || (op == 8 && n == 1) { err = true; break }
            want.push(Msg::of_payload(op, p));
            continue;
        }
        match &mut part {
            None => { if op == 0 { err = true; break } part = Some((op, p.clone(), rsv)); }
            Some((_, acc, r)) => { if op != 0 { err = true; break } acc.extend_from_slice(p); *r |= rsv; }
        }
        if fin {
            let (k, d, r) = part.take().unwrap();
            if r != 0 || k > 2 { err = true; break }
            want.push(Msg { kind: k, code: None, data: d });
        }
    }
    check((r.1 != END) == err, if err { "an illegal sequence of frames is accepted" } else { "a legal sequence of frames is refused" });
    check_msgs(&r.0, &want, "the messages delivered are not those of the frames");
    if err { cover("refused") } else { cover("accepted") }
    log_result(&r);
}
fn c13_chunks() {
    // an arbitrary byte string, cut anywhere: param 0: server, 1: length, 2: cuts, 3: 1 = limits of 4 and 3 bytes
    let (server, n, cuts, lim) = (param(0) == 1, param(1), param(2), if param(3) == 1 { Some((4, 70)) } else { None });
    let w = vec(n);
    chunked(server, lim, &w, cuts);
}
fn c13_frames() {
    // whole frames of arbitrary kind: param 0: server, 1: frames, 2: payload length, 3: cuts, 4: limits
    let (server, frames, n, cuts, lim) = (param(0) == 1, param(1), param(2), param(3), if param(4) == 1 { Some((4, 70)) } else { None });
    let mut w = vec![];
    for _ in 0..frames {
        let b0 = byte();
        w.extend_from_slice(&wire(b0, &vec(n), key_for(server)));
    }
    chunked(server, lim, &w, cuts);
}
fn c13_long() {
    // longer frames: param 0: server, 1: length of the first, 2: kind of cutting, 3: limits
    let (server, n, how) = (param(0) == 1, param(1), param(2));
    let lim = match param(3) { 0 => None, 1 => Some((n, n)), _ => Some((n - 1, 1 << 20)) };
    let data = long(n);
    let key = key_for(server);
    let frag = choose(2) == 1;
    let mut w = wire(if frag { 2 } else { 0x82 }, &data, key);
    let hl = w.len() - n;
    let one = w.len();
    if frag { w.extend_from_slice(&wire(0x89, &vec(2), key_for(server))); w.extend_from_slice(&wire(0x80, &vec(1), key_for(server))); } else { w.extend_from_slice(&wire(0x8A, &vec(3), key_for(server))); }
    w.extend_from_slice(&wire(0x82, &vec(1), key_for(server)));
    let whole = recv_async(server, lim, &[&w]);
    let spots = [1, 2, 3, hl - 1, hl, hl + 1, hl + n / 2, one - 2, one - 1, one, one + 1, one + 2, w.len() - 1];
    let mut cuts: Vec<usize> = match how {
        0 => vec![spots[choose(spots.len())]],
        1 => { let i = choose(spots.len()); let j = i + choose(spots.len() - i); vec![spots[i], spots[j]] }
        2 => (1..w.len()).collect(),
        _ => (1..w.len()).step_by(if n < 1000 { [2, 3, 7, 64, 125, 126, 250][choose(7)] } else { [125, 1000, 1024, 4096][choose(4)] }).collect(),
    };
    cuts.sort();
    cuts.push(w.len());
    let mut v = vec![];
    let mut at = 0;
    for c in cuts { v.push(&w[at..c]); at = c; }
    let r = if choose(2) == 1 || how == 2 { recv_async(server, lim, &v) } else {
        // through a framed transport
        let mut cs = vec![];
        let mut at = 0;
        for x in &v { at += x.len(); cs.push(at) }
        let p = Pipe::new(&w).cut(&cs, true);
        let mut f = codec(server, lim).framed(p);
        let mut out = vec![];
        let e = loop { match futures::Stream::poll(&mut f) { Ok(futures::Async::Ready(Some(m))) => out.push(Msg::from_owned(&m)), Ok(futures::Async::Ready(None)) => break END, Ok(futures::Async::NotReady) => (), Err(e) => break class(&e) } };
        (out, e, 0)
    };
    check(r.1 == whole.1, "whether there is an error depends on how the bytes arrive");
    check_msgs(&r.0, &whole.0, "the messages depend on how the bytes arrive");
    if param(3) == 2 { check(r.0.is_empty() && r.1 != END, "a frame over the limit is taken"); cover("error"); }
    else if param(3) == 0 || !frag { check(r.1 == END && r.0.len() == 3, "a message is lost"); check_same(&r.0[if frag { 1 } else { 0 }].data[..n], &data, "a payload is altered"); cover("message"); }
}
fn c13_many() {
    // a message in many fragments with control frames anywhere between them, cut anywhere: param 0: server, 1: fragments, 2: control frames, 3: cuts (0: behind every frame)
    let (server, k, controls, cuts) = (param(0) == 1, param(1), param(2), param(3));
    let mut w = vec![];
    let mut ends = vec![];
    let mut left = controls;
    for i in 0..k {
        while left > 0 && choose(if i == 0 { 1 } else { 2 }) == 1 { left -= 1; w.extend_from_slice(&wire(if choose(2) == 0 { 0x89 } else { 0x88 }, &[], key_for(server))); ends.push(w.len()) }
        let b0 = if i == 0 { 2 } else { 0 } | if i + 1 == k { 0x80 } else { 0 };
        w.extend_from_slice(&wire(b0, &vec(i % 2), key_for(server)));
        ends.push(w.len());
    }
    w.extend_from_slice(&wire(0x82, &vec(1), key_for(server)));
    let whole = recv_async(server, None, &[&w]);
    let mut cs: Vec<usize> = vec![];
    if cuts == 0 { cs = ends } else { let mut at = 0; for _ in 0..cuts { at += choose(w.len() - at); cs.push(at) } }
    cs.push(w.len());
    let mut v = vec![];
    let mut at = 0;
    for c in cs { v.push(&w[at..c]); at = c; }
    let r = recv_async(server, None, &v);
    check(r.1 == END && whole.1 == END, "a correct stream is refused");
    check_msgs(&r.0, &whole.0, "the messages depend on how the bytes arrive");
    check(r.0.len() == controls - left + 2, "a message is lost");
    cover("message");
}
fn c13_frame_codec() {
    // the frame codec: nothing of an incomplete frame is consumed, exactly the frame's bytes otherwise
    let (server, n) = (param(0) == 1, param(1));
    let w = vec(n);
    let mut c: DataFrameCodec<DataFrame> = DataFrameCodec::new(ctx(server));
    let mut whole = BytesMut::new();
    whole.extend_from_slice(&w);
    let r = c.decode(&mut whole);
    let used = n - whole.len();
    check_same(&whole, &w[used..], "the bytes left are not those behind the frame");
    // the same bytes, one at a time
    let mut c: DataFrameCodec<DataFrame> = DataFrameCodec::new(ctx(server));
    let mut buf = BytesMut::new();
    let mut first = None;
    for i in 0..n {
        buf.extend_from_slice(&w[i..i + 1]);
        match c.decode(&mut buf) {
            Ok(None) => check(buf.len() == i + 1, "bytes of an incomplete frame are consumed"),
            x => { first = Some((i, x)); break }
        }
    }
    match (r, first) {
        (Ok(None), None) => { check(used == 0, "bytes of an incomplete frame are consumed"); cover("incomplete"); }
        (Ok(Some(f)), Some((i, Ok(Some(g))))) => {
            check(used == i + 1 && buf.is_empty(), "the frame is not exactly its bytes");
            check(f.finished == g.finished && f.opcode as u8 == g.opcode as u8 && f.reserved == g.reserved, "frames differ");
            check_same(&f.data, &g.data, "frames differ");
            cover("frame");
            log(f.opcode as u64); logs(&f.data);
        }
        (Err(a), Some((_, Err(b)))) => { check(class(&a) == class(&b), "errors differ"); cover("error"); }
        _ => fail("the outcome depends on how the bytes arrive"),
    }
}
fn c14_agree() {
    // arbitrary bytes: param 0: server, 1: length, 2: 1 = behind a header with a 64-bit length
    let (server, n) = (param(0) == 1, param(1));
    let mut w = vec(n);
    if param(2) == 1 {
        w.insert(0, 127 | if server { 0x80 } else { 0 });
        w.insert(0, byte());
    }
    agree(server, &w);
}
fn c14_frames() {
    // arbitrary frames: param 0: server, 1: frames, 2: payload length, 3: 1 = some masked wrongly, the end cut off
    let (server, frames, n) = (param(0) == 1, param(1), param(2));
    let mut w = vec![];
    for _ in 0..frames {
        let b0 = byte();
        let k = if param(3) == 1 && choose(2) == 1 { if server { None } else { Some(bytes::<4>()) } } else { key_for(server) };
        w.extend_from_slice(&wire(b0, &vec(n), k));
    }
    let cut = if param(3) == 1 { choose(4) } else { 0 };
    let l = w.len();
    agree(server, &w[..l - if cut == 3 && n > 2 { n + 1 } else { cut.min(2) }]);
}
fn c15_no_panic() {
    // arbitrary bytes: param 0: server, 1: length, 2: which reader, 3: 1 = the peer announces a huge length
    let (server, n, which) = (param(0) == 1, param(1), param(2));
    let mut w = vec(n);
    if param(3) == 1 {
        w.insert(0, 127 | if server { 0x80 } else { 0 });
        w.insert(0, byte());
    }
    // no more than 4 MiB for a few bytes of input, whatever they announce
    alloc_limit(4 << 20);
    let mut k = 0;
    match which {
        0 => { let r = recv_sync(server, None, &w); k = r.0.len(); }
        1 => { let r = recv_async(server, None, &[&w]); k = r.0.len(); }
        2 => {
            let mut cur = &w[..];
            while DataFrame::read_dataframe(&mut cur, server).is_ok() { k += 1; }
        }
        3 => {
            let mut cur = &w[..];
            while DataFrame::read_dataframe_with_limit(&mut cur, server, u64v() as usize).is_ok() { k += 1; }
        }
        4 => {
            let mut c: DataFrameCodec<DataFrame> = DataFrameCodec::new_with_limits(ctx(server), u32v() as usize);
            let mut b = BytesMut::from(&w[..]);
            while let Ok(Some(_)) = c.decode(&mut b) { k += 1; }
        }
        _ => {
            let mut r = Receiver::new_with_limits(server, u64v() as usize, u64v() as usize);
            let mut cur = &w[..];
            // errors do not end the use of a receiver
            for _ in 0..4 { if r.recv_message(&mut cur).is_ok() { k += 1; } }
        }
    }
    alloc_limit(u64::MAX);
    if k > 0 { cover("delivered"); } else { cover("nothing delivered"); }
    log(k as u64);
}
fn c16_truncated() {
    // param 0: server, 1: frames, 2: payload length, 3: reader (0 blocking, 1 asynchronous, 2 blocking frames, 3 frame codec)
    let (server, frames, n, which) = (param(0) == 1, param(1), param(2), param(3));
    let mut w = vec![];
    let mut ends = vec![];
    let mut want = vec![];
    for _ in 0..frames {
        let kind = [2u8, 9, 10, 1, 8][if n > 125 { 3 * choose(2) } else { choose(if n == 1 { 4 } else { 5 }) }];
        let p = if kind == 1 || kind == 8 { ascii(n) } else { long(n) };
        w.extend_from_slice(&wire(0x80 | kind, &p, key_for(server)));
        ends.push(w.len());
        want.push(if which < 2 { Msg::of_payload(kind, &p) } else { Msg { kind, code: None, data: p } });
    }
    let cut = if w.len() > 64 { let k = choose(40); if k < 20 { k } else { w.len() - (k - 20) } } else { choose(w.len() + 1) };
    let whole = ends.iter().filter(|e| **e <= cut).count();
    let w = &w[..cut];
    let clean = cut == 0 || ends.contains(&cut);
    let (got, err, left) = match which {
        0 => recv_sync(server, None, w),
        1 => {
            let mut c = codec(server, None);
            let mut b = BytesMut::from(w);
            let mut out = vec![];
            loop { match c.decode(&mut b) { Ok(Some(m)) => out.push(Msg::from_owned(&m)), Ok(None) => break, Err(e) => return fail(if class(&e) == END { "an incomplete frame is an error before the stream ends" } else { "a truncated stream is not reported as end of data" }) } }
            let left = b.len();
            loop { match c.decode_eof(&mut b) { Ok(Some(m)) => out.push(Msg::from_owned(&m)), Ok(None) => { check(left == 0, "the end of the stream inside a frame is not reported"); break } Err(_) => { check(left > 0, "the end of the stream is an error"); break } } }
            (out, END, left)
        }
        2 => {
            let mut r = Receiver::new(server);
            let mut cur = w;
            let mut out = vec![];
            loop { match r.recv_dataframe(&mut cur) { Ok(f) => out.push(Msg { kind: f.opcode as u8, code: None, data: f.data }), Err(e) => break (out, class(&e), cur.len()) } }
        }
        _ => {
            let mut c: DataFrameCodec<DataFrame> = DataFrameCodec::new(ctx(server));
            let mut b = BytesMut::from(w);
            let mut out = vec![];
            let (err, left) = loop { match c.decode(&mut b) { Ok(Some(f)) => out.push(Msg { kind: f.opcode as u8, code: None, data: f.data }), Ok(None) => break (END, b.len()), Err(e) => break (class(&e), b.len()) } };
            if err == END { loop { match c.decode_eof(&mut b) { Ok(Some(f)) => out.push(Msg { kind: f.opcode as u8, code: None, data: f.data }), Ok(None) => { check(left == 0, "the end of the stream inside a frame is not reported"); break } Err(_) => { check(left > 0, "the end of the stream is an error"); break } } } }
            (out, err, left)
        }
    };
    check(err == END, "a truncated stream is not reported as end of data");
    check_msgs(&got, &want[..whole], "what is delivered is not the complete frames");
    if which == 1 || which == 3 { check(left == cut - if whole == 0 { 0 } else { ends[whole - 1] }, "bytes of an incomplete frame are consumed"); }
    if clean { cover("cut between frames") } else { cover("cut inside a frame") }
    for m in &got { m.log() }
}
fn c16_transport_error() {
    // the transport hands out pieces, interrupts, and fails at some point: param 0: server, 1: payload length, 2: short reads, 3: frames or messages
    let (server, n, short) = (param(0) == 1, param(1), param(2));
    let kind = [2u8, 9, 8][if n > 125 { 0 } else { choose(if n == 1 { 2 } else { 3 }) }];
    let p = if kind == 8 { ascii(n) } else { long(n) };
    let mut w = wire(0x80 | kind, &p, key_for(server));
    let one = w.len();
    w.extend_from_slice(&wire(0x82, &[1, 2], key_for(server)));
    let cut = if w.len() > 64 { [0, 1, 2, 3, 4, 5, 9, 15, one - 1, one, one + 1, w.len() - 1, w.len()][choose(13)] } else { choose(w.len() + 1) };
    let ek = choose(6);
    let fails = [io::ErrorKind::ConnectionReset, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::Other, io::ErrorKind::InvalidData, io::ErrorKind::BrokenPipe][ek];
    let mut t = Flaky { data: w[..cut].to_vec(), at: 0, short, intr: 1, fails: Some(fails) };
    let mut r = Receiver::new(server);
    let mut got = vec![];
    let e = loop {
        if param(3) == 0 { match r.recv_message(&mut t) { Ok(m) => got.push(Msg::from_owned(&m)), Err(e) => break e } }
        else { match r.recv_dataframe(&mut t) { Ok(f) => got.push(Msg { kind: f.opcode as u8, code: None, data: f.data }), Err(e) => break e } }
    };
    match e { WebSocketError::IoError(e) => check(e.kind() == fails, "the transport's error is reported as one of another kind"), _ => fail("the transport's error is not reported as an I/O error") }
    let mut want = vec![];
    if cut >= one { want.push(if param(3) == 0 { Msg::of_payload(kind, &p) } else { Msg { kind, code: None, data: p } }); }
    if cut == w.len() { want.push(Msg { kind: 2, code: None, data: vec![1, 2] }); cover("all delivered"); }
    check_msgs(&got, &want, "what is delivered is not the frames completed before the error");
    for m in &got { m.log() }
}
fn c17_forms() {
    // param 0: kind, 1: length
    let m = any_msg(param(0), param(1));
    let kind = m.kind;
    let p = m.payload();
    let o = m.owned();
    let b = m.borrowed();
    // conversions
    Msg::from_owned(&OwnedMessage::from(b.clone())).check(&m, "borrowed to owned loses something");
    let bb = Message::from(o.clone());
    check(bb.opcode as u8 == kind && bb.cd_status_code == m.code, "owned to borrowed loses kind or code");
    check_same(&bb.payload, &m.data, "owned to borrowed loses payload");
    check(b.opcode as u8 == kind && b.cd_status_code == m.code, "constructor loses kind or code");
    check_same(&b.payload, &m.data, "constructor loses payload");
    Msg::from_owned(&OwnedMessage::from(Message::from(o.clone()))).check(&m, "there and back loses something");
    // payload, size, what is written
    let mut w = vec![]; check(Framelike::write_payload(&o, &mut w).is_ok(), "writing the payload fails"); check_same(&w, &p, "owned: the payload written is not that of the message");
    let mut w = vec![]; check(Framelike::write_payload(&b, &mut w).is_ok(), "writing the payload fails"); check_same(&w, &p, "borrowed: the payload written is not that of the message");
    check(Framelike::size(&o) == p.len() && Framelike::size(&b) == p.len(), "predicted size differs");
    check(Framelike::opcode(&o) == kind && Framelike::opcode(&b) == kind, "opcode differs");
    check(Framelike::is_last(&o) && Framelike::is_last(&b), "a message is its own last frame");
    check(*Framelike::reserved(&o) == [false; 3] && *Framelike::reserved(&b) == [false; 3], "reserved bits set");
    let hl = if p.len() < 126 { 2 } else if p.len() < 65536 { 4 } else { 10 };
    for k in 0..2 { check(Messagelike::message_size(&o, k == 1) == hl + 4 * k + p.len() && Messagelike::message_size(&b, k == 1) == hl + 4 * k + p.len(), "predicted frame size differs"); }
    check_same(&Framelike::take_payload(o.clone()), &p, "owned: the payload taken is not that of the message");
    check_same(&Framelike::take_payload(b.clone()), &p, "borrowed: the payload taken is not that of the message");
    if let OwnedMessage::Close(Some(c)) = &o { match c.clone().into_bytes() { Ok(x) => check_same(&x, &p, "close data's bytes are not the payload"), Err(_) => fail("close data has no bytes") } }
    // kinds
    check(o.is_close() == (kind == 8) && o.is_ping() == (kind == 9) && o.is_pong() == (kind == 10) && o.is_control() == (kind >= 8) && o.is_data() == (kind < 8), "a kind predicate is wrong");
    // pongs
    let mut q = b.clone();
    let r = q.into_pong();
    check(r.is_ok() == (kind == 9), "into_pong succeeds exactly for pings");
    check(q.opcode as u8 == if kind == 9 { 10 } else { kind }, "into_pong: wrong kind");
    check(q.cd_status_code == m.code, "into_pong changes the code");
    check_same(&q.payload, &m.data, "into_pong changes the payload");
    // equal when equal, different when a byte differs
    check(o == m.owned() && b == m.borrowed(), "a message differs from itself");
    m.log();
}
fn c17_from_frames() {
    // a message put together from frames: owned and borrowed agree
    let (n, frags) = (param(0), param(1));
    let mut fs = vec![];
    for _ in 0..frags {
        let b0 = byte();
        fs.push(crate::util::frame_of(b0, ascii(n)));
    }
    let a = <OwnedMessage as Messagelike>::from_dataframes(fs.clone());
    let b = <Message as Messagelike>::from_dataframes(fs);
    match (a, b) {
        (Ok(a), Ok(b)) => { let a = Msg::from_owned(&a); check(a.kind == b.opcode as u8 && a.code == b.cd_status_code, "the two forms differ"); check_same(&a.data, &b.payload, "the two forms differ"); cover("message"); a.log(); }
        (Err(a), Err(b)) => { check(class(&a) == class(&b), "the two forms fail differently"); cover("refused"); }
        _ => fail("one form is refused, the other is not"),
    }
}
}
/// A transport that hands out its bytes in pieces, may be interrupted, and ends or fails after them.
pub struct Flaky { pub data: Vec<u8>, pub at: usize, pub short: usize, pub intr: usize, pub fails: Option<io::ErrorKind> }
impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        if self.intr > 0 && choose(2) == 1 { self.intr -= 1; return Err(io::ErrorKind::Interrupted.into()) }
        let left = self.data.len() - self.at;
        if left == 0 { return match self.fails { Some(k) => Err(k.into()), None => Ok(0) } }
        let mut k = left.min(b.len());
        if self.short > 0 && k > 1 { let c = 1 + choose(k.min(12)); if c < k { self.short -= 1; k = c; } }
        b[..k].copy_from_slice(&self.data[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
fn chunked(server: bool, lim: Option<(usize, usize)>, w: &[u8], cuts: usize) {
    let whole = recv_async(server, lim, &[w]);
    let r = if cuts == 9 {
        let v: Vec<&[u8]> = w.chunks(1).collect();
        recv_async(server, lim, &v)
    } else {
        let mut v = vec![];
        let mut at = 0;
        for _ in 0..cuts { let k = choose(w.len() - at + 1); v.push(&w[at..at + k]); at += k; }
        v.push(&w[at..]);
        recv_async(server, lim, &v)
    };
    check(r.1 == whole.1, "whether there is an error depends on how the bytes arrive");
    check_msgs(&r.0, &whole.0, "the messages depend on how the bytes arrive");
    if r.1 == END { check(r.2 == whole.2, "the bytes left over depend on how the bytes arrive"); }
    if r.0.is_empty() { cover("no message") } else { cover("message") }
    if r.1 != END { cover("error") }
    log_result(&r);
}
fn agree(server: bool, w: &[u8]) {
    let a = recv_sync(server, None, w);
    let b = recv_async(server, None, &[w]);
    check_msgs(&a.0, &b.0, "the blocking and the asynchronous receiver deliver different messages");
    check((a.1 == END) == (b.1 == END), "one of the receivers fails, the other does not");
    // a frame over the limit is an I/O error here and a protocol error there
    check(a.1 == b.1 || (a.1 == IO && b.1 == PROTO), "the receivers report different classes of error");
    if a.1 == IO { cover("limit") }
    if a.0.is_empty() { cover("no message") } else { cover("message") }
    if a.1 != END { cover("error") }
    log_result(&a); log_result(&b);
}
