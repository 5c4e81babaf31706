//! C05, C12, C26, C28, C31, C32: established connections and whole handshakes.
use crate::conn::{kind_len, send, BIG, SENDS};
use crate::http::*;
use crate::sym::*;
use crate::util::*;
use bytes::BytesMut;
use hyper::header::Headers;
use hyper::http::h1::Incoming;
use hyper::http::RawStatus;
use hyper::method::Method;
use hyper::status::StatusCode;
use hyper::uri::RequestUri;
use hyper::version::HttpVersion;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::rc::Rc;
use tokio_codec::{Decoder, Encoder};
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{WebSocketExtensions, WebSocketKey, WebSocketProtocol};
use websocket::server::upgrade::{r#async as asy, sync as syn};
use websocket::ClientBuilder;

fn builder(url: &str) -> ClientBuilder<'static> { match ClientBuilder::new(url) { Ok(b) => b, Err(_) => fail("a URL is refused") } }
/// A frame header announcing this length, in shortest form.
fn announce(len: u64, form: usize, server: bool) -> Vec<u8> {
    let m = if server { 0x80 } else { 0 };
    let mut v = vec![0x82];
    match form {
        0 => { assume(len < 126); v.push(m | len as u8) }
        1 => { assume((len >= 126) & (len < 65536)); v.push(m | 126); v.push((len >> 8) as u8); v.push(len as u8) }
        _ => { assume((len >= 65536) & (len < 1 << 63)); v.push(m | 127); for i in 0..8 { v.push((len >> (56 - 8 * i)) as u8) } }
    }
    if server { v.extend_from_slice(&bytes::<4>()) }
    v
}
fn waiting() -> Pipe { Pipe::new(&[]).end(io::ErrorKind::WouldBlock) }
/// A head and what the codec makes of it: 0 nothing yet, 1 a head, 2 an error.
fn decode(server: bool, b: &mut BytesMut) -> (u8, Vec<u8>) {
    let text = |first: String, h: &Headers| { let mut v = first.into_bytes(); for x in h.iter() { for l in h.get_raw(x.name()).unwrap_or(&[]) { v.extend_from_slice(b"\r\n"); v.extend_from_slice(x.name().as_bytes()); v.push(b':'); v.extend_from_slice(l) } } v };
    if server {
        match HttpServerCodec.decode(b) { Ok(None) => (0, vec![]), Ok(Some(r)) => (1, text(format!("{} {} {}", r.subject.0, r.subject.1, r.version), &r.headers)), Err(_) => (2, vec![]) }
    } else {
        match HttpClientCodec.decode(b) { Ok(None) => (0, vec![]), Ok(Some(r)) => (1, text(format!("{} {} {}", r.version, r.subject.0, r.subject.1), &r.headers)), Err(_) => (2, vec![]) }
    }
}
fn cut2(w: &[u8], cuts: usize) -> Vec<usize> {
    let mut c = vec![];
    let mut lo = 0;
    for _ in 0..cuts { let x = lo + choose(w.len() + 1 - lo); c.push(x); lo = x; }
    c
}
/// One head, offered whole and in pieces.
fn pieces(server: bool, headb: &[u8], cuts: usize, near: Option<usize>, complete: bool) {
    let tail = bytes::<3>();
    let w = [headb, &tail[..]].concat();
    let mut b = BytesMut::from(&w[..]);
    let (kind, text) = decode(server, &mut b);
    if complete { check(kind != 0, "a complete head yields nothing"); }
    if kind == 0 { check_same(&b, &w, "bytes of an incomplete head are consumed"); }
    if kind == 1 { check(b.len() == tail.len(), "not exactly the head is consumed"); check_same(&b, &tail, "the bytes behind the head are altered"); cover("head"); }
    if kind == 2 { cover("error"); }
    // everywhere, or around a place of interest and the end of the head
    let c = match near { None => cut2(&w, cuts), Some(n) => vec![[n, n + 1, n + 2, headb.len() - 3, headb.len() - 2, headb.len() - 1, headb.len(), headb.len() + 1][choose(8)].min(w.len())] };
    let mut b = BytesMut::new();
    let mut got = (0u8, vec![]);
    let mut at = 0;
    for (i, end) in c.iter().chain(std::iter::once(&w.len())).enumerate() {
        b.extend_from_slice(&w[at..*end]);
        at = *end;
        let before = b.to_vec();
        got = decode(server, &mut b);
        match got.0 {
            0 => { check_same(&b, &before, "bytes of an incomplete head are consumed"); let _ = i; }
            _ => break,
        }
    }
    check(got.0 == kind, "the result depends on how the bytes arrive");
    check_same(&got.1, &text, "the head depends on how the bytes arrive");
    if kind == 1 { b.extend_from_slice(&w[at..]); check_same(&b, &tail, "what is left depends on how the bytes arrive"); }
}
fn heads(server: bool, k: usize) -> Vec<u8> {
    let mut r = if server { good_request(&b64(&KEY)) } else { good_response(b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") };
    match k {
        0 => join(&r),
        1 => { r.truncate(1); join(&r) }
        2 => { r.push(line("X", b"")); r.push(line("Y", b"a  b")); r.push(b"Z:c".to_vec()); join(&r) }
        3 => { let mut w = vec![]; for l in &r { w.extend_from_slice(l); w.push(10) } w.push(10); w } // bare line feeds
        4 => { let mut w = b"\r\n".to_vec(); w.extend_from_slice(&join(&r)); w } // a blank line before
        5 => { for i in 0..110 { r.push(line(&format!("A{}", i), b"b")) } join(&r) } // more headers than are allowed
        6 => { r[0] = if server { b"GET / HTTP/1.0".to_vec() } else { b"HTTP/1.0 404 Not Found".to_vec() }; join(&r) }
        7 => { r[0] = if server { b"POST * HTTP/1.1".to_vec() } else { b"HTTP/1.1 200".to_vec() }; join(&r) }
        8 => { r[0] = b"nonsense".to_vec(); join(&r) }
        _ => { r[1] = b"no colon".to_vec(); join(&r) }
    }
}
fn value(n: usize) -> Vec<u8> { let v = vchars(n); if n > 0 { assume((v[0] != b' ') & (v[n - 1] != b' ')); } v }
fn same_headers(a: &Headers, b: &Headers) {
    check(a.len() == b.len(), "decoding gives other headers");
    for h in a.iter() {
        let (x, y) = (a.get_raw(h.name()), b.get_raw(h.name()));
        match (x, y) { (Some(x), Some(y)) => { check(x.len() == y.len(), "decoding gives other headers"); for (p, q) in x.iter().zip(y) { check_same(p, q, "decoding gives other headers") } } _ => fail("decoding gives other headers") }
    }
}

harnesses! {
fn c05_established() {
    // param 0: way of getting the connection, 1: length
    let (way, n) = (param(0), param(1));
    let p = waiting();
    let server = is_server(way);
    let lim = if choose(2) == 1 { Some((BIG, BIG)) } else { None };
    let mut c = establish(way, lim, &p, &[]);
    let kind = choose(6);
    let m = any_msg(kind, kind_len(kind, n));
    check(c.send(&m.owned()), "a sendable message is refused");
    let out = p.take_out();
    let s = match peel(&out) { Some(s) => s, None => fail("what is sent is no complete frame") };
    check(s.masked != server, "a frame of the wrong form is sent");
    check(s.used == out.len(), "more than a frame is sent");
    check_same(&s.data, &m.payload(), "the payload sent is not that of the message");
    // a frame of the wrong form, then one of the right form
    p.more(&wire(0x82, &vec(n), if server { None } else { Some(bytes::<4>()) }));
    p.more(&wire(0x82, &[1], key_for(server)));
    match c.next() { Err(e) => check(e == FRAME, "a frame of the wrong form is reported as another error"), Ok(Some(_)) => fail("a frame of the wrong form is delivered"), Ok(None) => fail("a frame of the wrong form is no error") }
    if server { cover("server") } else { cover("client") }
}
fn c12_frame_limit() {
    // param 0: way of getting the connection, 1: 1 = limits of (10, 1000), 2 = (1000, 10), 3 = (70000, 5), 4 = (2^32 + 10, 2^32 + 10), 0 = none configured
    let way = param(0);
    let lim = [None, Some((10, 1000)), Some((1000, 10)), Some((70000, 5)), Some(((1 << 32) + 10, (1 << 32) + 10))][param(1)];
    let f = lim.map_or(100 << 20, |l| l.0) as u64;
    let p = waiting();
    let mut c = establish(way, lim, &p, &[]);
    // above the limit any length; below it, only some for a blocking connection, which asks for as many bytes
    let form = choose(3);
    let len = if form < 2 && choose(2) == 1 {
        let l = [1, 2, 9, 10, 11, 124, 125, 126, 127, 999, 1000, 1001, 8192, 65534, 65535][choose(15)];
        if (l < 126) != (form == 0) { return }
        l
    } else if form == 2 && choose(2) == 1 {
        let l = [65536, 69999, 70000, 70001, (100 << 20) - 1, 100 << 20, (100 << 20) + 1][choose(7)];
        l
    } else {
        let l = u64v();
        if !matches!(c.end, End::Async(_)) { assume(l > f) }
        l
    };
    p.more(&announce(len, form, is_server(way)));
    assume(len > 0);
    match c.next() {
        Err(e) => { // a limit above 32 bits may be taken for the largest of 32 bits
            check(len > f.min(u32::MAX as u64), "a frame within the configured limit is refused"); check(e != END, "no error"); cover("over the limit"); }
        Ok(None) => { check(len <= f, "a frame over the configured limit is awaited"); cover("within the limit"); }
        Ok(Some(_)) => fail("a message out of a header"),
    }
}
fn c12_message_limit() {
    // param 0: way, 1: limits as above (not none): fragments until the message limit is certainly exceeded
    let way = param(0);
    let lim = [(10, 1000), (10, 1000), (1000, 10), (1000, 400), ((1 << 32) + 10, (1 << 32) + 10)][param(1)];
    let (f, m) = lim;
    let p = waiting();
    let server = is_server(way);
    let mut c = establish(way, Some(lim), &p, &[]);
    // an unfragmented message of up to the frame limit passes
    let n = [1, f.min(1000)][choose(2)];
    p.more(&wire(0x82, &vec![7; n], Some([1, 2, 3, 4]).filter(|_| server)));
    match c.next() { Ok(Some(x)) => check(x.data.len() == n, "wrong length"), _ => fail("an unfragmented message within the frame limit is refused") }
    let (mut total, mut k) = (0, 0);
    loop {
        let n = 1 + choose(2) * (f.min(120) - 1);
        p.more(&wire(if k == 0 { 2 } else { 0 }, &vec![3; n], Some([1, 2, 3, 4]).filter(|_| server)));
        total += n;
        k += 1;
        match c.next() {
            Err(_) => { check(total + 64 * k >= m, "an unfinished message within the configured limit is refused"); cover("over the limit"); return }
            Ok(None) => { check(total <= m, "another frame is awaited although the configured message limit is exceeded"); cover("within the limit") }
            Ok(Some(_)) => fail("an unfinished message is delivered"),
        }
        if k >= 4 && (n == 1 || m > 1 << 20) { return }
    }
}
fn c12_message_exact() {
    // just below and just above the message limit: param 0: way, 1: the message limit, 2: fragments
    let (way, m, k) = (param(0), param(1), param(2));
    let server = is_server(way);
    let p = waiting();
    let mut c = establish(way, Some((100_000, m)), &p, &[]);
    let over = choose(2) == 1;
    // (each fragment may count for up to 64 bytes more)
    let total = if over { m + 1 + choose(2) } else { let t = m - [1, 2, 10, 40][choose(4)]; if t < 65 * k { return } t - 64 * k };
    let mut left = total;
    for i in 0..k {
        let n = if i + 1 == k { left } else { left / 2 };
        left -= n;
        p.more(&wire(if i == 0 { 2 } else { 0 }, &vec![3; n], Some([1, 2, 3, 4]).filter(|_| server)));
        match c.next() {
            Err(_) => { check(over, "an unfinished message within the configured limit is refused"); cover("over the limit"); return }
            Ok(None) => (),
            Ok(Some(_)) => fail("an unfinished message is delivered"),
        }
    }
    check(!over, "another frame is awaited although the configured message limit is exceeded");
    cover("within the limit");
    p.more(&wire(0x80, &[4], Some([1, 2, 3, 4]).filter(|_| server)));
    match c.next() { Ok(Some(x)) => check(x.data.len() == total + 1, "wrong length"), _ => fail("a message whose frames are within the limits is refused") }
}
fn c26_established() {
    // bytes right behind the handshake: param 0: way, 1: cuts
    let way = param(0);
    let server = is_server(way);
    let ms = [any_msg(1, 2), any_msg(2, 0), any_msg(0, 1)];
    let mut after = vec![];
    for m in &ms { after.extend_from_slice(&wire(0x80 | m.kind, &m.payload(), key_for(server))) }
    let last = wire(0x82, &[9, 8], key_for(server));
    after.extend_from_slice(&last[..last.len() - 1]);
    let hs = if server { join(&good_request(&b64(&KEY))) } else { join(&good_response(&accept_for(KEY))) };
    let mut cuts = cut2(&[&hs[..], &after].concat(), param(1));
    if cuts.len() == 2 { assume(cuts[1] >= hs.len()) }
    cuts.dedup();
    let p = waiting().cut(&cuts, way == 1 || (way >= 6 && way < 10));
    let mut c = establish(way, None, &p, &after);
    for m in &ms { match c.next() { Ok(Some(x)) => x.check(m, "a message behind the handshake is altered"), Ok(None) => fail("a message behind the handshake is lost"), Err(_) => fail("a message behind the handshake is mangled") } }
    // (a blocking connection is not asked for a message it would have to wait for)
    if let End::Async(_) = c.end { match c.next() { Ok(None) => (), _ => fail("an incomplete frame behind the handshake is taken for another") } }
    p.more(&last[last.len() - 1..]);
    match c.next() { Ok(Some(x)) => check_same(&x.data, &[9, 8], "a frame begun behind the handshake is altered"), _ => fail("a frame begun behind the handshake is lost") }
    if server { cover("server") } else { cover("client") }
}
fn c26_long() {
    // more behind the handshake than any buffer holds: param 0: way, 1: length of the messages
    let (way, n) = (param(0), param(1));
    let server = is_server(way);
    let kinds = [2u8, 1, 2];
    let ms: Vec<Msg> = kinds.iter().enumerate().map(|(i, k)| { let mut d: Vec<u8> = (0..n >> i).map(|j| (j * 5 + i) as u8 & 0x7F).collect(); let l = d.len(); fill(&mut d[l - 2..]); if *k == 1 { d[l - 2] &= 0x7F; d[l - 1] &= 0x7F } Msg { kind: *k, code: None, data: d } }).collect();
    let mut after = vec![];
    for m in &ms { after.extend_from_slice(&wire(0x80 | m.kind, &m.data, key_for(server))) }
    let hs = if server { join(&good_request(&b64(&KEY))) } else { join(&good_response(&accept_for(KEY))) };
    let total = hs.len() + after.len();
    let cut = [0, hs.len() - 1, hs.len(), hs.len() + 1, hs.len() + 3, 1024, 4096, 8191, 8192, 8193, hs.len() + n, total - 1][choose(12)];
    let p = waiting().cut(&[cut], way == 1 || (way >= 6 && way < 10));
    let mut c = establish(way, None, &p, &after);
    for m in &ms { match c.next() { Ok(Some(x)) => x.check(m, "a message behind the handshake is altered"), Ok(None) => fail("a message behind the handshake is lost"), Err(_) => fail("a message behind the handshake is mangled") } }
    match c.next() { Ok(None) => (), _ => fail("a message nobody sent") }
    if server { cover("server") } else { cover("client") }
}
fn c26_refused() {
    // a request that is none: param 0: asynchronous, 1: which, 2: cuts
    let asy_ = param(0) == 1;
    let mut r = good_request(&b64(&KEY));
    match param(1) { 0 => r[0] = b"POST /chat HTTP/1.1".to_vec(), 1 => { r.remove(4); } 2 => r[5] = line("Sec-WebSocket-Version", b"8"), _ => { r.remove(2); } }
    let tail = bytes::<4>();
    let w = [&join(&r)[..], &tail].concat();
    let p = Pipe::new(&w).cut(&cut2(&w, param(2)), asy_);
    let (left, same_stream) = if asy_ {
        match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(_) => fail("a request that is none is accepted"), Err((s, _, b, _)) => ([b.to_vec(), s.rest()].concat(), Rc::ptr_eq(&s.0, &p.0)) }
    } else {
        match syn::IntoWs::into_ws(p.clone()) { Ok(_) => fail("a request that is none is accepted"), Err((s, _, b, _)) => ([b.map_or(vec![], |b| b.buf[b.pos..b.cap].to_vec()), s.rest()].concat(), Rc::ptr_eq(&s.0, &p.0)) }
    };
    check(same_stream, "the transport is not handed back");
    check(left.len() == tail.len(), "bytes behind a refused request are lost");
    check_same(&left, &tail, "bytes behind a refused request are altered");
    cover("refused");
}
fn c28_pieces() {
    // param 0: server codec, 1: head, 2: cuts
    let server = param(0) == 1;
    let h = heads(server, param(1));
    pieces(server, &h, param(2), None, true);
}
fn c28_long() {
    // long heads: param 0: server codec, 1: header lines, 2: length of their values
    let (server, k, n) = (param(0) == 1, param(1), param(2));
    let mut r = if server { good_request(&b64(&KEY)) } else { good_response(b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") };
    for i in 0..k { let mut v: Vec<u8> = (0..n).map(|j| b'!' + ((i + j) % 90) as u8).collect(); if i + 1 == k && n > 2 { v[n - 2] = vchar(); } r.push(line(&format!("X-{}", i), &v)) }
    let h = join(&r);
    let tail = bytes::<3>();
    let w = [&h[..], &tail].concat();
    let mut b = BytesMut::from(&w[..]);
    let (kind, text) = decode(server, &mut b);
    check(kind == 1, "a correct head is refused, or not recognised");
    check_same(&b, &tail, "not exactly the head is consumed");
    check(text.len() >= k * (n + 4), "header lines are lost");
    // the reference's reading of the last line
    let last = &r[r.len() - 1];
    check_same(&text[text.len() - n..], &last[last.len() - n..], "a header value is altered");
    let mut cuts = match choose(3) {
        0 => vec![[1, h.len() / 2, 1024, 4095, 4096, 4097, 8191, 8192, 8193, h.len() - 2, h.len() - 1, h.len(), h.len() + 1][choose(13)].min(w.len())],
        1 => (1..w.len()).step_by([1000, 1024, 4096][choose(3)]).collect(),
        _ => vec![w.len() - 6, w.len() - 5, w.len() - 4, w.len() - 3, w.len() - 2],
    };
    cuts.push(w.len());
    let mut b = BytesMut::new();
    let mut got = (0u8, vec![]);
    let mut at = 0;
    for c in cuts {
        b.extend_from_slice(&w[at..c]);
        at = c;
        if got.0 == 0 { let l = b.len(); got = decode(server, &mut b); if got.0 == 0 { check(b.len() == l, "bytes of an incomplete head are consumed") } }
    }
    check(got.0 == 1, "the result depends on how the bytes arrive");
    check_same(&got.1, &text, "the head depends on how the bytes arrive");
    check_same(&b, &tail, "what is left depends on how the bytes arrive");
    cover("head");
}
fn c28_altered() {
    // arbitrary visible characters somewhere in the head: param 0: server codec, 1: how many, 2: part of the head
    let (server, n) = (param(0) == 1, param(1));
    let mut h = heads(server, 2);
    let lines: Vec<usize> = { let mut v = vec![]; let mut st = 0; for i in 0..h.len() - 1 { if h[i] == 13 && h[i + 1] == 10 { if i > st { v.push(st) } st = i + 2 } } v };
    let st = lines[param(2) % lines.len()];
    let ll = { let mut i = st; while h[i] != 13 { i += 1 } i - st };
    let at = st + choose((ll + 1).saturating_sub(n).max(1));
    // (an arbitrary start of a request target takes the url crate's Unicode tables along)
    if at + n > st + ll || (server && at <= 4 && at + n > 4) { return }
    h[at..at + n].copy_from_slice(&vchars(n));
    pieces(server, &h, 1, Some(at), true);
}
fn c28_arbitrary() {
    // an arbitrary byte anywhere: no panic, incomplete heads are kept: param 0: server codec
    let server = param(0) == 1;
    let mut h = heads(server, 2);
    let part = h.len() / 16 + 1;
    let at = part * param(1) + choose(part);
    // (an arbitrary byte at the start of a request target takes the url crate's Unicode tables along)
    if at >= h.len() || (server && at == 4) { return }
    h[at] = byte();
    if server && at < 12 { assume(h[at] < 0x80) }
    let mut b = BytesMut::from(&h[..]);
    let (k, _) = decode(server, &mut b);
    if k == 0 { check_same(&b, &h, "bytes of an incomplete head are consumed"); cover("incomplete") }
    if k == 1 { check(b.len() < h.len(), "nothing is consumed"); check_same(&b, &h[h.len() - b.len()..], "the bytes behind the head are altered") }
}
fn c28_request() {
    // param 0: methods
    let (path, q) = (token(2), token(1));
    let subject = match choose(4) { 0 => RequestUri::AbsolutePath(format!("/{}?{}", path, q)), 1 => RequestUri::Star, 2 => match "http://h:1/x".parse() { Ok(u) => RequestUri::AbsoluteUri(u), Err(_) => fail("url") }, _ => RequestUri::AbsolutePath(format!("/{}", path)) };
    let mut headers = Headers::new();
    let nv = choose(3);
    if nv > 0 { headers.set_raw("X-One", vec![value(2)]) }
    if nv > 1 { headers.set_raw("X-Two", vec![value(1), value(3)]) }
    let method = [Method::Get, Method::Post, Method::Options, Method::Head, Method::Put, Method::Delete, Method::Trace, Method::Patch, Method::Extension("FOO".into())][choose(9)].clone();
    let version = if choose(2) == 0 { HttpVersion::Http11 } else { HttpVersion::Http10 };
    let old = vec(choose(2) * 2);
    let mut b = BytesMut::from(&old[..]);
    check(HttpClientCodec.encode(Incoming { version, subject: (method.clone(), subject.clone()), headers: headers.clone() }, &mut b).is_ok(), "a request is not encoded");
    check(b.len() >= old.len(), "what was in the buffer is gone");
    check_same(&b[..old.len()], &old, "what was in the buffer is gone");
    let mut b = BytesMut::from(&b[old.len()..]);
    match HttpServerCodec.decode(&mut b) {
        Ok(Some(r)) => {
            check(r.subject.0 == method, "decoding gives another method");
            check_same(r.subject.1.to_string().as_bytes(), subject.to_string().as_bytes(), "decoding gives another target");
            check(r.version == version, "decoding gives another version");
            same_headers(&headers, &r.headers);
            check(b.is_empty(), "something is left");
            cover("back");
        }
        _ => fail("an encoded request is not decoded"),
    }
}
fn c28_response() {
    // any status of three digits: param 0: first digit
    let st = (param(0) * 100) as u16 + (byte() % 100) as u16;
    let mut headers = Headers::new();
    let nv = choose(3);
    if nv > 0 { headers.set_raw("X-One", vec![value(2)]) }
    if nv > 1 { headers.set_raw("X-Two", vec![value(1), value(3)]) }
    let old = vec(choose(2) * 2);
    let mut b = BytesMut::from(&old[..]);
    check(HttpServerCodec.encode(Incoming { version: HttpVersion::Http11, subject: StatusCode::from_u16(st), headers: headers.clone() }, &mut b).is_ok(), "a response is not encoded");
    check(b.len() >= old.len(), "what was in the buffer is gone");
    check_same(&b[..old.len()], &old, "what was in the buffer is gone");
    let mut b = BytesMut::from(&b[old.len()..]);
    match HttpClientCodec.decode(&mut b) {
        Ok(Some(r)) => {
            check(r.subject.0 == st, "decoding gives another status");
            if let Some(t) = StatusCode::from_u16(st).canonical_reason() { check_same(r.subject.1.as_bytes(), t.as_bytes(), "decoding gives another reason") }
            same_headers(&headers, &r.headers);
            check(b.is_empty(), "something is left");
            cover("back");
        }
        _ => fail("an encoded response is not decoded"),
    }
}
fn c31_masks() {
    // param 0: way of sending, 1: length; three frames (two long ones), each with its own key
    let (api, n) = (param(0), param(1));
    for _ in 0..(if n > 60 { 2 } else { 3 }) {
        let kind = choose(6);
        let m = any_msg(kind, kind_len(kind, n));
        let p = Pipe::new(&[]);
        rand::rngs::drawn_reset();
        check(send(api, false, &m, &p).is_ok(), "a sendable message is refused");
        let s = match peel(&p.out()) { Some(s) => s, None => fail("what is sent is no complete frame") };
        check(s.masked, "a client sends an unmasked frame");
        check(drawn_as(4, &|k| same1(k, &s.key)), "the masking key is not newly drawn from the random source");
    }
    cover("keys");
}
fn c31_connection() {
    // messages sent one after the other over one connection: param 0: asynchronous, 1: messages, 2: length
    let p = waiting();
    let mut c = establish(param(0), None, &p, &[]);
    for _ in 0..param(1) {
        rand::rngs::drawn_reset();
        let kind = choose(6);
        let m = any_msg(kind, kind_len(kind, param(2)));
        check(c.send(&m.owned()), "a sendable message is refused");
        let s = match peel(&p.take_out()) { Some(s) => s, None => fail("what is sent is no complete frame") };
        check(s.masked, "a client sends an unmasked frame");
        check(drawn_as(4, &|k| same1(k, &s.key)), "the masking key is not newly drawn from the random source");
    }
    cover("keys");
}
fn c31_many() {
    // many messages over one connection: param 0: asynchronous, 1: messages
    let p = waiting();
    let mut c = establish(param(0), None, &p, &[]);
    let kinds = [[1, 1, 1, 1], [1, 9, 2, 10]][choose(2)];
    rand::rngs::arbitrary_draws(20);
    for i in 0..param(1) {
        rand::rngs::drawn_reset();
        let m = Msg { kind: kinds[i % 4], code: None, data: vec![b'a'; i % 3] };
        check(c.send(&m.owned()), "a sendable message is refused");
        let s = match peel(&p.take_out()) { Some(s) => s, None => fail("what is sent is no complete frame") };
        check(s.masked, "a client sends an unmasked frame");
        check(drawn_as(4, &|k| same1(k, &s.key)), "the masking key is not newly drawn from the random source");
    }
    cover("keys");
}
fn c31_nonces() {
    // param 0: asynchronous, 1: handshakes with the same builder
    let asy_ = param(0) == 1;
    let mut b = builder("ws://h/");
    match choose(3) { 0 => (), 1 => b = b.key(KEY).clear_key(), _ => { b = b.key(KEY).clear_header::<WebSocketKey>() } }
    for _ in 0..param(1) {
        rand::rngs::drawn_reset();
        let p = Pipe::new(&[]);
        if asy_ { check(connect(true, b.clone(), p.clone()).is_err(), "a connection without any response") } else { check(b.connect_on(p.clone()).is_err(), "a connection without any response") }
        let h = match head(&p.out()) { Some(h) => h, None => fail("the request is not complete") };
        let k = h.one("sec-websocket-key", "not one key header");
        check(k.len() == 24, "the key is not 16 bytes");
        check(drawn_as(16, &|d| same1(&b64(d), &k)), "the key of the handshake is not newly drawn from the random source");
    }
    cover("nonces");
}
fn c32_talk() {
    // param 0: the client is asynchronous, 1: the server is, 2: subprotocols offered, 3: extensions offered, 4: messages sent with the response
    let (ca, sa, np, ne, early) = (param(0) == 1, param(1) == 1, param(2), param(3), param(4));
    let protos: Vec<String> = (0..np).map(|_| token(2)).collect();
    let mut exts = vec![];
    for _ in 0..ne {
        let form = if exts.is_empty() { choose(4) } else { 2 };
        let mut e = Extension::new(if form == 0 { token(2) } else { "e7".into() });
        for v in [&[][..], &[None], &[Some("1")], &[None, Some("x=y"), Some("")]][form] { e.params.push(Parameter::new(["p", "q", "r"][e.params.len()].into(), v.map(|v| v.into()))) }
        exts.push(e)
    }
    let (url, conf) = [(0, 0), (1, 1), (2, 2), (1, 2)][choose(4)];
    let mut b = builder(["ws://h/a?b", "ws://u:p@h:81/#c", "wss://[::1]"][url]);
    if conf == 1 { b = b.key(bytes::<16>()) }
    if conf == 2 { let mut h = Headers::new(); h.set_raw("X-A", vec![b"b".to_vec()]); h.set_raw("Connection", vec![b"close".to_vec()]); b = b.custom_headers(&h).origin("http://o".into()) }
    if np > 0 { b = b.add_protocols(protos.clone()) }
    for e in &exts { b = b.add_extension(e.clone()) }
    let pick = if np > 0 { choose(np + 1) } else { 0 }; // the chosen one, if any
    let pickx = if ne > 0 { choose(ne + 1) } else { 0 }; // the first ones are chosen
    let greet: Vec<Msg> = (0..early).map(|i| if i == 0 { any_msg(1, 2) } else { any_msg(0, 1) }).collect();
    let server: Rc<RefCell<Option<(Conn<Pipe>, Pipe)>>> = Rc::new(RefCell::new(None));
    let (s2, pr, ex, gr) = (server.clone(), protos.clone(), exts.clone(), greet.clone());
    let cp = waiting();
    let hook = Hooked { p: cp.clone(), hook: Some(Box::new(move |cp: Pipe| {
        let sp = waiting();
        sp.more(&cp.take_out());
        macro_rules! picked { ($u:expr) => {{
            let mut u = $u;
            check(u.protocols().len() == pr.len() && u.extensions().len() == ex.len(), "the server sees other offers than were configured");
            for (a, b) in u.protocols().iter().zip(&pr) { check_same(a.as_bytes(), b.as_bytes(), "the server sees other offers than were configured") }
            for (a, b) in u.extensions().iter().zip(&ex) { check_same(text_of(a).as_bytes(), text_of(b).as_bytes(), "the server sees other offers than were configured") }
            if conf == 2 { check(u.origin() == Some("http://o"), "the server sees another origin than was configured") }
            if pick > 0 { u = u.use_protocol(pr[pick - 1].clone()) }
            for e in &ex[..pickx] { u = u.use_extension(e.clone()) }
            u
        }} }
        let mut c: Conn<Pipe> = if sa {
            let u = match drive(&mut *asy::IntoWs::into_ws(sp.clone())) { Ok(u) => picked!(u), Err(_) => fail("the server refuses the client's request") };
            match drive(&mut *u.accept()) { Ok((f, h)) => Conn { protos: protos_in(&h), exts: exts_in(&h), headers: Some(h), end: End::Async(f) }, Err(_) => fail("accepting fails") }
        } else {
            let u = match syn::IntoWs::into_ws(sp.clone()) { Ok(u) => picked!(u), Err(_) => fail("the server refuses the client's request") };
            let c = match u.accept() { Ok(c) => c, Err(_) => fail("accepting fails") };
            Conn { protos: c.protocols().to_vec(), exts: c.extensions().iter().map(text_of).collect(), headers: None, end: End::Sync(c) }
        };
        for m in &gr { check(c.send(&m.owned()), "the server cannot send right after accepting") }
        cp.more(&sp.take_out());
        *s2.borrow_mut() = Some((c, sp));
    })) };
    let mut c = match connect(ca, b, hook) { Ok(c) => c, Err(_) => fail("the client refuses the server's response") };
    let want: Vec<String> = if pick > 0 { vec![protos[pick - 1].clone()] } else { vec![] };
    check(c.protos.len() == want.len(), "the client reports another subprotocol than was chosen");
    for (a, b) in c.protos.iter().zip(&want) { check_same(a.as_bytes(), b.as_bytes(), "the client reports another subprotocol than was chosen") }
    check(c.exts.len() == pickx, "the client reports other extensions than were chosen");
    for (a, e) in c.exts.iter().zip(&exts) { check_same(a.as_bytes(), text_of(e).as_bytes(), "the client reports other extensions than were chosen") }
    let (mut s, sp) = match server.borrow_mut().take() { Some(x) => x, None => fail("a connection without a response") };
    { check(s.protos.len() == c.protos.len() && s.exts.len() == pickx, "the two ends report different choices"); for (a, b) in s.exts.iter().zip(&c.exts).chain(s.protos.iter().zip(&c.protos)) { check_same(a.as_bytes(), b.as_bytes(), "the two ends report different choices") } }
    for m in &greet { match c.next() { Ok(Some(x)) => x.check(m, "a message sent right after accepting is altered"), _ => fail("a message sent right after accepting is lost") } }
    match c.next() { Ok(None) => (), _ => fail("a message nobody sent") }
    // there and back
    let (m1, m2) = (any_msg(0, 2), any_msg(2, 1));
    check(c.send(&m1.owned()) && c.send(&m2.owned()), "the client cannot send");
    sp.more(&cp.take_out());
    for m in [&m1, &m2] { match s.next() { Ok(Some(x)) => x.check(m, "a message to the server is altered"), _ => fail("a message to the server is lost") } }
    match s.next() { Ok(None) => (), _ => fail("a message nobody sent") }
    let m3 = any_msg(1, 3);
    check(s.send(&m3.owned()), "the server cannot send");
    cp.more(&sp.take_out());
    match c.next() { Ok(Some(x)) => x.check(&m3, "a message to the client is altered"), _ => fail("a message to the client is lost") }
    cover("talked");
}
}
