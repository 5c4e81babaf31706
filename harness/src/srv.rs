//! C22, C23, C27: the server's side of the handshake.
use crate::http::*;
use crate::sym::*;
use crate::util::*;
use bytes::BytesMut;
use futures::Future;
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::io::{self, Read, Write};
use tokio_codec::Framed;
use websocket::header::extensions::{Extension, Parameter};
use websocket::server::upgrade::{r#async as asy, sync as syn, HyperIntoWsError, Request};
use websocket::server::upgrade::sync::RequestStreamPair;

/// Requirements, as bits.
const METHOD: u32 = 1;
const HTTP: u32 = 2;
const VERSION: u32 = 4;
const KEYH: u32 = 8;
const UPG: u32 = 16;
const CONN: u32 = 32;
const PARSE: u32 = 64;
fn which(e: &HyperIntoWsError) -> u32 {
    match e {
        HyperIntoWsError::MethodNotGet => METHOD,
        HyperIntoWsError::UnsupportedHttpVersion => HTTP,
        HyperIntoWsError::UnsupportedWebsocketVersion => VERSION,
        HyperIntoWsError::NoSecWsKeyHeader => KEYH,
        HyperIntoWsError::NoWsUpgradeHeader | HyperIntoWsError::NoUpgradeHeader => UPG,
        HyperIntoWsError::NoWsConnectionHeader | HyperIntoWsError::NoConnectionHeader => CONN,
        HyperIntoWsError::Io(_) | HyperIntoWsError::Parsing(_) => PARSE,
    }
}
/// Offer this request to a server: the requirement it is said to fail, if any, the request, and the bytes not consumed.
/// how: 0 blocking, 1 asynchronous, 2 request and stream given separately, 3 a request hyper's server has read
fn offer(how: usize, input: &[u8], cuts: &[usize]) -> (Option<(u32, bool)>, Option<Request>, Vec<u8>, Pipe) {
    let p = Pipe::new(input).cut(cuts, how == 1);
    match how {
        0 => {
            match syn::IntoWs::into_ws(p.clone()) {
                Ok(u) => { let b = u.buffer.map_or(vec![], |b| b.buf[b.pos..b.cap].to_vec()); (None, Some(u.request), [b, u.stream.rest()].concat(), p) }
                Err((s, r, b, e)) => { let b = b.map_or(vec![], |b| b.buf[b.pos..b.cap].to_vec()); (Some((which(&e), absent(&e))), r, [b, s.rest()].concat(), p) }
            }
        }
        1 => {
            match drive(&mut *asy::IntoWs::into_ws(p.clone())) {
                Ok(u) => (None, Some(u.request), [u.buffer.to_vec(), u.stream.rest()].concat(), p),
                Err((s, r, b, e)) => (Some((which(&e), absent(&e))), r, [b.to_vec(), s.rest()].concat(), p),
            }
        }
        3 => {
            let r = match hyper_request(&p) { Ok(r) => r, Err(_) => return (Some((PARSE, false)), None, vec![], p) };
            match syn::IntoWs::into_ws(syn::HyperRequest(r)) {
                Ok(u) => { let b = u.buffer.map_or(vec![], |b| b.buf[b.pos..b.cap].to_vec()); (None, Some(u.request), [b, p.rest()].concat(), p) }
                Err((r, e)) => {
                    let (_, method, headers, uri, version, reader) = r.deconstruct();
                    let (buf, pos, cap) = reader.into_inner().take_buf();
                    (Some((which(&e), absent(&e))), Some(hyper::http::h1::Incoming { version, headers, subject: (method, uri) }), [buf[pos..cap].to_vec(), p.rest()].concat(), p)
                }
            }
        }
        _ => {
            let mut rd = BufReader::new(p.clone());
            let r = match hyper::http::h1::parse_request(&mut rd) { Ok(r) => r, Err(_) => return (Some((PARSE, false)), None, vec![], p) };
            let (_, buf, pos, cap) = rd.into_parts();
            let left = [buf[pos..cap].to_vec(), p.rest()].concat();
            match syn::IntoWs::into_ws(RequestStreamPair(p.clone(), r)) {
                Ok(u) => (None, Some(u.request), left, p),
                Err((_, r, e)) => (Some((which(&e), absent(&e))), Some(r), left, p),
            }
        }
    }
}
fn absent(e: &HyperIntoWsError) -> bool { matches!(e, HyperIntoWsError::NoUpgradeHeader | HyperIntoWsError::NoConnectionHeader) }
fn judge(how: usize, lines: &[Vec<u8>], tail: &[u8], failing: u32) {
    let mut w = join(lines);
    w.extend_from_slice(tail);
    let (e, r, left, p) = offer(how, &w, &[]);
    check(p.out().is_empty(), "something is written before the caller decides");
    check_same(&left, tail, "the bytes behind the request are not handed back");
    match e {
        None => { check(failing == 0, "a request that is no WebSocket upgrade is accepted"); cover("accepted"); }
        Some((x, _)) => {
            check(failing != 0, "a correct upgrade request is refused");
            check(x & failing != 0, "the error names a requirement the request meets");
            cover("refused");
        }
    }
    match r { Some(r) => check(r.headers.get_raw("Host").is_some() || lines.iter().all(|l| l.first() != Some(&b'H')), "the request handed back lacks its headers"), None => fail("the request is not handed back") }
    log(e.map_or(0, |x| x.0 as u64));
}

harnesses! {
fn c22_headers() {
    // presence and values of the five headers: param 0: way, 1: rotation of the lines, 2: which half of the key forms
    let how = param(0);
    let mut failing = 0;
    let mut lines = vec![];
    match param(2) * 3 + choose(3) {
        0 => { lines.push(line("Sec-WebSocket-Key", &b64(&[[0xFFu8; 16], [0xFBu8; 16]][choose(2)]))); }
        1 => failing |= KEYH,
        2 => { let t = b64(&[7u8; 15]); lines.push(line("sec-websocket-key", &t)); failing |= KEYH; }
        3 => { let t = b64(&[9u8; 17]); lines.push(line("Sec-WebSocket-Key", &t)); failing |= KEYH; }
        4 => { lines.push(line("Sec-WebSocket-Key", &b64(&KEY))); lines.push(line("Sec-WebSocket-Key", &b64(&KEY))); failing |= KEYH; }
        _ => { lines.push(line("SEC-WEBSOCKET-KEY", &b64(&KEY))); }
    }
    match choose(7) {
        0 => lines.push(line("Upgrade", b"wEBSOCKEt")),
        1 => failing |= UPG,
        2 => { lines.push(line("Upgrade", b"h2c")); failing |= UPG; }
        3 => lines.push(line("upgrade", &[b"h2c, ".to_vec(), b"WebSocket".to_vec()].concat())),
        4 => { lines.push(line("Upgrade", b"websocketx, xwebsocket")); failing |= UPG; }
        5 => { lines.push(line("Upgrade", b"h2c")); lines.push(line("Upgrade", b"websocket")); }
        _ => { lines.push(line("Upgrade", b"Upgrade")); failing |= UPG; }
    }
    match choose(7) {
        0 => lines.push(line("Connection", b"uPGRADe")),
        1 => failing |= CONN,
        2 => { lines.push(line("Connection", b"keep-alive")); failing |= CONN; }
        3 => lines.push(line("connection", &[b"keep-alive, ".to_vec(), b"Upgrade".to_vec(), b" , close".to_vec()].concat())),
        4 => { lines.push(line("Connection", b"close, xupgrade")); failing |= CONN; }
        5 => { lines.push(line("Connection", b"keep-alive")); lines.push(line("Connection", b"Upgrade")); }
        _ => { lines.push(line("Connection", b"websocket")); failing |= CONN; }
    }
    match choose(5) {
        0 => lines.push(line("Sec-WebSocket-Version", b"13")),
        1 => (),
        2 => { lines.push(line("Sec-WebSocket-Version", [&b"8"[..], b"14", b"133", b"1", b"x"][choose(5)])); failing |= VERSION; }
        3 => { lines.push(line("Sec-WebSocket-Version", b"13")); lines.push(line("Sec-WebSocket-Version", b"8")); failing |= VERSION; }
        _ => { lines.push(line("Sec-WebSocket-Version", b"13, 8")); failing |= VERSION; }
    }
    let k = lines.len().max(1);
    lines.rotate_left(param(1) % k);
    lines.insert(0, b"GET /a?b HTTP/1.1".to_vec());
    if choose(2) == 1 { lines.push(line("Host", b"h")); }
    judge(how, &lines, &bytes::<2>(), failing);
}
fn c22_long() {
    // a long request: param 0: way, 1: header lines before the required ones, 2: length of their values, 3: 1 = cut
    let (how, k, n) = (param(0), param(1), param(2));
    let bad = choose(3);
    let mut r = good_request(&any_key().1);
    let first = r.remove(0);
    if bad == 1 { r.remove(1); }
    if bad == 2 { r.remove(2); }
    let mut lines = vec![first];
    for i in 0..k { lines.push(line(&format!("X-{}", i), &(0..n).map(|j| b'!' + ((i + j) % 90) as u8).collect::<Vec<u8>>())) }
    lines.extend(r);
    let h = join(&lines);
    let tail = bytes::<3>();
    let w = [&h[..], &tail].concat();
    let cuts = [vec![], vec![h.len() / 2], vec![1024, 4096, 8192], vec![h.len() - 1], vec![h.len()]][choose(5)].clone();
    let (e, q, left, p) = offer(how, &w, &cuts);
    check(p.out().is_empty(), "something is written before the caller decides");
    check_same(&left, &tail, "the bytes behind the request are not handed back");
    match e {
        None => { check(bad == 0, "a request that is no WebSocket upgrade is accepted"); cover("accepted") }
        Some((x, _)) => { check(bad != 0, "a correct upgrade request is refused"); check(x == [0, UPG, CONN][bad], "the error names a requirement the request meets"); cover("refused") }
    }
    match q { Some(q) => { check(q.headers.len() == lines.len() - 1, "the request handed back lacks headers"); if k > 0 { let v = q.headers.get_raw(&format!("X-{}", k - 1)).map_or(vec![], |v| v.concat()); check_same(&v, &lines[k][lines[k].len() - n..], "a header of the request handed back is altered") } } None => fail("the request is not handed back") }
}
fn c22_any_key() {
    // any key, any case of the two words: param 0: way, 1: 0 the key, 1 the words
    let (how, w) = (param(0), param(1));
    let mut r = good_request(&if w == 0 { any_key().1 } else { b64(&KEY) });
    if w == 1 { r[2] = line("Upgrade", &anycase("websocket")); r[3] = line("Connection", &anycase("upgrade")); }
    if w == 2 { r[2] = line("Upgrade", &[b"h2c,".to_vec(), anycase("websocket")].concat()); r[3] = line("Connection", &[b"x , ".to_vec(), anycase("upgrade"), b",y".to_vec()].concat()); }
    judge(how, &r, &bytes::<2>(), 0);
}
fn c22_method() {
    // method, target and HTTP version: param 0: way, 1: kind of method
    let how = param(0);
    let mut failing = 0;
    let method = match param(1) {
        0 => b"GET".to_vec(),
        1 => { let m = vec(3); for c in &m { assume(tchar(*c)); } if !((m[0] == b'G') & (m[1] == b'E') & (m[2] == b'T')) { failing |= METHOD; } m }
        2 => { let mut m = b"GET".to_vec(); for c in &mut m { *c ^= byte() & 0x20; } if m != b"GET" { failing |= METHOD; } m }
        _ => { failing |= METHOD; [&b"POST"[..], b"HEAD", b"OPTIONS", b"PUT", b"DELETE", b"TRACE", b"CONNECT", b"PATCH", b"GETX", b"GE"][choose(10)].to_vec() }
    };
    let minor = byte();
    assume((minor == b'0') | (minor == b'1'));
    let v10 = minor == b'0';
    if v10 { failing |= HTTP; }
    let target = [&b"/"[..], b"/chat", b"/a/b?c=d&e", b"http://example.org/x", b"*"][choose(5)];
    let mut r = good_request(&b64(&KEY));
    r[0] = [&method[..], b" ", target, b" HTTP/1.", &[minor]].concat();
    // an authority form is only for CONNECT, an asterisk is no matter here
    let which = choose(3);
    if which == 1 { r.remove(5); } // no version
    if which == 2 { r.remove(4); failing |= KEYH; }
    judge(how, &r, &bytes::<3>(), failing);
}
fn c22_values() {
    // arbitrary visible characters within one header value: param 0: way, 1: header, 2: how many
    let (how, n) = (param(0), param(2));
    let mut r = good_request(&b64(&KEY));
    let (i, name, v): (usize, &str, &[u8]) = match param(1) {
        0 => (2, "Upgrade", b"a/1, websocket"),
        1 => (3, "Connection", b"close, upgrade"),
        2 => (5, "Sec-WebSocket-Version", b"13"),
        3 => (2, "Upgrade", b"websocket"),
        _ => (3, "Connection", b"upgrade"),
    };
    let mut v = v.to_vec();
    let at = choose(v.len() - n + 1);
    v[at..at + n].copy_from_slice(&vchars(n));
    r[i] = line(name, &v);
    let ok = match param(1) {
        0 | 3 => any_element(&v, &|e| { let name = match e.iter().position(|c| *c == b'/') { Some(k) => &e[..k], None => e }; is_word(name, "websocket") }),
        1 | 4 => any_element(&v, &|e| is_word(e, "upgrade")),
        _ => { let t: Vec<u8> = v.iter().copied().filter(|c| *c != b' ').collect(); let t = if v.len() == 2 && v[0] != b' ' && v[1] != b' ' { v.clone() } else { t }; t.len() == 2 && (t[0] == b'1') & (t[1] == b'3') }
    };
    judge(how, &r, b"", if ok { 0 } else { [UPG, CONN, VERSION, UPG, CONN][param(1)] });
}
fn c22_key_value() {
    // arbitrary characters in the key: param 0: way, 1: how many
    let (how, n) = (param(0), param(1));
    let mut k = b64(&KEY);
    let at = choose(22 - n);
    k[at..at + n].copy_from_slice(&vchars(n));
    let mut ok = 1u8;
    for c in &k[..22] { ok &= b64val(*c).1; }
    let mut r = good_request(&k);
    r[0] = b"GET / HTTP/1.1".to_vec();
    judge(how, &r, b"", if ok == 1 { 0 } else { KEYH });
}
fn c22_truncated() {
    // an incomplete request never is one; what was read is handed back: param 0: way (0 blocking, 1 asynchronous)
    let how = param(0);
    let w = join(&good_request(&b64(&KEY)));
    let cut = choose(w.len());
    let (e, r, left, _) = offer(how, &w[..cut], &[]);
    match e { None => fail("an incomplete request is accepted"), Some((x, _)) => check(x == PARSE, "an incomplete request is reported as another failure") }
    check(r.is_none(), "a request out of nowhere");
    check_same(&left, &w[..cut], "the bytes read are not handed back");
    log(cut as u64);
}
fn c23_accept() {
    // param 0: asynchronous, 1: custom headers, 2: subprotocols and extensions
    let (asy_, custom, chosen) = (param(0) == 1, param(1), param(2));
    let (k, t) = any_key();
    let mut r = good_request(&t);
    if choose(2) == 1 { r.push(line("Sec-WebSocket-Protocol", b"one, two")); }
    let mut w = join(&r);
    w.extend_from_slice(&[0x81, 0x80, 1, 2]);
    let mut h = Headers::new();
    let xv = vchars(3);
    assume((xv[0] != b' ') & (xv[2] != b' '));
    if custom >= 1 { h.set_raw("X-Custom", vec![xv.clone()]); h.set_raw("Set-Cookie", vec![b"a=b".to_vec(), b"c=d".to_vec()]); }
    if custom >= 2 {
        // attempts at the required ones
        match choose(5) {
            0 => h.set_raw("Upgrade", vec![b"h2c".to_vec()]),
            1 => h.set_raw("connection", vec![b"close".to_vec(), b"keep-alive".to_vec()]),
            2 => h.set_raw("SEC-WEBSOCKET-ACCEPT", vec![b"AAAAAAAAAAAAAAAAAAAAAAAAAAA=".to_vec()]),
            3 => h.set(hyper::header::Connection::close()),
            _ => { h.set_raw("Upgrade", vec![b"a".to_vec(), b"b".to_vec()]); h.set_raw("Sec-WebSocket-Accept", vec![b"x".to_vec(), b"y".to_vec()]); }
        }
    }
    let names: Vec<String> = (0..chosen).map(|_| token(2)).collect();
    let mut ext = vec![];
    if chosen > 0 { let mut e = Extension::new(token(1)); e.params.push(Parameter::new("p".into(), Some(token(1)))); ext.push(e.clone()); if chosen > 1 { ext.push(Extension::new("z".into())); let mut f = e.clone(); f.params[0].name = "o".into(); ext.push(f); ext.push(e) } }
    let single = if ext.is_empty() { 0 } else if ext.len() == 1 { 1 } else { choose(3) };
    let p = Pipe::new(&w).cut(&[w.len() - 4], asy_);
    macro_rules! choose_all { ($u:expr) => {{
        let mut u = $u;
        for n in &names { u = u.use_protocol(n.clone()); }
        for e in &ext[..single] { u = u.use_extension(e.clone()) }
        if ext.len() > single { u = u.use_extensions(ext[single..].to_vec()) }
        u
    }} }
    let wl = choose(2) == 1;
    sha1::recorded_reset();
    let (protos, exts): (Vec<String>, usize);
    if asy_ {
        let u = match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(u) => choose_all!(u), Err(_) => fail("a correct request is refused") };
        let mut f = match (custom > 0, wl) { (false, false) => u.accept(), (true, false) => u.accept_with(&h), (false, true) => u.accept_with_limits(10, 10), (true, true) => u.accept_with_headers_and_limits(&h, 10, 10) };
        p.0.borrow_mut().short = 1;
        match drive(&mut *f) {
            Ok((fr, hs)) => { drop(fr); protos = hs.get::<websocket::header::WebSocketProtocol>().map_or(vec![], |p| p.0.clone()); exts = hs.get::<websocket::header::WebSocketExtensions>().map_or(0, |p| p.0.len()); }
            Err(_) => fail("accepting fails"),
        }
    } else {
        let u = match syn::IntoWs::into_ws(p.clone()) { Ok(u) => choose_all!(u), Err(_) => fail("a correct request is refused") };
        p.0.borrow_mut().short = 1;
        let c = match (custom > 0, wl) { (false, false) => u.accept(), (true, false) => u.accept_with(&h), (false, true) => u.accept_with_limits(10, 10), (true, true) => u.accept_with_headers_and_limits(&h, 10, 10) };
        match c { Ok(c) => { protos = c.protocols().to_vec(); exts = c.extensions().len(); } Err(_) => fail("accepting fails") }
    }
    check(protos == names && exts == ext.len(), "the connection does not know what was chosen");
    let recs = sha1::recorded();
    check(recs.len() == 1, "not one accept value is computed");
    let want = [b64(&k), GUID.to_vec()].concat();
    check(recs[0].len == want.len(), "the accept value is for something else than the key of the request");
    check_same(&recs[0].input[..want.len()], &want, "the accept value is for something else than the key of the request");
    let accept = b64(&recs[0].out);
    let h = match head(&p.out()) { Some(h) => h, None => fail("the response is not complete") };
    check(h.rest.is_empty(), "something follows the response");
    check(h.first.starts_with(b"HTTP/1.1 101 "), "the status is not 101");
    check(is_word(&h.one("upgrade", "not one upgrade header"), "websocket"), "the upgrade header is not websocket");
    check(is_word(&h.one("connection", "not one connection header"), "upgrade"), "the connection header is not upgrade");
    check_same(&h.one("sec-websocket-accept", "not one accept header"), &accept, "the accept header is not the token of the request's key");
    h.list("sec-websocket-protocol", &names.iter().map(|n| n.clone().into_bytes()).collect::<Vec<_>>(), "the subprotocol sent is not the one chosen");
    h.list("sec-websocket-extensions", &ext.iter().map(|e| format!("{}", e).into_bytes()).collect::<Vec<_>>(), "the extensions sent are not those chosen");
    let mut n = 3 + (!names.is_empty()) as usize + (!ext.is_empty()) as usize;
    if custom > 0 {
        check_same(&h.one("x-custom", "a custom header is not sent once"), &xv, "a custom header is altered");
        check(h.all("set-cookie") == vec![b"a=b".to_vec(), b"c=d".to_vec()], "a custom header with two lines is altered");
        n += 3;
    }
    check(h.lines.len() == n, "other headers are sent");
    cover("accepted");
}
fn c23_large() {
    // a large response over a transport that takes it in parts: param 0: asynchronous, 1: what is large
    let (asy_, what) = (param(0) == 1, param(1));
    let (k, t) = any_key();
    let x = token(2);
    let mut h = Headers::new();
    let mut lines: Vec<Vec<u8>> = vec![];
    if what == 1 { lines.push((0..9000).map(|i| b'A' + (i % 26) as u8).collect()) }
    if what == 2 { for i in 0..90 { lines.push(format!("v{}", i).into_bytes()) } }
    if !lines.is_empty() { h.set_raw("X-Large", lines.clone()) }
    let names: Vec<String> = if what == 3 { (0..30).map(|i| format!("p{}{}", i, x)).collect() } else { vec![] };
    let ext: Vec<Extension> = if what == 4 { (0..30).map(|i| Extension::new(format!("e{}{}", i, x))).collect() } else { vec![] };
    let p = Pipe::new(&join(&good_request(&t)));
    sha1::recorded_reset();
    macro_rules! choose_all { ($u:expr) => {{ let mut u = $u; for n in &names { u = u.use_protocol(n.clone()); } for e in &ext { u = u.use_extension(e.clone()) } u }} }
    if asy_ {
        let u = match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(u) => choose_all!(u), Err(_) => fail("a correct request is refused") };
        let mut f = u.accept_with(&h);
        p.parts(asy_);
        check(drive(&mut *f).is_ok(), "accepting fails");
    } else {
        let u = match syn::IntoWs::into_ws(p.clone()) { Ok(u) => choose_all!(u), Err(_) => fail("a correct request is refused") };
        p.parts(asy_);
        check(u.accept_with(&h).is_ok(), "accepting fails");
    }
    let recs = sha1::recorded();
    check(recs.len() == 1, "not one accept value is computed");
    check_same(&recs[0].input[..recs[0].len.min(60)], &[b64(&k), GUID.to_vec()].concat(), "the accept value is for something else than the key of the request");
    let r = match head(&p.out()) { Some(h) => h, None => fail("the response is not complete") };
    check(r.rest.is_empty(), "something follows the response");
    check(r.first.starts_with(b"HTTP/1.1 101 "), "the status is not 101");
    check(is_word(&r.one("upgrade", "not one upgrade header"), "websocket"), "the upgrade header is not websocket");
    check(is_word(&r.one("connection", "not one connection header"), "upgrade"), "the connection header is not upgrade");
    check_same(&r.one("sec-websocket-accept", "not one accept header"), &b64(&recs[0].out), "the accept header is not the token of the request's key");
    r.list("sec-websocket-protocol", &names.iter().map(|n| n.clone().into_bytes()).collect::<Vec<_>>(), "the subprotocol sent is not the one chosen");
    r.list("sec-websocket-extensions", &ext.iter().map(|e| format!("{}", e).into_bytes()).collect::<Vec<_>>(), "the extensions sent are not those chosen");
    let g = r.all("x-large");
    check(g.len() == lines.len(), "a custom header is lost");
    for (a, b) in g.iter().zip(&lines) { check_same(a, b, "a custom header is altered") }
    check(r.lines.len() == 3 + lines.len() + (what == 3) as usize + (what == 4) as usize, "other headers are sent");
    cover("accepted");
}
fn c27_reject() {
    // param 0: asynchronous, 1: custom headers
    let (asy_, custom) = (param(0) == 1, param(1));
    let (_, t) = any_key();
    let mut r = good_request(&t);
    if choose(2) == 1 { r.push(line("Sec-WebSocket-Protocol", b"one")); }
    let mut w = join(&r);
    let tail = bytes::<3>();
    let cut = w.len() + choose(3);
    w.extend_from_slice(&tail);
    let mut h = Headers::new();
    let xv = vchars(3);
    assume((xv[0] != b' ') & (xv[2] != b' '));
    if custom >= 1 { h.set_raw("X-Reason", vec![xv.clone()]); h.set_raw("Set-Cookie", vec![b"a=b".to_vec(), b"c=d".to_vec()]); }
    if custom >= 2 { h.set(hyper::header::Connection::close()); }
    let names = ["Upgrade", "Sec-WebSocket-Version", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Server", "Content-Length", "Location", "Host"];
    let name = names[if custom >= 3 { choose(names.len()) } else { 0 }];
    if custom >= 3 { h.set_raw(name, vec![xv.clone()]); }
    let p = Pipe::new(&w).cut(&[cut], asy_);
    let read; // bytes read from the transport when the answer is given
    let left;
    sha1::recorded_reset();
    if asy_ {
        let u = match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
        read = p.0.borrow().at;
        { let mut s = p.0.borrow_mut(); s.short = 1; s.wblock = 1; }
        let mut f = if custom > 0 { u.reject_with(&h) } else { u.reject() };
        match drive(&mut f) { Ok(fr) => { let q = fr.into_parts(); left = [q.read_buf.to_vec(), q.io.rest()].concat(); check(q.write_buf.is_empty(), "part of the answer is not sent") } Err(_) => fail("rejecting fails") }
    } else {
        let u = match syn::IntoWs::into_ws(p.clone()) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
        read = p.0.borrow().at;
        let b = u.buffer.as_ref().map_or(vec![], |b| b.buf[b.pos..b.cap].to_vec());
        { let mut s = p.0.borrow_mut(); s.short = 1; s.intr = 1; }
        match if custom > 0 { u.reject_with(&h) } else { u.reject() } { Ok(s) => left = [b, s.rest()].concat(), Err(_) => fail("rejecting fails") }
    }
    check(p.0.borrow().at == read, "rejecting reads further input");
    check_same(&left, &tail, "the bytes behind the request are lost");
    let o = match head(&p.out()) { Some(h) => h, None => fail("the response is not complete") };
    check(o.rest.is_empty(), "something follows the response");
    check(o.first.starts_with(b"HTTP/1.1 400 "), "the status is not 400");
    o.none("sec-websocket-accept", "an accept token is sent");
    if custom > 0 {
        check_same(&o.one("x-reason", "a custom header is not sent once"), &xv, "a custom header is altered");
        check(o.all("set-cookie") == vec![b"a=b".to_vec(), b"c=d".to_vec()], "a custom header with two lines is altered");
        if custom > 1 { check(is_word(&o.one("connection", "a custom header is not sent once"), "close"), "a custom header is altered") }
        if custom > 2 { check_same(&o.one(&name.to_ascii_lowercase(), "a custom header is not sent once"), &xv, "a custom header is altered") }
    }
    check(o.lines.len() == [0, 3, 4, 5][custom], "other headers than the custom ones are sent");
    check(sha1::recorded().is_empty(), "an accept token is computed for a rejected request");
    cover("rejected");
}
fn c27_large() {
    // a large refusal over a transport that takes it in parts: param 0: asynchronous, 1: what is large
    let (asy_, what) = (param(0) == 1, param(1));
    let (_, t) = any_key();
    let mut w = join(&good_request(&t));
    let tail = vec(if what == 1 { 3 } else { 40 });
    let cut = w.len() + choose(3);
    w.extend_from_slice(&tail);
    let x = token(2).into_bytes();
    let lines: Vec<Vec<u8>> = if what == 1 { vec![(0..9000).map(|i| b'A' + (i % 26) as u8).chain(x).collect()] } else { (0..90).map(|i| [format!("v{}", i).as_bytes(), &x[..]].concat()).collect() };
    let mut h = Headers::new();
    h.set_raw("X-Large", lines.clone());
    let p = Pipe::new(&w).cut(&[cut], false);
    let left;
    if asy_ {
        let u = match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
        p.parts(true);
        match drive(&mut u.reject_with(&h)) { Ok(fr) => { let q = fr.into_parts(); left = [q.read_buf.to_vec(), q.io.rest()].concat(); check(q.write_buf.is_empty(), "part of the answer is not sent") } Err(_) => fail("rejecting fails") }
    } else {
        let u = match syn::IntoWs::into_ws(p.clone()) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
        let b = u.buffer.as_ref().map_or(vec![], |b| b.buf[b.pos..b.cap].to_vec());
        p.parts(false);
        match u.reject_with(&h) { Ok(s) => left = [b, s.rest()].concat(), Err(_) => fail("rejecting fails") }
    }
    check_same(&left, &tail, "the bytes behind the request are lost");
    let o = match head(&p.out()) { Some(h) => h, None => fail("the response is not complete") };
    check(o.rest.is_empty(), "something follows the response");
    check(o.first.starts_with(b"HTTP/1.1 400 "), "the status is not 400");
    o.none("sec-websocket-accept", "an accept token is sent");
    let g = o.all("x-large");
    check(g.len() == lines.len(), "a custom header is lost");
    for (a, b) in g.iter().zip(&lines) { check_same(a, b, "a custom header is altered") }
    check(o.lines.len() == lines.len(), "other headers than the custom ones are sent");
    cover("rejected");
}
fn c27_failure() {
    // the transport fails while the answer is written: it is given back with the error
    let asy_ = param(0) == 1;
    let w = join(&good_request(&b64(&KEY)));
    let p = Pipe::new(&w);
    let accept = choose(2) == 1;
    let at = choose(26);
    if asy_ {
        let u = match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
        p.0.borrow_mut().fail = Some((at, Some(io::ErrorKind::BrokenPipe)));
        if accept { check(drive(&mut *u.accept()).is_err(), "a failed write is no error") } else { match drive(&mut u.reject()) { Ok(_) => fail("a failed write is no error"), Err(e) => check(e.kind() == io::ErrorKind::BrokenPipe, "the transport's error is reported as another") } }
    } else {
        let u = match syn::IntoWs::into_ws(p.clone()) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
        p.0.borrow_mut().fail = Some((at, Some(io::ErrorKind::BrokenPipe)));
        let (s, e) = if accept { match u.accept() { Ok(_) => fail("a failed write is no error"), Err(x) => x } } else { match u.reject() { Ok(_) => fail("a failed write is no error"), Err(x) => x } };
        check(e.kind() == io::ErrorKind::BrokenPipe, "the transport's error is reported as another");
        check(std::rc::Rc::ptr_eq(&s.0, &p.0), "the transport is not given back");
    }
    check(p.out().len() == at && p.0.borrow().after == 0, "something is written behind the failure");
    cover("failed");
}
}
