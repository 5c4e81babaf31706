//! C36, C37: what the handshake tells its caller, when it succeeds and when it fails.
use crate::http::*;
use crate::sym::*;
use crate::util::*;
use hyper::header::Headers;
use std::error::Error;
use std::io::{self, ErrorKind};
use websocket::codec::http::HttpCodecError;
use websocket::header::extensions::Extension;
use websocket::header::WebSocketVersion;
use websocket::result::{WebSocketOtherError, WSUrlErrorKind};
use websocket::server::upgrade::sync::RequestStreamPair;
use websocket::server::upgrade::{r#async as asy, sync as syn, HyperIntoWsError, Request, WsUpgrade};
use websocket::ClientBuilder;
use websocket_base::result::WebSocketError;

fn builder(url: &str) -> ClientBuilder<'static> { match ClientBuilder::new(url) { Ok(b) => b, Err(_) => fail("a URL is refused") } }
fn value(n: usize) -> Vec<u8> { let v = vchars(n); assume((v[0] != b' ') & (v[n - 1] != b' ')); v }
fn unreserved() -> u8 { let c = byte(); let r = |lo: u8, hi: u8| (c >= lo) as u8 & (c <= hi) as u8; assume((r(b'a', b'z') | r(b'A', b'Z') | r(b'0', b'9') | r(b'-', b'-') | r(b'_', b'_') | r(b'~', b'~')) != 0); c }
/// Two-character tokens over several lines of one header: the lines and what they list.
fn listed(name: &str, shape: usize) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let (a, b, c) = (token(2).into_bytes(), token(1).into_bytes(), b"z9".to_vec());
    match shape {
        0 => (vec![], vec![]),
        1 => (vec![line(name, &a)], vec![a]),
        2 => (vec![line(name, &[&a[..], b", ", &b, b",", &c].concat())], vec![a, b, c]),
        3 => (vec![line(name, &[&a[..], b" ,", &b].concat()), line(name, &c)], vec![a, b, c]),
        4 => (vec![line(name, &c), line(name, &a), line(name, &b)], vec![c, a, b]),
        // the same one twice in a row
        5 => (vec![line(name, &[&a[..], b", ", &a].concat()), line(name, &b)], vec![a.clone(), a, b]),
        // names that are no tokens
        7 => (vec![line(name, &[&a[..], b" ", &b, b", ", &c].concat())], vec![[&a[..], b" ", &b].concat(), c]),
        // many, in one line or in one each
        8 | 9 => {
            let mut v: Vec<Vec<u8>> = (0..if shape == 8 { 60 } else { 30 }).map(|i| format!("name{}", i).into_bytes()).collect();
            v.insert(20, a); v.push(b);
            (if shape == 8 { vec![line(name, &v.join(&b", "[..]))] } else { v.iter().map(|x| line(name, x)).collect() }, v)
        }
        // the same one twice
        _ => (vec![line(name, &[&a[..], b", ", &b, b", ", &a].concat())], vec![a.clone(), b, a]),
    }
}
/// Extensions, with parameters.
fn extended(shape: usize) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let name = "Sec-WebSocket-Extensions";
    let (a, b) = (token(2).into_bytes(), token(1).into_bytes());
    match shape {
        0 => (vec![], vec![]),
        1 => (vec![line(name, &a)], vec![a]),
        2 => { let e = [&a[..], b"; p; q=", &b].concat(); (vec![line(name, &e)], vec![[&a[..], b";p;q=", &b].concat()]) }
        3 => (vec![line(name, &[&a[..], b"; p=1, ", &b].concat()), line(name, b"x-y;z")], vec![[&a[..], b";p=1"].concat(), b, b"x-y;z".to_vec()]),
        // the same one again, with other parameters and without
        5 => (vec![line(name, &[&a[..], b"; p; q=", &b, b", ", &a, b";q=1, ", &a, b", ", &a].concat())], vec![[&a[..], b";p;q=", &b].concat(), [&a[..], b";q=1"].concat(), a.clone(), a]),
        // many, in one line or in one each; one with many parameters
        8 | 9 => {
            let mut v: Vec<Vec<u8>> = (0..if shape == 8 { 60 } else { 30 }).map(|i| format!("ext{};p={}", i, i).into_bytes()).collect();
            let mut w = a; for i in 0..40 { w.extend_from_slice(format!(";q{}={}", i, i).as_bytes()) }
            v.insert(20, w); v.push(b);
            (if shape == 8 { vec![line(name, &v.join(&b", "[..]))] } else { v.iter().map(|x| line(name, x)).collect() }, v)
        }
        _ => (vec![line(name, &[&a[..], b", ", &b, b"; r=5, ", &a].concat())], vec![a.clone(), [&b[..], b";r=5"].concat(), a]),
    }
}
fn same_texts(got: &[String], want: &[Vec<u8>], m: &str) { check(got.len() == want.len(), m); for (a, b) in got.iter().zip(want) { check_same(a.as_bytes(), b, m) } }
/// What an offered upgrade reports.
struct Seen2 { protos: Vec<String>, exts: Vec<String>, key: Option<[u8; 16]>, version: Option<bool>, origin: Option<String>, uri: String, raw: Headers, empty: bool }
macro_rules! report { ($u:expr) => {{
    let u = $u;
    Seen2 { protos: u.protocols().to_vec(), exts: u.extensions().iter().map(text_of).collect(), key: u.key().copied(), version: u.version().map(|v| *v == WebSocketVersion::WebSocket13), origin: u.origin().map(|o| o.to_string()), uri: u.uri(), raw: u.request.headers.clone(), empty: u.headers.len() == 0 }
}} }
fn seen(how: usize, input: &[u8]) -> Seen2 {
    let p = Pipe::new(input).end(ErrorKind::WouldBlock);
    match how {
        0 => match syn::IntoWs::into_ws(p) { Ok(u) => report!(u), Err(_) => fail("a correct upgrade request is refused") },
        1 => match drive(&mut *asy::IntoWs::into_ws(p)) { Ok(u) => report!(u), Err(_) => fail("a correct upgrade request is refused") },
        2 => {
            let mut rd = hyper::buffer::BufReader::new(p.clone());
            let r = match hyper::http::h1::parse_request(&mut rd) { Ok(r) => r, Err(_) => fail("a correct request is not parsed") };
            match syn::IntoWs::into_ws(RequestStreamPair(p, r)) { Ok(u) => report!(u), Err(_) => fail("a correct upgrade request is refused") }
        }
        _ => {
            let r = match hyper_request(&p) { Ok(r) => r, Err(_) => fail("a correct request is not parsed") };
            match syn::IntoWs::into_ws(syn::HyperRequest(r)) { Ok(u) => report!(u), Err(_) => fail("a correct upgrade request is refused") }
        }
    }
}
fn raw_is(h: &Headers, name: &str, want: &[u8], m: &str) { match h.get_raw(name) { Some(v) => { check(v.len() == 1, m); check_same(&v[0], want, m) } None => fail(m) } }
/// The transport error inside this one, if it is one.
fn io_kind(e: &WebSocketError) -> Option<ErrorKind> {
    match e {
        WebSocketError::IoError(e) => Some(e.kind()),
        WebSocketError::NoDataAvailable => Some(ErrorKind::UnexpectedEof),
        WebSocketError::Other(b) => match b.downcast_ref::<WebSocketOtherError>() { Some(e) => other_kind(e), None => None },
        _ => None,
    }
}
fn other_kind(e: &WebSocketOtherError) -> Option<ErrorKind> {
    match e { WebSocketOtherError::IoError(e) | WebSocketOtherError::HttpError(hyper::Error::Io(e)) => Some(e.kind()), _ => None }
}
fn upgrade_kind(e: &HyperIntoWsError) -> Option<ErrorKind> {
    match e { HyperIntoWsError::Io(e) | HyperIntoWsError::Parsing(hyper::Error::Io(e)) => Some(e.kind()), _ => None }
}
const KINDS: [ErrorKind; 12] = [ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::ConnectionAborted, ErrorKind::TimedOut, ErrorKind::NotConnected, ErrorKind::PermissionDenied, ErrorKind::Other, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::ConnectionRefused, ErrorKind::NotFound, ErrorKind::AddrInUse];
fn names(text: &str, word: &str) -> bool { let t = text.to_ascii_lowercase(); t.contains(word) }
/// The source an error names is a transport error of this kind.
fn source_kind(e: &(dyn Error + 'static)) -> Option<ErrorKind> { e.source().and_then(|s| s.downcast_ref::<io::Error>()).map(|e| e.kind()) }
fn shown(e: &dyn std::fmt::Display) -> String { format!("{}", e) }

harnesses! {
fn c36_request() {
    // what an upgrade reports about the request: param 0: way, 1: subprotocol lines, 2: extension lines, 3: rotation of the lines
    let (how, ps, es) = (param(0), param(1), param(2));
    let (k, kt) = any_key();
    let (pl, pw) = listed(["Sec-WebSocket-Protocol", "sec-websocket-PROTOCOL"][param(3) % 2], ps);
    let (el, ew) = extended(es);
    let t = [unreserved(), unreserved(), unreserved()];
    let target = match choose(5) { 3 => [b"http://h/", &t[..], b"?a=b"].concat(), 4 => [b"http://h:81/?", &t[..]].concat(), 0 => b"/".to_vec(), 1 => [b"/", &t[..2], b"?", &t[2..], b"=1"].concat(), _ => [b"/a/", &t[..], b"/"].concat() };
    let x = value(2);
    let origin = if choose(2) == 1 { Some(value(3)) } else { None };
    let version = choose(2) == 1;
    let mut lines = vec![line("Host", b"h"), line("Upgrade", b"h2c, websocket"), line("Connection", b"keep-alive, Upgrade"), line("Sec-WebSocket-Key", &kt), line("X-Custom", &x)];
    if version { lines.push(line("Sec-WebSocket-Version", b"13")) }
    if let Some(o) = &origin { lines.push(line("Origin", o)) }
    lines.extend(pl); lines.extend(el);
    // (the lines of one header keep their order: the rotation is by whole headers)
    let r = param(3) % 5;
    lines.rotate_left(r);
    if r > 0 && lines.len() > 8 { lines.sort_by_key(|l| if l[0] | 32 == b's' { 1 } else { 0 }); }
    lines.insert(0, [b"GET ", &target[..], b" HTTP/1.1"].concat());
    let s = seen(how, &join(&lines));
    same_texts(&s.protos, &pw, "the subprotocols reported are not those offered");
    same_texts(&s.exts, &ew, "the extensions reported are not those offered");
    match s.key { Some(a) => check_same(&a, &k, "the key reported is not the one sent"), None => fail("no key is reported") }
    check(s.version == if version { Some(true) } else { None }, "the version reported is not the one sent");
    match (&s.origin, &origin) { (Some(a), Some(b)) => check_same(a.as_bytes(), b, "the origin reported is not the one sent"), (None, None) => (), _ => fail("the origin reported is not the one sent") }
    check_same(s.uri.as_bytes(), &target, "the target reported is not the one asked for");
    raw_is(&s.raw, "X-Custom", &x, "a header of the request is not handed on");
    raw_is(&s.raw, "Sec-WebSocket-Key", &kt, "a header of the request is not handed on");
    raw_is(&s.raw, "Host", b"h", "a header of the request is not handed on");
    check(s.empty, "a response header nobody chose");
    cover("reported");
}
fn c36_response() {
    // what a client reports about the response: param 0: asynchronous, 1: subprotocol lines, 2: extension lines, 3: rotation of the lines
    let (asy_, ps, es) = (param(0) == 1, param(1), param(2));
    let (pl, pw) = listed(["Sec-WebSocket-Protocol", "sec-websocket-PROTOCOL"][param(3) % 2], ps);
    let (el, ew) = extended(es);
    let x = value(3);
    let mut r = good_response(&accept_for(crate::http::KEY));
    r.remove(0);
    r.push(line("X-Custom", &x));
    r.push(line("Set-Cookie", b"a=b")); r.push(line("Set-Cookie", b"c=d"));
    r.extend(pl); r.extend(el);
    r.rotate_left(param(3) % 5);
    r.sort_by_key(|l| if l[0] | 32 == b's' { 1 } else { 0 });
    r.insert(0, b"HTTP/1.1 101 Switching Protocols".to_vec());
    let names = { let mut n: Vec<Vec<u8>> = r[1..].iter().map(|l| l.iter().take_while(|c| **c != b':').map(|c| c | 32).collect()).collect(); n.sort(); n.dedup(); n.len() };
    let p = Pipe::new(&join(&r)).end(ErrorKind::WouldBlock);
    let c = match connect(asy_, builder("ws://h/").key(crate::http::KEY), p) { Ok(c) => c, Err(_) => fail("a correct response is refused") };
    same_texts(&c.protos, &pw, "the subprotocols reported are not those chosen");
    same_texts(&c.exts, &ew, "the extensions reported are not those chosen");
    let h = match (&c.end, &c.headers) { (End::Sync(c), _) => c.headers(), (_, Some(h)) => h, _ => fail("no headers are reported") };
    raw_is(h, "X-Custom", &x, "a header of the response is not handed on");
    raw_is(h, "Upgrade", b"websocket", "a header of the response is not handed on");
    raw_is(h, "Connection", b"Upgrade", "a header of the response is not handed on");
    raw_is(h, "Sec-WebSocket-Accept", &accept_for(crate::http::KEY), "a header of the response is not handed on");
    check(h.len() == names, "other headers are reported than the response has");
    match h.get_raw("Set-Cookie") { Some(v) => { check(v.len() == 2, "a repeated header is not handed on"); check_same(&v[0], b"a=b", "a repeated header is not handed on"); check_same(&v[1], b"c=d", "a repeated header is not handed on") } None => fail("a repeated header is not handed on") }
    cover("reported");
}
fn c36_chosen() {
    // what an accepted connection reports: what was chosen for it, not what was offered: param 0: 0 blocking, 1 asynchronous, 2: 1 = custom headers
    let (asy_, custom) = (param(0) == 1, param(1) == 1);
    let (pl, _) = listed("Sec-WebSocket-Protocol", 2);
    let (el, _) = extended(3);
    let mut lines = good_request(&b64(&crate::http::KEY));
    lines.extend(pl); lines.extend(el);
    let p = Pipe::new(&join(&lines)).end(ErrorKind::WouldBlock);
    let (np, ne) = (choose(3), choose(3));
    let (ap, bp) = (token(2), token(1));
    let (ae, be) = (token(2), token(1));
    let v = value(2);
    let mut h = Headers::new();
    h.set_raw("X-Custom", vec![v.clone()]);
    macro_rules! choose_in { ($u:expr) => {{
        let mut u = $u;
        if np > 0 { u = u.use_protocol(ap.clone()) }
        if np > 1 { u = u.use_protocol(bp.clone()) }
        if ne > 0 { u = u.use_extension(Extension::new(ae.clone())) }
        if ne > 1 { u = u.use_extensions(vec![Extension::new(be.clone())]) }
        u
    }} }
    let (protos, exts, hs) = if asy_ {
        let u = match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(u) => choose_in!(u), Err(_) => fail("a correct request is refused") };
        match drive(&mut *(if custom { u.accept_with(&h) } else { u.accept() })) { Ok((_, h)) => (protos_in(&h), exts_in(&h), h), Err(_) => fail("accepting fails") }
    } else {
        let u = match syn::IntoWs::into_ws(p.clone()) { Ok(u) => choose_in!(u), Err(_) => fail("a correct request is refused") };
        match if custom { u.accept_with(&h) } else { u.accept() } { Ok(c) => (c.protocols().to_vec(), c.extensions().iter().map(text_of).collect(), c.headers().clone()), Err(_) => fail("accepting fails") }
    };
    let wp: Vec<Vec<u8>> = [ap, bp].iter().take(np).map(|s| s.as_bytes().to_vec()).collect();
    let we: Vec<Vec<u8>> = [ae, be].iter().take(ne).map(|s| s.as_bytes().to_vec()).collect();
    same_texts(&protos, &wp, "an accepted connection reports other subprotocols than were chosen");
    same_texts(&exts, &we, "an accepted connection reports other extensions than were chosen");
    raw_is(&hs, "Sec-WebSocket-Accept", &accept_for(crate::http::KEY), "the headers reported are not those of the response");
    if custom { raw_is(&hs, "X-Custom", &v, "the headers reported are not those of the response") } else { check(hs.get_raw("X-Custom").is_none(), "the headers reported are not those of the response") }
    let sent = match head(&p.out()) { Some(h) => h, None => fail("the response is not complete") };
    check(sent.lines.len() == hs.len(), "the headers reported are not those of the response");
    cover("reported");
}
fn c37_status() {
    // any status but 101: param 0: asynchronous, 1: with a location
    let (asy_, loc) = (param(0) == 1, param(1) == 1);
    let d: Vec<u8> = (0..3).map(|_| { let c = byte(); assume((c >= b'0') & (c <= b'9')); c }).collect();
    assume(d[0] != b'0');
    let s = (d[0] - b'0') as u16 * 100 + (d[1] - b'0') as u16 * 10 + (d[2] - b'0') as u16;
    assume(s != 101);
    let v = value(3);
    let mut r = if choose(2) == 1 { good_response(&accept_for(crate::http::KEY)) } else { vec![vec![], line("Content-Length", b"0")] };
    r[0] = [b"HTTP/1.1 ", &d[..], b" X"].concat();
    if loc { r.push(line("Location", &v)) }
    let e = match connect(asy_, builder("ws://h/").key(crate::http::KEY), Pipe::new(&join(&r))) { Ok(_) => fail("a response with another status is taken"), Err(e) => e };
    let o = match &e { WebSocketError::Other(b) => b.downcast_ref::<WebSocketOtherError>(), _ => None };
    match o {
        Some(WebSocketOtherError::StatusCodeError(c)) => { check(c.to_u16() == s, "another status is reported"); check(!(loc && d[0] == b'3'), "a redirection is reported as a mere status"); cover("status") }
        Some(WebSocketOtherError::RedirectError(c, l)) => { check(c.to_u16() == s, "another status is reported"); check(loc && d[0] == b'3', "a redirection is reported where there is none"); check_same(l.as_bytes(), &v, "another location is reported"); cover("redirection") }
        _ => fail("a status is reported as another failure"),
    }
}
fn c37_header() {
    // a 101 response with one header wrong or missing: param 0: asynchronous, 1: which, 2: how
    let (asy_, which, how) = (param(0) == 1, param(1), param(2));
    let a = accept_for(crate::http::KEY);
    let mut r = good_response(&a);
    let at = 1 + which;
    if how == 0 { r.remove(at); } else {
        r[at] = match which {
            0 => line("Upgrade", &["h2c".as_bytes().to_vec(), b"websocket2".to_vec(), anycase("upgrade")][how - 1]),
            1 => line("Connection", &["close".as_bytes().to_vec(), b"keep-alive, upgrades".to_vec(), anycase("websocket")][how - 1]),
            _ => line("Sec-WebSocket-Accept", &[accept_for(*b"another nonce...")[..].to_vec(), a[..24].to_vec(), value(4)][how - 1]),
        };
    }
    if choose(2) == 1 { r[1..].rotate_left(1) }
    let e = match connect(asy_, builder("ws://h/").key(crate::http::KEY), Pipe::new(&join(&r))) { Ok(_) => fail("a response that is no correct acceptance is taken"), Err(e) => e };
    match &e {
        WebSocketError::Other(b) => match b.downcast_ref::<WebSocketOtherError>() {
            Some(WebSocketOtherError::ResponseError(t)) => {
                let (u, c, k) = (names(t, "upgrade field") || names(t, "upgrade header"), names(t, "connection"), names(t, "accept"));
                check([u || (names(t, "upgrade") && !c && !k), c, k][which], "the error does not name the header that is wrong");
                cover("named");
            }
            _ => fail("a wrong response is reported as another failure"),
        },
        _ => fail("a wrong response is reported as another failure"),
    }
}
fn c37_client_transport() {
    // the transport fails while the request is written or the response read: param 0: asynchronous, 1: writing
    let (asy_, writing) = (param(0) == 1, param(1) == 1);
    let kind = KINDS[choose(KINDS.len())];
    let r = join(&good_response(&accept_for(crate::http::KEY)));
    let p = if writing {
        let p = Pipe::new(&r);
        p.0.borrow_mut().fail = Some(([0, 1, 20, 80][choose(4)], Some(kind)));
        p
    } else { Pipe::new(&r[..[0, 1, 17, 50, r.len() - 1][choose(5)]]).end(kind) };
    let e = match connect(asy_, builder("ws://h/").key(crate::http::KEY), p.clone()) { Ok(_) => fail("a connection although the transport failed"), Err(e) => e };
    check(io_kind(&e) == Some(kind), "a transport failure is not reported as one of its kind");
    let _ = shown(&e);
    log(kind as u64);
    cover("reported");
}
fn c37_server_transport() {
    // the transport fails while the request is read: param 0: asynchronous
    let asy_ = param(0) == 1;
    let kind = KINDS[choose(KINDS.len())];
    let r = join(&good_request(&b64(&crate::http::KEY)));
    let cut = [0, 1, 17, 50, r.len() - 1][choose(5)];
    let p = Pipe::new(&r[..cut]).end(kind);
    let (e, q) = if asy_ { match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(_) => fail("half a request is taken"), Err((_, q, _, e)) => (e, q) } }
        else { match syn::IntoWs::into_ws(p.clone()) { Ok(_) => fail("half a request is taken"), Err((_, q, _, e)) => (e, q) } };
    check(q.is_none(), "a request that was not complete is handed back");
    check(upgrade_kind(&e) == Some(kind), "a transport failure is not reported as one of its kind");
    check(p.out().is_empty(), "something is sent");
    let _ = shown(&e);
    let o: WebSocketOtherError = e.into();
    check(other_kind(&o) == Some(kind), "an error loses what it carries when converted");
    cover("reported");
}
fn c37_answer_transport() {
    // the transport fails while the server's answer is written: param 0: asynchronous, 1: 0 accept, 1 accept_with, 2 reject, 3 reject_with
    let (asy_, how) = (param(0) == 1, param(1));
    let kind = KINDS[choose(KINDS.len())];
    let p = Pipe::new(&join(&good_request(&b64(&crate::http::KEY)))).end(ErrorKind::WouldBlock);
    let at = [0, 1, 20, 25][choose(4)];
    let h = { let mut h = Headers::new(); h.set_raw("X-A", vec![b"b".to_vec()]); h };
    let k = if asy_ {
        let u = match drive(&mut *asy::IntoWs::into_ws(p.clone())) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
        p.0.borrow_mut().fail = Some((at, Some(kind)));
        match how {
            0 => match drive(&mut *u.accept()) { Ok(_) => fail("a connection although the answer was not sent"), Err(e) => io_kind(&e) },
            1 => match drive(&mut *u.accept_with(&h)) { Ok(_) => fail("a connection although the answer was not sent"), Err(e) => io_kind(&e) },
            2 => match drive(&mut u.reject()) { Ok(_) => fail("a failed rejection is reported as done"), Err(e) => Some(e.kind()) },
            _ => match drive(&mut u.reject_with(&h)) { Ok(_) => fail("a failed rejection is reported as done"), Err(e) => Some(e.kind()) },
        }
    } else {
        let u = match syn::IntoWs::into_ws(p.clone()) { Ok(u) => u, Err(_) => fail("a correct request is refused") };
        p.0.borrow_mut().fail = Some((at, Some(kind)));
        match how {
            0 => match u.accept() { Ok(_) => fail("a connection although the answer was not sent"), Err((_, e)) => Some(e.kind()) },
            1 => match u.accept_with(&h) { Ok(_) => fail("a connection although the answer was not sent"), Err((_, e)) => Some(e.kind()) },
            2 => match u.reject() { Ok(_) => fail("a failed rejection is reported as done"), Err((_, e)) => Some(e.kind()) },
            _ => match u.reject_with(&h) { Ok(_) => fail("a failed rejection is reported as done"), Err((_, e)) => Some(e.kind()) },
        }
    };
    check(k == Some(kind), "a transport failure is not reported as one of its kind");
    cover("reported");
}
fn c37_convert() {
    // errors keep what they carry when converted, and name their source
    let code = 1 + choose(40) as i32;
    let kind = KINDS[choose(KINDS.len())];
    let os = choose(2) == 1;
    let make = || if os { io::Error::from_raw_os_error(code) } else { io::Error::from(kind) };
    let want = make().kind();
    assume(want != ErrorKind::UnexpectedEof);
    let whole = |e: &io::Error| e.kind() == want && e.raw_os_error() == if os { Some(code) } else { None };
    let lost = "an error loses what it carries when converted";
    match choose(7) {
        0 => { let e = WebSocketError::from(make()); match &e { WebSocketError::IoError(x) => check(whole(x), lost), _ => fail(lost) } check(source_kind(&e) == Some(want), "an error does not name its source") }
        1 => { let e = HttpCodecError::from(make()); match &e { HttpCodecError::Io(x) => check(whole(x), lost), _ => fail(lost) } check(source_kind(&e) == Some(want), "an error does not name its source") }
        2 => { let e = HyperIntoWsError::from(make()); match &e { HyperIntoWsError::Io(x) => check(whole(x), lost), _ => fail(lost) } check(source_kind(&e) == Some(want), "an error does not name its source") }
        3 => { let e = HyperIntoWsError::from(HttpCodecError::from(make())); match &e { HyperIntoWsError::Io(x) => check(whole(x), lost), _ => fail(lost) } }
        4 => { let e = WebSocketOtherError::from(HttpCodecError::from(make())); match &e { WebSocketOtherError::IoError(x) => check(whole(x), lost), _ => fail(lost) } check(source_kind(&e) == Some(want), "an error does not name its source");
            let e = WebSocketError::from(e); check(io_kind(&e) == Some(want), lost); check(source_kind(&e) == Some(want), "an error does not name its source") }
        5 => { let e = WebSocketOtherError::from(HyperIntoWsError::from(make())); match &e { WebSocketOtherError::IoError(x) => check(whole(x), lost), _ => fail(lost) } check(source_kind(&e) == Some(want), "an error does not name its source") }
        _ => { let e = WebSocketOtherError::from(hyper::Error::Io(make())); match &e { WebSocketOtherError::HttpError(hyper::Error::Io(x)) => check(whole(x), lost), _ => fail(lost) } check(e.source().is_some(), "an error does not name its source");
            let e = WebSocketOtherError::from(HyperIntoWsError::from(HttpCodecError::from(hyper::Error::Io(make())))); check(other_kind(&e) == Some(want), lost) }
    }
    cover("converted");
}
fn c37_refused() {
    // a request that fails one requirement alone: param 0: way
    let how = param(0);
    let mut r = good_request(&b64(&crate::http::KEY));
    let x = value(2);
    assume(x[0] != b',' && x[1] != b',');
    let which = choose(10);
    match which {
        0 => r[0] = [b"POST /chat HTTP/1.1".to_vec(), b"HEAD /chat HTTP/1.1".to_vec(), b"get /chat HTTP/1.1".to_vec()][choose(3)].clone(),
        1 => r[0] = b"GET /chat HTTP/1.0".to_vec(),
        2 => { assume((x[0] != b'1') | (x[1] != b'3')); r[5] = line("Sec-WebSocket-Version", &x) }
        3 => { r.remove(4); }
        4 => r[4] = line("Sec-WebSocket-Key", &x),
        5 => r[2] = line("Upgrade", &x),
        6 => { r.remove(2); }
        7 => r[3] = line("Connection", &x),
        8 => { r.remove(3); }
        _ => r[4] = line("Sec-WebSocket-Key", &b64(&[7; 15])),
    }
    if choose(2) == 1 { r[1..].rotate_left(2) }
    let p = Pipe::new(&join(&r)).end(ErrorKind::WouldBlock);
    let e = match how {
        0 => match syn::IntoWs::into_ws(p) { Ok(_) => fail("a request that fails a requirement is taken"), Err((_, q, _, e)) => { check(q.is_some(), "the request is not handed back"); e } },
        1 => match drive(&mut *asy::IntoWs::into_ws(p)) { Ok(_) => fail("a request that fails a requirement is taken"), Err((_, q, _, e)) => { check(q.is_some(), "the request is not handed back"); e } },
        2 => {
            let mut rd = hyper::buffer::BufReader::new(p.clone());
            let r = match hyper::http::h1::parse_request(&mut rd) { Ok(r) => r, Err(_) => fail("a request is not parsed") };
            match syn::IntoWs::into_ws(RequestStreamPair(p, r)) { Ok(_) => fail("a request that fails a requirement is taken"), Err((_, _, e)) => e }
        }
        _ => {
            let r = match hyper_request(&p) { Ok(r) => r, Err(_) => fail("a request is not parsed") };
            match syn::IntoWs::into_ws(syn::HyperRequest(r)) { Ok(_) => fail("a request that fails a requirement is taken"), Err((_, e)) => e }
        }
    };
    use HyperIntoWsError::*;
    let (right, name) = match (which, &e) {
        (0, MethodNotGet) => (true, "method"), (1, UnsupportedHttpVersion) => (true, "http version"), (2, UnsupportedWebsocketVersion) => (true, "version"), (3, NoSecWsKeyHeader) | (4, NoSecWsKeyHeader) | (9, NoSecWsKeyHeader) => (true, "key"),
        (5, NoWsUpgradeHeader) => (true, "other upgrade"), (6, NoUpgradeHeader) => (true, "no upgrade"), (7, NoWsConnectionHeader) => (true, "other connection"), (8, NoConnectionHeader) => (true, "no connection"),
        // (a value that is no list of protocols or options at all counts as a missing header)
        (5, NoUpgradeHeader) => (!(tchar(x[0]) && tchar(x[1])), "unreadable upgrade"), (7, NoConnectionHeader) => (!(tchar(x[0]) && tchar(x[1])), "unreadable connection"),
        _ => (false, ""),
    };
    check(right, "a refused request is reported as failing another requirement");
    cover(name);
}
fn c37_requirements() {
    // the requirement a refused request fails, through every error type, in words
    use HyperIntoWsError::*;
    let all: [(HyperIntoWsError, &str); 8] = [(MethodNotGet, "get"), (UnsupportedHttpVersion, "http version"), (UnsupportedWebsocketVersion, "websocket version"), (NoSecWsKeyHeader, "key"), (NoWsUpgradeHeader, "upgrade"), (NoUpgradeHeader, "upgrade"), (NoWsConnectionHeader, "connection"), (NoConnectionHeader, "connection")];
    let i = choose(8);
    for (k, (e, word)) in all.into_iter().enumerate() {
        if k != i { continue }
        check(names(&shown(&e), word), "an error does not name the requirement");
        check(e.source().is_none(), "an error names a source it does not have");
        let o: WebSocketOtherError = e.into();
        check(names(&shown(&o), word), "an error does not name the requirement");
        let w: WebSocketError = o.into();
        check(names(&shown(&w), word), "an error does not name the requirement");
    }
    let u = WebSocketError::from(WebSocketOtherError::from([WSUrlErrorKind::CannotSetFragment, WSUrlErrorKind::InvalidScheme, WSUrlErrorKind::NoHostName].into_iter().nth(choose(3)).unwrap()));
    match &u { WebSocketError::Other(b) => match b.downcast_ref::<WebSocketOtherError>() { Some(WebSocketOtherError::WebSocketUrlError(_)) => (), _ => fail("a URL error loses what it is") }, _ => fail("a URL error loses what it is") }
    check(names(&shown(&u), "url"), "a URL error loses what it is");
    cover("named");
}
}
