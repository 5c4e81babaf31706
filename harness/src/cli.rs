//! C24, C25, C29: the client's side of the handshake.
use crate::http::*;
use crate::sym::*;
use crate::util::*;
use hyper::header::Headers;
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion, Origin};
use websocket::url::Url;
use websocket::ClientBuilder;

fn builder(url: &str) -> ClientBuilder<'static> { match ClientBuilder::new(url) { Ok(b) => b, Err(_) => fail("a URL is refused") } }
/// The digest of the accept token for a key, and for a different key a different one.
fn digest(key: [u8; 16]) -> Vec<u8> {
    use sha1::Digest;
    let mut t = b64(&key);
    t.extend_from_slice(GUID);
    sha1::Sha1::digest(&t).to_vec()
}
/// Present this response to a client that sent key k: does it take it?
fn present(asy: bool, k: [u8; 16], lines: &[Vec<u8>]) -> Result<Conn<Pipe>, ()> {
    let p = Pipe::new(&join(lines));
    let r = connect(asy, builder("ws://h/").key(k), p.clone());
    check(head(&p.out()).is_some(), "no request was sent");
    r.map_err(|_| ())
}
/// Change one character of a base64 text of 20 bytes such that it stands for another value, or for none.
fn tamper(t: &mut Vec<u8>, at: usize) {
    if choose(2) == 0 {
        let d = byte();
        assume((d > 0) & (d < 64));
        if at == 26 { assume(d & 0x3C != 0) }
        t[at] = b64char(b64val(t[at]).0 ^ d);
    } else {
        let c = vchar();
        assume((b64val(c).1 == 0) & (c != b' ') & (c != b'='));
        t[at] = c;
    }
}

// ---- the request, as the reference sees it ----
struct Want { target: Vec<u8>, host: Vec<u8>, key: Option<[u8; 16]>, version: Vec<u8>, protos: Vec<String>, exts: Vec<String>, others: Vec<(&'static str, Vec<Vec<u8>>)> }
impl Want {
    fn new(target: &str, host: &str) -> Want { Want { target: target.as_bytes().to_vec(), host: host.as_bytes().to_vec(), key: None, version: b"13".to_vec(), protos: vec![], exts: vec![], others: vec![] } }
    fn check(&self, w: &[u8]) {
        let h = match head(w) { Some(h) => h, None => fail("the request is not complete") };
        check(h.rest.is_empty(), "something follows the request");
        check_same(&h.first, &[b"GET ", &self.target[..], b" HTTP/1.1"].concat(), "the request line is not a GET of the path and query");
        check_same(&h.one("host", "not one host header"), &self.host, "the host header is not the URL's host and port");
        check(is_word(&h.one("upgrade", "not one upgrade header"), "websocket"), "the upgrade header is not websocket");
        check(is_word(&h.one("connection", "not one connection header"), "upgrade"), "the connection header is not upgrade");
        check_same(&h.one("sec-websocket-version", "not one version header"), &self.version, "the version header is not the one wanted");
        let k = h.one("sec-websocket-key", "not one key header");
        match self.key {
            Some(x) => check_same(&k, &b64(&x), "the key sent is not the one configured"),
            None => { let d = nonce(); check_same(&k, &b64(&d), "the key sent is not the random one") }
        }
        let mut n = 5;
        for (name, l) in [("sec-websocket-protocol", &self.protos), ("sec-websocket-extensions", &self.exts)] {
            if l.is_empty() { h.none(name, "a list nobody asked for is sent"); continue }
            let g = elements(&h.one(name, "not one line for a configured list"));
            check(g.len() == l.len(), "a list sent is not the one configured");
            for (a, b) in g.iter().zip(l) { check_same(a, b.as_bytes(), "a list sent is not the one configured") }
            n += 1;
        }
        for (name, v) in &self.others {
            let g = h.all(name);
            check(g.len() == v.len(), "a header sent is not the one configured");
            for (a, b) in g.iter().zip(v) { check_same(a, b, "a header sent is not the one configured") }
            n += v.len();
        }
        check(h.lines.len() == n, "headers nobody asked for are sent");
    }
}
/// The 16 bytes drawn for the key, however they are drawn (one draw per byte of at least one byte each).
fn nonce() -> [u8; 16] {
    let d = rand::rngs::drawn();
    check(d.len() >= 16 && d.len() % 16 == 0, "the key is not drawn from the random source");
    let step = d.len() / 16;
    let mut k = [0; 16];
    for i in 0..16 { k[i] = d[i * step] }
    k
}
fn send_request(asy: bool, b: ClientBuilder<'static>) -> Vec<u8> {
    rand::rngs::drawn_reset();
    let p = Pipe::new(&[]);
    check(connect(asy, b, p.clone()).is_err(), "a connection without any response");
    p.out()
}
/// An unreserved character other than the dot.
fn unreserved() -> u8 { let c = byte(); let r = |lo: u8, hi: u8| (c >= lo) as u8 & (c <= hi) as u8; assume((r(b'a', b'z') | r(b'A', b'Z') | r(b'0', b'9') | r(b'-', b'-') | r(b'_', b'_') | r(b'~', b'~')) != 0); c }
fn un(n: usize) -> String { unsafe { String::from_utf8_unchecked((0..n).map(|_| unreserved()).collect()) } }
fn letters(n: usize) -> String { unsafe { String::from_utf8_unchecked((0..n).map(|_| { let c = byte(); assume((c >= b'a') & (c <= b'z')); c }).collect()) } }
/// Characters that stand for themselves in credentials.
fn userchars(n: usize) -> String { unsafe { String::from_utf8_unchecked((0..n).map(|_| { let c = byte(); let r = |lo: u8, hi: u8| (c >= lo) as u8 & (c <= hi) as u8; assume((r(b'a', b'z') | r(b'A', b'Z') | r(b'0', b'9') | r(b'&', b'.') | r(b'!', b'!') | r(b'$', b'$') | r(b'_', b'_') | r(b'~', b'~')) != 0); c }).collect()) } }
/// A percent-encoded ASCII character.
fn escape() -> (String, u8) {
    let c = byte();
    assume((c > 0) & (c < 0x80) & (c != b':'));
    let hex = |x: u8| x + b'0' + (x > 9) as u8 * 7;
    (unsafe { String::from_utf8_unchecked(vec![b'%', hex(c >> 4), hex(c & 15)]) }, c)
}
fn value(n: usize) -> Vec<u8> { let v = vchars(n); assume((v[0] != b' ') & (v[n - 1] != b' ')); v }

harnesses! {
fn c24_response() {
    // a 101 response, its three headers: param 0: asynchronous, 1: rotation of the lines, 2: any key (else a fixed one)
    let (asy, any) = (param(0) == 1, param(2) == 1);
    let k = if any { bytes::<16>() } else { KEY };
    let mut ok = true;
    let mut lines = vec![];
    let d = digest(k);
    match choose(8) {
        0 | 6 => lines.push(line("Sec-WebSocket-Accept", &b64(&d))),
        1 => ok = false,
        2 => { ok = false; let mut k2 = k; k2[choose(16)] ^= 1 << choose(8); let e = digest(k2); assume(!same(&d, &e)); lines.push(line("Sec-WebSocket-Accept", &b64(&e))); }
        3 => { ok = false; lines.push(line("Sec-WebSocket-Accept", b"")); }
        4 => { ok = false; lines.push(line("Sec-WebSocket-Accept", &b64(&[&d[..], b"x"].concat()))); }
        7 => { ok = false; let mut e = d.clone(); e[choose(20)] ^= 1; let right = choose(2); for i in 0..2 { lines.push(line("Sec-WebSocket-Accept", &b64(if i == right { &d } else { &e }))) } }
        _ => { ok = false; lines.push(line("Sec-WebSocket-Accept", &b64(&d[..19]))); }
    }
    let upg: (bool, Option<&[u8]>) = [(true, Some(&b"wEBSOCKEt"[..])), (true, Some(b"WebSocket")), (false, None), (false, Some(b"h2c")), (false, Some(b"websocketx")), (false, Some(b"upgrade")), (false, Some(b"h2c, websocket")), (false, Some(b"websocket, h2c"))][choose(8)];
    let con: (bool, Option<&[u8]>) = [(true, Some(&b"uPGRADe"[..])), (true, Some(b"keep-alive, Upgrade")), (false, None), (false, Some(b"keep-alive")), (false, Some(b"xupgrade, close")), (false, Some(b"websocket"))][choose(6)];
    ok &= upg.0 & con.0;
    if let Some(v) = upg.1 { lines.push(line("Upgrade", v)) }
    if let Some(v) = con.1 { lines.push(line("CONNECTION", v)) }
    // something else, or the key sent back
    lines.push(if param(1) == 2 { line("Sec-WebSocket-Key", &b64(&k)) } else { line("X-Other", b"websocket") });
    let n = lines.len();
    lines.rotate_left(param(1) % n);
    lines.insert(0, b"HTTP/1.1 101 Whatever".to_vec());
    match present(asy, k, &lines) {
        Ok(_) => { check(ok, "a response that is no correct acceptance is taken"); cover("taken"); }
        Err(_) => { check(!ok, "a correct response is refused"); cover("refused"); }
    }
}
fn c24_long() {
    // a long response: param 0: asynchronous, 1: header lines, 2: length of their values
    let (asy, k, n) = (param(0) == 1, param(1), param(2));
    let bad = choose(3);
    let mut r = good_response(&b64(&digest(KEY)));
    let first = r.remove(0);
    if bad == 1 { r.remove(2); }
    if bad == 2 { r.remove(1); }
    let mut lines = vec![first];
    for i in 0..k { lines.push(line(&format!("X-{}", i), &(0..n).map(|j| b'!' + ((i + j) % 90) as u8).collect::<Vec<u8>>())) }
    lines.extend(r);
    let w = join(&lines);
    let cuts = [vec![], vec![w.len() / 2], vec![1024, 4096, 8192], vec![w.len() - 1], (1..w.len()).step_by(1500).collect()][choose(5)].clone();
    let p = Pipe::new(&w).cut(&cuts, asy);
    match connect(asy, builder("ws://h/").key(KEY), p) {
        Ok(_) => { check(bad == 0, "a response that is no correct acceptance is taken"); cover("taken"); }
        Err(_) => { check(bad != 0, "a correct response is refused"); cover("refused"); }
    }
}
fn c24_accept() {
    // one character of the accept token differs: param 0: asynchronous, 1: position
    let (asy, at) = (param(0) == 1, param(1));
    let k = bytes::<16>();
    let mut t = b64(&digest(k));
    let wrong = choose(2) == 1;
    if wrong { tamper(&mut t, at) }
    match present(asy, k, &good_response(&t)) {
        Ok(_) => { check(!wrong, "a response with another accept token is taken"); cover("taken"); }
        Err(_) => { check(wrong, "a correct response is refused"); cover("refused"); }
    }
}
fn c24_words() {
    // any case of the two words, then arbitrary characters in them: param 0: asynchronous, 1: header, 2: how many arbitrary characters
    let (asy, n) = (param(0) == 1, param(2));
    let mut r = good_response(&b64(&digest(KEY)));
    r[1] = line("Upgrade", &anycase("websocket"));
    r[2] = line("Connection", &anycase("upgrade"));
    let mut ok = true;
    if n > 0 {
        let (i, name, word): (usize, &str, &str) = if param(1) == 0 { (1, "Upgrade", "websocket") } else { (2, "Connection", "upgrade") };
        let mut v = if param(1) == 2 { b"close, upgrade".to_vec() } else { word.as_bytes().to_vec() };
        let at = choose(v.len() - n + 1);
        v[at..at + n].copy_from_slice(&vchars(n));
        r[i] = line(name, &v);
        ok = if param(1) == 0 { elements(&v).len() == 1 && is_word(&elements(&v)[0], word) } else { any_element(&v, &|e| is_word(e, word)) };
        // a list or a version with the word is left open
        if param(1) == 0 && !ok { for c in &v { assume((*c != b',') & (*c != b'/')) } }
    }
    match present(asy, KEY, &r) {
        Ok(_) => { check(ok, "a response that is no correct acceptance is taken"); cover("taken"); }
        Err(_) => { check(!ok, "a correct response is refused"); cover("refused"); }
    }
}
fn c24_status() {
    // any three-digit status: param 0: asynchronous, 1: with a location
    let asy = param(0) == 1;
    let s: Vec<u8> = (0..3).map(|_| { let c = byte(); assume((c >= b'0') & (c <= b'9')); c }).collect();
    let mut r = good_response(&b64(&digest(KEY)));
    r[0] = [b"HTTP/1.1 ", &s[..], b" X"].concat();
    if param(1) == 1 { r.push(line("Location", b"http://h/other")) }
    let ok = (s[0] == b'1') & (s[1] == b'0') & (s[2] == b'1');
    match present(asy, KEY, &r) {
        Ok(_) => { check(ok, "a response with another status is taken"); cover("taken"); }
        Err(_) => { check(!ok, "a correct response is refused"); cover("refused"); }
    }
}
fn c24_incomplete() {
    // nothing but a complete response is one: param 0: asynchronous, 1: 0 cut off, otherwise that many arbitrary bytes at its start
    let asy = param(0) == 1;
    let mut w = join(&good_response(&b64(&digest(KEY))));
    if param(1) == 0 { w.truncate(choose(w.len())); }
    else { let g = vec(param(1)); for (i, c) in g.iter().enumerate() { w[i] = *c; } let mut d = 0; for (a, b) in g.iter().zip(b"HTTP/1.") { d |= a ^ b } assume(d != 0); assume((g[0] != 13) & (g[0] != 10)); }
    let p = Pipe::new(&w);
    check(connect(asy, builder("ws://h/").key(KEY), p).is_err(), "a connection without a complete response");
    cover("refused");
}
fn c24_fresh() {
    // the key was drawn, the response computed from the request on the wire: param 0: asynchronous
    let asy = param(0) == 1;
    rand::rngs::drawn_reset();
    let right = choose(2) == 1;
    let p = Pipe::new(&[]);
    let h = Hooked { p: p.clone(), hook: Some(Box::new(move |p: Pipe| {
        let h = match head(&p.out()) { Some(h) => h, None => fail("the request is not complete") };
        let mut t = h.one("sec-websocket-key", "not one key header");
        let a = sha(&t);
        if !right { t[choose(22)] ^= 1; let b = sha(&t); assume(!same(&a, &b)); p.more(&join(&good_response(&b64(&b)))) } else { p.more(&join(&good_response(&b64(&a)))) }
    })) };
    match connect(asy, builder("ws://h/"), h) {
        Ok(_) => { check(right, "a response to another key is taken"); cover("taken"); }
        Err(_) => { check(!right, "a correct response is refused"); cover("refused"); }
    }
}
fn c24_agreed() {
    // the subprotocols and extensions of the response are what the connection reports: param 0: asynchronous
    let asy = param(0) == 1;
    let (a, b) = (token(2), token(1));
    let mut r = good_response(&b64(&digest(KEY)));
    let (np, ne) = (choose(3), choose(3));
    if np > 0 { r.push(line("Sec-WebSocket-Protocol", if np == 1 { a.as_bytes().to_vec() } else { format!("{}, {}", a, b).into_bytes() }.as_slice())) }
    if ne > 0 { r.push(line("Sec-WebSocket-Extensions", if ne == 1 { b.as_bytes().to_vec() } else { format!("{}, {}; x=1", b, a).into_bytes() }.as_slice())) }
    match present(asy, KEY, &r) {
        Ok(c) => {
            check(c.protos.len() == np && c.exts.len() == ne, "the connection reports another number of subprotocols or extensions");
            for (x, y) in c.protos.iter().zip([&a, &b]) { check_same(x.as_bytes(), y.as_bytes(), "the connection reports another subprotocol") }
            let want = [b.clone(), format!("{};x=1", a)];
            for (x, y) in c.exts.iter().zip(&want) { check_same(x.as_bytes(), y.as_bytes(), "the connection reports another extension") }
            cover("taken");
        }
        Err(_) => fail("a correct response is refused"),
    }
}
fn c25_urls() {
    // param 0: asynchronous
    let asy = param(0) == 1;
    let k = choose(19);
    let (p, q) = (un(2), un(1));
    let s = |a: &str| a.to_string();
    let (url, target, host, auth): (String, String, &str, Option<Vec<u8>>) = match k {
        0 => (s("ws://example.org"), s("/"), "example.org", None),
        1 => (format!("ws://example.org:80/{}", p), format!("/{}", p), "example.org", None),
        2 => (format!("ws://h:81/{}?{}#frag", p, q), format!("/{}?{}", p, q), "h:81", None),
        3 => (format!("wss://h:443/{}/", q), format!("/{}/", q), "h", None),
        4 => (s("wss://h:80/x"), s("/x"), "h:80", None),
        5 => (format!("ws://[::1]:9/x?y={}&z#", p), format!("/x?y={}&z", p), "[::1]:9", None),
        6 => (format!("ws://1.2.3.4?{}", p), format!("/?{}", p), "1.2.3.4", None),
        7 => { let (u, w) = (letters(2), letters(1)); (format!("ws://{}:{}@h/x", u, w), s("/x"), "h", Some(format!("{}:{}", u, w).into_bytes())) }
        8 => { let u = letters(3); (format!("ws://{}@h:8080/", u), s("/"), "h:8080", Some(format!("{}:", u).into_bytes())) }
        16 => { let (u, w) = (userchars(2), userchars(2)); (format!("ws://{}:{}@h/x", u, w), s("/x"), "h", Some(format!("{}:{}", u, w).into_bytes())) }
        17 => { let (hx, c) = escape(); let u = userchars(1); (format!("ws://{}{}:{}@h", u, hx, hx), s("/"), "h", Some([u.as_bytes(), &[c], b":", &[c]].concat())) }
        18 => { let w = userchars(2); (format!("ws://:{}@h/{}?{}", w, p, q), format!("/{}?{}", p, q), "h", Some(format!(":{}", w).into_bytes())) }
        9 => (s("ws://u%40x:p%3Aw%25@h/"), s("/"), "h", Some(b"u@x:p:w%".to_vec())),
        10 => (s("ws://:pw@h/"), s("/"), "h", Some(b":pw".to_vec())),
        11 => (s("ws://EXAMPLE.org:8/A%20b?c d"), s("/A%20b?c%20d"), "example.org:8", None),
        12 => (s("ws://h/a/../b/./c"), s("/b/c"), "h", None),
        13 => (s("wss://h"), s("/"), "h", None),
        14 => (s("ws://h:65535/?"), s("/?"), "h:65535", None),
        _ => (format!("ws://h/{}#{}?x", p, q), format!("/{}", p), "h", None),
    };
    let mut w = Want::new(&target, host);
    if let Some(a) = auth { w.others.push(("authorization", vec![[b"Basic ".to_vec(), b64(&a)].concat()])) }
    let b = if choose(2) == 0 { builder(&url) } else {
        let u: &'static Url = Box::leak(Box::new(match Url::parse(&url) { Ok(u) => u, Err(_) => fail("a URL is refused") }));
        ClientBuilder::from_url(u)
    };
    w.check(&send_request(asy, b));
    cover("sent");
}
fn c25_required() {
    // custom headers that attempt the required ones: param 0: asynchronous
    let asy = param(0) == 1;
    let mut w = Want::new("/", "h");
    let mut h = Headers::new();
    let x = value(2);
    match choose(12) {
        0 => h.set_raw("Upgrade", vec![b"h2c".to_vec(), b"x".to_vec()]),
        1 => h.set_raw("CONNECTION", vec![b"close".to_vec(), b"keep-alive".to_vec()]),
        2 => h.set_raw("host", vec![x]),
        3 => h.set_raw("sec-websocket-key", vec![x]),
        4 => h.set_raw("Sec-WebSocket-Key", vec![b64(&KEY), b64(&KEY)]),
        5 => h.set_raw("Sec-WebSocket-Version", vec![x]),
        6 => h.set_raw("sec-websocket-version", vec![b"13".to_vec(), b"8".to_vec()]),
        7 => { h.set(hyper::header::Connection::close()); h.set(hyper::header::Host { hostname: "other".into(), port: Some(1) }) }
        8 => { h.set_raw("X-A", vec![x.clone()]); w.others.push(("x-a", vec![x])) }
        9 => { h.set_raw("X-A", vec![x.clone(), b"b".to_vec()]); w.others.push(("x-a", vec![x, b"b".to_vec()])) }
        10 => { h.set_raw("Authorization", vec![x.clone()]); w.others.push(("authorization", vec![x])) }
        _ => { h.set(hyper::header::Upgrade(vec![])); h.set(WebSocketVersion::Unknown("7".into())); h.set(WebSocketKey::from_array(KEY)) }
    }
    w.check(&send_request(asy, builder("ws://h/").custom_headers(&h)));
    cover("sent");
}
fn c25_broken_required() {
    // however a key or version was configured before, there is exactly one of each: param 0: asynchronous
    let asy = param(0) == 1;
    let mut h = Headers::new();
    let mut w = Want::new("/", "h");
    let b = match choose(6) {
        0 => builder("ws://h/").key(KEY).clear_header::<WebSocketKey>(),
        1 => builder("ws://h/").version(WebSocketVersion::WebSocket13).clear_header::<WebSocketVersion>(),
        2 => { h.set_raw("Sec-WebSocket-Key", vec![b64(&KEY), b64(&KEY)]); builder("ws://h/").key([7; 16]).custom_headers(&h) }
        3 => { h.set_raw("Sec-WebSocket-Key", vec![b"nonsense".to_vec()]); builder("ws://h/").key([7; 16]).custom_headers(&h) }
        4 => { h.set_raw("Sec-WebSocket-Version", vec![b"8".to_vec(), b"13".to_vec()]); builder("ws://h/").version(WebSocketVersion::WebSocket13).custom_headers(&h) }
        _ => { w.key = Some([9; 16]); h.set(WebSocketKey::from_array([9; 16])); builder("ws://h/").key([7; 16]).custom_headers(&h) }
    };
    w.check(&send_request(asy, b));
    cover("sent");
}
fn c25_large() {
    // a large request over a transport that takes it in parts: param 0: asynchronous, 1: what is large
    let (asy, what) = (param(0) == 1, param(1));
    let x = un(2);
    let path: String = (0..if what == 1 { 5000 } else { 3 }).map(|i| (b'a' + (i % 26) as u8) as char).chain(x.chars()).collect();
    let mut w = Want::new(&format!("/{}?{}", path, x), "h");
    let mut b = builder(&format!("ws://h/{}?{}", path, x));
    let mut h = Headers::new();
    if what == 2 { let v: Vec<u8> = (0..9000).map(|i| b'A' + (i % 26) as u8).collect(); h.set_raw("X-Large", vec![v.clone()]); w.others.push(("x-large", vec![v])) }
    if what == 3 { let v: Vec<Vec<u8>> = (0..90).map(|i| format!("v{}", i).into_bytes()).collect(); h.set_raw("X-Many", v.clone()); w.others.push(("x-many", v)) }
    b = b.custom_headers(&h);
    if what == 4 { for i in 0..30 { let t = format!("p{}{}", i, x); w.protos.push(t.clone()); b = b.add_protocol(t) } }
    if what == 5 { for i in 0..30 { let t = format!("e{}{}", i, x); w.exts.push(t.clone()); b = b.add_extension(Extension::new(t)) } }
    rand::rngs::drawn_reset();
    let p = Pipe::new(&[]);
    p.parts(asy);
    check(connect(asy, b, p.clone()).is_err(), "a connection without any response");
    w.check(&p.out());
    cover("sent");
}
fn c29_sequences() {
    // param 0: asynchronous, 1: number of settings, 2: the first one
    let asy = param(0) == 1;
    const OPS: usize = 18;
    let mut b = builder("ws://h/");
    let mut w = Want::new("/", "h");
    let (mut origin, mut xa, mut xb): (Option<Vec<u8>>, Vec<Vec<u8>>, Option<Vec<u8>>) = (None, vec![], None);
    let mut version_set = false;
    let ext = |n: &str| Extension::new(n.to_string());
    for i in 0..param(1) {
        let op = if i == 0 { param(2) } else { choose(OPS) };
        b = match op {
            0 => { let t = token(1); w.protos.push(t.clone()); b.add_protocol(t) }
            1 => { let (t, u) = (token(2), token(1)); w.protos.extend(vec![t.clone(), u.clone()]); b.add_protocols(vec![t, u]) }
            2 => { w.protos.clear(); b.clear_protocols() }
            3 => { let t = token(1); w.exts.push(t.clone()); b.add_extension(ext(&t)) }
            4 => { let (t, u) = (token(1), token(1)); w.exts.push(format!("{}; p={}", t, u)); w.exts.push(u.clone()); let mut e = ext(&t); e.params.push(Parameter::new("p".into(), Some(u.clone()))); b.add_extensions(vec![e, ext(&u)]) }
            5 => { w.exts.clear(); b.clear_extensions() }
            6 => { let k = bytes::<16>(); w.key = Some(k); b.key(k) }
            7 => { w.key = None; b.clear_key() }
            8 => { let v = value(2); assume(!((v[0] == b'1') & (v[1] == b'3'))); w.version = v.clone(); version_set = true; b.version(WebSocketVersion::Unknown(unsafe { String::from_utf8_unchecked(v) })) }
            9 => { w.version = b"13".to_vec(); version_set = true; b.version(WebSocketVersion::WebSocket13) }
            10 => { w.version = b"13".to_vec(); version_set = false; b.clear_version() }
            11 => { let v = value(2); origin = Some(v.clone()); b.origin(unsafe { String::from_utf8_unchecked(v) }) }
            12 => { origin = None; b.clear_origin() }
            13 => { let v = value(1); xa = vec![v.clone()]; let mut h = Headers::new(); h.set_raw("X-A", vec![v]); b.custom_headers(&h) }
            14 => { let (v, u) = (value(1), value(2)); xa = vec![u.clone(), v.clone()]; xb = Some(v.clone()); let mut h = Headers::new(); h.set_raw("x-a", vec![u, v.clone()]); h.set_raw("Range", vec![v]); b.custom_headers(&h) }
            15 => { xb = None; b.clear_header::<hyper::header::Range>() }
            16 => { let mut h = Headers::new(); h.set(Origin("o".into())); origin = Some(b"o".to_vec()); b.custom_headers(&h) }
            _ => b.max_dataframe_size(5).max_message_size(6),
        };
        // what the builder shows is what was configured
        let none: Vec<String> = vec![];
        let (p, e) = (b.get_header::<WebSocketProtocol>().map_or(&none, |p| &p.0), b.get_header::<WebSocketExtensions>().map_or(0, |e| e.0.len()));
        check(p.len() == w.protos.len() && e == w.exts.len(), "the builder shows other lists than configured");
        for (a, b) in p.iter().zip(&w.protos) { check_same(a.as_bytes(), b.as_bytes(), "the builder shows other lists than configured") }
        check(b.get_header::<Origin>().is_some() == origin.is_some(), "the builder shows another origin than configured");
        check(b.get_header::<WebSocketVersion>().is_some() == version_set, "the builder shows another version than configured");
        match (b.get_header::<WebSocketKey>(), w.key) { (None, None) => (), (Some(a), Some(b)) => check_same(a.serialize().as_bytes(), &b64(&b), "the builder shows another key than configured"), _ => fail("the builder shows another key than configured") }
    }
    if let Some(o) = origin { w.others.push(("origin", vec![o])) }
    if !xa.is_empty() { w.others.push(("x-a", xa)) }
    if let Some(v) = xb { w.others.push(("range", vec![v])) }
    w.check(&send_request(asy, b));
    cover("sent");
}
}
fn sha(key_text: &[u8]) -> Vec<u8> { use sha1::Digest; sha1::Sha1::digest(&[key_text, GUID].concat()).to_vec() }
