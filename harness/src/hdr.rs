//! C20, C21, C30: handshake values and headers.
use crate::sym::*;
use crate::util::*;
use std::str::FromStr;
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::{Header, HeaderFormat, Headers, Origin, WebSocketAccept, WebSocketExtensions, WebSocketKey, WebSocketProtocol, WebSocketVersion};
use websocket_base::header::{WebSocketAccept as BaseAccept, WebSocketKey as BaseKey};

struct F<'a, H: HeaderFormat>(&'a H);
impl<'a, H: HeaderFormat> std::fmt::Display for F<'a, H> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt_header(f) } }
fn print<H: HeaderFormat>(h: &H) -> Vec<u8> { format!("{}", F(h)).into_bytes() }
fn sym_ext(nn: usize, params: usize) -> Extension {
    let mut e = Extension::new(token(nn));
    for _ in 0..params {
        let n = token(1 + choose(2));
        let v = match choose(4) { 0 => None, 1 => Some(token(1)), 2 => Some(String::new()), _ => Some({ let a = vec(2); for c in &a { assume(tchar(*c) || *c == b'=' || *c == b'"'); } unsafe { String::from_utf8_unchecked(a) } }) };
        e.params.push(Parameter::new(n, v));
    }
    e
}
fn check_ext(a: &Extension, b: &Extension) {
    check_same(a.name.as_bytes(), b.name.as_bytes(), "an extension's name changes");
    check(a.params.len() == b.params.len(), "the number of parameters changes");
    for (x, y) in a.params.iter().zip(&b.params) {
        check_same(x.name.as_bytes(), y.name.as_bytes(), "a parameter's name changes");
        match (&x.value, &y.value) { (None, None) => (), (Some(p), Some(q)) => check_same(p.as_bytes(), q.as_bytes(), "a parameter's value changes"), _ => fail("a parameter's value appears or disappears") }
    }
}
harnesses! {
fn c20_accept() {
    // param 0: 0 base type, 1 header type
    let k = bytes::<16>();
    sha1::recorded_reset();
    let text = if param(0) == 0 { BaseAccept::new(&BaseKey(k)).serialize() } else { WebSocketAccept::new(&WebSocketKey::from_array(k)).serialize() };
    let r = sha1::recorded();
    check(r.len() == 1, "the accept value is not one digest");
    let mut want = b64(&k);
    check(want.len() == 24, "reference");
    want.extend_from_slice(GUID);
    check(r[0].len == want.len(), "the digest is not over key text and GUID");
    check_same(&r[0].input[..want.len()], &want, "the digest is not over key text and GUID");
    check_same(text.as_bytes(), &b64(&r[0].out), "the accept text is not the base64 form of the digest");
    cover("done");
}
fn c20_history() {
    // several keys one after another, sharing any part of them or all: param 0: 0 base type, 1 header type, 2 both in turn, 1: how many
    let mut last = bytes::<16>();
    let first = last;
    let wide = param(1) == 2 || param(2) == 1; // every position
    for i in 0..param(1) {
        let mut k = last;
        if i > 0 { match choose(4) { 0 => (), 1 => k[..8].copy_from_slice(&bytes::<8>()), 2 => k[8..].copy_from_slice(&bytes::<8>()), _ => { let at = if wide { choose(16) } else { [0, 7, 8, 15][choose(4)] }; k[at] = byte() } } }
        if i > 1 && choose(2) == 1 { k = first } // back to the first
        let n0 = sha1::recorded().len(); // (the digests so far stay recorded: equal inputs have equal digests)
        let base = match param(0) { 0 => true, 1 => false, _ => i % 2 == 0 };
        let text = if base { BaseAccept::new(&BaseKey(k)).serialize() } else { WebSocketAccept::new(&WebSocketKey::from_array(k)).serialize() };
        // (remembering a digest of the same key would be no fault)
        let r = &sha1::recorded()[n0..];
        if i == 0 || r.len() > 0 {
            check(r.len() == 1, "the accept value is not one digest");
            let want = [b64(&k), GUID.to_vec()].concat();
            check(r[0].len == want.len(), "the digest is not over key text and GUID");
            check_same(&r[0].input[..want.len()], &want, "the digest is not over key text and GUID");
            check_same(text.as_bytes(), &b64(&r[0].out), "the accept text is not the base64 form of the digest");
        } else { check_same(text.as_bytes(), &b64(&{ use sha1::Digest; let d: Vec<u8> = sha1::Sha1::digest(&[b64(&k), GUID.to_vec()].concat()).to_vec(); d }), "the accept text is not the digest of this key"); }
        last = k;
    }
    cover("done");
}
fn c20_rfc_example() {
    // the value of the RFC, with the real digest
    let a = WebSocketAccept::new(&WebSocketKey::from_str("dGhlIHNhbXBsZSBub25jZQ==").unwrap());
    check_same(a.serialize().as_bytes(), b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "the accept value of the example in RFC 6455 is wrong");
}
fn c21_key_print() {
    // print and parse back: param 0: base type or header type, 1: key or accept value
    let (which, acc) = (param(0), param(1) == 1);
    if acc {
        let v = bytes::<20>();
        let t = b64(&v);
        let a = unsafe { std::str::from_utf8_unchecked(&t) };
        let s = if which == 0 { BaseAccept::from_str(a).map(|x| x.serialize()).ok() } else if which == 1 { WebSocketAccept::from_str(a).map(|x| x.serialize()).ok() } else { <WebSocketAccept as Header>::parse_header(&[t.clone()]).map(|x| { let p = print(&x); unsafe { String::from_utf8_unchecked(p) } }).ok() };
        match s { Some(s) => check_same(s.as_bytes(), &t, "an accept value does not print as it was parsed"), None => fail("the base64 form of 20 bytes is refused") }
    } else {
        let v = bytes::<16>();
        let t = b64(&v);
        let s = match which { 0 => BaseKey(v).serialize(), 1 => WebSocketKey::from_array(v).serialize(), _ => unsafe { String::from_utf8_unchecked(print(&WebSocketKey::from_array(v))) } };
        check_same(s.as_bytes(), &t, "a key does not print as padded base64");
        let b = match which { 0 => BaseKey::from_str(&s).ok().map(|k| k.0), 1 => WebSocketKey::from_str(&s).ok().map(|k| (k.0).0), _ => <WebSocketKey as Header>::parse_header(&[s.into_bytes()]).ok().map(|k| (k.0).0) };
        match b { Some(b) => check_same(&b, &v, "a key does not parse back to itself"), None => fail("a printed key is refused") }
    }
    cover("back");
}
fn c21_parse() {
    // an arbitrary ASCII text: param 0: length, 1: key or accept value, 2: base or header type
    let (n, acc, which) = (param(0), param(1) == 1, param(2));
    let v = ascii(n);
    let t = unsafe { std::str::from_utf8_unchecked(&v) };
    let want = if acc { 20 } else { 16 };
    let (full, pad) = (want / 3 * 3, want % 3); // bytes in whole groups, bytes in the last
    // reference: all characters but the padding are of the alphabet
    let chars = full / 3 * 4 + pad + 1;
    let mut ok = 1u8;
    let mut vals = vec![];
    for i in 0..n.min(chars) { let (x, o) = b64val(v[i]); vals.push(x); ok &= o; }
    let mut padded = 1u8;
    for i in chars..n.min(chars + 3 - pad) { padded &= (v[i] == b'=') as u8; }
    let tail = if n >= chars { vals[chars - 1] & if pad == 1 { 15 } else { 3 } } else { 0 };
    let exact = n == chars + 3 - pad;
    let canonical = exact && (ok & padded) == 1 && tail == 0;
    // unpadded forms and stray bits are left to the decoder, but never change the value
    let tolerable = n >= chars && n <= chars + 3 - pad;
    let got: Option<Vec<u8>> = if acc {
        let s = if which == 0 { BaseAccept::from_str(t).ok().map(|x| x.serialize()) } else { WebSocketAccept::from_str(t).ok().map(|x| x.serialize()) };
        s.map(|s| s.into_bytes())
    } else if which == 0 { BaseKey::from_str(t).ok().map(|k| k.0.to_vec()) } else { WebSocketKey::from_str(t).ok().map(|k| (k.0).0.to_vec()) };
    match got {
        None => { check(!canonical, "the base64 form of the right number of bytes is refused"); cover("refused"); }
        Some(g) => {
            check(tolerable && ok == 1, "a text that is not base64 of the right number of bytes is accepted");
            let mut d = vec![];
            let at = |i: usize| -> u32 { if i < chars { vals[i] as u32 } else { 0 } };
            for i in 0..(want + 2) / 3 { let x = at(4 * i) << 18 | at(4 * i + 1) << 12 | at(4 * i + 2) << 6 | at(4 * i + 3); for j in 0..3 { if d.len() < want { d.push((x >> (16 - 8 * j)) as u8) } } }
            if acc { check_same(&g, &b64(&d), "the accept value is not the one the text stands for") } else { check_same(&g, &d, "the key is not the one the text stands for") }
            cover("accepted");
        }
    }
}
fn c21_lengths() {
    // well-formed base64 of every length, and anything else in raw form: param 0: bytes, 1: key or accept value
    let (n, acc) = (param(0), param(1) == 1);
    let v = b64(&vec(n));
    let t = unsafe { std::str::from_utf8_unchecked(&v) };
    let want = if acc { 20 } else { 16 };
    let ok = if acc { WebSocketAccept::from_str(t).is_ok() } else { WebSocketKey::from_str(t).is_ok() };
    let ok2 = if acc { BaseAccept::from_str(t).is_ok() } else { BaseKey::from_str(t).is_ok() };
    check(ok == (n == want) && ok2 == ok, "a value is accepted exactly when it has the right number of bytes");
    if ok { cover("accepted") } else { cover("refused") }
}
fn c21_raw() {
    // arbitrary bytes, not only text, in an otherwise correct header value: param 0: how many, 1: key or accept value
    let (n, acc) = (param(0), param(1) == 1);
    let mut v = if acc { b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=".to_vec() } else { b"dGhlIHNhbXBsZSBub25jZQ==".to_vec() };
    let at = choose(v.len() - n + 1);
    let b = vec(n);
    v[at..at + n].copy_from_slice(&b);
    let body = v.len() - if acc { 1 } else { 2 };
    let mut ok = 1u8;
    for (i, c) in v.iter().enumerate() { ok &= if i < body { b64val(*c).1 } else { (*c == b'=') as u8 }; }
    let last = b64val(v[body - 1]).0 & if acc { 3 } else { 15 };
    let got = if acc { <WebSocketAccept as Header>::parse_header(&[v.clone()]).is_ok() } else { <WebSocketKey as Header>::parse_header(&[v.clone()]).is_ok() };
    if ok == 1 && last == 0 { check(got, "a correct header value is refused"); cover("accepted") }
    if got { let mut a = 1u8; for c in &v[..body] { a &= b64val(*c).1; } check(a == 1, "a header value with a foreign character is accepted"); } else { cover("refused") }
    // none, or more than one line, is no value
    check(!(if acc { <WebSocketAccept as Header>::parse_header(&[]).is_ok() } else { <WebSocketKey as Header>::parse_header(&[]).is_ok() }), "no header line gives a value");
    check(!(if acc { <WebSocketAccept as Header>::parse_header(&[v.clone(), v]).is_ok() } else { <WebSocketKey as Header>::parse_header(&[v.clone(), v]).is_ok() }), "two header lines give a value");
}
fn c21_insert() {
    // characters added to a correct value anywhere: param 0: how many, 1: key or accept value, 2: base or header type
    let (n, acc, which) = (param(0), param(1) == 1, param(2));
    let mut v = if acc { b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo=".to_vec() } else { b"dGhlIHNhbXBsZSBub25jZQ==".to_vec() };
    let at = choose(v.len() + 1);
    let add = ascii(n);
    for (i, c) in add.iter().enumerate() { v.insert(at + i, *c) }
    let t = unsafe { std::str::from_utf8_unchecked(&v) };
    let got = if acc {
        if which == 0 { BaseAccept::from_str(t).is_ok() } else { WebSocketAccept::from_str(t).is_ok() }
    } else if which == 0 { BaseKey::from_str(t).is_ok() } else { WebSocketKey::from_str(t).is_ok() };
    check(!got, "a correct value with something added is accepted");
    cover("refused");
}
fn c30_extensions() {
    // print and parse back: param 0: extensions, 1: parameters of each, 2: one header line each
    let (k, np) = (param(0), param(1));
    let v: Vec<Extension> = (0..k).map(|i| sym_ext(1 + (i + 1) % 2, np)).collect();
    let h = WebSocketExtensions(v.clone());
    let lines = if param(2) == 1 { v.iter().map(|e| format!("{}", e).into_bytes()).collect() } else { vec![print(&h)] };
    if param(2) == 0 {
        // the text form
        let mut want = String::new();
        for (i, e) in v.iter().enumerate() {
            if i > 0 { want.push_str(", ") }
            want.push_str(&e.name);
            for p in &e.params { want.push_str("; "); want.push_str(&p.name); if let Some(x) = &p.value { want.push('='); want.push_str(x) } }
        }
        check_same(&lines[0], want.as_bytes(), "extensions do not print in the form of RFC 6455");
        check_same(format!("{}", h).as_bytes(), want.as_bytes(), "extensions display otherwise");
    }
    match <WebSocketExtensions as Header>::parse_header(&lines) {
        Ok(g) => { check(g.0.len() == v.len(), "the number of extensions changes"); for (a, b) in g.0.iter().zip(&v) { check_ext(a, b); } cover("back"); for l in &lines { logs(l) } }
        Err(_) => fail("printed extensions do not parse"),
    }
}
fn c30_extension_text() {
    // an arbitrary ASCII text as one extension, or header line: param 0: length, 1: 1 = header line
    let n = param(0);
    let v = ascii(n);
    let t = unsafe { std::str::from_utf8_unchecked(&v) };
    let got = if param(1) == 1 { match <WebSocketExtensions as Header>::parse_header(&[v.clone()]) { Ok(x) => x.0, Err(_) => fail("a text is refused") } } else { match Extension::from_str(t) { Ok(x) => vec![x], Err(_) => fail("a text is refused") } };
    // reference
    let ws = |c: u8| c == b' ' || (c >= 9 && c <= 13);
    let trim = |s: &[u8]| -> Vec<u8> { let mut a = 0; let mut b = s.len(); while a < b && ws(s[a]) { a += 1 } while b > a && ws(s[b - 1]) { b -= 1 } s[a..b].to_vec() };
    let split = |s: &[u8], d: u8| -> Vec<Vec<u8>> { let mut o = vec![vec![]]; for c in s { if *c == d { o.push(vec![]) } else { o.last_mut().unwrap().push(*c) } } o };
    let mut want = vec![];
    let parts = if param(1) == 1 { split(&v, b',') } else { vec![v.clone()] };
    for e in parts {
        let e = if param(1) == 1 { let t = trim(&e); if t.is_empty() { continue } t } else { e };
        let mut f = split(&e, b';');
        let name = trim(&f.remove(0));
        let params = f.iter().map(|p| { let p = trim(p); match p.iter().position(|c| *c == b'=') { Some(i) => (trim(&p[..i]), Some(trim(&p[i + 1..]))), None => (p, None) } }).collect::<Vec<_>>();
        want.push((name, params));
    }
    check(got.len() == want.len(), "wrong number of extensions");
    for (g, w) in got.iter().zip(&want) {
        check_same(g.name.as_bytes(), &w.0, "wrong extension name");
        check(g.params.len() == w.1.len(), "wrong number of parameters");
        for (p, q) in g.params.iter().zip(&w.1) {
            check_same(p.name.as_bytes(), &q.0, "wrong parameter name");
            match (&p.value, &q.1) { (None, None) => (), (Some(a), Some(b)) => { check_same(a.as_bytes(), b, "wrong parameter value"); cover("value") } _ => fail("a parameter's value appears or disappears") }
        }
    }
    cover("parsed");
    log(got.len() as u64);
}
fn c30_protocols() {
    // param 0: names, 1: one line each
    let k = param(0);
    let v: Vec<String> = (0..k).map(|_| token(1 + choose(3))).collect();
    let h = WebSocketProtocol(v.clone());
    let text = print(&h);
    check_same(&text, v.join(", ").as_bytes(), "subprotocols do not print as a list");
    check_same(format!("{}", h).as_bytes(), &text, "subprotocols display otherwise");
    let lines = if param(1) == 1 { v.iter().map(|s| s.clone().into_bytes()).collect() } else { vec![text] };
    match <WebSocketProtocol as Header>::parse_header(&lines) {
        Ok(g) => { check(g.0.len() == k, "the number of subprotocols changes"); for (a, b) in g.0.iter().zip(&v) { check_same(a.as_bytes(), b.as_bytes(), "a subprotocol changes") } cover("back"); }
        Err(_) => fail("printed subprotocols do not parse"),
    }
}
fn c30_singles() {
    // origins and versions of arbitrary ASCII text: param 0: length
    let n = param(0);
    let v = ascii(n);
    let s = unsafe { String::from_utf8_unchecked(v.clone()) };
    let o = Origin(s.clone());
    check_same(&print(&o), &v, "an origin does not print as it is");
    match <Origin as Header>::parse_header(&[v.clone()]) { Ok(g) => { check(n > 0, "an empty origin is accepted"); check_same(g.0.as_bytes(), &v, "an origin changes"); cover("origin") } Err(_) => check(n == 0, "an origin is refused") }
    let is13 = n == 2 && (v[0] == b'1') & (v[1] == b'3');
    match <WebSocketVersion as Header>::parse_header(&[v.clone()]) {
        Ok(WebSocketVersion::WebSocket13) => { check(is13, "another version is taken for 13"); cover("13") }
        Ok(WebSocketVersion::Unknown(x)) => { check(n > 0 && !is13, "13 is taken for another version"); check_same(x.as_bytes(), &v, "a version changes"); check_same(&print(&WebSocketVersion::Unknown(x)), &v, "a version does not print as it is"); cover("other version") }
        Err(_) => check(n == 0, "a version is refused"),
    }
    check_same(&print(&WebSocketVersion::WebSocket13), b"13", "version 13 does not print as 13");
    check(<Origin as Header>::parse_header(&[v.clone(), v.clone()]).is_err() && <WebSocketVersion as Header>::parse_header(&[v.clone(), v]).is_err(), "two header lines give a value");
}
fn c30_no_panic() {
    // arbitrary bytes as any of the headers
    let v = vec(param(0));
    let mut k = 0;
    match param(1) {
        0 => if <WebSocketExtensions as Header>::parse_header(&[v]).is_ok() { k = 1 },
        1 => if <WebSocketProtocol as Header>::parse_header(&[v]).is_ok() { k = 1 },
        2 => if <Origin as Header>::parse_header(&[v]).is_ok() { k = 1 },
        3 => if <WebSocketVersion as Header>::parse_header(&[v]).is_ok() { k = 1 },
        4 => if <WebSocketKey as Header>::parse_header(&[v]).is_ok() { k = 1 },
        _ => if <WebSocketAccept as Header>::parse_header(&[v]).is_ok() { k = 1 },
    }
    if k == 1 { cover("accepted") } else { cover("refused") }
    log(k);
}
}
