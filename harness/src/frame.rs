//! C01-C04: frame headers, frames, masking.
use crate::sym::*;
use crate::util::*;
use std::io::{self, Read, Write};
use websocket_base::dataframe::{DataFrame, Opcode};
use websocket_base::result::WebSocketError;
use websocket_base::ws::dataframe::DataFrame as Framelike;
use websocket_base::ws::util::header::{read_header, write_header, DataFrameFlags, DataFrameHeader};
use websocket_base::ws::util::mask::{mask_data, Masker};

fn mask_eq(a: Option<[u8; 4]>, b: Option<[u8; 4]>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => same(&a, &b), _ => false }
}

harnesses! {
fn c01_header_write() {
    let flags = byte() & 0xF0;
    let op = byte();
    let len = u64v();
    let mask = if choose(2) == 1 { Some(bytes::<4>()) } else { None };
    let h = DataFrameHeader { flags: DataFrameFlags::from_bits_truncate(flags), opcode: op, mask, len };
    let mut out = Sink(vec![]);
    let r = write_header(&mut out, h);
    let out = out.0;
    let legal = op <= 15 && !(op >= 8 && len > 125);
    match r {
        Err(_) => { check(!legal, "a legal header is refused"); check(out.is_empty(), "refused, but bytes were emitted"); cover("refused"); }
        Ok(()) => {
            check(legal, "an illegal header is written");
            check_same(&out, &ref_header(flags | op, mask, len), "header bytes are not the RFC form");
            // back again, followed by other bytes
            let mut more = out.clone();
            more.extend_from_slice(&[0x55, 0xAA, 0x01]);
            let mut cur = &more[..];
            match read_header(&mut cur) {
                Ok(g) => {
                    check(g.flags.bits() == flags && g.opcode == op && g.len == len, "read back differently");
                    check(mask_eq(g.mask, mask), "mask read back differently");
                    check(cur.len() == 3, "reading consumed the wrong number of bytes");
                    cover("read back");
                }
                Err(_) => { check(op >= 8 && flags & 0x80 == 0, "a written header cannot be read back"); cover("unfinished control frame"); }
            }
        }
    }
}
fn c02_header_read() {
    // an arbitrary byte string, of every length up to 16
    let n = param(0);
    let buf = vec(n);
    let mut cur = &buf[..];
    let r = read_header(&mut cur);
    let used = n - cur.len();
    // reference
    let at = |i: usize| -> u64 { if i < n { buf[i] as u64 } else { 0 } };
    let mut want: u64 = 0; // 0 = incomplete, 1 = malformed, 2 = good
    let mut need = 0usize;
    let (mut len, mut klen) = (0u64, 0usize);
    if n >= 2 {
        let l7 = at(1) & 0x7F;
        klen = if at(1) & 0x80 != 0 { 4 } else { 0 };
        let ext = if l7 == 126 { 2 } else if l7 == 127 { 8 } else { 0 };
        need = 2 + ext + klen;
        if n >= 2 + ext {
            len = l7;
            if ext == 2 { len = (at(2) << 8) | at(3); }
            if ext == 8 { len = 0; for i in 0..8 { len = (len << 8) | at(2 + i); } }
            let short = if ext == 2 { len > 125 } else if ext == 8 { len > 65535 } else { true };
            let ctl = at(0) & 8 != 0;
            let ok = short & (!ctl | ((at(0) & 0x80 != 0) & (len <= 125)));
            want = if !ok { 1 } else if n >= need { 2 } else { 0 };
        } else if ext != 0 && at(0) & 8 != 0 {
            // a control opcode with a long form can no longer become well-formed: either report is right
            want = 3;
        }
    }
    match r {
        Ok(h) => {
            check(want == 2, "accepted something that is not a well-formed header");
            check(h.flags.bits() as u64 == at(0) & 0xF0 && h.opcode as u64 == at(0) & 15, "first byte decoded wrongly");
            check(h.len == len, "length decoded wrongly");
            check(h.mask.is_some() == (klen == 4), "mask presence decoded wrongly");
            if let Some(k) = h.mask { check_same(&k, &buf[need - 4..need], "key decoded wrongly"); }
            check(used == need, "wrong number of bytes consumed");
            cover("well-formed");
        }
        Err(WebSocketError::NoDataAvailable) => { check(want == 0 || want == 3, "no data available reported for a complete or malformed header"); cover("incomplete"); }
        Err(_) => { check(want == 1 || want == 3, "a well-formed header, or a prefix of one, is rejected"); cover("malformed"); }
    }
}

fn c03_write_read() {
    // param 0: payload length, param 1: masked
    let n = param(0);
    let masked = param(1) == 1;
    let b0 = byte();
    let data = long(n);
    let f = frame_of(b0, data.clone());
    rand::rngs::drawn_reset();
    let mut out = Sink(vec![]);
    let r = f.write_to(&mut out, masked);
    let out = out.0;
    let legal = b0 & 8 == 0 || n <= 125;
    if r.is_err() { check(!legal, "a legal frame is refused"); check(out.is_empty(), "refused, but bytes reached the transport"); cover("refused"); return; }
    check(legal, "an oversized control frame is written");
    check(out.len() == f.frame_size(masked), "frame size differs from the predicted one");
    let hl = 2 + if n < 126 { 0 } else if n < 65536 { 2 } else { 8 };
    check(out.len() == hl + n + if masked { 4 } else { 0 }, "wrong number of bytes");
    let key = if masked { Some([out[hl], out[hl + 1], out[hl + 2], out[hl + 3]]) } else { None };
    check_same(&out[..out.len() - n], &ref_header(b0, key, n as u64), "header bytes are not the RFC form");
    match key {
        None => check_same(&out[hl..], &data, "payload bytes are not the frame's"),
        Some(k) => check_masked(&out[hl + 4..], &data, &k, "payload bytes are not the frame's, masked with the key sent"),
    }
    cover("written");
    if b0 & 0x88 == 8 { return; } // unfinished control frames cannot be read back
    let mut more = out.clone();
    more.extend_from_slice(&[0x81, 0x00, 0x7F]);
    let mut cur = &more[..];
    let limit = u64v() as usize;
    assume(limit >= n);
    let r = if flag() { DataFrame::read_dataframe(&mut cur, masked) } else { DataFrame::read_dataframe_with_limit(&mut cur, masked, limit) };
    match r {
        Ok(g) => {
            check(g.finished == f.finished && g.opcode as u8 == f.opcode as u8, "fin or opcode changed");
            check((g.reserved[0] == f.reserved[0]) & (g.reserved[1] == f.reserved[1]) & (g.reserved[2] == f.reserved[2]), "reserved bits changed");
            check_same(&g.data, &data, "payload changed");
            check(cur.len() == 3, "wrong number of bytes consumed");
            cover("read back");
        }
        Err(_) => fail("a written frame cannot be read back"),
    }
}
fn c04_mask_data() {
    let n = param(0);
    let key = bytes::<4>();
    let data = long(n);
    let m = mask_data(key, &data);
    check_masked(&m, &data[..n], &key, "mask_data is not the RFC masking");
    check_same(&mask_data(key, &m), &data, "masking twice does not restore the payload");
    logs(&m);
}
fn c04_short_writes() {
    // param 0: payload length, 1: pieces the caller writes, 2: short writes, 3: interruptions
    let n = param(0);
    let key = bytes::<4>();
    let data = long(n);
    let mut w = Short { got: vec![], short: param(2), intr: param(3), calls: 0 };
    {
        let mut m = Masker::new(key, &mut w);
        let mut at = 0;
        for piece in 0..param(1) {
            let k = if piece + 1 == param(1) { n - at } else { choose(n - at + 1) };
            let r = m.write_all(&data[at..at + k]);
            check(r.is_ok(), "writing failed although the writer accepted everything");
            at += k;
            if piece + 1 < param(1) && choose(2) == 1 { check(m.flush().is_ok(), "flush failed") }
        }
        check(m.flush().is_ok(), "flush failed");
    }
    check_masked(&w.got, &data[..n], &key, "streamed bytes are not the masked payload");
    if w.short < param(2) { cover("short write"); }
    if w.intr < param(3) { cover("interrupted"); }
    cover("written");
    log(w.calls);
}
fn c04_pieces() {
    // many writes, none taken whole: param 0: payload length, 1: the caller's pieces, 2: the most the writer takes at once
    let (n, piece, most) = (param(0), param(1), param(2));
    let key = bytes::<4>();
    let data = long(n);
    let mut w = AtMost { got: vec![], most };
    {
        let mut m = Masker::new(key, &mut w);
        let flushing = choose(2) == 1;
        for p in data.chunks(piece) { check(m.write_all(p).is_ok(), "writing failed although the writer accepted everything"); if flushing { check(m.flush().is_ok(), "flush failed") } }
        check(m.flush().is_ok(), "flush failed");
    }
    check_masked(&w.got, &data[..n], &key, "streamed bytes are not the masked payload");
    logs(&w.got);
}
fn c04_counts() {
    // every count a single write reports is what the writer below took
    let n = param(0);
    let key = bytes::<4>();
    let data = long(n);
    let mut w = Short { got: vec![], short: 2, intr: 0, calls: 0 };
    let mut at = 0;
    {
        let mut m = Masker::new(key, &mut w);
        for _ in 0..3 { if at < n { match m.write(&data[at..]) { Ok(k) => { check(k >= 1 && k <= n - at, "impossible count"); at += k; } Err(_) => fail("write failed") } } }
    }
    check(w.got.len() == at, "the masker reports a count the writer below did not accept");
    check_masked(&w.got, &data[..at], &key, "streamed bytes are not the masked payload");
}
}
/// out is data with the key stream on it: their difference is the key, over and over.
pub fn check_masked(out: &[u8], data: &[u8], key: &[u8; 4], m: &str) {
    check(out.len() == data.len(), m);
    let mut diff = Vec::with_capacity(data.len());
    let mut want = Vec::with_capacity(data.len());
    for i in 0..data.len() { diff.push(out[i] ^ data[i]); want.push(key[i & 3]); }
    check_same(&diff, &want, m);
}
/// A writer that may take less than it is offered, and may be interrupted.
pub struct Short { pub got: Vec<u8>, pub short: usize, pub intr: usize, pub calls: u64 }
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0) }
        if self.intr > 0 && choose(2) == 1 { self.intr -= 1; return Err(io::Error::from(io::ErrorKind::Interrupted)) }
        let k = if self.short > 0 && b.len() > 1 { let k = 1 + choose(b.len()); if k < b.len() { self.short -= 1 } k } else { b.len() };
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// A writer that takes no more than so many bytes at a time.
pub struct AtMost { pub got: Vec<u8>, pub most: usize }
impl Write for AtMost {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let k = b.len().min(self.most); self.got.extend_from_slice(&b[..k]); Ok(k) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
