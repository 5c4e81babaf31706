//! Stand-in for native-tls. A "TLS" connection starts with a hello record of the client,
//! [0x16, settings, length, domain...], answered by the server with [0x17]; from then on every byte is
//! exclusive-ored with 0x5A. A shutdown sends [0x15].
use std::io::{self, Read, Write};
use std::{error, fmt, result};

pub type Result<T> = result::Result<T, Error>;
pub struct Error(&'static str);
impl error::Error for Error {}
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }

#[derive(Clone)]
pub struct Identity(());
impl Identity {
    pub fn from_pkcs12(_der: &[u8], _password: &str) -> Result<Identity> { Ok(Identity(())) }
    pub fn from_pkcs8(_pem: &[u8], _key: &[u8]) -> Result<Identity> { Ok(Identity(())) }
}
#[derive(Clone)]
pub struct Certificate(());
impl Certificate {
    pub fn from_der(_der: &[u8]) -> Result<Certificate> { Ok(Certificate(())) }
    pub fn from_pem(_der: &[u8]) -> Result<Certificate> { Ok(Certificate(())) }
}
#[derive(Debug, Copy, Clone)]
pub enum Protocol { Sslv3, Tlsv10, Tlsv11, Tlsv12, Tlsv13 }

/// What weakens or changes a connector, as bits of the settings byte.
pub const INVALID_CERTS: u8 = 1;
pub const INVALID_HOSTNAMES: u8 = 2;
pub const NO_SNI: u8 = 4;
pub const NO_ROOTS: u8 = 8;
pub const OWN_ROOT: u8 = 16;
pub const OWN_IDENTITY: u8 = 32;
pub const VERSIONS: u8 = 64;

#[derive(Clone)]
pub struct TlsConnectorBuilder { flags: u8 }
impl TlsConnectorBuilder {
    fn set(&mut self, bit: u8, on: bool) -> &mut TlsConnectorBuilder { if on { self.flags |= bit } else { self.flags &= !bit } self }
    pub fn identity(&mut self, _i: Identity) -> &mut TlsConnectorBuilder { self.set(OWN_IDENTITY, true) }
    pub fn min_protocol_version(&mut self, _p: Option<Protocol>) -> &mut TlsConnectorBuilder { self.set(VERSIONS, true) }
    pub fn max_protocol_version(&mut self, _p: Option<Protocol>) -> &mut TlsConnectorBuilder { self.set(VERSIONS, true) }
    pub fn add_root_certificate(&mut self, _c: Certificate) -> &mut TlsConnectorBuilder { self.set(OWN_ROOT, true) }
    pub fn disable_built_in_roots(&mut self, on: bool) -> &mut TlsConnectorBuilder { self.set(NO_ROOTS, on) }
    pub fn danger_accept_invalid_certs(&mut self, on: bool) -> &mut TlsConnectorBuilder { self.set(INVALID_CERTS, on) }
    pub fn use_sni(&mut self, on: bool) -> &mut TlsConnectorBuilder { self.set(NO_SNI, !on) }
    pub fn danger_accept_invalid_hostnames(&mut self, on: bool) -> &mut TlsConnectorBuilder { self.set(INVALID_HOSTNAMES, on) }
    pub fn build(&self) -> Result<TlsConnector> { Ok(TlsConnector { flags: self.flags }) }
}
#[derive(Clone, Debug)]
pub struct TlsConnector { flags: u8 }
impl TlsConnector {
    pub fn new() -> Result<TlsConnector> { TlsConnector::builder().build() }
    pub fn builder() -> TlsConnectorBuilder { TlsConnectorBuilder { flags: 0 } }
    pub fn connect<S>(&self, domain: &str, stream: S) -> result::Result<TlsStream<S>, HandshakeError<S>> where S: Read + Write {
        let mut out = vec![0x16, self.flags, domain.len() as u8];
        out.extend_from_slice(domain.as_bytes());
        MidHandshakeTlsStream { stream, out, got: vec![], server: false, written: false }.handshake()
    }
}
pub struct TlsAcceptorBuilder(());
impl TlsAcceptorBuilder {
    pub fn min_protocol_version(&mut self, _p: Option<Protocol>) -> &mut TlsAcceptorBuilder { self }
    pub fn max_protocol_version(&mut self, _p: Option<Protocol>) -> &mut TlsAcceptorBuilder { self }
    pub fn build(&self) -> Result<TlsAcceptor> { Ok(TlsAcceptor(())) }
}
#[derive(Clone)]
pub struct TlsAcceptor(());
impl TlsAcceptor {
    pub fn new(_i: Identity) -> Result<TlsAcceptor> { Ok(TlsAcceptor(())) }
    pub fn builder(_i: Identity) -> TlsAcceptorBuilder { TlsAcceptorBuilder(()) }
    pub fn accept<S>(&self, stream: S) -> result::Result<TlsStream<S>, HandshakeError<S>> where S: Read + Write {
        MidHandshakeTlsStream { stream, out: vec![], got: vec![], server: true, written: false }.handshake()
    }
}
pub struct MidHandshakeTlsStream<S> { stream: S, out: Vec<u8>, got: Vec<u8>, server: bool, written: bool }
impl<S> fmt::Debug for MidHandshakeTlsStream<S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("MidHandshakeTlsStream") } }
impl<S> MidHandshakeTlsStream<S> {
    pub fn get_ref(&self) -> &S { &self.stream }
    pub fn get_mut(&mut self) -> &mut S { &mut self.stream }
}
impl<S: Read + Write> MidHandshakeTlsStream<S> {
    pub fn handshake(mut self) -> result::Result<TlsStream<S>, HandshakeError<S>> {
        loop {
            // write what there is to write
            while !self.out.is_empty() {
                match self.stream.write(&self.out) {
                    Ok(0) => return Err(HandshakeError::Failure(Error("the stream takes no bytes"))),
                    Ok(n) => { self.out.drain(..n); }
                    Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => return Err(HandshakeError::WouldBlock(self)),
                    Err(_) => return Err(HandshakeError::Failure(Error("the stream failed"))),
                }
            }
            if self.server && self.written { return Ok(TlsStream { stream: self.stream }) }
            // read what the peer has to say
            let want = if !self.server { 1 } else if self.got.len() < 3 { 3 } else { 3 + self.got[2] as usize };
            if self.got.len() >= want {
                if !self.server { return if self.got[0] == 0x17 { Ok(TlsStream { stream: self.stream }) } else { Err(HandshakeError::Failure(Error("the server speaks no TLS"))) } }
                self.written = true;
                self.out = vec![0x17];
                continue;
            }
            let mut b = [0u8; 1];
            match self.stream.read(&mut b) {
                Ok(0) => return Err(HandshakeError::Failure(Error("the stream ended"))),
                Ok(_) => { self.got.push(b[0]); if self.server && self.got[0] != 0x16 { return Err(HandshakeError::Failure(Error("the client speaks no TLS"))) } }
                Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => return Err(HandshakeError::WouldBlock(self)),
                Err(_) => return Err(HandshakeError::Failure(Error("the stream failed"))),
            }
        }
    }
}
pub enum HandshakeError<S> { Failure(Error), WouldBlock(MidHandshakeTlsStream<S>) }
impl<S> fmt::Debug for HandshakeError<S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { HandshakeError::Failure(e) => write!(f, "Failure({:?})", e), HandshakeError::WouldBlock(_) => f.write_str("WouldBlock") } } }
impl<S> fmt::Display for HandshakeError<S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { HandshakeError::Failure(e) => fmt::Display::fmt(e, f), HandshakeError::WouldBlock(_) => f.write_str("the handshake process was interrupted") } } }
impl<S> error::Error for HandshakeError<S> {}
impl<S> From<Error> for HandshakeError<S> { fn from(e: Error) -> HandshakeError<S> { HandshakeError::Failure(e) } }

pub struct TlsStream<S> { stream: S }
impl<S> fmt::Debug for TlsStream<S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("TlsStream") } }
impl<S> TlsStream<S> {
    pub fn get_ref(&self) -> &S { &self.stream }
    pub fn get_mut(&mut self) -> &mut S { &mut self.stream }
}
impl<S: Read + Write> TlsStream<S> {
    pub fn buffered_read_size(&self) -> Result<usize> { Ok(0) }
    pub fn peer_certificate(&self) -> Result<Option<Certificate>> { Ok(None) }
    pub fn shutdown(&mut self) -> io::Result<()> { self.stream.write_all(&[0x15]) }
}
impl<S: Read + Write> Read for TlsStream<S> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.stream.read(b)?; for x in &mut b[..n] { *x ^= 0x5A } Ok(n) }
}
impl<S: Read + Write> Write for TlsStream<S> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let v: Vec<u8> = b.iter().map(|x| *x ^ 0x5A).collect(); self.stream.write(&v) }
    fn flush(&mut self) -> io::Result<()> { self.stream.flush() }
}
