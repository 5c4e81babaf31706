//! Stand-in for tokio-tcp: the same interface over std's sockets. What would block is reported as pending;
//! there is no reactor, so whoever drives the future polls again.
use futures::{Async, Future, Poll, Stream};
use std::io::{self, Read, Write};
use std::net::{self, Shutdown, SocketAddr};
use std::time::Duration;
use tokio_io::{AsyncRead, AsyncWrite};
use tokio_reactor::Handle;

thread_local! { static WAITING: std::cell::RefCell<Vec<futures::task::Task>> = std::cell::RefCell::new(vec![]); }
/// Wake every task that found a socket not ready.
pub fn wake_all() { for t in WAITING.with(|w| std::mem::replace(&mut *w.borrow_mut(), vec![])) { t.notify() } }
fn noted<T>(r: io::Result<T>) -> io::Result<T> {
    if let Err(ref e) = r { if e.kind() == io::ErrorKind::WouldBlock && futures::task::is_in_task() { WAITING.with(|w| w.borrow_mut().push(futures::task::current())) } }
    r
}

#[derive(Debug)]
pub struct TcpStream { io: net::TcpStream }
pub struct ConnectFuture { state: Option<io::Result<net::TcpStream>>, polled: bool }
impl TcpStream {
    pub fn connect(addr: &SocketAddr) -> ConnectFuture { ConnectFuture { state: Some(net::TcpStream::connect(addr).and_then(|s| { s.set_nonblocking(true)?; Ok(s) })), polled: false } }
    pub fn from_std(stream: net::TcpStream, _h: &Handle) -> io::Result<TcpStream> { stream.set_nonblocking(true)?; Ok(TcpStream { io: stream }) }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { self.io.local_addr() }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> { self.io.peer_addr() }
    pub fn peek(&mut self, b: &mut [u8]) -> io::Result<usize> { self.io.peek(b) }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> { self.io.shutdown(how) }
    pub fn nodelay(&self) -> io::Result<bool> { self.io.nodelay() }
    pub fn set_nodelay(&self, on: bool) -> io::Result<()> { self.io.set_nodelay(on) }
    pub fn set_recv_buffer_size(&self, _n: usize) -> io::Result<()> { Ok(()) }
    pub fn set_send_buffer_size(&self, _n: usize) -> io::Result<()> { Ok(()) }
    pub fn set_keepalive(&self, _k: Option<Duration>) -> io::Result<()> { Ok(()) }
    pub fn set_linger(&self, _k: Option<Duration>) -> io::Result<()> { Ok(()) }
    pub fn ttl(&self) -> io::Result<u32> { self.io.ttl() }
    pub fn set_ttl(&self, n: u32) -> io::Result<()> { self.io.set_ttl(n) }
    pub fn try_clone(&self) -> io::Result<TcpStream> { Ok(TcpStream { io: self.io.try_clone()? }) }
}
impl Future for ConnectFuture {
    type Item = TcpStream;
    type Error = io::Error;
    fn poll(&mut self) -> Poll<TcpStream, io::Error> {
        if !self.polled { self.polled = true; let _ = noted::<()>(Err(io::ErrorKind::WouldBlock.into())); return Ok(Async::NotReady) }
        match self.state.take() { Some(Ok(io)) => Ok(Async::Ready(TcpStream { io })), Some(Err(e)) => Err(e), None => panic!("can't poll TCP stream twice") }
    }
}
impl Read for TcpStream { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { noted(self.io.read(b)) } }
impl Write for TcpStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { noted(self.io.write(b)) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl AsyncRead for TcpStream { unsafe fn prepare_uninitialized_buffer(&self, _: &mut [u8]) -> bool { false } }
impl AsyncWrite for TcpStream { fn shutdown(&mut self) -> Poll<(), io::Error> { Ok(Async::Ready(())) } }
impl<'a> Read for &'a TcpStream { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { noted((&self.io).read(b)) } }
impl<'a> Write for &'a TcpStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { noted((&self.io).write(b)) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl<'a> AsyncRead for &'a TcpStream { unsafe fn prepare_uninitialized_buffer(&self, _: &mut [u8]) -> bool { false } }
impl<'a> AsyncWrite for &'a TcpStream { fn shutdown(&mut self) -> Poll<(), io::Error> { Ok(Async::Ready(())) } }

#[derive(Debug)]
pub struct TcpListener { io: net::TcpListener }
impl TcpListener {
    pub fn bind(addr: &SocketAddr) -> io::Result<TcpListener> { Ok(TcpListener { io: net::TcpListener::bind(addr)? }) }
    pub fn from_std(io: net::TcpListener, _h: &Handle) -> io::Result<TcpListener> { io.set_nonblocking(true)?; Ok(TcpListener { io }) }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { self.io.local_addr() }
    pub fn poll_accept(&mut self) -> Poll<(TcpStream, SocketAddr), io::Error> {
        match noted(self.io.accept()) {
            Ok((io, a)) => { io.set_nonblocking(true)?; Ok(Async::Ready((TcpStream { io }, a))) }
            Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => Ok(Async::NotReady),
            Err(e) => Err(e),
        }
    }
    pub fn poll_accept_std(&mut self) -> Poll<(net::TcpStream, SocketAddr), io::Error> {
        match self.poll_accept()? { Async::Ready((s, a)) => Ok(Async::Ready((s.io, a))), Async::NotReady => Ok(Async::NotReady) }
    }
    pub fn incoming(self) -> Incoming { Incoming { inner: self } }
    pub fn ttl(&self) -> io::Result<u32> { self.io.ttl() }
    pub fn set_ttl(&self, n: u32) -> io::Result<()> { self.io.set_ttl(n) }
}
#[derive(Debug)]
pub struct Incoming { inner: TcpListener }
impl Stream for Incoming {
    type Item = TcpStream;
    type Error = io::Error;
    fn poll(&mut self) -> Poll<Option<TcpStream>, io::Error> {
        match self.inner.poll_accept()? { Async::Ready((s, _)) => Ok(Async::Ready(Some(s))), Async::NotReady => Ok(Async::NotReady) }
    }
}
