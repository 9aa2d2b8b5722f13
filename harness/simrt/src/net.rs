//! Virtual TCP, Unix-stream and UDP.  The code under test sees async socket types; the harness
//! drives the other end synchronously through `Peer`, `Acceptor` and `UdpPeer`.
use crate::choice::choose;
use crate::exec::{count_op, try_with, with};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Chunking {
    /// transfer everything that fits
    #[default]
    Whole,
    /// one byte at a time
    Single,
    /// a drawn number of bytes
    Random,
}
fn chunk(mode: Chunking, avail: usize) -> usize {
    match mode {
        Chunking::Whole => avail,
        Chunking::Single => avail.min(1),
        Chunking::Random => {
            if avail <= 1 {
                avail
            } else {
                // 0 => everything, so that shrinking goes towards whole transfers
                let k = choose(4);
                match k {
                    0 | 1 => avail,
                    2 => 1,
                    _ => avail - choose(avail as u64) as usize,
                }
            }
        }
    }
}

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    cap: usize,
    fin: bool,      // writer finished
    deaf: bool,     // reader gone
    rst: bool,
    rd: Option<Waker>,
    wr: Option<Waker>,
    total: u64,
}
impl Pipe {
    fn wake(&mut self) {
        if let Some(w) = self.rd.take() {
            w.wake();
        }
        if let Some(w) = self.wr.take() {
            w.wake();
        }
    }
}
/// dir 0: harness -> code, dir 1: code -> harness
struct Conn {
    p: [Pipe; 2],
    rd_chunk: Chunking,
    wr_chunk: Chunking,
    peer_addr_fails: bool,
    server_gone: bool,
    /// reads and writes of the code are sometimes put off until the task runs again, and tasks held up
    /// after a write, as if another thread had run in between
    yields: bool,
    yielded: [bool; 2],
    /// what was last written, while the task that wrote it does not know of that yet
    written: Option<Vec<u8>>,
    local: SocketAddr,
    peer: SocketAddr,
}
impl Conn {
    fn put_off(&mut self, dir: usize, cx: &mut Context<'_>) -> bool {
        if !self.yields {
            return false;
        }
        if std::mem::take(&mut self.yielded[dir]) {
            return false;
        }
        self.yielded[dir] = choose(6) == 5;
        if self.yielded[dir] {
            cx.waker().wake_by_ref();
        }
        self.yielded[dir]
    }
}
type ConnRef = Arc<Mutex<Conn>>;

struct Half {
    c: ConnRef,
}
impl Drop for Half {
    fn drop(&mut self) {
        let mut c = self.c.lock().unwrap_or_else(|e| e.into_inner());
        c.p[1].fin = true;
        c.p[0].deaf = true;
        c.server_gone = true;
        c.p[0].wake();
        c.p[1].wake();
    }
}
/// The code side of a stream connection.
#[derive(Clone)]
pub struct Stream {
    h: Arc<Half>,
}
impl Stream {
    fn conn(&self) -> std::sync::MutexGuard<'_, Conn> {
        self.h.c.lock().unwrap()
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.conn().local)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        let c = self.conn();
        if c.peer_addr_fails || c.p[0].rst {
            return Err(io::Error::from_raw_os_error(107)); // ENOTCONN
        }
        Ok(c.peer)
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        let mut c = self.conn();
        if how != Shutdown::Read {
            c.p[1].fin = true;
        }
        if how != Shutdown::Write {
            c.p[0].deaf = true;
        }
        c.p[0].wake();
        c.p[1].wake();
        Ok(())
    }
    pub fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        count_op();
        let mut c = self.conn();
        let mode = c.rd_chunk;
        if !c.p[0].buf.is_empty() && c.put_off(0, cx) {
            return Poll::Pending;
        }
        let p = &mut c.p[0];
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if p.rst {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if p.deaf {
            return Poll::Ready(Ok(0));
        }
        if p.buf.is_empty() {
            if p.fin {
                return Poll::Ready(Ok(0));
            }
            p.rd = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = chunk(mode, p.buf.len().min(buf.len())).max(1);
        for (d, s) in buf.iter_mut().zip(p.buf.drain(..n)) {
            *d = s;
        }
        p.total += n as u64;
        Poll::Ready(Ok(n))
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        std::future::poll_fn(|cx| {
            let mut c = self.conn();
            let p = &mut c.p[0];
            if p.rst {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if p.buf.is_empty() {
                if p.fin || p.deaf {
                    return Poll::Ready(Ok(0));
                }
                p.rd = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let n = p.buf.len().min(buf.len());
            for (d, s) in buf.iter_mut().zip(p.buf.iter()) {
                *d = *s;
            }
            Poll::Ready(Ok(n))
        })
        .await
    }
    pub fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        count_op();
        let mut c = self.conn();
        let mode = c.wr_chunk;
        if let Some(w) = c.written.take() {
            if buf.starts_with(&w) {
                return Poll::Ready(Ok(w.len()));
            }
        }
        if c.put_off(1, cx) {
            return Poll::Pending;
        }
        let p = &mut c.p[1];
        if p.rst || p.deaf || p.fin {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let space = p.cap.saturating_sub(p.buf.len());
        if space == 0 {
            p.wr = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = chunk(mode, space.min(buf.len())).max(1);
        p.buf.extend(&buf[..n]);
        p.total += n as u64;
        if c.yields && choose(6) == 5 {
            // the peer may read this, and act on it, before the task goes on
            c.written = Some(buf[..n].to_vec());
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(Ok(n))
    }
    pub fn poll_flush(&self, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    pub fn poll_close(&self, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _ = self.shutdown(Shutdown::Write);
        Poll::Ready(Ok(()))
    }
}
impl std::fmt::Debug for Stream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Stream")
    }
}

/// The harness side of a stream connection.  Dropping it closes it.
pub struct Peer {
    c: ConnRef,
    closed: bool,
    pub in_all: Vec<u8>,
}
impl Peer {
    pub fn write(&self, data: &[u8]) {
        let mut c = self.c.lock().unwrap();
        let p = &mut c.p[0];
        if p.deaf || p.rst || p.fin {
            return;
        }
        p.buf.extend(data);
        if !data.is_empty() {
            if let Some(w) = p.rd.take() {
                w.wake();
            }
        }
    }
    /// Everything received so far and not yet taken.
    pub fn read(&mut self) -> Vec<u8> {
        let mut c = self.c.lock().unwrap();
        let p = &mut c.p[1];
        let v: Vec<u8> = p.buf.drain(..).collect();
        if let Some(w) = p.wr.take() {
            w.wake();
        }
        v
    }
    /// Take at most n bytes.
    pub fn read_n(&mut self, n: usize) -> Vec<u8> {
        let mut c = self.c.lock().unwrap();
        let p = &mut c.p[1];
        let n = n.min(p.buf.len());
        let v: Vec<u8> = p.buf.drain(..n).collect();
        if n > 0 {
            if let Some(w) = p.wr.take() {
                w.wake();
            }
        }
        v
    }
    pub fn pending_in(&self) -> usize {
        self.c.lock().unwrap().p[1].buf.len()
    }
    /// Bytes written by the harness which the code has not read.
    pub fn unread_by_code(&self) -> usize {
        self.c.lock().unwrap().p[0].buf.len()
    }
    /// The code has finished its sending direction (or dropped the stream) and everything was read.
    pub fn eof(&self) -> bool {
        let c = self.c.lock().unwrap();
        c.p[1].fin && c.p[1].buf.is_empty()
    }
    /// The code dropped its stream.
    pub fn gone(&self) -> bool {
        self.c.lock().unwrap().server_gone
    }
    pub fn shutdown_write(&self) {
        let mut c = self.c.lock().unwrap();
        c.p[0].fin = true;
        c.p[0].wake();
    }
    pub fn close(&mut self) {
        self.closed = true;
        let mut c = self.c.lock().unwrap();
        c.p[0].fin = true;
        c.p[1].deaf = true;
        c.p[0].wake();
        c.p[1].wake();
    }
    pub fn reset(&mut self) {
        self.closed = true;
        let mut c = self.c.lock().unwrap();
        for p in c.p.iter_mut() {
            p.rst = true;
            p.buf.clear();
            p.wake();
        }
    }
    pub fn set_out_cap(&self, n: usize) {
        let mut c = self.c.lock().unwrap();
        c.p[1].cap = n;
        c.p[1].wake();
    }
    pub fn set_yields(&self, on: bool) {
        self.c.lock().unwrap().yields = on;
    }
    pub fn set_chunking(&self, rd: Chunking, wr: Chunking) {
        let mut c = self.c.lock().unwrap();
        c.rd_chunk = rd;
        c.wr_chunk = wr;
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        if !self.closed {
            self.close();
        }
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Key {
    Tcp(u16),
    Unix(String),
}
struct ListenState {
    backlog: VecDeque<Result<(Stream, SocketAddr), i32>>,
    wk: Option<Waker>,
    closed: bool,
}
type ListenRef = Arc<Mutex<ListenState>>;
#[derive(Default)]
pub struct NetState {
    listeners: BTreeMap<Key, ListenRef>,
    accept_by_harness: BTreeMap<u16, Arc<Mutex<VecDeque<Peer>>>>,
    udp: BTreeMap<u16, UdpRef>,
    next_port: u16,
    next_client: u16,
    /// addresses the code bound, in order
    pub bound: Vec<SocketAddr>,
    pub connects: Vec<SocketAddr>,
    pub udp_bound: Vec<SocketAddr>,
    /// addresses there is no way to
    no_route: Vec<IpAddr>,
}
impl NetState {
    fn fresh_port(&mut self) -> u16 {
        // around, past what is in use
        loop {
            self.next_port = self.next_port.checked_add(1).unwrap_or(0).max(40001);
            let p = self.next_port;
            if !self.udp.contains_key(&p) && !self.listeners.contains_key(&Key::Tcp(p)) {
                return p;
            }
        }
    }
}
fn mk(local: SocketAddr, peer: SocketAddr) -> (Stream, Peer) {
    let big = 1 << 30;
    let c = Arc::new(Mutex::new(Conn {
        p: [Pipe { cap: big, ..Default::default() }, Pipe { cap: big, ..Default::default() }],
        rd_chunk: Chunking::Whole,
        wr_chunk: Chunking::Whole,
        peer_addr_fails: false,
        server_gone: false,
        yields: crate::exec::yields(),
        yielded: [false; 2],
        written: None,
        local,
        peer,
    }));
    (Stream { h: Arc::new(Half { c: c.clone() }) }, Peer { c, closed: false, in_all: vec![] })
}
pub fn pair() -> (Stream, Peer) {
    mk(lo(1000), lo(50000))
}
fn lo(port: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), port)
}

/// Code side listener.
pub struct Listener {
    key: Key,
    local: SocketAddr,
    st: ListenRef,
}
impl Listener {
    pub fn bind_tcp(addr: SocketAddr) -> io::Result<Listener> {
        with(|w| {
            let port = if addr.port() == 0 { w.net.fresh_port() } else { addr.port() };
            let key = Key::Tcp(port);
            if w.net.listeners.contains_key(&key) || w.net.accept_by_harness.contains_key(&port) {
                return Err(io::ErrorKind::AddrInUse.into());
            }
            let st = Arc::new(Mutex::new(ListenState { backlog: VecDeque::new(), wk: None, closed: false }));
            w.net.listeners.insert(key.clone(), st.clone());
            let local = SocketAddr::new(addr.ip(), port);
            w.net.bound.push(local);
            Ok(Listener { key, local, st })
        })
    }
    pub fn bind_unix(path: &str) -> io::Result<Listener> {
        with(|w| {
            let key = Key::Unix(path.to_string());
            if w.net.listeners.contains_key(&key) {
                return Err(io::ErrorKind::AddrInUse.into());
            }
            let st = Arc::new(Mutex::new(ListenState { backlog: VecDeque::new(), wk: None, closed: false }));
            w.net.listeners.insert(key.clone(), st.clone());
            Ok(Listener { key, local: lo(0), st })
        })
    }
    pub fn local_addr(&self) -> SocketAddr {
        self.local
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(Stream, SocketAddr)>> {
        count_op();
        let mut s = self.st.lock().unwrap();
        match s.backlog.pop_front() {
            Some(Ok(v)) => Poll::Ready(Ok(v)),
            Some(Err(e)) => Poll::Ready(Err(io::Error::from_raw_os_error(e))),
            None => {
                s.wk = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for Listener {
    fn drop(&mut self) {
        let bl = {
            let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
            s.closed = true;
            std::mem::take(&mut s.backlog)
        };
        try_with(|w| {
            w.net.listeners.remove(&self.key);
        });
        drop(bl);
    }
}

fn push(key: &Key, item: impl FnOnce(&mut NetState) -> (Result<(Stream, SocketAddr), i32>, Option<Peer>)) -> Option<Option<Peer>> {
    let (st, it, peer) = with(|w| {
        let st = w.net.listeners.get(key).cloned()?;
        let (it, peer) = item(&mut w.net);
        Some((st, it, peer))
    })?;
    let mut s = st.lock().unwrap();
    s.backlog.push_back(it);
    if let Some(w) = s.wk.take() {
        w.wake();
    }
    Some(peer)
}
fn connect_key(key: Key, broken: bool) -> Option<Peer> {
    push(&key, |net| {
        net.next_client = if net.next_client >= 65000 { 50001 } else { net.next_client.max(50000) + 1 };
        let peer = lo(net.next_client);
        let local = lo(if let Key::Tcp(p) = key { p } else { 0 });
        let (s, p) = mk(local, peer);
        if broken {
            s.h.c.lock().unwrap().peer_addr_fails = true;
        }
        (Ok((s, peer)), Some(p))
    })
    .flatten()
}
/// Harness: connect to a port the code listens on.
pub fn connect(port: u16) -> Option<Peer> {
    connect_key(Key::Tcp(port), false)
}
pub fn connect_unix(path: &str) -> Option<Peer> {
    connect_key(Key::Unix(path.into()), false)
}
/// Harness: a connection that was reset before the code could accept it: accept() succeeds,
/// getpeername() fails, reads fail.
pub fn connect_reset(port: u16) -> bool {
    match connect_key(Key::Tcp(port), true) {
        Some(mut p) => {
            p.reset();
            true
        }
        None => false,
    }
}
pub fn connect_unix_reset(path: &str) -> bool {
    match connect_key(Key::Unix(path.into()), true) {
        Some(mut p) => {
            p.reset();
            true
        }
        None => false,
    }
}
/// Harness: make the next accept() fail with an OS error.
pub fn accept_error(port: u16, errno: i32) -> bool {
    push(&Key::Tcp(port), |_| (Err(errno), None)).is_some()
}
pub fn accept_error_unix(path: &str, errno: i32) -> bool {
    push(&Key::Unix(path.into()), |_| (Err(errno), None)).is_some()
}
pub fn listening(port: u16) -> bool {
    with(|w| w.net.listeners.contains_key(&Key::Tcp(port)))
}
pub fn bound() -> Vec<SocketAddr> {
    with(|w| w.net.bound.clone())
}
/// Forget what was bound and connected so far.
pub fn forget() {
    with(|w| {
        w.net.bound = vec![];
        w.net.connects = vec![];
        w.net.udp_bound = vec![];
    })
}
pub fn connects() -> Vec<SocketAddr> {
    with(|w| w.net.connects.clone())
}

/// Harness: accept connections the code makes.
pub struct Acceptor {
    pub port: u16,
    q: Arc<Mutex<VecDeque<Peer>>>,
}
pub fn listen(port: u16) -> Acceptor {
    let q = Arc::new(Mutex::new(VecDeque::new()));
    with(|w| w.net.accept_by_harness.insert(port, q.clone()));
    Acceptor { port, q }
}
impl Acceptor {
    pub fn accept(&self) -> Option<Peer> {
        self.q.lock().unwrap().pop_front()
    }
}
impl Drop for Acceptor {
    fn drop(&mut self) {
        try_with(|w| w.net.accept_by_harness.remove(&self.port));
    }
}
/// Code: connect.
pub fn connect_from_code(addr: SocketAddr) -> io::Result<Stream> {
    if with(|w| w.net.no_route.contains(&addr.ip())) {
        return Err(io::Error::from_raw_os_error(101)); // ENETUNREACH
    }
    let (s, p, q) = with(|w| {
        w.net.connects.push(addr);
        if let Some(q) = w.net.accept_by_harness.get(&addr.port()).cloned() {
            let port = w.net.fresh_port();
            let (s, p) = mk(lo(port), addr);
            Some((s, p, q))
        } else {
            None
        }
    })
    .ok_or_else(|| io::Error::from(io::ErrorKind::ConnectionRefused))?;
    q.lock().unwrap().push_back(p);
    Ok(s)
}

struct UdpState {
    inq: VecDeque<(Vec<u8>, SocketAddr)>,
    outq: VecDeque<(Vec<u8>, SocketAddr)>,
    wk: Vec<Waker>,
    connected: Option<SocketAddr>,
    local: SocketAddr,
    send_err: VecDeque<i32>,
    harness: bool,
}
type UdpRef = Arc<Mutex<UdpState>>;
/// Code side UDP socket.
pub struct Udp {
    st: UdpRef,
}
impl Udp {
    pub fn bind(addr: SocketAddr) -> io::Result<Udp> {
        with(|w| {
            let port = if addr.port() == 0 { w.net.fresh_port() } else { addr.port() };
            if w.net.udp.contains_key(&port) {
                return Err(io::ErrorKind::AddrInUse.into());
            }
            let st = Arc::new(Mutex::new(UdpState {
                inq: VecDeque::new(),
                outq: VecDeque::new(),
                wk: vec![],
                connected: None,
                local: SocketAddr::new(addr.ip(), port),
                send_err: VecDeque::new(),
                harness: false,
            }));
            w.net.udp.insert(port, st.clone());
            w.net.udp_bound.push(SocketAddr::new(addr.ip(), port));
            Ok(Udp { st })
        })
    }
    pub fn connect(&self, a: SocketAddr) -> io::Result<()> {
        let mut s = self.st.lock().unwrap();
        reachable(s.local.ip(), a.ip())?;
        if s.local.ip().is_unspecified() {
            // the address of the interface that leads to the peer
            let ip = if a.ip().is_loopback() { a.ip() } else { own(a.ip()) };
            s.local.set_ip(ip);
        }
        s.connected = Some(a);
        Ok(())
    }
    pub fn local_addr(&self) -> SocketAddr {
        self.st.lock().unwrap().local
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.st.lock().unwrap().connected.ok_or_else(|| io::Error::from_raw_os_error(107))
    }
    pub fn send_to(&self, buf: &[u8], a: SocketAddr) -> io::Result<usize> {
        count_op();
        let mut s = self.st.lock().unwrap();
        if let Some(e) = s.send_err.pop_front() {
            return Err(io::Error::from_raw_os_error(e));
        }
        if buf.len() > 65507 {
            return Err(io::Error::from_raw_os_error(90)); // EMSGSIZE
        }
        let mut local = s.local;
        if s.connected != Some(a) {
            reachable(local.ip(), a.ip())?;
        }
        drop(s);
        if local.ip().is_unspecified() {
            local.set_ip(if a.ip().is_loopback() { a.ip() } else { own(a.ip()) });
        }
        match udp(a.port()) {
            // only endpoints of the harness receive; everything else is kept for `udp_sent`
            Some(u) if !Arc::ptr_eq(&u, &self.st) && u.lock().unwrap().harness && u.lock().unwrap().local.ip() == a.ip() => {
                u.lock().unwrap().inq.push_back((buf.to_vec(), local));
            }
            _ => self.st.lock().unwrap().outq.push_back((buf.to_vec(), a)),
        }
        Ok(buf.len())
    }
    pub fn send(&self, buf: &[u8]) -> io::Result<usize> {
        let a = self.peer_addr().map_err(|_| io::Error::from_raw_os_error(89))?;
        self.send_to(buf, a)
    }
    pub fn poll_recv_from(&self, cx: &mut Context<'_>, buf: &mut [u8], peek: bool) -> Poll<io::Result<(usize, SocketAddr)>> {
        count_op();
        let mut s = self.st.lock().unwrap();
        loop {
            let Some((d, a)) = s.inq.front().cloned() else {
                s.wk.push(cx.waker().clone());
                return Poll::Pending;
            };
            // a connected socket only receives from its peer
            if let Some(c) = s.connected {
                if c != a {
                    s.inq.pop_front();
                    continue;
                }
            }
            if !peek {
                s.inq.pop_front();
            }
            let n = d.len().min(buf.len());
            buf[..n].copy_from_slice(&d[..n]);
            return Poll::Ready(Ok((n, a)));
        }
    }
    pub fn recv_from<'a>(&'a self, buf: &'a mut [u8]) -> impl Future<Output = io::Result<(usize, SocketAddr)>> + 'a {
        struct F<'a>(&'a Udp, &'a mut [u8]);
        impl Future for F<'_> {
            type Output = io::Result<(usize, SocketAddr)>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                let F(u, b) = &mut *self;
                u.poll_recv_from(cx, b, false)
            }
        }
        F(self, buf)
    }
}
impl Drop for Udp {
    fn drop(&mut self) {
        let port = self.st.lock().unwrap_or_else(|e| e.into_inner()).local.port();
        try_with(|w| w.net.udp.remove(&port));
    }
}
/// An address of this machine on the network of a remote one.
fn own(a: IpAddr) -> IpAddr {
    match a {
        IpAddr::V4(_) => IpAddr::V4(Ipv4Addr::new(192, 0, 2, 1)),
        IpAddr::V6(_) => IpAddr::V6(Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, 1)),
    }
}
/// What Linux says about datagrams from one address to another.
fn reachable(from: IpAddr, to: IpAddr) -> io::Result<()> {
    if with(|w| w.net.no_route.contains(&to)) {
        return Err(io::Error::from_raw_os_error(101)); // ENETUNREACH
    }
    if from.is_ipv4() != to.is_ipv4() {
        return Err(io::Error::from_raw_os_error(97)); // EAFNOSUPPORT
    }
    if from.is_loopback() && !to.is_loopback() {
        return Err(io::Error::from_raw_os_error(22)); // EINVAL
    }
    Ok(())
}
fn udp(port: u16) -> Option<UdpRef> {
    with(|w| w.net.udp.get(&port).cloned())
}
/// Harness: there is no way to this address.
pub fn unreachable(ip: IpAddr) {
    with(|w| w.net.no_route.push(ip))
}
/// Harness: deliver a datagram to a socket the code bound. False if there is none.
pub fn udp_deliver(port: u16, data: &[u8], from: SocketAddr) -> bool {
    match udp(port) {
        Some(u) => {
            let mut s = u.lock().unwrap();
            s.inq.push_back((data.to_vec(), from));
            for w in s.wk.drain(..) {
                w.wake();
            }
            true
        }
        None => false,
    }
}
/// Harness: what the code sent from the socket bound to `port`.
pub fn udp_sent(port: u16) -> Vec<(Vec<u8>, SocketAddr)> {
    udp(port).map(|u| u.lock().unwrap().outq.drain(..).collect()).unwrap_or_default()
}
pub fn udp_ports() -> Vec<u16> {
    with(|w| w.net.udp.keys().copied().collect())
}
pub fn udp_send_error(port: u16, errno: i32) {
    if let Some(u) = udp(port) {
        u.lock().unwrap().send_err.push_back(errno);
    }
}
/// Debug-able listener for the async-std types.
pub struct Listener2(pub Listener);
impl std::fmt::Debug for Listener2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Listener({})", self.0.local)
    }
}
/// Harness: a UDP endpoint the code under test can send to.
pub struct HarnessUdp {
    addr: SocketAddr,
    u: Udp,
}
pub fn harness_udp(port: u16) -> HarnessUdp {
    harness_udp_at(IpAddr::V4(Ipv4Addr::LOCALHOST), port)
}
pub fn harness_udp_at(ip: IpAddr, port: u16) -> HarnessUdp {
    let mut port = port;
    let u = loop {
        match Udp::bind(SocketAddr::new(ip, port)) {
            Ok(u) => break u,
            Err(_) => port = port.wrapping_add(1).max(1024),
        }
    };
    u.st.lock().unwrap().harness = true;
    HarnessUdp { addr: SocketAddr::new(ip, port), u }
}
impl HarnessUdp {
    /// Datagrams that arrived, with their senders.
    pub fn received(&self) -> Vec<(Vec<u8>, SocketAddr)> {
        self.u.st.lock().unwrap().inq.drain(..).collect()
    }
    pub fn send(&self, data: &[u8], to: SocketAddr) -> bool {
        udp_deliver(to.port(), data, self.addr)
    }
}
