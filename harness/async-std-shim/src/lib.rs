#![allow(unused_imports)]
//! Everything of async-std, with the network, task spawning and time replaced by the simulation
//! runtime.  Substituted through `[patch.crates-io]` in the harness only.
pub use real::*;

pub mod task {
    pub use real::task::*;
    pub use simrt::JoinHandle;
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: std::future::Future<Output = T> + Send + 'static,
        T: Send + 'static,
    {
        simrt::spawn(f)
    }
    pub fn spawn_local<F, T>(f: F) -> JoinHandle<T>
    where
        F: std::future::Future<Output = T> + 'static,
        T: 'static,
    {
        simrt::spawn(f)
    }
    pub async fn sleep(d: std::time::Duration) {
        simrt::time::sleep(d).await
    }
    pub struct Builder(());
    impl Default for Builder {
        fn default() -> Self {
            Self::new()
        }
    }
    impl Builder {
        pub fn new() -> Self {
            Builder(())
        }
        pub fn name(self, _: String) -> Self {
            self
        }
        pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
        where
            F: std::future::Future<Output = T> + Send + 'static,
            T: Send + 'static,
        {
            Ok(simrt::spawn(f))
        }
    }
}

pub mod future {
    pub use real::future::*;
    #[derive(Clone, Copy, Debug, Eq, PartialEq)]
    pub struct TimeoutError {
        _private: (),
    }
    impl std::error::Error for TimeoutError {}
    impl std::fmt::Display for TimeoutError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            "future has timed out".fmt(f)
        }
    }
    pub async fn timeout<F, T>(dur: std::time::Duration, f: F) -> Result<T, TimeoutError>
    where
        F: std::future::Future<Output = T>,
    {
        simrt::time::timeout(dur, f).await.ok_or(TimeoutError { _private: () })
    }
}

pub mod io {
    pub use real::io::*;
    pub async fn timeout<F, T>(dur: std::time::Duration, f: F) -> Result<T>
    where
        F: std::future::Future<Output = Result<T>>,
    {
        match simrt::time::timeout(dur, f).await {
            Some(r) => r,
            None => Err(Error::new(ErrorKind::TimedOut, "future timed out")),
        }
    }
}

macro_rules! stream_io {
    ($t:ty) => {
        impl futures_io::AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                self.0.poll_read(cx, buf)
            }
        }
        impl futures_io::AsyncRead for &$t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                self.0.poll_read(cx, buf)
            }
        }
        impl futures_io::AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                self.0.poll_write(cx, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.0.poll_flush(cx)
            }
            fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.0.poll_close(cx)
            }
        }
        impl futures_io::AsyncWrite for &$t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                self.0.poll_write(cx, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.0.poll_flush(cx)
            }
            fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.0.poll_close(cx)
            }
        }
    };
}

pub mod net {
    pub use real::net::*;
    use std::io;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    async fn resolve<A: ToSocketAddrs>(a: A) -> io::Result<Vec<SocketAddr>> {
        // IP literals and tuples resolve without touching the real executor
        Ok(a.to_socket_addrs().await?.collect())
    }
    fn none() -> io::Error {
        io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any addresses")
    }

    #[derive(Debug, Clone)]
    pub struct TcpStream(pub simrt::net::Stream);
    stream_io!(TcpStream);
    impl TcpStream {
        pub async fn connect<A: ToSocketAddrs>(addrs: A) -> io::Result<TcpStream> {
            let mut last = none();
            for a in resolve(addrs).await? {
                match simrt::net::connect_from_code(a) {
                    Ok(s) => return Ok(TcpStream(s)),
                    Err(e) => last = e,
                }
            }
            Err(last)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            self.0.local_addr()
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            self.0.peer_addr()
        }
        pub fn ttl(&self) -> io::Result<u32> {
            Ok(64)
        }
        pub fn set_ttl(&self, _: u32) -> io::Result<()> {
            Ok(())
        }
        pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
            self.0.peek(buf).await
        }
        pub fn nodelay(&self) -> io::Result<bool> {
            Ok(true)
        }
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
            self.0.shutdown(how)
        }
    }

    #[derive(Debug)]
    pub struct TcpListener(simrt::net::Listener2);
    impl TcpListener {
        pub async fn bind<A: ToSocketAddrs>(addrs: A) -> io::Result<TcpListener> {
            let mut last = none();
            for a in resolve(addrs).await? {
                match simrt::net::Listener::bind_tcp(a) {
                    Ok(l) => return Ok(TcpListener(simrt::net::Listener2(l))),
                    Err(e) => last = e,
                }
            }
            Err(last)
        }
        /// Harness entry: bind without a resolver.
        pub fn sim_bind(addr: SocketAddr) -> io::Result<TcpListener> {
            simrt::net::Listener::bind_tcp(addr).map(|l| TcpListener(simrt::net::Listener2(l)))
        }
        pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            std::future::poll_fn(|cx| self.0 .0.poll_accept(cx)).await.map(|(s, a)| (TcpStream(s), a))
        }
        pub fn incoming(&self) -> Incoming<'_> {
            Incoming(self)
        }
        pub fn into_incoming(self) -> impl futures_core::Stream<Item = io::Result<TcpStream>> + Send {
            IntoIncoming(self)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.0 .0.local_addr())
        }
    }
    #[derive(Debug)]
    pub struct Incoming<'a>(&'a TcpListener);
    impl futures_core::Stream for Incoming<'_> {
        type Item = io::Result<TcpStream>;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            self.0 .0 .0.poll_accept(cx).map(|r| Some(r.map(|(s, _)| TcpStream(s))))
        }
    }
    struct IntoIncoming(TcpListener);
    impl futures_core::Stream for IntoIncoming {
        type Item = io::Result<TcpStream>;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            self.0 .0 .0.poll_accept(cx).map(|r| Some(r.map(|(s, _)| TcpStream(s))))
        }
    }

    pub struct UdpSocket(simrt::net::Udp);
    impl std::fmt::Debug for UdpSocket {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("UdpSocket")
        }
    }
    impl UdpSocket {
        pub async fn bind<A: ToSocketAddrs>(addrs: A) -> io::Result<UdpSocket> {
            let mut last = none();
            for a in resolve(addrs).await? {
                match simrt::net::Udp::bind(a) {
                    Ok(l) => return Ok(UdpSocket(l)),
                    Err(e) => last = e,
                }
            }
            Err(last)
        }
        pub fn sim_bind(addr: SocketAddr) -> io::Result<UdpSocket> {
            simrt::net::Udp::bind(addr).map(UdpSocket)
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            self.0.peer_addr()
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.0.local_addr())
        }
        pub async fn send_to<A: ToSocketAddrs>(&self, buf: &[u8], addrs: A) -> io::Result<usize> {
            let a = resolve(addrs).await?.into_iter().next().ok_or_else(none)?;
            self.0.send_to(buf, a)
        }
        pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
            self.0.recv_from(buf).await
        }
        pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
            std::future::poll_fn(|cx| self.0.poll_recv_from(cx, buf, true)).await
        }
        pub async fn connect<A: ToSocketAddrs>(&self, addrs: A) -> io::Result<()> {
            let mut last = none();
            for a in resolve(addrs).await? {
                match self.0.connect(a) {
                    Ok(()) => return Ok(()),
                    Err(e) => last = e,
                }
            }
            Err(last)
        }
        pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
            self.0.send(buf)
        }
        pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
            Ok(self.0.recv_from(buf).await?.0)
        }
        pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
            Ok(self.peek_from(buf).await?.0)
        }
        pub fn set_broadcast(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
    }
}

pub mod os {
    pub use real::os::*;
    #[cfg(unix)]
    pub mod unix {
        pub use real::os::unix::*;
        pub mod net {
            pub use real::os::unix::net::*;
            use real::path::Path;
            use std::io;
            use std::net::Shutdown;
            use std::pin::Pin;
            use std::task::{Context, Poll};
            type Addr = std::os::unix::net::SocketAddr;

            #[derive(Debug, Clone)]
            pub struct UnixStream(pub simrt::net::Stream);
            stream_io!(UnixStream);
            fn unnamed() -> io::Result<Addr> {
                std::os::unix::net::UnixDatagram::unbound()?.local_addr()
            }
            impl UnixStream {
                pub fn peer_addr(&self) -> io::Result<Addr> {
                    self.0.peer_addr()?;
                    unnamed()
                }
                pub fn local_addr(&self) -> io::Result<Addr> {
                    unnamed()
                }
                pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
                    self.0.shutdown(how)
                }
            }
            #[derive(Debug)]
            pub struct UnixListener(simrt::net::Listener2, std::path::PathBuf);
            impl UnixListener {
                pub async fn bind<P: AsRef<Path>>(path: P) -> io::Result<UnixListener> {
                    let p: std::path::PathBuf = path.as_ref().to_path_buf().into();
                    let l = simrt::net::Listener::bind_unix(&p.to_string_lossy())?;
                    Ok(UnixListener(simrt::net::Listener2(l), p))
                }
                pub async fn accept(&self) -> io::Result<(UnixStream, Addr)> {
                    let (s, _) = std::future::poll_fn(|cx| self.0 .0.poll_accept(cx)).await?;
                    Ok((UnixStream(s), unnamed()?))
                }
                pub fn incoming(&self) -> Incoming<'_> {
                    Incoming(self)
                }
                pub fn local_addr(&self) -> io::Result<Addr> {
                    Addr::from_pathname(&self.1)
                }
            }
            #[derive(Debug)]
            pub struct Incoming<'a>(&'a UnixListener);
            impl futures_core::Stream for Incoming<'_> {
                type Item = io::Result<UnixStream>;
                fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
                    self.0 .0 .0.poll_accept(cx).map(|r| Some(r.map(|(s, _)| UnixStream(s))))
                }
            }
        }
    }
}
