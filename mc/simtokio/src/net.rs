pub use tokio_real::net::{lookup_host, TcpListener, TcpStream, ToSocketAddrs as RealToSocketAddrs};

use std::future::Future;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::task::{Context, Poll};

/// Address conversion: IP literals only (the simulated host has no resolver besides localhost).
pub trait ToSocketAddrs {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>>;
}
impl ToSocketAddrs for SocketAddr {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![*self])
    }
}
impl ToSocketAddrs for SocketAddrV4 {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![SocketAddr::V4(*self)])
    }
}
impl ToSocketAddrs for SocketAddrV6 {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![SocketAddr::V6(*self)])
    }
}
impl ToSocketAddrs for (IpAddr, u16) {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![SocketAddr::from(*self)])
    }
}
impl ToSocketAddrs for (Ipv4Addr, u16) {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![SocketAddr::from(*self)])
    }
}
impl ToSocketAddrs for (Ipv6Addr, u16) {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(vec![SocketAddr::from(*self)])
    }
}
impl ToSocketAddrs for (&str, u16) {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        match self.0.parse::<IpAddr>() {
            Ok(ip) => Ok(vec![SocketAddr::new(ip, self.1)]),
            Err(_) if self.0 == "localhost" => Ok(vec![SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), self.1)]),
            Err(_) => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
}
impl ToSocketAddrs for str {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        if let Ok(a) = self.parse::<SocketAddr>() {
            return Ok(vec![a]);
        }
        match self.rsplit_once(':') {
            Some((h, p)) => (h, p.parse().map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))?).to_addrs(),
            None => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
}
impl ToSocketAddrs for String {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        self.as_str().to_addrs()
    }
}
impl ToSocketAddrs for &[SocketAddr] {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(self.to_vec())
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn to_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        (**self).to_addrs()
    }
}

pub struct UdpSocket {
    id: u32,
    /// a socket handed over through `from_std` keeps its port reserved on the real host
    _std: Option<std::net::UdpSocket>,
}
impl Drop for UdpSocket {
    fn drop(&mut self) {
        simrt::net_close(self.id);
    }
}
impl std::fmt::Debug for UdpSocket {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "UdpSocket({:?})", self.local_addr())
    }
}

fn first<A: ToSocketAddrs>(a: A) -> io::Result<SocketAddr> {
    a.to_addrs()?
        .into_iter()
        .next()
        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "no addresses to send data to"))
}

impl UdpSocket {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<UdpSocket> {
        let mut last = None;
        for a in addr.to_addrs()? {
            match simrt::net_bind(a) {
                Ok((id, _)) => return Ok(UdpSocket { id, _std: None }),
                Err(e) => last = Some(e),
            }
        }
        Err(last.unwrap_or_else(|| io::ErrorKind::InvalidInput.into()))
    }
    pub fn from_std(s: std::net::UdpSocket) -> io::Result<UdpSocket> {
        let a = s.local_addr()?;
        let (id, _) = simrt::net_bind(a)?;
        Ok(UdpSocket { id, _std: Some(s) })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        simrt::net_addr(self.id).ok_or_else(|| io::ErrorKind::NotConnected.into())
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        simrt::net_peer(self.id).ok_or_else(|| io::ErrorKind::NotConnected.into())
    }
    pub async fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
        simrt::net_connect(self.id, first(addr)?);
        Ok(())
    }
    pub fn send_to<'a, A: ToSocketAddrs + 'a>(&'a self, buf: &'a [u8], target: A) -> impl Future<Output = io::Result<usize>> + Send + 'a {
        let t = first(target);
        async move {
            let t = t?;
            simrt::yield_point("udp send_to").await;
            simrt::net_send(self.id, t, buf)
        }
    }
    pub fn try_send_to(&self, buf: &[u8], target: SocketAddr) -> io::Result<usize> {
        simrt::net_send(self.id, target, buf)
    }
    pub fn poll_send_to(&self, _cx: &mut Context<'_>, buf: &[u8], target: SocketAddr) -> Poll<io::Result<usize>> {
        Poll::Ready(simrt::net_send(self.id, target, buf))
    }
    pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
        let t = self.peer_addr()?;
        simrt::yield_point("udp send").await;
        simrt::net_send(self.id, t, buf)
    }
    pub fn try_send(&self, buf: &[u8]) -> io::Result<usize> {
        simrt::net_send(self.id, self.peer_addr()?, buf)
    }
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        std::future::poll_fn(|cx| simrt::net_poll_recv(self.id, buf, cx, false)).await
    }
    pub fn try_recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        simrt::net_try_recv(self.id, buf)
    }
    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        std::future::poll_fn(|cx| simrt::net_poll_recv(self.id, buf, cx, true)).await
    }
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.recv_from(buf).await.map(|r| r.0)
    }
    pub fn try_recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.try_recv_from(buf).map(|r| r.0)
    }
    pub async fn recv_buf_from(&self, buf: &mut Vec<u8>) -> io::Result<(usize, SocketAddr)> {
        let mut b = vec![0u8; 65536];
        let (n, a) = self.recv_from(&mut b).await?;
        let n = n.min((buf.capacity() - buf.len()).max(0));
        buf.extend_from_slice(&b[..n]);
        Ok((n, a))
    }
    pub async fn readable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| if simrt::net_has_data(self.id, cx) { Poll::Ready(Ok(())) } else { Poll::Pending }).await
    }
    pub async fn writable(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn set_broadcast(&self, _on: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
}
