//! A RakNet peer by hand, on a plain UDP socket.
#![allow(dead_code)]
use std::net::SocketAddr;
use std::time::Duration;
use tokio::net::UdpSocket;
use tokio::time::{timeout, Instant};

pub const MAGIC: [u8; 16] = [0, 0xff, 0xff, 0, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78];

pub struct Peer {
    pub s: UdpSocket,
    pub to: SocketAddr,
    pub num: u32,
}
pub fn u24(v: u32) -> [u8; 3] {
    let b = v.to_le_bytes();
    [b[0], b[1], b[2]]
}
pub fn req1(ver: u8) -> Vec<u8> {
    let mut v = vec![5];
    v.extend(MAGIC);
    v.push(ver);
    v.resize(1371, 0);
    v
}
pub fn req2(to: &SocketAddr, mtu: u16, guid: u64) -> Vec<u8> {
    let mut v = vec![7];
    v.extend(MAGIC);
    v.push(4);
    match to.ip() {
        std::net::IpAddr::V4(a) => v.extend(a.octets().map(|x| !x)),
        _ => panic!(),
    }
    v.extend(to.port().to_be_bytes());
    v.extend(mtu.to_be_bytes());
    v.extend(guid.to_be_bytes());
    v
}
/// header of one frame; rel 0..=4, r s o: reliable, sequenced, ordered index
pub fn frame(rel: u8, r: u32, s: u32, o: u32, data: &[u8]) -> Vec<u8> {
    frame_split(rel, r, s, o, None, data)
}
pub fn frame_split(rel: u8, r: u32, s: u32, o: u32, split: Option<(u32, u16, u32)>, data: &[u8]) -> Vec<u8> {
    let mut v = vec![rel << 5 | if split.is_some() { 16 } else { 0 }];
    v.extend(((data.len() * 8) as u16).to_be_bytes());
    if rel >= 2 {
        v.extend(u24(r));
    }
    if rel == 1 || rel == 4 {
        v.extend(u24(s));
    }
    if rel == 1 || rel >= 3 {
        v.extend(u24(o));
        v.push(0);
    }
    if let Some((n, id, i)) = split {
        v.extend(n.to_be_bytes());
        v.extend(id.to_be_bytes());
        v.extend(i.to_be_bytes());
    }
    v.extend(data);
    v
}
pub fn datagram(num: u32, frames: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![0x84];
    v.extend(u24(num));
    for f in frames {
        v.extend(f);
    }
    v
}
pub fn ack(id: u8, a: u32, b: u32) -> Vec<u8> {
    let mut v = vec![id, 0, 1];
    if a == b {
        v.push(1);
        v.extend(u24(a));
    } else {
        v.push(0);
        v.extend(u24(a));
        v.extend(u24(b));
    }
    v
}
/// number and frames (reliability, body) of a data datagram
pub fn frames(b: &[u8]) -> Option<(u32, Vec<(u8, Vec<u8>)>)> {
    if b.len() < 4 || b[0] < 0x80 || b[0] > 0x8d {
        return None;
    }
    let num = u32::from_le_bytes([b[1], b[2], b[3], 0]);
    let mut p = 4;
    let mut out = vec![];
    while p < b.len() {
        let rel = b[p] >> 5;
        let split = b[p] & 16 != 0;
        let len = u16::from_be_bytes([b[p + 1], b[p + 2]]) as usize / 8;
        p += 3;
        p += if rel >= 2 { 3 } else { 0 };
        p += if rel == 1 || rel == 4 { 3 } else { 0 };
        p += if rel == 1 || rel >= 3 { 4 } else { 0 };
        p += if split { 10 } else { 0 };
        out.push((rel, b[p..p + len].to_vec()));
        p += len;
    }
    Some((num, out))
}
/// numbers covered by an ACK or NACK datagram
pub fn records(b: &[u8]) -> Vec<u32> {
    let n = u16::from_be_bytes([b[1], b[2]]);
    let mut p = 3;
    let mut out = vec![];
    let g = |p: usize| u32::from_le_bytes([b[p], b[p + 1], b[p + 2], 0]);
    for _ in 0..n {
        if b[p] == 1 {
            out.push(g(p + 1));
            p += 4;
        } else {
            out.extend(g(p + 1)..=g(p + 4));
            p += 7;
        }
    }
    out
}
impl Peer {
    pub async fn new(to: SocketAddr) -> Peer {
        Peer { s: UdpSocket::bind("127.0.0.1:0").await.unwrap(), to, num: 0 }
    }
    pub async fn send(&self, b: &[u8]) {
        self.s.send_to(b, self.to).await.unwrap();
    }
    /// next datagram within ms
    pub async fn recv(&self, ms: u64) -> Option<Vec<u8>> {
        let mut b = vec![0; 4096];
        match timeout(Duration::from_millis(ms), self.s.recv_from(&mut b)).await {
            Ok(Ok((n, _))) => {
                b.truncate(n);
                Some(b)
            }
            _ => None,
        }
    }
    /// everything that arrives within ms
    pub async fn all(&self, ms: u64) -> Vec<(u64, Vec<u8>)> {
        let t0 = Instant::now();
        let mut out = vec![];
        loop {
            let left = ms.saturating_sub(t0.elapsed().as_millis() as u64);
            if left == 0 {
                return out;
            }
            if let Some(b) = self.recv(left).await {
                out.push((t0.elapsed().as_millis() as u64, b));
            }
        }
    }
    /// offline handshake with a listener
    pub async fn open(&self, mtu: u16) -> bool {
        self.open_as(10, mtu).await
    }
    pub async fn open_as(&self, ver: u8, mtu: u16) -> bool {
        self.send(&req1(ver)).await;
        if !matches!(self.recv(2000).await, Some(b) if b[0] == 6) {
            return false;
        }
        self.send(&req2(&self.to, mtu, 77)).await;
        matches!(self.recv(2000).await, Some(b) if b[0] == 8)
    }
    pub async fn data(&mut self, frames: &[Vec<u8>]) -> u32 {
        let n = self.num;
        self.num += 1;
        self.send(&datagram(n, frames)).await;
        n
    }
}
