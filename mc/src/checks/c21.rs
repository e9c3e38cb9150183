//! C21: IPv4 and IPv6 peers work alike and addresses survive encoding.

use super::*;
use crate::traffic::{self, *};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

fn patterns(full: bool, v6: bool) -> Vec<SocketAddr> {
    let values: Vec<u8> = if full { (0..=255).collect() } else { vec![0, 1, 2, 4, 6, 23, 127, 128, 254, 255] };
    let mut v: Vec<IpAddr> = vec![];
    if v6 {
        v.extend(["::1", "2001:db8::17", "fe80::1:2:3:4", "::ffff:1.2.3.4", "::1.2.3.4", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe", "102:304:506:708:90a:b0c:d0e:f10"].iter().map(|s| s.parse::<IpAddr>().unwrap()));
        for i in 0..16 {
            for x in &values {
                let mut b = [0x20, 1, 0xd, 0xb8, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9];
                b[i] = *x;
                v.push(Ipv6Addr::from(b).into());
            }
        }
    } else {
        v.extend(["127.0.0.1", "1.2.3.4", "192.168.0.10", "128.64.32.16", "254.253.252.251", "255.255.255.254"].iter().map(|s| s.parse::<IpAddr>().unwrap()));
        for i in 0..4 {
            for x in &values {
                let mut b = [10, 20, 30, 40];
                b[i] = *x;
                v.push(Ipv4Addr::from(b).into());
            }
        }
    }
    v.retain(|a| !a.is_unspecified());
    v.dedup();
    const PORTS: [u16; 8] = [19132, 1, 255, 256, 65535, 65280, 4, 6];
    let mut out: Vec<SocketAddr> = v.iter().enumerate().map(|(i, a)| SocketAddr::new(*a, PORTS[i % 8])).collect();
    for p in PORTS.iter().copied().chain(if full { (0..16).map(|k| 1 << k).collect::<Vec<u16>>() } else { vec![] }) {
        out.push(SocketAddr::new(v[0], p));
        out.push(SocketAddr::new(v[1], p));
    }
    out.sort();
    out.dedup();
    out
}
fn fam(a: &SocketAddr) -> &'static str {
    if a.is_ipv4() {
        "IPv4"
    } else {
        "IPv6"
    }
}
/// application messages both ways between a raw peer and the library
fn exchange(c: &RawConn, sock: &Rc<RaknetSocket>, what: &str) -> Rz<()> {
    let (log, _j) = reader(sock);
    let mut want = vec![];
    for (i, (r, l)) in [(RO, 20), (R, 21), (RO, 3000)].into_iter().enumerate() {
        let m = payload(i as u32, l);
        must_send(sock, &m, r)?;
        want.push(m);
    }
    let a = payload(30, 9);
    c.msg(RO, &a);
    c.pump(400 * MS);
    check!(c.app_messages() == want, "data", "{what}: the peer got {}, sent were {}", shows(&c.app_messages()), shows(&want));
    check!(log.msgs() == vec![a.clone()], "data", "{what}: recv returned {}, sent was {}", shows(&log.msgs()), show(&a));
    Ok(())
}

/// raw client -> library server
fn clients(name: &str, v6: bool, full: bool) -> Space {
    let ps = patterns(full, v6);
    Space::new(name, format!("a raw {} client at each of {} addresses and ports connects to a listener at one of 3; the server's address in request 2 given as IPv4 or IPv6; 3 MTUs", if v6 { "IPv6" } else { "IPv4" }, ps.len()), move || {
        let me = ps[pick(ps.len())];
        let at = [if v6 { sa("[2001:db8::1]:19132") } else { sa("127.0.0.1:19132") }, if v6 { sa("[::1]:65535") } else { sa("9.8.7.6:1") }, if v6 { sa("[::]:256") } else { sa("0.0.0.0:19132") }][pick(3)];
        let named = [at, sa("1.2.3.4:5"), sa("[2001:db8::17]:19132")][pick(3)];
        let mtu = [1400, 577][pick(2)];
        let guid = 0x0102030405060708;
        if me.port() == at.port() && (me.ip() == at.ip() || at.ip().is_unspecified()) {
            return ok("the listener's own address");
        }
        let mut l = listen_at(at)?;
        let host: SocketAddr = if at.ip().is_unspecified() { SocketAddr::new(if v6 { "2001:db8::99".parse().unwrap() } else { "77.66.55.44".parse().unwrap() }, at.port()) } else { at };
        if let (IpAddr::V4(a), false) = (host.ip(), v6) {
            simrt::set_host(a, Ipv6Addr::LOCALHOST);
        } else if let IpAddr::V6(a) = host.ip() {
            simrt::set_host(Ipv4Addr::LOCALHOST, a);
        }
        let what = format!("a raw client at {me}, listener at {at}, request 2 naming {named}");
        let raw = Raw::new(me);
        raw.send(host, &wire::req1(10, 1371));
        match raw.recv_pkt(SEC) {
            Some(Ok(Pkt::Rep1 { .. })) => {}
            x => bail!("no-answer", "{what}: request 1 was answered with {x:?}"),
        }
        raw.send(host, &wire::req2(&named, mtu, guid));
        match raw.recv_pkt(SEC) {
            Some(Ok(Pkt::Rep2 { addr, mtu: m, .. })) => {
                check!(addr == me, "reply2-address", "{what}: reply 2 names {addr}");
                check!(m == mtu, "request2-fields", "{what}: request 2 had an MTU of {mtu}, reply 2 has {m}");
            }
            x => bail!("no-answer", "{what}: request 2 was answered with {x:?}"),
        }
        let c = RawConn::new(raw, host, mtu);
        c.msg(RO, &wire::m_conn_request(guid, 77665544));
        c.pump(200 * MS);
        let acc = c.messages().iter().find_map(|m| match wire::decode_msg(m) {
            Ok(Msg::Accepted { client, t1, .. }) => Some((client, t1)),
            _ => None,
        });
        match acc {
            Some((a, t)) => {
                check!(a == me, "accepted-address", "{what}: the acceptance names {a}");
                check!(t == 77665544, "accepted-fields", "{what}: the request's time was 77665544, the acceptance has {t}");
            }
            None => bail!("no-answer", "{what}: the connection request was not answered with an acceptance that decodes: {:?}", c.messages()),
        }
        c.msg(RO, &wire::m_new_incoming(&[host, sa("1.2.3.4:5"), sa("[2001:db8::17]:19132")][pick(3)], 10, &named, 1, 2));
        c.pump(100 * MS);
        let s = match accept(&mut l, SEC) {
            Ok(Ok(s)) => s,
            x => bail!("no-accept", "{what}: accept: {:?}", x.map(|r| r.map(|_| ()))),
        };
        check!(s.peer_addr().ok() == Some(me), "peer-addr", "{what}: peer_addr is {:?}", s.peer_addr());
        check!(s.local_addr().ok() == Some(at), "local-addr", "{what}: local_addr is {:?}", s.local_addr());
        exchange(&c, &s, &what)?;
        no_panic("addresses")?;
        ok(format!("{} {}", fam(&me), fam(&named)))
    })
}
/// library client -> raw server
fn servers(name: &str, v6: bool, full: bool) -> Space {
    let ps = patterns(full, v6);
    Space::new(name, format!("a client connects to a raw {} server at each of {} addresses and ports; its own address 2 ways; addresses in the server's packets IPv4, IPv6 or mixed", if v6 { "IPv6" } else { "IPv4" }, ps.len()), move || {
        let at = ps[pick(ps.len())];
        simrt::set_host([Ipv4Addr::LOCALHOST, "203.0.113.255".parse().unwrap()][pick(2)], "2001:db8::55".parse().unwrap());
        let raw = Raw::new(at);
        let j = connect_to(at, None);
        let what = format!("a client of a raw server at {at}");
        let (b, me) = match raw.recv(5 * SEC) {
            Some(x) => x,
            None => match j.take() {
                Some(Err(e)) => bail!("no-connect", "{what}: connect failed with {e} before sending anything"),
                _ => bail!("no-connect", "{what}: connect sent nothing within 5 s"),
            },
        };
        check!(matches!(wire::decode(&b), Ok(Pkt::Req1 { .. })), "no-connect", "{what}: the first datagram is {:?}", wire::decode(&b));
        let mtu = [1400, 577][pick(2)];
        raw.send(me, &wire::rep1(99, mtu));
        match raw.recv_pkt(SEC) {
            Some(Ok(Pkt::Req2 { addr, mtu: m, .. })) => {
                check!(addr == at, "request2-address", "{what}: request 2 names {addr}");
                check!(m == mtu, "reply1-fields", "{what}: reply 1 had an MTU of {mtu}, request 2 has {m}");
            }
            x => bail!("no-answer", "{what}: reply 1 was answered with {x:?}"),
        }
        let other = [me, sa("1.2.3.4:5"), sa("[2001:db8::17]:19132")];
        let (a1, a2, a3) = match pick(4) {
            0 => (me, me, sa("255.255.255.255:19132")),
            1 => (me, other[1], other[2]),
            2 => (other[1], other[2], other[1]),
            _ => (other[2], other[1], other[2]),
        };
        raw.send(me, &wire::rep2(99, &a1, mtu));
        let c = RawConn::new(raw, me, mtu);
        c.pump(100 * MS);
        check!(c.messages().iter().any(|m| matches!(wire::decode_msg(m), Ok(Msg::ConnRequest { .. }))), "no-answer", "{what}: reply 2 naming {a1} was not answered with a connection request: {:?}", c.pkts());
        let n = [10, 20][pick(2)];
        // internal addresses of both families
        let mut m = wire::m_accepted(&a2, 0, &a3, 0, 0);
        m.truncate(m.len() - 16);
        for i in 0..n {
            wire::w_addr(&mut m, if i % 3 == 0 { &a3 } else { &a2 });
        }
        m.extend(0x1122334455667788i64.to_be_bytes());
        m.extend(5i64.to_be_bytes());
        c.msg(RO, &m);
        c.pump(300 * MS);
        let inc = c.messages().iter().find_map(|m| match wire::decode_msg(m) {
            Ok(Msg::NewIncoming { server, .. }) => Some(server),
            _ => None,
        });
        match inc {
            // the request's time is not looked at: the library does not read it, for lack of a
            // reliable number of internal addresses before it
            Some(a) => check!(a == at, "incoming-address", "{what}: the new-incoming-connection names {a} as the server"),
            None => bail!("no-answer", "{what}: an acceptance with {n} internal addresses {a2}/{a3} was not answered with a new-incoming-connection that decodes"),
        }
        let s = match j.wait(2 * SEC) {
            Some(Ok(s)) => s,
            Some(Err(e)) => bail!("no-connect", "{what}: connect failed with {e}"),
            None => bail!("no-connect", "{what}: connect did not return"),
        };
        check!(s.peer_addr().ok() == Some(at), "peer-addr", "{what}: peer_addr is {:?}", s.peer_addr());
        check!(s.local_addr().ok().map(|a| (a.port(), a.is_ipv4())) == Some((me.port(), me.is_ipv4())), "local-addr", "{what}: local_addr is {:?}, its datagrams come from {me}", s.local_addr());
        exchange(&c, &s, &what)?;
        no_panic("addresses")?;
        ok(format!("{} {n}", fam(&at)))
    })
}
/// the library on both ends
fn both(name: &str, kinds: &'static [Kind], total: u32) -> Space {
    const AT: [(&str, &str); 7] = [
        ("127.0.0.1:19132", "127.0.0.1:19132"),
        ("[::1]:19132", "[::1]:19132"),
        ("0.0.0.0:19132", "127.0.0.1:19132"),
        ("[::]:19132", "[::1]:19132"),
        ("10.1.2.3:1", "10.1.2.3:1"),
        ("[2001:db8::7]:65535", "[2001:db8::7]:65535"),
        ("[fe80::1:2:3:4]:443", "[fe80::1:2:3:4]:443"),
    ];
    Space::new(name, format!("listener, client and ping over {AT:?} (bound, connected to); traffic of all kinds; at most {total} deviations of {kinds:?}"), move || {
        let (b, t) = AT[pick(AT.len())];
        let (b, t) = (sa(b), sa(t));
        let m = kinds.iter().fold(0, |a, k| a | k.bit()) | Kind::App.bit();
        let what = format!("listener at {b}, reached at {t}");
        let mut l = listen_at(b)?;
        let p = go("ping", async move { RaknetSocket::ping(&t).await.map_err(|e| format!("{e:?}")) });
        match p.wait(30 * SEC) {
            Some(Ok(_)) => {}
            x => bail!("ping", "{what}: ping gave {x:?}"),
        }
        simrt::explore(m);
        let j = connect_to(t, None);
        simrt::run_for(400 * MS);
        simrt::explore(0);
        let c = match j.wait(60 * SEC) {
            Some(Ok(c)) => c,
            Some(Err(e)) => bail!("no-connect", "{what}: connect failed with {e}"),
            None => bail!("no-connect", "{what}: connect did not return"),
        };
        let s = match accept(&mut l, SEC) {
            Ok(Ok(s)) => s,
            x => bail!("no-accept", "{what}: accept: {:?}", x.map(|r| r.map(|_| ()))),
        };
        check!(c.peer_addr().ok() == Some(t), "peer-addr", "{what}: the client's peer_addr is {:?}", c.peer_addr());
        check!(s.peer_addr().ok().map(|a| a.port()) == c.local_addr().ok().map(|a| a.port()) && s.peer_addr().is_ok(), "peer-addr", "{what}: the server's peer_addr is {:?}, the client's local_addr {:?}", s.peer_addr(), c.local_addr());
        // what the handshake named
        let caddr = s.peer_addr().unwrap();
        for x in tap().iter().filter(|x| x.lib) {
            match wire::decode(&x.data) {
                Ok(Pkt::Req2 { addr, .. }) => check!(addr == t, "request2-address", "{what}: request 2 names {addr}"),
                Ok(Pkt::Rep2 { addr, .. }) => check!(addr == caddr, "reply2-address", "{what}: reply 2 to {caddr} names {addr}"),
                Ok(Pkt::Frames { frames, .. }) => {
                    for f in frames {
                        match wire::decode_msg(&f.data) {
                            Ok(Msg::Accepted { client, .. }) => check!(client == caddr, "accepted-address", "{what}: the acceptance to {caddr} names {client}"),
                            Ok(Msg::NewIncoming { server, .. }) => check!(server == t, "incoming-address", "{what}: the new-incoming-connection names {server} as the server"),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
        let (cl, _a) = reader(&c);
        let (sl, _b) = reader(&s);
        for (k, (r, n)) in [(RO, 9), (R, 10), (RO, 5000), (U, 11), (US, 12), (RS, 13)].into_iter().enumerate() {
            must_send(&c, &payload(k as u32, n), r)?;
            must_send(&s, &payload(k as u32 + 100, n), r)?;
            simrt::run_for(200 * MS);
        }
        simrt::run_for(3 * SEC);
        check!(sl.len() == 6 && cl.len() == 6, "data", "{what}: of 6 messages each way {} and {} arrived", sl.len(), cl.len());
        no_panic("addresses")?;
        let n = c19::judge(&[], m & Kind::Sched.bit() == 0, true, &what)?;
        Ok(Outcome { note: what, inner: n })
    })
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = FATES_3())
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        both("library", &[Kind::Fate], if q { 2 } else { 3 }),
        clients("raw-client/v4", false, !q),
        clients("raw-client/v6", true, !q),
        servers("raw-server/v4", false, !q),
        servers("raw-server/v6", true, !q),
    ]
}
