//! C13: every unconnected ping is answered with the current MOTD.

use super::*;
use crate::traffic::{self, *};
use std::cell::RefCell;
use std::net::SocketAddr;

const TIMES: &[i64] = &[0, 1, -1, 0x0102030405060708, i64::MAX, i64::MIN, 0x8000_0000, 1700000000000];

fn full(l: &mut RaknetListener, m: &str) -> Rz<()> {
    match l.set_full_motd(m.to_string()) {
        Ok(()) => Ok(()),
        Err(e) => found("ping-set-motd", format!("set_full_motd failed: {e:?}")),
    }
}
/// set_motd with these values; what the MOTD has to be then is what get_motd says, and has these values in it
fn set(l: &mut RaknetListener, name: &str, port: u16) -> Rz<String> {
    match block(SEC, l.set_motd(name, 777, "589", "1.20.0", "Creative", port)) {
        Ok(()) => {}
        Err(e) => bail!("ping-set-motd", "set_motd {}", e.text()),
    }
    let m = motd(l)?;
    for f in [name, "777", "589", "1.20.0", "Creative", &port.to_string()] {
        check!(m.split(';').any(|x| x == f), "ping-motd-fields", "set_motd({name}, ...) gives {m:?}, without {f:?}");
    }
    Ok(m)
}
fn motd(l: &RaknetListener) -> Rz<String> {
    block(SEC, l.get_motd()).map_err(|e| Found { sig: "ping-get-motd".into(), msg: e.text() })
}
fn text(n: usize, k: u32) -> String {
    (0..n).map(|i| (b'a' + ((i as u32 * 7 + k) % 26) as u8) as char).collect()
}

/// send one ping, expect exactly one pong
fn ask(r: &Raw, to: SocketAddr, kind: u8, time: i64, want: &str, guid: &mut Option<u64>, what: &str) -> Rz<()> {
    r.drain();
    r.send(to, &wire::ping(kind, time, 4242));
    simrt::run_for(60 * MS);
    let got: Vec<_> = r.drain().into_iter().map(|x| wire::decode(&x.0)).filter(|p| !matches!(p, Ok(Pkt::Frames { .. }) | Ok(Pkt::Ack(_)) | Ok(Pkt::Nack(_)))).collect();
    check!(got.len() == 1, "ping-answers", "{what}: a ping of kind {kind} was answered by {} datagrams: {got:?}", got.len());
    match &got[0] {
        Ok(Pkt::Pong { time: t, guid: g, motd }) => {
            check!(*t == time, "ping-echo", "{what}: a ping with time {time} was answered with time {t}");
            check!(motd == want.as_bytes(), "ping-motd", "{what}: the pong carries {:?}, the MOTD is {want:?}", String::from_utf8_lossy(motd));
            check!(*guid.get_or_insert(*g) == *g, "ping-guid", "{what}: the pong names {g}, earlier {guid:?}");
        }
        p => bail!("ping-answers", "{what}: a ping was answered with {p:?}"),
    }
    Ok(())
}

/// the MOTD over time
fn motds(name: &str, n: usize) -> Space {
    Space::new(name, format!("every sequence of {n} steps out of: set_motd, set_full_motd (ASCII, Unicode, empty, 2000 bytes), listen; pinged after each by a stranger, both kinds of ping; nothing answered before listen"), move || {
        let mut l = match block(SEC, bind(&server_addr())) {
            Ok(Ok(l)) => l,
            _ => bail!("setup: bind", "bind failed"),
        };
        let r = Raw::new(sa("127.0.0.1:50001"));
        let mut listening = false;
        let mut cur: Option<String> = None;
        let mut guid = None;
        let mut h = vec![];
        for i in 0..n as u32 {
            match pick(6) {
                0 => {
                    cur = Some(set(&mut l, &format!("Name {i}"), 1000 + i as u16)?);
                    h.push("set_motd");
                }
                1 => {
                    let m = format!("MCPE;{};{i}", text(20, i));
                    full(&mut l, &m)?;
                    cur = Some(m);
                    h.push("full");
                }
                2 => {
                    let m = format!("MCPE;Сервер §a{i} 日本語 🎮;");
                    full(&mut l, &m)?;
                    cur = Some(m);
                    h.push("unicode");
                }
                3 => {
                    if !listening {
                        // an empty MOTD is replaced by a default when listening begins
                        continue;
                    }
                    full(&mut l, "")?;
                    cur = Some(String::new());
                    h.push("empty");
                }
                4 => {
                    let m = text(2000, i);
                    full(&mut l, &m)?;
                    cur = Some(m);
                    h.push("long");
                }
                _ => {
                    match block(SEC, l.listen()) {
                        Ok(()) => {}
                        Err(e) => bail!("setup: listen", "listen {}", e.text()),
                    }
                    listening = true;
                    h.push("listen");
                }
            }
            let m = motd(&l)?;
            if let Some(c) = &cur {
                check!(*c == m, "ping-get-motd", "{h:?}: get_motd says {m:?}, not {c:?}");
            }
            if listening {
                for kind in [1, 2] {
                    ask(&r, server_addr(), kind, 100 + i as i64, &m, &mut guid, &format!("{h:?}"))?;
                }
            }
        }
        no_panic("ping")?;
        ok(h.join(" "))
    })
}

/// times and lengths
fn values(name: &str) -> Space {
    Space::new(name, format!("both kinds of ping x times {TIMES:?} x MOTD lengths 0..5000; the identifier is the one in reply 1 and in reply 2"), move || {
        let mut l = listen_at(server_addr())?;
        let r = Raw::new(sa("127.0.0.1:50001"));
        let m = text([0, 1, 2, 127, 128, 255, 256, 988, 989, 1000, 1023, 1024, 1025, 1400, 1460, 2047, 2048, 5000][pick(18)], 3);
        full(&mut l, &m)?;
        let mut guid = None;
        let kind = 1 + pick(2) as u8;
        let t = TIMES[pick(TIMES.len())];
        ask(&r, server_addr(), kind, t, &m, &mut guid, "ping")?;
        let mut others = vec![];
        for p in [wire::req1(10, 1371), wire::req2(&server_addr(), 1400, 5)] {
            r.send(server_addr(), &p);
            others.push(r.recv_pkt(SEC));
        }
        match (&others[0], &others[1]) {
            (Some(Ok(Pkt::Rep1 { guid: a, .. })), Some(Ok(Pkt::Rep2 { guid: b, .. }))) => {
                check!(Some(*a) == guid && Some(*b) == guid, "ping-guid", "pong names {guid:?}, reply 1 {a}, reply 2 {b}");
            }
            x => bail!("setup: raw handshake", "{x:?}"),
        }
        ask(&r, server_addr(), kind, t.wrapping_add(1), &m, &mut guid, "ping of a connected address")?;
        ok(format!("{kind} {t} {}", m.len()))
    })
}

/// what the listener is busy with
fn busy(name: &str) -> Space {
    Space::new(name, "pings from strangers and from connected addresses while clients connect that nobody accepts (0-30), while connections are not read (0-200 messages), while clients vanish or leave", move || {
        let mut l = listen_at(server_addr())?;
        let m = motd(&l)?;
        let what = pick(4);
        let n = pick(6);
        let stranger = Raw::new(sa("127.0.0.1:49999"));
        let mut guid = None;
        ask(&stranger, server_addr(), 1, 5, &m, &mut guid, "idle")?;
        let mut held = vec![];
        let mut socks = vec![];
        match what {
            0 => {
                // nobody accepts
                for i in 0..[1, 9, 10, 11, 12, 30][n] {
                    let raw = Raw::new(sa(&format!("127.0.0.1:{}", 50001 + i)));
                    raw.send(server_addr(), &wire::req1(10, 1371));
                    raw.send(server_addr(), &wire::req2(&server_addr(), 1400, i));
                    simrt::run_for(15 * MS);
                    held.push(raw);
                }
            }
            1 | 2 => {
                let c = raw_client(sa("127.0.0.1:50001"), server_addr(), 1400)?;
                match accept(&mut l, SEC) {
                    Ok(Ok(s)) => socks.push(s),
                    _ => bail!("setup: accept", "not accepted"),
                }
                for i in 0..[1, 99, 100, 101, 113, 200][n] {
                    c.msg(if what == 1 { RO } else { U }, &payload(i, 10));
                    if i % 8 == 7 {
                        c.pump(20 * MS);
                    }
                }
                c.pump(100 * MS);
                held.push(c.raw);
            }
            _ => {
                for i in 0..n as u16 {
                    let c = raw_client(sa(&format!("127.0.0.1:{}", 50001 + i)), server_addr(), 1400)?;
                    match accept(&mut l, SEC) {
                        Ok(Ok(s)) => {
                            if i % 3 != 0 {
                                socks.push(s)
                            }
                        }
                        _ => bail!("setup: accept", "not accepted"),
                    }
                    if i % 2 == 0 {
                        c.bytes(&[0x15]);
                    }
                    held.push(c.raw);
                }
            }
        }
        for k in [1, 2] {
            ask(&stranger, server_addr(), k, 77, &m, &mut guid, "a stranger's ping, listener busy")?;
            if let Some(r) = held.last() {
                ask(r, server_addr(), k, 78, &m, &mut guid, "a connected address's ping, listener busy")?;
            }
        }
        simrt::run_for(700 * MS);
        ask(&stranger, server_addr(), 1, 79, &m, &mut guid, "later")?;
        ok(format!("{what} {n}"))
    })
}

/// RaknetSocket::ping
fn client(name: &str, kinds: &'static [Kind], lat: &'static [u64], total: u32, len: &'static [usize]) -> Space {
    Space::new(name, format!("RaknetSocket::ping over one-way delays {lat:?} ms, MOTD lengths {len:?}, up to {total} datagrams lost, delayed (up to 6 s) or duplicated"), move || {
        let mut l = listen_at(server_addr())?;
        let m = match pick(len.len() + 1) {
            0 => motd(&l)?,
            i => text(len[i - 1], 1),
        };
        full(&mut l, &m)?;
        let lat = lat[pick(lat.len())];
        simrt::set_latency(lat * MS);
        simrt::run_for([0, 1][pick(2)] * 500_000);
        let t0 = simrt::now();
        let a = server_addr();
        if kinds.contains(&Kind::Env) {
            // ping reports a datagram its own side cannot send; the server's trouble is not its business
            simrt::set_fate_filter(Some(std::sync::Arc::new(move |s, _d, _b| *s == server_addr())));
        }
        simrt::explore(kinds.iter().fold(Kind::App.bit(), |m, k| m | k.bit()));
        let j = go("ping", async move { RaknetSocket::ping(&a).await.map_err(|e| format!("{e:?}")) });
        let limit = (total as u64 + 1) * 7 * SEC + 2 * lat * MS + SEC;
        simrt::run_until(t0 + limit, || j.done() || j.dead());
        simrt::explore(0);
        let (ms, got) = match must(&j, MS, "ping-call")? {
            Ok(x) => x,
            Err(e) => bail!("ping-call", "ping failed with {e}"),
        };
        let end = simrt::now();
        check!(got == m, "ping-motd", "ping returned {got:?}, the MOTD is {m:?}");
        // the round trips there were: ping sent - pong delivered, told by the time echoed in both
        let del = simrt::deliveries_from(0);
        let mut rtts = vec![];
        for t in tap().iter().filter(|t| t.dst == a) {
            let Ok(Pkt::Ping { time, .. }) = wire::decode(&t.data) else { continue };
            for d in del.iter().filter(|d| d.src == a && d.t >= t.t && d.t <= end) {
                if matches!(wire::decode(&d.data), Ok(Pkt::Pong { time: t2, .. }) if t2 == time) {
                    rtts.push((d.t - t.t) as f64 / 1e6);
                }
            }
        }
        check!(rtts.iter().any(|r| (r - ms as f64).abs() <= 1.5), "ping-rtt", "ping returned {ms} ms; the round trips were {rtts:?} ms");
        ok(format!("{lat} {ms} {} ms", (end - t0) / MS))
    })
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = vec![Fate::Deliver, Fate::Drop, Fate::Delay(65 * MS), Fate::Delay(2100 * MS), Fate::Delay(6 * SEC), Fate::Dup(20 * MS)])
}
/// many at once
fn many(name: &str, kinds: &'static [Kind], total: u32) -> Space {
    let mask = kinds.iter().fold(0, |a, k| a | k.bit());
    Space::new(name, format!("three ping calls and two connects at once, the MOTD changed in between, up to {total} deviations of {kinds:?}"), move || {
        let mut l = listen_at(server_addr())?;
        full(&mut l, "before")?;
        simrt::explore(mask | Kind::App.bit());
        let a = server_addr();
        let gap = [0, 4, 6][pick(3)];
        let mut js = vec![];
        for i in 0..3 {
            js.push(go("ping", async move {
                simrt::sleep(i * 3 * MS).await;
                RaknetSocket::ping(&a).await.map_err(|e| format!("{e:?}"))
            }));
        }
        let cs: Vec<_> = (0..2).map(|_| connect_to(a, None)).collect();
        simrt::run_for(gap * MS);
        let set_at = simrt::now();
        full(&mut l, "after")?;
        let d = simrt::now() + 5 * SEC;
        simrt::run_until(d, || js.iter().all(|j| j.done() || j.dead()) && cs.iter().all(|j| j.done() || j.dead()));
        simrt::explore(0);
        let mut o = vec![];
        for j in &js {
            match must(j, MS, "ping-call")? {
                Ok((_, m)) => {
                    check!(m == "after" || m == "before", "ping-motd", "ping returned {m:?}");
                    o.push(m);
                }
                Err(e) => bail!("ping-call", "ping failed with {e}"),
            }
        }
        for t in tap().iter().filter(|t| t.src == a) {
            if let Ok(Pkt::Pong { motd, .. }) = wire::decode(&t.data) {
                check!(t.t <= set_at || motd == b"after", "ping-motd", "a pong sent {} us after the MOTD was changed carries the old one", (t.t - set_at) / 1000);
            }
        }
        for c in &cs {
            check!(matches!(c.take(), Some(Ok(_))), "ping-connect", "a connect failed");
        }
        no_panic("ping")?;
        ok(o.join(" "))
    })
    .kinds(kinds)
    .total(total)
}

/// what is no ping gets no pong
fn not_a_ping(name: &str) -> Space {
    Space::new(name, "a ping of both kinds cut short at every length before its magic ends, or with any byte of its magic wrong, once or three times, between pings from the same or another address; it is not answered, they are", move || {
        let mut l = listen_at(server_addr())?;
        full(&mut l, "MCPE;x;1;1;0;10;1;y;Survival;1;19132;")?;
        let kind = [1u8, 2][pick(2)];
        let times = [1, 3][pick(2)];
        let own = pick(2) == 0;
        let how = pick(25 + 3 * 16);
        let r = Raw::new(sa("127.0.0.1:50001"));
        let other = Raw::new(sa("127.0.0.1:50002"));
        let mut guid = None;
        ask(&r, server_addr(), 1, 5, "MCPE;x;1;1;0;10;1;y;Survival;1;19132;", &mut guid, "before")?;
        let mut d = wire::ping(kind, 77, 4242);
        if how < 25 {
            d.truncate(how);
        } else {
            d[9 + (how - 25) % 16] ^= [1, 0x80, 0xff][(how - 25) / 16];
        }
        let from = if own { &r } else { &other };
        for _ in 0..times {
            from.send(server_addr(), &d);
        }
        simrt::run_for(60 * MS);
        let got: Vec<_> = from.drain().into_iter().map(|x| wire::decode(&x.0)).collect();
        check!(got.is_empty(), "ping-malformed", "{d:02x?} is no ping and was answered by {got:?}");
        for k in [1, 2] {
            ask(&r, server_addr(), k, 6, "MCPE;x;1;1;0;10;1;y;Survival;1;19132;", &mut guid, "afterwards")?;
        }
        no_panic("ping")?;
        ok(format!("{kind} {times} {own} {how}"))
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let v = vec![
        motds("motd/histories", if q { 4 } else { 6 }),
        values("raw/values"),
        not_a_ping("raw/not-a-ping"),
        busy("raw/busy"),
        client("client/delays", &[Kind::Fate], &[0, 1, 5, 20, 50, 300, 1000, 2400], 0, &[0, 1, 900, 1000, 1100, 1400, 1460]),
        client("client/faults", &[Kind::Fate], &[5, 100], if q { 3 } else { 4 }, &[]),
        client("client/send-errors", &[Kind::Env], &[5, 100], if q { 3 } else { 4 }, &[]),
        many("many", &[Kind::Sched, Kind::Yield, Kind::Sync], if q { 1 } else { 2 }),
    ];
    let v = with_pauses(v, &["raw/values", "many"], 1, &[60, 400]);
    let v = with_batch(v, &["raw/busy", "many"]);
    let v = with_std(v, &["motd/histories", "raw/values"]);
    with_uptime(v, &["client/delays", "raw/values"], &[1, 60, 800])
}
