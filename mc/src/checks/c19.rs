//! C19: every emitted datagram is well-formed and within the MTU.

use super::*;
use crate::hostile;
use crate::traffic::{self, *};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::SocketAddr;

fn hex(b: &[u8]) -> String {
    b.iter().take(48).map(|x| format!("{x:02x}")).collect::<String>() + if b.len() > 48 { ".." } else { "" }
}

/// One direction of one connection, as the wire shows it.
#[derive(Default)]
struct Flow {
    nums: BTreeSet<u32>,
    last: i64,
    /// reliable index -> the frame that carries it
    frames: BTreeMap<u32, Frame>,
    sidx: BTreeSet<u32>,
    maxs: i64,
    started: bool,
    mtu: usize,
}
fn fresh(mtu: usize) -> Flow {
    Flow { last: -1, maxs: -1, mtu, ..Default::default() }
}

/// Judge everything the library has put on the wire.  `order`: numbers and indexes appear on the wire
/// in the order they were assigned (no schedule is being explored).  `whole`: nothing is still on its way.
/// Returns how many datagrams were judged.
pub(super) fn judge(mtus: &[(SocketAddr, u16)], order: bool, whole: bool, what: &str) -> Rz<u64> {
    let tap = tap();
    let mut flows: HashMap<(SocketAddr, SocketAddr), Flow> = HashMap::new();
    let mut n = 0;
    let mut done = vec![];
    for t in tap.iter().filter(|t| t.lib) {
        n += 1;
        let p = match wire::decode(&t.data) {
            Ok(p) => p,
            Err(e) => bail!("malformed-datagram", "{what}: a datagram from {} to {} does not decode: {e}: {}", t.src, t.dst, hex(&t.data)),
        };
        let key = (t.src, t.dst);
        let known = mtus.iter().find(|m| m.0 == t.dst).map(|m| m.1 as usize);
        match p {
            Pkt::Rep2 { mtu, .. } => {
                if let Some(f) = flows.insert(key, fresh(mtu as usize)) {
                    done.push((key, f));
                }
                // the other direction, if that is the library's as well
                let back = (t.dst, t.src);
                flows.entry(back).or_insert_with(|| fresh(mtu as usize)).mtu = mtu as usize;
            }
            Pkt::Req1 { .. } => {
                if flows.get(&key).is_some_and(|f| f.started) {
                    done.push((key, flows.remove(&key).unwrap()));
                }
            }
            Pkt::Frames { num, frames, .. } => {
                let f = flows.entry(key).or_insert_with(|| fresh(known.unwrap_or(65535)));
                let mtu = known.unwrap_or(f.mtu);
                f.started = true;
                let over = 28;
                check!(t.data.len() + over <= mtu, "over-mtu", "{what}: a datagram of {} bytes ({} with its headers) to {} on a connection with an MTU of {mtu}", t.data.len(), t.data.len() + over, t.dst);
                check!(f.nums.insert(num), "number-reused", "{what}: datagram number {num} from {} to {} was used twice", t.src, t.dst);
                if order {
                    check!(num as i64 > f.last, "number-order", "{what}: datagram {num} from {} to {} came after {}", t.src, t.dst, f.last);
                }
                f.last = f.last.max(num as i64);
                for x in frames {
                    check!(x.chan == 0, "channel", "{what}: a frame on order channel {}", x.chan);
                    check!(x.split.is_none() || x.rel == RO, "split-kind", "{what}: a {:?} fragment", x.rel);
                    if x.rel == US {
                        check!(f.sidx.insert(x.sidx), "sequenced-index", "{what}: sequenced index {} was used twice", x.sidx);
                        f.maxs = f.maxs.max(x.sidx as i64);
                    }
                    if !x.rel.reliable() {
                        continue;
                    }
                    match f.frames.get(&x.ridx) {
                        Some(y) => check!(*y == x, "retransmission-differs", "{what}: reliable index {} carried {y:?} and then {x:?}", x.ridx),
                        None => {
                            if order {
                                let next = f.frames.len() as u32;
                                check!(x.ridx == next, "reliable-index", "{what}: a new reliable message or fragment has index {} where {next} was due", x.ridx);
                            }
                            if x.rel == RS {
                                check!(f.sidx.insert(x.sidx), "sequenced-index", "{what}: sequenced index {} was used twice", x.sidx);
                                f.maxs = f.maxs.max(x.sidx as i64);
                            }
                            f.frames.insert(x.ridx, x);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    done.extend(flows);
    for (k, f) in &done {
        let who = format!("{what}: from {} to {}", k.0, k.1);
        if whole {
            let m = f.frames.keys().last().map_or(0, |m| m + 1);
            check!(f.frames.len() as u32 == m, "reliable-index", "{who}: reliable indexes below {m}, but only {} of them", f.frames.len());
            check!(f.sidx.len() as i64 == f.maxs + 1, "sequenced-index", "{who}: sequenced indexes {:?}", f.sidx);
        }
        // ordered indexes, in the order of the reliable indexes; whole messages
        let mut msgs: Vec<(u32, Vec<u8>, u32, u32)> = vec![]; // oidx, body, fragments seen, size
        let mut ids = BTreeSet::new();
        let mut cur: Option<(u32, u16, u32, u32)> = None; // oidx, id, size, next
        let mut prev = -1i64;
        for (r, x) in &f.frames {
            let gap = *r as i64 != prev + 1;
            prev = *r as i64;
            if gap && whole {
                break;
            }
            if gap {
                cur = None;
            }
            match (x.rel, x.split) {
                (RO, None) => {
                    check!(cur.is_none(), "fragment-run", "{who}: message at reliable index {r} stands between fragments of another");
                    msgs.push((x.oidx, x.data.clone(), 1, 1));
                }
                (RO, Some((size, id, idx))) => match cur {
                    Some((o, i, s, nx)) => {
                        check!((o, i, s, nx) == (x.oidx, id, size, idx), "fragment-run", "{who}: fragment {idx} of {size}, message {id}, order {} at reliable index {r}, where fragment {nx} of {s}, message {i}, order {o} was due", x.oidx);
                        msgs.last_mut().unwrap().1.extend(&x.data);
                        msgs.last_mut().unwrap().2 += 1;
                        cur = if idx + 1 == size { None } else { Some((o, i, s, nx + 1)) };
                    }
                    None if idx == 0 || !gap => {
                        check!(idx == 0, "fragment-run", "{who}: fragment {idx} of {size} at reliable index {r} begins a message");
                        check!(ids.insert(id), "compound-id", "{who}: message number {id} of a split message was used twice");
                        msgs.push((x.oidx, x.data.clone(), 1, size));
                        cur = if size == 1 { None } else { Some((x.oidx, id, size, 1)) };
                    }
                    None => {}
                },
                _ => check!(cur.is_none(), "fragment-run", "{who}: message at reliable index {r} stands between fragments of another"),
            }
        }
        for (i, m) in msgs.iter().enumerate() {
            if whole {
                check!(m.0 == i as u32, "ordered-index", "{who}: ordered message {i} has index {}", m.0);
            } else if i > 0 {
                check!(m.0 > msgs[i - 1].0, "ordered-index", "{who}: ordered index {} follows {}", m.0, msgs[i - 1].0);
            }
        }
        // control messages decode
        let alone = f.frames.values().filter(|x| x.rel != RO).map(|x| &x.data);
        for b in alone.chain(msgs.iter().filter(|m| m.2 == m.3).map(|m| &m.1)) {
            if let Err(e) = wire::decode_msg(b) {
                bail!("malformed-message", "{who}: a message does not decode: {e}: {}", hex(b));
            }
        }
    }
    Ok(n)
}

/// The reliable messages of one direction are on the wire in the order of the send calls, whole.
pub(super) fn in_order(t: &[Tap], src: SocketAddr, dst: SocketAddr, sent: &[(Rel, Vec<u8>)], what: &str) -> Rz<()> {
    let mut fs: BTreeMap<u32, Frame> = BTreeMap::new();
    let mut us: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut un: Vec<Vec<u8>> = vec![];
    for (_, _, frames) in data_tx(t, src, dst) {
        for f in frames {
            if f.rel.sequenced() {
                us.insert(f.sidx, f.data.clone());
            }
            if f.rel.reliable() {
                fs.entry(f.ridx).or_insert(f);
            } else if f.rel == U && is_app(&f.data) {
                un.push(f.data);
            }
        }
    }
    let mut got: Vec<(Rel, Vec<u8>)> = vec![];
    for f in fs.into_values() {
        match f.split {
            Some((_, _, i)) if i > 0 && !got.is_empty() => got.last_mut().unwrap().1.extend(f.data),
            _ => got.push((f.rel, f.data)),
        }
    }
    got.retain(|m| is_app(&m.1));
    let want: Vec<(Rel, Vec<u8>)> = sent.iter().filter(|m| m.0.reliable()).cloned().collect();
    let list = |v: &[(Rel, Vec<u8>)]| v.iter().map(|m| format!("{:?} {}", m.0, show(&m.1))).collect::<Vec<_>>().join(", ");
    check!(got == want, "send-order", "{what}: reliable messages by index: [{}]; sent: [{}]", list(&got), list(&want));
    let want: Vec<Vec<u8>> = sent.iter().filter(|m| m.0.sequenced()).map(|m| m.1.clone()).collect();
    let got: Vec<Vec<u8>> = us.into_values().collect();
    check!(got == want, "send-order", "{what}: sequenced messages by index: {}; sent: {}", shows(&got), shows(&want));
    let mut want: Vec<Vec<u8>> = sent.iter().filter(|m| m.0 == U).map(|m| m.1.clone()).collect();
    un.sort();
    want.sort();
    check!(un == want, "unreliable-messages", "{what}: unreliable messages on the wire: {}; sent: {}", shows(&un), shows(&want));
    Ok(())
}

/// a raw peer with some MTU
fn sizes(name: &str, mtus: Vec<u16>, around: &'static [(usize, isize)], rels: &'static [Rel]) -> Space {
    Space::new(
        name,
        format!("MTU out of {} values {}..={}, messages of a x (MTU-60) + b bytes for (a, b) in {around:?}, as {rels:?} between small ones, lost once or not; both sides", mtus.len(), mtus[0], mtus.last().unwrap()),
        move || {
            let side = pick(2);
            let mtu = mtus[pick(mtus.len())];
            let (c, sock, _l) = either_side_mtu(side, mtu)?;
            let (a, b) = around[pick(around.len())];
            let len = ((a * (mtu as usize - 60)) as isize + b).max(1) as usize;
            let rel = rels[pick(rels.len())];
            let lossy = pick(2) == 1;
            let mut sent = vec![];
            c.auto_ack.set(!lossy);
            for (i, (r, l)) in [(RO, 3), (rel, len), (R, 4), (rel, len), (RO, 5)].into_iter().enumerate() {
                let m = payload(i as u32 + 1, l);
                match send(&sock, &m, r) {
                    Ok(Ok(())) => sent.push((r, m)),
                    Ok(Err(_)) if r != RO && l > mtu as usize - 60 => {}
                    x => bail!("send", "send of {l} bytes as {r:?} with an MTU of {mtu}: {x:?}"),
                }
                if i == 2 {
                    c.pump(70 * MS);
                }
            }
            c.pump(200 * MS);
            c.auto_ack.set(true);
            c.pump(3 * SEC);
            let n = judge(&[(c.raw.addr, mtu)], true, true, &format!("MTU {mtu}, {len} bytes as {rel:?}"))?;
            in_order(&tap(), c.peer, c.raw.addr, &sent, &format!("MTU {mtu}, {len} bytes as {rel:?}"))?;
            Ok(Outcome { note: format!("{side} {n}"), inner: n })
        },
    )
}

/// a server whose two replies name different MTUs: the second is the one agreed on
fn replies(name: &str) -> Space {
    const M: [u16; 7] = [400, 401, 576, 1000, 1399, 1400, 1500];
    Space::new(name, format!("a raw server whose reply 1 and reply 2 name any two of the MTUs {M:?}; split and unsplit messages"), move || {
        let (m1, m2) = (M[pick(M.len())], M[pick(M.len())]);
        let raw = Raw::new(server_addr());
        let j = connect_to(server_addr(), None);
        let from = match raw.recv(SEC) {
            Some((_, a)) => a,
            None => bail!("setup: no request", "no request 1"),
        };
        raw.send(from, &wire::rep1(9, m1));
        match raw.recv_pkt(SEC) {
            Some(Ok(Pkt::Req2 { mtu, .. })) => check!(mtu <= m1.min(1500), "over-mtu", "reply 1 named an MTU of {m1}, request 2 asks for {mtu}"),
            x => bail!("setup: no request", "no request 2: {x:?}"),
        }
        raw.send(from, &wire::rep2(9, &from, m2));
        let c = RawConn::new(raw, from, m1.min(m2));
        c.pump(100 * MS);
        c.msg(RO, &wire::m_accepted(&from, 10, &sa("255.255.255.255:19132"), 5, 6));
        c.pump(SEC);
        let what = format!("reply 1 with an MTU of {m1}, reply 2 with {m2}");
        if let Some(Ok(sock)) = j.take() {
            for (i, (r, l)) in [(RO, 5000), (RO, m1 as usize - 60), (R, m1.min(m2) as usize - 60), (R, m1 as usize - 60), (RO, 5)].into_iter().enumerate() {
                let _ = send(&sock, &payload(i as u32, l), r);
            }
            c.pump(3 * SEC);
        } else {
            bail!("setup: connect", "{what}: not connected");
        }
        let n = judge(&[(c.raw.addr, m1.min(m2))], true, true, &what)?;
        Ok(Outcome { note: format!("{n}"), inner: n })
    })
}

/// what the offline packets are answered with
fn answers(name: &str, depth: usize) -> Space {
    let items = hostile::offline();
    Space::new(name, format!("every sequence of {depth} offline packets of {} kinds to a listener, before or after it listens, and to a client that connects; all answers decode, with the identifier of the listener", items.len()), move || {
        let names: Vec<&str> = items.iter().map(|x| x.0).collect();
        let mut seq = vec![];
        let side = pick(2);
        if side == 1 {
            let raw = Raw::new(server_addr());
            let _j = connect_to(server_addr(), None);
            let from = match raw.recv(SEC) {
                Some((_, a)) => a,
                None => bail!("setup: no request", "no request 1"),
            };
            for _ in 0..depth {
                let k = pick(items.len());
                seq.push(names[k]);
                raw.send(from, &items[k].1);
                simrt::run_for(30 * MS);
            }
            simrt::run_for(5 * SEC);
        } else {
            let mut l = listen_at(server_addr())?;
            let _ = block(SEC, l.set_motd("x", 1, "1", "1", "Survival", 1));
            let raw = Raw::new(sa("127.0.0.1:50001"));
            for _ in 0..depth {
                let k = pick(items.len());
                seq.push(names[k]);
                raw.send(server_addr(), &items[k].1);
                simrt::run_for(30 * MS);
            }
            simrt::run_for(200 * MS);
            let mut guids = BTreeSet::new();
            for t in tap().iter().filter(|t| t.lib) {
                match wire::decode(&t.data) {
                    Ok(Pkt::Pong { guid, .. } | Pkt::Rep1 { guid, .. } | Pkt::Rep2 { guid, .. } | Pkt::Already { guid } | Pkt::Incompatible { guid, .. }) => {
                        guids.insert(guid);
                    }
                    _ => {}
                }
            }
            check!(guids.len() <= 1, "identifiers", "{seq:?}: the listener used several identifiers: {guids:?}");
        }
        let n = judge(&[], true, true, &format!("{seq:?}"))?;
        Ok(Outcome { note: format!("{n}"), inner: n })
    })
}

fn oracle(order: bool) -> impl Fn(&Traffic) -> Res + Send + Sync + 'static {
    move |t: &Traffic| {
        let n = judge(&[], order, true, "traffic")?;
        for d in [Side::C, Side::S] {
            let (a, b) = t.addrs(d);
            let sent: Vec<(Rel, Vec<u8>)> = t.sent(d).iter().map(|m| (m.rel, m.data.clone())).collect();
            in_order(&tap(), a, b, &sent, "traffic")?;
        }
        Ok(Outcome { note: t.fingerprint(), inner: n })
    }
}
fn sp(name: &str, script: Vec<Act>, kinds: &'static [Kind], total: u32, fates: Vec<Fate>, order: bool) -> Space {
    traffic_space(name, script, kinds, total, 300, fates, oracle(order))
}

/// The executions another check explores, for what they put on the wire.
fn wrapped(id: &str, spaces: Vec<Space>, only: &[&str]) -> Vec<Space> {
    spaces
        .into_iter()
        .filter(|s| only.is_empty() || only.contains(&s.name.as_str()))
        .map(|mut s| {
            s.name = format!("{id}/{}", s.name);
            let run = s.run.clone();
            let what = s.name.clone();
            s.run = std::sync::Arc::new(move || {
                // whether that check's property holds is not the question here
                let r = run();
                if let Err(f) = &r {
                    if f.sig.starts_with("setup") {
                        return r;
                    }
                }
                simrt::run_for(300 * MS);
                let n = judge(&[], false, false, &what)?;
                Ok(Outcome { note: r.map(|o| o.note).unwrap_or_default(), inner: n })
            });
            s
        })
        .collect()
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    const EDGES: &[(usize, isize)] = &[(0, 1), (0, 2), (1, -1), (1, 0), (1, 1), (2, -1), (2, 0), (2, 1), (3, 0), (7, 5), (30, 0)];
    let full = |a: u16, b: u16, step: usize| (a..=b).step_by(step).collect::<Vec<u16>>();
    let mut v = vec![
        sizes("mtu/edges", vec![400, 576, 1000, 1399, 1400], EDGES, &Rel::ALL),
        sizes("mtu/all", full(400, 1400, if q { 13 } else { 1 }), &[(1, 0), (2, 1)], &[RO]),
        sizes("mtu/all-unsplit", full(400, 1400, if q { 13 } else { 1 }), &[(1, -1), (1, 0)], &[US, RS]),
        replies("mtu/replies"),
        answers("offline", if q { 2 } else { 3 }),
        sp("net/mixed", vec![c(RO, 10), c(U, 11), c(R, 12), c(US, 13), w(30), c(RS, 14), s(RO, 15), c(RO, 3000), c(RS, 16), c(US, 17)], &[Kind::Fate], 2, FATES_DDD(), true),
        sp("net/split", vec![c(RO, 5000), s(RO, 1340), w(70), c(RO, 2700), c(R, 10), s(RO, 4000)], &[Kind::Fate], if q { 1 } else { 2 }, FATES_DDD(), true),
        sp("net/both", vec![c(RO, 10), s(RO, 11), c(R, 12), s(R, 13), w(60), c(RO, 14)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD(), true),
        sp("sched/mixed", vec![c(RO, 10), c(RS, 11), s(RO, 12), c(RO, 3000), c(US, 13)], &[Kind::Sched, Kind::Yield, Kind::Fate], 2, FATES_3(), false),
    ];
    v.extend(wrapped("C12", c12::spaces(Tier::Quick), &[]));
    v.extend(wrapped("C11", c11::spaces(Tier::Quick), if q { &["faults/one-client", "faults/two-clients", "sequences", "server-dies"] as &[&str] } else { &[] }));
    if !q {
        v.push(sp("net/one-way-3", vec![c(RO, 10), c(RO, 11), c(RS, 12)], &[Kind::Fate], 4, FATES_DDD(), true));
        v.push(sp("sched/preempt", vec![c(RO, 10), c(R, 11), s(RO, 12)], &[Kind::Yield, Kind::Sync, Kind::Sched, Kind::Select], 3, vec![], false));
        for (id, s) in [("C08", c08::spaces(Tier::Quick)), ("C09", c09::spaces(Tier::Quick)), ("C13", c13::spaces(Tier::Quick)), ("C15", c15::spaces(Tier::Quick)), ("C17", c17::spaces(Tier::Quick)), ("C18", c18::spaces(Tier::Quick))] {
            v.extend(wrapped(id, s, &[]));
        }
    }
    with_counters(v, &["net/mixed", "net/split"])
}
