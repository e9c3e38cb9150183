//! C07: unacknowledged reliable data is retransmitted until acknowledged, then not.

use super::*;
use crate::traffic::{self, *};
use std::collections::BTreeMap;
use std::net::SocketAddr;

const TICK: u64 = 50 * MS;

/// Judge all transmissions of reliable frames from `lib` to `peer`.
pub fn judge(tap: &[Tap], del: &[simrt::Delivery], lib: SocketAddr, peer: SocketAddr, sig: &str) -> Rz<String> {
    let tx = data_tx(tap, lib, peer);
    // fresh and larger numbers
    for w in tx.windows(2) {
        check!(w[1].1 > w[0].1, format!("{sig}-number-reused"), "data datagram {} was sent after {}", w[1].1, w[0].1);
    }
    let acks = acks_rx(del, peer, lib);
    let nacks = nacks_rx(del, peer, lib);
    let end = simrt::now();
    let mut by: BTreeMap<u32, Vec<(u64, u32)>> = BTreeMap::new();
    for (t, n, fs) in &tx {
        for f in fs {
            if f.rel.reliable() {
                by.entry(f.ridx).or_default().push((*t, *n));
            }
        }
    }
    let acked_at = |xs: &[(u64, u32)]| acks.iter().find(|(ta, r)| xs.iter().any(|(t, n)| t <= ta && covers(r, *n))).map(|x| x.0);
    // how long a round trip can look: retransmission timeouts are derived from it
    let mut max_rtt = 50 * MS;
    for xs in by.values() {
        if let Some(ta) = acked_at(xs) {
            max_rtt = max_rtt.max(ta - xs[0].0);
        }
    }
    let base = (max_rtt * 3 / 2).min(12 * SEC);
    let mut note = String::new();
    for (ridx, xs) in &by {
        let acked = acked_at(xs);
        if let Some(ta) = acked {
            if let Some(late) = xs.iter().find(|x| x.0 > ta) {
                bail!(format!("{sig}-after-ack"), "reliable frame {ridx} was sent as datagram {} at {:.1} ms although an ACK of an earlier transmission arrived at {:.1} ms", late.1, late.0 as f64 / 1e6, ta as f64 / 1e6);
            }
        }
        let stop = acked.unwrap_or(end);
        for (k, x) in xs.iter().enumerate() {
            let next = xs.get(k + 1).map(|n| n.0);
            // reported missing (explicitly, or by an ACK that jumps over it) since?
            let hinted = |until: u64| {
                nacks.iter().any(|(t, r)| *t >= x.0 && *t <= until && covers(r, x.1)) || acks.iter().any(|(t, r)| *t >= x.0 && *t <= until && r.iter().any(|(_, b)| *b > x.1))
            };
            if let Some(n) = next {
                check!(n >= x.0 + 50 * MS || hinted(n), format!("{sig}-too-early"), "reliable frame {ridx} was resent {:.1} ms after its previous transmission, without any NACK or ACK in between", (n - x.0) as f64 / 1e6);
            }
            // upper bound: at least a retransmission each time the timeout has passed
            let mut rto = base as f64;
            for _ in 0..k {
                rto *= 1.5;
            }
            let due = x.0 + rto as u64 + TICK + 6 * MS;
            if due < stop {
                check!(next.is_some_and(|n| n <= due), format!("{sig}-not-resent"), "reliable frame {ridx}, transmission {} at {:.1} ms, unacknowledged: next transmission {} although due by {:.1} ms", k + 1, x.0 as f64 / 1e6,
                    next.map(|n| format!("at {:.1} ms", n as f64 / 1e6)).unwrap_or("never came".into()), due as f64 / 1e6);
            }
            // an explicit NACK of this, the latest, transmission: resent at the next tick
            for (t, r) in &nacks {
                if covers(r, x.1) && *t >= x.0 && next.map_or(true, |n| *t < n) && t + TICK + 6 * MS < stop {
                    check!(next.is_some_and(|n| n <= t + TICK + 6 * MS), format!("{sig}-nack-ignored"), "datagram {} was reported missing at {:.1} ms and its frame {ridx} was next sent {}", x.1, *t as f64 / 1e6,
                        next.map(|n| format!("at {:.1} ms", n as f64 / 1e6)).unwrap_or("never".into()));
                }
            }
        }
        // the timeout grows by at most 1.5 per retry; it is seen by a tick
        for w in xs.windows(3) {
            let (i, j) = (w[1].0 - w[0].0, w[2].0 - w[1].0);
            let hinted = acks.iter().chain(nacks.iter()).any(|(t, _)| *t >= w[0].0 && *t <= w[2].0);
            check!(hinted || j <= i * 3 / 2 + TICK + 10 * MS, format!("{sig}-backoff"), "reliable frame {ridx} was resent after {:.1} ms and then after {:.1} ms", i as f64 / 1e6, j as f64 / 1e6);
        }
        note.push_str(&format!("{}:{} ", ridx, xs.len()));
    }
    Ok(note)
}

/// A raw receiver decides what to do about each transmission.
fn raw_receiver(name: &str, depth: usize, menu: &'static [u8], script: &'static [(Rel, usize, u64)]) -> Space {
    Space::new(
        name,
        format!("raw receiver on either side, {script:?} (reliability, size, pause ms); each of the first {depth} data datagrams is answered with one of {:?}", menu.iter().map(|m| *m as char).collect::<String>()),
        move || {
            let side = pick(2);
            let (c, sock, _l) = either_side(side)?;
            c.auto_ack.set(false);
            let start = c.got.borrow().len();
            let mut done = start;
            let mut decided = 0;
            let mut nums: Vec<u32> = vec![];
            let mut late: Vec<(u64, Vec<u8>)> = vec![];
            let step = |done: &mut usize, decided: &mut usize, nums: &mut Vec<u32>, late: &mut Vec<(u64, Vec<u8>)>| {
                loop {
                    let next = c.got.borrow().get(*done).map(|x| x.1.clone());
                    let Some(b) = next else { break };
                    *done += 1;
                    let Some((num, _)) = frames_of(&b) else { continue };
                    nums.push(num);
                    let a = if *decided < depth { menu[pick(menu.len())] } else { b'a' };
                    *decided += 1;
                    let first = nums[0];
                    match a {
                        // acknowledge now
                        b'a' => c.bytes(&wire::ack(&[(num, num)])),
                        // acknowledge late
                        b'l' => late.push((simrt::now() + 40 * MS, wire::ack(&[(num, num)]))),
                        b'L' => late.push((simrt::now() + 300 * MS, wire::ack(&[(num, num)]))),
                        // acknowledge the first transmission of all
                        b'f' => c.bytes(&wire::ack(&[(first, first)])),
                        // acknowledge everything so far as a range
                        b'r' => c.bytes(&wire::ack(&[(first, num)])),
                        // report missing
                        b'n' => c.bytes(&wire::nack(&[(num, num)])),
                        b'N' => c.bytes(&wire::nack(&[(first, num)])),
                        // NACK and later ACK
                        b'm' => {
                            c.bytes(&wire::nack(&[(num, num)]));
                            late.push((simrt::now() + 20 * MS, wire::ack(&[(num, num)])));
                        }
                        // something else
                        b'x' => c.bytes(&wire::ack(&[(num + 7, num + 7)])),
                        b'o' => c.bytes(&wire::ack(&[(0, 0)])),
                        _ => {}
                    }
                }
                let now = simrt::now();
                late.retain(|(t, b)| {
                    if *t <= now {
                        c.bytes(b);
                        false
                    } else {
                        true
                    }
                });
            };
            for (i, (r, l, p)) in script.iter().enumerate() {
                must_send(&sock, &payload(i as u32, *l), *r)?;
                let d = simrt::now() + p * MS;
                while simrt::now() < d {
                    c.pump((d - simrt::now()).min(5 * MS));
                    step(&mut done, &mut decided, &mut nums, &mut late);
                }
            }
            let d = simrt::now() + 6 * SEC;
            while simrt::now() < d {
                c.pump(5 * MS);
                step(&mut done, &mut decided, &mut nums, &mut late);
            }
            let n = judge(&tap(), &simrt::deliveries_from(0), c.peer, c.raw.addr, "retransmit")?;
            // nothing may be left over
            let tx = data_tx(&tap(), c.peer, c.raw.addr);
            check!(tx.last().is_none_or(|x| x.0 + 2 * SEC < simrt::now()), "retransmit-after-ack", "still sending data at {:.1} ms although every datagram since was acknowledged", tx.last().unwrap().0 as f64 / 1e6);
            ok(n)
        },
    )
}

/// Silence for a long time, then acknowledgements: persistence and backoff.
fn silence(name: &str, secs: &'static [u64]) -> Space {
    Space::new(name, format!("no acknowledgement at all for {secs:?} s, then every transmission is acknowledged (once in full, once only the oldest)"), move || {
        let side = pick(2);
        let s = secs[pick(secs.len())];
        let mode = pick(2);
        let (c, sock, _l) = either_side(side)?;
        c.auto_ack.set(false);
        let start = c.got.borrow().len();
        must_send(&sock, &payload(1, 20), RO)?;
        must_send(&sock, &payload(2, 3000), RO)?;
        let d = simrt::now() + s * SEC;
        while simrt::now() < d {
            c.pump(SEC);
            // keep the connection alive without acknowledging anything
            c.bytes(&c.datagram(&[c.frame(U, &wire::m_pong(1, 2))]));
        }
        let nums: Vec<u32> = c.got.borrow()[start..].iter().filter_map(|x| frames_of(&x.1).map(|f| f.0)).collect();
        check!(!nums.is_empty(), "retransmit-not-resent", "nothing was sent");
        if mode == 0 {
            c.bytes(&wire::ack(&[(nums[0], *nums.last().unwrap())]));
        } else {
            c.bytes(&wire::ack(&[(nums[0], nums[0])]));
        }
        c.auto_ack.set(true);
        c.pump(40 * SEC);
        let n = judge(&tap(), &simrt::deliveries_from(0), c.peer, c.raw.addr, "retransmit")?;
        ok(n)
    })
}

/// A slow but regular peer first, so that the timeout is long; then silence.
fn slow_then_silent(name: &str, rtts: &'static [u64]) -> Space {
    Space::new(name, format!("round trips of one of {rtts:?} ms until the timeout has adapted to them; then a message is never acknowledged, or only its second transmission"), move || {
        let side = pick(2);
        let rtt = rtts[pick(rtts.len())] * MS;
        let n = 5 + 20 * pick(2) as u32;
        let ack_later = pick(2) == 1;
        let (c, sock, _l) = either_side(side)?;
        c.auto_ack.set(false);
        let mut seen = c.got.borrow().len();
        for i in 0..n {
            must_send(&sock, &payload(i, 10), [RO, R, RS][i as usize % 3])?;
            c.pump(rtt);
            let nums: Vec<u32> = c.got.borrow()[seen..].iter().filter_map(|x| frames_of(&x.1).map(|f| f.0)).collect();
            check!(!nums.is_empty(), "retransmit-not-resent", "message {i} was not sent within {} ms", rtt / MS);
            c.bytes(&wire::ack(&[(nums[0], *nums.last().unwrap())]));
            seen = c.got.borrow().len();
            c.pump(60 * MS);
        }
        let seen = c.got.borrow().len();
        must_send(&sock, &payload(1000, 20), RO)?;
        for _ in 0..12 {
            c.pump(2 * SEC);
            c.bytes(&c.datagram(&[c.frame(U, &wire::m_pong(1, 2))]));
            let nums: Vec<u32> = c.got.borrow()[seen..].iter().filter_map(|x| frames_of(&x.1).map(|f| f.0)).collect();
            if ack_later && nums.len() >= 4 {
                c.bytes(&wire::ack(&[(nums[1], nums[1])]));
            }
        }
        ok(judge(&tap(), &simrt::deliveries_from(0), c.peer, c.raw.addr, "retransmit")?)
    })
}

/// Everything about every datagram of a large message, in one NACK or ACK.
fn records(name: &str, ns: &'static [usize]) -> Space {
    Space::new(name, format!("a message of {ns:?} fragments is sent at once; the raw receiver reports every second datagram missing, or acknowledges it, in one packet, with a record for each or with as few records as possible, before or after a timeout; then it acknowledges everything; both sides"), move || {
        let side = pick(2);
        let n = ns[pick(ns.len())];
        let neg = pick(2) == 0;
        let pairs = pick(2) == 1;
        let wait = [10, 400][pick(2)];
        let (c, sock, _l) = either_side_mtu(side, 576)?;
        c.auto_ack.set(false);
        let start = c.got.borrow().len();
        must_send(&sock, &payload(1, 500 * n), RO)?;
        c.pump(wait * MS);
        let nums: Vec<u32> = c.got.borrow()[start..].iter().filter_map(|x| frames_of(&x.1).map(|f| f.0)).collect();
        check!(nums.len() * 10 >= n * 9, "retransmit-not-resent", "{} datagrams were sent for a message of {} bytes", nums.len(), 500 * n);
        // as many records as the receiver of a datagram of 2 048 bytes can read
        let rs: Vec<(u32, u32)> = if pairs { nums.chunks(3).filter(|x| x.len() == 3).map(|x| (x[0], x[1])).take(290).collect() } else { nums.iter().step_by(2).map(|x| (*x, *x)).take(510).collect() };
        c.bytes(&if neg { wire::nack(&rs) } else { wire::ack(&rs) });
        let mut done = nums.len() + start;
        let d = simrt::now() + 3 * SEC;
        while simrt::now() < d {
            c.pump(70 * MS);
            let nums: Vec<u32> = c.got.borrow()[done..].iter().filter_map(|x| frames_of(&x.1).map(|f| f.0)).collect();
            done = c.got.borrow().len();
            if simrt::now() + 2 * SEC > d {
                for n in nums {
                    c.bytes(&wire::ack(&[(n, n)]));
                }
            }
        }
        judge(&tap(), &simrt::deliveries_from(0), c.peer, c.raw.addr, "retransmit")?;
        Ok(Outcome { note: format!("{side} {n} {neg} {pairs} {wait} {}", rs.len()), inner: n as u64 })
    })
    .cfg(|c| {
        c.steps = 2_000_000;
        c.rxq = 1 << 20;
    })
}

/// A large message loses many datagrams: all are reported and, once reported, resent.
fn losses(name: &str, ns: &'static [usize], lost: &'static [(u32, u32)]) -> Space {
    Space::new(name, format!("a message of {ns:?} fragments is sent to the other end of a connection, and of the transmissions a pattern of {lost:?} (lost, of so many) is lost the first time; both directions"), move || {
        let side = pick(2);
        let n = ns[pick(ns.len())];
        let (gone, of) = lost[pick(lost.len())];
        let p = pair()?;
        let (a, b) = if side == 0 { (&p.client, &p.server) } else { (&p.server, &p.client) };
        let (log, _j) = reader(b);
        let me = if side == 0 { p.caddr } else { p.saddr };
        let last = std::sync::Mutex::new((0, 0));
        simrt::set_fates(vec![Fate::Drop]);
        let size = n * 1300;
        simrt::set_fate_filter(Some(std::sync::Arc::new(move |src: &SocketAddr, _: &SocketAddr, d: &[u8]| {
            let mut k = last.lock().unwrap();
            if *src != me || d.len() < 1000 || k.0 >= n {
                return false;
            }
            k.0 += 1;
            k.1 += 1;
            k.1 % of < gone
        })));
        simrt::explore(simrt::exploring() | Kind::Fate.bit());
        let data = payload(7, size);
        must_send(a, &data, RO)?;
        simrt::run_for(2 * SEC);
        let t = tap();
        let del = simrt::deliveries_from(0);
        judge(&t, &del, p.caddr, p.saddr, "retransmit")?;
        judge(&t, &del, p.saddr, p.caddr, "retransmit")?;
        check!(log.msgs() == [data], "retransmit-not-resent", "a message of {n} fragments of which {gone} of {of} were lost did not arrive within 2 s");
        Ok(Outcome { note: format!("{side} {n} {gone} {of}"), inner: n as u64 })
    })
    .kinds(&[Kind::Fate])
    .cfg(|c| {
        c.steps = 2_000_000;
        c.rxq = 1 << 20;
    })
}

pub fn oracle(t: &Traffic) -> Res {
    let tap = tap();
    let del = simrt::deliveries_from(0);
    let (c, s) = (t.pair.caddr, t.pair.saddr);
    let a = judge(&tap, &del, c, s, "retransmit")?;
    let b = judge(&tap, &del, s, c, "retransmit")?;
    ok(format!("{a} / {b}"))
}
fn sp(name: &str, script: Vec<Act>, kinds: &'static [Kind], total: u32, fates: Vec<Fate>) -> Space {
    traffic_space(name, script, kinds, total, 300, fates, oracle)
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    const ONE: &[(Rel, usize, u64)] = &[(RO, 10, 100)];
    const THREE: &[(Rel, usize, u64)] = &[(RO, 10, 0), (R, 11, 30), (RS, 12, 60)];
    const FRAG: &[(Rel, usize, u64)] = &[(RO, 3000, 40), (RO, 10, 40)];
    let mut v = vec![
        raw_receiver("raw/one", if q { 4 } else { 6 }, b"alLfrnNmxos", ONE),
        raw_receiver("raw/three", if q { 4 } else { 6 }, b"asnrfmL", THREE),
        raw_receiver("raw/fragmented", if q { 4 } else { 5 }, b"asnrxNl", FRAG),
        silence("raw/silence", if q { &[1, 10, 30] } else { &[1, 3, 10, 20, 30, 45, 58] }),
        slow_then_silent("raw/slow", if q { &[100, 400, 1500] } else { &[60, 100, 200, 400, 800, 1500, 3000, 7000] }),
        sp("net/one-way-3", vec![c(RO, 10), c(RO, 11), c(R, 12)], &[Kind::Fate], if q { 3 } else { 4 }, FATES_DDD()),
        sp("net/both", vec![c(RO, 10), s(RO, 11), w(60), c(RS, 12), s(R, 13)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD()),
        sp("net/losses", vec![c(RO, 10), w(20), s(RO, 11), c(RO, 12), w(70), c(RO, 13)], &[Kind::Fate], if q { 3 } else { 5 }, FATES_DROP()),
    ];
    v.push(sp("scale/queue", (0..if q { 150 } else { 400 }).map(|i| c([RO, R, RS][i % 3], 10 + i)).collect(), &[Kind::Fate], 1, FATES_3()));
    v.push(sp("net/send-errors", vec![c(RO, 10), s(R, 11), c(RS, 12), w(60), c(RO, 13), s(RO, 14)], &[Kind::Env], if q { 3 } else { 4 }, vec![]));
    v.push(sp("net/send-errors-and-faults", vec![c(RO, 10), s(R, 11), c(RS, 12), w(60), c(RO, 13), s(RO, 14)], &[Kind::Env, Kind::Fate], 2, FATES_3()));
    v.push(records("long/records", if q { &[40, 300, 1100] } else { &[40, 200, 300, 600, 1100, 2000] }));
    v.push(losses("long/losses", if q { &[100, 1200] } else { &[100, 600, 1200, 2400] }, &[(1, 2), (2, 4), (1, 3), (9, 10)]));
    if !q {
        v.push(sp("net/fragmented", vec![c(RO, 3000), c(RO, 20), w(70), s(RO, 1340)], &[Kind::Fate], 3, FATES_3()));
    }
    let v = with_uptime(v, &["raw/silence", "raw/slow", "net/both"], &[10, 120, 2500]);
    with_counters(v, &["net/both", "net/one-way-3"])
}
