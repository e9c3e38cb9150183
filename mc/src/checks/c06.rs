//! C06: exactly what was received is acknowledged; gaps are reported.

use super::*;
use crate::traffic::{self, *};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;

/// Judge the ACKs and NACKs that `lib` sent to `peer`, given what arrived.  `del` and `tap` are whole logs
/// from the start of the connection.  `until`: arrivals after this are not judged for missing answers.
pub fn judge(tap: &[Tap], del: &[simrt::Delivery], peer: SocketAddr, lib: SocketAddr, until: u64, sig: &str) -> Rz<(usize, usize)> {
    let rx = data_rx(del, peer, lib);
    let acks = acks_tx(tap, lib, peer);
    let nacks = nacks_tx(tap, lib, peer);
    // every arrival answered
    for (t, n, _) in rx.iter().filter(|x| x.0 <= until) {
        let hit = acks.iter().any(|(ta, r)| *ta >= *t && *ta <= *t + 60 * MS && covers(r, *n));
        check!(hit, format!("{sig}-unacknowledged"), "data datagram {n} arrived at {:.1} ms and no ACK covering it was sent within 60 ms", *t as f64 / 1e6);
    }
    // nothing else acknowledged
    for (ta, rs) in &acks {
        for (a, b) in rs {
            check!(b - a < 100_000, format!("{sig}-false-ack"), "ACK of the range {a}-{b}");
            for n in *a..=*b {
                check!(rx.iter().any(|(t, m, _)| *m == n && t <= ta), format!("{sig}-false-ack"), "ACK of datagram {n} at {:.1} ms, which had not arrived", *ta as f64 / 1e6);
            }
        }
    }
    // gaps: skipped numbers, when
    let mut skipped: BTreeMap<u32, u64> = BTreeMap::new();
    let mut jumps: Vec<(u32, u32, u64)> = vec![];
    let mut max: i64 = -1;
    for (t, n, _) in &rx {
        if *n as i64 > max {
            if max >= 0 && *n as i64 > max + 1 {
                jumps.push((max as u32 + 1, n - 1, *t));
                if n - (max as u32) < 3000 {
                    for k in max as u32 + 1..*n {
                        skipped.insert(k, *t);
                    }
                }
            }
            max = *n as i64;
        }
    }
    let big = jumps.iter().any(|(a, b, _)| b - a >= 2999);
    for (tn, rs) in &nacks {
        for (a, b) in rs {
            let within = jumps.iter().any(|(x, y, t)| t <= tn && ((x <= a && b <= y) || (*x <= *a && !big && *b >= *y)));
            if big {
                check!(within, format!("{sig}-false-nack"), "NACK {a}-{b}, gaps were {jumps:?}");
                continue;
            }
            for n in *a..=*b {
                match skipped.get(&n) {
                    Some(t) if t <= tn => {}
                    // before the first arrival nothing is known to be skipped
                    None if rx.first().is_some_and(|f| n < f.1) => {}
                    _ => bail!(format!("{sig}-false-nack"), "datagram {n} was reported missing at {:.1} ms; numbers skipped so far: {:?}", *tn as f64 / 1e6, skipped.iter().filter(|x| x.1 <= tn).map(|x| *x.0).collect::<BTreeSet<_>>()),
                }
            }
        }
    }
    for (x, y, t) in jumps.iter().filter(|j| j.2 <= until) {
        for n in [*x, *y].into_iter().chain(if y - x < 3000 { *x..=*y } else { *x..=*x }) {
            let reported = nacks.iter().any(|(tn, r)| tn >= t && *tn <= t + 110 * MS && covers(r, n));
            let came = rx.iter().any(|(tr, m, _)| *m == n && *tr >= *t && *tr <= t + 110 * MS);
            check!(reported || came, format!("{sig}-unreported-gap"), "datagram {n} was skipped at {:.1} ms and not reported missing within 110 ms", *t as f64 / 1e6);
        }
    }
    Ok((acks.len(), nacks.len()))
}

/// contents for a datagram of the raw peer
fn content(c: &RawConn, kind: usize, tag: u32) -> Vec<Frame> {
    match kind {
        0 => vec![c.frame(RO, &payload(tag, 8))],
        1 => vec![c.frame(U, &payload(tag, 9))],
        2 => vec![c.frame(R, &payload(tag, 10))],
        // stale ordered index: content discarded
        3 => vec![Frame::new(RO, &payload(tag, 11)).r(0).o(0)],
        // sequenced, newer then stale
        4 => vec![c.frame(US, &payload(tag, 12))],
        5 => vec![Frame::new(RS, &payload(tag, 13)).r(1).s(0)],
        // several frames
        6 => vec![c.frame(RO, &payload(tag, 14)), c.frame(R, &payload(tag + 500, 15)), c.frame(RO, &payload(tag + 600, 15))],
        // a fragment that stays incomplete
        7 => vec![c.fragments(700 + tag as u16, &[b"abc", b"def"]).remove(0)],
        // a fragment that is alone in its message
        _ => vec![c.frame(RS, &payload(tag, 3)), c.frame(U, &payload(tag, 4))],
    }
}

/// every sequence of datagram numbers
fn numbers(name: &str, nums: &'static [u32], len: usize, gaps: &'static [u64]) -> Space {
    Space::new(name, format!("every sequence of {len} arrivals of datagrams numbered {nums:?} ahead of the last handshake datagram, {gaps:?} ms apart, server and client side"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (_log, _j) = reader(&sock);
        c.auto_ack.set(false);
        let base = c.num.get();
        let frames: Vec<Vec<Frame>> = nums.iter().enumerate().map(|(i, _)| content(&c, i % 2, i as u32)).collect();
        let mut seq = vec![];
        for _ in 0..len {
            let k = pick(nums.len());
            let g = gaps[pick(gaps.len())];
            c.bytes(&wire::frames(base + nums[k], &frames[k]));
            seq.push(nums[k]);
            c.pump(g * MS);
        }
        let until = simrt::now();
        c.pump(130 * MS);
        let me = c.peer;
        let x = judge(&tap(), &simrt::deliveries_from(0), c.raw.addr, me, until, "ack").map_err(|f| Found { msg: format!("{}; arrivals {seq:?} (relative)", f.msg), ..f })?;
        ok(format!("{x:?}"))
    })
}
/// every content, in order, repeated and skipping
fn contents(name: &str, len: usize) -> Space {
    Space::new(name, format!("every sequence of {len} data datagrams with 9 kinds of content (all reliabilities, discarded ones, several frames, fragments) x next number / previous datagram again / skipping one"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (_log, _j) = reader(&sock);
        c.auto_ack.set(false);
        let mut last: Option<Vec<u8>> = None;
        let mut seq = vec![];
        for i in 0..len {
            let how = pick(3);
            if how == 1 && last.is_some() {
                c.bytes(last.as_ref().unwrap());
                seq.push((how, 99));
            } else {
                let k = pick(9);
                if how == 2 {
                    c.next_num();
                }
                let d = c.datagram(&content(&c, k, i as u32));
                c.bytes(&d);
                last = Some(d);
                seq.push((how, k));
            }
            c.pump(7 * MS);
        }
        let until = simrt::now();
        c.pump(130 * MS);
        let me = c.peer;
        let x = judge(&tap(), &simrt::deliveries_from(0), c.raw.addr, me, until, "ack").map_err(|f| Found { msg: format!("{}; (how, content) {seq:?}", f.msg), ..f })?;
        ok(format!("{x:?}"))
    })
}
/// bursts at one instant
fn burst(name: &str, n: u32) -> Space {
    Space::new(name, format!("{n} datagrams at once, each of them delivered, lost, or duplicated; then again"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (_log, _j) = reader(&sock);
        c.auto_ack.set(false);
        for round in 0..2 {
            for i in 0..n {
                let d = c.datagram(&content(&c, (i as usize + round) % 3, i));
                if round == 1 && i >= 2 {
                    c.bytes(&d);
                    continue;
                }
                match pick(3) {
                    0 => c.bytes(&d),
                    1 => {}
                    _ => {
                        c.bytes(&d);
                        c.bytes(&d);
                    }
                }
            }
            c.pump(if round == 0 { 23 * MS } else { 60 * MS });
        }
        let until = simrt::now();
        c.pump(130 * MS);
        let x = judge(&tap(), &simrt::deliveries_from(0), c.raw.addr, c.peer, until, "ack")?;
        ok(format!("{x:?}"))
    })
}

/// So many gaps at once.
fn gaps(name: &str, ns: &'static [u32], patterns: &'static [(u32, u32)]) -> Space {
    Space::new(name, format!("{ns:?} datagrams arrive at once, numbered with gaps: (arriving, missing) in turn {patterns:?}; the numbers missing and no others are reported within two ticks, and every arrival is acknowledged; both sides"), move || {
        let side = pick(2);
        let n = ns[pick(ns.len())];
        let (there, gone) = patterns[pick(patterns.len())];
        let (c, sock, _l) = either_side(side)?;
        let (_log, _j) = reader(&sock);
        c.auto_ack.set(false);
        c.pump(23 * MS);
        let mut missing = BTreeSet::new();
        let mut here = BTreeSet::new();
        let t0 = simrt::now();
        for i in 0..n {
            if i > 0 && i % there == 0 {
                for _ in 0..gone {
                    missing.insert(c.next_num());
                }
            }
            here.insert(c.num.get());
            let f = c.frame(U, &payload(i, 3));
            c.bytes(&c.datagram(&[f]));
        }
        c.pump(115 * MS);
        let list = |what: Vec<(u64, Ranges)>| -> BTreeSet<u32> { what.into_iter().filter(|x| x.0 >= t0).flat_map(|x| x.1).flat_map(|(a, b)| a..=b).collect() };
        let nacked = list(nacks_tx(&tap(), c.peer, c.raw.addr));
        let acked = list(acks_tx(&tap(), c.peer, c.raw.addr));
        let lost: Vec<_> = missing.difference(&nacked).take(5).collect();
        check!(lost.is_empty(), "ack-unreported-gap", "{n} datagrams arrived at once with {} numbers missing: {} of these were reported missing within 110 ms, not {lost:?}", missing.len(), missing.intersection(&nacked).count());
        let wrong: Vec<_> = nacked.difference(&missing).take(5).collect();
        check!(wrong.is_empty(), "ack-false-nack", "{n} datagrams arrived at once with {} numbers missing: {wrong:?} were reported missing", missing.len());
        let un: Vec<_> = here.difference(&acked).take(5).collect();
        check!(un.is_empty(), "ack-unacknowledged", "{n} datagrams arrived at once: {un:?} were not acknowledged");
        let wrong: Vec<_> = acked.difference(&here).take(5).collect();
        check!(wrong.is_empty(), "ack-false-ack", "{n} datagrams arrived at once: {wrong:?} were acknowledged and had not arrived");
        let big = tap().iter().filter(|t| t.src == c.peer && t.dst == c.raw.addr && t.t >= t0).map(|t| t.data.len() + 28).max().unwrap_or(0);
        check!(big <= 1400, "ack-over-mtu", "{n} datagrams arrived at once with {} numbers missing: a report of {big} bytes with its headers was sent on a connection with an MTU of 1400", missing.len());
        no_panic("ack")?;
        Ok(Outcome { note: format!("{side} {n} {there} {gone}"), inner: n as u64 })
    })
    .cfg(|c| c.steps = 2_000_000)
}

fn all_acknowledged(a: &scale::Arrived) -> Rz<()> {
    let until = simrt::now();
    a.conn.pump(130 * MS);
    judge(&tap(), &simrt::deliveries_from(0), a.conn.raw.addr, a.conn.peer, until, "ack").map_err(|f| Found { msg: format!("{}: {}", a.what, f.msg), ..f })?;
    Ok(())
}

pub fn oracle(t: &Traffic) -> Res {
    let tap = tap();
    let del = simrt::deliveries_from(0);
    let (c, s) = (t.pair.caddr, t.pair.saddr);
    let until = simrt::now() - 130 * MS;
    let a = judge(&tap, &del, c, s, until, "ack")?;
    let b = judge(&tap, &del, s, c, until, "ack")?;
    ok(format!("{a:?} {b:?} {}", t.fingerprint()))
}
fn sp(name: &str, script: Vec<Act>, kinds: &'static [Kind], total: u32, fates: Vec<Fate>) -> Space {
    traffic_space(name, script, kinds, total, 300, fates, oracle)
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        numbers("recv/numbers", &[0, 1, 2, 3, 5], if q { 4 } else { 6 }, &[6]),
        numbers("recv/numbers-spaced", &[0, 1, 2, 4], if q { 3 } else { 4 }, &[1, 30, 61]),
        numbers("recv/big-jumps", &[0, 1, 2, 1000, 1001, 70000, 300000], if q { 3 } else { 4 }, &[6]),
        contents("recv/contents", if q { 3 } else { 4 }),
        gaps("long/gaps", if q { &[40, 600, 1200, 17_000, 66_000] } else { &[40, 600, 1200, 17_000, 35_000, 66_000, 132_000] }, &[(1, 1), (3, 1), (2, 2), (1, 40)]),
        burst("recv/burst", if q { 6 } else { 9 }),
        sp("net/mixed", vec![c(RO, 10), c(U, 11), c(R, 12), c(US, 13), w(30), c(RS, 14), s(RO, 15), c(RO, 3000)], &[Kind::Fate], 2, FATES_DDD()),
        sp("net/both", vec![c(RO, 10), s(RO, 11), c(R, 12), s(R, 13), w(60), c(RO, 14)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD()),
        sp("sched/with-fault", vec![c(RO, 10), c(RO, 11), s(RO, 12), c(RO, 13)], &[Kind::Sched, Kind::Yield, Kind::Fate], 2, FATES_3()),
    ];
    for (n, r) in [("scale/peer-ordered", RO), ("scale/peer-unreliable", U), ("scale/peer-sequenced", RS)] {
        v.push(scale::peer(n, "ack-content", r, if q { &[40, 300] } else { &[40, 300, 600] }, if q { 20 } else { 60 }, all_acknowledged));
    }
    v.push(sp("scale/queue", (0..if q { 150 } else { 400 }).map(|i| c([RO, R, RS][i % 3], 10 + i)).collect(), &[Kind::Fate], 1, FATES_3()));
    v.push(sp("net/send-errors", vec![c(RO, 10), s(R, 11), c(U, 12), w(60), c(RS, 13), s(RO, 14)], &[Kind::Env], if q { 3 } else { 4 }, vec![]));
    v.push(sp("net/send-errors-and-faults", vec![c(RO, 10), s(R, 11), c(U, 12), w(60), c(RS, 13), s(RO, 14)], &[Kind::Env, Kind::Fate], 2, FATES_3()));
    if !q {
        v.push(sp("net/one-way-3", vec![c(RO, 10), c(RO, 11), c(RO, 12)], &[Kind::Fate], 4, FATES_DDD()));
        v.push(sp("sched/preempt", vec![c(RO, 10), c(R, 11), s(RO, 12)], &[Kind::Yield, Kind::Sync, Kind::Sched, Kind::Select], 3, vec![]));
    }
    let v = with_uptime(v, &["net/mixed"], &[10, 120]);
    let v = with_pauses(v, &["net/mixed", "net/both"], 2, &[60, 400, 3000]);
    let v = with_batch(v, &["net/both", "scale/queue", "scale/peer-ordered", "recv/burst"]);
    with_counters(v, &["net/mixed", "recv/numbers"])
}
