//! C02: messages of every size are reassembled byte for byte.

use super::*;
use crate::traffic::*;

const MTUS: &[u16] = &[400, 576, 1000, 1200, 1400, 1492, 1500];

/// the library sends to the library, `len`s in one connection
fn lib_lib(name: &str, lens: Vec<usize>, per: usize) -> Space {
    let blocks: Vec<Vec<usize>> = lens.chunks(per).map(|c| c.to_vec()).collect();
    Space::new(name, format!("library to library in both directions, {} message lengths from {} to {}", lens.len(), lens[0], lens[lens.len() - 1]), move || {
        let b = &blocks[pick(blocks.len())];
        let p = pair()?;
        let (clog, _a) = reader(&p.client);
        let (slog, _b) = reader(&p.server);
        let mut want = vec![];
        for (i, l) in b.iter().enumerate() {
            let m = payload(i as u32 + *l as u32, *l);
            must_send(&p.client, &m, RO)?;
            must_send(&p.server, &m, RO)?;
            want.push(m);
        }
        let d = simrt::now() + 20 * SEC;
        simrt::run_until(d, || clog.len() >= want.len() && slog.len() >= want.len());
        simrt::run_for(150 * MS);
        same(&slog.msgs(), &want, "server")?;
        same(&clog.msgs(), &want, "client")?;
        Ok(Outcome { note: format!("{b:?}"), inner: 2 * b.len() as u64 })
    })
}
fn same(got: &[Vec<u8>], want: &[Vec<u8>], who: &str) -> Rz<()> {
    if got != want {
        let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        let detail = match (got.get(n), want.get(n)) {
            (Some(g), Some(w)) => format!("message {n}: {} bytes sent, {} bytes returned, first difference at byte {}", w.len(), g.len(), g.iter().zip(w.iter()).take_while(|(a, b)| a == b).count()),
            (None, Some(w)) => format!("message {n} of {} bytes never returned", w.len()),
            (Some(g), None) => format!("{} bytes too many messages", g.len()),
            _ => String::new(),
        };
        bail!("size-mismatch", "{who}: {detail}");
    }
    Ok(())
}

/// raw peer negotiates `mtu`; lengths around the multiples of the payload; both directions
fn mtus(name: &str, mtus: Vec<u16>, full: bool) -> Space {
    Space::new(name, format!("raw peer as client and as server with MTU in {}..{}; lengths around every multiple of the payload, both directions", mtus[0], mtus[mtus.len() - 1]), move || {
        let side = pick(2);
        let mtu = mtus[pick(mtus.len())];
        let (c, sock, _l) = either_side_mtu(side, mtu)?;
        let (log, _j) = reader(&sock);
        let pay = mtu as usize - 60;
        let mut lens = vec![1, 2, 27, 28, 59, 60, 61];
        for k in 1..=(if full { 4 } else { 3 }) {
            for d in [-2i64, -1, 0, 1, 2] {
                lens.push((k * pay as i64 + d) as usize);
            }
        }
        lens.push(mtu as usize);
        let mut want = vec![];
        let app0 = c.app_messages().len();
        for (i, l) in lens.iter().enumerate() {
            let m = payload(i as u32, *l);
            must_send(&sock, &m, RO)?;
            c.pump(60 * MS);
            want.push(m);
        }
        c.pump(300 * MS);
        let got: Vec<Vec<u8>> = c.app_messages()[app0..].to_vec();
        same(&got, &want, "raw peer, as an independent decoder reassembles it")?;
        for (_, b) in c.got.borrow().iter() {
            check!(b.len() + 28 <= mtu as usize, "size-mtu", "a datagram of {} bytes (+28) with MTU {mtu}", b.len());
        }
        // and back: split by the peer in pieces of its choice
        for piece in [pay, 1 + pay / 3, 100] {
            for l in [pay, pay + 1, 2 * pay, 2 * pay + 7, 3 * pay - 1] {
                let m = payload((piece + l) as u32, l);
                let parts: Vec<&[u8]> = m.chunks(piece).collect();
                let id = (piece * 7 + l) as u16;
                if parts.len() == 1 {
                    c.bytes(&c.datagram(&[c.frame(RO, &m)]));
                } else {
                    for f in c.fragments(id, &parts) {
                        c.bytes(&c.datagram(&[f]));
                    }
                }
                c.pump(10 * MS);
                want.push(m);
            }
        }
        c.pump(100 * MS);
        let w2 = &want[lens.len()..];
        same(&log.msgs(), w2, "library, from a raw peer")?;
        Ok(Outcome { note: format!("{side} {mtu}"), inner: want.len() as u64 })
    })
}

/// all arrival sequences of the fragments of several messages
fn arrivals(name: &str, sizes: &'static [usize], len: usize) -> Space {
    let nf: usize = sizes.iter().sum();
    Space::new(name, format!("fragments of {} messages ({sizes:?} fragments each); every sequence of {len} arrivals of the {nf} frames, repeats included, server and client side", sizes.len()), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let mut frames: Vec<(usize, Frame)> = vec![];
        let mut whole: Vec<Vec<u8>> = vec![];
        for (k, n) in sizes.iter().enumerate() {
            let m = payload(k as u32, n * 7 + k);
            if *n == 1 {
                frames.push((k, c.frame(RO, &m)));
            } else {
                let parts: Vec<&[u8]> = (0..*n).map(|i| if i + 1 == *n { &m[i * 7..] } else { &m[i * 7..i * 7 + 7] }).collect();
                for f in c.fragments(k as u16, &parts) {
                    frames.push((k, f));
                }
            }
            whole.push(m);
        }
        let mut seen = vec![false; nf];
        let mut seq = vec![];
        for step in 0..len {
            let i = pick(nf);
            seq.push(i);
            seen[i] = true;
            c.bytes(&c.datagram(&[frames[i].1.clone()]));
            c.pump(if step % 2 == 0 { 6 * MS } else { 5 * MS });
            let k = (0..sizes.len()).take_while(|k| frames.iter().zip(&seen).all(|(f, s)| f.0 != *k || *s)).count();
            let got = log.msgs();
            check!(got == whole[..k], "size-arrivals", "fragments arrived in order {seq:?}: expected [{}], received [{}]", shows(&whole[..k]), shows(&got));
        }
        // the rest arrives: everything must come out
        for i in 0..nf {
            if !seen[i] {
                c.bytes(&c.datagram(&[frames[i].1.clone()]));
            }
        }
        c.pump(20 * MS);
        let got = log.msgs();
        check!(got == whole, "size-arrivals", "fragments arrived in order {seq:?}, then the missing ones: expected [{}], received [{}]", shows(&whole), shows(&got));
        ok(format!("{seen:?}"))
    })
}

/// several fragments in one datagram, in every partition of a fixed order into datagrams
fn bundles(name: &str, n: usize) -> Space {
    Space::new(name, format!("{n} fragments of two interleaved messages, every way of bundling them into datagrams, in order and reversed"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let (a, b) = (payload(1, n * 5), payload(2, n * 5 + 3));
        let pa: Vec<&[u8]> = a.chunks(a.len().div_ceil(n / 2)).collect();
        let pb: Vec<&[u8]> = b.chunks(b.len().div_ceil(n / 2)).collect();
        let fa = c.fragments(300, &pa);
        let fb = c.fragments(301, &pb);
        let mut all: Vec<Frame> = vec![];
        for (x, y) in fa.into_iter().zip(fb) {
            all.push(x);
            all.push(y);
        }
        if pick(2) == 1 {
            all.reverse();
        }
        let mut cur: Vec<Frame> = vec![];
        let total = all.len();
        for (i, f) in all.into_iter().enumerate() {
            cur.push(f);
            if i + 1 == total || pick(2) == 1 {
                c.bytes(&c.datagram(&cur));
                cur.clear();
                c.pump(6 * MS);
            }
        }
        c.pump(20 * MS);
        let want = vec![a, b];
        let got = log.msgs();
        check!(got == want, "size-bundles", "expected [{}], received [{}]", shows(&want), shows(&got));
        ok(format!("{total}"))
    })
}

fn huge(name: &str, lens: &'static [usize], rxq: &'static [usize]) -> Space {
    Space::new(name, format!("messages of {lens:?} bytes with socket buffers of {rxq:?} datagrams (overflowing ones lose datagrams)"), move || {
        let l = lens[pick(lens.len())];
        let q = rxq[pick(rxq.len())];
        let p = pair()?;
        simrt::set_rxq(q);
        let (slog, _b) = reader(&p.server);
        let (clog, _b) = reader(&p.client);
        let dir = pick(2);
        let (snd, log) = if dir == 0 { (&p.client, &slog) } else { (&p.server, &clog) };
        let m = payload(9, l);
        let tail = payload(10, 5);
        must_send(snd, &m, RO)?;
        must_send(snd, &tail, RO)?;
        let d = simrt::now() + 60 * SEC;
        simrt::run_until(d, || log.len() >= 2);
        same(&log.msgs(), &[m, tail], if dir == 0 { "server" } else { "client" })?;
        ok(format!("{l} {q} {dir} {}", simrt::tap_len()))
    })
}

/// One message of more fragments than fit in sixteen bits.
fn many_fragments(name: &str, n: usize) -> Space {
    Space::new(name, format!("one message of {n} fragments between two short ones, from a raw peer to either side, forward, reversed or even before odd; from either side to a raw peer"), move || {
        let side = pick(2);
        let how = pick(4);
        let (c, sock, _l) = either_side_mtu(side, 400)?;
        let (first, last) = (payload(1, 9), payload(3, 9));
        if how < 3 {
            let (log, _j) = reader(&sock);
            let m = payload(2, 11 * n - 3);
            c.msg(RO, &first);
            let fs = c.fragments(77, &m.chunks(11).collect::<Vec<_>>());
            let mut order: Vec<usize> = (0..n).collect();
            match how {
                0 => {}
                1 => order.reverse(),
                _ => order = (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
            }
            for (k, g) in order.chunks(8).enumerate() {
                let d: Vec<Frame> = g.iter().map(|i| fs[*i].clone()).collect();
                c.bytes(&c.datagram(&d));
                if k % 32 == 31 {
                    c.pump(MS / 4);
                    simrt::clear_logs();
                }
            }
            c.msg(RO, &last);
            c.pump(200 * MS);
            same(&log.msgs(), &[first, m, last], if side == 0 { "server" } else { "client" })?;
        } else {
            let m = payload(2, 340 * n - 3);
            c.auto_ack.set(false);
            must_send(&sock, &first, RO)?;
            must_send(&sock, &m, RO)?;
            must_send(&sock, &last, RO)?;
            let from = c.got.borrow().len();
            let mut done = 0;
            // acknowledge all there is, now and then
            let d = simrt::now() + 20 * SEC;
            let mut have = std::collections::BTreeMap::new();
            let (mut o1, mut o2) = (None, None);
            let mut at = from;
            while simrt::now() < d && !(have.len() == n && o1.is_some() && o2.is_some()) {
                c.pump(10 * MS);
                let got = c.got.borrow();
                let mut lo = u32::MAX;
                let mut hi = 0;
                for (_, b) in &got[at..] {
                    if let Ok(Pkt::Frames { num, frames, .. }) = wire::decode(b) {
                        lo = lo.min(num);
                        hi = hi.max(num);
                        for f in frames {
                            if f.data == first {
                                o1 = Some(f.oidx);
                            } else if f.data == last {
                                o2 = Some(f.oidx);
                            } else if let Some((size, _, idx)) = f.split {
                                check!(size as usize == n, "size-fragments", "a message of {n} fragments is announced as one of {size}");
                                have.insert(idx, f.data);
                            }
                        }
                    }
                }
                at = got.len();
                drop(got);
                if lo <= hi {
                    c.bytes(&wire::ack(&[(lo, hi)]));
                    done += 1;
                }
            }
            let whole: Vec<u8> = have.values().flatten().copied().collect();
            check!(whole == m, "size-fragments", "a message of {} bytes in {n} fragments: {} fragments arrived, {} bytes", m.len(), have.len(), whole.len());
            check!(o1.is_some() && o2.is_some(), "size-fragments", "a message next to one of {n} fragments did not arrive: {o1:?} {o2:?}");
            let _ = done;
        }
        no_panic("size")?;
        Ok(Outcome { note: format!("{side} {how}"), inner: n as u64 })
    })
}

fn lossy_oracle(t: &Traffic) -> Res {
    super::c01::oracle(t)
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let around: Vec<usize> = (1..=5usize).flat_map(|k| (-4i64..=4).map(move |d| (k as i64 * 1340 + d) as usize)).collect();
    let all: Vec<usize> = (1..=4200).collect();
    let mut v = vec![
        lib_lib("sizes/around-multiples", around, 9),
        lib_lib("sizes/all-to-4200", all, 30),
        mtus("sizes/mtus", if q { MTUS.to_vec() } else { (400..=1500).collect() }, !q),
        arrivals("fragments/3+2+1", &[3, 2, 1], if q { 6 } else { 7 }),
        arrivals("fragments/2+2", &[2, 2], if q { 6 } else { 8 }),
        arrivals("fragments/4", &[4], if q { 6 } else { 8 }),
        bundles("fragments/bundles", if q { 6 } else { 10 }),
        huge("sizes/huge", if q { &[100_000, 1_000_000, 10_000_000] } else { &[100_000, 1_000_000, 30_000_000] }, &[1000, 32]).cfg(|c| c.steps = 2_000_000),
        many_fragments("long/fragments", 66_000).cfg(|c| { c.steps = 2_000_000; c.rxq = 2000 }),
        traffic_space("loss/fragmented", vec![c(RO, 4020), s(RO, 2680), c(RO, 20)], &[Kind::Fate], if q { 2 } else { 3 }, 400, FATES_DDD(), lossy_oracle),
        traffic_space("loss/two-fragmented", vec![c(RO, 2700), c(RO, 1340), w(60), c(RO, 2681)], &[Kind::Fate], if q { 2 } else { 3 }, 400, FATES_3(), lossy_oracle),
    ];
    v.push(scale::split("scale/split", "size", if q { &[(8, 3), (70, 2), (300, 2), (1, 50), (1, 600), (20, 20), (1, 3000)] } else { &[(8, 3), (70, 2), (300, 2), (1000, 2), (20, 20), (100, 30), (1, 50), (1, 600), (1, 3000)] }, if q { 20 } else { 100 }));
    v.push(traffic_space("scale/large", if q { vec![c(RO, 1340 * 150 + 7)] } else { vec![c(RO, 1340 * 180 + 7), s(RO, 1340 * 60)] }, &[Kind::Fate], 1, 400, FATES_3(), lossy_oracle));
    if !q {
        v.push(arrivals("fragments/2+2+2", &[2, 2, 2], 7));
        v.push(traffic_space("loss/drops-only", vec![c(RO, 4021)], &[Kind::Fate], 6, 600, FATES_DROP(), lossy_oracle));
    }
    let v = with_counters(v, &["loss/fragmented", "loss/two-fragmented"]);
    let v = with_stalls(v, &["loss/fragmented", "loss/two-fragmented", "scale/large"], 1, STALLS);
    let v = with_pauses(v, &["loss/fragmented", "loss/two-fragmented", "scale/large"], 2, &[60, 400, 3000]);
    let v = with_batch(v, &["scale/split", "scale/large"]);
    let v = with_stalls_n(v, &["loss/two-fragmented"], 2);
    v
}
