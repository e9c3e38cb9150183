//! C25: counters that run out start again.

use super::*;
use crate::traffic::*;

const MANY: &[u32] = &[20];
/// Another check's executions, with the counters of every connection near their end.
fn near_the_end(id: &str, spaces: Vec<Space>, only: &[&str], lefts: &'static [u32]) -> Vec<Space> {
    spaces
        .into_iter()
        .filter(|s| !s.name.starts_with("stalls") && !s.name.starts_with("pauses") && !s.name.starts_with("batch") && !s.name.starts_with("counters") && !s.name.starts_with("long") && !s.name.starts_with("uptime") && !s.name.starts_with("from-std"))
        .filter(|s| only.is_empty() || only.iter().any(|o| s.name == *o || s.name.starts_with(&format!("{o}/"))))
        .map(|mut s| {
            // in the middle of many
            let lefts = if s.name.starts_with("scale/") { MANY } else { lefts };
            s.name = format!("{id}/{}", s.name);
            s.desc = format!("the numbers and indexes of both ends begin {lefts:?} before their end; {}", s.desc);
            let run = s.run.clone();
            s.run = std::sync::Arc::new(move || {
                let l = lefts[pick(lefts.len())];
                begin_before_the_end([l; 4], l as u16);
                let r = run();
                match r {
                    Err(mut f) => {
                        f.msg = format!("with counters {l} before their end: {}", f.msg);
                        Err(f)
                    }
                    Ok(mut o) => {
                        o.note = format!("{l} {}", o.note);
                        Ok(o)
                    }
                }
            });
            s
        })
        .collect()
}

/// Each counter alone near its end, and all of them, under traffic of every kind.
fn each(name: &str, lefts: &'static [u32], kinds: &'static [Kind], total: u32) -> Space {
    let mask = kinds.iter().fold(0, |a, k| a | k.bit());
    Space::new(name, format!("number, reliable, sequenced or ordered index, identifier of split messages, or all of them begin {lefts:?} before their end; traffic of every reliability both ways; at most {total} deviations of {kinds:?}"), move || {
        let l = lefts[pick(lefts.len())];
        let k = pick(6);
        let mut left = [0; 4];
        match k {
            0..=3 => left[k] = l,
            4 => {}
            _ => left = [l; 4],
        }
        begin_before_the_end(left, if k >= 4 { l as u16 } else { 0 });
        let script = vec![c(RO, 10), c(RS, 11), s(R, 12), c(RO, 1500), w(20), c(US, 13), s(RO, 1600), s(RS, 14), w(60), c(R, 15), c(RS, 16), s(US, 17), c(U, 18), c(RO, 1501), s(RO, 19), c(RS, 20)];
        let t = run(&script, mask, 200, LIMIT)?;
        c01::oracle(&t)?;
        c03::oracle(&t)?;
        c04::oracle(&t)?;
        c05::oracle(&t)?;
        c06::oracle(&t)?;
        c07::oracle(&t)?;
        no_panic("wrap")?;
        ok(format!("{k} {l} {}", t.fingerprint()))
    })
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = FATES_3())
}

/// An identifier that was used before is used again.
fn reuse(name: &str, dups: usize) -> Space {
    Space::new(name, format!("a raw peer's message that comes first arrives anywhere among the two to three fragments of the next one and {dups} repeated fragments; then the identifier is used again, for a message of two to four fragments, in every order; both sides"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let first = payload(1, 9);
        let nb = 2 + pick(2);
        let nc = 2 + pick(3);
        let part = |m: &[u8], n: usize| -> Vec<Vec<u8>> { m.chunks(m.len().div_ceil(n)).map(|x| x.to_vec()).collect() };
        let (mb, mc) = (payload(2, 60), payload(3, 84));
        let a = c.frame(RO, &first);
        let (pb, pc) = (part(&mb, nb), part(&mc, nc));
        let b = c.fragments(9, &pb.iter().map(|x| &x[..]).collect::<Vec<_>>());
        let d = c.fragments(9, &pc.iter().map(|x| &x[..]).collect::<Vec<_>>());
        // first everything of the first two messages, with repetitions in between
        let mut order = vec![];
        let mut left: Vec<usize> = (0..=nb).collect();
        let mut again = dups;
        let mut count = 0;
        while !left.is_empty() || again > 0 {
            let opts = left.len() + if again > 0 { nb } else { 0 };
            let x = pick(opts);
            let i = if x < left.len() {
                left.remove(x)
            } else {
                again -= 1;
                1 + x - left.len()
            };
            order.push(i);
            let f = if i == 0 { a.clone() } else { b[i - 1].clone() };
            c.bytes(&c.datagram(&[f]));
            c.pump(MS);
            count += 1;
        }
        c.pump(100 * MS);
        check!(log.msgs() == vec![first.clone(), mb.clone()], "wrap-lost", "arrivals {order:?} (0 is the first message, the others are fragments): received {}", shows(&log.msgs()));
        let mut left: Vec<usize> = (0..nc).collect();
        let mut order2 = vec![];
        while !left.is_empty() {
            let i = left.remove(pick(left.len()));
            order2.push(i);
            c.bytes(&c.datagram(&[d[i].clone()]));
            c.pump(MS);
        }
        c.pump(100 * MS);
        check!(log.msgs() == vec![first, mb, mc], "wrap-reuse", "arrivals {order:?}, then the identifier was used again, fragments {order2:?}: received {}", shows(&log.msgs()));
        no_panic("wrap")?;
        ok(format!("{side} {nb} {nc} {count}"))
    })
}

/// So many that the counters really run out.
fn history(name: &str, n: u32, split: bool) -> Space {
    Space::new(name, format!("{n} {} messages in one direction, with a message the other way for every 1000", if split { "split" } else { "single" }), move || {
        let side = pick(2);
        let p = pair()?;
        let (tx, rx) = if side == 0 { (p.client.clone(), p.server.clone()) } else { (p.server.clone(), p.client.clone()) };
        let mut i = 0;
        while i < n {
            let k = 500.min(n - i);
            for j in i..i + k {
                let m = payload(j, if split { 1342 } else { 10 });
                must_send(&tx, &m, RO)?;
            }
            for j in i..i + k {
                let m = payload(j, if split { 1342 } else { 10 });
                match block(5 * SEC, rx.recv()) {
                    Ok(Ok(x)) if x == m => {}
                    x => bail!("wrap-history", "message {j} of {n}: recv returned {:?}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                }
            }
            i += k;
            simrt::clear_logs();
            no_panic("wrap")?;
        }
        ok(format!("{side}"))
    })
}

/// A peer whose numbers jump.
fn jumps(name: &str, len: usize) -> Space {
    const AT: [u32; 7] = [0, 1, wire::NUMBERS / 2 - 1, wire::NUMBERS / 2, wire::NUMBERS / 2 + 1, wire::NUMBERS - 2, wire::NUMBERS - 1];
    Space::new(name, format!("a raw peer's datagrams have every sequence of {len} numbers out of {AT:?}, 600 times over; messages are still delivered, acknowledged and answered; both sides"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let nums: Vec<u32> = (0..len).map(|_| AT[pick(AT.len())]).collect();
        let mut want = vec![];
        for i in 0..600u32 {
            let n = nums[i as usize % len];
            let m = payload(i, 9);
            let f = c.frame(RO, &m);
            c.bytes(&wire::frames(n, &[f]));
            want.push(m);
            if i % 7 == 0 {
                c.pump(3 * MS);
            }
        }
        must_send(&sock, &payload(9000, 10), RO)?;
        c.pump(SEC);
        check!(log.msgs() == want, "wrap-jumps", "numbers {nums:?} over and over: {} of {} messages were returned in order", log.msgs().iter().zip(&want).take_while(|(a, b)| a == b).count(), want.len());
        check!(c.app_messages() == vec![payload(9000, 10)], "wrap-jumps", "numbers {nums:?}: the answer is {}", shows(&c.app_messages()));
        let acks = acks_tx(&tap(), c.peer, c.raw.addr);
        for n in &nums {
            check!(acks.iter().any(|a| covers(&a.1, *n)), "wrap-jumps", "numbers {nums:?}: {n} was not acknowledged");
        }
        no_panic("wrap")?;
        ok(format!("{side}"))
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        each("each/faults", if q { &[1, 2, 3, 5, 8] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14] }, &[Kind::Fate], if q { 1 } else { 2 }),
        each("each/schedules", &[1, 3, 5], &[Kind::Sched, Kind::Yield, Kind::Tie], 1),
        reuse("reuse", if q { 1 } else { 2 }),
        jumps("jumps", if q { 2 } else { 4 }),
        history("history/split", 65_600, true),
    ];
    const L: &[u32] = &[1, 3, 5];
    const M: &[u32] = &[1, 2, 3, 4, 5, 6, 7];
    let l = if q { L } else { M };
    v.extend(near_the_end("C01", c01::spaces(Tier::Quick), &[], l));
    v.extend(near_the_end("C03", c03::spaces(Tier::Quick), &[], l));
    v.extend(near_the_end("C04", c04::spaces(Tier::Quick), &[], l));
    v.extend(near_the_end("C06", c06::spaces(Tier::Quick), &[], l));
    if q {
        v.extend(near_the_end("C02", c02::spaces(Tier::Quick), &["loss", "fragments/2+2", "scale"], l));
        v.extend(near_the_end("C08", c08::spaces(Tier::Quick), &["raw/withheld", "net/one-way"], l));
        v.extend(near_the_end("C07", c07::spaces(Tier::Quick), &["raw/one"], l));
        v.extend(near_the_end("C24", c24::spaces(Tier::Quick), &["backlog", "raw"], l));
    } else {
        v.extend(near_the_end("C02", c02::spaces(Tier::Quick), &[], l));
        v.extend(near_the_end("C05", c05::spaces(Tier::Quick), &[], l));
        v.extend(near_the_end("C07", c07::spaces(Tier::Quick), &[], l));
        v.extend(near_the_end("C08", c08::spaces(Tier::Quick), &[], l));
        v.extend(near_the_end("C11", c11::spaces(Tier::Quick), &[], L));
        v.extend(near_the_end("C18", c18::spaces(Tier::Quick), &[], L));
        v.extend(near_the_end("C19", c19::spaces(Tier::Quick), &[], L));
        v.extend(near_the_end("C20", c20::spaces(Tier::Quick), &["sequences", "tasks"], l));
        v.extend(near_the_end("C23", c23::spaces(Tier::Quick), &[], l));
        v.extend(near_the_end("C24", c24::spaces(Tier::Quick), &[], l));
        v.push(history("history/single", 1 << 20, false));
    }
    v
}
