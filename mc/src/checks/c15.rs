//! C15: malformed data on a connection is ignored and does not break it.

use super::*;
use crate::hostile::{self, Item};
use std::sync::Arc;

/// processor time of this thread; the clock the library sees is the simulated one
fn cpu_ms() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") 228i64 => _, in("rdi") 3i64, in("rsi") ts.as_mut_ptr(), out("rcx") _, out("r11") _);
    }
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

pub struct Probe {
    log: Log,
    job: Job<()>,
    /// what the raw peer's application sent, in order; ordered ones
    ordered: Vec<Vec<u8>>,
    other: Vec<Vec<u8>>,
    /// what the library's application sent
    back: Vec<Vec<u8>>,
    allowed: Vec<Vec<u8>>,
    tag: u32,
}
impl Probe {
    pub fn new(s: &Rc<RaknetSocket>) -> Probe {
        let (log, job) = reader(s);
        Probe { log, job, ordered: vec![], other: vec![], back: vec![], allowed: vec![], tag: 100 }
    }
    fn next(&mut self, n: usize) -> Vec<u8> {
        self.tag += 1;
        payload(self.tag, n)
    }
    /// put messages of every kind on the wire in both directions
    pub fn send(&mut self, c: &RawConn, s: &Rc<RaknetSocket>) -> Rz<()> {
        let (a, b, d) = (self.next(20), self.next(30), self.next(40));
        c.msg(RO, &a);
        c.msg(R, &b);
        let fr = c.fragments(60000 + self.tag as u16, &[&d[..15], &d[15..]]);
        for f in [1, 0] {
            c.bytes(&c.datagram(&[fr[f].clone()]));
        }
        self.ordered.extend([a, d]);
        self.other.push(b);
        let (a, b, d) = (self.next(20), self.next(30), self.next(3000));
        for (m, r) in [(a, RO), (b, R), (d, RO)] {
            match send(s, &m, r) {
                Ok(Ok(())) => self.back.push(m),
                x => bail!("hostile-send", "send afterwards: {x:?}"),
            }
        }
        Ok(())
    }
    fn missing(&self, c: &RawConn) -> Vec<Vec<u8>> {
        let got = self.log.msgs();
        let got2 = c.app_messages();
        let mut v: Vec<_> = self.ordered.iter().chain(&self.other).filter(|m| !got.contains(m)).cloned().collect();
        v.extend(self.back.iter().filter(|m| !got2.contains(m)).cloned());
        v
    }
    pub fn settle(&mut self, c: &RawConn, what: &str) -> Rz<()> {
        c.pump_until(4 * SEC, || self.missing(c).is_empty());
        no_panic("hostile-panic")?;
        let got = self.log.msgs();
        let m = self.missing(c);
        check!(m.is_empty(), "hostile-breaks", "after {what}: {} not delivered; recv ended: {:?}", shows(&m), self.log.end());
        let ord: Vec<_> = got.iter().filter(|m| self.ordered.contains(m)).cloned().collect();
        check!(ord == self.ordered, "hostile-order", "after {what}: ordered messages {} were returned as {}", shows(&self.ordered), shows(&ord));
        for g in &got {
            check!(self.ordered.contains(g) || self.other.contains(g) || self.allowed.contains(g), "hostile-invented", "after {what}: recv returned {}, which was never sent", show(g));
        }
        for g in &self.other {
            check!(got.iter().filter(|x| *x == g).count() == 1, "hostile-twice", "after {what}: {} returned twice", show(g));
        }
        let got2: Vec<_> = c.app_messages();
        check!(got2.iter().all(|g| self.back.contains(g)), "hostile-invented", "after {what}: the library sent {}", shows(&got2));
        check!(self.log.end().is_none() && !self.job.done(), "hostile-closes", "after {what}: recv returned {:?}", self.log.end());
        Ok(())
    }
    pub fn throw(&mut self, c: &RawConn, it: &Item) {
        let d = (it.make)(c);
        self.allowed.extend(hostile::bodies(&d));
        c.bytes(&d);
    }
}

fn throw_all(name: &str, side: usize, level: u32, step: usize, n: usize, at: &'static [u64]) -> Space {
    let cat: Arc<Vec<Item>> = Arc::new(hostile::catalogue(level).into_iter().step_by(step).collect());
    let who = ["server", "client"][side];
    Space::new(name, format!("{n} of {} malformed or hostile datagrams in every combination, arriving on a {who}'s established connection, with traffic in both directions before, in flight and after, the datagram {at:?} ms after the traffic started", cat.len()), move || {
        let (c, s, _l) = either_side(side)?;
        let mut p = Probe::new(&s);
        p.send(&c, &s)?;
        let after = at[pick(at.len())];
        c.pump(after * MS);
        let t0 = cpu_ms();
        let mut names = vec![];
        for _ in 0..n {
            let it = &cat[pick(cat.len())];
            names.push(it.name.clone());
            p.throw(&c, it);
        }
        let what = names.join(", then ");
        c.pump(7 * MS);
        no_panic("hostile-panic")?;
        p.settle(&c, &what)?;
        p.send(&c, &s)?;
        p.settle(&c, &what)?;
        let t = cpu_ms() - t0;
        check!(t < 10_000, "hostile-stall", "{what}: took {t} ms of processor time");
        ok(names[0].clone())
    })
}

/// has frames that take the ordered index 0, which is stale on a connection in use but not on one where nothing was sent yet
fn uses_first_index(it: &Item) -> bool {
    it.name.contains("stale") || it.name.starts_with("flags") || it.name.contains("*0x")
}
/// a client that is connecting gets the datagram at some stage of the handshake, before or instead of the right one
fn connecting(name: &str, level: u32) -> Space {
    let cat = Arc::new(hostile::catalogue(level));
    Space::new(name, format!("each of {} malformed or hostile datagrams sent to a connecting client by its server before the first reply, before the second, before the acceptance, or after the connection was accepted; connect neither panics nor hangs", cat.len()), move || {
        let raw = Raw::new(server_addr());
        let it = &cat[pick(cat.len())];
        let stage = pick(4);
        if stage == 2 && uses_first_index(it) {
            return ok("skip");
        }
        let j = connect_to(server_addr(), None);
        let client = match raw.recv(2 * SEC) {
            Some((_, from)) => from,
            None => bail!("setup: raw server", "no request 1"),
        };
        let c = RawConn::new(raw, client, 1400);
        let thrown = std::cell::RefCell::new(vec![]);
        let what = format!("{} at stage {stage}", it.name);
        let step = |st: usize| {
            if stage == st {
                let d = (it.make)(&c);
                c.bytes(&d);
                *thrown.borrow_mut() = d;
                if stage < 2 {
                    // outside the connection: takes no place in its order
                    for x in [&c.num, &c.ridx, &c.oidx, &c.sidx] {
                        x.set(0);
                    }
                }
                c.pump(20 * MS);
            }
        };
        step(0);
        // reply to whatever the client asks, as often as it asks, for 20 s
        let end = simrt::now() + 70 * SEC;
        let (mut accepted, mut sent1, mut sent2) = (false, false, false);
        let mut seen = 0;
        while simrt::now() < end && !j.done() && !j.dead() {
            c.pump(10 * MS);
            let new: Vec<_> = c.got.borrow()[seen..].iter().map(|x| wire::decode(&x.1)).collect();
            seen += new.len();
            for p in new {
                match p {
                    Ok(Pkt::Req1 { .. }) => c.bytes(&wire::rep1(99, 1400)),
                    Ok(Pkt::Req2 { .. }) => {
                        if !sent1 {
                            sent1 = true;
                            step(1);
                        }
                        c.bytes(&wire::rep2(99, &client, 1400));
                    }
                    Ok(Pkt::Frames { frames, .. }) if !accepted && frames.iter().any(|f| f.data.first() == Some(&9)) => {
                        if !sent2 {
                            sent2 = true;
                            step(2);
                        }
                        accepted = true;
                        c.msg(RO, &wire::m_accepted(&client, 10, &sa("255.255.255.255:19132"), 5, 6));
                    }
                    _ => {}
                }
            }
            if stage == 0 && !sent1 && seen == 0 && simrt::now() < 5 * MS {
                c.bytes(&wire::rep1(99, 1400));
            }
        }
        no_panic("hostile-connect-panic")?;
        check!(j.done() || !j.dead(), "hostile-connect-panic", "{what}: connect panicked");
        let r = match j.take() {
            Some(r) => r,
            None => bail!("hostile-connect-hang", "{what}: connect did not return within 70 s"),
        };
        // whatever is not the answer to the request of the moment must not end the handshake
        match r {
            Ok(s) => {
                step(3);
                let d = thrown.borrow().clone();
                let mut p = Probe::new(&s);
                p.allowed.extend(hostile::bodies(&d));
                p.send(&c, &s)?;
                p.settle(&c, &what)?;
                ok(format!("{:?} {stage} connected", d.first()))
            }
            Err(e) => {
                let first = thrown.borrow().first().copied().unwrap_or(0);
                check!([0x06, 0x08, 0x12, 0x19].contains(&first) && stage < 2, "hostile-connect-fails", "{what}: connect failed with {e}");
                ok(format!("{first:#04x} {stage} {e}"))
            }
        }
    })
}

/// a session gets the datagram before its handshake is complete
fn opening(name: &str, level: u32) -> Space {
    let cat = Arc::new(hostile::catalogue(level));
    Space::new(name, format!("each of {} malformed or hostile datagrams sent by a connecting client to the server right after the second reply or right after its connection request; the client then carries on", cat.len()), move || {
        let mut l = listen_at(server_addr())?;
        let raw = Raw::new(sa("127.0.0.1:50001"));
        raw_offline(&raw, server_addr(), 10, 1400, 77)?;
        let c = RawConn::new(raw, server_addr(), 1400);
        let s = match accept(&mut l, SEC) {
            Ok(Ok(s)) => s,
            _ => bail!("setup: accept", "not accepted"),
        };
        let mut p = Probe::new(&s);
        let it = &cat[pick(cat.len())];
        let stage = pick(2);
        // the stale ordered indexes of the catalogue are stale only after the request
        if stage == 0 && uses_first_index(it) {
            return ok("skip");
        }
        if stage == 0 {
            p.throw(&c, it);
        }
        c.msg(RO, &wire::m_conn_request(77, 1234));
        if stage == 1 {
            c.pump(20 * MS);
            p.throw(&c, it);
        }
        c.pump(100 * MS);
        c.msg(RO, &wire::m_new_incoming(&server_addr(), 10, &sa("0.0.0.0:0"), 1, 2));
        let what = format!("{} at stage {stage}", it.name);
        p.send(&c, &s)?;
        p.settle(&c, &what)?;
        check!(c.messages().iter().any(|m| m.first() == Some(&0x10)), "hostile-handshake", "{what}: the connection request was not answered");
        ok(it.name.clone())
    })
}

/// What would be data, but is not marked as data.
fn kinds() -> Space {
    Space::new("kinds", "the bytes of a valid data datagram (one message of every reliability, with the next indexes; the next number, a later or a stale one) behind every first byte that is no kind of datagram with data, in both orders with traffic; both sides", move || {
        let side = pick(2);
        let first = (0..=255u8).filter(|b| !(0x80..=0x8f).contains(b) && *b != 0x15).collect::<Vec<_>>();
        let b = first[pick(first.len())];
        let rel = [U, US, R, RO, RS][pick(5)];
        let ahead = [0i64, 5, -2][pick(3)];
        let (c, s, _l) = either_side(side)?;
        let mut p = Probe::new(&s);
        p.send(&c, &s)?;
        c.pump(20 * MS);
        let f = Frame::new(rel, &payload(7, 25)).r(c.ridx.get()).o(if rel == RO { c.oidx.get() } else { 0 }).s(c.sidx.get());
        let num = (c.num.get() as i64 + ahead) as u32;
        let mut d = wire::frames(num, &[f]);
        d[0] = b;
        c.bytes(&d);
        c.pump(12 * MS);
        let what = format!("a datagram of kind {b:#04x} with the content of a data datagram ({rel:?})");
        let acked = acks_tx(&tap(), c.peer, c.raw.addr).iter().any(|(_, r)| ahead >= 0 && covers(r, num));
        check!(!acked, "hostile-invented", "{what} was acknowledged");
        p.settle(&c, &what)?;
        p.send(&c, &s)?;
        p.settle(&c, &what)?;
        ok(format!("{b}"))
    })
}

/// Frames whose content is malformed, with no ordered index of the channel used up unless the content is a message.
fn malformed(c: &RawConn, step: usize) -> Vec<(String, Vec<Frame>)> {
    let mut v = vec![];
    for (name, m) in hostile::controls() {
        for n in (1..m.len()).step_by(step) {
            for rel in [U, R, RO] {
                v.push((format!("{name}[..{n}] as {rel:?}"), rel, m[..n].to_vec(), None));
            }
        }
    }
    for rel in [U, R] {
        for (n, i) in [(0u32, 0u32), (0, 5), (1, 1), (2, 2), (3, 700), (u32::MAX, 0), (u32::MAX, u32::MAX - 1), (1 << 31, 1 << 30)] {
            v.push((format!("fragment {i} of {n} as {rel:?}"), rel, payload(9, 12), Some((n, 900, i))));
        }
    }
    for rel in [U, R, RO] {
        v.push((format!("empty {rel:?}"), rel, vec![], None));
    }
    let k = pick(v.len());
    let (name, rel, data, split) = v.swap_remove(k);
    let mut f = c.frame(rel, &data);
    f.split = split;
    vec![(name, vec![f])]
}
/// What is well-formed in a datagram is not lost because something beside it is malformed.
fn beside(step: usize) -> Space {
    Space::new("beside", "a malformed message or fragment in one datagram with well-formed messages of every reliability before it, behind it or around it; they arrive, each once, and nothing else does; both sides", move || {
        let side = pick(2);
        let (c, s, _l) = either_side(side)?;
        let mut p = Probe::new(&s);
        p.send(&c, &s)?;
        p.settle(&c, "before")?;
        let before = p.log.len();
        let place = pick(3);
        let mut want = vec![];
        let mut fs = vec![];
        let good = |fs: &mut Vec<Frame>, want: &mut Vec<Vec<u8>>| {
            for rel in [RO, U, R, RS, RO] {
                let m = payload(40 + want.len() as u32, 11);
                fs.push(c.frame(rel, &m));
                want.push(m);
            }
        };
        if place != 1 {
            good(&mut fs, &mut want);
        }
        let (name, bad) = malformed(&c, step).pop().unwrap();
        fs.extend(bad);
        if place != 0 {
            good(&mut fs, &mut want);
        }
        c.bytes(&c.datagram(&fs));
        c.pump(120 * MS);
        let what = format!("{name} {} five well-formed messages in one datagram", ["behind", "before", "between twice"][place]);
        let mut got = p.log.msgs().split_off(before);
        for m in &want {
            let n = got.iter().filter(|g| *g == m).count();
            check!(n == 1, "hostile-beside", "{what}: {} arrived {n} times", show(m));
        }
        // a complete body the peer sent may count as its message, however absurd its fragment header
        got.retain(|g| !want.contains(g) && *g != payload(9, 12) && !g.is_empty());
        check!(got.is_empty(), "hostile-invented", "{what}: recv also returned {}", shows(&got));
        no_panic("hostile")?;
        ok(format!("{side} {place}"))
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    for (side, n) in [(0, "server"), (1, "client")] {
        v.push(throw_all(&format!("{n}/each"), side, 1, 1, 1, if q { &[1] } else { &[0, 1, 6, 60, 300] }));
        v.push(throw_all(&format!("{n}/each-idle"), side, 0, 1, 1, &[0, 6, 60, 300]));
        v.push(throw_all(&format!("{n}/pairs"), side, 0, if q { 5 } else { 1 }, 2, &[6]));
    }
    v.push(kinds());
    v.push(beside(if q { 3 } else { 1 }));
    v.push(connecting("connecting", if q { 0 } else { 1 }));
    v.push(opening("opening", if q { 0 } else { 1 }));
    v
}
