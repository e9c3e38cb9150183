//! Scripted traffic over a connected pair, with network faults and schedules explored while it runs.

use crate::kit::*;
use crate::wire::Rel;
use simrt::{Fate, Kind, Tap, MS, SEC};
use std::net::SocketAddr;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Side {
    C,
    S,
}
use Side::*;

#[derive(Clone, Debug)]
pub enum Act {
    /// send one message
    Send(Side, Rel, usize),
    /// wait (ms)
    Wait(u64),
}
pub fn c(r: Rel, n: usize) -> Act {
    Act::Send(C, r, n)
}
pub fn s(r: Rel, n: usize) -> Act {
    Act::Send(S, r, n)
}
pub fn w(ms: u64) -> Act {
    Act::Wait(ms)
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub at: u64,
    pub rel: Rel,
    pub data: Vec<u8>,
}

pub struct Traffic {
    pub pair: Pair,
    /// what the client / the server sent
    pub csent: Vec<Sent>,
    pub ssent: Vec<Sent>,
    /// what the client / the server received
    pub clog: Log,
    pub slog: Log,
    /// virtual time at which exploration stopped
    pub calm: u64,
    /// length of the wire log before the first message
    pub tap0: usize,
    pub del0: usize,
    pub t0: u64,
}
impl Traffic {
    pub fn sent(&self, d: Side) -> &[Sent] {
        match d {
            C => &self.csent,
            S => &self.ssent,
        }
    }
    /// what arrived of the messages sent by `d`
    pub fn got(&self, d: Side) -> Vec<Vec<u8>> {
        match d {
            C => self.slog.msgs(),
            S => self.clog.msgs(),
        }
    }
    pub fn addrs(&self, d: Side) -> (SocketAddr, SocketAddr) {
        match d {
            C => (self.pair.caddr, self.pair.saddr),
            S => (self.pair.saddr, self.pair.caddr),
        }
    }
    pub fn tap(&self) -> Vec<Tap> {
        simrt::tap_from(self.tap0)
    }
    /// every eventually-delivered message has arrived and both ends have nothing outstanding
    pub fn settled(&self) -> bool {
        [C, S].iter().all(|d| {
            let got = self.got(*d);
            let sent = self.sent(*d);
            let last_rs = sent.iter().rev().find(|m| m.rel == Rel::RS);
            sent.iter().all(|m| match m.rel {
                Rel::RO | Rel::R => got.contains(&m.data),
                Rel::RS => last_rs.map(|l| l.data != m.data || got.contains(&m.data) || later_seq(sent, &got, m)).unwrap_or(true),
                _ => true,
            })
        })
    }
}
/// a sequenced message sent after `m` has been received
fn later_seq(sent: &[Sent], got: &[Vec<u8>], m: &Sent) -> bool {
    let i = sent.iter().position(|x| x.data == m.data).unwrap();
    sent[i + 1..].iter().any(|x| x.rel.sequenced() && got.contains(&x.data))
}

pub const FATES_DDD: fn() -> Vec<Fate> = || vec![Fate::Deliver, Fate::Drop, Fate::Delay(7 * MS), Fate::Delay(65 * MS), Fate::Dup(3 * MS), Fate::Dup(70 * MS)];
pub const FATES_3: fn() -> Vec<Fate> = || vec![Fate::Deliver, Fate::Drop, Fate::Delay(65 * MS), Fate::Dup(20 * MS)];
pub const FATES_DROP: fn() -> Vec<Fate> = || vec![Fate::Deliver, Fate::Drop];

/// Run the script, exploring `kinds` while it runs and for `tail_ms` afterwards, then let things settle
/// on a perfect network for at most `limit` ns.
pub fn run(script: &[Act], kinds: u32, tail_ms: u64, limit: u64) -> Rz<Traffic> {
    let pair = pair()?;
    run_on(pair, script, kinds, tail_ms, limit)
}
pub fn run_on(pair: Pair, script: &[Act], kinds: u32, tail_ms: u64, limit: u64) -> Rz<Traffic> {
    let (clog, _j1) = reader(&pair.client);
    let (slog, _j2) = reader(&pair.server);
    let mut t = Traffic {
        tap0: simrt::tap_len(),
        del0: simrt::deliveries_len(),
        t0: simrt::now(),
        pair,
        csent: vec![],
        ssent: vec![],
        clog,
        slog,
        calm: 0,
    };
    simrt::explore(kinds | Kind::App.bit());
    let mut tag = 1;
    for a in script {
        match a {
            Act::Wait(ms) => {
                simrt::run_for(ms * MS);
            }
            Act::Send(d, r, len) => {
                let m = payload(tag + if *d == S { 1000 } else { 0 }, *len);
                tag += 1;
                let rec = Sent { at: simrt::now(), rel: *r, data: m.clone() };
                match d {
                    C => t.csent.push(rec),
                    S => t.ssent.push(rec),
                }
                let sock = match d {
                    C => t.pair.client.clone(),
                    S => t.pair.server.clone(),
                };
                must_send(&sock, &m, *r)?;
            }
        }
    }
    simrt::run_for(tail_ms * MS);
    simrt::explore(0);
    t.calm = simrt::now();
    let d = t.calm + limit;
    // settle: delivered everywhere, and nothing waits for an acknowledgement
    loop {
        simrt::run_until(d, || t.settled());
        if simrt::now() >= d || !t.settled() {
            break;
        }
        let f1 = block(d - simrt::now(), t.pair.client.flush());
        let f2 = block(d.saturating_sub(simrt::now()).max(1), t.pair.server.flush());
        let _ = (f1, f2);
        break;
    }
    simrt::run_for(250 * MS);
    Ok(t)
}

pub const LIMIT: u64 = 20 * SEC;

impl Traffic {
    /// what distinguishes this execution's observable course from others
    pub fn fingerprint(&self) -> String {
        let tap = self.tap();
        let cs = tap.iter().filter(|t| t.src == self.pair.caddr).count();
        let ss = tap.iter().filter(|t| t.src == self.pair.saddr).count();
        let order = |l: &Log| l.v.borrow().iter().map(|(t, m)| format!("{}@{}", m.len(), (t - self.t0) / MS)).collect::<Vec<_>>().join(",");
        format!("datagrams {cs}/{ss}; server got {}; client got {}", order(&self.slog), order(&self.clog))
    }
}

use crate::explore::{Res, Space};
pub fn brief(script: &[Act]) -> String {
    if script.len() > 20 {
        format!("{} actions, the first of them {:?}", script.len(), &script[..6])
    } else {
        format!("{script:?}")
    }
}

pub fn traffic_space(
    name: &str,
    script: Vec<Act>,
    kinds: &'static [Kind],
    total: u32,
    tail: u64,
    fates: Vec<Fate>,
    oracle: impl Fn(&Traffic) -> Res + Send + Sync + 'static,
) -> Space {
    let mask = kinds.iter().fold(0, |a, k| a | k.bit());
    let desc = format!("{}, up to {total} deviations of {kinds:?}", brief(&script));
    Space::new(name, desc, move || {
        let t = run(&script, mask, tail, LIMIT)?;
        oracle(&t)
    })
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = fates)
}
