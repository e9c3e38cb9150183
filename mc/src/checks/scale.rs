//! Many messages on one connection: what holds for three must hold for three hundred.

use super::*;

/// arrival orders of `n` things
pub fn orders(n: usize, each: usize) -> Vec<(String, Vec<usize>)> {
    let mut v: Vec<(String, Vec<usize>)> = vec![
        ("forward".into(), (0..n).collect()),
        ("reversed".into(), (0..n).rev().collect()),
        ("odd after even".into(), (0..n).step_by(2).chain((1..n).step_by(2)).collect()),
        ("even after odd, reversed".into(), (1..n).step_by(2).rev().chain((0..n).step_by(2).rev()).collect()),
        ("second half first".into(), (n / 2..n).chain(0..n / 2).collect()),
        ("last third first".into(), (2 * n / 3..n).chain(0..2 * n / 3).collect()),
        ("sixteens reversed".into(), (0..n).collect::<Vec<_>>().chunks(16).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect()),
        ("outside in".into(), (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect()),
        ("seventeen apart".into(), (0..17).flat_map(|r| (r..n).step_by(17)).collect()),
    ];
    let step = (n / each.max(1)).max(1);
    for k in (0..n).step_by(step) {
        v.push((format!("the {k}-th last"), (0..n).filter(|i| *i != k).chain([k]).collect()));
        v.push((format!("the {k}-th first"), [k].into_iter().chain((0..n).filter(|i| *i != k)).collect()));
    }
    v
}

pub struct Arrived {
    pub conn: RawConn,
    pub what: String,
}

/// `ns` messages of one reliability in every order of `orders`; judged by what the reliability promises, then by `also`
pub fn peer(name: &str, sig: &'static str, r: Rel, ns: &'static [usize], each: usize, also: fn(&Arrived) -> Rz<()>) -> Space {
    let desc = format!("a raw peer sends {ns:?} {r:?} messages, one or five to a datagram; datagrams arrive forward, reversed, interleaved, rotated, each one ({each} of them) last or first; numbered as sent or as they arrive; once, twice in a row, or all of them again; server and client side");
    Space::new(name, desc, move || {
        let side = pick(2);
        let n = ns[pick(ns.len())];
        let bundle = [1, 5][pick(2)];
        let numbered_as_sent = pick(2) == 0;
        let repeat = pick(3);
        let groups = n.div_ceil(bundle);
        let all = orders(groups, each);
        let (oname, order) = &all[pick(all.len())];
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let msgs: Vec<Vec<u8>> = (0..n).map(|i| payload(i as u32, 8 + i % 30)).collect();
        let fs: Vec<Frame> = msgs.iter().map(|m| c.frame(r, m)).collect();
        let sets: Vec<&[Frame]> = fs.chunks(bundle).collect();
        let dgs: Vec<Vec<u8>> = if numbered_as_sent { sets.iter().map(|s| c.datagram(s)).collect() } else { vec![] };
        // the order of arrivals of groups
        let mut arr: Vec<usize> = vec![];
        for &g in order {
            arr.push(g);
            if repeat == 1 {
                arr.push(g);
            }
        }
        if repeat == 2 {
            arr.extend(order);
        }
        for (i, &g) in arr.iter().enumerate() {
            if numbered_as_sent {
                c.bytes(&dgs[g]);
            } else {
                c.bytes(&c.datagram(sets[g]));
            }
            if i % 32 == 31 {
                c.pump(MS);
            }
        }
        c.pump(20 * MS);
        let what = format!("{n} messages, {bundle} to a datagram, {oname}, repeat {repeat}, numbered {}", if numbered_as_sent { "as sent" } else { "as they arrive" });
        let got = log.msgs();
        let arrived: Vec<usize> = arr.iter().flat_map(|g| g * bundle..(g * bundle + bundle).min(n)).collect();
        let index = |m: &Vec<u8>| msgs.iter().position(|x| x == m);
        let gi: Vec<Option<usize>> = {
            let map: std::collections::HashMap<&[u8], usize> = msgs.iter().enumerate().map(|(i, m)| (&m[..], i)).collect();
            got.iter().map(|m| map.get(&m[..]).copied()).collect()
        };
        let _ = index;
        check!(gi.iter().all(|g| g.is_some()), format!("{sig}-invented"), "{what}: recv returned something that was not sent: {}", show(&got[gi.iter().position(|g| g.is_none()).unwrap()]));
        let gi: Vec<usize> = gi.into_iter().flatten().collect();
        match r {
            RO => {
                let k = gi.iter().enumerate().take_while(|(i, g)| i == *g).count();
                check!(gi.len() == n && k == n, format!("{sig}-many"), "{what}: recv returned {} messages, the first {k} as sent, then {:?}", gi.len(), gi.get(k));
            }
            R | U => {
                let mut cnt = vec![(0usize, 0usize); n];
                arrived.iter().for_each(|i| cnt[*i].0 += 1);
                gi.iter().for_each(|i| cnt[*i].1 += 1);
                for (i, (a, g)) in cnt.iter().enumerate() {
                    let fine = if r == U { a == g } else { *g >= 1 && g <= a };
                    check!(fine, format!("{sig}-many"), "{what}: message {i} arrived {a} times and was returned {g} times");
                }
            }
            RS | US => {
                let mut want = vec![];
                for i in arrived {
                    if want.last().is_none_or(|l| *l < i) {
                        want.push(i);
                    }
                }
                let k = gi.iter().zip(&want).take_while(|(a, b)| a == b).count();
                check!(gi == want, format!("{sig}-many"), "{what}: {} messages were newest when they arrived, {} returned; the first {k} agree, then {:?} instead of {:?}", want.len(), gi.len(), gi.get(k), want.get(k));
            }
        }
        if let Some(e) = log.end() {
            bail!(format!("{sig}-closed"), "{what}: the connection ended: {e}");
        }
        let a = Arrived { conn: c, what };
        also(&a)?;
        Ok(Outcome { note: format!("{} {}", a.what, got.len()), inner: arr.len() as u64 })
    })
}
pub fn nothing_else(_: &Arrived) -> Rz<()> {
    Ok(())
}

/// many split messages under way at once, and messages of many fragments
pub fn split(name: &str, sig: &'static str, shapes: &'static [(usize, usize)], each: usize) -> Space {
    let desc = format!("a raw peer sends split messages, (messages, fragments of each) in {shapes:?}; fragments of all of them interleaved or message by message; forward, reversed, interleaved, rotated, any one ({each} of them) last or first; identifiers from 0 or wrapping; server and client side");
    Space::new(name, desc, move || {
        let side = pick(2);
        let (n, k) = shapes[pick(shapes.len())];
        let across = pick(2);
        let id0 = [0usize, 65530][pick(2)];
        let all = orders(n * k, each);
        let (oname, order) = &all[pick(all.len())];
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let piece = 11;
        let msgs: Vec<Vec<u8>> = (0..n).map(|i| payload(i as u32, piece * (k - 1) + 1 + i % 10)).collect();
        let mut fs: Vec<Vec<Frame>> = msgs.iter().enumerate().map(|(i, m)| c.fragments((id0 + i) as u16, &m.chunks(piece).collect::<Vec<_>>())).collect();
        let mut flat: Vec<Frame> = vec![];
        if across == 1 {
            for j in 0..k {
                for f in &fs {
                    flat.push(f[j].clone());
                }
            }
        } else {
            flat = fs.drain(..).flatten().collect();
        }
        let dgs: Vec<Vec<u8>> = flat.iter().map(|f| c.datagram(&[f.clone()])).collect();
        for (i, &g) in order.iter().enumerate() {
            c.bytes(&dgs[g]);
            if i % 32 == 31 {
                c.pump(MS / 4);
            }
        }
        c.pump(20 * MS);
        let got = log.msgs();
        let what = format!("{n} messages of {k} fragments, {}, {oname}", if across == 1 { "interleaved" } else { "one after the other" });
        let agree = got.iter().zip(&msgs).take_while(|(a, b)| a == b).count();
        check!(got == msgs, format!("{sig}-many"), "{what}: {} messages returned, the first {agree} as sent", got.len());
        Ok(Outcome { note: what, inner: (n * k) as u64 })
    })
}

/// More messages on one connection than fit in sixteen bits, none lost.
pub fn long(name: &str, sig: &'static str, r: Rel, n: u32) -> Space {
    let desc = format!("{n} {r:?} messages on one connection whose counters begin at 0, nothing lost: from the library to the library in either direction, a message the other way after every 500, or from a raw peer, eight to a datagram, to either side");
    Space::new(name, desc, move || {
        let how = pick(4);
        let m = |i: u32| payload(i, 8 + (i % 5) as usize);
        const BATCH: u32 = 500;
        if how < 2 {
            let p = pair()?;
            let (tx, rx) = if how == 0 { (p.client.clone(), p.server.clone()) } else { (p.server.clone(), p.client.clone()) };
            let mut i = 0;
            while i < n {
                let k = BATCH.min(n - i);
                for j in i..i + k {
                    must_send(&tx, &m(j), r)?;
                }
                for j in i..i + k {
                    match block(5 * SEC, rx.recv()) {
                        Ok(Ok(x)) if x == m(j) => {}
                        x => bail!(format!("{sig}-long"), "message {j} of {n}, nothing lost: recv returned {:?}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                    }
                }
                must_send(&rx, &m(i), r)?;
                match block(5 * SEC, tx.recv()) {
                    Ok(Ok(x)) if x == m(i) => {}
                    x => bail!(format!("{sig}-long"), "answer {} of {}, nothing lost: recv returned {:?}", i / BATCH, n / BATCH, x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                }
                i += k;
                simrt::clear_logs();
            }
        } else {
            let (c, sock, _l) = either_side(how - 2)?;
            let mut i = 0;
            while i < n {
                let k = BATCH.min(n - i);
                for j in (i..i + k).step_by(8) {
                    let fs: Vec<Frame> = (j..(j + 8).min(i + k)).map(|x| c.frame(r, &m(x))).collect();
                    c.bytes(&c.datagram(&fs));
                }
                c.pump(60 * MS);
                for j in i..i + k {
                    match block(5 * SEC, sock.recv()) {
                        Ok(Ok(x)) if x == m(j) => {}
                        x => bail!(format!("{sig}-long"), "message {j} of {n} from a raw peer, nothing lost: recv returned {:?}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                    }
                }
                i += k;
                simrt::clear_logs();
                c.got.borrow_mut().clear();
            }
        }
        Ok(Outcome { note: format!("{how}"), inner: n as u64 })
    })
}
