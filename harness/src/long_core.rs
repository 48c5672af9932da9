// Included by long::b and long::s: real inputs longer than 2^32 bytes.
use super::*;
use lib::many::{hash_many, update_many, HashManyJob};

/// digests of the prefixes of `rep` (ascending lengths), by the model: [sequential, parallel]
pub fn prefixes(rep: &Repeated, cuts: &[usize], kind: usize) -> Vec<Vec<u8>> {
    let d = rep.slice();
    let mut out = vec![];
    let mut at = 0;
    if kind == 0 {
        let mut h = m::H::new(&m::P::default());
        for c in cuts {
            h.feed(&d[at..*c]);
            at = *c;
            out.push(h.digest());
        }
        return out;
    }
    // the leaves are independent: one thread each
    let per_leaf: Vec<Vec<Vec<u8>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..m::PDEG)
            .map(|leaf| {
                sc.spawn(move || {
                    let p = m::Par::leaf_params(OUT, &[], leaf);
                    let mut h = m::H::new(&p);
                    let mut pos = leaf * m::BLOCK;
                    let mut out = vec![];
                    for c in cuts {
                        // all whole blocks of this leaf before the cut
                        while pos + m::BLOCK <= *c {
                            h.feed(&d[pos..pos + m::BLOCK]);
                            pos += m::BLOCK * m::PDEG;
                        }
                        let mut g = h.clone();
                        if pos < *c {
                            g.feed(&d[pos..*c]);
                        }
                        out.push(g.digest());
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    (0..cuts.len()).map(|i| m::Par::root_digest(OUT, &[], &per_leaf.iter().map(|l| l[i].clone()).collect::<Vec<_>>())).collect()
}

type Task = (String, Box<dyn FnOnce(&Repeated, &[usize], &[Vec<u8>]) -> R + Send>);

fn ck(what: &str, n: usize, got: &[u8], want: &[u8]) -> R {
    EVENTS.fetch_add(1, SeqCst);
    if got != want {
        return Err(format!("{} of {} bytes: got {} want {}", what, n, hex(got), hex(want)));
    }
    Ok(())
}

/// (kind of table needed, task)
pub fn tasks(all: bool) -> Vec<(usize, Task)> {
    let mut v: Vec<(usize, Task)> = vec![];
    for portable in [false, true] {
        let tag = if portable { " (portable)" } else { "" };
        let pr = move || {
            let mut p = lib::Params::new();
            if portable {
                lib::benchmarks::force_portable(&mut p);
            }
            p
        };
        let ppr = move || {
            let mut p = par::Params::new();
            if portable {
                force_portable_par(&mut p);
            }
            p
        };
        v.push((0, (format!("{} one-shot{}", NAME, tag), Box::new(move |r, c, w| {
            let n = *c.last().unwrap();
            BYTES.fetch_add(n as u64, SeqCst);
            ck("one-shot", n, pr().hash(&r.slice()[..n]).as_bytes(), w.last().unwrap())
        }))));
        v.push((1, (format!("{} one-shot{}", PNAME, tag), Box::new(move |r, c, w| {
            let n = *c.last().unwrap();
            BYTES.fetch_add(n as u64, SeqCst);
            ck("one-shot", n, ppr().hash(&r.slice()[..n]).as_bytes(), w.last().unwrap())
        }))));
        if portable && !all {
            continue;
        }
        // incremental: one enormous update to the first cut, small steps over the edge, more beyond
        v.push((0, (format!("{} incremental{}", NAME, tag), Box::new(move |r, c, w| {
            let d = r.slice();
            let mut s = pr().to_state();
            let mut at = 0;
            for (c, w) in c.iter().zip(w) {
                s.update(&d[at..*c]);
                BYTES.fetch_add((*c - at) as u64, SeqCst);
                at = *c;
                if s.count() as u128 != at as u128 {
                    return Err(format!("count() is {} after {} bytes", s.count(), at));
                }
                ck("incremental", at, s.finalize().as_bytes(), w)?;
            }
            Ok(())
        }))));
        v.push((1, (format!("{} incremental{}", PNAME, tag), Box::new(move |r, c, w| {
            let d = r.slice();
            let mut s = ppr().to_state();
            let mut at = 0;
            for (c, w) in c.iter().zip(w) {
                s.update(&d[at..*c]);
                BYTES.fetch_add((*c - at) as u64, SeqCst);
                at = *c;
                if s.count() as u128 != at as u128 {
                    return Err(format!("count() is {} after {} bytes", s.count(), at));
                }
                ck("incremental", at, s.finalize().as_bytes(), w)?;
            }
            Ok(())
        }))));
    }
    #[cfg(feature = "std")]
    {
        use std::io::Write;
        v.push((0, (format!("{} Write", NAME), Box::new(|r, c, w| {
            let d = r.slice();
            let n = *c.last().unwrap();
            let mut s = lib::State::new();
            s.update(&d[..1]); // something is buffered already
            let k = s.write(&d[1..n]).map_err(|e| e.to_string())?;
            BYTES.fetch_add(n as u64, SeqCst);
            if k != n - 1 {
                return Err(format!("write of {} bytes returned {}", n - 1, k));
            }
            ck("Write", n, s.finalize().as_bytes(), w.last().unwrap())
        }))));
        v.push((1, (format!("{} Write", PNAME), Box::new(|r, c, w| {
            let d = r.slice();
            let n = *c.last().unwrap();
            let mut s = par::State::new();
            s.update(&d[..1]);
            let k = s.write(&d[1..n]).map_err(|e| e.to_string())?;
            BYTES.fetch_add(n as u64, SeqCst);
            if k != n - 1 {
                return Err(format!("write of {} bytes returned {}", n - 1, k));
            }
            ck("Write", n, s.finalize().as_bytes(), w.last().unwrap())
        }))));
    }
    // one call with everything beyond the edge, then on in steps
    v.push((1, (format!("{} one update", PNAME), Box::new(|r, c, w| {
        let d = r.slice();
        let mut s = par::State::new();
        s.update(&d[..1]);
        let mut at = 1;
        for i in c.len() - 2..c.len() {
            s.update(&d[at..c[i]]);
            BYTES.fetch_add((c[i] - at) as u64, SeqCst);
            at = c[i];
            if s.count() as u128 != at as u128 {
                return Err(format!("count() is {} after {} bytes", s.count(), at));
            }
            ck("one update", at, s.finalize().as_bytes(), &w[i])?;
        }
        Ok(())
    }))));
    v.push((0, (format!("{} update_many, one long input alone", NAME), Box::new(|r, c, w| {
        let d = r.slice();
        let n = *c.last().unwrap();
        let mut s = lib::State::new();
        s.update(&d[..1]);
        update_many(std::iter::once((&mut s, &d[1..n])));
        BYTES.fetch_add(n as u64, SeqCst);
        if s.count() as u128 != n as u128 {
            return Err(format!("count() is {} after {} bytes", s.count(), n));
        }
        ck("update_many", n, s.finalize().as_bytes(), w.last().unwrap())
    }))));
    // every lane long, every lane another length; and one long job among short ones
    v.push((0, (format!("{} hash_many, {} long lanes", NAME, MAX_DEG), Box::new(|r, c, w| {
        let d = r.slice();
        let p = lib::Params::new();
        let k = c.len();
        let mut idx: Vec<usize> = (0..MAX_DEG).map(|i| k - 1 - (i * 5) % k).collect();
        idx.push(k - 1);
        let mut jobs: Vec<HashManyJob> = idx.iter().map(|i| HashManyJob::new(&p, &d[..c[*i]])).collect();
        hash_many(jobs.iter_mut());
        for (j, i) in jobs.iter().zip(&idx) {
            BYTES.fetch_add(c[*i] as u64, SeqCst);
            ck("hash_many job", c[*i], j.to_hash().as_bytes(), &w[*i])?;
        }
        Ok(())
    }))));
    v.push((0, (format!("{} hash_many, one long job among short ones", NAME), Box::new(|r, c, w| {
        let d = r.slice();
        let p = lib::Params::new();
        let n = *c.last().unwrap();
        let mut jobs: Vec<HashManyJob> = (0..2 * MAX_DEG + 1).map(|i| HashManyJob::new(&p, if i == MAX_DEG - 1 { &d[..n] } else { &d[..i * 1000] })).collect();
        hash_many(jobs.iter_mut());
        BYTES.fetch_add(n as u64, SeqCst);
        for (i, j) in jobs.iter().enumerate() {
            if i == MAX_DEG - 1 {
                ck("hash_many job", n, j.to_hash().as_bytes(), w.last().unwrap())?;
            } else {
                ck("short job next to it", i * 1000, j.to_hash().as_bytes(), &m::hash(&m::P::default(), &d[..i * 1000]))?;
            }
        }
        Ok(())
    }))));
    v.push((0, (format!("{} update_many, {} long lanes", NAME, if all { MAX_DEG } else { MAX_DEG / 2 }), Box::new(move |r, c, w| {
        let d = r.slice();
        let lanes = if all { MAX_DEG } else { MAX_DEG / 2 };
        let k = c.len();
        let mut ss: Vec<lib::State> = (0..lanes).map(|_| lib::State::new()).collect();
        // the first lane takes more than 2^32 bytes in one call, the others step over the edge in two
        let cut: Vec<usize> = (0..lanes).map(|i| if i == 0 { k - 2 } else { (k - 1).min(i) }).collect();
        let a: Vec<&[u8]> = cut.iter().map(|i| &d[..c[*i]]).collect();
        update_many(ss.iter_mut().zip(a.iter()));
        for (s, i) in ss.iter().zip(&cut) {
            BYTES.fetch_add(c[*i] as u64, SeqCst);
            if s.count() as u128 != c[*i] as u128 {
                return Err(format!("count() is {} after {} bytes", s.count(), c[*i]));
            }
            ck("update_many", c[*i], s.finalize().as_bytes(), &w[*i])?;
        }
        // and over the edge together
        let b: Vec<&[u8]> = cut.iter().map(|i| &d[c[*i]..c[k - 1]]).collect();
        update_many(ss.iter_mut().zip(b.iter()));
        for s in ss.iter() {
            if s.count() as u128 != c[k - 1] as u128 {
                return Err(format!("count() is {} after {} bytes", s.count(), c[k - 1]));
            }
            ck("update_many, second round", c[k - 1], s.finalize().as_bytes(), &w[k - 1])?;
        }
        Ok(())
    }))));
    v
}
