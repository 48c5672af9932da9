// Included by taint::b and taint::s. Secrets are byte vectors marked undefined; nothing here may branch on them.
use super::*;
use lib::many::{hash_many, update_many, HashManyJob};

fn keyed(s: &mut Src, p: &mut lib::Params) -> (usize, bool) {
    let kl = match s.below(4) {
        0 => 0,
        1 => m::KEY,
        _ => s.range(1, m::KEY),
    };
    if s.flip() {
        p.hash_length(s.range(1, m::OUT));
    }
    if s.chance(1, 3) {
        p.salt(&[7; m::SALT]).fanout(3).max_depth(9).node_offset(77).node_depth(2).inner_hash_length(m::OUT);
    }
    let ln = s.flip();
    p.last_node(ln);
    if kl > 0 {
        let k = secret(s, kl);
        p.key(&k);
    }
    (kl, ln)
}
fn pkeyed(s: &mut Src, p: &mut par::Params) -> usize {
    let kl = if s.flip() { 0 } else { s.range(1, m::KEY) };
    if s.flip() {
        p.hash_length(s.range(1, m::OUT));
    }
    if kl > 0 {
        let k = secret(s, kl);
        p.key(&k);
    }
    kl
}
fn out(h: &lib::Hash, st: &mut St) {
    tainted(h.as_bytes(), st)
}

pub fn case(s: &mut Src, st: &mut St, cmp: bool) -> String {
    let kinds = if cmp { 9 } else { 7 };
    let kind = s.below(kinds);
    let mut l = lib::Params::new();
    match kind {
        0 => {
            let (kl, _) = keyed(s, &mut l);
            let n = gen_len(s, m::BLOCK, 3000);
            let d = secret(s, n);
            out(&l.hash(&d), st);
            out(&oneshot(&d), st);
            st.note(&[0, kl, n]);
            format!("{} one-shot key {} message {}", NAME, kl, n)
        }
        1 => {
            let (kl, _) = keyed(s, &mut l);
            let mut x = l.to_state();
            let mut t = format!("{} incremental key {}", NAME, kl);
            for _ in 0..s.range(1, 6) {
                let n = gen_len(s, m::BLOCK, 2000);
                let d = secret(s, n);
                x.update(&d);
                t += &format!(" +{}", n);
                st.note(&[1, kl, n]);
                if s.chance(1, 3) {
                    x = x.clone();
                    out(&x.finalize(), st);
                }
                if s.chance(1, 5) {
                    x.set_last_node(true);
                }
                st.count(x.count() as usize);
            }
            out(&x.finalize(), st);
            t
        }
        2 => {
            let mut l = par::Params::new();
            let kl = pkeyed(s, &mut l);
            let n = gen_len(s, m::BLOCK * m::PDEG, 12 * m::BLOCK * m::PDEG);
            let d = secret(s, n);
            out(&l.hash(&d), st);
            out(&par_oneshot(&d), st);
            st.note(&[2, kl, n]);
            format!("{} one-shot key {} message {}", PNAME, kl, n)
        }
        3 => {
            let mut l = par::Params::new();
            let kl = pkeyed(s, &mut l);
            let mut x = l.to_state();
            let mut t = format!("{} incremental key {}", PNAME, kl);
            for _ in 0..s.range(1, 6) {
                let n = gen_len(s, m::BLOCK * m::PDEG, 5 * m::BLOCK * m::PDEG);
                let d = secret(s, n);
                x.update(&d);
                t += &format!(" +{}", n);
                st.note(&[3, kl, n]);
                if s.chance(1, 3) {
                    out(&x.clone().finalize(), st);
                }
                st.count(x.count() as usize);
            }
            out(&x.finalize(), st);
            t
        }
        4 | 5 => {
            let n = s.range(1, 2 * MAX_DEG + 3);
            let mut t = format!("{} hash_many", NAME);
            let mut ds = vec![];
            for _ in 0..n {
                let k = gen_len(s, m::BLOCK, 1500);
                ds.push(secret(s, k));
                t += &format!(" {}", k);
            }
            let uniform = s.flip();
            keyed(s, &mut l);
            let mut jobs: Vec<HashManyJob> = vec![];
            for d in &ds {
                if !uniform {
                    l = lib::Params::new();
                    keyed(s, &mut l);
                }
                jobs.push(HashManyJob::new(&l, d));
            }
            hash_many(jobs.iter_mut());
            for j in &jobs {
                out(&j.to_hash(), st);
            }
            st.note(&[4, n, ds[0].len(), ds[n - 1].len()]);
            t
        }
        6 => {
            let n = s.range(1, 2 * MAX_DEG + 3);
            let mut t = format!("{} update_many", NAME);
            let mut xs: Vec<lib::State> = vec![];
            for _ in 0..n {
                l = lib::Params::new();
                keyed(s, &mut l);
                let mut x = l.to_state();
                let k = s.below(m::BLOCK + 2);
                let d = secret(s, k);
                x.update(&d);
                xs.push(x);
            }
            for _ in 0..s.range(1, 3) {
                let ds: Vec<Vec<u8>> = (0..n).map(|_| { let k = gen_len(s, m::BLOCK, 1200); secret(s, k) }).collect();
                t += &format!(" {:?}", ds.iter().map(|d| d.len()).collect::<Vec<_>>());
                update_many(xs.iter_mut().zip(ds.iter()));
                st.note(&[6, n, ds[0].len()]);
            }
            for x in &xs {
                st.count(x.count() as usize);
                out(&x.finalize(), st);
            }
            t
        }
        7 => {
            // comparisons of equal-length values: equal, nearly equal and different contents
            let d = s.data(m::OUT);
            let mut e = if s.flip() { d.clone() } else { s.data(m::OUT) };
            if s.flip() {
                e[s.below(m::OUT)] ^= 1 << s.below(8);
            }
            let (mut a, mut b): ([u8; m::OUT], [u8; m::OUT]) = (d[..].try_into().unwrap(), e[..].try_into().unwrap());
            vg::undefined(&a);
            let both = s.flip();
            if both {
                vg::undefined(&b);
            }
            let (x, y) = (lib::Hash::from(a), lib::Hash::from(&b));
            flag(x == y, st);
            flag(y == x, st);
            flag(x != y, st);
            flag(x == b[..], st);
            flag(y == a[..], st);
            flag(x != b[..], st);
            vg::defined(&a);
            vg::defined(&b);
            st.note(&[7, both as usize, d[0] as usize, e[0] as usize, (d == e) as usize]);
            a[0] = 0;
            b[0] = 0;
            format!("{} comparison of full-length values", NAME)
        }
        _ => {
            let n = s.range(1, m::OUT);
            let k = s.below(300);
            let base = s.data(k);
            let mut msg = base.clone();
            if s.flip() && k > 0 {
                msg[s.below(k)] ^= 4;
            }
            vg::undefined(&base[..]);
            vg::undefined(&msg[..]);
            l.hash_length(n);
            let (x, y) = (l.hash(&base), l.to_state().update(&msg).finalize());
            let z = par::Params::new().hash_length(n).hash(&msg);
            flag(x == y, st);
            flag(x != y, st);
            flag(x == *y.as_bytes(), st);
            flag(z == x, st);
            let mut v = x.as_bytes().to_vec();
            flag(x == v[..], st);
            v.push(0);
            st.note(&[8, n, k]);
            format!("{} comparison of two {}-byte digests", NAME, n)
        }
    }
}

/// every fill of the buffer followed by updates of the telling lengths, every short message length, every key length,
/// and batches of every size: case `i` of `sweep_len()`
pub fn sweep_len() -> u64 {
    (m::BLOCK + 1 + 4 * m::BLOCK + 2 + m::KEY + 2 * MAX_DEG + 3 + m::BLOCK * m::PDEG / 16) as u64
}
pub fn sweep(i: u64, s: &mut Src, st: &mut St) -> String {
    let mut i = i as usize;
    if i <= m::BLOCK {
        let f = i;
        let mut ls = vec![1, 2, 3, m::BLOCK - f, m::BLOCK - f + 1, m::BLOCK, m::BLOCK + 1, 2 * m::BLOCK];
        if f < m::BLOCK {
            ls.push(m::BLOCK - f - 1);
        }
        for n in ls {
            let mut x = lib::State::new();
            let (d, e) = (secret(s, f), secret(s, n));
            x.update(&d);
            x.update(&e);
            out(&x.finalize(), st);
            st.note(&[20, f, n]);
        }
        return format!("{} {} bytes buffered, then short updates", NAME, f);
    }
    i -= m::BLOCK + 1;
    if i < 4 * m::BLOCK + 2 {
        let d = secret(s, i);
        out(&oneshot(&d), st);
        out(&lib::Params::new().to_state().update(&d).finalize(), st);
        let mut j = [HashManyJob::new(&lib::Params::new(), &d)];
        hash_many(j.iter_mut());
        out(&j[0].to_hash(), st);
        out(&par_oneshot(&d), st);
        st.note(&[21, i]);
        return format!("{} {} {} bytes at once", NAME, PNAME, i);
    }
    i -= 4 * m::BLOCK + 2;
    if i < m::KEY {
        let k = secret(s, i + 1);
        for n in [0, 1, m::BLOCK, m::BLOCK + 1] {
            let d = secret(s, n);
            let mut p = lib::Params::new();
            p.key(&k);
            out(&p.hash(&d), st);
            out(&p.to_state().update(&d).finalize(), st);
            let mut j = [HashManyJob::new(&p, &d)];
            hash_many(j.iter_mut());
            out(&j[0].to_hash(), st);
            let mut p = par::Params::new();
            p.key(&k);
            out(&p.hash(&d), st);
            out(&p.to_state().update(&d).finalize(), st);
        }
        st.note(&[22, i]);
        return format!("{} {} key of {} bytes", NAME, PNAME, i + 1);
    }
    i -= m::KEY;
    if i < 2 * MAX_DEG + 3 {
        for n in [0, 1, m::BLOCK - 1, m::BLOCK, m::BLOCK + 1, 2 * m::BLOCK, 3 * m::BLOCK + 1] {
            let ds: Vec<Vec<u8>> = (0..i).map(|k| secret(s, if k % 3 == 2 { n / 2 } else { n })).collect();
            let mut jobs: Vec<HashManyJob> = ds.iter().map(|d| HashManyJob::new(&lib::Params::new(), d)).collect();
            hash_many(jobs.iter_mut());
            for j in &jobs {
                out(&j.to_hash(), st);
            }
            let mut xs: Vec<lib::State> = (0..i).map(|_| lib::State::new()).collect();
            update_many(xs.iter_mut().zip(ds.iter()));
            update_many(xs.iter_mut().zip(ds.iter()));
            for x in &xs {
                out(&x.finalize(), st);
            }
        }
        st.note(&[23, i]);
        return format!("{} batches of {}", NAME, i);
    }
    i -= 2 * MAX_DEG + 3;
    // the parallel hashers: fill the stripe buffer, then short updates
    let f = i * 16 + i % 3;
    let w = m::BLOCK * m::PDEG;
    for n in [1, m::BLOCK, w - f % w, w - f % w + 1, w, w + 1] {
        let mut x = par::State::new();
        let (d, e) = (secret(s, f), secret(s, n));
        x.update(&d);
        x.update(&e);
        out(&x.finalize(), st);
        st.note(&[24, f, n]);
    }
    format!("{} {} bytes buffered, then short updates", PNAME, f)
}
