//! C08 commitment verification, C09 batch verification, C10 proofs.
use crate::c01::mk;
use crate::ctx::*;
use crate::model::*;
use crate::{call, ensure, ok};
use ark_groth16::{Proof, VerifyingKey};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::saver_groth16::{calculate_d, create_proof, generate_srs, get_gs_for_encryption, prepare_verifying_key, verify_proof, verify_qap_proof, PreparedVerifyingKey, ProvingKey};
use dist_saver::setup::setup_for_groth16;

/// A ciphertext in the exponent of G
#[derive(Clone, Debug)]
pub struct XCt {
    x: Fr,
    c: Vec<Fr>,
    q: Fr,
}
impl XCt {
    fn honest(rng: &mut StdRng, w: &World, s: &Secrets) -> Self {
        let n = s.s.len();
        let r = nz(rng);
        let m: Vec<Fr> = rand_chunks(rng, n, 16).iter().map(|x| small(*x as u64)).collect();
        XCt {
            x: w.delta * r,
            c: (0..n).map(|i| w.delta * s.s[i] * r + w.a[i] * m[i]).collect(),
            q: (0..n).map(|i| w.a[i] * s.t[i + 1] * m[i]).sum::<Fr>() + w.delta * s.p1() * r,
        }
    }
    /// what the commitment has to be
    fn lhs(&self, t: &[Fr]) -> Fr {
        t[0] * self.x + self.c.iter().zip(&t[1..]).map(|(a, b)| *a * b).sum::<Fr>()
    }
    fn ct(&self, w: &World) -> Ct {
        Ct { X_r: w.g(&self.x), enc_chunks: self.c.iter().map(|e| w.g(e)).collect(), commitment: w.g(&self.q) }
    }
}
const TAMPER: [&str; 24] = [
    "none", "none", "randomness element shifted", "chunk shifted", "commitment shifted", "randomness element replaced", "chunk replaced", "commitment replaced",
    "randomness element zeroed", "chunk zeroed", "commitment zeroed", "two chunks exchanged", "randomness element and chunk exchanged", "commitment and chunk exchanged",
    "two components shifted oppositely", "commitment negated", "everything negated", "compensating change", "everything zeroed",
    "everything but one component zeroed", "some components zeroed", "components repeated", "components related", "consistent with coincidences",
];
/// A ciphertext that is consistent although components of it are equal or opposite to one another or to known elements:
/// some are set, and another one is solved for (q * k is what the commitment counts for).
fn coincide(rng: &mut StdRng, x: &mut XCt, t: &[Fr], k: Fr, known: &[Fr]) {
    let n = x.c.len();
    let mut v: Vec<Fr> = vec![x.x];
    v.extend(&x.c);
    v.push(x.q);
    let coef: Vec<Fr> = t.iter().copied().chain([-k]).collect();
    for _ in 0..if rng.gen_bool(0.7) { 1 } else { rng.gen_range(1..4) } {
        // the component that is set, what it is set to, and the one solved for
        let ends = [0, n + 1];
        let p = if rng.gen_bool(0.5) { ends[rng.gen_range(0..2)] } else { rng.gen_range(0..n + 2) };
        let r = if rng.gen_bool(0.4) { ends[rng.gen_range(0..2)] } else { rng.gen_range(0..n + 2) };
        let m = rng.gen_range(0..n + 2);
        if p == m { continue; }
        let sign = if rng.gen_bool(0.7) { Fr::one() } else { -Fr::one() };
        let fixed = rng.gen_bool(0.2);
        let mut cm = coef[m];
        if fixed { v[p] = known[rng.gen_range(0..known.len())] * sign; }
        else if r == p { continue; }
        else if r == m { cm += coef[p] * sign; v[p] = Fr::zero(); }
        else { v[p] = v[r] * sign; }
        if cm.is_zero() { if r == m && !fixed { v[p] = v[m] * sign; } continue; }
        v[m] = Fr::zero();
        let rest: Fr = v.iter().zip(&coef).map(|(a, b)| *a * b).sum();
        v[m] = -rest * cm.inverse().unwrap();
        if r == m && !fixed { v[p] = v[m] * sign; }
    }
    x.x = v[0];
    x.c = v[1..=n].to_vec();
    x.q = v[n + 1];
}
fn tamper(rng: &mut StdRng, k: usize, x: &mut XCt, t: &[Fr], other: &XCt) {
    let n = x.c.len();
    let i = rng.gen_range(0..n);
    let j = if n > 1 { (i + rng.gen_range(1..n)) % n } else { i };
    let d = if rng.gen_bool(0.5) { Fr::one() } else { nz(rng) };
    match k {
        2 => x.x += d,
        3 => x.c[i] += d,
        4 => x.q += d,
        5 => x.x = other.x,
        6 => x.c[i] = other.c[i],
        7 => x.q = other.q,
        8 => x.x = Fr::zero(),
        9 => x.c[i] = Fr::zero(),
        10 => x.q = Fr::zero(),
        11 => x.c.swap(i, j),
        12 => std::mem::swap(&mut x.x, &mut x.c[i]),
        13 => std::mem::swap(&mut x.q, &mut x.c[i]),
        14 => { x.c[i] += d; if i == j { x.x -= d } else { x.c[j] -= d } }
        15 => x.q = -x.q,
        16 => { x.x = -x.x; x.q = -x.q; for c in x.c.iter_mut() { *c = -*c } }
        17 => match rng.gen_range(0..3) {
            0 => { x.x += t[i + 1] * d; x.c[i] -= t[0] * d; }
            1 => { x.c[i] += d; x.q += t[i + 1] * d; }
            _ => { x.x += d; x.q += t[0] * d; }
        },
        18 => { x.x = Fr::zero(); x.q = Fr::zero(); for c in x.c.iter_mut() { *c = Fr::zero() } }
        19 => {
            let keep = match rng.gen_range(0..4) { 0 => 0, 1 => i + 1, _ => n + 1 };
            if keep != 0 { x.x = Fr::zero(); }
            if keep != n + 1 { x.q = Fr::zero(); }
            for (k, c) in x.c.iter_mut().enumerate() { if keep != k + 1 { *c = Fr::zero(); } }
        }
        20 => {
            if rng.gen_bool(0.5) { x.x = Fr::zero(); }
            if rng.gen_bool(0.3) { x.q = Fr::zero(); }
            let p = rng.gen_range(0.2..1.0);
            for c in x.c.iter_mut() { if rng.gen_bool(p) { *c = Fr::zero(); } }
            // the commitment is sometimes the right one for what is left
            if rng.gen_bool(0.3) { x.q = x.lhs(t); }
        }
        21 | 22 => {
            // in a row, each like or related to the one before it
            let rel = |rng: &mut StdRng, y: &Fr| if k == 21 { *y } else { related(rng, y) };
            if rng.gen_bool(0.5) { x.c[0] = rel(rng, &x.x); }
            for k in 1..n { if rng.gen_bool(0.6) { x.c[k] = rel(rng, &x.c[k - 1].clone()); } }
            if rng.gen_bool(0.5) { x.q = x.lhs(t); } else if rng.gen_bool(0.5) { x.q = rel(rng, &x.c[n - 1].clone()); }
        }
        _ => {}
    }
}

fn verdict(r: Result<(), SaverError>) -> Result<bool, String> {
    // any error is a rejection
    Ok(r.is_ok())
}

pub fn c08(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation verifies one ciphertext with known discrete logs (honest, tampered, or with a compensating change; right or wrong key and generators) and compares the verdict with sum t_i c_i = psi computed on scalars; distinct_nontrivial counts distinct (tampering, key kind, entry point, chunk count, verdict)");
    let kinds = ["right", "wrong ek", "wrong H", "ek verification elements exchanged", "shifted ek element", "scaled H", "zero ek element"];
    ctx.cases("matrix", ctx.n(2000, 48000), |c| {
        let n = if c.idx % 11 == 0 { 16 } else { some_n(&mut c.rng) };
        let w = World::mixed(&mut c.rng, n);
        let s = if c.idx % 5 == 0 { Secrets::odd(&mut c.rng, n) } else { Secrets::new(&mut c.rng, n) };
        let mut ek = s.ek(&w);
        let mut t = s.t.clone();
        let mut gens = w.gens.clone();
        let mut k = Fr::one(); // H used by the verifier = k * H
        let key = if c.idx % 4 != 3 { 0 } else { c.rng.gen_range(1..kinds.len()) };
        match key {
            1 => { let o = Secrets::new(&mut c.rng, n); t = o.t.clone(); ek = o.ek(&w); }
            2 => { k = nz(&mut c.rng); gens.H = w.h(&k); }
            3 => { let i = c.rng.gen_range(0..=n); let j = c.rng.gen_range(0..=n); t.swap(i, j); ek.Z.swap(i, j); }
            4 => { let i = c.rng.gen_range(0..=n); t[i] += Fr::one(); ek.Z[i] = w.h(&t[i]); }
            5 => { k = -Fr::one(); gens.H = w.h(&k); }
            6 => { let i = c.rng.gen_range(0..=n); t[i] = Fr::zero(); ek.Z[i] = w.h(&t[i]); }
            _ => {}
        }
        let mut x = XCt::honest(&mut c.rng, &w, &s);
        let other = XCt::honest(&mut c.rng, &w, &s);
        let honest = x.ct(&w);
        let primed = c.rng.gen_bool(0.4);
        if primed {
            // the untampered ciphertext right before, under the right key
            ok!("verification of the honest ciphertext", honest.verify_commitment(s.ek(&w), w.gens.clone()));
            c.count("primed", 1);
        }
        let tk = (c.idx as usize * 7 + c.idx as usize / TAMPER.len()) % TAMPER.len();
        tamper(&mut c.rng, tk, &mut x, &t, &other);
        if tk == 23 {
            let mut known = w.a.clone();
            known.extend([Fr::one(), w.delta, w.gamma]);
            coincide(&mut c.rng, &mut x, &t, k, &known);
        }
        let want = x.lhs(&t) == x.q * k;
        if tk < 2 && key == 0 { ensure!(want, "harness: honest ciphertext"); }
        let ct = x.ct(&w);
        let pek = PreparedEncryptionKey::from(ek.clone());
        let pgens = PreparedEncryptionGens::from(gens.clone());
        let entry = (c.idx / TAMPER.len() as u64) % 6;
        let r = match entry {
            0 => call!("verify_ciphertext_commitment", Enc::verify_ciphertext_commitment(&ct.X_r, &ct.enc_chunks, &ct.commitment, ek.clone(), gens.clone())),
            1 => call!("verify_ciphertext_commitment", Enc::verify_ciphertext_commitment(&ct.X_r, &ct.enc_chunks, &ct.commitment, pek, pgens)),
            2 => call!("verify_commitment", ct.verify_commitment(ek.clone(), gens.clone())),
            3 => call!("verify_commitment", ct.verify_commitment(pek, pgens)),
            4 => call!("verify_commitment", ct.verify_commitment(ek.clone(), pgens)),
            _ => call!("verify_commitment", ct.verify_commitment(pek, gens.clone())),
        };
        let what = format!("commitment verification ({}, key: {}, {n} chunks, entry {entry})", TAMPER[tk], kinds[key]);
        let got = verdict(r).map_err(|e| format!("{what}: {e}"))?;
        if !primed && c.idx % 4 == 1 {
            // a second look gives the same verdict
            let again = verdict(call!("verify_commitment", ct.verify_commitment(ek.clone(), gens.clone())))?;
            ensure!(again == got, "{what}: {got} first, {again} the second time");
        }
        ensure!(got == want, "{what}: {} but the equation {}", if got { "accepted" } else { "rejected" }, if want { "holds" } else { "does not hold" });
        c.count(if got { "verdict.accept" } else { "verdict.reject" }, 1);
        c.count(&format!("tamper.{}", TAMPER[tk]), 1);
        c.count(&format!("key.{}", kinds[key]), 1);
        c.seen((tk, key, entry, n, got));
        c.sample(|| what.clone() + if got { " accepted" } else { " rejected" });
        Ok(())
    });
    // real keys and real ciphertexts
    for bits in [16u8, 8, 4] {
        let fx: Vec<_> = mk(ctx, &format!("keys{bits}"), 1, |rng| {
            let w = World::new(rng, chunks_for(bits));
            let (_, ek, _) = ok!("keygen", keygen(rng, bits, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
            let g2 = make_group(rng, &w, bits, 2)?;
            let g5 = make_group(rng, &w, bits, 5)?;
            let eks = vec![ek, g2.ek, g5.ek];
            let peks: Vec<PreparedEncryptionKey<E>> = eks.iter().map(|k| PreparedEncryptionKey::from(k.clone())).collect();
            let pg = PreparedEncryptionGens::from(w.gens.clone());
            Ok((w, eks, peks, pg))
        })?;
        let (w, eks, peks, pg) = &fx[0];
        let n = chunks_for(bits);
        let edges = edge_messages(bits);
        let edges = &edges;
        ctx.cases(&format!("real{bits}"), ctx.n(48, 1500), |c| {
            let k = c.idx as usize % 3;
            let m = if c.idx % 2 == 0 { edges[c.idx as usize / 2 % edges.len()] } else { random_message(&mut c.rng, bits) };
            let (ct, _) = ok!("encrypt", Enc::encrypt(&mut c.rng, &m, &eks[k], &w.g_i, bits));
            let v = |ct: &Ct, k: usize, plain: bool| -> Result<bool, String> {
                verdict(if plain { call!("verify_commitment", ct.verify_commitment(eks[k].clone(), w.gens.clone())) } else { call!("verify_commitment", ct.verify_commitment(peks[k].clone(), pg.clone())) })
            };
            ensure!(v(&ct, k, c.idx % 4 == 0)?, "honest {bits}-bit ciphertext of {m} (key {k}) rejected");
            ensure!(!v(&ct, (k + 1) % 3, false)?, "ciphertext accepted under another key");
            c.count("real.honest", 1);
            // one random change
            let mut vec = ct_vec(&ct);
            let i = c.rng.gen_range(0..vec.len());
            let how = c.rng.gen_range(0..4);
            match how {
                0 => vec[i] = (vec[i].into_group() + w.gens.G).into_affine(),
                1 => vec[i] = (-vec[i].into_group()).into_affine(),
                2 => { let j = (i + 1) % vec.len(); vec.swap(i, j); }
                _ => vec[i] = w.g_i[i % n],
            }
            if vec != ct_vec(&ct) {
                ensure!(!v(&vec_ct(&vec), k, false)?, "{bits}-bit ciphertext with component {i} of {} changed (kind {how}) accepted", vec.len());
                c.count("real.tampered", 1);
                c.seen((bits, i, how, k));
            }
            Ok(())
        });
        // dropped and added components are refused, whatever their value
        ctx.cases(&format!("count{bits}"), ctx.n(12, 60), |c| {
            let k = c.idx as usize % 3;
            let m = random_message(&mut c.rng, bits);
            let (ct, _) = ok!("encrypt", Enc::encrypt(&mut c.rng, &m, &eks[k], &w.g_i, bits));
            for how in 0..5 {
                let mut x = ct.clone();
                match how {
                    0 => { x.enc_chunks.pop(); }
                    1 => { x.enc_chunks.remove(0); }
                    2 => x.enc_chunks.push(G1Affine::zero()),
                    3 => x.enc_chunks.clear(),
                    _ => { let e = x.enc_chunks[c.rng.gen_range(0..n)]; x.enc_chunks.push(e); }
                }
                let r = call!("verify_commitment", x.verify_commitment(peks[k].clone(), pg.clone()));
                ensure!(r.is_err(), "ciphertext with {} instead of {n} chunks accepted", x.enc_chunks.len());
                c.count("real.count", 1);
            }
            Ok(())
        });
    }
    for k in TAMPER { ctx.require(&format!("tamper.{k}"), 20); }
    for k in kinds { ctx.require(&format!("key.{k}"), 20); }
    for k in ["verdict.accept", "verdict.reject", "real.honest", "real.tampered", "real.count"] { ctx.require(k, 50); }
    Ok(())
}

pub fn c09(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation verifies one batch (sizes 0..40 and more, invalid members at chosen positions, weights of several kinds) and compares the verdict with the weighted equation computed on scalars; distinct_nontrivial counts distinct (batch size, invalid positions, weight kind, verdict)");
    let wk = ["random", "ones", "powers", "small", "some zero", "all zero", "cancelling", "zero on the invalid", "one only", "structured", "structured and cancelling", "one bit", "high limbs", "repeated and cancelling", "related"];
    let sizes = [1usize, 2, 3, 1, 4, 5, 7, 8, 12, 2, 16, 31, 32, 33, 3, 40];
    ctx.cases("batch", ctx.n(900, 15000), |c| {
        let b = if c.idx % 101 == 100 { 0 } else if c.idx % 97 == 96 { [70usize, 64, 65, 128, 129, 256, 257, 300][(c.idx / 97) as usize % 8] } else { sizes[(c.idx / 13) as usize % sizes.len()] };
        let n = if b > 40 { 1 } else if b > 7 { c.rng.gen_range(1..4) } else { some_n(&mut c.rng) };
        let w = World::mixed(&mut c.rng, n);
        let s = Secrets::new(&mut c.rng, n);
        let mut ek = s.ek(&w);
        let mut t = s.t.clone();
        if c.idx % 41 == 7 {
            let o = Secrets::new(&mut c.rng, n);
            t = o.t.clone();
            ek = o.ek(&w);
        }
        let mut xs: Vec<XCt> = (0..b).map(|_| XCt::honest(&mut c.rng, &w, &s)).collect();
        if b > 1 && c.rng.gen_bool(0.2) {
            // members that agree with another of them in all but a part; some stay valid
            for _ in 0..c.rng.gen_range(1..4) {
                let i = c.rng.gen_range(0..b);
                let j = if c.rng.gen_bool(0.6) { (i + 1) % b } else { c.rng.gen_range(0..b) };
                if i == j { continue; }
                xs[j] = xs[i].clone();
                let d = nz(&mut c.rng);
                match c.rng.gen_range(0..5) {
                    0 => xs[j].x += d,
                    1 => xs[j].q += d,
                    _ => { let k = if c.rng.gen_bool(0.5) { n - 1 } else { c.rng.gen_range(0..n) }; xs[j].c[k] += d; }
                }
                if c.rng.gen_bool(0.7) { xs[j].q = xs[j].lhs(&t); }
            }
            c.count("batch.partly_equal", 1);
        }
        if b > 0 && c.rng.gen_bool(0.2) {
            let i = c.rng.gen_range(0..b);
            coincide(&mut c.rng, &mut xs[i], &t, Fr::one(), &[Fr::one(), w.delta, w.gamma, w.a[0]]);
            c.count("batch.coincidence", 1);
        }
        let bad = if b == 0 { 0 } else { [0usize, 1, 1, 0, 2, 1, 3][(c.idx / 3) as usize % 7].min(b) };
        let mut pos: Vec<usize> = if bad == 1 { vec![[0, b - 1, b / 2, c.rng.gen_range(0..b)][(c.idx / 21) as usize % 4]] } else { permutation(&mut c.rng, b).into_iter().take(bad).collect() };
        pos.sort();
        let kind = c.idx as usize % wk.len();
        let mut pair = (Fr::one(), Fr::one());
        if (kind == 6 || kind == 10) && b > 1 {
            // errors that cancel under the weights below
            let d = nz(&mut c.rng);
            pos = vec![0, b - 1];
            if kind == 10 { pair = (nzx(&mut c.rng), nzx(&mut c.rng)); }
            xs[0].q += d * pair.1;
            xs[b - 1].q -= d * pair.0;
        } else if kind == 13 && b > 1 {
            // the same invalid member several times, next to each other or apart
            let mut o = XCt::honest(&mut c.rng, &w, &s);
            let other = XCt::honest(&mut c.rng, &w, &s);
            let tk = if c.rng.gen_bool(0.8) { c.rng.gen_range(2..16) } else { c.rng.gen_range(18..23) };
            tamper(&mut c.rng, tk, &mut o, &t, &other);
            let k = c.rng.gen_range(2..4usize).min(b);
            pos = if c.rng.gen_bool(0.5) { let a = c.rng.gen_range(0..=b - k); (a..a + k).collect() } else { permutation(&mut c.rng, b).into_iter().take(k).collect() };
            pos.sort();
            for p in &pos { xs[*p] = o.clone(); }
        } else {
            for p in &pos {
                let other = XCt::honest(&mut c.rng, &w, &s);
                let tk = if c.rng.gen_bool(0.8) { c.rng.gen_range(2..16) } else { c.rng.gen_range(18..23) };
                let tt = t.clone();
                tamper(&mut c.rng, tk, &mut xs[*p], &tt, &other);
            }
        }
        if c.idx % 17 == 4 && b > 2 && kind != 10 && kind != 13 { let y = xs[0].clone(); xs[b - 1] = y; } // repeated member
        if c.idx % 5 == 1 {
            // a valid batch of the same size right before
            let ys: Vec<Ct> = (0..b).map(|_| XCt::honest(&mut c.rng, &w, &s).ct(&w)).collect();
            let vs: Vec<Fr> = (0..b).map(|_| nz(&mut c.rng)).collect();
            ensure!(verdict(call!("verify_commitments_in_batch", Enc::verify_commitments_in_batch(&ys, &vs, s.ek(&w), w.gens.clone())))?, "valid batch of {b} rejected");
            c.count("batch.primed", 1);
        }
        let base = nz(&mut c.rng);
        let mut ws: Vec<Fr> = (0..b).map(|i| match kind {
            0 => nz(&mut c.rng),
            1 | 6 => Fr::one(),
            2 => base.pow([i as u64]),
            3 => small(c.rng.gen_range(1..6)),
            4 => if c.rng.gen_bool(0.4) { Fr::zero() } else { nz(&mut c.rng) },
            5 => Fr::zero(),
            7 => if pos.contains(&i) { Fr::zero() } else { nz(&mut c.rng) },
            9 => odd_scalar(&mut c.rng),
            10 => if i == 0 { pair.0 } else if i == b - 1 { pair.1 } else { nzx(&mut c.rng) },
            11 => small(2).pow([c.rng.gen_range(0..255u64)]),
            12 => { let mut x = nz(&mut c.rng).into_bigint(); for l in x.0.iter_mut().take(1 + c.idx as usize / 13 % 3) { *l = 0; } Fr::from_bigint(x).unwrap() }
            13 | 14 => nzx(&mut c.rng),
            _ => if i == b / 2 { Fr::one() } else { Fr::zero() },
        }).collect();
        if kind == 14 { for i in 1..b { let x = ws[i - 1]; ws[i] = related(&mut c.rng, &x); } }
        if kind == 13 && b > 1 {
            // the weights of the repeated member sum to zero, or one of them is that of another
            match c.rng.gen_range(0..3) {
                0 => { let sum: Fr = pos[1..].iter().map(|p| ws[*p]).sum(); ws[pos[0]] = -sum; }
                1 => { let x = ws[pos[0]]; for p in &pos { ws[*p] = x; } }
                _ => {}
            }
        }
        let want = xs.iter().zip(&ws).map(|(x, w)| (x.lhs(&t) - x.q) * w).sum::<Fr>().is_zero();
        let cts: Vec<Ct> = xs.iter().map(|x| x.ct(&w)).collect();
        let prepared = c.idx % 2 == 0;
        let r = if prepared {
            call!("verify_commitments_in_batch", Enc::verify_commitments_in_batch(&cts, &ws, PreparedEncryptionKey::from(ek.clone()), PreparedEncryptionGens::from(w.gens.clone())))
        } else {
            call!("verify_commitments_in_batch", Enc::verify_commitments_in_batch(&cts, &ws, ek.clone(), w.gens.clone()))
        };
        let what = format!("batch of {b}, changed members {pos:?}, weights: {}, {n} chunks", wk[kind]);
        let got = verdict(r).map_err(|e| format!("{what}: {e}"))?;
        ensure!(got == want, "{what}: {} although the weighted equation {}", if got { "accepted" } else { "rejected" }, if want { "holds" } else { "does not hold" });
        if b == 1 && !ws[0].is_zero() {
            let single = verdict(call!("verify_commitment", cts[0].verify_commitment(ek, w.gens.clone())))?;
            ensure!(single == got, "{what}: batch of one and individual verification disagree");
            c.count("batch.single", 1);
        }
        if b == 0 { c.count("batch.empty", 1); }
        c.count(if got { "verdict.accept" } else { "verdict.reject" }, 1);
        c.count(&format!("weights.{}", wk[kind]), 1);
        c.seen((b, pos, kind, got));
        c.sample(|| what.clone() + if got { ": accepted" } else { ": rejected" });
        Ok(())
    });
    // real ciphertexts
    let fx: Vec<_> = mk(ctx, "keys16", 1, |rng| {
        let w = World::new(rng, 16);
        let g = make_group(rng, &w, 16, 3)?;
        Ok((w, g.ek))
    })?;
    let (w, ek) = &fx[0];
    ctx.cases("real", ctx.n(30, 400), |c| {
        let b = c.rng.gen_range(1..9usize);
        let mut cts = vec![];
        for _ in 0..b {
            let m = random_message(&mut c.rng, 16);
            cts.push(ok!("encrypt", Enc::encrypt(&mut c.rng, &m, ek, &w.g_i, 16)).0);
        }
        let ws: Vec<Fr> = (0..b).map(|_| nz(&mut c.rng)).collect();
        ensure!(verdict(call!("verify_commitments_in_batch", Enc::verify_commitments_in_batch(&cts, &ws, ek.clone(), w.gens.clone())))?, "valid batch of {b} rejected");
        let i = c.rng.gen_range(0..b);
        let mut v = ct_vec(&cts[i]);
        let j = c.rng.gen_range(0..v.len());
        v[j] = (v[j].into_group() + w.gens.G).into_affine();
        cts[i] = vec_ct(&v);
        ensure!(!verdict(call!("verify_commitments_in_batch", Enc::verify_commitments_in_batch(&cts, &ws, ek.clone(), w.gens.clone())))?, "batch of {b} with component {j} of member {i} changed accepted");
        c.count("real", 2);
        c.seen(("real", b, i, j));
        Ok(())
    });
    for k in wk { ctx.require(&format!("weights.{k}"), 20); }
    for k in ["verdict.accept", "verdict.reject", "batch.single", "real"] { ctx.require(k, 30); }
    ctx.require("batch.empty", 3);
    ctx.require("batch.partly_equal", 20);
    ctx.require("batch.coincidence", 20);
    Ok(())
}

struct Srs {
    bits: u8,
    gens: EncryptionGens<E>,
    pk: ProvingKey<E>,
    pvk: PreparedVerifyingKey<E>,
    /// (encryption key, its prepared form)
    eks: Vec<(EncryptionKey<E>, PreparedEncryptionKey<E>)>,
    pgens: PreparedEncryptionGens<E>,
}
impl Srs {
    fn new(rng: &mut StdRng, bits: u8) -> Result<Self, String> {
        let gens = EncryptionGens::<E>::new_using_rng(rng);
        let (pk, _, ek, _) = ok!("setup_for_groth16", setup_for_groth16(rng, bits, &gens));
        let g_i = get_gs_for_encryption(&pk.pk.vk).to_vec();
        let g = make_group_with(rng, &gens, &g_i, &pk.pk.delta_g1, &pk.gamma_g1, bits, 3)?;
        let (_, ek2, _) = ok!("keygen", keygen(rng, bits, &gens, &g_i, &pk.pk.delta_g1, &pk.gamma_g1));
        let pvk = prepare_verifying_key(&pk.pk.vk);
        let eks = [ek, g.ek, ek2].into_iter().map(|e| { let p = PreparedEncryptionKey::from(e.clone()); (e, p) }).collect();
        let pgens = PreparedEncryptionGens::from(gens.clone());
        Ok(Srs { bits, gens, pk, pvk, eks, pgens })
    }
    fn g_i(&self) -> &[G1Affine] {
        get_gs_for_encryption(&self.pk.pk.vk)
    }
}
/// e(A,B) = e(alpha,beta) e(C,delta) e(D,gamma), from the plain verification key
fn groth_equation(vk: &VerifyingKey<E>, p: &Proof<E>, ct: &Ct) -> bool {
    let mut d = ct.X_r.into_group() + vk.gamma_abc_g1[0];
    for c in &ct.enc_chunks { d += c; }
    pair(p.a, p.b) == pair(vk.alpha_g1, vk.beta_g2) + pair(p.c, vk.delta_g2) + pair(d, vk.gamma_g2)
}
/// prod e(c_i, Z_i) = e(psi, H)
fn commitment_equation(ek: &EncryptionKey<E>, gens: &EncryptionGens<E>, ct: &Ct) -> bool {
    if ct.enc_chunks.len() + 1 != ek.Z.len() { return false; }
    let mut acc = pair(ct.X_r, ek.Z[0]);
    for (c, z) in ct.enc_chunks.iter().zip(&ek.Z[1..]) { acc += pair(*c, *z); }
    acc == pair(ct.commitment, gens.H)
}
fn proof_verdict(r: Result<(), SaverError>) -> Result<bool, String> {
    Ok(r.is_ok())
}
/// Both verdicts against both equations; returns (proof alone, jointly)
fn judge(what: &str, s: &Srs, key: usize, p: &Proof<E>, ct: &Ct) -> Result<(bool, bool), String> {
    let e1 = groth_equation(&s.pk.pk.vk, p, ct);
    let v1 = proof_verdict(call!("verify_proof", verify_proof(&s.pvk, p, ct))).map_err(|e| format!("{what}: {e}"))?;
    ensure!(v1 == e1, "{what}: verify_proof {} although the pairing equation {}", if v1 { "accepted" } else { "rejected" }, if e1 { "holds" } else { "does not hold" });
    let e2 = commitment_equation(&s.eks[key].0, &s.gens, ct);
    let v2 = proof_verdict(call!("verify_commitment_and_proof", ct.verify_commitment_and_proof(p, &s.pvk, s.eks[key].1.clone(), s.pgens.clone()))).map_err(|e| format!("{what}: {e}"))?;
    ensure!(v2 == (e1 && e2), "{what}: joint verification {} although proof equation {e1}, commitment equation {e2}", if v2 { "accepted" } else { "rejected" });
    Ok((v1, v2))
}

pub fn c10(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation judges honest, altered, mixed and dishonestly made proofs with verify_proof and joint verification and compares both verdicts with independently computed pairing equations, and the joint verdict with what it must be; distinct_nontrivial counts distinct (chunk size, key, alteration, position, verdicts)");
    let mut all: Vec<Srs> = vec![];
    let per = ctx.n(2, 2);
    for bits in [16u8, 8, 4] {
        let n = if bits == 4 { ctx.n(1, 2) } else { per };
        all.extend(mk(ctx, &format!("srs{bits}"), n, |rng| Srs::new(rng, bits))?);
    }
    let all = &all;
    let find = |bits: u8, k: usize| -> &Srs { let v: Vec<&Srs> = all.iter().filter(|s| s.bits == bits).collect(); v[k % v.len()] };
    let plan: Vec<u8> = { let mut v = vec![]; for _ in 0..ctx.n(14, 250) { v.extend([16u8, 16, 8, 16]); } for _ in 0..ctx.n(5, 80) { v.push(4); } v };
    let plan = &plan;
    ctx.cases("tamper", plan.len() as u64, |c| {
        let bits = plan[c.idx as usize];
        let s = find(bits, c.idx as usize / 4);
        let key = c.rng.gen_range(0..3usize);
        let n = chunks_for(bits);
        let edges = edge_messages(bits);
        let m = if c.idx % 3 == 0 { edges[c.rng.gen_range(0..edges.len())] } else { random_message(&mut c.rng, bits) };
        let ek = &s.eks[key].0;
        let (ct, r, p) = ok!("encrypt_with_proof", Enc::encrypt_with_proof(&mut c.rng, &m, ek, &s.pk, bits));
        let (v1, v2) = judge("honest proof", s, key, &p, &ct)?;
        ensure!(v1 && v2, "honest proof of {m} ({bits} bits, key {key}) rejected (alone {v1}, jointly {v2})");
        // plain parameters give the same verdict
        ok!("joint verification with plain parameters", ct.verify_commitment_and_proof(&p, &s.pvk, ek.clone(), s.gens.clone()));
        let d = ok!("calculate_d", calculate_d(&s.pvk, &ct));
        ok!("verify_qap_proof", verify_qap_proof(&s.pvk, p.a, p.b, p.c, d));
        c.count("honest", 1);
        // a second proof for the same ciphertext is different and valid
        let vals: Vec<Fr> = ref_decompose(&m, bits).iter().map(|x| small(*x as u64)).collect();
        let p2 = ok!("create_proof", create_proof(BitsizeCheckCircuit::new(bits, Some(n as u8), Some(vals.clone()), true), &r, &s.pk, ek, &mut c.rng));
        ensure!(p2.a != p.a && p2.b != p.b && p2.c != p.c, "two proofs share a component");
        let (v1, v2) = judge("second proof", s, key, &p2, &ct)?;
        ensure!(v1 && v2, "second honest proof rejected");
        // another message, another randomness
        let m2 = random_message(&mut c.rng, bits) + Fr::one();
        let (ct3, _, p3) = ok!("encrypt_with_proof", Enc::encrypt_with_proof(&mut c.rng, &m2, ek, &s.pk, bits));
        let (ct4, _) = ok!("encrypt", Enc::encrypt(&mut c.rng, &m, ek, s.g_i(), bits));
        let i = c.rng.gen_range(0..n);
        let j = (i + c.rng.gen_range(1..n)) % n;
        let g = s.gens.G;
        let shift = |x: &G1Affine| (x.into_group() + g).into_affine();
        let honest = p.clone();
        let mut trials: Vec<(String, Proof<E>, Ct, usize)> = vec![];
        let mut add = |w: &str, p: Proof<E>, ct: Ct, k: usize| trials.push((w.to_string(), p, ct, k));
        add("A shifted", Proof { a: shift(&p.a), ..p.clone() }, ct.clone(), key);
        add("A negated", Proof { a: (-p.a.into_group()).into_affine(), ..p.clone() }, ct.clone(), key);
        add("B shifted", Proof { b: (p.b.into_group() + s.gens.H).into_affine(), ..p.clone() }, ct.clone(), key);
        add("C shifted", Proof { c: shift(&p.c), ..p.clone() }, ct.clone(), key);
        add("C zeroed", Proof { c: G1Affine::zero(), ..p.clone() }, ct.clone(), key);
        add("A zeroed", Proof { a: G1Affine::zero(), ..p.clone() }, ct.clone(), key);
        add("all zero", Proof { a: G1Affine::zero(), b: G2Affine::zero(), c: G1Affine::zero() }, ct.clone(), key);
        add("A of the other proof", Proof { a: p2.a, ..p.clone() }, ct.clone(), key);
        add("C of the other proof", Proof { c: p2.c, ..p.clone() }, ct.clone(), key);
        add("proof of another message", p3.clone(), ct.clone(), key);
        add("ciphertext of another message", p.clone(), ct3.clone(), key);
        add("other randomness", p.clone(), ct4.clone(), key);
        add("other key", p.clone(), ct.clone(), (key + 1) % 3);
        add("without the key's term", Proof { c: (p.c.into_group() - mul1(ek.P_2, &r)).into_affine(), ..p.clone() }, ct.clone(), key);
        add("twice the key's term", Proof { c: (p.c.into_group() + mul1(ek.P_2, &r)).into_affine(), ..p.clone() }, ct.clone(), key);
        let mut x = ct.clone(); x.X_r = shift(&x.X_r); add("X_r shifted", p.clone(), x, key);
        let mut x = ct.clone(); x.enc_chunks[i] = shift(&x.enc_chunks[i]); add("chunk shifted", p.clone(), x, key);
        let mut x = ct.clone(); x.enc_chunks[i] = (x.enc_chunks[i].into_group() + s.g_i()[i]).into_affine(); add("chunk value raised", p.clone(), x, key);
        let mut x = ct.clone(); x.enc_chunks[n - 1] = (x.enc_chunks[n - 1].into_group() + s.g_i()[n - 1]).into_affine(); add("last chunk value raised", p.clone(), x, key);
        let mut x = ct.clone(); x.commitment = shift(&x.commitment); add("commitment shifted", p.clone(), x, key);
        let mut x = ct.clone(); x.enc_chunks.swap(i, j); add("chunks exchanged", p.clone(), x, key);
        let mut x = ct.clone(); let t = x.X_r; x.X_r = x.enc_chunks[i]; x.enc_chunks[i] = t; add("X_r and chunk exchanged", p.clone(), x, key);
        let mut x = ct.clone(); x.enc_chunks[i] = shift(&x.enc_chunks[i]); x.enc_chunks[j] = (x.enc_chunks[j].into_group() - g).into_affine(); add("value moved between chunks", p.clone(), x, key);
        let mut x = ct.clone(); x.X_r = shift(&x.X_r); x.enc_chunks[j] = (x.enc_chunks[j].into_group() - g).into_affine(); add("value moved between X_r and chunk", p.clone(), x, key);
        // the same alteration with a recomputed commitment, so that the proof alone has to catch it
        let ch: Vec<u16> = ref_decompose(&m, bits);
        let mut hi = ch.iter().map(|x| small(*x as u64)).collect::<Vec<_>>();
        hi[i] += Fr::one();
        add("commitment consistent, chunk raised by one", p.clone(), hand_ct(ek, s.g_i(), &hi, &r), key);
        let mut hi2 = ch.iter().map(|x| small(*x as u64)).collect::<Vec<_>>();
        hi2[i] += small(1u64 << bits);
        add("commitment consistent, chunk raised by the radix", p.clone(), hand_ct(ek, s.g_i(), &hi2, &r), key);
        for (w, p, ct2, k) in trials {
            // the unaltered pair right before, as a verifier that remembers it would need
            if c.rng.gen_bool(0.3) {
                ok!("honest proof between altered ones", ct.verify_commitment_and_proof(&honest, &s.pvk, s.eks[key].1.clone(), s.pgens.clone()));
            }
            let what = format!("{w} ({bits} bits, key {key}, chunks {i},{j})");
            let (v1, v2) = judge(&what, s, k, &p, &ct2)?;
            if ct2 == ct && k == key && (p == p2) { continue; }
            if ct2 == ct && k == key && p.a == p3.a { /* still another message */ }
            ensure!(!v2, "{what}: joint verification accepted");
            c.count("altered", 1);
            c.count(&format!("altered.{w}"), 1);
            c.seen((bits, key, &w, i, v1, v2));
        }
        // terms of the equation scaled by small factors, -1 and 0 among them, all alike in half of the cases
        for t in 0..3 {
            let f = |rng: &mut StdRng| match rng.gen_range(0..6) { 0 | 1 => -Fr::one(), 2 => Fr::zero(), 3 => small(2), 4 => Fr::one(), _ => nz(rng) };
            let k0 = if t == 0 { -Fr::one() } else { f(&mut c.rng) };
            let [ka, kc, kd] = if t < 2 { [k0; 3] } else { [k0, f(&mut c.rng), f(&mut c.rng)] };
            let d: G1Projective = ct.enc_chunks.iter().fold(ct.X_r.into_group() + s.pk.pk.vk.gamma_abc_g1[0], |a, x| a + x);
            let mut x = ct.clone();
            x.X_r = (x.X_r.into_group() + d * (kd - Fr::one())).into_affine();
            let q = Proof { a: mul1(p.a, &ka).into_affine(), b: p.b, c: mul1(p.c, &kc).into_affine() };
            let w = format!("terms of the equation scaled by {ka}, {kc}, {kd} ({bits} bits, key {key})");
            let (v1, v2) = judge(&w, s, key, &q, &x)?;
            let same = ka.is_one() && kc.is_one() && kd.is_one();
            ensure!(v1 == same && v2 == same, "{w}: alone {v1}, jointly {v2}");
            let dk = (d * kd).into_affine();
            let v3 = call!("verify_qap_proof", verify_qap_proof(&s.pvk, q.a, q.b, q.c, dk)).is_ok();
            ensure!(v3 == same, "{w}: verify_qap_proof {v3}");
            c.count("scaled", 1);
        }
        // other ciphertexts with the same sum of components, equal, opposite and neutral ones among them: the proof
        // alone is judged by the sum, so it has to be accepted with those whose sum is right and with no others
        for k in (0..6).filter(|k| (k + c.idx) % 2 == 0).collect::<Vec<_>>() {
            let mut v: Vec<G1Projective> = vec![ct.X_r.into_group()];
            v.extend(ct.enc_chunks.iter().map(|x| x.into_group()));
            let total: G1Projective = v.iter().sum();
            let half = small(2).inverse().unwrap();
            let what = match k {
                0 => { let a = c.rng.gen_range(0..n); let x = (v[a] + v[a + 1]) * half; v[a] = x; v[a + 1] = x; "two neighbours averaged" }
                1 => { let x = (v[i + 1] + v[j + 1]) * half; v[i + 1] = x; v[j + 1] = x; "two components averaged" }
                2 => { let a = c.rng.gen_range(0..n); let x = v[a] + v[a + 1]; let (p, q) = if c.rng.gen() { (a, a + 1) } else { (a + 1, a) }; v[p] = x; v[q] = G1Projective::zero(); "a component moved into its neighbour" }
                3 => { let x = total * small(n as u64 + 1).inverse().unwrap(); for y in v.iter_mut() { *y = x; } "everything averaged" }
                4 => { let a = c.rng.gen_range(0..=n); for y in v.iter_mut() { *y = G1Projective::zero(); } v[a] = total; "everything in one component" }
                _ => {
                    // in a row, each like, opposite to or unlike the one before it; one of them makes up the difference
                    for a in 1..=n { v[a] = match c.rng.gen_range(0..6) { 0 | 1 => v[a - 1], 2 => -v[a - 1], 3 => G1Projective::zero(), 4 => v[a - 1].double(), _ => v[a] }; }
                    let a = c.rng.gen_range(0..=n);
                    let rest: G1Projective = v.iter().enumerate().filter(|(b, _)| *b != a).map(|(_, x)| *x).sum();
                    v[a] = total - rest;
                    "components redistributed"
                }
            };
            for off in [false, true] {
                if off { let a = c.rng.gen_range(0..=n); let b = c.rng.gen_range(0..=n); let x = v[b]; if x.is_zero() { continue; } if c.rng.gen() { v[a] += x } else { v[a] -= x } }
                let mut y: Vec<G1Affine> = v.iter().map(|x| x.into_affine()).collect();
                y.push(ct.commitment);
                let w = format!("{what}{} ({bits} bits, key {key})", if off { ", then one added or taken away" } else { "" });
                let (v1, v2) = judge(&w, s, key, &p, &vec_ct(&y))?;
                ensure!(!v2 || vec_ct(&y) == ct, "{w}: joint verification accepted");
                ensure!(v1 != off, "{w}: the proof alone {}", if v1 { "accepted" } else { "rejected although the sum is the same" });
                c.count(if off { "same_sum.off" } else { "same_sum" }, 1);
                c.seen((bits, key, what, off));
            }
        }
        // a re-randomised proof satisfies the equation
        let z = nz(&mut c.rng);
        let pr = Proof { a: mul1(p.a, &z).into_affine(), b: mul2(p.b, &z.inverse().unwrap()).into_affine(), c: p.c };
        let (v1, v2) = judge("re-randomised proof", s, key, &pr, &ct)?;
        ensure!(v1 && v2, "re-randomised proof rejected");
        // dropping or adding chunks
        let mut x = ct.clone(); x.enc_chunks.remove(i);
        ensure!(call!("joint verification", x.verify_commitment_and_proof(&p, &s.pvk, s.eks[key].1.clone(), s.pgens.clone())).is_err(), "ciphertext with a chunk dropped accepted");
        let mut x = ct.clone(); x.enc_chunks.push(G1Affine::zero());
        ensure!(call!("joint verification", x.verify_commitment_and_proof(&p, &s.pvk, s.eks[key].1.clone(), s.pgens.clone())).is_err(), "ciphertext with a chunk added accepted");
        c.count("altered.count", 2);
        // the same verification key with one element changed
        {
            let good = &s.pk.pk.vk;
            let mut vks = vec![];
            let mut add = |what: &'static str, f: &dyn Fn(&mut VerifyingKey<E>)| { let mut v = good.clone(); f(&mut v); vks.push((what, v)); };
            let h = s.gens.H;
            add("alpha", &|v| v.alpha_g1 = shift(&v.alpha_g1));
            add("beta", &|v| v.beta_g2 = (v.beta_g2.into_group() + h).into_affine());
            add("gamma", &|v| v.gamma_g2 = (v.gamma_g2.into_group() + h).into_affine());
            add("delta", &|v| v.delta_g2 = (v.delta_g2.into_group() + h).into_affine());
            add("gamma and delta exchanged", &|v| std::mem::swap(&mut v.gamma_g2, &mut v.delta_g2));
            add("constant input element", &|v| v.gamma_abc_g1[0] = shift(&v.gamma_abc_g1[0]));
            let (what, vk) = vks.swap_remove(c.rng.gen_range(0..vks.len()));
            let pvk = prepare_verifying_key(&vk);
            for first in [true, false] {
                if first { ok!("honest proof", verify_proof(&s.pvk, &p, &ct)); } else { ok!("honest proof", ct.verify_commitment_and_proof(&p, &s.pvk, s.eks[key].1.clone(), s.pgens.clone())); }
                let e1 = groth_equation(&vk, &p, &ct);
                let v1 = proof_verdict(call!("verify_proof", verify_proof(&pvk, &p, &ct)))?;
                ensure!(v1 == e1, "proof {} under a verification key with another {what} although the pairing equation {}", if v1 { "accepted" } else { "rejected" }, if e1 { "holds" } else { "does not hold" });
                let v2 = proof_verdict(call!("verify_commitment_and_proof", ct.verify_commitment_and_proof(&p, &pvk, s.eks[key].1.clone(), s.pgens.clone())))?;
                ensure!(v2 == e1, "proof {} jointly under a verification key with another {what} although the pairing equation {}", if v2 { "accepted" } else { "rejected" }, if e1 { "holds" } else { "does not hold" });
                c.count("altered.vk", 1);
                c.seen((bits, key, "vk", what, v1));
            }
        }
        // another SRS of the same chunk size
        let others: Vec<&Srs> = all.iter().filter(|o| o.bits == bits && !std::ptr::eq(*o, s)).collect();
        if let Some(o) = others.first() {
            ok!("honest proof", ct.verify_commitment_and_proof(&p, &s.pvk, s.eks[key].1.clone(), s.pgens.clone()));
            let (v1, v2) = judge("other setup", o, key, &p, &ct)?;
            ensure!(!v1 && !v2, "proof accepted under another setup");
            c.count("altered.setup", 1);
        }
        c.sample(|| format!("{bits}-bit, key {key}, message {m}: honest accepted, 26 alterations at chunk {i} judged"));
        Ok(())
    });
    // values out of range, with the best a cheating prover can do through the public interface
    let dplan: Vec<u8> = { let mut v = vec![]; for _ in 0..ctx.n(20, 300) { v.extend([16u8, 8]); } for _ in 0..ctx.n(5, 60) { v.push(4); } v };
    let dplan = &dplan;
    ctx.cases("dishonest", dplan.len() as u64, |c| {
        let bits = dplan[c.idx as usize];
        let s = find(bits, c.idx as usize / 3);
        let n = chunks_for(bits);
        let key = c.rng.gen_range(0..3usize);
        let ek = &s.eks[key].0;
        let mut vals: Vec<Fr> = rand_chunks(&mut c.rng, n, bits).iter().map(|x| small(*x as u64)).collect();
        let i = [0, n - 1, c.rng.gen_range(0..n)][c.idx as usize % 3];
        let top = small(2).pow([bits as u64]);
        let high = c.rng.gen_range(bits as u64..255);
        let (v, kind) = match c.rng.gen_range(0..8) {
            0 => (top, "2^b"),
            1 => (top + small(c.rng.gen_range(1..1 << bits)), "2^b + small"),
            2 => (top.double() , "2^(b+1)"),
            3 => (top + top.double(), "two high bits"),
            4 => (-Fr::one(), "-1"),
            5 => (small(2).pow([high]), "one high bit"),
            6 => (Fr::rand(&mut c.rng), "random"),
            _ => (vals[i] + top, "honest + 2^b"),
        };
        vals[i] = v;
        let r = nz(&mut c.rng);
        let ct = hand_ct(ek, s.g_i(), &vals, &r);
        ensure!(commitment_equation(ek, &s.gens, &ct), "harness: hand-made ciphertext");
        // the circuit's own assignment for the true values; a refusal to prove is fine
        let circuit = BitsizeCheckCircuit::new(bits, Some(n as u8), Some(vals.clone()), true);
        match guard(|| create_proof(circuit, &r, &s.pk, ek, &mut c.rng)) {
            Ok(Ok(p)) => {
                let (v1, v2) = judge("out of range", s, key, &p, &ct)?;
                ensure!(!v1 && !v2, "proof for chunk {i} = {kind} ({bits} bits) accepted (alone {v1}, jointly {v2})");
                c.count("dishonest.proofs", 1);
            }
            _ => c.count("dishonest.refused", 1),
        }
        // a proof for the in-range remainder
        let mut low = vals.clone();
        low[i] = small(v.into_bigint().0[0] & ((1u64 << bits) - 1));
        let p = ok!("create_proof", create_proof(BitsizeCheckCircuit::new(bits, Some(n as u8), Some(low.clone()), true), &r, &s.pk, ek, &mut c.rng));
        if low != vals {
            let (v1, v2) = judge("remainder proof", s, key, &p, &ct)?;
            ensure!(!v1 && !v2, "proof for the remainder of chunk {i} = {kind} accepted");
            c.count("dishonest.proofs", 1);
        }
        let lct = hand_ct(ek, s.g_i(), &low, &r);
        let (v1, v2) = judge("honest remainder", s, key, &p, &lct)?;
        ensure!(v1 && v2, "honest proof over chunk values rejected");
        c.seen((bits, i, kind));
        c.sample(|| format!("{bits}-bit, chunk {i} = {kind}: not provable"));
        Ok(())
    });
    for k in ["honest", "altered", "altered.setup", "altered.vk", "altered.count", "dishonest.proofs", "same_sum", "same_sum.off", "altered.chunks exchanged", "altered.value moved between chunks"] { ctx.require(k, 20); }
    Ok(())
}
/// Ciphertext of arbitrary field elements as chunks
pub fn hand_ct(ek: &EncryptionKey<E>, g_i: &[G1Affine], vals: &[Fr], r: &Fr) -> Ct {
    let mut psi = mul1(ek.P_1, r);
    let mut enc = vec![];
    for (i, m) in vals.iter().enumerate() {
        enc.push((mul1(ek.X[i], r) + mul1(g_i[i], m)).into_affine());
        psi += mul1(ek.Y[i], m);
    }
    Ct { X_r: mul1(ek.X_0, r).into_affine(), enc_chunks: enc, commitment: psi.into_affine() }
}
#[allow(dead_code)]
fn _unused(c: BitsizeCheckCircuit<Fr>, g: &EncryptionGens<E>, r: &mut StdRng) {
    let _ = generate_srs::<E, _, _>(c, g, r);
}
