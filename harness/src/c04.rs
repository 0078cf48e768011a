//! C04 distributed key generation, C05 re-encryption, C06 nothing opens early, C07 addition.
use crate::c01::mk;
use crate::ctx::*;
use crate::model::*;
use crate::{call, ensure, must_err, ok};
use dist_saver::utils;

/// Hand-made partial key of one party from its secrets
fn ref_partial(w: &World, s: &[Fr], t: &[Fr]) -> FEncryptionKeyPartial<E> {
    FEncryptionKeyPartial {
        X_0: w.delta_g,
        X: s.iter().map(|x| w.g(&(w.delta * x))).collect(),
        Y: (0..s.len()).map(|i| w.g(&(w.a[i] * t[i + 1]))).collect(),
        Z: t.iter().map(|x| w.h(x)).collect(),
        P_2: w.g(&(w.gamma * s.iter().sum::<Fr>())),
    }
}
fn compare_partial(what: &str, got: &FEncryptionKeyPartial<E>, want: &FEncryptionKeyPartial<E>) -> R {
    ensure!(got.X.len() == want.X.len(), "{what}: X has {} entries, expected {}", got.X.len(), want.X.len());
    ensure!(got.Y.len() == want.Y.len(), "{what}: Y has {} entries, expected {}", got.Y.len(), want.Y.len());
    ensure!(got.Z.len() == want.Z.len(), "{what}: Z has {} entries, expected {}", got.Z.len(), want.Z.len());
    ensure!(got.X_0 == want.X_0, "{what}: X_0 differs");
    for i in 0..want.X.len() {
        ensure!(got.X[i] == want.X[i], "{what}: X[{i}] differs");
        ensure!(got.Y[i] == want.Y[i], "{what}: Y[{i}] differs");
    }
    for i in 0..want.Z.len() {
        ensure!(got.Z[i] == want.Z[i], "{what}: Z[{i}] differs");
    }
    ensure!(got.P_2 == want.P_2, "{what}: P_2 differs");
    Ok(())
}
/// Party secrets with corner cases: equal parties, cancelling parties, zero entries
fn party_secrets(rng: &mut StdRng, n: usize, parties: usize, style: u64) -> Vec<(Vec<Fr>, Vec<Fr>)> {
    let mut v: Vec<(Vec<Fr>, Vec<Fr>)> =
        (0..parties).map(|_| ((0..n).map(|_| nz(rng)).collect(), (0..=n).map(|_| nz(rng)).collect())).collect();
    match style {
        1 if parties > 1 => {
            let j = rng.gen_range(1..parties);
            v[j] = v[0].clone();
        }
        2 if parties > 1 => {
            let j = rng.gen_range(1..parties);
            v[j] = (v[0].0.iter().map(|x| -*x).collect(), v[0].1.iter().map(|x| -*x).collect());
        }
        3 => {
            for (s, t) in v.iter_mut() {
                let i = rng.gen_range(0..n);
                s[i] = Fr::zero();
                t[rng.gen_range(0..=n)] = Fr::zero();
            }
        }
        4 => {
            for (s, t) in v.iter_mut() {
                for x in s.iter_mut().chain(t.iter_mut()) {
                    *x = small(rng.gen_range(0..3));
                }
            }
        }
        5 => {
            // each secret related to the one before it, in the same party and in the party before
            for p in 0..parties {
                for i in 0..n {
                    if rng.gen_bool(0.5) { let x = if p > 0 && rng.gen_bool(0.5) { v[p - 1].0[i] } else { v[p].0[i.max(1) - 1] }; v[p].0[i] = related(rng, &x); }
                    if rng.gen_bool(0.5) { let x = if p > 0 && rng.gen_bool(0.5) { v[p - 1].1[i + 1] } else { v[p].1[i] }; v[p].1[i + 1] = related(rng, &x); }
                }
            }
        }
        6 => {
            // parties whose secrets cancel among themselves: their sum, their products, one plus their sum
            for (s, t) in v.iter_mut() {
                match rng.gen_range(0..6) {
                    0 | 1 => { let x: Fr = s[1..].iter().sum(); s[0] = -x; }
                    2 => { let x: Fr = s[1..].iter().sum(); s[0] = -x - Fr::one(); }
                    3 => { let x: Fr = t[1..].iter().sum(); t[0] = -x; }
                    4 => { let x: Fr = s.iter().zip(&t[1..]).map(|(a, b)| *a * b).sum(); t[0] = -x; }
                    _ => {}
                }
            }
        }
        7 => {
            // the group's secrets cancel: in one place, their sum, one plus their sum, or their products
            let l = parties - 1;
            let col = |v: &[(Vec<Fr>, Vec<Fr>)], i: usize| -> Fr { v[..l].iter().map(|x| x.0[i]).sum() };
            match rng.gen_range(0..5) {
                0 => { let i = rng.gen_range(0..n); v[l].0[i] = -col(&v, i); }
                1 => { let i = rng.gen_range(0..=n); let x: Fr = v[..l].iter().map(|x| x.1[i]).sum(); v[l].1[i] = -x; }
                k => {
                    let all: Fr = v.iter().flat_map(|x| x.0.iter()).sum();
                    if k < 4 { v[l].0[0] -= all; if k == 3 { v[l].0[0] -= Fr::one(); } } else {
                        let s: Vec<Fr> = (0..n).map(|i| v.iter().map(|x| x.0[i]).sum()).collect();
                        let t: Vec<Fr> = (0..=n).map(|i| v.iter().map(|x| x.1[i]).sum()).collect();
                        v[l].1[0] -= t[0] + s.iter().zip(&t[1..]).map(|(a, b)| *a * b).sum::<Fr>();
                    }
                }
            }
        }
        _ => {}
    }
    v
}

pub fn c04(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation runs distributed key generation for one group and compares every partial key, share and final component with the key of one dealer holding the summed secrets, recombining in several orders; distinct_nontrivial counts distinct (chunk count, parties, style, arrival order)");
    let counts = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33];
    // with the crate's own partial key generation
    ctx.cases("generated", ctx.n(46, 900), |c| {
        let bits = match c.idx % 8 { 0 => 4u8, 1 => 8, _ => 16 };
        let p = match c.idx % 8 { 0 => [2usize, 3, 5][c.rng.gen_range(0..3)], 1 => [1, 3, 4, 7][c.rng.gen_range(0..4)], _ => counts[(c.idx as usize / 2) % 9] };
        let n = chunks_for(bits);
        let extra = c.rng.gen_range(0..3);
        let w = World::new(&mut c.rng, n + extra);
        let mut sks = vec![];
        let mut parts = vec![];
        for _ in 0..p {
            let (sk, pk) = ok!("FkeygenPartial", FkeygenPartial(&mut c.rng, bits, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
            ensure!(sk.s.len() == n && sk.t.len() == n + 1, "party secret has {} and {} entries for {n} chunks", sk.s.len(), sk.t.len());
            compare_partial("partial key of one party", &pk, &ref_partial(&w, &sk.s, &sk.t))?;
            c.count("partial_keys", 1);
            sks.push(sk);
            parts.push(pk);
        }
        let secrets: Vec<(Vec<Fr>, Vec<Fr>)> = sks.iter().map(|k| (k.s.clone(), k.t.clone())).collect();
        check_group(c, &w, &secrets, &sks, &parts, 2)?;
        c.sample(|| format!("{p} parties, {bits}-bit chunks"));
        Ok(())
    });
    // with hand-made partial keys of any size
    ctx.cases("handmade", ctx.n(260, 5000), |c| {
        let n = match c.idx % 4 { 0 => 1, 1 => c.rng.gen_range(2..5), 2 => c.rng.gen_range(1..20), _ => some_n(&mut c.rng) };
        let p = if c.idx % 67 == 66 { [257usize, 65, 300, 129, 256, 128, 255, 64, 100][(c.idx / 67) as usize % 9] } else { counts[c.idx as usize % counts.len()] };
        let n = if p > 33 { n.min(2) } else if n > 20 { n.min(400 / p) } else { n };
        let w = World::mixed(&mut c.rng, n);
        let style = c.idx / 2 % 8;
        let secrets = party_secrets(&mut c.rng, n, p, style);
        let sks: Vec<SecretKeyST<E>> = secrets.iter().map(|(s, t)| SecretKeyST { s: s.clone(), t: t.clone() }).collect();
        let parts: Vec<_> = secrets.iter().map(|(s, t)| ref_partial(&w, s, t)).collect();
        c.count(&format!("style{style}"), 1);
        c.sample(|| format!("{p} parties, {n} chunks, style {style}"));
        check_group(c, &w, &secrets, &sks, &parts, 3)
    });
    ctx.require("final_keys", 100);
    ctx.require("partial_keys", 50);
    ctx.require("orders", 200);
    Ok(())
}
fn check_group(c: &mut Case, w: &World, secrets: &[(Vec<Fr>, Vec<Fr>)], sks: &[SecretKeyST<E>], parts: &[FEncryptionKeyPartial<E>], orders: usize) -> R {
    let n = secrets[0].0.len();
    let p = secrets.len();
    let s: Vec<Fr> = (0..n).map(|i| secrets.iter().map(|x| x.0[i]).sum()).collect();
    let t: Vec<Fr> = (0..=n).map(|i| secrets.iter().map(|x| x.1[i]).sum()).collect();
    let dealer = Secrets { s: s.clone(), t: t.clone(), v: vec![], rho: Fr::one() };
    let want = dealer.ek(w);
    let mut want_comb = ref_partial(w, &s, &t);
    want_comb.P_2 = want.P_2;
    for o in 0..orders {
        let perm: Vec<usize> = match o { 0 => (0..p).collect(), 1 => (0..p).rev().collect(), _ => permutation(&mut c.rng, p) };
        let list: Vec<_> = perm.iter().map(|i| parts[*i].clone()).collect();
        let comb = call!("combineEKs", combineEKs(&w.gamma_g, &list));
        compare_partial(&format!("combined key of {p} parties, order {perm:?}"), &comb, &want_comb)?;
        let mut shares = vec![];
        for (j, sk) in sks.iter().enumerate() {
            let sh = call!("genP1share", genP1share(&comb, sk));
            let e = secrets[j].1[0] + (0..n).map(|i| s[i] * secrets[j].1[i + 1]).sum::<Fr>();
            ensure!(sh.P_1 == w.g(&(w.delta * e)), "P_1 share of party {j} of {p} is not its own contribution");
            c.count("shares", 1);
            shares.push(sh);
        }
        let perm2 = if o == 0 { (0..p).collect() } else { permutation(&mut c.rng, p) };
        let sl: Vec<_> = perm2.iter().map(|i| shares[*i].clone()).collect();
        let p1 = call!("combineP1share", combineP1share(&sl));
        ensure!(p1.P_1 == want.P_1, "combined P_1 of {p} parties in order {perm2:?} differs from the dealer's");
        let ek = call!("keygenFinal", keygenFinal(&comb, &p1));
        ensure!(ek == want, "final key of {p} parties differs from the dealer's");
        ok!("validate", ek.validate());
        ensure!(ok!("count", ek.supported_chunks_count()) as usize == n, "final key reports the wrong chunk count");
        c.count("final_keys", 1);
        c.count("orders", 1);
        c.seen((n, p, perm, perm2, c.kind, c.idx % 5));
    }
    Ok(())
}

/// A group over a small hand-made world
struct Small {
    w: World,
    sks: Vec<SecretKeyST<E>>,
    ek: EncryptionKey<E>,
    dest: Fr,
    ekd: FEncryptionKeyDest<E>,
}
impl Small {
    fn new(rng: &mut StdRng, n: usize, p: usize) -> Self {
        let w = World::mixed(rng, n);
        let sks: Vec<SecretKeyST<E>> = (0..p)
            .map(|_| SecretKeyST { s: (0..n).map(|_| nz(rng)).collect(), t: (0..=n).map(|_| nz(rng)).collect() })
            .collect();
        let s: Vec<Fr> = (0..n).map(|i| sks.iter().map(|k| k.s[i]).sum()).collect();
        let t: Vec<Fr> = (0..=n).map(|i| sks.iter().map(|k| k.t[i]).sum()).collect();
        let ek = Secrets { s, t, v: vec![], rho: Fr::one() }.ek(&w);
        let dest = nz(rng);
        let ekd = FEncryptionKeyDest { pk: w.g(&dest) };
        Small { w, sks, ek, dest, ekd }
    }
    fn real(rng: &mut StdRng, bits: u8, p: usize) -> Result<Self, String> {
        let w = World::new(rng, chunks_for(bits));
        let g = make_group(rng, &w, bits, p)?;
        let (sk, ekd) = ok!("Fkeygen_dest", Fkeygen_dest(rng, &w.gens));
        ensure!(ekd.pk == w.g(&sk.0), "destination public key is not G * p");
        Ok(Small { w, sks: g.sks, ek: g.ek, dest: sk.0, ekd })
    }
}
type Share = (Vec<G1Affine>, G1Affine);
fn share(c: &mut Case, g: &Small, ct: &Ct, ekd: &FEncryptionKeyDest<E>, sk: &SecretKeyST<E>) -> Result<Share, String> {
    Ok(ok!("re_encrypt_share", Enc::re_encrypt_share(&mut c.rng, &g.w.gens, &ct.X_r, &ct.enc_chunks, ekd, sk)))
}
fn add_shares(a: &Share, b: &Share) -> Result<Share, String> {
    let r = ok!("combine_re_encrypt_share", Enc::combine_re_encrypt_share(&a.1, &b.1, &a.0, &b.0));
    ensure!(r.0.len() == a.0.len(), "combined share has {} entries, expected {}", r.0.len(), a.0.len());
    for i in 0..a.0.len() {
        ensure!(r.0[i] == (a.0[i].into_group() + b.0[i]).into_affine(), "combined share entry {i} is not the sum");
    }
    ensure!(r.1 == (a.1.into_group() + b.1).into_affine(), "combined share randomness is not the sum");
    Ok(r)
}
/// Folds the shares left to right, or as a random tree
fn fold(rng: &mut StdRng, shares: &[Share], tree: bool) -> Result<Share, String> {
    let mut v = shares.to_vec();
    while v.len() > 1 {
        if tree {
            let i = rng.gen_range(0..v.len());
            let a = v.swap_remove(i);
            let j = rng.gen_range(0..v.len());
            let b = v.swap_remove(j);
            v.push(add_shares(&a, &b)?);
        } else {
            let b = v.remove(1);
            v[0] = add_shares(&v[0].clone(), &b)?;
        }
    }
    Ok(v.pop().unwrap())
}
fn finish(g: &Small, ct: &Ct, s: &Share) -> Result<Vec<G1Affine>, String> {
    let r = ok!("combine_ct_with_w", Enc::combine_ct_with_w(&g.w.gens, &ct.enc_chunks, &s.1, &s.0));
    ensure!(r.len() == ct.enc_chunks.len() + 1, "re-encrypted ciphertext has {} entries, expected {}", r.len(), ct.enc_chunks.len() + 1);
    ensure!(r[0] == s.1, "re-encrypted ciphertext does not start with the combined randomness");
    for i in 0..ct.enc_chunks.len() {
        ensure!(r[i + 1] == (ct.enc_chunks[i].into_group() + s.0[i]).into_affine(), "re-encrypted chunk {i} is not chunk + mask");
    }
    Ok(r)
}
fn check_share(g: &Small, ct: &Ct, sk: &SecretKeyST<E>, dest: &Fr, s: &Share) -> R {
    ensure!(s.0.len() == ct.enc_chunks.len(), "share has {} entries for {} chunks", s.0.len(), ct.enc_chunks.len());
    let blind = mul1(s.1, dest);
    for i in 0..s.0.len() {
        ensure!(s.0[i] == (mul1(ct.X_r, &(-sk.s[i])) + blind).into_affine(), "share entry {i} is not -s_i*X_r + p*g_r");
    }
    let _ = g;
    Ok(())
}

pub fn c05(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation encrypts under a group key, makes every party's share (each compared with -s_i*X_r + p*g_r), combines them in several orders and groupings and decrypts at the destination; distinct_nontrivial counts distinct (chunk size, parties, order, chunks)");
    for bits in [4u8, 8, 16] {
        let groups: Vec<Small> = {
            let mut v = vec![];
            for (i, p) in [2usize, 3, 5, 1, 8].iter().enumerate().take(ctx.n(3, 5) as usize) {
                v.extend(mk(ctx, &format!("group{bits}/{i}"), 1, |rng| Small::real(rng, bits, *p))?);
            }
            v
        };
        let groups = &groups;
        let edges = edge_messages(bits);
        let edges = &edges;
        let n = if bits == 16 { ctx.n(16, 120) } else { ctx.n(30, 500) };
        ctx.cases(&format!("message{bits}"), n, |c| {
            let g = &groups[c.idx as usize % groups.len()];
            let mut m = if c.idx % 2 == 0 { edges[c.idx as usize / 2 % edges.len()] } else { random_message(&mut c.rng, bits) };
            if bits == 16 && c.idx % 8 != 0 {
                // brute force over 16 bits is slow: keep most chunks small
                let keep = c.rng.gen_range(1..16usize);
                let ch: Vec<u16> = ref_decompose(&m, 16).iter().enumerate().map(|(i, x)| if i == keep { *x } else { x & 0x3ff }).collect();
                m = ref_compose(&ch, 16);
            }
            let (ct, _) = ok!("encrypt", Enc::encrypt(&mut c.rng, &m, &g.ek, &g.w.g_i, bits));
            run_case(c, g, &ct, &ref_decompose(&m, bits), bits)?;
            c.sample(|| format!("{bits}-bit message {m}, {} parties", g.sks.len()));
            Ok(())
        });
    }
    let counts = [1usize, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33];
    ctx.cases("chunks", ctx.n(350, 9000), |c| {
        let n = match c.idx % 3 { 0 => 1, 1 => some_n(&mut c.rng), _ => c.rng.gen_range(1..17) };
        let p = if c.idx % 71 == 70 { [257usize, 65, 300, 129, 256, 128][(c.idx / 71) as usize % 6] } else { counts[c.idx as usize % counts.len()] };
        let n = if p > 33 { n.min(2) } else if n > 20 { n.min(400 / p) } else { n };
        let bits = match c.idx % 9 { 0..=3 => 4u8, 4..=7 => 8, _ => if n > 20 { 8 } else { 16 } };
        let mut g = Small::new(&mut c.rng, n, p);
        if c.idx % 13 == 5 {
            // a party whose secret for one chunk is zero, and two equal parties
            g.sks[0].s[0] = Fr::zero();
            if p > 1 { g.sks[p - 1] = g.sks[0].clone(); }
            let s: Vec<Fr> = (0..n).map(|i| g.sks.iter().map(|k| k.s[i]).sum()).collect();
            let t: Vec<Fr> = (0..=n).map(|i| g.sks.iter().map(|k| k.t[i]).sum()).collect();
            g.ek = Secrets { s, t, v: vec![], rho: Fr::one() }.ek(&g.w);
        }
        if c.idx % 17 == 3 {
            // special destination secrets
            g.dest = match c.idx / 17 % 3 { 0 => [Fr::one(), -Fr::one(), small(2), small(65535)][c.rng.gen_range(0..4)], _ => nzx(&mut c.rng) };
            g.ekd = FEncryptionKeyDest { pk: g.w.g(&g.dest) };
        }
        let mut ch = rand_chunks(&mut c.rng, n, bits);
        if bits == 16 && n > 4 { for x in ch.iter_mut().skip(2) { *x &= 0x3ff; } }
        let ct = if c.idx % 29 == 7 {
            // the randomness element may be the identity
            ref_ciphertext(&g.ek, &g.w.g_i, &ch, &Fr::zero())
        } else {
            vec_ct(&ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), &g.ek, &g.w.g_i)).0)
        };
        run_case(c, &g, &ct, &ch, bits)?;
        c.sample(|| format!("{p} parties, {bits}-bit chunks {ch:?}"));
        Ok(())
    });
    // chunk values of every width all over the range, made for the destination directly
    ctx.cases("values", ctx.n(480, 20000), |c| {
        let bits: u8 = if c.idx % 2 == 0 { 16 } else { c.rng.gen_range(1..16) };
        let n = c.rng.gen_range(1..3usize);
        let w = World::mixed(&mut c.rng, n);
        let (d, rho) = (nz(&mut c.rng), nz(&mut c.rng));
        let ch: Vec<u16> = (0..n).map(|_| near_chunk(&mut c.rng, bits)).collect();
        let enc: Vec<G1Affine> = (0..n).map(|i| (w.g(&(d * rho)) + mul1(w.g_i[i], &small(ch[i] as u64))).into_affine()).collect();
        let got = ok!(format!("decrypt_to_chunks_after_re_encryption of {ch:?} ({bits} bits)"), Enc::decrypt_to_chunks_after_re_encryption(&w.g(&rho), &enc, &SecretKey(d), &w.g_i, bits));
        ensure!(got == ch, "decrypt_to_chunks_after_re_encryption gave {got:?} for {ch:?} ({bits} bits)");
        c.count("values", n as u64);
        c.seen((bits, "value", &ch));
        Ok(())
    });
    // combining arbitrary share components: equal, opposite, identity, unrelated
    ctx.cases("algebra", ctx.n(200, 3000), |c| {
        let n = some_n(&mut c.rng);
        let w = World::new(&mut c.rng, 1);
        let a: Vec<G1Affine> = (0..=n).map(|_| w.g(&odd_scalar(&mut c.rng))).collect();
        let style = c.idx % 7;
        let b: Vec<G1Affine> = (0..=n).map(|i| {
            let k = if style == 6 { c.rng.gen_range(0..6) } else { style };
            match k { 0 => a[i], 1 => -a[i], 2 => G1Affine::zero(), 3 => a[n - i], 4 => w.gens.G, _ => w.g(&odd_scalar(&mut c.rng)) }
        }).collect();
        let (x, y) = if c.idx % 2 == 0 { (&a, &b) } else { (&b, &a) };
        let sx: Share = (x[..n].to_vec(), x[n]);
        let sy: Share = (y[..n].to_vec(), y[n]);
        add_shares(&sx, &sy)?;
        let r = ok!("combine_ct_with_w", Enc::combine_ct_with_w(&w.gens, &x[..n], &x[n], &y[..n]));
        ensure!(r.len() == n + 1 && r[0] == x[n], "re-encrypted ciphertext does not start with the combined randomness");
        for i in 0..n { ensure!(r[i + 1] == (x[i].into_group() + y[i]).into_affine(), "re-encrypted chunk {i} of {n} is not chunk + mask (style {style})"); }
        c.count("algebra", 1);
        c.seen(("algebra", n, style, c.idx % 2));
        Ok(())
    });
    for k in ["shares", "decryptions", "orders"] { ctx.require(k, 200); }
    ctx.require("algebra", 100);
    Ok(())
}
fn run_case(c: &mut Case, g: &Small, ct: &Ct, ch: &[u16], bits: u8) -> R {
    let mut shares = vec![];
    for sk in &g.sks {
        let s = share(c, g, ct, &g.ekd, sk)?;
        check_share(g, ct, sk, &g.dest, &s)?;
        c.count("shares", 1);
        shares.push(s);
    }
    let p = shares.len();
    let mut first: Option<Vec<G1Affine>> = None;
    for o in 0..3 {
        let perm: Vec<usize> = match o { 0 => (0..p).collect(), 1 => (0..p).rev().collect(), _ => permutation(&mut c.rng, p) };
        let list: Vec<Share> = perm.iter().map(|i| shares[*i].clone()).collect();
        let s = fold(&mut c.rng, &list, o == 2)?;
        let ct2 = finish(g, ct, &s)?;
        c.count("orders", 1);
        c.seen((bits, p, &perm, ch));
        match &first {
            None => first = Some(ct2),
            Some(f) => ensure!(*f == ct2, "re-encrypted ciphertext depends on the order or grouping of the shares ({p} parties, {perm:?})"),
        }
        if p == 1 { break; }
    }
    let ct2 = first.unwrap();
    let r = ok!(format!("decrypt_to_chunks_after_re_encryption of {ch:?} ({bits} bits, {p} parties)"),
        Enc::decrypt_to_chunks_after_re_encryption(&ct2[0], &ct2[1..], &SecretKey(g.dest), &g.w.g_i, bits));
    ensure!(r == ch, "re-encrypted ciphertext of {ch:?} decrypted to {r:?} ({bits} bits, {p} parties)");
    c.count("decryptions", 1);
    if ch.len() == chunks_for(bits) {
        let m: Fr = ok!("compose", utils::compose(&r, bits));
        ensure!(m == ref_compose(ch, bits), "recomposed message differs");
    }
    Ok(())
}

pub fn c06(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation attempts one unauthorised opening of a group ciphertext (missing, repeated, outsider, foreign or misaddressed share, wrong secret key, unprocessed or half-processed ciphertext), as a whole and chunk by chunk, and requires an error; distinct_nontrivial counts distinct (attack, parties, position, chunk count)");
    let attacks = [
        "missing share", "share repeated instead of another's", "outsider's share instead of a party's", "outsider's share in addition", "share counted twice",
        "share for another ciphertext of the same message", "share for another ciphertext", "share addressed to another destination", "another destination's key",
        "a party's secret as key", "sum of a party's secrets as key", "trivial key", "negated key", "unprocessed ciphertext", "unprocessed ciphertext with randomness of the shares",
        "shares alone", "randomness of one share only", "shares without one randomness", "no shares but a made-up randomness", "ordinary decryption with a made-up decryption key",
    ];
    ctx.cases("attack", ctx.n(700, 12000), |c| {
        let a = c.idx as usize % attacks.len();
        let p = [2usize, 3, 4, 5, 8, 2, 3][(c.idx as usize / attacks.len()) % 7];
        let real = c.idx % 23 == 1;
        let bits = if real { [16u8, 8, 4][c.idx as usize / 23 % 3] } else { [4u8, 8][c.rng.gen_range(0..2)] };
        let g = if real { Small::real(&mut c.rng, bits, p)? } else { let n = some_n(&mut c.rng); Small::new(&mut c.rng, n, p) };
        let n = g.w.n();
        let ch: Vec<u16> = match c.idx % 3 { 0 => rand_chunks(&mut c.rng, n, 4), 1 => vec![0; n], _ => vec![1; n] };
        let (v, _) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), &g.ek, &g.w.g_i));
        let ct = vec_ct(&v);
        let mut shares = vec![];
        for sk in &g.sks { shares.push(share(c, &g, &ct, &g.ekd, sk)?); }
        // what the shares themselves reveal
        for (i, s) in shares.iter().enumerate() {
            ensure!(!s.1.is_zero(), "share of party {i} has no blinding (randomness element is the identity)");
            ensure!(s.1 != g.w.gens.G && s.1 != g.ekd.pk && s.1 != ct.X_r, "share of party {i} has a public element as its randomness");
            for j in 0..n {
                let mask = mul1(ct.X_r, &g.sks[i].s[j]);
                ensure!(s.0[j] != (-mask).into_affine() && s.0[j] != mask.into_affine(), "share of party {i} exposes its unblinded mask for chunk {j}");
                for k in [s.1, g.ekd.pk, g.w.gens.G, ct.X_r] {
                    ensure!(s.0[j] != (k.into_group() - mask).into_affine() && s.0[j] != (-k.into_group() - mask).into_affine(), "share of party {i} blinds chunk {j} with a public element");
                }
                c.count("masks_checked", 1);
            }
            for k in 0..i { ensure!(shares[k].1 != s.1, "parties {k} and {i} used the same blinding"); }
        }
        let key = SecretKey(g.dest);
        let k = c.rng.gen_range(0..p);
        let others: Vec<Share> = (0..p).filter(|i| *i != k).map(|i| shares[i].clone()).collect();
        let with = |c: &mut Case, extra: &[Share]| -> Result<Share, String> { let mut v = others.clone(); v.extend_from_slice(extra); fold(&mut c.rng, &v, c.idx % 2 == 0) };
        let all = fold(&mut c.rng, &shares, false)?;
        let done = finish(&g, &ct, &all)?;
        let outsider = SecretKeyST { s: (0..n).map(|_| nz(&mut c.rng)).collect(), t: (0..=n).map(|_| nz(&mut c.rng)).collect() };
        let (c0, cs, sk): (G1Affine, Vec<G1Affine>, SecretKey<Fr>) = match a {
            0 => { let s = with(c, &[])?; let d = finish(&g, &ct, &s)?; (d[0], d[1..].to_vec(), key) }
            1 => { let j = (k + 1) % p; let x = shares[j].clone(); let s = with(c, &[x])?; let d = finish(&g, &ct, &s)?; (d[0], d[1..].to_vec(), key) }
            2 => { let x = share(c, &g, &ct, &g.ekd, &outsider)?; let s = with(c, &[x])?; let d = finish(&g, &ct, &s)?; (d[0], d[1..].to_vec(), key) }
            3 => { let x = share(c, &g, &ct, &g.ekd, &outsider)?; let y = shares[k].clone(); let s = with(c, &[x, y])?; let d = finish(&g, &ct, &s)?; (d[0], d[1..].to_vec(), key) }
            4 => { let y = shares[k].clone(); let s = with(c, &[y.clone(), y])?; let d = finish(&g, &ct, &s)?; (d[0], d[1..].to_vec(), key) }
            5 | 6 => {
                let ch2 = if a == 5 { ch.clone() } else { rand_chunks(&mut c.rng, n, 4) };
                let ct2 = vec_ct(&ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch2, &g.ek, &g.w.g_i)).0);
                let x = share(c, &g, &ct2, &g.ekd, &g.sks[k])?;
                let s = with(c, &[x])?; let d = finish(&g, &ct, &s)?; (d[0], d[1..].to_vec(), key)
            }
            7 => { let e2 = FEncryptionKeyDest { pk: g.w.g(&nz(&mut c.rng)) }; let x = share(c, &g, &ct, &e2, &g.sks[k])?; let s = with(c, &[x])?; let d = finish(&g, &ct, &s)?; (d[0], d[1..].to_vec(), key) }
            8 => {
                // properly generated second destination
                let (sk2, _) = ok!("Fkeygen_dest", Fkeygen_dest(&mut c.rng, &g.w.gens));
                (done[0], done[1..].to_vec(), SecretKey(sk2.0))
            }
            9 => { let j = c.rng.gen_range(0..n); let x = if c.idx % 2 == 0 { g.sks[k].s[j] } else { g.sks[k].t[j] }; (done[0], done[1..].to_vec(), SecretKey(x)) }
            10 => (done[0], done[1..].to_vec(), SecretKey(g.sks[k].s.iter().sum())),
            11 => { let x = [Fr::zero(), Fr::one(), -Fr::one()][c.idx as usize % 3]; (done[0], done[1..].to_vec(), SecretKey(x)) }
            12 => (done[0], done[1..].to_vec(), SecretKey(-g.dest)),
            13 => (ct.X_r, ct.enc_chunks.clone(), key),
            14 => (all.1, ct.enc_chunks.clone(), key),
            15 => (all.1, all.0.clone(), key),
            16 => (shares[k].1, done[1..].to_vec(), key),
            17 => (fold(&mut c.rng, &others, false)?.1, done[1..].to_vec(), key),
            18 => (g.w.g(&nz(&mut c.rng)), ct.enc_chunks.clone(), key),
            _ => {
                let s = Secrets::new(&mut c.rng, n);
                let dk = s.dk(&g.w);
                for i in 0..n {
                    let one = DecryptionKey { V_0: dk.V_0, V_1: vec![dk.V_1[i]], V_2: vec![dk.V_2[i]] };
                    let e = must_err!(format!("ordinary decryption of a group ciphertext with a made-up key (chunk {i})"), Enc::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks[i..i + 1], &s.sk(), one, &g.w.g_i[i..i + 1], 4));
                    let _ = e;
                    c.count("refused", 1);
                }
                c.count(&format!("attack.{}", attacks[a]), 1);
                return Ok(());
            }
        };
        let what = format!("{} ({p} parties, party {k}, {n} chunks)", attacks[a]);
        if c.rng.gen_bool(0.5) {
            // the authorised opening right before
            let r = ok!("decryption with every share", Enc::decrypt_to_chunks_after_re_encryption(&done[0], &done[1..], &SecretKey(g.dest), &g.w.g_i, bits));
            ensure!(r == ch, "with every share {r:?} instead of {ch:?}");
            c.count("primed", 1);
        }
        let _ = must_err!(format!("decryption after {what}"), Enc::decrypt_to_chunks_after_re_encryption(&c0, &cs, &sk, &g.w.g_i, bits));
        for i in 0..n {
            let wide = if c.idx % 5 == 0 && i == 0 { 12 } else { bits };
            let _ = must_err!(format!("decryption of chunk {i} alone after {what}"), Enc::decrypt_to_chunks_after_re_encryption(&c0, &cs[i..i + 1], &sk, &g.w.g_i[i..i + 1], wide.min(12)));
            c.count("refused", 1);
        }
        // and the proper opening of the same ciphertext works, so the refusals above mean something
        let r = ok!("decryption with every share", Enc::decrypt_to_chunks_after_re_encryption(&done[0], &done[1..], &SecretKey(g.dest), &g.w.g_i, bits));
        ensure!(r == ch, "with every share {r:?} instead of {ch:?}");
        c.count(&format!("attack.{}", attacks[a]), 1);
        c.seen((a, p, k, n, bits));
        c.sample(|| what.clone());
        Ok(())
    });
    for a in attacks { ctx.require(&format!("attack.{a}"), 10); }
    ctx.require("refused", 500);
    Ok(())
}

pub fn c07(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation adds 2..20 ciphertexts under one key in several orders, compares the sum with the encryption of the summed chunks under the summed randomness, verifies it and decrypts it (ordinary key and re-encryption) with sums below, at and above the searched range; distinct_nontrivial counts distinct (path, width, number of summands, sum classes, chunk count)");
    ctx.cases("sums", ctx.n(420, 9000), |c| {
        let k = match c.idx % 5 { 0 => 2, 1 => 3, 2 => c.rng.gen_range(2..8), 3 => c.rng.gen_range(2..21), _ => 2 };
        let bits: u8 = [4, 8, 4, 8, 16, 4][(c.idx as usize / 5) % 6];
        let n = if bits == 4 && k < 4 { some_n(&mut c.rng) } else { c.rng.gen_range(1..7usize) };
        let group = c.idx % 2 == 0;
        let p = c.rng.gen_range(1..4usize);
        let g = Small::new(&mut c.rng, n, p);
        let s = Secrets::new(&mut c.rng, n);
        let (ek, dk) = if group { (g.ek.clone(), None) } else { (s.ek(&g.w), Some(s.dk(&g.w))) };
        // width the sums are searched in
        let width: u8 = match c.rng.gen_range(0..6) { 0 => bits, 1 => bits + 1, 2 => 32, _ => bits * 2 };
        let limit = if width >= 16 { 65535u64 } else { (1u64 << width) - 1 };
        // aim the sum of each chunk: random, at the limit, just above it
        let maxsum = k as u64 * 65535;
        let aim: Vec<u64> = (0..n).map(|_| match c.rng.gen_range(0..8) {
            0 => 0, 1 => limit, 2 | 3 if c.idx % 4 < 2 => limit + 1, 4 if c.idx % 4 < 2 => limit + 2 + c.rng.gen_range(0..70000),
            5 => limit.min(k as u64 * max_chunk(bits) as u64), _ => c.rng.gen_range(0..=limit.min(3000)),
        }.min(maxsum)).collect();
        let mut msgs = vec![vec![0u16; n]; k];
        for i in 0..n {
            let mut left = aim[i];
            for (q, m) in msgs.iter_mut().enumerate() {
                let room = (k - 1 - q) as u64 * 65535;
                let lo = left.saturating_sub(room);
                let hi = left.min(65535);
                m[i] = if lo >= hi { hi } else if c.rng.gen_bool(0.3) { hi.min(lo.max(max_chunk(bits) as u64)) } else { c.rng.gen_range(lo..=hi) } as u16;
                left -= m[i] as u64;
            }
        }
        // the same ciphertext may be added more than once
        let mut twin = vec![None; k];
        if c.idx % 6 == 2 {
            let j = c.rng.gen_range(1..k);
            for q in if c.idx % 12 == 2 { 1..k } else { j..j + 1 } { msgs[q] = msgs[0].clone(); twin[q] = Some(0usize); }
            c.count("repeated", 1);
        }
        let sums: Vec<u64> = (0..n).map(|i| msgs.iter().map(|m| m[i] as u64).sum()).collect();
        let mut cts = vec![];
        let mut rsum = Fr::zero();
        let mut rs: Vec<Fr> = vec![];
        for (q, m) in msgs.iter().enumerate() {
            let (v, r) = match twin[q] {
                Some(o) => (Vec::clone(&cts[o]), rs[o]),
                None if c.idx % 31 == 9 && q + 1 == k => {
                    // randomness that cancels
                    let r = -rsum;
                    (ct_vec(&ref_ciphertext(&ek, &g.w.g_i, m, &r)), r)
                }
                None => ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, m.clone(), &ek, &g.w.g_i)),
            };
            rsum += r;
            rs.push(r);
            cts.push(v);
        }
        // the encryption of the sums under the summed randomness
        let mut want = vec![mul1(ek.X_0, &rsum).into_affine()];
        let mut psi = mul1(ek.P_1, &rsum);
        for i in 0..n {
            want.push((mul1(ek.X[i], &rsum) + mul1(g.w.g_i[i], &small(sums[i]))).into_affine());
            psi += mul1(ek.Y[i], &small(sums[i]));
        }
        want.push(psi.into_affine());
        let mut sum = vec![];
        for o in 0..3 {
            let perm = match o { 0 => (0..k).collect(), _ => permutation(&mut c.rng, k) };
            let mut v: Vec<Vec<G1Affine>> = perm.iter().map(|i| cts[*i].clone()).collect();
            while v.len() > 1 {
                if o == 2 {
                    let i = c.rng.gen_range(0..v.len()); let a = v.swap_remove(i);
                    let j = c.rng.gen_range(0..v.len()); let b = v.swap_remove(j);
                    v.push(ok!("add_cts", Enc::add_cts(&a, &b)));
                } else {
                    let b = v.remove(1);
                    v[0] = ok!("add_cts", Enc::add_cts(&v[0], &b));
                }
                c.count("additions", 1);
            }
            sum = v.pop().unwrap();
            ensure!(sum.len() == want.len(), "sum has {} components, expected {}", sum.len(), want.len());
            for i in 0..want.len() {
                ensure!(sum[i] == want[i], "component {i} of {} of the sum of {k} ciphertexts is not the sum of the components (order {perm:?})", want.len());
            }
        }
        let ct = vec_ct(&sum);
        ok!("verification of a sum", Enc::verify_ciphertext_commitment(&ct.X_r, &ct.enc_chunks, &ct.commitment, ek.clone(), g.w.gens.clone()));
        let fits = sums.iter().all(|x| *x <= limit);
        let what = format!("sum {sums:?} searched in {width} bits");
        let r = if let Some(dk) = dk {
            let powers = if width <= 8 && c.idx % 3 == 0 { Some(ok!("pairing_powers", dk.pairing_powers(width, &g.w.g_i))) } else { None };
            call!(format!("decryption of {what}"), Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &s.sk(), dk, &g.w.g_i, width, powers.as_deref())).map(|x| x.0)
        } else {
            let mut shares = vec![];
            for sk in &g.sks { shares.push(share(c, &g, &ct, &g.ekd, sk)?); }
            let all = fold(&mut c.rng, &shares, true)?;
            let d = finish(&g, &ct, &all)?;
            call!(format!("decryption of {what}"), Enc::decrypt_to_chunks_after_re_encryption(&d[0], &d[1..], &SecretKey(g.dest), &g.w.g_i, width))
        };
        match r {
            Ok(ch) => {
                ensure!(fits, "decryption of {what} returned {ch:?} although a sum does not fit");
                ensure!(ch.iter().map(|x| *x as u64).collect::<Vec<_>>() == sums, "decryption of {what} returned {ch:?}");
                c.count(if group { "decrypted.group" } else { "decrypted.single" }, 1);
            }
            Err(e) => {
                ensure!(!fits, "decryption of {what} failed with {e:?}");
                c.count(if group { "overflow.group" } else { "overflow.single" }, 1);
            }
        }
        if sums.iter().any(|x| *x == limit) { c.count("hit.limit", 1); }
        if sums.iter().any(|x| *x == limit + 1) { c.count("hit.limit+1", 1); }
        c.seen((group, width, k, n, sums.iter().map(|x| if *x == 0 { 0u8 } else if *x < limit { 1 } else if *x == limit { 2 } else if *x == limit + 1 { 3 } else { 4 }).collect::<Vec<_>>()));
        c.sample(|| format!("{k} ciphertexts, {what}"));
        Ok(())
    });
    // component-wise addition of arbitrary vectors: equal, opposite, identity, unrelated, of any length
    ctx.cases("algebra", ctx.n(300, 4000), |c| {
        let n = if c.idx % 50 == 3 { 0 } else { some_n(&mut c.rng) + (c.idx % 3) as usize };
        let w = World::new(&mut c.rng, 1);
        let a: Vec<G1Affine> = (0..n).map(|_| w.g(&odd_scalar(&mut c.rng))).collect();
        let style = c.idx % 7;
        let b: Vec<G1Affine> = (0..n).map(|i| {
            let k = if style == 6 { c.rng.gen_range(0..6) } else { style };
            match k { 0 => a[i], 1 => -a[i], 2 => G1Affine::zero(), 3 => a[n - 1 - i], 4 => w.gens.G, _ => w.g(&odd_scalar(&mut c.rng)) }
        }).collect();
        let (x, y) = if c.idx % 2 == 0 { (&a, &b) } else { (&b, &a) };
        let r = ok!("add_cts", Enc::add_cts(x, y));
        ensure!(r.len() == n, "the sum of {n} components has {}", r.len());
        for i in 0..n { ensure!(r[i] == (x[i].into_group() + y[i]).into_affine(), "component {i} of {n} is not the sum of the components (style {style})"); }
        // repeated doubling
        let mut d = x.clone();
        for _ in 0..3 { d = ok!("add_cts", Enc::add_cts(&d, &d)); }
        for i in 0..n { ensure!(d[i] == mul1(x[i], &small(8)).into_affine(), "component {i} of {n} doubled three times is not eight times itself"); }
        c.count("algebra", 1);
        c.seen(("algebra", n, style, c.idx % 2));
        Ok(())
    });
    // whole messages of full size
    for bits in [4u8, 8] {
        let g: Vec<Small> = mk(ctx, &format!("group{bits}"), 1, |rng| Small::real(rng, bits, 2))?;
        let g = &g[0];
        let n = chunks_for(bits);
        ctx.cases(&format!("full{bits}"), ctx.n(8, 100), |c| {
            let k = 2 + (c.idx as usize % 3);
            let msgs: Vec<Vec<u16>> = (0..k).map(|_| rand_chunks(&mut c.rng, n, bits)).collect();
            let mut acc: Option<Vec<G1Affine>> = None;
            for m in &msgs {
                let (v, _) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, m.clone(), &g.ek, &g.w.g_i));
                acc = Some(match acc { None => v, Some(a) => ok!("add_cts", Enc::add_cts(&a, &v)) });
            }
            let ct = vec_ct(&acc.unwrap());
            let mut shares = vec![];
            for sk in &g.sks { shares.push(share(c, g, &ct, &g.ekd, sk)?); }
            let all = fold(&mut c.rng, &shares, true)?;
            let d = finish(g, &ct, &all)?;
            let r = ok!("decryption of a sum", Enc::decrypt_to_chunks_after_re_encryption(&d[0], &d[1..], &SecretKey(g.dest), &g.w.g_i, bits * 2));
            for i in 0..n {
                let want: u64 = msgs.iter().map(|m| m[i] as u64).sum();
                ensure!(r[i] as u64 == want, "chunk {i} of the sum of {k} messages decrypted to {}, expected {want}", r[i]);
                c.count("decrypted.group", 1);
            }
            Ok(())
        });
    }
    for k in ["decrypted.group", "decrypted.single", "overflow.group", "overflow.single", "hit.limit", "hit.limit+1", "repeated", "algebra"] { ctx.require(k, 8); }
    Ok(())
}
