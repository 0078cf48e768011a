//! C21: freshness and strength of secrets, observed through an instrumented random source.
use crate::c19::{all_distinct, named};
use crate::ctx::*;
use crate::model::*;
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};

/// A random source that counts what is drawn, and may hold one word of every four constant
#[derive(Clone)]
struct Source { inner: StdRng, bytes: u64, words: u64, fixed: Option<(u64, u64)>, draws: u64, flip: Option<(u64, u64)> }
impl Source {
    fn new(seed: u64) -> Self { Source { inner: StdRng::seed_from_u64(seed), bytes: 0, words: 0, fixed: None, draws: 0, flip: None } }
    /// Another number of the source was drawn: the bits of it to be turned over
    fn mask(&mut self) -> u64 {
        self.draws += 1;
        match self.flip { Some((at, m)) if at == self.draws - 1 => m, _ => 0 }
    }
}
impl RngCore for Source {
    fn next_u32(&mut self) -> u32 { self.bytes += 4; let m = self.mask(); self.inner.next_u32() ^ (m ^ (m >> 32)) as u32 }
    fn next_u64(&mut self) -> u64 {
        self.bytes += 8;
        self.words += 1;
        let x = self.inner.next_u64();
        let x = match self.fixed { Some((j, v)) if (self.words - 1) % 4 == j => v, _ => x };
        x ^ self.mask()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.bytes += d.len() as u64;
        self.inner.fill_bytes(d);
        for w in d.chunks_mut(8) { let m = self.mask().to_le_bytes(); for (x, y) in w.iter_mut().zip(m) { *x ^= y; } }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> { self.fill_bytes(d); Ok(()) }
}
/// What one call gave: values that have to be fresh, and scalars the monitor can see
#[derive(Clone, PartialEq, Default)]
struct Obs {
    g1: Vec<(String, G1Affine)>,
    g2: Vec<(String, G2Affine)>,
    scalars: Vec<(String, Fr)>,
    /// multiples of G and of H by a secret
    over_g: Vec<(String, G1Affine)>,
    over_h: Vec<(String, G2Affine)>,
}
impl Obs {
    fn p(&mut self, n: &str, v: &[G1Affine]) { self.g1.extend(named(n, v)); }
    fn q(&mut self, n: &str, v: &[G2Affine]) { self.g2.extend(named(n, v)); }
    fn s(&mut self, n: &str, v: &[Fr]) { self.scalars.extend(named(n, v)); }
}
struct Fx {
    w: World,
    s: Secrets,
    ek: EncryptionKey<E>,
    vk: Vk,
    ws: World,
    eks: EncryptionKey<E>,
    vks: Vk,
    party: SecretKeyST<E>,
    ct: Ct,
    dest: FEncryptionKeyDest<E>,
    srs: saver_groth16::ProvingKey<E>,
    srs_ek: EncryptionKey<E>,
    srs_gens: EncryptionGens<E>,
    big: Option<(saver_groth16::ProvingKey<E>, EncryptionKey<E>)>,
    /// x coordinates of small multiples
    small_g: HashSet<Fq>,
    small_h: HashSet<Fq2>,
}
const OPS: [(&str, usize); 13] = [
    ("keygen", 50), ("FkeygenPartial", 33), ("Fkeygen_dest", 1), ("encrypt", 1), ("encrypt_decomposed_message", 1), ("encrypt_given_snark_vk", 1), ("re_encrypt_share", 1),
    ("create_proof", 2), ("EncryptionGens::new_using_rng", 2), ("ChunkedCommitmentGens::new_using_rng", 2), ("generate_srs", 5), ("encrypt_with_proof", 3), ("setup_for_groth16", 55),
];
const CHEAP: usize = 10;
impl Fx {
    fn new(seed: u64, big: bool) -> Result<Fx, String> {
        let mut rng = StdRng::seed_from_u64(seed ^ 0x21_21);
        let rng = &mut rng;
        let mut w = World::new(rng, 16);
        // delta = 1: X components are multiples of G
        w.delta = Fr::one();
        w.delta_g = w.gens.G;
        let s = Secrets::new(rng, 16);
        let ek = s.ek(&w);
        let mut ws = World::with_gens(rng, 3, w.gens.clone());
        ws.delta = Fr::one();
        ws.delta_g = ws.gens.G;
        let ss = Secrets::new(rng, 3);
        let eks = ss.ek(&ws);
        let ct = ref_ciphertext(&eks, &ws.g_i, &[1, 2, 3], &nz(rng));
        let srs_gens = EncryptionGens { G: G1Affine::rand(rng), H: G2Affine::rand(rng) };
        let srs = ok!("generate_srs", saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(4, Some(3), None, true), &srs_gens, rng));
        let ps = Secrets::new(rng, 3);
        let gi = &srs.pk.vk.gamma_abc_g1[1..];
        let srs_ek = EncryptionKey::<E> {
            X_0: srs.pk.delta_g1,
            X: ps.s.iter().map(|x| mul1(srs.pk.delta_g1, x).into_affine()).collect(),
            Y: (0..3).map(|i| mul1(gi[i], &ps.t[i + 1]).into_affine()).collect(),
            Z: ps.t.iter().map(|t| mul2(srs_gens.H, t).into_affine()).collect(),
            P_1: mul1(srs.pk.delta_g1, &ps.p1()).into_affine(),
            P_2: mul1(srs.gamma_g1, &(Fr::one() + ps.sum_s())).into_affine(),
        };
        let big = if big {
            let (pk, _, ek, _) = ok!("setup_for_groth16", setup_for_groth16::<E, _>(rng, 16, &srs_gens));
            Some((pk, ek))
        } else { None };
        let run = |mut k: G1Projective, g: G1Affine, n: usize| { let mut v = Vec::with_capacity(n); for _ in 0..n { k += g; v.push(k); } G1Projective::normalize_batch(&v) };
        let small_g = run(G1Projective::zero(), w.gens.G, 1 << 16).iter().map(|p| p.x).collect();
        let mut k = G2Projective::zero();
        let mut v = vec![];
        for _ in 0..1 << 14 { k += w.gens.H; v.push(k); }
        let small_h = G2Projective::normalize_batch(&v).iter().map(|p| p.x).collect();
        Ok(Fx {
            vk: w.fake_vk(rng), vks: ws.fake_vk(rng), party: SecretKeyST { s: ss.s.clone(), t: ss.t.clone() }, dest: FEncryptionKeyDest { pk: w.g(&nz(rng)) },
            w, s, ek, ws, eks, ct, srs, srs_ek, srs_gens, big, small_g, small_h,
        })
    }
    fn message(&self, k: u64) -> Fr { match k % 3 { 0 => Fr::zero(), 1 => small(0xabcdef), _ => -Fr::one() } }
    /// Runs one operation on the given source
    fn run(&self, op: usize, k: u64, rng: &mut Source) -> Result<Obs, String> {
        let mut o = Obs::default();
        let w = &self.w;
        let ct_obs = |o: &mut Obs, ct: &Ct, r: &Fr, g: &[G1Affine], m: &[u16], ek: &EncryptionKey<E>| -> R {
            o.s("r", &[*r]);
            o.p("X_r", &[ct.X_r]);
            // the masks, without the message
            let masks: Vec<G1Affine> = ct.enc_chunks.iter().enumerate().map(|(i, c)| (c.into_group() - mul1(g[i], &small(m[i] as u64))).into_affine()).collect();
            o.p("mask", &masks);
            let mut psi = ct.commitment.into_group();
            for (i, x) in m.iter().enumerate() { psi -= mul1(ek.Y[i], &small(*x as u64)); }
            o.p("commitment blinding", &[psi.into_affine()]);
            Ok(())
        };
        match op {
            0 => {
                let (sk, ek, dk) = ok!("keygen", keygen(rng, 16, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
                o.s("rho", &[sk.0]);
                o.p("X", &ek.X); o.p("Y", &ek.Y); o.q("Z", &ek.Z); o.p("P_1", &[ek.P_1]); o.p("P_2", &[ek.P_2]);
                o.q("V_0", &[dk.V_0]); o.q("V_1", &dk.V_1); o.q("V_2", &dk.V_2);
                o.over_g.extend(named("s", &ek.X));
                o.over_h.extend(named("t", &ek.Z));
                if let Some(i) = sk.0.inverse() { o.over_h.extend(named("v", &dk.V_2.iter().map(|x| mul2(*x, &i).into_affine()).collect::<Vec<_>>())); }
            }
            1 => {
                let (sk, ek) = ok!("FkeygenPartial", FkeygenPartial(rng, 16, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
                o.s("s", &sk.s); o.s("t", &sk.t);
                o.p("X", &ek.X); o.p("Y", &ek.Y); o.q("Z", &ek.Z); o.p("P_2", &[ek.P_2]);
            }
            2 => { let (sk, pk) = ok!("Fkeygen_dest", Fkeygen_dest::<_, E>(rng, &w.gens)); o.s("secret", &[sk.0]); o.p("pk", &[pk.pk]); }
            3 => {
                let m = self.message(k);
                let (v, r) = ok!("encrypt", Enc::encrypt(rng, &m, &self.ek, &w.g_i, 16));
                ct_obs(&mut o, &v, &r, &w.g_i, &ref_decompose(&m, 16), &self.ek)?;
            }
            4 => {
                let m: Vec<u16> = vec![(k % 3) as u16, 0, 15];
                let (v, r) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(rng, m.clone(), &self.eks, &self.ws.g_i));
                ct_obs(&mut o, &vec_ct(&v), &r, &self.ws.g_i, &m, &self.eks)?;
            }
            5 => {
                let m = self.message(k);
                let (v, r) = ok!("encrypt_given_snark_vk", Enc::encrypt_given_snark_vk(rng, &m, &self.ek, &self.vk, 16));
                ct_obs(&mut o, &v, &r, &w.g_i, &ref_decompose(&m, 16), &self.ek)?;
            }
            6 => {
                let (ws, gr) = ok!("re_encrypt_share", Enc::re_encrypt_share(rng, &w.gens, &self.ct.X_r, &self.ct.enc_chunks, &self.dest, &self.party));
                o.p("g_r", &[gr]); o.p("w", &ws);
                o.over_g.push(("r".into(), gr));
            }
            7 => {
                let r = small(5 + k);
                let vals: Vec<Fr> = [1u64, 15, 8].iter().map(|x| small(*x)).collect();
                let circuit = BitsizeCheckCircuit::new(4, Some(3), Some(vals), true);
                let pr = ok!("create_proof", saver_groth16::create_proof(circuit.clone(), &r, &self.srs, &self.srs_ek, rng));
                self.proof_obs(&mut o, circuit, &pr, &r, &self.srs)?;
            }
            8 => { let g = EncryptionGens::<E>::new_using_rng(rng); o.p("G", &[g.G]); o.q("H", &[g.H]); }
            9 => { let g = ChunkedCommitmentGens::<G1Affine>::new_using_rng(rng); o.p("G", &[g.G]); o.p("H", &[g.H]); }
            10 => {
                let pk = ok!("generate_srs", saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(4, Some(2), None, true), &self.srs_gens, rng));
                self.srs_obs(&mut o, &pk);
            }
            11 => {
                let (pk, ek) = self.big.as_ref().unwrap();
                let m = self.message(k);
                let (ct, r, pr) = ok!("encrypt_with_proof", Enc::encrypt_with_proof(rng, &m, ek, pk, 16));
                let ch = ref_decompose(&m, 16);
                ct_obs(&mut o, &ct, &r, &pk.pk.vk.gamma_abc_g1[1..], &ch, ek)?;
                let circuit = BitsizeCheckCircuit::new(16, Some(16), Some(ch.iter().map(|x| small(*x as u64)).collect()), true);
                self.proof_obs(&mut o, circuit, &pr, &r, pk)?;
            }
            _ => {
                let (pk, sk, ek, dk) = ok!("setup_for_groth16", setup_for_groth16::<E, _>(rng, 16, &self.srs_gens));
                self.srs_obs(&mut o, &pk);
                o.s("rho", &[sk.0]);
                o.p("X", &ek.X); o.p("Y", &ek.Y); o.q("Z", &ek.Z); o.p("P_1", &[ek.P_1]); o.p("P_2", &[ek.P_2]);
                o.q("V_0", &[dk.V_0]); o.q("V_1", &dk.V_1); o.q("V_2", &dk.V_2);
            }
        }
        Ok(o)
    }
    fn srs_obs(&self, o: &mut Obs, pk: &saver_groth16::ProvingKey<E>) {
        let vk = &pk.pk.vk;
        o.p("alpha", &[vk.alpha_g1]); o.p("beta", &[pk.pk.beta_g1]); o.p("delta", &[pk.pk.delta_g1]); o.p("gamma", &[pk.gamma_g1]);
        o.p("input", &vk.gamma_abc_g1);
        o.p("h", &pk.pk.h_query[..pk.pk.h_query.len().min(20)]);
        o.q("beta", &[vk.beta_g2]); o.q("gamma", &[vk.gamma_g2]); o.q("delta", &[vk.delta_g2]);
    }
    /// The two blinding scalars of a proof, seen through the proof without blinding
    fn proof_obs(&self, o: &mut Obs, circuit: BitsizeCheckCircuit<Fr>, pr: &ark_groth16::Proof<E>, r: &Fr, pk: &saver_groth16::ProvingKey<E>) -> R {
        let base = ark_groth16::Groth16::<E>::create_proof_with_reduction(circuit, &pk.pk, Fr::zero(), Fr::zero()).map_err(|e| format!("[harness] {e}"))?;
        let t_delta = pr.a.into_group() - base.a;
        let s_delta = pr.b.into_group() - base.b;
        ensure!(!t_delta.is_zero() && !s_delta.is_zero(), "a proof is not blinded in both of its factors");
        let (h, g) = (pk.pk.vk.delta_g2, pk.pk.delta_g1);
        ensure!(pair(t_delta, h) != pair(g, s_delta), "the two blinding scalars of a proof are the same");
        let rd = mul1(g, r);
        ensure!(t_delta != rd && t_delta != -rd && s_delta != mul2(h, r) && s_delta != -mul2(h, r), "a proof is blinded with the randomness of the encryption");
        for k in 1..64u64 {
            ensure!(t_delta != mul1(g, &small(k)) && s_delta != mul2(h, &small(k)), "a proof is blinded with the constant {k}");
        }
        o.p("A", &[pr.a]); o.q("B", &[pr.b]); o.p("C", &[pr.c]);
        o.p("t delta", &[t_delta.into_affine()]);
        o.q("s delta", &[s_delta.into_affine()]);
        Ok(())
    }
}
/// The secrets a call drew, each as something that tells whether it changed. Secrets of the same rank are independent of
/// each other; what stands for one of rank two also changes with those of rank one.
fn roles(f: &Fx, op: usize, bits: u8, src: &mut Source) -> Result<Vec<(String, u64, u8)>, String> {
    let mut v: Vec<(String, u64, u8)> = vec![];
    let keys = |v: &mut Vec<(String, u64, u8)>, sk: &SecretKey<Fr>, ek: &EncryptionKey<E>, dk: &DecryptionKey<E>, rank: u8| {
        v.push(("rho".into(), h64(&sk.0), 1));
        for (i, x) in ek.X.iter().enumerate() { v.push((format!("s[{i}]"), h64(x), rank)); }
        for (i, x) in ek.Z.iter().enumerate() { v.push((format!("t[{i}]"), h64(x), 1)); }
        let inv = sk.0.inverse().unwrap_or(Fr::one());
        for (i, x) in dk.V_2.iter().enumerate() { v.push((format!("v[{i}]"), h64(&mul2(*x, &inv).into_affine()), 1)); }
    };
    let srs = |v: &mut Vec<(String, u64, u8)>, pk: &saver_groth16::ProvingKey<E>| {
        v.push(("alpha".into(), h64(&pk.pk.vk.alpha_g1), 1));
        v.push(("beta".into(), h64(&pk.pk.beta_g1), 1));
        v.push(("gamma".into(), h64(&pk.gamma_g1), 1));
        v.push(("delta".into(), h64(&pk.pk.delta_g1), 1));
        // depends on the evaluation point alone
        v.push(("tau".into(), h64(&pk.pk.a_query), 1));
    };
    let w = &f.w;
    match op {
        0 => {
            let w = World::with_gens(&mut StdRng::seed_from_u64(bits as u64), chunks_for(bits), w.gens.clone());
            let (sk, ek, dk) = ok!("keygen", keygen(src, bits, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
            keys(&mut v, &sk, &ek, &dk, 1);
        }
        1 => {
            let w = World::with_gens(&mut StdRng::seed_from_u64(bits as u64), chunks_for(bits), w.gens.clone());
            let (sk, ek) = ok!("FkeygenPartial", FkeygenPartial(src, bits, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
            for (i, x) in sk.s.iter().enumerate() { v.push((format!("s[{i}]"), h64(&(x, ek.X[i])), 1)); }
            for (i, x) in sk.t.iter().enumerate() { v.push((format!("t[{i}]"), h64(&(x, ek.Z[i])), 1)); }
        }
        10 => srs(&mut v, &ok!("generate_srs", saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(bits, Some(2), None, true), &f.srs_gens, src))),
        12 => {
            let (pk, sk, ek, dk) = ok!("setup_for_groth16", setup_for_groth16::<E, _>(src, bits, &f.srs_gens));
            srs(&mut v, &pk);
            keys(&mut v, &sk, &ek, &dk, 2);
        }
        _ => {
            let o = f.run(op, 1, src)?;
            for (n, x) in &o.scalars { v.push((n.clone(), h64(x), 1)); }
            for (n, x) in o.g1.iter() { if n.starts_with("g_r") || n.starts_with("t delta") || n.starts_with("G[") || (op == 9 && n.starts_with("H")) { v.push((n.clone(), h64(x), 1)); } }
            for (n, x) in o.g2.iter() { if n.starts_with("s delta") || n.starts_with("H[") { v.push((n.clone(), h64(x), 1)); } }
        }
    }
    Ok(v)
}
/// Turns over bits of single numbers drawn from the source, to see what each secret is made of: each must have numbers
/// of its own, which change it and no other secret, and every part of 255 bits of them must count.
fn draws(c: &Case, f: &Fx, op: usize, bits: u8, lanes: u64) -> R {
    let name = OPS[op].0;
    let rng = &mut c.rng.clone();
    let seed = rng.next_u64();
    let run = |flip: Option<(u64, u64)>| -> Result<(Vec<(String, u64, u8)>, u64), String> {
        let mut src = Source::new(seed);
        src.flip = flip;
        let v = call!(name, roles(f, op, bits, &mut src))?;
        Ok((v, src.draws))
    };
    let (base, words) = run(None)?;
    let what = format!("{name} ({bits}-bit chunks)");
    // per number drawn: per part tried, which secrets changed; and those whose change made the call refuse or take another draw
    let mut effect: Vec<Vec<Vec<usize>>> = vec![];
    let mut control: Vec<Vec<Vec<usize>>> = vec![];
    for w in 0..words {
        let (mut e, mut k) = (vec![], vec![]);
        let first = rng.gen_range(0..4);
        for l in 0..lanes {
            let lane = (first + l) % 4;
            let bit = lane * 16 + rng.gen_range(0..15);
            let (v, n) = run(Some((w, 1 << bit)))?;
            ensure!(v.len() == base.len(), "{what}: another number of secrets for other random numbers");
            let changed = (0..v.len()).filter(|i| v[*i].1 != base[*i].1).collect::<Vec<_>>();
            if n == words { e.push(changed) } else { k.push(changed) }
            c.count("flips", 1);
        }
        effect.push(e);
        control.push(k);
    }
    for (i, (role, _, rank)) in base.iter().enumerate() {
        // a change of this secret alone, or of what depends on it
        let own = |e: &Vec<usize>| e.contains(&i) && e.iter().all(|j| *j == i || base[*j].2 > *rank);
        let mine: Vec<usize> = (0..effect.len()).filter(|w| effect[*w].iter().any(own)).collect();
        ensure!(!mine.is_empty(), "{what}: secret {role} has no random number of its own: whatever changes it changes other secrets too");
        if op == 8 || op == 9 { continue; } // points, not scalars
        ensure!(mine.len() >= 3, "{what}: secret {role} is made of {} numbers of 64 bits only", mine.len());
        // every part of them counts, and so does the fourth number next to them (which may also be refused and drawn again)
        let all = |w: usize| effect[w].iter().all(|e| e.contains(&i));
        for w in &mine { ensure!(all(*w), "{what}: secret {role} ignores a part of the random number it is made of (number {w})"); }
        if mine.len() == 3 {
            let counts = |w: usize| w < effect.len() && all(w) && effect[w].iter().chain(&control[w]).any(|e| e.contains(&i));
            ensure!(counts(mine[2] + 1) || (mine[0] > 0 && counts(mine[0] - 1)), "{what}: secret {role} is made of three numbers of 64 bits only");
        }
        c.count("roles.independent", 1);
        c.seen(("draws", op, bits, role, seed));
    }
    Ok(())
}
/// Across calls
#[derive(Default)]
struct Ledger { g1: HashMap<G1Affine, String>, g2: HashMap<G2Affine, String>, f: HashMap<Fr, String> }
impl Ledger {
    fn note(&mut self, call: &str, o: &Obs) -> R {
        for (n, x) in &o.g1 {
            ensure!(!x.is_zero(), "{n} of {call} is the identity");
            if let Some(old) = self.g1.insert(*x, format!("{n} of {call}")) { return Err(format!("{n} of {call} repeats {old}")); }
        }
        for (n, x) in &o.g2 {
            ensure!(!x.is_zero(), "{n} of {call} is the identity");
            if let Some(old) = self.g2.insert(*x, format!("{n} of {call}")) { return Err(format!("{n} of {call} repeats {old}")); }
        }
        for (n, x) in &o.scalars {
            ensure!(!x.is_zero() && *x != Fr::one(), "secret {n} of {call} is trivial");
            if let Some(old) = self.f.insert(*x, format!("{n} of {call}")).or_else(|| self.f.get(&-*x).cloned()) { return Err(format!("secret {n} of {call} repeats {old} (or its negative)")); }
        }
        Ok(())
    }
    fn len(&self) -> u64 { (self.g1.len() + self.g2.len() + self.f.len()) as u64 }
}
/// One call, with everything that can be told from it alone
fn observe(c: &Case, f: &Fx, op: usize, k: u64, src: &mut Source) -> Result<Obs, String> {
    let (name, scalars) = OPS[op];
    let before = src.bytes;
    let o = call!(name, f.run(op, k, src))?;
    let drawn = src.bytes - before;
    ensure!(drawn >= 32 * scalars as u64, "{name} drew {drawn} bytes from the random source for {scalars} secrets of 32 bytes");
    for (n, p) in &o.over_g { ensure!(!f.small_g.contains(&p.x), "secret {n} of {name} is a number below 2^16 (or its negative)"); }
    for (n, p) in &o.over_h { ensure!(!f.small_h.contains(&p.x), "secret {n} of {name} is a number below 2^14 (or its negative)"); }
    all_distinct(&o.scalars).map_err(|e| format!("{name}: secret {e}"))?;
    // steps and ratios of the secrets of one role
    for role in ["s", "t"] {
        let v: Vec<Fr> = o.scalars.iter().filter(|(n, _)| n.starts_with(&format!("{role}["))).map(|x| x.1).collect();
        if v.len() > 3 {
            all_distinct(&named("step", &v.windows(2).map(|w| w[1] - w[0]).collect::<Vec<_>>())).map_err(|e| format!("{name}: secrets {role}: {e}"))?;
            all_distinct(&named("ratio", &v.windows(2).map(|w| w[1] / w[0]).collect::<Vec<_>>())).map_err(|e| format!("{name}: secrets {role}: {e}"))?;
        }
    }
    c.count("calls", 1);
    c.count(&format!("calls.{name}"), 1);
    c.count("bytes.drawn", drawn);
    Ok(o)
}
pub fn c21(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation runs a sequence of randomised operations on an instrumented random source and compares every secret and secret-derived component with all others of the sequence; distinct_nontrivial counts distinct (sequence, operation)");
    let f = Fx::new(ctx.seed, true)?;
    // sequences of calls on one source, on several, and on sources with a constant word
    ctx.cases("sequences", ctx.n(24, 200), |c| {
        let rng = &mut c.rng.clone();
        let mut l = Ledger::default();
        let mut src = vec![Source::new(rng.next_u64()), Source::new(rng.next_u64()), Source::new(rng.next_u64())];
        // neighbouring seeds are sources of their own
        let base = rng.next_u64() >> 1;
        src.push(Source::new(base));
        src.push(Source::new(base + 1));
        let fixed = c.idx % 3 == 2;
        if fixed { let v = rng.next_u64(); for s in src.iter_mut().take(3) { s.fixed = Some(((c.idx / 3) % 4, v >> 3)); } src.truncate(3); }
        let calls = ctx.n(40, 60);
        for k in 0..calls {
            let i = rng.gen_range(0..if c.idx % 2 == 0 { 1 } else { src.len() });
            let op = match c.idx % 4 { 0 => rng.gen_range(0..CHEAP), 1 => [3usize, 4, 5, 6][rng.gen_range(0..4)], 2 => [0, 1, 2, 6][rng.gen_range(0..4)], _ => rng.gen_range(2..CHEAP) };
            let o = observe(c, &f, op, k % 2, &mut src[i])?;
            l.note(&format!("call {k} ({})", OPS[op].0), &o)?;
            c.seen((c.idx, k, op));
        }
        c.count("components.compared", l.len());
        c.sample(|| format!("{calls} calls on {} sources: {} components and secrets, all different", src.len(), l.len()));
        Ok(())
    });
    // the same operation over and over with the same inputs
    ctx.cases("repetition", CHEAP as u64 * ctx.n(2, 8), |c| {
        let op = c.idx as usize % CHEAP;
        let mut src = Source::new(c.rng.next_u64());
        let mut l = Ledger::default();
        let n = if op == 7 { ctx.n(8, 40) } else { ctx.n(30, 120) };
        for k in 0..n {
            let o = observe(c, &f, op, 0, &mut src)?;
            l.note(&format!("call {k} of {}", OPS[op].0), &o)?;
        }
        c.count("components.compared", l.len());
        c.seen(("rep", op, c.idx));
        Ok(())
    });
    ctx.cases("setups", ctx.n(8, 40), |c| {
        let mut src = Source::new(c.rng.next_u64());
        let mut l = Ledger::default();
        let ops: &[usize] = match c.idx % 4 { 0 => &[10, 10, 10, 10], 1 => &[11, 11], 2 => &[12, 12], _ => &[10, 0, 12, 1, 11] };
        for (k, op) in ops.iter().enumerate() {
            let o = observe(c, &f, *op, 0, &mut src)?;
            l.note(&format!("call {k} ({})", OPS[*op].0), &o)?;
            c.seen(("setup", c.idx, k, *op));
        }
        c.count("components.compared", l.len());
        Ok(())
    });
    // what each secret is made of
    let mut jobs: Vec<(usize, u8, u64)> = vec![];
    for op in [2usize, 3, 4, 5, 6, 7, 8, 9] { jobs.push((op, 16, 4)); }
    for bits in [255u8, 128, 85, 64, 51] { for op in [0, 1] { jobs.push((op, bits, 4)); } }
    for op in [0, 1] { jobs.push((op, 16, 1)); }
    for bits in [1u8, 4, 16] { jobs.push((10, bits, 2)); }
    for bits in [255u8, 128, 85] { jobs.push((12, bits, 1)); }
    jobs.push((11, 16, 1));
    if ctx.thorough() {
        for bits in [8u8, 4] { for op in [0, 1] { jobs.push((op, bits, 1)); } }
        for bits in [64u8, 51] { jobs.push((12, bits, 4)); }
    }
    ctx.cases("draws", jobs.len() as u64 * ctx.n(1, 4), |c| {
        let (op, bits, lanes) = jobs[c.idx as usize % jobs.len()];
        draws(c, &f, op, bits, lanes)
    });
    ctx.require("roles.independent", 120);
    ctx.require("flips", 1500);
    // keys of every number of chunks: enough is drawn, nothing repeats, and every number drawn makes a secret
    let mut widths: Vec<(usize, u8)> = vec![];
    for bits in (1..=33u8).chain([36, 40, 43, 48, 51, 57, 63, 64, 65, 84, 85, 100, 127, 128, 254, 255]) { for op in [0usize, 1] { widths.push((op, bits)); } }
    ctx.cases("widths", widths.len() as u64 * ctx.n(1, 6), |c| {
        let (op, bits) = widths[c.idx as usize % widths.len()];
        let seed = c.rng.next_u64();
        let what = format!("{} ({bits}-bit chunks)", OPS[op].0);
        // the most significant part of each scalar is small, so that none has to be drawn again
        let top = c.rng.next_u64() >> 3;
        let run = |flip: Option<(u64, u64)>| -> Result<(Vec<(String, u64, u8)>, Source), String> {
            let mut src = Source::new(seed);
            src.fixed = Some((3, top));
            src.flip = flip;
            let v = call!(what, roles(&f, op, bits, &mut src))?;
            Ok((v, src))
        };
        let (base, src) = run(None)?;
        let n = chunks_for(bits);
        ensure!(base.len() == if op == 0 { 3 * n + 2 } else { 2 * n + 1 }, "{what}: {} secrets for {n} chunks", base.len());
        ensure!(src.bytes >= 32 * base.len() as u64, "{what} drew {} bytes from the random source for {} secrets of 32 bytes", src.bytes, base.len());
        let mut seen: HashMap<u64, &String> = HashMap::new();
        for (role, h, _) in &base { if let Some(o) = seen.insert(*h, role) { return Err(format!("{what}: secret {role} repeats {o}")); } }
        c.count("width.secrets", base.len() as u64);
        if src.words == src.draws && src.draws == 4 * base.len() as u64 {
            for _ in 0..if n > 64 { 5 } else { 10 } {
                let w = c.rng.gen_range(0..base.len() as u64) * 4 + c.rng.gen_range(0..3);
                let bit = c.rng.gen_range(0..64u64);
                let (v, s2) = run(Some((w, 1 << bit)))?;
                if s2.draws != src.draws { continue; }
                let changed: Vec<&String> = (0..v.len().min(base.len())).filter(|i| v[*i].1 != base[*i].1).map(|i| &base[i].0).collect();
                ensure!(changed.len() == 1, "{what}: turning over bit {bit} of the random number {w} changes the secrets {changed:?}");
                c.count("width.flips", 1);
            }
        }
        c.seen(("width", op, bits));
        Ok(())
    });
    // spread of the visible scalars over the field, per role and position
    let n = ctx.n(320, 1600);
    let roles: std::sync::Mutex<BTreeMap<String, (u64, Vec<u64>, Vec<u64>)>> = Default::default();
    ctx.cases("spread", n, |c| {
        let mut src = Source::new(c.rng.next_u64());
        for op in [0usize, 1, 2, 3, 4, 5] {
            if op == 0 && c.idx % 2 == 1 { continue; }
            let o = call!(OPS[op].0, f.run(op, 0, &mut src))?;
            let mut g = roles.lock().unwrap();
            for (r, x) in &o.scalars {
                let e = g.entry(format!("{} of {}", r, OPS[op].0)).or_insert_with(|| (0, vec![0; 255], vec![0; 255]));
                e.0 += 1;
                let (plain, raw) = (x.into_bigint().0, x.0 .0);
                for b in 0..255 {
                    e.1[b] += (plain[b / 64] >> (b % 64)) & 1;
                    e.2[b] += (raw[b / 64] >> (b % 64)) & 1;
                }
            }
        }
        Ok(())
    });
    ctx.one("spread verdict", 0, |c| {
        for (role, (n, plain, raw)) in roles.lock().unwrap().iter() {
            if *n < 100 { continue; }
            // fair bits: eight standard deviations either way; the top two bits are set less often (0.44)
            let sd = (*n as f64).sqrt() / 2.0;
            for (form, v) in [("value", plain), ("stored form", raw)] {
                for b in 0..255 {
                    let mean = *n as f64 * if b >= 253 { 0.447 } else { 0.5 };
                    ensure!((v[b] as f64 - mean).abs() < 8.0 * sd, "secret {role}: bit {b} of its {form} was set in {} of {n} samples", v[b]);
                }
            }
            c.count("roles.spread", 1);
            c.count("samples.spread", *n);
        }
        Ok(())
    });
    // the same state of the source gives the same result, whatever came between
    ctx.cases("replay", ctx.n(16, 120), |c| {
        let rng = &mut c.rng.clone();
        let mut src = Source::new(rng.next_u64());
        let mut log = vec![];
        let ops: Vec<usize> = (0..12).map(|_| rng.gen_range(0..if c.idx % 4 == 3 { 12 } else { CHEAP })).collect();
        for op in &ops {
            let k = rng.gen_range(0..3);
            let before = src.clone();
            let o = call!(OPS[*op].0, f.run(*op, k, &mut src))?;
            log.push((*op, k, before, o, src.inner.clone()));
        }
        for i in permutation(rng, log.len()) {
            let (op, k, before, o, after) = &log[i];
            let mut s = before.clone();
            let again = call!(OPS[*op].0, f.run(*op, *k, &mut s))?;
            ensure!(again == *o, "{} gave another result for the same inputs and random numbers", OPS[*op].0);
            ensure!(s.inner == *after, "{} drew a different amount of random numbers the second time", OPS[*op].0);
            // the same numbers from another kind of source
            if i % 3 == 0 {
                let mut plain = Source { bytes: 0, words: 0, fixed: None, flip: None, ..before.clone() };
                let third = call!(OPS[*op].0, f.run(*op, *k, &mut plain))?;
                ensure!(third == *o, "{} gave another result for the same inputs and random numbers", OPS[*op].0);
            }
            c.count("replays", 1);
        }
        c.seen(("replay", c.idx));
        Ok(())
    });
    let _ = (&f.s, &f.vks);
    for (n, _) in OPS { ctx.require(&format!("calls.{n}"), 1); }
    ctx.require("calls", 800);
    ctx.require("components.compared", 5000);
    ctx.require("roles.spread", 30);
    ctx.require("replays", 100);
    Ok(())
}
