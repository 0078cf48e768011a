//! C17 results independent of threads, schedules, build mode and call history.
use crate::ctx::*;
use crate::model::*;
use crate::{ensure, ok};
use ark_serialize::CanonicalSerialize;
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::setup::{setup_for_groth16, ChunkedCommitmentGens};
use dist_saver::utils::{self, WindowTable};
use std::collections::BTreeMap;

struct Out(Vec<u8>);
impl Out {
    fn p<T: CanonicalSerialize>(&mut self, x: &T) -> &mut Self {
        x.serialize_compressed(&mut self.0).unwrap();
        self
    }
    fn r<T>(&mut self, r: Result<T, SaverError>, f: impl FnOnce(&mut Out, &T)) -> &mut Self {
        match r {
            Ok(t) => { self.0.push(1); f(self, &t) }
            Err(e) => { self.0.push(0); self.0.extend(format!("{e:?}").bytes()) }
        }
        self
    }
}
fn unit(_: &mut Out, _: &()) {}
fn h(b: &[u8]) -> String {
    use digest::Digest;
    blake2::Blake2s256::digest(b).iter().take(12).map(|x| format!("{x:02x}")).collect()
}

/// One consistent set of inputs. Siblings share some of their components with each other.
#[derive(Clone)]
struct Set {
    w: World,
    s: Secrets,
    ek: EncryptionKey<E>,
    dk: DecryptionKey<E>,
    pek: PreparedEncryptionKey<E>,
    pdk: PreparedDecryptionKey<E>,
    ekd: FEncryptionKeyDest<E>,
    dest: Fr,
    m: Vec<u16>,
    ct: Ct,
    bad: Ct,
    batch: Vec<Ct>,
    weights: Vec<Fr>,
    vk: Vk,
    tab: Vec<Vec<PairingOutput<E>>>,
}
fn make_set(rng: &mut StdRng, w: World, s: Secrets, m: Vec<u16>) -> Set {
    let (ek, dk) = (s.ek(&w), s.dk(&w));
    let dest = nz(rng);
    let ct = ref_ciphertext(&ek, &w.g_i, &m, &nz(rng));
    let mut bad = ct.clone();
    bad.enc_chunks[1] = w.g(&nz(rng));
    let b = if m.len() > 4 { 11 } else { 3 };
    let batch = (0..b).map(|_| ref_ciphertext(&ek, &w.g_i, &rand_chunks(rng, m.len(), 4), &nz(rng))).collect();
    // the reference table, so that nothing the crate computes is an input
    let tab = (0..m.len()).map(|i| { let b = pair(w.g_i[i], dk.V_2[i]); (1..16u64).map(|k| b * small(k)).collect() }).collect();
    Set {
        pek: PreparedEncryptionKey { X_0: ek.X_0, X: ek.X.clone(), Y: ek.Y.clone(), Z: ek.Z.iter().map(|z| (*z).into()).collect(), P_1: ek.P_1, P_2: ek.P_2 },
        pdk: PreparedDecryptionKey { V_0: dk.V_0.into(), V_1: dk.V_1.iter().map(|z| (*z).into()).collect(), V_2: dk.V_2.iter().map(|z| (*z).into()).collect() },
        vk: w.fake_vk(rng), ekd: FEncryptionKeyDest { pk: w.g(&dest) }, weights: (0..b).map(|_| nz(rng)).collect(), w, s, ek, dk, dest, m, ct, bad, batch, tab,
    }
}
pub struct Fix {
    seed: u64,
    sets: Vec<Set>,
    worlds16: Vec<World>,
    messages: Vec<Fr>,
    cgens: Vec<ChunkedCommitmentGens<G1Affine>>,
    srs: Vec<(saver_groth16::ProvingKey<E>, EncryptionKey<E>, EncryptionGens<E>)>,
}
impl Fix {
    fn new(seed: u64) -> Self {
        let mut rng = StdRng::seed_from_u64(seed ^ 0x17171717);
        let rng = &mut rng;
        let n = 4;
        let (w, s) = (World::new(rng, n), Secrets::new(rng, n));
        let m = vec![3u16, 0, 15, 7];
        let mut sets = vec![make_set(rng, w.clone(), s.clone(), m.clone())];
        // the same secrets with other generators, the same generators with other secrets, and near copies
        let mut w2 = World::with_gens(rng, n, w.gens.clone()); w2.delta_g = w.delta_g; w2.delta = w.delta;
        sets.push(make_set(rng, w2, s.clone(), m.clone()));
        let mut w5 = w.clone(); w5.a[n - 1] = nz(rng); w5.g_i[n - 1] = w5.g(&w5.a[n - 1]);
        sets.push(make_set(rng, w5, s.clone(), vec![3, 0, 15, 8]));
        let mut s3 = s.clone(); s3.rho = nz(rng);
        sets.push(make_set(rng, w.clone(), s3, vec![3, 0, 14, 7]));
        let mut s4 = s.clone(); s4.v[2] = nz(rng); s4.t[3] = nz(rng);
        sets.push(make_set(rng, w.clone(), s4, vec![4, 0, 15, 7]));
        let mut s5 = s.clone(); s5.s[n - 1] = nz(rng);
        sets.push(make_set(rng, w.clone(), s5, vec![3, 1, 15, 7]));
        let s6 = Secrets::new(rng, n);
        sets.push(make_set(rng, w.clone(), s6, m));
        // more chunks than workers, and a number of chunks and batch members no worker count divides
        let (wl, sl) = (World::new(rng, 37), Secrets::new(rng, 37));
        let ml: Vec<u16> = (0..37u16).map(|i| i % 16).collect();
        sets.push(make_set(rng, wl, sl, ml));
        let w16 = World::new(rng, 16);
        let mut worlds16 = vec![w16.clone()];
        let mut x = World::with_gens(rng, 16, w16.gens.clone()); x.delta_g = w16.delta_g; worlds16.push(x);
        let mut x = w16.clone(); x.gamma_g = x.g(&nz(rng)); worlds16.push(x);
        let mut x = w16.clone(); x.gens.H = G2Affine::rand(rng); worlds16.push(x);
        let g = G1Affine::rand(rng);
        let (h1, h2) = (G1Affine::rand(rng), G1Affine::rand(rng));
        let mut srs = vec![];
        let gens = EncryptionGens { G: G1Affine::rand(rng), H: G2Affine::rand(rng) };
        for gi in [gens.clone(), EncryptionGens { G: gens.G, H: G2Affine::rand(rng) }] {
            let pk = saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(4, Some(3), None, true), &gi, rng).unwrap();
            for _ in 0..2 {
                let s = Secrets::new(rng, 3);
                let g_i = &pk.pk.vk.gamma_abc_g1[1..];
                let ek = EncryptionKey::<E> {
                    X_0: pk.pk.delta_g1,
                    X: s.s.iter().map(|x| mul1(pk.pk.delta_g1, x).into_affine()).collect(),
                    Y: (0..3).map(|i| mul1(g_i[i], &s.t[i + 1]).into_affine()).collect(),
                    Z: s.t.iter().map(|t| mul2(gi.H, t).into_affine()).collect(),
                    P_1: mul1(pk.pk.delta_g1, &s.p1()).into_affine(),
                    P_2: mul1(pk.gamma_g1, &(Fr::one() + s.sum_s())).into_affine(),
                };
                srs.push((pk.clone(), ek, gi.clone()));
            }
        }
        Fix {
            seed, sets, worlds16,
            messages: vec![Fr::zero(), -Fr::one(), Fr::rand(rng), small(0xdeadbeef)],
            cgens: vec![ChunkedCommitmentGens { G: g, H: h1 }, ChunkedCommitmentGens { G: g, H: h2 }, ChunkedCommitmentGens { G: h1, H: g }],
            srs,
        }
    }
    /// Digest of every input, to see that no operation modifies one
    fn digest(&self) -> String {
        let mut o = Out(vec![]);
        for s in &self.sets {
            o.p(&s.ek).p(&s.dk).p(&s.ekd).p(&s.dest).p(&s.ct).p(&s.bad).p(&s.batch).p(&s.weights).p(&s.vk).p(&s.tab).p(&s.w.g_i).p(&s.w.gens).p(&s.s.s).p(&s.s.t).p(&s.s.v).p(&s.s.rho);
            o.0.extend(format!("{:?}", h64(&format!("{:?}{:?}", s.pek, s.pdk))).bytes());
        }
        for w in &self.worlds16 { o.p(&w.g_i).p(&w.gens).p(&w.delta_g).p(&w.gamma_g); }
        for g in &self.cgens { o.p(g); }
        for (p, e, g) in &self.srs { o.p(p).p(e).p(g); }
        o.p(&self.messages);
        h(&o.0)
    }
    fn names(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for k in 0..self.sets.len() { for op in 0..25 { v.push((op, k)); } }
        for k in 0..self.worlds16.len() { for op in 100..104 { v.push((op, k)); } }
        for k in 0..self.cgens.len() { for op in 200..203 { v.push((op, k)); } }
        for k in 0..self.srs.len() { for op in 300..303 { v.push((op, k)); } }
        for k in 0..8 { for op in 400..403 { v.push((op, k)); } }
        v
    }
    /// Runs one operation; the outcome as bytes
    fn run(&self, (op, k): (usize, usize)) -> Vec<u8> {
        // the random numbers depend on the operation only, so that siblings differ by their inputs alone
        let mut rng = StdRng::seed_from_u64(h64(&(self.seed, op)));
        let rng = &mut rng;
        let mut o = Out(vec![]);
        if op < 100 {
            let s = &self.sets[k];
            let g = &s.w.g_i;
            let dec = |o: &mut Out, t: &(Fr, G1Affine)| { o.p(&t.0).p(&t.1); };
            let chunks = |o: &mut Out, t: &(Vec<u16>, G1Affine)| { o.p(&t.0).p(&t.1); };
            match op {
                0 => { o.r(Enc::encrypt_decomposed_message(rng, s.m.clone(), &s.ek, g), |o, t| { o.p(&t.0).p(&t.1); }); }
                1 => { o.r(Enc::decrypt_to_chunks(&s.ct.X_r, &s.ct.enc_chunks, &s.s.sk(), s.dk.clone(), g, 4), chunks); }
                2 => { o.r(Enc::decrypt_to_chunks(&s.ct.X_r, &s.ct.enc_chunks, &s.s.sk(), s.pdk.clone(), g, 4), chunks); }
                3 => { o.r(Enc::decrypt_to_chunks_given_pairing_powers(&s.ct.X_r, &s.ct.enc_chunks, &s.s.sk(), s.pdk.clone(), g, 4, Some(&s.tab)), chunks); }
                4 => { o.r(s.ct.decrypt(&s.s.sk(), s.dk.clone(), g, 8), dec); }
                5 => { o.r(s.bad.decrypt(&s.s.sk(), s.dk.clone(), g, 4), dec); }
                6 => { o.r(s.ct.verify_commitment(s.ek.clone(), s.w.gens.clone()), unit); }
                7 => { o.r(s.ct.verify_commitment(s.pek.clone(), PreparedEncryptionGens::from(s.w.gens.clone())), unit); }
                8 => { o.r(s.bad.verify_commitment(s.ek.clone(), s.w.gens.clone()), unit); }
                9 => { o.r(Enc::verify_commitments_in_batch(&s.batch, &s.weights, s.ek.clone(), s.w.gens.clone()), unit); }
                10 => { let mut b = s.batch.clone(); let last = b.len() - 1; b[if last > 3 { last } else { 1 }] = s.bad.clone(); o.r(Enc::verify_commitments_in_batch(&b, &s.weights, s.pek.clone(), PreparedEncryptionGens::from(s.w.gens.clone())), unit); }
                11 => { let sk = SecretKeyST::<E> { s: s.s.s.clone(), t: s.s.t.clone() }; o.r(Enc::re_encrypt_share(rng, &s.w.gens, &s.ct.X_r, &s.ct.enc_chunks, &s.ekd, &sk), |o, t| { o.p(&t.0).p(&t.1); }); }
                12 => {
                    let sk = SecretKeyST::<E> { s: s.s.s.clone(), t: s.s.t.clone() };
                    let (a, ga) = Enc::re_encrypt_share(rng, &s.w.gens, &s.ct.X_r, &s.ct.enc_chunks, &s.ekd, &sk).unwrap();
                    o.r(Enc::combine_ct_with_w(&s.w.gens, &s.ct.enc_chunks, &ga, &a), |o, t| { o.p(t); });
                    let re = Enc::combine_ct_with_w(&s.w.gens, &s.ct.enc_chunks, &ga, &a).unwrap();
                    o.r(Enc::decrypt_to_chunks_after_re_encryption(&re[0], &re[1..], &SecretKey(s.dest), g, 4), |o, t| { o.p(t); });
                    o.r(Enc::decrypt_to_chunks_after_re_encryption(&re[0], &re[1..], &SecretKey(s.dest + Fr::one()), g, 4), |o, t| { o.p(t); });
                }
                13 => { o.r(Enc::combine_re_encrypt_share(&s.ct.X_r, &s.ct.commitment, &s.ct.enc_chunks, &s.bad.enc_chunks), |o, t| { o.p(&t.0).p(&t.1); }); }
                14 => { o.r(Enc::add_cts(&ct_vec(&s.ct), &ct_vec(&s.batch[0])), |o, t| { o.p(t); }); }
                15 => { o.r(s.dk.pairing_powers(4, g), |o, t| { o.p(t); }); }
                16 => { o.r(s.dk.pairing_powers_given_groth16_vk(5, &s.vk), |o, t| { o.p(t); }); }
                17 => { let a = PreparedEncryptionKey::from(s.ek.clone()); o.0.push((a == s.pek) as u8); let b = PreparedDecryptionKey::from(s.dk.clone()); o.0.push((b == s.pdk) as u8); o.p(&s.ek.commitment_key()); o.r(s.ek.supported_chunks_count(), |o, t| o.0.push(*t)); }
                18 => {
                    let parts: Vec<FEncryptionKeyPartial<E>> = [&s.ek, &self.sets[0].ek, &self.sets[6].ek].iter().filter(|e| e.X.len() == s.ek.X.len()).map(|e| FEncryptionKeyPartial { X_0: s.ek.X_0, X: e.X.clone(), Y: e.Y.clone(), Z: e.Z.clone(), P_2: e.P_2 }).collect();
                    let comb = combineEKs(&s.w.gamma_g, &parts);
                    o.p(&comb);
                    let sk = SecretKeyST::<E> { s: s.s.s.clone(), t: s.s.t.clone() };
                    let sh = [genP1share(&comb, &sk), P1share { P_1: s.ek.P_1 }];
                    let p1 = combineP1share(&sh);
                    o.p(&sh[0]).p(&p1).p(&keygenFinal(&comb, &p1));
                }
                19 => { o.r(Fkeygen_dest::<_, E>(rng, &s.w.gens), |o, t| { o.p(&t.0).p(&t.1); }); }
                20 => { let sc = [s.s.rho, Fr::zero(), -Fr::one()]; for p in [s.w.gens.G, s.ek.X_0, s.ek.X[0]] { o.p(&utils::multiply_field_elems_with_same_group_elem(p.into_group(), &sc).iter().map(|p| p.into_affine()).collect::<Vec<_>>()); } }
                21 => { let t = WindowTable::<G1Projective>::new(5, s.ek.X[3].into_group()); o.p(&t); o.p(&t.multiply(&s.s.rho).into_affine()); }
                23 => {
                    for b in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31] {
                        let cts: Vec<Ct> = (0..b).map(|i| s.batch[i % s.batch.len()].clone()).collect();
                        let ws: Vec<Fr> = (0..b).map(|i| s.weights[i % s.weights.len()] * small(i as u64 + 1)).collect();
                        o.p(&Enc::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(&cts, &ws));
                    }
                    let mut b = s.batch.clone(); b.reverse(); b[0] = s.bad.clone();
                    o.r(Enc::verify_commitments_in_batch(&b, &s.weights, s.ek.clone(), s.w.gens.clone()), unit);
                    let mut b = s.batch.clone(); let i = b.len() - 1; b[i] = s.bad.clone();
                    o.r(Enc::verify_commitments_in_batch(&b, &s.weights, s.ek.clone(), s.w.gens.clone()), unit);
                }
                24 => {
                    o.p(&Enc::get_g1_for_ciphertext_commitment_pairing_checks(&s.ct.X_r, &s.ct.enc_chunks, &s.ct.commitment));
                    let b = Enc::get_g2_for_ciphertext_commitment_pairing_checks(&s.pek, &PreparedEncryptionGens::from(s.w.gens.clone()));
                    o.0.extend(format!("{:?}", h64(&format!("{b:?}"))).bytes());
                    let sc: Vec<Fr> = (0..s.m.len()).map(|i| s.s.s[i] + small(i as u64)).collect();
                    o.p(&utils::multiply_field_elems_with_same_group_elem(s.w.gens.H.into_group(), &sc).iter().map(|p| p.into_affine()).collect::<Vec<_>>());
                    o.p(&WindowTable::<G1Projective>::new(sc.len(), s.ek.X_0.into_group()).multiply_many(&sc).iter().map(|p| p.into_affine()).collect::<Vec<_>>());
                }
                _ => { o.r(Enc::decrypt_given_groth16_vk(&s.ct.X_r, &s.ct.enc_chunks, &s.s.sk(), s.dk.clone(), &s.vk, 4), dec); o.r(Enc::decrypt_given_groth16_vk_and_pairing_powers(&s.ct.X_r, &s.ct.enc_chunks, &s.s.sk(), s.pdk.clone(), &s.vk, 4, &s.tab), dec); }
            }
        } else if op < 200 {
            let w = &self.worlds16[k];
            match op {
                100 => { o.r(keygen(rng, 16, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g), |o, t| { o.p(&t.0).p(&t.1).p(&t.2); }); }
                101 => { o.r(FkeygenPartial(rng, 16, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g), |o, t| { o.p(&t.0).p(&t.1); }); }
                102 => {
                    let (_, ek, _) = keygen(rng, 16, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g).unwrap();
                    for m in &self.messages { o.r(Enc::encrypt(rng, m, &ek, &w.g_i, 16), |o, t| { o.p(&t.0).p(&t.1); }); }
                }
                _ => {
                    let (sk, ek, dk) = keygen(rng, 16, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g).unwrap();
                    for m in [Fr::zero(), small(77)] { let (ct, _) = Enc::encrypt(rng, &m, &ek, &w.g_i, 16).unwrap(); o.r(ct.decrypt(&sk, dk.clone(), &w.g_i, 16), |o, t| { o.p(&t.0).p(&t.1); }); }
                }
            }
        } else if op < 300 {
            let g = &self.cgens[k];
            let bits = [4u8, 8, 16][op - 200];
            for m in &self.messages {
                o.r(ChunkedCommitment::new(m, &self.messages[2], bits, g), |o, t| { o.p(t); });
                let ck = ChunkedCommitment::commitment_key(g, bits);
                o.r(ChunkedCommitment::get_commitment_given_commitment_key(m, &self.messages[1], bits, &ck), |o, t| { o.p(t); });
                o.r(utils::decompose(m, bits), |o, t| { o.p(t); });
            }
        } else if op < 400 {
            let (pk, ek, gens) = &self.srs[k];
            let g_i = saver_groth16::get_gs_for_encryption(&pk.pk.vk);
            let m = vec![1u16, 15, 8];
            match op {
                300 => { o.r(saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(4, Some(2), None, true), gens, rng), |o, t| { o.p(t); }); }
                301 => {
                    let ct = ref_ciphertext(ek, g_i, &m, &small(9));
                    let vals: Vec<Fr> = m.iter().map(|x| small(*x as u64)).collect();
                    let pr = saver_groth16::create_proof(BitsizeCheckCircuit::new(4, Some(3), Some(vals), true), &small(9), pk, ek, rng).unwrap();
                    o.p(&pr);
                    let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
                    o.r(ct.verify_commitment_and_proof(&pr, &pvk, ek.clone(), gens.clone()), unit);
                    o.r(saver_groth16::calculate_d(&pvk, &ct), |o, t| { o.p(t); });
                    let mut bad = pr.clone(); bad.a = gens.G;
                    o.r(ct.verify_commitment_and_proof(&bad, &pvk, ek.clone(), gens.clone()), unit);
                    let other = saver_groth16::prepare_verifying_key(&self.srs[(k + 2) % 4].0.pk.vk);
                    o.r(saver_groth16::verify_proof(&other, &pr, &ct), unit);
                }
                _ => {
                    if k == 0 { o.r(setup_for_groth16::<E, _>(rng, 16, gens), |o, t| { o.p(&t.0).p(&t.1).p(&t.2).p(&t.3); }); }
                    if k == 1 {
                        let (pk, _, ek, _) = setup_for_groth16::<E, _>(rng, 16, gens).unwrap();
                        o.r(Enc::encrypt_with_proof(rng, &self.messages[2], &ek, &pk, 16), |o, t| { o.p(&t.0).p(&t.1).p(&t.2); });
                    }
                }
            }
        } else {
            let label: &[u8] = [&b"a"[..], b"ab", b"abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789-1", b"abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789-2", b"", b"\0", b"b", b"abc"][k];
            match op {
                400 => { o.p(&EncryptionGens::<E>::new::<blake2::Blake2b512>(label)); }
                401 => { o.p(&ChunkedCommitmentGens::<G1Affine>::new::<blake2::Blake2b512>(label)); o.p(&EncryptionGens::<E>::new::<blake2::Blake2s256>(label)); }
                _ => { o.p(&utils::field_elem_from_try_and_incr::<Fr, blake2::Blake2b512>(label)); o.p(&EncryptionGens::<E>::new_using_rng(rng)); }
            }
        }
        o.0
    }
    fn outcome(&self, op: (usize, usize)) -> String {
        match guard(|| self.run(op)) { Ok(b) => h(&b), Err(p) => format!("panic {p}") }
    }
}
/// `dvemon transcript SEED`: one line per operation
pub fn transcript(seed: u64) {
    let f = Fix::new(seed);
    println!("inputs {}", f.digest());
    for op in f.names() { println!("{}/{} {}", op.0, op.1, f.outcome(op)); }
    println!("inputs-after {}", f.digest());
}
/// `dvemon race SEED`: concurrent callers sharing all inputs, for the race detector
pub fn race(seed: u64, threads: usize, share: usize) {
    let f = std::sync::Arc::new(Fix::new(seed));
    let names = std::sync::Arc::new(f.names());
    let start = std::sync::Arc::new(std::sync::Barrier::new(threads));
    let hs: Vec<_> = (0..threads).map(|t| {
        let (f, names, start) = (f.clone(), names.clone(), start.clone());
        std::thread::spawn(move || {
            let mut rng = StdRng::seed_from_u64(seed * 100 + t as u64);
            let perm = permutation(&mut rng, names.len());
            start.wait();
            let mut n = 0u64;
            // every second thread starts with the same operations, so that they overlap
            let mut order: Vec<usize> = (0..names.len()).collect();
            if t % 2 == 1 { order = perm; }
            for i in order { if (i + t / 2) % share == 0 { f.outcome(names[i]); n += 1; } }
            n
        })
    }).collect();
    let n: u64 = hs.into_iter().map(|h| h.join().unwrap()).sum();
    println!("operations {n}");
}

fn child(bin: &str, args: &[&str], env: &[(&str, String)]) -> Result<(String, String, i32), String> {
    let mut c = std::process::Command::new(bin);
    c.args(args);
    for (k, v) in env { c.env(k, v); }
    let o = c.output().map_err(|e| format!("[harness] cannot run {bin}: {e}"))?;
    Ok((String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into(), o.status.code().unwrap_or(-1)))
}
fn parse(s: &str) -> BTreeMap<String, String> {
    s.lines().filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string()))).collect()
}
pub fn c17(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation runs the transcript of all operations in one configuration (build, worker count, concurrent callers, call order) and compares every outcome with the first run's; distinct_nontrivial counts distinct (configuration, operation, input set)");
    let root = std::env::var("DVE_ROOT").unwrap_or_else(|_| "/verif".into());
    let seeds: Vec<u64> = (0..ctx.n(1, 6)).map(|i| ctx.seed * 1000 + i).collect();
    // builds and worker counts, in processes of their own
    let mut confs: Vec<(&str, String)> = vec![];
    for t in [1usize, 2, 3, 5, 8] { confs.push(("parallel", t.to_string())); }
    for v in ["serial", "std"] { confs.push((v, "1".into())); }
    confs.push(("plain", "1".into()));
    for (q, seed) in seeds.iter().enumerate() {
        let base = std::sync::Mutex::new(None::<BTreeMap<String, String>>);
        let f = Fix::new(*seed);
        let before = f.digest();
        {
            let mut b = BTreeMap::new();
            b.insert("inputs".into(), before.clone());
            for op in f.names() { b.insert(format!("{}/{}", op.0, op.1), f.outcome(op)); }
            b.insert("inputs-after".into(), f.digest());
            *base.lock().unwrap() = Some(b);
        }
        let base = base.into_inner().unwrap().unwrap();
        let changed = |c: &mut Case| -> R { ensure!(f.digest() == before, "an operation modified one of its inputs"); c.count("inputs.compared", 1); Ok(()) };
        ctx.one(&format!("baseline{q}"), 0, |c| {
            for (k, v) in &base { ensure!(!v.starts_with("panic"), "operation {k} {v}"); c.seen(("base", k, *seed)); }
            let distinct: std::collections::BTreeSet<_> = base.values().collect();
            c.count("outcomes.distinct", distinct.len() as u64);
            changed(c)
        });
        ctx.cases(&format!("processes{q}"), confs.len() as u64, |c| {
            let (v, t) = &confs[c.idx as usize];
            let bin = format!("{root}/harness/target/{v}/{}/dvemon", if *v == "plain" { "plain" } else { "release" });
            let (out, err, rc) = child(&bin, &["transcript", &seed.to_string()], &[("RAYON_NUM_THREADS", t.clone())])?;
            let got = parse(&out);
            ensure!(rc == 0, "the {v} build with {t} workers ended with status {rc}: {}", err.lines().last().unwrap_or(""));
            ensure!(got.len() == base.len(), "the {v} build with {t} workers reported {} outcomes instead of {}", got.len(), base.len());
            for (k, b) in &base {
                let g = &got[k];
                ensure!(g == b, "operation {k} in the {v} build with {t} workers gave {g}, in this process {b}");
                c.seen((v, t, k, *seed));
                c.count("outcomes.compared", 1);
            }
            c.count(&format!("build.{v}"), 1);
            Ok(())
        });
        // call orders, repetitions, worker pools
        let orders = ctx.n(2, 40);
        ctx.one(&format!("orders{q}"), 0, |c| {
            for r in 0..orders {
                let names = f.names();
                let perm = permutation(&mut c.rng, names.len());
                for i in perm {
                    let op = names[i];
                    let times = if c.rng.gen_bool(0.1) { 2 } else { 1 };
                    for _ in 0..times {
                        let got = f.outcome(op);
                        let want = &base[&format!("{}/{}", op.0, op.1)];
                        ensure!(got == *want, "operation {}/{} gave {got} in another call order ({r}), {want} before", op.0, op.1);
                        c.count("outcomes.compared", 1);
                    }
                    c.seen(("order", r, i, *seed));
                }
            }
            changed(c)
        });
        #[cfg(feature = "parallel")]
        for t in [1usize, 2, 3, 7, 16] {
            ctx.one(&format!("pool{q}"), t as u64, |c| {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().map_err(|e| format!("{e}"))?;
                let names = f.names();
                let perm = permutation(&mut c.rng, names.len());
                for i in perm {
                    let op = names[i];
                    let got = pool.install(|| f.outcome(op));
                    let want = &base[&format!("{}/{}", op.0, op.1)];
                    ensure!(got == *want, "operation {}/{} gave {got} with {t} workers, {want} before", op.0, op.1);
                    c.count("outcomes.compared", 1);
                    c.seen(("pool", t, i, *seed));
                }
                changed(c)
            });
        }
        // thousands of calls of each operation in one process
        {
            let mut best: BTreeMap<usize, (f64, usize)> = BTreeMap::new();
            for op in f.names() {
                let t = std::time::Instant::now();
                let got = f.outcome(op);
                let d = t.elapsed().as_secs_f64();
                let want = &base[&format!("{}/{}", op.0, op.1)];
                ensure!(got == *want, "operation {}/{} gave {got}, {want} before", op.0, op.1);
                let e = best.entry(op.0).or_insert((d, op.1));
                if d < e.0 && !want.is_empty() { *e = (d, op.1); }
            }
            let ops: Vec<(usize, usize)> = best.iter().map(|(op, x)| (*op, x.1)).collect();
            ctx.cases(&format!("many{q}"), ops.len() as u64, |c| {
                let op = ops[c.idx as usize];
                let want = &base[&format!("{}/{}", op.0, op.1)];
                let t = std::time::Instant::now();
                let limit = if ctx.thorough() { 20.0 } else { 3.0 };
                let mut n = 0u64;
                while n < 2500 && t.elapsed().as_secs_f64() < limit {
                    let got = f.outcome(op);
                    ensure!(got == *want, "operation {}/{} gave {got} the {n}th time, {want} before", op.0, op.1);
                    n += 1;
                }
                c.count("outcomes.compared", n);
                c.count("outcomes.repeated", n);
                c.seen(("many", op, n > 600, *seed));
                Ok(())
            });
        }
        // concurrent callers
        let rounds = ctx.n(2, 12);
        for r in 0..rounds {
            ctx.one(&format!("concurrent{q}"), r, |c| {
                let names = f.names();
                let threads = 6 + (r as usize % 3) * 4;
                let barrier = std::sync::Barrier::new(threads);
                let jobs: Vec<Vec<usize>> = (0..threads).map(|t| {
                    let mut p = permutation(&mut c.rng, names.len());
                    // pairs of threads start together on the same inputs
                    if t % 2 == 0 { p = (0..names.len()).collect(); let k = (t / 2 * 31) % names.len(); p.rotate_left(k); }
                    p
                }).collect();
                let res: Vec<Result<u64, String>> = std::thread::scope(|s| {
                    let hs: Vec<_> = jobs.iter().map(|p| {
                        let (f, names, base, barrier) = (&f, &names, &base, &barrier);
                        s.spawn(move || {
                            barrier.wait();
                            let mut n = 0;
                            for i in p {
                                let op = names[*i];
                                let got = f.outcome(op);
                                let want = &base[&format!("{}/{}", op.0, op.1)];
                                if got != *want { return Err(format!("operation {}/{} gave {got} beside concurrent callers, {want} before", op.0, op.1)); }
                                n += 1;
                            }
                            Ok(n)
                        })
                    }).collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a concurrent caller panicked".into()))).collect()
                });
                for x in res { let n = x?; c.count("outcomes.compared", n); c.count("outcomes.concurrent", n); }
                changed(c)
            });
        }
    }
    // the race detector
    let bin = format!("{root}/harness/target/tsan/x86_64-unknown-linux-gnu/release/dvemon");
    ctx.cases("race", ctx.n(2, 10), |c| {
        ensure!(std::path::Path::new(&bin).exists(), "[harness] no race-detector build at {bin}");
        let log = format!("{root}/harness/target/tsan/report-{}-{}", std::process::id(), c.idx);
        let seed = (ctx.seed * 1000 + 500 + c.idx).to_string();
        let threads = ["4", "6"][c.idx as usize % 2];
        let share = if ctx.thorough() { "1" } else { "3" };
        let (out, err, rc) = child(&bin, &["race", &seed, threads, share], &[("RAYON_NUM_THREADS", "3".into()), ("TSAN_OPTIONS", format!("exitcode=66:halt_on_error=0:log_path={log}"))])?;
        let mut reports = String::new();
        let mut n = 0;
        let mut in_crate = 0;
        if let Ok(dir) = std::fs::read_dir(format!("{root}/harness/target/tsan")) {
            for e in dir.flatten() {
                let p = e.path();
                if p.to_string_lossy().starts_with(&log) {
                    let t = std::fs::read_to_string(&p).unwrap_or_default();
                    for w in t.split("WARNING: ThreadSanitizer").skip(1) { n += 1; if w.contains("dist_saver") { in_crate += 1; if reports.is_empty() { reports = w.lines().take(14).collect::<Vec<_>>().join(" | "); } } }
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
        ensure!(in_crate == 0, "the race detector reported {in_crate} races: {reports}");
        c.count("race.other_reports", n);
        let ops: u64 = out.lines().find_map(|l| l.strip_prefix("operations ")).and_then(|x| x.parse().ok()).unwrap_or(0);
        ensure!(ops > 0 && (rc == 0 || rc == 66), "[harness] the race-detector run ended with status {rc}: {}", err.lines().last().unwrap_or(""));
        c.count("race.operations", ops);
        c.seen(("race", seed));
        Ok(())
    });
    ctx.require("outcomes.compared", 2000);
    ctx.require("outcomes.distinct", 120);
    ctx.require("outcomes.concurrent", 1000);
    ctx.require("outcomes.repeated", 2000);
    ctx.require("race.operations", 100);
    ctx.require("build.serial", 1);
    ctx.require("build.std", 1);
    ctx.require("build.plain", 1);
    ctx.require("build.parallel", 5);
    Ok(())
}
#[allow(unused)]
fn silence() -> R { ok!("", Ok::<(), SaverError>(())); Ok(()) }
