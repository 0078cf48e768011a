//! C23: whole histories of the protocol. A shadow ledger of integers says what every object holds; every step is checked
//! as it happens, and at the end everything still under way is delivered.
use crate::ctx::*;
use crate::model::*;
use crate::{call, ensure, must_err, ok};
use ark_groth16::Proof;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use dist_saver::circuit::BitsizeCheckCircuit;
use std::collections::BTreeSet;

struct Snark {
    pk: saver_groth16::ProvingKey<E>,
    pvk: ark_groth16::PreparedVerifyingKey<E>,
    bits: u8,
}
/// Generators and SNARK parameters shared by some groups
struct Site {
    gens: EncryptionGens<E>,
    g: Vec<G1Affine>,
    dg: G1Affine,
    gg: G1Affine,
    /// gives `g.len()` chunks
    width: u8,
    snark: Option<Snark>,
}
struct Grp {
    site: usize,
    sks: Vec<SecretKeyST<E>>,
    ek: EncryptionKey<E>,
    dealer: Option<(SecretKey<Fr>, DecryptionKey<E>)>,
}
struct Dest {
    site: usize,
    sk: SecretKey<Fr>,
    pk: FEncryptionKeyDest<E>,
}
/// A ciphertext: `v` is randomness element, chunks and, until it is re-encrypted, the commitment
struct Obj {
    grp: usize,
    dest: Option<usize>,
    v: Vec<G1Affine>,
    sums: Vec<u64>,
    r: Fr,
    fresh: bool,
    proof: Option<Proof<E>>,
    parents: Option<(usize, usize)>,
    depth: u32,
}
struct Share {
    obj: usize,
    dest: usize,
    by: BTreeSet<usize>,
    w: Vec<G1Affine>,
    gr: G1Affine,
}

fn through<T: CanonicalSerialize + CanonicalDeserialize + PartialEq>(c: &mut Case, name: &str, x: T) -> Result<T, String> {
    let mut b = vec![];
    let y = if c.rng.gen() {
        call!("serialize_compressed", x.serialize_compressed(&mut b).unwrap());
        ok!(format!("restoring a stored {name}"), T::deserialize_compressed(&b[..]))
    } else {
        call!("serialize_uncompressed", x.serialize_uncompressed(&mut b).unwrap());
        ok!(format!("restoring a stored {name}"), T::deserialize_uncompressed(&b[..]))
    };
    ensure!(x == y, "a stored {name} came back changed");
    c.count("stored", 1);
    Ok(y)
}
fn stored<T: CanonicalSerialize + CanonicalDeserialize + serde::Serialize + serde::de::DeserializeOwned + PartialEq>(c: &mut Case, name: &str, x: T) -> Result<T, String> {
    match c.rng.gen_range(0..8) {
        0 | 1 => through(c, name, x),
        2 => {
            let t = ok!(format!("writing a {name} as JSON"), serde_json::to_string(&x));
            let y: T = ok!(format!("restoring a {name} from JSON"), serde_json::from_str(&t));
            ensure!(x == y, "a {name} stored as JSON came back changed");
            c.count("stored", 1);
            Ok(y)
        }
        3 => {
            let t = ok!(format!("writing a {name} in binary"), bincode::serialize(&x));
            let y: T = ok!(format!("restoring a {name} from binary"), bincode::deserialize(&t));
            ensure!(x == y, "a {name} stored in binary came back changed");
            c.count("stored", 1);
            Ok(y)
        }
        _ => Ok(x),
    }
}

struct Hist {
    sites: Vec<Site>,
    grps: Vec<Grp>,
    dests: Vec<Dest>,
    objs: Vec<Obj>,
    shares: Vec<Share>,
    bits: u8,
    done: BTreeSet<usize>,
}
impl Hist {
    fn site(&self, o: usize) -> &Site {
        &self.sites[self.grps[self.objs[o].grp].site]
    }
    fn new_site(c: &mut Case, snark: bool) -> Result<Site, String> {
        let (width, n) = [(255u8, 1usize), (128, 2), (85, 3), (64, 4), (51, 5), (43, 6), (32, 8), (16, 16)][c.rng.gen_range(0..if snark { 4 } else { 8 })];
        let gens = EncryptionGens { G: G1Affine::rand(&mut c.rng), H: G2Affine::rand(&mut c.rng) };
        let gens = stored(c, "generator set", gens)?;
        if snark {
            let bits = c.rng.gen_range(4..9);
            let circuit = BitsizeCheckCircuit::<Fr>::new(bits, Some(n as u8), None, true);
            let pk = ok!("generate_srs", saver_groth16::generate_srs::<E, _, _>(circuit, &gens, &mut c.rng));
            let pk = stored(c, "proving key", pk)?;
            let g = call!("get_gs_for_encryption", saver_groth16::get_gs_for_encryption(&pk.pk.vk)).to_vec();
            ensure!(g.len() == n, "the setup for {n} values has {} generators", g.len());
            let pvk = saver_groth16::prepare_verifying_key::<E>(&pk.pk.vk);
            return Ok(Site { gens, g, dg: pk.pk.delta_g1, gg: pk.gamma_g1, width, snark: Some(Snark { pk, pvk, bits }) });
        }
        let g = (0..n).map(|_| G1Affine::rand(&mut c.rng)).collect();
        Ok(Site { gens, g, dg: G1Affine::rand(&mut c.rng), gg: G1Affine::rand(&mut c.rng), width, snark: None })
    }
    /// Key generation with the messages between the parties in any order
    fn new_group(c: &mut Case, site: usize, s: &Site) -> Result<Grp, String> {
        if c.rng.gen_range(0..4) == 0 {
            let (sk, ek, dk) = ok!("keygen", keygen(&mut c.rng, s.width, &s.gens, &s.g, &s.dg, &s.gg));
            let (sk, ek, dk) = (stored(c, "secret key", sk)?, stored(c, "encryption key", ek)?, stored(c, "decryption key", dk)?);
            return Ok(Grp { site, sks: vec![], ek, dealer: Some((sk, dk)) });
        }
        let k = [1usize, 2, 2, 3, 3, 4, 5, 7][c.rng.gen_range(0..8)];
        let (mut sks, mut parts) = (vec![], vec![]);
        for _ in 0..k {
            let (sk, p) = ok!("FkeygenPartial", FkeygenPartial(&mut c.rng, s.width, &s.gens, &s.g, &s.dg, &s.gg));
            sks.push(stored(c, "party key", sk)?);
            parts.push(stored(c, "partial key", p)?);
        }
        // every party combines what it received in its own order
        let mut first: Option<FEncryptionKeyPartial<E>> = None;
        let mut shares = vec![];
        for sk in &sks {
            let order: Vec<FEncryptionKeyPartial<E>> = permutation(&mut c.rng, k).iter().map(|i| parts[*i].clone()).collect();
            let comb = call!("combineEKs", combineEKs(&s.gg, &order));
            if let Some(f) = &first { ensure!(*f == comb, "two parties combined the same partial keys to different ones"); }
            let comb = stored(c, "combined partial key", comb)?;
            let sh = call!("genP1share", genP1share(&comb, sk));
            shares.push(stored(c, "P1 share", sh)?);
            first = Some(comb);
        }
        let comb = first.unwrap();
        let mut ek: Option<EncryptionKey<E>> = None;
        for _ in 0..k.min(3) {
            let order: Vec<P1share<E>> = permutation(&mut c.rng, k).iter().map(|i| shares[*i].clone()).collect();
            let e = call!("keygenFinal", keygenFinal(&comb, &combineP1share(&order)));
            if let Some(x) = &ek { ensure!(*x == e, "two parties arrived at different group keys"); }
            ek = Some(stored(c, "group key", e)?);
        }
        c.count("groups", 1);
        Ok(Grp { site, sks, ek: ek.unwrap(), dealer: None })
    }
    fn encrypt(&mut self, c: &mut Case, grp: usize) -> R {
        let s = &self.sites[self.grps[grp].site];
        let ek = &self.grps[grp].ek;
        let n = s.g.len();
        let top = match &s.snark { Some(x) => 1u64 << x.bits, None => [2u64, 32, 1 << self.bits][c.rng.gen_range(0..3)] };
        let ch: Vec<u16> = (0..n).map(|_| match c.rng.gen_range(0..6) { 0 => 0, 1 => top - 1, _ => c.rng.gen_range(0..top) } as u16).collect();
        let (v, r) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), ek, &s.g));
        let mut proof = None;
        if let Some(x) = &s.snark {
            if c.rng.gen_range(0..3) > 0 {
                let circuit = BitsizeCheckCircuit::<Fr>::new(x.bits, Some(n as u8), Some(ch.iter().map(|x| Fr::from(*x)).collect()), true);
                let p = ok!("create_proof", saver_groth16::create_proof(circuit, &r, &x.pk, ek, &mut c.rng));
                proof = Some(through(c, "proof", p)?);
                c.count("proofs", 1);
            }
        }
        let v = through(c, "ciphertext", v)?;
        self.objs.push(Obj { grp, dest: None, v, sums: ch.iter().map(|x| *x as u64).collect(), r, fresh: true, proof, parents: None, depth: 0 });
        c.count("encryptions", 1);
        Ok(())
    }
    /// The ledger's account of one object: its verdicts, and what it opens to for those who may open it
    fn inspect(&self, c: &mut Case, o: usize) -> R {
        let x = &self.objs[o];
        let g = &self.grps[x.grp];
        let s = &self.sites[g.site];
        let n = s.g.len();
        let what = format!("object {o} ({} chunks, {} parties{})", n, g.sks.len(), if x.fresh { "" } else { ", a sum" });
        ensure!(x.v.len() == n + if x.dest.is_some() { 1 } else { 2 }, "{what}: {} components", x.v.len());
        let max = max_chunk(self.bits) as u64;
        let fits = x.sums.iter().all(|v| *v <= max);
        match x.dest {
            None => {
                let ct = vec_ct(&x.v);
                ensure!(x.v[0] == mul1(g.ek.X_0, &x.r).into_affine(), "{what}: the randomness element is not that of the summed randomness");
                let r = if c.rng.gen() {
                    call!("verify_commitment", ct.verify_commitment(g.ek.clone(), s.gens.clone()))
                } else {
                    let (pek, pg) = (PreparedEncryptionKey::from(g.ek.clone()), PreparedEncryptionGens::from(s.gens.clone()));
                    call!("verify_ciphertext_commitment", Enc::verify_ciphertext_commitment(&ct.X_r, &ct.enc_chunks, &ct.commitment, pek, pg))
                };
                ensure!(r.is_ok(), "{what}: its commitment was refused: {:?}", r.err());
                c.count("verified", 1);
                // under the key of another group of the same shape
                if let Some(h) = self.grps.iter().find(|h| h.ek.Z != g.ek.Z && h.ek.X.len() == n) {
                    must_err!(format!("{what}: its commitment under the key of another group"), ct.verify_commitment(h.ek.clone(), s.gens.clone()));
                }
                if let (Some(sn), Some(p)) = (&s.snark, &x.proof) {
                    ok!(format!("{what}: proof and commitment"), ct.verify_commitment_and_proof(p, &sn.pvk, g.ek.clone(), s.gens.clone()));
                    c.count("proofs verified", 1);
                    // the proof speaks of no other ciphertext
                    if let Some(y) = self.objs.iter().find(|y| y.dest.is_none() && self.grps[y.grp].site == g.site && y.v != x.v) {
                        must_err!(format!("{what}: its proof with another ciphertext"), saver_groth16::verify_proof(&sn.pvk, p, &vec_ct(&y.v)));
                    }
                }
                if let Some((sk, dk)) = &g.dealer {
                    let r = match c.rng.gen_range(0..3) {
                        0 => call!("decrypt_to_chunks", Enc::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, sk, dk.clone(), &s.g, self.bits)),
                        1 => call!("decrypt_to_chunks", Enc::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, sk, PreparedDecryptionKey::from(dk.clone()), &s.g, self.bits)),
                        _ => {
                            let t = ok!("pairing_powers", dk.pairing_powers(self.bits, &s.g));
                            call!("decryption with tables", Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, sk, dk.clone(), &s.g, self.bits, Some(&t)))
                        }
                    };
                    self.outcome(&what, r.map(|(v, _)| v), &x.sums, fits)?;
                    c.count(if fits { "opened by the dealer" } else { "too large" }, 1);
                }
            }
            Some(d) => {
                let sk = &self.dests[d].sk;
                let r = call!("decryption after re-encryption", Enc::decrypt_to_chunks_after_re_encryption(&x.v[0], &x.v[1..], sk, &s.g, self.bits));
                self.outcome(&what, r, &x.sums, fits)?;
                c.count(if fits { "delivered" } else { "too large" }, 1);
                c.seen(("delivered", n, g.sks.len(), x.depth, fits, self.bits));
                if let Some(e) = self.dests.iter().enumerate().find(|(i, e)| *i != d && e.site == g.site) {
                    must_err!(format!("{what}: opening with another destination's key"), Enc::decrypt_to_chunks_after_re_encryption(&x.v[0], &x.v[1..], &e.1.sk, &s.g, self.bits));
                }
            }
        }
        Ok(())
    }
    fn outcome(&self, what: &str, r: Result<Vec<u16>, SaverError>, sums: &[u64], fits: bool) -> R {
        match r {
            Ok(v) => ensure!(fits && v.iter().map(|x| *x as u64).eq(sums.iter().copied()), "{what}: opened to {v:?}, the ledger says {sums:?} ({} bits)", self.bits),
            Err(e) => ensure!(!fits, "{what}: did not open: {e:?}; the ledger says {sums:?} ({} bits)", self.bits),
        }
        Ok(())
    }
    /// Adds two objects in the same state; shares made for both of them become shares of the sum
    fn add(&mut self, c: &mut Case, a: usize, b: usize) -> R {
        let (x, y) = (&self.objs[a], &self.objs[b]);
        let v = ok!("add_cts", Enc::add_cts(&x.v, &y.v));
        let sums: Vec<u64> = x.sums.iter().zip(&y.sums).map(|(p, q)| p + q).collect();
        let o = Obj { grp: x.grp, dest: x.dest, v, sums, r: x.r + y.r, fresh: false, proof: None, parents: Some((a, b)), depth: 1 + x.depth.max(y.depth) };
        self.objs.push(o);
        c.count("additions", 1);
        Ok(())
    }
    fn share(&mut self, c: &mut Case, o: usize, d: usize, party: usize) -> R {
        let x = &self.objs[o];
        let s = self.site(o);
        let n = s.g.len();
        // a share of a sum may be made of shares of its summands
        if let Some((a, b)) = x.parents {
            let of = |p: usize| self.shares.iter().position(|h| h.obj == p && h.dest == d && h.by.len() == 1 && h.by.contains(&party));
            if let (Some(i), Some(j)) = (of(a), of(b)) {
                let (w, gr) = ok!("combine_re_encrypt_share", Enc::combine_re_encrypt_share(&self.shares[i].gr, &self.shares[j].gr, &self.shares[i].w, &self.shares[j].w));
                self.shares.push(Share { obj: o, dest: d, by: [party].into(), w, gr });
                c.count("shares of sums from shares", 1);
                return Ok(());
            }
        }
        let (w, gr) = ok!("re_encrypt_share", Enc::re_encrypt_share(&mut c.rng, &s.gens, &x.v[0], &x.v[1..n + 1], &self.dests[d].pk, &self.grps[x.grp].sks[party]));
        let w = through(c, "share", w)?;
        self.shares.push(Share { obj: o, dest: d, by: [party].into(), w, gr });
        c.count("shares", 1);
        Ok(())
    }
    /// Finishes the re-encryption of `o` for `d`, with the shares there are and those missing
    fn finish(&mut self, c: &mut Case, o: usize, d: usize) -> R {
        let k = self.grps[self.objs[o].grp].sks.len();
        // a set of shares that do not overlap
        let mut have: BTreeSet<usize> = BTreeSet::new();
        let mut pick = vec![];
        for i in permutation(&mut c.rng, self.shares.len()) {
            let h = &self.shares[i];
            if h.obj == o && h.dest == d && h.by.is_disjoint(&have) { have.extend(&h.by); pick.push(i); }
        }
        for p in 0..k {
            if !have.contains(&p) { self.share(c, o, d, p)?; pick.push(self.shares.len() - 1); }
        }
        let n = self.site(o).g.len();
        let mut acc = (self.shares[pick[0]].w.clone(), self.shares[pick[0]].gr);
        for (at, i) in pick.iter().enumerate().skip(1) {
            // nothing opens before the last share
            if at + 1 == pick.len() && c.rng.gen() {
                let half = ok!("combine_ct_with_w", Enc::combine_ct_with_w(&self.site(o).gens, &self.objs[o].v[1..n + 1], &acc.1, &acc.0));
                must_err!("opening with a share missing", Enc::decrypt_to_chunks_after_re_encryption(&half[0], &half[1..], &self.dests[d].sk, &self.site(o).g, self.bits));
                c.count("early openings refused", 1);
            }
            let h = &self.shares[*i];
            acc = if c.rng.gen() { ok!("combine_re_encrypt_share", Enc::combine_re_encrypt_share(&acc.1, &h.gr, &acc.0, &h.w)) } else { ok!("combine_re_encrypt_share", Enc::combine_re_encrypt_share(&h.gr, &acc.1, &h.w, &acc.0)) };
        }
        let v = ok!("combine_ct_with_w", Enc::combine_ct_with_w(&self.site(o).gens, &self.objs[o].v[1..n + 1], &acc.1, &acc.0));
        let v = through(c, "re-encrypted ciphertext", v)?;
        let x = &self.objs[o];
        let y = Obj { grp: x.grp, dest: Some(d), v, sums: x.sums.clone(), r: x.r, fresh: false, proof: None, parents: None, depth: x.depth };
        self.objs.push(y);
        self.done.insert(o);
        c.count("re-encryptions", 1);
        self.inspect(c, self.objs.len() - 1)
    }
    /// Two combinations of shares for the same thing by different parties become one
    fn combine(&mut self, c: &mut Case) -> R {
        if self.shares.len() < 2 { return Ok(()); }
        let i = c.rng.gen_range(0..self.shares.len());
        let Some(j) = (0..self.shares.len()).find(|j| *j != i && self.shares[*j].obj == self.shares[i].obj && self.shares[*j].dest == self.shares[i].dest && self.shares[*j].by.is_disjoint(&self.shares[i].by)) else { return Ok(()) };
        let (a, b) = (&self.shares[i], &self.shares[j]);
        let (w, gr) = ok!("combine_re_encrypt_share", Enc::combine_re_encrypt_share(&a.gr, &b.gr, &a.w, &b.w));
        let h = Share { obj: a.obj, dest: a.dest, by: a.by.union(&b.by).copied().collect(), w, gr };
        self.shares.push(h);
        c.count("combinations", 1);
        Ok(())
    }
    fn dest_for(&self, c: &mut Case, o: usize) -> usize {
        let s = self.grps[self.objs[o].grp].site;
        let v: Vec<usize> = (0..self.dests.len()).filter(|d| self.dests[*d].site == s).collect();
        v[c.rng.gen_range(0..v.len())]
    }
    fn step(&mut self, c: &mut Case) -> R {
        if self.objs.is_empty() || c.rng.gen_range(0..5) == 0 {
            let g = c.rng.gen_range(0..self.grps.len());
            return self.encrypt(c, g);
        }
        let o = c.rng.gen_range(0..self.objs.len());
        let open = self.objs[o].dest.is_none() && self.grps[self.objs[o].grp].dealer.is_none();
        match c.rng.gen_range(0..10) {
            0 | 1 => self.inspect(c, o),
            2..=4 => {
                let like: Vec<usize> = (0..self.objs.len()).filter(|i| self.objs[*i].grp == self.objs[o].grp && self.objs[*i].dest == self.objs[o].dest).collect();
                let b = like[c.rng.gen_range(0..like.len())];
                self.add(c, o, b)
            }
            5 | 6 if open => {
                let (d, p) = (self.dest_for(c, o), c.rng.gen_range(0..self.grps[self.objs[o].grp].sks.len()));
                self.share(c, o, d, p)
            }
            7 => self.combine(c),
            8 if open => { let d = self.dest_for(c, o); self.finish(c, o, d) }
            _ => {
                // everything under one key, with fresh weights
                let g = self.objs[o].grp;
                let cts: Vec<Ct> = self.objs.iter().filter(|x| x.grp == g && x.dest.is_none()).map(|x| vec_ct(&x.v)).collect();
                if cts.is_empty() { return Ok(()); }
                let w: Vec<Fr> = (0..cts.len()).map(|_| Fr::rand(&mut c.rng)).collect();
                ok!(format!("a batch of {} ciphertexts and sums", cts.len()), Enc::verify_commitments_in_batch(&cts, &w, self.grps[g].ek.clone(), self.sites[self.grps[g].site].gens.clone()));
                c.count("batches", 1);
                Ok(())
            }
        }
    }
}

fn history(c: &mut Case, snark: bool) -> R {
    let mut sites = vec![];
    for _ in 0..if c.idx % 3 == 0 { 2 } else { 1 } { sites.push(Hist::new_site(c, snark)?); }
    let (mut grps, mut dests) = (vec![], vec![]);
    for (i, s) in sites.iter().enumerate() {
        for _ in 0..c.rng.gen_range(1..3) { grps.push(Hist::new_group(c, i, s)?); }
        for _ in 0..c.rng.gen_range(1..4) {
            let (sk, pk) = ok!("Fkeygen_dest", Fkeygen_dest(&mut c.rng, &s.gens));
            dests.push(Dest { site: i, sk: stored(c, "destination key", sk)?, pk: stored(c, "destination's public key", pk)? });
        }
    }
    let bits = c.rng.gen_range(5..9);
    let mut h = Hist { sites, grps, dests, objs: vec![], shares: vec![], bits, done: BTreeSet::new() };
    let steps = if snark { 25 } else { c.rng.gen_range(15..60) };
    for i in 0..steps {
        h.step(c).map_err(|e| format!("after {i} steps: {e}"))?;
        c.count("steps", 1);
    }
    // what is still under way is delivered, and every object is looked at once more
    for o in 0..h.objs.len() {
        if h.objs[o].dest.is_none() && h.grps[h.objs[o].grp].dealer.is_none() && !h.done.contains(&o) {
            let d = h.dest_for(c, o);
            h.finish(c, o, d).map_err(|e| format!("delivering object {o}: {e}"))?;
        }
    }
    for o in 0..h.objs.len() { h.inspect(c, o).map_err(|e| format!("at the end: {e}"))?; }
    c.sample(|| format!("{} sites, {} groups of {:?} parties, {} destinations, {} objects, {} shares", h.sites.len(), h.grps.len(), h.grps.iter().map(|g| g.sks.len()).collect::<Vec<_>>(), h.dests.len(), h.objs.len(), h.shares.len()));
    Ok(())
}

pub fn c23(ctx: &Ctx) -> R {
    ctx.rule("each evaluation is one history: key generation, encryptions, additions, shares, combinations, deliveries and storage in random order, with every object compared with a ledger of integers; distinct_nontrivial counts distinct (chunks, parties, depth of the sum, fits, width) delivered");
    ctx.cases("plain", ctx.n(96, 4000), |c| history(c, false));
    ctx.cases("proved", ctx.n(28, 800), |c| history(c, true));
    ctx.require("steps", 3000);
    ctx.require("delivered", 600);
    ctx.require("too large", 60);
    ctx.require("additions", 600);
    ctx.require("shares of sums from shares", 20);
    ctx.require("proofs verified", 40);
    ctx.require("early openings refused", 100);
    ctx.require("stored", 500);
    Ok(())
}
