//! C19: pairing relations inside generated key sets and setups.
use crate::ctx::*;
use crate::model::*;
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::prelude::*;
use ark_ec::VariableBaseMSM;
use std::collections::HashMap;

pub fn multi(a: &[G1Affine], b: &[G2Affine]) -> PairingOutput<E> {
    E::multi_pairing(a.iter().copied(), b.iter().copied())
}
fn sum(v: &[G1Affine]) -> G1Projective {
    v.iter().fold(G1Projective::zero(), |a, x| a + x)
}
/// Everything in the list is non-zero, and no two are equal or opposite
pub fn all_distinct<T: Clone + std::hash::Hash + Eq + std::ops::Neg<Output = T> + Zero>(v: &[(String, T)]) -> R {
    let mut m: HashMap<T, &str> = HashMap::new();
    for (n, x) in v {
        ensure!(!x.is_zero(), "{n} is zero");
        if let Some(o) = m.get(x) { return Err(format!("{n} and {o} coincide")); }
        if let Some(o) = m.get(&-x.clone()) { return Err(format!("{n} and {o} are opposite")); }
        m.insert(x.clone(), n);
    }
    Ok(())
}
pub fn named<T: Clone>(n: &str, v: &[T]) -> Vec<(String, T)> {
    v.iter().enumerate().map(|(i, x)| (format!("{n}[{i}]"), x.clone())).collect()
}
/// What the keys were made for
pub struct Params<'a> {
    pub n: usize,
    pub gens: &'a EncryptionGens<E>,
    pub g_i: &'a [G1Affine],
    pub delta_g: G1Affine,
    pub gamma_g: G1Affine,
    /// the G2 partners of the two: e(delta_g, H) = e(G, delta_h) and e(gamma_g, H) = e(G, gamma_h)
    pub delta_h: G2Affine,
    pub gamma_h: G2Affine,
}
/// The relations every encryption key satisfies; weighted sums, so that one wrong component spoils the whole
pub fn check_ek(c: &Case, rng: &mut StdRng, p: &Params, ek: &EncryptionKey<E>) -> R {
    let n = p.n;
    ensure!(ek.X.len() == n && ek.Y.len() == n && ek.Z.len() == n + 1, "an encryption key for {n} chunks has {}/{}/{} components", ek.X.len(), ek.Y.len(), ek.Z.len());
    ensure!(ok!("validate", ek.supported_chunks_count()) as usize == n, "an encryption key for {n} chunks reports another count");
    ensure!(ek.validate().is_ok(), "a generated encryption key does not validate");
    ensure!(ek.X_0 == p.delta_g, "X_0 is not the SNARK's delta element");
    let w: Vec<Fr> = (0..n).map(|_| nz(rng)).collect();
    // e(Y_i, H) = e(G_i, Z_{i+1})
    let yw: G1Projective = (0..n).map(|i| mul1(ek.Y[i], &w[i])).sum();
    let gw: Vec<G1Affine> = (0..n).map(|i| mul1(p.g_i[i], &w[i]).into_affine()).collect();
    ensure!(pair(yw, p.gens.H) == multi(&gw, &ek.Z[1..]), "the Y components do not match the Z components over the chunk generators ({n} chunks)");
    // e(P_1, H) = e(X_0, Z_0) prod e(X_i, Z_{i+1})
    let mut xs = vec![ek.X_0];
    xs.extend_from_slice(&ek.X);
    ensure!(pair(ek.P_1, p.gens.H) == multi(&xs, &ek.Z), "P_1 is not the sum of the X components times the t secrets ({n} chunks)");
    // e(P_2, delta) = e(X_0 + sum X_i, gamma)
    ensure!(pair(ek.P_2, p.delta_h) == pair(sum(&xs), p.gamma_h), "P_2 is not gamma times one plus the sum of the s secrets ({n} chunks)");
    // distinct components
    let mut g1 = named("X", &ek.X);
    g1.push(("X_0".into(), ek.X_0));
    g1.extend(named("Y", &ek.Y));
    g1.push(("P_1".into(), ek.P_1));
    g1.push(("P_2".into(), ek.P_2));
    all_distinct(&g1.iter().map(|(a, b)| (a.clone(), b.into_group())).collect::<Vec<_>>())?;
    let mut g2 = named("Z", &ek.Z);
    g2.push(("H".into(), p.gens.H));
    all_distinct(&g2.iter().map(|(a, b)| (a.clone(), b.into_group())).collect::<Vec<_>>())?;
    // evenly spaced secrets are not independent ones
    if n > 2 {
        let d: Vec<_> = ek.X.windows(2).map(|w| w[1].into_group() - w[0]).collect();
        all_distinct(&named("step of X", &d))?;
        let d: Vec<_> = ek.Z.windows(2).map(|w| w[1].into_group() - w[0]).collect();
        all_distinct(&named("step of Z", &d))?;
    }
    c.count("encryption_keys", 1);
    c.count("relations", 3 + 2 * n as u64);
    Ok(())
}
pub fn check_dk(c: &Case, rng: &mut StdRng, p: &Params, ek: &EncryptionKey<E>, dk: &DecryptionKey<E>, sk: &SecretKey<Fr>) -> R {
    let n = p.n;
    ensure!(dk.V_1.len() == n && dk.V_2.len() == n, "a decryption key for {n} chunks has {}/{} components", dk.V_1.len(), dk.V_2.len());
    ensure!(ok!("validate", dk.supported_chunks_count()) as usize == n && dk.validate().is_ok(), "a generated decryption key does not validate");
    let rho = sk.0;
    ensure!(!rho.is_zero() && rho != Fr::one(), "the secret key is trivial");
    ensure!(dk.V_0 == mul2(p.gens.H, &rho).into_affine(), "V_0 is not the secret key times H");
    // e(X_i, V_2i) = e(rho X_0, V_1i)
    let w: Vec<Fr> = (0..n).map(|_| nz(rng)).collect();
    let xw: Vec<G1Affine> = (0..n).map(|i| mul1(ek.X[i], &w[i]).into_affine()).collect();
    let vw: G2Projective = (0..n).map(|i| mul2(dk.V_1[i], &w[i])).sum();
    ensure!(multi(&xw, &dk.V_2) == pair(mul1(ek.X_0, &rho), vw), "the V components do not match the X components and the secret key ({n} chunks)");
    let mut g2 = named("V_1", &dk.V_1);
    g2.extend(named("V_2", &dk.V_2));
    g2.push(("V_0".into(), dk.V_0));
    g2.extend(named("Z", &ek.Z));
    all_distinct(&g2.iter().map(|(a, b)| (a.clone(), b.into_group())).collect::<Vec<_>>())?;
    if n > 2 {
        let d: Vec<_> = dk.V_2.windows(2).map(|w| w[1].into_group() - w[0]).collect();
        all_distinct(&named("step of V_2", &d))?;
    }
    c.count("decryption_keys", 1);
    c.count("relations", 1 + n as u64);
    Ok(())
}
/// No secret serves two roles: s_i, t_j, v_k, rho (and one) are compared in the target group
pub fn check_roles(c: &Case, p: &Params, ek: &EncryptionKey<E>, dk: Option<(&DecryptionKey<E>, &SecretKey<Fr>)>) -> R {
    use rayon_or_not::*;
    let x0 = ek.X_0;
    let mut jobs: Vec<(String, G1Affine, G2Affine)> = vec![("one".into(), x0, p.gens.H)];
    for (i, x) in ek.X.iter().enumerate() { jobs.push((format!("s[{i}]"), *x, p.gens.H)); }
    for (i, z) in ek.Z.iter().enumerate() { jobs.push((format!("t[{i}]"), x0, *z)); }
    if let Some((dk, sk)) = dk {
        jobs.push(("rho".into(), x0, dk.V_0));
        let inv = sk.0.inverse().unwrap();
        let y = mul1(x0, &inv).into_affine();
        for (i, v) in dk.V_2.iter().enumerate() { jobs.push((format!("v[{i}]"), y, *v)); }
    }
    let vals = pairs(&jobs);
    all_distinct(&vals)?;
    c.count("secrets.compared", vals.len() as u64);
    Ok(())
}
mod rayon_or_not {
    use crate::model::*;
    #[cfg(feature = "pool")]
    pub fn pairs(j: &[(String, G1Affine, G2Affine)]) -> Vec<(String, PairingOutput<E>)> {
        use rayon::prelude::*;
        j.par_iter().map(|(n, a, b)| (n.clone(), pair(*a, *b))).collect()
    }
    #[cfg(not(feature = "pool"))]
    pub fn pairs(j: &[(String, G1Affine, G2Affine)]) -> Vec<(String, PairingOutput<E>)> {
        j.iter().map(|(n, a, b)| (n.clone(), pair(*a, *b))).collect()
    }
}
fn world_params<'a>(w: &'a World, n: usize) -> Params<'a> {
    Params { n, gens: &w.gens, g_i: &w.g_i, delta_g: w.delta_g, gamma_g: w.gamma_g, delta_h: w.h(&w.delta), gamma_h: w.h(&w.gamma) }
}
fn srs_params<'a>(pk: &'a saver_groth16::ProvingKey<E>, gens: &'a EncryptionGens<E>, n: usize) -> Params<'a> {
    Params { n, gens, g_i: &pk.pk.vk.gamma_abc_g1[1..], delta_g: pk.pk.delta_g1, gamma_g: pk.gamma_g1, delta_h: pk.pk.vk.delta_g2, gamma_h: (-pk.pk.vk.gamma_g2.into_group()).into_affine() }
}
/// The SNARK parameters against the encryption generators
fn check_srs(c: &Case, rng: &mut StdRng, pk: &saver_groth16::ProvingKey<E>, gens: &EncryptionGens<E>, inputs: usize) -> R {
    let vk = &pk.pk.vk;
    ensure!(vk.gamma_abc_g1.len() == inputs + 1, "a setup for {inputs} values has {} input elements", vk.gamma_abc_g1.len());
    ensure!(saver_groth16::get_gs_for_encryption(vk) == &vk.gamma_abc_g1[1..], "the chunk generators are not the SNARK's input elements");
    ensure!((pair(pk.gamma_g1, gens.H) + pair(gens.G, vk.gamma_g2)).is_zero(), "gamma_g1 is not minus the SNARK's gamma over the encryption generators");
    ensure!(pair(pk.pk.delta_g1, gens.H) == pair(gens.G, vk.delta_g2), "delta differs between the two groups of the encryption generators");
    ensure!(pair(pk.pk.beta_g1, gens.H) == pair(gens.G, vk.beta_g2), "beta differs between the two groups of the encryption generators");
    let k = pk.pk.b_g1_query.len();
    ensure!(k == pk.pk.b_g2_query.len(), "the proving key's b queries have different lengths");
    let w: Vec<Fr> = (0..k).map(|_| nz(rng)).collect();
    let b1 = <G1Projective as VariableBaseMSM>::msm_unchecked(&pk.pk.b_g1_query, &w);
    let b2 = <G2Projective as VariableBaseMSM>::msm_unchecked(&pk.pk.b_g2_query, &w);
    ensure!(pair(b1, gens.H) == pair(gens.G, b2), "the proving key's b queries differ between the two groups");
    let mut g1 = vec![("G".to_string(), gens.G), ("alpha".into(), vk.alpha_g1), ("beta".into(), pk.pk.beta_g1), ("delta".into(), pk.pk.delta_g1), ("gamma".into(), pk.gamma_g1)];
    g1.extend(named("input", &vk.gamma_abc_g1));
    all_distinct(&g1.iter().map(|(a, b)| (a.clone(), b.into_group())).collect::<Vec<_>>())?;
    let g2 = vec![("H".to_string(), gens.H), ("beta".into(), vk.beta_g2), ("delta".into(), vk.delta_g2), ("gamma".into(), vk.gamma_g2)];
    all_distinct(&g2.iter().map(|(a, b)| (a.clone(), b.into_group())).collect::<Vec<_>>())?;
    c.count("setups", 1);
    c.count("relations", 4 + k as u64);
    Ok(())
}
const SIZES: [u8; 20] = [16, 8, 4, 1, 2, 3, 5, 7, 9, 13, 15, 17, 31, 32, 33, 64, 127, 128, 254, 255];

pub fn c19(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation generates one key set or setup and tests every pairing relation between its components with random weights, and that no two secrets or components coincide; distinct_nontrivial counts distinct (kind, chunk size, parties, trial)");
    ctx.cases("dealer", ctx.n(40, 400), |c| {
        let rng = &mut c.rng.clone();
        let bits = SIZES[c.idx as usize % SIZES.len()];
        let n = chunks_for(bits);
        // more generators than chunks are fine
        let extra = [0, 0, 1, 5][(c.idx / 20) as usize % 4];
        let mut w = World::new(rng, n + extra);
        match c.idx / 20 % 3 {
            1 => { w.delta = Fr::one(); w.delta_g = w.gens.G; }
            2 => { let a0 = w.a[0]; for i in 0..w.a.len() { w.a[i] = a0; w.g_i[i] = w.g(&a0); } }
            _ => {}
        }
        let (sk, ek, dk) = ok!("keygen", keygen(rng, bits, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
        let p = world_params(&w, n);
        let ctx_ = format!("keygen with {bits}-bit chunks");
        check_ek(c, rng, &p, &ek).map_err(|e| format!("{ctx_}: {e}"))?;
        check_dk(c, rng, &p, &ek, &dk, &sk).map_err(|e| format!("{ctx_}: {e}"))?;
        check_roles(c, &p, &ek, Some((&dk, &sk))).map_err(|e| format!("{ctx_}: {e}"))?;
        c.count(&format!("bits.{bits}"), 1);
        c.seen(("dealer", bits, extra, c.idx));
        c.sample(|| format!("{ctx_}: {n} chunks, all relations hold"));
        Ok(())
    });
    ctx.cases("group", ctx.n(40, 300), |c| {
        let rng = &mut c.rng.clone();
        let bits = SIZES[c.idx as usize % SIZES.len()];
        let n = chunks_for(bits);
        let parties = 1 + (c.idx as usize / 3) % 6;
        let w = World::new(rng, n + (c.idx % 3) as usize);
        let g = call!("distributed key generation", make_group(rng, &w, bits, parties))?;
        let p = world_params(&w, n);
        let ctx_ = format!("distributed key generation, {parties} parties, {bits}-bit chunks");
        check_ek(c, rng, &p, &g.ek).map_err(|e| format!("{ctx_}: {e}"))?;
        check_roles(c, &p, &g.ek, None).map_err(|e| format!("{ctx_}: {e}"))?;
        // each partial key for itself: it is the key of the party's secrets without the constant parts
        for (k, part) in g.partials.iter().enumerate() {
            let sk = &g.sks[k];
            ensure!(sk.s.len() == n && sk.t.len() == n + 1, "{ctx_}: party {k}'s secret has {}/{} scalars", sk.s.len(), sk.t.len());
            let alone = EncryptionKey::<E> {
                X_0: part.X_0, X: part.X.clone(), Y: part.Y.clone(), Z: part.Z.clone(),
                P_1: genP1share(part, sk).P_1,
                P_2: (part.P_2 + w.gamma_g).into_affine(),
            };
            check_ek(c, rng, &p, &alone).map_err(|e| format!("{ctx_}: party {k}: {e}"))?;
            let mut all = named("s", &sk.s);
            all.extend(named("t", &sk.t));
            all.push(("one".into(), Fr::one()));
            all_distinct(&all).map_err(|e| format!("{ctx_}: party {k}: {e}"))?;
        }
        let all: Vec<_> = g.sks.iter().enumerate().flat_map(|(k, s)| named(&format!("party {k} s"), &s.s).into_iter().chain(named(&format!("party {k} t"), &s.t))).collect();
        all_distinct(&all).map_err(|e| format!("{ctx_}: {e}"))?;
        // destination
        let (dsk, dpk) = ok!("destination key generation", Fkeygen_dest::<_, E>(rng, &w.gens));
        ensure!(dpk.pk == w.g(&dsk.0), "the destination's public key is not its secret times G");
        ensure!(!dsk.0.is_zero() && dsk.0 != Fr::one(), "the destination's secret key is trivial");
        c.count("parties", parties as u64);
        c.seen(("group", bits, parties, c.idx));
        Ok(())
    });
    // SNARK parameters alone, for circuits of every shape
    ctx.cases("srs", ctx.n(24, 200), |c| {
        let rng = &mut c.rng.clone();
        let bits = [4u8, 8, 16, 1, 2, 3, 5, 11][c.idx as usize % 8];
        let values = [1u8, 2, 3, 7, 16][(c.idx / 8) as usize % 5];
        let gens = EncryptionGens::<E>::new_using_rng(rng);
        let pk = ok!("generate_srs", saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(bits, Some(values), None, true), &gens, rng));
        check_srs(c, rng, &pk, &gens, values as usize).map_err(|e| format!("generate_srs for {values} values of {bits} bits: {e}"))?;
        // keys of a matching number of chunks made for it, single dealer and group, by way of the chunk sizes with few chunks
        let kb = [255u8, 128, 85, 37, 16][(c.idx / 8) as usize % 5];
        if chunks_for(kb) <= values as usize {
            let n = chunks_for(kb);
            let (sk, ek, dk) = ok!("keygen", keygen(rng, kb, &gens, &pk.pk.vk.gamma_abc_g1[1..], &pk.pk.delta_g1, &pk.gamma_g1));
            let p = srs_params(&pk, &gens, n);
            check_ek(c, rng, &p, &ek)?;
            check_dk(c, rng, &p, &ek, &dk, &sk)?;
            let g = call!("distributed key generation", make_group_with(rng, &gens, &pk.pk.vk.gamma_abc_g1[1..], &pk.pk.delta_g1, &pk.gamma_g1, kb, 2))?;
            check_ek(c, rng, &p, &g.ek)?;
            c.count("srs.keys", 1);
        }
        c.seen(("srs", bits, values, c.idx));
        Ok(())
    });
    ctx.cases("setup", ctx.n(10, 60), |c| {
        let rng = &mut c.rng.clone();
        let bits = if c.ctx.thorough() { [16u8, 8, 4, 16, 8, 4, 1, 2, 3, 7, 12, 32][c.idx as usize % 12] } else { [16u8, 8, 16, 4, 12, 32, 16, 64, 20, 128][c.idx as usize % 10] };
        let n = chunks_for(bits);
        let gens = if c.idx % 2 == 0 { EncryptionGens::<E>::new_using_rng(rng) } else { EncryptionGens::<E>::new::<blake2::Blake2b512>(&c.idx.to_le_bytes()) };
        let (pk, sk, ek, dk) = ok!("setup_for_groth16", setup_for_groth16::<E, _>(rng, bits, &gens));
        let ctx_ = format!("setup_for_groth16 with {bits}-bit chunks");
        check_srs(c, rng, &pk, &gens, n).map_err(|e| format!("{ctx_}: {e}"))?;
        let p = srs_params(&pk, &gens, n);
        check_ek(c, rng, &p, &ek).map_err(|e| format!("{ctx_}: {e}"))?;
        check_dk(c, rng, &p, &ek, &dk, &sk).map_err(|e| format!("{ctx_}: {e}"))?;
        check_roles(c, &p, &ek, Some((&dk, &sk))).map_err(|e| format!("{ctx_}: {e}"))?;
        // what the relations promise, once end to end
        if matches!(bits, 4 | 8 | 16) {
            let m = random_message(rng, bits);
            let (ct, _, proof) = ok!("encrypt_with_proof", Enc::encrypt_with_proof(rng, &m, &ek, &pk, bits));
            let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
            ok!("joint verification under a fresh setup", ct.verify_commitment_and_proof(&proof, &pvk, ek.clone(), gens.clone()));
            let (back, nu) = ok!("decryption under a fresh setup", ct.decrypt_given_groth16_vk(&sk, dk.clone(), &pk.pk.vk, bits));
            ensure!(back == m, "{ctx_}: the message does not come back");
            ensure!(pair(nu, gens.H) == pair(ct.X_r, dk.V_0), "{ctx_}: the randomness commitment does not pair with the decryption key");
            c.count("end_to_end", 1);
        }
        c.seen(("setup", bits, c.idx));
        Ok(())
    });
    ctx.require("encryption_keys", 150);
    ctx.require("decryption_keys", 40);
    ctx.require("setups", 30);
    ctx.require("secrets.compared", 2000);
    ctx.require("end_to_end", 4);
    ctx.require("srs.keys", 5);
    Ok(())
}
