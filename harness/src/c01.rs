//! C01 round trip, C02 well-formedness, C03 exactness of decryption.
use crate::ctx::*;
use crate::model::*;
use crate::{call, ensure, ok};

pub struct KeySet {
    pub w: World,
    pub bits: u8,
    pub sk: SecretKey<Fr>,
    pub ek: EncryptionKey<E>,
    pub dk: DecryptionKey<E>,
    pub pdk: PreparedDecryptionKey<E>,
    pub vk: Vk,
    pub powers: Option<Vec<Vec<PairingOutput<E>>>>,
}
impl KeySet {
    pub fn new(rng: &mut StdRng, bits: u8, powers: bool) -> Result<Self, String> {
        // sometimes more generators are offered than there are chunks
        let n = chunks_for(bits) + if rng.gen_bool(0.3) { rng.gen_range(1..4) } else { 0 };
        let w = World::new(rng, n);
        Self::in_world(rng, w, bits, powers)
    }
    /// The same with generators that are equal, opposite or otherwise related
    pub fn related(rng: &mut StdRng, bits: u8, powers: bool) -> Result<Self, String> {
        let w = World::related(rng, chunks_for(bits) + 1);
        Self::in_world(rng, w, bits, powers)
    }
    pub fn in_world(rng: &mut StdRng, w: World, bits: u8, powers: bool) -> Result<Self, String> {
        let (sk, ek, dk) = ok!("keygen", keygen(rng, bits, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
        let pdk = PreparedDecryptionKey::from(dk.clone());
        let vk = w.fake_vk(rng);
        let powers = if powers { Some(ok!("pairing_powers", pdk.pairing_powers(bits, &w.g_i))) } else { None };
        Ok(KeySet { w, bits, sk, ek, dk, pdk, vk, powers })
    }
}

pub const PLAIN: usize = 9;
pub const WITH_POWERS: usize = 6;

/// One decryption entry point: chunks (if it returns them) or message, and nu
#[allow(clippy::type_complexity)]
pub fn decrypt_path(k: &KeySet, ct: &Ct, path: usize) -> (String, Result<(Option<Vec<u16>>, Option<Fr>, G1Affine), SaverError>) {
    let (g, b) = (&k.w.g_i[..], k.bits);
    let m = |r: Result<(Fr, G1Affine), SaverError>| r.map(|(m, nu)| (None, Some(m), nu));
    let c = |r: Result<(Vec<u16>, G1Affine), SaverError>| r.map(|(c, nu)| (Some(c), None, nu));
    let pw = || k.powers.as_ref().unwrap();
    match path {
        0 => ("Ciphertext::decrypt".into(), m(ct.decrypt(&k.sk, k.dk.clone(), g, b))),
        1 => ("Ciphertext::decrypt/prepared".into(), m(ct.decrypt(&k.sk, k.pdk.clone(), g, b))),
        2 => ("Ciphertext::decrypt_given_groth16_vk".into(), m(ct.decrypt_given_groth16_vk(&k.sk, k.dk.clone(), &k.vk, b))),
        3 => ("Encryption::decrypt".into(), m(Enc::decrypt(&ct.X_r, &ct.enc_chunks, &k.sk, k.pdk.clone(), g, b))),
        4 => ("Encryption::decrypt_given_groth16_vk".into(), m(Enc::decrypt_given_groth16_vk(&ct.X_r, &ct.enc_chunks, &k.sk, k.pdk.clone(), &k.vk, b))),
        5 => ("Encryption::decrypt_to_chunks".into(), c(Enc::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &k.sk, k.dk.clone(), g, b))),
        6 => ("Encryption::decrypt_to_chunks/prepared".into(), c(Enc::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &k.sk, k.pdk.clone(), g, b))),
        7 => ("decrypt_to_chunks_given_pairing_powers(None)".into(), c(Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &k.sk, k.dk.clone(), g, b, None))),
        8 => ("Ciphertext::decrypt_given_groth16_vk/prepared".into(), m(ct.decrypt_given_groth16_vk(&k.sk, k.pdk.clone(), &k.vk, b))),
        9 => ("Ciphertext::decrypt_given_pairing_powers".into(), m(ct.decrypt_given_pairing_powers(&k.sk, k.pdk.clone(), g, b, pw()))),
        10 => ("Ciphertext::decrypt_given_groth16_vk_and_pairing_powers".into(), m(ct.decrypt_given_groth16_vk_and_pairing_powers(&k.sk, k.dk.clone(), &k.vk, b, pw()))),
        11 => ("Encryption::decrypt_given_pairing_powers".into(), m(Enc::decrypt_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &k.sk, k.dk.clone(), g, b, pw()))),
        12 => ("Encryption::decrypt_given_groth16_vk_and_pairing_powers".into(), m(Enc::decrypt_given_groth16_vk_and_pairing_powers(&ct.X_r, &ct.enc_chunks, &k.sk, k.pdk.clone(), &k.vk, b, pw()))),
        13 => ("decrypt_to_chunks_given_pairing_powers(Some)".into(), c(Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &k.sk, k.pdk.clone(), g, b, Some(pw())))),
        14 => ("decrypt_to_chunks_given_pairing_powers(Some)/plain dk".into(), c(Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &k.sk, k.dk.clone(), g, b, Some(pw())))),
        _ => unreachable!(),
    }
}

fn check_paths(c: &mut Case, k: &KeySet, ct: &Ct, expect: &[u16], paths: &[usize]) -> R {
    let m = ref_compose(expect, k.bits);
    let nu = mul1(ct.X_r, &k.sk.0).into_affine();
    for p in paths {
        let name = decrypt_path_name(*p);
        let (name, r) = call!(format!("{name} on chunks {expect:?} ({} bits)", k.bits), decrypt_path(k, ct, *p));
        let (ch, msg, nu2) = match r {
            Ok(x) => x,
            Err(e) => return Err(format!("{name} failed with {e:?} on an honest ciphertext of chunks {expect:?} ({} bits)", k.bits)),
        };
        if let Some(ch) = ch {
            ensure!(ch == expect, "{name} returned chunks {ch:?}, encrypted {expect:?} ({} bits)", k.bits);
        }
        if let Some(msg) = msg {
            ensure!(msg == m, "{name} returned message {msg}, encrypted {m} ({} bits)", k.bits);
        }
        ensure!(nu2 == nu, "{name} returned a randomness commitment that is not X_r * sk ({} bits)", k.bits);
        c.count(&format!("decrypt.path{p}"), 1);
        c.count("decryptions", 1);
    }
    if c.idx % 7 == 0 {
        ensure!(pair(nu, k.w.gens.H) == pair(ct.X_r, k.dk.V_0), "nu does not pair with V_0");
        c.count("nu_pairings", 1);
    }
    for (i, v) in expect.iter().enumerate() {
        c.seen((k.bits, i, v));
    }
    Ok(())
}
fn decrypt_path_name(p: usize) -> String {
    format!("decryption path {p}")
}

fn pick_paths(c: &mut Case, k: &KeySet, plain: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for j in 0..plain {
        v.push((c.idx as usize + j * 4 + c.rng.gen_range(0..PLAIN)) % PLAIN);
    }
    if k.powers.is_some() {
        for _ in 0..2 {
            v.push(PLAIN + c.rng.gen_range(0..WITH_POWERS));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Encrypts through one of the entry points
fn encrypt_any(c: &mut Case, k: &KeySet, ch: &[u16], entry: u64) -> Result<(Ct, Fr), String> {
    let m = ref_compose(ch, k.bits);
    Ok(match entry % 3 {
        0 => ok!("Encryption::encrypt", Enc::encrypt(&mut c.rng, &m, &k.ek, &k.w.g_i, k.bits)),
        1 => ok!("encrypt_given_snark_vk", Enc::encrypt_given_snark_vk(&mut c.rng, &m, &k.ek, &k.vk, k.bits)),
        _ => {
            let (v, r) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.to_vec(), &k.ek, &k.w.g_i));
            (vec_ct(&v), r)
        }
    })
}

pub fn c01(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation encrypts one message or chunk vector and decrypts it through several entry points; distinct_nontrivial counts distinct (chunk size, chunk position, chunk value) triples that were decrypted and compared");
    let nk = ctx.n(2, 4);
    for bits in [4u8, 8] {
        let mut sets: Vec<KeySet> = mk(ctx, &format!("keys{bits}"), nk, |rng| KeySet::new(rng, bits, true))?;
        sets.extend(mk(ctx, &format!("related keys{bits}"), 1, |rng| KeySet::related(rng, bits, true))?);
        let sets = &sets;
        let n = chunks_for(bits);
        // the full (position, value) grid: value (i + idx) mod 2^bits at position i
        let full = 1u64 << bits;
        let reps = if bits == 4 { ctx.n(2, 6) } else { ctx.n(1, 2) };
        ctx.cases(&format!("grid{bits}"), full * reps, |c| {
            let k = &sets[(c.idx / 3) as usize % sets.len()];
            let rep = c.idx / full;
            let step = [1u64, 7, 3, 11, 5, 13][rep as usize % 6];
            let ch: Vec<u16> = (0..n as u64).map(|i| ((i * step + c.idx) % full) as u16).collect();
            let (v, r) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), &k.ek, &k.w.g_i));
            let _ = r;
            let paths = if bits == 4 || c.idx % 8 == 0 { vec![6, 13] } else { vec![13] };
            let dec_only_chunks: Vec<usize> = paths;
            let e = check_paths(c, k, &vec_ct(&v), &ch, &dec_only_chunks);
            c.sample(|| format!("{bits}-bit chunks {ch:?}"));
            e
        });
        // whole messages through all entry points
        let edges = edge_messages(bits);
        let edges = &edges;
        let total = edges.len() as u64 + ctx.n(30, 400);
        ctx.cases(&format!("message{bits}"), total, |c| {
            let k = &sets[c.idx as usize % sets.len()];
            let m = if (c.idx as usize) < edges.len() { edges[c.idx as usize] } else { random_message(&mut c.rng, bits) };
            let ch = ref_decompose(&m, bits);
            ensure!(ref_compose(&ch, bits) == m, "harness: reference codec");
            let entry = c.idx / 2;
            let (ct, _) = encrypt_any(c, k, &ch, entry)?;
            let np = if c.ctx.thorough() { 4 } else { 1 };
            let paths = if c.idx % 32 == 5 { (0..PLAIN + WITH_POWERS).collect() } else { pick_paths(c, k, np) };
            c.sample(|| format!("{bits}-bit, message {m}, paths {paths:?}"));
            check_paths(c, k, &ct, &ch, &paths)
        });
    }
    // short hand-made keys over generators that are equal, opposite or otherwise related, chunk values that repeat
    ctx.cases("related generators", ctx.n(150, 3000), |c| {
        let bits = [2u8, 3, 4, 5, 6, 8][c.idx as usize % 6];
        let n = c.rng.gen_range(2..10usize);
        let w = World::related(&mut c.rng, n);
        let s = if c.idx % 2 == 0 { Secrets::odd(&mut c.rng, n) } else { Secrets::new(&mut c.rng, n) };
        let (sk, ek, dk) = (s.sk(), s.ek(&w), s.dk(&w));
        let pdk = PreparedDecryptionKey::from(dk.clone());
        let powers = Some(ok!("pairing_powers", pdk.pairing_powers(bits, &w.g_i)));
        let vk = w.fake_vk(&mut c.rng);
        let k = KeySet { w, bits, sk, ek, dk, pdk, vk, powers };
        let mut ch = rand_chunks(&mut c.rng, n, bits);
        for i in 1..n { if c.rng.gen_bool(0.3) { ch[i] = ch[i - 1]; } else if c.rng.gen_bool(0.2) { ch[i] = max_chunk(bits) - ch[i - 1]; } }
        let (v, _) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), &k.ek, &k.w.g_i));
        c.count("related_generators", 1);
        c.sample(|| format!("{bits}-bit chunks {ch:?} over related generators"));
        check_paths(c, &k, &vec_ct(&v), &ch, &[5, 6, 7, 13, 14])
    });
    // chunk values of every width all over the range, without tables and, for narrower chunks, with them
    ctx.cases("values", ctx.n(360, 16000), |c| {
        let bits: u8 = if c.idx % 2 == 0 { 16 } else { c.rng.gen_range(1..16) };
        let n = c.rng.gen_range(1..3usize);
        let w = World::new(&mut c.rng, n);
        let s = Secrets::new(&mut c.rng, n);
        let (sk, ek, dk) = (s.sk(), s.ek(&w), s.dk(&w));
        let pdk = PreparedDecryptionKey::from(dk.clone());
        let powers = if bits < 14 { Some(ok!("pairing_powers", pdk.pairing_powers(bits, &w.g_i))) } else { None };
        let vk = w.fake_vk(&mut c.rng);
        let k = KeySet { w, bits, sk, ek, dk, pdk, vk, powers };
        let ch: Vec<u16> = (0..n).map(|_| near_chunk(&mut c.rng, bits)).collect();
        let (v, _) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), &k.ek, &k.w.g_i));
        c.count("values", n as u64);
        check_paths(c, &k, &vec_ct(&v), &ch, if bits < 14 { &[6, 13] } else { &[6] })
    });
    // 16-bit chunks: no whole power tables in the quick tier, sparse and edge chunks
    let sets: Vec<KeySet> = mk(ctx, "keys16", 2, |rng| KeySet::new(rng, 16, false))?;
    let sets = &sets;
    let edges = edge_messages(16);
    let edges = &edges;
    ctx.cases("message16", ctx.n(24, 160), |c| {
        let k = &sets[c.idx as usize % sets.len()];
        let m = if c.idx % 2 == 0 { edges[(c.idx as usize / 2 * 5) % edges.len()] } else { random_message(&mut c.rng, 16) };
        let mut ch = ref_decompose(&m, 16);
        if c.idx % 4 == 3 {
            // mostly small chunk values keep brute force cheap, so more of them fit
            for (i, x) in ch.iter_mut().enumerate() {
                *x = if i == 0 { 0 } else { *x & 0x1ff };
            }
        }
        let entry = c.idx;
        let (ct, _) = encrypt_any(c, k, &ch, entry)?;
        let p = [0usize, 1, 2, 3, 4, 5, 6, 7, 8][(c.idx as usize) % PLAIN];
        c.sample(|| format!("16-bit, message {m}, path {p}"));
        check_paths(c, k, &ct, &ch, &[p])
    });
    // 16-bit chunk values in a two-chunk key with precomputed powers
    let two: Vec<KeySet> = mk(ctx, "keys16x2", 1, |rng| {
        let w = World::new(rng, 2);
        let s = Secrets::new(rng, 2);
        let (sk, ek, dk) = (s.sk(), s.ek(&w), s.dk(&w));
        let pdk = PreparedDecryptionKey::from(dk.clone());
        let powers = Some(ok!("pairing_powers", dk.pairing_powers(16, &w.g_i)));
        let vk = w.fake_vk(rng);
        Ok(KeySet { w, bits: 16, sk, ek, dk, pdk, vk, powers })
    })?;
    let k2 = &two[0];
    let all = ctx.n(1200, 32768);
    ctx.cases("values16", all, |c| {
        let special = [0u16, 1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 32769, 65280, 65533, 65534, 65535];
        let pickv = |j: u64, rng: &mut StdRng| -> u16 {
            if c_is(all) { (j % 65536) as u16 } else if j < special.len() as u64 { special[j as usize] } else { rng.next_u32() as u16 }
        };
        let ch = if c_is(all) { vec![c.idx as u16, (65535 - c.idx) as u16] } else { let i = c.idx; vec![pickv(i, &mut c.rng), pickv(i / 3, &mut c.rng)] };
        let (v, _) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), &k2.ek, &k2.w.g_i));
        check_paths(c, k2, &vec_ct(&v), &ch, &[13])
    });
    if !AUX {
        let full: Vec<KeySet> = mk(ctx, "keys16full", 1, |rng| KeySet::related(rng, 16, true))?;
        let k = &full[0];
        ctx.cases("message16powers", ctx.n(16, 96), |c| {
            let m = random_message(&mut c.rng, 16);
            let ch = ref_decompose(&m, 16);
            let entry = c.idx;
            let (ct, _) = encrypt_any(c, k, &ch, entry)?;
            let all: Vec<usize> = (PLAIN..PLAIN + WITH_POWERS).collect();
            check_paths(c, k, &ct, &ch, &all)
        });
    }
    for p in 0..PLAIN + WITH_POWERS {
        ctx.require(&format!("decrypt.path{p}"), 2);
    }
    ctx.require("nu_pairings", 10);
    ctx.require("related_generators", 20);
    Ok(())
}
fn c_is(all: u64) -> bool {
    all == 32768
}

/// Fixtures, one rng each. A failure to make them is itself reported as a violation of the property (the inputs are valid).
pub fn mk<T: Send>(ctx: &Ctx, label: &str, n: u64, f: impl Fn(&mut StdRng) -> Result<T, String> + Sync) -> Result<Vec<T>, String> {
    let mut out = vec![];
    for i in 0..n {
        let mut rng = ctx.rng(&format!("fixture/{label}"), i);
        let key = (format!("fixture {label}"), i);
        ctx.flying.lock().unwrap().insert(key.clone(), std::time::Instant::now());
        let r = guard(|| f(&mut rng));
        ctx.flying.lock().unwrap().remove(&key);
        match r {
            Ok(Ok(v)) => out.push(v),
            Ok(Err(e)) => return Err(format!("fixture {label}: {e}")),
            Err(p) => return Err(format!("fixture {label}: panic: {p}")),
        }
    }
    Ok(out)
}

fn compare_ct(what: &str, ct: &Ct, want: &Ct) -> R {
    ensure!(ct.enc_chunks.len() == want.enc_chunks.len(), "{what}: {} chunks, expected {}", ct.enc_chunks.len(), want.enc_chunks.len());
    ensure!(ct.X_r == want.X_r, "{what}: randomness element is not X_0 * r");
    for i in 0..want.enc_chunks.len() {
        ensure!(ct.enc_chunks[i] == want.enc_chunks[i], "{what}: chunk {i} of {} is not X_i*r + G_i*m_i", want.enc_chunks.len());
    }
    ensure!(ct.commitment == want.commitment, "{what}: commitment is not sum Y_i*m_i + P_1*r");
    Ok(())
}

pub fn c02(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation encrypts through one entry point and recomputes every component of the ciphertext by plain scalar multiplication from the returned randomness; distinct_nontrivial counts distinct (entry point, key kind, chunk count, chunk vector)");
    // whole messages, keys from the crate's own keygen
    for bits in [4u8, 8, 16] {
        let sets: Vec<KeySet> = mk(ctx, &format!("keys{bits}"), ctx.n(2, 6), |rng| KeySet::new(rng, bits, false))?;
        let sets = &sets;
        let edges = edge_messages(bits);
        let edges = &edges;
        ctx.cases(&format!("message{bits}"), edges.len() as u64 + ctx.n(60, 1500), |c| {
            let k = &sets[c.idx as usize % sets.len()];
            let m = if (c.idx as usize) < edges.len() { edges[c.idx as usize] } else { random_message(&mut c.rng, bits) };
            let ch = ref_decompose(&m, bits);
            let (ct, r) = match c.idx % 2 {
                0 => ok!("encrypt", Enc::encrypt(&mut c.rng, &m, &k.ek, &k.w.g_i, bits)),
                _ => ok!("encrypt_given_snark_vk", Enc::encrypt_given_snark_vk(&mut c.rng, &m, &k.ek, &k.vk, bits)),
            };
            c.seen((bits, c.idx % 2, "single", &ch));
            c.count("entry.message", 1);
            c.sample(|| format!("{bits}-bit message {m} -> chunks {ch:?}, r = {r}"));
            compare_ct(&format!("{bits}-bit encryption of {m}"), &ct, &ref_ciphertext(&k.ek, &k.w.g_i, &ch, &r))
        });
    }
    // chunk vectors of any length under hand-made, single-dealer and group keys
    ctx.cases("chunks", ctx.n(500, 10000), |c| {
        let n = match c.idx % 5 { 0 => some_n(&mut c.rng), 1 => c.rng.gen_range(4..40), 2 => [16, 32, 64][c.rng.gen_range(0..3)], _ => c.rng.gen_range(1..12) };
        let extra = if c.rng.gen_bool(0.3) { 2 } else { 0 };
        let w = World::mixed(&mut c.rng, n + extra);
        let kind = c.idx % 3;
        let (ek, kname) = match kind {
            0 => (if c.idx % 2 == 0 { Secrets::odd(&mut c.rng, n) } else { Secrets::new(&mut c.rng, n) }.ek(&w), "hand-made"),
            1 => {
                let bits = ((255 + n - 1) / n).min(255) as u8;
                if chunks_for(bits) != n { (Secrets::new(&mut c.rng, n).ek(&w), "hand-made") } else {
                    (ok!("keygen", keygen(&mut c.rng, bits, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g)).1, "single")
                }
            }
            _ => {
                let bits = ((255 + n - 1) / n).min(255) as u8;
                if chunks_for(bits) != n || n > 20 { (Secrets::new(&mut c.rng, n).ek(&w), "hand-made") } else {
                    let p = c.rng.gen_range(1..5);
                    (call!("group keygen", make_group(&mut c.rng, &w, bits, p))?.ek, "group")
                }
            }
        };
        let ch: Vec<u16> = if c.rng.gen_bool(0.5) { rand_chunks(&mut c.rng, n, 16) } else { let b = c.rng.gen_range(1..16); rand_chunks(&mut c.rng, n, b) };
        let (v, r) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), &ek, &w.g_i));
        ensure!(v.len() == n + 2, "ciphertext vector has {} elements for {n} chunks", v.len());
        c.seen((kname, n, &ch));
        c.count(&format!("keys.{kname}"), 1);
        c.sample(|| format!("{kname} key, {n} chunks {ch:?}"));
        compare_ct(&format!("{kname} key, chunks {ch:?}"), &vec_ct(&v), &ref_ciphertext(&ek, &w.g_i, &ch, &r))
    });
    // keys and generators of arbitrary group elements: equal, opposite, identity, exchanged between fields
    ctx.cases("elements", ctx.n(300, 6000), |c| {
        let n = some_n(&mut c.rng);
        let pool: Vec<G1Affine> = { let x = G1Affine::rand(&mut c.rng); let y = G1Affine::rand(&mut c.rng); vec![x, -x, G1Affine::zero(), (x + x).into_affine(), y, (x + y).into_affine(), G1Affine::generator()] };
        let style = c.idx % 6;
        let mut prev = pool[0];
        let mut el = |rng: &mut StdRng| {
            let e = match style {
                0 => pool[0],
                1 => pool[rng.gen_range(0..2)],
                2 => pool[rng.gen_range(0..pool.len())],
                3 => if rng.gen_bool(0.5) { prev } else { G1Affine::rand(rng) },
                4 => if rng.gen_bool(0.3) { G1Affine::zero() } else { G1Affine::rand(rng) },
                _ => if rng.gen_bool(0.3) { -prev } else { G1Affine::rand(rng) },
            };
            prev = e;
            e
        };
        let rng = &mut c.rng;
        let g_i: Vec<G1Affine> = (0..n + style as usize % 2).map(|_| el(rng)).collect();
        let x: Vec<G1Affine> = (0..n).map(|_| el(rng)).collect();
        let y: Vec<G1Affine> = (0..n).map(|_| el(rng)).collect();
        let ek = EncryptionKey::<E> { X_0: el(rng), X: x, Y: y, Z: (0..=n).map(|_| G2Affine::generator()).collect(), P_1: el(rng), P_2: el(rng) };
        let ch: Vec<u16> = match c.idx % 4 { 0 => vec![65535; n], 1 => vec![[0u16, 1, 32768][c.idx as usize / 4 % 3]; n], _ => rand_chunks(&mut c.rng, n, 16) };
        let (v, r) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), &ek, &g_i));
        ensure!(v.len() == n + 2, "ciphertext vector has {} elements for {n} chunks", v.len());
        c.seen(("elements", style, n, &ch));
        c.count("keys.elements", 1);
        c.sample(|| format!("key of repeated, opposite or identity elements (style {style}), chunks {ch:?}"));
        compare_ct(&format!("key of special elements (style {style}), chunks {ch:?}"), &vec_ct(&v), &ref_ciphertext(&ek, &g_i, &ch, &r))
    });
    // encryption together with a proof
    for bits in [16u8, 8, 4] {
        let fx: Vec<_> = mk(ctx, &format!("srs{bits}"), 1, |rng| {
            let gens = EncryptionGens::<E>::new_using_rng(rng);
            Ok(ok!("setup_for_groth16", dist_saver::setup::setup_for_groth16(rng, bits, &gens)))
        })?;
        let (pk, _sk, ek, _dk) = &fx[0];
        ctx.cases(&format!("with_proof{bits}"), ctx.n(6, 40), |c| {
            let m = random_message(&mut c.rng, bits);
            let ch = ref_decompose(&m, bits);
            let (ct, r, _p) = ok!("encrypt_with_proof", Enc::encrypt_with_proof(&mut c.rng, &m, ek, pk, bits));
            c.seen((bits, "proof", &ch));
            c.count("entry.with_proof", 1);
            compare_ct(&format!("encrypt_with_proof of {m}"), &ct, &ref_ciphertext(ek, &pk.pk.vk.gamma_abc_g1[1..], &ch, &r))
        });
    }
    for k in ["keys.elements", "keys.hand-made", "keys.single", "keys.group", "entry.with_proof", "entry.message"] {
        ctx.require(k, 5);
    }
    Ok(())
}

/// z values around everything that matters for a search bound of 2^bits - 1
fn pick_z(rng: &mut StdRng, bits: u8) -> Fr {
    let top = 1u64 << bits;
    match rng.gen_range(0..16) {
        0 => small(0),
        1 => small(1),
        2 => small(top - 1),
        3 => small(top),
        4 => small(top + 1),
        5 => -small(1),
        6 => -small(top - 1),
        7 => -small(top),
        8 => small(65536),
        9 => small(65536 + rng.gen_range(0..top)),
        10 => small((1u64 << 32) + rng.gen_range(0..top)),
        11 => small(2 * top - 1),
        12 => Fr::rand(rng),
        13 => small(2).inverse().unwrap(),
        _ => small(rng.gen_range(0..top)),
    }
}

/// Makes chunks related to one another although everything else is in range: what a chunk adds to its component is
/// that of another chunk (or its negative), or two chunks are off by amounts that cancel.
fn relate(rng: &mut StdRng, zs: &mut [Fr], a: &[Fr], bits: u8) -> bool {
    let n = zs.len();
    if n < 2 || !rng.gen_bool(0.25) { return false; }
    let top = 1u64 << bits;
    let copies = if rng.gen_bool(0.5) { 1 } else { rng.gen_range(1..4) };
    for z in zs.iter_mut() { *z = small(rng.gen_range(0..top)); }
    for _ in 0..copies {
        let i = rng.gen_range(0..n);
        let j = if rng.gen_bool(0.6) { (i + 1) % n } else { rng.gen_range(0..n) };
        if i == j { continue; }
        match rng.gen_range(0..4) {
            0 | 1 => {
                zs[i] = small(rng.gen_range(1..top));
                zs[j] = zs[i] * a[i] * a[j].inverse().unwrap();
            }
            2 => zs[j] = -zs[i] * a[i] * a[j].inverse().unwrap(),
            _ => {
                let d = if rng.gen_bool(0.5) { nz(rng) } else { small(top) };
                zs[i] += d * a[i].inverse().unwrap();
                zs[j] -= d * a[j].inverse().unwrap();
            }
        }
    }
    true
}

pub fn c03(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation builds a ciphertext with known discrete logs (honest, out of range, negative, random chunks; right or wrong keys), computes in the exponent what each chunk encodes under the keys used, and requires Ok with exactly those values iff all are in range; distinct_nontrivial counts distinct (path, bits, chunk count, key kind, outcome, encoded-value classes)");
    let big = ctx.n(60, 400);
    ctx.cases("pairing", ctx.n(900, 15000) , |c| {
        let n = if c.idx % 12 > 8 { c.rng.gen_range(1..6usize) } else { some_n(&mut c.rng) };
        let bits: u8 = match c.idx % 12 { 0 => 1, 1 => 2, 2 => 3, 3 | 4 => 4, 5 => 5, 6 => 6, 7 | 8 => 8, 9 => 7, 10 => 9, _ => if c.idx < big * 4 { [10, 11, 12, 13, 15, 16][c.rng.gen_range(0..6)] } else { 4 } };
        let extra = c.rng.gen_range(0..3);
        let w = World::mixed(&mut c.rng, n + extra);
        let s = if c.idx % 7 == 3 { Secrets::odd(&mut c.rng, n) } else { Secrets::new(&mut c.rng, n) };
        let (mut sk, mut dk) = (s.sk(), s.dk(&w));
        // exponents of the decryption key actually used
        let mut v1: Vec<Fr> = s.s.iter().zip(&s.v).map(|(a, b)| *a * b).collect();
        let mut v2: Vec<Fr> = s.v.iter().map(|v| s.rho * v).collect();
        let mut kind = "right";
        match c.idx % 9 {
            1 => { kind = "sk+1"; sk = SecretKey(sk.0 + Fr::one()); }
            2 => { kind = "-sk"; sk = SecretKey(-sk.0); }
            3 => { kind = "sk random"; sk = SecretKey(Fr::rand(&mut c.rng)); }
            4 => { kind = "sk zero"; sk = SecretKey(Fr::zero()); }
            5 => {
                kind = "other dk";
                let o = Secrets::new(&mut c.rng, n);
                dk = o.dk(&w);
                v1 = o.s.iter().zip(&o.v).map(|(a, b)| *a * b).collect();
                v2 = o.v.iter().map(|v| o.rho * v).collect();
            }
            6 if n > 1 => {
                kind = "dk entries exchanged";
                let (i, j) = (0, n - 1);
                dk.V_1.swap(i, j); v1.swap(i, j);
                dk.V_2.swap(i, j); v2.swap(i, j);
            }
            _ => {}
        }
        // ciphertext in the exponent of G
        let honest = c.rng.gen_bool(0.45);
        let x = if c.rng.gen_bool(0.08) { Fr::zero() } else { nz(&mut c.rng) };
        let top = 1u64 << bits;
        let mut zs: Vec<Fr> = (0..n).map(|_| if honest { small(match c.rng.gen_range(0..4) { 0 => 0, 1 => top - 1, _ => c.rng.gen_range(0..top) }) } else { pick_z(&mut c.rng, bits) }).collect();
        let related = !honest && relate(&mut c.rng, &mut zs, &w.a, bits);
        if related { c.count("related", 1); }
        let mut cexp: Vec<Fr> = (0..n).map(|i| if !honest && !related && c.rng.gen_bool(0.03) { Fr::zero() } else { s.s[i] * x + zs[i] * w.a[i] }).collect();
        if !honest && !related && n > 1 && c.rng.gen_bool(0.1) {
            // a component repeated
            let (i, j) = (c.rng.gen_range(0..n), c.rng.gen_range(0..n));
            cexp[j] = cexp[i];
        }
        let c0 = w.g(&x);
        let cs: Vec<G1Affine> = cexp.iter().map(|e| w.g(e)).collect();
        // what each chunk encodes under (sk, dk): (c_i*V2_i - c_0*sk*V1_i) / (a_i*V2_i)
        let enc: Vec<Fr> = (0..n).map(|i| (cexp[i] * v2[i] - x * sk.0 * v1[i]) * (w.a[i] * v2[i]).inverse().unwrap()).collect();
        let want: Option<Vec<u16>> = enc.iter().map(|z| small_value(z, top - 1).map(|v| v as u16)).collect();
        let use_powers = c.idx % 2 == 1;
        if bits <= 8 && c.rng.gen_bool(0.3) {
            // an honest decryption with the right keys and the same randomness element right before
            let zero: Vec<G1Affine> = (0..n).map(|i| w.g(&(s.s[i] * x + w.a[i]))).collect();
            let r = ok!("honest decryption", Enc::decrypt_to_chunks(&w.g(&x), &zero, &s.sk(), s.dk(&w), &w.g_i, bits));
            ensure!(r.0 == vec![1; n], "honest decryption of ones ({bits}-bit, {n} chunks) returned {:?}", r.0);
            c.count("primed", 1);
        }
        // tables may have been made for wider chunks than the ones asked for
        let wider = if use_powers && bits < 10 && c.rng.gen_bool(0.4) { c.rng.gen_range(1..(11 - bits).min(4)) } else { 0 };
        if wider > 0 { c.count("wider_tables", 1); }
        let powers = if use_powers { Some(ok!("pairing_powers", dk.pairing_powers(bits + wider, &w.g_i))) } else { None };
        let pname = if wider > 0 { "wider powers" } else if use_powers { "powers" } else { "plain" };
        let nu = mul1(c0, &sk.0).into_affine();
        let r = if c.idx % 4 < 2 {
            call!("decrypt_to_chunks_given_pairing_powers", Enc::decrypt_to_chunks_given_pairing_powers(&c0, &cs, &sk, dk.clone(), &w.g_i, bits, powers.as_deref()))
        } else {
            call!("decrypt_to_chunks_given_pairing_powers", Enc::decrypt_to_chunks_given_pairing_powers(&c0, &cs, &sk, PreparedDecryptionKey::from(dk.clone()), &w.g_i, bits, powers.as_deref()))
        };
        let desc = || format!("{pname}, {bits}-bit, {n} chunks, keys: {kind}, chunks encode {:?}", enc.iter().map(|z| z.to_string()).collect::<Vec<_>>());
        match (&r, &want) {
            (Ok((ch, nu2)), Some(w)) => {
                ensure!(ch == w, "{}: decryption returned {ch:?}", desc());
                ensure!(*nu2 == nu, "{}: wrong randomness commitment", desc());
            }
            (Ok((ch, _)), None) => return Err(format!("{}: decryption returned {ch:?} although some chunk is out of range", desc())),
            (Err(e), Some(_)) => return Err(format!("{}: decryption failed with {e:?}", desc())),
            (Err(_), None) => {}
        }
        c.count(if want.is_some() { "outcome.ok" } else { "outcome.err" }, 1);
        c.count(&format!("keys.{kind}"), 1);
        if enc.iter().any(|z| *z == small(top - 1)) { c.count("hit.max", 1); }
        if enc.iter().any(|z| *z == small(top)) { c.count("hit.max+1", 1); }
        let classes: Vec<u8> = enc.iter().map(|z| if z.is_zero() { 0 } else if *z == small(top - 1) { 1 } else if *z == small(top) { 2 } else if small_value(z, top).is_some() { 3 } else { 4 }).collect();
        c.seen((pname, bits, n, kind, want.is_some(), classes));
        c.sample(desc);
        Ok(())
    });
    ctx.cases("reencrypted", ctx.n(900, 20000), |c| {
        let n = if c.idx % 10 > 6 { c.rng.gen_range(1..7usize) } else { some_n(&mut c.rng) };
        let bits: u8 = match c.idx % 10 { 0 => 1, 1 => 2, 2 => 3, 3 | 4 => 4, 5 => 5, 6 => 6, 7 => 8, 8 => 10, _ => if c.idx < big * 2 { 16 } else { 9 } };
        let extra = c.rng.gen_range(0..3);
        let w = World::mixed(&mut c.rng, n + extra);
        let p = if c.idx % 5 == 0 { odd_scalar(&mut c.rng) } else { nz(&mut c.rng) };
        let (sk, kind) = match c.idx % 6 { 1 => (SecretKey(p + Fr::one()), "sk+1"), 2 => (SecretKey(-p), "-sk"), 3 => (SecretKey(Fr::zero()), "zero"), _ => (SecretKey(p), "right") };
        let x = if c.rng.gen_bool(0.08) { Fr::zero() } else { nz(&mut c.rng) };
        let honest = c.rng.gen_bool(0.5);
        let top = 1u64 << bits;
        let mut zs: Vec<Fr> = (0..n).map(|_| if honest { small(match c.rng.gen_range(0..4) { 0 => 0, 1 => top - 1, _ => c.rng.gen_range(0..top) }) } else { pick_z(&mut c.rng, bits) }).collect();
        if !honest && relate(&mut c.rng, &mut zs, &w.a, bits) { c.count("related.re", 1); }
        let cexp: Vec<Fr> = (0..n).map(|i| p * x + zs[i] * w.a[i]).collect();
        let enc: Vec<Fr> = (0..n).map(|i| (cexp[i] - sk.0 * x) * w.a[i].inverse().unwrap()).collect();
        let want: Option<Vec<u16>> = enc.iter().map(|z| small_value(z, top - 1).map(|v| v as u16)).collect();
        let c0 = w.g(&x);
        let cs: Vec<G1Affine> = cexp.iter().map(|e| w.g(e)).collect();
        if bits <= 8 && c.rng.gen_bool(0.3) {
            let ones: Vec<G1Affine> = (0..n).map(|i| w.g(&(p * x + w.a[i]))).collect();
            let r = ok!("honest decryption after re-encryption", Enc::decrypt_to_chunks_after_re_encryption(&c0, &ones, &SecretKey(p), &w.g_i, bits));
            ensure!(r == vec![1; n], "honest decryption of ones after re-encryption ({bits}-bit, {n} chunks) returned {r:?}");
            c.count("primed", 1);
        }
        let r = call!("decrypt_to_chunks_after_re_encryption", Enc::decrypt_to_chunks_after_re_encryption(&c0, &cs, &sk, &w.g_i, bits));
        let desc = || format!("after re-encryption, {bits}-bit, {n} chunks, key: {kind}, chunks encode {:?}", enc.iter().map(|z| z.to_string()).collect::<Vec<_>>());
        match (&r, &want) {
            (Ok(ch), Some(w)) => ensure!(ch == w, "{}: decryption returned {ch:?}", desc()),
            (Ok(ch), None) => return Err(format!("{}: decryption returned {ch:?} although some chunk is out of range", desc())),
            (Err(e), Some(_)) => return Err(format!("{}: decryption failed with {e:?}", desc())),
            (Err(_), None) => {}
        }
        c.count(if want.is_some() { "outcome.re.ok" } else { "outcome.re.err" }, 1);
        if enc.iter().any(|z| *z == small(top - 1)) { c.count("hit.re.max", 1); }
        if enc.iter().any(|z| *z == small(top)) { c.count("hit.re.max+1", 1); }
        let classes: Vec<u8> = enc.iter().map(|z| if z.is_zero() { 0 } else if *z == small(top - 1) { 1 } else if *z == small(top) { 2 } else if small_value(z, top).is_some() { 3 } else { 4 }).collect();
        c.seen(("re", bits, n, kind, want.is_some(), classes));
        c.sample(desc);
        Ok(())
    });
    // every value of the narrow widths, and the special ones of the wide widths, at every position of a long ciphertext
    ctx.cases("values", 16 * ctx.n(1, 6), |c| {
        let bits = (c.idx % 16) as u8 + 1;
        let top = 1u64 << bits;
        let round = c.idx / 16;
        let n = if bits <= 8 { top.min(255) as usize } else { 1 };
        let w = World::mixed(&mut c.rng, n);
        let s = Secrets::new(&mut c.rng, n);
        let dk = PreparedDecryptionKey::from(s.dk(&w));
        let p = nz(&mut c.rng);
        let powers = ok!("pairing_powers", dk.pairing_powers(bits, &w.g_i));
        let mut specials: Vec<u64> = vec![];
        for k in 0..bits as u32 { for d in [-1i64, 0, 1] { let v = (1i64 << k) + d; if v >= 0 && (v as u64) < top { specials.push(v as u64); } } }
        for v in [255u64, 256, 257, 511, 999, 1000, 4095, 12345, 32767, 32768, top - 2, top - 1] { if v < top { specials.push(v); } }
        specials.sort(); specials.dedup();
        // (values, tables only): every value with narrow chunks; for wide ones the special values, and more of them with tables
        let mut jobs: Vec<(Vec<u64>, bool)> = vec![];
        if bits <= 8 {
            let shift = c.rng.gen_range(0..top);
            for part in 0..(top as usize + n - 1) / n { jobs.push(((0..n).map(|i| ((part * n + i) as u64 + shift) % top).collect(), false)); }
        } else {
            let mut plain: Vec<u64> = if bits <= 12 { specials.clone() } else { vec![top - 1, top >> 1, 257, (top >> 1) - 1] };
            if round > 0 { plain = (0..plain.len()).map(|_| c.rng.gen_range(0..top)).collect(); }
            for v in plain { jobs.push((vec![v], false)); }
            for v in &specials { jobs.push((vec![*v], true)); }
            for _ in 0..40 { jobs.push((vec![c.rng.gen_range(0..top)], true)); }
        }
        for (vals, tables_only) in jobs {
            let x = nz(&mut c.rng);
            let want: Vec<u16> = vals.iter().map(|v| *v as u16).collect();
            let c0 = w.g(&x);
            let cs: Vec<G1Affine> = (0..n).map(|i| w.g(&(s.s[i] * x + small(vals[i]) * w.a[i]))).collect();
            let r = ok!(format!("decryption of {bits}-bit chunks {vals:?} with powers"), Enc::decrypt_to_chunks_given_pairing_powers(&c0, &cs, &s.sk(), dk.clone(), &w.g_i, bits, Some(&powers)));
            ensure!(r.0 == want, "decryption of {bits}-bit chunks {vals:?} with powers returned {:?}", r.0);
            c.count("values.tables", n as u64);
            // with a wrong secret nothing comes out
            if bits <= 10 {
                let e = call!("decryption with a wrong key", Enc::decrypt_to_chunks_given_pairing_powers(&c0, &cs, &SecretKey(s.rho + Fr::one()), dk.clone(), &w.g_i, bits, Some(&powers)));
                ensure!(e.is_err(), "decryption of {bits}-bit chunks {vals:?} with a wrong key returned {:?}", e.map(|x| x.0));
            }
            if tables_only { continue; }
            let r = ok!(format!("decryption of {bits}-bit chunks {vals:?}"), Enc::decrypt_to_chunks(&c0, &cs, &s.sk(), dk.clone(), &w.g_i, bits));
            ensure!(r.0 == want, "decryption of {bits}-bit chunks {vals:?} returned {:?}", r.0);
            let cs: Vec<G1Affine> = (0..n).map(|i| w.g(&(p * x + small(vals[i]) * w.a[i]))).collect();
            let r = ok!(format!("decryption of {bits}-bit chunks {vals:?} after re-encryption"), Enc::decrypt_to_chunks_after_re_encryption(&c0, &cs, &SecretKey(p), &w.g_i, bits));
            ensure!(r == want, "decryption of {bits}-bit chunks {vals:?} after re-encryption returned {r:?}");
            c.count("values.plain", n as u64);
        }
        c.seen(("values", bits, round));
        c.sample(|| format!("every or the special values of {bits}-bit chunks, {n} chunks"));
        Ok(())
    });
    // whole-message decryption of tampered and out-of-range ciphertexts, and with wrong keys
    for bits in [4u8, 8] {
        let sets: Vec<KeySet> = mk(ctx, &format!("keys{bits}"), 2, |rng| KeySet::new(rng, bits, true))?;
        let sets = &sets;
        ctx.cases(&format!("whole{bits}"), ctx.n(24, 300), |c| {
            let k = &sets[c.idx as usize % sets.len()];
            let n = chunks_for(bits);
            let mut ch = rand_chunks(&mut c.rng, n, bits);
            let i = c.rng.gen_range(0..n);
            let ti = c.idx % 4;
            if ti == 0 { ch[i] = max_chunk(bits) + 1 + c.rng.gen_range(0..3); }
            let (v, _) = ok!("encrypt_decomposed_message", Enc::encrypt_decomposed_message(&mut c.rng, ch.clone(), &k.ek, &k.w.g_i));
            let mut ct = vec_ct(&v);
            let what = match ti {
                0 => "chunk above the range".to_string(),
                1 => { ct.enc_chunks[i] = (ct.enc_chunks[i].into_group() - k.w.g_i[i] * small(max_chunk(bits) as u64 + 1)).into_affine(); "negative chunk".into() }
                2 => { ct.X_r = (ct.X_r.into_group() + k.w.gens.G).into_affine(); "other randomness element".into() }
                _ => { let j = (i + 1) % n; ct.enc_chunks.swap(i, j); "two chunks exchanged".into() }
            };
            for p in [c.idx as usize % PLAIN, PLAIN + c.idx as usize % WITH_POWERS] {
                let (name, r) = call!(format!("decryption path {p}"), decrypt_path(k, &ct, p));
                if let Ok((chs, m, _)) = r {
                    return Err(format!("{name} ({bits}-bit, {what} at {i}) returned {chs:?} {:?}", m.map(|m| m.to_string())));
                }
                c.count("outcome.whole.err", 1);
                c.seen(("whole", bits, p, &what, i));
            }
            Ok(())
        });
    }
    for k in ["outcome.ok", "outcome.err", "outcome.re.ok", "outcome.re.err", "hit.max", "hit.max+1", "hit.re.max", "hit.re.max+1", "outcome.whole.err", "related", "related.re", "wider_tables", "values.tables", "values.plain"] {
        ctx.require(k, 20);
    }
    Ok(())
}
