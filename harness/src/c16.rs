//! C16 malformed shapes.
use crate::ctx::*;
use crate::model::*;
use crate::{ensure, ok};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::setup::{setup_for_groth16, ChunkedCommitmentGens};
use dist_saver::utils;

/// The call must report an error
fn rej<T>(c: &Case, op: &str, what: &str, f: impl FnOnce() -> Result<T, SaverError>) -> R {
    match guard(f) {
        Err(p) => Err(format!("{op} with {what} panicked: {p}")),
        Ok(Ok(_)) => Err(format!("{op} with {what} was accepted")),
        Ok(Err(_)) => {
            c.count("refused", 1);
            c.count(&format!("refused.{op}"), 1);
            c.seen((op.to_string(), what.to_string()));
            Ok(())
        }
    }
}
/// The call must succeed
fn acc<T>(c: &Case, op: &str, what: &str, f: impl FnOnce() -> Result<T, SaverError>) -> Result<T, String> {
    match guard(f) {
        Err(p) => Err(format!("{op} with {what} panicked: {p}")),
        Ok(Err(e)) => Err(format!("{op} with {what} was refused: {e:?}")),
        Ok(Ok(v)) => { c.count("accepted", 1); c.seen((op.to_string(), what.to_string(), 1)); Ok(v) }
    }
}
/// The call must give the right answer or an error
fn either<T>(c: &Case, op: &str, what: &str, f: impl FnOnce() -> Result<T, SaverError>, good: impl FnOnce(&T) -> bool) -> R {
    match guard(f) {
        Err(p) => Err(format!("{op} with {what} panicked: {p}")),
        Ok(Ok(v)) => { ensure!(good(&v), "{op} with {what} returned a wrong result"); c.count("lenient", 1); Ok(()) }
        Ok(Err(_)) => { c.count("lenient", 1); Ok(()) }
    }
}
/// The vector with another length: shortened, emptied or lengthened
fn resized<T: Clone>(v: &[T], len: usize) -> Vec<T> {
    let mut o: Vec<T> = v.iter().take(len).cloned().collect();
    while o.len() < len { o.push(v[o.len() % v.len()].clone()); }
    o
}
fn bad_lens(n: usize) -> Vec<usize> {
    let mut v = vec![0, n.saturating_sub(1), n + 1, n + 3, 2 * n + 1];
    if n > 2 { v.push(n - 2); v.push(1); }
    v.retain(|x| *x != n);
    v.sort();
    v.dedup();
    v
}
/// Keys whose vectors do not fit each other, by one vector at a time and by pairs
fn bad_eks(ek: &EncryptionKey<E>) -> Vec<(String, EncryptionKey<E>)> {
    let n = ek.X.len();
    let mut out = vec![];
    for l in bad_lens(n) {
        let mut k = ek.clone(); k.X = resized(&ek.X, l); out.push((format!("{l} X for {n}"), k));
        let mut k = ek.clone(); k.Y = resized(&ek.Y, l); out.push((format!("{l} Y for {n}"), k));
        let mut k = ek.clone(); k.Z = resized(&ek.Z, l + 1); out.push((format!("{} Z for {n}", l + 1), k));
        let mut k = ek.clone(); k.X = resized(&ek.X, l); k.Y = resized(&ek.Y, l); out.push((format!("{l} X and Y but {} Z", n + 1), k));
        let mut k = ek.clone(); k.X = resized(&ek.X, l); k.Z = resized(&ek.Z, l + 1); out.push((format!("{l} X but {n} Y"), k));
        let mut k = ek.clone(); k.Y = resized(&ek.Y, l); k.Z = resized(&ek.Z, l + 1); out.push((format!("{l} Y but {n} X"), k));
    }
    let mut k = ek.clone(); k.Z = resized(&ek.Z, n); out.push((format!("{n} Z for {n}"), k));
    let mut k = ek.clone(); k.Z = vec![]; out.push(("no Z".into(), k));
    out
}
fn bad_dks(dk: &DecryptionKey<E>) -> Vec<(String, DecryptionKey<E>)> {
    let n = dk.V_1.len();
    let mut out = vec![];
    for l in bad_lens(n) {
        let mut k = dk.clone(); k.V_1 = resized(&dk.V_1, l); out.push((format!("{l} V_1 for {n}"), k));
        let mut k = dk.clone(); k.V_2 = resized(&dk.V_2, l); out.push((format!("{l} V_2 for {n}"), k));
    }
    out
}
fn world(rng: &mut StdRng, n: usize) -> (World, Secrets, EncryptionKey<E>, DecryptionKey<E>) {
    let w = World::new(rng, n);
    let s = Secrets::new(rng, n);
    let (ek, dk) = (s.ek(&w), s.dk(&w));
    (w, s, ek, dk)
}

pub fn c16(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation calls one family of fallible operations with every listed malformation of each argument (shortened, emptied, lengthened vectors, inconsistent keys, unusable chunk sizes) and with well-shaped arguments, and judges error, acceptance and panic; distinct_nontrivial counts distinct (operation, malformation)");
    let reps = ctx.n(6, 120);
    // key validation: every combination of lengths
    ctx.cases("validate", ctx.n(2, 4), |c| {
        let (p, q, z) = (G1Affine::rand(&mut c.rng), G1Affine::rand(&mut c.rng), G2Affine::rand(&mut c.rng));
        let zp = <E as Pairing>::G2Prepared::from(z);
        let big = [0usize, 1, 2, 3, 4, 5, 16, 31, 32, 33, 64, 127, 128, 254, 255, 256, 257, 258, 287, 288, 320, 511, 512, 513, 768, 1024, 65535, 65536, 65568];
        let mut shapes = vec![];
        for x in 0..7usize { for y in 0..7usize { for zz in 0..8usize { shapes.push((x, y, zz)); } } }
        for b in big {
            shapes.push((b, b, b + 1)); shapes.push((b, b, b)); shapes.push((b, b + 1, b + 1)); shapes.push((b + 1, b, b + 1));
            for d in [256usize, 512] { shapes.push((b, b + d, b + 1)); shapes.push((b + d, b, b + 1)); shapes.push((b, b, b + 1 + d)); shapes.push((b + d, b + d, b + 1)); }
        }
        for (x, y, zz) in shapes {
            let ek = EncryptionKey::<E> { X_0: p, X: vec![p; x], Y: vec![q; y], Z: vec![z; zz], P_1: p, P_2: q };
            let fits = y == x && zz == x + 1;
            let small_enough = x <= 255;
            let what = format!("{x} X, {y} Y, {zz} Z");
            let mut res = vec![("EncryptionKey", guard(|| ek.supported_chunks_count()), guard(|| ek.validate()))];
            if x < 600 && y < 600 && zz < 600 {
                let pek = PreparedEncryptionKey::<E> { X_0: p, X: ek.X.clone(), Y: ek.Y.clone(), Z: vec![zp.clone(); zz], P_1: p, P_2: q };
                res.push(("PreparedEncryptionKey", guard(|| pek.supported_chunks_count()), guard(|| pek.validate())));
            }
            for (t, cnt, val) in res {
                let (cnt, val) = (cnt.map_err(|p| format!("{t}::supported_chunks_count with {what} panicked: {p}"))?, val.map_err(|p| format!("{t}::validate with {what} panicked: {p}"))?);
                judge_count(c, t, &what, cnt, val, fits, small_enough, x)?;
            }
            // decryption keys: use x and y
            if zz == x + 1 || zz < 2 {
                let dk = DecryptionKey::<E> { V_0: z, V_1: vec![z; x], V_2: vec![z; y] };
                let what = format!("{x} V_1, {y} V_2");
                let mut res = vec![("DecryptionKey", guard(|| dk.supported_chunks_count()), guard(|| dk.validate()))];
                if x < 600 && y < 600 {
                    let pdk = PreparedDecryptionKey::<E> { V_0: zp.clone(), V_1: vec![zp.clone(); x], V_2: vec![zp.clone(); y] };
                    res.push(("PreparedDecryptionKey", guard(|| pdk.supported_chunks_count()), guard(|| pdk.validate())));
                }
                for (t, cnt, val) in res {
                    let (cnt, val) = (cnt.map_err(|p| format!("{t}::supported_chunks_count with {what} panicked: {p}"))?, val.map_err(|p| format!("{t}::validate with {what} panicked: {p}"))?);
                    judge_count(c, t, &what, cnt, val, x == y, small_enough, x)?;
                }
            }
        }
        Ok(())
    });
    // encryption
    ctx.cases("encrypt", reps, |c| {
        let n = [1usize, 2, 3, 5, 16, 32, 64][c.idx as usize % 7];
        let (w, _, ek, _) = world(&mut c.rng, n);
        let bits = if n == 32 { 8u8 } else { 16 };
        let m: Vec<u16> = rand_chunks(&mut c.rng, n, bits);
        let op = "encrypt_decomposed_message";
        let mut go = |c: &mut Case, what: &str, m: &[u16], ek: &EncryptionKey<E>, g: &[G1Affine]| { let mut r = c.rng.clone(); rej(c, op, what, || Enc::encrypt_decomposed_message(&mut r, m.to_vec(), ek, g)) };
        for l in bad_lens(n) { go(c, &format!("{l} chunks for {n}"), &resized(&m, l), &ek, &w.g_i)?; go(c, &format!("{l} chunks for {n} and as many generators"), &resized(&m, l), &ek, &resized(&w.g_i, l))?; }
        for (what, k) in bad_eks(&ek) {
            go(c, &what, &m, &k, &w.g_i)?;
            let l = k.X.len();
            if l > 0 { go(c, &format!("{what}, fitting chunks"), &resized(&m, l), &k, &resized(&w.g_i, l))?; }
        }
        for l in 0..n { go(c, &format!("{l} generators for {n}"), &m, &ek, &w.g_i[..l])?; }
        let mut r = c.rng.clone();
        let (a, _) = acc(c, op, "fitting arguments", || Enc::encrypt_decomposed_message(&mut r, m.clone(), &ek, &w.g_i))?;
        ensure!(a.len() == n + 2, "{op} returned {} components for {n} chunks", a.len());
        for l in [n + 1, n + 7] {
            let mut r = c.rng.clone();
            let (b, _) = acc(c, op, "more generators than needed", || Enc::encrypt_decomposed_message(&mut r, m.clone(), &ek, &resized(&w.g_i, l)))?;
            ensure!(a == b, "{op}: additional generators change the result");
        }
        if n >= 16 {
            let msg = random_message(&mut c.rng, bits);
            let vk = w.fake_vk(&mut c.rng);
            let rg = |c: &Case| c.rng.clone();
            for b in 0..=255u8 {
                if b == bits { continue; }
                rej(c, "encrypt", &format!("chunk size {b} for a {bits}-bit key"), || Enc::encrypt(&mut rg(c), &msg, &ek, &w.g_i, b))?;
                rej(c, "encrypt_given_snark_vk", &format!("chunk size {b} for a {bits}-bit key"), || Enc::encrypt_given_snark_vk(&mut rg(c), &msg, &ek, &vk, b))?;
            }
            for (what, k) in bad_eks(&ek) { rej(c, "encrypt", &what, || Enc::encrypt(&mut rg(c), &msg, &k, &w.g_i, bits))?; }
            for l in [0, 1, n - 1] {
                rej(c, "encrypt", &format!("{l} generators for {n}"), || Enc::encrypt(&mut rg(c), &msg, &ek, &w.g_i[..l], bits))?;
                let mut v = vk.clone(); v.gamma_abc_g1.truncate(l);
                rej(c, "encrypt_given_snark_vk", &format!("a verification key of {l} elements for {n}"), || Enc::encrypt_given_snark_vk(&mut rg(c), &msg, &ek, &v, bits))?;
            }
            let mut v = vk.clone(); v.gamma_abc_g1.truncate(n);
            rej(c, "encrypt_given_snark_vk", "a verification key one element short", || Enc::encrypt_given_snark_vk(&mut rg(c), &msg, &ek, &v, bits))?;
            acc(c, "encrypt", "fitting arguments", || Enc::encrypt(&mut rg(c), &msg, &ek, &w.g_i, bits))?;
            acc(c, "encrypt_given_snark_vk", "fitting arguments", || Enc::encrypt_given_snark_vk(&mut rg(c), &msg, &ek, &vk, bits))?;
        }
        Ok(())
    });
    // decryption
    ctx.cases("decrypt", reps * 2, |c| {
        let n = [1usize, 2, 3, 4, 16, 5][c.idx as usize % 6];
        let (w, s, ek, dk) = world(&mut c.rng, n);
        let bits = [4u8, 8, 3, 5][c.rng.gen_range(0..4)];
        let m: Vec<u16> = (0..n).map(|i| if i % 3 == 1 && c.idx % 2 == 0 { 0 } else { c.rng.gen_range(1..=max_chunk(bits).min(30)) }).collect();
        let ct = ref_ciphertext(&ek, &w.g_i, &m, &nz(&mut c.rng));
        let sk = s.sk();
        let vk = w.fake_vk(&mut c.rng);
        let tab = acc(c, "pairing_powers", "fitting arguments", || dk.pairing_powers(bits, &w.g_i))?;
        ensure!(tab.len() == n && tab.iter().all(|r| r.len() == max_chunk(bits) as usize), "pairing_powers has the wrong shape");
        for l in 0..n { rej(c, "pairing_powers", &format!("{l} generators for {n}"), || dk.pairing_powers(bits, &w.g_i[..l]))?; }
        for (what, k) in bad_dks(&dk) {
            rej(c, "pairing_powers", &what, || k.pairing_powers(bits, &w.g_i))?;
            rej(c, "pairing_powers", &format!("{what}, many generators"), || PreparedDecryptionKey::from(k.clone()).pairing_powers(bits, &resized(&w.g_i, 3 * n + 3)))?;
        }
        rej(c, "pairing_powers", "chunk size 0", || dk.pairing_powers(0, &w.g_i))?;
        let longer = acc(c, "pairing_powers", "more generators than needed", || dk.pairing_powers(bits, &resized(&w.g_i, n + 4)))?;
        ensure!(longer == tab, "pairing_powers: additional generators change the table");
        let mut sv = vk.clone(); sv.gamma_abc_g1.truncate(n);
        rej(c, "pairing_powers_given_groth16_vk", "a verification key one element short", || dk.pairing_powers_given_groth16_vk(bits, &sv))?;
        let mut ev = vk.clone(); ev.gamma_abc_g1.clear();
        rej(c, "pairing_powers_given_groth16_vk", "an empty verification key", || dk.pairing_powers_given_groth16_vk(bits, &ev))?;
        let vt = acc(c, "pairing_powers_given_groth16_vk", "fitting arguments", || dk.pairing_powers_given_groth16_vk(bits, &vk))?;
        ensure!(vt == tab, "pairing_powers_given_groth16_vk differs from pairing_powers");

        let op = "decrypt_to_chunks";
        let d = |ch: &[G1Affine], k: &DecryptionKey<E>, g: &[G1Affine], b: u8| Enc::decrypt_to_chunks(&ct.X_r, ch, &sk, k.clone(), g, b);
        let dp = |ch: &[G1Affine], k: &DecryptionKey<E>, g: &[G1Affine], b: u8, t: &[Vec<PairingOutput<E>>]| Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, ch, &sk, k.clone(), g, b, Some(t));
        for l in bad_lens(n) {
            rej(c, op, &format!("{l} encrypted chunks for {n}"), || d(&resized(&ct.enc_chunks, l), &dk, &w.g_i, bits))?;
            rej(c, op, &format!("{l} encrypted chunks for {n}, many generators"), || d(&resized(&ct.enc_chunks, l), &dk, &resized(&w.g_i, 3 * n + 4), bits))?;
            rej(c, "decrypt_to_chunks_given_pairing_powers", &format!("{l} encrypted chunks for {n}"), || dp(&resized(&ct.enc_chunks, l), &dk, &w.g_i, bits, &tab))?;
            rej(c, "decrypt_to_chunks_given_pairing_powers", &format!("{l} encrypted chunks for {n}, as many rows"), || dp(&resized(&ct.enc_chunks, l), &dk, &resized(&w.g_i, 3 * n + 4), bits, &resized(&tab, l)))?;
        }
        for (what, k) in bad_dks(&dk) {
            rej(c, op, &what, || d(&ct.enc_chunks, &k, &w.g_i, bits))?;
            rej(c, op, &format!("{what}, ciphertext as long as V_1"), || d(&resized(&ct.enc_chunks, k.V_1.len()), &k, &resized(&w.g_i, 3 * n + 4), bits))?;
            rej(c, op, &format!("{what}, ciphertext as long as V_2"), || d(&resized(&ct.enc_chunks, k.V_2.len()), &k, &resized(&w.g_i, 3 * n + 4), bits))?;
            rej(c, "decrypt_to_chunks_given_pairing_powers", &what, || dp(&ct.enc_chunks, &k, &w.g_i, bits, &tab))?;
        }
        for l in 0..n {
            rej(c, op, &format!("{l} generators for {n}"), || d(&ct.enc_chunks, &dk, &w.g_i[..l], bits))?;
            rej(c, "decrypt_to_chunks_given_pairing_powers", &format!("{l} generators for {n}"), || dp(&ct.enc_chunks, &dk, &w.g_i[..l], bits, &tab))?;
        }
        rej(c, op, "chunk size 0", || d(&ct.enc_chunks, &dk, &w.g_i, 0))?;
        let (got, _) = acc(c, op, "more generators than needed", || d(&ct.enc_chunks, &dk, &resized(&w.g_i, n + 3), bits))?;
        ensure!(got == m, "{op}: additional generators change the result");
        for b in [bits, 8, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 255] {
            if b < bits { continue; }
            let (got, _) = acc(c, op, &format!("chunk size {b}"), || d(&ct.enc_chunks, &dk, &w.g_i, b))?;
            ensure!(got == m, "{op} in {b} bits returned another plaintext");
        }
        // tables
        let max = max_chunk(bits) as usize;
        let good = |v: &(Vec<u16>, G1Affine)| v.0 == m;
        let opt = "decrypt_to_chunks_given_pairing_powers";
        for l in 0..n {
            let t = resized(&tab, l);
            if l > 0 && m[l..].iter().any(|x| *x > 0) { rej(c, opt, &format!("a table of {l} rows for {n}"), || dp(&ct.enc_chunks, &dk, &w.g_i, bits, &t))?; }
            else { either(c, opt, &format!("a table of {l} rows for {n}"), || dp(&ct.enc_chunks, &dk, &w.g_i, bits, &t), good)?; }
        }
        for i in 0..n {
            let v = m[i] as usize;
            for l in [0usize, 1, v.saturating_sub(2), v.saturating_sub(1), v, v + 1, max - 1] {
                if l >= max { continue; }
                let mut t = tab.clone();
                t[i].truncate(l);
                if v > l { rej(c, opt, &format!("row {i} of {n} cut below its chunk"), || dp(&ct.enc_chunks, &dk, &w.g_i, bits, &t))?; }
                else { either(c, opt, "a row cut above its chunk", || dp(&ct.enc_chunks, &dk, &w.g_i, bits, &t), good)?; }
            }
            // a value that is in no table at all, with a short row
            let mut t = tab.clone();
            t[i].truncate(max - 1);
            let mut bad = ct.clone();
            bad.enc_chunks[i] = G1Affine::rand(&mut c.rng);
            rej(c, opt, "a row one entry short and an unrelated chunk", || Enc::decrypt_to_chunks_given_pairing_powers(&bad.X_r, &bad.enc_chunks, &sk, dk.clone(), &w.g_i, bits, Some(&t)))?;
        }
        let all_empty: Vec<Vec<PairingOutput<E>>> = vec![vec![]; n];
        if m.iter().any(|x| *x > 0) { rej(c, opt, "a table of empty rows", || dp(&ct.enc_chunks, &dk, &w.g_i, bits, &all_empty))?; }
        let mut t = tab.clone();
        for r in t.iter_mut() { let x = r[0]; for _ in 0..4 { let y = r[r.len() - 1]; r.push(y + x); } }
        t.push(t[0].clone());
        let (got, _) = acc(c, opt, "a larger table than needed", || dp(&ct.enc_chunks, &dk, &w.g_i, bits, &t))?;
        ensure!(got == m, "{opt}: a larger table changes the result");
        // whole-message entry points
        for b in [0u8, 1, 2, 3, 5, 6, 7, 9, 12, 15, 17, 32, 64, 255] {
            rej(c, "decrypt", &format!("chunk size {b}"), || ct.decrypt(&sk, dk.clone(), &w.g_i, b))?;
            rej(c, "decrypt_given_groth16_vk", &format!("chunk size {b}"), || ct.decrypt_given_groth16_vk(&sk, dk.clone(), &vk, b))?;
        }
        for l in 0..n {
            rej(c, "decrypt", &format!("{l} generators for {n}"), || ct.decrypt(&sk, dk.clone(), &w.g_i[..l], 8))?;
            let mut v = vk.clone(); v.gamma_abc_g1.truncate(l);
            rej(c, "decrypt_given_groth16_vk", &format!("a verification key of {l} elements for {n}"), || ct.decrypt_given_groth16_vk(&sk, dk.clone(), &v, 8))?;
            rej(c, "Encryption::decrypt_given_groth16_vk", &format!("a verification key of {l} elements for {n}"), || Enc::decrypt_given_groth16_vk(&ct.X_r, &ct.enc_chunks, &sk, dk.clone(), &v, 8))?;
            rej(c, "decrypt_given_groth16_vk_and_pairing_powers", &format!("a verification key of {l} elements for {n}"), || ct.decrypt_given_groth16_vk_and_pairing_powers(&sk, dk.clone(), &v, 8, &tab))?;
        }
        if bits == 4 && n % 2 == 1 { rej(c, "decrypt", "an odd number of 4-bit chunks", || ct.decrypt(&sk, dk.clone(), &w.g_i, 4))?; }
        for (what, k) in bad_dks(&dk) { rej(c, "decrypt", &what, || ct.decrypt(&sk, k.clone(), &w.g_i, 8))?; }
        Ok(())
    });
    // verification
    ctx.cases("verify", reps, |c| {
        let n = [1usize, 2, 3, 5, 9, 16][c.idx as usize % 6];
        let (w, _, ek, _) = world(&mut c.rng, n);
        let mk = |rng: &mut StdRng| { let m = rand_chunks(rng, n, 8); ref_ciphertext(&ek, &w.g_i, &m, &nz(rng)) };
        let cts: Vec<Ct> = (0..4).map(|_| mk(&mut c.rng)).collect();
        let ct = &cts[0];
        let op = "verify_ciphertext_commitment";
        let v = |ch: &[G1Affine], k: &EncryptionKey<E>| Enc::verify_ciphertext_commitment(&ct.X_r, ch, &ct.commitment, k.clone(), w.gens.clone());
        acc(c, op, "fitting arguments", || v(&ct.enc_chunks, &ek))?;
        for l in bad_lens(n) {
            rej(c, op, &format!("{l} chunks for {n}"), || v(&resized(&ct.enc_chunks, l), &ek))?;
            // extra identity components would not change the equation
            if l > n { let mut x = ct.enc_chunks.clone(); x.resize(l, G1Affine::zero()); rej(c, op, &format!("{} identity chunks too many", l - n), || v(&x, &ek))?; }
        }
        for (what, k) in bad_eks(&ek) {
            rej(c, op, &what, || v(&ct.enc_chunks, &k))?;
            rej(c, op, &format!("{what}, prepared"), || Enc::verify_ciphertext_commitment(&ct.X_r, &resized(&ct.enc_chunks, k.X.len()), &ct.commitment, PreparedEncryptionKey::from(k.clone()), PreparedEncryptionGens::from(w.gens.clone())))?;
        }
        let op = "verify_commitments_in_batch";
        let rs: Vec<Fr> = (0..4).map(|_| nz(&mut c.rng)).collect();
        let b = |cts: &[Ct], rs: &[Fr], k: &EncryptionKey<E>| Enc::verify_commitments_in_batch(cts, rs, k.clone(), w.gens.clone());
        acc(c, op, "fitting arguments", || b(&cts, &rs, &ek))?;
        for l in [0usize, 1, 2, 3, 5, 6] {
            rej(c, op, &format!("{l} weights for 4 ciphertexts"), || b(&cts, &resized(&rs, l), &ek))?;
        }
        rej(c, op, "weights but no ciphertexts", || b(&[], &rs, &ek))?;
        either(c, op, "nothing", || b(&[], &[], &ek), |_| true)?;
        for pos in 0..4 {
            for l in bad_lens(n) {
                let mut x = cts.clone();
                x[pos].enc_chunks = resized(&cts[pos].enc_chunks, l);
                rej(c, op, &format!("ciphertext {pos} of 4 with {l} chunks for {n}"), || b(&x, &rs, &ek))?;
                if l > n {
                    let mut x = cts.clone();
                    x[pos].enc_chunks.resize(l, G1Affine::zero());
                    rej(c, op, &format!("ciphertext {pos} of 4 with {} identity chunks too many", l - n), || b(&x, &rs, &ek))?;
                }
                let mut x = cts.clone();
                for y in x.iter_mut() { y.enc_chunks = resized(&y.enc_chunks, l); }
                rej(c, op, &format!("all ciphertexts with {l} chunks for {n}"), || b(&x, &rs, &ek))?;
            }
        }
        for (what, k) in bad_eks(&ek) { rej(c, op, &what, || b(&cts, &rs, &k))?; }
        // large batches with one malformed member
        let len = [17usize, 33, 65, 66, 100, 129, 200, 257, 300][c.rng.gen_range(0..9)];
        let many: Vec<Ct> = (0..len).map(|i| cts[i % 4].clone()).collect();
        let rs: Vec<Fr> = (0..len).map(|_| nz(&mut c.rng)).collect();
        acc(c, op, &format!("{len} ciphertexts"), || b(&many, &rs, &ek))?;
        for at in [0, 1, len / 2, len - 2, len - 1, c.rng.gen_range(0..len), c.rng.gen_range(0..len)] {
            for l in [n - 1, n + 1] {
                let mut x = many.clone();
                x[at].enc_chunks.resize(l, G1Affine::zero());
                rej(c, op, &format!("ciphertext {at} of {len} with {l} chunks for {n}"), || b(&x, &rs, &ek))?;
                if c.idx % 2 == 0 {
                    // everything as if the chunk were not there
                    let mut y = x.clone();
                    for (j, z) in y.iter_mut().enumerate() { if j != at { z.enc_chunks.resize(l, G1Affine::zero()); } }
                    rej(c, op, &format!("all ciphertexts of {len} but one with {l} chunks for {n}"), || b(&y, &rs, &ek))?;
                }
            }
        }
        for l in [0, 1, len - 1, len + 1, 2 * len] { rej(c, op, &format!("{l} weights for {len} ciphertexts"), || b(&many, &resized(&rs, l), &ek))?; }
        c.count("large_batches", 1);
        Ok(())
    });
    // shares
    ctx.cases("shares", reps * 3, |c| {
        let n = [1usize, 2, 3, 5, 9, 16][c.idx as usize % 6];
        let (w, s, ek, _) = world(&mut c.rng, n);
        let m = rand_chunks(&mut c.rng, n, 4);
        let ct = ref_ciphertext(&ek, &w.g_i, &m, &nz(&mut c.rng));
        let sk = SecretKeyST::<E> { s: s.s.clone(), t: s.t.clone() };
        let dest = nz(&mut c.rng);
        let ekd = FEncryptionKeyDest::<E> { pk: w.g(&dest) };
        let rg = c.rng.clone();
        let sh = |ch: &[G1Affine], sk: &SecretKeyST<E>| Enc::re_encrypt_share(&mut rg.clone(), &w.gens, &ct.X_r, ch, &ekd, sk);
        let (a, ga) = acc(c, "re_encrypt_share", "fitting arguments", || sh(&ct.enc_chunks, &sk))?;
        ensure!(a.len() == n, "share of {} entries for {n} chunks", a.len());
        for l in bad_lens(n) {
            rej(c, "re_encrypt_share", &format!("{l} chunks for {n} secrets"), || sh(&resized(&ct.enc_chunks, l), &sk))?;
            let k = SecretKeyST::<E> { s: resized(&sk.s, l), t: resized(&sk.t, l + 1) };
            rej(c, "re_encrypt_share", &format!("{l} secrets for {n} chunks"), || sh(&ct.enc_chunks, &k))?;
            let o = resized(&a, l);
            rej(c, "combine_re_encrypt_share", &format!("{n} and {l} entries"), || Enc::combine_re_encrypt_share(&ga, &ga, &a, &o))?;
            rej(c, "combine_re_encrypt_share", &format!("{l} and {n} entries"), || Enc::combine_re_encrypt_share(&ga, &ga, &o, &a))?;
            rej(c, "combine_ct_with_w", &format!("{l} share entries for {n}"), || Enc::combine_ct_with_w(&w.gens, &ct.enc_chunks, &ga, &o))?;
            rej(c, "combine_ct_with_w", &format!("{l} chunks for {n} share entries"), || Enc::combine_ct_with_w(&w.gens, &resized(&ct.enc_chunks, l), &ga, &a))?;
            let v = ct_vec(&ct);
            let o = resized(&v, l + 2);
            rej(c, "add_cts", &format!("{} and {} components", n + 2, l + 2), || Enc::add_cts(&v, &o))?;
            rej(c, "add_cts", &format!("{} and {} components", l + 2, n + 2), || Enc::add_cts(&o, &v))?;
        }
        let v = ct_vec(&ct);
        for l in [0usize, 1] {
            rej(c, "add_cts", &format!("{} and {l} components", n + 2), || Enc::add_cts(&v, &v[..l]))?;
            rej(c, "add_cts", &format!("{l} and {} components", n + 2), || Enc::add_cts(&v[..l], &v))?;
        }
        acc(c, "add_cts", "fitting arguments", || Enc::add_cts(&v, &v))?;
        acc(c, "combine_re_encrypt_share", "fitting arguments", || Enc::combine_re_encrypt_share(&ga, &ga, &a, &a))?;
        let re = acc(c, "combine_ct_with_w", "fitting arguments", || Enc::combine_ct_with_w(&w.gens, &ct.enc_chunks, &ga, &a))?;
        let op = "decrypt_to_chunks_after_re_encryption";
        for l in 0..n { rej(c, op, &format!("{l} generators for {n}"), || Enc::decrypt_to_chunks_after_re_encryption(&re[0], &re[1..], &SecretKey(dest), &w.g_i[..l], 4))?; }
        rej(c, op, "chunk size 0", || Enc::decrypt_to_chunks_after_re_encryption(&re[0], &re[1..], &SecretKey(dest), &w.g_i, 0))?;
        for b in [4u8, 5, 8, 15, 16, 17, 31, 32, 33, 64, 128, 255] {
            let r = acc(c, op, &format!("chunk size {b}"), || Enc::decrypt_to_chunks_after_re_encryption(&re[0], &re[1..], &SecretKey(dest), &resized(&w.g_i, n + (b as usize % 3)), b))?;
            ensure!(r == m, "{op} in {b} bits returned another plaintext");
        }
        Ok(())
    });
    // key generation with every chunk size
    ctx.cases("keygen", 256, |c| {
        let b = c.idx as u8;
        let n = if b == 0 { 0 } else { chunks_for(b) };
        let w = World::new(&mut c.rng, n.max(3) + 2);
        let rg = c.rng.clone();
        let kg = |g: &[G1Affine]| keygen(&mut rg.clone(), b, &w.gens, g, &w.delta_g, &w.gamma_g);
        let kp = |g: &[G1Affine]| FkeygenPartial(&mut rg.clone(), b, &w.gens, g, &w.delta_g, &w.gamma_g);
        if b == 0 {
            for l in [0usize, 1, 3] {
                rej(c, "keygen", "chunk size 0", || kg(&w.g_i[..l]))?;
                rej(c, "FkeygenPartial", "chunk size 0", || kp(&w.g_i[..l]))?;
            }
            rej(c, "setup_for_groth16", "chunk size 0", || setup_for_groth16::<E, _>(&mut rg.clone(), 0, &w.gens))?;
            return Ok(());
        }
        for l in [0usize, 1, n / 2, n.saturating_sub(2), n - 1] {
            if l >= n { continue; }
            rej(c, "keygen", &format!("{l} generators for {n} chunks"), || kg(&w.g_i[..l]))?;
            rej(c, "FkeygenPartial", &format!("{l} generators for {n} chunks"), || kp(&w.g_i[..l]))?;
        }
        if !ctx.thorough() && n > 64 && b != 1 { return Ok(()); }
        let (_, ek, dk) = acc(c, "keygen", &format!("chunk size {b}"), || kg(&w.g_i[..n]))?;
        let lens = (ek.X.len(), ek.Y.len(), ek.Z.len(), dk.V_1.len(), dk.V_2.len());
        ensure!(lens == (n, n, n + 1, n, n), "keygen for {b}-bit chunks made vectors of {lens:?}, expected {n} chunks");
        ensure!(matches!(ek.supported_chunks_count(), Ok(k) if k as usize == n) && matches!(dk.supported_chunks_count(), Ok(k) if k as usize == n), "chunk count of a {b}-bit key misreported");
        let (sk, p) = acc(c, "FkeygenPartial", &format!("chunk size {b}"), || kp(&w.g_i[..n]))?;
        ensure!((sk.s.len(), sk.t.len(), p.X.len(), p.Y.len(), p.Z.len()) == (n, n + 1, n, n, n + 1), "FkeygenPartial for {b}-bit chunks made vectors of other lengths than {n} chunks");
        if n < 64 {
            let (_, ek2, dk2) = acc(c, "keygen", "more generators than needed", || kg(&w.g_i))?;
            ensure!(ek2 == ek && dk2 == dk, "keygen: additional generators change the keys");
            let (_, p2) = acc(c, "FkeygenPartial", "more generators than needed", || kp(&w.g_i))?;
            ensure!(p2 == p, "FkeygenPartial: additional generators change the key");
        }
        ensure!(utils::chunks_count::<Fr>(b) as usize == n, "chunks_count({b}) is not {n}");
        Ok(())
    });
    // chunk codec and commitments
    ctx.cases("commitment", reps, |c| {
        let m = random_message(&mut c.rng, 8);
        let r = Fr::rand(&mut c.rng);
        let gens = ChunkedCommitmentGens::<G1Affine> { G: G1Affine::rand(&mut c.rng), H: G1Affine::rand(&mut c.rng) };
        for b in 0..=255u8 {
            if [4, 8, 16].contains(&b) { continue; }
            rej(c, "decompose", &format!("chunk size {b}"), || utils::decompose(&m, b))?;
            rej(c, "compose", &format!("chunk size {b}"), || utils::compose::<Fr>(&[1, 2], b))?;
            rej(c, "compose", &format!("chunk size {b}, nothing"), || utils::compose::<Fr>(&[], b))?;
            rej(c, "ChunkedCommitment::new", &format!("chunk size {b}"), || ChunkedCommitment::new(&m, &r, b, &gens))?;
            rej(c, "get_commitment_given_commitment_key", &format!("chunk size {b}"), || ChunkedCommitment::get_commitment_given_commitment_key(&m, &r, b, &[gens.G, gens.H]))?;
        }
        for b in [4u8, 8, 16] {
            let n = chunks_for(b);
            let ck = ChunkedCommitment::commitment_key(&gens, b);
            ensure!(ck.len() == n + 1, "commitment key of {} elements for {n} chunks", ck.len());
            let op = "get_commitment_given_commitment_key";
            for l in bad_lens(n + 1) { rej(c, op, &format!("{l} key elements for {n} chunks"), || ChunkedCommitment::get_commitment_given_commitment_key(&m, &r, b, &resized(&ck, l)))?; }
            for o in [4u8, 8, 16] { if o != b { rej(c, op, &format!("the {o}-bit key for {b}-bit chunks"), || ChunkedCommitment::get_commitment_given_commitment_key(&m, &r, b, &ChunkedCommitment::commitment_key(&gens, o)))?; } }
            let a = acc(c, op, "fitting arguments", || ChunkedCommitment::get_commitment_given_commitment_key(&m, &r, b, &ck))?;
            ensure!(a == (gens.G * m + gens.H * r).into_affine(), "wrong commitment");
        }
        for l in [1usize, 3, 31, 63, 65] { rej(c, "compose", &format!("{l} chunks of 4 bits"), || utils::compose::<Fr>(&vec![1u16; l], 4))?; }
        Ok(())
    });
    // proofs
    ctx.cases("proofs", ctx.n(4, 40), |c| {
        let nv = [1usize, 2, 3, 5][c.idx as usize % 4];
        let gens = EncryptionGens::<E> { G: G1Affine::rand(&mut c.rng), H: G2Affine::rand(&mut c.rng) };
        let bits = 4u8;
        let pk = ok!("generate_srs", saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::<Fr>::new(bits, Some(nv as u8), None, true), &gens, &mut c.rng));
        let g_i = saver_groth16::get_gs_for_encryption(&pk.pk.vk).to_vec();
        ensure!(g_i.len() == nv, "{} generators for {nv} values", g_i.len());
        let s = Secrets::new(&mut c.rng, nv);
        let ek = EncryptionKey::<E> {
            X_0: pk.pk.delta_g1,
            X: s.s.iter().map(|x| mul1(pk.pk.delta_g1, x).into_affine()).collect(),
            Y: (0..nv).map(|i| mul1(g_i[i], &s.t[i + 1]).into_affine()).collect(),
            Z: s.t.iter().map(|t| mul2(gens.H, t).into_affine()).collect(),
            P_1: mul1(pk.pk.delta_g1, &s.p1()).into_affine(),
            P_2: mul1(pk.gamma_g1, &(Fr::one() + s.sum_s())).into_affine(),
        };
        let m = rand_chunks(&mut c.rng, nv, bits);
        let r = nz(&mut c.rng);
        let ct = ref_ciphertext(&ek, &g_i, &m, &r);
        let vals: Vec<Fr> = m.iter().map(|x| small(*x as u64)).collect();
        let circ = || BitsizeCheckCircuit::new(bits, Some(nv as u8), Some(vals.clone()), true);
        let rg = c.rng.clone();
        let proof = acc(c, "create_proof", "fitting arguments", || saver_groth16::create_proof(circ(), &r, &pk, &ek, &mut rg.clone()))?;
        rej(c, "create_proof", "unknown values", || saver_groth16::create_proof(BitsizeCheckCircuit::new(bits, Some(nv as u8), None, true), &r, &pk, &ek, &mut rg.clone()))?;
        for (what, k) in bad_eks(&ek) { rej(c, "create_proof", &what, || saver_groth16::create_proof(circ(), &r, &pk, &k, &mut rg.clone()))?; }
        for l in bad_lens(nv) {
            let mut k = ek.clone(); k.X = resized(&ek.X, l); k.Y = resized(&ek.Y, l); k.Z = resized(&ek.Z, l + 1);
            rej(c, "create_proof", &format!("a key for {l} chunks with parameters for {nv}"), || saver_groth16::create_proof(circ(), &r, &pk, &k, &mut rg.clone()))?;
        }
        let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
        acc(c, "verify_proof", "fitting arguments", || saver_groth16::verify_proof(&pvk, &proof, &ct))?;
        acc(c, "verify_commitment_and_proof", "fitting arguments", || ct.verify_commitment_and_proof(&proof, &pvk, ek.clone(), gens.clone()))?;
        acc(c, "calculate_d", "fitting arguments", || saver_groth16::calculate_d(&pvk, &ct))?;
        for l in bad_lens(nv) {
            // same sum, other number of chunks
            let mut x = ct.clone();
            let sum: G1Projective = ct.enc_chunks.iter().map(|p| p.into_group()).sum();
            x.enc_chunks = vec![G1Affine::zero(); l];
            if l > 0 { x.enc_chunks[0] = sum.into_affine(); }
            let mut y = ct.clone();
            y.enc_chunks = resized(&ct.enc_chunks, l);
            for (how, z) in [("the same sum", x), ("a prefix or repetition", y)] {
                rej(c, "verify_proof", &format!("{l} chunks for {nv}, {how}"), || saver_groth16::verify_proof(&pvk, &proof, &z))?;
                rej(c, "calculate_d", &format!("{l} chunks for {nv}, {how}"), || saver_groth16::calculate_d(&pvk, &z))?;
                rej(c, "verify_commitment_and_proof", &format!("{l} chunks for {nv}, {how}"), || z.verify_commitment_and_proof(&proof, &pvk, ek.clone(), gens.clone()))?;
            }
        }
        for l in (0..=nv).chain([nv + 2]) {
            let mut k = pvk.clone();
            k.vk.gamma_abc_g1 = resized(&pvk.vk.gamma_abc_g1, l);
            rej(c, "verify_proof", &format!("a verification key of {l} elements for {nv} chunks"), || saver_groth16::verify_proof(&k, &proof, &ct))?;
            rej(c, "calculate_d", &format!("a verification key of {l} elements for {nv} chunks"), || saver_groth16::calculate_d(&k, &ct))?;
        }
        for (what, k) in bad_eks(&ek) { rej(c, "verify_commitment_and_proof", &what, || ct.verify_commitment_and_proof(&proof, &pvk, k.clone(), gens.clone()))?; }
        Ok(())
    });
    ctx.cases("encrypt_with_proof", ctx.n(2, 6), |c| {
        let gens = EncryptionGens::<E> { G: G1Affine::rand(&mut c.rng), H: G2Affine::rand(&mut c.rng) };
        let op = "encrypt_with_proof";
        let (p16, _, e16, _) = acc(c, "setup_for_groth16", "chunk size 16", || setup_for_groth16::<E, _>(&mut c.rng.clone(), 16, &gens))?;
        let (p8, _, e8, _) = acc(c, "setup_for_groth16", "chunk size 8", || setup_for_groth16::<E, _>(&mut c.rng.clone(), 8, &gens))?;
        let m = random_message(&mut c.rng, 8);
        let rg = c.rng.clone();
        for (pk, ek, own, name) in [(&p16, &e16, 16u8, "16/16"), (&p8, &e8, 8, "8/8"), (&p8, &e16, 77, "8/16"), (&p16, &e8, 77, "16/8")] {
            for b in [0u8, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 64, 128, 255] {
                if b == own { acc(c, op, "fitting arguments", || Enc::encrypt_with_proof(&mut rg.clone(), &m, ek, pk, b))?; }
                else { rej(c, op, &format!("chunk size {b} with parameters/key of {name} bits"), || Enc::encrypt_with_proof(&mut rg.clone(), &m, ek, pk, b))?; }
            }
        }
        for (what, k) in bad_eks(&e16) { rej(c, op, &what, || Enc::encrypt_with_proof(&mut rg.clone(), &m, &k, &p16, 16))?; }
        let mut pe = p16.clone();
        pe.pk.vk.gamma_abc_g1.clear();
        rej(c, op, "parameters without input elements", || Enc::encrypt_with_proof(&mut rg.clone(), &m, &e16, &pe, 16))?;
        Ok(())
    });
    for op in ["encrypt_decomposed_message", "encrypt", "decrypt_to_chunks", "decrypt_to_chunks_given_pairing_powers", "pairing_powers", "re_encrypt_share", "combine_re_encrypt_share", "combine_ct_with_w",
        "add_cts", "decrypt_to_chunks_after_re_encryption", "verify_ciphertext_commitment", "verify_commitments_in_batch", "verify_proof", "create_proof", "encrypt_with_proof", "keygen", "FkeygenPartial", "get_commitment_given_commitment_key", "compose"] {
        ctx.require(&format!("refused.{op}"), 5);
    }
    ctx.require("large_batches", 3);
    ctx.require("keys.accepted", 20);
    ctx.require("keys.refused", 500);
    ctx.require("accepted", 300);
    Ok(())
}
fn judge_count(c: &Case, t: &str, what: &str, cnt: Result<u8, SaverError>, val: Result<(), SaverError>, fits: bool, small_enough: bool, n: usize) -> R {
    // a count that cannot be reported in a byte must be refused, whatever else holds
    if fits && small_enough {
        ensure!(matches!(cnt, Ok(k) if k as usize == n), "{t}::supported_chunks_count with {what} returned {cnt:?}");
        ensure!(val.is_ok(), "{t}::validate with {what} returned {val:?}");
        c.count("keys.accepted", 1);
    } else {
        ensure!(cnt.is_err(), "{t}::supported_chunks_count with {what} returned {cnt:?}");
        ensure!(val.is_err(), "{t}::validate with {what} accepted the key");
        c.count("keys.refused", 1);
    }
    c.seen((t.to_string(), what.to_string()));
    Ok(())
}
