//! C20: prepared forms, pairing-power tables and windowed multiplication against direct computation.
use crate::ctx::*;
use crate::model::*;
use dist_saver::utils::{self, WindowTable};

type G2P = <E as Pairing>::G2Prepared;
type G1P = <E as Pairing>::G1Prepared;

fn scalars(rng: &mut StdRng, randoms: usize) -> Vec<Fr> {
    let half = (-Fr::one()) / small(2);
    let mut v = vec![Fr::zero(), Fr::one(), small(2), small(3), -Fr::one(), -small(2), half, half + Fr::one(), half - Fr::one()];
    for k in 0..255u64 {
        let p = small(2).pow([k]);
        if k % 3 == 0 || k > 240 || k % 64 >= 62 || k % 64 < 2 { v.push(p); v.push(p - Fr::one()); v.push(-p); }
    }
    // one digit of every window width, at its largest, everywhere
    for w in 2..=20u64 {
        for _ in 0..2 {
            let pos = rng.gen_range(0..(254 / w)) * w;
            v.push((small(2).pow([w]) - Fr::one()) * small(2).pow([pos]));
            v.push(small(2).pow([w - 1]) * small(2).pow([pos]));
        }
        // the top window
        let top = 254 / w * w;
        if top < 254 { v.push(small(2).pow([top])); }
    }
    for _ in 0..randoms { v.push(Fr::rand(rng)); }
    v
}
fn sizes(c: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = (0..40).collect();
    v.extend([47, 48, 54, 55, 64, 100, 128, 148, 149, 255, 256, 257, 403, 404, 1000, 1096, 1097, 2980, 2981, 5000, 8103, 8104]);
    if c.thorough() { v.extend([22026, 22027, 59874, 65535, 65536, 100_000, 162_755]); }
    v
}
fn table_case<G: CurveGroup<ScalarField = Fr>>(c: &mut Case, name: &str, size: usize, base: G, kind: &str) -> R {
    let rng = &mut c.rng.clone();
    let t = call!("WindowTable::new", WindowTable::<G>::new(size, base));
    let mut ss = scalars(rng, 10);
    if !c.ctx.thorough() {
        // every edge value is seen at some size; all sizes see the ends and a share of the rest
        let k = size;
        let mut i = 0;
        ss.retain(|s| { i += 1; i <= 9 || (i + k) % 7 == 0 || *s == -Fr::one() });
    }
    let want: Vec<G> = ss.iter().map(|s| base * *s).collect();
    for (s, w) in ss.iter().zip(&want) {
        let got = call!("WindowTable::multiply", t.multiply(s));
        ensure!(got == *w, "a table made for {size} multiplications of {kind} in {name} multiplied by {s} gives another element than the product");
        c.count("products", 1);
    }
    let many = call!("WindowTable::multiply_many", t.multiply_many(&ss));
    ensure!(many.len() == ss.len(), "multiply_many returned {} products for {} scalars", many.len(), ss.len());
    for (i, (m, w)) in many.iter().zip(&want).enumerate() {
        ensure!(m == w, "multiply_many with a table made for {size} multiplications of {kind} in {name}: product {i} of {} (by {}) is wrong", ss.len(), ss[i]);
    }
    c.count("products", ss.len() as u64);
    // counts other than the one announced
    for l in [0usize, 1, 2, size.min(20), 33] {
        let l = l.min(ss.len());
        let off = rng.gen_range(0..=ss.len() - l);
        let part = call!("multiply_many", t.multiply_many(&ss[off..off + l]));
        ensure!(part == want[off..off + l], "multiply_many of {l} scalars with a table made for {size} is wrong");
        // one call for one element
        let part = call!("multiply_field_elems_with_same_group_elem", utils::multiply_field_elems_with_same_group_elem(base, &ss[off..off + l]));
        ensure!(part.len() == l, "multiplying {kind} in {name} by {l} scalars returned {} products", part.len());
        ensure!(part == want[off..off + l], "multiplying {kind} in {name} by {l} scalars at once is wrong");
        c.count("products", 2 * l as u64);
    }
    if c.idx % 5 == 0 {
        let all = call!("multiply_field_elems_with_same_group_elem", utils::multiply_field_elems_with_same_group_elem(base, &ss));
        ensure!(all == want, "multiplying {kind} in {name} by {} scalars at once is wrong", ss.len());
        c.count("products", ss.len() as u64);
        // a stored table is the same table
        if size > 300 { return Ok(()); }
        let text = serde_json::to_string(&t).map_err(|e| format!("{e}"))?;
        let j = ok!("decoding a table", serde_json::from_str::<WindowTable<G>>(&text));
        let s = &ss[ss.len() - 1];
        ensure!(j == t && j.multiply(s) == base * *s, "a stored and reloaded table multiplies differently");
    }
    ensure!(WindowTable::<G>::new(size, base) == t, "two tables of the same element and size differ");
    c.seen((name.to_string(), size, kind.to_string(), ss.len()));
    c.sample(|| format!("table for {size} multiplications of {kind} in {name}: {} scalars, all products exact", ss.len()));
    Ok(())
}
fn el1(rng: &mut StdRng, p: f64) -> G1Affine { if rng.gen_bool(p) { G1Affine::identity() } else { G1Affine::rand(rng) } }
fn el2(rng: &mut StdRng, p: f64) -> G2Affine { if rng.gen_bool(p) { G2Affine::identity() } else { G2Affine::rand(rng) } }

pub fn c20(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation compares one prepared object, table or set of products with its direct computation; distinct_nontrivial counts distinct (object, size, element kind)");
    let sz = sizes(ctx);
    ctx.cases("window tables in G1", ctx.n(1, 4) * 3 * sz.len() as u64, |c| {
        let k = c.idx as usize;
        let size = sz[k % sz.len()];
        let g = G1Projective::rand(&mut c.rng);
        match (k / sz.len()) % 3 {
            0 => table_case(c, "G1", size, g, "a random element"),
            1 => if k % 4 == 0 { table_case(c, "G1", size, G1Projective::zero(), "the identity") } else { table_case(c, "G1", size, G1Projective::generator(), "the generator") },
            _ => table_case(c, "G1", size, g.into_affine().into_group(), "a normalised element"),
        }
    });
    ctx.cases("window tables in G2", ctx.n(1, 4) * sz.len() as u64, |c| {
        let size = sz[c.idx as usize % sz.len()];
        let g = G2Projective::rand(&mut c.rng);
        if c.idx % 16 == 7 { table_case(c, "G2", size, G2Projective::zero(), "the identity") } else { table_case(c, "G2", size, g, "a random element") }
    });
    // sequences of related scalars
    ctx.cases("related scalars", ctx.n(160, 3000), |c| {
        let rng = &mut c.rng.clone();
        let n = [2usize, 3, 5, 8, 16, 17, 33, 60][c.idx as usize % 8];
        let mut ss: Vec<Fr> = vec![if c.idx % 3 == 0 { odd_scalar(rng) } else { Fr::rand(rng) }];
        while ss.len() < n { let j = if rng.gen_bool(0.7) { ss.len() - 1 } else { rng.gen_range(0..ss.len()) }; let x = related(rng, &ss[j]); ss.push(x); }
        fn run<G: CurveGroup<ScalarField = Fr>>(c: &Case, name: &str, g: G, ss: &[Fr]) -> R {
            let n = ss.len();
            let t = call!("WindowTable::new", WindowTable::<G>::new(n, g));
            let a = call!("multiply_many", t.multiply_many(ss));
            let b = call!("multiply_field_elems_with_same_group_elem", utils::multiply_field_elems_with_same_group_elem(g, ss));
            ensure!(a.len() == n && b.len() == n, "{n} scalars gave {} and {} products in {name}", a.len(), b.len());
            for (i, s) in ss.iter().enumerate() {
                let w = g * *s;
                ensure!(a[i] == w, "multiply_many: product {i} of {n} in {name} (by {s}, before it {:?}) is wrong", i.checked_sub(1).map(|j| ss[j].to_string()));
                ensure!(b[i] == w, "multiply_field_elems_with_same_group_elem: product {i} of {n} in {name} (by {s}) is wrong");
                ensure!(call!("multiply", t.multiply(s)) == w, "multiply: product by {s} in {name} is wrong");
                c.count("products", 3);
            }
            Ok(())
        }
        if c.idx % 4 == 3 { run(c, "G2", G2Projective::rand(rng), &ss)? } else { run(c, "G1", G1Projective::rand(rng), &ss)? }
        c.seen(("related", n, ss.iter().map(|s| s.into_bigint().0).collect::<Vec<_>>()));
        Ok(())
    });
    // many scalars at once, around where the window width changes
    ctx.cases("many scalars", ctx.n(14, 60), |c| {
        let rng = &mut c.rng.clone();
        let n = [0usize, 1, 2, 31, 32, 33, 54, 55, 148, 149, 255, 257, 500, 1100][c.idx as usize % 14];
        let mut ss: Vec<Fr> = (0..n).map(|_| match rng.gen_range(0..5) { 0 => Fr::zero(), 1 => -Fr::one(), 2 => small(rng.next_u64()), _ => Fr::rand(rng) }).collect();
        if n > 2 { ss[n / 2] = ss[0]; }
        let g = G1Projective::rand(rng);
        let h = G2Projective::rand(rng);
        let got = call!("multiply_field_elems_with_same_group_elem", utils::multiply_field_elems_with_same_group_elem(g, &ss));
        ensure!(got.len() == n, "{n} scalars gave {} products", got.len());
        for (i, s) in ss.iter().enumerate() { ensure!(got[i] == g * *s, "product {i} of {n} in G1 is wrong"); }
        let few = &ss[..n.min(150)];
        let got = call!("multiply_field_elems_with_same_group_elem", utils::multiply_field_elems_with_same_group_elem(h, few));
        ensure!(got.len() == few.len(), "{} scalars gave {} products", few.len(), got.len());
        for (i, s) in few.iter().enumerate() { ensure!(got[i] == h * *s, "product {i} of {} in G2 is wrong", few.len()); }
        c.count("products", (n + few.len()) as u64);
        c.seen(("many", n, c.idx));
        Ok(())
    });
    // prepared forms
    ctx.cases("prepared forms", ctx.n(60, 400), |c| {
        let rng = &mut c.rng.clone();
        let p = [0.0, 0.2, 1.0][c.idx as usize % 3];
        let lens = |rng: &mut StdRng| [0usize, 1, 2, 3, 5, 16, 33][rng.gen_range(0..7)];
        let same = lens(rng);
        let matched = c.idx % 2 == 0;
        let mut l = |k: usize| if matched { same + k } else { lens(rng) };
        let (lx, ly, lz, l1, l2) = (l(0), l(0), l(1), l(0), l(0));
        let ek = EncryptionKey::<E> {
            X_0: el1(rng, p), X: (0..lx).map(|_| el1(rng, p)).collect(), Y: (0..ly).map(|_| el1(rng, p)).collect(),
            Z: (0..lz).map(|_| el2(rng, p)).collect(), P_1: el1(rng, p), P_2: el1(rng, p),
        };
        let pe = call!("preparing an encryption key", PreparedEncryptionKey::from(ek.clone()));
        ensure!(pe.X_0 == ek.X_0 && pe.X == ek.X && pe.Y == ek.Y && pe.P_1 == ek.P_1 && pe.P_2 == ek.P_2, "a prepared encryption key holds other G1 elements");
        ensure!(pe.Z == ek.Z.iter().map(|z| G2P::from(*z)).collect::<Vec<_>>(), "a prepared encryption key holds other Z elements");
        ensure!(call!("commitment_key", pe.commitment_key()) == call!("commitment_key", ek.commitment_key()), "a prepared encryption key gives another commitment key");
        let mut ck = ek.Y.clone();
        ck.push(ek.P_1);
        ensure!(ek.commitment_key() == ck, "the commitment key is not the Y components followed by P_1");
        ensure!(format!("{:?}", pe.supported_chunks_count()) == format!("{:?}", ek.supported_chunks_count()), "a prepared encryption key reports another chunk count");
        ensure!(pe.validate().is_ok() == ek.validate().is_ok(), "a prepared encryption key validates differently");
        let dk = DecryptionKey::<E> { V_0: el2(rng, p), V_1: (0..l1).map(|_| el2(rng, p)).collect(), V_2: (0..l2).map(|_| el2(rng, p)).collect() };
        let pd = call!("preparing a decryption key", PreparedDecryptionKey::from(dk.clone()));
        ensure!(pd.V_0 == G2P::from(dk.V_0), "a prepared decryption key holds another V_0");
        ensure!(pd.V_1 == dk.V_1.iter().map(|z| G2P::from(*z)).collect::<Vec<_>>(), "a prepared decryption key holds other V_1 elements");
        ensure!(pd.V_2 == dk.V_2.iter().map(|z| G2P::from(*z)).collect::<Vec<_>>(), "a prepared decryption key holds other V_2 elements");
        ensure!(format!("{:?}", pd.supported_chunks_count()) == format!("{:?}", dk.supported_chunks_count()), "a prepared decryption key reports another chunk count");
        ensure!(pd.validate().is_ok() == dk.validate().is_ok(), "a prepared decryption key validates differently");
        let gens = EncryptionGens::<E> { G: el1(rng, p), H: el2(rng, p) };
        let pg = call!("preparing generators", PreparedEncryptionGens::from(gens.clone()));
        ensure!(pg.G == G1P::from(gens.G) && pg.H == G2P::from(gens.H), "prepared generators differ from the generators");
        // used in a pairing they give the same value
        for (z, q) in ek.Z.iter().zip(&pe.Z).take(3) {
            ensure!(E::pairing(pg.G.clone(), q.clone()) == E::pairing(gens.G, *z), "a prepared element pairs differently");
        }
        c.count("prepared", 3);
        c.seen(("prepared", lx, ly, lz, l1, l2, c.idx % 3));
        Ok(())
    });
    // pairing powers
    ctx.cases("pairing powers", ctx.n(48, 300), |c| {
        let rng = &mut c.rng.clone();
        let bits = [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16][c.idx as usize % 16];
        let n = match bits { 1..=4 => [1usize, 2, 5, 16, 64][rng.gen_range(0..5)], 5..=8 => rng.gen_range(1..6), 9..=12 => rng.gen_range(1..3), _ => 1 };
        let extra = rng.gen_range(0..3usize);
        let p = if c.idx % 5 == 4 { 0.4 } else { 0.0 };
        let mut g: Vec<G1Affine> = (0..n + extra).map(|_| el1(rng, p)).collect();
        if n > 1 && c.idx % 7 == 3 { g[1] = g[0]; }
        let dk = DecryptionKey::<E> { V_0: el2(rng, 0.0), V_1: (0..n).map(|_| el2(rng, p)).collect(), V_2: (0..n).map(|_| el2(rng, p)).collect() };
        let pd = PreparedDecryptionKey::from(dk.clone());
        let mut gabc = vec![G1Affine::rand(rng)];
        gabc.extend_from_slice(&g);
        let vk = Vk { alpha_g1: G1Affine::rand(rng), beta_g2: G2Affine::rand(rng), gamma_g2: G2Affine::rand(rng), delta_g2: G2Affine::rand(rng), gamma_abc_g1: gabc };
        let table = match c.idx % 4 {
            0 => ok!("pairing_powers", dk.pairing_powers(bits, &g)),
            1 => ok!("pairing_powers (prepared)", pd.pairing_powers(bits, &g)),
            2 => ok!("pairing_powers_given_groth16_vk", dk.pairing_powers_given_groth16_vk(bits, &vk)),
            _ => ok!("pairing_powers_given_groth16_vk (prepared)", pd.pairing_powers_given_groth16_vk(bits, &vk)),
        };
        ensure!(table.len() == n, "a table for {n} chunks has {} rows", table.len());
        let entries = (1usize << bits) - 1;
        for (i, row) in table.iter().enumerate() {
            ensure!(row.len() == entries, "row {i} of a table for {bits}-bit chunks has {} entries instead of {entries}", row.len());
            let base = pair(g[i], dk.V_2[i]);
            let mut acc = PairingOutput::<E>::zero();
            for (j, e) in row.iter().enumerate() {
                acc += base;
                ensure!(*e == acc, "entry {j} of row {i} ({bits}-bit chunks) is not {} times the pairing", j + 1);
            }
            for _ in 0..3 {
                let j = rng.gen_range(0..entries);
                ensure!(row[j] == base * small(j as u64 + 1), "entry {j} of row {i} ({bits}-bit chunks) is not {} times the pairing", j + 1);
            }
            c.count("powers", entries as u64);
        }
        c.count(&format!("powers.{bits}bit"), 1);
        c.seen(("powers", bits, n, extra, c.idx % 4));
        Ok(())
    });
    // the same answers with and without
    ctx.cases("with and without", ctx.n(24, 150), |c| {
        let rng = &mut c.rng.clone();
        let bits = [1u8, 2, 3, 4, 5, 8][c.idx as usize % 6];
        let n = if bits <= 4 { rng.gen_range(1..5) } else { 2 };
        let w = World::new(rng, n);
        let s = Secrets::new(rng, n);
        let (ek, dk, sk) = (s.ek(&w), s.dk(&w), s.sk());
        let vk = w.fake_vk(rng);
        let pd = PreparedDecryptionKey::from(dk.clone());
        let pe = PreparedEncryptionKey::from(ek.clone());
        let tab = ok!("pairing_powers", dk.pairing_powers(bits, &w.g_i));
        let tab2 = ok!("pairing_powers", pd.pairing_powers_given_groth16_vk(bits, &vk));
        ensure!(tab == tab2, "the tables of a key and its prepared form differ");
        // tables that hold more than is needed
        let wider = bits + rng.gen_range(1..4u8).min(10 - bits.min(9));
        let wide = ok!("pairing_powers", dk.pairing_powers(wider, &w.g_i));
        let mut rows = tab.clone();
        rows.push(wide[0].clone());
        let max = max_chunk(bits) as u64;
        let values: Vec<u64> = if bits <= 4 { (0..=max + 2).collect() } else { vec![0, 1, 2, max / 2, max - 1, max, max + 1, 2 * max] };
        for v in values {
            let mut m: Vec<u16> = (0..n).map(|_| edge_chunk(rng, bits)).collect();
            let i = rng.gen_range(0..n);
            m[i] = v as u16;
            let ct = ref_ciphertext(&ek, &w.g_i, &m, &nz(rng));
            let plain = call!("decryption", Enc::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &sk, dk.clone(), &w.g_i, bits)).ok();
            let want = v <= max;
            ensure!(plain.is_some() == want && plain.iter().all(|p| p.0 == m), "direct decryption of chunk value {v} with {bits}-bit chunks: {:?}", plain.map(|p| p.0));
            for (what, got) in [
                ("prepared key", call!("decryption", Enc::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &sk, pd.clone(), &w.g_i, bits)).ok()),
                ("table", call!("decryption", Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &sk, dk.clone(), &w.g_i, bits, Some(&tab))).ok()),
                ("table for wider chunks", call!("decryption", Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &sk, dk.clone(), &w.g_i, bits, Some(&wide))).ok()),
                ("table with another row", call!("decryption", Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &sk, pd.clone(), &w.g_i, bits, Some(&rows))).ok()),
                ("prepared key and table", call!("decryption", Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &sk, pd.clone(), &w.g_i, bits, Some(&tab2))).ok()),
            ] {
                ensure!(got == plain, "decryption with a {what} differs from direct decryption (chunk value {v}, {bits} bits)");
                c.count("answers", 1);
            }
            for t in [&ct, &{ let mut b = ct.clone(); b.commitment = w.gens.G; b }] {
                let a = call!("verification", t.verify_commitment(ek.clone(), w.gens.clone())).is_ok();
                let b = call!("verification", t.verify_commitment(pe.clone(), PreparedEncryptionGens::from(w.gens.clone()))).is_ok();
                ensure!(a == b && a == (t.commitment == ct.commitment), "verification with prepared forms differs");
                c.count("answers", 1);
            }
            c.seen(("with", bits, v, n));
        }
        Ok(())
    });
    ctx.require("products", 20000);
    ctx.require("prepared", 100);
    ctx.require("powers", 100000);
    ctx.require("powers.16bit", 2);
    ctx.require("answers", 500);
    Ok(())
}
