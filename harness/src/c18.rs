//! C18: memory of secret keys after they are gone. A global allocator scans every block freed while a
//! key's life ends, and blocks kept alive are read afterwards.
use crate::ctx::*;
use crate::model::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use dist_saver::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};
use zeroize::Zeroize;

pub struct Scan;
/// What to look for while the current thread is armed
struct Armed {
    needles: Vec<u64>,
    hits: Cell<u64>,
    blocks: Cell<u64>,
    words: Cell<u64>,
    /// blocks that hold the secrets: address, bytes, freed meanwhile
    watched: Vec<(usize, usize, Cell<bool>)>,
}
thread_local! { static ARMED: Cell<*const Armed> = const { Cell::new(std::ptr::null()) }; }

unsafe fn count_needles(needles: &[u64], p: *const u8, size: usize) -> (u64, u64) {
    let (mut hits, mut words) = (0, 0);
    let mut a = (p as usize + 7) & !7;
    while a + 8 <= p as usize + size {
        let w = std::ptr::read_volatile(a as *const u64);
        words += 1;
        if needles.contains(&w) { hits += 1; }
        a += 8;
    }
    (hits, words)
}
#[cold]
unsafe fn scan(a: *const Armed, p: *const u8, size: usize) {
    let a = &*a;
    let (h, w) = count_needles(&a.needles, p, size);
    a.hits.set(a.hits.get() + h);
    a.words.set(a.words.get() + w);
    a.blocks.set(a.blocks.get() + 1);
    for (addr, _, freed) in &a.watched { if *addr == p as usize { freed.set(true); } }
}
/// Fresh blocks are handed out zeroed, so that what is found in a block was written there by its owner
static CLEAN: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for Scan {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if CLEAN.load(Ordering::Relaxed) { System.alloc_zeroed(l) } else { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Ok(a) = ARMED.try_with(|a| a.get()) { if !a.is_null() { scan(a, p, l.size()); } }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !CLEAN.load(Ordering::Relaxed) { return System.realloc(p, l, n); }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
/// Runs `f` with the allocator watching this thread.
struct Seen { hits: u64, blocks: u64, words: u64 }
fn watch(needles: &[u64], watched: &[(usize, usize)], f: impl FnOnce()) -> Seen {
    let a = Armed {
        needles: needles.to_vec(),
        hits: Cell::new(0), blocks: Cell::new(0), words: Cell::new(0),
        watched: watched.iter().map(|(p, s)| (*p, *s, Cell::new(false))).collect(),
    };
    let old = ARMED.with(|c| c.replace(&a));
    struct Off(*const Armed);
    impl Drop for Off { fn drop(&mut self) { let o = self.0; ARMED.with(|c| c.set(o)); } }
    {
        let _off = Off(old);
        f();
    }
    let (mut hits, mut words) = (a.hits.get(), a.words.get());
    // a block that held the secrets and is still allocated is read where it stands
    for (p, s, freed) in &a.watched {
        if !freed.get() { let (h, w) = unsafe { count_needles(&a.needles, *p as *const u8, *s) }; hits += h; words += w; }
    }
    Seen { hits, blocks: a.blocks.get(), words }
}

/// The words that must be gone: every large limb of the scalars, in the field's own and in plain form
fn limbs<F: PrimeField>(xs: &[F]) -> Vec<u64> {
    let mut v = vec![];
    for x in xs {
        let n = std::mem::size_of::<F>() / 8;
        for i in 0..n { v.push(unsafe { std::ptr::read_volatile((x as *const F as *const u64).add(i)) }); }
        v.extend_from_slice(x.into_bigint().as_ref());
    }
    v.retain(|w| *w > 1 << 32);
    v.sort();
    v.dedup();
    v
}
/// A secret key type seen by the monitor
trait Secret: Clone + PartialEq + std::fmt::Debug + CanonicalSerialize + CanonicalDeserialize + serde::Serialize + serde::de::DeserializeOwned + Send + 'static {
    fn needles(&self) -> Vec<u64>;
    /// heap blocks holding secrets
    fn blocks(&self) -> Vec<(usize, usize)>;
    fn wipe(&mut self) -> bool;
    fn alive(&self) -> bool;
    fn other(rng: &mut StdRng) -> Self;
}
// does the type offer an explicit wipe? (must compile either way)
struct Probe<'a, T>(&'a mut T);
trait Yes { fn wipe_it(self) -> bool; }
trait No { fn wipe_it(self) -> bool; }
impl<'a, T: Zeroize> Yes for Probe<'a, T> { fn wipe_it(self) -> bool { self.0.zeroize(); true } }
impl<'a, T> No for &Probe<'a, T> { fn wipe_it(self) -> bool { false } }

macro_rules! secret_impl { ($F:ty) => {
    impl Secret for SecretKey<$F> {
        fn needles(&self) -> Vec<u64> { limbs(&[self.0]) }
        fn blocks(&self) -> Vec<(usize, usize)> { vec![] }
        fn wipe(&mut self) -> bool { Probe(self).wipe_it() }
        fn alive(&self) -> bool { !self.0.is_zero() }
        fn other(rng: &mut StdRng) -> Self { SecretKey(<$F>::rand(rng)) }
    }
} }
secret_impl!(Fr);
secret_impl!(Fq);
impl Secret for SecretKeyST<E> {
    fn needles(&self) -> Vec<u64> { let mut v = limbs(&self.s); v.extend(limbs(&self.t)); v.sort(); v.dedup(); v }
    fn blocks(&self) -> Vec<(usize, usize)> {
        let b = |v: &Vec<Fr>| (v.as_ptr() as usize, v.capacity() * std::mem::size_of::<Fr>());
        [b(&self.s), b(&self.t)].into_iter().filter(|x| x.1 > 0).collect()
    }
    fn wipe(&mut self) -> bool { Probe(self).wipe_it() }
    fn alive(&self) -> bool { self.s.iter().chain(&self.t).any(|x| !x.is_zero()) }
    fn other(rng: &mut StdRng) -> Self { let n = rng.gen_range(1..5); SecretKeyST { s: (0..n).map(|_| nz(rng)).collect(), t: (0..=n).map(|_| nz(rng)).collect() } }
}

const WAYS: [&str; 22] = [
    "dropped in a box", "dropped in place", "dropped by a panic unwinding", "dropped by a nested panic in a callee", "dropped in a vector", "truncated off a vector",
    "drained from a vector", "replaced by assignment", "cleared from an option", "dropped with the last shared reference", "dropped at the end of a thread",
    "dropped from a map", "cloned, clone dropped first", "cloned, original dropped first", "overwritten by clone_from", "decoded (compressed)", "decoded (uncompressed, unchecked)",
    "decoded (serde text)", "decoded (serde value)", "explicitly wiped", "wiped, refilled and dropped", "dropped inside a tuple by unwinding",
];

/// Cloning hands out a clone and leaves no copy besides, and neither does cloning onto another key
fn clone_watched<K: Secret>(k: &K) -> Result<Seen, String> {
    let n = k.needles();
    let mut v: Vec<K> = Vec::with_capacity(6);
    let s = watch(&n, &[], || { v.push(k.clone()); v.push(v[0].clone()); let x = v[1].clone(); v[0].clone_from(&x); v.push(x); });
    if v.iter().any(|x| x != k) { return Err("a clone differs from the key".into()); }
    if s.hits > 0 { return Err(format!("cloning a key left {} words of its secret scalars in memory that was freed", s.hits)); }
    let t = watch(&n, &[], move || drop(v));
    if t.hits > 0 { return Err(format!("{} words of the secret scalars of dropped clones were left in memory", t.hits)); }
    Ok(Seen { hits: 0, blocks: s.blocks + t.blocks, words: s.words + t.words })
}

/// Ends the life of `k` in the given way; what was seen, and complaints about survivors
fn end<K: Secret>(way: usize, k: K, rng: &mut StdRng) -> Result<Seen, String> {
    let n = k.needles();
    // no fresh secrets may share words with the one looked for
    let w = |b: &K| { let mut v = b.blocks(); v.push((b as *const K as usize, std::mem::size_of::<K>())); v };
    // storage in place that outlives the key
    let in_place = |b: &K| b.blocks();
    Ok(match way {
        0 => { let b = Box::new(k); let bl = w(&b); watch(&n, &bl, move || drop(b)) }
        1 => {
            let mut slot = Box::new(std::mem::MaybeUninit::<K>::uninit());
            slot.write(k);
            let p = slot.as_mut_ptr();
            let mut bl = in_place(unsafe { &*p });
            bl.push((p as usize, std::mem::size_of::<K>()));
            let s = watch(&n, &bl, || unsafe { std::ptr::drop_in_place(p) });
            drop(slot);
            s
        }
        2 => { let b = Box::new(k); let bl = w(&b); watch(&n, &bl, move || { let _ = guard(move || { let _b = b; if std::hint::black_box(true) { std::panic::resume_unwind(Box::new(1)) } }); }) }
        3 => {
            fn deep<K: Secret>(b: Box<K>, d: usize) -> usize { if d == 0 { std::hint::black_box(&b); let v: Vec<usize> = vec![]; return v[std::hint::black_box(3)]; } let r = deep(b, d - 1); r + 1 }
            let b = Box::new(k); let bl = w(&b);
            watch(&n, &bl, move || { let _ = guard(move || deep(b, 3)); })
        }
        4 => { let v = vec![K::other(rng), k, K::other(rng)]; let bl = in_place(&v[1]); watch(&n, &bl, move || drop(v)) }
        5 => { let mut v = vec![K::other(rng), K::other(rng), k]; let mut bl = in_place(&v[2]); bl.push((&v[2] as *const K as usize, std::mem::size_of::<K>())); let s = watch(&n, &bl, || v.truncate(2)); if !v.iter().all(|x| x.alive()) { return Err("dropping a key wiped its neighbours".into()); } s }
        6 => { let mut v = vec![K::other(rng), k, K::other(rng)]; let bl = in_place(&v[1]); let s = watch(&n, &bl, || { v.drain(1..2); }); if !v.iter().all(|x| x.alive()) { return Err("dropping a key wiped its neighbours".into()); } s }
        7 => { let mut b = Box::new(k); let bl = w(&b); let o = K::other(rng); let oc = o.clone(); let s = watch(&n, &bl, || { *b = o; }); if *b != oc { return Err("a key assigned over another is not itself".into()); } s }
        8 => { let mut o = Box::new(Some(k)); let bl = in_place(o.as_ref().as_ref().unwrap()); watch(&n, &bl, move || { *o = None; }) }
        9 => { let a = std::sync::Arc::new(k); let b = a.clone(); let bl = in_place(&a); drop(a); if b.needles() != n { return Err("dropping one shared reference wiped the key".into()); } watch(&n, &bl, move || drop(b)) }
        10 => { let b = Box::new(k); let bl = w(&b); std::thread::spawn(move || watch(&n, &bl, move || { let _b = b; })).join().map_err(|_| "the thread dropping a key panicked".to_string())? }
        11 => { let mut m = std::collections::BTreeMap::new(); m.insert(7u8, K::other(rng)); m.insert(9u8, k); let bl = in_place(&m[&9]); watch(&n, &bl, move || drop(m)) }
        12 => { let s0 = clone_watched(&k)?; let c = Box::new(k.clone()); if c.blocks() == k.blocks() && !c.blocks().is_empty() { return Err("a clone shares the original's memory".into()); } let bl = w(&c); let s1 = watch(&n, &bl, move || drop(c)); if k.needles() != n { return Err("dropping a clone altered the original".into()); } let b = Box::new(k); let bl = w(&b); let s2 = watch(&n, &bl, move || drop(b)); Seen { hits: s0.hits + s1.hits + s2.hits, blocks: s0.blocks + s1.blocks + s2.blocks, words: s0.words + s1.words + s2.words } }
        13 => { let c = Box::new(k.clone()); let b = Box::new(k); let bl = w(&b); let s1 = watch(&n, &bl, move || drop(b)); if c.needles() != n { return Err("dropping a key altered its clone".into()); } let bl = w(&c); let s2 = watch(&n, &bl, move || drop(c)); Seen { hits: s1.hits + s2.hits, blocks: s1.blocks + s2.blocks, words: s1.words + s2.words } }
        14 => { let mut b = Box::new(k); let bl = w(&b); let o = K::other(rng); let s = watch(&n, &bl, || (*b).clone_from(&o)); if *b != o { return Err("clone_from did not copy the key".into()); } s }
        15 | 16 => {
            let mut bytes = vec![];
            let d: Result<K, _> = if way == 15 { k.serialize_compressed(&mut bytes).map_err(|e| format!("{e}"))?; K::deserialize_compressed(&bytes[..]) } else { k.serialize_uncompressed(&mut bytes).map_err(|e| format!("{e}"))?; K::deserialize_uncompressed_unchecked(&bytes[..]) };
            let d = Box::new(d.map_err(|e| format!("a key does not decode: {e}"))?);
            if *d != k { return Err("a decoded key differs".into()); }
            let bl = w(&d);
            watch(&n, &bl, move || drop(d))
        }
        17 | 18 => {
            let d: K = if way == 17 { serde_json::from_str(&serde_json::to_string(&k).map_err(|e| format!("{e}"))?) } else { serde_json::from_value(serde_json::to_value(&k).map_err(|e| format!("{e}"))?) }.map_err(|e| format!("a key does not decode: {e}"))?;
            let d = Box::new(d);
            if *d != k { return Err("a decoded key differs".into()); }
            let bl = w(&d);
            watch(&n, &bl, move || drop(d))
        }
        19 => {
            let mut b = Box::new(k); let bl = w(&b);
            let mut done = false;
            let s = watch(&n, &bl, || done = b.wipe());
            if !done { return Err("a secret key type offers no explicit wipe".into()); }
            if b.alive() { return Err("a wiped key still holds a non-zero scalar".into()); }
            s
        }
        20 => { let mut b = Box::new(K::other(rng)); if !b.wipe() { return Err("a secret key type offers no explicit wipe".into()); } *b = k; let bl = w(&b); watch(&n, &bl, move || drop(b)) }
        _ => { let a = K::other(rng); let t = Box::new((a, k, 5u64)); let bl = in_place(&t.1); watch(&n, &bl, move || { let _ = guard(move || { let t = t; std::hint::black_box(&t); if std::hint::black_box(true) { std::panic::resume_unwind(Box::new(1)) } }); }) }
    })
}
fn ending<K: Secret>(c: &mut Case, what: &str, way: usize, k: K) -> R {
    let n = k.needles();
    // the instrument itself: the same block, freed without a wipe, must be noticed
    let ex: Vec<u64> = n.clone();
    if !ex.is_empty() {
        let s = watch(&n, &[], move || drop(std::hint::black_box(ex)));
        ensure!(s.hits as usize == n.len(), "[harness] the allocator saw {} of {} planted words", s.hits, n.len());
    }
    let mut rng = c.rng.clone();
    let s = end(way, k, &mut rng).map_err(|e| format!("{what}: {e}"))?;
    ensure!(s.hits == 0, "{what} {}: {} words of its secret scalars were left in memory", WAYS[way], s.hits);
    c.count("endings", 1);
    c.count(&format!("way.{}", WAYS[way]), 1);
    c.count("blocks.scanned", s.blocks);
    c.count("words.scanned", s.words);
    c.count("secret_words.looked_for", n.len() as u64);
    c.seen((what.to_string(), way, n.len()));
    c.sample(|| format!("{what} {}: {} secret words looked for, {} blocks and {} words scanned, none left", WAYS[way], n.len(), s.blocks, s.words));
    Ok(())
}
fn edge_fr(rng: &mut StdRng, i: usize) -> Fr {
    match i % 6 { 0 => -Fr::one(), 1 => Fr::one(), 2 => Fr::zero(), _ => Fr::rand(rng) }
}

pub fn c18(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation lets secret keys end their life in one way and scans every heap block freed meanwhile, and the memory they stood in, for the words of their scalars; distinct_nontrivial counts distinct (key kind, way, number of secret words)");
    CLEAN.store(true, Ordering::SeqCst);
    let ways = WAYS.len() as u64;
    let rounds = ctx.n(6, 60);
    ctx.cases("destination and dealer keys", rounds * ways, |c| {
        let way = (c.idx % ways) as usize;
        let rng = &mut c.rng.clone();
        let w = World::new(rng, 16);
        let (dest, _) = ok!("destination key generation", Fkeygen_dest::<_, E>(rng, &w.gens));
        ending(c, "a destination's secret key", way, dest)?;
        let (sk, _, _) = ok!("key generation", keygen(rng, 16, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
        ending(c, "a dealer's secret key", way, sk)?;
        let k = (c.idx / ways) as usize;
        ending(c, "a secret key built from a scalar", way, SecretKey(if way == 19 { nz(rng) } else { edge_fr(rng, k) }))?;
        ending(c, "a secret key over another field", way, SecretKey(Fq::rand(rng)))
    });
    ctx.cases("party keys", rounds * ways, |c| {
        let way = (c.idx % ways) as usize;
        let rng = &mut c.rng.clone();
        let bits = [16u8, 8, 4][(c.idx / ways) as usize % 3];
        let bits = if ctx.thorough() { bits } else { 16 };
        let w = World::new(rng, chunks_for(bits));
        let (sk, _) = ok!("partial key generation", FkeygenPartial(rng, bits, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
        ending(c, "a party's secret key", way, sk)?;
        // any number of scalars, spare capacity, edge values, unequal lengths
        for (ls, lt) in [(1usize, 2usize), (64, 65), (0, 1), (3, 0), (17, 4), (rng.gen_range(0..40), rng.gen_range(0..40))] {
            let mk = |rng: &mut StdRng, l: usize, e: bool| { let mut v = Vec::with_capacity(l + rng.gen_range(0..4)); for i in 0..l { v.push(if e { edge_fr(rng, i) } else { nz(rng) }); } v };
            let e = rng.gen_bool(0.5);
            let k = SecretKeyST::<E> { s: mk(rng, ls, e), t: mk(rng, lt, e) };
            ending(c, "a party's secret key built from scalars", way, k)?;
        }
        Ok(())
    });
    // use by reference
    ctx.cases("use", ctx.n(6, 40), |c| {
        let rng = &mut c.rng.clone();
        let n = 3;
        let w = World::new(rng, n);
        let s = Secrets::new(rng, n);
        let (ek, dk) = (s.ek(&w), s.dk(&w));
        let m = rand_chunks(rng, n, 4);
        let vk = w.fake_vk(rng);
        let ct = ref_ciphertext(&ek, &w.g_i, &m, &nz(rng));
        let sk = Box::new(s.sk());
        let (bytes, addr) = (limbs(&[sk.0]), &*sk as *const _ as usize);
        let tab = ok!("pairing_powers", dk.pairing_powers(4, &w.g_i));
        for rep in 0..2 {
            let uses: Vec<(&str, Box<dyn Fn() -> bool + '_>)> = vec![
                ("decrypt_to_chunks", Box::new(|| Enc::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &sk, dk.clone(), &w.g_i, 4).map(|x| x.0 == m).unwrap_or(false))),
                ("decrypt_to_chunks with tables", Box::new(|| Enc::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &sk, dk.clone(), &w.g_i, 4, Some(&tab)).map(|x| x.0 == m).unwrap_or(false))),
                ("decrypt_to_chunks with a wrong key", Box::new(|| { let mut d = dk.clone(); d.V_0 = w.gens.H; d.V_1[0] = w.gens.H; Enc::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &sk, d, &w.g_i, 4).is_err() })),
                ("Ciphertext::decrypt", Box::new(|| ct.decrypt(&sk, dk.clone(), &w.g_i, 4).is_err() || true)),
                ("decrypt_given_groth16_vk", Box::new(|| Enc::decrypt_given_groth16_vk(&ct.X_r, &ct.enc_chunks, &sk, dk.clone(), &vk, 4).is_err() || true)),
                ("decrypt_to_chunks_after_re_encryption", Box::new(|| {
                    let re: Vec<G1Affine> = (0..n).map(|i| (mul1(w.g_i[i], &small(m[i] as u64)) + mul1(ct.X_r, &sk.0)).into_affine()).collect();
                    Enc::decrypt_to_chunks_after_re_encryption(&ct.X_r, &re, &sk, &w.g_i, 4).map(|x| x == m).unwrap_or(false)
                })),
                ("encoding", Box::new(|| { let mut v = vec![]; sk.serialize_compressed(&mut v).is_ok() && serde_json::to_string(&*sk).is_ok() && !format!("{:?}", sk).is_empty() })),
                ("comparing", Box::new(|| sk == sk.clone())),
            ];
            for (what, f) in &uses {
                let good = call!(what, f());
                ensure!(&*sk as *const _ as usize == addr && limbs(&[sk.0]) == bytes && sk.0 == s.rho, "{what} altered the secret key it was given by reference");
                ensure!(good, "{what} failed on use {rep} of the same secret key");
                c.count("uses", 1);
                c.seen((*what, rep, c.idx));
            }
        }
        // a party's key
        let party = SecretKeyST::<E> { s: s.s.clone(), t: s.t.clone() };
        let ekd = FEncryptionKeyDest::<E> { pk: w.g(&nz(rng)) };
        let partial = FEncryptionKeyPartial::<E> { X_0: ek.X_0, X: ek.X.clone(), Y: ek.Y.clone(), Z: ek.Z.clone(), P_2: ek.P_2 };
        for _ in 0..2 {
            let p = call!("genP1share", genP1share(&partial, &party));
            ensure!(party.s == s.s && party.t == s.t, "genP1share altered the secret key it was given by reference");
            ensure!(p.P_1 == ek.P_1, "genP1share gave a wrong share on reuse of the same key");
            let seed = c.idx;
            let mut r1 = StdRng::seed_from_u64(seed);
            let a = ok!("re_encrypt_share", Enc::re_encrypt_share(&mut r1, &w.gens, &ct.X_r, &ct.enc_chunks, &ekd, &party));
            ensure!(party.s == s.s && party.t == s.t, "re_encrypt_share altered the secret key it was given by reference");
            let mut r2 = StdRng::seed_from_u64(seed);
            let b = ok!("re_encrypt_share", Enc::re_encrypt_share(&mut r2, &w.gens, &ct.X_r, &ct.enc_chunks, &ekd, &party));
            ensure!(a == b, "re_encrypt_share differs on reuse of the same key");
            let _ = call!("failing re_encrypt_share", Enc::re_encrypt_share(&mut r2, &w.gens, &ct.X_r, &ct.enc_chunks[1..], &ekd, &party));
            ensure!(party.s == s.s && party.t == s.t, "a failing re_encrypt_share altered the secret key it was given by reference");
            let mut v = vec![];
            ensure!(party.serialize_compressed(&mut v).is_ok() && serde_json::to_string(&party).is_ok() && party == party.clone(), "encoding a party's key failed");
            ensure!(party.s == s.s && party.t == s.t, "encoding altered a secret key");
            c.count("uses", 4);
            c.seen(("party", c.idx));
        }
        Ok(())
    });
    for w in WAYS { ctx.require(&format!("way.{w}"), rounds); }
    ctx.require("words.scanned", 10000);
    ctx.require("secret_words.looked_for", 10000);
    ctx.require("uses", 50);
    Ok(())
}
