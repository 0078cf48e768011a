//! Shadow model: every key, ciphertext and share in the exponent, with plain scalar arithmetic.
pub use ark_bls12_381::{Bls12_381, Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
pub use ark_ec::{
    pairing::{Pairing, PairingOutput},
    AffineRepr, CurveGroup, Group,
};
pub use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
pub use ark_std::rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
pub use ark_std::UniformRand;
pub use dist_saver::encryption::{Ciphertext, Encryption};
pub use dist_saver::keygen::*;
pub use dist_saver::prelude::{EncryptionGens, PreparedEncryptionGens, SaverError};
pub use dist_saver::saver_groth16;

pub type E = Bls12_381;
pub type Enc = Encryption<E>;
pub type Ct = Ciphertext<E>;
pub type Vk = ark_groth16::VerifyingKey<E>;

pub fn bits_of(f: &Fr) -> u32 {
    f.into_bigint().num_bits()
}
pub fn mul1(p: impl Into<G1Projective>, x: &Fr) -> G1Projective {
    p.into() * *x
}
pub fn mul2(p: impl Into<G2Projective>, x: &Fr) -> G2Projective {
    p.into() * *x
}
pub fn small(x: u64) -> Fr {
    Fr::from(x)
}
pub fn chunks_for(bits: u8) -> usize {
    (255 + bits as usize - 1) / bits as usize
}
/// Reference big-endian positional representation, from the integer's bits (independent of the crate)
pub fn ref_decompose(m: &Fr, bits: u8) -> Vec<u16> {
    let n = chunks_for(bits);
    let limbs = m.into_bigint().0;
    let bit = |k: usize| -> u16 {
        if k / 64 < limbs.len() { ((limbs[k / 64] >> (k % 64)) & 1) as u16 } else { 0 }
    };
    (0..n)
        .map(|i| {
            let lo = (n - 1 - i) * bits as usize;
            (0..bits as usize).fold(0u16, |acc, j| acc | (bit(lo + j) << j))
        })
        .collect()
}
/// Positional value modulo the field order
pub fn ref_compose(ch: &[u16], bits: u8) -> Fr {
    let base = small(1u64 << bits);
    ch.iter().fold(Fr::zero(), |acc, c| acc * base + small(*c as u64))
}

/// Public parameters with known trapdoors
#[derive(Clone)]
pub struct World {
    pub gens: EncryptionGens<E>,
    pub a: Vec<Fr>,
    pub delta: Fr,
    pub gamma: Fr,
    pub g_i: Vec<G1Affine>,
    pub delta_g: G1Affine,
    pub gamma_g: G1Affine,
}
impl World {
    pub fn new(rng: &mut StdRng, n: usize) -> Self {
        let gens = EncryptionGens { G: G1Affine::rand(rng), H: G2Affine::rand(rng) };
        Self::with_gens(rng, n, gens)
    }
    pub fn with_gens(rng: &mut StdRng, n: usize, gens: EncryptionGens<E>) -> Self {
        let a: Vec<Fr> = (0..n).map(|_| nz(rng)).collect();
        let (delta, gamma) = (nz(rng), nz(rng));
        Self::with_exponents(gens, a, delta, gamma)
    }
    /// A quarter of these have equal, opposite or otherwise related generators
    pub fn mixed(rng: &mut StdRng, n: usize) -> Self {
        if rng.gen_range(0..4) > 0 { Self::new(rng, n) } else { Self::related(rng, n) }
    }
    /// Generators that are equal to, opposite to or otherwise related with others of them, G, delta or gamma
    pub fn related(rng: &mut StdRng, n: usize) -> Self {
        let gens = EncryptionGens { G: G1Affine::rand(rng), H: G2Affine::rand(rng) };
        let (mut delta, mut gamma) = (nz(rng), nz(rng));
        let mut a: Vec<Fr> = vec![];
        let first = rng.gen_range(0..4);
        while a.len() < n {
            let from = match rng.gen_range(0..10) { 0..=6 if !a.is_empty() => a[a.len() - 1], 7 | 8 if !a.is_empty() => a[rng.gen_range(0..a.len())], _ => match first { 0 => Fr::one(), 1 => delta, 2 => gamma, _ => nz(rng) } };
            let x = match rng.gen_range(0..3) { 0 => from, _ => related(rng, &from) };
            if !x.is_zero() { a.push(x); }
        }
        if rng.gen_range(0..4) == 0 { let x = if rng.gen_bool(0.5) { delta } else { a[0] }; let x = related(rng, &x); if !x.is_zero() { gamma = x; } }
        if rng.gen_range(0..4) == 0 { let x = if rng.gen_bool(0.5) { gamma } else { a[n - 1] }; let x = related(rng, &x); if !x.is_zero() { delta = x; } }
        Self::with_exponents(gens, a, delta, gamma)
    }
    pub fn with_exponents(gens: EncryptionGens<E>, a: Vec<Fr>, delta: Fr, gamma: Fr) -> Self {
        let g_i = a.iter().map(|x| mul1(gens.G, x).into_affine()).collect();
        World {
            delta_g: mul1(gens.G, &delta).into_affine(),
            gamma_g: mul1(gens.G, &gamma).into_affine(),
            gens,
            a,
            delta,
            gamma,
            g_i,
        }
    }
    pub fn n(&self) -> usize {
        self.a.len()
    }
    pub fn g(&self, x: &Fr) -> G1Affine {
        mul1(self.gens.G, x).into_affine()
    }
    pub fn h(&self, x: &Fr) -> G2Affine {
        mul2(self.gens.H, x).into_affine()
    }
    /// A SNARK verification key whose input generators are this world's g_i (for the `..._given_snark_vk` entry points)
    pub fn fake_vk(&self, rng: &mut StdRng) -> Vk {
        let mut gabc = vec![G1Affine::rand(rng)];
        gabc.extend_from_slice(&self.g_i);
        Vk {
            alpha_g1: G1Affine::rand(rng),
            beta_g2: G2Affine::rand(rng),
            gamma_g2: G2Affine::rand(rng),
            delta_g2: G2Affine::rand(rng),
            gamma_abc_g1: gabc,
        }
    }
}

pub fn nz(rng: &mut StdRng) -> Fr {
    loop {
        let x = Fr::rand(rng);
        if !x.is_zero() {
            return x;
        }
    }
}

/// Scalars with structure: single bits, one limb only, cleared limbs, the ends of the field
pub fn odd_scalar(rng: &mut StdRng) -> Fr {
    let k = rng.gen_range(0..4usize);
    let limbs = |keep: &dyn Fn(usize) -> bool, rng: &mut StdRng| -> Fr {
        let mut b = Fr::rand(rng).into_bigint();
        for (i, l) in b.0.iter_mut().enumerate() { if !keep(i) { *l = 0; } }
        Fr::from_bigint(b).unwrap_or(Fr::one())
    };
    match rng.gen_range(0..9) {
        0 => small(2).pow([rng.gen_range(0..255u64)]),
        1 => -small(2).pow([rng.gen_range(0..255u64)]),
        2 => limbs(&|i| i == k, rng),
        3 => limbs(&|i| i >= k, rng),
        4 => limbs(&|i| i <= k, rng),
        5 => -small(rng.gen_range(1..5)),
        6 => small(rng.gen_range(0..5)),
        7 => small(rng.next_u64()),
        _ => small(2).pow([64 * k as u64]),
    }
}
/// A scalar related to the one before it: equal, opposite, next, the same but for one limb or one bit, shifted
pub fn related(rng: &mut StdRng, x: &Fr) -> Fr {
    let k = rng.gen_range(0..4usize);
    match rng.gen_range(0..10) {
        0 | 1 => *x,
        2 => -*x,
        3 => *x + Fr::one(),
        4 => *x + small(2).pow([64 * k as u64]),
        5 => { let mut b = x.into_bigint(); b.0[k] = rng.next_u64() >> 2; Fr::from_bigint(b).unwrap_or(*x) }
        6 => { let mut b = x.into_bigint(); b.0[k] ^= 1 << rng.gen_range(0..62); Fr::from_bigint(b).unwrap_or(*x) }
        7 => x.double(),
        8 => { let mut b = x.into_bigint(); b.0.swap(k, (k + 1) % 3); Fr::from_bigint(b).unwrap_or(*x) }
        _ => Fr::rand(rng),
    }
}
/// Non-zero, mostly random, sometimes structured
pub fn nzx(rng: &mut StdRng) -> Fr {
    if rng.gen_range(0..3) > 0 { return nz(rng); }
    loop {
        let x = odd_scalar(rng);
        if !x.is_zero() { return x; }
    }
}
/// Numbers of chunks: mostly small, sometimes around powers of two, rarely as many as a key can have
pub fn some_n(rng: &mut StdRng) -> usize {
    match rng.gen_range(0..40) {
        0 | 1 => [8usize, 15, 16, 17][rng.gen_range(0..4)],
        2 => [31usize, 32, 33, 48][rng.gen_range(0..4)],
        3 => if rng.gen_bool(0.7) { [63usize, 64, 65][rng.gen_range(0..3)] } else { [127usize, 128, 129, 200, 254, 255][rng.gen_range(0..6)] },
        _ => rng.gen_range(1..6),
    }
}
/// A dealer's secrets
#[derive(Clone)]
pub struct Secrets {
    pub s: Vec<Fr>,
    pub t: Vec<Fr>,
    pub v: Vec<Fr>,
    pub rho: Fr,
}
impl Secrets {
    pub fn new(rng: &mut StdRng, n: usize) -> Self {
        Secrets {
            s: (0..n).map(|_| nz(rng)).collect(),
            t: (0..=n).map(|_| nz(rng)).collect(),
            v: (0..n).map(|_| nz(rng)).collect(),
            rho: nz(rng),
        }
    }
    pub fn p1(&self) -> Fr {
        self.t[0] + self.s.iter().zip(&self.t[1..]).map(|(s, t)| *s * t).sum::<Fr>()
    }
    pub fn sum_s(&self) -> Fr {
        self.s.iter().sum()
    }
    pub fn ek(&self, w: &World) -> EncryptionKey<E> {
        EncryptionKey {
            X_0: w.delta_g,
            X: self.s.iter().map(|s| w.g(&(w.delta * s))).collect(),
            Y: (0..self.s.len()).map(|i| w.g(&(w.a[i] * self.t[i + 1]))).collect(),
            Z: self.t.iter().map(|t| w.h(t)).collect(),
            P_1: w.g(&(w.delta * self.p1())),
            P_2: w.g(&(w.gamma * (Fr::one() + self.sum_s()))),
        }
    }
    /// Secrets with structure: zero, small, equal and top-of-field entries
    pub fn odd(rng: &mut StdRng, n: usize) -> Self {
        let mut s = Secrets::new(rng, n);
        for x in s.s.iter_mut().chain(s.t.iter_mut()) { if rng.gen_bool(0.4) { *x = odd_scalar(rng); } }
        for x in s.v.iter_mut() { if rng.gen_bool(0.4) { *x = nzx(rng); } }
        if rng.gen_bool(0.3) { let i = rng.gen_range(0..n); let j = rng.gen_range(0..n); s.s[i] = s.s[j]; s.v[i] = s.v[j]; s.t[i + 1] = s.t[j + 1]; }
        if rng.gen_bool(0.4) { s.rho = nzx(rng); }
        // secrets that cancel: their sum (or one plus it), the sum of the verification secrets, or P_1
        if rng.gen_bool(0.3) {
            let sum: Fr = s.s.iter().sum();
            match rng.gen_range(0..4) {
                0 => s.s[0] -= sum,
                1 => s.s[0] -= sum + Fr::one(),
                2 => { let x: Fr = s.t.iter().sum(); s.t[n] -= x; }
                _ => { let x = s.p1(); s.t[0] -= x; }
            }
        }
        s
    }
    pub fn dk(&self, w: &World) -> DecryptionKey<E> {
        DecryptionKey {
            V_0: w.h(&self.rho),
            V_1: self.s.iter().zip(&self.v).map(|(s, v)| w.h(&(*s * v))).collect(),
            V_2: self.v.iter().map(|v| w.h(&(self.rho * v))).collect(),
        }
    }
    pub fn sk(&self) -> SecretKey<Fr> {
        SecretKey(self.rho)
    }
}

/// Messages at the edges of the field and of the chunk structure
pub fn edge_messages(bits: u8) -> Vec<Fr> {
    let mut v = vec![Fr::zero(), Fr::one(), -Fr::one(), -small(2), small(2)];
    let half = (-Fr::one()) / small(2);
    v.push(half);
    v.push(half + Fr::one());
    let n = chunks_for(bits);
    let base = small(1 << bits);
    // one chunk at its maximum, one chunk at one, at a few positions; everything at the maximum below the top
    for i in [0usize, 1, 2, n / 2, n - 3, n - 2] {
        let p = base.pow([i as u64]);
        v.push(p);
        v.push(p * (base - Fr::one()));
        v.push(p - Fr::one());
    }
    v.push(base.pow([(n - 1) as u64]) - Fr::one());
    for k in [31u32, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 247, 248, 253, 254] {
        let p = small(2).pow([k as u64]);
        v.push(p);
        v.push(p - Fr::one());
        v.push(-p);
    }
    v
}
pub fn random_message(rng: &mut StdRng, bits: u8) -> Fr {
    match rng.gen_range(0..6) {
        0 => {
            // sparse chunks
            let n = chunks_for(bits);
            let mut ch = vec![0u16; n];
            for _ in 0..rng.gen_range(1..4) {
                let i = rng.gen_range(1..n);
                ch[i] = edge_chunk(rng, bits);
            }
            ref_compose(&ch, bits)
        }
        1 => {
            // edge chunks everywhere
            let n = chunks_for(bits);
            let mut ch: Vec<u16> = (0..n).map(|_| edge_chunk(rng, bits)).collect();
            ch[0] = 0;
            ref_compose(&ch, bits)
        }
        2 => small(rng.next_u64() >> rng.gen_range(0..64)),
        3 => -small(rng.next_u64() >> rng.gen_range(0..64)),
        _ => Fr::rand(rng),
    }
}
pub fn max_chunk(bits: u8) -> u16 {
    ((1u32 << bits) - 1) as u16
}
pub fn edge_chunk(rng: &mut StdRng, bits: u8) -> u16 {
    let max = max_chunk(bits);
    match rng.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max - 1,
        4 => (max >> 1) + 1,
        5 => max >> 1,
        _ => (rng.next_u32() as u16) & max,
    }
}
/// A value at or beside a multiple of a power of two, or any
pub fn near_chunk(rng: &mut StdRng, bits: u8) -> u16 {
    let max = max_chunk(bits) as i64;
    let any = (rng.next_u32() as u16 as i64) & max;
    let j = rng.gen_range(0..bits);
    ((any >> j << j) + rng.gen_range(-2..=2)).clamp(0, max) as u16
}
pub fn rand_chunks(rng: &mut StdRng, n: usize, bits: u8) -> Vec<u16> {
    (0..n).map(|_| edge_chunk(rng, bits)).collect()
}

/// The ciphertext as the scheme defines it, from the group elements of the key
pub fn ref_ciphertext(ek: &EncryptionKey<E>, g_i: &[G1Affine], ch: &[u16], r: &Fr) -> Ct {
    let mut psi = mul1(ek.P_1, r);
    let mut enc = vec![];
    for (i, c) in ch.iter().enumerate() {
        let m = small(*c as u64);
        enc.push((mul1(ek.X[i], r) + mul1(g_i[i], &m)).into_affine());
        psi += mul1(ek.Y[i], &m);
    }
    Ct { X_r: mul1(ek.X_0, r).into_affine(), enc_chunks: enc, commitment: psi.into_affine() }
}
pub fn ct_vec(ct: &Ct) -> Vec<G1Affine> {
    let mut v = vec![ct.X_r];
    v.extend_from_slice(&ct.enc_chunks);
    v.push(ct.commitment);
    v
}
pub fn vec_ct(v: &[G1Affine]) -> Ct {
    Ct { X_r: v[0], enc_chunks: v[1..v.len() - 1].to_vec(), commitment: v[v.len() - 1] }
}
pub fn pair(a: impl Into<G1Affine>, b: impl Into<G2Affine>) -> PairingOutput<E> {
    let (a, b): (G1Affine, G2Affine) = (a.into(), b.into());
    E::pairing(a, b)
}
/// If `z` is a small non-negative integer <= max, that integer
pub fn small_value(z: &Fr, max: u64) -> Option<u64> {
    let b = z.into_bigint();
    if b.0[1] == 0 && b.0[2] == 0 && b.0[3] == 0 && b.0[0] <= max { Some(b.0[0]) } else { None }
}
pub fn permutation(rng: &mut StdRng, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        p.swap(i, rng.gen_range(0..=i));
    }
    p
}

/// A group of parties with the crate's own distributed key generation
pub struct Group_ {
    pub sks: Vec<SecretKeyST<E>>,
    pub partials: Vec<FEncryptionKeyPartial<E>>,
    pub combined: FEncryptionKeyPartial<E>,
    pub shares: Vec<P1share<E>>,
    pub ek: EncryptionKey<E>,
}
pub fn make_group(rng: &mut StdRng, w: &World, bits: u8, parties: usize) -> Result<Group_, String> {
    make_group_with(rng, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g, bits, parties)
}
pub fn make_group_with(
    rng: &mut StdRng,
    gens: &EncryptionGens<E>,
    g_i: &[G1Affine],
    dg: &G1Affine,
    gg: &G1Affine,
    bits: u8,
    parties: usize,
) -> Result<Group_, String> {
    let mut sks = vec![];
    let mut partials = vec![];
    for _ in 0..parties {
        let (sk, p) = crate::okr!("partial key generation", FkeygenPartial(rng, bits, gens, g_i, dg, gg));
        sks.push(sk);
        partials.push(p);
    }
    let combined = combineEKs(gg, &partials);
    let shares: Vec<_> = sks.iter().map(|sk| genP1share(&combined, sk)).collect();
    let p1 = combineP1share(&shares);
    let ek = keygenFinal(&combined, &p1);
    Ok(Group_ { sks, partials, combined, shares, ek })
}
#[macro_export]
macro_rules! okr {
    ($what:expr, $e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return Err(format!("{} returned an error: {:?}", $what, e)),
        }
    };
}
impl Group_ {
    pub fn sums(&self) -> (Vec<Fr>, Vec<Fr>) {
        let n = self.sks[0].s.len();
        let s = (0..n).map(|i| self.sks.iter().map(|k| k.s[i]).sum()).collect();
        let t = (0..=n).map(|i| self.sks.iter().map(|k| k.t[i]).sum()).collect();
        (s, t)
    }
}
/// Shares of all parties, folded in the given order
pub fn reencrypt(
    rng: &mut StdRng,
    w: &EncryptionGens<E>,
    ct: &[G1Affine],
    ekd: &FEncryptionKeyDest<E>,
    sks: &[&SecretKeyST<E>],
) -> Result<Vec<G1Affine>, String> {
    let n = ct.len() - 2;
    let mut acc: Option<(Vec<G1Affine>, G1Affine)> = None;
    for sk in sks {
        let (wv, gr) = crate::okr!("re_encrypt_share", Enc::re_encrypt_share(rng, w, &ct[0], &ct[1..n + 1], ekd, sk));
        acc = Some(match acc {
            None => (wv, gr),
            Some((w0, g0)) => crate::okr!("combine_re_encrypt_share", Enc::combine_re_encrypt_share(&g0, &gr, &w0, &wv)),
        });
    }
    let (wc, grc) = acc.ok_or("no shares")?;
    Ok(crate::okr!("combine_ct_with_w", Enc::combine_ct_with_w(w, &ct[1..n + 1], &grc, &wc)))
}
