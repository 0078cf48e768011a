//! C11 range circuit, C12 chunk codec, C13 chunked commitment.
use crate::ctx::*;
use crate::model::*;
use crate::{call, ensure, must_err, ok};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisMode};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::setup::ChunkedCommitmentGens;
use dist_saver::utils::{chunks_count, compose, decompose};

fn synth(bits: u8, num: u8, vals: Option<Vec<Fr>>, public: bool) -> Result<ConstraintSystemRef<Fr>, String> {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    if vals.is_none() { cs.set_mode(SynthesisMode::Setup); }
    ok!("generate_constraints", BitsizeCheckCircuit::new(bits, Some(num), vals, public).generate_constraints(cs.clone()));
    cs.finalize();
    Ok(cs)
}
type Shape = (usize, usize, usize, u64);
fn shape(cs: &ConstraintSystemRef<Fr>) -> Result<Shape, String> {
    let m = cs.to_matrices().ok_or("no matrices")?;
    let hash = |m: &Vec<Vec<(Fr, usize)>>| h64(&m.iter().map(|r| r.iter().map(|(f, i)| (f.into_bigint().0, *i)).collect::<Vec<_>>()).collect::<Vec<_>>());
    Ok((cs.num_constraints(), cs.num_instance_variables(), cs.num_witness_variables(), h64(&(hash(&m.a), hash(&m.b), hash(&m.c)))))
}
fn fits(v: &Fr, bits: u8) -> bool {
    v.into_bigint().num_bits() <= bits as u32
}
fn pick_value(rng: &mut StdRng, bits: u8) -> Fr {
    let p2 = |k: u64| small(2).pow([k]);
    let b = bits as u64;
    match rng.gen_range(0..14) {
        0 => Fr::zero(),
        1 => p2(b) - Fr::one(),
        2 => p2(b),
        3 => p2(b) + Fr::one(),
        4 => -Fr::one(),
        5 => p2(rng.gen_range(0..254)),
        6 => p2(rng.gen_range(0..254)) + p2(rng.gen_range(0..254)),
        7 => { let k = rng.gen_range(b.min(253)..254); p2(k) + p2((k + 1).min(253)) }
        8 => p2(254) ,
        9 => p2(254) + p2(rng.gen_range(0..200)),
        10 => Fr::rand(rng),
        11 => { let k = b.saturating_sub(1); p2(k) }
        12 => p2(b + 1),
        _ => { // random value of at most b bits
            let mut v = Fr::zero();
            for _ in 0..bits.min(254) { v = v.double() + small(rng.gen_range(0..2)); }
            v
        }
    }
}
pub fn c11(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation synthesises the circuit for one bit size, number of values and visibility, compares satisfiability with the integer comparison, the shape with that of the blank circuit, the position of the values, and for out-of-range values tries altered assignments; distinct_nontrivial counts distinct (bits, number, visibility, which values are out of range)");
    ctx.cases("satisfiable", ctx.n(1500, 30000), |c| {
        let bits: u8 = match c.idx % 5 { 0 => 4, 1 => 8, 2 => 16, 3 => (c.idx / 5 % 255) as u8 + 1, _ => c.rng.gen_range(1..=255) };
        let num = if c.idx % 29 == 3 { [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255][(c.idx / 29) as usize % 14] } else { match c.idx % 7 { 0 => 2, 1 => 3, 2 => c.rng.gen_range(1..12), _ => 1 } };
        let public = c.idx % 2 == 0;
        let mut vals: Vec<Fr> = (0..num).map(|_| pick_value(&mut c.rng, bits)).collect();
        if num > 1 && c.idx % 3 != 0 {
            // exactly one value out of range, anywhere
            for v in vals.iter_mut() { while !fits(v, bits) { *v = small(c.rng.next_u64() & ((1u64 << bits.min(63)) - 1)); } }
            if bits < 254 && c.idx % 3 == 1 {
                let i = c.rng.gen_range(0..num);
                let mut tries = 0;
                while fits(&vals[i], bits) && tries < 100 { vals[i] = pick_value(&mut c.rng, bits); tries += 1; }
            }
        }
        // values that cancel each other, in themselves or in their parts beyond the allowed bits
        let (num, vals) = match c.idx % 11 {
            5 if bits <= 7 || c.idx % 2 == 0 => {
                let bits = bits.min(7) as u64;
                let k = small(2).pow([bits]);
                let mut v = vec![-Fr::one(); 1 << bits];
                v.push(k);
                let i = c.rng.gen_range(0..v.len()); let j = v.len() - 1; v.swap(i, j);
                (v.len(), v)
            }
            7 => {
                let x = pick_value(&mut c.rng, bits);
                let mut v = vec![x, -x, Fr::zero()];
                if c.rng.gen() { let k = small(c.rng.gen_range(0..1 << bits.min(15))); v[0] += k; }
                if c.rng.gen() { let y = Fr::rand(&mut c.rng); v[2] -= y; v[1] += y; }
                (3, v)
            }
            _ => (num, vals),
        };
        let bits = if c.idx % 11 == 5 { bits.min(7) } else { bits };
        let want = vals.iter().all(|v| fits(v, bits));
        let cs = synth(bits, num as u8, Some(vals.clone()), public)?;
        let got = call!("is_satisfied", cs.is_satisfied().unwrap());
        let desc = || format!("{bits}-bit circuit for {:?} ({})", vals.iter().map(|v| v.to_string()).collect::<Vec<_>>(), if public { "public" } else { "private" });
        ensure!(got == want, "{}: satisfied = {got}, in range = {want}", desc());
        c.count(if got { "satisfied" } else { "unsatisfied" }, 1);
        c.seen((bits, num, public, vals.iter().map(|v| fits(v, bits)).collect::<Vec<_>>()));
        // values stand first, in order
        let (inst, wit) = { let r = cs.borrow().unwrap(); (r.instance_assignment.clone(), r.witness_assignment.clone()) };
        if public {
            ensure!(inst.len() == num + 1 && inst[0].is_one() && inst[1..] == vals[..], "{}: public inputs are not the values in order", desc());
        } else {
            ensure!(inst.len() == 1 && wit.len() >= num && wit[..num] == vals[..], "{}: first private variables are not the values in order", desc());
        }
        // altered assignments
        if !want && c.idx % 2 == 1 {
            let first = if public { 0 } else { num };
            let total = wit.len();
            for k in 0..24 {
                let mut w = wit.clone();
                match k {
                    0 => for x in w[first..].iter_mut() { *x = Fr::zero() },
                    1 => for x in w[first..].iter_mut() { if x.is_one() { *x = Fr::zero() } },
                    2 => for x in w[first..].iter_mut() { *x = Fr::one() },
                    3 | 4 => {
                        // bits beyond the allowed size cleared (and the disjunctions after them)
                        let per = (total - first) / num;
                        for v in 0..num { for j in bits as usize..per { w[first + v * per + j] = Fr::zero(); } }
                        if k == 4 { for v in 0..num { w[first + v * per] = vals[v]; } }
                    }
                    5 => {
                        // only the disjunction outputs cleared
                        let per = (total - first) / num;
                        for v in 0..num { for j in 255.min(per)..per { w[first + v * per + j] = Fr::zero(); } }
                    }
                    6 => {
                        // a single non-binary digit holding the whole value
                        let per = (total - first) / num;
                        for v in 0..num { for j in 1..per { w[first + v * per + j] = Fr::zero(); } w[first + v * per] = vals[v]; }
                    }
                    7 => {
                        // bits of value + modulus
                        let per = (total - first) / num;
                        for v in 0..num {
                            let mut b = vals[v].into_bigint();
                            if b.add_with_carry(&Fr::MODULUS) { continue; }
                            for j in 0..255.min(per) { w[first + v * per + j] = if b.get_bit(j) { Fr::one() } else { Fr::zero() }; }
                        }
                    }
                    8 => {
                        let per = (total - first) / num;
                        for v in 0..num { for j in 0..per { if j >= 255 { w[first + v * per + j] = Fr::zero(); } } }
                        let i = c.rng.gen_range(first..total); w[i] = Fr::one() - w[i];
                    }
                    _ => for _ in 0..c.rng.gen_range(1..4) {
                        let i = c.rng.gen_range(first..total.max(first + 1));
                        w[i] = match c.rng.gen_range(0..4) { 0 => Fr::zero(), 1 => Fr::one(), 2 => Fr::one() - w[i], _ => Fr::rand(&mut c.rng) };
                    },
                }
                if w == wit { continue; }
                cs.borrow_mut().unwrap().witness_assignment = w;
                // cached values of linear combinations refer to the old assignment
                let sat = satisfied_fresh(&cs)?;
                ensure!(!sat, "{}: altered assignment {k} satisfies the circuit", desc());
                c.count("altered_assignments", 1);
            }
            // a search for assignments of the private variables that repairs violated constraints one at a time
            if num <= 3 {
                let sys = Sys::new(&cs, first)?;
                for k in 0..4 {
                    let mut w = wit.clone();
                    let per = (total - first) / num;
                    match k {
                        0 => {}
                        1 => for v in 0..num { for j in bits as usize..per { w[first + v * per + j] = Fr::zero(); } },
                        2 => for x in w[first..].iter_mut() { *x = Fr::zero() },
                        _ => for v in 0..num { for j in 255.min(per)..per { w[first + v * per + j] = Fr::zero(); } },
                    }
                    let steps = sys.walk(&mut c.rng, &mut w, 24);
                    ensure!(sys.violated(&w).len() > 0, "{}: another assignment of the private variables satisfies the circuit (found in {steps} repairs)", desc());
                    c.count("repair_steps", steps as u64);
                }
                c.count("repair_searches", 4);
            }
        }
        c.sample(|| desc() + if got { " satisfied" } else { " not satisfied" });
        Ok(())
    });
    ctx.cases("shape", ctx.n(260, 2500), |c| {
        let bits: u8 = match c.idx % 4 { 0 => [4, 8, 16][(c.idx / 4) as usize % 3], _ => c.rng.gen_range(1..=255) };
        let num = if c.idx % 8 == 0 { chunks_for(bits) } else if c.idx % 16 == 5 { c.rng.gen_range(7..64) } else { c.rng.gen_range(1..7) };
        let public = c.idx % 2 == 0;
        let blank = synth(bits, num as u8, None, public)?;
        let sb = shape(&blank)?;
        for k in 0..6 {
            let mut vals: Vec<Fr> = (0..num).map(|_| match k { 0 => Fr::zero(), 1 => pick_value(&mut c.rng, bits), 2 => Fr::one(), 3 => -Fr::one(), _ => Fr::rand(&mut c.rng) }).collect();
            // all values equal, or two of them
            if k == 4 { let v = vals[0]; for x in vals.iter_mut() { *x = v; } }
            if k == 5 { let (i, j) = (c.rng.gen_range(0..num), c.rng.gen_range(0..num)); vals[i] = vals[j]; }
            let s = shape(&synth(bits, num as u8, Some(vals), public)?)?;
            ensure!(s == sb, "{bits}-bit circuit for {num} values ({public}): shape {s:?} with values, {sb:?} without");
            c.count("shapes", 1);
        }
        let want_inst = if public { num + 1 } else { 1 };
        ensure!(sb.1 == want_inst, "{bits}-bit circuit for {num} values has {} public variables", sb.1);
        c.seen((bits, num, public, "shape"));
        c.sample(|| format!("{bits} bits, {num} values, public {public}: {} constraints, {} public, {} private", sb.0, sb.1, sb.2));
        Ok(())
    });
    // many values, one of them out of range
    ctx.cases("positions", ctx.n(150, 3000), |c| {
        let bits: u8 = match c.idx % 3 { 0 => [4, 8, 16][(c.idx / 3) as usize % 3], _ => c.rng.gen_range(1..=250) };
        let num = match (c.idx / 4) % 4 { 0 => 255, 1 => c.rng.gen_range(128..=255), 2 => c.rng.gen_range(200..=255), _ => c.rng.gen_range(24..=255) };
        let public = c.idx % 2 == 0;
        let max = small(2).pow([bits as u64]) - Fr::one();
        let mut vals: Vec<Fr> = (0..num).map(|_| match c.rng.gen_range(0..3) { 0 => Fr::zero(), 1 => max, _ => small(c.rng.next_u64() & ((1u64 << bits.min(63)) - 1)) }).collect();
        let at = match c.idx / 2 % 4 { 0 => num - 1, 1 => num - 1 - c.rng.gen_range(0..num.min(55)), _ => c.rng.gen_range(0..num) };
        if c.idx % 11 != 10 { vals[at] = if c.rng.gen() { max + Fr::one() } else { -Fr::one() }; }
        let want = vals.iter().all(|v| fits(v, bits));
        let cs = synth(bits, num as u8, Some(vals), public)?;
        let got = call!("is_satisfied", cs.is_satisfied().unwrap());
        ensure!(got == want, "{bits}-bit circuit for {num} values ({}), value {at} {}: satisfied = {got}", if public { "public" } else { "private" }, if want { "in range" } else { "out of range" });
        c.count("positions", 1);
        c.seen((bits, num, public, at, "position"));
        Ok(())
    });
    ctx.cases("default_count", 255, |c| {
        let bits = c.idx as u8 + 1;
        let x = call!("BitsizeCheckCircuit::new", BitsizeCheckCircuit::<Fr>::new(bits, None, None, true));
        ensure!(x.num_values as usize == chunks_for(bits) && x.required_bit_size == bits, "circuit for {bits} bits defaults to {} values", x.num_values);
        c.count("defaults", 1);
        Ok(())
    });
    for k in ["satisfied", "unsatisfied", "altered_assignments", "shapes", "repair_searches"] { ctx.require(k, 200); }
    ctx.require("positions", 10);
    Ok(())
}
/// The constraints with the public assignment fixed; private variables from `first` on may be chosen freely
struct Sys {
    rows: Vec<[Vec<(Fr, usize)>; 3]>,
    inst: Vec<Fr>,
    first: usize,
    occurs: Vec<Vec<usize>>,
}
impl Sys {
    fn new(cs: &ConstraintSystemRef<Fr>, first: usize) -> Result<Self, String> {
        let m = cs.to_matrices().ok_or("no matrices")?;
        let r = cs.borrow().unwrap();
        let inst = r.instance_assignment.clone();
        let mut occurs = vec![vec![]; r.witness_assignment.len()];
        let rows: Vec<[Vec<(Fr, usize)>; 3]> = (0..m.a.len()).map(|i| [m.a[i].clone(), m.b[i].clone(), m.c[i].clone()]).collect();
        for (i, r) in rows.iter().enumerate() {
            for (_, v) in r.iter().flatten() { if *v >= inst.len() { let o: &mut Vec<usize> = &mut occurs[*v - inst.len()]; if o.last() != Some(&i) { o.push(i); } } }
        }
        Ok(Sys { rows, inst, first, occurs })
    }
    fn val(&self, row: &[(Fr, usize)], w: &[Fr]) -> Fr {
        row.iter().map(|(f, i)| *f * if *i < self.inst.len() { self.inst[*i] } else { w[*i - self.inst.len()] }).sum()
    }
    fn holds(&self, i: usize, w: &[Fr]) -> bool {
        let r = &self.rows[i];
        self.val(&r[0], w) * self.val(&r[1], w) == self.val(&r[2], w)
    }
    fn violated(&self, w: &[Fr]) -> Vec<usize> {
        (0..self.rows.len()).filter(|i| !self.holds(*i, w)).collect()
    }
    /// Values of private variable `x` for which constraint `i` holds
    fn solve(&self, i: usize, x: usize, w: &[Fr]) -> Option<Fr> {
        let r = &self.rows[i];
        let co = |row: &[(Fr, usize)]| row.iter().filter(|(_, v)| *v == x + self.inst.len()).map(|(f, _)| *f).sum::<Fr>();
        let (a, b, c) = (co(&r[0]), co(&r[1]), co(&r[2]));
        let (va, vb, vc) = (self.val(&r[0], w) - a * w[x], self.val(&r[1], w) - b * w[x], self.val(&r[2], w) - c * w[x]);
        // (va + a x)(vb + b x) = vc + c x
        let q = a * b;
        let l = a * vb + b * va - c;
        let k = va * vb - vc;
        if q.is_zero() { return if l.is_zero() { None } else { Some(-k / l) }; }
        let disc = (l * l - q * k * small(4)).sqrt()?;
        let x1 = (disc - l) / q.double();
        let x2 = (-disc - l) / q.double();
        Some(if x1 == w[x] { x2 } else { x1 })
    }
    fn walk(&self, rng: &mut StdRng, w: &mut Vec<Fr>, steps: usize) -> usize {
        let mut last = usize::MAX;
        for s in 0..steps {
            let v = self.violated(w);
            if v.is_empty() { return s; }
            let i = v[rng.gen_range(0..v.len())];
            let mut vars: Vec<usize> = self.rows[i].iter().flatten().filter(|(_, v)| *v >= self.inst.len() + self.first).map(|(_, v)| v - self.inst.len()).collect();
            vars.sort(); vars.dedup();
            let mut best: Option<(i64, usize, Fr)> = None;
            for x in vars {
                if x == last { continue; }
                let Some(nv) = self.solve(i, x, w) else { continue };
                let old = w[x];
                let before = self.occurs[x].iter().filter(|k| v.contains(k)).count() as i64;
                w[x] = nv;
                let after = self.occurs[x].iter().filter(|k| !self.holds(**k, w)).count() as i64;
                w[x] = old;
                let gain = (after - before) * 4 + rng.gen_range(0..4);
                if best.map_or(true, |b| gain < b.0) { best = Some((gain, x, nv)); }
            }
            let Some((_, x, nv)) = best else { return s };
            w[x] = nv;
            last = x;
        }
        steps
    }
}
/// Evaluates all constraints against the current assignment, from the matrices
fn satisfied_fresh(cs: &ConstraintSystemRef<Fr>) -> Result<bool, String> {
    let m = cs.to_matrices().ok_or("no matrices")?;
    let r = cs.borrow().unwrap();
    let val = |row: &Vec<(Fr, usize)>| -> Fr {
        row.iter().map(|(f, i)| *f * if *i < r.instance_assignment.len() { r.instance_assignment[*i] } else { r.witness_assignment[*i - r.instance_assignment.len()] }).sum()
    };
    Ok((0..m.a.len()).all(|i| val(&m.a[i]) * val(&m.b[i]) == val(&m.c[i])))
}

/// limb-level reference: value of chunks modulo the field, Horner in the field
fn ref_compose_f<F: PrimeField>(ch: &[u16], bits: u8) -> F {
    let base = F::from(1u64 << bits);
    ch.iter().fold(F::zero(), |a, c| a * base + F::from(*c as u64))
}
fn ref_decompose_f<F: PrimeField>(m: &F, bits: u8) -> Vec<u16> {
    let n = (F::MODULUS_BIT_SIZE as usize + bits as usize - 1) / bits as usize;
    let b = m.into_bigint();
    (0..n).map(|i| { let lo = (n - 1 - i) * bits as usize; (0..bits as usize).fold(0u16, |a, j| a | ((b.get_bit(lo + j) as u16) << j)) }).collect()
}
fn codec<F: PrimeField>(c: &mut Case, m: &F, bits: u8) -> R {
    let d = ok!("decompose", decompose(m, bits));
    let cc = call!("chunks_count", chunks_count::<F>(bits)) as usize;
    ensure!(d.len() == cc, "decompose({m}, {bits}) gives {} chunks, chunks_count says {cc}", d.len());
    ensure!(d.iter().all(|x| *x as u64 <= (1u64 << bits) - 1), "decompose({m}, {bits}) has an oversized chunk: {d:?}");
    let want = ref_decompose_f(m, bits);
    ensure!(d == want, "decompose({m}, {bits}) = {d:?}, expected {want:?}");
    let back: F = ok!("compose", compose(&d, bits));
    ensure!(back == *m, "compose(decompose({m}, {bits})) = {back}");
    c.count("roundtrips", 1);
    c.seen((bits, F::MODULUS_BIT_SIZE, &d));
    Ok(())
}
pub fn c12(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation decomposes or recomposes one value and compares with bit-level positional arithmetic, or offers one malformed chunk sequence or size; distinct_nontrivial counts distinct (size, field, chunk sequence)");
    for bits in [4u8, 8, 16] {
        let edges = edge_messages(bits);
        let edges = &edges;
        ctx.cases(&format!("field{bits}"), edges.len() as u64 + ctx.n(3000, 200000), |c| {
            let m = if (c.idx as usize) < edges.len() { edges[c.idx as usize] } else { random_message(&mut c.rng, bits) };
            codec(c, &m, bits)?;
            c.sample(|| format!("{bits} bits, {m}"));
            let q = Fq::rand(&mut c.rng);
            codec(c, &q, bits)
        });
        // every chunk value at every position
        let n = chunks_for(bits);
        let vals = if bits == 16 { ctx.n(2048, 65536) } else { 1 << bits };
        ctx.cases(&format!("grid{bits}"), vals, |c| {
            let v = if bits == 16 && vals < 65536 { if c.idx < 1536 { (c.idx as u16 / 3 * 128).wrapping_add((c.idx % 3) as u16).wrapping_sub(1) } else { c.rng.next_u32() as u16 } } else { c.idx as u16 };
            for i in 0..n {
                let mut ch = vec![0u16; n];
                ch[i] = v;
                if n > 1 && c.idx % 3 == 1 { ch[(i + 1) % n] = c.rng.next_u32() as u16 & max_chunk(bits); }
                let want = ref_compose_f::<Fr>(&ch, bits);
                let got: Fr = ok!("compose", compose(&ch, bits));
                ensure!(got == want, "compose({ch:?}, {bits}) = {got}, expected {want}");
                c.count("composed", 1);
                c.seen((bits, "c", ch));
            }
            Ok(())
        });
        // sequences of any length
        ctx.cases(&format!("length{bits}"), ctx.n(800, 20000), |c| {
            let len = match c.idx % 4 { 0 if c.idx % 80 == 76 => [255usize, 256, 257, 300, 511, 512, 1000, 1024, 4096, 65535, 65536, 65537, 70000][c.idx as usize / 80 % 13], 0 => c.idx as usize / 4 % 140, 1 => n, _ => c.rng.gen_range(0..n + 8) };
            let ch = rand_chunks(&mut c.rng, len, bits);
            if bits == 4 && len % 2 == 1 {
                must_err!(format!("compose of {len} half-byte chunks"), compose::<Fr>(&ch, bits));
                c.count("refused.length", 1);
            } else {
                let got: Fr = ok!(format!("compose of {len} chunks"), compose(&ch, bits));
                ensure!(got == ref_compose_f(&ch, bits), "compose({ch:?}, {bits}) is not the positional value");
                c.count("composed", 1);
            }
            c.seen((bits, "l", ch));
            Ok(())
        });
        // chunks outside the chunk size
        if bits < 16 {
            ctx.cases(&format!("oversized{bits}"), ctx.n(2000, 40000), |c| {
                let len = if c.idx % 3 == 0 { 2 * c.rng.gen_range(1..5) } else { n };
                let mut ch = if c.idx % 2 == 0 { vec![0; len] } else { rand_chunks(&mut c.rng, len, bits) };
                let i = match c.idx % 5 { 0 => 0, 1 => len - 1, _ => c.rng.gen_range(0..len) };
                ch[i] = match c.rng.gen_range(0..5) { 0 => 1u16 << bits, 1 => (1u16 << bits) + 1, 2 => 65535, 3 => 256, _ => c.rng.gen_range((1u32 << bits)..65536) as u16 };
                must_err!(format!("compose of {bits}-bit chunks with value {} at {i}: {ch:?}", ch[i]), compose::<Fr>(&ch, bits));
                c.count("refused.oversized", 1);
                c.seen((bits, "o", ch));
                Ok(())
            });
        }
    }
    ctx.cases("sizes", 256, |c| {
        let bits = c.idx as u8;
        if bits >= 1 {
            let cc = call!("chunks_count", chunks_count::<Fr>(bits)) as usize;
            ensure!(cc == chunks_for(bits), "chunks_count({bits}) = {cc}");
        }
        if ![4, 8, 16].contains(&bits) {
            for m in [Fr::zero(), Fr::one(), -Fr::one(), Fr::rand(&mut c.rng)] {
                must_err!(format!("decompose with size {bits}"), decompose(&m, bits));
            }
            for ch in [vec![], vec![0u16; 2], vec![0; chunks_for(bits.max(1))], vec![1, 2, 3, 4]] {
                must_err!(format!("compose of {} chunks with size {bits}", ch.len()), compose::<Fr>(&ch, bits));
            }
            c.count("refused.size", 8);
        }
        Ok(())
    });
    for k in ["roundtrips", "composed", "refused.length", "refused.oversized", "refused.size"] { ctx.require(k, 100); }
    Ok(())
}

fn comm<G: AffineRepr<ScalarField = Fr>>(c: &mut Case, name: &str) -> R {
    let rng = &mut c.rng;
    let gens = match c.idx % 5 {
        0 => ChunkedCommitmentGens::<G>::new::<blake2::Blake2b512>(&c.idx.to_le_bytes()),
        1 => { let g = G::Group::rand(rng).into_affine(); ChunkedCommitmentGens { G: g, H: g } }
        _ => ChunkedCommitmentGens::<G>::new_using_rng(rng),
    };
    let edge = edge_messages(8);
    let pickm = |rng: &mut StdRng| match rng.gen_range(0..3) { 0 => edge[rng.gen_range(0..edge.len())], _ => random_message(rng, 8) };
    let (m1, m2) = (pickm(rng), pickm(rng));
    let (r1, r2) = (if rng.gen_bool(0.15) { Fr::zero() } else { pickm(rng) }, pickm(rng));
    let direct = |m: &Fr, r: &Fr| (gens.G.into_group() * *m + gens.H.into_group() * *r).into_affine();
    let mut seen = vec![];
    for bits in [4u8, 8, 16] {
        let a = ok!("ChunkedCommitment::new", ChunkedCommitment::<G>::new(&m1, &r1, bits, &gens));
        ensure!(a.0 == direct(&m1, &r1), "{name}: chunked commitment to {m1} ({bits} bits, blinding {r1}) is not m*G + r*H");
        let ck = call!("commitment_key", ChunkedCommitment::<G>::commitment_key(&gens, bits));
        ensure!(ck == a.1, "{name}: returned key differs from commitment_key");
        check_ck(&format!("{name} {bits} bits"), &ck, &gens, bits)?;
        let b = ok!("get_commitment_given_commitment_key", ChunkedCommitment::<G>::get_commitment_given_commitment_key(&m2, &r2, bits, &ck));
        ensure!(b == direct(&m2, &r2), "{name}: commitment to {m2} ({bits} bits) with given key is not m*G + r*H");
        let s = ok!("ChunkedCommitment::new", ChunkedCommitment::<G>::new(&(m1 + m2), &(r1 + r2), bits, &gens));
        ensure!(s.0 == (a.0.into_group() + b).into_affine(), "{name}: sum of commitments is not the commitment to the sum ({bits} bits)");
        // under an arbitrary key the commitment is the inner product
        if c.idx % 3 == 0 {
            let n = chunks_for(bits);
            let key: Vec<G> = (0..=n).map(|_| G::Group::rand(&mut c.rng).into_affine()).collect();
            let x = ok!("get_commitment_given_commitment_key", ChunkedCommitment::<G>::get_commitment_given_commitment_key(&m1, &r1, bits, &key));
            let d = ref_decompose(&m1, bits);
            let mut acc = key[n].into_group() * r1;
            for i in 0..n { acc += key[i].into_group() * small(d[i] as u64); }
            ensure!(x == acc.into_affine(), "{name}: commitment under a given key is not the inner product ({bits} bits)");
        }
        seen.push(a.0);
        c.count("commitments", 3);
        c.seen((name, bits, m1.into_bigint().0, m2.into_bigint().0));
    }
    ensure!(seen[0] == seen[1] && seen[1] == seen[2], "{name}: commitments under different chunk sizes differ");
    c.sample(|| format!("{name}: messages {m1}, {m2}; blindings {r1}, {r2}"));
    Ok(())
}
/// Special messages and blindings, related to each other and over special generators
fn pairs<G: AffineRepr<ScalarField = Fr>>(c: &mut Case, name: &str) -> R {
    let bits = [4u8, 8, 16][c.idx as usize % 3];
    let g = G::Group::rand(&mut c.rng);
    let h = G::Group::rand(&mut c.rng);
    let radix = small(1u64 << bits);
    let (g, h) = match (c.idx / 3) % 12 {
        0 => (g, g),
        1 => (g, -g),
        2 => (g, g.double()),
        3 => (g, g * radix),
        4 => (g, g * radix.pow([(chunks_for(bits) - 1) as u64])),
        5 => (G::Group::zero(), h),
        6 => (g, G::Group::zero()),
        7 => (g.double(), g),
        8 => (G::Group::generator(), h),
        _ => (g, h),
    };
    let gens = ChunkedCommitmentGens::<G> { G: g.into_affine(), H: h.into_affine() };
    let (x, y) = (Fr::rand(&mut c.rng), Fr::rand(&mut c.rng));
    let ms = [Fr::zero(), Fr::one(), -Fr::one(), x, small(c.rng.next_u64() & 0xffff), odd_scalar(&mut c.rng)];
    let ck = call!("commitment_key", ChunkedCommitment::<G>::commitment_key(&gens, bits));
    check_ck(&format!("{name} {bits} bits"), &ck, &gens, bits)?;
    for m in ms {
        let rs = [Fr::zero(), Fr::one(), -Fr::one(), y, m, -m, odd_scalar(&mut c.rng), small(c.rng.gen_range(2..65536))];
        for r in rs {
            let want = (gens.G.into_group() * m + gens.H.into_group() * r).into_affine();
            let a = ok!("ChunkedCommitment::new", ChunkedCommitment::<G>::new(&m, &r, bits, &gens));
            ensure!(a.0 == want, "{name}: chunked commitment to {m} ({bits} bits, blinding {r}) is not m*G + r*H");
            ensure!(a.1 == ck, "{name}: key returned with the commitment to {m} (blinding {r}) differs from commitment_key");
            let b = ok!("get_commitment_given_commitment_key", ChunkedCommitment::<G>::get_commitment_given_commitment_key(&m, &r, bits, &ck));
            ensure!(b == want, "{name}: commitment to {m} ({bits} bits, blinding {r}) with given key is not m*G + r*H");
            c.count("pairs", 1);
        }
    }
    c.seen((name, "pairs", c.idx));
    Ok(())
}
fn check_ck<G: AffineRepr<ScalarField = Fr>>(what: &str, ck: &[G], gens: &ChunkedCommitmentGens<G>, bits: u8) -> R {
    let n = chunks_for(bits);
    ensure!(ck.len() == n + 1, "{what}: key has {} entries, expected {}", ck.len(), n + 1);
    ensure!(ck[n] == gens.H, "{what}: last key entry is not H");
    let base = small(2).pow([bits as u64]);
    let mut f = Fr::one();
    for i in (0..n).rev() {
        ensure!(ck[i] == (gens.G.into_group() * f).into_affine(), "{what}: key entry {i} is not radix^{} * G", n - 1 - i);
        f *= base;
    }
    Ok(())
}
pub fn c13(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation commits to two messages and their sum under every chunk size and compares with m*G + r*H and the key with naive multiples; distinct_nontrivial counts distinct (group, size, messages)");
    ctx.cases("g1", ctx.n(260, 6000), |c| comm::<G1Affine>(c, "G1"));
    ctx.cases("g2", ctx.n(60, 1200), |c| comm::<G2Affine>(c, "G2"));
    ctx.cases("pairs1", ctx.n(72, 1200), |c| pairs::<G1Affine>(c, "G1"));
    ctx.cases("pairs2", ctx.n(36, 300), |c| pairs::<G2Affine>(c, "G2"));
    ctx.require("pairs", 1000);
    ctx.cases("keys", 255, |c| {
        let bits = c.idx as u8 + 1;
        let gens = ChunkedCommitmentGens::<G1Affine>::new_using_rng(&mut c.rng);
        let ck = call!("commitment_key", ChunkedCommitment::<G1Affine>::commitment_key(&gens, bits));
        check_ck(&format!("{bits} bits"), &ck, &gens, bits)?;
        c.count("keys", 1);
        c.seen(("key", bits));
        Ok(())
    });
    ctx.cases("sizes", 256, |c| {
        let bits = c.idx as u8;
        if [4, 8, 16].contains(&bits) { return Ok(()); }
        let gens = ChunkedCommitmentGens::<G1Affine>::new_using_rng(&mut c.rng);
        must_err!(format!("ChunkedCommitment::new with size {bits}"), ChunkedCommitment::<G1Affine>::new(&Fr::one(), &Fr::one(), bits, &gens));
        c.count("refused", 1);
        Ok(())
    });
    ctx.require("commitments", 300);
    ctx.require("keys", 255);
    Ok(())
}
