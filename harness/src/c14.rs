//! C14 encodings, C15 generators from labels.
use crate::ctx::*;
use crate::model::*;
use crate::{call, ensure, ok};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::setup::ChunkedCommitmentGens;
use dist_saver::utils::WindowTable;
use serde_json::Value;
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind { G1, G2, Fr, Prep }
#[derive(Clone)]
struct Leaf { kind: Kind, c: Vec<u8>, u: Vec<u8>, trivial: bool }

fn bytes<T: CanonicalSerialize>(x: &T, m: Compress) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_with_mode(&mut v, m).unwrap();
    v
}
fn leaf<T: CanonicalSerialize>(kind: Kind, x: &T, trivial: bool) -> Leaf {
    Leaf { kind, c: bytes(x, Compress::Yes), u: bytes(x, Compress::No), trivial }
}
fn lg1(v: &mut Vec<Leaf>, p: &G1Affine) { v.push(leaf(Kind::G1, p, p.is_zero())) }
fn lg2(v: &mut Vec<Leaf>, p: &G2Affine) { v.push(leaf(Kind::G2, p, p.is_zero())) }
fn lfr(v: &mut Vec<Leaf>, p: &Fr) { v.push(leaf(Kind::Fr, p, p.into_bigint().num_bits() < 128)) }

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn refused_by_reference(kind: Kind, b: &[u8], m: Compress) -> bool {
    match kind {
        Kind::G1 => G1Affine::deserialize_with_mode(b, m, Validate::Yes).is_err(),
        Kind::G2 => G2Affine::deserialize_with_mode(b, m, Validate::Yes).is_err(),
        Kind::Fr => Fr::deserialize_with_mode(b, m, Validate::Yes).is_err(),
        Kind::Prep => <E as Pairing>::G2Prepared::deserialize_with_mode(b, m, Validate::Yes).is_err(),
    }
}
/// little-endian addition of a modulus; None on overflow
fn add_le(a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    let mut carry = 0u16;
    let mut o = vec![];
    for i in 0..a.len() {
        let s = a[i] as u16 + b.get(i).copied().unwrap_or(0) as u16 + carry;
        o.push(s as u8);
        carry = s >> 8;
    }
    if carry == 0 { Some(o) } else { None }
}
fn rev(v: &[u8]) -> Vec<u8> { v.iter().rev().copied().collect() }
fn p_le() -> Vec<u8> { Fq::MODULUS.to_bytes_le() }

/// Encodings of the right length that no decoder may accept, with the reason.
/// Only those the reference decoder of the single element refuses are used.
fn hostile(rng: &mut StdRng, l: &Leaf, m: Compress) -> Vec<(&'static str, Vec<u8>)> {
    let comp = m == Compress::Yes;
    let own = if comp { l.c.clone() } else { l.u.clone() };
    let mut out: Vec<(&'static str, Vec<u8>)> = vec![];
    match l.kind {
        Kind::Fr => {
            let r = Fr::MODULUS.to_bytes_le();
            if let Some(x) = add_le(&own, &r) { out.push(("field element plus the modulus", x)); }
            out.push(("the modulus", r.clone()));
            out.push(("all ones", vec![255; 32]));
            let mut t = own; t[31] |= 0x80; out.push(("top bit set", t));
        }
        Kind::G1 | Kind::G2 => {
            let g1 = l.kind == Kind::G1;
            // outside the subgroup
            let (mut sub, mut non, mut alias) = (None, None, None);
            for _ in 0..400 {
                if g1 {
                    let x = Fq::rand(rng);
                    match G1Affine::get_point_from_x_unchecked(x, rng.gen()) {
                        Some(p) if sub.is_none() && !p.is_in_correct_subgroup_assuming_on_curve() => sub = Some(bytes(&p, m)),
                        None if non.is_none() => { let mut b = rev(&bytes(&x, Compress::Yes)); b[0] |= 0x80; non = Some(b) }
                        _ => {}
                    }
                    if alias.is_none() {
                        let p = G1Affine::rand(rng);
                        if let Some(x) = add_le(&bytes(&p.x, Compress::Yes), &p_le()) {
                            if x[47] < 0x20 {
                                let mut b = rev(&x);
                                if comp { b[0] |= bytes(&p, m)[0] & 0xe0; } else { b.extend(rev(&bytes(&p.y, Compress::Yes))); }
                                alias = Some(b);
                            }
                        }
                    }
                } else {
                    let x = Fq2::rand(rng);
                    match G2Affine::get_point_from_x_unchecked(x, rng.gen()) {
                        Some(p) if sub.is_none() && !p.is_in_correct_subgroup_assuming_on_curve() => sub = Some(bytes(&p, m)),
                        None if non.is_none() => {
                            let mut b = rev(&bytes(&x.c1, Compress::Yes));
                            b.extend(rev(&bytes(&x.c0, Compress::Yes)));
                            b[0] |= 0x80;
                            non = Some(b)
                        }
                        _ => {}
                    }
                    if alias.is_none() {
                        let p = G2Affine::rand(rng);
                        let mut b = bytes(&p, m);
                        if let Some(x) = add_le(&rev(&b[48..96]), &p_le()) { b[48..96].copy_from_slice(&rev(&x)); alias = Some(b); }
                    }
                }
                if sub.is_some() && non.is_some() && alias.is_some() { break; }
            }
            if let Some(s) = sub { out.push(("a point outside the prime-order subgroup", s)); }
            if comp { if let Some(s) = non { out.push(("an x coordinate of no point", s)); } }
            if let Some(s) = alias { out.push(("a coordinate plus the modulus", s)); }
            if !comp {
                let mut t = own.clone(); let k = t.len() - 1; t[k] ^= 1; out.push(("a point off the curve", t));
                let mut t = own.clone(); let k = t.len() / 2; t[k + 3] ^= 4; out.push(("a point off the curve", t));
            }
            let mut t = own.clone(); for b in t.iter_mut().skip(1) { *b = 255; } t[0] |= 0x1f; out.push(("all ones", t));
            let mut t = own.clone(); t[0] ^= 0x80; out.push(("the other compression flag", t));
            out.push(("zeros", vec![0; own.len()]));
        }
        Kind::Prep => {
            // coefficients are base field elements after an 8-byte count
            let n = (own.len() - 9) / 48;
            for k in [0, n / 2, n - 1] {
                let o = 8 + 48 * k;
                let mut t = own.clone();
                if let Some(x) = add_le(&t[o..o + 48], &p_le()) { t[o..o + 48].copy_from_slice(&x); out.push(("a coefficient plus the modulus", t)); }
                let mut t = own.clone();
                t[o..o + 48].copy_from_slice(&[255; 48]);
                out.push(("a coefficient of all ones", t));
            }
        }
    }
    out.retain(|(_, b)| b.len() == if comp { l.c.len() } else { l.u.len() } && refused_by_reference(l.kind, b, m));
    out
}
fn json_leaves<'a>(v: &'a mut Value, out: &mut Vec<*mut Value>) {
    let is_leaf = matches!(v, Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.is_u64()));
    if is_leaf { out.push(v as *mut Value); return; }
    match v {
        Value::Array(a) => for x in a { json_leaves(x, out) },
        Value::Object(o) => for (_, x) in o.iter_mut() { json_leaves(x, out) },
        _ => {}
    }
}
fn leaf_bytes(v: &Value) -> Option<Vec<u8>> {
    v.as_array()?.iter().map(|x| x.as_u64().and_then(|x| u8::try_from(x).ok())).collect()
}
fn to_leaf(b: &[u8]) -> Value { Value::Array(b.iter().map(|x| Value::from(*x)).collect()) }

trait Stored: CanonicalSerialize + CanonicalDeserialize + serde::Serialize + serde::de::DeserializeOwned + PartialEq + Clone {}
impl<T: CanonicalSerialize + CanonicalDeserialize + serde::Serialize + serde::de::DeserializeOwned + PartialEq + Clone> Stored for T {}

/// `leaves` lists every element of the object; `blobs` the byte strings serde is to write (by default the elements)
fn check_obj<T: Stored>(c: &mut Case, name: &str, obj: &T, leaves: &dyn Fn(&T) -> Vec<Leaf>, blobs: Option<&dyn Fn(&T) -> Vec<Vec<u8>>>) -> R {
    let ls = leaves(obj);
    let modes = [Compress::Yes, Compress::No];
    let mut enc = vec![];
    for m in modes {
        let ms = if m == Compress::Yes { "compressed" } else { "uncompressed" };
        let mut b = vec![];
        ok!(format!("encoding of {name}"), obj.serialize_with_mode(&mut b, m));
        ensure!(b.len() == obj.serialized_size(m), "{name}: {} bytes written, {} announced ({ms})", b.len(), obj.serialized_size(m));
        let mut rd: &[u8] = &b;
        let back: T = ok!(format!("decoding of an encoded {name} ({ms})"), T::deserialize_with_mode(&mut rd, m, Validate::Yes));
        ensure!(back == *obj, "{name} changed by encoding and decoding ({ms})");
        ensure!(rd.is_empty(), "{name}: {} bytes left unread ({ms})", rd.len());
        let back: T = ok!(format!("unchecked decoding of an encoded {name}"), T::deserialize_with_mode(&b[..], m, Validate::No));
        ensure!(back == *obj, "{name} changed by encoding and unchecked decoding ({ms})");
        ensure!(bytes(&back, m) == b, "{name}: second encoding differs ({ms})");
        c.count("roundtrips", 2);
        enc.push(b);
    }
    // several objects one after another in one stream
    {
        let mut two = enc[0].clone();
        two.extend_from_slice(&enc[0]);
        let mut rd: &[u8] = &two;
        let a: T = ok!(format!("{name} in a stream"), T::deserialize_compressed(&mut rd));
        let b: T = ok!(format!("{name} second in a stream"), T::deserialize_compressed(&mut rd));
        ensure!(a == *obj && b == *obj, "{name} changed in a stream of two");
    }
    // and in a vector
    if enc[0].len() <= 12000 {
        let v = vec![obj.clone(), obj.clone()];
        for m in modes {
            let back = ok!(format!("decoding of an encoded vector of {name}"), Vec::<T>::deserialize_with_mode(&bytes(&v, m)[..], m, Validate::Yes));
            ensure!(back == v, "a vector of {name} changed by encoding and decoding");
        }
        c.count("roundtrips", 2);
    }
    let text = ok!(format!("serde serialisation of {name}"), serde_json::to_string(obj));
    let back: T = ok!(format!("serde deserialisation of {name}"), serde_json::from_str::<T>(&text));
    ensure!(back == *obj, "{name} changed by serde");
    let doc: Value = ok!(format!("serde value of {name}"), serde_json::to_value(obj));
    let back: T = ok!(format!("serde deserialisation of {name} from a value"), serde_json::from_value::<T>(doc.clone()));
    ensure!(back == *obj, "{name} changed by serde (value)");
    let back: T = ok!(format!("serde deserialisation of {name} from a reader"), serde_json::from_reader::<_, T>(text.as_bytes()));
    ensure!(back == *obj, "{name} changed by serde (reader)");
    c.count("roundtrips", 3);
    let mut d = doc.clone();
    let mut ptrs = vec![];
    json_leaves(&mut d, &mut ptrs);
    let mut have: Vec<Vec<u8>> = vec![];
    for p in &ptrs {
        match leaf_bytes(unsafe { &**p }) {
            Some(b) => have.push(b),
            None => return Err(format!("{name}: serde wrote an element as something else than bytes")),
        }
    }
    let mut want: Vec<Vec<u8>> = match blobs { Some(f) => f(obj), None => ls.iter().map(|l| l.c.clone()).collect() };
    have.sort();
    want.sort();
    ensure!(have == want, "{name}: serde does not write each element as its canonical compressed bytes ({} byte strings, {} elements)", have.len(), want.len());

    // a binary format, which serde treats differently from a readable one
    let bin = ok!(format!("binary serde serialisation of {name}"), bincode::serialize(obj));
    let back: T = ok!(format!("binary serde deserialisation of {name}"), bincode::deserialize::<T>(&bin));
    ensure!(back == *obj, "{name} changed by serde (binary)");
    let back: T = ok!(format!("binary serde deserialisation of {name} from a reader"), bincode::deserialize_from::<_, T>(&bin[..]));
    ensure!(back == *obj, "{name} changed by serde (binary, reader)");
    c.count("roundtrips", 2);
    for w in &want { ensure!(find(&bin, w).is_some(), "{name}: binary serde does not write each element as its canonical compressed bytes"); }
    for k in [0, bin.len() / 2, bin.len() - 1, c.rng.gen_range(0..bin.len())] {
        match guard(|| bincode::deserialize::<T>(&bin[..k]).is_ok()) {
            Err(p) => return Err(format!("binary serde decoding of {name} cut to {k} of {} bytes panicked: {p}", bin.len())),
            Ok(true) => return Err(format!("{name} cut to {k} of {} bytes was accepted through binary serde", bin.len())),
            Ok(false) => c.count("truncated.refused", 1),
        }
    }

    // hostile replacements of every element (of a sample in large objects)
    let total = ls.len();
    // objects of many elements take long to decode, so fewer experiments are made on each of them
    let heavy = enc[0].len() > 12000;
    for (k, l) in ls.iter().enumerate() {
        if heavy { if k > 0 && k + 1 < total && !c.rng.gen_bool(1.5 / total as f64) { continue; } }
        else if total > 12 && k > 1 && k + 2 < total && !c.rng.gen_bool((6.0 / total as f64).min(1.0)) { continue; }
        if l.trivial { continue; }
        for (mi, m) in modes.iter().enumerate() {
            let ms = if mi == 0 { "compressed" } else { "uncompressed" };
            let own = if mi == 0 { &l.c } else { &l.u };
            let at = match find(&enc[mi], own) { Some(a) => a, None => return Err(format!("{name}: element {k} does not occur in the encoding ({ms})")) };
            for (why, h) in hostile(&mut c.rng, l, *m) {
                if heavy && c.rng.gen_bool(0.6) { continue; }
                let mut b = enc[mi].clone();
                b[at..at + own.len()].copy_from_slice(&h);
                match guard(|| T::deserialize_with_mode(&b[..], *m, Validate::Yes).is_ok()) {
                    Err(p) => return Err(format!("decoding {name} with element {k} of {total} replaced by {why} panicked: {p}")),
                    Ok(true) => return Err(format!("{name} with element {k} of {total} ({:?}) replaced by {why} was accepted ({ms})", l.kind)),
                    Ok(false) => {}
                }
                c.count("hostile.refused", 1);
                c.seen((name.to_string(), k, mi, why));
                if !heavy && c.rng.gen_bool(0.3) {
                    // the same as one of several objects in a vector
                    let pos = c.rng.gen_range(0..3);
                    let mut v = 3u64.to_le_bytes().to_vec();
                    for i in 0..3 { v.extend_from_slice(if i == pos { &b } else { &enc[mi] }); }
                    match guard(|| Vec::<T>::deserialize_with_mode(&v[..], *m, Validate::Yes).is_ok()) {
                        Err(p) => return Err(format!("decoding a vector of {name} with element {k} of {total} of member {pos} replaced by {why} panicked: {p}")),
                        Ok(true) => return Err(format!("a vector of three {name} with element {k} of {total} ({:?}) of member {pos} replaced by {why} was accepted ({ms})", l.kind)),
                        Ok(false) => c.count("hostile.vector.refused", 1),
                    }
                }
                if mi == 1 && !heavy && why != "the other compression flag" {
                    // the same elements in the form serde does not use
                    let mut d = doc.clone();
                    let mut ptrs = vec![];
                    json_leaves(&mut d, &mut ptrs);
                    for p in ptrs {
                        let lb = leaf_bytes(unsafe { &*p }).unwrap_or_default();
                        if lb.len() > 3000 || find(&lb, &l.c).is_none() { continue; }
                        let (mut out, mut at, mut hit) = (vec![], 0, false);
                        while at < lb.len() {
                            match ls.iter().enumerate().find(|(j, x)| (*j == k || x.c != l.c) && lb[at..].starts_with(&x.c)) {
                                Some((j, x)) => { if j == k && !hit { out.extend_from_slice(&h); hit = true; } else { out.extend_from_slice(&x.u); } at += x.c.len(); }
                                None => { out.push(lb[at]); at += 1; }
                            }
                        }
                        if !hit { continue; }
                        unsafe { *p = to_leaf(&out) };
                        match guard(|| serde_json::from_value::<T>(d).is_ok()) {
                            Err(p) => return Err(format!("serde decoding of {name} with element {k} replaced by {why} in uncompressed form panicked: {p}")),
                            Ok(true) => return Err(format!("{name} with element {k} of {total} ({:?}) replaced by {why} in uncompressed form was accepted through serde", l.kind)),
                            Ok(false) => c.count("hostile.serde_uncompressed.refused", 1),
                        }
                        break;
                    }
                }
                if mi == 0 {
                    // the same through serde
                    let mut d = doc.clone();
                    let mut ptrs = vec![];
                    json_leaves(&mut d, &mut ptrs);
                    let mut done = false;
                    for p in ptrs {
                        let mut lb = leaf_bytes(unsafe { &*p }).unwrap_or_default();
                        if let Some(a) = find(&lb, own) {
                            lb[a..a + own.len()].copy_from_slice(&h);
                            unsafe { *p = to_leaf(&lb) };
                            done = true;
                            break;
                        }
                    }
                    ensure!(done, "{name}: element {k} does not occur in the serde form");
                    match guard(|| serde_json::from_value::<T>(d).is_ok()) {
                        Err(p) => return Err(format!("serde decoding of {name} with element {k} replaced by {why} panicked: {p}")),
                        Ok(true) => return Err(format!("{name} with element {k} of {total} ({:?}) replaced by {why} was accepted through serde", l.kind)),
                        Ok(false) => {}
                    }
                    c.count("hostile.serde.refused", 1);
                    let mut b = bin.clone();
                    let at = match find(&b, own) { Some(a) => a, None => return Err(format!("{name}: element {k} does not occur in the binary serde form")) };
                    b[at..at + own.len()].copy_from_slice(&h);
                    match guard(|| bincode::deserialize::<T>(&b).is_ok()) {
                        Err(p) => return Err(format!("binary serde decoding of {name} with element {k} replaced by {why} panicked: {p}")),
                        Ok(true) => return Err(format!("{name} with element {k} of {total} ({:?}) replaced by {why} was accepted through binary serde", l.kind)),
                        Ok(false) => {}
                    }
                    c.count("hostile.binary.refused", 1);
                }
            }
        }
    }
    // truncation
    for (mi, m) in modes.iter().enumerate() {
            let ms = if mi == 0 { "compressed" } else { "uncompressed" };
        let n = enc[mi].len();
        let cuts: Vec<usize> = if n <= 400 { (0..n).collect() } else if heavy { vec![0, 8, n / 2, n - 48, n - 1] } else { (0..24).map(|i| n - 1 - i).chain((0..24).map(|_| c.rng.gen_range(0..n))).chain([0, 1, 7, 8]).collect() };
        for k in cuts {
            match guard(|| T::deserialize_with_mode(&enc[mi][..k], *m, Validate::Yes).is_ok()) {
                Err(p) => return Err(format!("decoding {name} cut to {k} of {n} bytes panicked: {p}")),
                Ok(true) => return Err(format!("{name} cut to {k} of {n} bytes was accepted ({ms})")),
                Ok(false) => c.count("truncated.refused", 1),
            }
        }
    }
    // broken documents
    {
        let mut d = doc.clone();
        let mut ptrs = vec![];
        json_leaves(&mut d, &mut ptrs);
        let n = ptrs.len();
        for k in 0..n {
            if n > 8 && k > 0 && k + 1 < n && !c.rng.gen_bool(if heavy { 1.0 } else { 5.0 } / n as f64) { continue; }
            for style in 0..7 {
                if heavy && style % 3 != (k % 3) { continue; }
                let mut d = doc.clone();
                let mut ptrs = vec![];
                json_leaves(&mut d, &mut ptrs);
                let lf = unsafe { &mut *ptrs[k] };
                let mut b = leaf_bytes(lf).unwrap();
                let what = match style {
                    0 => { let cut = c.rng.gen_range(0..b.len()); b.truncate(cut); *lf = to_leaf(&b); "a truncated byte string" }
                    1 => { b.pop(); *lf = to_leaf(&b); "a byte string one byte short" }
                    2 => { let i = c.rng.gen_range(0..b.len()); lf.as_array_mut().unwrap()[i] = Value::from(256 + b[i] as u32); "a number above 255" }
                    3 => { let i = c.rng.gen_range(0..b.len()); lf.as_array_mut().unwrap()[i] = Value::from(-1); "a negative number" }
                    4 => { *lf = Value::String("00".into()); "a string" }
                    5 => { *lf = Value::Null; "null" }
                    _ => { *lf = serde_json::json!({"a": 1}); "an object" }
                };
                match guard(|| serde_json::from_value::<T>(d).is_ok()) {
                    Err(p) => return Err(format!("serde decoding of {name} with {what} panicked: {p}")),
                    Ok(true) => return Err(format!("{name} with byte string {k} of {n} replaced by {what} was accepted")),
                    Ok(false) => c.count("documents.refused", 1),
                }
            }
        }
        if let Value::Object(o) = &doc {
            for key in o.keys() {
                let mut d = doc.clone();
                d.as_object_mut().unwrap().remove(key);
                match guard(|| serde_json::from_value::<T>(d).is_ok()) {
                    Err(p) => return Err(format!("serde decoding of {name} without {key} panicked: {p}")),
                    Ok(true) => return Err(format!("{name} without {key} was accepted")),
                    Ok(false) => c.count("documents.refused", 1),
                }
            }
        }
        for junk in ["", "{", "[]", "{}", "null", "1", "\"x\"", "[[]]", "[1,2,3]", "{\"X\":[]}"] {
            if let Err(p) = guard(|| serde_json::from_str::<T>(junk).is_ok()) { return Err(format!("serde decoding of {junk:?} as {name} panicked: {p}")); }
        }
        let cut = c.rng.gen_range(0..text.len());
        match guard(|| serde_json::from_str::<T>(&text[..cut]).is_ok()) {
            Err(p) => return Err(format!("serde decoding of a cut document panicked: {p}")),
            Ok(true) => return Err(format!("{name}: a document cut at {cut} was accepted")),
            Ok(false) => {}
        }
    }
    // random damage: whatever is accepted must consist of valid elements and encode again
    let rounds = if heavy { 2 } else if enc[0].len() > 3000 { 4 } else { 24 };
    for q in 0..rounds {
        let mi = q % 2;
        let mut b = enc[mi].clone();
        for _ in 0..c.rng.gen_range(1..4) {
            match c.rng.gen_range(0..6) {
                0 => { let i = c.rng.gen_range(0..b.len()); b[i] ^= 1 << c.rng.gen_range(0..8); }
                1 => { let i = c.rng.gen_range(0..b.len()); b[i] = c.rng.gen(); }
                2 => { let i = c.rng.gen_range(0..b.len()); b.truncate(i.max(1)); }
                3 => { let i = c.rng.gen_range(0..b.len()); let x: u8 = c.rng.gen(); b.insert(i, x); }
                4 => { let i = c.rng.gen_range(0..b.len()); let j = c.rng.gen_range(0..b.len()); b.swap(i, j); }
                _ => { let i = c.rng.gen_range(0..b.len()); let l = c.rng.gen_range(1..64).min(b.len() - i); for x in &mut b[i..i + l] { *x = if q % 3 == 0 { 255 } else { 0 }; } }
            }
        }
        match guard(|| T::deserialize_with_mode(&b[..], modes[mi], Validate::Yes)) {
            Err(p) => return Err(format!("decoding a damaged {name} panicked: {p}")),
            Ok(Err(_)) => c.count("damaged.refused", 1),
            Ok(Ok(o)) => {
                c.count("damaged.accepted", 1);
                for l in leaves(&o) {
                    ensure!(!refused_by_reference(l.kind, &l.c, Compress::Yes), "decoding a damaged {name} produced an invalid {:?} element", l.kind);
                }
                let back: T = ok!(format!("decoding of a re-encoded {name}"), T::deserialize_compressed(&bytes(&o, Compress::Yes)[..]));
                ensure!(back == o, "a damaged {name} that was accepted does not survive encoding");
            }
        }
    }
    // noise
    for _ in 0..4 {
        let l = c.rng.gen_range(0..300);
        let b: Vec<u8> = (0..l).map(|_| c.rng.gen()).collect();
        for m in modes {
            if let Err(p) = guard(|| T::deserialize_with_mode(&b[..], m, Validate::Yes).is_ok()) { return Err(format!("decoding noise as {name} panicked: {p}")); }
        }
    }
    c.count(&format!("objects.{name}"), 1);
    c.seen((name.to_string(), total));
    Ok(())
}

pub fn c14(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation encodes one object in three forms, decodes it, then decodes encodings with single elements replaced by invalid ones, truncations, broken documents and random damage; distinct_nontrivial counts distinct (object, element index, form, kind of invalid element)");
    let names = ["SecretKey", "SecretKeyST", "P1share", "FEncryptionKeyPartial", "EncryptionKey", "FEncryptionKeyDest", "DecryptionKey", "Ciphertext",
        "EncryptionGens", "PreparedEncryptionGens", "ChunkedCommitmentGens<G1>", "ChunkedCommitmentGens<G2>", "ChunkedCommitment<G1>", "ChunkedCommitment<G2>", "WindowTable<G1>", "WindowTable<G2>", "ProvingKey"];
    let per = ctx.n(7, 150);
    ctx.cases("objects", names.len() as u64 * per, |c| {
        let name = names[c.idx as usize % names.len()];
        let round = c.idx as usize / names.len();
        let n = [3usize, 0, 1, 5, 16, 32, 64][round % 7];
        let degenerate = round % 7 == 3; // some identities and zeros
        let rng = &mut c.rng;
        let mut q1 = |rng: &mut StdRng| if degenerate && rng.gen_bool(0.3) { G1Affine::zero() } else { G1Affine::rand(rng) };
        let q2 = |rng: &mut StdRng| if degenerate && rng.gen_bool(0.3) { G2Affine::zero() } else { G2Affine::rand(rng) };
        let qf = |rng: &mut StdRng| if degenerate && rng.gen_bool(0.3) { [Fr::zero(), Fr::one(), -Fr::one()][rng.gen_range(0..3)] } else { Fr::rand(rng) };
        macro_rules! v { ($f:expr, $n:expr) => {{ let k = $n; (0..k).map(|_| $f(rng)).collect::<Vec<_>>() }} }
        match name {
            "SecretKey" => { let o = SecretKey(qf(rng)); check_obj(c, name, &o, &|o: &SecretKey<Fr>| { let mut v = vec![]; lfr(&mut v, &o.0); v }, None) }
            "SecretKeyST" => {
                let o = SecretKeyST::<E> { s: v!(qf, n), t: v!(qf, n + 1) };
                check_obj(c, name, &o, &|o: &SecretKeyST<E>| { let mut v = vec![]; for x in o.s.iter().chain(&o.t) { lfr(&mut v, x) } v }, None)
            }
            "P1share" => { let o = P1share::<E> { P_1: q1(rng) }; check_obj(c, name, &o, &|o: &P1share<E>| { let mut v = vec![]; lg1(&mut v, &o.P_1); v }, None) }
            "FEncryptionKeyPartial" => {
                let o = FEncryptionKeyPartial::<E> { X_0: q1(rng), X: v!(q1, n), Y: v!(q1, n), Z: v!(q2, n + 1), P_2: q1(rng) };
                check_obj(c, name, &o, &|o: &FEncryptionKeyPartial<E>| {
                    let mut v = vec![]; lg1(&mut v, &o.X_0); for x in o.X.iter().chain(&o.Y) { lg1(&mut v, x) } for z in &o.Z { lg2(&mut v, z) } lg1(&mut v, &o.P_2); v }, None)
            }
            "EncryptionKey" => {
                let o = EncryptionKey::<E> { X_0: q1(rng), X: v!(q1, n), Y: v!(q1, n), Z: v!(q2, n + 1), P_1: q1(rng), P_2: q1(rng) };
                check_obj(c, name, &o, &|o: &EncryptionKey<E>| {
                    let mut v = vec![]; lg1(&mut v, &o.X_0); for x in o.X.iter().chain(&o.Y) { lg1(&mut v, x) } for z in &o.Z { lg2(&mut v, z) } lg1(&mut v, &o.P_1); lg1(&mut v, &o.P_2); v }, None)
            }
            "FEncryptionKeyDest" => { let o = FEncryptionKeyDest::<E> { pk: q1(rng) }; check_obj(c, name, &o, &|o: &FEncryptionKeyDest<E>| { let mut v = vec![]; lg1(&mut v, &o.pk); v }, None) }
            "DecryptionKey" => {
                let o = DecryptionKey::<E> { V_0: q2(rng), V_1: v!(q2, n), V_2: v!(q2, n) };
                check_obj(c, name, &o, &|o: &DecryptionKey<E>| { let mut v = vec![]; lg2(&mut v, &o.V_0); for z in o.V_1.iter().chain(&o.V_2) { lg2(&mut v, z) } v }, None)
            }
            "Ciphertext" => {
                let o = Ct { X_r: q1(rng), enc_chunks: v!(q1, n), commitment: q1(rng) };
                check_obj(c, name, &o, &|o: &Ct| { let mut v = vec![]; for x in ct_vec(o) { lg1(&mut v, &x) } v }, None)
            }
            "EncryptionGens" => {
                let o = EncryptionGens::<E> { G: q1(rng), H: q2(rng) };
                check_obj(c, name, &o, &|o: &EncryptionGens<E>| { let mut v = vec![]; lg1(&mut v, &o.G); lg2(&mut v, &o.H); v }, None)
            }
            "PreparedEncryptionGens" => {
                let o: PreparedEncryptionGens<E> = EncryptionGens::<E> { G: G1Affine::rand(rng), H: G2Affine::rand(rng) }.into();
                check_obj(c, name, &o, &|o: &PreparedEncryptionGens<E>| { let mut v = vec![]; v.push(leaf(Kind::G1, &o.G, false)); v.push(leaf(Kind::Prep, &o.H, false)); v }, None)
            }
            "ChunkedCommitmentGens<G1>" => {
                let o = ChunkedCommitmentGens::<G1Affine> { G: q1(rng), H: q1(rng) };
                check_obj(c, name, &o, &|o: &ChunkedCommitmentGens<G1Affine>| { let mut v = vec![]; lg1(&mut v, &o.G); lg1(&mut v, &o.H); v }, None)
            }
            "ChunkedCommitmentGens<G2>" => {
                let o = ChunkedCommitmentGens::<G2Affine> { G: q2(rng), H: q2(rng) };
                check_obj(c, name, &o, &|o: &ChunkedCommitmentGens<G2Affine>| { let mut v = vec![]; lg2(&mut v, &o.G); lg2(&mut v, &o.H); v }, None)
            }
            "ChunkedCommitment<G1>" => {
                let o = ChunkedCommitment::<G1Affine>(q1(rng), v!(q1, n));
                check_obj(c, name, &o, &|o: &ChunkedCommitment<G1Affine>| { let mut v = vec![]; lg1(&mut v, &o.0); for x in &o.1 { lg1(&mut v, x) } v }, None)
            }
            "ChunkedCommitment<G2>" => {
                let o = ChunkedCommitment::<G2Affine>(q2(rng), v!(q2, n));
                check_obj(c, name, &o, &|o: &ChunkedCommitment<G2Affine>| { let mut v = vec![]; lg2(&mut v, &o.0); for x in &o.1 { lg2(&mut v, x) } v }, None)
            }
            "WindowTable<G1>" => {
                let p = G1Projective::rand(rng);
                let o = WindowTable::<G1Projective>::new([1, 0, 2, 40][round % 4], p);
                table_obj::<G1Projective>(c, name, &o, p)
            }
            "WindowTable<G2>" => {
                let p = G2Projective::rand(rng);
                let o = WindowTable::<G2Projective>::new([1, 0, 2, 33][round % 4], p);
                table_obj::<G2Projective>(c, name, &o, p)
            }
            "ProvingKey" => {
                let nv = [2u8, 1, 3][round % 3];
                let gens = EncryptionGens::<E> { G: G1Affine::rand(rng), H: G2Affine::rand(rng) };
                let circ = dist_saver::circuit::BitsizeCheckCircuit::<Fr>::new([4, 8, 16][round % 3], Some(nv), None, true);
                let o = ok!("generate_srs", saver_groth16::generate_srs::<E, _, _>(circ, &gens, rng));
                let sampled: u64 = c.rng.gen();
                check_obj(c, name, &o, &move |o: &saver_groth16::ProvingKey<E>| {
                    let mut v = vec![];
                    let vk = &o.pk.vk;
                    lg1(&mut v, &o.gamma_g1);
                    lg1(&mut v, &vk.alpha_g1);
                    for x in [vk.beta_g2, vk.gamma_g2, vk.delta_g2] { lg2(&mut v, &x) }
                    for x in &vk.gamma_abc_g1 { lg1(&mut v, x) }
                    lg1(&mut v, &o.pk.beta_g1);
                    // long query vectors: a sample of each
                    let pick = |len: usize, k: u64| -> Vec<usize> { if len == 0 { vec![] } else { vec![0, len - 1, (sampled.wrapping_mul(k) % len as u64) as usize] } };
                    for (k, q) in [&o.pk.a_query, &o.pk.b_g1_query, &o.pk.h_query, &o.pk.l_query].into_iter().enumerate() { for i in pick(q.len(), 3 + k as u64) { lg1(&mut v, &q[i]) } }
                    for i in pick(o.pk.b_g2_query.len(), 11) { lg2(&mut v, &o.pk.b_g2_query[i]) }
                    lg1(&mut v, &o.pk.delta_g1);
                    v
                }, Some(&|o: &saver_groth16::ProvingKey<E>| vec![bytes(&o.pk, Compress::Yes), bytes(&o.gamma_g1, Compress::Yes)]))
            }
            _ => unreachable!(),
        }
    });
    // a real proving key: long query vectors, any element of which may be bad
    let big: Vec<saver_groth16::ProvingKey<E>> = crate::c01::mk(ctx, "provingkey", 1, |rng| {
        let gens = EncryptionGens::<E>::new_using_rng(rng);
        Ok(ok!("setup_for_groth16", dist_saver::setup::setup_for_groth16(rng, 16, &gens)).0)
    })?;
    let big = &big[0];
    ctx.cases("large", ctx.n(14, 140), |c| {
        let bad1 = loop { if let Some(p) = G1Affine::get_point_from_x_unchecked(Fq::rand(&mut c.rng), true) { if !p.is_in_correct_subgroup_assuming_on_curve() { break p; } } };
        let bad2 = loop { if let Some(p) = G2Affine::get_point_from_x_unchecked(Fq2::rand(&mut c.rng), true) { if !p.is_in_correct_subgroup_assuming_on_curve() { break p; } } };
        let mut x = big.clone();
        let at = |rng: &mut StdRng, n: usize| if n == 0 { 0 } else { match rng.gen_range(0..4) { 0 => 0, 1 => n - 1, _ => rng.gen_range(0..n) } };
        let q = &mut x.pk;
        let (name, i) = match c.idx % 14 {
            0 => ("nothing", 0),
            1 => { let i = at(&mut c.rng, q.a_query.len()); q.a_query[i] = bad1; ("a_query", i) }
            2 => { let i = at(&mut c.rng, q.b_g1_query.len()); q.b_g1_query[i] = bad1; ("b_g1_query", i) }
            3 => { let i = at(&mut c.rng, q.b_g2_query.len()); q.b_g2_query[i] = bad2; ("b_g2_query", i) }
            4 => { let i = at(&mut c.rng, q.h_query.len()); q.h_query[i] = bad1; ("h_query", i) }
            5 => { let i = at(&mut c.rng, q.l_query.len()); q.l_query[i] = bad1; ("l_query", i) }
            6 => { let i = at(&mut c.rng, q.vk.gamma_abc_g1.len()); q.vk.gamma_abc_g1[i] = bad1; ("gamma_abc_g1", i) }
            7 => { q.vk.alpha_g1 = bad1; ("alpha_g1", 0) }
            8 => { q.vk.beta_g2 = bad2; ("beta_g2", 0) }
            9 => { q.vk.gamma_g2 = bad2; ("gamma_g2", 0) }
            10 => { q.vk.delta_g2 = bad2; ("delta_g2", 0) }
            11 => { q.beta_g1 = bad1; ("beta_g1", 0) }
            12 => { q.delta_g1 = bad1; ("delta_g1", 0) }
            _ => { x.gamma_g1 = bad1; ("gamma_g1", 0) }
        };
        let honest = name == "nothing";
        type P = saver_groth16::ProvingKey<E>;
        let mut results: Vec<(&str, Option<P>)> = vec![];
        for (ms, m) in [("compressed", Compress::Yes), ("uncompressed", Compress::No)] {
            let b = bytes(&x, m);
            let r = guard(|| P::deserialize_with_mode(&b[..], m, Validate::Yes).ok()).map_err(|p| format!("decoding a proving key with a bad {name}[{i}] panicked: {p}"))?;
            results.push((ms, r));
            if honest {
                let k = c.rng.gen_range(0..b.len());
                let cut = guard(|| P::deserialize_with_mode(&b[..k], m, Validate::No).is_ok()).map_err(|p| format!("decoding a proving key cut to {k} bytes panicked: {p}"))?;
                ensure!(!cut, "a proving key cut to {k} of {} bytes was accepted", b.len());
            }
        }
        let text = ok!("serde serialisation of a proving key", serde_json::to_string(&x));
        let r = guard(|| serde_json::from_str::<P>(&text).ok()).map_err(|p| format!("serde decoding of a proving key with a bad {name}[{i}] panicked: {p}"))?;
        results.push(("serde", r));
        for (how, r) in results {
            if honest {
                ensure!(r.as_ref() == Some(&x), "a real proving key does not come back identical ({how})");
            } else {
                ensure!(r.is_none(), "a real proving key whose {name}[{i}] lies outside the prime-order subgroup was accepted ({how})");
            }
            c.count(if honest { "large.roundtrips" } else { "large.refused" }, 1);
        }
        c.seen(("large", name, i));
        c.sample(|| format!("proving key of {} bytes of JSON, {name}[{i}] outside the subgroup", text.len()));
        Ok(())
    });
    ctx.require("hostile.serde_uncompressed.refused", 500);
    ctx.require("large.roundtrips", 3);
    ctx.require("large.refused", 39);
    // objects the system itself produces
    ctx.cases("produced", ctx.n(9, 60), |c| {
        let bits = [16u8, 8, 4][c.idx as usize % 3];
        let n = chunks_for(bits);
        let w = World::new(&mut c.rng, n);
        let g = make_group(&mut c.rng, &w, bits, 2)?;
        let (sk, ek, dk) = ok!("keygen", keygen(&mut c.rng, bits, &w.gens, &w.g_i, &w.delta_g, &w.gamma_g));
        let m = random_message(&mut c.rng, bits);
        let (ct, _) = ok!("encrypt", Enc::encrypt(&mut c.rng, &m, &ek, &w.g_i, bits));
        macro_rules! rt { ($t:ty, $o:expr) => {{
            let o: &$t = $o;
            for m in [Compress::Yes, Compress::No] {
                let b = bytes(o, m);
                let back = ok!(concat!("decoding of ", stringify!($t)), <$t>::deserialize_with_mode(&b[..], m, Validate::Yes));
                ensure!(back == *o, concat!(stringify!($t), " changed by encoding"));
            }
            let t = ok!(concat!("serde of ", stringify!($t)), serde_json::to_string(o));
            let back = ok!(concat!("serde of ", stringify!($t)), serde_json::from_str::<$t>(&t));
            ensure!(back == *o, concat!(stringify!($t), " changed by serde"));
            c.count("produced.roundtrips", 3);
        }} }
        rt!(SecretKey<Fr>, &sk);
        rt!(EncryptionKey<E>, &ek);
        rt!(DecryptionKey<E>, &dk);
        rt!(Ct, &ct);
        rt!(SecretKeyST<E>, &g.sks[0]);
        rt!(FEncryptionKeyPartial<E>, &g.combined);
        rt!(P1share<E>, &g.shares[0]);
        // decoded keys work
        let sk2: SecretKey<Fr> = serde_json::from_str(&serde_json::to_string(&sk).unwrap()).unwrap();
        let dk2 = DecryptionKey::<E>::deserialize_compressed(&bytes(&dk, Compress::Yes)[..]).unwrap();
        let ct2 = Ct::deserialize_uncompressed(&bytes(&ct, Compress::No)[..]).unwrap();
        if bits < 16 {
            let (d, _) = ok!("decrypt with decoded keys", ct2.decrypt(&sk2, dk2, &w.g_i, bits));
            ensure!(d == m, "decoded keys decrypt to another message");
        }
        Ok(())
    });
    for n in names { ctx.require(&format!("objects.{n}"), 3); }
    ctx.require("hostile.refused", 1000);
    ctx.require("hostile.vector.refused", 100);
    ctx.require("hostile.serde.refused", 500);
    ctx.require("damaged.refused", 100);
    ctx.require("produced.roundtrips", 40);
    Ok(())
}
fn table_obj<G: CurveGroup<ScalarField = Fr>>(c: &mut Case, name: &str, o: &WindowTable<G>, p: G) -> R
where
    WindowTable<G>: Stored,
    G::Affine: CanonicalDeserialize,
{
    // the table is private: its elements are the multiples of p the encoding contains
    let kind = if G::Affine::zero().compressed_size() == 48 { Kind::G1 } else { Kind::G2 };
    let cs = G::Affine::zero().compressed_size();
    let doc = ok!("serde value", serde_json::to_value(o));
    let elems = |doc: &Value| -> Vec<Leaf> {
        let mut d = doc.clone();
        let mut ptrs = vec![];
        json_leaves(&mut d, &mut ptrs);
        let mut v = vec![];
        for q in ptrs {
            let b = leaf_bytes(unsafe { &*q }).unwrap_or_default();
            if b.len() == cs {
                if let Ok(a) = G::Affine::deserialize_compressed_unchecked(&b[..]) { v.push(leaf(kind, &a, a.is_zero())); }
            }
        }
        v
    };
    let es = elems(&doc);
    ensure!(es.iter().any(|l| l.c == bytes(&p.into_affine(), Compress::Yes)), "{name}: the encoding does not hold the element the table is for");
    check_obj(c, name, o, &|o: &WindowTable<G>| elems(&serde_json::to_value(o).unwrap()), None)?;
    let back = WindowTable::<G>::deserialize_compressed(&bytes(o, Compress::Yes)[..]).map_err(|e| format!("{e:?}"))?;
    let x = Fr::rand(&mut c.rng);
    ensure!(call!("multiply", back.multiply(&x)) == p * x, "a decoded multiplication table multiplies wrongly");
    Ok(())
}

// ---------------------------------------------------------------- C15
use digest::{consts::{U32, U64, U128}, generic_array::{ArrayLength, GenericArray}, Digest, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use dist_saver::utils::{affine_group_elem_from_try_and_incr, field_elem_from_try_and_incr, projective_group_elem_from_try_and_incr};
use std::cell::RefCell;

thread_local! {
    static FAILS: RefCell<u64> = RefCell::new(0);
    static ASKED: RefCell<Vec<u64>> = RefCell::new(vec![]);
    static AGAIN: RefCell<u64> = RefCell::new(0);
}
/// A hash function whose first FAILS outputs for any base input are unusable
#[derive(Clone, Default)]
struct Scripted<N>(Vec<u8>, std::marker::PhantomData<N>);
impl<N> HashMarker for Scripted<N> {}
impl<N: ArrayLength<u8> + 'static> OutputSizeUser for Scripted<N> { type OutputSize = N; }
impl<N> Update for Scripted<N> { fn update(&mut self, d: &[u8]) { self.0.extend_from_slice(d) } }
/// Bytes no group or field element can be made from
fn useless(len: usize) -> Vec<u8> {
    thread_local! { static U: RefCell<std::collections::HashMap<usize, Vec<u8>>> = Default::default(); }
    U.with(|u| u.borrow_mut().entry(len).or_insert_with(|| {
        let mut rng = StdRng::seed_from_u64(99);
        loop {
            let b: Vec<u8> = (0..len).map(|_| rng.gen()).collect();
            if G1Affine::from_random_bytes(&b).is_none() && G2Affine::from_random_bytes(&b).is_none() && Fr::from_random_bytes(&b).is_none() { return b; }
        }
    }).clone())
}
fn attempt_of(input: &[u8]) -> u64 {
    let tag = b"-attempt-";
    if input.len() >= 17 && &input[input.len() - 17..input.len() - 8] == tag {
        u64::from_le_bytes(input[input.len() - 8..].try_into().unwrap())
    } else { 0 }
}
impl<N: ArrayLength<u8> + 'static> FixedOutput for Scripted<N> {
    fn finalize_into(self, out: &mut Output<Self>) {
        let k = FAILS.with(|f| *f.borrow());
        ASKED.with(|a| a.borrow_mut().push(h64(&self.0)));
        if attempt_of(&self.0) < k {
            let again = AGAIN.with(|a| { *a.borrow_mut() += 1; *a.borrow() });
            // every attempt is refused; a derivation asks for each once
            if again > 4 * k + 16 { AGAIN.with(|a| *a.borrow_mut() = 0); panic!("retrying goes on after {again} attempts although attempt {k} would do"); }
            let n = out.len(); out.copy_from_slice(&useless(n)); return;
        }
        AGAIN.with(|a| *a.borrow_mut() = 0);
        let mut o = GenericArray::<u8, N>::default();
        let mut ctr = 0u8;
        for ch in o.chunks_mut(64) {
            let d = blake2::Blake2b512::new().chain_update(&self.0).chain_update([ctr]).finalize();
            ch.copy_from_slice(&d[..ch.len()]);
            ctr += 1;
        }
        *out = o;
    }
}
fn ref_hash<T, D: Digest>(b: &[u8], f: impl Fn(&[u8]) -> Option<T>) -> (T, u64) {
    let mut j = 0u64;
    loop {
        let mut input = b.to_vec();
        if j > 0 { input.extend_from_slice(b"-attempt-"); input.extend_from_slice(&j.to_le_bytes()); }
        if let Some(t) = f(&D::digest(&input)) { return (t, j); }
        j += 1;
    }
}
fn ref_g<G: AffineRepr, D: Digest>(b: &[u8]) -> (G, u64) {
    let (p, j) = ref_hash::<G, D>(b, |h| G::from_random_bytes(h));
    (p.mul_by_cofactor(), j)
}
fn cat(a: &[u8], b: &[u8]) -> Vec<u8> { let mut v = a.to_vec(); v.extend_from_slice(b); v }

fn check_label<D: Digest>(c: &Case, dname: &str, label: &[u8]) -> Result<(G1Affine, G2Affine, Vec<Vec<u8>>), String> {
    let what = format!("label of {} bytes, {dname}", label.len());
    let (g, jg) = ref_g::<G1Affine, D>(&cat(label, b" : G"));
    let (h2, jh) = ref_g::<G2Affine, D>(&cat(label, b" : H"));
    let (h1, _) = ref_g::<G1Affine, D>(&cat(label, b" : H"));
    let (g2, _) = ref_g::<G2Affine, D>(&cat(label, b" : G"));
    let a = call!(format!("EncryptionGens::new ({what})"), EncryptionGens::<E>::new::<D>(label));
    ensure!(a.G == g && a.H == h2, "EncryptionGens::new: generators for a {what} differ from the published derivation (attempts {jg}/{jh})");
    let b = call!(format!("ChunkedCommitmentGens::new ({what})"), ChunkedCommitmentGens::<G1Affine>::new::<D>(label));
    ensure!(b.G == g && b.H == h1, "ChunkedCommitmentGens<G1>::new: generators for a {what} differ from the published derivation (attempts {jg})");
    let e = call!(format!("ChunkedCommitmentGens<G2>::new ({what})"), ChunkedCommitmentGens::<G2Affine>::new::<D>(label));
    ensure!(e.G == g2 && e.H == h2, "ChunkedCommitmentGens<G2>::new: generators for a {what} differ from the published derivation");
    for (n, ok) in [("G", !a.G.is_zero() && a.G.is_on_curve() && a.G.is_in_correct_subgroup_assuming_on_curve()),
                    ("H", !a.H.is_zero() && a.H.is_on_curve() && a.H.is_in_correct_subgroup_assuming_on_curve()),
                    ("commitment H", !b.H.is_zero() && b.H.is_on_curve() && b.H.is_in_correct_subgroup_assuming_on_curve()),
                    ("commitment G2", !e.G.is_zero() && e.G.is_on_curve() && e.G.is_in_correct_subgroup_assuming_on_curve())] {
        ensure!(ok, "{n} for a {what} is not a non-identity element of the prime-order group");
    }
    ensure!(b.G != b.H && e.G != e.H, "the two commitment generators of a {what} coincide");
    // again, after other calls
    let a2 = EncryptionGens::<E>::new::<D>(label);
    ensure!(a2 == a, "EncryptionGens::new gives two results for one {what}");
    c.count("derivations", 4);
    c.count("retries", jg + jh);
    Ok((a.G, a.H, vec![bytes(&b.G, Compress::Yes), bytes(&b.H, Compress::Yes), bytes(&a.H, Compress::Yes), bytes(&e.G, Compress::Yes)]))
}
fn check_raw<D: Digest>(c: &Case, dname: &str, b: &[u8]) -> R {
    let what = format!("{} bytes, {dname}", b.len());
    let (p, j) = ref_g::<G1Affine, D>(b);
    ensure!(call!(format!("affine hashing of {what}"), affine_group_elem_from_try_and_incr::<G1Affine, D>(b)) == p, "affine hashing of {what} to G1 differs from the published derivation (attempt {j})");
    ensure!(call!(format!("projective hashing of {what}"), projective_group_elem_from_try_and_incr::<G1Affine, D>(b)) == p.into_group(), "projective hashing of {what} to G1 differs from the published derivation (attempt {j})");
    let (p2, j2) = ref_g::<G2Affine, D>(b);
    ensure!(call!(format!("affine hashing of {what} to G2"), affine_group_elem_from_try_and_incr::<G2Affine, D>(b)) == p2, "affine hashing of {what} to G2 differs from the published derivation (attempt {j2})");
    let (f, jf) = ref_hash::<Fr, D>(b, |h| Fr::from_random_bytes(h));
    ensure!(call!(format!("hashing of {what} to a field element"), field_elem_from_try_and_incr::<Fr, D>(b)) == f, "hashing of {what} to a field element differs from the published derivation (attempt {jf})");
    c.count("derivations", 4);
    c.count("retries", j + j2 + jf);
    c.count("field.retries", jf);
    Ok(())
}

pub fn c15(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("each evaluation derives the generators of one label under one hash function (real, or scripted to fail a chosen number of times) and compares them with an independent derivation and with all other labels' generators; distinct_nontrivial counts distinct (hash function, label)");
    let lens = [0usize, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 55, 56, 63, 64, 65, 100, 111, 112, 119, 120, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 4096, 65536, 70001];
    let all: std::sync::Mutex<std::collections::HashMap<Vec<u8>, (String, Vec<u8>, usize)>> = Default::default();
    let note = |dname: &str, label: &[u8], pts: Vec<Vec<u8>>| -> R {
        let mut m = all.lock().unwrap();
        for (i, p) in pts.into_iter().enumerate() {
            // entry 2 and 3 are in G2, so they never collide with 0 and 1
            if let Some((d, l, k)) = m.get(&p) {
                if !(d == dname && l == label && *k == i) {
                    return Err(format!("labels of {} and {} bytes ({d}, {dname}) share a generator ({k}, {i})", l.len(), label.len()));
                }
            } else { m.insert(p, (dname.to_string(), label.to_vec(), i)); }
        }
        Ok(())
    };
    ctx.cases("labels", ctx.n(420, 9000), |c| {
        let l = match c.idx % 3 { 0 => lens[(c.idx as usize / 3) % lens.len()], 1 => c.rng.gen_range(0..80), _ => c.rng.gen_range(0..400) };
        let mut label: Vec<u8> = (0..l).map(|_| c.rng.gen()).collect();
        match c.rng.gen_range(0..8) { 0 => for b in label.iter_mut() { *b = 0 }, 1 => label.extend_from_slice(b" : G"), 2 => label.extend_from_slice(b" : H"), 3 => { label.extend_from_slice(b"-attempt-"); label.extend_from_slice(&1u64.to_le_bytes()); }, 4 => for b in label.iter_mut() { *b = 255 }, _ => {} }
        let mut variants = vec![label.clone()];
        if l > 0 {
            let mut v = label.clone(); v[0] ^= 1; variants.push(v);
            let mut v = label.clone(); let k = v.len() - 1; v[k] ^= 0x80; variants.push(v);
            let k = c.rng.gen_range(0..label.len()); let mut v = label.clone(); v[k] ^= 1 << c.rng.gen_range(0..8); variants.push(v);
            variants.push(label[..label.len() - 1].to_vec());
        }
        let mut v = label.clone(); v.push(0); variants.push(v);
        if c.idx % 4 == 1 {
            // text: padding, case, separators
            let mut t: Vec<u8> = label.iter().map(|b| b"abcXYZ 0:-_\n"[*b as usize % 12]).collect();
            t.push(b'q');
            variants.push(t.clone());
            for end in [&b" "[..], b"\n", b"\r\n", b"\t", b":", b" :", b"-", b"-attempt-"] { variants.push(cat(&t, end)); }
            variants.push(cat(b" ", &t));
            let mut u = t.clone(); let k = u.len() - 1; u[k] = b'Q'; variants.push(u);
            variants.push(cat(&t, &t));
            // zero bytes inside and at both ends
            variants.push(cat(&t, &[0, 0]));
            variants.push([&t[..t.len() / 2], &[0], &t[t.len() / 2..]].concat());
            variants.push([&t[..], &[0], &t[..]].concat());
            variants.sort();
            variants.dedup();
        }
        let mut v = vec![0u8]; v.extend_from_slice(&label); variants.push(v);
        for v in variants {
            if c.idx % 2 == 0 {
                let r = check_label::<blake2::Blake2b512>(c, "Blake2b512", &v)?;
                note("Blake2b512", &v, r.2)?;
                c.seen(("b", &v));
            } else {
                let r = check_label::<blake2::Blake2s256>(c, "Blake2s256", &v)?;
                note("Blake2s256", &v, r.2)?;
                c.seen(("s", &v));
            }
        }
        check_raw::<blake2::Blake2b512>(c, "Blake2b512", &label)?;
        check_raw::<blake2::Blake2s256>(c, "Blake2s256", &label)?;
        c.sample(|| format!("label of {} bytes and variants in one byte or length", label.len()));
        Ok(())
    });
    let fails = [1u64, 2, 3, 5, 9, 10, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 511, 513, 1000, 1023, 1025];
    ctx.cases("retries", ctx.n(150, 2500), |c| {
        let k = if c.idx < 2 { [65536u64, 66000][c.idx as usize] } else { fails[c.idx as usize % fails.len()] };
        let l = c.rng.gen_range(0..120);
        let label: Vec<u8> = (0..l).map(|_| c.rng.gen()).collect();
        FAILS.with(|f| *f.borrow_mut() = k); AGAIN.with(|a| *a.borrow_mut() = 0);
        ASKED.with(|a| a.borrow_mut().clear());
        let r = match c.idx % 3 {
            0 => check_label::<Scripted<U64>>(c, "a hash function failing first", &label).map(|_| ()).and_then(|_| check_raw::<Scripted<U64>>(c, "a hash function failing first", &label)),
            1 => check_raw::<Scripted<U128>>(c, "a wide hash function failing first", &label),
            _ => if k < 2000 { check_raw::<Scripted<U64>>(c, "a hash function failing first", &label) } else { Ok(()) },
        };
        FAILS.with(|f| *f.borrow_mut() = 0);
        let asked = ASKED.with(|a| std::mem::take(&mut *a.borrow_mut()));
        c.count("hash.inputs", asked.len() as u64);
        c.seen(("script", k, &label));
        r.map_err(|e| format!("[{k} failing attempts] {e}"))
    });
    ctx.cases("narrow", ctx.n(30, 300), |c| {
        let l = c.rng.gen_range(0..120);
        let label: Vec<u8> = (0..l).map(|_| c.rng.gen()).collect();
        FAILS.with(|f| *f.borrow_mut() = 0);
        check_raw::<Scripted<U32>>(c, "a 32-byte hash function", &label)?;
        check_label::<Scripted<U32>>(c, "a 32-byte hash function", &label)?;
        c.seen(("narrow", &label));
        Ok(())
    });
    ctx.require("derivations", 5000);
    ctx.require("retries", 5000);
    ctx.require("field.retries", 500);
    Ok(())
}
