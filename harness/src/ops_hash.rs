//! Commitments, transcripts, digest-to-field conversion.
use crate::util::*;
use ff::{Field, PrimeField, PrimeFieldRepr};
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::*;
use hodor::transcript::*;
use hodor::verif_hooks as vh;
use serde_json::{json, Value};

pub fn run(s: &Value) -> Value {
    vh::set_cpus(gud(s, "cpus", 1));
    with_field!(gs(s, "f"), F, run_f::<F>(s))
}

type H<F> = Blake2sTreeHasher<F>;
fn leaf<F: PrimeField>(x: &F) -> [u8; 32] { <H<F> as IopTreeHasher<F>>::hash_leaf(x) }
fn node<F: PrimeField>(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] { <H<F> as IopTreeHasher<F>>::hash_node(&[*a, *b], 0) }

fn run_f<F: PrimeField>(s: &Value) -> Value {
    match gs(s, "op") {
        "tree" => tree::<F>(s),
        "opening" => opening::<F>(s),
        "enc" => enc::<F>(s),
        "transcript" => transcript::<F>(s),
        "tofield" => tofield::<F>(s),
        "hasher" => if gs(s, "kind") == "sha256" { hasher::<hodor::utils::Sha256Hasher>(s) } else { hasher::<hodor::utils::Keccak256Hasher>(s) },
        o => panic!("harness: {}", o),
    }
}

struct Names { v: Vec<[u8; 32]>, at: std::collections::HashMap<[u8; 32], usize> }
impl Names {
    fn id(&mut self, d: &[u8; 32]) -> usize {
        if let Some(i) = self.at.get(d) { return *i; }
        self.v.push(*d);
        self.at.insert(*d, self.v.len());
        self.v.len()
    }
}

/// Digests get small numbers; `leafh[i]` is the digest number of leaf i, `pairs` the table of the node hash on
/// every pair the reference tree needs (level by level), `root` the root of the real tree and `paths` its paths.
fn tree<F: PrimeField>(s: &Value) -> Value {
    let n = gu(s, "n");
    let a = input::<F>(s, "a", n, 0);
    let iop = TrivialBlake2sIOP::<F>::create(&a);
    let t = Blake2sIopTree::<F>::create(&a);
    let mut names = Names { v: vec![], at: Default::default() };
    let lh: Vec<[u8; 32]> = a.iter().map(leaf).collect();
    let leafh: Vec<usize> = lh.iter().map(|d| names.id(d)).collect();
    let mut pairs = vec![];
    let mut level = lh;
    while level.len() > 1 {
        let mut next = vec![];
        for c in level.chunks(2) {
            let h = node::<F>(&c[0], &c[1]);
            pairs.push(json!([names.id(&c[0]), names.id(&c[1]), names.id(&h)]));
            next.push(h);
        }
        level = next;
    }
    let root = names.id(&iop.get_root());
    let root2 = names.id(&t.get_root());
    let mut paths = vec![];
    let mut qv = vec![];
    let mut qok = vec![];
    let which: Vec<usize> = if n <= 64 { (0..n).collect() } else { let mut r = Rng::new(gud(s, "seed", 1) as u64); (0..24).map(|_| r.below(n)).chain(vec![0, n - 1, n / 2, n / 2 - 1]).collect() };
    for i in which.iter() {
        let q = iop.query(*i, &a);
        let p: Vec<usize> = q.path().iter().map(|d| names.id(d)).collect();
        let p2: Vec<usize> = t.get_path(*i, &a).iter().map(|d| names.id(d)).collect();
        if p != p2 { paths.push(json!(["path of tree differs"])); } else { paths.push(json!(p)); }
        qv.push(json!([q.natural_index(), q.tree_index(), fj(&q.value())]));
        qok.push(TrivialBlake2sIOP::<F>::verify_query(&q, &iop.get_root())
            && <Blake2sIopTree<F> as IopTree<F>>::verify(&iop.get_root(), &a[*i], q.path(), *i));
    }
    let gets: Vec<Value> = which.iter().map(|i| json!([fj(TrivialBlake2sIOP::<F>::get_for_natural_index(&a, *i)), fj(TrivialBlake2sIOP::<F>::get_for_tree_index(&a, *i))])).collect();
    json!({"p": modulus_small::<F>(), "a": vj(&a), "leafh": leafh, "pairs": pairs, "root": root, "root2": root2, "size": t.size(),
           "which": which, "paths": paths, "qv": qv, "qok": qok, "gets": gets, "names": names.v.len(), "rootdigest": hex::encode(iop.get_root())})
}

/// One tree, many forged openings; every forged opening is described by what it changes.
fn opening<F: PrimeField>(s: &Value) -> Value {
    let n = gu(s, "n");
    let a = input::<F>(s, "a", n, 0);
    let b = input::<F>(s, "b", n, 5);
    let iop = TrivialBlake2sIOP::<F>::create(&a);
    let other = Blake2sIopTree::<F>::create(&b);
    let t = Blake2sIopTree::<F>::create(&a);
    let root = t.get_root();
    let depth = { let mut d = 0; while (1usize << d) < n { d += 1; } d };
    let mut rng = Rng::new(gud(s, "seed", 1) as u64);
    let is: Vec<usize> = if n <= 8 { (0..n).collect() } else { (0..4).map(|_| rng.below(n)).chain(vec![0, n - 1]).collect() };
    let mut tries = vec![];
    let one = F::one();
    let mut add = |i: usize, v: F, idx: usize, path: Vec<[u8; 32]>, r: [u8; 32], what: String| {
        // honest information at this place, to decide by comparison
        let accepted = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| <Blake2sIopTree<F> as IopTree<F>>::verify(&r, &v, &path, idx)));
        let honest = t.get_path(i, &a);
        let same_value = idx < n && a[idx] == v;
        let same_path = idx < n && t.get_path(idx, &a) == path;
        let _ = honest;
        tries.push(json!({"i": i, "idx": if idx > 1 << 30 { 1usize << 30 } else { idx }, "v": fj(&v), "plen": path.len(), "sameValue": same_value, "samePath": same_path, "sameRoot": r == root,
            "what": what, "got": match accepted { Ok(true) => "yes", Ok(false) => "no", Err(_) => "panic" }}));
    };
    for &i in is.iter() {
        let path = t.get_path(i, &a);
        add(i, a[i], i, path.clone(), root, "honest".into());
        let mut v = a[i]; v.add_assign(&one);
        add(i, v, i, path.clone(), root, "value+1".into());
        add(i, rng.field(), i, path.clone(), root, "value random".into());
        for j in 0..n.min(16) { if j != i { add(i, a[i], j, path.clone(), root, "index".into()); add(i, a[j], i, path.clone(), root, "value of other".into()); add(i, a[j], j, path.clone(), root, "path of other".into()); } }
        for m in &[n, 2 * n, 4 * n, 1usize << 40, 1usize << 63] { add(i, a[i], i.wrapping_add(*m), path.clone(), root, "index + multiple of size".into()); }
        for k in 0..depth {
            let mut p = path.clone(); p[k][gud(s, "byte", 0) % 32] ^= 1; add(i, a[i], i, p, root, format!("path bit at {}", k));
            let mut p = path.clone(); p[k][31] ^= 0x80; add(i, a[i], i, p, root, format!("path last byte at {}", k));
            let mut p = path.clone(); p.remove(k); add(i, a[i], i, p, root, format!("path without {}", k));
            let mut p = path.clone(); p.insert(k, [0u8; 32]); add(i, a[i], i, p, root, format!("path with zero at {}", k));
            let mut p = path.clone(); p[k] = leaf(&a[i]); add(i, a[i], i, p, root, format!("path own leaf at {}", k));
            add(i, a[i], i ^ (1 << k), path.clone(), root, format!("index bit {}", k));
            if k > 0 { let mut p = path.clone(); p.swap(k, k - 1); add(i, a[i], i, p, root, format!("path swapped {}", k)); }
        }
        add(i, a[i], i, vec![], root, "empty path".into());
        let mut p = path.clone(); p.push([0u8; 32]); add(i, a[i], i, p, root, "longer path".into());
        let mut p = path.clone(); p.push(root); add(i, a[i], i, p.clone(), root, "longer path with root".into()); add(i, a[i], i + n, p, root, "longer path and index".into());
        add(i, a[i], i, other.get_path(i, &b), root, "path of other tree".into());
        add(i, b[i], i, other.get_path(i, &b), root, "opening of other tree".into());
        let mut r = root; r[gud(s, "byte", 0) % 32] ^= 4; add(i, a[i], i, path.clone(), r, "root bit".into());
        let mut r = root; r[31] ^= 1; add(i, a[i], i, path.clone(), r, "root last byte".into());
        add(i, a[i], i, path.clone(), other.get_root(), "other root".into());
        // internal node presented as a leaf-level opening
        let mut p = path.clone(); if p.len() > 1 { p.remove(0); add(i, a[i], i >> 1, p, root, "one level up".into()); }
        // real query objects built over altered leaves: only the value or only the sibling is wrong
        let mut al = a.clone(); al[i].add_assign(&one);
        let q = iop.query(i, &al);
        let real = TrivialBlake2sIOP::<F>::verify_query(&q, &root);
        add(i, q.value(), i, q.path().to_vec(), root, format!("query over altered leaf {}", if real { "accepted" } else { "rejected" }));
        let mut al = a.clone(); al[i ^ 1].add_assign(&one);
        let q = iop.query(i, &al);
        let real = TrivialBlake2sIOP::<F>::verify_query(&q, &root);
        add(i, q.value(), i, q.path().to_vec(), root, format!("query over altered sibling {}", if real { "accepted" } else { "rejected" }));
    }
    json!({"p": modulus_small::<F>(), "a": vj(&a), "b": vj(&b), "depth": depth, "tries": tries, "sameTree": root == other.get_root()})
}

/// Encodings and digests of many elements and of many node pairs; the specification checks injectivity.
fn enc<F: PrimeField>(s: &Value) -> Value {
    let mut rng = Rng::new(gud(s, "seed", 1) as u64);
    let mut xs: Vec<F> = vec![];
    match gs(s, "what") {
        "all" => for i in 0..modulus_small::<F>() { xs.push(fu(i)); },
        _ => {
            // zero, one, every power of two below the modulus (so every limb and bit), neighbours and random elements
            let mut x = F::one();
            xs.push(F::zero());
            for _ in 0..F::NUM_BITS { xs.push(x); let mut y = x; y.sub_assign(&F::one()); xs.push(y); x.double(); }
            for _ in 0..gud(s, "n", 40) { xs.push(rng.field()); }
            let mut m = F::one(); m.negate(); xs.push(m);
            // single bits of the internal representation
            for i in 0..F::NUM_BITS - 1 { let mut r = F::Repr::default(); r.as_mut()[(i / 64) as usize] |= 1 << (i % 64); if let Ok(v) = F::from_raw_repr(r) { xs.push(v); } }
        }
    }
    let encs: Vec<String> = xs.iter().map(|x| hex::encode(<Blake2sLeafEncoder<F> as LeafEncoder<F>>::encode_leaf(x))).collect();
    let hashes: Vec<String> = xs.iter().map(|x| hex::encode(leaf(x))).collect();
    // pairs of digests: first changed, second changed, swapped
    let mut ds: Vec<[u8; 32]> = vec![[0u8; 32], [0xff; 32]];
    for i in 0..gud(s, "digests", 6) { let mut d = [0u8; 32]; d[(i * 7) % 32] = 1 << (i % 8); ds.push(d); let mut d = [0u8; 32]; for b in d.iter_mut() { *b = rng.next() as u8; } ds.push(d); }
    let mut tab = vec![];
    for (i, a) in ds.iter().enumerate() { for (j, b) in ds.iter().enumerate() { tab.push(json!([i, j, hex::encode(node::<F>(a, b))])); } }
    let repeat = xs.iter().all(|x| leaf(x) == leaf(x));
    json!({"p": modulus_small::<F>(), "keys": xs.iter().map(|x| hex::encode(bytes_be(x))).collect::<Vec<_>>(), "encs": encs, "hashes": hashes, "pairs": tab, "repeat": repeat})
}

/// Runs operation sequences on transcripts; each operation is a string understood by the specification too.
fn transcript<F: PrimeField>(s: &Value) -> Value {
    let mut t = Blake2sTranscript::<F>::new();
    let mut outs = vec![];
    for op in s["ops"].as_array().expect("ops") {
        let op = op.as_str().unwrap();
        // first bytes tell the kinds of messages apart: no history is a re-cutting of another one
        let mut bytes = [0xa5u8; 32];
        match op {
            "bA" => { t.commit_bytes(&bytes); outs.push(json!("")); }
            "bB" => { bytes[15] = 1; t.commit_bytes(&bytes); outs.push(json!("")); }
            "bC" => { bytes[31] = 1; t.commit_bytes(&bytes); outs.push(json!("")); }
            "bS" => { t.commit_bytes(&[0x5au8]); outs.push(json!("")); }
            "f0" => { t.commit_field_element(&F::zero()); outs.push(json!("")); }
            "f1" => { t.commit_field_element(&F::one()); outs.push(json!("")); }
            "fm" => { let mut m = F::one(); m.negate(); t.commit_field_element(&m); outs.push(json!("")); }
            "fh" => { let mut m = F::one(); for _ in 0..F::NUM_BITS - 1 { m.double(); } t.commit_field_element(&m); outs.push(json!("")); }
            "cb" => outs.push(json!(hex::encode(t.get_challenge_bytes()))),
            "ch" => {
                // the same state also gives the bytes the element is made from
                let mut c = t.clone();
                let b = c.get_challenge_bytes();
                let v: F = t.get_challenge();
                outs.push(json!(hex::encode(b)));
                let _ = v;
            }
            _ if op.starts_with("q") => {
                // the element 2^i
                let mut m = F::one(); for _ in 0..op[1..].parse::<usize>().unwrap() { m.double(); }
                t.commit_field_element(&m); outs.push(json!(""));
            }
            _ if op.starts_with("x") => {
                // x<length>_<position>: a message of that length with one bit set at that place
                let mut it = op[1..].split("_").map(|x| x.parse::<usize>().unwrap());
                let len = it.next().unwrap();
                let mut v = vec![(len % 251) as u8; len];
                v[0] = 0xb0;
                if let Some(k) = it.next() { v[k] ^= 0x08; }
                t.commit_bytes(&v); outs.push(json!(""));
            }
            _ => panic!("harness: transcript op {}", op),
        }
    }
    // fingerprint of the final state
    let mut c = t.clone();
    json!({"p": modulus_small::<F>(), "outs": outs, "fin": hex::encode(c.get_challenge_bytes())})
}

fn bytes_be<F: PrimeField>(v: &F) -> Vec<u8> { let r = v.into_repr(); let mut b = vec![]; r.write_be(&mut b).unwrap(); b }

/// digest -> element, through the commitment root and through the transcript
fn tofield<F: PrimeField>(s: &Value) -> Value {
    let mut rng = Rng::new(gud(s, "seed", 1) as u64);
    let mut d = [0u8; 32];
    if gs(s, "what") == "table" {
        // the image of every digest with a single bit
        let im: Vec<Vec<u8>> = (0..256).map(|i| { let mut d = [0u8; 32]; d[i / 8] = 0x80 >> (i % 8); bytes_be(&<Blake2sLeafEncoder<F> as HashEncoder<F>>::interpret_hash(&d)) }).collect();
        return json!({"p": modulus_small::<F>(), "images": im, "capacity": F::CAPACITY});
    }
    match gs(s, "what") {
        "zero" => {}
        "ff" => d = [0xff; 32],
        "bit" => { let i = gu(s, "i"); d[i / 8] = 0x80 >> (i % 8); }
        "nbit" => { d = [0xff; 32]; let i = gu(s, "i"); d[i / 8] ^= 0x80 >> (i % 8); }
        _ => for b in d.iter_mut() { *b = rng.next() as u8; },
    }
    let v = <Blake2sLeafEncoder<F> as HashEncoder<F>>::interpret_hash(&d);
    let v2 = <TrivialBlake2sIOP<F> as IOP<F>>::encode_root_into_challenge(&d);
    let v3 = <Blake2sIopTree<F> as IopTree<F>>::encode_root_into_challenge(&d);
    // transcript: bytes and element drawn from equal states
    let mut t = Blake2sTranscript::<F>::new();
    t.commit_bytes(&d);
    let mut t2 = t.clone();
    let tb = Transcript::<F>::get_challenge_bytes(&mut t2);
    let tv: F = t.get_challenge();
    // and after it both states agree again
    let again = Transcript::<F>::get_challenge_bytes(&mut t) == Transcript::<F>::get_challenge_bytes(&mut t2);
    let limbs = F::Repr::default().as_ref().len();
    let modulus = { let r = F::char(); let mut b = vec![]; r.write_be(&mut b).unwrap(); b };
    json!({"p": modulus_small::<F>(), "digest": d.to_vec(), "v": bytes_be(&v), "v2": bytes_be(&v2), "v3": bytes_be(&v3), "tb": tb, "tv": bytes_be(&tv), "again": again,
           "limbs": limbs, "capacity": F::CAPACITY, "bits": F::NUM_BITS, "modulus": modulus})
}

/// "u<hex>" absorbs, "d" takes the digest, "c" takes the digest of a copy
fn hasher<T: hodor::utils::Hasher>(s: &Value) -> Value {
    let mut h = T::new(&hex::decode(gs(s, "pers")).expect("harness: hex"));
    let mut outs = vec![];
    for op in s["ops"].as_array().expect("ops") {
        let op = op.as_str().unwrap();
        outs.push(match &op[..1] {
            "u" => { h.update(&hex::decode(&op[1..]).expect("harness: hex")); String::new() }
            "d" => hex::encode(h.finalize()),
            "c" => { let mut k = h.clone(); let d = hex::encode(k.finalize()); k.update(b"more"); d }
            _ => panic!("harness: hasher op {}", op),
        });
    }
    let fin = hex::encode(h.finalize());
    json!({"outs": outs, "fin": fin})
}
