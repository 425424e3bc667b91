//! Whole-protocol runs: honest and dishonest proofs, recorded together with every commitment and challenge.
use crate::air::{self, guarded};
use crate::rec::*;
use crate::util::*;
use ff::PrimeField;
use hodor::arp::*;
use hodor::fri::*;
use hodor::iop::*;
use hodor::prover::Prover;
use hodor::transcript::*;
use hodor::verif_hooks as vh;
use hodor::verifier::{InstanceProof, Verifier};
use serde_json::{json, Value};
use std::marker::PhantomData;

pub type I<F> = RecIop<F>;
pub type PT<F> = FRIProofPrototype<F, I<F>>;
pub type PR<F> = FRIProof<F, I<F>>;
pub type FR<F> = NaiveFriIop<F, I<F>>;
pub type Proof<F> = InstanceProof<F, RecTranscript<F>, I<F>, PT<F>, PR<F>, FR<F>, PerRegisterARP>;
pub type Prov<F> = Prover<F, RecTranscript<F>, I<F>, PT<F>, PR<F>, FR<F>, PerRegisterARP>;
pub type Ver<F> = Verifier<F, RecTranscript<F>, I<F>, PT<F>, PR<F>, FR<F>, PerRegisterARP>;

pub fn run(s: &Value) -> Value {
    vh::set_cpus(gud(s, "cpus", 1));
    match gs(s, "op") {
        "idx" => idx(s),
        "idxs" => idxs(s),
        "hist" => with_stark_field!(gs(s, "f"), F, hist::<F>(s)),
        _ => with_stark_field!(gs(s, "f"), F, stark::<F>(s)),
    }
}

/// challenge bytes -> query position
fn idx(s: &Value) -> Value {
    type F = F257;
    let size = gu(s, "size");
    let lde = gu(s, "lde");
    let f = |b: &[u8]| Ver::<F>::bytes_to_challenge_index(b, size, lde);
    let mut got = vec![];
    let mut det = true;
    let mut rng = Rng::new(gud(s, "seed", 1) as u64);
    // every residue of the last bytes, around the borders of the 64-bit word, and random digests
    let mut words: Vec<u64> = (0..(2 * size) as u64).collect();
    for k in 0..size as u64 { words.push(u64::max_value() - k); words.push((k << 40) | (k * 7919)); }
    for w in words {
        let mut b = [0u8; 32];
        for x in b[..24].iter_mut() { *x = rng.next() as u8; }
        for (i, x) in b[24..].iter_mut().enumerate() { *x = (w >> (56 - 8 * i)) as u8; }
        let r = f(&b);
        if r != f(&b.to_vec()) { det = false; }
        got.push(clip(r));
    }
    for _ in 0..4 * size {
        let mut b = [0u8; 32];
        for x in b.iter_mut() { *x = rng.next() as u8; }
        got.push(clip(f(&b)));
    }
    got.sort();
    got.dedup();
    json!({"got": got, "det": det})
}

/// some positions of a domain too large to enumerate
fn idxs(s: &Value) -> Value {
    type F = F257;
    let size = 1usize << gu(s, "lg");
    let lde = gu(s, "lde");
    let mut rng = Rng::new(gud(s, "seed", 1) as u64);
    let mut got = vec![];
    let mut det = true;
    for k in 0..160u64 {
        let w = match k % 8 { 0 => k / 8, 1 => u64::max_value() - k / 8, 2 => (k / 8) << 8, 3 => size as u64 - 1 - k / 8, _ => rng.next() };
        let mut b = [0u8; 32];
        for x in b[..24].iter_mut() { *x = rng.next() as u8; }
        for (i, x) in b[24..].iter_mut().enumerate() { *x = (w >> (56 - 8 * i)) as u8; }
        let r = Ver::<F>::bytes_to_challenge_index(b, size, lde);
        if r != Ver::<F>::bytes_to_challenge_index(b.to_vec(), size, lde) { det = false; }
        got.push(clip(r));
    }
    got.sort();
    got.dedup();
    json!({"got": got, "det": det})
}

pub fn clone_proof<F: PrimeField>(p: &Proof<F>) -> Proof<F> {
    InstanceProof {
        f_at_z_m: p.f_at_z_m.clone(), f_iop_roots: p.f_iop_roots.clone(), g_iop_root: p.g_iop_root.clone(),
        f_queries: p.f_queries.clone(), g_query: p.g_query.clone(),
        h1_iop_roots: p.h1_iop_roots.clone(), h2_iop_roots: p.h2_iop_roots.clone(),
        fri_proof_h1: clone_fri(&p.fri_proof_h1), fri_proof_h2: clone_fri(&p.fri_proof_h2),
        _marker_a: PhantomData, _marker_t: PhantomData, _marker_p: PhantomData, _marker_fri: PhantomData,
    }
}
pub fn clone_fri<F: PrimeField>(p: &PR<F>) -> PR<F> {
    FRIProof { queries: p.queries.clone(), roots: p.roots.clone(), final_coefficients: p.final_coefficients.clone(),
        initial_degree_plus_one: p.initial_degree_plus_one, output_coeffs_at_degree_plus_one: p.output_coeffs_at_degree_plus_one, lde_factor: p.lde_factor }
}
fn same_fri<F: PrimeField>(a: &PR<F>, b: &PR<F>) -> bool {
    a.queries == b.queries && a.roots == b.roots && a.final_coefficients == b.final_coefficients && a.initial_degree_plus_one == b.initial_degree_plus_one
        && a.output_coeffs_at_degree_plus_one == b.output_coeffs_at_degree_plus_one && a.lde_factor == b.lde_factor
}
pub fn same_proof<F: PrimeField>(a: &Proof<F>, b: &Proof<F>) -> bool {
    a.f_at_z_m == b.f_at_z_m && a.f_iop_roots == b.f_iop_roots && a.g_iop_root == b.g_iop_root && a.f_queries == b.f_queries && a.g_query == b.g_query
        && a.h1_iop_roots == b.h1_iop_roots && a.h2_iop_roots == b.h2_iop_roots && same_fri(&a.fri_proof_h1, &b.fri_proof_h1) && same_fri(&a.fri_proof_h2, &b.fri_proof_h2)
}
fn ids(v: &[Digest]) -> Value { Value::Array(v.iter().map(|d| json!(id(d))).collect()) }
pub fn fri_json<F: PrimeField>(p: &PR<F>) -> Value {
    json!({"roots": ids(&p.roots), "q": p.queries.iter().map(qj).collect::<Vec<_>>(), "coefs": vj(&p.final_coefficients),
        "init": clip(p.initial_degree_plus_one), "out": clip(p.output_coeffs_at_degree_plus_one), "lde": clip(p.lde_factor)})
}
pub fn proof_json<F: PrimeField>(p: &Proof<F>) -> Value {
    json!({"fz": vj(&p.f_at_z_m), "fr": ids(&p.f_iop_roots), "gr": id(&p.g_iop_root), "fq": p.f_queries.iter().map(qj).collect::<Vec<_>>(), "gq": qj(&p.g_query),
        "h1r": ids(&p.h1_iop_roots), "h2r": ids(&p.h2_iop_roots), "fri1": fri_json(&p.fri_proof_h1), "fri2": fri_json(&p.fri_proof_h2)})
}

/// challenges and query positions drawn in a log of transcript operations
pub struct Drawn { pub c: Vec<Value>, pub i: Vec<usize>, pub q: Vec<String> }
pub fn drawn<F: PrimeField>(ops: &[Value], sizes: &[usize], lde: usize) -> Drawn {
    let mut d = Drawn { c: vec![], i: vec![], q: vec![] };
    for o in ops {
        match o[0].as_str().unwrap() {
            "c" => d.c.push(o[1].clone()),
            "q" => {
                let b: Vec<u8> = o[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                d.q.push(hex::encode(&b));
                let k = d.i.len().min(sizes.len() - 1);
                d.i.push(Ver::<F>::bytes_to_challenge_index(&b, sizes[k], lde));
            }
            _ => {}
        }
    }
    d
}
/// transcript operations without the raw bytes of query draws
pub fn slim(ops: &[Value]) -> Value { Value::Array(ops.iter().map(|o| if o[0] == "q" { json!(["q", 0]) } else { o.clone() }).collect()) }

pub struct Ctx { pub sizes: Vec<usize>, pub lde: usize, pub full: bool, pub script: Value }

/// run the verifier and describe what it did
pub fn verify_json<F: PrimeField>(v: &Ver<F>, p: &Proof<F>, cx: &Ctx) -> Value {
    take_ops();
    set_script(&cx.script);
    let r = guarded(|| v.verify(p));
    let ops = take_ops();
    let d = drawn::<F>(&ops, &cx.sizes, cx.lde);
    let (got, msg) = match r { Ok(Ok(true)) => ("yes", String::new()), Ok(Ok(false)) => ("no", String::new()), Ok(Err(e)) => ("err", format!("{}", e)), Err(m) => ("panic", m) };
    json!({"got": got, "msg": msg, "vc": d.c, "vi": d.i, "vq": d.q, "vops": slim(&ops)})
}

fn dom_sizes<F: PrimeField>(p: &InstanceProperties<F>, lde: usize) -> Vec<usize> {
    let n = p.num_rows.next_power_of_two();
    let d = p.constraints.iter().map(|c| c.degree).max().unwrap_or(1).next_power_of_two() as usize;
    vec![n * lde, n * d * lde]
}

fn stark<F: PrimeField>(s: &Value) -> Value {
    reset();
    let (props, w) = air::instance::<F>(s);
    let lde = gu(s, "lde");
    let out = gu(s, "out");
    let vlde = gud(s, "vlde", lde);
    let full = is_small::<F>() && !gb(s, "slim");
    let sizes = dom_sizes(&props, lde);
    let cx = Ctx { sizes: sizes.clone(), lde: vlde, full, script: s["script"].clone() };
    let worker = { vh::set_cpus(gud(s, "cpus", 1)); vh::Worker::new() };
    let sat = air::verdict(guarded(|| ARPInstance::<F, PerRegisterARP>::is_satisfied(&props, &w, &worker)));
    let inst = air::props_json(&props);
    let mut res = json!({"p": modulus_small::<F>(), "inst": inst, "w": air::wj(&w), "sat": sat, "proved": "ok", "sizes": sizes});
    take_ops();
    set_script(&cx.script);
    let made = guarded(|| -> Result<Proof<F>, hodor::SynthesisError> { Prov::<F>::new(props.clone(), lde, out)?.prove(w.clone()) });
    let pops = take_ops();
    let d = drawn::<F>(&pops, &sizes, lde);
    let o = res.as_object_mut().unwrap();
    o.insert("pc".into(), json!(d.c));
    o.insert("pi".into(), json!(d.i));
    o.insert("pq".into(), json!(d.q));
    o.insert("pops".into(), slim(&pops));
    let proof = match made {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => { o.insert("proved".into(), json!("err")); o.insert("msg".into(), json!(format!("{}", e))); if full { o.insert("trees".into(), trees_json::<F>(0)); } return res; }
        Err(m) => { o.insert("proved".into(), json!("panic")); o.insert("msg".into(), json!(m)); return res; }
    };
    with(|st| st.record = true);
    let honest = json!({"fz": proof.f_at_z_m.len(), "fr": proof.f_iop_roots.len(), "h1r": proof.h1_iop_roots.len(), "h2r": proof.h2_iop_roots.len()});
    o.insert("lens".into(), honest);
    if full { o.insert("trees".into(), trees_json::<F>(0)); o.insert("proof".into(), proof_json(&proof)); }
    // the verifier of another instance
    let mut vprops = props.clone();
    let mut cx = cx;
    if s["imut"].is_array() {
        air::distort(&mut vprops, &s["imut"]);
        cx.sizes = dom_sizes(&vprops, lde);
        let mut vw = w.clone();
        for c in vw.iter_mut() { c.resize(vprops.num_rows, F::zero()); }
        o.insert("vinst".into(), air::props_json(&vprops));
        o.insert("vsat".into(), json!(air::verdict(guarded(|| ARPInstance::<F, PerRegisterARP>::is_satisfied(&vprops, &vw, &worker)))));
    }
    let ver = match guarded(|| Ver::<F>::new(vprops.clone(), vlde)) {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => { o.insert("ver".into(), json!({"got": "newerr"})); return res; }
        Err(_) => { o.insert("ver".into(), json!({"got": "newpanic"})); return res; }
    };
    // the verifier repeated: same verdict, same challenges
    let v1 = verify_json(&ver, &proof, &cx);
    let v2 = verify_json(&ver, &proof, &cx);
    o.insert("stable".into(), json!(v1 == v2));
    o.insert("ver".into(), v1);
    let mut tampers = vec![];
    if !s["tamper"].is_null() {
        let mut list = tamper_list::<F>(&proof, s, &pops);
        let max = gud(s, "tmax", usize::max_value());
        let mut rng = Rng::new(gud(s, "seed", 1) as u64 ^ 0x7a);
        while list.len() > max { let i = rng.below(list.len()); list.swap_remove(i); }
        for (k, p) in list {
            let mut r = verify_json(&ver, &p, &cx);
            let m = r.as_object_mut().unwrap();
            let parts: Vec<&str> = k.split(' ').collect();
            if parts[0] == "m" { m.insert("m".into(), json!([parts[1], parts[2].parse::<usize>().unwrap()])); }
            m.insert("k".into(), json!(k));
            m.insert("same".into(), json!(same_proof(&p, &proof)));
            m.remove("vops");
            m.remove("msg");
            if full { m.insert("proof".into(), proof_json(&p)); }
            tampers.push(r);
        }
    }
    let o = res.as_object_mut().unwrap();
    o.insert("tampers".into(), Value::Array(tampers));
    if full { o.insert("digch".into(), digest_challenges::<F>()); }
    res
}

/// everything a proof contains, as a short text
pub fn fingerprint<F: PrimeField>(p: &Proof<F>) -> String {
    let mut h: Vec<u8> = vec![];
    fn n(h: &mut Vec<u8>, x: usize) { h.extend_from_slice(&(x as u64).to_le_bytes()); }
    fn v<F: PrimeField>(h: &mut Vec<u8>, x: &[F]) { n(h, x.len()); for y in x { h.extend_from_slice(fj(y).to_string().as_bytes()); h.push(b','); } }
    fn d(h: &mut Vec<u8>, x: &[Digest]) { n(h, x.len()); for y in x { h.extend_from_slice(y); } }
    fn q<F: PrimeField>(h: &mut Vec<u8>, x: &[RecQuery<F>]) { n(h, x.len()); for y in x { n(h, y.index); n(h, y.tree_index); v(h, &[y.value]); d(h, &y.path); } }
    v(&mut h, &p.f_at_z_m); d(&mut h, &p.f_iop_roots); d(&mut h, &[p.g_iop_root]); q(&mut h, &p.f_queries); q(&mut h, &[p.g_query.clone()]);
    d(&mut h, &p.h1_iop_roots); d(&mut h, &p.h2_iop_roots);
    for f in &[&p.fri_proof_h1, &p.fri_proof_h2] {
        d(&mut h, &f.roots); q(&mut h, &f.queries); v(&mut h, &f.final_coefficients);
        n(&mut h, f.initial_degree_plus_one); n(&mut h, f.output_coeffs_at_degree_plus_one); n(&mut h, f.lde_factor);
    }
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x84222325cbf29ce4u64);
    for x in h.iter() { a = (a ^ *x as u64).wrapping_mul(0x100000001b3); b = (b.rotate_left(5) ^ *x as u64).wrapping_mul(0x9e3779b97f4a7c15); }
    format!("{:016x}{:016x}", a, b)
}
/// a proof with one part changed; 0: none
fn changed<F: PrimeField>(p: &Proof<F>, k: usize) -> Proof<F> {
    let mut x = clone_proof(p);
    match k {
        0 => {}
        1 => x.f_at_z_m[0].add_assign(&F::one()),
        2 => x.g_iop_root = flip(&x.g_iop_root, 5),
        3 => { x.f_queries.pop(); }
        4 => x.fri_proof_h1.final_coefficients[0].add_assign(&F::one()),
        5 => { x.fri_proof_h2.roots.pop(); x.h2_iop_roots.pop(); }
        6 => { x.f_at_z_m.pop(); }
        7 => x.g_query = x.g_query.with(|q| q.value.add_assign(&F::one())),
        8 => { let q = x.fri_proof_h2.queries.len() - 1; x.fri_proof_h2.queries[q] = x.fri_proof_h2.queries[q].with(|q| q.value.add_assign(&F::one())); }
        _ => { x.f_at_z_m.clear(); x.f_queries.clear(); x.f_iop_roots.clear(); x.fri_proof_h1.queries.clear(); x.fri_proof_h2.final_coefficients.clear(); }
    }
    x
}

/// One prover and one verifier used again and again, against ones made for every call: steps are
/// ["p", trace] (0 is the given one, the others have one cell changed) and ["v", trace, change].
/// "calls" is what the shared ones returned, "fresh" what the others did, "together" what the shared ones return when all
/// steps run at the same time, each "pair" with the number of threads of the machine it ran with.
fn hist<F: PrimeField>(s: &Value) -> Value {
    with(|st| { *st = State::default(); });
    let (props, w) = air::instance::<F>(s);
    let lde = gu(s, "lde");
    let out = gu(s, "out");
    let cpus = gud(s, "cpus", 1);
    let variant = |k: usize| { let mut x = w.clone(); if k > 0 { let r = k % x.len(); let n = x[r].len(); x[r][(3 * k) % n].add_assign(&fu::<F>(k as u64)); } x };
    let steps: Vec<(bool, usize, usize)> = s["steps"].as_array().expect("steps").iter().map(|x| (x[0] == json!("p"), x[1].as_u64().unwrap() as usize, x.as_array().unwrap().get(2).and_then(|y| y.as_u64()).unwrap_or(0) as usize)).collect();
    let prove = |pr: &Prov<F>, k: usize| -> (String, Option<Proof<F>>) {
        match guarded(|| pr.prove(variant(k))) { Ok(Ok(p)) => (fingerprint(&p), Some(p)), Ok(Err(_)) => ("err".to_string(), None), Err(_) => ("panic".to_string(), None) }
    };
    let verify = |v: &Ver<F>, p: &Option<Proof<F>>, k: usize| -> String {
        match p { None => "none".to_string(), Some(p) => match guarded(|| v.verify(&changed(p, k))) { Ok(Ok(true)) => "yes", Ok(Ok(false)) => "no", Ok(Err(_)) => "err", Err(_) => "panic" }.to_string() }
    };
    let set = |c: usize| vh::set_cpus(c);
    let newp = || Prov::<F>::new(props.clone(), lde, out).expect("prover");
    let newv = || Ver::<F>::new(props.clone(), lde).expect("verifier");
    // the proofs the verifiers are given
    let nw = steps.iter().map(|x| x.1).max().unwrap_or(0) + 1;
    set(cpus);
    let proofs: Vec<Option<Proof<F>>> = (0..nw).map(|k| prove(&newp(), k).1).collect();
    let (pr, ve) = (newp(), newv());
    let calls: Vec<String> = steps.iter().map(|(p, k, t)| if *p { prove(&pr, *k).0 } else { verify(&ve, &proofs[*k], *t) }).collect();
    // made for the call, with another number of threads each time
    let counts: Vec<usize> = s["cpulist"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_else(|| vec![cpus]);
    let fresh: Vec<String> = steps.iter().enumerate().map(|(i, (p, k, t))| { set(counts[i % counts.len()]); if *p { prove(&newp(), *k).0 } else { verify(&newv(), &proofs[*k], *t) } }).collect();
    set(cpus);
    let sat: Vec<&str> = (0..nw).map(|k| { let worker = vh::Worker::new(); air::verdict(guarded(|| ARPInstance::<F, PerRegisterARP>::is_satisfied(&props, &variant(k), &worker))) }).collect();
    // all at once
    let together: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = steps.iter().map(|(p, k, t)| { let (pr, ve, proofs, prove, verify) = (&pr, &ve, &proofs, &prove, &verify); let (p, k, t) = (*p, *k, *t); sc.spawn(move || if p { prove(pr, k).0 } else { verify(ve, &proofs[k], t) }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic".to_string())).collect()
    });
    json!({"p": modulus_small::<F>(), "regs": props.num_registers, "sat": sat, "calls": calls, "fresh": fresh, "together": together})
}

// ---------------------------------------------------------------- altered proofs
fn flip(d: &Digest, i: usize) -> Digest { let mut d = *d; d[i % 32] ^= 1 << (i % 8); d }

/// opening of a committed tree at any position, from the log
pub fn open<F: PrimeField>(root: &Digest, i: usize) -> Option<RecQuery<F>> {
    let r = id(root);
    with(|s| {
        let t = s.trees.iter().find(|t| t.root == r)?;
        if i >= t.leaves.len() { return None; }
        Some(RecQuery::forged(i, fparse::<F>(&t.leaves[i]), ref_path(&t.levels, i)))
    })
}
pub fn tree_size(root: &Digest) -> usize { let r = id(root); with(|s| s.trees.iter().find(|t| t.root == r).map(|t| t.leaves.len()).unwrap_or(0)) }

/// all the ways to alter a single opening
fn query_variants<F: PrimeField>(q: &RecQuery<F>, root: &Digest, other: &Digest, rng: &mut Rng) -> Vec<(String, RecQuery<F>)> {
    let one = F::one();
    let n = 1usize << q.path.len();
    let mut out = vec![];
    out.push(("value+1".to_string(), q.with(|x| x.value.add_assign(&one))));
    let r = rng.field::<F>();
    out.push(("value random".into(), q.with(|x| x.value = r)));
    out.push(("index+n".into(), q.with(|x| { x.index += n; x.tree_index += n; })));
    out.push(("tree index+n".into(), q.with(|x| x.tree_index += n)));
    out.push(("natural index+1".into(), q.with(|x| x.index += 1)));
    out.push(("natural index+n".into(), q.with(|x| x.index += n)));
    out.push(("index huge".into(), q.with(|x| { x.index = usize::max_value(); x.tree_index = usize::max_value(); })));
    out.push(("index^1".into(), q.with(|x| { x.index ^= 1; x.tree_index ^= 1; })));
    let k = rng.below(q.path.len().max(1));
    if !q.path.is_empty() {
        out.push((format!("path bit {}", k), q.with(|x| x.path[k][3] ^= 8)));
        out.push(("path short".into(), q.with(|x| { x.path.pop(); })));
        out.push(("path short front".into(), q.with(|x| { x.path.remove(0); })));
    }
    out.push(("path long".into(), q.with(|x| x.path.push([0u8; 32]))));
    out.push(("path empty".into(), q.with(|x| x.path.clear())));
    for j in &[1usize, 2, n / 2, n / 2 + 2] {
        if let Some(o) = open::<F>(root, (q.index + j) % n) { out.push((format!("opening at +{}", j), o)); }
    }
    if let Some(o) = open::<F>(other, q.index) { out.push(("opening of another oracle".into(), o)); }
    out
}

fn tamper_list<F: PrimeField>(p: &Proof<F>, s: &Value, pops: &[Value]) -> Vec<(String, Proof<F>)> {
    let mut rng = Rng::new(gud(s, "seed", 1) as u64 ^ 0x55);
    let mut l: Vec<(String, Proof<F>)> = vec![];
    let one = F::one();
    let modes: Vec<String> = s["tamper"].as_array().expect("tamper").iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let has = |m: &str| modes.iter().any(|x| x == m);
    macro_rules! t { ($name:expr, |$x:ident| $b:block) => {{ let mut $x = clone_proof(p); $b; l.push(($name.to_string(), $x)); }} }

    if has("msg") {
        // every prover message, changed so that the proof stays well-formed: used to see which challenges move
        for i in 0..p.f_iop_roots.len() { t!(format!("m f_root {}", i), |x| { x.f_iop_roots[i] = flip(&x.f_iop_roots[i], 9 + i) }); }
        t!("m g_root 0", |x| { x.g_iop_root = flip(&x.g_iop_root, 5) });
        for i in 0..p.f_at_z_m.len() { t!(format!("m f_at_z {}", i), |x| { x.f_at_z_m[i].add_assign(&one) }); }
        for i in 0..p.h1_iop_roots.len() { t!(format!("m h1_root {}", i), |x| { x.h1_iop_roots[i] = flip(&x.h1_iop_roots[i], i); x.fri_proof_h1.roots[i] = x.h1_iop_roots[i] }); }
        for i in 0..p.h2_iop_roots.len() { t!(format!("m h2_root {}", i), |x| { x.h2_iop_roots[i] = flip(&x.h2_iop_roots[i], i); x.fri_proof_h2.roots[i] = x.h2_iop_roots[i] }); }
        for i in 0..p.fri_proof_h1.final_coefficients.len() { t!(format!("m h1_coef {}", i), |x| { x.fri_proof_h1.final_coefficients[i].add_assign(&one) }); }
        for i in 0..p.fri_proof_h2.final_coefficients.len() { t!(format!("m h2_coef {}", i), |x| { x.fri_proof_h2.final_coefficients[i].add_assign(&one) }); }
    }
    if has("parts") {
        t!("same", |x| { let _ = &mut x; });
        t!("queries rebuilt", |x| { for q in x.f_queries.iter_mut() { q.real = None; } x.g_query.real = None; });
        for i in 0..p.f_at_z_m.len() {
            t!(format!("f_at_z {} +1", i), |x| { x.f_at_z_m[i].add_assign(&one) });
            t!(format!("f_at_z {} zero", i), |x| { x.f_at_z_m[i] = F::zero() });
            t!(format!("f_at_z {} dropped", i), |x| { x.f_at_z_m.remove(i); });
            t!(format!("f_at_z {} doubled", i), |x| { let v = x.f_at_z_m[i]; x.f_at_z_m.insert(i, v); });
            if i > 0 { t!(format!("f_at_z {} swapped", i), |x| { x.f_at_z_m.swap(i, i - 1) }); }
        }
        t!("f_at_z longer", |x| { x.f_at_z_m.push(F::zero()) });
        for i in 0..p.f_iop_roots.len() {
            t!(format!("f_root {} bit", i), |x| { x.f_iop_roots[i] = flip(&x.f_iop_roots[i], 40 + i) });
            t!(format!("f_root {} last byte", i), |x| { x.f_iop_roots[i][31] ^= 1 });
            t!(format!("f_root {} = g_root", i), |x| { x.f_iop_roots[i] = x.g_iop_root });
            t!(format!("f_root {} dropped", i), |x| { x.f_iop_roots.remove(i); });
            t!(format!("f_root {} doubled", i), |x| { let v = x.f_iop_roots[i]; x.f_iop_roots.insert(i, v); });
            t!(format!("f_root and query {} dropped", i), |x| { x.f_iop_roots.remove(i); x.f_queries.remove(i); });
            t!(format!("f_root and query {} doubled", i), |x| { let v = x.f_iop_roots[i]; x.f_iop_roots.insert(i, v); let q = x.f_queries[i].clone(); x.f_queries.insert(i, q); });
            if i > 0 {
                t!(format!("f_root {} swapped", i), |x| { x.f_iop_roots.swap(i, i - 1) });
                t!(format!("f_root and query {} swapped", i), |x| { x.f_iop_roots.swap(i, i - 1); x.f_queries.swap(i, i - 1) });
                t!(format!("f_query {} swapped", i), |x| { x.f_queries.swap(i, i - 1) });
            }
            t!(format!("f_query {} dropped", i), |x| { x.f_queries.remove(i); });
            t!(format!("f_query {} doubled", i), |x| { let v = x.f_queries[i].clone(); x.f_queries.insert(i, v); });
            for (k, q) in query_variants(&p.f_queries[i], &p.f_iop_roots[i], &p.g_iop_root, &mut rng) { t!(format!("f_query {} {}", i, k), |x| { x.f_queries[i] = q }); }
        }
        t!("g_root bit", |x| { x.g_iop_root = flip(&x.g_iop_root, 77) });
        t!("g_root = f_root", |x| { x.g_iop_root = x.f_iop_roots[0] });
        t!("g_root = h2_root", |x| { x.g_iop_root = x.h2_iop_roots[0] });
        for (k, q) in query_variants(&p.g_query, &p.g_iop_root, &p.f_iop_roots[0], &mut rng) { t!(format!("g_query {}", k), |x| { x.g_query = q }); }
        for w in 0..2 {
            let fri = if w == 0 { &p.fri_proof_h1 } else { &p.fri_proof_h2 };
            macro_rules! fr { ($x:ident) => { if w == 0 { &mut $x.fri_proof_h1 } else { &mut $x.fri_proof_h2 } } }
            macro_rules! hr { ($x:ident) => { if w == 0 { &mut $x.h1_iop_roots } else { &mut $x.h2_iop_roots } } }
            for i in 0..fri.roots.len() {
                t!(format!("fri{} root {} bit", w, i), |x| { let d = flip(&fri.roots[i], i); fr!(x).roots[i] = d });
                t!(format!("h{} root {} bit", w, i), |x| { let d = flip(&fri.roots[i], i); hr!(x)[i] = d });
                t!(format!("both{} root {} bit", w, i), |x| { let d = flip(&fri.roots[i], i); hr!(x)[i] = d; fr!(x).roots[i] = d });
                t!(format!("h{} root {} dropped", w, i), |x| { hr!(x).remove(i); });
                t!(format!("both{} root {} dropped", w, i), |x| { hr!(x).remove(i); fr!(x).roots.remove(i); });
                t!(format!("layer{} {} dropped", w, i), |x| { hr!(x).remove(i); let f = fr!(x); f.roots.remove(i); f.queries.remove(2 * i); f.queries.remove(2 * i); });
                t!(format!("layer{} {} doubled", w, i), |x| { let r = fri.roots[i]; hr!(x).insert(i, r); let f = fr!(x); f.roots.insert(i, r); let a = f.queries[2 * i].clone(); let b = f.queries[2 * i + 1].clone(); f.queries.insert(2 * i, b); f.queries.insert(2 * i, a); });
                if i > 0 { t!(format!("both{} root {} swapped", w, i), |x| { hr!(x).swap(i, i - 1); fr!(x).roots.swap(i, i - 1) }); }
            }
            t!(format!("h{} roots empty", w), |x| { hr!(x).clear() });
            for i in 0..fri.queries.len() {
                t!(format!("fri{} query {} dropped", w, i), |x| { fr!(x).queries.remove(i); });
                t!(format!("fri{} query {} doubled", w, i), |x| { let f = fr!(x); let q = f.queries[i].clone(); f.queries.insert(i, q); });
                if i % 2 == 1 { t!(format!("fri{} queries {} swapped", w, i), |x| { fr!(x).queries.swap(i, i - 1) }); }
                if i >= 2 { t!(format!("fri{} queries {} swapped across", w, i), |x| { fr!(x).queries.swap(i, i - 2) }); }
                for (k, q) in query_variants(&fri.queries[i], &fri.roots[i / 2], &p.g_iop_root, &mut rng) { t!(format!("fri{} query {} {}", w, i, k), |x| { fr!(x).queries[i] = q }); }
            }
            let nc = fri.final_coefficients.len();
            for i in 0..nc {
                t!(format!("fri{} coef {} +1", w, i), |x| { fr!(x).final_coefficients[i].add_assign(&one) });
                if i > 0 { t!(format!("fri{} coef {} swapped", w, i), |x| { fr!(x).final_coefficients.swap(i, i - 1) }); }
            }
            t!(format!("fri{} coef dropped", w), |x| { fr!(x).final_coefficients.pop(); });
            t!(format!("fri{} coef zero added", w), |x| { fr!(x).final_coefficients.push(F::zero()) });
            t!(format!("fri{} coef one added", w), |x| { fr!(x).final_coefficients.push(F::one()) });
            t!(format!("fri{} coefs doubled with out", w), |x| { let f = fr!(x); let n = f.final_coefficients.len(); f.final_coefficients.resize(2 * n, F::zero()); f.output_coeffs_at_degree_plus_one *= 2; });
            for (k, v) in &[("x2", 2usize), ("x4", 4)] {
                t!(format!("fri{} init {}", w, k), |x| { fr!(x).initial_degree_plus_one *= *v });
                t!(format!("fri{} out {}", w, k), |x| { fr!(x).output_coeffs_at_degree_plus_one *= *v });
                t!(format!("fri{} lde {}", w, k), |x| { fr!(x).lde_factor *= *v });
                t!(format!("fri{} init/ {}", w, k), |x| { fr!(x).initial_degree_plus_one /= *v });
                t!(format!("fri{} out/ {}", w, k), |x| { fr!(x).output_coeffs_at_degree_plus_one /= *v });
                t!(format!("fri{} lde/ {}", w, k), |x| { fr!(x).lde_factor /= *v });
                t!(format!("fri{} init lde/ {}", w, k), |x| { let f = fr!(x); f.initial_degree_plus_one *= *v; f.lde_factor /= *v });
                t!(format!("fri{} lde init/ {}", w, k), |x| { let f = fr!(x); f.initial_degree_plus_one /= *v; f.lde_factor *= *v });
                t!(format!("fri{} init out {}", w, k), |x| { let f = fr!(x); f.initial_degree_plus_one *= *v; f.output_coeffs_at_degree_plus_one *= *v });
            }
        }
        t!("fri exchanged", |x| { let a = clone_fri(&p.fri_proof_h2); let b = clone_fri(&p.fri_proof_h1); x.fri_proof_h1 = a; x.fri_proof_h2 = b; });
        t!("fri and roots exchanged", |x| { let a = clone_fri(&p.fri_proof_h2); let b = clone_fri(&p.fri_proof_h1); x.h1_iop_roots = a.roots.clone(); x.h2_iop_roots = b.roots.clone(); x.fri_proof_h1 = a; x.fri_proof_h2 = b; });
    }
    if has("shape") {
        // absurd shapes and sizes
        t!("all lists empty", |x| { x.f_at_z_m.clear(); x.f_iop_roots.clear(); x.f_queries.clear(); x.h1_iop_roots.clear(); x.h2_iop_roots.clear(); x.fri_proof_h1.roots.clear(); x.fri_proof_h1.queries.clear(); x.fri_proof_h1.final_coefficients.clear(); });
        t!("f lists empty", |x| { x.f_iop_roots.clear(); x.f_queries.clear(); });
        t!("f_at_z empty", |x| { x.f_at_z_m.clear(); });
        t!("f_at_z long", |x| { x.f_at_z_m.resize(1000, F::one()); });
        t!("f roots long", |x| { let r = x.f_iop_roots[0]; x.f_iop_roots.resize(100, r); let q = x.f_queries[0].clone(); x.f_queries.resize(100, q); });
        t!("f queries long path", |x| { let q = x.f_queries[0].with(|y| y.path.resize(70, [1u8; 32])); x.f_queries[0] = q; });
        t!("g query long path", |x| { let q = x.g_query.with(|y| y.path.resize(200, [1u8; 32])); x.g_query = q; });
        let big: [usize; 12] = [0, 1, 2, 3, 5, 6, 1 << 20, 1 << 31, 1 << 32, 1 << 62, 1 << 63, usize::max_value()];
        for w in 0..2 {
            macro_rules! fr { ($x:ident) => { if w == 0 { &mut $x.fri_proof_h1 } else { &mut $x.fri_proof_h2 } } }
            macro_rules! hr { ($x:ident) => { if w == 0 { &mut $x.h1_iop_roots } else { &mut $x.h2_iop_roots } } }
            for v in big.iter() {
                t!(format!("shape fri{} init {}", w, v), |x| { fr!(x).initial_degree_plus_one = *v });
                t!(format!("shape fri{} out {}", w, v), |x| { fr!(x).output_coeffs_at_degree_plus_one = *v });
                t!(format!("shape fri{} lde {}", w, v), |x| { fr!(x).lde_factor = *v });
                t!(format!("shape fri{} init out {}", w, v), |x| { let f = fr!(x); f.initial_degree_plus_one = *v; f.output_coeffs_at_degree_plus_one = *v });
            }
            t!(format!("shape fri{} empty", w), |x| { let f = fr!(x); f.roots.clear(); f.queries.clear(); f.final_coefficients.clear(); });
            t!(format!("shape fri{} no roots", w), |x| { fr!(x).roots.clear(); });
            t!(format!("shape fri{} no roots at all", w), |x| { fr!(x).roots.clear(); hr!(x).clear(); });
            t!(format!("shape fri{} no queries", w), |x| { fr!(x).queries.clear(); });
            t!(format!("shape fri{} no coefs", w), |x| { fr!(x).final_coefficients.clear(); });
            t!(format!("shape fri{} no coefs, out 0", w), |x| { let f = fr!(x); f.final_coefficients.clear(); f.output_coeffs_at_degree_plus_one = 0; });
            t!(format!("shape fri{} one query", w), |x| { fr!(x).queries.truncate(1); });
            t!(format!("shape fri{} odd queries", w), |x| { fr!(x).queries.pop(); });
            t!(format!("shape fri{} many queries", w), |x| { let f = fr!(x); let q = f.queries[0].clone(); f.queries.resize(1001, q); });
            t!(format!("shape fri{} many roots", w), |x| { let f = fr!(x); let r = f.roots[0]; f.roots.resize(100, r); let rr = f.roots.clone(); *hr!(x) = rr; });
            t!(format!("shape fri{} many roots and queries", w), |x| { let f = fr!(x); let r = f.roots[0]; f.roots.resize(80, r); let q = f.queries[0].clone(); f.queries.resize(160, q); let rr = f.roots.clone(); *hr!(x) = rr; });
            t!(format!("shape fri{} many coefs", w), |x| { fr!(x).final_coefficients.resize(5000, F::one()); });
            t!(format!("shape fri{} reversed queries", w), |x| { fr!(x).queries.reverse(); });
        }
        // random combinations of list and number changes
        for k in 0..gud(s, "combos", 20) {
            t!(format!("combo {}", k), |x| {
                for _ in 0..rng.range(2, 5) {
                    let w = rng.below(2);
                    let f = if w == 0 { &mut x.fri_proof_h1 } else { &mut x.fri_proof_h2 };
                    match rng.below(12) {
                        0 => f.initial_degree_plus_one = big[rng.below(big.len())],
                        1 => f.output_coeffs_at_degree_plus_one = big[rng.below(big.len())],
                        2 => f.lde_factor = big[rng.below(big.len())],
                        3 => { let n = rng.below(f.roots.len() + 3); let r = [7u8; 32]; f.roots.resize(n, r); let rr = f.roots.clone(); if w == 0 { x.h1_iop_roots = rr } else { x.h2_iop_roots = rr } }
                        4 => { if let Some(q) = f.queries.last().cloned() { let n = rng.below(f.queries.len() + 5); f.queries.resize(n, q); } }
                        5 => { let n = rng.below(2 * f.final_coefficients.len() + 3); f.final_coefficients.resize(n, F::one()); }
                        6 => { let n = rng.below(x.f_at_z_m.len() + 3); x.f_at_z_m.resize(n, F::one()); }
                        7 => { let n = rng.below(x.f_iop_roots.len() + 3); x.f_iop_roots.resize(n, [3u8; 32]); }
                        8 => { let q = p.g_query.clone(); let n = rng.below(x.f_queries.len() + 3); x.f_queries.resize(n, q); }
                        9 => { if !f.queries.is_empty() { let i = rng.below(f.queries.len()); let v = big[rng.below(big.len())]; f.queries[i] = f.queries[i].with(|y| { y.index = v; y.tree_index = v; }); } }
                        10 => { let v = big[rng.below(big.len())]; x.g_query = x.g_query.with(|y| { y.index = v; if v % 2 == 0 { y.path.clear(); } }); }
                        _ => { if !f.queries.is_empty() { let i = rng.below(f.queries.len()); let n = rng.below(70); f.queries[i] = f.queries[i].with(|y| y.path.resize(n, [0u8; 32])); } }
                    }
                }
            });
        }
    }
    if has("pos") {
        // the whole opening of one side moved to another position (values agree there on constant traces)
        let n1 = tree_size(&p.f_iop_roots[0]);
        let n2 = tree_size(&p.g_iop_root);
        for d in &[1usize, 2, 3, n1 / 2, n1 / 2 + 1] {
            let i = (p.f_queries[0].index + d) % n1.max(1);
            t!(format!("pos f only +{}", d), |x| { for (q, r) in x.f_queries.iter_mut().zip(p.f_iop_roots.iter()) { if let Some(o) = open::<F>(r, i) { *q = o; } } });
            t!(format!("pos fri1 only +{}", d), |x| { move_fri(&mut x.fri_proof_h1, i) });
            t!(format!("pos f and fri1 +{}", d), |x| { for (q, r) in x.f_queries.iter_mut().zip(p.f_iop_roots.iter()) { if let Some(o) = open::<F>(r, i) { *q = o; } } move_fri(&mut x.fri_proof_h1, i) });
        }
        for i in 0..p.f_queries.len() { for d in &[1usize, 2, n1 / 2] {
            if let Some(o) = open::<F>(&p.f_iop_roots[i], (p.f_queries[i].index + d) % n1.max(1)) { t!(format!("pos f{} +{}", i, d), |x| { x.f_queries[i] = o }); }
        } }
        for d in &[1usize, 2, 3, n2 / 2, n2 / 2 + 1] {
            let i = (p.g_query.index + d) % n2.max(1);
            t!(format!("pos g only +{}", d), |x| { if let Some(o) = open::<F>(&p.g_iop_root, i) { x.g_query = o; } });
            t!(format!("pos fri2 only +{}", d), |x| { move_fri(&mut x.fri_proof_h2, i) });
            t!(format!("pos g and fri2 +{}", d), |x| { if let Some(o) = open::<F>(&p.g_iop_root, i) { x.g_query = o; } move_fri(&mut x.fri_proof_h2, i) });
        }
        // first and second position exchanged
        let (a, b) = (p.g_query.index, p.f_queries[0].index);
        t!("pos exchanged f", |x| { for (q, r) in x.f_queries.iter_mut().zip(p.f_iop_roots.iter()) { if let Some(o) = open::<F>(r, a % n1.max(1)) { *q = o; } } move_fri(&mut x.fri_proof_h1, a % n1.max(1)) });
        t!("pos exchanged g", |x| { if let Some(o) = open::<F>(&p.g_iop_root, b) { x.g_query = o; } move_fri(&mut x.fri_proof_h2, b) });
    }
    if has("params") {
        // low-degree proofs for other sizes, roots or numbers of rounds, consistent in themselves (all layers zero, which
        // is right for instances with constant traces); the query positions are recomputed for the forged roots
        let last = pops.iter().rposition(|o| o[0] == "c").map(|i| i + 1).unwrap_or(0);
        let h = |fri: &PR<F>| (fri.initial_degree_plus_one, fri.output_coeffs_at_degree_plus_one, fri.lde_factor);
        for w in 0..2 {
            let (n, o, e) = h(if w == 0 { &p.fri_proof_h1 } else { &p.fri_proof_h2 });
            let mut sets: Vec<(String, usize, usize, usize, i32, i32, bool)> = vec![("same".into(), n, o, e, 0, 0, false)];
            for (a, b) in &[(2usize, 2usize), (4, 4)] {
                sets.push((format!("init*{} lde/{}", a, b), n * a, o, e / b, 0, 0, false));
                sets.push((format!("init*{} out*{} lde/{}", a, a, b), n * a, o * a, e / b, 0, 0, false));
                sets.push((format!("init/{} lde*{}", a, b), n / a, o.min(n / a), e * b, 0, 0, false));
                sets.push((format!("init*{}", a), n * a, o, e, 0, 0, false));
                sets.push((format!("init*{} out*{}", a, a), n * a, o * a, e, 0, 0, false));
                sets.push((format!("init/{}", a), n / a, o.min(n / a), e, 0, 0, false));
                sets.push((format!("lde*{}", a), n, o, e * a, 0, 0, false));
                sets.push((format!("lde/{}", a), n, o, e / a, 0, 0, false));
                sets.push((format!("out*{}", a), n, o * a, e, 0, 0, false));
                sets.push((format!("out/{}", a), n, o / a, e, 0, 0, false));
            }
            sets.push(("full domain".into(), n * e, o, 1, 0, 0, false));
            sets.push(("full domain, all coefs".into(), n * e, n * e, 1, 0, 0, false));
            sets.push(("all coefs".into(), n, n, e, 0, 0, false));
            sets.push(("one coef".into(), n, 1, e, 0, 0, false));
            for dc in &[-1, 1, 2] { sets.push((format!("coefs {:+}", dc), n, o, e, *dc, 0, false)); }
            for dr in &[-1, 1, 2] { sets.push((format!("rounds {:+}", dr), n, o, e, 0, *dr, false)); }
            sets.push(("decoy".into(), n, o, e, 0, 0, true));
            for (name, init, outd, lde, dc, dr, decoy) in sets {
                if init == 0 || outd == 0 || lde == 0 || outd > init || init * lde > 1 << 14 || init * lde < 2 { continue; }
                let mut x = clone_proof(p);
                let rounds = { let mut k = 0; while (outd << k) < init { k += 1; } k } as i32 + 1 + dr;
                if rounds < 1 { continue; }
                let mut layers: Vec<Vec<F>> = vec![];
                let mut sz = init * lde;
                for _ in 0..rounds { layers.push(vec![F::zero(); sz.max(2)]); sz /= 2; }
                let roots: Vec<Digest> = layers.iter().map(|v| I::<F>::create(v).get_root()).collect();
                let nc = (outd as i32 + dc).max(0) as usize;
                let shown: Vec<Digest> = if decoy { roots.iter().map(|r| flip(r, 3)).collect() } else { roots.clone() };
                { let f = if w == 0 { &mut x.fri_proof_h1 } else { &mut x.fri_proof_h2 };
                  f.roots = roots; f.final_coefficients = vec![F::zero(); nc]; f.initial_degree_plus_one = init; f.output_coeffs_at_degree_plus_one = outd; f.lde_factor = lde; }
                if w == 0 { x.h1_iop_roots = shown } else { x.h2_iop_roots = shown }
                // new query positions
                with(|s| s.record = false);
                let mut t = RecTranscript::<F>::new();
                for op in pops[..last].iter() {
                    match op[0].as_str().unwrap() {
                        "r" => { let k = op[1].as_u64().unwrap() as usize; let d = with(|s| s.digests[k - 1]); t.commit_bytes(&d) }
                        "b" => t.commit_bytes(&hex::decode(op[1].as_str().unwrap()).unwrap()),
                        "f" => t.commit_field_element(&fparse::<F>(&op[1])),
                        "c" => { let _: F = t.get_challenge(); }
                        _ => { let _ = t.get_challenge_bytes(); }
                    }
                }
                for r in x.h1_iop_roots.iter() { t.commit_bytes(r); }
                for c in x.fri_proof_h1.final_coefficients.iter() { t.commit_field_element(c); }
                for r in x.h2_iop_roots.iter() { t.commit_bytes(r); }
                for c in x.fri_proof_h2.final_coefficients.iter() { t.commit_field_element(c); }
                let b1 = t.get_challenge_bytes();
                let b2 = t.get_challenge_bytes();
                with(|s| { s.record = true; });
                let lf = gud(s, "vlde", gu(s, "lde"));
                let n1 = tree_size(&p.f_iop_roots[0]);
                let n2 = tree_size(&p.g_iop_root);
                let i1 = Ver::<F>::bytes_to_challenge_index(&b1, n1, lf);
                let i2 = Ver::<F>::bytes_to_challenge_index(&b2, n2, lf);
                for (q, r) in x.f_queries.iter_mut().zip(p.f_iop_roots.iter()) { if let Some(o) = open::<F>(r, i1) { *q = o; } }
                if let Some(o) = open::<F>(&p.g_iop_root, i2) { x.g_query = o; }
                move_fri(&mut x.fri_proof_h1, i1);
                move_fri(&mut x.fri_proof_h2, i2);
                l.push((format!("params {} {}", w, name), x));
            }
        }
    }
    l
}

/// rebuild the openings of a low-degree proof for another first position, from the recorded trees of its roots
pub fn move_fri<F: PrimeField>(f: &mut PR<F>, i: usize) {
    let mut size = f.initial_degree_plus_one * f.lde_factor;
    let mut i = i % size.max(1);
    let mut qs = vec![];
    for r in f.roots.iter() {
        if size < 2 { size = 2; }
        let half = size / 2;
        let a = i % half;
        for j in &[a, a + half] {
            qs.push(open::<F>(r, *j).unwrap_or_else(|| RecQuery::forged(*j, F::zero(), vec![])));
        }
        size = half;
        i = a;
    }
    f.queries = qs;
}
