//! The low-degree test on its own: honest and forged proofs for chosen inputs.
use crate::air::guarded;
use crate::ops_stark::*;
use crate::rec::*;
use crate::util::*;
use ff::PrimeField;
use hodor::fri::*;
use hodor::iop::*;
use hodor::polynomials::*;
use hodor::verif_hooks as vh;
use serde_json::{json, Value};

pub fn run(s: &Value) -> Value {
    vh::set_cpus(gud(s, "cpus", 1));
    with_stark_field!(gs(s, "f"), F, fri::<F>(s))
}

fn vs<E>(r: Result<Result<bool, E>, String>) -> &'static str {
    match r { Ok(Ok(true)) => "yes", Ok(Ok(false)) => "no", Ok(Err(_)) => "err", Err(_) => "panic" }
}

fn proto_json<F: PrimeField>(p: &PT<F>) -> Value {
    json!({"l0": id(&p.l0_commitment.get_root()), "roots": p.intermediate_commitments.iter().map(|c| id(&c.get_root())).collect::<Vec<_>>(),
        "layers": p.intermediate_values.iter().map(|v| vj(v.as_ref())).collect::<Vec<_>>(), "ch": vj(&p.challenges), "final": id(&p.final_root),
        "coefs": vj(&p.final_coefficients), "init": p.initial_degree_plus_one, "out": p.output_coeffs_at_degree_plus_one, "lde": p.lde_factor,
        "getroots": FriProofPrototype::<F, RecIop<F>>::get_roots(p).iter().map(|r| id(r)).collect::<Vec<_>>()})
}

fn same_proto<F: PrimeField>(a: &PT<F>, b: &PT<F>) -> bool {
    a.l0_commitment == b.l0_commitment && a.intermediate_commitments == b.intermediate_commitments && a.challenges == b.challenges && a.final_root == b.final_root
        && a.final_coefficients == b.final_coefficients && a.initial_degree_plus_one == b.initial_degree_plus_one && a.lde_factor == b.lde_factor
        && a.output_coeffs_at_degree_plus_one == b.output_coeffs_at_degree_plus_one && a.intermediate_values.len() == b.intermediate_values.len()
        && a.intermediate_values.iter().zip(b.intermediate_values.iter()).all(|(x, y)| x.as_ref() == y.as_ref())
}

/// values of the polynomial on the domain; no use of the transforms of the crate
fn evaluate<F: PrimeField>(c: &[F], size: usize) -> Vec<F> {
    let d = hodor::domains::Domain::<F>::new_for_size(size as u64).expect("harness: domain");
    let mut x = F::one();
    (0..size).map(|_| {
        let mut v = F::zero();
        for k in c.iter().rev() { v.mul_assign(&x); v.add_assign(k); }
        x.mul_assign(&d.generator);
        v
    }).collect()
}

/// scenario: f, deg (degree bound, a power of two), lde, out, cpus, in, seed; over: extra degree of the real polynomial
fn fri<F: PrimeField>(s: &Value) -> Value {
    reset();
    let deg = gu(s, "deg");
    let lde = gu(s, "lde");
    let out = gu(s, "out");
    let n = deg * lde;
    let mut rng = Rng::new(gud(s, "seed", 1) as u64 ^ 0x99);
    let mut coefs = input::<F>(s, "a", deg, 0);
    for _ in 0..gud(s, "over", 0).min(n - deg) { coefs.push(rng.nonzero()); }
    let mut vals = evaluate(&coefs, n);
    for _ in 0..gud(s, "noise", 0) { let i = rng.below(n); vals[i] = rng.field(); }
    let worker = { vh::set_cpus(gud(s, "cpus", 1)); vh::Worker::new() };
    let poly = Polynomial::<F, Values>::from_values(vals.clone()).expect("harness: values");
    let full = is_small::<F>();
    let make = |through: bool| -> Result<Result<PT<F>, hodor::SynthesisError>, String> {
        guarded(|| if through { FR::<F>::proof_from_lde_through_coefficients(poly.clone(), lde, out, &worker) } else { FR::<F>::proof_from_lde_by_values(&poly, lde, out, &worker) })
    };
    let bv = match make(false) { Ok(Ok(p)) => p, Ok(Err(_)) => return json!({"p": modulus_small::<F>(), "got": "err"}), Err(m) => return json!({"p": modulus_small::<F>(), "got": "panic", "msg": m}) };
    let mut res = json!({"p": modulus_small::<F>(), "got": "ok", "a": vj(&coefs), "vals": vj(&vals), "n": n});
    let o = res.as_object_mut().unwrap();
    o.insert("byv".into(), if full { proto_json(&bv) } else { json!({"coefs": vj(&bv.final_coefficients)}) });
    match make(true) {
        Ok(Ok(p)) => {
            o.insert("thr".into(), json!("ok"));
            o.insert("samethr".into(), json!(same_proto(&p, &bv)));
            if full { o.insert("byc".into(), proto_json(&p)); }
        }
        Ok(Err(_)) => { o.insert("thr".into(), json!("err")); }
        Err(_) => { o.insert("thr".into(), json!("panic")); }
    }
    // positions
    let all: Vec<usize> = if n <= gud(s, "allpos", 64) { (0..n).collect() } else { let mut v: Vec<usize> = (0..(if n > 1024 { 2 } else { 8 })).map(|_| rng.below(n)).collect(); v.extend(&[1, n / 2 + 1, n - 1, 0, n / 2]); if n > 1024 { v.truncate(4); } v };
    let one = F::one();
    let mut pos = vec![];
    let mut forged: Vec<(String, usize, F, PR<F>)> = vec![];
    for &i in all.iter() {
        let proto = vs(guarded(|| FR::<F>::verify_prototype(&bv, &poly, i)));
        // a prototype is consumed by the proof, so rebuild it
        let again = match make(false) { Ok(Ok(p)) => p, _ => return json!({"p": modulus_small::<F>(), "got": "unstable"}) };
        match guarded(|| again.produce_proof(&poly, i)) {
            Ok(Ok(pr)) => {
                let v1 = vs(guarded(|| FR::<F>::verify_proof_queries(&pr, i, 2, vals[i])));
                let v1t = vs(guarded(|| <FR<F> as FriIop<F>>::verify_proof(&pr, i, vals[i])));
                let mut w = vals[i]; w.add_assign(&one);
                let v2 = vs(guarded(|| FR::<F>::verify_proof_queries(&pr, i, 2, w)));
                let w3 = rng.field::<F>();
                let v3 = vs(guarded(|| FR::<F>::verify_proof_queries(&pr, i, 2, w3)));
                let j = all[rng.below(all.len())];
                let v4 = vs(guarded(|| FR::<F>::verify_proof_queries(&pr, j, 2, vals[j])));
                pos.push(json!({"i": i, "proto": proto, "prod": "ok", "true": v1, "trait": v1t, "plus1": v2, "rand": v3, "randv": fj(&w3), "other": v4, "j": j, "pr": if full { fri_json(&pr) } else { json!(0) }}));
                if i % 2 == 1 && forged.len() < gud(s, "forge", 0) { forge_list(&mut forged, &bv, &pr, i, &vals, &mut rng, deg, lde, out); }
            }
            Ok(Err(_)) => pos.push(json!({"i": i, "proto": proto, "prod": "err"})),
            Err(_) => pos.push(json!({"i": i, "proto": proto, "prod": "panic"})),
        }
    }
    let ftries: Vec<Value> = forged.iter().map(|(k, i, v, p)| json!({"k": k, "i": i, "v": fj(v), "must": must_fail(k), "pr": if full { fri_json(p) } else { json!(0) },
        "got": vs(guarded(|| FR::<F>::verify_proof_queries(p, *i, 2, *v)))})).collect();
    o.insert("pos".into(), Value::Array(pos));
    o.insert("forged".into(), Value::Array(ftries));
    if full { o.insert("trees".into(), trees_json::<F>(0)); o.insert("digch".into(), digest_challenges::<F>()); }
    res
}

/// alterations of one part of an honest proof, which no choice of values makes good
fn must_fail(k: &str) -> bool { ["query ", "coef ", "root ", "pair "].iter().any(|p| k.starts_with(p)) }

/// proof whose layers and final coefficients are chosen by the caller
fn assemble<F: PrimeField>(layers: &[Vec<F>], coefs: &[F], i: usize, init: usize, out: usize, lde: usize) -> PR<F> {
    let roots: Vec<Digest> = layers.iter().map(|l| RecIop::<F>::create(l).get_root()).collect();
    let mut p = FRIProof { queries: vec![], roots, final_coefficients: coefs.to_vec(), initial_degree_plus_one: init, output_coeffs_at_degree_plus_one: out, lde_factor: lde };
    move_fri(&mut p, i);
    p
}

/// honest fold of a layer, by the definition
fn fold<F: PrimeField>(l: &[F], ch: F) -> Vec<F> {
    let n = l.len();
    let d = hodor::domains::Domain::<F>::new_for_size(n as u64).expect("harness: domain");
    let ginv = d.generator.inverse().expect("harness: inverse");
    let mut two = F::one();
    two.double();
    let ti = two.inverse().expect("harness: two");
    let mut x = F::one();
    (0..n / 2).map(|i| {
        let mut e = l[i]; e.add_assign(&l[i + n / 2]); e.mul_assign(&ti);
        let mut o = l[i]; o.sub_assign(&l[i + n / 2]); o.mul_assign(&ti); o.mul_assign(&x); o.mul_assign(&ch);
        x.mul_assign(&ginv);
        e.add_assign(&o);
        e
    }).collect()
}

fn forge_list<F: PrimeField>(out_l: &mut Vec<(String, usize, F, PR<F>)>, proto: &PT<F>, honest: &PR<F>, i: usize, vals: &[F], rng: &mut Rng, deg: usize, lde: usize, out: usize) {
    let one = F::one();
    let steps = proto.intermediate_values.len();
    let layers: Vec<Vec<F>> = Some(vals.to_vec()).into_iter().chain(proto.intermediate_values.iter().map(|v| v.as_ref().to_vec())).collect();
    let coefs = proto.final_coefficients.clone();
    out_l.push(("honest".into(), i, vals[i], clone_fri(honest)));
    // a layer with an altered value at the queried position, its pair, or everywhere; following layers as before or refolded
    for j in 0..=steps {
        // large inputs: only the first layer and one other
        if vals.len() > 1024 && j != 0 && j != 1 + (i / 2) % steps { continue; }
        let n = layers[j].len();
        let at = i % n;
        for (name, idxs) in &[("at", vec![at]), ("pair", vec![(at + n / 2) % n]), ("both", vec![at, (at + n / 2) % n]), ("elsewhere", vec![(at + 1) % n]), ("all", (0..n).collect::<Vec<_>>())] {
            for refold in &[false, true] {
                let mut ls = layers.clone();
                for k in idxs { ls[j][*k].add_assign(&one); }
                let mut cs = coefs.clone();
                if *refold {
                    for k in j..steps {
                        let r = RecIop::<F>::create(&ls[k]).get_root();
                        let ch = <RecIop<F> as IOP<F>>::encode_root_into_challenge(&r);
                        ls[k + 1] = fold(&ls[k], ch);
                    }
                    // interpolate the last layer and cut
                    let n = ls[steps].len();
                    let d = hodor::domains::Domain::<F>::new_for_size(n as u64).expect("harness: domain");
                    let ginv = d.generator.inverse().expect("harness: inverse");
                    let mut ninv = F::zero();
                    for _ in 0..n { ninv.add_assign(&one); }
                    let ninv = ninv.inverse().expect("harness: n");
                    cs = (0..out).map(|k| { let x = ginv.pow([k as u64]); let mut acc = F::zero(); for v in ls[steps].iter().rev() { acc.mul_assign(&x); acc.add_assign(v); } acc.mul_assign(&ninv); acc }).collect();
                }
                let p = assemble(&ls, &cs, i, deg, out, lde);
                out_l.push((format!("layer {} {} {}", j, name, if *refold { "refolded" } else { "kept" }), i, ls[0][i], p));
            }
        }
        // final coefficients fitted to the single queried point instead of the last layer
    }
    // coefficients changed so that they still agree at the queried point of the last layer but not at its pair
    {
        let n = layers[steps].len();
        let d = hodor::domains::Domain::<F>::new_for_size(n as u64).expect("harness: domain");
        let x = d.generator.pow([(i % n) as u64]);
        if out >= 2 {
            let mut cs = coefs.clone();
            cs[1].add_assign(&one);
            cs[0].sub_assign(&x);
            out_l.push(("coefs agree at the point only".into(), i, vals[i], assemble(&layers, &cs, i, deg, out, lde)));
        }
        let mut cs = coefs.clone();
        let k = rng.below(cs.len());
        cs[k].add_assign(&one);
        out_l.push(("coef +1".into(), i, vals[i], assemble(&layers, &cs, i, deg, out, lde)));
    }
    // every layer zero but the value claimed is not
    let zl: Vec<Vec<F>> = layers.iter().map(|l| vec![F::zero(); l.len()]).collect();
    out_l.push(("zero layers".into(), i, vals[i], assemble(&zl, &vec![F::zero(); out], i, deg, out, lde)));
    // layers of an unrelated polynomial from the second layer on
    if steps > 0 {
        let c: Vec<F> = rng.vec(deg / 2);
        let mut ls = layers.clone();
        ls[1] = evaluate(&c, deg / 2 * lde);
        for k in 1..steps {
            let r = RecIop::<F>::create(&ls[k]).get_root();
            let ch = <RecIop<F> as IOP<F>>::encode_root_into_challenge(&r);
            ls[k + 1] = fold(&ls[k], ch);
        }
        let n = ls[steps].len();
        let d = hodor::domains::Domain::<F>::new_for_size(n as u64).expect("harness: domain");
        let ginv = d.generator.inverse().expect("harness: inverse");
        let mut ninv = F::zero();
        for _ in 0..n { ninv.add_assign(&one); }
        let ninv = ninv.inverse().expect("harness: n");
        let cs: Vec<F> = (0..out).map(|k| { let x = ginv.pow([k as u64]); let mut acc = F::zero(); for v in ls[steps].iter().rev() { acc.mul_assign(&x); acc.add_assign(v); } acc.mul_assign(&ninv); acc }).collect();
        out_l.push(("unrelated second layer".into(), i, vals[i], assemble(&ls, &cs, i, deg, out, lde)));
    }
    // openings of the honest proof moved or exchanged
    let p0 = clone_fri(honest);
    for j in 0..honest.queries.len() {
        let mut p = clone_fri(honest);
        let r = p.roots[j / 2];
        let n = tree_size(&r);
        if let Some(q) = open::<F>(&r, (p.queries[j].index + 1) % n) { p.queries[j] = q; out_l.push((format!("query {} at +1", j), i, vals[i], p)); }
        let mut p = clone_fri(honest);
        p.queries[j] = p.queries[j].with(|q| q.value.add_assign(&one));
        out_l.push((format!("query {} value", j), i, vals[i], p));
        let len = honest.queries[j].path.len();
        let mut alter = |what: &str, f: &mut dyn FnMut(&mut RecQuery<F>)| {
            let mut p = clone_fri(honest);
            p.queries[j] = p.queries[j].with(|q| f(q));
            out_l.push((format!("query {} {}", j, what), i, vals[i], p));
        };
        for k in 0..len {
            let b = rng.below(256);
            alter(&format!("path {}", k), &mut |q| q.path[k][b / 8] ^= 1 << (b % 8));
        }
        alter("path dropped", &mut |q| { q.path.pop(); });
        alter("path first dropped", &mut |q| { q.path.remove(0); });
        alter("path longer", &mut |q| { let d = q.path[0]; q.path.push(d); });
        alter("path empty", &mut |q| q.path.clear());
        // the opening of another tree in its place: value and path, value only, path only
        for (k, r) in p0.roots.iter().enumerate() {
            if k == j / 2 { continue; }
            if let Some(o) = open::<F>(r, honest.queries[j].index % tree_size(r)) {
                let (ov, op) = (o.value, o.path.clone());
                if op != honest.queries[j].path { alter(&format!("path of tree {}", k), &mut |q| q.path = op.clone()); }
                if ov != honest.queries[j].value {
                    alter(&format!("value of tree {}", k), &mut |q| q.value = ov);
                    alter(&format!("opening of tree {}", k), &mut |q| { q.value = ov; q.path = op.clone(); });
                }
            }
        }
    }
    // both openings of a pair damaged in the same way
    for j in 0..=steps {
        let mut p = clone_fri(honest);
        for k in 0..2 { p.queries[2 * j + k] = p.queries[2 * j + k].with(|q| q.path[0][7] ^= 4); }
        out_l.push((format!("query pair {} paths", j), i, vals[i], p));
        let mut p = clone_fri(honest);
        p.roots[j][9] ^= 1;
        out_l.push((format!("root {}", j), i, vals[i], p));
    }
    for k in 0..coefs.len() {
        let mut p = clone_fri(honest);
        p.final_coefficients[k].add_assign(&one);
        out_l.push((format!("coef {}", k), i, vals[i], p));
    }
    let mut p = clone_fri(honest);
    p.final_coefficients.push(F::zero());
    out_l.push(("coef count +1".into(), i, vals[i], p));
    let mut p = clone_fri(honest);
    p.final_coefficients.pop();
    out_l.push(("coef count -1".into(), i, vals[i], p));
    for j in 0..=steps {
        let mut p = clone_fri(honest);
        p.queries.swap(2 * j, 2 * j + 1);
        out_l.push((format!("pair {} exchanged", j), i, vals[i], p));
    }
}
