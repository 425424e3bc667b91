//! Transforms, extension, polynomial arithmetic, domains.
use crate::util::*;
use ff::{Field, PrimeField};
use hodor::domains::Domain;
use hodor::polynomials::*;
use hodor::precomputations::PrecomputedOmegas;
use hodor::verif_hooks as vh;
use hodor::verif_hooks::Worker;
use serde_json::{json, Value};

fn worker(s: &Value) -> Worker {
    vh::set_cpus(gud(s, "cpus", 1));
    Worker::new()
}

pub fn run(s: &Value) -> Value {
    with_num_field!(gs(s, "f"), F, run_f::<F>(s))
}

fn out<F: PrimeField>(input: &[F], output: &[F]) -> Value {
    if modulus_small::<F>() > 100000 {
        // long vectors of the transforms are sparse: only the nonzero entries are recorded
        let nz: Vec<Value> = input.iter().enumerate().filter(|(_, x)| !x.is_zero()).map(|(i, x)| json!([i, fj(x)])).collect();
        return json!({"p": modulus_small::<F>(), "n": input.len(), "nz": nz, "out": vj(output)});
    }
    json!({"p": modulus_small::<F>(), "a": vj(input), "out": vj(output)})
}

fn coeffs<F: PrimeField>(v: Vec<F>) -> Polynomial<F, Coefficients> { Polynomial::from_coeffs(v).expect("harness: from_coeffs") }
fn values<F: PrimeField>(v: Vec<F>) -> Polynomial<F, Values> { Polynomial::from_values(v).expect("harness: from_values") }

fn run_f<F: PrimeField>(s: &Value) -> Value {
    match gs(s, "op") {
        "fft" => fft::<F>(s),
        "lde" => lde::<F>(s),
        "pop" => pop::<F>(s),
        "batchinv" => batchinv::<F>(s),
        "dom" => dom::<F>(s),
        "domidx" => domidx::<F>(s),
        "roots" => roots::<F>(s),
        "interp" => interp::<F>(s),
        "shape" => shape::<F>(s),
        "powsum" => powsum::<F>(s),
        "precomp" => precomp::<F>(s),
        "chunk" => chunk(s),
        "chain" => chain::<F>(s),
        o => panic!("harness: {}", o),
    }
}

fn absent() -> Value { json!({"res": "absent"}) }

fn fft<F: PrimeField>(s: &Value) -> Value {
    let k = gu(s, "k");
    let n = 1usize << k;
    let w = worker(s);
    let a = input::<F>(s, "a", n, 0);
    // direction: 1 forward, -1 uses the inverse generator
    let d = Domain::<F>::new_for_size(n as u64).expect("harness: domain");
    let mut omega = d.generator;
    if gb(s, "inv") { omega = omega.inverse().expect("harness: inverse"); }
    let var = gs(s, "var");
    let mut v = a.clone();
    let logn = k as u32;
    let gen = if s["gen"].is_null() { F::one() } else { fparse::<F>(&s["gen"]) };
    match var {
        "pfft" => v = coeffs(a.clone()).fft(&w).into_coeffs(),
        "pcoset" => v = coeffs(a.clone()).coset_fft(&w).into_coeffs(),
        "pcosetgen" => v = coeffs(a.clone()).coset_fft_for_generator(&w, gen).into_coeffs(),
        "pifft" => v = values(a.clone()).ifft(&w).into_coeffs(),
        "picoset" => v = values(a.clone()).icoset_fft(&w).into_coeffs(),
        "picosetgen" => v = values(a.clone()).icoset_fft_for_generator(&w, gen.inverse().expect("harness: gen")).into_coeffs(),
        _ => {
            #[cfg(hodor_verif_kernels)]
            {
                use hodor::verif_hooks::kernels as kn;
                match var {
                    "best" => kn::best_fft(&mut v, &w, &omega, logn, None),
                    "besthint" => kn::best_fft(&mut v, &w, &omega, logn, Some(gud(s, "hint", 1))),
                    "serial" => kn::serial_fft(&mut v, &omega, logn),
                    "parallel" => kn::parallel_fft(&mut v, &w, &omega, logn, gu(s, "logcpus") as u32),
                    "radix4" => kn::radix4_fft(&mut v, &w, &omega, logn),
                    "sradix4" => kn::serial_radix4_fft(&mut v, &omega, logn),
                    "dit" => { for x in v.iter_mut().skip(gud(s, "nz", n)) { *x = F::zero(); } let b = v.clone(); kn::dit_fft(&mut v, &w, &omega, logn, gud(s, "nz", n)); return out(&b, &v); }
                    "sdit" => { for x in v.iter_mut().skip(gud(s, "nz", n)) { *x = F::zero(); } let b = v.clone(); kn::serial_dit_fft(&mut v, &omega, logn, gud(s, "nz", n)); return out(&b, &v); }
                    _ => panic!("harness: fft variant {}", var),
                }
            }
            #[cfg(not(hodor_verif_kernels))]
            { return absent(); }
        }
    }
    out(&a, &v)
}

fn lde<F: PrimeField>(s: &Value) -> Value {
    let k = gu(s, "k");
    let n = 1usize << k;
    let f = gu(s, "factor");
    let w = worker(s);
    let a = input::<F>(s, "a", n, 0);
    let d = Domain::<F>::new_for_size((n * f) as u64).expect("harness: domain");
    let p = coeffs(a.clone());
    let var = gs(s, "var");
    let r = match var {
        "lde" => p.lde(&w, f),
        "cosets" => p.lde_using_multiple_cosets(&w, f),
        "naive" => p.lde_using_multiple_cosets_naive(&w, f),
        "filter" => p.filtering_lde(&w, f),
        "clde" => p.coset_lde(&w, f),
        "ccosets" => p.coset_lde_using_multiple_cosets(&w, f),
        "cnaive" => p.coset_lde_using_multiple_cosets_naive(&w, f),
        "cfilter" => p.coset_filtering_lde(&w, f),
        "best" | "serial" => {
            #[cfg(hodor_verif_kernels)]
            {
                let mut v = a.clone();
                v.resize(n * f, F::zero());
                if var == "best" { hodor::verif_hooks::kernels::best_lde(&mut v, &w, &d.generator, d.power_of_two as u32, f); }
                else { hodor::verif_hooks::kernels::serial_lde(&mut v, &d.generator, d.power_of_two as u32, f); }
                return out(&a, &v);
            }
            #[cfg(not(hodor_verif_kernels))]
            { return absent(); }
        }
        _ => panic!("harness: lde variant {}", var),
    };
    match r {
        Ok(v) => out(&a, v.as_ref()),
        Err(_) => json!({"res": "err", "p": modulus_small::<F>(), "a": vj(&a)}),
    }
}

fn pop<F: PrimeField>(s: &Value) -> Value {
    let n = gu(s, "n");
    let w = worker(s);
    let a = input::<F>(s, "a", n, 0);
    let m = gud(s, "m", n);
    let b = input::<F>(s, "b", m, 1);
    let mut rng = Rng::new(gud(s, "seed", 1) as u64 ^ 0xabcdef);
    let c = if s["c"].is_null() { rng.field::<F>() } else { fparse::<F>(&s["c"]) };
    // with bump the power is of 64 bits: x^(e + k (p - 1)) = x^e for e >= 1
    let e = gud(s, "e", 3) as u64 + if s["bump"].is_null() { 0 } else { (modulus_small::<F>() - 1) << gu(s, "bump") };
    let what = gs(s, "what");
    let res: Vec<F> = match what {
        "add" => { let mut x = values(a.clone()); x.add_assign(&w, &values(b.clone())); x.into_coeffs() }
        "sub" => { let mut x = values(a.clone()); x.sub_assign(&w, &values(b.clone())); x.into_coeffs() }
        "mul" => { let mut x = values(a.clone()); x.mul_assign(&w, &values(b.clone())); x.into_coeffs() }
        "adds" => { let mut x = values(a.clone()); x.add_assign_scaled(&w, &values(b.clone()), &c); x.into_coeffs() }
        "addc" => { let mut x = values(a.clone()); x.add_constant(&w, &c); x.into_coeffs() }
        "cadd" => { let mut x = coeffs(a.clone()); x.add_assign(&w, &coeffs(b.clone())); x.into_coeffs() }
        "csub" => { let mut x = coeffs(a.clone()); x.sub_assign(&w, &coeffs(b.clone())); x.into_coeffs() }
        "cadds" => { let mut x = coeffs(a.clone()); x.add_assign_scaled(&w, &coeffs(b.clone()), &c); x.into_coeffs() }
        "scale" => { let mut x = values(a.clone()); x.scale(&w, c); x.into_coeffs() }
        "neg" => { let mut x = coeffs(a.clone()); x.negate(&w); x.into_coeffs() }
        "pow" => { let mut x = values(a.clone()); x.pow(&w, e); x.into_coeffs() }
        "sqr" => { let mut x = values(a.clone()); x.square(&w); x.into_coeffs() }
        "dist" => { let mut x = coeffs(a.clone()); x.distribute_powers(&w, c); x.into_coeffs() }
        "eval" => vec![coeffs(a.clone()).evaluate_at(&w, c)],
        "deg1" => { let x = coeffs(a[..2].to_vec()); x.evaluate_at_domain_for_degree_one(&w, gu(s, "size") as u64).expect("harness: deg1").into_coeffs() }
        "cdeg1" => { let x = coeffs(a[..2].to_vec()); x.coset_evaluate_at_domain_for_degree_one(&w, gu(s, "size") as u64).expect("harness: deg1").into_coeffs() }
        "uscale" => { let mut x = a.clone(); hodor::utils::poly::mul_polynomial_by_scalar(&mut x, c); x }
        "umuladd" => { let mut x = a.clone(); hodor::utils::poly::mul_add_polynomials(&mut x, &b, c); x }
        _ => panic!("harness: pop {}", what),
    };
    json!({"p": modulus_small::<F>(), "a": vj(&a), "b": vj(&b), "c": fj(&c), "e": gud(s, "e", 3), "out": vj(&res)})
}

fn batchinv<F: PrimeField>(s: &Value) -> Value {
    let n = gu(s, "n");
    let w = worker(s);
    let a = input::<F>(s, "a", n, 0);
    let mut x = values(a.clone());
    let r = x.batch_inversion(&w);
    json!({"p": modulus_small::<F>(), "a": vj(&a), "out": vj(x.as_ref()), "res": if r.is_ok() { "ok" } else { "err" }})
}

fn dom<F: PrimeField>(s: &Value) -> Value {
    // size = 2^lg + off
    let size = ((1u128 << gu(s, "lg")) as i128 + s["off"].as_i64().expect("harness: off") as i128) as u64;
    match Domain::<F>::new_for_size(size) {
        Ok(d) => {
            let k = d.power_of_two;
            let mut x = d.generator;
            let mut half = false;
            for i in 0..k { if i == k - 1 { half = x == F::one(); } x.square(); }
            let dsize = if d.size < (1 << 30) { json!(d.size) } else { json!(d.size.to_string()) };
            json!({"p": modulus_small::<F>(), "dsize": dsize, "dpow": k, "gen": fj(&d.generator), "o1": x == F::one(), "o2": half})
        }
        Err(_) => json!({"p": modulus_small::<F>(), "res": "err"}),
    }
}

fn domidx<F: PrimeField>(s: &Value) -> Value {
    let size = gu(s, "size");
    let mut nexts = vec![];
    let mut cosets = vec![];
    let mut nsizes = vec![];
    for i in 0..size {
        let (a, b) = Domain::<F>::index_and_size_for_next_domain(i, size);
        nexts.push(a);
        nsizes.push(b);
        cosets.push(Domain::<F>::coset_for_natural_index_and_size(i, size));
    }
    use hodor::iop::CosetCombiner;
    let comb: Vec<Vec<usize>> = (0..size).map(|i| <hodor::iop::trivial_coset_combiner::TrivialCombiner<F> as CosetCombiner<F>>::get_coset_for_natural_index(i, size)).collect();
    json!({"p": modulus_small::<F>(), "nexts": nexts, "nsizes": nsizes, "cosets": cosets, "comb": comb})
}

fn roots<F: PrimeField>(s: &Value) -> Value {
    let n = gu(s, "n");
    let w = worker(s);
    let a = input::<F>(s, "a", n, 0);
    match Polynomial::from_roots(a.clone(), &w) {
        Ok(p) => out(&a, p.as_ref()),
        Err(_) => json!({"res": "err", "p": modulus_small::<F>(), "a": vj(&a)}),
    }
}

fn interp<F: PrimeField>(s: &Value) -> Value {
    let n = gu(s, "n");
    // distinct x
    let mut rng = Rng::new(gud(s, "seed", 1) as u64);
    let mut xs: Vec<F> = vec![];
    while xs.len() < n { let x = rng.field::<F>(); if !xs.contains(&x) { xs.push(x); } }
    if gb(s, "zx") && n > 0 && !xs.contains(&F::zero()) { let i = rng.below(n); xs[i] = F::zero(); }
    let ys = input::<F>(s, "b", n, 1);
    let pts: Vec<(F, F)> = xs.iter().cloned().zip(ys.iter().cloned()).collect();
    match hodor::utils::poly::interpolate(&pts) {
        Some(c) => json!({"p": modulus_small::<F>(), "a": vj(&xs), "b": vj(&ys), "out": vj(&c)}),
        None => json!({"res": "err", "p": modulus_small::<F>(), "a": vj(&xs), "b": vj(&ys)}),
    }
}

fn shape<F: PrimeField>(s: &Value) -> Value {
    // construct, resize; then check that transforms work on the resulting object
    let n = gu(s, "n");
    let w = worker(s);
    let a = input::<F>(s, "a", n, 0);
    let what = gs(s, "what");
    let arg = gud(s, "arg", 0);
    if what == "newv" || what == "vals" {
        let p = if what == "newv" { Polynomial::<F, Values>::new_for_size(n) } else { Polynomial::<F, Values>::from_values(a.clone()) };
        return match p {
            Ok(p) => {
                let v = p.as_ref().to_vec();
                let c = p.clone().ifft(&w);
                let back = c.clone().fft(&w).into_coeffs();
                json!({"p": modulus_small::<F>(), "a": vj(&a), "out": vj(&v), "vals": vj(&c.into_coeffs()), "back": vj(&back), "vv": vj(&v)})
            }
            Err(_) => json!({"res": "err", "p": modulus_small::<F>(), "a": vj(&a)}),
        };
    }
    let p = match what {
        "newc" => Polynomial::<F, Coefficients>::new_for_size(n),
        _ => Polynomial::<F, Coefficients>::from_coeffs(a.clone()),
    };
    let mut p = match p { Ok(p) => p, Err(_) => return json!({"res": "err", "p": modulus_small::<F>(), "a": vj(&a)}) };
    let r = match what {
        "new" | "newc" => Ok(()),
        "padf" => p.pad_by_factor(arg),
        "pads" => p.pad_to_size(arg),
        "trim" => p.trim_to_degree(arg),
        _ => panic!("harness: shape {}", what),
    };
    match r {
        Ok(()) => {
            let c = p.as_ref().to_vec();
            let v = p.clone().fft(&w);
            let vals = v.as_ref().to_vec();
            let back = v.ifft(&w).into_coeffs();
            let vv = Polynomial::<F, Values>::from_values(a.clone()).expect("harness: values").into_coeffs();
            json!({"p": modulus_small::<F>(), "a": vj(&a), "out": vj(&c), "vals": vj(&vals), "back": vj(&back), "vv": vj(&vv)})
        }
        Err(_) => json!({"res": "err", "p": modulus_small::<F>(), "a": vj(&a)}),
    }
}

fn powsum<F: PrimeField>(s: &Value) -> Value {
    let n = gu(s, "n");
    let _w = worker(s);
    let a = input::<F>(s, "a", n, 0);
    let mut rng = Rng::new(gud(s, "seed", 1) as u64 ^ 0x77);
    let mut first = rng.field::<F>();
    let mut base = rng.field::<F>();
    if !s["first"].is_null() { first = fparse::<F>(&s["first"]); }
    if !s["base"].is_null() { base = fparse::<F>(&s["base"]); }
    let r = hodor::utils::poly::evaluate_at_consequitive_powers(&a, first, base);
    json!({"p": modulus_small::<F>(), "a": vj(&a), "first": fj(&first), "base": fj(&base), "out": [fj(&r)]})
}

fn precomp<F: PrimeField>(s: &Value) -> Value {
    let w = worker(s);
    let d = Domain::<F>::new_for_size(gu(s, "n") as u64).expect("harness: domain");
    let r = PrecomputedOmegas::new_for_domain(&d, &w);
    json!({"p": modulus_small::<F>(), "omegas": vj(&r.omegas), "coset": vj(&r.coset), "inv": vj(&r.omegas_inv)})
}

/// how a number of elements is cut into tasks
fn chunk(s: &Value) -> Value {
    let w = worker(s);
    let n = gu(s, "n");
    let c = w.get_chunk_size(n);
    let t = w.get_num_spawned_threads(n);
    let counted = w.scope(n, |_scope, chunk| { let v = vec![0u8; n]; v.chunks(chunk).count() });
    json!({"chunk": c, "tasks": t, "counted": counted})
}

enum Obj<F: PrimeField> { C(Polynomial<F, Coefficients>), V(Polynomial<F, Values>) }
impl<F: PrimeField> Obj<F> {
    fn vec(&self) -> Vec<F> { match self { Obj::C(p) => p.as_ref().to_vec(), Obj::V(p) => p.as_ref().to_vec() } }
    fn form(&self) -> &'static str { match self { Obj::C(_) => "c", Obj::V(_) => "v" } }
    fn size(&self) -> usize { match self { Obj::C(p) => p.size(), Obj::V(p) => p.size() } }
}

/// a history of operations on one polynomial object; every intermediate state is recorded
fn chain<F: PrimeField>(s: &Value) -> Value {
    let n = gu(s, "n");
    let w = worker(s);
    let a = input::<F>(s, "a", n, 0);
    let mut rng = Rng::new(gud(s, "seed", 1) as u64 ^ 0xc4a1);
    let mut obj = if gs(s, "form") == "c" { Obj::C(coeffs(a.clone())) } else { Obj::V(values(a.clone())) };
    let mut steps = vec![];
    for st in s["steps"].as_array().expect("harness: steps") {
        let o = gs(st, "o");
        let arg = gud(st, "x", 0);
        let k = match arg % 4 { 0 => F::zero(), 1 => F::one(), 2 => rng.nonzero::<F>(), _ => { let mut m = F::one(); m.negate(); m } };
        let b = rng.vec::<F>(if o.starts_with('h') { std::cmp::max(1, obj.size() / 2) } else { obj.size() });
        let mut res = "ok";
        let before = obj.size();
        macro_rules! both { ($p:ident, $e:expr) => { match &mut obj { Obj::C($p) => $e, Obj::V($p) => $e } } }
        macro_rules! shape { ($e:expr) => { if $e.is_err() { res = "err"; } } }
        match o {
            "padf" => shape!(both!(p, p.pad_by_factor(arg))),
            "pads" => shape!(both!(p, p.pad_to_size(arg))),
            "trim" => shape!(both!(p, p.trim_to_degree(arg))),
            "scale" => both!(p, p.scale(&w, k)),
            "neg" => both!(p, p.negate(&w)),
            "dist" => both!(p, p.distribute_powers(&w, k)),
            _ => {
                obj = match obj {
                    Obj::C(mut p) => {
                        let keep = p.clone();
                        let r = match o {
                            "fft" => Ok(Obj::V(p.fft(&w))),
                            "cfft" => Ok(Obj::V(p.coset_fft(&w))),
                            "gfft" => Ok(Obj::V(p.coset_fft_for_generator(&w, k))),
                            "lde" => p.lde(&w, arg).map(Obj::V),
                            "clde" => p.coset_lde(&w, arg).map(Obj::V),
                            "filt" => p.filtering_lde(&w, arg).map(Obj::V),
                            "cfilt" => p.coset_filtering_lde(&w, arg).map(Obj::V),
                            "naive" => p.lde_using_multiple_cosets_naive(&w, arg).map(Obj::V),
                            "cnaive" => p.coset_lde_using_multiple_cosets_naive(&w, arg).map(Obj::V),
                            "add" | "hadd" => { p.add_assign(&w, &coeffs(b.clone())); Ok(Obj::C(p)) }
                            "sub" | "hsub" => { p.sub_assign(&w, &coeffs(b.clone())); Ok(Obj::C(p)) }
                            "adds" | "hadds" => { p.add_assign_scaled(&w, &coeffs(b.clone()), &k); Ok(Obj::C(p)) }
                            _ => panic!("harness: chain {}", o),
                        };
                        match r { Ok(x) => x, Err(_) => { res = "err"; Obj::C(keep) } }
                    }
                    Obj::V(mut p) => Obj::V(match o {
                        "ifft" => { steps.push(json!({"o": o, "x": arg, "k": fj(&k), "b": vj(&b), "res": res, "form": "c", "out": vj(p.clone().ifft(&w).as_ref())})); obj = Obj::C(p.ifft(&w)); continue; }
                        "icfft" => { steps.push(json!({"o": o, "x": arg, "k": fj(&k), "b": vj(&b), "res": res, "form": "c", "out": vj(p.clone().icoset_fft(&w).as_ref())})); obj = Obj::C(p.icoset_fft(&w)); continue; }
                        "add" => { p.add_assign(&w, &values(b.clone())); p }
                        "sub" => { p.sub_assign(&w, &values(b.clone())); p }
                        "adds" => { p.add_assign_scaled(&w, &values(b.clone()), &k); p }
                        "mul" => { p.mul_assign(&w, &values(b.clone())); p }
                        "addc" => { p.add_constant(&w, &k); p }
                        "pow" => { p.pow(&w, arg as u64); p }
                        "sqr" => { p.square(&w); p }
                        "binv" => { if p.batch_inversion(&w).is_err() { res = "err"; } p }
                        _ => panic!("harness: chain {}", o),
                    }),
                };
            }
        }
        steps.push(json!({"o": o, "x": arg, "k": fj(&k), "b": vj(&b), "res": res, "form": obj.form(), "out": vj(&obj.vec())}));
        // an operation that was refused but resized the object: what follows says nothing more (and may not fit in memory)
        if res == "err" && obj.size() != before { break; }
    }
    json!({"p": modulus_small::<F>(), "a": vj(&a), "form0": gs(s, "form"), "steps": steps})
}
