//! Instances and traces: construction through the public operators, generation, checking, interpolation, builders.
use crate::util::*;
use ff::PrimeField;
use hodor::air::*;
use hodor::arp::*;
use hodor::verif_hooks as vh;
use serde_json::{json, Value};

pub fn run(s: &Value) -> Value {
    vh::set_cpus(gud(s, "cpus", 1));
    with_inst_field!(gs(s, "f"), F, run_f::<F>(s))
}

fn run_f<F: PrimeField>(s: &Value) -> Value {
    match gs(s, "op") {
        "build" => build::<F>(s),
        "arp" => arp::<F>(s),
        "wpoly" => wpoly::<F>(s),
        "builder" => builder::<F>(s),
        "trace" => trace::<F>(s),
        o => panic!("harness: {}", o),
    }
}

// ---------------------------------------------------------------- reading constraints back
fn uj<F: PrimeField>(t: &UnivariateTerm<F>) -> Value {
    let s = match t.steps_difference { StepDifference::Steps(n) => n as i64, _ => -1 };
    let (k, r) = match t.register { Register::ProgramCounter(i) => ("p", i), Register::Register(i) => ("r", i), Register::Aux(i) => ("a", i), Register::Constant(i) => ("k", i) };
    json!({"k": k, "r": r, "s": s, "e": t.power, "c": fj(&t.coeff)})
}
pub fn cj<F: PrimeField>(c: &Constraint<F>) -> Value {
    let terms: Vec<Value> = c.terms.iter().map(|t| match t {
        ConstraintTerm::Univariate(u) => json!({"c": 1, "u": [uj(u)], "td": u.power}),
        ConstraintTerm::Polyvariate(p) => json!({"c": fj(&p.coeff), "u": p.terms.iter().map(uj).collect::<Vec<_>>(), "td": p.total_degree}),
    }).collect();
    let (start, span) = match c.density { ConstraintDensity::Dense(ref d) => (d.start_at, d.span), _ => (0, 0) };
    json!({"c": fj(&c.constant_term), "deg": c.degree, "start": start, "span": span, "terms": terms})
}
pub fn bj<F: PrimeField>(b: &BoundaryConstraint<F>) -> Value {
    let (k, r) = match b.register { Register::ProgramCounter(i) => ("p", i), Register::Register(i) => ("r", i), Register::Aux(i) => ("a", i), Register::Constant(i) => ("k", i) };
    json!({"k": k, "r": r, "row": b.at_row, "has": b.value.is_some(), "v": b.value.map(|v| fj(&v)).unwrap_or(json!(0))})
}
pub fn props_json<F: PrimeField>(p: &InstanceProperties<F>) -> Value {
    json!({"rows": p.num_rows, "regs": p.num_registers, "cons": p.constraints.iter().map(cj).collect::<Vec<_>>(), "bc": p.boundary_constraints.iter().map(bj).collect::<Vec<_>>()})
}

// ---------------------------------------------------------------- building constraints
fn reg(u: &Value) -> Register {
    let r = gu(u, "r");
    match gs(u, "k") { "p" => Register::ProgramCounter(r), "a" => Register::Aux(r), "k" => Register::Constant(r), _ => Register::Register(r) }
}
/// {"r","ops":[["mul",c],["pow",k],["step",s]]} or {"r","s","e","c"}
fn uni<F: PrimeField>(u: &Value) -> UnivariateTerm<F> {
    let mut t = UnivariateTerm::<F>::from(reg(u));
    if let Some(ops) = u["ops"].as_array() {
        for o in ops {
            match o[0].as_str().unwrap() {
                "mul" => t *= &fparse::<F>(&o[1]),
                "mulv" => t *= fparse::<F>(&o[1]),
                "pow" => t = t.pow(o[1].as_u64().unwrap()),
                "step" => t.set_step_difference(o[1].as_u64().unwrap() as usize),
                x => panic!("harness: uni op {}", x),
            }
        }
        return t;
    }
    let e = gud(u, "e", 1) as u64;
    if e != 1 { t = t.pow(e); }
    t.set_step_difference(gud(u, "s", 0));
    if !u["c"].is_null() { t *= &fparse::<F>(&u["c"]); }
    t
}
/// {"ops":[["u",uni],["f",c],["fv",c],["p",poly],["from",c,uni]]} or {"c","u":[..]}
fn poly<F: PrimeField>(p: &Value) -> PolyvariateTerm<F> {
    let mut t = PolyvariateTerm::<F>::default();
    if let Some(ops) = p["ops"].as_array() {
        for o in ops {
            match o[0].as_str().unwrap() {
                "u" => t *= uni::<F>(&o[1]),
                "f" => t *= &fparse::<F>(&o[1]),
                "fv" => t *= fparse::<F>(&o[1]),
                "p" => t *= poly::<F>(&o[1]),
                "from" => t *= PolyvariateTerm::<F>::from((fparse::<F>(&o[1]), uni::<F>(&o[2]))),
                x => panic!("harness: poly op {}", x),
            }
        }
        return t;
    }
    t *= &fparse::<F>(&p["c"]);
    for u in p["u"].as_array().expect("u") { t *= uni::<F>(u); }
    t
}
fn program<F: PrimeField>(steps: &Value) -> Constraint<F> {
    let mut c = Constraint::<F>::default();
    for s in steps.as_array().expect("steps") {
        match s[0].as_str().unwrap() {
            "addc" => c += &fparse::<F>(&s[1]),
            "subc" => c -= &fparse::<F>(&s[1]),
            "addu" => c += uni::<F>(&s[1]),
            "subu" => c -= uni::<F>(&s[1]),
            "addp" => c += poly::<F>(&s[1]),
            "subp" => c -= poly::<F>(&s[1]),
            x => panic!("harness: step {}", x),
        }
    }
    c
}
/// random program of builder operations
fn gen_uni(r: &mut Rng, regs: usize) -> Value {
    let mut ops = vec![];
    // more than three registers: also large powers, shifts and coefficients
    let big = regs > 3;
    for _ in 0..r.below(if big { 6 } else { 4 }) {
        match r.below(4) {
            0 if big => ops.push(json!(["mul", r.below(200000)])),
            1 if big => ops.push(json!(["pow", r.range(1, 12)])),
            2 if big => { let t = [0, 1, 2, 5, 31, 1000, 1 << 20][r.below(7)]; ops.push(json!(["step", t])) }
            0 => ops.push(json!(["mul", r.below(97)])),
            1 => ops.push(json!(["pow", r.range(1, 3)])),
            2 => ops.push(json!(["step", r.below(4)])),
            _ => ops.push(json!(["mulv", r.below(97)])),
        }
    }
    let k = ["r", "r", "r", "p", "a", "k"][r.below(6)];
    json!({"k": k, "r": r.below(regs), "ops": ops})
}
fn gen_poly(r: &mut Rng, regs: usize, depth: usize) -> Value {
    let mut ops = vec![json!(["u", gen_uni(r, regs)])];
    for _ in 0..r.below(4) {
        match r.below(5) {
            0 => ops.push(json!(["f", r.below(97)])),
            1 => ops.push(json!(["fv", r.below(97)])),
            2 => ops.push(json!(["from", r.below(97), gen_uni(r, regs)])),
            3 if depth > 0 => ops.push(json!(["p", gen_poly(r, regs, depth - 1)])),
            _ => ops.push(json!(["u", gen_uni(r, regs)])),
        }
    }
    let i = r.below(ops.len());
    ops.swap(0, i);
    json!({"ops": ops})
}
fn build<F: PrimeField>(s: &Value) -> Value {
    let mut r = Rng::new(gud(s, "seed", 1) as u64);
    let steps = if s["steps"].is_array() { s["steps"].clone() } else {
        let mut v = vec![];
        let regs = if gb(s, "big") { [40, 1000][(gu(s, "n") + gud(s, "rep", 0)) % 2] } else { 3 };
        for _ in 0..gud(s, "n", 4) {
            match r.below(6) {
                0 => v.push(json!(["addc", r.below(97)])),
                1 => v.push(json!(["subc", r.below(97)])),
                2 => v.push(json!(["addu", gen_uni(&mut r, regs)])),
                3 => v.push(json!(["subu", gen_uni(&mut r, regs)])),
                4 => v.push(json!(["addp", gen_poly(&mut r, regs, 2)])),
                _ => v.push(json!(["subp", gen_poly(&mut r, regs, 2)])),
            }
        }
        Value::Array(v)
    };
    let c = program::<F>(&steps);
    json!({"p": modulus_small::<F>(), "steps": steps, "con": cj(&c)})
}

// ---------------------------------------------------------------- instances
/// from the recorded form, built through the operators
pub fn con_from_json<F: PrimeField>(c: &Value) -> Constraint<F> {
    let mut k = Constraint::<F>::default();
    k.density = ConstraintDensity::Dense(DenseConstraint::new(gu(c, "start"), gu(c, "span")));
    k += &fparse::<F>(&c["c"]);
    for t in c["terms"].as_array().expect("terms") {
        if gb(t, "uni") { k += uni::<F>(&t["u"][0]); }
        else if gb(t, "neg") { let mut p = poly::<F>(t); let mut m = F::one(); m.negate(); p *= m; k -= p; }
        else { k += poly::<F>(t); }
    }
    k
}
pub fn props_from_json<F: PrimeField>(i: &Value) -> InstanceProperties<F> {
    InstanceProperties {
        num_rows: gu(i, "rows"),
        num_registers: gu(i, "regs"),
        constraints: i["cons"].as_array().expect("cons").iter().map(con_from_json).collect(),
        boundary_constraints: i["bc"].as_array().expect("bc").iter().map(|b| BoundaryConstraint {
            register: Register::Register(gu(b, "r")), at_row: gu(b, "row"),
            value: if b["has"] == json!(false) { None } else { Some(fparse::<F>(&b["v"])) },
        }).collect(),
    }
}

struct Tm<F: PrimeField> { c: F, u: Vec<(usize, usize, u64)> } // coefficient, (register, step, power)
fn ev<F: PrimeField>(t: &Tm<F>, w: &Vec<Vec<F>>, row: usize) -> F {
    let mut v = t.c;
    for (r, s, e) in t.u.iter() { v.mul_assign(&w[*r][row + s].pow([*e])); }
    v
}

/// Random satisfiable instance together with a satisfying trace.
/// Parameters: rows, regs, deg (largest degree), seed, style ("mix" | "const" | "zero"), extra (number of multiplied
/// constraints), bcs (number of boundary conditions), maxstep, spanx (largest span beyond the step), startx (largest start),
/// far (steps, starts and spans close to the largest, the power of one cell as large as the degree, registers at the far end).
pub fn generate<F: PrimeField>(g: &Value) -> (InstanceProperties<F>, Vec<Vec<F>>) {
    let n = gu(g, "rows");
    let m = gu(g, "regs");
    let deg = gud(g, "deg", 2) as u64;
    let mut rng = Rng::new(gud(g, "seed", 1) as u64);
    let style = gs(g, "style").to_string();
    let far = gb(g, "far");
    let near = |rng: &mut Rng, max: usize| -> usize { if far { max - rng.below(3.min(max + 1)) } else { rng.below(max + 1) } };
    let constant = style == "const" || style == "zero";
    let maxstep = gud(g, "maxstep", 2).min(n.saturating_sub(1));
    let mut w: Vec<Vec<F>> = (0..m).map(|_| match style.as_str() {
        "zero" => vec![F::zero(); n],
        "const" => { let v = rng.nonzero::<F>(); vec![v; n] }
        _ => rng.vec(n),
    }).collect();

    // recurrences R_i(t+d) = c + sum of terms
    struct Rule<F: PrimeField> { reg: usize, d: usize, start: usize, span: usize, c: F, terms: Vec<Tm<F>> }
    let mut rules: Vec<Rule<F>> = vec![];
    let mut have_deg = false;
    for i in 0..m {
        let last = i == m - 1;
        if !(last && !have_deg) && rng.chance(1, 4) { continue; }
        let mut d = if rng.chance(1, 5) && i > 0 { 0 } else if far { near(&mut rng, maxstep).max(1) } else { rng.range(1, maxstep.max(1)) };
        if n == 1 { d = 0; }
        if d == 0 && i == 0 && n > 1 { d = 1; }
        let span0 = d.max(1);
        if span0 > n { continue; }
        let mut span = (span0 + near(&mut rng, gud(g, "spanx", 2))).min(n);
        let mut start = near(&mut rng, gud(g, "startx", 2));
        if start + span > n { start = 0; }
        if start + span > n { span = n; }
        let mut terms = vec![];
        let nt = rng.range(1, 3);
        for k in 0..nt {
            let want = if k == 0 && !have_deg { have_deg = true; deg } else { rng.range(1, deg as usize) as u64 };
            let mut left = want;
            let mut u = vec![];
            while left > 0 {
                let e = if far && k == 0 { left } else { rng.range(1, left as usize) as u64 };
                let (r, s) = if d == 0 { if i == 0 { (0, 0) } else { (rng.below(i), 0) } }
                    else if i > 0 && rng.chance(1, 4) { (rng.below(i), d) }
                    else { (rng.below(m), rng.below(d)) };
                u.push((r, s, e));
                left -= e;
            }
            let c = match rng.below(4) { 0 => F::one(), 1 => { let mut o = F::one(); o.negate(); o } _ => rng.nonzero() };
            terms.push(Tm { c, u });
        }
        let c = if rng.chance(1, 2) { F::zero() } else { rng.field() };
        rules.push(Rule { reg: i, d, start, span, c, terms });
    }
    if n == 1 { for r in rules.iter_mut() { r.start = 0; r.span = 1; } }
    if constant {
        // constant c makes the rule hold on the constant trace
        for r in rules.iter_mut() {
            let mut c = w[r.reg][0];
            for t in r.terms.iter() { let z = ev(&Tm { c: t.c, u: t.u.iter().map(|(a, _, e)| (*a, 0, *e)).collect() }, &w, 0); c.sub_assign(&z); }
            r.c = c;
        }
    } else {
        for row in 0..n {
            for r in rules.iter() {
                if row < r.d { continue; }
                let t = row - r.d;
                if t < r.start || t >= n - r.span { continue; }
                let mut v = r.c;
                for x in r.terms.iter() { v.add_assign(&ev(x, &w, t)); }
                w[r.reg][row] = v;
            }
        }
    }
    let mut one = F::one();
    let minus = { let mut o = F::one(); o.negate(); o };
    one = { let _ = one; F::one() };
    let mut cons: Vec<Constraint<F>> = vec![];
    let mut push = |rng: &mut Rng, cst: F, all: Vec<Tm<F>>, start: usize, span: usize| {
        let mut k = Constraint::<F>::default();
        k.density = ConstraintDensity::Dense(DenseConstraint::new(start, span));
        if rng.chance(1, 2) { k += &cst; } else { let mut x = cst; x.negate(); k -= &x; }
        for t in all {
            let mk = |r: usize, s: usize, e: u64| { let mut u = UnivariateTerm::<F>::from(Register::Register(r)); u.set_step_difference(s); u.pow(e) };
            if t.u.len() == 1 && rng.chance(2, 3) {
                let mut u = mk(t.u[0].0, t.u[0].1, t.u[0].2);
                if rng.chance(1, 2) { u *= &t.c; k += u; } else { let mut x = t.c; x.negate(); u *= &x; k -= u; }
            } else {
                let mut p = PolyvariateTerm::<F>::default();
                for (r, s, e) in t.u.iter() { p *= mk(*r, *s, *e); }
                if rng.chance(1, 2) { p *= t.c; k += p; } else { let mut x = t.c; x.negate(); p *= x; k -= p; }
            }
        }
        cons.push(k);
    };
    let base = |r: &Rule<F>| -> Vec<Tm<F>> {
        let mut v = vec![Tm { c: F::one(), u: vec![(r.reg, r.d, 1)] }];
        for t in r.terms.iter() { let mut c = t.c; c.mul_assign(&minus); v.push(Tm { c, u: t.u.clone() }); }
        v
    };
    for r in rules.iter() {
        let mut c = r.c; c.negate();
        push(&mut rng, c, base(r), r.start, r.span);
    }
    // products of a rule of lower degree with another cell, on part of its rows
    for _ in 0..gud(g, "extra", 1) {
        if rules.is_empty() { break; }
        let r = &rules[rng.below(rules.len())];
        let own = r.terms.iter().map(|t| t.u.iter().map(|x| x.2).sum::<u64>()).max().unwrap_or(1).max(1);
        if own + 1 > deg { continue; }
        let e = rng.range(1, (deg - own) as usize) as u64;
        let by = (rng.below(m), rng.below(r.span.min(maxstep + 1).max(1)), e);
        let mut all = vec![];
        for t in base(r) { let mut u = t.u.clone(); u.push(by); all.push(Tm { c: t.c, u }); }
        let mut c = r.c; c.negate();
        all.push(Tm { c, u: vec![by] });
        let start = (r.start + rng.below(2)).min(n - r.span);
        let span = (r.span + rng.below(2)).min(n - start);
        push(&mut rng, F::zero(), all, start, span);
    }
    let mut bc = vec![];
    for k in 0..gud(g, "bcs", 2) {
        let r = rng.below(m);
        let row = match k { 0 => 0, 1 => n - 1, _ => rng.below(n) };
        bc.push(BoundaryConstraint { register: Register::Register(r), at_row: row, value: Some(w[r][row]) });
    }
    let _ = one;
    (InstanceProperties { num_rows: n, num_registers: m, constraints: cons, boundary_constraints: bc }, w)
}

/// the instance and trace named by a scenario; `mut` lists [register, row, difference] applied to the trace
pub fn instance<F: PrimeField>(s: &Value) -> (InstanceProperties<F>, Vec<Vec<F>>) {
    let (p, mut w) = if s["gen"].is_object() { generate::<F>(&s["gen"]) }
        else if s["builder"].is_object() { made::<F>(&s["builder"]).expect("harness: builder") }
        else { (props_from_json::<F>(&s["inst"]), s["witness"].as_array().expect("witness").iter().map(|c| fvec::<F>(c)).collect()) };
    if let Some(ms) = s["mut"].as_array() {
        for m in ms {
            let r = m[0].as_u64().unwrap() as usize % w.len();
            let row = m[1].as_u64().unwrap() as usize % w[r].len();
            w[r][row].add_assign(&fparse::<F>(&m[2]));
        }
    }
    (p, w)
}

pub fn wj<F: PrimeField>(w: &Vec<Vec<F>>) -> Value { Value::Array(w.iter().map(|c| vj(c)).collect()) }

/// catch a panic and report it as a refusal of its own kind
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().unwrap_or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()).unwrap_or_default()))
}
pub fn verdict<E>(r: Result<Result<(), E>, String>) -> &'static str { match r { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" } }

/// changes to an instance, as a list of [kind, which, ..]
pub fn distort<F: PrimeField>(p: &mut InstanceProperties<F>, imut: &Value) {
    let ms = match imut.as_array() { Some(a) => a, None => return };
    for m in ms {
        let a = |k: usize| m[k].as_u64().expect("harness: imut argument") as usize;
        let (nb, nc, rows, regs) = (p.boundary_constraints.len(), p.constraints.len(), p.num_rows, p.num_registers);
        let kind = m[0].as_str().unwrap();
        if kind.starts_with("bc") && nb == 0 || !kind.starts_with("bc") && kind != "rows" && kind != "addbc" && nc == 0 { continue; }
        macro_rules! bc { () => { p.boundary_constraints[a(1) % nb] } }
        macro_rules! con { () => { p.constraints[a(1) % nc] } }
        match kind {
            "bcnone" => bc!().value = None,
            "bcval" => if let Some(ref mut v) = bc!().value { v.add_assign(&F::one()); },
            "bcrow" => { let b = &mut bc!(); b.at_row = (b.at_row + a(2)) % rows; }
            "bcreg" => { let b = &mut bc!(); if let Register::Register(ref mut r) = b.register { *r = (*r + a(2)) % regs; } }
            "bcdrop" => { p.boundary_constraints.remove(a(1) % nb); }
            "bcswap" => { let k = a(1) % nb; p.boundary_constraints.swap(0, k); }
            "bctwice" => { let b = bc!().clone(); p.boundary_constraints.push(b); }
            "addbc" => p.boundary_constraints.push(BoundaryConstraint { register: Register::Register(a(1) % regs), at_row: a(2) % rows, value: Some(fu::<F>(a(3) as u64)) }),
            "span" => { let c = &mut con!(); if let ConstraintDensity::Dense(ref mut d) = c.density { d.span = a(2).min(rows); } }
            "start" => { let c = &mut con!(); if let ConstraintDensity::Dense(ref mut d) = c.density { d.start_at = a(2); } }
            "const" => { let v = fparse::<F>(&m[2]); con!() += &v; }
            "coef" => { let c = &mut con!(); let n = c.terms.len(); if n > 0 { match c.terms[a(2) % n] { ConstraintTerm::Univariate(ref mut u) => u.coeff.add_assign(&F::one()), ConstraintTerm::Polyvariate(ref mut t) => t.coeff.add_assign(&F::one()) } } }
            "term" => { let c = &mut con!(); let n = c.terms.len(); if n > 1 { c.terms.remove(a(2) % n); } }
            "drop" => if nc > 1 { p.constraints.remove(a(1) % nc); },
            "swap" => { let k = a(1) % nc; p.constraints.swap(0, k); }
            "twice" => { let c = con!().clone(); p.constraints.push(c); }
            "scale" => { let c = &mut con!(); let f = fu::<F>(a(2) as u64); c.constant_term.mul_assign(&f); for t in c.terms.iter_mut() { match t { ConstraintTerm::Univariate(ref mut u) => u.coeff.mul_assign(&f), ConstraintTerm::Polyvariate(ref mut t) => t.coeff.mul_assign(&f) } } }
            "rows" => p.num_rows = (rows + a(1)).saturating_sub(a(2)).max(1),
            x => panic!("harness: imut {}", x),
        }
    }
}

/// every cell of the trace or, when it has more than `cellmax`, so many of them: those of the first and the last row, and any others
fn some_cells<F: PrimeField>(s: &Value, w: &Vec<Vec<F>>) -> Vec<(usize, usize)> {
    let max = gud(s, "cellmax", usize::max_value());
    let all: Vec<(usize, usize)> = (0..w.len()).flat_map(|i| (0..w[i].len()).map(move |t| (i, t))).collect();
    if all.len() <= max { return all; }
    let mut r = Rng::new(gud(s, "seed", 1) as u64 + 77);
    (0..max).map(|k| { let i = r.below(w.len()); let n = w[i].len(); (i, match k % 4 { 0 => n - 1 - r.below(n.min(3)), 1 => r.below(n.min(3)), _ => r.below(n) }) }).collect()
}

fn arp<F: PrimeField>(s: &Value) -> Value {
    let (mut p, mut w) = instance::<F>(s);
    distort(&mut p, &s["imut"]);
    if !s["randw"].is_null() { let mut r = Rng::new(gu(s, "randw") as u64); for c in w.iter_mut() { for v in c.iter_mut() { if r.chance(1, 3) { *v = r.field(); } } } }
    let worker = { vh::set_cpus(gud(s, "cpus", 1)); vh::Worker::new() };
    let inst = props_json(&p);
    // powers of 64 bits: x^(e + k (p - 1)) = x^e for e >= 1, so the recorded instance means the same
    if !s["bump"].is_null() {
        let k = (modulus_small::<F>() - 1) << gu(s, "bump");
        let up = |u: &mut UnivariateTerm<F>| if u.power >= 1 { u.power += k; };
        for c in p.constraints.iter_mut() { for t in c.terms.iter_mut() { match t {
            ConstraintTerm::Univariate(u) => up(u),
            ConstraintTerm::Polyvariate(q) => for u in q.terms.iter_mut() { up(u); },
        } } }
    }
    let r = guarded(|| ARPInstance::<F, PerRegisterARP>::is_satisfied(&p, &w, &worker));
    // every single-cell change, when asked
    let mut cells = vec![];
    if gb(s, "cells") {
        for (i, t) in some_cells(s, &w) {
            let old = w[i][t];
            w[i][t].add_assign(&F::one());
            cells.push(json!([i, t, verdict(guarded(|| ARPInstance::<F, PerRegisterARP>::is_satisfied(&p, &w, &worker)))]));
            w[i][t] = old;
        }
    }
    json!({"p": modulus_small::<F>(), "inst": inst, "w": wj(&w), "got": verdict(r), "cells": cells})
}

fn wpoly<F: PrimeField>(s: &Value) -> Value {
    let (p, mut w) = instance::<F>(s);
    match gs(s, "shape") {
        "" | "ok" => {}
        "dropreg" => { w.pop(); }
        "addreg" => { let c = w[0].clone(); w.push(c); }
        "droprow" => for c in w.iter_mut() { c.pop(); },
        "addrow" => for c in w.iter_mut() { c.push(F::one()); },
        "ragged" => { let k = w.len() - 1; w[k].pop(); }
        "ragged+" => { let k = w.len() - 1; w[k].push(F::one()); }
        "ragged0" => { w[0].pop(); }
        "raggedmid" => { let k = w.len() / 2; w[k].push(F::one()); }
        "moved" => { let k = w.len() - 1; w[k].pop(); w[0].push(F::one()); }
        "padded" => { let n = w[0].len().next_power_of_two(); for c in w.iter_mut() { c.resize(n, F::zero()); } }
        x => panic!("harness: shape {}", x),
    }
    let worker = { vh::set_cpus(gud(s, "cpus", 1)); vh::Worker::new() };
    let w2 = w.clone();
    let inst = props_json(&p);
    let r = guarded(|| -> Result<Vec<Value>, hodor::SynthesisError> {
        let a = ARPInstance::<F, PerRegisterARP>::from_instance(p, &worker)?;
        let ps = a.calculate_witness_polys(w2, &worker)?;
        Ok(ps.iter().map(|q| vj(q.as_ref())).collect())
    });
    match r {
        Ok(Ok(ps)) => json!({"p": modulus_small::<F>(), "inst": inst, "w": wj(&w), "polys": ps, "got": "ok"}),
        Ok(Err(_)) => json!({"p": modulus_small::<F>(), "inst": inst, "w": wj(&w), "polys": [], "got": "err"}),
        Err(_) => json!({"p": modulus_small::<F>(), "inst": inst, "w": wj(&w), "polys": [], "got": "panic"}),
    }
}

/// instance and trace made by one of the builders of the crate
pub fn made<F: PrimeField>(b: &Value) -> Option<(InstanceProperties<F>, Vec<Vec<F>>)> {
    #[cfg(hodor_verif_builders)]
    {
        use hodor::verif_hooks::builders as bl;
        let c0 = fparse::<F>(&b["c0"]);
        let c1 = fparse::<F>(&b["c1"]);
        let n = gu(b, "n");
        let (w, p) = match gs(b, "which") {
            "vdf" => bl::VDF::<F> { start_c0: c0, start_c1: c1, num_operations: n }.into_arp(),
            "cubic" => bl::CubicVDF::<F> { start_c0: c0, start_c1: c1, num_operations: n }.into_arp(),
            "fib" => bl::fibonacci_trace::<F>(b["final"].as_u64(), b["at"].as_u64().map(|x| x as usize), n).into_arp(),
            x => panic!("harness: builder {}", x),
        };
        return Some((p, w.expect("witness")));
    }
    #[cfg(not(hodor_verif_builders))]
    { let _ = b; None }
}

fn builder<F: PrimeField>(s: &Value) -> Value {
    let (p, mut w) = match made::<F>(&s["builder"]) { Some(x) => x, None => return json!({"res": "absent"}) };
    let worker = { vh::set_cpus(gud(s, "cpus", 1)); vh::Worker::new() };
    let got = verdict(guarded(|| ARPInstance::<F, PerRegisterARP>::is_satisfied(&p, &w, &worker)));
    let orig = wj(&w);
    let mut cells = vec![];
    for (i, t) in some_cells(s, &w) {
        let old = w[i][t];
        w[i][t].add_assign(&F::one());
        cells.push(json!([i, t, verdict(guarded(|| ARPInstance::<F, PerRegisterARP>::is_satisfied(&p, &w, &worker)))]));
        w[i][t] = old;
    }
    json!({"p": modulus_small::<F>(), "inst": props_json(&p), "w": orig, "got": got, "cells": cells})
}

/// A traced program with registers of every kind; witness cells are numbered so that every one is recognisable.
fn trace<F: PrimeField>(s: &Value) -> Value {
    #[cfg(hodor_verif_builders)]
    {
        let (npc, nr, na, nk) = (gu(s, "npc"), gu(s, "nr"), gu(s, "na"), gu(s, "nk"));
        let rows = gu(s, "rows");
        let mut rng = Rng::new(gud(s, "seed", 1) as u64);
        let mut t = hodor::verif_hooks::builders::new_trace_system::<F>();
        let mut all: Vec<(String, usize)> = vec![];
        // registers of the kinds are allocated in a mixed order
        let mut todo: Vec<&str> = vec![];
        for _ in 0..nr { todo.push("r"); }
        for _ in 0..na { todo.push("a"); }
        for _ in 0..nk { todo.push("k"); }
        for i in (1..todo.len()).rev() { let j = rng.below(i + 1); todo.swap(i, j); }
        for k in todo {
            let r = match k {
                "r" => t.allocate_register("x".to_string()),
                "a" => t.allocate_aux_register(),
                _ => t.allocate_constant_register("k".to_string(), |_| Ok((F::one(), true))),
            }.expect("allocate");
            match r { Register::Register(i) => all.push(("r".into(), i)), Register::Aux(i) => all.push(("a".into(), i)), Register::Constant(i) => all.push(("k".into(), i)), Register::ProgramCounter(i) => all.push(("p".into(), i)) }
        }
        for i in 0..npc { t.pc_registers.push(format!("pc{}", i)); if t.pc_registers_witness.len() <= i { t.pc_registers_witness.push(vec![]); } all.push(("p".into(), i)); }
        if all.is_empty() { return json!({"res": "absent"}); }
        let (kw, rw) = if gb(s, "many") { (8000, if rows <= 20 { 20 } else { 200 }) } else { (40, 8) };
        let cell = |kind: &str, i: usize, row: usize| -> u64 { (match kind { "p" => 0, "r" => kw, "a" => 2 * kw, _ => 3 * kw }) + (i as u64) * rw + row as u64 % rw };
        let mut wit: Vec<Value> = vec![];
        for (k, i) in all.iter() {
            let col: Vec<F> = (0..rows).map(|r| fu::<F>(cell(k, *i, r))).collect();
            let v = match k.as_str() { "p" => &mut t.pc_registers_witness, "r" => &mut t.registers_witness, "a" => &mut t.aux_registers_witness, _ => &mut t.constant_registers_witness };
            if v.len() <= *i { v.push(vec![]); }
            wit.push(json!({"k": k, "r": i, "w": vj(&col)}));
            v[*i] = col;
        }
        t.step(rows - 1).ok();
        // constraints over the registers: stay as they are, with registers renamed
        let mut src = vec![];
        for _ in 0..gud(s, "ncons", 3) {
            let mut steps = vec![];
            for _ in 0..rng.range(1, 3) {
                let mk = |rng: &mut Rng| { let (k, i) = all[rng.below(all.len())].clone(); json!({"k": k, "r": i, "ops": [["step", rng.below(2)], ["pow", rng.range(1, 2)], ["mul", rng.range(1, 9)]]}) };
                match rng.below(3) {
                    0 => steps.push(json!(["addu", mk(&mut rng)])),
                    1 => steps.push(json!(["subu", mk(&mut rng)])),
                    _ => { let a = mk(&mut rng); let b = mk(&mut rng); steps.push(json!(["addp", {"ops": [["u", a], ["u", b], ["f", 3]]}])) }
                }
            }
            steps.push(json!(["addc", rng.below(50)]));
            let mut c = program::<F>(&Value::Array(steps));
            c.density = ConstraintDensity::Dense(DenseConstraint::new(rng.below(2), rng.range(1, 2)));
            src.push(cj(&c));
            t.add_constraint_with_witness(c, |_| Ok(vec![])).expect("add");
        }
        let mut srcb = vec![];
        for _ in 0..gud(s, "nbc", 3) {
            let (k, i) = all[rng.below(all.len())].clone();
            let row = rng.below(rows);
            let reg = match k.as_str() { "p" => Register::ProgramCounter(i), "r" => Register::Register(i), "a" => Register::Aux(i), _ => Register::Constant(i) };
            let v = if rng.chance(1, 5) { None } else { Some(fu::<F>(cell(&k, i, row))) };
            let b = BoundaryConstraint::<F> { register: reg, at_row: row, value: v };
            srcb.push(bj(&b));
            t.add_boundary_constraint("b".into(), reg, row, v).expect("bc");
        }
        let (w, p) = t.into_arp();
        let w = w.expect("witness");
        return json!({"p": modulus_small::<F>(), "wit": wit, "src": src, "srcb": srcb, "inst": props_json(&p), "w": wj(&w)});
    }
    #[cfg(not(hodor_verif_builders))]
    { let _ = s; json!({"res": "absent"}) }
}
