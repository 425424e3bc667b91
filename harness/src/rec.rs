//! Recording stand-ins for the transcript and the oracle, both delegating to the real implementations.
use crate::util::*;
use ff::PrimeField;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::trivial_coset_combiner::TrivialCombiner;
use hodor::iop::*;
use hodor::transcript::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Mutex, MutexGuard};

pub type Digest = [u8; 32];

pub struct Tree {
    pub root: usize,
    pub leaves: Vec<Value>,
    pub levels: Vec<Vec<Digest>>,
}

#[derive(Default)]
pub struct State {
    pub digests: Vec<Digest>,
    pub ids: HashMap<Digest, usize>,
    pub trees: Vec<Tree>,
    /// transcript operations since the last `take_ops`
    pub ops: Vec<Value>,
    pub draws: usize,
    pub cbs: usize,
    /// replaced challenges, by number of the draw since the last `take_ops`
    pub script: HashMap<usize, Value>,
    pub record: bool,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);

pub fn lock() -> MutexGuard<'static, Option<State>> {
    match STATE.lock() { Ok(g) => g, Err(e) => e.into_inner() }
}
pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let mut g = lock();
    if g.is_none() { *g = Some(State::default()); }
    f(g.as_mut().unwrap())
}
pub fn reset() { *lock() = Some(State { record: true, ..State::default() }); }
pub fn set_script(v: &Value) {
    with(|s| { s.script.clear(); if let Some(a) = v.as_array() { for p in a { s.script.insert(p[0].as_u64().unwrap() as usize, p[1].clone()); } } })
}
pub fn take_ops() -> Vec<Value> { with(|s| { s.draws = 0; s.cbs = 0; std::mem::replace(&mut s.ops, vec![]) }) }
pub fn trees_len() -> usize { with(|s| s.trees.len()) }

impl State {
    pub fn id(&mut self, d: &Digest) -> usize {
        if let Some(i) = self.ids.get(d) { return *i; }
        self.digests.push(*d);
        let i = self.digests.len();
        self.ids.insert(*d, i);
        i
    }
}
pub fn id(d: &Digest) -> usize { with(|s| s.id(d)) }

fn node<F: PrimeField>(a: &Digest, b: &Digest) -> Digest { <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_node(&[*a, *b], 0) }
fn leaf<F: PrimeField>(a: &F) -> Digest { <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_leaf(a) }

pub fn levels<F: PrimeField>(leafs: &[F]) -> Vec<Vec<Digest>> {
    let mut out = vec![leafs.iter().map(leaf).collect::<Vec<_>>()];
    while out.last().unwrap().len() > 1 {
        let n = out.last().unwrap().chunks(2).map(|c| node::<F>(&c[0], &c[1])).collect();
        out.push(n);
    }
    out
}
pub fn ref_path(levels: &[Vec<Digest>], mut i: usize) -> Vec<Digest> {
    let mut p = vec![];
    for l in levels[..levels.len() - 1].iter() { p.push(l[i ^ 1]); i >>= 1; }
    p
}

// ---------------------------------------------------------------- transcript
#[derive(Clone)]
pub struct RecTranscript<F: PrimeField> { inner: Blake2sTranscript<F> }

impl<F: PrimeField> Transcript<F> for RecTranscript<F> {
    fn new() -> Self { RecTranscript { inner: Blake2sTranscript::new() } }
    fn commit_bytes(&mut self, bytes: &[u8]) {
        with(|s| {
            if !s.record { return; }
            let v = if bytes.len() == 32 { let mut d = [0u8; 32]; d.copy_from_slice(bytes); let i = s.id(&d); json!(["r", i]) } else { json!(["b", hex::encode(bytes)]) };
            s.ops.push(v);
        });
        self.inner.commit_bytes(bytes)
    }
    fn commit_field_element(&mut self, element: &F) {
        with(|s| if s.record { s.ops.push(json!(["f", fj(element)])) });
        self.inner.commit_field_element(element)
    }
    fn get_challenge_bytes(&mut self) -> Vec<u8> {
        let b = self.inner.get_challenge_bytes();
        with(|s| { s.cbs += 1; if s.record { s.ops.push(json!(["q", b])) } });
        b
    }
    fn get_challenge(&mut self) -> F {
        let mut v: F = self.inner.get_challenge();
        with(|s| {
            if let Some(x) = s.script.get(&s.draws) { v = fparse::<F>(x); }
            s.draws += 1;
            if s.record { s.ops.push(json!(["c", fj(&v)])) }
        });
        v
    }
}

// ---------------------------------------------------------------- oracle
pub struct RecIop<F: PrimeField> { pub inner: TrivialBlake2sIOP<F> }
impl<F: PrimeField> PartialEq for RecIop<F> { fn eq(&self, o: &Self) -> bool { self.inner == o.inner } }
impl<F: PrimeField> Eq for RecIop<F> {}

#[derive(Clone, Debug)]
pub struct RecQuery<F: PrimeField> {
    pub index: usize,
    pub tree_index: usize,
    pub value: F,
    pub path: Vec<Digest>,
    pub real: Option<TrivialBlake2sIopQuery<F>>,
}
impl<F: PrimeField> PartialEq for RecQuery<F> {
    fn eq(&self, o: &Self) -> bool { self.index == o.index && self.tree_index == o.tree_index && self.value == o.value && self.path == o.path }
}
impl<F: PrimeField> Eq for RecQuery<F> {}

impl<F: PrimeField> RecQuery<F> {
    pub fn forged(index: usize, value: F, path: Vec<Digest>) -> Self { RecQuery { index, tree_index: index, value, path, real: None } }
    /// make an altered query out of an honest one
    pub fn with(&self, f: impl FnOnce(&mut RecQuery<F>)) -> Self {
        let mut q = self.clone();
        q.real = None;
        f(&mut q);
        q
    }
}

impl<F: PrimeField> IopQuery<F> for RecQuery<F> {
    type Hasher = Blake2sTreeHasher<F>;
    fn tree_index(&self) -> usize { self.tree_index }
    fn natural_index(&self) -> usize { self.index }
    fn value(&self) -> F { self.value }
    fn path(&self) -> &[Digest] { &self.path }
}

impl<F: PrimeField> IOP<F> for RecIop<F> {
    type Combiner = TrivialCombiner<F>;
    type Tree = Blake2sIopTree<F>;
    type Query = RecQuery<F>;

    fn create(leafs: &[F]) -> Self {
        let inner = TrivialBlake2sIOP::<F>::create(leafs);
        let r = inner.get_root();
        if with(|s| s.record) {
            let lv = levels::<F>(leafs);
            let leaves = leafs.iter().map(fj).collect();
            with(|s| { let root = s.id(&r); s.trees.push(Tree { root, leaves, levels: lv }) });
        }
        RecIop { inner }
    }
    fn get_for_natural_index(leafs: &[F], i: usize) -> &F { TrivialBlake2sIOP::<F>::get_for_natural_index(leafs, i) }
    fn get_for_tree_index(leafs: &[F], i: usize) -> &F { TrivialBlake2sIOP::<F>::get_for_tree_index(leafs, i) }
    fn get_root(&self) -> Digest { self.inner.get_root() }
    fn encode_root_into_challenge(root: &Digest) -> F { TrivialBlake2sIOP::<F>::encode_root_into_challenge(root) }
    fn get_challenge_scalar_from_root(&self) -> F { self.inner.get_challenge_scalar_from_root() }
    fn verify_query(q: &Self::Query, root: &Digest) -> bool {
        match q.real {
            Some(ref r) => TrivialBlake2sIOP::<F>::verify_query(r, root),
            None => <Blake2sIopTree<F> as IopTree<F>>::verify(root, &q.value, &q.path, q.tree_index),
        }
    }
    fn query(&self, natural_index: usize, leafs: &[F]) -> Self::Query {
        let q = self.inner.query(natural_index, leafs);
        RecQuery { index: q.natural_index(), tree_index: q.tree_index(), value: q.value(), path: q.path().to_vec(), real: Some(q) }
    }
}

/// ids of the committed trees for which this is exactly the honest opening
pub fn honest_for<F: PrimeField>(q: &RecQuery<F>) -> Vec<usize> {
    let v = fj(&q.value);
    with(|s| {
        let mut out = vec![];
        for t in s.trees.iter() {
            if q.index == q.tree_index && q.index < t.leaves.len() && t.leaves[q.index] == v && ref_path(&t.levels, q.index) == q.path && !out.contains(&t.root) { out.push(t.root); }
        }
        out
    })
}
pub fn clip(i: usize) -> usize { if i > 1 << 30 { 1 << 30 } else { i } }
pub fn qj<F: PrimeField>(q: &RecQuery<F>) -> Value { json!({"i": clip(q.index), "v": fj(&q.value), "t": honest_for(q)}) }

/// every committed tree once, as [id, leaves, challenge made from the root]
pub fn trees_json<F: PrimeField>(from: usize) -> Value {
    let l: Vec<(usize, Vec<Value>)> = with(|s| s.trees[from.min(s.trees.len())..].iter().map(|t| (t.root, t.leaves.clone())).collect());
    Value::Array(l.into_iter().map(|(i, lv)| {
        let d = with(|s| s.digests[i - 1]);
        json!({"id": i, "leaves": lv, "ch": fj(&<RecIop<F> as IOP<F>>::encode_root_into_challenge(&d))})
    }).collect())
}
/// challenge for every digest seen so far, by id
pub fn digest_challenges<F: PrimeField>() -> Value {
    let ds = with(|s| s.digests.clone());
    Value::Array(ds.iter().map(|d| fj(&<RecIop<F> as IOP<F>>::encode_root_into_challenge(d))).collect())
}
