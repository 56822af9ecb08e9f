//! Trees of protocols joined by the chain combinator of the library, and the trait by which all the checks build
//! sessions of any of them.
use std::{fmt::Debug, marker::PhantomData, sync::Arc};

use manul::{
    combinators::chain::{ChainedJoin, ChainedMarker, ChainedProtocol, ChainedSharedData, ChainedSplit},
    protocol::{EntryPoint, Protocol},
};

use crate::{params::Vid, proto::*, util::Gen};

/// An entry point of a (possibly chained) generated protocol.
pub trait Tree: EntryPoint<Vid, Protocol: Protocol<Vid, Result = Res> + serde::Serialize + serde::de::DeserializeOwned> + Clone + Debug + Send + Sync + 'static {
    const LEAVES: usize;
    /// `cfgs` and `twists` are those of the leaves of this subtree.
    fn build(cfgs: &[Arc<Cfg>], log: &Log, twists: &[Vec<Twist>]) -> Self;
    fn with_input(self, input: u64) -> Self;
    fn shared(cfgs: &[Arc<Cfg>]) -> <Self::Protocol as Protocol<Vid>>::SharedData;
}

impl<const IDX: u8> Tree for Entry<IDX> {
    const LEAVES: usize = 1;
    fn build(cfgs: &[Arc<Cfg>], log: &Log, twists: &[Vec<Twist>]) -> Self {
        Entry { cfg: cfgs[0].clone(), log: log.clone(), twists: twists.first().cloned().unwrap_or_default(), input: 0 }
    }
    fn with_input(mut self, input: u64) -> Self {
        self.input = input;
        self
    }
    fn shared(cfgs: &[Arc<Cfg>]) -> Arc<Cfg> {
        cfgs[0].clone()
    }
}

#[derive(serde::Serialize, serde::Deserialize)]
#[serde(bound = "")]
pub struct Chain<A, B>(PhantomData<fn() -> (A, B)>);
impl<A, B> Debug for Chain<A, B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Chain")
    }
}
impl<A: Protocol<Vid>, B: Protocol<Vid>> ChainedProtocol<Vid> for Chain<A, B> {
    type Protocol1 = A;
    type Protocol2 = B;
}
impl<A, B> ChainedMarker for Chain<A, B> {}

/// Entry point of a chain of two trees.
#[derive(Clone, Debug)]
pub struct CE<L, R>(pub L, pub R);
impl<L, R> ChainedMarker for CE<L, R> {}

#[derive(Debug)]
pub struct Join<L, R>(R, PhantomData<fn() -> L>);

impl<L: Tree, R: Tree> ChainedSplit<Vid> for CE<L, R> {
    type Protocol = Chain<L::Protocol, R::Protocol>;
    type EntryPoint = L;
    fn make_entry_point1(self) -> (L, impl ChainedJoin<Vid, Protocol = Self::Protocol>) {
        (self.0, Join::<L, R>(self.1, PhantomData))
    }
}
impl<L: Tree, R: Tree> ChainedJoin<Vid> for Join<L, R> {
    type Protocol = Chain<L::Protocol, R::Protocol>;
    type EntryPoint = R;
    fn make_entry_point2(self, result: Res) -> R {
        self.0.with_input(result.acc)
    }
}

impl<L: Tree, R: Tree> Tree for CE<L, R> {
    const LEAVES: usize = L::LEAVES + R::LEAVES;
    fn build(cfgs: &[Arc<Cfg>], log: &Log, twists: &[Vec<Twist>]) -> Self {
        let k = L::LEAVES;
        let t = twists.get(k..).unwrap_or(&[]);
        CE(L::build(&cfgs[..k], log, twists), R::build(&cfgs[k..], log, t))
    }
    fn with_input(self, input: u64) -> Self {
        CE(self.0.with_input(input), self.1)
    }
    fn shared(cfgs: &[Arc<Cfg>]) -> ChainedSharedData<Vid, Chain<L::Protocol, R::Protocol>> {
        ChainedSharedData { protocol1: L::shared(&cfgs[..L::LEAVES]), protocol2: R::shared(&cfgs[L::LEAVES..]) }
    }
}

pub type T1 = Entry<0>;
pub type T2 = CE<Entry<0>, Entry<1>>;
pub type T3L = CE<CE<Entry<0>, Entry<1>>, Entry<2>>;
pub type T3R = CE<Entry<0>, CE<Entry<1>, Entry<2>>>;
pub type T4 = CE<CE<Entry<0>, Entry<1>>, CE<Entry<2>, Entry<3>>>;

/// Deeper than the number of nesting levels for which round identifiers have space reserved
pub type T6L = CE<CE<CE<CE<CE<Entry<0>, Entry<1>>, Entry<2>>, Entry<3>>, Entry<4>>, Entry<5>>;
pub type T6R = CE<Entry<0>, CE<Entry<1>, CE<Entry<2>, CE<Entry<3>, CE<Entry<4>, Entry<5>>>>>>;

/// Configurations of the leaves of a tree. All have the same parties.
pub fn gen_cfgs(g: &mut Gen, leaves: usize, k: Knobs) -> Vec<Arc<Cfg>> {
    let first = gen_cfg(g, k);
    let mut cfgs = vec![first];
    for p in 1..leaves {
        let ids = cfgs[0].ids.clone();
        let same = g.chance(1, 3);
        let mut c = if same {
            // the same rounds once more: the round numbers coincide
            cfgs[p - 1].clone()
        } else {
            gen_cfg_for(g, ids, k)
        };
        c.p = p as u8;
        c.seed = g.below(1 << 16) as u64;
        cfgs.push(c);
    }
    cfgs.into_iter().map(Arc::new).collect()
}

/// The entry rounds have to be known statically.
pub fn set_entry_nums(cfgs: &[Arc<Cfg>]) {
    ENTRY_NUM.with(|e| {
        let mut e = e.borrow_mut();
        for (i, c) in cfgs.iter().enumerate() {
            e[i] = c.num(0, 0);
        }
    });
}

/// Runs the body with `T` bound to one of the trees.
#[macro_export]
macro_rules! with_tree {
    ($idx:expr, $T:ident => $body:expr) => {
        match $idx {
            0 => { type $T = $crate::chain::T1; $body }
            1 => { type $T = $crate::chain::T2; $body }
            2 => { type $T = $crate::chain::T3L; $body }
            3 => { type $T = $crate::chain::T3R; $body }
            _ => { type $T = $crate::chain::T4; $body }
        }
    };
}

pub fn leaves(tree: usize) -> usize {
    with_tree!(tree, T => T::LEAVES)
}
/// A tree and a wire format; not all combinations, to keep the build time reasonable.
#[macro_export]
macro_rules! with_both {
    ($tree:expr, $fmt:expr, $T:ident, $F:ident => $body:expr) => {
        match ($tree, $fmt % 4) {
            (0, 0) => { type $T = $crate::chain::T1; type $F = $crate::params::Bin; $body }
            (0, 1) => { type $T = $crate::chain::T1; type $F = $crate::params::Json; $body }
            (0, 2) => { type $T = $crate::chain::T1; type $F = $crate::params::Tree; $body }
            (0, _) => { type $T = $crate::chain::T1; type $F = $crate::params::Fixed; $body }
            (1, 0 | 3) => { type $T = $crate::chain::T2; type $F = $crate::params::Bin; $body }
            (1, _) => { type $T = $crate::chain::T2; type $F = $crate::params::Json; $body }
            (2, _) => { type $T = $crate::chain::T3L; type $F = $crate::params::Tree; $body }
            (3, _) => { type $T = $crate::chain::T3R; type $F = $crate::params::Fixed; $body }
            _ => { type $T = $crate::chain::T4; type $F = $crate::params::Json; $body }
        }
    };
}
