pub use real::*;
pub mod algo {
    pub use real::algo::*;
    use real::visit::{IntoNeighborsDirected, NodeCount};
    use std::{collections::hash_map::RandomState, hash::Hash};
    /// In 0.8 the hasher became a parameter.
    pub fn all_simple_paths<T, G>(g: G, from: G::NodeId, to: G::NodeId, min: usize, max: Option<usize>) -> impl Iterator<Item = T>
    where
        G: NodeCount + IntoNeighborsDirected,
        G::NodeId: Eq + Hash,
        T: FromIterator<G::NodeId>,
    {
        real::algo::all_simple_paths::<T, G, RandomState>(g, from, to, min, max)
    }
}
