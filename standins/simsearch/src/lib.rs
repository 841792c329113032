//! Stand-in for the simsearch crate: entries that share the first letter, closest in length first.
pub struct SimSearch<I>(Vec<(I, String)>);
impl<I: Copy> SimSearch<I> {
    pub fn new() -> Self {
        SimSearch(vec![])
    }
    pub fn insert(&mut self, id: I, s: &str) {
        self.0.push((id, s.to_lowercase()))
    }
    pub fn search(&self, pat: &str) -> Vec<I> {
        let p = pat.to_lowercase();
        let common = |s: &str| s.chars().zip(p.chars()).take_while(|(a, b)| a == b).count();
        let mut v: Vec<_> = self.0.iter().filter(|(_, s)| common(s) > 0).collect();
        v.sort_by_key(|(_, s)| (usize::MAX - common(s), s.len().abs_diff(p.len())));
        v.into_iter().map(|(i, _)| *i).collect()
    }
}
