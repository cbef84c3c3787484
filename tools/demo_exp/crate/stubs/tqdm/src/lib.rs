//! A progress bar yields what its iterator yields.
pub struct Tqdm<I>(I);
impl<I: Iterator> Iterator for Tqdm<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<I> Tqdm<I> {
    pub fn desc<S: ToString>(self, _: Option<S>) -> Self {
        self
    }
}
pub fn tqdm<I: IntoIterator>(i: I) -> Tqdm<I::IntoIter> {
    Tqdm(i.into_iter())
}
