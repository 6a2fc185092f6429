//! Sequential stand-in for rayon, symbolic build only: a parallel iterator is an iterator.
pub mod iter {
    pub trait ParallelIterator: Iterator + Sized {
        fn flat_map_iter<U: IntoIterator, F: Fn(Self::Item) -> U>(self, f: F) -> std::iter::FlatMap<Self, U, F> {
            self.flat_map(f)
        }
        fn find_any<F: FnMut(&Self::Item) -> bool>(mut self, f: F) -> Option<Self::Item> {
            self.find(f)
        }
        fn find_map_any<R, F: FnMut(Self::Item) -> Option<R>>(mut self, f: F) -> Option<R> {
            self.find_map(f)
        }
    }
    impl<I: Iterator> ParallelIterator for I {}
    pub trait IndexedParallelIterator: ParallelIterator {}
    impl<I: Iterator> IndexedParallelIterator for I {}
    pub trait IntoParallelIterator {
        type Iter: Iterator<Item = Self::Item>;
        type Item;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T: IntoIterator> IntoParallelIterator for T {
        type Iter = T::IntoIter;
        type Item = T::Item;
        fn into_par_iter(self) -> Self::Iter {
            self.into_iter()
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Iter: Iterator<Item = Self::Item>;
        type Item: 'a;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T
    where
        &'a T: IntoIterator,
    {
        type Iter = <&'a T as IntoIterator>::IntoIter;
        type Item = <&'a T as IntoIterator>::Item;
        fn par_iter(&'a self) -> Self::Iter {
            self.into_iter()
        }
    }
}
pub mod prelude {
    pub use crate::iter::*;
}
