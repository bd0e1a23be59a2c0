//! Model of `memchr` for the symbolic build: the documented contracts as plain
//! loops (the real crate dispatches to SIMD code at run time).

pub fn memchr(n: u8, h: &[u8]) -> Option<usize> {
    for i in 0..h.len() {
        if h[i] == n {
            return Some(i);
        }
    }
    None
}
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    for i in 0..h.len() {
        if h[i] == a || h[i] == b {
            return Some(i);
        }
    }
    None
}
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    for i in 0..h.len() {
        if h[i] == a || h[i] == b || h[i] == c {
            return Some(i);
        }
    }
    None
}
pub fn memrchr(n: u8, h: &[u8]) -> Option<usize> {
    for i in (0..h.len()).rev() {
        if h[i] == n {
            return Some(i);
        }
    }
    None
}
pub fn memrchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    for i in (0..h.len()).rev() {
        if h[i] == a || h[i] == b {
            return Some(i);
        }
    }
    None
}
pub fn memrchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    for i in (0..h.len()).rev() {
        if h[i] == a || h[i] == b || h[i] == c {
            return Some(i);
        }
    }
    None
}
pub fn memchr_iter<'h>(n: u8, h: &'h [u8]) -> impl DoubleEndedIterator<Item = usize> + 'h {
    h.iter().enumerate().filter(move |(_, b)| **b == n).map(|(i, _)| i)
}
pub fn memchr2_iter<'h>(a: u8, b: u8, h: &'h [u8]) -> impl DoubleEndedIterator<Item = usize> + 'h {
    h.iter().enumerate().filter(move |(_, x)| **x == a || **x == b).map(|(i, _)| i)
}
pub fn memchr3_iter<'h>(a: u8, b: u8, c: u8, h: &'h [u8]) -> impl DoubleEndedIterator<Item = usize> + 'h {
    h.iter().enumerate().filter(move |(_, x)| **x == a || **x == b || **x == c).map(|(i, _)| i)
}

pub mod memmem {
    fn at(h: &[u8], i: usize, n: &[u8]) -> bool {
        for k in 0..n.len() {
            if h[i + k] != n[k] {
                return false;
            }
        }
        true
    }
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
        if n.len() > h.len() {
            return None;
        }
        for i in 0..=h.len() - n.len() {
            if at(h, i, n) {
                return Some(i);
            }
        }
        None
    }
    pub fn rfind(h: &[u8], n: &[u8]) -> Option<usize> {
        if n.len() > h.len() {
            return None;
        }
        for i in (0..=h.len() - n.len()).rev() {
            if at(h, i, n) {
                return Some(i);
            }
        }
        None
    }
    pub fn find_iter<'h, 'n>(h: &'h [u8], n: &'n [u8]) -> FindIter<'h, 'n> {
        FindIter { h, n, pos: 0 }
    }
    pub struct FindIter<'h, 'n> {
        h: &'h [u8],
        n: &'n [u8],
        pos: usize,
    }
    impl Iterator for FindIter<'_, '_> {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            if self.pos > self.h.len() {
                return None;
            }
            let i = find(&self.h[self.pos..], self.n)? + self.pos;
            self.pos = i + self.n.len().max(1);
            Some(i)
        }
    }
    pub struct Finder<'n>(&'n [u8]);
    impl<'n> Finder<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> Self {
            Finder(n.as_ref())
        }
        pub fn find(&self, h: &[u8]) -> Option<usize> {
            find(h, self.0)
        }
        pub fn find_iter<'a, 'h>(&'a self, h: &'h [u8]) -> FindIter<'h, 'a> {
            find_iter(h, self.0)
        }
    }
    pub struct FinderRev<'n>(&'n [u8]);
    impl<'n> FinderRev<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> Self {
            FinderRev(n.as_ref())
        }
        pub fn rfind<B: AsRef<[u8]>>(&self, h: B) -> Option<usize> {
            rfind(h.as_ref(), self.0)
        }
    }
}
