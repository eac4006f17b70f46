//! Stand-ins for library functions whose own bodies work on raw memory: each does what the
//! library documents through `next`, `push` and `remove`, which the analysis models.

pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x)
    }
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn vec_extend_from_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) {
    let mut it = s.iter();
    while let Some(x) = it.next() {
        v.push(x.clone());
    }
}
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}
pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&mut v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}
