//! Enumeration helpers.

/// All words of length `len` over 0..base, by index.
pub fn word(mut idx: usize, base: usize, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for x in v.iter_mut() {
        *x = idx % base;
        idx /= base;
    }
    v
}

pub fn pow(b: usize, e: usize) -> usize {
    b.pow(e as u32)
}

/// All permutations of 0..n (lexicographic).
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![false; n], &mut out);
    out
}
