//! Small enumeration helpers.

/// All permutations of 0..n in lexicographic order.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn go(pre: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if pre.len() == n {
            out.push(pre.clone());
            return;
        }
        for i in 0..n {
            if !pre.contains(&i) {
                pre.push(i);
                go(pre, n, out);
                pre.pop();
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], n, &mut out);
    out
}

/// All sequences of length `len` over 0..n.
pub fn seqs(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out.into_iter().flat_map(|p: Vec<usize>| (0..n).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect();
    }
    out
}

/// All sequences of length lo..=hi over 0..n.
pub fn seqs_upto(n: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    (lo..=hi).flat_map(|l| seqs(n, l)).collect()
}

/// All subsets of 0..n as ascending lists, smallest first.
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect();
    v.sort_by_key(|s: &Vec<usize>| s.len());
    v
}

/// Mixed-radix counter: every vector with v[i] < dims[i].
pub fn product(dims: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for d in dims {
        out = out.into_iter().flat_map(|p: Vec<usize>| (0..*d).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect();
    }
    out
}

pub fn show(v: &[usize]) -> String {
    v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(".")
}
