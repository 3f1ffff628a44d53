//! Pencils K v = w M v: counts below shifts, and the determinant search.
use bugi::matrix::solve::eigen::{DeterminantSearcher, EigenPair, EigenSystem};
use bugi::matrix::solve::System;
use bugi::matrix::*;
use drivers::*;

type M = Vec<Vec<i64>>;
fn zeros(n: usize) -> M {
    vec![vec![0; n]; n]
}
fn eye(n: usize) -> M {
    let mut m = zeros(n);
    for i in 0..n { m[i][i] = 1 }
    m
}
fn flat(a: &M, s: f64) -> Vec<f64> {
    a.iter().flatten().map(|v| *v as f64 * s).collect()
}
fn p2(e: i32) -> f64 {
    2.0f64.powi(e)
}
/// P diag(d) P'
fn pdp(p: &M, d: &[i64]) -> M {
    let n = p.len();
    (0..n).map(|i| (0..n).map(|j| (0..d.len()).map(|t| p[i][t] * d[t] * p[j][t]).sum()).collect()).collect()
}
fn fits(k: &M, m: &M) -> bool {
    (0..k.len()).all(|i| k[i][i] != 0 && (0..k.len()).all(|j| m[i][j] == 0 || k[i][j] != 0))
}

fn system(rng: &mut Rng, k: &M, m: &M, ks: f64, ms: f64) -> System {
    let n = k.len();
    match rng.below(3) {
        0 => System::from_km(&LinearMatrix::from_flat(n, flat(k, ks)), &Dictionary::from_flat(n, flat(m, ms))),
        1 => System::from_km(&CompressedRow::from_flat(n, flat(k, ks)), &LinearMatrix::from_flat(n, flat(m, ms))),
        _ => {
            let mut s = System::new(n);
            let mut at: Vec<(usize, usize, bool)> = Vec::new();
            for i in 0..n { for j in 0..n {
                if k[i][j] != 0 || m[i][j] != 0 { at.push((i, j, true)) }
                if m[i][j] != 0 { at.push((i, j, false)) }
            } }
            rng.shuffle(&mut at);
            for (i, j, isk) in at {
                if isk { s.add_k_coefficient((i, j), k[i][j] as f64 * ks) } else { s.add_m_coefficient((i, j), m[i][j] as f64 * ms) }
            }
            s
        }
    }
}

fn report(e: Value, r: Result<Vec<EigenPair>, String>, n: usize, vs: f64, xs: f64) -> Value {
    let mut e = e;
    match r {
        Ok(p) => {
            e["res"] = json!("ok");
            e["vals"] = json!(p.iter().map(|p| ql(p.value() * vs, 10000.0, 6.0e5)).collect::<Vec<_>>());
            e["vecs"] = json!(p.iter().map(|p| p.vector().iter().map(|x| ql(x * xs, 10000.0, 1.0e5)).collect::<Vec<_>>()).collect::<Vec<_>>());
        }
        Err(m) => {
            e["res"] = json!("panic");
            e["msg"] = json!(m);
            e["vals"] = json!(Vec::<i64>::new());
            e["vecs"] = json!(Vec::<Vec<i64>>::new());
        }
    }
    let _ = n;
    e
}

fn counts(rng: &mut Rng, ev: &mut Vec<Value>, k: &M, m: &M, shifts: &[(i64, M, Vec<i64>)]) {
    let (a, b) = if rng.chance(1, 2) { (0, 0) } else { (*rng.pick(&[0, 20, -20]), *rng.pick(&[0, 10, -10])) };
    // a scale shared by both matrices leaves the eigenvalues where they are
    let c = if rng.chance(1, 2) { 0 } else { *rng.pick(&[60, -60, 100, -100]) };
    let (a, b) = (a + c, b + c);
    let sys = system(rng, k, m, p2(a), p2(b));
    let s = guard(|| DeterminantSearcher::new(EigenSystem::new(sys)));
    for (s2, l, d) in shifts {
        let r = match &s {
            Ok(s) => guard(|| s.eigenvalues_under(*s2 as f64 / 2.0 * p2(a - b))),
            Err(m) => Err(m.clone()),
        };
        ev.push(match r {
            Ok(c) => json!({"op": "count", "s2": s2, "res": "ok", "count": c, "l": l, "d": d}),
            Err(m) => json!({"op": "count", "s2": s2, "res": "panic", "count": 0, "msg": m, "l": l, "d": d}),
        });
    }
}

/// every diagonal of K - (s2/2) M outweighs its row: the signs of the diagonal are those of the eigenvalues
fn bigcount_case(rng: &mut Rng, ev: &mut Vec<Value>) {
    let n = rng.int(8, 24) as usize;
    let mut k = zeros(n);
    let dens = *rng.pick(&[1u64, 2, 6]);
    for i in 0..n { for j in 0..i { if rng.chance(dens, 12) {
        let v = *rng.pick(&[-2, -1, 1, 2]);
        k[i][j] = v; k[j][i] = v;
    } } }
    let (mut m, s2) = (zeros(n), rng.int(-6, 8));
    for i in 0..n { m[i][i] = rng.int(1, 3) }
    for i in 0..n {
        // twice the diagonal is s2 m + sign * (twice the row + something of the right parity)
        let s: i64 = (0..n).filter(|j| *j != i).map(|j| k[i][j].abs()).sum();
        let mut w = 2 * s + rng.int(1, 6);
        if (w + s2 * m[i][i]) % 2 != 0 { w += 1 }
        if rng.chance(1, 2) { w = -w }
        k[i][i] = (s2 * m[i][i] + w) / 2;
        if k[i][i] == 0 { m[i][i] += 2; k[i][i] = (s2 * m[i][i] + w) / 2 }
    }
    ev.push(json!({"op": "pencil", "k": k, "m": m, "mb": M::new(), "md": []}));
    counts(rng, ev, &k, &m, &[(s2, vec![], vec![])]);
}

fn count_case(rng: &mut Rng, ev: &mut Vec<Value>) {
    match rng.below(3) {
        0 => {
            // small: the specification uses the characteristic polynomial
            let n = rng.int(1, 4) as usize;
            let top = if n == 4 { 5 } else { 9 };
            let dens = *rng.pick(&[3u64, 6, 10]);
            let mut k = zeros(n);
            for i in 0..n { for j in 0..=i {
                let v = if i == j { loop { let v = rng.int(-top, top); if v != 0 { break v } } } else if rng.chance(dens, 10) { rng.int(-top, top) } else { 0 };
                k[i][j] = v; k[j][i] = v;
            } }
            let (m, mb, md) = mass(rng, &k);
            ev.push(json!({"op": "pencil", "k": k, "m": m, "mb": mb, "md": md}));
            let mut s: Vec<i64> = (0..4).map(|_| rng.int(-9, 9) * if n < 4 { 2 } else { 1 }).collect();
            s.sort();
            counts(rng, ev, &k, &m, &s.into_iter().map(|s| (s, vec![], vec![])).collect::<Vec<_>>());
        }
        1 => {
            // larger, with a congruence as certificate
            let n = rng.int(2, 7) as usize;
            let (k, m, l, d, s2) = loop {
                let mut l = zeros(n);
                for i in 0..n { for j in 0..i { if rng.chance(1, 2) { l[i][j] = rng.int(-1, 1) } } l[i][i] = 1; }
                let p = rng.perm(n);
                let l: M = (0..n).map(|i| l[p[i]].clone()).collect();
                let d: Vec<i64> = (0..n).map(|_| *rng.pick(&[-3, -1, 1, 2, 4])).collect();
                let sh = rng.int(-4, 6);
                let mut k = pdp(&l, &d);
                let (m, _, _) = mass(rng, &k);
                for i in 0..n { for j in 0..n { k[i][j] += sh * m[i][j]; } }
                if fits(&k, &m) { break (k, m, l, d, 2 * sh) }
            };
            ev.push(json!({"op": "pencil", "k": k, "m": m, "mb": M::new(), "md": []}));
            counts(rng, ev, &k, &m, &[(s2, l, d)]);
        }
        _ => {
            let n = rng.int(1, 6) as usize;
            let (k, m, p, d) = spectrum(rng, n, |r| r.int(-9, 9));
            ev.push(json!({"op": "spectrum", "k": k, "m": m, "p": p, "d": d}));
            let mut s: Vec<i64> = (0..4).map(|_| rng.int(-12, 12) * 2 - 1).collect();
            s.sort();
            counts(rng, ev, &k, &m, &s.into_iter().map(|s| (s, vec![], vec![])).collect::<Vec<_>>());
        }
    }
}

/// a dominant mass within the pattern of k, no certificate needed
fn mass(rng: &mut Rng, k: &M) -> (M, M, Vec<i64>) {
    let n = k.len();
    let mut m = zeros(n);
    let style = rng.below(3);
    for i in 0..n {
        for j in 0..i {
            if style == 2 && k[i][j] != 0 && rng.chance(1, 3) && (0..n).all(|t| m[i][t] == 0 && m[j][t] == 0) {
                m[i][j] = *rng.pick(&[-1, 1]);
                m[j][i] = m[i][j];
            }
        }
    }
    for i in 0..n {
        let s: i64 = m[i].iter().map(|v| v.abs()).sum();
        m[i][i] = s + if style == 0 { 1 } else { rng.int(1, 2) };
    }
    (m, vec![], vec![])
}

/// the eigenvectors (columns of the inverse transpose) stay small
fn tame(p: &M) -> bool {
    let n = p.len();
    let mut a: Vec<Vec<f64>> = (0..n).map(|i| (0..2 * n).map(|j| if j < n { p[i][j] as f64 } else if j == n + i { 1.0 } else { 0.0 }).collect()).collect();
    for c in 0..n {
        let b = (c..n).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap()).unwrap();
        a.swap(c, b);
        let d = a[c][c];
        if d.abs() < 1e-9 { return false }
        for j in 0..2 * n { a[c][j] /= d }
        for i in 0..n { if i != c { let f = a[i][c]; for j in 0..2 * n { a[i][j] -= f * a[c][j] } } }
    }
    a.iter().all(|r| r[n..].iter().all(|v| v.abs() <= 2.0))
}
fn spectrum(rng: &mut Rng, n: usize, f: impl Fn(&mut Rng) -> i64) -> (M, M, M, Vec<i64>) {
    loop {
        let d: Vec<i64> = (0..n).map(|_| f(rng)).collect();
        if let Some(r) = spectrum_of(rng, d) { return r }
    }
}
fn spectrum_of(rng: &mut Rng, d: Vec<i64>) -> Option<(M, M, M, Vec<i64>)> {
    let n = d.len();
    for _ in 0..60 {
        let mut p = eye(n);
        let style = rng.below(4);
        for i in 0..n { for j in 0..i {
            let keep = match style { 0 => false, 1 => j + 1 == i, 2 => rng.chance(1, 3), _ => rng.chance(1, 2) };
            if keep { p[i][j] = *rng.pick(&[-1, 1]) }
        } }
        if style == 1 && rng.chance(1, 2) { for i in 0..n { p[i][i] = rng.int(1, 2) } }
        let (a, b) = (rng.perm(n), rng.perm(n));
        let p: M = (0..n).map(|i| (0..n).map(|j| p[a[i]][b[j]]).collect()).collect();
        let k = pdp(&p, &d);
        let m = pdp(&p, &vec![1; n]);
        if fits(&k, &m) && tame(&p) { return Some((k, m, p, d)) }
    }
    None
}

fn search(rng: &mut Rng, ev: &mut Vec<Value>, k: &M, m: &M, asks: Option<Vec<usize>>) {
    let n = k.len();
    let (a, b) = if rng.chance(1, 2) { (0, 0) } else { (*rng.pick(&[0, 20, -20]), *rng.pick(&[0, 10, -10]) * 2) };
    let c = if rng.chance(1, 2) { 0 } else { *rng.pick(&[60, -60, 100, -100]) };
    let (a, b) = (a + c, b + c);
    let (vs, xs) = (p2(b - a), p2(b / 2));
    let sys = system(rng, k, m, p2(a), p2(b));
    let mut s = match guard(|| DeterminantSearcher::new(EigenSystem::new(sys))) {
        Ok(s) => s,
        Err(msg) => { ev.push(json!({"op": "panic", "msg": msg})); return }
    };
    match asks {
        Some(asks) => for q in asks {
            let r = guard(|| s.find_eigens(q));
            ev.push(report(json!({"op": "find", "n": q}), r, n, vs, xs));
        },
        None => match rng.below(3) {
            0 => { let r = guard(|| s.find_eigens(n)); ev.push(report(json!({"op": "find", "n": n}), r, n, vs, xs)); }
            1 => for _ in 0..n + 1 {
                let r = guard(|| { s.secant_iterate_one(); s.eigenpairs() });
                ev.push(report(json!({"op": "round"}), r, n, vs, xs));
            },
            _ => {
                let mut q: Vec<usize> = (0..3).map(|_| rng.below(n) + 1).collect();
                if rng.chance(1, 2) { q.sort() }
                for q in q {
                    let r = guard(|| s.find_eigens(q));
                    ev.push(report(json!({"op": "find", "n": q}), r, n, vs, xs));
                }
            }
        },
    }
    let r = guard(|| s.eigenpairs());
    ev.push(report(json!({"op": "pairs"}), r, n, vs, xs));
}

fn main() {
    let a = args();
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        "count" => count_case(rng, ev),
        "bigcount" => bigcount_case(rng, ev),
        "bigsearch" => {
            let n = rng.int(8, 14) as usize;
            let few = rng.chance(1, 3);
            let (k, m, p, d) = spectrum(rng, n, |r| if few { r.int(1, 4) * 3 } else { r.int(1, 19) });
            ev.push(json!({"op": "spectrum", "k": k, "m": m, "p": p, "d": d}));
            let asks = if rng.chance(1, 2) { Some(vec![1 + rng.below(4), 1 + rng.below(n)]) } else { None };
            search(rng, ev, &k, &m, asks)
        }
        "countscn" => {
            let k: M = serde_json::from_value(a.scn[c as usize]["k"].clone()).unwrap();
            let n = k.len();
            let m = eye(n);
            ev.push(json!({"op": "pencil", "k": k, "m": m, "mb": M::new(), "md": []}));
            let mut s = System::new(n);
            for i in 0..n { for j in 0..n { s.add_k_coefficient((i, j), k[i][j] as f64); } s.add_m_coefficient((i, i), 1.0); }
            let d = DeterminantSearcher::new(EigenSystem::new(s));
            for s2 in [-7i64, -3, -1, 0, 1, 2, 5, 9] {
                ev.push(json!({"op": "count", "s2": s2, "res": "ok", "count": d.eigenvalues_under(s2 as f64 / 2.0), "l": M::new(), "d": []}));
            }
        }
        "search" => {
            if rng.chance(2, 3) {
                let n = rng.int(1, if a.thorough { 7 } else { 6 }) as usize;
                let few = rng.chance(1, 2);
                let (k, m, p, d) = spectrum(rng, n, |r| if few { r.int(1, 4) * 3 } else { r.int(1, 19) });
                ev.push(json!({"op": "spectrum", "k": k, "m": m, "p": p, "d": d}));
                search(rng, ev, &k, &m, None)
            } else {
                let n = rng.int(1, 6) as usize;
                let mut k = zeros(n);
                for i in 0..n { for j in 0..i { if rng.chance(1, 2) { let v = rng.int(-2, 2); k[i][j] = v; k[j][i] = v; } } }
                for i in 0..n { k[i][i] = k[i].iter().map(|v| v.abs()).sum::<i64>() + rng.int(1, 3); }
                let (m, mb, md) = mass(rng, &k);
                ev.push(json!({"op": "pencil", "k": k, "m": m, "mb": mb, "md": md}));
                search(rng, ev, &k, &m, None)
            }
        }
        "searchscn" => {
            let o = &a.scn[c as usize];
            let d: Vec<i64> = serde_json::from_value(o["eig"].clone()).unwrap();
            let q: Vec<usize> = serde_json::from_value(o["asked"].clone()).unwrap();
            let mut d = d;
            rng.shuffle(&mut d);
            let (k, m, p, d) = spectrum_of(rng, d.clone()).unwrap_or_else(|| { let n = d.len(); (pdp(&eye(n), &d), eye(n), eye(n), d.clone()) });
            ev.push(json!({"op": "spectrum", "k": k, "m": m, "p": p, "d": d}));
            search(rng, ev, &k, &m, Some(q))
        }
        m => panic!("mode {}", m),
    });
}
