//! Linear systems: assembly histories, the three solvers, factorizations, triangular solves,
//! determinants and inverses.
use bugi::matrix::solve::direct::{
    cholesky_envelope, cholesky_envelope_no_root, solve_ldl, solve_ll, CholeskyEnvelopeSolver, DenseGaussSolver,
};
use bugi::matrix::solve::eigen::{DeterminantSearcher, EigenSystem};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::*;
use drivers::*;

type M = Vec<Vec<i64>>;

fn zeros(n: usize) -> M {
    vec![vec![0; n]; n]
}
fn mul(a: &M, b: &M) -> M {
    let n = a.len();
    (0..n).map(|i| (0..b[0].len()).map(|j| (0..b.len()).map(|t| a[i][t] * b[t][j]).sum()).collect()).collect()
}
fn tr(a: &M) -> M {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}
fn mulv(a: &M, x: &[i64]) -> Vec<i64> {
    a.iter().map(|r| r.iter().zip(x).map(|(a, b)| a * b).sum()).collect()
}
fn flat(a: &M, s: f64) -> Vec<f64> {
    a.iter().flatten().map(|v| *v as f64 * s).collect()
}
fn biggest(a: &M) -> i64 {
    a.iter().flatten().map(|v| v.abs()).max().unwrap_or(0)
}

/// what a solve came to
fn outcome(res: Result<Result<Vec<f64>, ()>, String>, back: f64, lim: f64, scale: f64) -> Value {
    match res {
        Err(m) => json!({"res": "panic", "fin": true, "x": [], "msg": m}),
        Ok(Err(())) => json!({"res": "err", "fin": true, "x": []}),
        Ok(Ok(x)) => json!({"res": "ok", "fin": x.iter().all(|v| v.is_finite()), "sc": scale as i64,
                            "x": x.iter().map(|v| ql(*v * back, scale, lim)).collect::<Vec<_>>()}),
    }
}

fn with(mut v: Value, more: Value) -> Value {
    for (k, x) in more.as_object().unwrap() {
        v[k] = x.clone();
    }
    v
}

const S: f64 = 10000.0;

fn solve_event(sys: &System, via: &str, back: f64) -> Value {
    let s = sys.clone();
    let res = guard(|| match via {
        "dense" => DenseGaussSolver::new(s).solve(),
        "cholesky" => CholeskyEnvelopeSolver::new(s).solve(),
        _ => GaussSeidelSolver::new(s).solve(),
    });
    let (lim, sc) = if via == "seidel" {
        let top = match &res {
            Ok(Ok(x)) => x.iter().fold(0.0f64, |a, v| a.max((v * back).abs())),
            _ => 0.0,
        };
        // a scale at which the largest component has four to five digits
        let mut sc = 2.0e4;
        while top.is_finite() && top * sc > 2.0e4 && sc > 2.0 {
            sc /= 2.0;
        }
        (2.0e4, sc.floor())
    } else {
        (8.0e6, S)
    };
    with(json!({"op": "solve", "via": via}), outcome(res, back, lim, sc))
}

/// powers of two that expose absolute thresholds
fn scales(rng: &mut Rng) -> (i32, i32) {
    if rng.chance(1, 2) {
        (0, 0)
    } else {
        (*rng.pick(&[0, 10, -10, 40, -40, 70, -70]), *rng.pick(&[0, 10, -10, 40, -40]))
    }
}

fn p2(e: i32) -> f64 {
    2.0f64.powi(e)
}

/// put K and R into a system in one of several ways
fn build(rng: &mut Rng, k: &M, r: &[i64], ks: f64, rs: f64) -> (System, String) {
    let n = k.len();
    let rf: Vec<f64> = r.iter().map(|v| *v as f64 * rs).collect();
    let rv = LinearMatrix::from_flat((n, 1), rf.clone());
    match rng.below(5) {
        0 => (System::from_kr(&LinearMatrix::from_flat(n, flat(k, ks)), &rv), "lin".into()),
        1 => (System::from_kr(&Dictionary::from_flat(n, flat(k, ks)), &rv), "dict".into()),
        2 => (System::from_kr(&CompressedRow::from_flat(n, flat(k, ks)), &rv), "crow".into()),
        _ => {
            // coefficient by coefficient, several contributions each
            let mut adds: Vec<(usize, usize, f64)> = Vec::new();
            for i in 0..n {
                for j in 0..n {
                    if k[i][j] == 0 && !rng.chance(1, 12) {
                        continue;
                    }
                    if rng.chance(1, 2) {
                        adds.push((i, j, k[i][j] as f64 * ks));
                    } else {
                        let a = rng.int(-9, 9);
                        adds.push((i, j, a as f64 * ks));
                        adds.push((i, j, (k[i][j] - a) as f64 * ks));
                    }
                }
            }
            rng.shuffle(&mut adds);
            // a cancelling contribution is symmetric in use; keep the pattern symmetric
            let mut sys = System::new(n);
            if adds.is_empty() {
                adds.push((0, 0, 0.0));
            }
            for (i, j, v) in &adds {
                sys.add_k_coefficient((*i, *j), *v);
                if !adds.iter().any(|(a, b, _)| (a, b) == (j, i)) {
                    sys.add_k_coefficient((*j, *i), 0.0);
                }
            }
            let mut order = rng.perm(n);
            for i in order.drain(..) {
                if r[i] != 0 || i == 0 || rng.chance(1, 3) {
                    sys.add_rhs_val(i, rf[i]);
                }
            }
            (sys, "adds".into())
        }
    }
}

/// a symmetric positive definite matrix with its certificate K = B B' + diag(d)
fn spd(rng: &mut Rng, n: usize, maxk: i64) -> (M, M, Vec<i64>) {
    loop {
        let mut b = zeros(n);
        let style = rng.below(6);
        for i in 0..n {
            for j in 0..n {
                let keep = match style {
                    0 => false,                                  // diagonal
                    1 => j + 1 >= i && j <= i,                   // chain
                    2 => (i / 3 == j / 3) && rng.chance(1, 2),   // blocks
                    3 => rng.chance(1, 4),
                    4 => j == 0 || j == i,                       // star
                    _ => j <= i && rng.chance(1, 2),
                };
                if keep {
                    b[i][j] = rng.int(-2, 2);
                }
            }
        }
        // hide the structure behind a random numbering
        let p = rng.perm(n);
        let q = rng.perm(n);
        let b: M = (0..n).map(|i| (0..n).map(|j| b[p[i]][q[j]]).collect()).collect();
        let d: Vec<i64> = (0..n).map(|_| rng.int(1, 4)).collect();
        let mut k = mul(&b, &tr(&b));
        for i in 0..n {
            k[i][i] += d[i];
        }
        if biggest(&k) <= maxk {
            return (k, b, d);
        }
    }
}

fn rhs(rng: &mut Rng, k: &M) -> Vec<i64> {
    let n = k.len();
    match rng.below(5) {
        0 => (0..n).map(|i| if i == 0 { rng.int(1, 9) } else { 0 }).collect(),
        1 => vec![0; n],
        2 => (0..n).map(|_| rng.int(-30, 30)).collect(),
        _ => {
            let x: Vec<i64> = (0..n).map(|_| rng.int(-9, 9)).collect();
            mulv(k, &x)
        }
    }
}

// ---------------------------------------------------------------- C03

fn general(rng: &mut Rng, n: usize) -> M {
    let style = rng.below(9);
    let mut k = zeros(n);
    for i in 0..n {
        for j in 0..n {
            k[i][j] = match style {
                0 | 1 => rng.int(-9, 9),
                2 => -rng.int(0, 9),
                3 => if rng.chance(1, 2) { rng.int(-5, 5) } else { 0 },
                4 => rng.int(-1, 1),
                _ => if rng.chance(1, 3) { rng.int(-9, 9) } else { 0 },
            };
        }
    }
    match style {
        5 => {
            // a permuted triangle: needs an exchange in almost every column
            let p = rng.perm(n);
            k = zeros(n);
            for i in 0..n {
                for j in 0..=i {
                    k[p[i]][j] = if i == j { *rng.pick(&[-3, -1, 1, 2]) } else { rng.int(-4, 4) };
                }
            }
        }
        6 => {
            let z = rng.below(n);
            for i in 0..n {
                if rng.chance(1, 2) { k[z][i] = 0; } else { k[i][z] = 0; }
            }
            if rng.chance(1, 2) {
                for i in 0..n { k[z][i] = 0; }
            } else {
                for i in 0..n { k[i][z] = 0; }
            }
        }
        7 if n > 1 => {
            // one row is a combination of others
            let (a, b) = (rng.below(n), rng.below(n));
            let f = rng.int(-2, 2);
            if a != b {
                k[a] = k[b].iter().map(|v| (v * f).clamp(-30, 30)).collect();
            }
        }
        8 => {
            for i in 0..n { k[i][i] = 0; }
        }
        _ => (),
    }
    k
}

/// larger systems: patterns whose condition stays moderate
fn big_general(rng: &mut Rng, n: usize) -> M {
    let style = rng.below(5);
    let mut k = zeros(n);
    for i in 0..n {
        for j in 0..n {
            k[i][j] = match style {
                0 => rng.int(-9, 9),
                1 if i == j => 0,
                1 => rng.int(-9, 9),
                2 => if rng.chance(1, 3) { rng.int(-9, 9) } else { 0 },
                3 => if rng.chance(1, 8) { rng.int(-3, 3) } else { 0 },
                _ => if rng.chance(1, 6) { rng.int(-1, 1) } else { 0 },
            };
        }
    }
    if style >= 3 {
        // the large entries sit anywhere: rows have to be exchanged
        let p = rng.perm(n);
        for i in 0..n {
            k[i][p[i]] = (0..n).map(|j| k[i][j].abs()).sum::<i64>() + rng.int(1, 3);
        }
    }
    if rng.chance(1, 8) {
        let (a, b) = (rng.below(n), rng.below(n));
        match rng.below(3) {
            0 => k[a] = vec![0; n],
            1 => for r in k.iter_mut() { r[a] = 0 },
            _ => k[a] = k[b].clone(),
        }
    }
    k
}

fn dense_case(rng: &mut Rng, ev: &mut Vec<Value>, n: usize, k: M) {
    let r = if rng.chance(1, 8) { vec![0; n] } else { mulv(&k, &(0..n).map(|_| rng.int(-20, 20)).collect::<Vec<_>>()) };
    let (a, b) = scales(rng);
    let back = p2(a - b);
    ev.push(json!({"op": "sys", "k": k, "r": r}));
    match rng.below(4) {
        0 => {
            let mut km = LinearMatrix::from_flat(n, flat(&k, p2(a)));
            let rv = LinearMatrix::from_flat((n, 1), r.iter().map(|v| *v as f64 * p2(b)));
            let res = guard(|| km.solve_gausselim(rv).map(|x| x.flat().cloned().collect()).map_err(|_| ()));
            ev.push(with(json!({"op": "solve", "via": "dense"}), outcome(res, back, 8.0e6, S)));
        }
        1 => {
            let mut km = Dictionary::from_flat(n, flat(&k, p2(a)));
            let rv = Dictionary::from_flat((n, 1), r.iter().map(|v| *v as f64 * p2(b)));
            let res = guard(|| km.solve_gausselim(rv).map(|x| x.flat().cloned().collect()).map_err(|_| ()));
            ev.push(with(json!({"op": "solve", "via": "dense"}), outcome(res, back, 8.0e6, S)));
        }
        _ => {
            let (sys, _) = build(rng, &k, &r, p2(a), p2(b));
            ev.push(solve_event(&sys, "dense", back));
        }
    }
}

// ---------------------------------------------------------------- C04, C05

fn spd_case(rng: &mut Rng, ev: &mut Vec<Value>, vias: &[&str], n: usize) {
    let (k, b, d) = if n >= 4 && rng.chance(1, 4) { mixed(rng, n) } else if rng.chance(2, 3) { spd(rng, n, 30) } else { dominant(rng, n) };
    let r = rhs(rng, &k);
    let (ka, rb) = scales(rng);
    let back = p2(ka - rb);
    ev.push(json!({"op": "sys", "k": k, "r": r}));
    ev.push(json!({"op": "cert", "b": b, "d": d}));
    let (sys, _) = build(rng, &k, &r, p2(ka), p2(rb));
    for v in vias {
        ev.push(solve_event(&sys, v, back));
    }
}

/// a stiff chain, which converges slowly, among unknowns that are on their own
fn mixed(rng: &mut Rng, n: usize) -> (M, M, Vec<i64>) {
    let m = rng.int(3, n as i64 - 1) as usize;
    let at: Vec<usize> = match rng.below(3) {
        0 => (0..m).collect(),
        1 => (n - m..n).collect(),
        _ => { let mut p = rng.perm(n); p.truncate(m); p }
    };
    let mut b = zeros(n);
    let group = rng.int(2, 4) as usize;
    let tight = rng.chance(1, 2);
    for (t, i) in at.iter().enumerate() {
        if tight {
            // groups of unknowns that move together
            b[*i][at[t / group * group]] = if rng.chance(1, 2) { -5 } else { 5 };
            continue;
        }
        b[*i][*i] = if rng.chance(1, 8) { 1 } else { 2 };
        if t > 0 { b[*i][at[t - 1]] = if rng.chance(1, 2) { -2 } else { 2 } }
    }
    let d: Vec<i64> = (0..n).map(|i| if at.contains(&i) { 1 } else { rng.int(1, 4) }).collect();
    let mut k = mul(&b, &tr(&b));
    for i in 0..n { k[i][i] += d[i] }
    (k, b, d)
}

/// diagonally dominant; the certificate is left to the specification (empty b)
fn dominant(rng: &mut Rng, n: usize) -> (M, M, Vec<i64>) {
    let mut k = zeros(n);
    let dens = *rng.pick(&[1u64, 2, 4, 8]);
    for i in 0..n {
        for j in 0..i {
            if rng.chance(dens, 10) {
                let v = *rng.pick(&[-2, -1, -1, 1, 2]);
                k[i][j] = v;
                k[j][i] = v;
            }
        }
    }
    let twice = rng.chance(1, 2);
    for i in 0..n {
        let s: i64 = (0..n).map(|j| k[i][j].abs()).sum();
        k[i][i] = (s * if twice { 2 } else { 1 } + rng.int(1, 3)).min(30).max(s + 1);
    }
    (k, vec![], vec![])
}

fn pattern_case(rng: &mut Rng, ev: &mut Vec<Value>, op: &Value) {
    let n = op["n"].as_u64().unwrap() as usize;
    let mut k = zeros(n);
    for e in op["edges"].as_array().unwrap() {
        let (i, j) = (e[0].as_u64().unwrap() as usize - 1, e[1].as_u64().unwrap() as usize - 1);
        let v = *rng.pick(&[-3, -2, -1, 1, 2]);
        k[i][j] = v;
        k[j][i] = v;
    }
    for i in 0..n {
        k[i][i] = (0..n).map(|j| k[i][j].abs()).sum::<i64>() + rng.int(1, 3);
    }
    let r = rhs(rng, &k);
    ev.push(json!({"op": "sys", "k": k, "r": r}));
    let (sys, _) = build(rng, &k, &r, 1.0, 1.0);
    for v in ["cholesky", "seidel", "dense"] {
        ev.push(solve_event(&sys, v, 1.0));
    }
    // the factors of the same matrix, in the caller's ordering
    let a = envelope_of(&k);
    let l = cholesky_envelope(&a);
    ev.push(json!({"op": "llres", "k": k, "env": a.envelope(), "fenv": l.envelope(), "l": sqm(&l, 10000.0)}));
    let (l, d) = cholesky_envelope_no_root(&a);
    ev.push(json!({"op": "ldlres", "k": k, "env": a.envelope(), "fenv": l.envelope(), "l": sqm(&l, 10000.0),
                   "d": d.diag().map(|v| q(*v, 10000.0)).collect::<Vec<_>>()}));
}

// ---------------------------------------------------------------- C06

fn envelope_of(k: &M) -> LowerRowEnvelope {
    let n = k.len();
    let env: Vec<usize> = (0..n).map(|i| i + 1 - (0..=i).find(|j| k[i][*j] != 0).unwrap_or(i)).collect();
    lower_env(k, env)
}

fn lower_env(k: &M, env: Vec<usize>) -> LowerRowEnvelope {
    let mut a = LowerRowEnvelope::from_envelope(env.clone());
    for i in 0..k.len() {
        for j in (i + 1 - env[i])..=i {
            a[(i, j)] = k[i][j] as f64;
        }
    }
    a
}

fn sqm<T: MatrixLike>(m: &T, s: f64) -> Vec<Vec<i64>> {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| q(m[(i, j)], s)).collect()).collect()
}

/// an integer lower triangle within a random envelope; diagonal from `diag`
fn lower(rng: &mut Rng, n: usize, diag: &[i64], top: i64) -> (M, Vec<usize>) {
    let mut l = zeros(n);
    let mut env = Vec::new();
    let full = rng.chance(1, 4);
    for i in 0..n {
        let w = if full { i + 1 } else { 1 + rng.below(i + 1) };
        env.push(w);
        for j in (i + 1 - w)..i {
            l[i][j] = if rng.chance(1, 4) { 0 } else { rng.int(-top, top) };
        }
        l[i][i] = *rng.pick(diag);
    }
    (l, env)
}

fn dirt(rng: &mut Rng, n: usize) -> Vec<f64> {
    if rng.chance(1, 2) { vec![0.0; n] } else { (0..n).map(|_| rng.int(-50, 50) as f64).collect() }
}

fn factor_case(rng: &mut Rng, ev: &mut Vec<Value>, n: usize, top: i64) {
    match rng.below(8) {
        0 => {
            let (l, env) = lower(rng, n, &[1, 2, 3], top);
            let k = mul(&l, &tr(&l));
            let e = rng.int(-20, 20) * 2;
            let mut a = lower_env(&k, env.clone());
            for i in 0..n { for x in a.row_stored_mut(i).1 { *x *= p2(e as i32); } }
            let f = cholesky_envelope(&a);
            ev.push(json!({"op": "ll", "k": k, "l0": l, "env": env, "fenv": f.envelope(), "l": sqm(&f, 1000.0 / p2(e as i32 / 2))}));
        }
        1 => {
            let (l, env) = lower(rng, n, &[1], top);
            let d: Vec<i64> = (0..n).map(|_| *rng.pick(&[-3, -2, -1, 1, 1, 2, 5])).collect();
            let ld: M = l.iter().map(|r| r.iter().zip(&d).map(|(a, b)| a * b).collect()).collect();
            let k = mul(&ld, &tr(&l));
            let a = lower_env(&k, env.clone());
            let (f, fd) = cholesky_envelope_no_root(&a);
            ev.push(json!({"op": "ldl", "k": k, "l0": l, "d0": d, "env": env, "fenv": f.envelope(), "l": sqm(&f, 1000.0),
                           "d": fd.diag().map(|v| q(*v, 1000.0)).collect::<Vec<_>>()}));
            let x: Vec<i64> = (0..n).map(|_| rng.int(-9, 9)).collect();
            let b = mulv(&k, &x);
            let mut got = dirt(rng, n);
            solve_ldl(&f, &fd, &b.iter().map(|v| *v as f64).collect::<Vec<_>>(), &mut got);
            ev.push(json!({"op": "backsolve", "k": k, "b": b, "x": qs(&got, 1000.0)}));
        }
        2 => {
            let (l, _) = lower(rng, n, &[1], top);
            let (u, _) = lower(rng, n, &[-3, -1, 1, 2, 4], top);
            let u = tr(&u);
            let k = mul(&l, &u);
            let (gl, gu) = match (n, rng.below(2)) {
                (2, 0) => ConstMatrix::<4>::from_flat(2, flat(&k, 1.0)).lu_decompose(),
                (3, 0) => ConstMatrix::<9>::from_flat(3, flat(&k, 1.0)).lu_decompose(),
                _ => LinearMatrix::from_flat(n, flat(&k, 1.0)).lu_decompose(),
            };
            ev.push(json!({"op": "lu", "k": k, "l0": l, "u0": u, "l": sqm(&gl, 1000.0), "u": sqm(&gu, 1000.0)}));
        }
        3 => {
            // full triangular solves
            let (l, env) = lower(rng, n, &[-2, -1, 1, 1, 2, 4], top);
            let x: Vec<i64> = (0..n).map(|_| rng.int(-9, 9)).collect();
            let le = lower_env(&l, env.clone());
            let sc = *rng.pick(&[1.0, 0.25, 1.0 / 3.0]);
            let b = mulv(&l, &x);
            let bf: Vec<f64> = b.iter().map(|v| *v as f64 * sc).collect();
            let back = |v: &[f64]| v.iter().map(|t| q(*t / sc, 1000.0)).collect::<Vec<_>>();
            let mut got = dirt(rng, n);
            le.solve(&bf, &mut got);
            ev.push(json!({"op": "backsolve", "k": l, "b": b, "x": back(&got)}));
            let bt = mulv(&tr(&l), &x);
            let btf: Vec<f64> = bt.iter().map(|v| *v as f64 * sc).collect();
            let mut got = dirt(rng, n);
            le.solve_transposed(&btf, &mut got);
            ev.push(json!({"op": "backsolve", "k": tr(&l), "b": bt, "x": back(&got)}));
            let mut low = LowerTriangular::zeros(n);
            let mut upp = UpperTriangular::zeros(n);
            for i in 0..n { for j in 0..=i { low[(i, j)] = l[i][j] as f64; upp[(j, i)] = l[i][j] as f64; } }
            ev.push(json!({"op": "backsolve", "k": l, "b": b, "x": back(&low.forward_sub(&bf))}));
            ev.push(json!({"op": "backsolve", "k": tr(&l), "b": bt, "x": back(&upp.backward_sub(&btf))}));
            if n <= 5 {
                ev.push(json!({"op": "inverts", "k": l, "shape": "lower", "x": sqm(&low.tri_inv(), 1000.0)}));
                ev.push(json!({"op": "inverts", "k": tr(&l), "shape": "upper", "x": sqm(&upp.tri_inv(), 1000.0)}));
            }
        }
        4 | 5 => {
            // a block of the triangle
            let (l, env) = lower(rng, n, &[-2, -1, 1, 1, 2, 4], top);
            let le = lower_env(&l, env);
            let a = rng.below(n);
            let z = a + 1 + rng.below(n - a);
            let sub: M = l[a..z].iter().map(|r| r[a..z].to_vec()).collect();
            let x: Vec<i64> = (a..z).map(|_| rng.int(-9, 9)).collect();
            let b = mulv(&sub, &x);
            let mut got = dirt(rng, z - a);
            le.solve_submatrix(&b.iter().map(|v| *v as f64).collect::<Vec<_>>(), &mut got, (a, z));
            ev.push(json!({"op": "subsolve", "k": l, "from": a + 1, "to": z, "b": b, "x": qs(&got, 1000.0)}));
        }
        6 => {
            let (l, env) = lower(rng, n, &[1, 2, 3], top.min(2));
            let le = lower_env(&l, env);
            let k = mul(&l, &tr(&l));
            let x: Vec<i64> = (0..n).map(|_| rng.int(-9, 9)).collect();
            let b = mulv(&k, &x);
            let mut got = dirt(rng, n);
            solve_ll(&le, &b.iter().map(|v| *v as f64).collect::<Vec<_>>(), &mut got);
            ev.push(json!({"op": "backsolve", "k": k, "b": b, "x": qs(&got, 1000.0)}));
        }
        _ => {
            let (k, b, d) = spd(rng, n, 30);
            let a = envelope_of(&k);
            ev.push(json!({"op": "sys", "k": k, "r": vec![0; n]}));
            ev.push(json!({"op": "cert", "b": b, "d": d}));
            let l = cholesky_envelope(&a);
            ev.push(json!({"op": "llres", "k": k, "env": a.envelope(), "fenv": l.envelope(), "l": sqm(&l, 10000.0)}));
            let (l, d) = cholesky_envelope_no_root(&a);
            ev.push(json!({"op": "ldlres", "k": k, "env": a.envelope(), "fenv": l.envelope(), "l": sqm(&l, 10000.0),
                           "d": d.diag().map(|v| q(*v, 10000.0)).collect::<Vec<_>>()}));
        }
    }
}

// ---------------------------------------------------------------- C07

fn det_event(kind: &str, via: &str, k: &M, s: f64) -> Value {
    let n = k.len();
    let f = flat(k, s);
    fn go<T: MatrixLike>(m: T, via: &str) -> Result<f64, ()> {
        match via {
            "determinant" => m.determinant().map_err(|_| ()),
            "pivot" => m.det_lu_pivot().map_err(|_| ()),
            _ => Ok(m.det_lu()),
        }
    }
    let r = guard(|| match (kind, n) {
        ("const", 2) => go(ConstMatrix::<4>::from_flat(2, f), via),
        ("const", 3) => go(ConstMatrix::<9>::from_flat(3, f), via),
        ("dict", _) => go(Dictionary::from_flat(n, f), via),
        _ => go(LinearMatrix::from_flat(n, f), via),
    });
    let mut e = json!({"op": "det", "via": via, "k": k});
    match r {
        Ok(Ok(v)) => { e["res"] = json!("ok"); e["det"] = json!(q(v / s.powi(n as i32), 1000.0)); e["fin"] = json!(v.is_finite()) }
        Ok(Err(())) => { e["res"] = json!("err"); e["det"] = json!(0); e["fin"] = json!(true) }
        Err(m) => { e["res"] = json!("panic"); e["det"] = json!(0); e["fin"] = json!(true); e["msg"] = json!(m) }
    }
    e
}

fn inv_event(kind: &str, via: &str, k: &M, s: f64) -> Value {
    let n = k.len();
    let f = flat(k, s);
    fn go<T: MatrixLike>(m: T, via: &str, s: f64) -> Vec<Vec<i64>> {
        let x = if via == "inverse" { m.inverse() } else { m.inv_lu() };
        let (r, c) = x.shape();
        (0..r).map(|i| (0..c).map(|j| ql(x[(i, j)] * s, 1000.0, 2.0e7)).collect()).collect()
    }
    let r = guard(|| match (kind, n) {
        ("const", 1) => go(ConstMatrix::<1>::from_flat(1, f), via, s),
        ("const", 2) => go(ConstMatrix::<4>::from_flat(2, f), via, s),
        ("const", 3) => go(ConstMatrix::<9>::from_flat(3, f), via, s),
        ("dict", _) => go(Dictionary::from_flat(n, f), via, s),
        _ => go(LinearMatrix::from_flat(n, f), via, s),
    });
    match r {
        Ok(x) => json!({"op": "inverts", "k": k, "shape": "full", "x": x}),
        Err(m) => json!({"op": "panic", "msg": m}),
    }
}

/// leading minors by exact elimination in integers (only to choose what to ask for)
fn minors_ok(k: &M) -> bool {
    (1..=k.len()).all(|t| det(&k[..t].iter().map(|r| r[..t].to_vec()).collect()) != 0)
}
fn det(k: &M) -> i64 {
    if k.is_empty() { return 1 }
    (0..k.len())
        .map(|j| {
            if k[0][j] == 0 { return 0 }
            let m: M = k[1..].iter().map(|r| { let mut v = r.clone(); v.remove(j); v }).collect();
            k[0][j] * det(&m) * if j % 2 == 0 { 1 } else { -1 }
        })
        .sum()
}

fn det_case(rng: &mut Rng, ev: &mut Vec<Value>, k: M) {
    let n = k.len();
    let kinds = ["lin", "const", "dict"];
    let s = if rng.chance(1, 2) { 1.0 } else { p2(*rng.pick(&[-30, -8, 8, 30])) };
    ev.push(det_event(rng.pick(&kinds), "determinant", &k, s));
    ev.push(det_event(rng.pick(&kinds), "pivot", &k, s));
    if minors_ok(&k) {
        ev.push(det_event(rng.pick(&kinds), "lu", &k, s));
        ev.push(inv_event(rng.pick(&kinds), "inverse", &k, s));
        ev.push(inv_event(rng.pick(&kinds), "inv_lu", &k, s));
    } else if n <= 2 && det(&k) != 0 {
        ev.push(inv_event(rng.pick(&kinds), "inverse", &k, s));
    }
}

/// determinants and inverses of larger matrices, known through integer factors (rows permuted)
fn bigdet_case(rng: &mut Rng, ev: &mut Vec<Value>) {
    let n = rng.int(6, 14) as usize;
    let (l, _) = lower(rng, n, &[1], 1);
    let u = loop {
        let (u, _) = lower(rng, n, &[-3, -1, 1, 1, 2], 1);
        if (0..n).map(|i| u[i][i].abs()).product::<i64>() <= 400000 { break tr(&u) }
    };
    let singular = rng.chance(1, 8);
    let mut u = u;
    if singular { let z = rng.below(n); for j in 0..n { u[z][j] = 0 } }
    let p = if rng.chance(1, 2) { (0..n).collect() } else { rng.perm(n) };
    let lu = mul(&l, &u);
    let k: M = (0..n).map(|i| lu[p[i]].clone()).collect();
    let s = if rng.chance(1, 2) { 1.0 } else { p2(*rng.pick(&[-30, -8, 8, 30])) };
    let kinds = ["lin", "dict"];
    let plain = p.iter().enumerate().all(|(i, v)| i == *v);
    let q: Vec<usize> = p.iter().map(|i| i + 1).collect();
    let mut vias = vec!["determinant", "pivot"];
    if plain && !singular { vias.push("lu") }
    for via in vias {
        let e = det_event(rng.pick(&kinds), via, &k, s);
        ev.push(with(e, json!({"op": "detf", "l0": l, "u0": u, "p": q})));
    }
    if plain && !singular && inverse_top(&l, &u) < 300.0 {
        ev.push(inv_event(rng.pick(&kinds), "inverse", &k, s));
        ev.push(inv_event(rng.pick(&kinds), "inv_lu", &k, s));
    }
}

/// the largest entry of the inverse of l u
fn inverse_top(l: &M, u: &M) -> f64 {
    let n = l.len();
    let mut top = 0.0f64;
    for c in 0..n {
        let mut y: Vec<f64> = (0..n).map(|i| if i == c { 1.0 } else { 0.0 }).collect();
        for i in 0..n { for j in 0..i { y[i] -= l[i][j] as f64 * y[j] } }
        for i in (0..n).rev() {
            for j in i + 1..n { y[i] -= u[i][j] as f64 * y[j] }
            y[i] /= u[i][i] as f64;
        }
        top = y.iter().fold(top, |a, v| a.max(v.abs()));
    }
    top
}

// ---------------------------------------------------------------- C09

/// symmetric contributions in any order, solved in between through clones
fn history_case(rng: &mut Rng, ev: &mut Vec<Value>, n: usize, sym: bool) {
    let mut ops: Vec<Value> = Vec::new();
    for i in 0..n {
        ops.push(json!({"op": "addk", "i": i + 1, "j": i + 1, "v": rng.int(1, 3)}));
    }
    for _ in 0..rng.below(2 * n + 1) {
        let (i, j) = (rng.below(n), rng.below(n));
        let v = if sym { rng.int(1, 2) } else { rng.int(-3, 3) };
        if sym && i != j {
            let w = if rng.chance(1, 4) { v } else { -v };
            for (a, b, x) in [(i, j, w), (j, i, w), (i, i, v), (j, j, v)] {
                ops.push(json!({"op": "addk", "i": a + 1, "j": b + 1, "v": x}));
            }
        } else {
            ops.push(json!({"op": "addk", "i": i + 1, "j": j + 1, "v": v}));
        }
    }
    for _ in 0..rng.below(n + 3) + 1 {
        ops.push(json!({"op": "addr", "i": rng.below(n) + 1, "v": rng.int(-9, 9)}));
    }
    let modal = sym && n <= 6 && rng.chance(1, 3);
    if modal {
        for i in 0..n {
            ops.push(json!({"op": "addm", "i": i + 1, "j": i + 1, "v": rng.int(1, 2)}));
            if rng.chance(1, 2) {
                ops.push(json!({"op": "addm", "i": i + 1, "j": i + 1, "v": rng.int(0, 1)}));
            }
        }
    }
    rng.shuffle(&mut ops);
    run_history(ev, n, &ops, if sym { &["dense", "cholesky", "seidel"] } else { &["dense"] }, modal, rng);
}

fn run_history(ev: &mut Vec<Value>, n: usize, ops: &[Value], vias: &[&str], modal: bool, rng: &mut Rng) {
    let mut sys = System::new(n);
    ev.push(json!({"op": "new", "n": n}));
    let e = if rng.chance(1, 3) { *rng.pick(&[-20, 20]) } else { 0 };
    let (mut hask, mut hasr) = (false, false);
    let last = ops.len();
    for (t, o) in ops.iter().enumerate() {
        let at = |f: &str| o[f].as_u64().unwrap() as usize - 1;
        let v = || o["v"].as_i64().unwrap() as f64 * p2(e);
        match o["op"].as_str().unwrap() {
            "addk" => { sys.add_k_coefficient((at("i"), at("j")), v()); hask = true }
            "addm" => sys.add_m_coefficient((at("i"), at("j")), o["v"].as_i64().unwrap() as f64),
            "addr" => { sys.add_rhs_val(at("i"), v()); hasr = true }
            _ => (),
        }
        if o["op"] != "solve" {
            ev.push(o.clone());
        }
        let ask = o["op"] == "solve" || t + 1 == last || rng.chance(1, 16);
        if ask && hask && hasr {
            for via in vias {
                // a solve in the middle may meet a matrix that is not yet what the solver needs:
                // the specification knows
                ev.push(solve_event(&sys, via, 1.0));
            }
        }
        if ask && hask {
            ev.push(json!({"op": "kenv", "env": sys.k_envelope().collect::<Vec<_>>(), "dofs": sys.dofs()}));
        }
    }
    if modal && hask {
        ev.push(json!({"op": "menv", "env": sys.m_envelope().collect::<Vec<_>>()}));
        for _ in 0..2 {
            let s2 = rng.int(1, 12) * 2 - 1;
            let c = sys.clone();
            let got = guard(|| DeterminantSearcher::new(EigenSystem::new(c)).eigenvalues_under(s2 as f64 / 2.0 * p2(e)));
            ev.push(match got {
                Ok(c) => json!({"op": "count", "s2": s2, "res": "ok", "count": c}),
                Err(m) => json!({"op": "count", "s2": s2, "res": "panic", "count": 0, "msg": m}),
            });
        }
    }
}

fn main() {
    let a = args();
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        "dense" => {
            let n = rng.int(1, if a.thorough { 8 } else { 7 }) as usize;
            let k = general(rng, n);
            dense_case(rng, ev, n, k)
        }
        "densescn" => {
            let k: M = serde_json::from_value(a.scn[c as usize]["k"].clone()).unwrap();
            let n = k.len();
            dense_case(rng, ev, n, k.clone());
            det_case(rng, ev, k)
        }
        "chol" => {
            let n = rng.int(1, if a.thorough { 9 } else { 8 }) as usize;
            spd_case(rng, ev, &["cholesky"], n)
        }
        "seidel" => {
            let n = rng.int(1, 8) as usize;
            spd_case(rng, ev, &["seidel"], n)
        }
        "pattern" => pattern_case(rng, ev, &a.scn[c as usize]),
        "factor" => { let n = rng.int(1, 7) as usize; factor_case(rng, ev, n, 3) }
        "bigdense" => {
            let n = rng.int(9, 20) as usize;
            let k = big_general(rng, n);
            dense_case(rng, ev, n, k)
        }
        "bigchol" => { let n = rng.int(10, 24) as usize; spd_case(rng, ev, &["cholesky"], n) }
        "bigseidel" => { let n = rng.int(9, 20) as usize; spd_case(rng, ev, &["seidel"], n) }
        "bigfactor" => { let n = rng.int(8, 18) as usize; factor_case(rng, ev, n, 1) }
        "bigdet" => bigdet_case(rng, ev),
        "bighistory" => { let n = rng.int(7, 16) as usize; let sym = rng.chance(3, 4); history_case(rng, ev, n, sym) }
        "det" => {
            let n = rng.int(1, 5) as usize;
            let mut k = general(rng, n);
            for r in k.iter_mut() {
                for v in r.iter_mut() {
                    *v = (*v).clamp(-6, 6);
                    if n >= 4 { *v = (*v).clamp(-4, 4) }
                }
            }
            det_case(rng, ev, k)
        }
        "history" => { let n = rng.int(1, 6) as usize; let sym = rng.chance(3, 4); history_case(rng, ev, n, sym) }
        "historyscn" => {
            let op = &a.scn[c as usize];
            run_history(ev, op["n"].as_u64().unwrap() as usize, op["ops"].as_array().unwrap(), &["dense", "cholesky", "seidel"], false, rng)
        }
        m => panic!("mode {}", m),
    });
}
