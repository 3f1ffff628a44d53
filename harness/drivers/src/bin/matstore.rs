//! Register machine over the matrix storage schemes: three registers, each operation is one event
//! carrying its arguments and everything the public API shows of the destination afterwards.
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::*;
use drivers::*;

#[derive(Clone)]
enum Reg {
    Nil,
    Lin(LinearMatrix),
    Dict(Dictionary),
    Crow(CompressedRow),
    Low(LowerTriangular),
    Upp(UpperTriangular),
    Diag(Diagonal),
    Lenv(LowerRowEnvelope),
    Bienv(BiEnvelope),
    C1(ConstMatrix<1>),
    C2(ConstMatrix<2>),
    C3(ConstMatrix<3>),
    C4(ConstMatrix<4>),
    C6(ConstMatrix<6>),
    C9(ConstMatrix<9>),
    C12(ConstMatrix<12>),
}
use Reg::*;

macro_rules! with {
    ($r:expr, $m:ident => $e:expr) => {
        match $r {
            Reg::Nil => panic!("empty register"),
            Lin($m) => $e,
            Dict($m) => $e,
            Crow($m) => $e,
            Low($m) => $e,
            Upp($m) => $e,
            Diag($m) => $e,
            Lenv($m) => $e,
            Bienv($m) => $e,
            C1($m) => $e,
            C2($m) => $e,
            C3($m) => $e,
            C4($m) => $e,
            C6($m) => $e,
            C9($m) => $e,
            C12($m) => $e,
        }
    };
}

// kinds for which whole-row / whole-column rewriting is meaningful
macro_rules! with_full {
    ($r:expr, $m:ident => $e:expr) => {
        match $r {
            Lin($m) => $e,
            Dict($m) => $e,
            C1($m) => $e,
            C2($m) => $e,
            C3($m) => $e,
            C4($m) => $e,
            C6($m) => $e,
            C9($m) => $e,
            C12($m) => $e,
            _ => panic!("not a full storage kind"),
        }
    };
}

fn kind(r: &Reg) -> &'static str {
    match r {
        Reg::Nil => "none",
        Lin(_) => "lin",
        Dict(_) => "dict",
        Crow(_) => "crow",
        Low(_) => "low",
        Upp(_) => "upp",
        Diag(_) => "diag",
        Lenv(_) => "lenv",
        Bienv(_) => "bienv",
        _ => "const",
    }
}

fn const_zeros(r: usize, c: usize) -> Reg {
    match r * c {
        1 => C1(ConstMatrix::zeros((r, c))),
        2 => C2(ConstMatrix::zeros((r, c))),
        3 => C3(ConstMatrix::zeros((r, c))),
        4 => C4(ConstMatrix::zeros((r, c))),
        6 => C6(ConstMatrix::zeros((r, c))),
        9 => C9(ConstMatrix::zeros((r, c))),
        12 => C12(ConstMatrix::zeros((r, c))),
        _ => panic!("size"),
    }
}

fn const_eye(n: usize) -> Reg {
    match n {
        1 => C1(ConstMatrix::eye(n)),
        2 => C4(ConstMatrix::eye(n)),
        3 => C9(ConstMatrix::eye(n)),
        _ => panic!("size"),
    }
}

fn const_flat(r: usize, c: usize, d: Vec<f64>) -> Reg {
    match r * c {
        1 => C1(ConstMatrix::from_flat((r, c), d)),
        2 => C2(ConstMatrix::from_flat((r, c), d)),
        3 => C3(ConstMatrix::from_flat((r, c), d)),
        4 => C4(ConstMatrix::from_flat((r, c), d)),
        6 => C6(ConstMatrix::from_flat((r, c), d)),
        9 => C9(ConstMatrix::from_flat_array((r, c), [d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]])),
        12 => C12(ConstMatrix::from_flat((r, c), d)),
        _ => panic!("size"),
    }
}

const CONST_SHAPES: [(usize, usize); 11] = [
    (1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3),
];

/// everything the API shows of a matrix
fn observe(r: &Reg) -> Value {
    match guard(|| observe_in(r)) {
        Ok(v) => v,
        Err(m) => json!({"panic": m}),
    }
}

fn observe_in(reg: &Reg) -> Value {
    let mut o = with!(reg, m => obs_any(m));
    let map = o.as_object_mut().unwrap();
    match reg {
        Crow(m) => {
            let rows: Vec<Vec<(usize, i64)>> = (0..m.shape().0)
                .map(|r| {
                    let mut v: Vec<(usize, i64)> = m.row_nzs(r).map(|(c, x)| (c + 1, qi(x))).collect();
                    v.sort();
                    v
                })
                .collect();
            map.insert("sparse".into(), json!(rows));
        }
        Lenv(m) => {
            let rows: Vec<Vec<(usize, i64)>> = (0..m.shape().0)
                .map(|r| {
                    let (s, v) = m.row_stored(r);
                    v.iter().enumerate().map(|(i, x)| (s + i + 1, qi(*x))).collect()
                })
                .collect();
            map.insert("sparse".into(), json!(rows));
            let nd: Vec<Vec<(usize, i64)>> = (0..m.shape().0)
                .map(|r| {
                    let (s, v) = m.row_stored_nodiag(r);
                    v.iter().enumerate().map(|(i, x)| (s + i + 1, qi(*x))).collect()
                })
                .collect();
            map.insert("nodiag".into(), json!(nd));
            map.insert("env".into(), json!(m.envelope()));
            map.insert("count".into(), json!(m.non_zero_count()));
        }
        Bienv(m) => {
            let rows: Vec<Vec<(usize, i64)>> = (0..m.shape().0)
                .map(|r| {
                    let (s, v) = m.row_stored(r);
                    v.iter().enumerate().map(|(i, x)| (s + i + 1, qi(*x))).collect()
                })
                .collect();
            map.insert("sparse".into(), json!(rows));
        }
        Dict(m) => {
            // the stored coordinates, as a graph of the matrix
            let mut e: Vec<(usize, usize)> = m.edges().map(|(a, b)| (a + 1, b + 1)).collect();
            e.sort();
            map.insert("edges".into(), json!(e));
            let mut e: Vec<(usize, usize)> = m.edges_lower().map(|(a, b)| (a.min(b) + 1, a.max(b) + 1)).collect();
            e.sort();
            map.insert("half".into(), json!(e));
        }
        _ => {}
    }
    o
}

fn obs_any<T: MatrixLike>(m: &T) -> Value {
    let (r, c) = m.shape();
    let idx: Vec<Vec<i64>> = (0..r).map(|i| (0..c).map(|j| qi(m[(i, j)])).collect()).collect();
    let get: Vec<Vec<i64>> = (0..r)
        .map(|i| (0..c).map(|j| m.get((i, j)).map(|x| qi(*x)).unwrap_or(BAD)).collect())
        .collect();
    let row: Vec<Vec<i64>> = (0..r).map(|i| m.row(i).map(|x| qi(*x)).take(40).collect()).collect();
    let col: Vec<Vec<i64>> = (0..c).map(|j| m.col(j).map(|x| qi(*x)).take(40).collect()).collect();
    let flat: Vec<i64> = m.flat().map(|x| qi(*x)).take(600).collect();
    let diag: Vec<i64> = m.diag().map(|x| qi(*x)).take(40).collect();
    let ind: Vec<Vec<usize>> = m.indices().map(|(a, b)| vec![a + 1, b + 1]).take(600).collect();
    let mut nz: Vec<(usize, usize, i64)> = m.nzs().map(|((a, b), x)| (a + 1, b + 1, qi(x))).filter(|x| x.2 != 0).collect();
    nz.sort();
    let f = m.frobenius();
    // there is nothing outside of the matrix, and asking for it is refused
    let oob = m.get((r, 0)).is_none() && m.get((0, c)).is_none() && m.get((r + 1, c + 3)).is_none()
        && guard(|| m[(r, 0)]).is_err() && guard(|| m[(0, c)]).is_err() && guard(|| m[(r, c)]).is_err()
        && guard(|| m[(r, c.max(1) - 1)]).is_err() && guard(|| m[(r.max(1) - 1, c)]).is_err()
        && guard(|| m.row(r).count()).is_err() && guard(|| m.col(c).count()).is_err();
    json!({"r": r, "c": c, "idx": idx, "get": get, "row": row, "col": col, "flat": flat, "diag": diag,
           "ind": ind, "nz": nz, "frob2": if f * f < 1e8 { qi(f * f) } else { -1 }, "oob": oob})
}

fn us(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or_else(|| panic!("harness: field {}", k)) as usize
}
fn num(v: &Value, k: &str) -> f64 {
    v[k].as_i64().unwrap_or_else(|| panic!("harness: field {}", k)) as f64
}
fn nums(v: &Value, k: &str) -> Vec<f64> {
    v[k].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64).collect()
}
fn pairs(v: &Value, k: &str) -> Vec<(usize, usize)> {
    v[k].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as usize)).collect()
}
fn rowsof(v: &Value, k: &str) -> Vec<Vec<f64>> {
    v[k].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64).collect()).collect()
}

fn mk(kind: &str, r: usize, c: usize, d: Vec<f64>) -> Reg {
    match kind {
        "lin" => Lin(LinearMatrix::from_flat((r, c), d)),
        "dict" => Dict(Dictionary::from_flat((r, c), d)),
        "crow" => Crow(CompressedRow::from_flat((r, c), d)),
        "lenv" => Lenv(LowerRowEnvelope::from_flat((r, c), d)),
        "const" => const_flat(r, c, d),
        _ => panic!("kind"),
    }
}

fn zeros(kind: &str, r: usize, c: usize) -> Reg {
    match kind {
        "lin" => Lin(LinearMatrix::zeros((r, c))),
        "dict" => Dict(Dictionary::zeros((r, c))),
        "crow" => Crow(CompressedRow::zeros((r, c))),
        "low" => Low(LowerTriangular::zeros((r, c))),
        "upp" => Upp(UpperTriangular::zeros((r, c))),
        "diag" => Diag(Diagonal::zeros((r, c))),
        "const" => const_zeros(r, c),
        _ => panic!("kind"),
    }
}

fn eye(kind: &str, n: usize) -> Reg {
    match kind {
        "lin" => Lin(LinearMatrix::eye(n)),
        "dict" => Dict(Dictionary::eye(n)),
        "crow" => Crow(CompressedRow::eye(n)),
        "low" => Low(LowerTriangular::eye(n)),
        "upp" => Upp(UpperTriangular::eye(n)),
        "diag" => Diag(Diagonal::eye(n)),
        "const" => const_eye(n),
        _ => panic!("kind"),
    }
}

fn mul_any<A: MatrixLike>(a: &A, b: &Reg, u: &str) -> Reg {
    with!(b, b => mul_two(a, b, u))
}
fn mul_two<A: MatrixLike, B: MatrixLike>(a: &A, b: &B, u: &str) -> Reg {
    match u {
        "lin" => Lin(a.mul(b)),
        "dict" => Dict(a.mul(b)),
        "crow" => Crow(a.mul(b)),
        "const" => match a.shape().0 * b.shape().1 {
            1 => C1(a.mul(b)),
            2 => C2(a.mul(b)),
            3 => C3(a.mul(b)),
            4 => C4(a.mul(b)),
            6 => C6(a.mul(b)),
            9 => C9(a.mul(b)),
            12 => C12(a.mul(b)),
            _ => panic!("size"),
        },
        _ => panic!("kind"),
    }
}

fn perm_of(op: &Value) -> Permutation {
    let n = us(op, "pn");
    if op["pid"].as_bool() == Some(true) {
        return Permutation::identity(n);
    }
    let p = Graph::from_edges(n, pairs(op, "pe")).reverse_cuthill_mckee();
    if op["pinv"].as_bool() == Some(true) { p.invert() } else { p }
}

/// apply one operation; extra result fields go into `out`
fn apply(op: &Value, regs: &mut [Reg; 3], out: &mut Map<String, Value>) {
    let d = us(op, "d") - 1;
    let name = op["op"].as_str().unwrap();
    let loc = || (us(op, "i") - 1, us(op, "j") - 1);
    match name {
        "new" => {
            regs[d] = match op["via"].as_str().unwrap() {
                "flat" => mk(op["k"].as_str().unwrap(), us(op, "r"), us(op, "c"), nums(op, "data")),
                "zeros" => zeros(op["k"].as_str().unwrap(), us(op, "r"), us(op, "c")),
                "eye" => eye(op["k"].as_str().unwrap(), us(op, "r")),
                "rows" => match op["k"].as_str().unwrap() {
                    "lin" => Lin(LinearMatrix::from_rows(rowsof(op, "rows"))),
                    "dict" => Dict(Dictionary::from_rows(rowsof(op, "rows"))),
                    "crow" => Crow(CompressedRow::from_rows(rowsof(op, "rows"))),
                    _ => panic!("kind"),
                },
                "rowvec" => Lin(LinearMatrix::row_vec(nums(op, "data"))),
                "colvec" => Lin(LinearMatrix::col_vec(nums(op, "data"))),
                "vec" => Lin(LinearMatrix::from(nums(op, "data"))),
                "diagvec" => Diag(Diagonal::from(nums(op, "data"))),
                "env" => Lenv(LowerRowEnvelope::from_envelope(
                    op["env"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
                )),
                "labeled" => Crow(CompressedRow::from_labeled_vals(
                    (us(op, "r"), us(op, "c")),
                    op["trip"].as_array().unwrap().iter()
                        .map(|t| ((t[0].as_u64().unwrap() as usize - 1, t[1].as_u64().unwrap() as usize - 1), t[2].as_i64().unwrap() as f64))
                        .collect(),
                )),
                "rot" => Lin(LinearMatrix::rotation(us(op, "r"), us(op, "i") - 1, us(op, "j") - 1,
                    std::f64::consts::FRAC_PI_2 * num(op, "quarter"))),
                v => panic!("via {}", v),
            };
        }
        "copy" => regs[d] = regs[us(op, "a") - 1].clone(),
        "put" => {
            let (i, j) = loc();
            let x = num(op, "x");
            let took = with!(&mut regs[d].clone(), m => m.get_mut((i, j)).is_some());
            with!(&mut regs[d], m => m.put((i, j), x));
            out.insert("took".into(), json!(took));
        }
        "setget" => {
            let (i, j) = loc();
            let x = num(op, "x");
            let took = with!(&mut regs[d], m => match m.get_mut((i, j)) { Some(y) => { *y = x; true } None => false });
            out.insert("took".into(), json!(took));
        }
        "setidx" => {
            let (i, j) = loc();
            let x = num(op, "x");
            let r = guard(|| with!(&mut regs[d], m => m[(i, j)] = x));
            out.insert("took".into(), json!(r.is_ok()));
        }
        "mutate" => {
            let (i, j) = loc();
            let x = num(op, "x");
            let mut took = false;
            with!(&mut regs[d], m => m.mutate((i, j), |y| { *y += x; took = true; }));
            out.insert("took".into(), json!(took));
        }
        "transpose" => match &mut regs[d] {
            Lin(m) => m.transpose(),
            Diag(m) => m.transpose(),
            Dict(m) => { let t = m.transposed(); *m = t; }
            _ => panic!("kind"),
        },
        "swaprows" => with_full!(&mut regs[d], m => m.swap_rows(us(op, "i") - 1, us(op, "j") - 1)),
        "swapcols" => with_full!(&mut regs[d], m => m.swap_cols(us(op, "i") - 1, us(op, "j") - 1)),
        "setrow" => with_full!(&mut regs[d], m => m.set_row(us(op, "i") - 1, nums(op, "data"))),
        "setcol" => with_full!(&mut regs[d], m => m.set_col(us(op, "i") - 1, nums(op, "data"))),
        "mutrow" => { let x = num(op, "x"); with_full!(&mut regs[d], m => m.mutate_row(us(op, "i") - 1, |y| *y = *y * 2.0 + x)) }
        "mutcol" => { let x = num(op, "x"); with_full!(&mut regs[d], m => m.mutate_col(us(op, "i") - 1, |y| *y = *y * 2.0 + x)) }
        "addass" | "subass" => {
            let b = regs[us(op, "b") - 1].clone();
            let sub = name == "subass";
            macro_rules! go { ($m:expr, $b:expr) => { if sub { $m.sub_ass($b) } else { $m.add_ass($b) } } }
            match (&mut regs[d], &b) {
                (Lin(m), Lin(b)) => go!(m, b),
                (Dict(m), Dict(b)) => go!(m, b),
                (C4(m), C4(b)) => go!(m, b),
                (C6(m), C6(b)) => go!(m, b),
                (C9(m), C9(b)) => go!(m, b),
                (C12(m), C12(b)) => go!(m, b),
                _ => panic!("kinds"),
            }
        }
        "linadd" | "linsub" | "linaddassign" => {
            let a = regs[us(op, "a") - 1].clone();
            let b = regs[us(op, "b") - 1].clone();
            if let (Lin(a), Lin(b)) = (a, b) {
                regs[d] = match name {
                    "linadd" => Lin(&a + &b),
                    "linsub" => Lin(&a - &b),
                    _ => { let mut x = a; x += b; Lin(x) }
                };
            } else {
                panic!("kinds")
            }
        }
        "addscalar" => if let Lin(m) = &mut regs[d] { *m += num(op, "x") } else { panic!("kind") },
        "mulscalar" => if let Lin(m) = &mut regs[d] { *m *= num(op, "x") } else { panic!("kind") },
        "eq" => {
            let (a, b) = (&regs[us(op, "a") - 1], &regs[us(op, "b") - 1]);
            let e = match (a, b) {
                (Lin(a), Lin(b)) => a == b,
                (Dict(a), Dict(b)) => a == b,
                (Crow(a), Crow(b)) => a == b,
                (Low(a), Low(b)) => a == b,
                (Upp(a), Upp(b)) => a == b,
                (Diag(a), Diag(b)) => a == b,
                (Lenv(a), Lenv(b)) => a == b,
                (Bienv(a), Bienv(b)) => a == b,
                (C4(a), C4(b)) => a == b,
                (C6(a), C6(b)) => a == b,
                (C9(a), C9(b)) => a == b,
                (C12(a), C12(b)) => a == b,
                _ => panic!("kinds"),
            };
            out.insert("res".into(), json!(e));
        }
        "eqturned" => {
            let a = &regs[us(op, "a") - 1];
            let (r, c) = shape(a);
            let e = match (a, mk(kind(a), c, r, dense(a).concat())) {
                (Lin(a), Lin(b)) => (a == &b, &b == a),
                (Dict(a), Dict(b)) => (a == &b, &b == a),
                (Crow(a), Crow(b)) => (a == &b, &b == a),
                (C4(a), C4(b)) => (a == &b, &b == a),
                (C6(a), C6(b)) => (a == &b, &b == a),
                (C9(a), C9(b)) => (a == &b, &b == a),
                (C12(a), C12(b)) => (a == &b, &b == a),
                _ => (false, false),
            };
            out.insert("res".into(), json!(e.0 || e.1));
        }
        "convert" => {
            let a = regs[us(op, "a") - 1].clone();
            regs[d] = match (a, op["k"].as_str().unwrap()) {
                (Dict(m), "lin") => Lin(m.into()),
                (Dict(m), "crow") => Crow(m.into()),
                (Dict(m), "lenv") => Lenv(m.into()),
                (Dict(m), "bienv") => Bienv(m.into()),
                (Bienv(m), "lenv") => Lenv(LowerRowEnvelope::from_bienv(&m)),
                _ => panic!("kinds"),
            }
        }
        "permute" => {
            let p = perm_of(op);
            let n = us(op, "pn");
            out.insert("p".into(), json!((0..n).map(|i| p.permute(i)).collect::<Vec<_>>()));
            if let Dict(m) = &mut regs[d] { m.permute(&p) } else { panic!("kind") }
        }
        "mask" => {
            let mask: Vec<bool> = op["mask"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect();
            if let Dict(m) = regs[us(op, "a") - 1].clone() { regs[d] = Dict(m.mask(&mask)) } else { panic!("kind") }
        }
        "addbienv" => {
            let b = regs[us(op, "b") - 1].clone();
            match (&mut regs[d], &b) {
                (Lenv(m), Bienv(b)) => m.add_scaled_bienv(b, num(op, "x")),
                _ => panic!("kinds"),
            }
        }
        "mul" => {
            let b = regs[us(op, "b") - 1].clone();
            let a = regs[us(op, "a") - 1].clone();
            regs[d] = with!(&a, a => mul_any(a, &b, op["k"].as_str().unwrap()));
        }
        "muldict" => {
            let b = regs[us(op, "b") - 1].clone();
            let a = regs[us(op, "a") - 1].clone();
            regs[d] = match (a, b) {
                (Dict(a), Dict(b)) => Dict(a.mul_dict(&b)),
                _ => panic!("kinds"),
            };
        }
        "mulvec" => {
            let x = nums(op, "data");
            // the destination buffer holds something before the call
            let mut y: Vec<f64> = x.iter().map(|v| v + 7.0).collect();
            if let Bienv(m) = &regs[us(op, "a") - 1] { m.mul_vec(&x, &mut y) } else { panic!("kind") }
            out.insert("res".into(), json!(y.iter().map(|v| qi(*v)).collect::<Vec<_>>()));
        }
        "dot" => {
            let (i, j) = loc();
            let (a, b) = (&regs[us(op, "a") - 1], &regs[us(op, "b") - 1]);
            let x = with!(a, a => with!(b, b => dot(a.row(i), b.col(j))));
            out.insert("res".into(), json!(qi(x)));
        }
        "diagfn" => {
            if let Diag(m) = &regs[us(op, "a") - 1] {
                let n = m.shape().0 as f64;
                out.insert("neg".into(), json!(m.num_neg()));
                out.insert("prod".into(), json!(qi(m.product())));
                out.insert("prods".into(), json!(qi(m.product_scaled(2.0))));
                out.insert("sum".into(), json!(qi(m.mean() * n)));
                let mut x: Vec<f64> = nums(op, "data");
                m.solve(&mut x);
                out.insert("sol".into(), json!(x.iter().map(|v| q(*v, 10000.0)).collect::<Vec<_>>()));
                out.insert("by1".into(), json!((0..m.shape().0).map(|i| qi(m[i])).collect::<Vec<_>>()));
            } else {
                panic!("kind")
            }
        }
        "refuse" => {
            let mut copy = regs.clone();
            let mut o = Map::new();
            let r = guard(|| apply(&op["inner"], &mut copy, &mut o));
            if let Err(m) = &r { if m.starts_with("harness") { panic!("{}", m) } }
            out.insert("refused".into(), json!(r.is_err()));
        }
        "avg" => {
            let xs = nums(op, "data");
            let mut a: Average<f64> = Average::new();
            for x in &xs { a.update(*x) }
            out.insert("res".into(), json!(a.consume().map(|v| q(v, 1000.0)).unwrap_or(BAD)));
        }
        _ => panic!("harness: op {}", name),
    }
}

/// the shape and content of each register, as the generator needs them
struct G {
    regs: [Reg; 3],
}

fn shape(r: &Reg) -> (usize, usize) {
    match r { Reg::Nil => (0, 0), _ => with!(r, m => m.shape()) }
}

fn dense(r: &Reg) -> Vec<Vec<f64>> {
    with!(r, m => { let (a, b) = m.shape(); (0..a).map(|i| (0..b).map(|j| m[(i, j)]).collect()).collect() })
}

fn biggest(r: &Reg) -> f64 {
    match r { Reg::Nil => 0.0, _ => guard(|| with!(r, m => m.flat().take(1000).fold(0.0f64, |a, x| a.max(x.abs())))).unwrap_or(0.0) }
}

fn rnd_vals(rng: &mut Rng, n: usize, density: u64) -> Vec<i64> {
    (0..n).map(|_| if rng.chance(density, 10) { let v = rng.int(1, 9); if rng.chance(1, 2) { -v } else { v } } else { 0 }).collect()
}

fn rnd_new(rng: &mut Rng, d: usize, want: Option<(&str, usize, usize)>) -> Value {
    let kinds = ["lin", "dict", "crow", "low", "upp", "diag", "lenv", "const", "dict", "lin"];
    let k = want.map(|w| w.0).unwrap_or(*rng.pick(&kinds));
    let (mut r, mut c) = want.map(|w| (w.1, w.2)).unwrap_or((rng.int(1, top()) as usize, rng.int(1, top()) as usize));
    if want.is_none() && rng.chance(1, 2) { c = r }
    let density = *rng.pick(&[2u64, 4, 7, 10, 1]);
    match k {
        "const" => {
            if want.is_none() { let s = *rng.pick(&CONST_SHAPES); r = s.0; c = s.1; }
            if rng.chance(1, 8) && r == c { return json!({"op":"new","d":d,"via":"eye","k":"const","r":r,"c":r}) }
            if rng.chance(1, 4) { return json!({"op":"new","d":d,"via":"zeros","k":"const","r":r,"c":c}) }
            json!({"op":"new","d":d,"via":"flat","k":"const","r":r,"c":c,"data":rnd_vals(rng, r*c, density)})
        }
        "low" | "upp" => {
            if rng.chance(1, 4) { return json!({"op":"new","d":d,"via":"eye","k":k,"r":r,"c":r}) }
            json!({"op":"new","d":d,"via":"zeros","k":k,"r":r,"c":r})
        }
        "diag" => match rng.below(4) {
            0 => json!({"op":"new","d":d,"via":"eye","k":k,"r":r,"c":r}),
            1 => json!({"op":"new","d":d,"via":"zeros","k":k,"r":r,"c":r}),
            _ => json!({"op":"new","d":d,"via":"diagvec","k":k,"r":r,"c":r,"data":rnd_vals(rng, r, 9)}),
        },
        "lenv" => {
            if rng.chance(1, 2) {
                let env: Vec<usize> = (0..r).map(|i| 1 + rng.below(i + 1)).collect();
                return json!({"op":"new","d":d,"via":"env","k":k,"r":r,"c":r,"env":env});
            }
            let mut v = rnd_vals(rng, r * r, density);
            for i in 0..r { for j in 0..r {
                if j > i { v[i * r + j] = 0 }
                if j == i && v[i * r + j] == 0 { v[i * r + j] = 3 }
            } }
            json!({"op":"new","d":d,"via":"flat","k":k,"r":r,"c":r,"data":v})
        }
        "crow" => match rng.below(8) {
            0 => json!({"op":"new","d":d,"via":"zeros","k":k,"r":r,"c":c}),
            1 => json!({"op":"new","d":d,"via":"eye","k":k,"r":r,"c":r}),
            2 | 3 => {
                let v = rnd_vals(rng, r * c, density);
                let mut t: Vec<(usize, usize, i64)> = (0..r * c).filter(|i| v[*i] != 0 || rng.chance(1, 12)).map(|i| (i / c + 1, i % c + 1, v[i])).collect();
                rng.shuffle(&mut t);
                json!({"op":"new","d":d,"via":"labeled","k":k,"r":r,"c":c,"trip":t})
            }
            4 => json!({"op":"new","d":d,"via":"rows","k":k,"r":r,"c":c,"rows":(0..r).map(|_| rnd_vals(rng, c, density)).collect::<Vec<_>>()}),
            _ => json!({"op":"new","d":d,"via":"flat","k":k,"r":r,"c":c,"data":rnd_vals(rng, r*c, density)}),
        },
        _ => match rng.below(10) {
            0 => json!({"op":"new","d":d,"via":"zeros","k":k,"r":r,"c":c}),
            1 => json!({"op":"new","d":d,"via":"eye","k":k,"r":r,"c":r}),
            2 => json!({"op":"new","d":d,"via":"rows","k":k,"r":r,"c":c,"rows":(0..r).map(|_| rnd_vals(rng, c, density)).collect::<Vec<_>>()}),
            3 if k == "lin" && want.is_none() => json!({"op":"new","d":d,"via":"rowvec","k":k,"r":1,"c":c,"data":rnd_vals(rng, c, 9)}),
            4 if k == "lin" && want.is_none() => json!({"op":"new","d":d,"via":"colvec","k":k,"r":r,"c":1,"data":rnd_vals(rng, r, 9)}),
            5 if k == "lin" && want.is_none() => json!({"op":"new","d":d,"via":"vec","k":k,"r":r,"c":1,"data":rnd_vals(rng, r, 9)}),
            6 if k == "lin" && want.is_none() && r >= 2 => {
                let i = rng.below(r); let mut j = rng.below(r); if j == i { j = (i + 1) % r }
                json!({"op":"new","d":d,"via":"rot","k":k,"r":r,"c":r,"i":i+1,"j":j+1,"quarter":rng.int(0, 3)})
            }
            _ => json!({"op":"new","d":d,"via":"flat","k":k,"r":r,"c":c,"data":rnd_vals(rng, r*c, density)}),
        },
    }
}

fn rnd_edges(rng: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let m = rng.below(2 * n + 1);
    (0..m).map(|_| (rng.below(n), rng.below(n))).collect()
}

/// choose an operation that the API defines for the present registers
fn choose(rng: &mut Rng, g: &G, arith: bool) -> Value {
    for _ in 0..40 {
        let d = rng.below(3);
        let a = rng.below(3);
        let b = rng.below(3);
        let (kd, ka, kb) = (kind(&g.regs[d]), kind(&g.regs[a]), kind(&g.regs[b]));
        let (r, c) = shape(&g.regs[d]);
        let (ar, ac) = shape(&g.regs[a]);
        let (br, bc) = shape(&g.regs[b]);
        if kd == "none" { return rnd_new(rng, d + 1, None) }
        if ka == "none" { return rnd_new(rng, a + 1, None) }
        if kb == "none" { return rnd_new(rng, b + 1, None) }
        if biggest(&g.regs[d]) > 5e3 { return rnd_new(rng, d + 1, None) }
        let small = biggest(&g.regs[a]) <= 60.0 && biggest(&g.regs[b]) <= 60.0;
        let full = kd == "lin" || kd == "dict" || kd == "const";
        let w = rng.below(if arith { 45 } else { 30 });
        let x = rng.int(-9, 9);
        match w {
            0 => return rnd_new(rng, d + 1, None),
            1..=5 | 33 => {
                let op = *rng.pick(&["put", "setget", "setidx", "mutate"]);
                let (mut i, mut j) = (rng.below(r) + 1, rng.below(c) + 1);
                if (kd == "low" || kd == "lenv") && j > i && rng.chance(5, 6) { std::mem::swap(&mut i, &mut j) }
                if kd == "upp" && i > j && rng.chance(5, 6) { std::mem::swap(&mut i, &mut j) }
                if kd == "diag" && rng.chance(5, 6) { j = i }
                if (kd == "crow" || kd == "lenv" || kd == "bienv") && rng.chance(4, 6) {
                    let m = dense(&g.regs[d]);
                    for _ in 0..20 { let (p, s) = (rng.below(r), rng.below(c)); if m[p][s] != 0.0 { i = p + 1; j = s + 1; break } }
                }
                if rng.chance(1, 25) { i = r + 1 }
                if rng.chance(1, 25) { j = c + 1 + rng.below(2) }
                return json!({"op":op,"d":d+1,"i":i,"j":j,"x":x});
            }
            6 | 7 if kd == "lin" || kd == "diag" || kd == "dict" => return json!({"op":"transpose","d":d+1}),
            8 if full => return json!({"op":"swaprows","d":d+1,"i":rng.below(r)+1,"j":rng.below(r)+1}),
            9 if full => return json!({"op":"swapcols","d":d+1,"i":rng.below(c)+1,"j":rng.below(c)+1}),
            10 if full => return json!({"op":"setrow","d":d+1,"i":rng.below(r)+1,"data":rnd_vals(rng, c, 6)}),
            11 if full => return json!({"op":"setcol","d":d+1,"i":rng.below(c)+1,"data":rnd_vals(rng, r, 6)}),
            12 if full => return json!({"op":"mutrow","d":d+1,"i":rng.below(r)+1,"x":x}),
            13 if full => return json!({"op":"mutcol","d":d+1,"i":rng.below(c)+1,"x":x}),
            14 => return json!({"op":"copy","d":d+1,"a":a+1}),
            15..=18 if ka == "dict" && ar == ac => {
                let m = dense(&g.regs[a]);
                let mut ks = vec!["lin", "crow"];
                let rows_ok = m.iter().all(|row| row.iter().any(|x| x.abs() > 0.5));
                let low_ok = m.iter().enumerate().all(|(i, row)| row[..=i].iter().any(|x| x.abs() > 0.5));
                if rows_ok { ks.push("bienv"); ks.push("bienv") }
                if low_ok { ks.push("lenv"); ks.push("lenv") }
                return json!({"op":"convert","d":d+1,"a":a+1,"k":rng.pick(&ks)});
            }
            15..=18 if ka == "dict" => return json!({"op":"convert","d":d+1,"a":a+1,"k":rng.pick(&["lin","crow"])}),
            15..=18 if ka == "bienv" => {
                let m = dense(&g.regs[a]);
                // the stored run of every row has to reach the diagonal
                let ok = m.iter().enumerate().all(|(i, row)| row[..=i].iter().any(|x| *x != 0.0) && row[i..].iter().any(|x| *x != 0.0));
                if ok { return json!({"op":"convert","d":d+1,"a":a+1,"k":"lenv"}) }
            }
            19 if kd == "dict" && r == c => {
                let e = rnd_edges(rng, r);
                return json!({"op":"permute","d":d+1,"pn":r,"pe":e,"pinv":rng.chance(1,3),"pid":rng.chance(1,12)});
            }
            20 if ka == "dict" && ar == ac => {
                let mut mask: Vec<bool> = (0..ar).map(|_| rng.chance(2, 3)).collect();
                if !mask.iter().any(|x| *x) { mask[0] = true }
                return json!({"op":"mask","d":d+1,"a":a+1,"mask":mask});
            }
            21 | 22 if kd == "lenv" && kb == "bienv" && r == br => {
                // precondition: no row of b starts left of the row of d
                let (Lenv(m), Bienv(bm)) = (&g.regs[d], &g.regs[b]) else { continue };
                let ok = (0..r).all(|i| bm.row_stored(i).0 >= m.row_stored(i).0);
                if ok { return json!({"op":"addbienv","d":d+1,"b":b+1,"x":rng.int(-3,3)}) }
            }
            23 if kd == kb && full && (r, c) == (br, bc) && (kd != "const" || r * c >= 4) => {
                return json!({"op":rng.pick(&["addass","subass"]),"d":d+1,"b":b+1});
            }
            24 if ka == kb && (ar, ac) == (br, bc) && (ka != "const" || ar * ac >= 4) => {
                return json!({"op":"eq","d":a+1,"a":a+1,"b":b+1});
            }
            25 if kd == "dict" => return rnd_new(rng, a + 1, Some(("dict", r, r))),
            26 | 27 => {
                // bring a second register of the same kind and shape about
                let w = *rng.pick(&["lin", "dict"]);
                return rnd_new(rng, b + 1, Some((w, r, c)));
            }
            28 | 29 if !arith => if let Some(op) = refused(rng, g, d, a, b) { return op },
            28..=32 if small && ac == br => {
                let ks: Vec<&str> = if CONST_SHAPES.contains(&(ar, bc)) { vec!["lin", "dict", "crow", "const"] } else { vec!["lin", "dict", "crow"] };
                return json!({"op":"mul","d":d+1,"a":a+1,"b":b+1,"k":rng.pick(&ks)});
            }
            34 if small && ka == "dict" && kb == "dict" && ac == br => return json!({"op":"muldict","d":d+1,"a":a+1,"b":b+1}),
            35 if ka == "bienv" => return json!({"op":"mulvec","d":a+1,"a":a+1,"data":rnd_vals(rng, ar, 8)}),
            36 if small && ac == br => return json!({"op":"dot","d":a+1,"a":a+1,"b":b+1,"i":rng.below(ar)+1,"j":rng.below(bc)+1}),
            37 => {
                if ka == "diag" && small && ar <= 4 {
                    let m = dense(&g.regs[a]);
                    if (0..ar).all(|i| m[i][i] != 0.0 && m[i][i].abs() < 20.0) {
                        return json!({"op":"diagfn","d":a+1,"a":a+1,"data":rnd_vals(rng, ar, 9)});
                    }
                }
                return json!({"op":"avg","d":d+1,"data":(0..rng.int(1,7)).map(|_| rng.int(-50,50)).collect::<Vec<_>>()});
            }
            38 if ka == "lin" && kb == "lin" && (ar, ac) == (br, bc) => {
                return json!({"op":rng.pick(&["linadd","linsub","linaddassign"]),"d":d+1,"a":a+1,"b":b+1});
            }
            // a matrix of the other shape with the same numbers in a row
            40 if ka == "lin" || ka == "dict" || ka == "crow" || (ka == "const" && CONST_SHAPES.contains(&(ac, ar))) => {
                return json!({"op":"eqturned","d":a+1,"a":a+1});
            }
            41 | 42 if ka == kb && a != b && (ka == "lin" || (ka == "const" && ar * ac == br * bc && ar * ac >= 4)) => {
                return json!({"op":"eq","d":a+1,"a":a+1,"b":b+1});
            }
            43 | 44 => if let Some(op) = refused(rng, g, d, a, b) { return op },
            39 if kd == "lin" => return json!({"op":rng.pick(&["addscalar","mulscalar"]),"d":d+1,"x":rng.int(-3,3)}),
            _ => {}
        }
    }
    rnd_new(rng, 1, None)
}

/// an operation that no matrix corresponds to
fn refused(rng: &mut Rng, g: &G, d: usize, a: usize, b: usize) -> Option<Value> {
    let (kd, ka, kb) = (kind(&g.regs[d]), kind(&g.regs[a]), kind(&g.regs[b]));
    let (r, c) = shape(&g.regs[d]);
    let (ar, ac) = shape(&g.regs[a]);
    let (br, bc) = shape(&g.regs[b]);
    let full = kd == "lin" || kd == "dict" || kd == "const";
    let d1 = d + 1;
    let op = match rng.below(12) {
        0 => {
            let n = rng.int(2, top()) as usize;
            let mut env: Vec<usize> = (0..n).map(|i| 1 + rng.below(i + 1)).collect();
            let i = rng.below(n);
            env[i] = if rng.chance(1, 2) { 0 } else { i + 2 + rng.below(2) };
            json!({"op":"new","via":"env","k":"lenv","r":n,"c":n,"env":env})
        }
        1 => {
            let n = rng.int(2, top()) as usize;
            let mut v = vec![0; n * n];
            for i in 0..n { for j in 0..=i { v[i * n + j] = rng.int(1, 9) } }
            let i = rng.below(n - 1);
            let j = i + 1 + rng.below(n - i - 1);
            v[i * n + j] = rng.int(1, 9);
            json!({"op":"new","via":"flat","k":"lenv","r":n,"c":n,"data":v})
        }
        2 => {
            let k = *rng.pick(&["lin", "crow", "lenv", "const"]);
            let (r, c) = if k == "lenv" { let n = rng.int(2, top()) as usize; (n, n) } else if k == "const" { *rng.pick(&CONST_SHAPES[3..]) } else { (rng.int(1, top()) as usize, rng.int(2, top()) as usize) };
            let mut v: Vec<i64> = vec![0; r * c];
            for i in 0..r { for j in 0..c { if k != "lenv" || j <= i { v[i * c + j] = rng.int(1, 9) } } }
            // too few, or (where the number counts) too many
            if k == "lin" && rng.chance(1, 2) { for _ in 0..=rng.below(c) { v.push(0) } } else { v.truncate(r * c - 1 - rng.below(c)) }
            json!({"op":"new","via":"flat","k":k,"r":r,"c":c,"data":v})
        }
        3 => {
            let r = rng.int(2, top()) as usize;
            let c = rng.int(2, top()) as usize;
            let mut rows: Vec<Vec<i64>> = (0..r).map(|_| (0..c).map(|_| rng.int(1, 9)).collect()).collect();
            // the numbers of one row continue in the next, or one is lacking
            let i = rng.below(r);
            let x = rows[i].pop().unwrap();
            if rng.chance(2, 3) { let j = (i + 1) % r; rows[j].insert(0, x) }
            json!({"op":"new","via":"rows","k":rng.pick(&["lin","dict","crow"]),"r":r,"c":c,"rows":rows})
        }
        4 | 5 if kd == kb && full && kd != "const" && (r, c) != (br, bc) => json!({"op":rng.pick(&["addass","subass"]),"d":d1,"b":b+1}),
        6 if ka == "lin" && kb == "lin" && (ar, ac) != (br, bc) => json!({"op":rng.pick(&["linadd","linsub","linaddassign"]),"d":d1,"a":a+1,"b":b+1}),
        7 | 8 if ac != br => json!({"op":"mul","d":d1,"a":a+1,"b":b+1,"k":rng.pick(&["lin","dict","crow"])}),
        9 if full => {
            let row = rng.chance(1, 2);
            let (n, m) = if row { (c, r) } else { (r, c) };
            let n = if n > 1 && rng.chance(1, 2) { n - 1 } else { n + 1 };
            json!({"op": if row { "setrow" } else { "setcol" }, "d":d1, "i":rng.below(m)+1, "data":(0..n).map(|_| rng.int(1, 9)).collect::<Vec<_>>()})
        }
        10 if ka == "dict" => {
            let n = if ar > 1 && rng.chance(1, 2) { ar - 1 } else { ar + 1 };
            if ar == ac { json!({"op":"mask","d":d1,"a":a+1,"mask":vec![true; n]}) } else { json!({"op":"mask","d":d1,"a":a+1,"mask":vec![true; ar]}) }
        }
        11 if ka == "dict" && kb == "dict" && ac != br => json!({"op":"muldict","d":d1,"a":a+1,"b":b+1}),
        _ => return None,
    };
    let mut op = op;
    op["d"] = json!(d1);
    Some(json!({"op":"refuse","d":d1,"inner":op}))
}

fn step(g: &mut G, op: Value, ev: &mut Vec<Value>) -> bool {
    let mut e = op.as_object().unwrap().clone();
    let mut out = Map::new();
    let mut regs = g.regs.clone();
    let r = guard(|| apply(&op, &mut regs, &mut out));
    if let Err(m) = &r {
        if m.starts_with("harness") { panic!("{}", m) }
    }
    e.insert("ok".into(), json!(r.is_ok()));
    if let Err(m) = &r { e.insert("msg".into(), json!(m)); }
    for (k, v) in out { e.insert(k, v); }
    g.regs = regs;
    let d = us(&op, "d") - 1;
    if r.is_ok() && kind(&g.regs[d]) != "none" {
        e.insert("obs".into(), observe(&g.regs[d]));
    }
    ev.push(Value::Object(e));
    r.is_ok()
}

/// the largest number of rows and columns
static TOP: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(6);
fn top() -> i64 {
    TOP.load(std::sync::atomic::Ordering::Relaxed)
}

fn main() {
    let a = args();
    let big = a.mode.starts_with("big");
    if big { TOP.store(18, std::sync::atomic::Ordering::Relaxed) }
    let steps = if big { 10 } else if a.thorough { 24 } else { 16 };
    drive(&a, |k, rng, ev| {
        let mut g = G { regs: [Reg::Nil, Reg::Nil, Reg::Nil] };
        if a.mode == "scn" {
            for op in a.scn[k as usize].as_array().unwrap() {
                if !step(&mut g, op.clone(), ev) { break }
            }
            return;
        }
        let arith = a.mode == "arith" || a.mode == "bigarith";
        for i in 0..steps {
            let op = if i < 2 && k % 3 == 0 {
                // families that reach the rarer conversions: a square dictionary with a full diagonal
                let n = rng.int(2, top()) as usize;
                let mut v = rnd_vals(rng, n * n, 3);
                for i in 0..n { if v[i * n + i] == 0 { v[i * n + i] = 4 } }
                json!({"op":"new","d":i+1,"via":"flat","k":"dict","r":n,"c":n,"data":v})
            } else {
                choose(rng, &g, arith)
            };
            if !step(&mut g, op, ev) { break }
        }
    });
}
