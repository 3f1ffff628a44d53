//! Whole structures: supports, loads added step by step, displacements, stresses, vibrations.
use bugi::element::constraint::Constraint;
use bugi::element::element::Element;
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::element::stress::StressState;
use bugi::element::{Deformation, ElementAssemblage, ElementDescriptor, NodeDof, NodeId};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::spatial::Point;
use drivers::*;

fn p2(e: i32) -> f64 { 2.0f64.powi(e) }
fn dof(d: &NodeDof) -> (usize, usize) {
    let t = format!("{:?}", d);
    let n: Vec<usize> = t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    (n[n.len() - 2], n[n.len() - 1])
}
fn comps(s: &StressState, n: usize) -> Vec<f64> {
    let t = format!("{:?}", s);
    let a = t.rfind('[').unwrap();
    let b = t.rfind(']').unwrap();
    t[a + 1..b].split(',').take(n).map(|x| x.trim().parse().unwrap()).collect()
}

#[derive(Clone, Copy)]
struct Mat { c: &'static str, t: i64, e: i64, p: i64, q: i64, rho: i64 }
const STRESS: [(i64, i64, i64); 6] = [(60, 1, 4), (24, 1, 5), (8, 1, 3), (6, 0, 1), (6, -1, 2), (80, 3, 5)];
const STRAIN: [(i64, i64, i64); 6] = [(60, 1, 4), (8, 1, 3), (72, 1, 5), (6, 0, 1), (6, -1, 2), (14, 2, 5)];
fn matjson(m: &Mat) -> Value { json!({"c": m.c, "t": m.t, "e": m.e, "p": m.p, "q": m.q, "rho": m.rho}) }
const TRIPLES: [(i64, i64, i64); 8] = [(3, 4, 5), (4, 3, 5), (-3, 4, 5), (3, -4, 5), (-4, -3, 5), (5, 12, 13), (0, 1, 1), (-12, 5, 13)];

#[derive(Clone)]
struct Struct {
    m: Mat,
    nodes: Vec<(i64, i64)>,
    els: Vec<[usize; 3]>,
    cons: Vec<(&'static str, (i64, i64, i64))>,
}
/// exact powers of two, taken out of the results again
#[derive(Clone, Copy)]
struct Sc { e: f64, t: f64, x: f64, rho: f64, f: f64 }
const ONE: Sc = Sc { e: 1.0, t: 1.0, x: 1.0, rho: 1.0, f: 1.0 };

fn rand_mat(rng: &mut Rng, axi: bool) -> Mat {
    let c = if axi { "axi" } else { *rng.pick(&["stress", "strain"]) };
    let (e, p, q) = if c == "stress" { *rng.pick(&STRESS) } else { *rng.pick(&STRAIN) };
    Mat { c, t: if axi { 1 } else { rng.int(1, 3) }, e, p, q, rho: 24 }
}
fn rand_sc(rng: &mut Rng, axi: bool) -> Sc {
    if rng.chance(1, 2) { return ONE }
    Sc { e: p2(*rng.pick(&[0, 31, -12, -70])), t: if axi { 1.0 } else { p2(*rng.pick(&[0, -6, 3, -20])) }, x: p2(*rng.pick(&[0, -8, 5, -30, 25])), rho: p2(*rng.pick(&[0, 9, -4, -50])), f: p2(*rng.pick(&[0, 14, -3, -60])) }
}

fn a2(p: (i64, i64), q: (i64, i64), r: (i64, i64)) -> i64 { (q.0 - p.0) * (r.1 - p.1) - (r.0 - p.0) * (q.1 - p.1) }

/// a grid of jittered points, its cells cut along either diagonal, part of the triangles that hang together
fn mesh(rng: &mut Rng, w: usize, h: usize, whole: bool, axi: bool) -> (Vec<(i64, i64)>, Vec<[usize; 3]>) {
    loop {
        let step = *rng.pick(&[1, 2, 3, 3]);
        let off = if axi { (rng.int(1, 3), rng.int(-3, 3)) } else { *rng.pick(&[(0, 0), (-4, 2), (7, -9)]) };
        let jit = if step == 3 && rng.chance(2, 3) { 1 } else { 0 };
        let mut pts = Vec::new();
        for i in 0..=w { for j in 0..=h {
            let jx = if i == 0 && axi { 0 } else { rng.int(-jit, jit) };
            pts.push((off.0 + step * i as i64 + jx, off.1 + step * j as i64 + rng.int(-jit, jit)));
        } }
        let id = |i: usize, j: usize| i * (h + 1) + j;
        let mut tris = Vec::new();
        for i in 0..w { for j in 0..h {
            let (a, b, c, d) = (id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1));
            if rng.chance(1, 2) { tris.push([a, b, c]); tris.push([a, c, d]) } else { tris.push([a, b, d]); tris.push([b, c, d]) }
        } }
        if tris.iter().any(|t| a2(pts[t[0]], pts[t[1]], pts[t[2]]) <= 0) { continue }
        // grow a part of it
        let want = if whole { tris.len() } else { rng.below(tris.len()) + 1 };
        let mut part = vec![tris.swap_remove(rng.below(tris.len()))];
        while part.len() < want {
            let next: Vec<usize> = (0..tris.len()).filter(|i| part.iter().any(|p| tris[*i].iter().filter(|v| p.contains(v)).count() == 2)).collect();
            part.push(tris.swap_remove(next[rng.below(next.len())]));
        }
        return (pts, part);
    }
}
/// renumber the nodes, list elements and their corners in any order
fn scramble(rng: &mut Rng, s: &Struct) -> (Struct, Vec<usize>) {
    let p = rng.perm(s.nodes.len());
    let mut r = s.clone();
    for i in 0..p.len() { r.nodes[p[i]] = s.nodes[i]; r.cons[p[i]] = s.cons[i] }
    for e in r.els.iter_mut() {
        for v in e.iter_mut() { *v = p[*v] }
        rng.shuffle(e);
    }
    rng.shuffle(&mut r.els);
    (r, p)
}
/// the rows by which a support forbids rigid motions
fn supported(s: &Struct) -> bool {
    let mut rows: Vec<[i64; 3]> = Vec::new();
    for i in 0..s.nodes.len() {
        if !s.els.iter().any(|e| e.contains(&i)) { if s.cons[i].0 != "xy" { return false } continue }
        let (x, y) = s.nodes[i];
        let row = |a: i64, b: i64| [a, b, b * x - a * y];
        match s.cons[i].0 { "x" => rows.push(row(1, 0)), "y" => rows.push(row(0, 1)), "xy" => { rows.push(row(1, 0)); rows.push(row(0, 1)) } "angle" => rows.push(row(s.cons[i].1 .0, s.cons[i].1 .1)), _ => {} }
    }
    for a in 0..rows.len() { for b in 0..a { for c in 0..b {
        let (p, q, r) = (rows[a], rows[b], rows[c]);
        if p[0] * (q[1] * r[2] - q[2] * r[1]) - p[1] * (q[0] * r[2] - q[2] * r[0]) + p[2] * (q[0] * r[1] - q[1] * r[0]) != 0 { return true }
    } } }
    false
}
fn free_dofs(s: &Struct) -> usize {
    s.cons.iter().map(|c| match c.0 { "free" => 2, "xy" => 0, _ => 1 }).sum()
}
fn rand_cons(rng: &mut Rng, s: &mut Struct, heavy: bool) {
    loop {
        for i in 0..s.nodes.len() {
            let used = s.els.iter().any(|e| e.contains(&i));
            let k = if !used { "xy" } else if rng.chance(if heavy { 3 } else { 1 }, if heavy { 5 } else { 3 }) { *rng.pick(&["x", "y", "xy", "xy", "angle"]) } else { "free" };
            s.cons[i] = (k, *rng.pick(&TRIPLES));
        }
        if supported(s) { return }
    }
}

struct Built { elas: ElementAssemblage, ids: Vec<NodeId> }
fn build(rng: &mut Rng, ev: &mut Vec<Value>, s: &Struct, sc: &Sc) -> Option<Built> {
    let m = s.m;
    let axi = m.c == "axi";
    let material = Material { name: "V", youngs: m.e as f64 * sc.e, poisson: m.p as f64 / m.q as f64, density: m.rho as f64 * sc.rho };
    let th = m.t as f64 * sc.t;
    let cond = match m.c { "stress" => Condition::PlaneStress(th), "strain" => Condition::PlaneStrain(th), _ => Condition::Axisymmetric };
    let mut order: Vec<usize> = (0..s.nodes.len()).collect();
    rng.shuffle(&mut order);
    let two = rng.chance(1, 2);
    let r = guard(|| {
        let mut elas = ElementAssemblage::new(material, cond);
        let pts: Vec<(f64, f64)> = s.nodes.iter().map(|p| (p.0 as f64 * sc.x, p.1 as f64 * sc.x)).collect();
        let cut = if two { pts.len() / 2 } else { 0 };
        let mut ids = elas.add_nodes(&pts[..cut]);
        ids.extend(elas.add_nodes(&pts[cut..]));
        let con = |k: &str, t: (i64, i64, i64)| match k {
            "free" => Constraint::Free, "x" => Constraint::XFixed, "y" => Constraint::YFixed, "xy" => Constraint::XYFixed,
            _ => Constraint::AngleFixed((t.1 as f64).atan2(t.0 as f64)) };
        if two { for e in &s.els { elas.add_element(ElementDescriptor::new([ids[e[0]], ids[e[1]], ids[e[2]]])) } }
        for i in order {
            if s.cons[i].0 == "xy" && two { elas.add_constraint(ids[i], Constraint::YFixed); elas.add_constraint(ids[i], Constraint::XFixed) }
            else { elas.add_constraint(ids[i], con(s.cons[i].0, s.cons[i].1)) }
        }
        if !two { for e in &s.els { elas.add_element(ElementDescriptor::new([ids[e[0]], ids[e[1]], ids[e[2]]])) } }
        let (mut ks, mut ms) = (Vec::new(), Vec::new());
        if axi {
            for e in &s.els {
                let el = Element::new(&elas, [ids[e[0]], ids[e[1]], ids[e[2]]]);
                let loc = |d: &NodeDof| { let (n, k) = dof(d); 2 * e.iter().position(|i| *i == n).unwrap() + k };
                let gather = |v: Vec<(NodeDof, NodeDof, f64)>, by: f64| {
                    let mut o = vec![vec![0.0; 6]; 6];
                    for (a, b, x) in v { o[loc(&a)][loc(&b)] += x * by }
                    o
                };
                ks.push(gather(el.calc_k(), 1.0 / (sc.e * sc.x)));
                ms.push(gather(el.calc_m(), 1.0 / (sc.rho * sc.x * sc.x * sc.x)));
            }
        }
        (elas, ids, ks, ms)
    });
    let cons: Vec<Value> = s.cons.iter().map(|c| json!({"k": c.0, "t": [c.1 .0, c.1 .1, c.1 .2]})).collect();
    let nodes: Vec<[i64; 2]> = s.nodes.iter().map(|p| [p.0, p.1]).collect();
    match r {
        Ok((elas, ids, ks, ms)) => {
            let log = |v: &Vec<Vec<Vec<f64>>>| {
                let sc = pow10(v.iter().flatten().flatten().fold(0.0f64, |a, x| a.max(x.abs())), 4.0e4, 4);
                (v.iter().map(|m| m.iter().map(|r| r.iter().map(|x| q(*x, sc)).collect()).collect()).collect::<Vec<Vec<Vec<i64>>>>(), sc as i64)
            };
            let ((ks, ksc), (ms, msc)) = (log(&ks), log(&ms));
            ev.push(json!({"op": "model", "res": "ok", "nodes": nodes, "els": s.els, "m": matjson(&m), "cons": cons, "k": ks, "mm": ms, "ksc": ksc, "msc": msc})); Some(Built { elas, ids }) }
        Err(e) => { ev.push(json!({"op": "model", "res": "panic", "msg": e, "nodes": nodes, "els": s.els, "m": matjson(&m), "cons": cons})); None }
    }
}
fn force(ev: &mut Vec<Value>, b: &mut Built, sc: &Sc, n: usize, f: (i64, i64)) {
    let p = Point::new(&[f.0 as f64 * sc.f, f.1 as f64 * sc.f]);
    let r = guard(|| b.elas.add_conc_force(b.ids[n], p));
    ev.push(json!({"op": "force", "n": n, "f": [f.0, f.1], "res": if r.is_ok() { "ok" } else { "panic" }}));
}
fn edge_force(ev: &mut Vec<Value>, b: &mut Built, sc: &Sc, x: usize, y: usize, f: (i64, i64)) {
    let p = Point::new(&[f.0 as f64 * sc.f / sc.x, f.1 as f64 * sc.f / sc.x]);
    let r = guard(|| b.elas.add_dist_line_force(b.ids[x], b.ids[y], p));
    ev.push(json!({"op": "edgeforce", "a": x, "b": y, "f": [f.0, f.1], "res": if r.is_ok() { "ok" } else { "panic" }}));
}
/// the displacements as exactly as the public interface shows them
fn disp(d: &Deformation, b: &Built, unit: f64) -> Vec<[f64; 2]> {
    let big = p2(40 - unit.log2().round() as i32);
    d.displaced_nodes(big).iter().zip(b.elas.nodes()).map(|(p, n)| {
        let far = [p[0] / big - n[0] / big, p[1] / big - n[1] / big];
        far
    }).collect()
}
fn pow10(v: f64, cap: f64, top: i32) -> f64 {
    let mut k = top;
    while k > 0 && v * 10f64.powi(k) > cap { k -= 1 }
    10f64.powi(k)
}
fn solve(rng: &mut Rng, ev: &mut Vec<Value>, s: &Struct, b: &mut Built, sc: &Sc, via: &str, more: bool) {
    let axi = s.m.c == "axi";
    let unit = sc.f / (sc.e * if axi { sc.x } else { sc.t });
    let stress_unit = sc.e * unit / sc.x;
    // Deformation borrows the assemblage
    let bb = std::mem::replace(&mut b.elas, ElementAssemblage::new(Material { name: "V", youngs: 1.0, poisson: 0.0, density: 1.0 }, Condition::Axisymmetric));
    let mut hold = Built { elas: bb, ids: b.ids.clone() };
    let res = {
        let other = &mut hold.elas as *mut ElementAssemblage;
        let elas: &mut ElementAssemblage = unsafe { &mut *other };
        guard(|| match via { "dense" => elas.calc_displacements::<DenseGaussSolver>(), _ => elas.calc_displacements::<CholeskyEnvelopeSolver>() })
    };
    match res {
        Err(e) => ev.push(json!({"op": "solve", "via": via, "res": "panic", "msg": e, "u": [], "sc": 1, "zero": []})),
        Ok(d) => {
            let u: Vec<[f64; 2]> = disp(&d, &hold, unit).iter().map(|x| [x[0] / unit, x[1] / unit]).collect();
            let top = u.iter().fold(0.0f64, |a, x| a.max(x[0].abs()).max(x[1].abs()));
            let k = pow10(top, if axi { 1.0e3 } else { 2.0e4 }, 6);
            let zero: Vec<bool> = u.iter().flat_map(|x| [x[0] == 0.0, x[1] == 0.0]).collect();
            ev.push(json!({"op": "solve", "via": via, "res": "ok", "sc": k as i64, "zero": zero,
                "u": u.iter().map(|x| [ql(x[0], k, 3.0e4), ql(x[1], k, 3.0e4)]).collect::<Vec<_>>()}));
            if more && top < 3.0e4 && top * k < 3.0e4 {
                let by = rng.int(-3, 3);
                // scaled so that the magnified displacements are read in the same units
                let r = guard(|| (d.displacement_norms(), d.displaced_nodes(by as f64 * sc.x / unit)));
                ev.push(match r {
                    Ok((n, p)) => json!({"op": "shape", "res": "ok", "by": by, "norms": n.iter().map(|x| q(x / unit, k)).collect::<Vec<_>>(),
                        "moved": p.iter().map(|x| [q(x[0] / sc.x, k), q(x[1] / sc.x, k)]).collect::<Vec<_>>()}),
                    Err(e) => json!({"op": "shape", "res": "panic", "msg": e}),
                });
                let nc = if axi { 4 } else { 3 };
                let r = guard(|| d.stresses().iter().map(|x| x.as_ref().map(|x| {
                    if axi { comps(x, nc) } else { let c = x.to_cauchy(); if c[(0, 1)] != c[(1, 0)] { vec![f64::NAN; 3] } else { vec![c[(0, 0)], c[(1, 1)], c[(0, 1)]] } }
                }).unwrap_or(vec![])).collect::<Vec<_>>());
                match r {
                    Err(e) => ev.push(json!({"op": "stress", "res": "panic", "msg": e, "div": 1, "out": []})),
                    Ok(v) => {
                        let top = v.iter().flatten().fold(0.0f64, |a, x| a.max((x / stress_unit).abs()));
                        let mut div = 1.0;
                        while top * k / div > 9000.0 { div *= 10.0 }
                        ev.push(json!({"op": "stress", "res": "ok", "div": div as i64,
                            "out": v.iter().map(|s| s.iter().map(|x| q(x / stress_unit, k / div)).collect::<Vec<_>>()).collect::<Vec<_>>()}));
                        let r = guard(|| d.von_mises());
                        ev.push(match r {
                            Ok(v) => json!({"op": "mises", "res": "ok", "out": v.iter().map(|x| q(x / stress_unit, k / div)).collect::<Vec<_>>()}),
                            Err(e) => json!({"op": "mises", "res": "panic", "msg": e, "out": []}),
                        });
                    }
                }
            }
            drop(d);
        }
    }
    b.elas = hold.elas;
}
fn modes(ev: &mut Vec<Value>, s: &Struct, b: &mut Built, sc: &Sc, n: usize) {
    let axi = s.m.c == "axi";
    let lam = sc.e / (sc.rho * sc.x * sc.x);
    let mass = sc.rho * sc.x * sc.x * if axi { sc.x } else { sc.t };
    let bb = std::mem::replace(&mut b.elas, ElementAssemblage::new(Material { name: "V", youngs: 1.0, poisson: 0.0, density: 1.0 }, Condition::Axisymmetric));
    let mut hold = Built { elas: bb, ids: b.ids.clone() };
    let r = {
        let other = &mut hold.elas as *mut ElementAssemblage;
        let elas: &mut ElementAssemblage = unsafe { &mut *other };
        guard(|| elas.calc_modes(n))
    };
    match r {
        Err(e) => ev.push(json!({"op": "modes", "n": n, "res": "panic", "msg": e, "out": []})),
        Ok(v) => {
            let out: Vec<Value> = v.iter().map(|d| {
                let w = d.frequency().unwrap_or(f64::NAN);
                let t = w * w / lam;
                let (hi, lo) = if t.is_finite() && t >= 0.0 && t < 1.0e5 { let k = (t * 1.0e4).round(); ((k / 1.0e4).floor() as i64, (k % 1.0e4) as i64) } else { (BAD, 0) };
                let u = disp(d, &hold, 1.0 / mass.sqrt());
                let zero: Vec<bool> = u.iter().flat_map(|x| [x[0] == 0.0, x[1] == 0.0]).collect();
                json!({"w": [hi, lo], "zero": zero, "v": u.iter().map(|x| [ql(x[0] * mass.sqrt(), 1.0e4, 1.0e5), ql(x[1] * mass.sqrt(), 1.0e4, 1.0e5)]).collect::<Vec<_>>()})
            }).collect();
            drop(v);
            ev.push(json!({"op": "modes", "n": n, "res": "ok", "out": out}));
        }
    }
    b.elas = hold.elas;
}

/// the edges of the elements, with their number
fn edges(s: &Struct) -> Vec<(usize, usize, usize)> {
    let mut m = std::collections::BTreeMap::new();
    for e in &s.els { for k in 0..3 { let (a, b) = (e[k], e[(k + 1) % 3]); *m.entry((a.min(b), a.max(b))).or_insert(0) += 1 } }
    m.into_iter().map(|((a, b), n)| (a, b, n)).collect()
}
fn some_loads(rng: &mut Rng, ev: &mut Vec<Value>, s: &Struct, b: &mut Built, sc: &Sc) {
    let es = edges(s);
    for _ in 0..rng.below(4) + 1 {
        let f = (rng.int(-9, 9), rng.int(-9, 9));
        if s.m.c == "axi" || rng.chance(1, 2) {
            let used: Vec<usize> = s.els.iter().flatten().copied().collect();
            force(ev, b, sc, used[rng.below(used.len())], f)
        } else {
            let (x, y, _) = es[rng.below(es.len())];
            let (x, y) = if rng.chance(1, 2) { (x, y) } else { (y, x) };
            edge_force(ev, b, sc, x, y, f)
        }
    }
}
fn fresh(rng: &mut Rng, w: usize, h: usize, axi: bool) -> Struct {
    // long thin remainders of large meshes would be too soft for the scales of the log
    let whole = rng.chance(1, 2) || w * h > 6;
    let (nodes, els) = mesh(rng, w, h, whole, axi);
    let n = nodes.len();
    let s = Struct { m: rand_mat(rng, axi), nodes, els, cons: vec![("free", (0, 1, 1)); n] };
    scramble(rng, &s).0
}
/// larger structures: up to 42 nodes and 60 elements
const LARGE: [(usize, usize); 6] = [(4, 3), (3, 5), (4, 4), (5, 4), (6, 4), (6, 5)];
/// triangles around one node, up to sixteen of them: a closed wheel or a part of one
fn fan(rng: &mut Rng) -> Struct {
    const RING: [(i64, i64); 16] = [(2, 0), (2, 1), (2, 2), (1, 2), (0, 2), (-1, 2), (-2, 2), (-2, 1), (-2, 0), (-2, -1), (-2, -2), (-1, -2), (0, -2), (1, -2), (2, -2), (2, -1)];
    let k = rng.int(1, 3);
    let off = (rng.int(-5, 5), rng.int(-5, 5));
    let at = |p: (i64, i64)| (off.0 + k * p.0, off.1 + k * p.1);
    let drop = if rng.chance(1, 2) { 0 } else { rng.below(5) };
    let start = rng.below(16);
    // without two neighbours of the ring missing, all triangles are positive
    let mut ring = Vec::new();
    let mut gone = true;
    for i in 0..16 {
        if !gone && ring.len() > 1 && rng.chance(drop as u64, 12) { gone = true; continue }
        gone = false;
        ring.push(RING[(start + i) % 16]);
    }
    let mut nodes = vec![at((0, 0))];
    nodes.extend(ring.iter().map(|p| at(*p)));
    let n = ring.len();
    let mut els: Vec<[usize; 3]> = (0..n).map(|i| [0, 1 + i, 1 + (i + 1) % n]).collect();
    if rng.chance(1, 3) { let j = rng.below(els.len()); els.remove(j); }
    let m = rand_mat(rng, false);
    let c = nodes.len();
    scramble(rng, &Struct { m, nodes, els, cons: vec![("free", (0, 1, 1)); c] }).0
}
fn con_name(k: &str) -> &'static str { match k { "x" => "x", "y" => "y", "xy" => "xy", "angle" => "angle", _ => "free" } }

fn main() {
    let a = args();
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        // a structure loaded in portions, solved in between, then a relabelled twin of it
        "static" | "bigstatic" => {
            let axi = rng.chance(1, 4);
            let (w, h) = if a.mode == "bigstatic" { *rng.pick(&LARGE) } else { *rng.pick(&[(1, 1), (2, 1), (2, 2), (1, 3), (3, 2)]) };
            let wheel = !axi && rng.chance(1, if a.mode == "bigstatic" { 2 } else { 8 });
            let mut s = if wheel { fan(rng) } else { fresh(rng, w, h, axi) };
            let heavy = rng.chance(1, 4);
            rand_cons(rng, &mut s, heavy);
            let sc = rand_sc(rng, axi);
            let Some(mut b) = build(rng, ev, &s, &sc) else { return };
            let before = ev.len();
            some_loads(rng, ev, &s, &mut b, &sc);
            let via = *rng.pick(&["dense", "cholesky"]);
            solve(rng, ev, &s, &mut b, &sc, via, true);
            if rng.chance(1, 2) {
                some_loads(rng, ev, &s, &mut b, &sc);
            }
            solve(rng, ev, &s, &mut b, &sc, if via == "dense" { "cholesky" } else { "dense" }, false);
            let loads: Vec<Value> = ev[before..].iter().filter(|e| e["op"] == "force" || e["op"] == "edgeforce").cloned().collect();
            let (t, p) = scramble(rng, &s);
            let sc2 = if rng.chance(1, 2) { sc } else { rand_sc(rng, axi) };
            let Some(mut b2) = build(rng, ev, &t, &sc2) else { return };
            let mut order: Vec<usize> = (0..loads.len()).collect();
            rng.shuffle(&mut order);
            for i in order {
                let e = &loads[i];
                let f = (e["f"][0].as_i64().unwrap(), e["f"][1].as_i64().unwrap());
                let at = |k: &str| p[e[k].as_u64().unwrap() as usize];
                if e["op"] == "force" { force(ev, &mut b2, &sc2, at("n"), f) } else { edge_force(ev, &mut b2, &sc2, at("b"), at("a"), f) }
            }
            solve(rng, ev, &t, &mut b2, &sc2, via, true);
        }
        // a structure that grows: solved, then given more supports, nodes, elements and loads, and solved again
        "evolve" => {
            let (w, h) = *rng.pick(&[(1, 1), (2, 1), (2, 2)]);
            let whole = fresh(rng, w, h, false);
            let used: Vec<usize> = (0..whole.nodes.len()).filter(|i| whole.els.iter().any(|e| e.contains(i))).collect();
            // elements in an order in which each hangs on the earlier ones; nodes appear with their first element
            let mut els = whole.els.clone();
            let mut order = vec![els.swap_remove(rng.below(els.len()))];
            while !els.is_empty() {
                let next: Vec<usize> = (0..els.len()).filter(|i| order.iter().any(|p| els[*i].iter().filter(|v| p.contains(v)).count() == 2)).collect();
                order.push(els.swap_remove(next[rng.below(next.len())]));
            }
            let mut map: Vec<usize> = Vec::new();
            let start = rng.below(order.len().min(3)) + 1;
            for e in &order[..start] { for v in e { if !map.contains(v) { map.push(*v) } } }
            if rng.chance(1, 3) { for v in &used { if !map.contains(v) { map.push(*v) } } }
            rng.shuffle(&mut map);
            let at = |map: &Vec<usize>, v: usize| map.iter().position(|x| *x == v).unwrap();
            let mut s = Struct { m: whole.m, nodes: map.iter().map(|v| whole.nodes[*v]).collect(), els: order[..start].iter().map(|e| [at(&map, e[0]), at(&map, e[1]), at(&map, e[2])]).collect(), cons: vec![("free", (0, 1, 1)); map.len()] };
            rand_cons(rng, &mut s, false);
            let sc = rand_sc(rng, false);
            let Some(mut b) = build(rng, ev, &s, &sc) else { return };
            some_loads(rng, ev, &s, &mut b, &sc);
            let via = |rng: &mut Rng| *rng.pick(&["dense", "cholesky"]);
            let v = via(rng);
            solve(rng, ev, &s, &mut b, &sc, v, false);
            let mut left: Vec<[usize; 3]> = order[start..].to_vec();
            for _ in 0..rng.below(4) + 2 {
                let what = rng.below(5);
                if what == 0 && !left.is_empty() {
                    let e = left.remove(0);
                    for v in e { if !map.contains(&v) {
                        map.push(v);
                        s.nodes.push(whole.nodes[v]);
                        s.cons.push(("free", (0, 1, 1)));
                        let p = whole.nodes[v];
                        let id = guard(|| b.elas.add_nodes(&[(p.0 as f64 * sc.x, p.1 as f64 * sc.x)])[0]);
                        ev.push(json!({"op": "node", "p": [p.0, p.1], "res": if id.is_ok() { "ok" } else { "panic" }}));
                        match id { Ok(i) => b.ids.push(i), Err(_) => return }
                    } }
                    let e = [at(&map, e[0]), at(&map, e[1]), at(&map, e[2])];
                    s.els.push(e);
                    let r = guard(|| b.elas.add_element(ElementDescriptor::new([b.ids[e[0]], b.ids[e[1]], b.ids[e[2]]])));
                    ev.push(json!({"op": "element", "e": e, "res": if r.is_ok() { "ok" } else { "panic" }}));
                    if r.is_err() { return }
                } else if what <= 2 {
                    // often in place of an angle, so that as many directions stay free
                    let angled: Vec<usize> = (0..s.cons.len()).filter(|i| s.cons[*i].0 == "angle").collect();
                    let n = if !angled.is_empty() && rng.chance(2, 3) { angled[rng.below(angled.len())] } else { rng.below(s.cons.len()) };
                    let k = *rng.pick(&["free", "x", "y", "x", "y", "xy", "angle"]);
                    let t = if s.cons[n].0 == "angle" { s.cons[n].1 } else { *rng.pick(&TRIPLES) };
                    let con = match k { "free" => Constraint::Free, "x" => Constraint::XFixed, "y" => Constraint::YFixed, "xy" => Constraint::XYFixed, _ => Constraint::AngleFixed((t.1 as f64).atan2(t.0 as f64)) };
                    let r = guard(|| b.elas.add_constraint(b.ids[n], con));
                    ev.push(json!({"op": "support", "n": n, "con": {"k": k, "t": [t.0, t.1, t.2]}, "res": if r.is_ok() { "ok" } else { "panic" }}));
                    if r.is_err() { return }
                    // only used to aim at angles
                    s.cons[n] = match (s.cons[n].0, k) { (o, "free") => (o, s.cons[n].1), ("free", _) | ("angle", _) => (k, t), (o, "angle") => (o, s.cons[n].1), (o, _) if o == k => (k, t), _ => ("xy", t) };
                    if rng.chance(1, 3) { some_loads(rng, ev, &s, &mut b, &sc) }
                } else { some_loads(rng, ev, &s, &mut b, &sc) }
                if rng.chance(1, 6) && free_dofs(&s) >= 1 && free_dofs(&s) <= 6 && s.nodes.len() < 7 && supported(&s) {
                    let f = free_dofs(&s);
                    modes(ev, &s, &mut b, &sc, f);
                }
                let v = via(rng);
                let more = rng.chance(1, 3);
                if supported(&s) { solve(rng, ev, &s, &mut b, &sc, v, more) }
            }
        }
        // the load vector, read off node by node: all other nodes are held
        "probe" => {
            let (w, h) = *rng.pick(&[(1, 1), (2, 1), (2, 2), (1, 2)]);
            let s = fresh(rng, w, h, false);
            let es = edges(&s);
            let mut loads = Vec::new();
            for _ in 0..rng.below(4) + 1 {
                let f = (rng.int(-9, 9), rng.int(-9, 9));
                let (x, y, _) = es[rng.below(es.len())];
                match rng.below(5) { 0 => loads.push((true, x, x, f)), 1 | 2 => loads.push((false, x, y, f)), _ => loads.push((false, y, x, f)) }
            }
            if rng.chance(1, 2) { let k = loads[rng.below(loads.len())]; loads.push((k.0, k.2, k.1, (rng.int(-9, 9), rng.int(-9, 9)))) }
            if rng.chance(1, 2) { let k = loads[rng.below(loads.len())]; loads.push(k) }
            let sc = rand_sc(rng, false);
            let used: Vec<usize> = (0..s.nodes.len()).filter(|i| s.els.iter().any(|e| e.contains(i))).collect();
            for n in used {
                let mut t = s.clone();
                for i in 0..t.cons.len() { t.cons[i] = (if i == n { "free" } else { "xy" }, (0, 1, 1)) }
                let Some(mut b) = build(rng, ev, &t, &sc) else { return };
                for (c, x, y, f) in loads.iter() { if *c { force(ev, &mut b, &sc, *x, *f) } else { edge_force(ev, &mut b, &sc, *x, *y, *f) } }
                solve(rng, ev, &t, &mut b, &sc, "cholesky", false);
                rng.shuffle(&mut loads);
            }
        }
        // constant stress: the tractions of it on the whole boundary, supports that do not matter
        "patch" | "bigpatch" => {
            let (w, h) = if a.mode == "bigpatch" { *rng.pick(&LARGE) } else { *rng.pick(&[(1, 1), (2, 1), (2, 2), (3, 2)]) };
            let mut s = fresh(rng, w, h, false);
            let used: Vec<usize> = (0..s.nodes.len()).filter(|i| s.els.iter().any(|e| e.contains(i))).collect();
            loop {
                for i in 0..s.nodes.len() { s.cons[i] = (if used.contains(&i) { "free" } else { "xy" }, *rng.pick(&TRIPLES)) }
                let p = used[rng.below(used.len())];
                let r = used[rng.below(used.len())];
                if p == r { continue }
                s.cons[p].0 = "xy";
                s.cons[r].0 = *rng.pick(&["x", "y", "angle"]);
                if supported(&s) { break }
            }
            let sc = rand_sc(rng, false);
            let Some(mut b) = build(rng, ev, &s, &sc) else { return };
            let st = [rng.int(-9, 9), rng.int(-9, 9), rng.int(-9, 9)];
            // the forces of thickness times stress on each edge of one element; inner edges cancel
            let mut list = Vec::new();
            for e in &s.els {
                let pos = a2(s.nodes[e[0]], s.nodes[e[1]], s.nodes[e[2]]) > 0;
                for k in 0..3 {
                    let (x, y) = if pos { (e[k], e[(k + 1) % 3]) } else { (e[(k + 1) % 3], e[k]) };
                    let (dx, dy) = (s.nodes[y].0 - s.nodes[x].0, s.nodes[y].1 - s.nodes[x].1);
                    // normal times length: (dy, -dx)
                    let f = (s.m.t * (st[0] * dy - st[2] * dx), s.m.t * (st[2] * dy - st[1] * dx));
                    let shared = s.els.iter().filter(|g| g.contains(&x) && g.contains(&y)).count() > 1;
                    if shared { continue }
                    list.push((x, y, f, ((dx * dx + dy * dy) as f64).sqrt()));
                }
            }
            rng.shuffle(&mut list);
            for (x, y, f, len) in list {
                let (x, y) = if rng.chance(1, 2) { (x, y) } else { (y, x) };
                let p = Point::new(&[f.0 as f64 * sc.f / (sc.x * len), f.1 as f64 * sc.f / (sc.x * len)]);
                let r = guard(|| b.elas.add_dist_line_force(b.ids[x], b.ids[y], p));
                ev.push(json!({"op": "edgetotal", "a": x, "b": y, "f": [f.0, f.1], "res": if r.is_ok() { "ok" } else { "panic" }}));
            }
            let via = *rng.pick(&["dense", "cholesky"]);
            solve(rng, ev, &s, &mut b, &sc, via, true);
            ev.push(json!({"op": "patch", "s": st}));
        }
        // the lowest of many vibrations, then more of them, then those of a relabelled twin
        "bigmodes" => {
            let axi = rng.chance(1, 4);
            let (w, h) = *rng.pick(&LARGE);
            let mut s = fresh(rng, w, h, axi);
            let heavy = rng.chance(1, 2);
            rand_cons(rng, &mut s, heavy);
            let sc = rand_sc(rng, axi);
            let f = free_dofs(&s);
            let Some(mut b) = build(rng, ev, &s, &sc) else { return };
            let n = rng.below(3) + 1;
            modes(ev, &s, &mut b, &sc, n.min(f));
            let n = n + rng.below(6);
            modes(ev, &s, &mut b, &sc, n.min(f));
        }
        "modes" => {
            let axi = rng.chance(1, 4);
            let (w, h) = *rng.pick(&[(1, 1), (2, 1), (1, 1), (2, 2)]);
            let mut s = fresh(rng, w, h, axi);
            let lim = if a.thorough { 9 } else { 7 };
            let mut tries = 0;
            loop {
                rand_cons(rng, &mut s, true);
                let f = free_dofs(&s);
                if f >= 1 && f <= lim { break }
                tries += 1;
                if tries > 200 { s = fresh(rng, 1, 1, axi); tries = 0 }
            }
            let sc = rand_sc(rng, axi);
            let f = free_dofs(&s);
            let Some(mut b) = build(rng, ev, &s, &sc) else { return };
            modes(ev, &s, &mut b, &sc, f);
            let n = rng.below(f) + 1;
            modes(ev, &s, &mut b, &sc, n);
            let (t, _) = scramble(rng, &s);
            let sc2 = rand_sc(rng, axi);
            let Some(mut b2) = build(rng, ev, &t, &sc2) else { return };
            modes(ev, &t, &mut b2, &sc2, f);
        }
        // two triangles on the unit square, supports as enumerated by the model
        "supportscn" => {
            let o = &a.scn[c as usize];
            let tr: Vec<i64> = serde_json::from_value(o["t"].clone()).unwrap();
            let mut s = Struct { m: Mat { c: "stress", t: 1, e: 6, p: 0, q: 1, rho: 24 }, nodes: vec![(0, 0), (1, 0), (1, 1), (0, 1)], els: vec![[0, 1, 2], [3, 2, 0]], cons: Vec::new() };
            for k in o["cons"].as_array().unwrap() { s.cons.push((con_name(k.as_str().unwrap()), (tr[0], tr[1], tr[2]))) }
            let Some(mut b) = build(rng, ev, &s, &ONE) else { return };
            for n in 0..4 { force(ev, &mut b, &ONE, n, (rng.int(-9, 9), rng.int(-9, 9))) }
            if !supported(&s) || free_dofs(&s) == 0 { return }
            solve(rng, ev, &s, &mut b, &ONE, "dense", true);
            solve(rng, ev, &s, &mut b, &ONE, "cholesky", true);
            modes(ev, &s, &mut b, &ONE, free_dofs(&s));
        }
        // the same square under every history of loads, each node's share read off
        "loadscn" => {
            let o = &a.scn[c as usize];
            let els: Vec<[usize; 3]> = serde_json::from_value(o["els"].clone()).unwrap();
            for n in 0..4 {
                let mut s = Struct { m: Mat { c: "stress", t: 1, e: 6, p: 0, q: 1, rho: 24 }, nodes: vec![(0, 0), (3, 0), (3, 4), (0, 4)], els: els.clone(), cons: Vec::new() };
                for i in 0..4 { s.cons.push((if i == n { "free" } else { "xy" }, (0, 1, 1))) }
                let Some(mut b) = build(rng, ev, &s, &ONE) else { return };
                for e in o["h"].as_array().unwrap() {
                    let g = |i: usize| e[i].as_i64().unwrap();
                    if g(0) == g(1) { force(ev, &mut b, &ONE, g(0) as usize, (g(2), g(3))) } else { edge_force(ev, &mut b, &ONE, g(0) as usize, g(1) as usize, (g(2), g(3))) }
                }
                solve(rng, ev, &s, &mut b, &ONE, "cholesky", false);
            }
        }
        m => panic!("mode {}", m),
    });
}
