//! One triangle: stiffness, mass, edge loads, stresses; stress states; quadrature rules.
use bugi::element::element::Element;
use bugi::element::integrate::{gauss_segment_mat, gauss_tri};
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::element::stress::StressState;
use bugi::element::{ElementAssemblage, ElementDescriptor, NodeDof, NodeId};
use bugi::matrix::{LinearMatrix, MatrixLike};
use bugi::spatial::Point;
use drivers::*;

fn p2(e: i32) -> f64 { 2.0f64.powi(e) }

/// the node and the direction, as the derived Debug shows them: "NodeDof(NodeId(3), 1)"
fn dof(d: &NodeDof) -> (usize, usize) {
    let t = format!("{:?}", d);
    let n: Vec<usize> = t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    (n[n.len() - 2], n[n.len() - 1])
}
fn comps(s: &StressState, n: usize) -> Vec<f64> {
    let t = format!("{:?}", s);
    let a = t.rfind('[').unwrap();
    let b = t.rfind(']').unwrap();
    t[a + 1..b].split(',').take(n).map(|x| x.trim().parse().unwrap()).collect()
}

#[derive(Clone, Copy)]
struct Mat { c: &'static str, t: i64, e: i64, p: i64, q: i64, rho: i64 }
const STRESS: [(i64, i64, i64); 7] = [(60, 1, 4), (24, 1, 5), (8, 1, 3), (6, 0, 1), (6, -1, 2), (80, 3, 5), (120, 1, 4)];
const STRAIN: [(i64, i64, i64); 7] = [(60, 1, 4), (8, 1, 3), (72, 1, 5), (6, 0, 1), (6, -1, 2), (14, 2, 5), (120, 1, 4)];
fn matjson(m: &Mat) -> Value { json!({"c": m.c, "t": m.t, "e": m.e, "p": m.p, "q": m.q, "rho": m.rho}) }

fn rand_mat(rng: &mut Rng) -> Mat {
    let c = *rng.pick(&["stress", "strain", "axi", "stress", "strain"]);
    let (e, p, q) = if c == "stress" { *rng.pick(&STRESS) } else { *rng.pick(&STRAIN) };
    Mat { c, t: if c == "axi" { 1 } else { rng.int(1, 4) }, e, p, q, rho: *rng.pick(&[1, 5, 24, 48]) }
}

struct Sc { e: f64, t: f64, x: f64, rho: f64 }

fn triangle(rng: &mut Rng, ev: &mut Vec<Value>, m: Mat, t: [(i64, i64); 3]) {
    let axi = m.c == "axi";
    // exact powers of two, taken out of the results again
    let s = if rng.chance(1, 2) { Sc { e: 1.0, t: 1.0, x: 1.0, rho: 1.0 } } else {
        Sc { e: p2(*rng.pick(&[0, 30, -20, -60])), t: if axi { 1.0 } else { p2(*rng.pick(&[0, -7, 4])) }, x: p2(*rng.pick(&[0, -10, 9, -27, 30])), rho: p2(*rng.pick(&[0, 11, -5, -60, 50])) }
    };
    let material = Material { name: "V", youngs: m.e as f64 * s.e, poisson: m.p as f64 / m.q as f64, density: m.rho as f64 * s.rho };
    let th = m.t as f64 * s.t;
    let cond = match m.c { "stress" => Condition::PlaneStress(th), "strain" => Condition::PlaneStrain(th), _ => Condition::Axisymmetric };
    let mut elas = ElementAssemblage::new(material, cond);
    // unused nodes around, so that ids are not 0, 1, 2
    let total = 3 + rng.below(5);
    let place = rng.perm(total);
    let mut at = vec![(0.5, 0.25); total];
    for i in 0..3 { at[place[i]] = (t[i].0 as f64 * s.x, t[i].1 as f64 * s.x) }
    let ids = elas.add_nodes(&at);
    let ids3 = [place[0], place[1], place[2]];
    ev.push(json!({"op": "tri", "t": t.iter().map(|p| [p.0, p.1]).collect::<Vec<_>>(), "m": matjson(&m), "ids": ids3}));

    let r = guard(|| { let c = cond.build_c(material); let n = c.shape().0; (0..n).map(|i| (0..n).map(|j| q(c[(i, j)] / s.e, 10000.0)).collect::<Vec<_>>()).collect::<Vec<_>>() });
    ev.push(match r { Ok(o) => json!({"op": "cmat", "res": "ok", "out": o}), Err(e) => json!({"op": "cmat", "res": "panic", "out": [], "msg": e}) });

    let el = match guard(|| {
        if rng.clone().chance(1, 2) {
            elas.add_element(ElementDescriptor::new([ids[ids3[0]], ids[ids3[1]], ids[ids3[2]]]));
        }
        Element::new(&elas, [ids[ids3[0]], ids[ids3[1]], ids[ids3[2]]])
    }) { Ok(e) => e, Err(e) => { ev.push(json!({"op": "panic", "msg": e})); return } };
    let small = t.iter().all(|a| t.iter().all(|b| (a.0 - b.0).abs() <= 4 && (a.1 - b.1).abs() <= 4));
    let sc = if axi { 100.0 } else if small { 10000.0 } else { 1000.0 };
    let loc = |d: &NodeDof| { let (n, k) = dof(d); 2 * ids3.iter().position(|i| *i == n).unwrap() + k };
    let gather = |v: Vec<(NodeDof, NodeDof, f64)>, by: f64| {
        let mut o = vec![vec![0.0; 6]; 6];
        for (a, b, x) in v { o[loc(&a)][loc(&b)] += x / by }
        o.into_iter().map(|r| r.into_iter().map(|x| q(x, sc)).collect::<Vec<_>>()).collect::<Vec<_>>()
    };
    // the plane stiffness does not depend on size; an axisymmetric one grows with the radius
    let r = guard(|| gather(el.calc_k(), s.e * s.t * if axi { s.x } else { 1.0 }));
    ev.push(match r { Ok(o) => json!({"op": "calck", "sc": sc as i64, "res": "ok", "out": o}), Err(e) => json!({"op": "calck", "sc": 1, "res": "panic", "out": [], "msg": e}) });
    let r = guard(|| gather(el.calc_m(), s.rho * s.t * s.x * s.x * if axi { s.x } else { 1.0 }));
    ev.push(match r { Ok(o) => json!({"op": "calcm", "sc": sc as i64, "res": "ok", "out": o}), Err(e) => json!({"op": "calcm", "sc": 1, "res": "panic", "out": [], "msg": e}) });
    // edges, also ones that the element has not got
    for _ in 0..4 {
        let (a, b) = if rng.chance(4, 5) { (ids3[rng.below(3)], ids3[rng.below(3)]) } else { (rng.below(total), rng.below(total)) };
        let f = [rng.int(-9, 9), rng.int(-9, 9)];
        let far = t.iter().map(|p| p.0.abs() + p.1.abs()).max().unwrap() > 1000;
        if far { continue }
        let r = guard(|| el.int_f_l((NodeId::new(a), NodeId::new(b)), Point::new(&[f[0] as f64, f[1] as f64])).map(|v| {
            let mut o = vec![0.0; 6];
            for (d, x) in v { o[loc(&d)] += x / s.x }
            o.iter().map(|x| q(*x, 1000.0)).collect::<Vec<_>>()
        }));
        ev.push(match r {
            Ok(Some(o)) => json!({"op": "edge", "a": a, "b": b, "f": f, "res": "ok", "out": o}),
            Ok(None) => json!({"op": "edge", "a": a, "b": b, "f": f, "res": "none", "out": []}),
            Err(e) => json!({"op": "edge", "a": a, "b": b, "f": f, "res": "panic", "out": [], "msg": e}),
        });
    }
    let pairs: Vec<[usize; 2]> = (0..total).flat_map(|a| (0..total).map(move |b| [a, b])).collect();
    let joined: Vec<bool> = pairs.iter().map(|p| el.nodes_connect(NodeId::new(p[0]), NodeId::new(p[1]))).collect();
    let at: Vec<Value> = (0..total).map(|i| match el.node(NodeId::new(i)) {
        Some(p) => json!({"id": i, "has": true, "p": [q(p[0] / s.x, 1.0), q(p[1] / s.x, 1.0)]}),
        None => json!({"id": i, "has": false, "p": [0, 0]}),
    }).collect();
    ev.push(json!({"op": "topo", "pairs": pairs, "joined": joined, "at": at}));
    if small {
        for _ in 0..2 {
            let u: Vec<[i64; 2]> = (0..3).map(|_| [rng.int(-5, 5), rng.int(-5, 5)]).collect();
            let nc = if axi { 4 } else { 3 };
            let r = guard(|| {
                let f = |n: NodeId| { let k = ids3.iter().position(|i| *i == n.into_idx()).unwrap(); Point::new(&[u[k][0] as f64, u[k][1] as f64]) };
                el.stresses(Box::new(f)).into_iter().map(|(n, s0)| {
                    let v = if axi { comps(&s0, nc) } else { let c = s0.to_cauchy(); vec![c[(0, 0)], c[(1, 1)], c[(0, 1)]] };
                    json!({"id": n.into_idx(), "s": v.iter().map(|x| q(x / s.e * s.x, 1000.0)).collect::<Vec<_>>()})
                }).collect::<Vec<_>>()
            });
            ev.push(match r { Ok(o) => json!({"op": "stress", "u": u, "res": "ok", "out": o}), Err(e) => json!({"op": "stress", "u": u, "res": "panic", "out": [], "msg": e}) });
        }
    }
}

fn states(rng: &mut Rng, ev: &mut Vec<Value>) {
    let (kind, n) = *rng.pick(&[("bar", 1), ("plane", 3), ("axi", 4), ("solid", 6)]);
    let make = |v: &[i64], col: bool| {
        let f: Vec<f64> = v.iter().map(|x| *x as f64).collect();
        StressState::from_vector(if col { LinearMatrix::col_vec(f) } else { LinearMatrix::row_vec(f) })
    };
    for _ in 0..3 {
        let top = if rng.chance(1, 2) { 9 } else { 2 };
        let mut s: Vec<i64> = (0..n).map(|_| rng.int(-top, top)).collect();
        if rng.chance(1, 6) { let h = s[0]; for (i, x) in s.iter_mut().enumerate() { *x = match (kind, i) { ("solid", 0..=2) | ("axi", 0 | 1 | 3) => h, ("plane", _) => 0, _ => 0 } } }
        let mut st = make(&s, rng.chance(1, 2));
        ev.push(json!({"op": "newstate", "kind": kind, "s": s}));
        for step in 0..3 {
            let v = guard(|| st.von_mises());
            ev.push(json!({"op": "mises", "out": v.map(|v| q(v, 1000.0)).unwrap_or(BAD)}));
            if kind != "axi" {
                let r = guard(|| { let c = st.to_cauchy(); let d = c.shape().0; (0..d).map(|i| (0..d).map(|j| qi(c[(i, j)])).collect::<Vec<_>>()).collect::<Vec<_>>() });
                ev.push(match r { Ok(o) => json!({"op": "cauchy", "res": "ok", "out": o}), Err(e) => json!({"op": "cauchy", "res": "panic", "out": [], "msg": e}) });
            }
            if step == 2 { break }
            let o = *rng.pick(&["add", "mul", "div"]);
            let now = comps(&st, n);
            let maxc = now.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            match o {
                "add" => {
                    let t: Vec<i64> = (0..n).map(|_| rng.int(-3, 3)).collect();
                    if maxc > 6.0 { continue }
                    st = st + make(&t, true);
                    ev.push(json!({"op": "opstate", "o": "add", "s": t, "x": 0}));
                }
                "mul" => {
                    let x = *rng.pick(&[-1i64, 0, 2, 3]);
                    if maxc * x.abs() as f64 > 9.0 { continue }
                    st = st * (x as f64);
                    ev.push(json!({"op": "opstate", "o": "mul", "s": [], "x": x}));
                }
                _ => {
                    let x = *rng.pick(&[-1i64, 2, 3]);
                    if now.iter().any(|v| (*v as i64) % x != 0) { continue }
                    st = st / (x as f64);
                    ev.push(json!({"op": "opstate", "o": "div", "s": [], "x": x}));
                }
            }
        }
    }
}

fn poly(terms: &[[i64; 3]], x: f64, y: f64) -> f64 {
    terms.iter().map(|t| t[0] as f64 * x.powi(t[1] as i32) * y.powi(t[2] as i32)).sum()
}
/// in thousandths, and what remains in units of 10^-9
fn two(v: f64) -> (i64, i64) {
    let y = v * 1000.0;
    if !(y.abs() < 1.9e9) { return (BAD, 0) }
    (y.round() as i64, ((y - y.round()) * 1e6).round() as i64)
}
fn quadrature(rng: &mut Rng, ev: &mut Vec<Value>) {
    for _ in 0..4 {
        let order = rng.below(4) + 1;
        let deg = rng.below(2 * order);
        let top = if deg > 5 { 2 } else { 4 };
        let nt = rng.below(4) + 1;
        let list: Vec<Vec<[i64; 3]>> = (0..rng.below(3) + 1).map(|_| (0..nt).map(|_| { let d = if rng.chance(1, 2) { deg } else { rng.below(deg + 1) }; let i = rng.below(d + 1); [rng.int(-4, 4), i as i64, (d - i) as i64] }).collect()).collect();
        let (dx, dy, len) = *rng.pick(&[(3, 4, 5), (4, 3, 5), (1, 0, 1), (0, 1, 1), (2, 0, 2), (0, 3, 3), (-3, 4, 5), (-1, 0, 1), (0, -2, 2), (3, -4, 5)]);
        if deg > 5 && len > 3 { continue }
        let a = (rng.int(-top, top), rng.int(-top, top));
        let b = (a.0 + dx, a.1 + dy);
        let r = guard(|| {
            let f = |p: Point| LinearMatrix::from_flat((1, list.len()), list.iter().map(|t| poly(t, p[0], p[1])).collect::<Vec<_>>());
            let v = gauss_segment_mat(f, (a.0 as f64, a.1 as f64).into(), (b.0 as f64, b.1 as f64).into(), order);
            v.flat().copied().collect::<Vec<f64>>()
        });
        for (i, t) in list.iter().enumerate() {
            let (res, (out, fine)) = match &r { Ok(v) => ("ok", two(v[i] / len as f64)), Err(_) => ("panic", (0, 0)) };
            ev.push(json!({"op": "segint", "terms": t, "a": [a.0, a.1], "b": [b.0, b.1], "len": len, "order": order, "res": res, "out": out, "fine": fine}));
        }
    }
    for _ in 0..3 {
        let terms: Vec<[i64; 3]> = (0..rng.below(5) + 1).map(|_| { let d = rng.below(3); let i = rng.below(d + 1); [rng.int(-9, 9), i as i64, (d - i) as i64] }).collect();
        let r = guard(|| gauss_tri(|p: Point| poly(&terms, p[0], p[1])));
        let (out, fine) = match &r { Ok(v) => two(*v), Err(_) => (0, 0) };
        ev.push(json!({"op": "triint", "terms": terms, "res": if r.is_ok() { "ok" } else { "panic" }, "out": out, "fine": fine}));
    }
}

fn one_segment(ev: &mut Vec<Value>, terms: &[[i64; 3]], a: (i64, i64), b: (i64, i64), len: i64, order: usize) {
    let r = guard(|| {
        let f = |p: Point| LinearMatrix::from_flat((1, 1), vec![poly(terms, p[0], p[1])]);
        gauss_segment_mat(f, (a.0 as f64, a.1 as f64).into(), (b.0 as f64, b.1 as f64).into(), order)[(0, 0)]
    });
    let (res, (out, fine)) = match &r { Ok(v) => ("ok", two(*v / len as f64)), Err(_) => ("panic", (0, 0)) };
    ev.push(json!({"op": "segint", "terms": terms, "a": [a.0, a.1], "b": [b.0, b.1], "len": len, "order": order, "res": res, "out": out, "fine": fine}));
}

fn main() {
    let a = args();
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        "triscn" => {
            let o = &a.scn[c as usize];
            let t: Vec<[i64; 2]> = serde_json::from_value(o["t"].clone()).unwrap();
            let g = |k: &str| o["m"][k].as_i64().unwrap();
            let c = match o["m"]["c"].as_str().unwrap() { "stress" => "stress", "strain" => "strain", _ => "axi" };
            triangle(rng, ev, Mat { c, t: g("t"), e: g("e"), p: g("p"), q: g("q"), rho: g("rho") }, [(t[0][0], t[0][1]), (t[1][0], t[1][1]), (t[2][0], t[2][1])])
        }
        "tri" => {
            let m = rand_mat(rng);
            let axi = m.c == "axi";
            let size = if axi { 4 } else { *rng.pick(&[2, 4, 4, 12]) };
            let off = if axi { (rng.int(1, *rng.clone().pick(&[2, 12])), rng.int(-9, 9)) } else { *rng.pick(&[(0, 0), (-3, 5), (1 << 20, -(1 << 19)), (0, 100000)]) };
            let t = loop {
                let p: Vec<(i64, i64)> = (0..3).map(|_| (rng.int(0, size), rng.int(0, size))).collect();
                if (p[1].0 - p[0].0) * (p[2].1 - p[0].1) != (p[2].0 - p[0].0) * (p[1].1 - p[0].1) { break [p[0], p[1], p[2]] }
            };
            let f = |p: (i64, i64)| (p.0 + off.0, p.1 + off.1);
            triangle(rng, ev, m, [f(t[0]), f(t[1]), f(t[2])])
        }
        "statescn" => {
            let o = &a.scn[c as usize];
            let s: Vec<i64> = serde_json::from_value(o["s"].clone()).unwrap();
            let kind = o["kind"].as_str().unwrap();
            let f: Vec<f64> = s.iter().map(|x| *x as f64).collect();
            let st = StressState::from_vector(if rng.chance(1, 2) { LinearMatrix::col_vec(f) } else { LinearMatrix::row_vec(f) });
            ev.push(json!({"op": "newstate", "kind": kind, "s": s}));
            let v = guard(|| st.von_mises());
            ev.push(json!({"op": "mises", "out": v.map(|v| q(v, 1000.0)).unwrap_or(BAD)}));
            if kind != "axi" {
                let r = guard(|| { let c = st.to_cauchy(); let d = c.shape().0; (0..d).map(|i| (0..d).map(|j| qi(c[(i, j)])).collect::<Vec<_>>()).collect::<Vec<_>>() });
                ev.push(match r { Ok(o) => json!({"op": "cauchy", "res": "ok", "out": o}), Err(e) => json!({"op": "cauchy", "res": "panic", "out": [], "msg": e}) });
            }
        }
        "state" => states(rng, ev),
        "quadscn" => {
            let o = &a.scn[c as usize];
            let g = |v: &Value| v.as_i64().unwrap();
            let t = [[1, g(&o["i"]), g(&o["j"])]];
            let p = (g(&o["a"][0]), g(&o["a"][1]));
            let r = (p.0 + g(&o["d"][0]), p.1 + g(&o["d"][1]));
            one_segment(ev, &t, p, r, g(&o["d"][2]), g(&o["order"]) as usize);
            one_segment(ev, &t, r, p, g(&o["d"][2]), g(&o["order"]) as usize);
        }
        "quad" => quadrature(rng, ev),
        m => panic!("mode {}", m),
    });
}
