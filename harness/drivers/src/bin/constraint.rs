//! Constraints on nodes: how they merge, and the coordinates they strike out.
use bugi::element::constraint::{Constraint, DofTransform};
use bugi::element::material::TEST;
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, NodeId};
use bugi::matrix::{Dictionary, MatrixLike};
use drivers::*;

const UNIT: f64 = 4096.0;

fn make(k: &str, a: f64) -> Constraint {
    match k {
        "free" => Constraint::Free,
        "x" => Constraint::XFixed,
        "y" => Constraint::YFixed,
        "xy" => Constraint::XYFixed,
        _ => Constraint::AngleFixed(a),
    }
}
fn show(n: NodeId, c: Constraint) -> Value {
    let (k, a) = match c {
        Constraint::Free => ("free", 0),
        Constraint::XFixed => ("x", 0),
        Constraint::YFixed => ("y", 0),
        Constraint::XYFixed => ("xy", 0),
        Constraint::AngleFixed(t) => ("angle", if t * UNIT == (t * UNIT).round() { q(t, UNIT) } else { BAD }),
    };
    json!({"n": n.into_idx(), "k": k, "a": a})
}

fn merge(ev: &mut Vec<Value>, n: usize, ops: &[(usize, String, i64)], rng: &mut Rng, every: bool) {
    let mut e = ElementAssemblage::new(TEST, Condition::PlaneStress(1.0));
    let mut ids: Vec<NodeId> = Vec::new();
    let first = rng.below(n) + 1;
    let add = |e: &mut ElementAssemblage, k: usize, ids: &mut Vec<NodeId>, ev: &mut Vec<Value>| {
        let p: Vec<(f64, f64)> = (0..k).map(|i| (i as f64, (i * i) as f64)).collect();
        let new = e.add_nodes(&p);
        ids.extend(new);
        ev.push(json!({"op": "nodes", "n": k, "res": "ok"}));
    };
    add(&mut e, first, &mut ids, ev);
    let mut pending = n - first;
    let at = rng.below(ops.len() + 1);
    for (i, (node, k, a)) in ops.iter().enumerate() {
        if pending > 0 && (i >= at || *node >= ids.len()) {
            add(&mut e, pending, &mut ids, ev);
            pending = 0;
        }
        let r = guard(|| e.add_constraint(ids[*node], make(k, *a as f64 / UNIT)));
        ev.push(json!({"op": "add", "n": node, "k": k, "a": a, "res": if r.is_ok() { "ok" } else { "panic" }}));
        if every || i + 1 == ops.len() {
            ev.push(json!({"op": "read", "cons": e.constraints().into_iter().map(|(n, c)| show(n, c)).collect::<Vec<_>>()}));
        }
    }
}

/// directions close to an axis
const STEEP: [(i64, i64, i64); 5] = [(99, 20, 101), (2499, 100, 2501), (22499, 300, 22501), (89999, 600, 90001), (159999, 800, 160001)];
const TRIPLES: [(i64, i64, i64); 7] = [(1, 0, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (15, 8, 17), (7, 24, 25)];

fn transform(rng: &mut Rng, ev: &mut Vec<Value>, cons: Vec<(String, (i64, i64, i64))>) {
    let n = 2 * cons.len();
    let list: Vec<Constraint> = cons.iter().map(|(k, t)| {
        let turns = *rng.pick(&[0i64, 0, 1, -1]);
        make(k, (t.1 as f64).atan2(t.0 as f64) + turns as f64 * 2.0 * std::f64::consts::PI)
    }).collect();
    ev.push(json!({"op": "cons", "cons": cons.iter().map(|(k, t)| json!({"k": k, "t": [t.0, t.1, t.2]})).collect::<Vec<_>>()}));
    let t = match guard(|| DofTransform::from_constraints(&list)) {
        Ok(t) => t,
        Err(m) => { ev.push(json!({"op": "panic", "msg": m})); return }
    };
    let kept: usize = cons.iter().map(|(k, _)| match k.as_str() { "free" => 2, "xy" => 0, _ => 1 }).sum();
    for _ in 0..2 {
        let dens = *rng.pick(&[2u64, 6, 10]);
        let mut k = vec![vec![0i64; n]; n];
        let sym = rng.chance(2, 3);
        for i in 0..n { for j in 0..n { if rng.chance(dens, 10) {
            k[i][j] = rng.int(-20, 20);
            if sym { k[j][i] = k[i][j] }
        } } }
        let mut d = Dictionary::zeros(n);
        let mut at: Vec<(usize, usize)> = (0..n * n).map(|p| (p / n, p % n)).collect();
        rng.shuffle(&mut at);
        for (i, j) in at { if k[i][j] != 0 || rng.chance(1, 10) { d[(i, j)] = k[i][j] as f64 } }
        let r = guard(|| {
            let b = t.bar_matrix(&d);
            let (r, c) = b.shape();
            (0..r).map(|i| (0..c).map(|j| ql(b.get((i, j)).copied().unwrap_or(0.0), 10000.0, 1e8)).collect::<Vec<_>>()).collect::<Vec<_>>()
        });
        ev.push(match r {
            Ok(o) => json!({"op": "barmat", "k": k, "res": "ok", "out": o}),
            Err(m) => json!({"op": "barmat", "k": k, "res": "panic", "out": [], "msg": m}),
        });
        let x: Vec<i64> = (0..n).map(|_| rng.int(-30, 30)).collect();
        let xf: Vec<f64> = x.iter().map(|v| *v as f64).collect();
        let r = guard(|| t.bar_vec(&xf));
        ev.push(match r {
            Ok(o) => json!({"op": "barvec", "x": x, "res": "ok", "out": o.iter().map(|v| ql(*v, 10000.0, 1e8)).collect::<Vec<_>>()}),
            Err(m) => json!({"op": "barvec", "x": x, "res": "panic", "out": [], "msg": m}),
        });
        let x: Vec<i64> = (0..kept).map(|_| rng.int(-30, 30)).collect();
        let xf: Vec<f64> = x.iter().map(|v| *v as f64).collect();
        let r = guard(|| t.unbar_vec(&xf));
        ev.push(match r {
            Ok(o) => json!({"op": "unbar", "x": x, "res": "ok", "out": o.iter().map(|v| ql(*v, 10000.0, 1e8)).collect::<Vec<_>>(),
                            "zero": o.iter().map(|v| *v == 0.0).collect::<Vec<_>>()}),
            Err(m) => json!({"op": "unbar", "x": x, "res": "panic", "out": [], "zero": [], "msg": m}),
        });
    }
}

fn main() {
    let a = args();
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        "mergescn" => {
            let o = &a.scn[c as usize];
            let ops: Vec<(usize, String, i64)> = o["ops"].as_array().unwrap().iter()
                .map(|o| (o["n"].as_u64().unwrap() as usize, o["k"].as_str().unwrap().to_string(), o["a"].as_i64().unwrap())).collect();
            merge(ev, 2, &ops, rng, true)
        }
        "merge" | "bigmerge" => {
            let big = a.mode == "bigmerge";
            let n = if big { rng.below(50) + 7 } else { rng.below(6) + 1 };
            let len = rng.below(if big { 60 } else if a.thorough { 30 } else { 14 }) + 1;
            let few = rng.below(n) + 1;
            let ops: Vec<(usize, String, i64)> = (0..len).map(|_| {
                let k = *rng.pick(&["free", "x", "y", "xy", "angle", "angle", "x", "y"]);
                // at most len halvings: keep the mean exact by starting from multiples of a large power
                (rng.below(few), k.to_string(), if k == "angle" { rng.int(-12, 12) * 1024 } else { 0 })
            }).collect();
            // no more than eight angles on a node
            let mut seen = vec![0; n];
            let ops: Vec<_> = ops.into_iter().filter(|o| { if o.1 == "angle" { seen[o.0] += 1 } seen[o.0] <= 8 || o.1 != "angle" }).collect();
            for k in ["free", "x", "y", "xy", "angle"] {
                let con = make(k, 0.5);
                ev.push(json!({"op": "plain", "k": k, "plain": con.is_plain(), "struck": [con.plain_dim_struck(0), con.plain_dim_struck(1)]}));
            }
            merge(ev, n, &ops, rng, rng.clone().chance(1, 2))
        }
        "transformscn" => {
            let cons = a.scn[c as usize]["cons"].as_array().unwrap().iter().map(|o| {
                let t: Vec<i64> = serde_json::from_value(o["t"].clone()).unwrap();
                (o["k"].as_str().unwrap().to_string(), (t[0], t[1], t[2]))
            }).collect();
            transform(rng, ev, cons)
        }
        "transform" | "bigtransform" => {
            let n = if a.mode == "transform" { rng.below(4) + 1 } else { rng.below(8) + 5 };
            let style = rng.below(4);
            let steep = rng.chance(1, 3);
            let cons = (0..n).map(|_| {
                let k = match style {
                    0 => "angle",
                    1 => *rng.pick(&["free", "angle"]),
                    _ => *rng.pick(&["free", "x", "y", "xy", "angle", "angle"]),
                };
                let t = if k == "angle" {
                    let t = if steep && rng.chance(2, 3) { *rng.pick(&STEEP) } else { *rng.pick(&TRIPLES) };
                    let (a, b) = if rng.chance(1, 2) { (t.0, t.1) } else { (t.1, t.0) };
                    (if rng.chance(1, 2) { a } else { -a }, if rng.chance(1, 2) { b } else { -b }, t.2)
                } else { (1, 0, 1) };
                (k.to_string(), t)
            }).collect();
            transform(rng, ev, cons)
        }
        m => panic!("mode {}", m),
    });
}
