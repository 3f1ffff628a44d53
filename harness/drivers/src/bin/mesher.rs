//! Boundaries and meshes.
use bugi::element::constraint::Constraint;
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::mesher::bounds::{PlaneBoundary, Segment};
use bugi::mesher::plane::PlaneTriangulation;
use bugi::mesher::Vertex;
use drivers::*;
use std::collections::HashMap;

type Pt = spacemath::two::Point;
fn con(k: &str) -> Constraint {
    match k { "x" => Constraint::XFixed, "y" => Constraint::YFixed, "xy" => Constraint::XYFixed, "free" => Constraint::Free, _ => Constraint::AngleFixed(k[6..].parse().unwrap()) }
}
fn name(c: &Constraint) -> String { format!("{}", c) }
fn at(v: Vertex) -> Pt { Segment(v, v).get().0 }

/// a boundary under test; unit: how many logged units one length unit has
struct Body { b: PlaneBoundary, unit: f64, ended: bool }

impl Body {
    fn ids(&self) -> HashMap<Vertex, usize> { self.b.all_vertices().copied().enumerate().map(|(i, v)| (v, i)).collect() }
    fn obs(&self) -> Value {
        let ids = self.ids();
        let id = |v: &Vertex| ids.get(v).map(|x| *x as i64 + 1).unwrap_or(BAD);
        let verts: Vec<[i64; 2]> = self.b.all_vertices().map(|v| { let p = at(*v); [q(p.x, self.unit), q(p.y, self.unit)] }).collect();
        let cap = 4 * verts.len() + 8;
        let walls: Vec<[i64; 2]> = self.b.all_walls().take(cap).map(|s| [id(&s.0), id(&s.1)]).collect();
        let base: Vec<[i64; 2]> = self.b.all_base_walls().take(cap).map(|s| [id(&s.0), id(&s.1)]).collect();
        let mut forces: Vec<Value> = self.b.all_distributed_forces().iter().map(|(s, f)| json!([id(&s.0), id(&s.1), [q(f.x, 1.0), q(f.y, 1.0)]])).collect();
        let mut cons: Vec<Value> = self.b.all_constraints().iter().map(|(v, c)| json!([id(v), name(c)])).collect();
        forces.sort_by_key(|x| x.to_string());
        cons.sort_by_key(|x| x.to_string());
        json!({"verts": verts, "walls": walls, "base": base, "forces": forces, "cons": cons})
    }
    fn finish(&mut self, ev: &mut Vec<Value>, mut e: Value, ok: bool) {
        e["res"] = json!(if ok { "ok" } else { "panic" });
        e["obs"] = match guard(|| self.obs()) { Ok(o) => o, Err(_) => json!({"verts": [], "walls": [], "base": [], "forces": [], "cons": []}) };
        ev.push(e);
    }
    fn poly(&mut self, ev: &mut Vec<Value>, p: &[[f64; 2]]) -> Vec<Vertex> {
        let pts: Vec<(f64, f64)> = p.iter().map(|x| (x[0], x[1])).collect();
        let b = &mut self.b;
        let r = guard(|| b.store_polygon(&pts));
        let u = self.unit;
        let ids: Vec<usize> = match &r { Ok(v) => { let m = self.ids(); v.iter().map(|x| m.get(x).map(|i| i + 1).unwrap_or(0)).collect() } Err(_) => vec![] };
        if r.is_err() {
            // the polygon is stored in part
            self.ended = true;
        }
        let e = json!({"op": "poly", "pts": p.iter().map(|x| [q(x[0], u), q(x[1], u)]).collect::<Vec<_>>(), "ids": ids});
        self.finish(ev, e, r.is_ok());
        r.unwrap_or(vec![])
    }
    fn segs(&self) -> Vec<Segment> { self.b.all_walls().collect() }
    fn pair(&self, s: &Segment) -> [usize; 2] { let m = self.ids(); [m[&s.0] + 1, m[&s.1] + 1] }
    fn force(&mut self, ev: &mut Vec<Value>, s: Segment, f: [i64; 2]) {
        let e = json!({"op": "force", "s": self.pair(&s), "f": f});
        let b = &mut self.b;
        let r = guard(|| b.store_distributed_force(s.0, s.1, (f[0] as f64, f[1] as f64).into()));
        self.finish(ev, e, r.is_ok())
    }
    fn constrain(&mut self, ev: &mut Vec<Value>, s: Segment, k: &str) {
        let e = json!({"op": "con", "s": self.pair(&s), "k": k});
        let b = &mut self.b;
        let r = guard(|| b.store_distributed_constraint(s.0, s.1, con(k)));
        self.finish(ev, e, r.is_ok())
    }
    fn pin(&mut self, ev: &mut Vec<Value>, v: Vertex, k: &str) {
        let e = json!({"op": "pin", "v": self.ids()[&v] + 1, "k": k});
        let b = &mut self.b;
        let r = guard(|| b.store_constraint(v, con(k)));
        self.finish(ev, e, r.is_ok())
    }
    fn divide(&mut self, ev: &mut Vec<Value>, s: Segment, h: f64) {
        let e = json!({"op": "divide", "s": self.pair(&s), "h": q(h, self.unit)});
        let b = &mut self.b;
        let r = guard(|| b.divide_segment(s, h));
        self.finish(ev, e, r.is_ok())
    }
    fn split(&mut self, ev: &mut Vec<Value>, s: Segment) {
        let mut e = json!({"op": "split", "s": self.pair(&s)});
        let b = &mut self.b;
        let r = guard(|| b.split_segment(s));
        let m = self.ids();
        e["out"] = match &r { Ok((x, y, v)) => json!([m[&x.0] + 1, m[&x.1] + 1, m[&y.0] + 1, m[&y.1] + 1, m[v] + 1]), Err(_) => json!([]) };
        self.finish(ev, e, r.is_ok())
    }
    fn divide_all(&mut self, ev: &mut Vec<Value>, h: f64) {
        let e = json!({"op": "divideall", "h": q(h, self.unit)});
        let b = &mut self.b;
        let r = guard(|| b.divide_all_segments(h));
        if r.is_err() { self.ended = true }
        self.finish(ev, e, r.is_ok())
    }
}
fn body(unit: f64) -> Body { Body { b: PlaneBoundary::new(), unit, ended: false } }

/// polygons of whole numbers, the inside on the left
const SHAPES: [&[[i64; 2]]; 8] = [
    &[[0, 0], [4, 0], [4, 4], [0, 4]],
    &[[0, 0], [6, 0], [6, 3], [0, 3]],
    &[[0, 0], [6, 0], [6, 3], [3, 3], [3, 6], [0, 6]],
    &[[0, 0], [9, 0], [9, 6], [6, 6], [6, 3], [3, 3], [3, 6], [0, 6]],
    &[[3, 0], [6, 0], [6, 3], [9, 3], [9, 6], [6, 6], [6, 9], [3, 9], [3, 6], [0, 6], [0, 3], [3, 3]],
    &[[0, 0], [5, 0], [7, 4], [3, 7], [-2, 4]],
    &[[0, 0], [6, 1], [5, 7], [-1, 6]],
    &[[0, 0], [8, 0], [8, 8], [0, 8]],
];

fn random_poly(rng: &mut Rng, off: [i64; 2], w: i64) -> Vec<[i64; 2]> {
    let n = 3 + rng.below(3);
    (0..n).map(|_| [off[0] + rng.int(0, w), off[1] + rng.int(0, w)]).collect()
}

fn bounds(rng: &mut Rng, ev: &mut Vec<Value>) {
    let k = *rng.pick(&[1.0, 1.0, 0.5, 0.25]);
    let f = |p: &Vec<[i64; 2]>| p.iter().map(|x| [x[0] as f64 * k, x[1] as f64 * k]).collect::<Vec<_>>();
    let mut m = body(2000.0 / k);
    // a long wall in many pieces
    if rng.chance(1, 60) {
        m.poly(ev, &f(&vec![[0, 0], [20, 0], [20, 3], [0, 3]]));
        if m.ended { return }
        let s = m.segs().into_iter().find(|s| s.len() > 10.0 * k).unwrap();
        if rng.chance(1, 2) { m.force(ev, if rng.chance(1, 2) { s } else { s.rev() }, [rng.int(-9, 9), 2]) }
        if rng.chance(1, 2) { m.constrain(ev, s, "x") }
        let n = rng.int(200, 300) as f64;
        m.divide(ev, s, s.len() / n / 1.02);
        if m.ended { return }
        let s = *rng.pick(&m.segs());
        m.split(ev, s);
        return
    }
    // an outline, and perhaps holes
    if rng.chance(1, 4) {
        for i in 0..(1 + rng.below(2)) {
            let gap = *rng.pick(&[5, 2]); let p = random_poly(rng, [i as i64 * gap, 0], 5);
            m.poly(ev, &f(&p));
            if m.ended { return }
        }
    } else {
        let big = rng.chance(1, 3);
        let s = if big { SHAPES[7] } else { SHAPES[rng.below(8)] };
        let r = rng.below(s.len());
        let p: Vec<[i64; 2]> = (0..s.len()).map(|i| s[(i + r) % s.len()]).collect();
        m.poly(ev, &f(&p));
        if m.ended { return }
        if big {
            for i in 0..rng.below(3) {
                let (x, y) = (1 + 4 * i as i64, rng.int(1, 5));
                let w = rng.int(1, 2);
                m.poly(ev, &f(&vec![[x, y], [x, y + w], [x + w, y + w], [x + w, y]]));
                if m.ended { return }
            }
        }
    }
    for _ in 0..(2 + rng.below(8)) {
        let segs = m.segs();
        let s = *rng.pick(&segs);
        let t = if rng.chance(1, 2) { s } else { s.rev() };
        match rng.below(9) {
            0 | 1 => { let v = [rng.int(-9, 9), rng.int(-9, 9)]; m.force(ev, t, v) }
            2 | 3 => m.constrain(ev, t, *rng.pick(&["x", "y", "xy", "angle:0.5"])),
            4 => m.pin(ev, s.0, *rng.pick(&["x", "y", "xy"])),
            5 | 6 => {
                let n = rng.int(1, 6) as f64;
                // somewhere in or around what n pieces ask for
                let h = s.len() / n / (0.9 + 0.1 * rng.below(11) as f64);
                let s = if rng.chance(1, 10) { t } else { s };
                if h > 0.004 { m.divide(ev, s, h) }
            }
            7 => m.split(ev, if rng.chance(1, 10) { t } else { s }),
            _ => {
                let short = segs.iter().map(|s| s.len()).fold(f64::INFINITY, f64::min);
                if segs.len() > 30 { continue }
                let h = short / *rng.pick(&[1.0, 1.1, 2.0, 2.3, 3.1]) / (1.0 + 0.05 * rng.below(4) as f64);
                if h < 0.02 || segs.iter().map(|s| s.len() / h).sum::<f64>() > 120.0 { continue }
                m.divide_all(ev, h);
                if m.ended { return }
            }
        }
    }
}

/// a history of the model: the square with a hole, then <<op, segment, variant>>
fn bounds_scn(o: &Value, ev: &mut Vec<Value>) {
    let mut m = body(2000.0);
    m.poly(ev, &[[0.0, 0.0], [4.0, 0.0], [4.0, 4.0], [0.0, 4.0]]);
    m.poly(ev, &[[1.0, 1.0], [1.0, 2.0], [2.0, 2.0]]);
    if m.ended { return }
    for x in o["h"].as_array().unwrap() {
        let (i, k) = (x[1].as_u64().unwrap() as usize - 1, x[2].as_i64().unwrap());
        let segs = m.segs();
        let Some(&s) = segs.get(i) else { return };
        match x[0].as_str().unwrap() {
            "force" => if k == 0 { m.force(ev, s, [2, 1]) } else { m.force(ev, s.rev(), [-5, 3]) },
            "con" => if k == 0 { m.constrain(ev, s, "x") } else { m.constrain(ev, s.rev(), "y") },
            "pin" => m.pin(ev, s.0, "xy"),
            "split" => m.split(ev, s),
            _ => m.divide(ev, s, s.len() / k as f64 / 1.2),
        }
    }
}

/// attributes for some of the walls
fn attributes(rng: &mut Rng, ev: &mut Vec<Value>, m: &mut Body) -> (&'static str, &'static str) {
    let segs = m.segs();
    for _ in 0..rng.below(4) {
        let s = *rng.pick(&segs);
        let t = if rng.chance(1, 2) { s } else { s.rev() };
        let v = [rng.int(-9, 9), rng.int(-9, 9)];
        m.force(ev, t, v)
    }
    for _ in 0..rng.below(4) {
        let s = *rng.pick(&segs);
        let t = if rng.chance(1, 2) { s } else { s.rev() };
        m.constrain(ev, t, *rng.pick(&["x", "y", "xy", "x", "y", "angle:0.5"]))
    }
    if rng.chance(1, 3) { m.pin(ev, rng.pick(&segs).0, *rng.pick(&["x", "y", "xy"])) }
    let (cond, ck) = match rng.below(3) { 0 => (Condition::PlaneStress(0.25), "stress"), 1 => (Condition::PlaneStrain(2.5), "strain"), _ => (Condition::Axisymmetric, "axi") };
    let mat = *rng.pick(&["TEST", "AL6061"]);
    m.b.set_condition(cond);
    m.b.set_material(mat.parse::<Material>().unwrap());
    (ck, mat)
}

fn run(t: &mut PlaneTriangulation, algo: &str, h: f64) { match algo { "chew" => t.chew_mesh(h), "ruppert" => t.ruppert_mesh(h), _ => t.gift_wrap() } }
/// mesh a copy of the body, perhaps after other runs; must: the algorithm has no reason to refuse it
fn mesh(ev: &mut Vec<Value>, m: &Body, first: &[(&str, f64)], algo: &str, h: f64, ck: &str, mat: &str, must: bool) {
    let b = m.b.clone();
    let u = m.unit;
    let mut after = None;
    let mut spots = Vec::new();
    let r = guard(|| {
        let mut t = PlaneTriangulation::new(b);
        for (a, h) in first { run(&mut t, a, *h) }
        run(&mut t, algo, h);
        let w = Body { b: t.bound.clone(), unit: u, ended: false };
        spots = w.b.all_vertices().map(|v| at(*v)).collect();
        after = Some(w.obs());
        t.assemble()
    });
    let mut e = json!({"op": "mesh", "first": first.iter().map(|(a, h)| json!([a, h])).collect::<Vec<_>>(), "algo": algo, "cond": ck, "mat": mat, "must": must});
    match r {
        Ok(Ok(el)) => {
            let nodes = el.nodes();
            let key = |x: f64, y: f64| (x.to_bits(), y.to_bits());
            let mut ids: HashMap<(u64, u64), usize> = HashMap::new();
            let mut twice = false;
            for (i, p) in nodes.iter().enumerate() { if ids.insert(key(p[0], p[1]), i + 1).is_some() { twice = true } }
            e["res"] = json!("ok");
            e["twice"] = json!(twice);
            e["nodes"] = json!(nodes.iter().map(|p| [q(p[0], u), q(p[1], u)]).collect::<Vec<_>>());
            e["tris"] = json!(el.element_descriptors().into_iter().map(|d| d.into_parts().iter().map(|n| n.into_idx() + 1).collect::<Vec<_>>()).collect::<Vec<_>>());
            e["obs"] = after.unwrap();
            e["at"] = json!(spots.iter().map(|p| ids.get(&key(p.x, p.y)).copied().unwrap_or(0)).collect::<Vec<_>>());
            e["cons"] = json!(el.constraints().iter().map(|(_, c)| name(c)).collect::<Vec<_>>());
            e["forces"] = json!(el.dist_forces().iter().map(|((a, b), f)| json!([a.into_idx() + 1, b.into_idx() + 1, [q(f[0], 1.0), q(f[1], 1.0)]])).collect::<Vec<_>>());
            e["conc"] = json!(el.conc_forces().len());
            e["matout"] = json!(el.material().name);
            e["condout"] = json!(match el.condition() { Condition::PlaneStress(t) if t == 0.25 => "stress", Condition::PlaneStrain(t) if t == 2.5 => "strain", Condition::Axisymmetric => "axi", _ => "other" });
        }
        Ok(Err(m)) => { e["res"] = json!("err"); e["msg"] = json!(m) }
        Err(m) => { e["res"] = json!("panic"); e["msg"] = json!(m) }
    }
    ev.push(e);
}

/// the outline of a random simply connected set of cells, counterclockwise, in cells
fn cells(rng: &mut Rng) -> Vec<[i64; 2]> {
    loop {
        let n = 2 + rng.below(4);
        let mut set = vec![[0i64, 0i64]];
        while set.len() < n {
            let c = *rng.pick(&set);
            let d = *rng.pick(&[[1, 0], [-1, 0], [0, 1], [0, -1]]);
            let x = [c[0] + d[0], c[1] + d[1]];
            if !set.contains(&x) { set.push(x) }
        }
        // directed edges of the outline; give up where cells touch at a corner only
        let mut next: HashMap<[i64; 2], [i64; 2]> = HashMap::new();
        let mut bad = false;
        for c in &set {
            let p = [[c[0], c[1]], [c[0] + 1, c[1]], [c[0] + 1, c[1] + 1], [c[0], c[1] + 1]];
            let nb = [[c[0], c[1] - 1], [c[0] + 1, c[1]], [c[0], c[1] + 1], [c[0] - 1, c[1]]];
            for i in 0..4 { if !set.contains(&nb[i]) { if next.insert(p[i], p[(i + 1) % 4]).is_some() { bad = true } } }
        }
        if bad { continue }
        let start = *next.keys().min().unwrap();
        let (mut v, mut out) = (start, vec![]);
        loop { out.push(v); v = next[&v]; if v == start { break } }
        if out.len() < next.len() { continue } // a hole
        // drop the corners that are none
        let k = out.len();
        return (0..k).filter(|&i| { let (a, b, c) = (out[(i + k - 1) % k], out[i], out[(i + 1) % k]); (b[0] - a[0]) * (c[1] - b[1]) != (b[1] - a[1]) * (c[0] - b[0]) }).map(|i| out[i]).collect();
    }
}

fn angles_ok(p: &[[f64; 2]], least: f64) -> bool {
    let n = p.len();
    (0..n).all(|i| {
        let (a, b, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
        let (u, v) = ([a[0] - b[0], a[1] - b[1]], [c[0] - b[0], c[1] - b[1]]);
        let cross = v[0] * u[1] - v[1] * u[0];
        let dot = u[0] * v[0] + u[1] * v[1];
        let mut t = cross.atan2(dot).to_degrees();
        if t < 0.0 { t += 360.0 }
        t >= least
    })
}

fn meshes(rng: &mut Rng, ev: &mut Vec<Value>, algo: &str) {
    let k = *rng.pick(&[1.0, 1.0, 0.125, 16.0, 1.0 / 1024.0, 256.0]);
    // a slight slant, so that not everything is on a grid
    let (a, b) = (*rng.pick(&[0.0, 0.0, 0.1, -0.2]), *rng.pick(&[0.0, 0.0, 0.15]));
    let off = if rng.chance(1, 4) { [rng.int(-40, 40) as f64, rng.int(-40, 40) as f64] } else { [0.0, 0.0] };
    let map = |p: [f64; 2]| [k * (off[0] + p[0] + a * p[1]), k * (off[1] + p[1] + b * p[0])];
    let fl = |p: &[i64; 2]| [p[0] as f64, p[1] as f64];
    let mut polys: Vec<Vec<[f64; 2]>> = vec![];
    match rng.below(3) {
        0 => {
            let s = SHAPES[rng.below(8)];
            polys.push(s.iter().map(fl).collect());
            if s.len() == 4 && s[1][0] == 8 {
                for i in 0..rng.below(3) {
                    let (x, y) = (1 + 4 * i as i64, rng.int(2, 4));
                    polys.push(match rng.below(3) {
                        0 => vec![[x, y], [x, y + 2], [x + 2, y + 2], [x + 2, y]],
                        1 => vec![[x + 1, y], [x, y + 1], [x + 1, y + 2], [x + 2, y + 1]],
                        _ => vec![[x, y], [x + 1, y + 2], [x + 2, y]],
                    }.iter().map(fl).collect());
                }
            }
        }
        1 => polys.push(cells(rng).iter().map(|c| [3.0 * c[0] as f64, 3.0 * c[1] as f64]).collect()),
        _ => {
            // corners in even directions from the middle
            let n = 5 + rng.below(4);
            loop {
                let p: Vec<[f64; 2]> = (0..n).map(|i| { let t = (i as f64 + 0.3) / n as f64 * 2.0 * std::f64::consts::PI; let r = 3.0 + 0.25 * rng.below(9) as f64; [r * t.cos(), r * t.sin()] }).collect();
                if angles_ok(&p.iter().map(|p| map(*p)).collect::<Vec<_>>(), 75.0) { polys.push(p); break }
            }
        }
    }
    let r = rng.below(polys[0].len());
    polys[0].rotate_left(r);
    let h = k * *rng.pick(&[0.5, 0.8, 1.0, 0.45, 1.3, 2.0]);
    let mut m = body(1000.0 / h);
    for p in &polys { let p: Vec<_> = p.iter().map(|x| map(*x)).collect(); m.poly(ev, &p); if m.ended { return } }
    let (ck, mat) = attributes(rng, ev, &mut m);
    for _ in 0..2 { mesh(ev, &m, &[], algo, h, ck, mat, true) }
    let (first, must) = match rng.below(4) { 0 => (("wrap", h), true), 1 => ((algo, h), algo == "ruppert"), 2 => ((algo, 2.0 * h), false), _ => ((if algo == "chew" { "ruppert" } else { "chew" }, 1.5 * h), false) };
    mesh(ev, &m, &[first], algo, h, ck, mat, must)
}

/// bodies with narrow places and coarse sizes, which the algorithms may refuse
fn wild(rng: &mut Rng, ev: &mut Vec<Value>, algo: &str) {
    let least = match algo { "ruppert" => 62.0, "chew" => 40.0, _ => 0.0 };
    let grid = *rng.pick(&[3, 5, 12, 12]);
    let (pts, m) = loop {
        let n = 3 + rng.below(5);
        let p: Vec<[f64; 2]> = (0..n).map(|_| [rng.int(0, grid) as f64, rng.int(0, grid) as f64]).collect();
        let area: f64 = (0..n).map(|i| p[i][0] * p[(i + 1) % n][1] - p[i][1] * p[(i + 1) % n][0]).sum();
        let p = if area < 0.0 { p.into_iter().rev().collect() } else { p };
        if area == 0.0 || !angles_ok(&p, least) { continue }
        let m = body(1.0);
        let mut tmp = Vec::new();
        let mut m = m;
        m.poly(&mut tmp, &p);
        if !m.ended { break (p, m) }
    };
    let _ = m;
    let k: f64 = *rng.pick(&[1.0, 1.0, 1.0, 1.0 / 64.0, 1.0 / 1024.0, 1e-5]);
    let pts: Vec<[f64; 2]> = pts.iter().map(|p| [p[0] * k, p[1] * k]).collect();
    let h = k * if algo == "wrap" { 8.0 } else { *rng.pick(&[0.6, 0.8, 1.0, 1.3, 2.0, 3.0, 5.0]) };
    let mut m = body(1000.0 / h);
    m.poly(ev, &pts);
    let (ck, mat) = attributes(rng, ev, &mut m);
    mesh(ev, &m, if rng.chance(1, 4) { &[("wrap", 1.0)] } else { &[] }, algo, h, ck, mat, false)
}

/// a body of the model, triangulated several times without refinement
fn wrap_scn(o: &Value, rng: &mut Rng, ev: &mut Vec<Value>) {
    let mut m = body(125.0);
    for p in o["polys"].as_array().unwrap() {
        let p: Vec<[f64; 2]> = p.as_array().unwrap().iter().map(|x| [x[0].as_f64().unwrap(), x[1].as_f64().unwrap()]).collect();
        m.poly(ev, &p);
        if m.ended { return }
    }
    let (ck, mat) = attributes(rng, ev, &mut m);
    for k in 0..3 { mesh(ev, &m, if k == 2 { &[("wrap", 8.0)] } else { &[] }, "wrap", 8.0, ck, mat, true) }
}

/// the library moves every vertex by a pseudorandom hair that depends on its running number, and once in some
/// hundred thousand bodies two of them fall together: the same body, with new numbers, is then tried again
fn again(rng: &mut Rng, ev: &mut Vec<Value>, f: impl Fn(&mut Rng, &mut Vec<Value>)) {
    for _ in 0..4 {
        let (mut r, mut e) = (rng.clone(), Vec::new());
        f(&mut r, &mut e);
        let fine = e.iter().all(|x: &Value| x["op"] != "mesh" || x["res"] == "ok" || x["msg"].as_str().map_or(false, |m| m.starts_with("cannot find")));
        *ev = e;
        if fine { break }
    }
}

fn main() {
    let a = args();
    drive(&a, |_c, rng, ev| match a.mode.as_str() {
        "bounds" => bounds(rng, ev),
        "boundscn" => bounds_scn(&a.scn[_c as usize], ev),
        "chew" => again(rng, ev, |rng, ev| meshes(rng, ev, "chew")),
        "ruppert" => again(rng, ev, |rng, ev| meshes(rng, ev, "ruppert")),
        "wrapscn" => again(rng, ev, |rng, ev| wrap_scn(&a.scn[_c as usize], rng, ev)),
        "wildwrap" => again(rng, ev, |rng, ev| wild(rng, ev, "wrap")),
        "wildchew" => wild(rng, ev, "chew"),
        "wildruppert" => wild(rng, ev, "ruppert"),
        m => panic!("unknown mode {}", m),
    });
}
