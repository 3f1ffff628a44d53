//! Images: a Visualizer is given points, edges, triangles and values and saved; the file is read back.
use bugi::element::constraint::Constraint;
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, ElementDescriptor, NodeId};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::spatial::Point;
use bugi::visual::{color, Visualizer};
use drivers::picture::*;
use drivers::*;

/// nodes at whole multiples of a power of two, anywhere
fn pt(v: &[i64], s: f64) -> Point { Point::new(&v.iter().map(|x| *x as f64 * s).collect::<Vec<_>>()) }

/// is the place of every node clear of the half between two pixels (or exactly in the middle of the image)?
fn clear(pts: &[Vec<i64>], size: u32) -> bool {
    let d = pts[0].len();
    let p: Vec<[f64; 2]> = pts.iter().map(|v| {
        let f: Vec<f64> = v.iter().map(|x| *x as f64).collect();
        match d {
            1 => [f[0], 0.0],
            2 => [f[0], f[1]],
            _ => [0.877583 * f[0] + 0.479426 * f[2], 0.340562 * f[0] + 0.703845 * f[1] - 0.623394 * f[2]],
        }
    }).collect();
    let tol = if d == 3 { 0.03 } else { 1e-6 };
    let ext = |k: usize| {
        let lo = p.iter().map(|x| x[k]).fold(f64::INFINITY, f64::min);
        let hi = p.iter().map(|x| x[k]).fold(f64::NEG_INFINITY, f64::max);
        (lo, hi)
    };
    let r = (0..2).map(|k| ext(k).1 - ext(k).0).fold(0.0, f64::max);
    if r == 0.0 { return true }
    if d == 3 && r < 0.5 { return false }
    (0..2).all(|k| {
        let (lo, hi) = ext(k);
        p.iter().all(|x| {
            if d != 3 && 2.0 * x[k] == lo + hi { return true }
            let y = (x[k] - (lo + hi) / 2.0) * 0.8 * size as f64 / r + size as f64 / 2.0;
            ((y - y.floor()) - 0.5).abs() > tol
        })
    })
}

fn new(ev: &mut Vec<Value>, pts: &[Vec<i64>], s: f64) -> Option<Visualizer> {
    let r = guard(|| -> Visualizer { pts.iter().map(|p| pt(p, s)).collect::<Vec<_>>().into() });
    ev.push(json!({"op": "new", "pts": pts, "res": if r.is_ok() { "ok" } else { "panic" }}));
    r.ok()
}
fn edges(vis: &mut Visualizer, ev: &mut Vec<Value>, e: Vec<(usize, usize)>) {
    let r = guard(|| vis.set_edges(e.clone()));
    ev.push(json!({"op": "edges", "v": e.iter().map(|x| vec![x.0, x.1]).collect::<Vec<_>>(), "res": if r.is_ok() { "ok" } else { "panic" }}));
}
fn tris(vis: &mut Visualizer, ev: &mut Vec<Value>, e: Vec<(usize, usize, usize)>) {
    let r = guard(|| vis.set_triangles(e.clone()));
    ev.push(json!({"op": "tris", "v": e.iter().map(|x| vec![x.0, x.1, x.2]).collect::<Vec<_>>(), "res": if r.is_ok() { "ok" } else { "panic" }}));
}
/// the values may be any multiple of a power of two, with any offset: only their places within the range count
fn vals(vis: &mut Visualizer, ev: &mut Vec<Value>, v: Vec<i64>, s: f64) {
    let f: Vec<f64> = v.iter().map(|x| *x as f64 * s).collect();
    let r = guard(|| vis.set_vals(f));
    ev.push(json!({"op": "vals", "v": v, "res": if r.is_ok() { "ok" } else { "panic" }}));
}
fn scale(rng: &mut Rng) -> f64 { 2.0f64.powi(*rng.pick(&[-40, -12, -3, 0, 0, 0, 1, 5, 30])) }

fn history(rng: &mut Rng, ev: &mut Vec<Value>, file: &str, thorough: bool) {
    let dim = *rng.pick(&[1, 2, 2, 2, 3]);
    let s = scale(rng);
    let w = *rng.pick(&[0, 1, 2, 4, 9, 9]);
    let off: Vec<i64> = (0..dim).map(|_| *rng.pick(&[0, 0, -20, 7, 60])).collect();
    let point = |rng: &mut Rng| (0..dim).map(|d| off[d] + rng.int(0, w)).collect::<Vec<i64>>();
    let small = rng.int(16, if thorough { 48 } else { 34 }) as u32;
    let n = 1 + rng.below(5);
    let mut pts: Vec<Vec<i64>> = (0..n).map(|_| point(rng)).collect();
    let mut size = 256;
    if rng.chance(1, 15) {
        let r = guard(|| -> Visualizer { vec![Point::new(&[1.0]), Point::new(&[1.0, 2.0]), Point::new(&[0.0])].into() });
        ev.push(json!({"op": "mixed", "res": if r.is_ok() { "ok" } else { "panic" }}));
    }
    let mut vis = match new(ev, &pts, s) { Some(v) => v, None => return };
    let mut filled = (false, false);
    let mut draws = 0;
    for _ in 0..(3 + rng.below(9)) {
        let m = pts.len();
        match rng.below(10) {
            0 | 1 => {
                let p: Vec<Vec<i64>> = (0..rng.below(3)).map(|_| point(rng)).collect();
                let col = rng.below(4);
                let q: Vec<Point> = p.iter().map(|x| pt(x, s)).collect();
                let r = guard(|| vis.add_points(q, col));
                if r.is_ok() { pts.extend(p.clone()) }
                ev.push(json!({"op": "points", "pts": p, "col": col, "res": if r.is_ok() { "ok" } else { "panic" }}));
            }
            2 | 3 => {
                let far = rng.chance(1, 6);
                let e = (0..rng.below(5)).map(|_| (rng.below(m + if far { 2 } else { 0 }), rng.below(m))).collect();
                edges(&mut vis, ev, e)
            }
            4 => { let t: Vec<_> = (0..rng.below(4)).map(|_| (rng.below(m), rng.below(m), rng.below(m))).collect(); filled.0 = !t.is_empty(); tris(&mut vis, ev, t) }
            5 => {
                let k = if rng.chance(1, 8) { m + 1 } else { m };
                let w = *rng.pick(&[0, 1, 3, 9, 30]);
                let o = *rng.pick(&[0, -5, -1000, 400]);
                let v: Vec<i64> = (0..k).map(|_| o + rng.int(0, w)).collect();
                if k == m { filled.1 = true }
                vals(&mut vis, ev, v, scale(rng))
            }
            _ => {
                draws += 1;
                if draws > 3 { continue }
                // large images only without filled triangles
                let want = if rng.chance(1, 3) && (size < 64 || !(filled.0 && filled.1)) { 0 } else if rng.chance(2, 3) { small } else { rng.int(16, 30) as u32 };
                let now = if want == 0 { size } else { want };
                if !clear(&pts, now) { continue }
                if want > 0 { size = want }
                let map = *rng.pick(&["hot", "hotbox", "rgb", "ramp"]);
                let plain = want == 0 && rng.chance(1, 3);
                let show = rng.chance(3, 4);
                shot(&mut vis, ev, want, show, map, file, plain)
            }
        }
    }
}

/// a strip of a grid, solved, shown with its displacements at several scales
const Q: f64 = 2000.0;
fn deformed(rng: &mut Rng, ev: &mut Vec<Value>, file: &str) {
    let (nx, ny) = (1 + rng.below(2), 1 + rng.below(2));
    let k = *rng.pick(&[1.0, 1.0, 0.25, 64.0]);
    let mut pts: Vec<[i64; 2]> = Vec::new();
    for j in 0..=ny { for i in 0..=nx { pts.push([4 * i as i64 + rng.int(-1, 1), 4 * j as i64 + rng.int(-1, 1)]) } }
    if rng.chance(1, 3) { pts.push([rng.int(-3, 14), rng.int(-3, 10)]) }
    let at = |i: usize, j: usize| j * (nx + 1) + i;
    let mut els: Vec<[usize; 3]> = Vec::new();
    for j in 0..ny {
        for i in 0..nx {
            let (a, b, c, d) = (at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1));
            if rng.chance(1, 2) { els.push([a, b, c]); els.push([a, c, d]) } else { els.push([a, b, d]); els.push([b, c, d]) }
        }
    }
    // no flat elements
    let area = |e: &[usize; 3]| { let (a, b, c) = (pts[e[0]], pts[e[1]], pts[e[2]]); (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) };
    if els.iter().any(|e| area(e) < 3) { return }
    for i in (1..els.len()).rev() { els.swap(i, rng.below(i + 1)) }
    for e in els.iter_mut() { for _ in 0..rng.below(3) { e.rotate_left(1) } if rng.chance(1, 4) { e.swap(0, 1) } }
    // nodes in an order of their own
    let mut order: Vec<usize> = (0..pts.len()).collect();
    for i in (1..order.len()).rev() { order.swap(i, rng.below(i + 1)) }
    let mut place = vec![0; order.len()];
    for (i, o) in order.iter().enumerate() { place[*o] = i }
    let listed: Vec<[i64; 2]> = order.iter().map(|o| pts[*o]).collect();
    let tris: Vec<[usize; 3]> = els.iter().map(|e| [place[e[0]], place[e[1]], place[e[2]]]).collect();
    let loose = pts.len() > (nx + 1) * (ny + 1);
    let forces: Vec<(usize, [f64; 2])> = (0..(1 + rng.below(2))).map(|_| (place[at(nx, rng.below(ny + 1))], [rng.int(-6, 6) as f64, rng.int(-6, 6) as f64])).collect();
    let th = 0.25;
    let cond = match rng.below(3) { 0 => Condition::PlaneStrain(th), _ => Condition::PlaneStress(th) };
    let modal = rng.chance(1, 3);
    let dense = rng.chance(1, 2);
    let mut elas = ElementAssemblage::new(Material { name: "V", youngs: 32.0, poisson: 0.25, density: 4.0 / (k * k) }, cond);
    let built = guard(|| {
        let ids: Vec<NodeId> = elas.add_nodes(&listed.iter().map(|p| (p[0] as f64 * k, p[1] as f64 * k)).collect::<Vec<_>>());
        for t in &tris { elas.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]])) }
        for j in 0..=ny { elas.add_constraint(ids[place[at(0, j)]], Constraint::XYFixed) }
        if loose { elas.add_constraint(ids[place[pts.len() - 1]], Constraint::XYFixed) }
        for (n, f) in &forces { elas.add_conc_force(ids[*n], Point::new(&[f[0] * k, f[1] * k])) }
    });
    ev.push(json!({"op": "model", "pts": listed.iter().map(|p| [p[0] * Q as i64, p[1] * Q as i64]).collect::<Vec<_>>(), "tris": tris, "res": if built.is_ok() { "ok" } else { "panic" }}));
    if built.is_err() { return }
    let dfms = match guard(|| if modal { elas.calc_modes(2) } else if dense { vec![elas.calc_displacements::<DenseGaussSolver>()] } else { vec![elas.calc_displacements::<CholeskyEnvelopeSolver>()] }) {
        Ok(d) => d,
        Err(_) => { ev.push(json!({"op": "solvepanic"})); return }
    };
    for d in &dfms {
        let one = d.displaced_nodes(1.0);
        let disp: Vec<[f64; 2]> = one.iter().zip(&listed).map(|(p, o)| [p[0] / k - o[0] as f64, p[1] / k - o[1] as f64]).collect();
        if disp.iter().any(|x| !(x[0].abs() < 6.0 && x[1].abs() < 6.0)) { continue }
        ev.push(json!({"op": "moved", "d": disp.iter().map(|x| [q(x[0], Q), q(x[1], Q)]).collect::<Vec<_>>()}));
        {
            let s = *rng.pick(&[0i64, 1, 1, 2, 3, -1, -2]);
            let now: Vec<[f64; 2]> = (0..listed.len()).map(|i| [listed[i][0] as f64 + s as f64 * disp[i][0], listed[i][1] as f64 + s as f64 * disp[i][1]]).collect();
            let size = 2 * rng.int(8, 13) as u32;
            if !clear2(&now, size, (s.abs() as f64 + 1.0) * 0.5 / Q) { continue }
            let r = guard(|| d.visualize(s as f64));
            ev.push(json!({"op": "deformed", "s": s, "res": if r.is_ok() { "ok" } else { "panic" }}));
            let mut vis = match r { Ok(v) => v, Err(_) => return };
            if rng.chance(2, 3) { let v = (0..listed.len()).map(|_| rng.int(0, 20)).collect(); vals(&mut vis, ev, v, 1.0) }
            let show = rng.chance(3, 4);
            shot(&mut vis, ev, size, show, *rng.pick(&["hot", "rgb", "ramp"]), file, false)
        }
    }
}

fn main() {
    let a = args();
    let file = format!("{}/image.png", if a.scratch.is_empty() { std::env::temp_dir().display().to_string() } else { a.scratch.clone() });
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        "viewscn" => {
            let o = &a.scn[c as usize];
            let t: Vec<Vec<i64>> = serde_json::from_value(o["t"].clone()).unwrap();
            let size = o["size"].as_u64().unwrap() as u32;
            if !clear(&t, size) { return }
            let mut vis = match new(ev, &t, scale(rng)) { Some(v) => v, None => return };
            match c % 3 {
                0 => { edges(&mut vis, ev, vec![(0, 1), (2, 1)]); shot(&mut vis, ev, size, true, "hot", &file, false) }
                1 => {
                    tris(&mut vis, ev, vec![(0, 1, 2)]);
                    vals(&mut vis, ev, vec![rng.int(0, 3), rng.int(-2, 2), rng.int(0, 9)], scale(rng));
                    shot(&mut vis, ev, size, false, *rng.pick(&["hot", "rgb", "ramp"]), &file, false);
                    edges(&mut vis, ev, vec![(0, 1), (1, 2), (2, 0)]);
                    shot(&mut vis, ev, 0, true, "hot", &file, false)
                }
                _ => { shot(&mut vis, ev, size, true, "hot", &file, false); shot(&mut vis, ev, 0, false, "hot", &file, false) }
            }
        }
        "deformed" => deformed(rng, ev, &file),
        "images" => history(rng, ev, &file, a.thorough),
        "colours" => {
            for _ in 0..20 {
                let den = *rng.pick(&[1i64, 2, 3, 4, 7, 12, 100, 255, 765, 1000, 60000]);
                let num = match rng.below(6) { 0 => 0, 1 => den, _ => rng.int(0, den) };
                for map in ["hot", "rgb"] {
                    let v = num as f64 / den as f64;
                    let c = guard(|| match (map, rng.chance(1, 2)) {
                        ("hot", true) => color::hot_map(v),
                        ("hot", false) => color::hot_map_boxed()(v),
                        (_, true) => color::rgb_map(v),
                        _ => color::rgb_map_boxed()(v),
                    });
                    match c { Ok(c) => ev.push(json!({"op": "scale", "map": map, "num": num, "den": den, "c": c.0.to_vec()})), Err(_) => ev.push(json!({"op": "scalepanic"})) }
                }
            }
            for (at, v) in [("low", -1e-9), ("low", -3.0), ("low", -1e300), ("low", f64::NEG_INFINITY), ("high", 1.0 + 1e-9), ("high", 2.5), ("high", 1e300), ("high", f64::INFINITY), ("none", f64::NAN)] {
                for map in ["hot", "rgb"] {
                    let c = guard(|| if map == "hot" { color::hot_map(v) } else { color::rgb_map(v) });
                    ev.push(json!({"op": "beyond", "map": map, "at": at, "res": if c.is_ok() { "ok" } else { "panic" }, "c": c.map(|c| c.0.to_vec()).unwrap_or(vec![])}));
                }
            }
        }
        m => panic!("unknown mode {}", m),
    });
}
