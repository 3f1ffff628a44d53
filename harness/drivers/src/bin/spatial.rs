//! Points and geometric predicates, on coordinates that are whole multiples of a power of two.
use bugi::spatial::predicates::*;
use bugi::spatial::Point;
use drivers::*;
use std::convert::{TryFrom, TryInto};

fn p2(e: i32) -> f64 { 2.0f64.powi(e) }
fn pt(v: &[i64], s: f64) -> Point { Point::new(&v.iter().map(|x| *x as f64 * s).collect::<Vec<_>>()) }
fn out<T>(r: Result<T, String>, f: impl FnOnce(T) -> Value) -> Value { match r { Ok(x) => f(x), Err(_) => json!("panic") } }

fn flat(ev: &mut Vec<Value>, t: &[Vec<i64>], p: &[i64], s: f64) {
    let tri = (pt(&t[0], s), pt(&t[1], s), pt(&t[2], s));
    let x = pt(p, s);
    let intri = out(guard(|| in_triangle(x, tri)), |b| json!(b.to_string()));
    let incirc = out(guard(|| in_circle(x, tri)), |b| json!(b.to_string()));
    let bary = guard(|| bary_coor(x, tri));
    // scaled down where the triangle is so thin that the coordinates are huge
    let bary = match bary { Ok(b) => json!({"res": "ok", "v": [ql(b.0, 1000.0, 2.0e6), ql(b.1, 1000.0, 2.0e6), ql(b.2, 1000.0, 2.0e6)]}), Err(_) => json!({"res": "panic", "v": []}) };
    let cen = guard(|| circumcenter(tri));
    let cen = match cen {
        Ok(Some(c)) => json!({"res": "some", "v": [ql(c[0] / s, 100.0, 1.0e6), ql(c[1] / s, 100.0, 1.0e6)]}),
        Ok(None) => json!({"res": "none", "v": []}),
        Err(_) => json!({"res": "panic", "v": []}),
    };
    ev.push(json!({"op": "flat", "t": t, "p": p, "intri": intri, "incirc": incirc, "bary": bary, "cen": cen}));
}
fn solid(ev: &mut Vec<Value>, t: &[Vec<i64>], p: &[i64], s: f64) {
    let tet = (pt(&t[0], s), pt(&t[1], s), pt(&t[2], s), pt(&t[3], s));
    let x = pt(p, s);
    let dir = out(guard(|| tetrahedron_dir(tet)), |o| json!(match o { Orient::Positive => "pos", Orient::Negative => "neg", Orient::Zero => "zero" }));
    let insph = out(guard(|| in_sphere(x, tet)), |b| json!(b.to_string()));
    ev.push(json!({"op": "solid", "t": t, "p": p, "dir": dir, "insph": insph}));
}

/// a register machine of points, in units of 1/16
const U: f64 = 16.0;
fn view(p: &Point) -> Value {
    json!({"n": p.dim(), "v": p.to_vec().iter().map(|x| { let y = x * U; if y == y.round() { q(y, 1.0) } else { BAD } }).collect::<Vec<_>>()})
}
fn points(rng: &mut Rng, ev: &mut Vec<Value>, steps: usize) {
    let mut r: Vec<Point> = Vec::new();
    let mut hist: Vec<usize> = Vec::new();
    for _ in 0..steps {
        let val = |rng: &mut Rng| rng.int(-30, 30);
        let k = if r.len() < 2 { 0 } else { rng.below(16) };
        let (i, j) = if r.is_empty() { (0, 0) } else { (rng.below(r.len()), rng.below(r.len())) };
        // the same dimension more often than not
        let j = if !r.is_empty() && rng.chance(2, 3) { (0..r.len()).filter(|x| r[*x].dim() == r[i].dim()).last().unwrap() } else { j };
        let mut put = |r: &mut Vec<Point>, mut e: Value, x: Result<Point, String>| {
            match x { Ok(p) => { e["res"] = json!("ok"); e["out"] = view(&p); r.push(p); hist.push(0) } Err(_) => { e["res"] = json!("panic"); e["out"] = json!({"n": 0, "v": []}) } }
            e
        };
        match k {
            0 | 1 => {
                let n = rng.below(4);
                let v: Vec<i64> = (0..n).map(|_| val(rng) * 16).collect();
                let f: Vec<f64> = v.iter().map(|x| *x as f64 / U).collect();
                let how = *rng.pick(&["new", "tuple", "vec"]);
                let (n, v, f) = if how != "new" && n == 0 { (1, vec![16], vec![1.0]) } else { (n, v, f) };
                let x = guard(|| match how {
                    "new" => Point::new(&f),
                    "tuple" => match n { 1 => f[0].into(), 2 => (f[0], f[1]).into(), _ => (f[0], f[1], f[2]).into() },
                    _ => Point::try_from(f.clone()).unwrap(),
                });
                ev.push(put(&mut r, json!({"op": "new", "v": v}), x));
            }
            2 => { let n = rng.below(4); ev.push(put(&mut r, json!({"op": "new", "v": vec![0; n]}), guard(|| Point::zero(n)))) }
            3 => { let (a, b) = (rng.below(50) as u32, rng.below(50) as u32); ev.push(put(&mut r, json!({"op": "new", "v": [a * 16, b * 16]}), guard(|| (a, b).into()))) }
            4 | 5 => { let x = { let (a, b) = (r[i], r[j]); guard(|| a + b) }; let e = put(&mut r, json!({"op": "add", "i": i + 1, "j": j + 1}), x); ev.push(e) }
            6 | 7 => { let x = { let (a, b) = (r[i], r[j]); guard(|| a - b) }; let e = put(&mut r, json!({"op": "sub", "i": i + 1, "j": j + 1}), x); ev.push(e) }
            8 => { let by = *rng.pick(&[-2, -1, 0, 1, 2, 3]); let x = { let a = r[i]; guard(|| a * by as f64) }; let e = put(&mut r, json!({"op": "mul", "i": i + 1, "by": by}), x); ev.push(e) }
            9 => { let even = (0..r[i].dim().min(r[j].dim())).all(|d| (r[i][d] + r[j][d]) * U % 2.0 == 0.0); if !even { continue } let x = { let (a, b) = (r[i], r[j]); guard(|| a.mid(b)) }; let e = put(&mut r, json!({"op": "mid", "i": i + 1, "j": j + 1}), x); ev.push(e) }
            10 => {
                let a = r[i]; let b = r[j];
                let d = match guard(|| a.dot(b)) { Ok(x) => json!({"res": "ok", "v": q(x * U * U, 1.0)}), Err(_) => json!({"res": "panic", "v": 0}) };
                let l = match guard(|| a.dist(b)) { Ok(x) => json!({"res": "ok", "v": q(x * U, 10.0)}), Err(_) => json!({"res": "panic", "v": 0}) };
                ev.push(json!({"op": "pair", "i": i + 1, "j": j + 1, "dot": d, "dist": l, "eq": a == b}));
            }
            11 => {
                let a = r[i];
                let l = match guard(|| a.norm()) { Ok(x) => json!({"res": "ok", "v": q(x * U, 10.0)}), Err(_) => json!({"res": "panic", "v": 0}) };
                let u = match guard(|| a.unit()) { Ok(x) => json!({"res": "ok", "n": x.dim(), "v": qs(&x.to_vec(), 1000.0)}), Err(_) => json!({"res": "panic", "n": 0, "v": []}) };
                ev.push(json!({"op": "one", "i": i + 1, "norm": l, "unit": u}));
            }
            12 => {
                let a = r[i]; let at = rng.below(5);
                let g = match guard(|| a[at]) { Ok(x) => json!({"res": "ok", "v": q(x, U)}), Err(_) => json!({"res": "panic", "v": 0}) };
                ev.push(json!({"op": "get", "i": i + 1, "at": at, "out": g}));
            }
            13 => {
                let at = rng.below(4); let v = val(rng) * 16;
                let mut a = r[i];
                let g = guard(|| { a[at] = v as f64 / U });
                if g.is_ok() { r[i] = a }
                ev.push(json!({"op": "set", "i": i + 1, "at": at, "v": v, "res": if g.is_ok() { "ok" } else { "panic" }, "out": view(&r[i])}));
            }
            14 => {
                let a = r[i];
                let one: Result<f64, _> = a.try_into();
                let two: Result<(f64, f64), _> = a.try_into();
                let three: Result<(f64, f64, f64), _> = a.try_into();
                let f = |v: Vec<f64>| v.iter().map(|x| q(*x, U)).collect::<Vec<_>>();
                let v = guard(|| { let v: Vec<f64> = a.into(); v });
                let text = guard(|| format!("{}", a));
                ev.push(json!({"op": "conv", "i": i + 1,
                    "one": one.map(|x| f(vec![x])).unwrap_or(vec![]), "two": two.map(|x| f(vec![x.0, x.1])).unwrap_or(vec![]),
                    "three": three.map(|x| f(vec![x.0, x.1, x.2])).unwrap_or(vec![]),
                    "vec": match v { Ok(v) => json!({"res": "ok", "v": f(v)}), Err(_) => json!({"res": "panic", "v": []}) },
                    "text": text.unwrap_or("panic".to_string())}));
            }
            _ => {
                let n = rng.below(6);
                let v: Vec<f64> = (0..n).map(|_| val(rng) as f64).collect();
                let t = guard(|| Point::try_from(v.clone()));
                let t = match t { Ok(Ok(p)) => json!({"res": "ok", "out": view(&p)}), Ok(Err(_)) => json!({"res": "err", "out": {"n": 0, "v": []}}), Err(_) => json!({"res": "panic", "out": {"n": 0, "v": []}}) };
                let m = guard(|| Point::new(&v));
                let m = match m { Ok(p) => json!({"res": "ok", "out": view(&p)}), Err(_) => json!({"res": "panic", "out": {"n": 0, "v": []}}) };
                ev.push(json!({"op": "make", "v": v.iter().map(|x| q(*x, U)).collect::<Vec<_>>(), "try": t, "new": m}));
            }
        }
        if r.len() > 8 { break }
    }
}

fn main() {
    let a = args();
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        "predscn" => {
            let o = &a.scn[c as usize];
            let t: Vec<Vec<i64>> = serde_json::from_value(o["t"].clone()).unwrap();
            let p: Vec<i64> = serde_json::from_value(o["p"].clone()).unwrap();
            let f = if o["k"] == "flat" { flat } else { solid };
            f(ev, &t, &p, 1.0);
            f(ev, &t, &p, p2(*rng.pick(&[-20, -7, 9, 24])));
        }
        "flat" => {
            for _ in 0..8 {
                let w = *rng.pick(&[1, 2, 3, 5, 10, 40]);
                let g = |rng: &mut Rng| vec![rng.int(-w, w), rng.int(-w, w)];
                let mut t = vec![g(rng), g(rng), g(rng)];
                let mut p = g(rng);
                match rng.below(6) {
                    // on the line through two corners
                    0 => { let k = rng.int(-1, 2); for d in 0..2 { p[d] = t[0][d] + k * (t[1][d] - t[0][d]) } }
                    // the middle of a side, or the mean of the corners
                    1 => { for d in 0..2 { t[0][d] = t[1][d] + 2 * (t[0][d] - t[1][d]); p[d] = (t[0][d] + t[1][d]) / 2 } }
                    2 => { for d in 0..2 { for k in 0..3 { t[k][d] *= 3 } p[d] = (t[0][d] + t[1][d] + t[2][d]) / 3 } }
                    // the fourth corner of a rectangle
                    3 => { let (u, v) = (rng.int(-w, w), rng.int(-w, w)); t[1] = vec![t[0][0] + u, t[0][1] + v]; let k = rng.int(-2, 2); t[2] = vec![t[1][0] - k * v, t[1][1] + k * u]; p = vec![t[0][0] - k * v, t[0][1] + k * u] }
                    _ => {}
                }
                if t.iter().flatten().chain(p.iter()).any(|x| x.abs() > 40) { continue }
                flat(ev, &t, &p, p2(*rng.pick(&[0, 0, -20, -7, 9, 24])));
            }
        }
        "solid" => {
            for _ in 0..6 {
                let w = *rng.pick(&[1, 2, 3, 5]);
                let g = |rng: &mut Rng| vec![rng.int(-w, w), rng.int(-w, w), rng.int(-w, w)];
                let mut t = vec![g(rng), g(rng), g(rng), g(rng)];
                let mut p = g(rng);
                match rng.below(6) {
                    0 => { let (i, j) = (rng.int(-1, 1), rng.int(-1, 1)); for d in 0..3 { t[3][d] = t[0][d] + i * (t[1][d] - t[0][d]) + j * (t[2][d] - t[0][d]) } }
                    // corners of a box, all on one sphere
                    1 => { let b = g(rng); let o = g(rng); for v in t.iter_mut().chain(std::iter::once(&mut p)) { for d in 0..3 { v[d] = o[d] + if rng.chance(1, 2) { b[d] } else { 0 } } } }
                    _ => {}
                }
                if t.iter().flatten().chain(p.iter()).any(|x| x.abs() > 12) { continue }
                solid(ev, &t, &p, p2(*rng.pick(&[0, 0, -12, -5, 6, 14])));
            }
        }
        "points" => points(rng, ev, if a.thorough { 30 } else { 14 }),
        m => panic!("mode {}", m),
    });
}
