//! Mesh files and boundary files, saved and read.
use bugi::file;
use bugi::mesher::bounds::{PlaneBoundary, Segment};
use bugi::mesher::Vertex;
use drivers::*;
use std::collections::HashMap;
#[path = "../filekit.rs"]
mod filekit;
use filekit::*;

fn meshes(rng: &mut Rng, dir: &str, ev: &mut Vec<Value>) {
    let m = model(rng);
    let mut a = if rng.chance(1, 2) {
        build(ev, &m)
    } else {
        let mut t = text(rng, &m);
        if rng.chance(1, 2) { t = spoil(rng, &t) }
        if rng.chance(1, 8) { t = spoil(rng, &t) }
        // sums of numbers that the log cannot hold are not looked at
        if t.split(|c: char| c.is_whitespace() || c == '/').filter_map(number).any(|x| x.abs() > 4e8 && x.is_finite()) { return }
        read(ev, dir, &t)
    };
    for _ in 0..(1 + rng.below(3)) {
        let Some(x) = a else { return };
        a = save(ev, dir, x);
        if rng.chance(1, 3) { if let Some(x) = a.as_mut() { let n = x.node_count(); if n >= 2 { let els: Vec<[usize; 3]> = x.element_descriptors().into_iter().map(|d| { let p = d.into_parts(); [p[0].into_idx(), p[1].into_idx(), p[2].into_idx()] }).collect(); let y = adds(rng, n, &els); more(ev, x, &y) } } }
    }
}
fn mesh_scn(o: &Value, dir: &str, ev: &mut Vec<Value>) {
    let lines: Vec<String> = o["lines"].as_array().unwrap().iter().map(|l| l.as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect::<Vec<_>>().join(" ")).collect();
    if let Some(a) = read(ev, dir, &lines.join("\n")) { if let Some(a) = save(ev, dir, a) { save(ev, dir, a); } }
}

// ---- boundaries ----
fn at(v: Vertex) -> [f64; 2] { let p = Segment(v, v).get().0; [p.x, p.y] }
fn observe_bound(b: &PlaneBoundary, unit: f64) -> Value {
    let ids: HashMap<Vertex, usize> = b.all_vertices().copied().enumerate().map(|(i, v)| (v, i)).collect();
    let id = |v: &Vertex| ids.get(v).map(|x| *x as i64 + 1).unwrap_or(BAD);
    let verts: Vec<[i64; 2]> = b.all_vertices().map(|v| { let p = at(*v); [q(p[0], unit), q(p[1], unit)] }).collect();
    let cap = 4 * verts.len() + 8;
    let mut forces: Vec<Value> = b.all_distributed_forces().iter().map(|(s, f)| json!([id(&s.0), id(&s.1), [q(f.x, 1.0), q(f.y, 1.0)]])).collect();
    let mut cons: Vec<Value> = b.all_constraints().iter().map(|(v, c)| json!([id(v), format!("{}", c)])).collect();
    forces.sort_by_key(|x| x.to_string());
    cons.sort_by_key(|x| x.to_string());
    json!({"verts": verts, "walls": b.all_walls().take(cap).map(|s| [id(&s.0), id(&s.1)]).collect::<Vec<_>>(),
           "base": b.all_base_walls().take(cap).map(|s| [id(&s.0), id(&s.1)]).collect::<Vec<_>>(), "forces": forces, "cons": cons})
}
fn read_bound(ev: &mut Vec<Value>, dir: &str, text: &str, unit: f64) {
    let path = format!("{}/given.bbnd", dir);
    std::fs::write(&path, text).unwrap();
    let r = guard(|| match file::read_to_bound(&path) { Ok(b) => Some((observe_bound(&b, unit), b.condition().map(cond_json), b.material())), Err(_) => None });
    let mut e = json!({"op": "bound", "text": text, "lines": lex(text, unit)});
    match r {
        Ok(Some((o, c, m))) => { e["res"] = json!("ok"); e["obs"] = o; e["cond"] = c.unwrap_or(json!(["none", [0, 0]])); e["mat"] = json!(m.map(|m| m.name).unwrap_or("none")); e["consts"] = m.map(|m| consts(&m)).unwrap_or(json!([])) }
        _ => { e["res"] = json!("refused"); e["obs"] = json!({"verts": [], "walls": [], "base": [], "forces": [], "cons": []}); e["cond"] = json!(["none", [0, 0]]); e["mat"] = json!("none"); e["consts"] = json!([]) }
    }
    ev.push(e);
}
fn body_scn(o: &Value, dir: &str, ev: &mut Vec<Value>) {
    let lines: Vec<String> = o["lines"].as_array().unwrap().iter().map(|l| l.as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect::<Vec<_>>().join(" ")).collect();
    read_bound(ev, dir, &lines.join("\n"), 1000.0)
}
const SHAPES: [&[[i64; 2]]; 7] = [
    &[[0, 0], [8, 0], [8, 8], [0, 8]],
    &[[0, 0], [16, 0], [16, 8], [0, 8]],
    &[[0, 0], [12, 0], [12, 6], [6, 6], [6, 12], [0, 12]],
    &[[0, 0], [10, 0], [14, 8], [6, 14], [-4, 8]],
    &[[0, 0], [12, 2], [10, 14], [-2, 12]],
    &[[0, 0], [8, 0], [0, 8]],
    &[[-8, -8], [8, -8], [8, 8], [-8, 8]],
];
fn bodies(rng: &mut Rng, dir: &str, ev: &mut Vec<Value>) {
    for _ in 0..(1 + rng.below(2)) {
        let k = *rng.pick(&[0.01, 0.25, 1.0, 1.0, 100.0]);
        let unit = 1000.0 / k;
        let mut n = 0;
        let mut names: Vec<String> = (*rng.pick(&[&["a", "b", "c", "d", "e", "f"][..], &["A1", "a1", "1", "12", "end", "polygon"][..], &["x", "y", "xy", "1e5", "0", "material"][..]])).iter().map(|s| s.to_string()).collect();
        if rng.chance(1, 10) { names[0] = "-a".into() }
        // the outline, sometimes a hole or a second body, sometimes touching
        let mut polys: Vec<Vec<[i64; 2]>> = vec![];
        let s = SHAPES[rng.below(7)];
        let r = rng.below(s.len());
        let stairs = rng.chance(1, 8);
        if stairs {
            // stairs: an outline of many corners
            let w = *rng.pick(&[4, 2, 2, 1]);
            let mut s = vec![[0, 0], [16, 0]];
            for t in 0..16 / w { let (x, y) = (16 - w * t, w * (t + 1)); s.push([x, y]); s.push([x - w, y]) }
            s.pop();
            s.push([0, 16]);
            let r = rng.below(s.len());
            polys.push((0..s.len()).map(|i| s[(i + r) % s.len()]).collect())
        } else {
            polys.push((0..s.len()).map(|i| s[(i + r) % s.len()]).collect())
        }
        match rng.below(5) {
            0 | 1 => { let (x, y, w) = (rng.int(1, 4), rng.int(1, 4), rng.int(1, 4)); polys.push(vec![[x, y], [x, y + w], [x + w, y + w], [x + w, y]]) }
            2 => { let x = rng.int(-16, -9); polys.push(vec![[x, 0], [x + 3, 1], [x + 1, 5]]) }
            _ => {}
        }
        if rng.chance(1, 2) { polys.reverse() }
        let mut items: Vec<String> = vec![];
        // (labels of the two ends, by wall)
        let mut walls: Vec<(String, String)> = vec![];
        for p in &polys {
            let mut own: Vec<Option<String>> = vec![];
            for _ in p { own.push(if rng.chance(2, 3) { n += 1; Some(if n <= names.len() && !rng.chance(1, 20) { names[n - 1].clone() } else if rng.chance(1, if stairs { 200 } else { 8 }) { names[0].clone() } else { format!("v{}", n) }) } else { None }) }
            let num = |rng: &mut Rng, x: i64| { let v = x as f64 * k; match rng.below(5) { 0 => format!("{:.4}", v), 1 => format!("{:?}", v), 2 => format!("{:e}", v), _ => format!("{}", v) } };
            let rows: Vec<String> = p.iter().zip(&own).map(|(x, l)| { let (a, b) = (num(rng, x[0]), num(rng, x[1])); match l { Some(l) => format!("{} {} {}", a, b, l), None => format!("{} {}", a, b) } }).collect();
            items.push(format!("polygon\n{}\nend", rows.join("\n")));
            for i in 0..p.len() { if let (Some(a), Some(b)) = (&own[i], &own[(i + 1) % p.len()]) { walls.push((a.clone(), b.clone())) } }
        }
        let mut rest: Vec<String> = vec![];
        let t = *rng.pick(&["0.2", "1", "2.5", "1e-3", "100"]);
        for _ in 0..*rng.pick(&[0, 1, 1, 1, 2]) { rest.push(match rng.below(3) { 0 => format!("condition planestress {}", t), 1 => format!("condition planestrain {}", t), _ => "condition axisymmetric".into() }) }
        for _ in 0..*rng.pick(&[0, 1, 1, 1, 2]) { rest.push(format!("material {}", *rng.pick(&["TEST", "AL6061", "AL6061", "TEST", "TEST", "STEEL", "al6061"]))) }
        if !walls.is_empty() {
            for _ in 0..rng.below(if stairs { 24 } else { 4 }) {
                let (a, b) = rng.pick(&walls).clone();
                let (a, b) = if rng.chance(1, 2) { (a, b) } else { (b, a) };
                let a = if rng.chance(1, if stairs { 120 } else { 25 }) { "nobody".to_string() } else { a };
                let b = if rng.chance(1, if stairs { 120 } else { 25 }) { "nobody".to_string() } else { b };
                if rng.chance(1, 2) {
                    let big = *rng.pick(&[9, 1000, 200_000_000]);
                    rest.push(format!("distributed_force {} {} {} {}", a, b, rng.int(-big, big), rng.int(-big, big)))
                } else {
                    rest.push(format!("distributed_constraint {} {} {}", a, b, if stairs && !rng.chance(1, 40) { *rng.pick(&["x", "y", "xy", "angle:0.5", "angle:-1.25"]) } else { *rng.pick(&["x", "y", "xy", "x", "y", "angle:0.5", "angle:-1.25", "z", "free2"]) }))
                }
            }
        }
        // polygons keep their order, everything else goes anywhere
        for r in rest { let i = rng.below(items.len() + 1); items.insert(i, r) }
        let mut text = items.join("\n");
        if rng.chance(1, 3) { text = spoil(rng, &text) }
        if rng.chance(1, 8) && !text.is_empty() { text = spoil(rng, &text) }
        if rng.chance(1, 25) { text += *rng.pick(&["\n\npolygon", "\nend", "\nlabel a", " "]) }
        read_bound(ev, dir, &text, unit)
    }
}
/// a file of a given name and content, read by one of the two readers
fn ext(o: &Value, dir: &str, ev: &mut Vec<Value>) {
    let (name, content, reader) = (o["name"].as_str().unwrap(), o["content"].as_str().unwrap(), o["reader"].as_str().unwrap());
    let path = std::path::Path::new(dir).join("named").join(name);
    let _ = std::fs::remove_dir_all(std::path::Path::new(dir).join("named"));
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    match content {
        "bmsh" => std::fs::write(&path, "$Header\nversion 1\nmaterial TEST\ncondition axisymmetric\n$EndHeader\n$Nodes\ncount 0\n$EndNodes\n$Elements\ncount 0\n$EndElements\n$Constraints\ncount 0\n$EndConstraints\n$Forces\ncount 0\n$EndForces\n$DistForces\ncount 0\n$EndDistForces").unwrap(),
        "bbnd" => std::fs::write(&path, "polygon\n0 0 a\n4 0 b\n4 4\nend\nmaterial TEST").unwrap(),
        _ => {}
    }
    let r = if reader == "bmsh" { guard(|| file::read_to_elas(&path).is_ok()) } else { guard(|| file::read_to_bound(&path).is_ok()) };
    let mut e = o.clone();
    e["op"] = json!("ext");
    e["res"] = json!(if r == Ok(true) { "ok" } else { "refused" });
    ev.push(e);
}

fn main() {
    let a = args();
    let dir = if a.scratch.is_empty() { let d = std::env::temp_dir().join(format!("files.{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d.display().to_string() } else { a.scratch.clone() };
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        "meshes" => meshes(rng, &dir, ev),
        "meshscn" => mesh_scn(&a.scn[c as usize], &dir, ev),
        "bodies" => bodies(rng, &dir, ev),
        "bodyscn" => body_scn(&a.scn[c as usize], &dir, ev),
        "ext" => ext(&a.scn[c as usize], &dir, ev),
        m => panic!("unknown mode {}", m),
    });
}
