//! Models, their files and what is logged of them.
#![allow(dead_code)]
use bugi::element::constraint::Constraint;
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, ElementDescriptor, NodeId};
use bugi::file;
use drivers::*;

/// x as whole part and millionths
pub fn dec(x: f64) -> [i64; 2] {
    if !x.is_finite() || x.abs() > 1.9e9 { return [BAD, 0] }
    let w = x.floor();
    let f = ((x - w) * 1e6).round() as i64;
    if f >= 1_000_000 { [w as i64 + 1, f - 1_000_000] } else { [w as i64, f] }
}
/// a decimal number as the formats write it
pub fn number(s: &str) -> Option<f64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit() || b"+-.eE".contains(&b)) { return None }
    s.parse().ok()
}
pub fn angle(s: &str) -> Option<f64> { s.strip_prefix("angle:").and_then(number) }

/// x in logged units, BAD if it is between two of them
pub fn on_grid(x: f64, unit: f64) -> i64 { let y = x * unit; if (y - y.round()).abs() > 1e-9 || (y.round() == 0.0 && x != 0.0) { BAD } else { q(x, unit) } }

/// the lines of a text, taken apart; unit: how many logged units of length one length unit has
pub fn lex(text: &str, unit: f64) -> Vec<Value> {
    text.split('\n').map(|line| {
        let toks: Vec<Value> = if line.is_empty() { vec![] } else {
            line.split(' ').map(|t| {
                let parts: Vec<Value> = t.split('/').map(|p| {
                    let u = if !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit()) { p.parse::<u64>().map(|x| x.min(BAD as u64) as i64).unwrap_or(-1) } else { -1 };
                    let n = number(p);
                    json!({"u": u, "d": n.map(|x| dec(x).to_vec()).unwrap_or(vec![]), "v": n.map(|x| on_grid(x, unit)).unwrap_or(BAD)})
                }).collect();
                let a = angle(t);
                let kind = match t { "x" | "y" | "xy" => t.to_string(), _ => a.map(|x| format!("angle:{}", x)).unwrap_or(String::new()) };
                let label = !t.is_empty() && t.bytes().all(|b| b.is_ascii_alphanumeric());
                json!({"s": t, "p": parts, "a": a.map(|x| vec![q(x, 1e6)]).unwrap_or(vec![]), "k": kind, "al": label})
            }).collect()
        };
        json!({"h": line.starts_with('#'), "t": toks})
    }).collect()
}

pub fn con_json(c: Constraint) -> Value {
    match c {
        Constraint::AngleFixed(a) => json!({"k": "angle", "a": [q(a, 1e6)]}),
        c => json!({"k": format!("{}", c), "a": []}),
    }
}
pub fn cond_json(c: Condition) -> Value {
    match c { Condition::PlaneStress(t) => json!(["stress", dec(t)]), Condition::PlaneStrain(t) => json!(["strain", dec(t)]), Condition::Axisymmetric => json!(["axi", [0, 0]]) }
}
pub fn vec_json(p: bugi::spatial::Point) -> Value { if p.dim() == 2 { json!([dec(p[0]), dec(p[1])]) } else { json!([[BAD, 0], [BAD, 0]]) } }
/// the constants of a material, as <<m, e>> with m the significant digits
pub fn consts(m: &bugi::element::material::Material) -> Value {
    let sci = |x: f64| -> Value {
        if x == 0.0 { return json!([0, 0]) }
        let t = format!("{:.6e}", x);
        let (a, b) = t.split_once('e').unwrap();
        let d = a.replace('.', "");
        let d = d.trim_end_matches('0');
        let digits = d.trim_start_matches('-').len() as i64;
        match (d.parse::<i64>(), b.parse::<i64>()) { (Ok(m), Ok(e)) => json!([m, e - digits + 1]), _ => json!([BAD, 0]) }
    };
    json!([sci(m.youngs), sci(m.poisson), sci(m.density)])
}
pub fn observe(e: &ElementAssemblage) -> Value {
    let mut forces: Vec<Value> = e.conc_forces().into_iter().map(|(n, f)| json!([n.into_idx(), vec_json(f)])).collect();
    let mut dist: Vec<Value> = e.dist_forces().into_iter().map(|((a, b), f)| json!([a.into_idx(), b.into_idx(), vec_json(f)])).collect();
    forces.sort_by_key(|x| x.to_string());
    dist.sort_by_key(|x| x.to_string());
    json!({
        "mat": e.material().name, "consts": consts(&e.material()), "cond": cond_json(e.condition()),
        "nodes": e.nodes().into_iter().map(vec_json).collect::<Vec<_>>(),
        "els": e.element_descriptors().into_iter().map(|d| d.into_parts().iter().map(|n| n.into_idx()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "cons": e.constraints().into_iter().map(|(_, c)| con_json(c)).collect::<Vec<_>>(),
        "forces": forces, "dist": dist,
    })
}
pub fn nothing() -> Value { json!({"mat": "", "consts": [], "cond": ["", [0, 0]], "nodes": [], "els": [], "cons": [], "forces": [], "dist": []}) }

pub fn con(k: &str, a: f64) -> Constraint { match k { "x" => Constraint::XFixed, "y" => Constraint::YFixed, "xy" => Constraint::XYFixed, "free" => Constraint::Free, _ => Constraint::AngleFixed(a) } }
pub fn mat(m: &str) -> Material { m.parse().unwrap() }

/// additions to a model
#[derive(Default, Clone)]
pub struct Adds { pub cons: Vec<(usize, &'static str, f64)>, pub forces: Vec<(usize, [f64; 2])>, pub dist: Vec<(usize, usize, [f64; 2])> }
impl Adds {
    fn log(&self, e: &mut Value) {
        e["cons"] = json!(self.cons.iter().map(|(n, k, a)| json!({"n": n, "k": k, "a": if *k == "angle" { vec![q(*a, 1e6)] } else { vec![] }})).collect::<Vec<_>>());
        e["forces"] = json!(self.forces.iter().map(|(n, f)| json!([n, [dec(f[0]), dec(f[1])]])).collect::<Vec<_>>());
        e["dist"] = json!(self.dist.iter().map(|(a, b, f)| json!([a, b, [dec(f[0]), dec(f[1])]])).collect::<Vec<_>>());
    }
    fn apply(&self, e: &mut ElementAssemblage) {
        for (n, k, a) in &self.cons { e.add_constraint(NodeId::new(*n), con(k, *a)) }
        for (n, f) in &self.forces { e.add_conc_force(NodeId::new(*n), (f[0], f[1]).into()) }
        for (a, b, f) in &self.dist { e.add_dist_line_force(NodeId::new(*a), NodeId::new(*b), (f[0], f[1]).into()) }
    }
}
/// a whole model
#[derive(Clone)]
pub struct Model { pub mat: &'static str, pub cond: (&'static str, f64), pub nodes: Vec<[f64; 2]>, pub els: Vec<[usize; 3]>, pub adds: Adds }

/// a decimal with at most `digits` decimals
pub fn decimal(rng: &mut Rng, big: f64, digits: i32) -> f64 {
    let d = rng.below(digits as usize + 1) as i32;
    let s = 10f64.powi(d);
    let x = rng.int(-((big * s) as i64).max(1), ((big * s) as i64).max(1)) as f64 / s;
    if rng.chance(1, 12) { 0.0 } else if rng.chance(1, 30) { -0.0 } else { x }
}
pub fn adds(rng: &mut Rng, n: usize, els: &[[usize; 3]]) -> Adds {
    let mut a = Adds::default();
    let scale = *rng.pick(&[1.0, 10.0, 1e4, 2e8]);
    let th = *rng.pick(&[0.5, -1.25, 0.7853981633974483, 3.0, 0.1]);
    for _ in 0..rng.below(5) { let k = *rng.pick(&["x", "y", "xy", "x", "y", "angle", "angle", "free"]); a.cons.push((rng.below(n), k, th)) }
    for _ in 0..rng.below(4) { a.forces.push((rng.below(n), [decimal(rng, scale, 3), decimal(rng, scale, 3)])) }
    for _ in 0..rng.below(4) {
        let (x, y) = if rng.chance(3, 4) && !els.is_empty() { let t = rng.pick(els); let j = rng.below(3); (t[j], t[(j + 1) % 3]) } else { let x = rng.below(n); (x, (x + 1 + rng.below(n - 1)) % n) };
        a.dist.push(if rng.chance(1, 2) { (x, y, [decimal(rng, scale, 3), decimal(rng, scale, 3)]) } else { (y, x, [decimal(rng, scale, 3), decimal(rng, scale, 3)]) })
    }
    a
}
pub fn model(rng: &mut Rng) -> Model {
    // a strip of triangles, its nodes in any order
    let n = 3 + if rng.chance(1, 80) { 97 + rng.below(40) } else if rng.chance(1, 12) { 9 + rng.below(30) } else { rng.below(6) };
    let scale = *rng.pick(&[1e-3, 1.0, 1.0, 1e3, 1e6]);
    let p = rng.perm(n);
    let mut nodes = vec![[0.0; 2]; n];
    let digits = *rng.pick(&[0, 1, 6]);
    for i in 0..n {
        let j = 10f64.powi(digits);
        let r = |x: f64| if scale < 1.0 { (x * scale * 1e6).round() / 1e6 } else { (x * scale * j).round() / j };
        nodes[p[i]] = [r(3.0 * i as f64 + rng.int(0, 100) as f64 / 101.0 - 4.0), r((i % 2) as f64 * 4.0 + rng.int(0, 100) as f64 / 103.0 - 2.0)]
    }
    let mut els: Vec<[usize; 3]> = (0..n - 2).map(|i| { let t = [p[i], p[i + 1], p[i + 2]]; if rng.chance(1, 2) { [t[1], t[2], t[0]] } else { [t[0], t[2], t[1]] } }).collect();
    if rng.chance(1, 2) { rng.shuffle(&mut els) }
    if rng.chance(1, 6) { els.truncate(rng.below(els.len() + 1)) }
    let t = *rng.pick(&[1.0, 0.1, 0.2, 2.5, 0.00625, 100.0, 0.123456]);
    let cond = (*rng.pick(&["stress", "strain", "axi"]), t);
    let adds = adds(rng, n, &els);
    Model { mat: *rng.pick(&["TEST", "AL6061"]), cond, nodes, els, adds }
}
pub fn build(ev: &mut Vec<Value>, m: &Model) -> Option<ElementAssemblage> {
    let mut e = json!({"op": "build", "mat": m.mat, "nodes": m.nodes.iter().map(|p| [dec(p[0]), dec(p[1])]).collect::<Vec<_>>(), "els": m.els});
    let c = match m.cond.0 { "stress" => Condition::PlaneStress(m.cond.1), "strain" => Condition::PlaneStrain(m.cond.1), _ => Condition::Axisymmetric };
    e["cond"] = cond_json(c);
    m.adds.log(&mut e);
    let r = guard(|| {
        let mut a = ElementAssemblage::new(mat(m.mat), c);
        let _ = a.add_nodes(&m.nodes.iter().map(|p| (p[0], p[1])).collect::<Vec<_>>());
        for t in &m.els { a.add_element(ElementDescriptor::new([NodeId::new(t[0]), NodeId::new(t[1]), NodeId::new(t[2])])) }
        m.adds.apply(&mut a);
        a
    });
    e["res"] = json!(if r.is_ok() { "ok" } else { "panic" });
    e["obs"] = r.as_ref().map(|a| observe(a)).unwrap_or(nothing());
    ev.push(e);
    r.ok()
}
pub fn more(ev: &mut Vec<Value>, a: &mut ElementAssemblage, x: &Adds) {
    let mut e = json!({"op": "more"});
    x.log(&mut e);
    let r = guard(|| x.apply(a));
    e["res"] = json!(if r.is_ok() { "ok" } else { "panic" });
    e["obs"] = guard(|| observe(a)).unwrap_or(nothing());
    ev.push(e);
}
/// save, and load again
pub fn save(ev: &mut Vec<Value>, dir: &str, a: ElementAssemblage) -> Option<ElementAssemblage> {
    let path = format!("{}/saved.bmsh", dir);
    let _ = std::fs::remove_file(&path);
    let r = guard(|| file::save_elas(&path, a));
    let text = std::fs::read_to_string(&path);
    let ok = r.is_ok() && text.is_ok();
    ev.push(json!({"op": "save", "res": if ok { "ok" } else { "panic" }, "lines": lex(&text.unwrap_or(String::new()), 1.0)}));
    if !ok { return None }
    let r = guard(|| file::read_to_elas(&path));
    let r = match r { Ok(Ok(a)) => Some(a), _ => None };
    ev.push(json!({"op": "load", "res": if r.is_some() { "ok" } else { "refused" }, "obs": r.as_ref().map(observe).unwrap_or(nothing())}));
    r
}
pub fn read(ev: &mut Vec<Value>, dir: &str, text: &str) -> Option<ElementAssemblage> {
    let path = format!("{}/given.bmsh", dir);
    std::fs::write(&path, text).unwrap();
    let r = match guard(|| file::read_to_elas(&path)) { Ok(Ok(a)) => Some(a), _ => None };
    ev.push(json!({"op": "read", "text": text, "lines": lex(text, 1.0), "res": if r.is_some() { "ok" } else { "refused" }, "obs": r.as_ref().map(observe).unwrap_or(nothing())}));
    r
}

pub fn written(rng: &mut Rng, x: f64) -> String {
    match rng.below(6) { 0 => format!("{:.6}", x), 1 => format!("{:?}", x), 2 if x == 0.0 || x.abs() > 1e-3 => format!("{:e}", x), 3 if x > 0.0 => format!("+{}", x), _ => format!("{}", x) }
}
/// a model written by someone else
pub fn text(rng: &mut Rng, m: &Model) -> String {
    let mut l: Vec<String> = vec!["$Header".into(), "version 1".into(), format!("material {}", m.mat)];
    l.push(match m.cond.0 { "stress" => format!("condition planestress {}", written(rng, m.cond.1)), "strain" => format!("condition planestrain {}", written(rng, m.cond.1)), _ => "condition axisymmetric".into() });
    l.push("$EndHeader".into());
    let mut sec = |name: &str, items: Vec<String>| { l.push(format!("${}", name)); l.push(format!("count {}", items.len())); l.extend(items); l.push(format!("$End{}", name)) };
    sec("Nodes", m.nodes.iter().enumerate().map(|(i, p)| format!("{} {}/{}", i, written(rng, p[0]), written(rng, p[1]))).collect());
    sec("Elements", m.els.iter().enumerate().map(|(i, t)| format!("{} {}/{}/{}", i, t[0], t[1], t[2])).collect());
    sec("Constraints", m.adds.cons.iter().filter(|c| c.1 != "free").map(|(n, k, a)| if *k == "angle" { format!("{} angle:{}", n, a) } else { format!("{} {}", n, k) }).collect());
    sec("Forces", m.adds.forces.iter().map(|(n, f)| format!("{} {}/{}", n, written(rng, f[0]), written(rng, f[1]))).collect());
    sec("DistForces", m.adds.dist.iter().map(|(a, b, f)| format!("{} {} {}/{}", a, b, written(rng, f[0]), written(rng, f[1]))).collect());
    if rng.chance(1, 2) {
        for _ in 0..rng.below(8) {
            let at = rng.below(l.len() + 1);
            l.insert(at, (*rng.pick(&["", "", "# a comment", "#", "#$Nodes", "# 1 2/3"])).into())
        }
    }
    l.join("\n") + *rng.pick(&["", "\n", "\n\n", "\n# end"])
}
/// a slip of the pen
pub fn spoil(rng: &mut Rng, s: &str) -> String {
    let mut b: Vec<u8> = s.bytes().collect();
    let i = rng.below(b.len());
    match rng.below(6) {
        0 => { b.remove(i); }
        1 => { let c = b[i]; b.insert(i, c) }
        2 => { b.swap(i, (i + 1) % s.len()) }
        3 => { b[i] = *rng.pick(b"0123456789/ .-$#abxy\n") }
        4 => { b.insert(i, *rng.pick(b"0123456789/ .-$#abxy\n")) }
        _ => { b.truncate(i) }
    }
    String::from_utf8(b).unwrap()
}
