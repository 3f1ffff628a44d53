//! The program itself, run on files in a directory of its own.
use bugi::element::constraint::Constraint;
use bugi::element::{Deformation, ElementAssemblage};
use bugi::file;
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::visual::{color, VisOptions, Visualizer};
use drivers::*;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
#[path = "../filekit.rs"]
mod filekit;
use filekit::*;

struct Ran { code: i64, out: String, said: bool }
/// run the program in dir
fn run(dir: &Path, args: &[String]) -> Ran {
    let bin = std::env::current_exe().unwrap().parent().unwrap().join("bugi");
    let mut p = Command::new("timeout").args(["-s", "KILL", "60"]).arg(bin).args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0").spawn().unwrap();
    let (mut so, mut se) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let a = std::thread::spawn(move || { let mut s = Vec::new(); let _ = so.read_to_end(&mut s); s });
    let b = std::thread::spawn(move || { let mut s = Vec::new(); let _ = se.read_to_end(&mut s); s });
    let t = Instant::now();
    let code = loop {
        match p.try_wait().unwrap() {
            // killed by timeout: it did not return
            Some(s) => break match s.code() { Some(137) => -2, None if t.elapsed() > Duration::from_secs(59) => -2, c => c.unwrap_or(-1) as i64 },
            None => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let out = String::from_utf8_lossy(&a.join().unwrap()).to_string();
    let said = !b.join().unwrap().is_empty();
    Ran { code, out, said }
}
/// an empty directory
fn fresh(dir: &str, name: &str) -> PathBuf {
    let d = Path::new(dir).join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn new_files(d: &Path, known: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).filter(|n| !known.contains(&n.as_str())).collect();
    v.sort();
    v
}
fn opt<'a>(o: &'a Value, k: &str) -> &'a str { o[k].as_str().unwrap() }
fn flag(args: &mut Vec<String>, short: &str, v: &str, rng: &mut Rng, long: &str) {
    if v.is_empty() { return }
    if long == "showmesh" || rng.chance(1, 2) {
        if rng.chance(1, 2) { args.push(format!("--{}={}", long, v)) } else { args.push(format!("--{}", long)); args.push(v.into()) }
    } else { args.push(format!("-{}", short)); args.push(v.into()) }
}
/// seventeen digits, the first at 10^e
fn digits(x: f64, e: i32) -> [i64; 2] {
    if !x.is_finite() { return [BAD, 0] }
    let m = x / 10f64.powi(e) * 1e8;
    if m.abs() > 1.9e9 { return [BAD, 0] }
    let hi = m.floor();
    [hi as i64, ((m - hi) * 1e8).round() as i64]
}
fn expo(x: f64) -> i32 { if x.is_finite() && x > 0.0 { x.log10().floor() as i32 } else { 0 } }

fn greatest(v: Vec<f64>) -> f64 { v.into_iter().fold(f64::NEG_INFINITY, |a, x| { if x.is_nan() || a.is_nan() { f64::NAN } else if x > a { x } else { a } }) }
fn solve<'a>(e: &'a mut ElementAssemblage, s: &str) -> Option<Deformation<'a>> {
    guard(move || match s { "densegauss" => e.calc_displacements::<DenseGaussSolver>(), "cholesky" => e.calc_displacements::<CholeskyEnvelopeSolver>(), _ => e.calc_displacements::<GaussSeidelSolver>() }).ok()
}
fn options(c: &str, m: &str, size: Option<u32>) -> VisOptions {
    let v = VisOptions::new();
    let v = match c { "hot" => v.color_map(Box::new(|x| color::hot_map(x))), "rgb" => v.color_map(Box::new(|x| color::rgb_map(x))), _ => v };
    let v = match size { Some(s) => v.im_size(s), None => v };
    v.show_mesh(m == "true")
}
type Img = image::RgbImage;
fn img(p: &Path) -> Option<Img> { image::open(p).ok().map(|i| i.to_rgb8()) }
/// how many of a thousand pixels differ
fn differ(a: &Option<Img>, b: &Option<Img>) -> i64 {
    let (Some(a), Some(b)) = (a, b) else { return 1000 };
    if a.dimensions() != b.dimensions() { return 1000 }
    let n = a.pixels().zip(b.pixels()).filter(|(x, y)| x != y).count() as i64;
    let all = (a.width() * a.height()) as i64;
    (n * 1000 + all - 1) / all
}
fn drawn(d: &Path, mut v: Visualizer, o: VisOptions) -> Option<Img> {
    let p = d.join("library.png");
    let r = guard(|| v.draw(p.to_str().unwrap(), o));
    let i = if r.is_ok() { img(&p) } else { None };
    let _ = std::fs::remove_file(&p);
    i
}
fn dims(d: &Path, files: &[String]) -> Vec<[i64; 2]> { files.iter().filter(|n| n.ends_with(".png")).map(|n| img(&d.join(n)).map(|i| [i.width() as i64, i.height() as i64]).unwrap_or([BAD, BAD])).collect() }
/// the candidates for an option: all its values, or with large images only what was given
fn cands<'a>(given: &'a str, all: &[&'a str], big: bool) -> Vec<&'a str> { if big && all.contains(&given) { vec![given] } else { all.to_vec() } }
fn scale_cands<'a>(given: &'a str) -> Vec<&'a str> { if given.is_empty() || given.parse::<f64>().is_err() { vec!["50.0"] } else { vec![given, "50.0"] } }
fn size_of(i: &str) -> Option<u32> { i.parse().ok() }

fn linear(rng: &mut Rng, ev: &mut Vec<Value>, d: &Path, name: &str, o: &Value, work: &Path) {
    let mut args = vec!["linear".to_string(), name.into()];
    let mut tail = vec![];
    for (k, l) in [("c", "colormap"), ("n", "nodevalue"), ("s", "solver"), ("m", "showmesh"), ("x", "scale"), ("i", "imsize"), ("o", "out")] { flag(if rng.chance(1, 3) { &mut tail } else { &mut args }, k, opt(o, k), rng, l) }
    args.extend(tail);
    let before = new_files(d, &[]);
    let r = run(d, &args);
    let files = new_files(d, &before.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    // what the library says
    let mut lib = json!({});
    let mut e0 = [0, 0];
    let mut diff: Vec<Value> = vec![];
    let own = files.iter().find(|n| n.ends_with(".png")).and_then(|n| img(&d.join(n)));
    let size = size_of(opt(o, "i"));
    for s in ["densegauss", "cholesky", "gaussseidel"] {
        let el = guard(|| file::read_to_elas(d.join(name)));
        lib[s] = json!([]);
        let Ok(Ok(mut el)) = el else { continue };
        let Some(dfm) = solve(&mut el, s) else { continue };
        let Ok((vm, dn)) = guard(|| (dfm.von_mises(), dfm.displacement_norms())) else { continue };
        let (a, b) = (greatest(vm.clone()), greatest(dn.clone()));
        if !a.is_finite() || !b.is_finite() { continue }
        if s == "densegauss" || e0 == [0, 0] { e0 = [expo(a), expo(b)] }
        lib[s] = json!([digits(a, e0[0]), digits(b, e0[1])]);
        if r.code != 0 { continue }
        for c in cands(opt(o, "c"), &["", "hot", "rgb"], size.is_none()) {
            for n in ["displacement", "vonmises"] {
                for m in cands(opt(o, "m"), &["true", "false"], size.is_none()) {
                    for x in scale_cands(opt(o, "x")) {
                        if size.is_none() && (!opt(o, "s").is_empty() && s != opt(o, "s")) { continue }
                        let mut v = dfm.visualize(x.parse().unwrap());
                        v.set_vals(if n == "vonmises" { vm.clone() } else { dn.clone() });
                        let i = drawn(work, v, options(c, m, Some(size.unwrap_or(1024))));
                        diff.push(json!([[s, c, n, m, x], differ(&own, &i)]))
                    }
                }
            }
        }
    }
    let val = |key: &str| -> Option<f64> { r.out.lines().find_map(|l| l.strip_prefix(key).and_then(|v| v.parse().ok())) };
    let vals: Vec<[i64; 2]> = match (val("max von mises: "), val("max displacement: ")) { (Some(a), Some(b)) => vec![digits(a, e0[0]), digits(b, e0[1])], _ => vec![] };
    let dm = dims(d, &files);
    ev.push(json!({"op": "linear", "o": o, "args": args, "code": r.code, "said": r.said, "out": r.out, "vals": vals, "lib": lib, "files": files, "dims": dm, "diff": diff}));
    for f in files { let _ = std::fs::remove_file(d.join(f)); }
}
fn dec2(x: f64) -> [i64; 2] { dec(x) }
fn modal(rng: &mut Rng, ev: &mut Vec<Value>, d: &Path, name: &str, o: &Value, work: &Path) {
    let mut args = vec!["modal".to_string(), name.into(), opt(o, "num").into()];
    for (k, l) in [("c", "colormap"), ("m", "showmesh"), ("x", "scale"), ("i", "imsize")] { flag(&mut args, k, opt(o, k), rng, l) }
    let before = new_files(d, &[]);
    let r = run(d, &args);
    let files = new_files(d, &before.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let n: usize = opt(o, "num").parse().unwrap_or(0);
    let mut can = false;
    let mut lib: Vec<[i64; 2]> = vec![];
    let mut diff: Vec<Value> = vec![];
    let size = size_of(opt(o, "i"));
    if let Ok(Ok(mut el)) = guard(|| file::read_to_elas(d.join(name))) {
        if let Ok(modes) = guard(|| el.calc_modes(n)) {
            can = modes.iter().all(|m| m.frequency().map_or(false, |f| f.is_finite()));
            lib = modes.iter().map(|m| dec2(m.frequency().unwrap_or(f64::NAN))).collect();
            if r.code == 0 {
                let own: Vec<Option<Img>> = files.iter().map(|f| img(&d.join(f))).collect();
                for c in cands(opt(o, "c"), &["", "hot", "rgb"], size.is_none()) {
                    for m in cands(opt(o, "m"), &["true", "false"], size.is_none()) {
                        for x in scale_cands(opt(o, "x")) {
                            let ds: Vec<i64> = modes.iter().enumerate().map(|(i, dfm)| {
                                let mut v = dfm.visualize(x.parse().unwrap());
                                v.set_vals(dfm.displacement_norms());
                                differ(own.get(i).unwrap_or(&None), &drawn(work, v, options(c, m, Some(size.unwrap_or(1024)))))
                            }).collect();
                            diff.push(json!([[c, m, x], ds]))
                        }
                    }
                }
            }
        }
    }
    let vals: Vec<Value> = r.out.lines().map(|l| {
        let t: Vec<&str> = l.split(' ').collect();
        if t.len() == 5 && t[0] == "mode" && t[2] == "frequency" && t[3] == "(rad/s):" { json!([t[1], t[4].parse().map(dec2).unwrap_or([BAD, 1])]) } else { json!(["?", [BAD, 1]]) }
    }).collect();
    let dm = dims(d, &files);
    ev.push(json!({"op": "modal", "o": o, "args": args, "code": r.code, "said": r.said, "vals": vals, "can": can, "lib": lib, "files": files, "dims": dm, "diff": diff}));
    for f in files { let _ = std::fs::remove_file(d.join(f)); }
}

/// bodies whose sides are divided by both algorithms for all the sizes in use
const BODIES: [&[[i64; 2]]; 5] = [&[[0, 0], [8, 0], [8, 8], [0, 8]], &[[0, 0], [12, 0], [12, 5], [0, 5]], &[[0, 0], [10, 0], [10, 5], [5, 5], [5, 10], [0, 10]], &[[0, 0], [6, 0], [10, 8], [0, 8]], &[[-4, -4], [7, -4], [7, 4], [-4, 4]]];
fn body_text(rng: &mut Rng) -> String {
    let s = BODIES[rng.below(5)];
    let r = rng.below(s.len());
    let p: Vec<[i64; 2]> = (0..s.len()).map(|i| s[(i + r) % s.len()]).collect();
    let mut items = vec![format!("polygon\n{}\nend", p.iter().enumerate().map(|(i, x)| format!("{} {} p{}", x[0], x[1], i)).collect::<Vec<_>>().join("\n"))];
    if s.len() == 4 && s[0] == [0, 0] && s[2] == [8, 8] && rng.chance(1, 2) { items.push("polygon\n3 3\n3 5\n5 5\n5 3\nend".into()) }
    items.push(format!("material {}", *rng.pick(&["TEST", "AL6061"])));
    items.push((*rng.pick(&["condition planestress 0.5", "condition planestrain 2"])).into());
    let k = rng.below(p.len());
    let wall = |i: usize, swap: bool| { let (a, b) = (i % p.len(), (i + 1) % p.len()); if swap { format!("p{} p{}", b, a) } else { format!("p{} p{}", a, b) } };
    items.push(format!("distributed_constraint {} xy", wall(k, rng.chance(1, 2))));
    if rng.chance(1, 2) { items.push(format!("distributed_constraint {} {}", wall(k + 1 + rng.below(p.len() - 1), rng.chance(1, 2)), *rng.pick(&["x", "y"]))) }
    for _ in 0..rng.below(3) { items.push(format!("distributed_force {} {} {}", wall(k + rng.below(p.len()), rng.chance(1, 2)), rng.int(-900, 900), rng.int(-900, 900))) }
    if rng.chance(1, 2) { let n = items.len(); items.swap(n - 1, rng.below(n - 1) + 1) }
    items.join("\n")
}
fn mesh(rng: &mut Rng, ev: &mut Vec<Value>, d: &Path, text: &str, o: &Value, work: &Path) -> Option<String> {
    std::fs::write(d.join("body.bbnd"), text).unwrap();
    let mut args = vec!["mesh".to_string()];
    let at = rng.below(2);
    if at == 0 { args.push("body.bbnd".into()) }
    for (k, l) in [("a", "mesher"), ("size", "elementsize"), ("i", "imsize"), ("I", "imageout"), ("M", "meshout")] { flag(&mut args, match k { "a" => "m", "size" => "s", k => k }, opt(o, k), rng, l) }
    if at == 1 { args.push("body.bbnd".into()) }
    let before = new_files(d, &[]);
    let r = run(d, &args);
    let files = new_files(d, &before.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let h: f64 = opt(o, "size").parse().unwrap_or(1.0);
    let unit = 1000.0 / h;
    let dm = dims(d, &files);
    let saved = files.iter().find(|n| n.ends_with(".bmsh")).cloned();
    let mut e = json!({"op": "mesh", "o": o, "args": args, "code": r.code, "said": r.said, "files": files, "dims": dm, "text": text, "lines": lex(text, unit), "read": false, "diff": 1000,
        "model": {"nodes": [], "tris": [], "mat": "", "cond": ["", [0, 0]], "forces": [], "cons": []}});
    if let Some(n) = &saved {
        if let Ok(Ok(el)) = guard(|| file::read_to_elas(d.join(n))) {
            e["read"] = json!(true);
            e["model"] = json!({
                "nodes": el.nodes().iter().map(|p| [q(p[0], unit), q(p[1], unit)]).collect::<Vec<_>>(),
                "tris": el.element_descriptors().into_iter().map(|x| x.into_parts().iter().map(|n| n.into_idx() + 1).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "mat": el.material().name, "cond": cond_json(el.condition()),
                "forces": el.dist_forces().iter().map(|((a, b), f)| json!([a.into_idx() + 1, b.into_idx() + 1, [q(f[0], 1.0), q(f[1], 1.0)]])).collect::<Vec<_>>(),
                "cons": el.constraints().iter().map(|(_, c)| if let Constraint::AngleFixed(_) = c { "angle".to_string() } else { format!("{}", c) }).collect::<Vec<_>>(),
            });
            let mut v: Visualizer = el.nodes().into();
            v.set_edges(el.edges());
            let pic = files.iter().find(|n| n.ends_with(".png")).and_then(|n| img(&d.join(n)));
            e["diff"] = json!(differ(&pic, &drawn(work, v, options("", "true", Some(size_of(opt(o, "i")).unwrap_or(1024))))));
        }
    }
    ev.push(e);
    for f in files { if Some(&f) != saved.as_ref() || r.code != 0 { let _ = std::fs::remove_file(d.join(f)); } }
    if r.code == 0 { saved } else { None }
}

fn off_axis(m: &mut Model) {
    if m.cond.0 != "axi" { return }
    let low = m.nodes.iter().fold(f64::INFINITY, |a, p| a.min(p[0]));
    for p in m.nodes.iter_mut() { p[0] = ((p[0] - low) * 1e6).round() / 1e6 + 1.0 }
}
/// a model that nothing can move, and its file
fn supported_file(rng: &mut Rng) -> String {
    let mut m = model(rng);
    while m.els.is_empty() { m = model(rng) }
    let n = m.nodes.len();
    let mut held = vec![false; m.els.len()];
    let other = std::mem::take(&mut m.adds.cons);
    for i in 0..m.els.len() {
        if held[i] { continue }
        // everything that hangs together by sides with this element
        held[i] = true;
        loop {
            let more: Vec<usize> = (0..m.els.len()).filter(|j| !held[*j] && (0..m.els.len()).any(|k| held[k] && m.els[k].iter().filter(|x| m.els[*j].contains(x)).count() >= 2)).collect();
            if more.is_empty() { break }
            for j in more { held[j] = true }
        }
        let t = m.els[i];
        let (a, b) = if rng.chance(1, 2) { (t[0], t[1]) } else { (t[2], t[0]) };
        m.adds.cons.push((a, "xy", 0.0));
        let (dx, dy) = ((m.nodes[a][0] - m.nodes[b][0]).abs(), (m.nodes[a][1] - m.nodes[b][1]).abs());
        m.adds.cons.push((b, if rng.chance(1, 3) { "xy" } else if dx > dy { "y" } else { "x" }, 0.0));
    }
    for k in 0..n { if !m.els.iter().any(|t| t.contains(&k)) { m.adds.cons.push((k, "xy", 0.0)) } }
    // further constraints, at nodes that have none yet
    for c in other { if !m.adds.cons.iter().any(|x| x.0 == c.0) { m.adds.cons.push(c) } }
    off_axis(&mut m);
    text(rng, &m)
}
const LINEAR: [&str; 7] = ["c", "n", "s", "m", "x", "i", "o"];
fn pick_linear(rng: &mut Rng) -> Value {
    let mut o = json!({});
    for k in LINEAR { o[k] = json!("") }
    o["i"] = json!("64");
    o["s"] = json!(*rng.pick(&["", "densegauss", "cholesky", "gaussseidel"]));
    o["n"] = json!(*rng.pick(&["", "vonmises"]));
    o["x"] = json!(*rng.pick(&["", "1", "1000"]));
    o
}
fn calls(rng: &mut Rng, ev: &mut Vec<Value>, s: &Value, dir: &str, thorough: bool) {
    let d = fresh(dir, "cwd");
    let work = fresh(dir, "work");
    let o = &s["o"];
    match s["sub"].as_str().unwrap() {
        "linear" => { std::fs::write(d.join("in.bmsh"), supported_file(rng)).unwrap(); linear(rng, ev, &d, "in.bmsh", o, &work) }
        "modal" => { std::fs::write(d.join("in.bmsh"), supported_file(rng)).unwrap(); modal(rng, ev, &d, "in.bmsh", o, &work) }
        "mesh" => {
            for _ in 0..if thorough { 12 } else { 2 } {
            let d = fresh(dir, "cwd");
            let t = body_text(rng);
            if let Some(n) = mesh(rng, ev, &d, &t, o, &work) {
                let l = pick_linear(rng);
                linear(rng, ev, &d, &n, &l, &work);
                if rng.chance(1, 3) { modal(rng, ev, &d, &n, &json!({"c": "", "m": "", "x": "", "i": "64", "num": "2"}), &work) }
            }
            }
        }
        _ => {
            let good = supported_file(rng);
            std::fs::write(d.join("in.bmsh"), &good).unwrap();
            std::fs::write(d.join("body.bbnd"), body_text(rng)).unwrap();
            std::fs::write(d.join("spoiled.bmsh"), good.replacen("count", "cuont", 1)).unwrap();
            std::fs::write(d.join("spoiled.bbnd"), body_text(rng).replacen("end", "dne", 1)).unwrap();
            std::fs::write(d.join("nomaterial.bbnd"), "polygon\n0 0\n4 0\n4 4\n0 4\nend\ncondition axisymmetric").unwrap();
            std::fs::write(d.join("nocondition.bbnd"), "polygon\n0 0\n4 0\n4 4\n0 4\nend\nmaterial TEST").unwrap();
            std::fs::write(d.join("noext"), &good).unwrap();
            std::fs::create_dir(d.join("dir.bmsh")).unwrap();
            let args: Vec<String> = s["args"].as_array().unwrap().iter().map(|a| match a.as_str().unwrap() { "FILE" => "in.bmsh", "BODY" => "body.bbnd", "SPOILED" => "spoiled.bmsh", "SPOILEDBODY" => "spoiled.bbnd", "NOMATERIAL" => "nomaterial.bbnd", "NOCONDITION" => "nocondition.bbnd", x => x }.to_string()).collect();
            let r = run(&d, &args);
            ev.push(json!({"op": "misuse", "args": s["args"], "code": r.code, "said": r.said}));
        }
    }
}

fn main() {
    let a = args();
    let dir = if a.scratch.is_empty() { let d = std::env::temp_dir().join(format!("cli.{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d.display().to_string() } else { a.scratch.clone() };
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        "linear" | "modal" | "mesh" | "slips" | "misuse" => calls(rng, ev, &a.scn[c as usize], &dir, a.thorough),
        m => panic!("unknown mode {}", m),
    });
}
