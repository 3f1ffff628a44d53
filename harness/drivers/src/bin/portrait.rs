//! Pictures of boundaries and meshes.
use bugi::element::constraint::Constraint;
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::mesher::bounds::PlaneBoundary;
use bugi::mesher::plane::PlaneTriangulation;
use drivers::picture::*;
use drivers::*;

const SHAPES: [&[[i64; 2]]; 6] = [
    &[[0, 0], [4, 0], [4, 4], [0, 4]],
    &[[0, 0], [9, 0], [9, 3], [0, 3]],
    &[[0, 0], [6, 0], [6, 3], [3, 3], [3, 6], [0, 6]],
    &[[0, 0], [5, 0], [7, 4], [3, 7], [-2, 4]],
    &[[0, 0], [6, 1], [5, 7], [-1, 6]],
    &[[0, 0], [8, 0], [8, 8], [0, 8]],
];
const Q: f64 = 2000.0;

fn main() {
    let a = args();
    let file = format!("{}/image.png", if a.scratch.is_empty() { std::env::temp_dir().display().to_string() } else { a.scratch.clone() });
    drive(&a, |_, rng, ev| {
        let k = *rng.pick(&[1.0, 0.25, 1.0 / 1024.0, 32.0]);
        let n = rng.below(SHAPES.len());
        let mut polys: Vec<Vec<[i64; 2]>> = vec![SHAPES[n].to_vec()];
        if n == 5 { for i in 0..rng.below(3) { let (x, y) = (1 + 4 * i as i64, rng.int(1, 5)); polys.push(vec![[x, y], [x, y + 2], [x + 2, y + 2], [x + 2, y]]) } }
        let r = rng.below(polys[0].len());
        polys[0].rotate_left(r);
        let mut b = PlaneBoundary::new();
        if guard(|| {
            for p in &polys { b.store_polygon(&p.iter().map(|x| (x[0] as f64 * k, x[1] as f64 * k)).collect::<Vec<_>>()); }
            b.set_material(Material { name: "V", youngs: 1.0, poisson: 0.25, density: 1.0 });
            b.set_condition(Condition::PlaneStress(1.0));
            if rng.chance(1, 2) { let s = b.all_walls().next().unwrap(); b.store_distributed_constraint(s.0, s.1, Constraint::XFixed) }
        }).is_err() { ev.push(json!({"op": "buildpanic"})); return }
        if rng.chance(1, 2) {
            let all: Vec<[f64; 2]> = polys.iter().flatten().map(|p| [p[0] as f64, p[1] as f64]).collect();
            let size = 2 * rng.int(10, 20) as u32;
            if clear2(&all, size, 1e-9) {
                let r = guard(|| b.visualize());
                let z = Q as i64;
                ev.push(json!({"op": "walls", "polys": polys.iter().map(|p| p.iter().map(|x| [x[0] * z, x[1] * z]).collect::<Vec<_>>()).collect::<Vec<_>>(), "res": if r.is_ok() { "ok" } else { "panic" }}));
                if let Ok(mut vis) = r { shot(&mut vis, ev, size, rng.chance(5, 6), "hot", &file, false) } else { return }
            }
        }
        // a coarse mesh
        let h = k * *rng.pick(&[2.0, 3.0, 4.0]);
        let algo = *rng.pick(&["wrap", "chew", "ruppert"]);
        let mut vis = None;
        let r = guard(|| {
            let mut t = PlaneTriangulation::new(b);
            match algo { "wrap" => t.gift_wrap(), "chew" => t.chew_mesh(h), _ => t.ruppert_mesh(h) }
            vis = Some(guard(|| t.visualize()));
            t.assemble()
        });
        let el = match r { Ok(Ok(e)) => e, _ => return }; // judged elsewhere
        let pts: Vec<[f64; 2]> = el.nodes().iter().map(|p| [p[0] / k, p[1] / k]).collect();
        if pts.len() > 30 { return }
        let tris: Vec<Vec<usize>> = el.element_descriptors().into_iter().map(|d| d.into_parts().iter().map(|n| n.into_idx()).collect()).collect();
        for _ in 0..2 {
            let size = 2 * rng.int(10, 24) as u32;
            if !clear2(&pts, size, 0.5 / Q) { continue }
            let v = vis.unwrap();
            ev.push(json!({"op": "mesh", "algo": algo, "pts": pts.iter().map(|p| [q(p[0], Q), q(p[1], Q)]).collect::<Vec<_>>(), "tris": tris, "res": if v.is_ok() { "ok" } else { "panic" }}));
            if let Ok(mut v) = v { shot(&mut v, ev, size, true, "hot", &file, false) }
            return
        }
    });
}
