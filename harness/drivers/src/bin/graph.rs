//! Graphs, their queries and orderings, permutations.
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::*;
use drivers::*;

fn queries(rng: &mut Rng, ev: &mut Vec<Value>, g: &mut Graph, n: usize, all: bool) {
    ev.push(json!({"op": "count", "res": g.vertex_count()}));
    for v in 0..n {
        if all || rng.chance(1, 3) {
            ev.push(json!({"op": "adjacent", "v": v, "res": g.adjacent(v), "deg": g.degree(v)}));
        }
        if all || rng.chance(1, 3) {
            let mask: Vec<bool> = (0..n).map(|_| rng.chance(1, 2)).collect();
            let deg = g.degree_masked(v, &mask);
            ev.push(json!({"op": "masked", "v": v, "mask": mask, "res": g.adjacent_masked(v, &mask), "deg": deg}));
        }
        if all || rng.chance(1, 3) {
            let (w, d) = g.far_node(v);
            ev.push(json!({"op": "far", "v": v, "w": w, "d": d}));
        }
    }
    if n > 0 {
        ev.push(json!({"op": "peripheral", "w": g.pseudo_peripheral()}));
    }
    for bad in [n, n + 1] {
        ev.push(json!({"op": "refused", "res": guard(|| g.adjacent(bad).len()).is_err()}));
        ev.push(json!({"op": "refused", "res": guard(|| g.clone().far_node(bad)).is_err()}));
    }
}

fn ordering(rng: &mut Rng, ev: &mut Vec<Value>, g: &mut Graph, n: usize) {
    let p = g.reverse_cuthill_mckee();
    ev.push(json!({"op": "rcm", "p": (0..n).map(|i| p.permute(i)).collect::<Vec<_>>()}));
    permutation(rng, ev, p, n);
}

fn permutation(rng: &mut Rng, ev: &mut Vec<Value>, p: Permutation, n: usize) {
    let mut p = p;
    for _ in 0..3 {
        ev.push(json!({"op": "unpermute", "p": (0..n).map(|i| p.unpermute(i)).collect::<Vec<_>>()}));
        let before: Vec<i64> = (0..n).map(|_| rng.int(-99, 99)).collect();
        let mut after = before.clone();
        p.permute_slice(&mut after);
        ev.push(json!({"op": "slice", "before": before, "after": after}));
        ev.push(json!({"op": "refused", "res": guard(|| p.permute_slice(&mut vec![0; n + 1])).is_err()}));
        p = p.clone().invert();
        ev.push(json!({"op": "invert", "p": (0..n).map(|i| p.permute(i)).collect::<Vec<_>>()}));
    }
}

/// the given edges, repeated, reversed, with loops, in any order
fn noisy(rng: &mut Rng, edges: &[(usize, usize)], n: usize) -> Vec<(usize, usize)> {
    let mut res = Vec::new();
    for &(a, b) in edges {
        for _ in 0..rng.int(1, 2) {
            res.push(if rng.chance(1, 2) { (a, b) } else { (b, a) });
        }
    }
    for v in 0..n {
        if rng.chance(1, 4) {
            res.push((v, v));
        }
    }
    rng.shuffle(&mut res);
    res
}

fn case(rng: &mut Rng, ev: &mut Vec<Value>, n: usize, edges: Vec<(usize, usize)>, all: bool) {
    let list = noisy(rng, &edges, n);
    let mut g = match rng.below(4) {
        0 => {
            // through a symmetric sparse matrix, as the solvers do
            let mut d = Dictionary::zeros(n);
            for v in 0..n { d[(v, v)] = 1.0; }
            for &(a, b) in &list { d[(a, b)] = 1.0; d[(b, a)] = 1.0; }
            if rng.chance(1, 2) { Graph::from_edges(n, d.edges()) } else { Graph::from_edges(n, d.edges_lower()) }
        }
        1 => {
            let mut l: Vec<Vec<usize>> = vec![vec![]; n];
            for &(a, b) in &edges { l[a].push(b); l[b].push(a); }
            for x in l.iter_mut() { rng.shuffle(x); }
            let g = Graph::from_lol(l.clone());
            ev.push(json!({"op": "lists", "lists": l}));
            g
        }
        _ => Graph::from_edges(n, list.clone()),
    };
    if ev.is_empty() {
        ev.push(json!({"op": "edges", "n": n, "edges": list}));
        let again = noisy(rng, &edges, n);
        ev.push(json!({"op": "same", "res": Graph::from_edges(n, again) == g}));
        let mut other = edges.clone();
        if rng.chance(1, 2) && !other.is_empty() { other.pop(); }
        else if n >= 2 { let a = rng.below(n); let b = rng.below(n); other.push((a, b)); }
        ev.push(json!({"op": "differs", "n": n, "edges": other, "res": Graph::from_edges(n, other.clone()) == g}));
        ev.push(json!({"op": "refused", "res": guard(|| Graph::from_edges(n, vec![(0, n)])).is_err()}));
        ev.push(json!({"op": "refused", "res": guard(|| Graph::from_edges(n, vec![(n, 0)])).is_err()}));
    }
    if rng.chance(1, 2) {
        ordering(rng, ev, &mut g, n);
        queries(rng, ev, &mut g, n, all);
    } else {
        queries(rng, ev, &mut g, n, all);
        ordering(rng, ev, &mut g, n);
    }
}

fn random_edges(rng: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let mut e = Vec::new();
    let p = rng.perm(n);
    let style = rng.below(8);
    for i in 0..n {
        for j in 0..i {
            let keep = match style {
                0 => j + 1 == i,                                // path
                1 => j == 0,                                    // star
                2 => rng.chance(1, n as u64),
                3 => rng.chance(2, n as u64),
                4 => i / 3 == j / 3,                            // cliques
                5 => (i % 4 != 0 && i == j + 1) || i == j + 4,  // grid
                6 => j + 1 == i && i % 4 != 0,                  // several paths
                _ => (i - 1) / 2 == j,                          // tree
            };
            if keep {
                e.push((p[i], p[j]));
            }
        }
    }
    rng.shuffle(&mut e);
    e
}

fn main() {
    let a = args();
    drive(&a, |c, rng, ev| match a.mode.as_str() {
        "scn" => {
            let o = &a.scn[c as usize];
            let n = o["n"].as_u64().unwrap() as usize;
            let e: Vec<(usize, usize)> = serde_json::from_value(o["edges"].clone()).unwrap();
            case(rng, ev, n, e, true)
        }
        "random" => {
            let n = if rng.chance(1, 12) { 1 } else { rng.int(2, if a.thorough { 30 } else { 18 }) as usize };
            let e = random_edges(rng, n);
            case(rng, ev, n, e, false)
        }
        "big" => {
            let n = rng.int(19, 70) as usize;
            let e = random_edges(rng, n);
            case(rng, ev, n, e, false)
        }
        "perm" => {
            let n = if rng.chance(1, 8) { rng.int(41, 300) } else { rng.int(1, 40) } as usize;
            let p = Permutation::identity(n);
            ev.push(json!({"op": "identity", "n": n, "p": (0..n).map(|i| p.permute(i)).collect::<Vec<_>>()}));
            permutation(rng, ev, p, n)
        }
        m => panic!("mode {}", m),
    });
}
