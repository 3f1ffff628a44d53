//! Saving a picture and reading it back.
use crate::{guard, json, Value};
use bugi::visual::{color, VisOptions, Visualizer};
use image::Rgb;

fn ramp(v: f64) -> Rgb<u8> {
    let x = (200.0 * v).round().clamp(0.0, 255.0) as u8;
    Rgb([x, 10, 255 - x])
}

pub fn shot(vis: &mut Visualizer, ev: &mut Vec<Value>, size: u32, show: bool, map: &str, file: &str, plain: bool) {
    let _ = std::fs::remove_file(file);
    let r = guard(|| {
        if plain { vis.draw(file, ()); return }
        let mut o = VisOptions::new();
        if size > 0 { o = o.im_size(size) }
        if !show { o = o.show_mesh(false) }
        o = match map {
            "hotbox" => o.color_map(color::hot_map_boxed()),
            "rgb" => o.color_map(color::rgb_map_boxed()),
            "ramp" => o.color_map(Box::new(ramp)),
            _ => o,
        };
        vis.draw(file, o)
    });
    let map = match map { "rgb" | "ramp" => map, _ => "hot" };
    let mut px = Vec::new();
    let (mut w, mut h) = (0, 0);
    let res = match r {
        Err(_) => "panic",
        Ok(()) => match image::open(file) {
            Err(_) => "unreadable",
            Ok(i) => {
                let i = i.to_rgb8();
                w = i.width();
                h = i.height();
                for (x, y, c) in i.enumerate_pixels() {
                    if c.0 != [50, 50, 50] { px.push(json!([x, y, c.0.to_vec()])) }
                }
                "ok"
            }
        },
    };
    let _ = std::fs::remove_file(file);
    ev.push(json!({"op": "draw", "size": if plain { 0 } else { size }, "show": plain || show, "map": if plain { "hot" } else { map }, "res": res, "w": w, "h": h, "px": px}));
}

/// is the place of every node of the plane clear of the half between two pixels, by more than an error of
/// `err` in its coordinates can move it?  (the sizes are even: the middle of the image is a whole pixel)
pub fn clear2(p: &[[f64; 2]], size: u32, err: f64) -> bool {
    let ext = |k: usize| {
        let lo = p.iter().map(|x| x[k]).fold(f64::INFINITY, f64::min);
        let hi = p.iter().map(|x| x[k]).fold(f64::NEG_INFINITY, f64::max);
        (lo, hi)
    };
    let r = (0..2).map(|k| ext(k).1 - ext(k).0).fold(0.0, f64::max);
    if !(r > 0.0) { return false }
    let f = 0.8 * size as f64 / r;
    let tol = 4.0 * err * f * 1.5 + 1e-6;
    tol < 0.2 && (0..2).all(|k| {
        let (lo, hi) = ext(k);
        p.iter().all(|x| {
            let y = (x[k] - (lo + hi) / 2.0) * f + size as f64 / 2.0;
            ((y - y.floor()) - 0.5).abs() > tol
        })
    })
}
