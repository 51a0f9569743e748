//! C04: voxel downsampling under every hash seed, arrival order and crash.
use super::*;
use mapping_algorithms::point_clouds::downsample_point_cloud_voxel;
use nalgebra::{ComplexField, Point};
use num_traits::{AsPrimitive, NumAssign};

/// One centroid per occupied voxel.
pub fn expected<T: Sc, const N: usize>(f: &[f64], v: f64) -> BTreeMap<[i64; N], ([f64; N], usize)> {
    let mut m: BTreeMap<[i64; N], ([f64; N], usize)> = BTreeMap::new();
    for c in f.chunks_exact(N) {
        let x: [f64; N] = std::array::from_fn(|k| q::<T>(c[k]));
        let e = m
            .entry(std::array::from_fn(|k| geom::voxel(x[k], v)))
            .or_insert(([0.0; N], 0));
        for k in 0..N {
            e.0[k] += x[k];
        }
        e.1 += 1;
    }
    for e in m.values_mut() {
        for k in 0..N {
            e.0[k] = if T::INT {
                (e.0[k] as i64 / e.1 as i64) as f64
            } else {
                e.0[k] / e.1 as f64
            };
        }
    }
    m
}

pub fn check<T: Sc, const N: usize>(got: &[[f64; N]], f: &[f64], v: f64, when: &str) {
    let exp = expected::<T, N>(f, v);
    ensure!(
        got.len() == exp.len(),
        "wrong-count",
        "{when}: {} points in {} voxels of size {v} came back as {} points",
        f.len() / N,
        exp.len(),
        got.len()
    );
    let tol = |c: f64| T::TOL * 8.0 * (c.abs() + v);
    let mut used = vec![false; got.len()];
    // A centroid lies in its voxel, but for rounding.
    let mut at: BTreeMap<[i64; N], usize> = BTreeMap::new();
    for (i, g) in got.iter().enumerate() {
        at.insert(std::array::from_fn(|d| geom::voxel(g[d], v)), i);
    }
    for (k, (c, n)) in &exp {
        let found = at
            .get(k)
            .copied()
            .into_iter()
            .chain(0..got.len())
            .filter(|i| !used[*i])
            .find(|i| (0..N).all(|d| (got[*i][d] - c[d]).abs() <= tol(c[d])));
        match found {
            Some(i) => used[i] = true,
            None => {
                let near = got
                    .iter()
                    .min_by(|a, b| geom::d2(a, c).total_cmp(&geom::d2(b, c)))
                    .unwrap();
                violate(
                    "wrong-centroid",
                    format!("{when}: voxel {k:?} (size {v}) holds {n} points with centroid {c:?}; nearest output {near:?}"),
                )
            }
        }
    }
}

struct St<T: Sc + nalgebra::Scalar, const N: usize> {
    raw: Vec<f64>,
    buf: Vec<Point<T, N>>,
}

fn run<T, O, const N: usize>(plan: &Plan)
where
    O: AsPrimitive<isize> + ComplexField + Copy,
    T: Sc + AsPrimitive<O> + nalgebra::Scalar + NumAssign,
    usize: AsPrimitive<T>,
    f64: AsPrimitive<O>,
{
    run_tasks_with(
        plan,
        |_| {
            Unsent(St::<T, N> {
                raw: vec![],
                buf: vec![],
            })
        },
        |_, _, op, s| {
            let s = &mut s.0;
            match op.k.as_str() {
                "rx" => {
                    s.raw.extend_from_slice(&op.f);
                    s.buf.extend(pts::<T, N>(&op.f));
                }
                "clr" => {
                    s.raw.clear();
                    s.buf.clear();
                }
                "shuf" => {
                    let mut r = Rng::new(op.iv(0) as u64);
                    let n = s.buf.len();
                    for i in (1..n).rev() {
                        let j = r.us(i + 1);
                        s.buf.swap(i, j);
                        for k in 0..N {
                            s.raw.swap(i * N + k, j * N + k);
                        }
                    }
                }
                "ds" => {
                    let v = op.p.first().copied().unwrap_or(1.0);
                    let before = s.buf.clone();
                    let buf = &s.buf;
                    let out = retry("downsample", || {
                        lib(|| downsample_point_cloud_voxel::<T, O, N>(buf, v.as_()))
                    });
                    let got: Vec<[f64; N]> = out.iter().map(arr::<T, N>).collect();
                    check::<T, N>(&got, &s.raw, v, "downsample");
                    ensure!(s.buf == before, "input-changed", "the input cloud changed");
                    note(got.len() as u64);
                    let occ = got.len();
                    state(rng::mix(rng::mix(occ as u64) ^ s.buf.len() as u64) ^ v.to_bits());
                    hits("voxels", occ as u64);
                    hits("points sharing a voxel", (s.buf.len() - occ) as u64);
                }
                _ => {}
            }
        },
        |_, _| {},
    );
}

pub fn exec(p: &Plan) {
    match (p.par("ty"), p.par("dim")) {
        (0, 2) => run::<SimF, f64, 2>(p),
        (0, _) => run::<SimF, f64, 3>(p),
        (1, 2) => run::<f32, f32, 2>(p),
        (1, _) => run::<f32, f32, 3>(p),
        (2, 1) => run::<f64, f64, 1>(p),
        (2, 2) => run::<f64, f64, 2>(p),
        (2, 3) => run::<f64, f64, 3>(p),
        (2, _) => run::<f64, f64, 4>(p),
        (3, 2) => run::<i32, f64, 2>(p),
        (3, _) => run::<i32, f64, 3>(p),
        (4, _) => run::<i64, f64, 2>(p),
        (5, _) => run::<f32, f64, 2>(p),
        (7, _) => run::<u32, f64, 2>(p),
        (8, _) => run::<usize, f32, 3>(p),
        (9, _) => run::<u8, f32, 2>(p),
        (_, _) => run::<i16, f32, 2>(p),
    }
}

/// Move some points by whole numbers of voxels, in the steps at which indices
/// that are cut to fewer bits or mixed into one number run into each other.
fn spread(r: &mut Rng, f: &mut [f64], dim: usize, v: f64, ty: i64) {
    // How far coordinates stay exact, sums over a cloud included.
    let max = r.scale * match ty {
        6 => 80.0,
        3 => 1e6,
        1 => 16384.0,
        5 | 8 => 16384.0,
        7 => 1e6,
        4 => 1e12,
        _ => 1e11,
    };
    let n = f.len() / dim;
    let k = *r.pick(&[10.0, 16.0, 31.0, 32.0, 37.0, 64.0, 100.0, 128.0, 255.0, 256.0, 1000.0, 1024.0, 4096.0, 65536.0, 73856093.0, 4294967296.0]);
    for _ in 0..1 + r.us(n) {
        let (i, j) = (r.us(n), r.us(n));
        let from: Vec<f64> = f[i * dim..(i + 1) * dim].to_vec();
        let (a, b) = (r.us(dim), r.us(dim));
        let s = if r.chance(0.5) { 1.0 } else { -1.0 };
        let mut to = from.clone();
        to[b] += s * k * v;
        if a != b && r.chance(0.8) {
            to[a] -= s * v;
        }
        if to.iter().all(|x| x.abs() <= max) {
            f[j * dim..(j + 1) * dim].copy_from_slice(&to);
        }
    }
}

/// More points, or more voxels, than two bytes can count.
fn bulk(r: &mut Rng, p: &mut Plan) {
    let ty = *r.pick(&[2i64, 3, 4, 7]);
    let dim = if matches!(ty, 2 | 3) { *r.pick(&[2i64, 3]) } else { 2 };
    p.set("ty", ty);
    p.set("dim", dim);
    let mut ops = vec![];
    for _ in 0..1 + r.us(2) {
        let style = *r.pick(&[LATTICE, LATTICE, FEW, BYTES, BYTES]);
        let n = gen::many(r);
        ops.push(Op::new("rx").bulk(r.u64(), n, style, dim as usize));
        ops.push(Op::new("ds").p(&[*r.pick(&[1.0, 1.0, 2.0, 3.0, 64.0, 1000.0])]));
    }
    p.tasks.push(ops);
    gen::sched(r, p, 1);
}

pub fn gen(r: &mut Rng, p: &mut Plan) {
    if gen::bulk(r) {
        return bulk(r, p);
    }
    let ty = *r.pick(&[0i64, 0, 0, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8]);
    let dim = match ty {
        0 | 1 | 3 => *r.pick(&[2i64, 3]),
        2 => *r.pick(&[1i64, 2, 3, 4]),
        8 => 3,
        _ => 2,
    };
    let int = matches!(ty, 3 | 4 | 6 | 7 | 8);
    let style = if int {
        *r.pick(&[gen::GRID, gen::INTS, gen::LINE, gen::TIES])
    } else {
        *r.pick(&[gen::GRID, gen::INTS, gen::DYAD, gen::DYAD, gen::UNIF, gen::UNIF, gen::CLUST, gen::LINE])
    };
    p.set("ty", ty);
    p.set("dim", dim);
    let dim = dim as usize;
    match ty {
        3 | 4 | 6 | 7 | 8 => {}
        1 | 5 => gen::units(r, -12, 4),
        _ => gen::units(r, -20, 8),
    }
    let tasks = 1 + r.us(3);
    gen::sched(r, p, tasks);
    let mut kinds = vec![];
    if p.spans {
        kinds.push(Kind::Span);
    } else {
        kinds.push(Kind::Alloc);
        kinds.push(Kind::Alloc);
    }
    if ty == 0 {
        kinds.push(Kind::Scalar);
    }
    for t in 0..tasks {
        // Every task (a restarted process, another host) has its own hash seed.
        let msgs = 1 + r.us(6);
        let net = gen::Net::random(r, msgs as i64 * 3);
        let mut ev: Vec<(i64, Op)> = vec![];
        let mut order = vec![];
        let cap: u64 = if ty == 6 {
            60
        } else if r.chance(0.03) {
            if r.chance(0.1) { 8000 } else { 2000 }
        } else {
            200
        };
        let mut total = 0;
        let vs: Vec<f64> = (0..2)
            .map(|_| {
                r.scale * if gen::exact(style) {
                    // Quotients of these stay on the right side of a face, or
                    // exactly on it.
                    *r.pick(&[0.5, 1.0, 2.0, 4.0, 8.0, 32.0, 3.0, 5.0, 7.0, 10.0, 25.0, 49.0, 100.0, 0.75])
                } else {
                    *r.pick(&[0.25, 0.5, 1.0, 0.7, 1.3, 3.0, 7.5])
                }
            })
            .collect();
        // A map far larger than its points are dense.
        let far = gen::exact(style) && r.chance(0.3);
        for m in 0..msgs {
            let hi = if cap > 200 || r.chance(0.15) { cap } else { 24 };
            let n = r.logu(hi) as usize;
            let n = n.min((cap as usize * 2usize).saturating_sub(total).max(1));
            let mut f = gen::cloud(r, n, dim, style);
            if far && r.chance(0.7) {
                let v = *r.pick(&vs);
                spread(r, &mut f, dim, v, ty);
            }
            if ty >= 7 {
                // unsigned
                f.iter_mut().for_each(|x| *x = x.abs());
            }
            if !gen::exact(style) {
                // Keep clear of voxel faces: which side rounding puts a point
                // on is not what this property is about.
                for x in &mut f {
                    for _ in 0..20 {
                        let bad = vs.iter().any(|v| {
                            let y = *x / v;
                            (y - y.round()).abs() < 1e-3
                        });
                        if !bad {
                            break;
                        }
                        *x += 0.0037 * r.scale;
                    }
                }
            }
            for at in net.send(r, p, m as i64 * 3) {
                if total + n > 2 * cap as usize {
                    break;
                }
                total += n;
                order.push((at, m));
                ev.push((at, Op::new("rx").f(f.clone(), dim)));
            }
        }
        order.sort();
        gen::count_reordered(p, &order.iter().map(|x| x.1).collect::<Vec<_>>());
        let last = order.last().map(|x| x.0).unwrap_or(0);
        for _ in 0..1 + r.us(4) {
            let v = *r.pick(&vs);
            let o = Op::new("ds").p(&[v]);
            let o = gen::maybe_fault(r, o, &kinds, 0.4, 24);
            ev.push((r.range(0, last + 2), o));
        }
        if r.chance(0.3) {
            ev.push((r.range(0, last + 1), Op::new("clr")));
            p.env("node restarted with an empty cloud", 1);
        }
        ev.push((last + 2, Op::new("shuf").i(&[r.range(1, 1 << 40)])));
        let v = *r.pick(&vs);
        let o = gen::maybe_fault(r, Op::new("ds").p(&[v]), &kinds, 0.4, 24);
        ev.push((last + 3, o));
        p.tasks.push(gen::schedule(ev));
        let _ = t;
    }
    p.env("hash seed changed", tasks as u64);
}
