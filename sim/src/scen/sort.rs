//! C09: the lexicographic sorts under crashes in the middle of a comparison.
use super::*;
use mapping_algorithms::point_clouds::{lex_sort, lex_sort_in_place, lex_sort_ref};
use mapping_algorithms::types::IsNan;
use nalgebra::Point;

fn bits<T: Sc + nalgebra::Scalar, const N: usize>(v: &[Point<T, N>]) -> Vec<[u64; N]> {
    v.iter().map(|p| arr::<T, N>(p).map(f64::to_bits)).collect()
}
fn sorted<T>(mut v: Vec<T>) -> Vec<T>
where
    T: Ord,
{
    v.sort();
    v
}
fn in_order<const N: usize>(v: &[[f64; N]]) -> Option<usize> {
    (1..v.len()).find(|i| {
        for k in 0..N {
            let (a, b) = (v[i - 1][k], v[*i][k]);
            if a < b {
                return false;
            }
            if a > b {
                return true;
            }
        }
        false
    })
}
fn vals<const N: usize>(v: &[[u64; N]]) -> Vec<[f64; N]> {
    v.iter().map(|p| p.map(f64::from_bits)).collect()
}

fn run<T, const N: usize>(plan: &Plan)
where
    T: Sc + nalgebra::Scalar + IsNan,
{
    run_tasks_with(
        plan,
        |_| Unsent(Vec::<Point<T, N>>::new()),
        |_, _, op, s| {
            let buf = &mut s.0;
            match op.k.as_str() {
                "rx" => {
                    buf.extend(pts::<T, N>(&op.f));
                    return;
                }
                "clr" => {
                    buf.clear();
                    return;
                }
                _ => {}
            }
            let before = bits(buf);
            let poisoned = before.iter().flatten().any(|b| f64::from_bits(*b).is_nan());
            let full = sorted(before.clone());
            if poisoned {
                hit("cloud with a NaN");
            }
            let check = |got: Option<Vec<[u64; N]>>, what: &str| match got {
                None => ensure!(poisoned, "rejected", "{what} rejected a cloud without NaN"),
                Some(v) => {
                    ensure!(!poisoned, "accepted-nan", "{what} accepted a cloud with NaN");
                    ensure!(
                        sorted(v.clone()) == full,
                        "not-a-permutation",
                        "{what} returned {} points that are not the {} it was given",
                        v.len(),
                        full.len()
                    );
                    if let Some(i) = in_order(&vals(&v)) {
                        violate("out-of-order", format!("{what}: {:?} before {:?}", vals(&v)[i - 1], vals(&v)[i]));
                    }
                    note(v.len() as u64);
                }
            };
            match op.k.as_str() {
                "sip" => {
                    for _ in 0..20 {
                        let b = &mut *buf;
                        match lib(|| lex_sort_in_place(b)) {
                            Ok(ok) => {
                                let now = bits(buf);
                                if !ok {
                                    ensure!(
                                        now == before || !poisoned,
                                        "rejected-but-changed",
                                        "lex_sort_in_place returned false and changed the cloud"
                                    );
                                }
                                check(ok.then_some(now), "lex_sort_in_place");
                                break;
                            }
                            Err(Abort::Crash(_)) => {
                                hit("sort crashed");
                                let now = bits(buf);
                                if now != before {
                                    hit("sort crashed half way");
                                }
                                ensure!(
                                    sorted(now) == full,
                                    "lost-in-crash",
                                    "after a crash inside lex_sort_in_place the {} points are not the same points",
                                    full.len()
                                );
                            }
                            Err(e) => {
                                must::<()>(Err(e), "lex_sort_in_place");
                            }
                        }
                    }
                    state(rng::mix(full.iter().flatten().fold(1, |a, x| rng::mix(a ^ x))));
                }
                "sc" => {
                    let b = &*buf;
                    let v = retry("lex_sort", || lib(|| lex_sort(b)));
                    check(v.map(|v| bits(&v)), "lex_sort");
                    ensure!(bits(buf) == before, "input-changed", "lex_sort changed its input");
                }
                "sr" => {
                    let b = &*buf;
                    let v = retry("lex_sort_ref", || lib(|| lex_sort_ref(b)));
                    if let Some(v) = &v {
                        let lo = b.as_ptr() as usize;
                        let sz = std::mem::size_of::<Point<T, N>>();
                        let mut idx: Vec<usize> = v.iter().map(|p| (*p as *const _ as usize - lo) / sz).collect();
                        idx.sort();
                        ensure!(
                            idx == (0..b.len()).collect::<Vec<_>>(),
                            "wrong-references",
                            "lex_sort_ref does not refer to every point once"
                        );
                    }
                    check(
                        v.map(|v| v.iter().map(|p| arr::<T, N>(p).map(f64::to_bits)).collect()),
                        "lex_sort_ref",
                    );
                    ensure!(bits(buf) == before, "input-changed", "lex_sort_ref changed its input");
                }
                _ => {}
            }
        },
        |_, _| {},
    );
}

pub fn exec(p: &Plan) {
    match (p.par("ty"), p.par("dim")) {
        (0, 1) => run::<SimF, 1>(p),
        (0, 2) => run::<SimF, 2>(p),
        (0, 3) => run::<SimF, 3>(p),
        (0, _) => run::<SimF, 4>(p),
        (1, _) => run::<f32, 3>(p),
        (2, _) => run::<f64, 2>(p),
        (3, _) => run::<i32, 2>(p),
        (4, _) => run::<f64, 6>(p),
        (5, _) => run::<u8, 3>(p),
        (_, _) => run::<i64, 1>(p),
    }
}

pub fn gen(r: &mut Rng, p: &mut Plan) {
    let ty = *r.pick(&[0i64, 0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6]);
    let dim = match ty {
        0 => *r.pick(&[1i64, 2, 2, 3, 4]),
        1 | 5 => 3,
        4 => 6,
        6 => 1,
        _ => 2,
    };
    let int = matches!(ty, 3 | 5 | 6);
    p.set("ty", ty);
    p.set("dim", dim);
    let dim = dim as usize;
    let tasks = 1 + r.us(3);
    gen::sched(r, p, tasks);
    if !int {
        gen::units(r, -60, 60);
        r.twins = r.chance(0.15);
    }
    let mut kinds = vec![if p.spans { Kind::Span } else { Kind::Alloc }];
    if ty == 0 {
        kinds.extend([Kind::Scalar, Kind::Scalar, Kind::Scalar]);
    }
    for _ in 0..tasks {
        let style = if int {
            *r.pick(&[gen::GRID, gen::INTS, gen::TIES])
        } else {
            *r.pick(&[gen::GRID, gen::INTS, gen::DYAD, gen::UNIF, gen::LINE, gen::TIES])
        };
        let mut ops = vec![];
        for _ in 0..1 + r.us(6) {
            let hi = if r.chance(0.3) { 150 } else { 40 };
            if r.chance(0.2) && gen::bulk(r) {
                let n = gen::many(r);
                let style = *r.pick(&[LATTICE, BYTES, BYTES, FEW]);
                ops.push(Op::new("rx").bulk(r.u64(), n, style, dim));
                ops.push(Op::new(*r.pick(&["sip", "sip", "sc", "sr"])));
            }
            let n = gen::size(r, hi, 0.02, 1200) as usize;
            let mut f = gen::cloud(r, n, dim, style);
            if r.chance(0.25) {
                // nearly sorted, reversed or rotated runs
                let mut c: Vec<Vec<f64>> = f.chunks(dim).map(|c| c.to_vec()).collect();
                c.sort_by(|a, b| a.partial_cmp(b).unwrap());
                match r.us(3) {
                    0 => c.reverse(),
                    1 => c.rotate_left(n / 2),
                    _ => {}
                }
                f = c.concat();
            }
            if !int && r.chance(0.15) {
                let k = r.us(f.len());
                f[k] = f64::NAN;
                p.env("coordinate corrupted to NaN", 1);
            }
            if !int && r.chance(0.1) {
                let k = r.us(f.len());
                f[k] = *r.pick(&[f64::INFINITY, f64::NEG_INFINITY]);
                p.env("coordinate corrupted to infinity", 1);
            }
            if int && r.chance(0.3) {
                for _ in 0..1 + r.us(4) {
                    let k = r.us(f.len());
                    f[k] = match ty {
                        3 => *r.pick(&[i32::MIN, i32::MAX, 1 << 30, -(1 << 30) - 5]) as f64,
                        5 => *r.pick(&[0.0, 255.0, 127.0, 128.0]),
                        _ => *r.pick(&[i64::MIN as f64, (1i64 << 53) as f64, (1i64 << 53) as f64 - 1.0, -1.0]),
                    };
                }
                p.env("coordinate at the end of its type", 1);
            }
            if r.chance(0.4) {
                ops.push(Op::new("clr"));
            }
            ops.push(Op::new("rx").f(f, dim));
            for _ in 0..1 + r.us(3) {
                let o = Op::new(*r.pick(&["sip", "sip", "sip", "sc", "sr"]));
                let o = gen::maybe_fault(r, o, &kinds, 0.7, n as u64);
                let o = gen::maybe_fault(r, o, &kinds, 0.3, n as u64 * 3);
                ops.push(o);
            }
        }
        p.tasks.push(ops);
    }
}
