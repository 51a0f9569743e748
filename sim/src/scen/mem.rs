//! C19: what a call takes from the allocator and does not hand to its caller
//! it gives back, however it ends.
use super::*;
use crate::pool::{self, Bufs};
use crate::scen::kd::KS;
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::polygons::*;
use std::hint::black_box;

/// A tree that outlives the calls on it.
struct Held<T: KS, const N: usize>(Option<KDTree<T, N>>);

/// One whole life of a tree, or of a sorted, downsampled cloud.
fn life<T, const N: usize>(op: &Op, h: &mut Held<T, N>) -> Result<(), Abort>
where
    T: KS + mapping_algorithms::types::IsNan + num_traits::AsPrimitive<f64> + num_traits::NumAssign + num_traits::Bounded,
    usize: num_traits::AsPrimitive<T>,
{
    let mut a = pts::<T, N>(&op.f);
    let q = pts::<T, N>(&op.p[1..]);
    match op.k.as_str() {
        "tree" => lib(|| {
            let mut t = KDTree::from(a.as_slice());
            let c = t.clone();
            for p in &q {
                t.insert(*p);
                black_box(c.nearest(p));
            }
            t.traverse_tree(|_| point_or_crash(Kind::Callback));
            t.traverse_tree_mut(|p| {
                point_or_crash(Kind::Callback);
                p.coords[0] = p.coords[0] + T::of(1.0);
            });
            black_box(t.nearest(&a[0]));
            drop(t);
            black_box(c.len());
        }),
        // Everything it is offered it has already.
        "held" => {
            if h.0.is_none() {
                h.0 = Some(unarmed(|| KDTree::from(a.as_slice())));
            }
            let t = h.0.as_mut().unwrap();
            lib(|| {
                for p in &a {
                    t.insert(*p);
                }
                for p in &q {
                    black_box(t.nearest(p));
                }
                black_box(t.clone().len());
                t.traverse_tree_mut(|_| point_or_crash(Kind::Callback));
                t.traverse_tree(|_| point_or_crash(Kind::Callback));
            })
        }
        // A tree that takes the place of another.
        "swap" => {
            let t = KDTree::from(a.as_slice());
            let r = lib(|| {
                let s = h.0.get_or_insert_default();
                s.clone_from(&t);
                *s = KDTree::from(a.as_slice());
            });
            r
        }
        "sorts" => lib(|| {
            black_box(lex_sort_ref(&a));
            black_box(lex_sort(&a));
            black_box(lex_sort_in_place(&mut a));
        }),
        "voxels" => lib(|| {
            black_box(downsample_point_cloud_voxel::<T, f64, N>(&a, op.p[0]));
            black_box(find_nearest_neighbour_naive(&a[0], &a));
            black_box(calculate_point_cloud_center(&a));
        }),
        _ => Ok(()),
    }
}

fn hulls(op: &Op) -> Result<(), Abort> {
    let a = pts::<SimF, 2>(&op.f);
    let v = (op.p[0] > 0.0).then_some(op.p[0]);
    lib(|| {
        black_box(graham_scan::<f64, SimF>(&a, false, v));
        black_box(jarvis_march::<f64, SimF>(&a, v));
    })
}

/// The same call with other numbers, as many as before.
fn vary(op: &mut Op, i: usize) {
    match op.k.as_str() {
        "hav" | "bea" => op.p[0] = (i % 89) as f64 + i as f64 * 1e-6,
        "gpc" | "gen" => op.p[1] += 1.0,
        "bre" => op.p[0] += 1e-9,
        _ if !op.f.is_empty() => {
            let k = i % op.f.len();
            op.f[k] += 0.125 * (1 + i % 5) as f64;
        }
        _ => {}
    }
}

/// The powers of two between which growth has to double to count as one.
fn checkpoints(reps: usize) -> [usize; 4] {
    [reps / 8, reps / 4, reps / 2, reps]
}

#[derive(Default)]
struct St {
    b: Bufs,
    s2: Option<Held<SimF, 2>>,
    s3: Option<Held<SimF, 3>>,
    d2: Option<Held<f64, 2>>,
    i3: Option<Held<i32, 3>>,
}

pub fn exec(plan: &Plan) {
    ledger::start();
    let reps = plan.par("reps").max(8) as usize;
    let varying = plan.par("vary") != 0;
    run_tasks_with(
        plan,
        |_| Unsent(St::default()),
        |t, _, op, st| {
            let st = &mut st.0;
            let mut op = op.clone();
            (st.s2, st.s3, st.d2, st.i3) = (None, None, None, None);
            let mut at = [0i64; 4];
            let mut died = 0;
            for i in 1..=reps {
                rearm(&op);
                if varying {
                    vary(&mut op, i);
                }
                let r = if matches!(op.k.as_str(), "tree" | "held" | "swap" | "sorts" | "voxels") {
                    match (op.iv(0), op.iv(1)) {
                        (0, 2) => life(&op, st.s2.get_or_insert(Held(None))),
                        (0, _) => life(&op, st.s3.get_or_insert(Held(None))),
                        (2, _) => life(&op, st.d2.get_or_insert(Held(None))),
                        _ => life(&op, st.i3.get_or_insert(Held(None))),
                    }
                } else if op.k == "hulls" {
                    hulls(&op)
                } else {
                    let b = &mut st.b;
                    lib(|| drop(super::iso::call(&op, b)))
                };
                match r {
                    Ok(()) => {}
                    Err(Abort::Crash(_)) => died += 1,
                    // What it answers is the business of other properties.
                    Err(Abort::Panic(_)) => {
                        hit("call that panics repeated");
                        st.b = Bufs::default();
                    }
                    e => must(e, &op.k),
                }
                for (k, c) in checkpoints(reps).iter().enumerate() {
                    if i == *c {
                        match ledger::live(t) {
                            Some(n) => at[k] = n,
                            None => {
                                hit("ledger full");
                                return;
                            }
                        }
                    }
                }
            }
            let inc = [at[1] - at[0], at[2] - at[1], at[3] - at[2]];
            let grows = inc[0] > 0 && 2 * inc[1] >= 3 * inc[0] && 2 * inc[2] >= 3 * inc[1];
            ensure!(
                !grows,
                "leak",
                "{} {:?} on {} numbers{}: its calls hold {} B after {:?} repetitions",
                op.k,
                op.i,
                op.f.len(),
                if died > 0 { ", dying at the same point every time" } else { "" },
                at.map(|x| x.to_string()).join(", "),
                checkpoints(reps)
            );
            hit(if died > 0 { "dying call repeated" } else { "call repeated" });
            if at[3] > 0 {
                hit("memory kept between calls that does not grow");
            }
            note(at[3] as u64);
            state(rng::mix(op.f.len() as u64 ^ rng::mix(op.k.len() as u64 ^ rng::mix(died as u64))) ^ op.faults.first().map_or(0, |f| rng::mix(f.1 ^ (f.0 as u64) << 40)));
        },
        |_, _| {},
    );
}

pub fn gen(r: &mut Rng, p: &mut Plan) {
    let tasks = if r.chance(0.6) { 1 } else { 2 + r.us(2) };
    gen::sched(r, p, tasks);
    p.set("log_level", if r.chance(0.3) { 5 } else { 0 });
    let long = r.chance(0.04);
    p.set("reps", if long { 2048 } else { 32 });
    p.set("vary", long as i64);
    let mut kinds = vec![if p.spans { Kind::Span } else { Kind::Alloc }];
    if p.par("log_level") == 5 {
        kinds.push(Kind::Log);
    }
    for _ in 0..tasks {
        let mut ops = vec![];
        for _ in 0..if long { 1 } else { 1 + r.us(5) } {
            if long || r.chance(0.5) {
                let o = if !long && r.chance(0.06) {
                    pool::rare_call(r)
                } else if r.chance(0.06) {
                    let n = if long { 20 } else { super::iso::count(r) };
                    Op::new("gpc").i(&[r.range(1, 4), 2, n, 0]).p(&[-3.0, 9.0])
                } else {
                    let mut o = pool::random_op(r, pool::NAMES);
                    while long && o.f.len() > 40 {
                        o = pool::random_op(r, pool::NAMES);
                    }
                    o
                };
                let n = (o.f.len() / 2 + 2) as u64;
                ops.push(gen::maybe_fault(r, o, &kinds, if long { 0.3 } else { 0.6 }, n));
                continue;
            }
            let k = *r.pick(&["tree", "tree", "held", "swap", "sorts", "voxels", "hulls"]);
            let ty = *r.pick(&[0i64, 0, 0, 2, 3]);
            let dim = match ty {
                0 if k == "hulls" => 2,
                0 => 2 + r.us(2),
                2 => 2,
                _ => 3,
            };
            let dim = if k == "hulls" { 2 } else { dim };
            let style = *r.pick(&[gen::GRID, gen::INTS, gen::INTS, gen::DYAD, gen::TIES]);
            let n = gen::size(r, 40, 0.02, 200).max(1) as usize;
            let f = if matches!(k, "tree" | "held" | "swap") && r.chance(0.05) {
                let n = r.logu(600) as usize;
                gen::chain(r, n.max(1), dim)
            } else {
                gen::cloud(r, n, dim, style)
            };
            let m = 1 + r.us(6);
            let mut q = vec![*r.pick(&[0.5, 1.0, 2.0, 4.0])];
            if k == "hulls" && r.chance(0.5) {
                q[0] = 0.0;
            }
            q.extend(gen::queries(r, m, dim, style, &f));
            let o = Op::new(k).i(&[ty, dim as i64]).p(&q).f(f, dim);
            let mut ks = kinds.clone();
            if ty == 0 || k == "hulls" {
                ks.extend([Kind::Scalar, Kind::Scalar]);
            }
            if matches!(k, "tree" | "held") {
                ks.push(Kind::Callback);
            }
            ops.push(gen::maybe_fault(r, o, &ks, 0.7, n as u64));
        }
        p.tasks.push(ops);
    }
}
