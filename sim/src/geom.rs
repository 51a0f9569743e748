//! Reference geometry: small, slow and exact.

/// Exact integer image of dyadic coordinates (multiples of 2^-24).
pub fn exact_int(x: f64) -> Option<i128> {
    let y = x * (1u64 << 24) as f64;
    if y.is_finite() && y.fract() == 0.0 && y.abs() < 1e18 {
        Some(y as i128)
    } else {
        None
    }
}

pub type P2 = (i128, i128);

pub fn cross(a: P2, b: P2, c: P2) -> i128 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}

/// Strictly convex hull, clockwise from the leftmost lowest point.
pub fn hull(pts: &[P2]) -> Vec<P2> {
    let mut v = pts.to_vec();
    v.sort();
    v.dedup();
    if v.len() < 3 {
        return v;
    }
    let chain = |it: &mut dyn Iterator<Item = &P2>| {
        let mut h: Vec<P2> = vec![];
        for p in it {
            // clockwise: only right turns survive
            while h.len() > 1 && cross(h[h.len() - 2], h[h.len() - 1], *p) >= 0 {
                h.pop();
            }
            h.push(*p);
        }
        h
    };
    let mut up = chain(&mut v.iter());
    let mut lo = chain(&mut v.iter().rev());
    up.pop();
    lo.pop();
    up.extend(lo);
    up
}

/// All distinct input points on the boundary of the hull, in clockwise order.
pub fn boundary(pts: &[P2], h: &[P2]) -> Vec<P2> {
    let mut v = pts.to_vec();
    v.sort();
    v.dedup();
    let mut out = vec![];
    for i in 0..h.len() {
        let (a, b) = (h[i], h[(i + 1) % h.len()]);
        let mut on: Vec<P2> = v
            .iter()
            .copied()
            .filter(|p| {
                *p != b
                    && cross(a, b, *p) == 0
                    && p.0 >= a.0.min(b.0)
                    && p.0 <= a.0.max(b.0)
                    && p.1 >= a.1.min(b.1)
                    && p.1 <= a.1.max(b.1)
            })
            .collect();
        on.sort_by_key(|p| (p.0 - a.0).abs() + (p.1 - a.1).abs());
        out.extend(on);
    }
    out
}

/// Voxel index of a coordinate.
pub fn voxel(x: f64, v: f64) -> i64 {
    (x / v).floor() as i64
}

/// Largest eigenvalue of a symmetric 4x4 matrix (Jacobi rotations).
pub fn eig4_max(mut a: [[f64; 4]; 4]) -> f64 {
    for _ in 0..60 {
        let mut off = 0.0;
        for p in 0..4 {
            for q in p + 1..4 {
                off += a[p][q] * a[p][q];
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = if th == 0.0 {
                    1.0
                } else {
                    th.signum() / (th.abs() + (th * th + 1.0).sqrt())
                };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..4 {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..4 {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
        if off < 1e-28 {
            break;
        }
    }
    (0..4).map(|i| a[i][i]).fold(f64::MIN, f64::max)
}

/// Least possible sum of squared distances after a proper rigid motion of `a`
/// onto `b` (paired), in 2 or 3 dimensions.
pub fn best_rigid<const N: usize>(a: &[[f64; N]], b: &[[f64; N]]) -> f64 {
    let n = a.len() as f64;
    let mean = |v: &[[f64; N]]| {
        let mut m = [0.0; N];
        for p in v {
            for k in 0..N {
                m[k] += p[k] / n;
            }
        }
        m
    };
    let (ma, mb) = (mean(a), mean(b));
    let mut s = [[0.0; N]; N];
    let mut tot = 0.0;
    for (p, q) in a.iter().zip(b) {
        for i in 0..N {
            let x = p[i] - ma[i];
            tot += x * x;
            tot += (q[i] - mb[i]) * (q[i] - mb[i]);
            for j in 0..N {
                s[i][j] += x * (q[j] - mb[j]);
            }
        }
    }
    let gain = if N == 2 {
        let c = s[0][0] + s[1][1];
        let d = s[0][1] - s[1][0];
        (c * c + d * d).sqrt()
    } else {
        let (xx, xy, xz) = (s[0][0], s[0][1], s[0][2]);
        let (yx, yy, yz) = (s[1][0], s[1][1], s[1][2]);
        let (zx, zy, zz) = (s[2][0], s[2][1], s[2][2]);
        eig4_max([
            [xx + yy + zz, yz - zy, zx - xz, xy - yx],
            [yz - zy, xx - yy - zz, xy + yx, zx + xz],
            [zx - xz, xy + yx, -xx + yy - zz, yz + zy],
            [xy - yx, zx + xz, yz + zy, -xx - yy + zz],
        ])
    };
    (tot - 2.0 * gain).max(0.0)
}

/// How much error a 3D step may add because the closed-form 3x3 SVD of the
/// linear algebra library works on the squared matrix: singular values under
/// the square root of the precision are noise to it, and so is the rotation
/// about the axes that belong to them.
pub fn svd_noise<const N: usize>(a: &[[f64; N]], b: &[[f64; N]], single: bool, any_pairs: bool) -> f64 {
    if N != 3 {
        return 0.0;
    }
    let n = a.len() as f64;
    let mean = |v: &[[f64; N]]| nalgebra::Vector3::from(std::array::from_fn::<f64, 3, _>(|d| v.iter().map(|p| p[d]).sum::<f64>() / n));
    let (ma, mb) = (mean(a), mean(b));
    let mut c = nalgebra::Matrix3::zeros();
    for (p, q) in a.iter().zip(b) {
        c += (nalgebra::Vector3::new(p[0], p[1], p[2]) - ma) * (nalgebra::Vector3::new(q[0], q[1], q[2]) - mb).transpose();
    }
    // Eigenvalues of the square: good enough for a threshold.
    let mut s: Vec<f64> = (c.transpose() * c).symmetric_eigenvalues().iter().map(|x| x.max(0.0).sqrt()).collect();
    s.sort_by(|x, y| y.total_cmp(x));
    let (under, cap) = if single { (3e-3, 1e-3) } else { (2e-7, 1e-7) };
    s[1..]
        .iter()
        .filter(|x| any_pairs || **x <= under * s[0])
        .map(|x| if any_pairs { 4.0 * cap * s[0] } else { 4.0 * x.min(cap * s[0]) })
        .sum()
}

pub fn d2<const N: usize>(a: &[f64; N], b: &[f64; N]) -> f64 {
    (0..N).map(|k| (a[k] - b[k]) * (a[k] - b[k])).sum()
}
