//! Q06 index search and interpolation, Q18 matrix factor and bucketing.
use crate::util::close;
use ndarray::{Array1, Array2};
use quantlib::math::cholescky_factorization::cholesky_decomposition;
use quantlib::math::interpolator::{ExtraPolationType as E, Interpolator1D, InterpolatorReal1D};
use quantlib::math::interpolators::bilinear_interpolator::BilinearInterpolator;
use quantlib::math::interpolators::linear_interpolator::LinearInterpolator1D;
use quantlib::math::interpolators::stepwise_interpolatior::*;
use quantlib::utils::distribute_value::distribute_value_on_vector;
use quantlib::utils::find_index::*;
use quantlib::utils::find_index_ndarray::*;
use vcommon::{guarded, Ctx};

/// Largest i with knots[i] <= x, 0 below the first knot.
fn index_ref<T: PartialOrd>(k: &[T], x: &T) -> usize {
    let mut r = 0;
    for (i, v) in k.iter().enumerate() {
        if v <= x {
            r = i;
        }
    }
    r
}

/// Reference linear interpolation; None: refused.
pub fn linear_ref(k: &[f64], v: &[f64], x: f64, e: E, allow: bool) -> Option<f64> {
    let n = k.len();
    if x < k[0] || x > k[n - 1] {
        if !allow {
            return None;
        }
        let left = x < k[0];
        return match e {
            E::None => None,
            E::Flat => Some(if left { v[0] } else { v[n - 1] }),
            E::Linear => {
                let (a, b) = if left { (0, 1) } else { (n - 2, n - 1) };
                Some(v[a] + (v[b] - v[a]) / (k[b] - k[a]) * (x - k[a]))
            }
        };
    }
    if n == 1 {
        return Some(v[0]);
    }
    let i = index_ref(k, &x).min(n - 2);
    Some(v[i] + (v[i + 1] - v[i]) * (x - k[i]) / (k[i + 1] - k[i]))
}

fn same(g: &Result<Result<f32, anyhow::Error>, String>, e: Option<f64>, scale: f64) -> bool {
    match (g, e) {
        (Ok(Ok(g)), Some(e)) => close(*g, e, 2e-6, 4e-6 * scale),
        (Ok(Err(_)), None) => true,
        _ => false,
    }
}

fn knot_sets(ctx: &Ctx) -> Vec<Vec<i64>> {
    let pool: Vec<i64> = if ctx.thorough() { vec![0, 1, 2, 4, 7, 8, 12, 13] } else { vec![0, 1, 2, 4, 7, 12, 13] };
    let mut out = vec![];
    for m in 1u32..1 << pool.len() {
        out.push((0..pool.len()).filter(|i| m >> i & 1 == 1).map(|i| pool[i]).collect());
    }
    out
}

/// All non-decreasing vectors of a length over the points.
fn sorted_vectors<T: Copy>(points: &[T], len: usize, f: &mut dyn FnMut(&[T])) {
    fn rec<T: Copy>(p: &[T], from: usize, left: usize, cur: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
        if left == 0 {
            f(cur);
            return;
        }
        for i in from..p.len() {
            cur.push(p[i]);
            rec(p, i, left - 1, cur, f);
            cur.pop();
        }
    }
    rec(points, 0, len, &mut vec![], f)
}

fn values(n: usize, pat: usize) -> Vec<f64> {
    (0..n)
        .map(|i| {
            let i = i as f64;
            match pat {
                0 => 1.0 + i,
                1 => [3.0, -1.0, 4.0, 0.5, -2.5, 9.0, 2.0, 6.0][i as usize % 8],
                2 => 0.03 - 0.002 * i * i,
                _ => 1000.0 / (1.0 + i),
            }
        })
        .collect()
}

pub fn q06(ctx: &Ctx) {
    let sets = knot_sets(ctx);
    let maxlen = ctx.pick(4, 5);
    ctx.note("space", format!("{} knot sets, integer and real (3 spacings), every query on a half grid from below to above, every sorted query vector of up to {maxlen} points, 4 value patterns, 3 extrapolations x allowed or not", sets.len()));
    ctx.par_for(sets.len(), |si| {
        let ks = &sets[si];
        ctx.begin(|| format!("knots {ks:?}"));
        let n = ks.len();
        // --- integer knots: search
        let ka = Array1::from(ks.clone());
        let mut queries: Vec<i64> = vec![-5, -1];
        for &k in ks {
            for q in [k - 1, k, k + 1] {
                if !queries.contains(&q) {
                    queries.push(q);
                }
            }
        }
        queries.push(20);
        queries.sort();
        for &q in &queries {
            let e = index_ref(ks, &q);
            for (w, r) in [("slice", guarded(|| binary_search_index(ks, q))), ("ndarray", guarded(|| binary_search_index_ndarray(&ka, q)))] {
                if r != Ok(e) {
                    ctx.violation(&format!("search {w} {ks:?} {q}"), format!("{r:?}, expected {e}"));
                }
                ctx.case();
            }
        }
        let qset: Vec<i64> = if queries.len() > 9 && !ctx.thorough() { queries.iter().step_by(2).copied().chain([ks[n - 1]]).collect::<std::collections::BTreeSet<_>>().into_iter().collect() } else { queries.clone() };
        for len in 0..=maxlen {
            sorted_vectors(&qset, len, &mut |v| {
                let e: Vec<usize> = v.iter().map(|q| index_ref(ks, q)).collect();
                let va = Array1::from(v.to_vec());
                let r = guarded(|| vectorized_search_index_for_sorted_vector(ks, v));
                let r2 = guarded(|| vectorized_search_index_for_sorted_ndarray(&ka, &va));
                if r != Ok(e.clone()) || r2 != Ok(e.clone()) {
                    ctx.violation(&format!("vector search {ks:?} {v:?}"), format!("slice {r:?}, ndarray {r2:?}, expected {e:?}"));
                }
                ctx.case();
            });
        }
        // --- step-wise on integer knots
        for pat in 0..2 {
            let vs = values(n, pat);
            let va: Array1<f32> = vs.iter().map(|&x| x as f32).collect();
            for allow in [false, true] {
                for (l, r) in [(None, None), (Some(-7.0f32), None), (None, Some(77.0f32)), (Some(0.25), Some(0.75))] {
                    let Ok(it) = StepwiseInterpolator1D::new(ka.clone(), va.clone(), allow, l, r) else {
                        ctx.violation(&format!("stepwise new {ks:?}"), "refused");
                        continue;
                    };
                    let rf = |q: i64| -> Option<f64> {
                        if q < ks[0] {
                            allow.then_some(l.map(|x| x as f64).unwrap_or(vs[0]))
                        } else if q > ks[n - 1] {
                            allow.then_some(r.map(|x| x as f64).unwrap_or(vs[n - 1]))
                        } else {
                            Some(vs[index_ref(ks, &q)])
                        }
                    };
                    for &q in &queries {
                        let g = guarded(|| it.interpolate(q));
                        if !same(&g, rf(q), 1.0) {
                            ctx.violation(&format!("stepwise {ks:?} pattern {pat} allow={allow} {l:?} {r:?} at {q}"), format!("{g:?}, expected {:?}", rf(q)));
                        }
                        ctx.case();
                    }
                    for len in 1..=3 {
                        sorted_vectors(&qset, len, &mut |v| {
                            let e: Option<Vec<f64>> = v.iter().map(|&q| rf(q)).collect();
                            let g = guarded(|| it.vectorized_interpolate_for_sorted_ndarray(&Array1::from(v.to_vec())));
                            let ok = match (&g, &e) {
                                (Ok(Ok(g)), Some(e)) => g.len() == e.len() && g.iter().zip(e).all(|(a, b)| close(*a, *b, 2e-6, 1e-6)),
                                (Ok(Err(_)), None) => true,
                                _ => false,
                            };
                            if !ok {
                                ctx.violation(&format!("stepwise vector {ks:?} pattern {pat} allow={allow} {l:?} {r:?} at {v:?}"), format!("{g:?}, expected {e:?}"));
                            }
                            ctx.case();
                        });
                    }
                }
            }
        }
        // --- linear on real knots
        for (scale, shift) in [(1.0f64, 0.0f64), (0.083, 0.25), (37.5, -120.0)] {
            let kf: Vec<f32> = ks.iter().map(|&k| (k as f64 * scale + shift) as f32).collect();
            let k: Vec<f64> = kf.iter().map(|&x| x as f64).collect();
            let mut qs: Vec<f32> = vec![k[0] as f32 - 3.0, (k[n - 1] + 2.5 * scale) as f32, (k[0] - 0.3 * scale) as f32];
            for i in 0..n {
                qs.push(kf[i]);
                if i + 1 < n {
                    qs.push((kf[i] + kf[i + 1]) / 2.0);
                    qs.push(kf[i] + (kf[i + 1] - kf[i]) * 0.1);
                    qs.push(kf[i] + (kf[i + 1] - kf[i]) * 0.875);
                }
            }
            qs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for pat in 0..4 {
                let vs: Vec<f64> = values(n, pat).iter().map(|&x| x as f32 as f64).collect();
                let mag = vs.iter().fold(0.0f64, |a, b| a.max(b.abs())) * if n > 1 { 8.0 } else { 1.0 };
                for e in [E::None, E::Flat, E::Linear] {
                    if n == 1 && e == E::Linear {
                        continue; // no slope to extend
                    }
                    for allow in [false, true] {
                        let va: Array1<f32> = vs.iter().map(|&x| x as f32).collect();
                        let Ok(Ok(it)) = guarded(|| LinearInterpolator1D::new(Array1::from(kf.clone()), va, e, allow)) else {
                            ctx.violation(&format!("linear new {k:?}"), "refused");
                            continue;
                        };
                        for &q in &qs {
                            let w = linear_ref(&k, &vs, q as f64, e, allow);
                            let g = guarded(|| it.interpolate(q));
                            if !same(&g, w, mag) {
                                ctx.violation(&format!("linear {k:?} pattern {pat} {e} allow={allow} at {q}"), format!("{g:?}, expected {w:?}"));
                            }
                            ctx.case();
                        }
                        // vectors: all windows and all sorted pairs/triples of a thinned set
                        let mut check = |v: &[f32]| {
                            let w: Option<Vec<f64>> = v.iter().map(|&q| linear_ref(&k, &vs, q as f64, e, allow)).collect();
                            let g = guarded(|| it.vectorized_interpolate_for_sorted_ndarray(&Array1::from(v.to_vec())));
                            let ok = match (&g, &w) {
                                (Ok(Ok(g)), Some(w)) => g.len() == w.len() && g.iter().zip(w).all(|(a, b)| close(*a, *b, 2e-6, 4e-6 * mag)),
                                (Ok(Err(_)), None) => true,
                                _ => false,
                            };
                            if !ok {
                                ctx.violation(&format!("linear vector {k:?} pattern {pat} {e} allow={allow} at {v:?}"), format!("{g:?}, expected {w:?}"));
                            }
                            ctx.case();
                        };
                        for a in 0..qs.len() {
                            for b in a..=qs.len() {
                                check(&qs[a..b]);
                            }
                        }
                        let thin: Vec<f32> = qs.iter().copied().step_by(if ctx.thorough() { 2 } else { 4 }).collect();
                        sorted_vectors(&thin, 3, &mut check);
                    }
                }
            }
        }
        ctx.end();
    });
    // bilinear
    let tsets: Vec<Vec<i64>> = sets.iter().filter(|s| s.len() >= 2 && s.len() <= ctx.pick(3, 4)).cloned().collect();
    ctx.par_for(tsets.len(), |ti| {
        ctx.begin(|| format!("bilinear {:?}", tsets[ti]));
        let t: Vec<f64> = tsets[ti].iter().map(|&x| (x as f32 * 0.25) as f64).collect();
        for xs in [vec![0i64, 1], vec![0, 3, 4], vec![1, 2, 5, 7]] {
            let x: Vec<f64> = xs.iter().map(|&k| (0.5 + k as f32 * 0.125) as f64).collect();
            let z = Array2::from_shape_fn((t.len(), x.len()), |(i, j)| [0.3f32, 0.11, 0.25, 0.17, 0.5][(3 * i + 2 * j + i * j) % 5]);
            for te in [E::None, E::Flat, E::Linear] {
                for ta in [false, true] {
                    for (xe, xa) in [(E::Flat, true), (E::Linear, true), (E::Flat, false), (E::None, true)] {
                        let f32s = |v: &[f64]| v.iter().map(|&a| a as f32).collect::<Array1<f32>>();
                        let b1 = guarded(|| BilinearInterpolator::new_from_rectangle_data(f32s(&t), f32s(&x), z.clone(), xa, xe, ta, te));
                        let rows = (0..t.len()).map(|i| LinearInterpolator1D::new(f32s(&x), z.row(i).to_owned(), xe, xa).unwrap()).collect();
                        let b2 = guarded(|| BilinearInterpolator::new(f32s(&t), rows, ta, te));
                        let (Ok(Ok(b1)), Ok(Ok(b2))) = (b1, b2) else {
                            ctx.violation(&format!("bilinear new {t:?} {x:?}"), "refused");
                            continue;
                        };
                        let grid = |k: &[f64]| {
                            let mut q = vec![k[0] - 0.4, k[k.len() - 1] + 0.3];
                            for i in 0..k.len() {
                                q.push(k[i]);
                                if i + 1 < k.len() {
                                    q.push(k[i] * 0.5 + k[i + 1] * 0.5);
                                    q.push(k[i] * 0.8 + k[i + 1] * 0.2);
                                }
                            }
                            q.iter().map(|&a| a as f32).collect::<Vec<f32>>()
                        };
                        for &qt in &grid(&t) {
                            for &qx in &grid(&x) {
                                let row: Option<Vec<f64>> = (0..t.len()).map(|i| linear_ref(&x, &z.row(i).iter().map(|&v| v as f64).collect::<Vec<_>>(), qx as f64, xe, xa)).collect();
                                let w = row.and_then(|r| linear_ref(&t, &r, qt as f64, te, ta));
                                for (nm, b) in [("rectangle", &b1), ("rows", &b2)] {
                                    let g = guarded(|| b.interpolate(qt, qx));
                                    if !same(&g, w, 4.0) {
                                        ctx.violation(&format!("bilinear {nm} t {t:?} {te} {ta} x {x:?} {xe} {xa} at ({qt},{qx})"), format!("{g:?}, expected {w:?}"));
                                    }
                                    ctx.case();
                                }
                            }
                        }
                    }
                }
            }
        }
        ctx.end();
    });
    // knots out of order or of another length are refused
    for bad in [vec![1i64, 0], vec![0, 2, 1], vec![3, 1, 2], vec![0, 1, 5, 4]] {
        let kf: Array1<f32> = bad.iter().map(|&x| x as f32).collect();
        let v = Array1::<f32>::ones(bad.len());
        let good: Array1<f32> = (0..bad.len()).map(|x| x as f32).collect();
        let refuse = |w: &str, ok: Result<bool, String>| {
            if ok != Ok(false) {
                ctx.violation(&format!("{w} with knots {bad:?}"), format!("accepted or panicked: {ok:?}"));
            }
            ctx.case();
        };
        refuse("linear", guarded(|| LinearInterpolator1D::new(kf.clone(), v.clone(), E::Flat, true).is_ok()));
        refuse("stepwise", guarded(|| StepwiseInterpolator1D::new(Array1::from(bad.clone()), v.clone(), true, None, None).is_ok()));
        refuse("linear of another length", guarded(|| LinearInterpolator1D::new(good.clone(), Array1::ones(bad.len() + 1), E::Flat, true).is_ok()));
        refuse("stepwise of another length", guarded(|| StepwiseInterpolator1D::new(good.clone(), Array1::ones(bad.len() + 1), true, None, None).is_ok()));
        let z = Array2::<f32>::ones((bad.len(), bad.len()));
        refuse("bilinear times", guarded(|| BilinearInterpolator::new_from_rectangle_data(kf.clone(), good.clone(), z.clone(), true, E::Flat, true, E::Flat).is_ok()));
        refuse("bilinear x", guarded(|| BilinearInterpolator::new_from_rectangle_data(good.clone(), kf.clone(), z.clone(), true, E::Flat, true, E::Flat).is_ok()));
        let wide = Array2::<f32>::ones((bad.len(), bad.len() + 1));
        refuse("bilinear shape", guarded(|| BilinearInterpolator::new_from_rectangle_data(good.clone(), good.clone(), wide, true, E::Flat, true, E::Flat).is_ok()));
    }
    ctx.sample(format!("knots {:?}", sets[sets.len() / 2]));
    ctx.outcome("compared");
}

/// Powers of two: the factors of a matrix scaled by their squares are scaled exactly.
const SCALES: [f64; 3] = [1.0, 1.0 / 1024.0, 128.0];

/// The factorisation of l l^T, at several scales, is l.
fn factor_of(ctx: &Ctx, l: &[Vec<f64>]) {
    let n = l.len();
    for scale in SCALES {
        let a = Array2::from_shape_fn((n, n), |(i, j)| ((0..n).map(|k| l[i][k] * l[j][k]).sum::<f64>() * scale * scale) as f32);
        let r = guarded(|| cholesky_decomposition(&a));
        let ok = match &r {
            Ok(Ok(g)) => g.dim() == (n, n) && (0..n).all(|i| (0..n).all(|j| close(g[[i, j]], l[i][j] * scale, 3e-4, 3e-4 * scale))),
            _ => false,
        };
        if !ok {
            ctx.violation(&format!("cholesky of {a:?}"), format!("{r:?}, expected {scale} times {l:?}"));
        }
        ctx.case();
    }
}

pub fn q18(ctx: &Ctx) {
    // bucketing
    let sets = knot_sets(ctx);
    ctx.par_for(sets.len(), |si| {
        let ks = &sets[si];
        let n = ks.len();
        for (scale, shift) in [(1.0f32, 0.0f32), (0.2, 0.1), (30.0, 5.0)] {
            let loc: Vec<f32> = ks.iter().map(|&k| k as f32 * scale + shift).collect();
            let mut qs = vec![loc[0] - 1.0, loc[n - 1] + 2.0];
            for i in 0..n {
                qs.push(loc[i]);
                if i + 1 < n {
                    for w in [0.1f32, 0.25, 0.5, 0.9] {
                        qs.push(loc[i] * (1.0 - w) + loc[i + 1] * w);
                    }
                }
            }
            for start in [0.0f32, 2.5] {
                for &val in &[1.0f32, -3.0, 1234.5] {
                    for &q in &qs {
                        let mut v: Vec<f32> = (0..n).map(|i| start * i as f32).collect();
                        let r = guarded(|| distribute_value_on_vector(&mut v, val, q, &loc));
                        // reference
                        let mut e: Vec<f64> = (0..n).map(|i| (start * i as f32) as f64).collect();
                        if q <= loc[0] {
                            e[0] += val as f64;
                        } else if q >= loc[n - 1] {
                            e[n - 1] += val as f64;
                        } else {
                            let i = index_ref(&loc, &q);
                            let w = (q as f64 - loc[i] as f64) / (loc[i + 1] as f64 - loc[i] as f64);
                            e[i] += val as f64 * (1.0 - w);
                            e[i + 1] += val as f64 * w;
                        }
                        let ok = matches!(r, Ok(Ok(()))) && v.iter().zip(&e).all(|(a, b)| close(*a, *b, 1e-5, 1e-5 * (val.abs() as f64)));
                        if !ok {
                            ctx.violation(&format!("distribute {val} at {q} on {loc:?} start {start}"), format!("{r:?} {v:?}, expected {e:?}"));
                        }
                        ctx.case();
                    }
                }
            }
            for len in [n + 1, n - 1, 0, 2 * n] {
                let mut v = vec![0.0f32; len];
                if !matches!(guarded(|| distribute_value_on_vector(&mut v, 1.0, loc[0], &loc)), Ok(Err(_))) || v.iter().any(|x| *x != 0.0) {
                    ctx.violation(&format!("distribute lengths {n} and {len}"), "different lengths accepted");
                }
            }
        }
        if ctx.want_sample() {
            ctx.sample(format!("buckets {ks:?}"));
        }
    });
    let mut v: Vec<f32> = vec![];
    if !matches!(guarded(|| distribute_value_on_vector(&mut v, 1.0, 0.0, &[])), Ok(Ok(()))) {
        ctx.violation("distribute on nothing", "not accepted");
    }
    // Cholesky: every product of a lower triangular matrix over a small alphabet, and every
    // symmetric matrix over a small alphabet
    let diag = [0.5f64, 1.0, 2.0];
    let offd = ctx.pick(vec![-1.0f64, 0.0, 0.5], vec![-1.0, -0.25, 0.0, 0.5, 2.0]);
    for n in 1..=ctx.pick(3usize, 4) {
        let m = n * (n - 1) / 2;
        let total = diag.len().pow(n as u32) * offd.len().pow(m as u32);
        let offd = &offd;
        ctx.par_for(total, |code| {
            let mut c = code;
            let mut l = vec![vec![0.0f64; n]; n];
            for i in 0..n {
                l[i][i] = diag[c % diag.len()];
                c /= diag.len();
            }
            for i in 0..n {
                for j in 0..i {
                    l[i][j] = offd[c % offd.len()];
                    c /= offd.len();
                }
            }
            factor_of(ctx, &l);
        });
    }
    // bigger ones: every row of the factor takes part
    for n in 4..=ctx.pick(6usize, 7) {
        let m = n * (n - 1) / 2;
        ctx.par_for(1 << m, |code| {
            let l: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 + (i % 2) as f64 } else if j < i && code >> (i * (i - 1) / 2 + j) & 1 == 1 { 0.5 } else { 0.0 }).collect()).collect();
            factor_of(ctx, &l);
        });
    }
    // definiteness: determinants of the leading minors decide (entries are exact in f32)
    let ent = [-2.0f64, -1.0, 0.0, 0.5, 1.0, 3.0];
    for n in 1..=3usize {
        let m = n * (n + 1) / 2;
        ctx.par_for(ent.len().pow(m as u32), |code| {
            let mut c = code;
            let mut a = vec![vec![0.0f64; n]; n];
            for i in 0..n {
                for j in 0..=i {
                    a[i][j] = ent[c % ent.len()];
                    a[j][i] = a[i][j];
                    c /= ent.len();
                }
            }
            let minor = |k: usize| match k {
                1 => a[0][0],
                2 => a[0][0] * a[1][1] - a[0][1] * a[1][0],
                _ => {
                    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
                        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
                }
            };
            let mins: Vec<f64> = (1..=n).map(minor).collect();
            let pd = mins.iter().all(|&d| d > 1e-3);
            let npd = mins.iter().any(|&d| d < -1e-3) || mins[0] <= 0.0;
            for scale in SCALES.map(|s| s * s) {
                let m = Array2::from_shape_fn((n, n), |(i, j)| (a[i][j] * scale) as f32);
                let r = guarded(|| cholesky_decomposition(&m));
                let ok = match &r {
                    Ok(Ok(l)) => {
                        !npd && (0..n).all(|i| (0..n).all(|j| {
                            let s: f64 = (0..n).map(|k| l[[i, k]] as f64 * l[[j, k]] as f64).sum();
                            (j <= i || l[[i, j]] == 0.0) && (s - a[i][j] * scale).abs() < 1e-4 * scale
                        }))
                    }
                    Ok(Err(_)) => !pd,
                    Err(_) => false,
                };
                if !ok {
                    ctx.violation(&format!("cholesky of {m:?}"), format!("{r:?}, positive definite: {pd}"));
                }
                ctx.case();
            }
        });
    }
    for (r, c) in (0..5).flat_map(|r| (0..5).map(move |c| (r, c))).filter(|(r, c)| r != c) {
        let a = Array2::from_shape_fn((r, c), |(i, j)| if i == j { 1.0f32 } else { 0.0 });
        ctx.case();
        if !matches!(guarded(|| cholesky_decomposition(&a)), Ok(Err(_))) {
            ctx.violation(&format!("cholesky of a {r}x{c} matrix"), "accepted");
        }
    }
    ctx.outcome("compared");
}
