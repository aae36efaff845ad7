//! Small sequential reference model of Series2Graph++ in double precision.
//!
//! It is written from the description of the algorithm (phase space, PCA per dimension, rotation of the
//! reference direction, segmentation, intersections, kernel density peaks, graph, normality score), not
//! from the distributed code. `noise` > 0 adds random errors of the size single precision makes at every
//! stage; a scenario counts as *stable* when noisy evaluations agree with the exact one, and only stable
//! scenarios are used to judge the code.
use actix_rt::Rng;
use ndarray::Array2;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct ModelParams {
    pub pattern: usize,
    pub latent: usize,
    pub rate: usize,
    pub query: usize,
    pub self_correction: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ModelOut {
    /// min-max normalised scores
    pub scores: Vec<f64>,
    /// raw contribution of every dimension to every score (before the median is removed)
    pub contributions: Vec<Vec<f64>>,
    pub corrected: bool,
    pub valid: usize,
    pub invalid: usize,
    pub n_edges: usize,
    /// windows without any edge
    pub missing: usize,
    /// windows without any edge before the first one with edges
    pub missing_at_start: usize,
    /// transitions that wrap over segment 0
    pub wraps: usize,
    /// size of the scores before normalisation relative to their range
    pub ratio: f64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ModelError {
    /// outside of what the algorithm is defined for
    Degenerate(&'static str),
    /// the result depends on rounding
    Unstable(&'static str),
}

/// eigenvectors (rows) of a symmetric matrix by descending eigenvalue, cyclic Jacobi
fn eigh(mut a: Vec<Vec<f64>>) -> (Vec<f64>, Vec<Vec<f64>>) {
    let n = a.len();
    let mut v = vec![vec![0.0; n]; n];
    for (i, row) in v.iter_mut().enumerate() {
        row[i] = 1.0;
    }
    let norm: f64 = a.iter().flatten().map(|x| x * x).sum::<f64>();
    for _ in 0..60 {
        let off: f64 = (0..n)
            .flat_map(|i| (0..i).map(move |j| (i, j)))
            .map(|(i, j)| a[i][j] * a[i][j])
            .sum();
        if off <= norm * 1e-26 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let theta = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = theta.signum() / (theta.abs() + (theta * theta + 1.0).sqrt());
                let t = if theta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for row in v.iter_mut() {
                    let (x, y) = (row[p], row[q]);
                    row[p] = c * x - s * y;
                    row[q] = s * x + c * y;
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|i, j| a[*j][*j].partial_cmp(&a[*i][*i]).unwrap());
    let vals = idx.iter().map(|i| a[*i][*i]).collect();
    let vecs = idx
        .iter()
        .map(|i| v.iter().map(|row| row[*i]).collect())
        .collect();
    (vals, vecs)
}

struct Noise {
    rng: Rng,
    level: f64,
    strict: bool,
}
impl Noise {
    fn add(&mut self, scale: f64) -> f64 {
        if self.level == 0.0 {
            0.0
        } else {
            self.level * scale * self.rng.normal()
        }
    }
}

const EPS: f64 = 1.2e-7;

pub fn model(data: &Array2<f32>, p: &ModelParams, noise: f64, seed: u64) -> Result<ModelOut, ModelError> {
    evaluate(data, p, noise, seed, true)
}

/// One evaluation that ignores how close it is to another outcome: tells degenerate inputs and the
/// approximate size of things, not the exact scores.
pub fn rough_model(data: &Array2<f32>, p: &ModelParams) -> Result<ModelOut, ModelError> {
    evaluate(data, p, 0.0, 0, false)
}

fn evaluate(data: &Array2<f32>, p: &ModelParams, noise: f64, seed: u64, strict: bool) -> Result<ModelOut, ModelError> {
    let mut nz = Noise { rng: Rng::new(seed), level: noise, strict };
    let (n, d) = (data.nrows(), data.ncols());
    if p.pattern < p.latent + 3 || n < p.pattern + p.query {
        return Err(ModelError::Degenerate("too short"));
    }
    let w = p.pattern - p.latent;
    let m = n - (p.pattern - 1);
    // points[i] has first rotated coordinate of every dimension, then the second of every dimension
    let mut points = vec![vec![0.0f64; 2 * d]; m];
    for c in 0..d {
        let col: Vec<f64> = data.column(c).iter().map(|x| *x as f64).collect();
        let min = col.iter().cloned().fold(f64::INFINITY, f64::min);
        let amp = col.iter().map(|x| x.abs()).fold(0.0, f64::max) * p.latent as f64;
        let mut ps = vec![vec![0.0; w]; m];
        // moving sums once, every phase space entry is one of them
        let sums: Vec<f64> = (0..n - p.latent + 1)
            .map(|i| col[i..i + p.latent].iter().sum::<f64>())
            .collect();
        for i in 0..m {
            for j in 0..w {
                ps[i][j] = sums[i + j] + nz.add(4.0 * EPS * amp);
            }
        }
        let mut mean: Vec<f64> = (0..w).map(|j| ps.iter().map(|r| r[j]).sum::<f64>() / m as f64).collect();
        for x in mean.iter_mut() {
            *x += nz.add((2.0 + 0.2 * (m as f64).sqrt()) * EPS * amp);
        }
        let mut cov = vec![vec![0.0; w]; w];
        for r in &ps {
            for a in 0..w {
                let x = r[a] - mean[a];
                for b in a..w {
                    cov[a][b] += x * (r[b] - mean[b]);
                }
            }
        }
        for a in 0..w {
            for b in 0..a {
                cov[a][b] = cov[b][a];
            }
        }
        let (vals, vecs) = eigh(cov);
        let s: Vec<f64> = vals.iter().map(|x| x.max(0.0).sqrt()).collect();
        if s[0] == 0.0 || !(s[0].is_finite()) {
            return Err(ModelError::Degenerate("constant dimension"));
        }
        for i in 0..3 {
            let gap = s[i] - s.get(i + 1).copied().unwrap_or(0.0);
            if strict && gap < 1e-4 * s[0] {
                return Err(ModelError::Unstable("close singular values"));
            }
        }
        // a decomposition in single precision is the one of a slightly different matrix
        let vecs: Vec<Vec<f64>> = (0..3)
            .map(|i| {
                let mut v = vecs[i].clone();
                for (j, o) in vecs.iter().enumerate() {
                    let gap = (s[i] - s[j]).abs();
                    if j != i && gap > 0.0 {
                        let c = nz.add(2.0 * EPS * s[0] / gap);
                        v.iter_mut().zip(o).for_each(|(a, b)| *a += c * b);
                    }
                }
                v
            })
            .collect();
        let comps: Vec<Vec<f64>> = (0..3)
            .map(|i| {
                let v = &vecs[i];
                if v[0] >= 0.0 {
                    v.clone()
                } else {
                    v.iter().map(|x| -x).collect()
                }
            })
            .collect();
        if strict && comps.iter().any(|v| v[0].abs() < 1e-3) {
            return Err(ModelError::Unstable("sign of a component"));
        }
        let proj = |r: &dyn Fn(usize) -> f64| -> Vec<f64> {
            comps
                .iter()
                .map(|v| (0..w).map(|j| v[j] * (r(j) - mean[j])).sum::<f64>())
                .collect()
        };
        let reference = proj(&|_| p.latent as f64 * min);
        let norm = reference.iter().map(|x| x * x).sum::<f64>().sqrt();
        let a: Vec<f64> = reference.iter().map(|x| x / norm).collect();
        // rotation that takes a to the z axis
        let v = [a[1], -a[0], 0.0];
        let s2 = v[0] * v[0] + v[1] * v[1];
        if strict && s2 < 1e-6 {
            return Err(ModelError::Unstable("rotation axis"));
        }
        let f = (1.0 - a[2]) / s2;
        let k = [[0.0, -v[2], v[1]], [v[2], 0.0, -v[0]], [-v[1], v[0], 0.0]];
        let mut r = [[0.0; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                let kk: f64 = (0..3).map(|l| k[i][l] * k[l][j]).sum();
                r[i][j] = if i == j { 1.0 } else { 0.0 } + k[i][j] + kk * f;
            }
        }
        let mut scale = 0.0f64;
        for i in 0..m {
            let x = proj(&|j| ps[i][j]);
            for q in 0..2 {
                let y = (0..3).map(|l| r[q][l] * x[l]).sum::<f64>();
                points[i][q * d + c] = y;
                scale = scale.max(y.abs());
            }
        }
        for pt in points.iter_mut() {
            for q in 0..2 {
                pt[q * d + c] += nz.add(8.0 * EPS * scale);
            }
        }
    }
    let scale = points.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));

    // segments and valid transitions
    let two_pi = 2.0 * std::f64::consts::PI;
    let rate = p.rate;
    let segment = |pt: &Vec<f64>| -> Result<usize, ModelError> {
        let angle = pt[1].atan2(pt[0]);
        let radius = (pt[0] * pt[0] + pt[1] * pt[1]).sqrt();
        let x = (two_pi + angle) / (two_pi / rate as f64);
        let margin = (x - x.round()).abs() * (two_pi / rate as f64);
        if strict && margin < 30.0 * EPS * (1.0 + scale / radius) {
            return Err(ModelError::Unstable("point on a segment border"));
        }
        Ok(x.floor() as usize % rate)
    };
    let transitions = |points: &Vec<Vec<f64>>| -> Result<(Vec<(usize, usize, usize)>, usize), ModelError> {
        let segs = points.iter().map(segment).collect::<Result<Vec<usize>, _>>()?;
        let mut valid = vec![];
        let mut invalid = 0usize;
        for i in 0..points.len() - 1 {
            let (f, t) = (segs[i], segs[i + 1]);
            if f == t {
                continue;
            }
            let diff = (t + rate - f) % rate;
            if diff <= rate / 2 {
                valid.push((i, f, diff));
            } else {
                invalid += 1;
            }
        }
        Ok((valid, invalid))
    };
    let (mut valid, invalid) = transitions(&points)?;
    let (n_valid, n_invalid) = (valid.len(), invalid);
    let mut corrected = false;
    if p.self_correction && valid.len() < invalid {
        corrected = true;
        for pt in points.iter_mut() {
            pt[0] = -pt[0];
        }
        valid = transitions(&points)?.0;
    }

    // intersections by segment: (from point, distance per dimension)
    let mut per_segment: Vec<Vec<(usize, Vec<f64>)>> = vec![vec![]; rate];
    let mut wraps = 0;
    for &(i, f, diff) in &valid {
        if f + diff >= rate {
            wraps += 1;
        }
        for lag in 1..=diff {
            let s = (f + lag) % rate;
            let theta = two_pi * s as f64 / rate as f64;
            let (cx, cy) = (theta.cos(), theta.sin());
            let (a, b) = (&points[i], &points[i + 1]);
            let ca = cx * a[1] - cy * a[0];
            let cb = cx * b[1] - cy * b[0];
            if strict && (ca - cb).abs() < 1e-5 * scale {
                return Err(ModelError::Unstable("transition parallel to a segment border"));
            }
            let t = ca / (ca - cb);
            let x: Vec<f64> = (0..2 * d)
                .map(|k| a[k] + t * (b[k] - a[k]) + nz.add(30.0 * EPS * scale))
                .collect();
            let dist = (0..d).map(|k| (x[k] * x[k] + x[k + d] * x[k + d]).sqrt()).collect();
            per_segment[s].push((i, dist));
        }
    }

    // nodes: (segment, label) per (point, segment)
    let mut label_of: HashMap<(usize, usize), usize> = HashMap::new();
    let mut node_contribution: HashMap<(usize, usize), Vec<f64>> = HashMap::new();
    for (s, list) in per_segment.iter().enumerate() {
        if list.is_empty() {
            continue;
        }
        if list.len() == 1 {
            label_of.insert((list[0].0, s), 0);
            node_contribution.insert((s, 0), vec![0.0; d]);
            continue;
        }
        let mut centers: Vec<Vec<usize>> = vec![vec![]; list.len()];
        for c in 0..d {
            let xs: Vec<f64> = list.iter().map(|x| x.1[c]).collect();
            for (k, z) in kde_centers(&xs, &mut nz)?.into_iter().enumerate() {
                centers[k].push(z);
            }
        }
        let mut keys: HashMap<Vec<usize>, usize> = HashMap::new();
        let mut counts: Vec<usize> = vec![];
        let mut uniq: Vec<Vec<usize>> = vec![];
        for (k, c) in centers.iter().enumerate() {
            let next = keys.len();
            let l = *keys.entry(c.clone()).or_insert(next);
            if l == counts.len() {
                counts.push(0);
                uniq.push(c.clone());
            }
            counts[l] += 1;
            label_of.insert((list[k].0, s), l);
        }
        for (l, c) in uniq.iter().enumerate() {
            let contr = (0..d)
                .map(|k| {
                    let same: usize = uniq.iter().zip(&counts).filter(|(u, _)| u[k] == c[k]).map(|(_, n)| *n).sum();
                    1.0 - same as f64 / list.len() as f64
                })
                .collect();
            node_contribution.insert((s, l), contr);
        }
    }

    // the path through the graph
    type NodeId = (usize, usize);
    let mut edges: Vec<(NodeId, NodeId, usize)> = vec![];
    let mut prev: Option<NodeId> = None;
    for &(i, f, diff) in &valid {
        for lag in 1..=diff {
            let s = (f + lag) % rate;
            let node = (s, label_of[&(i, s)]);
            if let Some(pr) = prev {
                edges.push((pr, node, i));
            }
            prev = Some(node);
        }
    }
    if edges.is_empty() {
        return Err(ModelError::Degenerate("no edges"));
    }
    let mut weight: HashMap<(NodeId, NodeId), usize> = HashMap::new();
    let mut degree: HashMap<NodeId, usize> = HashMap::new();
    let mut seen: HashSet<(NodeId, NodeId)> = HashSet::new();
    for e in &edges {
        *weight.entry((e.0, e.1)).or_default() += 1;
        if seen.insert((e.0, e.1)) {
            *degree.entry(e.0).or_default() += 1;
            *degree.entry(e.1).or_default() += 1;
        }
    }
    // number of edges that end at a point up to p
    let len = m - 1;
    if len < p.query {
        return Err(ModelError::Degenerate("too short"));
    }
    let mut upto = vec![0usize; len];
    {
        let mut k = 0;
        for (i, u) in upto.iter_mut().enumerate() {
            while k < edges.len() && edges[k].2 <= i {
                k += 1;
            }
            *u = k;
        }
    }
    let n_scores = len - (p.query - 1);
    let mut scores = Vec::with_capacity(n_scores);
    let mut contributions = Vec::with_capacity(n_scores);
    let (mut missing, mut missing_at_start) = (0, 0);
    for i in 0..n_scores {
        let (from, to) = (upto[i], (upto[i + p.query - 1] + 1).min(edges.len()));
        if from >= to {
            missing += 1;
            if missing == i + 1 {
                missing_at_start += 1;
            }
            scores.push(scores.last().copied().unwrap_or(0.0));
            contributions.push(vec![0.0; d]);
            continue;
        }
        let sum: f64 = edges[from..to]
            .iter()
            .map(|e| (weight[&(e.0, e.1)] * (degree[&e.0] - 1)) as f64)
            .sum();
        scores.push(-sum / ((to - from) as f64 + 1e-8));
        contributions.push(
            (0..d)
                .map(|k| edges[from..to].iter().map(|e| node_contribution[&e.0][k]).sum::<f64>() / (to - from) as f64)
                .collect(),
        );
    }
    let max = scores.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let min = scores.iter().cloned().fold(f64::INFINITY, f64::min);
    let ratio = max.abs().max(min.abs()) / (max - min);
    if !(ratio < 1e4) {
        return Err(ModelError::Degenerate("constant score"));
    }
    for s in scores.iter_mut() {
        *s = (*s - min) / (max - min);
    }
    Ok(ModelOut {
        scores,
        contributions,
        corrected,
        valid: n_valid,
        invalid: n_invalid,
        n_edges: edges.len(),
        missing,
        missing_at_start,
        wraps,
        ratio,
    })
}

/// index of the closest density peak of every value (250 grid points, Scott's bandwidth), `usize::MAX`
/// if there is none
fn kde_centers(xs: &[f64], nz: &mut Noise) -> Result<Vec<usize>, ModelError> {
    const RES: usize = 250;
    let n = xs.len();
    let min = xs.iter().cloned().fold(f64::INFINITY, f64::min);
    let max = xs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let big = max.abs().max(min.abs());
    if nz.strict && max - min < 1e-3 * big {
        // the grid itself is a matter of rounding (or the variance is zero)
        return Err(ModelError::Unstable("values of a segment too close"));
    }
    let mean = xs.iter().sum::<f64>() / n as f64;
    let var = xs.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / (n as f64 - 1.0);
    let factor = (n as f64).powf(-0.2);
    let prec = 1.0 / var / (factor * factor);
    let whit = prec.sqrt() * (1.0 + nz.add(16.0 * EPS));
    let pad = (max - min) * 0.1;
    let (lo, hi) = (min - pad, max + pad);
    let step = (hi - lo) / (RES as f64 - 1.0);
    let grid: Vec<f64> = (0..RES).map(|i| lo + step * i as f64 + nz.add(EPS * big)).collect();
    let white: Vec<f64> = xs.iter().map(|x| (x + nz.add(EPS * big)) * whit).collect();
    let mut est = vec![0.0; RES];
    for (j, e) in est.iter_mut().enumerate() {
        let g = grid[j] * whit;
        let mut sum = 0.0;
        for x in &white {
            let r = x - g;
            if r.abs() < 13.3 {
                sum += (-r * r / 2.0).exp();
            }
        }
        *e = sum;
    }
    // Rounding of the sums may decide which of two neighbouring grid points is the peak, or that none of
    // them is strictly higher. So, a group (first, last, certain) stands for such alternatives.
    let tol = 2e-8 * (n as f64 + 50.0);
    let mut groups: Vec<(usize, usize, bool)> = vec![];
    for j in 1..RES - 1 {
        let up = (est[j] - est[j - 1]).min(est[j] - est[j + 1]);
        if est[j] == 0.0 || up < -tol * est[j] {
            continue;
        }
        let certain = up > tol * est[j];
        match groups.last_mut() {
            Some(g) if g.1 + 1 == j => *g = (g.0, j, false),
            _ => groups.push((j, j, certain)),
        }
    }
    let assign = |groups: &Vec<(usize, usize, bool)>| -> Result<Vec<usize>, ModelError> {
        let mut res = Vec::with_capacity(n);
        for x in xs {
            // distance to every group lies in an interval
            let dist = |g: &(usize, usize, bool)| {
                let (a, b) = ((grid[g.0] - x).abs(), (grid[g.1] - x).abs());
                (a.min(b), a.max(b))
            };
            let Some(best) = groups.iter().min_by(|a, b| dist(a).1.partial_cmp(&dist(b).1).unwrap()) else {
                res.push(usize::MAX);
                continue;
            };
            let worst = dist(best).1;
            if nz.strict && groups.iter().any(|g| g != best && dist(g).0 < worst + 40.0 * EPS * big) {
                return Err(ModelError::Unstable("between two peaks"));
            }
            res.push(best.0);
        }
        Ok(res)
    };
    let all = assign(&groups)?;
    if nz.strict && groups.iter().any(|g| !g.2) {
        if groups.iter().filter(|g| !g.2).count() > 1 {
            return Err(ModelError::Unstable("flat peaks"));
        }
        let without = assign(&groups.into_iter().filter(|g| g.2).collect())?;
        let same = |v: &Vec<usize>| -> Vec<usize> {
            v.iter().map(|x| v.iter().position(|y| y == x).unwrap()).collect()
        };
        if same(&all) != same(&without) {
            return Err(ModelError::Unstable("flat peak"));
        }
    }
    Ok(all)
}

/// The expected output if it does not depend on rounding: `trials` noisy evaluations agree.
pub fn stable_model(data: &Array2<f32>, p: &ModelParams, level: f64, trials: u64, seed: u64) -> Result<ModelOut, ModelError> {
    let exact = model(data, p, 0.0, 0)?;
    if exact.ratio > 500.0 {
        return Err(ModelError::Unstable("almost constant score"));
    }
    for t in 0..trials {
        let x = model(data, p, level, seed.wrapping_add(t).wrapping_mul(0x9E37_79B9))?;
        if x.scores != exact.scores || x.contributions != exact.contributions || x.corrected != exact.corrected {
            return Err(ModelError::Unstable("discrete structure"));
        }
    }
    Ok(exact)
}
