//! Input generators. Everything is built on integer points and then embedded
//! exactly into a coordinate type; oracles read the embedded values back.
use crate::ex;
use crate::past::seasoned;
use crate::rng::Rg;
use crate::sc::{Kind, Sc};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::One;
use rgeometry::data::{Point, Polygon};

pub type V = [i64; 2];

pub fn x128(p: &[V]) -> Vec<ex::P<i128>> {
  p.iter().map(|v| [v[0] as i128, v[1] as i128]).collect()
}

// --- point sets ---------------------------------------------------------------

/// A point set in one of many styles, coordinates within +-lim.
pub fn point_set(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  let style = r.below(14);
  point_set_style(r, n, lim, style)
}
pub fn point_set_style(r: &mut Rg, n: usize, lim: i64, style: usize) -> Vec<V> {
  let lim = lim.max(1);
  let mut v: Vec<V> = match style {
    0 => (0..n).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect(),
    1 => {
      let g = r.range(1, 2.min(lim));
      (0..n).map(|_| [r.range(-g, g), r.range(-g, g)]).collect()
    }
    2 => {
      let g = r.range(1, 5.min(lim));
      (0..n).map(|_| [r.range(-g, g), r.range(-g, g)]).collect()
    }
    3 => {
      // on a line, few off it
      let (dx, dy) = (r.range(-3, 3), r.range(-3, 3));
      let k = (lim / 4).clamp(0, 12);
      let off = r.below(3);
      (0..n)
        .map(|i| {
          let t = r.range(-k, k);
          let mut p = [t * dx, t * dy];
          if i < off {
            p[r.below(2)] += r.range(-1, 1)
          }
          [p[0].clamp(-lim, lim), p[1].clamp(-lim, lim)]
        })
        .collect()
    }
    4 => {
      // few distinct points, many copies
      let m = 1 + r.below(5);
      let b: Vec<V> = (0..m).map(|_| [r.range(-lim.min(9), lim.min(9)), r.range(-lim.min(9), lim.min(9))]).collect();
      (0..n).map(|_| *r.pick(&b)).collect()
    }
    5 => {
      // corners and edges of a box
      (0..n)
        .map(|_| {
          let mut p = [*r.pick(&[-lim, lim]), *r.pick(&[-lim, lim])];
          if r.chance(1, 2) {
            p[r.below(2)] = r.range(-lim, lim)
          }
          p
        })
        .collect()
    }
    6 => {
      // convex position (parabola or circle-like), plus interior
      let k = ((lim as f64).sqrt() as i64).clamp(1, 2000);
      (0..n)
        .map(|_| {
          let t = r.range(-k, k);
          let y = (t * t).min(lim);
          if r.chance(1, 4) {
            [t, r.range(y.min(lim), lim)]
          } else {
            [t, y]
          }
        })
        .collect()
    }
    7 => {
      // two or three lines through a common point
      let m = 2 + r.below(2);
      let d: Vec<V> = (0..m).map(|_| [r.range(-4, 4), r.range(-4, 4)]).collect();
      let k = (lim / 5).clamp(0, 8);
      (0..n)
        .map(|_| {
          let d = r.pick(&d);
          let t = r.range(-k, k);
          [(t * d[0]).clamp(-lim, lim), (t * d[1]).clamp(-lim, lim)]
        })
        .collect()
    }
    8 => {
      // lattice block, possibly with repetition
      let w = (n as f64).sqrt().ceil() as i64;
      let s = (lim / w.max(1)).clamp(1, 3);
      (0..n as i64).map(|i| [((i % w) * s).min(lim), ((i / w) * s).min(lim)]).collect()
    }
    9 => {
      // axis-parallel lines: many equal x or y
      let c = r.below(2);
      let few: Vec<i64> = (0..1 + r.below(3)).map(|_| r.range(-lim.min(6), lim.min(6))).collect();
      (0..n)
        .map(|_| {
          let mut p = [r.range(-lim, lim), r.range(-lim, lim)];
          p[c] = *r.pick(&few);
          p
        })
        .collect()
    }
    10 => {
      // circle
      let q = lim as f64 * 0.99;
      (0..n)
        .map(|_| {
          let a = (r.u64() >> 11) as f64 / (1u64 << 53) as f64 * std::f64::consts::TAU;
          [(q * a.cos()).round() as i64, (q * a.sin()).round() as i64]
        })
        .collect()
    }
    11 => {
      // nearly colinear with steep or shallow slope at full range
      let (ax, ay) = (r.range(-lim, lim), r.range(-lim, lim));
      let (bx, by) = (r.range(-lim, lim), r.range(-lim, lim));
      (0..n)
        .map(|_| {
          let t = r.range(0, 1000);
          let x = (ax as i128 + (bx as i128 - ax as i128) * t as i128 / 1000) as i64;
          let y = (ay as i128 + (by as i128 - ay as i128) * t as i128 / 1000) as i64;
          [(x.saturating_add(r.range(-1, 1))).clamp(-lim, lim), (y.saturating_add(r.range(-1, 1))).clamp(-lim, lim)]
        })
        .collect()
    }
    12 => {
      // clusters far apart
      let m = 1 + r.below(4);
      let c: Vec<V> = (0..m).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect();
      (0..n)
        .map(|_| {
          let p = r.pick(&c).to_owned();
          [(p[0].saturating_add(r.range(-2, 2))).clamp(-lim, lim), (p[1].saturating_add(r.range(-2, 2))).clamp(-lim, lim)]
        })
        .collect()
    }
    _ => {
      // one quadrant half-plane boundaries around the origin
      (0..n)
        .map(|_| {
          let a = r.range(0, lim);
          match r.below(8) {
            0 => [a, 0],
            1 => [a, a],
            2 => [0, a],
            3 => [-a, a],
            4 => [-a, 0],
            5 => [-a, -a],
            6 => [0, -a],
            _ => [a, -a],
          }
        })
        .collect()
    }
  };
  match r.below(4) {
    0 => v.sort(),
    1 => {
      v.sort();
      v.reverse()
    }
    _ => r.shuffle(&mut v),
  }
  v
}
pub fn distinct(mut v: Vec<V>, r: &mut Rg) -> Vec<V> {
  v.sort();
  v.dedup();
  if r.chance(3, 4) {
    r.shuffle(&mut v);
  }
  v
}

// --- simple polygons ------------------------------------------------------------

/// A simple counter-clockwise polygon with integer coordinates within +-lim.
/// Shapes of many kinds; may contain vertices in the middle of straight sides.
pub fn simple_poly(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  for _ in 0..60 {
    let style = r.below(12);
    let mut p = simple_style(r, n, lim, style);
    if p.iter().any(|q| q[0].abs() > lim || q[1].abs() > lim) {
      continue;
    }
    if r.chance(1, 3) {
      p = add_colinear(r, p);
    }
    if r.chance(1, 4) {
      p = symmetry(r, &p);
    }
    if r.chance(1, 6) {
      let q = shear(r, &p, lim);
      if let Some(q) = q {
        p = q
      }
    }
    if p.len() < 3 {
      continue;
    }
    let k = r.below(p.len());
    p.rotate_left(k);
    let e = x128(&p);
    if ex::is_simple(&e) {
      if ex::area2(&e) < 0 {
        p.reverse();
      }
      return p;
    }
  }
  // always works for lim >= 1
  vec![[0, 0], [1, 0], [0, 1]]
}
pub fn symmetry(r: &mut Rg, p: &[V]) -> Vec<V> {
  let k = r.below(8);
  p.iter()
    .map(|q| {
      let mut q = *q;
      if k & 1 != 0 {
        q[0] = -q[0]
      }
      if k & 2 != 0 {
        q[1] = -q[1]
      }
      if k & 4 != 0 {
        q.swap(0, 1)
      }
      q
    })
    .collect()
}
fn shear(r: &mut Rg, p: &[V], lim: i64) -> Option<Vec<V>> {
  let k = r.range(-20, 20);
  let q: Vec<V> = p.iter().map(|v| [(v[0] as i128 + k as i128 * v[1] as i128).clamp(-(1 << 62), 1 << 62) as i64, v[1]]).collect();
  if q.iter().all(|v| v[0].abs() <= lim && v[1].abs() <= lim) {
    Some(q)
  } else {
    None
  }
}
/// Inserts lattice points of edges as extra vertices.
pub fn add_colinear(r: &mut Rg, p: Vec<V>) -> Vec<V> {
  let n = p.len();
  let mut out = vec![];
  let all = r.chance(1, 2);
  for i in 0..n {
    let (a, b) = (p[i], p[(i + 1) % n]);
    out.push(a);
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let g = num_integer::gcd(dx, dy).abs();
    if g > 1 && (all || r.chance(1, 2)) {
      let mut ks: Vec<i64> = if g <= 6 && r.chance(1, 2) {
        (1..g).collect()
      } else {
        (0..1 + r.below(2)).map(|_| r.range(1, g - 1)).collect()
      };
      ks.sort();
      ks.dedup();
      for k in ks {
        out.push([a[0] + dx / g * k, a[1] + dy / g * k]);
      }
    }
  }
  out
}
fn simple_style(r: &mut Rg, n: usize, lim: i64, style: usize) -> Vec<V> {
  let n = n.max(3);
  match style {
    0 | 1 => star_shape(r, n, lim),
    2 => monotone_shape(r, n, lim),
    3 => polyomino(r, n, lim),
    4 => growth(r, n, lim),
    5 => spiral(r, n, lim),
    6 => comb(r, n, lim),
    7 => convex_shape(r, n, lim),
    8 => two_opt(r, n.min(14), lim),
    9 => small_grid(r, n.min(12)),
    10 => polyomino(r, n, lim),
    _ => growth(r, n, lim.min(8)),
  }
}
fn star_shape(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  let l = if r.chance(1, 2) { lim } else { lim.min(12) };
  let mut v = point_set(r, n, l);
  v.retain(|p| *p != [0, 0]);
  let z = [1i128, 0];
  v.sort_by(|a, b| {
    let (a, b) = ([a[0] as i128, a[1] as i128], [b[0] as i128, b[1] as i128]);
    ex::cmp_angle(&z, &a, &b)
  });
  v.dedup_by(|a, b| {
    let (a, b) = ([a[0] as i128, a[1] as i128], [b[0] as i128, b[1] as i128]);
    ex::cmp_angle(&z, &a, &b).is_eq()
  });
  if r.chance(1, 3) {
    v.push([0, 0]);
  }
  v
}
fn monotone_shape(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  // lower and upper chain over increasing x
  let m = (n / 2).max(2);
  let step = (2 * lim / (m as i64 + 1)).max(1);
  let mut lo = vec![];
  let mut up = vec![];
  let mut x = -lim;
  let h = (lim / 2).max(1);
  let tiny = r.chance(1, 3);
  let rough = if tiny { 1 } else { h };
  while x <= lim && lo.len() < m {
    if r.chance(5, 6) {
      lo.push([x, -1 - r.range(0, rough) + 1]);
    }
    if r.chance(5, 6) {
      up.push([x, 1 + r.range(0, rough - 1)]);
    }
    x += if tiny { 1 + r.range(0, 2) } else { r.range(1, step) };
  }
  up.reverse();
  lo.extend(up);
  lo.dedup();
  lo
}
/// Boundary of a simply connected union of unit cells without pinch points.
fn polyomino(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  let cells = (n / 2).max(1);
  let span = lim.clamp(1, 40);
  let mut set = std::collections::HashSet::new();
  let start: V = [0, 0];
  set.insert(start);
  let mut list = vec![start];
  let bias = r.below(3);
  let mut tries = 0;
  while set.len() < cells && tries < cells * 20 {
    tries += 1;
    let c = match bias {
      0 => *r.pick(&list),
      1 => list[list.len() - 1 - r.below(list.len().min(3))],
      _ => list[r.below(list.len().min(4))],
    };
    let d = *r.pick(&[[1, 0], [-1, 0], [0, 1], [0, -1]]);
    let q = [c[0] + d[0], c[1] + d[1]];
    if set.contains(&q) || q[0] < -span || q[1] < -span || q[0] >= span || q[1] >= span {
      continue;
    }
    // adding q keeps the union a disc: in the ring of 8 neighbours the filled
    // ones form one run that touches q by sides, without diagonal-only contact
    let ring: [V; 8] = [[1, 0], [1, 1], [0, 1], [-1, 1], [-1, 0], [-1, -1], [0, -1], [1, -1]];
    let f: Vec<bool> = ring.iter().map(|d| set.contains(&[q[0] + d[0], q[1] + d[1]])).collect();
    let mut runs = 0;
    for i in 0..8 {
      if f[i] && !f[(i + 7) % 8] {
        runs += 1
      }
    }
    // diagonal-only contact
    let bad = (0..4).any(|k| f[2 * k + 1] && !f[2 * k] && !f[(2 * k + 2) % 8]);
    if runs > 1 || bad {
      continue;
    }
    set.insert(q);
    list.push(q);
  }
  // trace
  let mut edges = std::collections::HashMap::new();
  for c in &set {
    let [x, y] = *c;
    for (a, b, nb) in [
      ([x, y], [x + 1, y], [x, y - 1]),
      ([x + 1, y], [x + 1, y + 1], [x + 1, y]),
      ([x + 1, y + 1], [x, y + 1], [x, y + 1]),
      ([x, y + 1], [x, y], [x - 1, y]),
    ] {
      if !set.contains(&nb) {
        edges.insert(a, b);
      }
    }
  }
  let mut keys: Vec<V> = edges.keys().copied().collect();
  keys.sort();
  let s = keys[0];
  let mut p = vec![s];
  let mut at = edges[&s];
  while at != s && p.len() <= edges.len() {
    p.push(at);
    at = edges[&at];
  }
  let keep = r.below(3);
  let m = p.len();
  let q: Vec<V> = (0..m)
    .filter(|&i| {
      let (a, b, c) = (p[(i + m - 1) % m], p[i], p[(i + 1) % m]);
      let straight = (a[0] == b[0] && b[0] == c[0]) || (a[1] == b[1] && b[1] == c[1]);
      !straight || keep == 0 || (keep == 1 && (b[0] + b[1]) % 2 == 0)
    })
    .map(|i| p[i])
    .collect();
  let s = if span > 0 { (lim / span.max(1)).clamp(1, 1 << 20) } else { 1 };
  let s = if r.chance(1, 2) { 1 } else { s };
  q.iter().map(|v| [v[0] * s, v[1] * s]).collect()
}
/// Starts from a triangle and inserts points into edges while simple.
fn growth(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  let n = n.min(40);
  let mut p: Vec<V>;
  let mut guard = 0;
  loop {
    p = (0..3).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect();
    let a = ex::area2(&x128(&p));
    if a != 0 {
      if a < 0 {
        p.reverse()
      }
      break;
    }
    guard += 1;
    if guard > 100 {
      return vec![[0, 0], [1, 0], [0, 1]];
    }
  }
  let mut tries = 0;
  while p.len() < n && tries < 6 * n {
    tries += 1;
    let q = if r.chance(1, 3) {
      // near or on an existing coordinate, for degeneracy
      let a = *r.pick(&p);
      let b = *r.pick(&p);
      [a[0], b[1]]
    } else {
      [r.range(-lim, lim), r.range(-lim, lim)]
    };
    if p.contains(&q) {
      continue;
    }
    let k = r.below(p.len());
    for d in 0..p.len() {
      let i = (k + d) % p.len();
      let mut c = p.clone();
      c.insert(i + 1, q);
      if insertion_ok(&c, i + 1) {
        p = c;
        break;
      }
      if d > 6 {
        break;
      }
    }
  }
  p
}
fn insertion_ok(c: &[V], k: usize) -> bool {
  let e = x128(c);
  let n = e.len();
  let (a, q, b) = (&e[(k + n - 1) % n], &e[k], &e[(k + 1) % n]);
  for i in 0..n {
    let (u, v) = (&e[i], &e[(i + 1) % n]);
    for (s, t) in [(a, q), (q, b)] {
      if (u == s && v == t) || (u == a && v == q) || (u == q && v == b) {
        continue;
      }
      if v == s || u == t {
        // neighbours: share one vertex only
        let (shared, o1, o2) = if v == s { (s, u, t) } else { (t, v, s) };
        if ex::orient(o1, shared, o2) == 0 && ex::vdot(&ex::sub(o1, shared), &ex::sub(o2, shared)) > 0 {
          return false;
        }
        continue;
      }
      if ex::segs_meet(u, v, s, t) {
        return false;
      }
    }
  }
  ex::orient(a, q, b) != 0 || !(ex::vdot(&ex::sub(a, q), &ex::sub(b, q)) > 0)
}
fn spiral(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  // rectangular spiral corridor of width 1 (scaled)
  let turns = (n / 4).clamp(1, 12) as i64;
  let s = if 2 * turns + 2 > lim { 1 } else { (lim / (2 * turns + 2)).max(1) };
  let turns = turns.min((lim / 2 - 1).max(1));
  let mut outer: Vec<V> = vec![];
  // walk a path of corridor centre corners
  let mut path: Vec<V> = vec![[0, 0]];
  let (mut x, mut y) = (0i64, 0i64);
  let mut len = 2;
  for i in 0..(2 * turns) {
    match i % 4 {
      0 => x += len,
      1 => y += len,
      2 => x -= len,
      _ => y -= len,
    }
    if i % 2 == 1 {
      len += 2
    }
    path.push([x, y]);
  }
  // offset the path to both sides by one half (use doubled coordinates)
  let mut left = vec![];
  let mut right = vec![];
  let m = path.len();
  for i in 0..m {
    let din = if i > 0 { dir(path[i - 1], path[i]) } else { dir(path[0], path[1]) };
    let dout = if i + 1 < m { dir(path[i], path[i + 1]) } else { din };
    let nl_in = [-din[1], din[0]];
    let nl_out = [-dout[1], dout[0]];
    let off = if din == dout { nl_in } else { [nl_in[0] + nl_out[0], nl_in[1] + nl_out[1]] };
    left.push([path[i][0] * 3 + off[0], path[i][1] * 3 + off[1]]);
    right.push([path[i][0] * 3 - off[0], path[i][1] * 3 - off[1]]);
  }
  right.reverse();
  outer.extend(left);
  outer.extend(right);
  outer.reverse();
  let s = (s / 4).max(1);
  let _ = r;
  outer.iter().map(|v| [v[0] * s, v[1] * s]).collect()
}
fn dir(a: V, b: V) -> V {
  [(b[0] - a[0]).signum(), (b[1] - a[1]).signum()]
}
fn comb(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  let teeth = (n / 2).clamp(1, (lim as usize).max(1));
  let h = r.range(1, lim);
  let mut p: Vec<V> = vec![];
  let flat = r.chance(1, 2);
  let w = if r.chance(1, 2) { 1 } else { (2 * lim / (2 * teeth as i64 + 2)).max(1) };
  let mut x = -lim;
  p.push([x, -lim]);
  let mut top = vec![];
  for _ in 0..teeth {
    if x + 2 * w > lim {
      break;
    }
    let base = if flat { 0 } else { r.range(-lim + 1, h - 1).min(h - 1) };
    top.push([x, base]);
    x += w;
    top.push([x, if flat { h } else { r.range(base.min(h), h) }]);
    x += w;
  }
  p.push([x, -lim]);
  top.push([x, h]);
  top.reverse();
  p.extend(top);
  p.dedup();
  p
}
fn convex_shape(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  let style = *r.pick(&[0usize, 6, 10, 5, 2, 8]);
  let s = point_set_style(r, n * 2, lim, style);
  ex::hull(&x128(&s)).iter().map(|p| [p[0] as i64, p[1] as i64]).collect()
}
/// Our own uncrossing of a random tour (independent of the code under test).
fn two_opt(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  let l = if r.chance(1, 2) { lim } else { lim.min(4) };
  let s = point_set(r, n, l);
  let mut p = distinct(s, r);
  for _ in 0..200 {
    let e = x128(&p);
    let m = p.len();
    if m < 3 {
      break;
    }
    let mut found = None;
    'o: for i in 0..m {
      for j in i + 2..m {
        if i == 0 && j == m - 1 {
          continue;
        }
        if ex::segs_meet(&e[i], &e[i + 1], &e[j], &e[(j + 1) % m]) {
          found = Some((i, j));
          break 'o;
        }
      }
    }
    match found {
      None => break,
      Some((i, j)) => p[i + 1..=j].reverse(),
    }
  }
  p
}
fn small_grid(r: &mut Rg, n: usize) -> Vec<V> {
  let w = 2 + r.below(3) as i64;
  let mut cells: Vec<V> = vec![];
  for x in 0..=w {
    for y in 0..=w {
      cells.push([x, y])
    }
  }
  r.shuffle(&mut cells);
  cells.truncate(n.max(3));
  // random insertion while simple
  let mut p: Vec<V> = cells[..3].to_vec();
  let a = ex::area2(&x128(&p));
  if a == 0 {
    return p;
  }
  if a < 0 {
    p.reverse()
  }
  for q in &cells[3..] {
    let k = r.below(p.len());
    for d in 0..p.len() {
      let i = (k + d) % p.len();
      let mut c = p.clone();
      c.insert(i + 1, *q);
      if insertion_ok(&c, i + 1) {
        p = c;
        break;
      }
    }
  }
  p
}
/// A strictly convex polygon, random root.
pub fn convex_poly(r: &mut Rg, n: usize, lim: i64) -> Vec<V> {
  for _ in 0..20 {
    let mut p = convex_shape(r, n, lim);
    if p.len() >= 3 {
      let k = r.below(p.len());
      p.rotate_left(k);
      return p;
    }
  }
  let mut p = vec![[0, 0], [1, 0], [0, 1]];
  let k = r.below(3);
  p.rotate_left(k);
  p
}
/// Query points: vertices, edge points, midpoints, level with vertices, on
/// extended edges and diagonals, near and far. May be off-lattice by factor 1.
pub fn query(r: &mut Rg, p: &[V], lim: i64) -> V {
  let a = *r.pick(p);
  let i = r.below(p.len());
  let (b, c) = (p[i], p[(i + 1) % p.len()]);
  let q = match r.below(11) {
    0 => a,
    1 => {
      let g = num_integer::gcd(c[0] - b[0], c[1] - b[1]).abs().max(1);
      let k = r.range(0, g);
      [b[0] + (c[0] - b[0]) / g * k, b[1] + (c[1] - b[1]) / g * k]
    }
    2 => {
      // extended edge
      let g = num_integer::gcd(c[0] - b[0], c[1] - b[1]).abs().max(1);
      let k = r.range(-3 - g, 3 + 2 * g);
      [b[0].saturating_add(((c[0] - b[0]) / g).saturating_mul(k)), b[1].saturating_add(((c[1] - b[1]) / g).saturating_mul(k))]
    }
    3 => {
      // on a diagonal
      let g = num_integer::gcd(a[0] - b[0], a[1] - b[1]).abs().max(1);
      let k = r.range(0, g);
      [b[0] + (a[0] - b[0]) / g * k, b[1] + (a[1] - b[1]) / g * k]
    }
    4 => {
      let d = *r.pick(p);
      [a[0], d[1]]
    }
    5 => [r.range(-lim, lim), a[1]],
    6 => [a[0], r.range(-lim, lim)],
    7 => [a[0] + r.range(-1, 1), a[1] + r.range(-1, 1)],
    8 => {
      let d = *r.pick(p);
      let e = *r.pick(p);
      [(a[0] as i128 + d[0] as i128 + e[0] as i128).div_euclid(3) as i64, (a[1] as i128 + d[1] as i128 + e[1] as i128).div_euclid(3) as i64]
    }
    9 => [((a[0] as i128 + c[0] as i128) / 2) as i64, ((a[1] as i128 + c[1] as i128) / 2) as i64],
    _ => [r.range(-lim, lim), r.range(-lim, lim)],
  };
  [q[0].clamp(-lim, lim), q[1].clamp(-lim, lim)]
}

// --- embedding ------------------------------------------------------------------

/// An exact, orientation-preserving affine placement of integer points in S.
#[derive(Clone, Debug)]
pub struct Emb {
  pub mul: BigRational,
  pub off: [BigRational; 2],
}
impl Emb {
  pub fn id() -> Emb {
    Emb {
      mul: BigRational::one(),
      off: [BigRational::from_integer(0.into()), BigRational::from_integer(0.into())],
    }
  }
  pub fn put<S: Sc>(&self, v: &V) -> Option<Point<S>> {
    let c = |i: usize| -> Option<S> {
      let x = BigRational::from_integer(BigInt::from(v[i])) * &self.mul + &self.off[i];
      S::from_rat(&x)
    };
    Some(Point::new([c(0)?, c(1)?]))
  }
  pub fn all<S: Sc>(&self, v: &[V]) -> Option<Vec<Point<S>>> {
    if self.is_id() {
      return v
        .iter()
        .map(|p| Some(Point::new([S::from_i(p[0])?, S::from_i(p[1])?])))
        .collect();
    }
    v.iter().map(|p| self.put(p)).collect()
  }
  pub fn apply(&self, p: &[BigRational; 2]) -> [BigRational; 2] {
    [&p[0] * &self.mul + &self.off[0], &p[1] * &self.mul + &self.off[1]]
  }
  pub fn invert(&self, p: &[BigRational; 2]) -> [BigRational; 2] {
    [(&p[0] - &self.off[0]) / &self.mul, (&p[1] - &self.off[1]) / &self.mul]
  }
  pub fn is_id(&self) -> bool {
    self.mul.is_one() && num_traits::Zero::is_zero(&self.off[0]) && num_traits::Zero::is_zero(&self.off[1])
  }
}
/// Coordinate limit that suits the type (before embedding).
pub fn lim_for<S: Sc>(r: &mut Rg) -> i64 {
  let full: i64 = match S::KIND {
    Kind::Fixed => S::MAX,
    Kind::F32 => 1 << 23,
    Kind::F64 => 1 << 50,
    _ => 1 << 60,
  };
  let full = full.min(1 << 60);
  match r.below(6) {
    0 => full,
    1 => full.min(1 << r.range(3, 40)),
    2 => full.min(100),
    3 => full.min(6),
    4 => full.min(20),
    _ => full.min(1 << r.range(2, 16)),
  }
}
/// A placement of points with |coordinate| <= lim, exact in S.
pub fn emb<S: Sc>(r: &mut Rg, lim: i64) -> Emb {
  let mut e = Emb::id();
  if r.chance(1, 2) {
    return e;
  }
  let ri = |v: i128| BigRational::from_integer(BigInt::from(v));
  if matches!(S::KIND, Kind::Big | Kind::Rational) && r.chance(1, 3) {
    // just within (or just beyond) the words of the machine
    let w = *r.pick(&[8usize, 16, 24, 32, 33, 53, 54, 62, 63, 64, 65, 127, 128]);
    let l = BigInt::from(lim.max(1));
    let mx = (BigInt::one() << (w - 1)) - BigInt::from(r.range(-1, 1));
    if mx > l {
      let m = match r.below(3) {
        0 => &mx / &l,
        1 => ((&mx / &l) >> r.below(w)).max(BigInt::one()),
        _ => BigInt::one(),
      };
      for i in 0..2 {
        let o = &mx - &l * &m;
        e.off[i] = BigRational::from_integer([o.clone(), -o, BigInt::from(0)][r.below(3)].clone());
      }
      e.mul = BigRational::from_integer(m);
      if S::KIND == Kind::Rational && r.chance(1, 3) {
        let q = BigRational::new(BigInt::one(), BigInt::from([2i64, 3, 1 << 31, i64::MAX][r.below(4)]));
        e.mul *= &q;
        for i in 0..2 {
          e.off[i] *= &q
        }
      }
      return e;
    }
  }
  match S::KIND {
    Kind::Fixed => {
      let (mn, mx) = (S::MIN as i128, S::MAX as i128);
      let l = lim.max(1) as i128;
      let m = if r.chance(1, 2) { (mx / l).max(1) } else { 1 + r.below(((mx / l).min(1000).max(1)) as usize) as i128 };
      let m = m.min(mx / l).max(1);
      e.mul = ri(m);
      for i in 0..2 {
        let o = match r.below(4) {
          0 => mx - l * m,
          1 => mn + l * m,
          2 => 0,
          _ => {
            let w = mx - l * m;
            if w > 0 {
              r.range(-(w as i64), w as i64) as i128
            } else {
              0
            }
          }
        };
        e.off[i] = ri(o);
      }
    }
    Kind::Big => {
      let k = BigInt::from(7) * BigInt::from(10).pow(r.below(40) as u32);
      e.mul = BigRational::from_integer(k.clone());
      for i in 0..2 {
        e.off[i] = BigRational::from_integer(BigInt::from(r.range(-1000, 1000)) * &k * BigInt::from(r.range(1, 1 << 40)));
      }
    }
    Kind::Rational => {
      let q = [1i64, 2, 3, 7, 97, 1_000_000_007][r.below(6)];
      let s = [1i64, 2, 5, 11, 1 << 20][r.below(5)];
      e.mul = BigRational::new(BigInt::from(r.range(1, 1 << 20)), BigInt::from(q));
      for i in 0..2 {
        e.off[i] = BigRational::new(BigInt::from(r.range(-(1 << 40), 1 << 40)), BigInt::from(s));
      }
    }
    Kind::F32 | Kind::F64 => {
      let (bits, maxe) = if S::KIND == Kind::F32 { (24u32, 40i64) } else { (53, 120) };
      let k = r.range(-maxe, maxe);
      let p = BigInt::one() << k.unsigned_abs() as usize;
      e.mul = if k >= 0 { BigRational::from_integer(p) } else { BigRational::new(BigInt::one(), p) };
      let lb = 64 - (lim.max(1) as u64).leading_zeros();
      if lb + 2 < bits && r.chance(1, 2) {
        // translation that keeps the points exactly representable
        let room = (1i64 << (bits - 1)) - lim - 1;
        for i in 0..2 {
          e.off[i] = &e.mul * BigRational::from_integer(BigInt::from(r.range(-room.min(1 << 40), room.min(1 << 40))));
        }
      }
    }
  }
  e
}
/// Gives some zero coordinates of float points a minus sign.
pub fn zero_signs<S: Sc>(r: &mut Rg, p: &mut [Point<S>]) {
  if let Some(z) = S::neg_zero() {
    if r.chance(1, 2) {
      for q in p.iter_mut() {
        for c in q.array.iter_mut() {
          if *c == S::from_constant(0) && r.chance(1, 2) {
            *c = z.clone();
          }
        }
      }
    }
  }
}
/// Embeds points (and extra query points) into S, falling back to no placement.
pub fn place<S: Sc>(r: &mut Rg, v: &[V], extra: &[V], lim: i64) -> Option<(Vec<Point<S>>, Vec<Point<S>>)> {
  for _ in 0..4 {
    let e = emb::<S>(r, lim);
    if let (Some(mut a), Some(mut b)) = (e.all::<S>(v), e.all::<S>(extra)) {
      zero_signs(r, &mut a);
      zero_signs(r, &mut b);
      return Some((a, b));
    }
  }
  let e = Emb::id();
  Some((e.all::<S>(v)?, e.all::<S>(extra)?))
}

// --- polygons of the code under test ---------------------------------------------

/// The boundary points in order, as the public API shows them.
pub fn boundary<S: Sc>(p: &Polygon<S>) -> Vec<Point<S>> {
  p.boundary_slice().iter().map(|&id| p.point(id).clone()).collect()
}

/// How a polygon object for the given ccw boundary was obtained.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Via {
  Unchecked,
  New,
  /// built clockwise, so that boundary order and numbering differ
  NewReversed,
}
/// A polygon object whose boundary is `pts` (ccw simple) up to rotation.
pub fn build<S: Sc>(r: &mut Rg, pts: &[Point<S>]) -> (Polygon<S>, Via) {
  match r.below(4) {
    0 | 3 => (seasoned(r, pts.to_vec()), Via::Unchecked),
    1 => match Polygon::new(pts.to_vec()) {
      Ok(p) => (p, Via::New),
      Err(_) => (seasoned(r, pts.to_vec()), Via::Unchecked),
    },
    _ => {
      let mut v = pts.to_vec();
      v.reverse();
      match Polygon::new(v) {
        Ok(p) => (p, Via::NewReversed),
        Err(_) => (seasoned(r, pts.to_vec()), Via::Unchecked),
      }
    }
  }
}
/// A polygon from the random polygonization, whose numbering is unrelated to
/// its boundary order. None if the input is degenerate.
pub fn tangled<S: Sc>(r: &mut Rg, n: usize, lim: i64) -> Option<Polygon<S>> {
  let s = point_set(r, n, lim);
  let v = distinct(s, r);
  if v.len() < 3 || ex::all_colinear(&x128(&v)) {
    return None;
  }
  let (pts, _) = place::<S>(r, &v, &[], lim)?;
  let mut g = r.fork();
  let p = rgeometry::algorithms::polygonization::two_opt_moves(pts, &mut g).ok()?;
  let ok = crate::with_ex!(ex::exact(&boundary(&p)), q => ex::is_simple(q) && ex::sgn(&ex::area2(q)) > 0);
  if ok {
    Some(p)
  } else {
    None
  }
}
/// Either a polygon from our own generators or a tangled one.
pub fn any_poly<S: Sc>(r: &mut Rg, nmax: usize) -> Polygon<S> {
  for _ in 0..20 {
    let lim = lim_for::<S>(r);
    let n = 3 + r.below(nmax.max(4) - 3);
    if r.chance(1, 4) {
      if let Some(p) = tangled::<S>(r, n.min(25), lim) {
        return p;
      }
    } else {
      let v = simple_poly(r, n, lim);
      if let Some((pts, _)) = place::<S>(r, &v, &[], lim) {
        return build(r, &pts).0;
      }
    }
  }
  let pts = Emb::id().all::<S>(&[[0, 0], [1, 0], [0, 1]]).unwrap();
  Polygon::new_unchecked(pts)
}
pub fn show<S: Sc>(p: &[Point<S>]) -> String {
  let mut s = format!("{}[", S::NAME);
  for (i, q) in p.iter().enumerate() {
    if i > 0 {
      s.push_str(", ")
    }
    if S::KIND == Kind::Rational {
      s.push_str(&format!("({}, {})", q.array[0].rat(), q.array[1].rat()));
    } else {
      s.push_str(&format!("({:?}, {:?})", q.array[0], q.array[1]));
    }
  }
  s.push(']');
  s
}
pub fn key<S: Sc>(p: &[Point<S>]) -> String {
  show(p)
}

// --- unstructured values -----------------------------------------------------------

/// Next double towards +inf (up) or -inf.
pub fn nudge(v: f64, up: bool) -> f64 {
  if v == 0.0 {
    return if up { f64::from_bits(1) } else { -f64::from_bits(1) };
  }
  let b = v.to_bits();
  f64::from_bits(if (v > 0.0) == up { b + 1 } else { b - 1 })
}
fn float_raw(r: &mut Rg, maxe: i64, bits: u32) -> f64 {
  let m = (r.u64() >> (64 - bits)) as f64;
  let e = match r.below(4) {
    0 => r.range(-maxe, maxe),
    1 => r.range(-3, 3),
    _ => 0,
  };
  let s = if r.chance(1, 2) { 1.0 } else { -1.0 };
  let w = if r.chance(1, 8) { *r.pick(&[0.0, 1.0, 0.5, 3.0]) } else { m / (1u64 << bits) as f64 };
  s * w * 2f64.powi(e as i32)
}
/// One coordinate value with no structure: extremes, huge values, odd floats.
/// Float magnitudes stay within 2^+-240 (f64) or the range of f32.
pub fn raw_value<S: Sc>(r: &mut Rg) -> S {
  match S::KIND {
    Kind::Fixed => {
      let (mn, mx) = (S::MIN, S::MAX);
      let v = match r.below(10) {
        0 => mn,
        1 => mx,
        2 => mn + r.range(0, 3),
        3 => mx - r.range(0, 3),
        4 => 0,
        5 => r.range(-2, 2),
        6 => mn / 2 + r.range(-1, 1),
        7 => mx / 2 + r.range(-1, 1),
        _ => r.range(mn, mx),
      };
      S::from_i(v).unwrap()
    }
    Kind::Big | Kind::Rational => {
      let mut v = BigInt::from(r.range(-3, 3));
      if r.chance(1, 3) {
        // near the ends of the machine's words
        v += BigInt::one() << *r.pick(&[7usize, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64, 126, 127, 128]);
      } else {
        for _ in 0..r.below(6) {
          v = v * BigInt::from(u64::MAX) + BigInt::from(r.u64() >> r.below(64));
        }
      }
      if r.chance(1, 2) {
        v = -v
      }
      if S::KIND == Kind::Rational && r.chance(2, 3) {
        let k = r.range(1, 60);
        let d = BigInt::from(r.range(1, 1 << k));
        return S::from_rat(&BigRational::new(v, d)).unwrap();
      }
      S::from_big(&v).unwrap()
    }
    Kind::F32 => {
      let f = float_raw(r, 120, 24) as f32;
      S::from_rat(&crate::sc::rat_f64(f as f64)).unwrap()
    }
    Kind::F64 => {
      let f = float_raw(r, 180, 53);
      S::from_rat(&crate::sc::rat_f64(f)).unwrap()
    }
  }
}
/// n points of one type: structured sets, extremes, or near-degenerate values.
pub fn raw_points<S: Sc>(r: &mut Rg, n: usize) -> Vec<Point<S>> {
  let mut p = raw_points_0::<S>(r, n);
  zero_signs(r, &mut p);
  p
}
fn raw_points_0<S: Sc>(r: &mut Rg, n: usize) -> Vec<Point<S>> {
  match r.below(8) {
    0..=3 => {
      for _ in 0..4 {
        let lim = lim_for::<S>(r);
        let v = point_set(r, n, lim);
        if let Some((p, _)) = place::<S>(r, &v, &[], lim) {
          return p;
        }
      }
      (0..n).map(|_| Point::new([raw_value(r), raw_value(r)])).collect()
    }
    4 | 5 => {
      // few distinct values
      let vals: Vec<S> = (0..3 + r.below(3)).map(|_| raw_value(r)).collect();
      (0..n).map(|_| Point::new([r.pick(&vals).clone(), r.pick(&vals).clone()])).collect()
    }
    6 if matches!(S::KIND, Kind::F32 | Kind::F64) => {
      // almost on one line, one rounding step apart
      let f32k = S::KIND == Kind::F32;
      let e = r.range(-20, 20) as i32;
      let mut c = || -> f64 { (float_raw(r, 2, if f32k { 24 } else { 53 })) * 2f64.powi(e) };
      let (ax, ay, bx, by) = (c(), c(), c(), c());
      (0..n)
        .map(|i| {
          let t = match i {
            0 => 0.0,
            1 => 1.0,
            _ => *r.pick(&[0.5, 0.25, 2.0, 3.0, -1.0, 0.125, 1.0, 0.0]),
          };
          let mut q = [ax + (bx - ax) * t, ay + (by - ay) * t];
          for x in q.iter_mut() {
            if f32k {
              *x = *x as f32 as f64;
              match r.below(4) {
                0 => *x = nudge32(*x, true),
                1 => *x = nudge32(*x, false),
                _ => {}
              }
            } else {
              match r.below(4) {
                0 if x.abs() > 1e-60 => *x = nudge(*x, true),
                1 if x.abs() > 1e-60 => *x = nudge(*x, false),
                _ => {}
              }
            }
          }
          Point::new([S::from_rat(&crate::sc::rat_f64(q[0])).unwrap(), S::from_rat(&crate::sc::rat_f64(q[1])).unwrap()])
        })
        .collect()
    }
    6 if S::KIND == Kind::Fixed => {
      // near-colinear over the full range
      let lim = (S::MAX as i128).min(S::MAX as i128);
      let mut c = || r.range(S::MIN, S::MAX) as i128;
      let (ax, ay, bx, by) = (c(), c(), c(), c());
      (0..n)
        .map(|_| {
          let d = 1 + r.below(7) as i128;
          let t = r.range(-2, d as i64 + 2) as i128;
          let x = (ax + (bx - ax) * t / d + r.range(-1, 1) as i128).clamp(S::MIN as i128, lim);
          let y = (ay + (by - ay) * t / d + r.range(-1, 1) as i128).clamp(S::MIN as i128, lim);
          Point::new([S::from_i(x as i64).unwrap(), S::from_i(y as i64).unwrap()])
        })
        .collect()
    }
    _ => (0..n).map(|_| Point::new([raw_value(r), raw_value(r)])).collect(),
  }
}
fn nudge32(v: f64, up: bool) -> f64 {
  let v = v as f32;
  if v == 0.0 {
    return 0.0;
  }
  let b = v.to_bits();
  let w = f32::from_bits(if (v > 0.0) == up { b + 1 } else { b - 1 });
  if w.is_finite() {
    w as f64
  } else {
    v as f64
  }
}
/// All values of a small grid as points.
pub fn grid(w: i64) -> Vec<V> {
  let mut g = vec![];
  for x in 0..=w {
    for y in 0..=w {
      g.push([x, y])
    }
  }
  g
}

// --- large inputs ------------------------------------------------------------------

/// A size between `lo` and `hi`, spread over the orders of magnitude, and often
/// next to a power of two.
pub fn big_n(r: &mut Rg, lo: usize, hi: usize) -> usize {
  let (a, b) = ((lo.max(1) as f64).ln(), (hi.max(1) as f64).ln());
  let t = r.below(1 << 20) as f64 / (1 << 20) as f64;
  let n = (a + (b - a) * t).exp().round() as usize;
  let n = if r.chance(1, 3) {
    let p = n.next_power_of_two();
    (p + r.below(5)).saturating_sub(2)
  } else {
    n
  };
  n.clamp(lo, hi)
}
/// A strictly convex polygon with about n vertices: primitive steps of distinct
/// directions in angular order. Coordinates stay within about 40 n.
pub fn big_convex(r: &mut Rg, n: usize) -> Vec<V> {
  let w = ((n as f64).sqrt() as i64 + 3).max(4);
  let mut seen = std::collections::HashSet::new();
  let mut steps: Vec<[i128; 2]> = vec![];
  let mut tries = 0;
  while steps.len() + 2 < n && tries < 60 * n {
    tries += 1;
    let d = [r.range(-w, w), r.range(-w, w)];
    if num_integer::gcd(d[0], d[1]) != 1 || !seen.insert(d) {
      continue;
    }
    if !seen.insert([-d[0], -d[1]]) {
      continue;
    }
    for k in [1i128, -1] {
      let m = 1;
      steps.push([d[0] as i128 * k * m, d[1] as i128 * k * m]);
    }
  }
  if steps.len() < 4 {
    return vec![[0, 0], [1, 0], [1, 1], [0, 1]];
  }
  let z = [1i128, 0];
  steps.sort_by(|a, b| ex::cmp_angle(&z, a, b));
  let mut p = vec![];
  let mut at = [0i64, 0];
  for s in &steps {
    p.push(at);
    at = [at[0] + s[0] as i64, at[1] + s[1] as i64];
  }
  let (cx, cy) = ((p[0][0] + p[p.len() / 2][0]) / 2, (p[0][1] + p[p.len() / 2][1]) / 2);
  for q in p.iter_mut() {
    *q = [q[0] - cx, q[1] - cy];
  }
  let k = r.below(p.len());
  p.rotate_left(k);
  p
}
/// A simple ccw polygon with about n vertices, n up to a few thousand.
pub fn big_simple(r: &mut Rg, n: usize) -> Vec<V> {
  for _ in 0..20 {
    let lim = 1i64 << r.range(14, 20);
    let mut p = match r.below(10) {
      9 => dense(r, n),
      0 => {
        // star with unrelated radii
        let mut v: Vec<V> = (0..n + n / 8).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).filter(|p| *p != [0, 0]).collect();
        let z = [1i128, 0];
        let w = |p: &V| [p[0] as i128, p[1] as i128];
        v.sort_by(|a, b| ex::cmp_angle(&z, &w(a), &w(b)));
        v.dedup_by(|a, b| ex::cmp_angle(&z, &w(a), &w(b)).is_eq());
        v.truncate(n);
        if r.chance(1, 3) && v.len() < n { v.push([0, 0]) }
        v
      }
      1 => {
        // monotone in x
        let m = n as i64 / 2;
        let h = *r.pick(&[1i64, 5, 1 << 12]);
        let mut lo: Vec<V> = (0..=m).map(|x| [x - m / 2, -r.range(0, h)]).collect();
        for x in (0..=m).rev() {
          if r.chance(9, 10) { lo.push([x - m / 2, 1 + r.range(0, h)]) }
        }
        lo
      }
      2 => comb(r, n, 1 << 13),
      3 => {
        // rectangle with many vertices on its sides
        let m = n as i64 / 4 + 1;
        add_all([[0, 0], [m, 0], [m, m], [0, m]].to_vec())
      }
      4 => {
        // staircase
        let m = n as i64 / 2;
        let mut p: Vec<V> = vec![];
        for i in 0..m {
          p.push([i, i]);
          p.push([i + 1, i]);
        }
        p.push([m, m]);
        p.push([0, m]);
        p
      }
      5 => big_convex(r, n),
      6 => polyomino(r, 2 * n, 60),
      7 => {
        // convex with every other vertex pulled in
        let v = big_convex(r, n);
        v.iter().enumerate().map(|(i, q)| if i % 2 == 1 { [q[0] / 2, q[1] / 2] } else { *q }).collect()
      }
      _ => {
        // zigzag corridor
        let m = n as i64 / 2;
        let h = 2 * m + 7;
        let mut p: Vec<V> = (0..m).map(|i| [2 * i, if i % 2 == 0 { 0 } else { h }]).collect();
        let q: Vec<V> = (0..m).rev().map(|i| [2 * i, if i % 2 == 0 { 3 } else { h + 3 }]).collect();
        p.extend(q);
        p
      }
    };
    if r.chance(1, 3) {
      p = symmetry(r, &p);
    }
    p.dedup();
    if p.len() < 3 {
      continue;
    }
    let k = r.below(p.len());
    p.rotate_left(k);
    let e = x128(&p);
    if ex::is_simple(&e) {
      if ex::area2(&e) < 0 {
        p.reverse();
      }
      return p;
    }
  }
  big_convex(r, n)
}
/// A small polygon in which one or two edges are replaced by dense zigzags, so
/// that most vertices are close together and far from the others. Not always simple.
pub fn dense(r: &mut Rg, n: usize) -> Vec<V> {
  let k = 4 + r.below(8);
  let w = *r.pick(&[4, 10, 60]);
  let mut p: Vec<V> = simple_poly(r, k, w).iter().map(|q| [q[0] << 14, q[1] << 14]).collect();
  let parts = 1 + r.below(2);
  for _ in 0..parts {
    let m = (n.saturating_sub(k) / parts).max(1) as i64;
    let i = r.below(p.len());
    let (u, v) = (p[i], p[(i + 1) % p.len()]);
    let d = [v[0] - u[0], v[1] - u[1]];
    // the stretch of the edge that is replaced, and how far it reaches to either side
    let (a, b) = *r.pick(&[(0, 16), (1, 15), (6, 10), (12, 16)]);
    let f = *r.pick(&[-2i64, -8, -64, 2, 8, 64, 1 << 10]);
    let z: Vec<V> = (1..=m)
      .map(|j| {
        let t = |c: i64| c * a / 16 + c * (b - a) / 16 * j / (m + 1);
        let o = if j % 2 == 0 { 0 } else { 1 };
        [u[0] + t(d[0]) - o * d[1] / f, u[1] + t(d[1]) + o * d[0] / f]
      })
      .collect();
    p.splice(i + 1..i + 1, z);
  }
  p
}
fn add_all(p: Vec<V>) -> Vec<V> {
  let n = p.len();
  let mut out = vec![];
  for i in 0..n {
    let (a, b) = (p[i], p[(i + 1) % n]);
    let g = num_integer::gcd(b[0] - a[0], b[1] - a[1]).abs();
    for k in 0..g {
      out.push([a[0] + (b[0] - a[0]) / g * k, a[1] + (b[1] - a[1]) / g * k]);
    }
  }
  out
}
/// n points, n up to a few thousand, with the rare features far into the list.
pub fn big_points(r: &mut Rg, n: usize) -> Vec<V> {
  let lim = 1i64 << r.range(3, 20);
  let mut v: Vec<V> = match r.below(7) {
    0 => (0..n).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect(),
    1 | 2 => {
      // all on one line but for a few
      let d = [r.range(-3, 3), r.range(1, 3)];
      let mut v: Vec<V> = (0..n as i64).map(|i| [d[0] * i, d[1] * i]).collect();
      if r.chance(1, 2) { r.shuffle(&mut v) }
      for _ in 0..r.below(3) {
        let k = match r.below(3) { 0 => n - 1, 1 => 0, _ => r.below(n) };
        v[k] = [v[k][0] + r.range(1, 2), v[k][1]];
      }
      v
    }
    3 => big_convex(r, n),
    4 => {
      let w = (n as f64).sqrt() as i64 + 1;
      let mut v: Vec<V> = grid(w);
      r.shuffle(&mut v);
      v.truncate(n);
      v
    }
    5 => {
      let mut v = big_convex(r, n / 2 + 2);
      let m = v.iter().map(|p| p[0].abs().max(p[1].abs())).max().unwrap();
      while v.len() < n { v.push([r.range(-m / 2, m / 2), r.range(-m / 2, m / 2)]) }
      r.shuffle(&mut v);
      v
    }
    _ => {
      let mut v: Vec<V> = (0..n).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect();
      v.sort();
      if r.chance(1, 2) { v.reverse() }
      v
    }
  };
  match r.below(6) {
    0 => {
      // equal points far apart in the list
      for _ in 0..1 + r.below(2) {
        let (a, b) = (r.below(v.len()), r.below(v.len()));
        v[a] = v[b];
      }
    }
    1 => {
      let k = v.len() - 1;
      v[k] = v[k - 1];
    }
    _ => {}
  }
  v
}
/// Exact placement of large integer inputs; mostly the identity, to keep exact
/// arithmetic fast.
pub fn place_big<S: Sc>(r: &mut Rg, v: &[V], extra: &[V]) -> Option<(Vec<Point<S>>, Vec<Point<S>>)> {
  if r.chance(1, 4) {
    let l = v.iter().chain(extra).map(|p| p[0].abs().max(p[1].abs())).max().unwrap_or(1).max(1);
    return place(r, v, extra, l);
  }
  let e = Emb::id();
  let (mut a, mut b) = (e.all::<S>(v)?, e.all::<S>(extra)?);
  zero_signs(r, &mut a);
  zero_signs(r, &mut b);
  Some((a, b))
}
/// A polygon with about n vertices whose numbering may differ from the order
/// along the boundary.
pub fn big_poly<S: Sc>(r: &mut Rg, n: usize) -> Option<Polygon<S>> {
  let v = big_simple(r, n);
  let (pts, _) = place_big::<S>(r, &v, &[])?;
  let m = pts.len();
  if m <= 400 && r.chance(1, 3) {
    // cross the chain once and let the untangling renumber it
    let mut c = pts.clone();
    let (a, b) = (r.below(m), r.below(m));
    c[a.min(b)..=a.max(b)].reverse();
    let mut g = r.fork();
    let mut p = seasoned(r, c);
    if rgeometry::algorithms::polygonization::resolve_self_intersections(&mut p, &mut g).is_ok() {
      let ok = crate::with_ex!(ex::exact(&boundary(&p)), q => ex::is_simple(q) && ex::sgn(&ex::area2(q)) > 0);
      if ok {
        return Some(p);
      }
    }
  }
  Some(build(r, &pts).0)
}
/// More vertices than sixteen bits count.
pub fn huge_n(r: &mut Rg) -> usize {
  match r.below(4) {
    0 => (1 << 16) - 2 + r.below(6),
    1 => (1 << 16) + r.below(1 << 10),
    _ => (1 << 16) + r.below(1 << 16),
  }
}
/// A simple ccw polygon of about n vertices, n beyond sixteen bits: simple by
/// construction, as checking would take too long.
pub fn huge_simple(r: &mut Rg, n: usize) -> Vec<V> {
  let lim = 1i64 << 24;
  let m = n as i64 / 2;
  let mut p: Vec<V> = match r.below(7) {
    // a comb: every level line within it meets all of its teeth
    6 => {
      let h = *r.pick(&[2i64, 10, 1 << 12]);
      let mut v: Vec<V> = (0..n as i64 - 2).map(|x| [x, if x % 2 == 0 { 0 } else { h }]).collect();
      v.push([n as i64 - 2, -5]);
      v.push([0, -5]);
      v
    }
    0 => {
      let mut v: Vec<V> = (0..n).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).filter(|p| *p != [0, 0]).collect();
      let z = [1i128, 0];
      let w = |p: &V| [p[0] as i128, p[1] as i128];
      v.sort_by(|a, b| ex::cmp_angle(&z, &w(a), &w(b)));
      v.dedup_by(|a, b| ex::cmp_angle(&z, &w(a), &w(b)).is_eq());
      v
    }
    1 => {
      let h = *r.pick(&[1i64, 5, 1 << 12]);
      let mut v: Vec<V> = (0..=m).map(|x| [x - m / 2, -r.range(0, h)]).collect();
      for x in (0..=m).rev() {
        if r.chance(99, 100) { v.push([x - m / 2, 1 + r.range(0, h)]) }
      }
      v
    }
    2 => {
      let k = n as i64 / 4 + 1;
      add_all([[0, 0], [k, 0], [k, k], [0, k]].to_vec())
    }
    3 => {
      let mut v: Vec<V> = vec![];
      for i in 0..m {
        v.push([i, i]);
        v.push([i + 1, i]);
      }
      v.push([m, m]);
      v.push([0, m]);
      v
    }
    4 => big_convex(r, n),
    _ => {
      let v = big_convex(r, n);
      v.iter().enumerate().map(|(i, q)| if i % 2 == 1 { [q[0] - q[0] / 8, q[1] - q[1] / 8] } else { *q }).collect()
    }
  };
  if r.chance(1, 3) {
    // quarter turns and mirror images
    match r.below(3) {
      0 => p.iter_mut().for_each(|q| *q = [-q[1], q[0]]),
      1 => p.iter_mut().for_each(|q| *q = [-q[0], -q[1]]),
      _ => p.iter_mut().for_each(|q| *q = [q[1], q[0]]),
    }
  }
  if ex::area2(&x128(&p)) < 0 {
    p.reverse();
  }
  let k = r.below(p.len());
  p.rotate_left(k);
  p
}
/// A huge polygon object for a ccw boundary; the numbering may run against it.
pub fn build_huge<S: Sc>(r: &mut Rg, pts: &[Point<S>]) -> Polygon<S> {
  let mut v = pts.to_vec();
  if r.chance(1, 2) {
    return seasoned(r, v);
  }
  v.reverse();
  let mut p = seasoned(r, v);
  let _ = p.ensure_ccw();
  p
}

/// Floats that share a power of two, often where squares or products of them
/// leave the normal range at either end.
pub fn scaled<S: Sc>(r: &mut Rg, k: usize) -> Option<Vec<S>> {
  let f32s = S::KIND == crate::sc::Kind::F32;
  let bits = *r.pick(&[2u32, 3, 8, 20]);
  let (lo, hi) = if f32s { (-149i64, 127) } else { (-1074, 1023) };
  let e = match r.below(5) {
    0 => r.range(lo, hi - bits as i64),
    // the root of the smallest normal and of the largest number
    1 | 2 => lo / 2 + r.range(-(bits as i64) - 8, 30),
    3 => hi / 2 + r.range(-(bits as i64) - 4, 4),
    _ => r.range(lo, lo + 30),
  };
  let mut out = vec![];
  for _ in 0..k {
    let m = r.range(-(1 << bits), 1 << bits);
    // doubled step by step, which is exact for subnormals too
    let mut f = m as f64;
    let mut e = e.max(lo);
    while e > 0 { let s = e.min(900); f *= 2f64.powi(s as i32); e -= s }
    while e < 0 { let s = e.max(-900); f *= 2f64.powi(s as i32); e -= s }
    out.push(S::from_rat(&crate::sc::rat_f64(f))?);
  }
  Some(out)
}
