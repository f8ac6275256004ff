use rgeometry::algorithms::segment_intersections;
use rgeometry::data::*;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::Sc;
use rgmon::segs::*;
use rgmon::*;
use std::collections::HashMap;

/// The pairs reported for a list of any kind of edge, as sorted index pairs.
fn reported<'a, S: Sc + 'a, E>(ctx: &mut Ctx, list: &'a [E]) -> Result<Vec<(usize, usize)>, String>
where
  &'a E: Into<LineSegmentView<'a, S, 2>>,
{
  let at = |p: &E| (p as *const _ as usize - list.as_ptr() as usize) / std::mem::size_of::<E>();
  let mut got = vec![];
  for (a, b) in segment_intersections(list) {
    let (i, j) = (at(a), at(b));
    ck!(i < list.len() && j < list.len(), "a reported edge is not an entry of the input");
    got.push((i.min(j), i.max(j)));
    ctx.eval();
  }
  got.sort();
  Ok(got)
}
/// The same list as other kinds of edges.
fn other_kinds<S: Sc>(ctx: &mut Ctx, m: &[Made<S>]) -> Res {
  let n = m.len();
  let pts: Vec<Point<S>> = m.iter().flat_map(|m| [m.a.clone(), m.b.clone()]).collect();
  let (mut half, mut closed) = (vec![], vec![]);
  with_ex!(exact(&pts), e => {
    for (incl, want) in [(false, &mut half), (true, &mut closed)] {
      let s: Vec<_> = (0..n).map(|i| Seg::new(&e[2 * i], true, &e[2 * i + 1], incl)).collect();
      for i in 0..n {
        for j in 0..i {
          if meet(&s[i], &s[j]) != Meet::No {
            want.push((j, i));
          }
        }
      }
      want.sort();
    }
  });
  let say = || m.iter().map(|m| show(&[m.a.clone(), m.b.clone()])).collect::<Vec<_>>();
  let d: Vec<DirectedEdge<'_, S>> = m.iter().map(|m| DirectedEdge { src: &m.a, dst: &m.b }).collect();
  let got = reported::<S, _>(ctx, &d)?;
  ck!(got == half, "pairs {:?} of directed edges reported, exactly {:?}, among {:?}", got, half, say());
  let d: Vec<DirectedEdge_<S, 2>> = m.iter().map(|m| DirectedEdge_ { src: m.a.clone(), dst: m.b.clone() }).collect();
  let got = reported::<S, _>(ctx, &d)?;
  ck!(got == half, "pairs {:?} of owned directed edges reported, exactly {:?}, among {:?}", got, half, say());
  let d: Vec<std::ops::Range<Point<S>>> = m.iter().map(|m| m.a.clone()..m.b.clone()).collect();
  let got = reported::<S, _>(ctx, &d)?;
  ck!(got == half, "pairs {:?} of ranges reported, exactly {:?}, among {:?}", got, half, say());
  let d: Vec<std::ops::RangeInclusive<Point<S>>> = m.iter().map(|m| m.a.clone()..=m.b.clone()).collect();
  let got = reported::<S, _>(ctx, &d)?;
  ck!(got == closed, "pairs {:?} of closed ranges reported, exactly {:?}, among {:?}", got, closed, say());
  ctx.count("other_kinds");
  Ok(())
}
fn check<S: Sc>(ctx: &mut Ctx, m: &[Made<S>]) -> Res {
  let n = m.len();
  let pts: Vec<Point<S>> = m.iter().flat_map(|m| [m.a.clone(), m.b.clone()]).collect();
  let mut want = vec![];
  with_ex!(exact(&pts), e => {
    let s: Vec<_> = m.iter().enumerate().map(|(i, m)| Seg::new(&e[2 * i], m.ai, &e[2 * i + 1], m.bi)).collect();
    for i in 0..n {
      for j in 0..i {
        if meet(&s[i], &s[j]) != Meet::No {
          want.push((j, i));
        }
      }
    }
  });
  want.sort();
  let segs: Vec<LineSegment<S>> = m.iter().map(|m| m.seg()).collect();
  let at = |p: &LineSegment<S>| (p as *const _ as usize - segs.as_ptr() as usize) / std::mem::size_of::<LineSegment<S>>();
  let mut seen: HashMap<(usize, usize), u32> = HashMap::new();
  let mut got = vec![];
  for (a, b) in segment_intersections(&segs) {
    let (i, j) = (at(a), at(b));
    ck!(i < n && j < n, "a reported segment is not an entry of the input");
    ck!(i != j, "entry {i} is reported as meeting itself: {:?}", m.iter().map(|m| m.show()).collect::<Vec<_>>());
    *seen.entry((i.min(j), i.max(j))).or_insert(0) += 1;
    got.push((i.min(j), i.max(j)));
    ctx.eval();
  }
  if n < 30 && ctx.rng.chance(1, 4) {
    let r = &mut ctx.rng.fork();
    let what = format!("intersections of {:?}", m.iter().map(|m| m.show()).collect::<Vec<_>>());
    let order: Vec<(usize, usize)> = segment_intersections(&segs).map(|(a, b)| (at(a), at(b))).collect();
    ck!(order.len() == got.len(), "{}: {} pairs, then {}", what, got.len(), order.len());
    common::iter_protocol(ctx, r, &what, &|| segment_intersections(&segs), &|(a, b)| (at(a), at(b)), &order)?;
  }
  got.sort();
  ctx.eval();
  ctx.countn("pairs", want.len() as u64);
  ctx.countn("pairs_apart", (n * n.saturating_sub(1) / 2 - want.len()) as u64);
  ctx.count(if n < 2 { "tiny_inputs" } else { "inputs" });
  if want.is_empty() { ctx.count("no_pair") }
  if let Some((k, c)) = seen.iter().find(|(_, c)| **c > 1) {
    return Err(format!("pair {:?} is reported {} times among {:?}", k, c, m.iter().map(|m| m.show()).collect::<Vec<_>>()));
  }
  ck!(got == want, "pairs {:?} reported, exactly {:?}, among {:?}", got, want, m.iter().map(|m| m.show()).collect::<Vec<_>>());
  Ok(())
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = match r.below(10) { 0 => r.below(3), 1 => 15 + r.below(25), _ => 2 + r.below(12) };
  let p = raw_points::<S>(r, 2 * n);
  let mut m: Vec<Made<S>> = (0..n).map(|i| made(r, p[2 * i].clone(), p[2 * i + 1].clone())).collect();
  if n > 1 && r.chance(1, 4) {
    // multiplicity
    for _ in 0..1 + r.below(3) {
      let k = r.below(n);
      let j = r.below(n);
      m[k] = m[j].clone();
      if r.chance(1, 2) { let q = m[k].clone(); m[k] = Made { a: q.b, ai: q.bi, b: q.a, bi: q.ai }; }
    }
    ctx.count("with_copies");
  }
  ctx.nontrivial(key(&p));
  ctx.sample(|| show(&p));
  if r.chance(1, 3) { other_kinds(ctx, &m)? }
  check(ctx, &m)
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
/// Edges of a polygon given as directed edges; neighbours share half-open ends.
fn edges<S: Sc>(ctx: &mut Ctx) -> Res {
  let poly = any_poly::<S>(&mut ctx.rng, 24);
  let b = boundary(&poly);
  let mut e: Vec<DirectedEdge_<S, 2>> = (0..b.len()).map(|i| DirectedEdge_ { src: b[i].clone(), dst: b[(i + 1) % b.len()].clone() }).collect();
  ctx.rng.shuffle(&mut e);
  let k = segment_intersections(&e).count();
  let d: Vec<DirectedEdge<'_, S>> = poly.iter_boundary_edges().collect();
  let k2 = segment_intersections(&d).count();
  ck!(k2 == 0, "{} pairs of boundary edges of the simple polygon {} are reported", k2, show(&b));
  ctx.eval();
  ctx.count("simple_polygons");
  ctx.nontrivial(key(&b));
  ck!(k == 0, "{} pairs of half-open edges of the simple polygon {} are reported", k, show(&b));
  Ok(())
}
fn fam_edges(ctx: &mut Ctx) -> Res {
  all_types!(ctx, edges)
}
/// Hundreds of segments, with the meeting pairs anywhere in the list.
fn big<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 700 } else { 2500 });
  let mut v: Vec<[V; 2]> = match r.below(3) {
    0 => {
      // parallel and apart, with a few crossing or touching ones
      let mut v: Vec<[V; 2]> = (0..n as i64).map(|i| [[0, 4 * i], [100, 4 * i + 1]]).collect();
      for _ in 0..r.below(4) {
        let (a, b) = (r.range(0, n as i64 - 1), r.range(0, n as i64 - 1));
        let k = r.below(n);
        v[k] = [[r.range(0, 100), 4 * a], [r.range(0, 100), 4 * b]];
      }
      v
    }
    1 => {
      let w = r.range(3, 60);
      (0..n).map(|_| { let a = [r.range(-3000, 3000), r.range(-3000, 3000)]; [a, [a[0] + r.range(-w, w), a[1] + r.range(-w, w)]] }).collect()
    }
    _ => (0..n as i64).map(|i| [[3 * i, 0], [3 * i + 2, if r.chance(1, 30) { 9 } else { 0 }]]).collect(),
  };
  if r.chance(1, 2) { r.shuffle(&mut v) }
  if r.chance(1, 2) { let (a, b) = (r.below(n), r.below(n)); v[a] = v[b] }
  let flat: Vec<V> = v.iter().flatten().copied().collect();
  let Some((p, _)) = place_big::<S>(r, &flat, &[]) else { return Ok(()) };
  let m: Vec<Made<S>> = (0..n).map(|i| made(r, p[2 * i].clone(), p[2 * i + 1].clone())).collect();
  ctx.nontrivial(key(&p));
  ctx.count("big");
  ctx.max("segments", n as f64);
  check(ctx, &m)
}
fn fam_big(ctx: &mut Ctx) -> Res {
  fast_types!(ctx, big)
}
fn main() {
  engine::run_main(Property {
    id: "C07",
    rule: "a case is non-trivial by its list of segments",
    assumptions: &[],
    families: vec![
      Family { name: "random", quick: 40000, thorough: 1500000, f: fam_random },
      Family { name: "edges", quick: 4000, thorough: 100000, f: fam_edges },
      Family { name: "big", quick: 120, thorough: 6000, f: fam_big },
    ],
    require: &["iterator_protocol", "other_kinds", "pairs", "pairs_apart", "tiny_inputs", "inputs", "no_pair", "with_copies", "simple_polygons", "big"],
  })
}
