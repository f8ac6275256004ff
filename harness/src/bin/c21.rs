use rgeometry::data::{IndexEdge, IndexIntersection, IndexIntersectionSet, Point, PointId, Polygon};
use rgmon::gen::big_n;
use rgmon::rng::{Hostile, Rg};
use rgmon::*;
use std::collections::BTreeSet;

fn ids(n: usize) -> Vec<PointId> {
  Polygon::new_unchecked((0..n).map(|i| Point::new([i as i32, 0])).collect::<Vec<Point<i32>>>()).boundary_slice().to_vec()
}
struct Model {
  ids: Vec<PointId>,
  edges: Vec<IndexEdge>,
  set: BTreeSet<IndexIntersection>,
}
impl Model {
  fn check(&self, ctx: &mut Ctx, s: &IndexIntersectionSet, log: &[String]) -> Res {
    ctx.eval();
    let mut got: Vec<IndexIntersection> = s.iter().collect();
    let n = got.len();
    got.sort();
    let want: Vec<IndexIntersection> = self.set.iter().copied().collect();
    ck!(got == want, "after {:?}: iteration yields {:?} ({} items), expected {:?}", log, got, n, want);
    for &e in &self.edges {
      let w = self.set.iter().any(|i| i.min == e || i.max == e);
      ck!(s[e].is_some() == w, "after {:?}: lookup of {:?} is {:?}, remaining set {:?}", log, e, s[e].is_some(), want);
      if w { ctx.count("edge_present") } else { ctx.count("edge_absent") }
    }
    Ok(())
  }
}
fn history(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 2 + r.below(9);
  let steps = if r.chance(1, 20) { 400 } else { 10 + r.below(60) };
  // few edges make chains long
  let few = r.chance(1, 2);
  run(ctx, r, n, steps, few)
}
fn run(ctx: &mut Ctx, r: &mut Rg, n: usize, steps: usize, few: bool) -> Res {
  let v = ids(n);
  let mut edges = vec![];
  for i in 0..n { for j in i + 1..n { edges.push(IndexEdge::new(v[i], v[j])) } }
  r.shuffle(&mut edges);
  if few && edges.len() > 5 { edges.truncate(5) }
  let mut m = Model { ids: v, edges, set: BTreeSet::new() };
  let mut s = IndexIntersectionSet::new(n);
  let mut log: Vec<String> = vec![];
  let heavy = r.below(3);
  let mut removed_then_pushed = false;
  for _ in 0..steps {
    let act = r.below(10);
    let push = match heavy { 0 => act < 5, 1 => act < 8, _ => act < 7 };
    if push && m.edges.len() >= 2 {
      let a = *r.pick(&m.edges);
      let b = *r.pick(&m.edges);
      if a == b { continue }
      let i = IndexIntersection::new(a, b);
      if !m.set.insert(i) { continue }
      log.push(format!("push {:?}", i));
      s.push(i);
      ctx.count("push");
      if removed_then_pushed { ctx.count("push_after_remove") }
    } else if act == 9 {
      // random picks, judged against the model
      let mut h = Hostile::pick(r);
      let got = s.random(&mut h);
      ctx.eval();
      match got {
        None => { ck!(m.set.is_empty(), "after {:?}: random is None but {:?} remain", log, m.set); ctx.count("random_none") }
        Some(i) => { ck!(m.set.contains(&i), "after {:?}: random returned {:?}, not in {:?}", log, i, m.set); ctx.count("random_some") }
      }
    } else if !m.edges.is_empty() {
      let e = if r.chance(3, 4) && !m.set.is_empty() {
        let k = r.below(m.set.len());
        let i = *m.set.iter().nth(k).unwrap();
        if r.chance(1, 2) { i.min } else { i.max }
      } else {
        *r.pick(&m.edges)
      };
      let k = m.set.iter().filter(|i| i.min == e || i.max == e).count();
      ctx.countn("removed", k as u64);
      if k > 2 { ctx.count("removed_many") }
      if k > 0 { removed_then_pushed = true }
      m.set.retain(|i| i.min != e && i.max != e);
      log.push(format!("remove_all {:?}", e));
      s.remove_all(e);
      ctx.count("remove_all");
    }
    m.check(ctx, &s, &log)?;
  }
  ctx.sample(|| format!("{} vertices: {}", m.ids.len(), log.join("; ")));
  ctx.nontrivial(log.clone());
  // every member can be picked: with a fair stream each of k members is missed
  // in 60k draws with probability below e^-60
  let k = m.set.len();
  if k > 0 && k <= 12 {
    let mut seen = BTreeSet::new();
    for _ in 0..60 * k + 60 {
      match s.random(r) {
        Some(i) => { seen.insert(i); }
        None => return Err(format!("after {:?}: random is None but {:?} remain", log, m.set)),
      }
    }
    ck!(seen == m.set, "after {:?}: random picks only {:?} of {:?}", log, seen, m.set);
    ctx.count("coverage_tests");
  }
  // drain by random picks
  if r.chance(1, 2) {
    let mut rounds = 0;
    while let Some(i) = s.random(r) {
      ck!(m.set.contains(&i), "after {:?}, draining: random returned {:?}, not in {:?}", log, i, m.set);
      let e = if r.chance(1, 2) { i.min } else { i.max };
      m.set.retain(|i| i.min != e && i.max != e);
      log.push(format!("remove_all {:?}", e));
      s.remove_all(e);
      m.check(ctx, &s, &log)?;
      rounds += 1;
      ck!(rounds <= 1000, "draining does not end");
    }
    ck!(m.set.is_empty(), "after {:?}: drained but {:?} remain", log, m.set);
    ctx.count("drained");
    // and reuse
    for _ in 0..6 {
      if m.edges.len() < 2 { break }
      let (a, b) = (*r.pick(&m.edges), *r.pick(&m.edges));
      if a != b && m.set.insert(IndexIntersection::new(a, b)) {
        s.push(IndexIntersection::new(a, b));
        log.push(format!("push {:?}", IndexIntersection::new(a, b)));
      }
      m.check(ctx, &s, &log)?;
    }
  }
  Ok(())
}
/// All intersections of many edges, then removal edge by edge.
fn dense(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 4 + r.below(8);
  let v = ids(n);
  let mut edges = vec![];
  for i in 0..n { for j in i + 1..n { edges.push(IndexEdge::new(v[i], v[j])) } }
  let mut m = Model { ids: v, edges: edges.clone(), set: BTreeSet::new() };
  let mut s = IndexIntersectionSet::new(n);
  let mut all = vec![];
  for i in 0..edges.len() { for j in i + 1..edges.len() { all.push(IndexIntersection::new(edges[i], edges[j])) } }
  r.shuffle(&mut all);
  let keep = 1 + r.below(all.len().min(300));
  all.truncate(keep);
  for i in &all { s.push(*i); m.set.insert(*i); }
  let mut log = vec![format!("push {:?}", all)];
  m.check(ctx, &s, &log)?;
  r.shuffle(&mut edges);
  for e in edges {
    s.remove_all(e);
    m.set.retain(|i| i.min != e && i.max != e);
    log.push(format!("remove_all {:?}", e));
    m.check(ctx, &s, &log)?;
    if r.chance(1, 4) { m.ids.len(); ck!(s.random(r).is_some() != m.set.is_empty(), "random and emptiness disagree after {:?}", log) }
  }
  ck!(m.set.is_empty(), "harness");
  ctx.count("dense");
  ctx.nontrivial(log);
  Ok(())
}
/// Identifiers in the hundreds, and hundreds of intersections at once.
fn wide(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = big_n(r, 60, if ctx.tier == Tier::Quick { 700 } else { 1500 });
  let v = ids(n);
  let k = 4 + r.below(60);
  let mut edges = BTreeSet::new();
  let base = r.below(n);
  while edges.len() < k {
    let mut c = || match r.below(4) {
      0 => (base + r.below(4)) % n,
      1 => n - 1 - r.below(3),
      2 => (base + (1 << r.below(10))) % n,
      _ => r.below(n),
    };
    let (a, b) = (c(), c());
    if a != b { edges.insert(IndexEdge::new(v[a], v[b])); }
  }
  let mut edges: Vec<IndexEdge> = edges.into_iter().collect();
  let mut m = Model { ids: v, edges: edges.clone(), set: BTreeSet::new() };
  let mut s = IndexIntersectionSet::new(n);
  let mut all = vec![];
  for i in 0..edges.len() { for j in i + 1..edges.len() { all.push(IndexIntersection::new(edges[i], edges[j])) } }
  r.shuffle(&mut all);
  let keep = 1 + r.below(all.len());
  all.truncate(keep);
  for i in &all { s.push(*i); m.set.insert(*i); }
  let mut log = vec![format!("{} vertices; push {:?}", n, all)];
  m.check(ctx, &s, &log)?;
  ctx.max("members", all.len() as f64);
  let big = all.len();
  // Each member is missed by 40k + 40 fair draws with probability below e^-40.
  if big <= 800 {
    let mut seen = BTreeSet::new();
    for _ in 0..40 * big + 40 { seen.insert(s.random(r).ok_or("random is None on a non-empty set")?); }
    ck!(seen == m.set, "after {:?}: random picks only {} of {} members", log, seen.len(), m.set.len());
    ctx.count("wide_coverage");
  }
  r.shuffle(&mut edges);
  for e in edges {
    s.remove_all(e);
    m.set.retain(|i| i.min != e && i.max != e);
    log.push(format!("remove_all {:?}", e));
    m.check(ctx, &s, &log)?;
    for _ in 0..3 {
      match s.random(r) {
        Some(i) => ck!(m.set.contains(&i), "after {:?}: random returned {:?}, which is gone", log, i),
        None => ck!(m.set.is_empty(), "after {:?}: random is None", log),
      }
    }
  }
  ctx.count("wide");
  ctx.nontrivial(log);
  Ok(())
}
/// More intersections at once than sixteen bits count.
fn crowded(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let n = 28 + r.below(10);
  let v = ids(n);
  let mut edges = vec![];
  for i in 0..n { for j in i + 1..n { edges.push(IndexEdge::new(v[i], v[j])) } }
  r.shuffle(&mut edges);
  edges.truncate(364 + r.below(15));
  let mut m = Model { ids: v, edges: edges.clone(), set: BTreeSet::new() };
  let mut s = IndexIntersectionSet::new(n);
  let mut all = vec![];
  for i in 0..edges.len() { for j in i + 1..edges.len() { all.push(IndexIntersection::new(edges[i], edges[j])) } }
  if r.chance(1, 2) { r.shuffle(&mut all) }
  for i in &all { s.push(*i); m.set.insert(*i); }
  let mut log = vec![format!("push all {} pairs of {:?}", all.len(), edges)];
  ctx.max("members", all.len() as f64);
  m.check(ctx, &s, &log)?;
  // some go, some come back, then all go
  for round in 0..3 {
    r.shuffle(&mut edges);
    let k = if round == 2 { edges.len() } else { 1 + r.below(30) };
    for (j, e) in edges[..k].iter().enumerate() {
      s.remove_all(*e);
      m.set.retain(|i| i.min != *e && i.max != *e);
      log.push(format!("remove_all {:?}", e));
      ck!(s[*e].is_none(), "after {:?}: {:?} is still there", log, e);
      let left = s.iter().count();
      ck!(left == m.set.len(), "after {:?}: {} remain instead of {}", log, left, m.set.len());
      if j % 64 == 63 { m.check(ctx, &s, &log)? }
      if let Some(i) = s.random(r) { ck!(m.set.contains(&i), "after {:?}: random returned {:?}", log, i) }
      if m.set.is_empty() { break }
    }
    m.check(ctx, &s, &log)?;
    if round < 2 {
      let back: Vec<IndexIntersection> = all.iter().filter(|i| !m.set.contains(i)).copied().collect();
      for i in &back { s.push(*i); m.set.insert(*i); }
      log.push("push all that are missing".to_string());
      m.check(ctx, &s, &log)?;
    }
  }
  ck!(s.random(r).is_none(), "random finds something in an emptied set");
  ctx.count("crowded");
  ctx.nontrivial(log);
  Ok(())
}
fn main() {
  engine::run_main(Property {
    id: "C21",
    rule: "a case is non-trivial and distinct by its operation history",
    assumptions: &["operations are generated within the documented use: an intersection is pushed only while absent, and joins two different edges"],
    families: vec![
      Family { name: "history", quick: 60000, thorough: 1500000, f: history },
      Family { name: "dense", quick: 4500, thorough: 80000, f: dense },
      Family { name: "wide", quick: 450, thorough: 6000, f: wide },
      Family { name: "crowded", quick: 4, thorough: 100, f: crowded },
    ],
    require: &["push", "push_after_remove", "remove_all", "removed_many", "random_some", "random_none", "edge_present", "edge_absent", "coverage_tests", "drained", "dense", "wide", "wide_coverage", "crowded"],
  })
}
