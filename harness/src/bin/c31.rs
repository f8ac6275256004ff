use rgmon::gen::*;
use rgmon::ops::*;
use rgmon::rng::Rg;
use rgmon::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex, RwLock};

/// Cases that need the process to themselves take it for writing.
static GATE: RwLock<()> = RwLock::new(());
macro_rules! shared {
  () => {
    let _gate = GATE.read().unwrap_or_else(|e| e.into_inner());
  };
}

fn ops_for(r: &mut Rg, n: usize) -> Vec<&'static str> {
  (0..n).map(|_| if r.chance(1, 5) { *r.pick(EXTRA) } else { *r.pick(OPS) }).collect()
}
/// The same input once more, at other addresses.
fn copy<S: Opx>(p: &Plan, e: &Emb) -> Input<S> {
  p.put::<S>(e).expect("was placed before")
}
fn setup<S: Opx>(r: &mut Rg, nmax: usize) -> Option<(Plan, Emb, Input<S>)> {
  for _ in 0..6 {
    let lim = lim_for::<S>(r);
    let pl = plan(r, lim, nmax);
    let e = emb::<S>(r, lim);
    if let Some(i) = pl.put::<S>(&e) {
      return Some((pl, e, i));
    }
  }
  None
}
fn size(r: &mut Rg) -> usize {
  match r.below(20) {
    0 => 80,
    1..=5 => 25,
    _ => 10,
  }
}
/// A call may reject an input by panicking (a point on no polygon, say); then it
/// must do so every time.
fn call<S: Opx>(op: &str, i: &Input<S>, seed: u64) -> Result<Out, String> {
  no_panic(|| run(op, i, seed))
}
fn tell(r: &Result<Out, String>) -> String {
  let mut s = match r {
    Ok(o) => say(o),
    Err(e) => e.clone(),
  };
  s.truncate(600);
  s
}

// --- one thread: repetition after other calls ---------------------------------------
fn history<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let nmax = size(r);
  let Some((pl, e, i)) = setup::<S>(r, nmax) else { return Ok(()) };
  // a second input of the same sizes with other coordinates, for stale state
  let mut pl2 = pl.clone();
  let mut other = None;
  for _ in 0..4 {
    let lim = pl.pts.iter().chain(&pl.poly).chain(&pl.convex).flatten().map(|v| v.abs()).max().unwrap_or(1);
    pl2.pts = point_set(r, pl.pts.len(), lim.max(1));
    pl2.q = pl.poly.iter().take(3).copied().chain(pl.q.iter().rev().copied()).collect();
    pl2.poly = symmetric(&pl.poly);
    pl2.convex = symmetric(&pl.convex);
    let e2 = if r.chance(1, 2) { e.clone() } else { Emb::id() };
    if let Some(i2) = pl2.put::<S>(&e2) {
      other = Some((i2, e2));
      break;
    }
  }
  let before = i.print();
  let ops = ops_for(r, 6);
  let seed = r.u64();
  let want: Vec<Result<Out, String>> = ops.iter().map(|op| call(op, &i, seed)).collect();
  if let Some((i2, e2)) = &other {
    let w2: Vec<Result<Out, String>> = ops.iter().map(|op| call(op, i2, seed)).collect();
    let again = copy::<S>(&pl2, e2);
    for (k, op) in ops.iter().enumerate() {
      let g = call(op, &again, seed);
      ctx.eval();
      ctx.count("stale-state probes");
      ck!(g == w2[k], "{} on {} gives\n {}\nright after another input of the same size, but\n {}\non a copy; {}", op, S::NAME, tell(&w2[k]), tell(&g), pl2.show());
    }
  }
  ck!(i.print() == before, "input changed by one of {:?}: {}", ops, pl.show());
  let fresh = copy::<S>(&pl, &e);
  let mut order: Vec<usize> = (0..ops.len()).collect();
  for round in 0..3 {
    r.shuffle(&mut order);
    for &k in &order {
      // unrelated calls in between
      if r.chance(1, 2) {
        let o = ops_for(r, 1)[0];
        let s = r.u64();
        let _ = call(o, if r.chance(1, 2) { &fresh } else { &i }, s);
        ctx.count("calls in between");
      }
      let j = if round == 1 { &fresh } else { &i };
      let g = call(ops[k], j, seed);
      ctx.eval();
      ctx.count(&format!("op:{}", ops[k]));
      ck!(g == want[k], "{} on {} first gives\n {}\nand later, after other calls,\n {}\nfor {}", ops[k], S::NAME, tell(&want[k]), tell(&g), pl.show());
      ctx.nontrivial((S::NAME, ops[k], before.len(), seed));
    }
  }
  ck!(i.print() == before, "input changed by one of {:?}: {}", ops, pl.show());
  ck!(fresh.print() == before, "copied input changed by one of {:?}: {}", ops, pl.show());
  ctx.sample(|| format!("{} {:?} -> {}", S::NAME, ops, want.iter().map(tell).collect::<Vec<_>>().join(" | ")));
  Ok(())
}
fn symmetric(p: &[V]) -> Vec<V> {
  // a half turn keeps the orientation
  p.iter().map(|v| [-v[0], -v[1]]).collect()
}
fn repeat(ctx: &mut Ctx) -> Res {
  shared!();
  all_types!(ctx, history)
}

// --- a failed call leaves nothing behind ---------------------------------------------
fn after_panic<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let Some((pl, e, i)) = setup::<S>(r, 10) else { return Ok(()) };
  let ops = ops_for(r, 3);
  let seed = r.u64();
  let want: Vec<_> = ops.iter().map(|op| call(op, &i, seed)).collect();
  // calls outside their domain, interrupted by a panic of the library or of the
  // random source
  struct Bomb(u32, Rg);
  impl rand::RngCore for Bomb {
    fn next_u32(&mut self) -> u32 {
      (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
      if self.0 == 0 {
        panic!("random source gives out")
      }
      self.0 -= 1;
      self.1.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
      for b in d {
        *b = self.next_u64() as u8
      }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
      self.fill_bytes(d);
      Ok(())
    }
  }
  let mut v = i.pts.clone();
  v.truncate(12);
  let k = r.below(4) as u32;
  let g = r.fork();
  let _ = no_panic(|| rgeometry::algorithms::polygonization::two_opt_moves(v, &mut Bomb(k, g))).map_err(|_| ctx.count("interrupted calls"));
  let _ = no_panic(|| rgeometry::data::Polygon::<S>::new_unchecked(vec![]).bounding_box()).map_err(|_| ctx.count("interrupted calls"));
  let _ = no_panic(|| i.poly.direct(rgeometry::data::IndexEdge::new(i.poly.boundary_slice()[0], i.poly.boundary_slice()[0]))).map_err(|_| ctx.count("interrupted calls"));
  let fresh = copy::<S>(&pl, &e);
  for (k, op) in ops.iter().enumerate() {
    let g = call(op, &fresh, seed);
    ctx.eval();
    ck!(g == want[k], "{} on {} gives\n {}\nand after an interrupted call\n {}\nfor {}", op, S::NAME, tell(&want[k]), tell(&g), pl.show());
    ctx.nontrivial((S::NAME, *op, seed));
  }
  Ok(())
}
fn interrupted(ctx: &mut Ctx) -> Res {
  shared!();
  all_types!(ctx, after_panic)
}

// --- several threads at once -----------------------------------------------------------
static PAIRS: Mutex<Option<HashSet<(&'static str, &'static str)>>> = Mutex::new(None);
static CLOCK: AtomicU64 = AtomicU64::new(0);
#[derive(Clone)]
struct Event {
  thread: usize,
  op: usize,
  start: u64,
  stop: u64,
}
fn at_once<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let nmax = size(r);
  let Some((pl, e, i)) = setup::<S>(r, nmax) else { return Ok(()) };
  let ops = ops_for(r, 5);
  let seed = r.u64();
  let before = i.print();
  let want: Vec<_> = ops.iter().map(|op| call(op, &i, seed)).collect();
  let threads = 2 + r.below(3);
  let same_op = r.chance(1, 3);
  let bar = Barrier::new(threads);
  let log = Mutex::new(vec![]);
  let bad = Mutex::new(None);
  let forks: Vec<Rg> = (0..threads).map(|_| r.fork()).collect();
  let fresh = copy::<S>(&pl, &e);
  std::thread::scope(|sc| {
    for (t, mut g) in forks.into_iter().enumerate() {
      let (bar, log, bad, ops, want, i, fresh) = (&bar, &log, &bad, &ops, &want, &i, &fresh);
      sc.spawn(move || {
        let mut order: Vec<usize> = (0..ops.len()).collect();
        if !same_op {
          g.shuffle(&mut order);
        }
        bar.wait();
        for &k in order.iter().cycle().take(2 * ops.len()) {
          // injected delays
          match g.below(4) {
            0 => std::thread::yield_now(),
            1 => (0..g.below(2000)).for_each(|_| std::hint::spin_loop()),
            _ => {}
          }
          let start = CLOCK.fetch_add(1, Ordering::SeqCst);
          let out = call(ops[k], if g.chance(3, 4) { i } else { fresh }, seed);
          let stop = CLOCK.fetch_add(1, Ordering::SeqCst);
          log.lock().unwrap().push(Event { thread: t, op: k, start, stop });
          if out != want[k] {
            *bad.lock().unwrap() = Some((k, out));
          }
        }
      });
    }
  });
  let log = log.into_inner().unwrap();
  let mut pairs = HashSet::new();
  for a in &log {
    for b in &log {
      if a.thread < b.thread && a.start < b.stop && b.start < a.stop {
        pairs.insert((ops[a.op].min(ops[b.op]), ops[a.op].max(ops[b.op])));
        ctx.count("overlapping calls");
      }
    }
  }
  ctx.evals(log.len() as u64);
  // the order of starts and stops is the schedule that was seen
  let mut ev: Vec<(u64, usize, usize, bool)> = log.iter().flat_map(|x| [(x.start, x.thread, x.op, true), (x.stop, x.thread, x.op, false)]).collect();
  ev.sort();
  ctx.nontrivial((S::NAME, ops.clone(), ev.iter().map(|x| (x.1, x.2, x.3)).collect::<Vec<_>>()));
  ctx.max("most distinct overlapping pairs of calls in one case", pairs.len() as f64);
  let mut all = PAIRS.lock().unwrap();
  all.get_or_insert_with(HashSet::new).extend(pairs);
  ctx.max("distinct overlapping pairs of operations so far", all.as_ref().unwrap().len() as f64);
  drop(all);
  if let Some((k, o)) = bad.into_inner().unwrap() {
    return Err(format!("{} on {} gives\n {}\nalone and, in one of {} threads running {:?},\n {}\nfor {}", ops[k], S::NAME, tell(&want[k]), threads, ops, tell(&o), pl.show()));
  }
  ck!(i.print() == before && fresh.print() == before, "input changed while shared by {} threads running {:?}: {}", threads, ops, pl.show());
  ctx.count("concurrent cases");
  Ok(())
}
fn concurrent(ctx: &mut Ctx) -> Res {
  shared!();
  all_types!(ctx, at_once)
}

// --- all of the catalogue, first call in a thread against a later one -------------------
fn cold<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let Some((pl, _, i)) = setup::<S>(r, 16) else { return Ok(()) };
  let seed = r.u64();
  let ops = ops_for(r, 4);
  let warm: Vec<_> = ops.iter().map(|op| call(op, &i, seed)).collect();
  for (k, op) in ops.iter().enumerate() {
    let o = std::thread::scope(|s| s.spawn(|| call(op, &i, seed)).join()).map_err(|_| "thread died".to_string())?;
    ctx.eval();
    ctx.count("fresh threads");
    ctx.nontrivial((S::NAME, *op, seed));
    ck!(o == warm[k], "{} on {} gives\n {}\nin a used thread and\n {}\nin a new one for {}", op, S::NAME, tell(&warm[k]), tell(&o), pl.show());
  }
  Ok(())
}
fn fresh_thread(ctx: &mut Ctx) -> Res {
  shared!();
  all_types!(ctx, cold)
}

// --- the same call from several threads at the same moment, against a quiet process -----
fn at_same_time<S: Opx>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let cheap = S::NAME.starts_with('i') || S::NAME.starts_with('f');
  let nmax = if cheap { *r.pick(&[12, 40, 100]) } else { *r.pick(&[8, 20]) };
  let (Some(a), Some(b)) = (setup::<S>(r, nmax), setup::<S>(r, nmax)) else { return Ok(()) };
  let mut ops = ops_for(r, 3);
  // the long-running ones are most likely to overlap
  ops.push(*r.pick(&["two_opt", "resolve", "earclip", "earclip_hashed", "triangulate", "visibility", "gift", "random_convex"]));
  ops.push(*r.pick(&["two_opt", "resolve", "earclip", "earclip_hashed", "new", "isect_set", "intersections", "validate"]));
  let seed = r.u64();
  for op in ops {
    let alone = [call(op, &a.2, seed), call(op, &b.2, seed ^ 1)];
    let threads = 6;
    let bar = Barrier::new(threads);
    let bad = Mutex::new(None);
    std::thread::scope(|sc| {
      for t in 0..threads {
        let (bar, bad, a, b, alone) = (&bar, &bad, &a.2, &b.2, &alone);
        sc.spawn(move || {
          for _ in 0..3 {
            bar.wait();
            let out = if t % 2 == 0 { call(op, a, seed) } else { call(op, b, seed ^ 1) };
            if out != alone[t % 2] {
              *bad.lock().unwrap() = Some((t % 2, out));
            }
          }
        });
      }
    });
    ctx.evals(3 * threads as u64);
    ctx.count("simultaneous rounds");
    ctx.nontrivial((S::NAME, op, nmax, seed));
    if let Some((k, o)) = bad.into_inner().unwrap() {
      return Err(format!("{} on {} gives\n {}\nin a quiet process and, with {} simultaneous calls,\n {}\nfor {}", op, S::NAME, tell(&alone[k]), threads, tell(&o), if k == 0 { a.0.show() } else { b.0.show() }));
    }
    let later = call(op, &a.2, seed);
    ck!(later == alone[0], "{} on {} gives\n {}\nand, after simultaneous calls,\n {}\nfor {}", op, S::NAME, tell(&alone[0]), tell(&later), a.0.show());
  }
  Ok(())
}
fn twins(ctx: &mut Ctx) -> Res {
  let _gate = GATE.write().unwrap_or_else(|e| e.into_inner());
  all_types!(ctx, at_same_time)
}

/// A polygon that is asked questions and changed in place, in turn, answers as a
/// new polygon with the same vertices does.
fn with_past<S: sc::Sc>(ctx: &mut Ctx) -> Res {
  shared!();
  let r = &mut ctx.rng.fork();
  let n = if r.chance(1, 20) { 60 + r.below(200) } else { 14 };
  let mut p: rgeometry::data::Polygon<S> = any_poly(r, n);
  let mut trace = vec![];
  let first = show(&boundary(&p));
  for _ in 0..1 + r.below(6) {
    rgmon::past::warm(r, &p);
    let k = r.below(8);
    let what = match k {
      0 => { p = p.map_points(|q| rgeometry::data::Point::new([q.array[1].clone(), q.array[0].clone()])); "map_points" }
      1 => { p.iter_mut().for_each(|q| q.array.swap(0, 1)); "iter_mut" }
      2 => {
        let mut v: Vec<rgeometry::data::Point<S>> = p.iter().cloned().collect();
        r.shuffle(&mut v);
        for (a, b) in p.iter_mut().zip(v) { *a = b }
        "iter_mut, shuffled"
      }
      3 => { p = p.map(|c| c); "map" }
      4 => { p = p.cast::<S>(); "cast" }
      5 => { let _ = p.ensure_ccw(); "ensure_ccw" }
      // points in the same place have no simple polygon
      6 if n <= 20 && p.iter().collect::<std::collections::BTreeSet<_>>().len() == p.iter().count() => {
        let mut g = r.fork();
        let _ = rgeometry::algorithms::polygonization::resolve_self_intersections(&mut p, &mut g);
        "resolve_self_intersections"
      }
      _ => {
        // one vertex goes to the place of another
        let m = p.iter().count();
        let q = p.iter().nth(r.below(m)).unwrap().clone();
        let at = r.below(m);
        *p.iter_mut().nth(at).unwrap() = q;
        "one vertex changed"
      }
    };
    trace.push(what);
    rgmon::past::fresh_agrees(ctx, r, &p, &format!("{} and then {:?}", first, trace))?;
  }
  ctx.count("polygons with a past");
  ctx.nontrivial((first, trace));
  Ok(())
}
fn past(ctx: &mut Ctx) -> Res {
  all_types!(ctx, with_past)
}

// --- calls that are under way at the same time in one thread ---------------------------
type Lazy<'a> = Box<dyn Iterator<Item = String> + 'a>;
const LAZY: usize = 8;
fn lazy<'a, S: Opx + rgeometry::algorithms::zhash::ZHashable>(k: usize, i: &'a Input<S>, segs: &'a [rgeometry::data::LineSegment<S>], stored: &'a [rgeometry::data::Point<S>], seed: u64) -> Lazy<'a> {
  use rgeometry::algorithms::triangulation::earclip::*;
  let p = &i.poly;
  match k {
    0 => Box::new(earclip(p).map(|t| format!("{:?}", t))),
    1 => Box::new(p.triangulate().map(|t| format!("{:?}", (t.0.point_id(), t.1.point_id(), t.2.point_id())))),
    2 => Box::new(earclip_hashed(p).map(|t| format!("{:?}", t))),
    3 => Box::new(triangulate_list(stored, p.boundary_slice(), Rg::new(seed)).map(|t| format!("{:?}", t))),
    4 => Box::new(triangulate_list_hashed(stored, p.boundary_slice(), Rg::new(seed)).map(|t| format!("{:?}", t))),
    5 => Box::new(rgeometry::algorithms::segment_intersections(segs).map(move |(a, b)| format!("{:?}", [a, b].map(|s| segs.iter().position(|t| std::ptr::eq(s, t)))))),
    6 => Box::new(p.iter_boundary().map(|c| format!("{:?}", c.point_id()))),
    _ => Box::new(p.iter_boundary_edges().map(|e| format!("{:?}", (e.src, e.dst)))),
  }
}
/// The same words as `rg`, but whoever asks for one waits for another call.
struct Nosy<'a>(Rg, Rg, &'a dyn Fn(&mut Rg));
impl rand::RngCore for Nosy<'_> {
  fn next_u32(&mut self) -> u32 {
    (self.next_u64() >> 32) as u32
  }
  fn next_u64(&mut self) -> u64 {
    if self.1.chance(1, 3) {
      (self.2)(&mut self.1)
    }
    self.0.u64()
  }
  fn fill_bytes(&mut self, d: &mut [u8]) {
    self.0.fill_bytes(d)
  }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
    self.fill_bytes(d);
    Ok(())
  }
}
fn under_way<S: Opx + rgeometry::algorithms::zhash::ZHashable>(ctx: &mut Ctx) -> Res {
  shared!();
  let r = &mut ctx.rng.fork();
  let (na, nb) = (3 + r.below(16), 3 + r.below(16));
  let Some((pa, _, a)) = setup::<S>(r, na) else { return Ok(()) };
  let Some((pb, _, b)) = setup::<S>(r, nb) else { return Ok(()) };
  let mk = |i: &Input<S>| {
    let b = i.pts.iter().chain(i.poly.iter()).take(40).cloned().collect::<Vec<_>>();
    b.windows(2).map(|w| rgeometry::data::LineSegment::from(w[0].clone()..w[1].clone())).collect::<Vec<_>>()
  };
  let (sa, sb) = (mk(&a), mk(&b));
  let (ta, tb): (Vec<_>, Vec<_>) = (a.poly.iter().cloned().collect(), b.poly.iter().cloned().collect());
  let seed = r.u64();
  let start = |k: usize| {
    let (i, s, t) = if k % 2 == 0 { (&a, &sa, &ta) } else { (&b, &sb, &tb) };
    lazy(k / 2, i, s, t, seed ^ k as u64)
  };
  // alone
  let want: Vec<Vec<String>> = (0..2 * LAZY).map(|k| start(k).collect()).collect();
  // several at once, step by step
  let mut live: Vec<(usize, usize, Lazy)> = vec![];
  let mut trace = vec![];
  for _ in 0..60 + r.below(100) {
    if live.len() < 2 || r.chance(1, 12) {
      let k = r.below(2 * LAZY);
      live.push((k, 0, start(k)));
      trace.push((k, 's'));
      continue;
    }
    let at = r.below(live.len());
    if live.len() > 5 || r.chance(1, 40) {
      let k = live.swap_remove(at).0;
      trace.push((k, 'd'));
      continue;
    }
    if r.chance(1, 20) {
      let o = ops_for(r, 1)[0];
      let s = r.u64();
      let _ = call(o, if r.chance(1, 2) { &a } else { &b }, s);
      trace.push((99, 'c'));
    }
    let (k, n, it) = &mut live[at];
    let g = it.next();
    trace.push((*k, 'n'));
    ctx.eval();
    ck!(g.as_ref() == want[*k].get(*n), "element {} of iterator {} is {:?} when interleaved and {:?} alone; steps {:?} on {} {} and {}", n, k, g, want[*k].get(*n), trace, S::NAME, pa.show(), pb.show());
    *n += 1;
    if g.is_none() {
      drop(live.swap_remove(at));
      ctx.count("interleaved to the end");
    }
  }
  drop(live);
  ctx.count("interleaved");
  // calls from within the random stream or the function given to a call
  let mut ops = ops_for(r, 5);
  ops.extend(["two_opt", "resolve", "earclip", "random_convex", "triangulate"]);
  let known: Vec<(&'static str, bool, u64, String)> = ops
    .into_iter()
    .map(|o| {
      let (w, s) = (r.chance(1, 2), r.u64());
      (o, w, s, tell(&call(o, if w { &a } else { &b }, s)))
    })
    .collect();
  let wrong = std::cell::RefCell::new(vec![]);
  let made = std::cell::Cell::new(0usize);
  let nosy = |g: &mut Rg| {
    let (o, w, s, want) = g.pick(&known);
    let got = tell(&call(o, if *w { &a } else { &b }, *s));
    made.set(made.get() + 1);
    if got != *want {
      wrong.borrow_mut().push(format!("{} gives {} from within another call and {} alone", o, got, want))
    }
  };
  let mut pts = a.pts.clone();
  pts.truncate(10);
  let show_p = |p: Result<rgeometry::data::Polygon<S>, rgeometry::Error>| p.map(|p| format!("{:?} {:?}", p.boundary_slice(), boundary(&p))).map_err(|e| format!("{:?}", e));
  let quiet = |f: &mut dyn FnMut() -> String| no_panic(|| f()).unwrap_or_else(|e| format!("panic {}", e));
  let two = |g: &mut dyn rand::RngCore| quiet(&mut || format!("{:?}", show_p(rgeometry::algorithms::polygonization::two_opt_moves(pts.clone(), &mut *g))));
  let tangle = |g: &mut dyn rand::RngCore| {
    quiet(&mut || {
      let mut p = a.poly.clone();
      let e = rgeometry::algorithms::polygonization::resolve_self_intersections(&mut p, &mut *g);
      format!("{:?} {:?}", e, boundary(&p))
    })
  };
  let convex = |g: &mut dyn rand::RngCore| quiet(&mut || format!("{:?}", boundary(rgeometry::data::PolygonConvex::<i64>::random(7, &mut *g).polygon())));
  let corner = [[0i64, 0], [seed as u16 as i64 + 3, 5], [2, 4 + (seed >> 50) as i64]].map(rgeometry::data::Point::new);
  let inner = |g: &mut dyn rand::RngCore| quiet(&mut || format!("{:?}", rgeometry::data::TriangleView::new_unchecked([&corner[0], &corner[1], &corner[2]]).rejection_sampling(&mut *g)));
  let all: [(&str, &dyn Fn(&mut dyn rand::RngCore) -> String); 4] = [("two_opt_moves", &two), ("resolve_self_intersections", &tangle), ("PolygonConvex::random", &convex), ("rejection_sampling", &inner)];
  for (name, f) in all {
    let w = f(&mut Rg::new(seed));
    let g = f(&mut Nosy(Rg::new(seed), r.fork(), &nosy));
    ctx.eval();
    ck!(g == w, "{} of {:?} gives {}, and {} if the random stream makes calls of its own", name, pts, w, g);
  }
  let calls = std::cell::RefCell::new(r.fork());
  let t = || {
    let mut g = calls.borrow_mut().fork();
    if g.chance(1, 5) {
      nosy(&mut g)
    }
  };
  let m = a.poly.clone().map(|c| { t(); c });
  ck!(boundary(&m) == boundary(&a.poly), "map with calls in its function changes {}", pa.show());
  let m = a.poly.clone().map_points(|c| { t(); c });
  ck!(boundary(&m) == boundary(&a.poly), "map_points with calls in its function changes {}", pa.show());
  if let Some(w) = wrong.borrow().first() {
    return Err(w.clone());
  }
  ctx.countn("calls from within a call", made.get() as u64);
  ctx.count("calls within calls");
  ctx.nontrivial((S::NAME, trace));
  Ok(())
}
fn interleaved(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, under_way, [i8, i64, f64])
}

fn main() {
  engine::run_main(Property {
    id: "C31",
    rule: "one (type, operation, input, position in the history) or one observed order of call starts and ends over several threads",
    assumptions: &["calls that reject their arguments by panicking must do so every time", "random streams handed in are equal by construction"],
    families: vec![
      Family { name: "past", quick: 8000, thorough: 400_000, f: past },
      Family { name: "interleaved", quick: 3000, thorough: 120_000, f: interleaved },
      Family { name: "repeat", quick: 4000, thorough: 150_000, f: repeat },
      Family { name: "late_interrupted", quick: 1500, thorough: 40_000, f: interrupted },
      Family { name: "concurrent", quick: 3000, thorough: 100_000, f: concurrent },
      Family { name: "twins", quick: 300, thorough: 12_000, f: twins },
      Family { name: "fresh_thread", quick: 1500, thorough: 50_000, f: fresh_thread },
    ],
    require: &["overlapping calls", "stale-state probes", "interrupted calls", "fresh threads", "concurrent cases", "simultaneous rounds", "polygons with a past", "interleaved to the end", "calls within calls", "calls from within a call", "compared with a new polygon"],
  })
}
