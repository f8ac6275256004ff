use rgeometry::data::*;
use rgeometry::Intersects;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::Sc;
use rgmon::segs::*;
use rgmon::*;

fn exact_overlap<S: Sc, N: Nm>(v: &LineSegmentView<S>, all: &[Point<S>], e: &[P<N>]) -> (P<N>, bool, P<N>, bool) {
  let f = |p: &Point<S>| e[all.iter().position(|q| q.array.iter().zip(&p.array).all(|(a, b)| a == b)).unwrap()].clone();
  (f(v.min.inner()), v.min.is_inclusive(), f(v.max.inner()), v.max.is_inclusive())
}
fn judge<S: Sc, N: Nm>(got: &Option<ILineSegment<S>>, want: &Meet<N>, all: &[Point<S>], e: &[P<N>]) -> Res {
  match (want, got) {
    (Meet::No, None) => Ok(()),
    (Meet::Cross, Some(ILineSegment::Crossing)) => Ok(()),
    (Meet::Point, Some(_)) => Ok(()),
    (Meet::Over(a, ai, b, bi), Some(ILineSegment::Overlap(v))) => {
      let g = exact_overlap(v, all, e);
      if g == (a.clone(), *ai, b.clone(), *bi) { Ok(()) } else { Err(format!("overlap reported as {:?}, exactly {:?}", g, (a, ai, b, bi))) }
    }
    (w, g) => Err(format!("reported {:?}, exactly {:?}", g, w)),
  }
}
fn check<S: Sc>(ctx: &mut Ctx, s: &Made<S>, t: &Made<S>, pts: &[Point<S>]) -> Res {
  let mut all = vec![s.a.clone(), s.b.clone(), t.a.clone(), t.b.clone()];
  all.extend(pts.iter().cloned());
  with_ex!(exact(&all), e => {
    let x = Seg::new(&e[0], s.ai, &e[1], s.bi);
    let y = Seg::new(&e[2], t.ai, &e[3], t.bi);
    let want = meet(&x, &y);
    ctx.eval();
    ctx.count(match &want { Meet::No => "apart", Meet::Cross => "cross", Meet::Point => "single_point", Meet::Over(a, ..) => { if let Meet::Over(_, _, b, _) = &want { if a == b { "overlap_point" } else { "overlap" } } else { "" } } });
    if x.empty() || y.empty() { ctx.count("empty_segment") }
    let say = |m: String, k: &str| format!("{} and {}: {k}: {m}", s.show(), t.show());
    let (sv, tv) = (s.view(), t.view());
    judge(&sv.intersect(tv), &want, &all, e).map_err(|m| say(m, "views"))?;
    judge(&tv.intersect(sv), &want, &all, e).map_err(|m| say(m, "views, second first"))?;
    let (so, to) = (s.seg(), t.seg());
    judge(&(&so).intersect(&to), &want, &all, e).map_err(|m| say(m, "segments"))?;
    let (s2, t2) = (Made { a: s.b.clone(), ai: s.bi, b: s.a.clone(), bi: s.ai }, Made { a: t.b.clone(), ai: t.bi, b: t.a.clone(), bi: t.ai });
    if !x.degenerate() && !y.degenerate() {
      judge(&s2.view().intersect(t2.view()), &want, &all, e).map_err(|m| say(m, "ends given the other way round"))?;
    }
    // containment
    for (p, q) in all.iter().zip(e) {
      for (m, g, o) in [(s, &x, &so), (t, &y, &to)] {
        let w = g.contains(q);
        ctx.count(if w { "contained" } else { "not_contained" });
        let got = m.view().contains(p);
        ck!(got == w, "{} contains {}: {}", m.show(), show(&[p.clone()]), got);
        let got = o.contains(p);
        ck!(got == w, "{} (segment) contains {}: {}", m.show(), show(&[p.clone()]), got);
      }
    }
    ctx.evals(2 * all.len() as u64);
    // half-open forms
    let (hx, hy) = (Seg::new(&e[0], true, &e[1], false), Seg::new(&e[2], true, &e[3], false));
    let want = meet(&hx, &hy);
    let (dx, dy) = (DirectedEdge { src: &s.a, dst: &s.b }, DirectedEdge { src: &t.a, dst: &t.b });
    judge(&dx.intersect(dy), &want, &all, e).map_err(|m| say(m, "directed edges"))?;
    let (ox, oy) = (DirectedEdge_ { src: s.a.clone(), dst: s.b.clone() }, DirectedEdge_ { src: t.a.clone(), dst: t.b.clone() });
    judge(&(&ox).intersect(&oy), &want, &all, e).map_err(|m| say(m, "owned directed edges"))?;
    let (rx, ry) = (s.a.clone()..s.b.clone(), t.a.clone()..t.b.clone());
    judge(&(&rx).intersect(&ry), &want, &all, e).map_err(|m| say(m, "ranges"))?;
    for (p, q) in all.iter().zip(e) {
      ck!(dx.contains(p) == hx.contains(q), "directed edge {} contains {}", s.show(), show(&[p.clone()]));
      let tuples: std::ops::Range<(S, S)> = (s.a.array[0].clone(), s.a.array[1].clone())..(s.b.array[0].clone(), s.b.array[1].clone());
      let w = hx.contains(q);
      let forms: [(&str, LineSegment<S>); 3] = [("range", rx.clone().into()), ("range of tuples", tuples.into()), ("owned directed edge", ox.clone().into())];
      for (k, l) in &forms {
        ck!(l.contains(p) == w, "{k} {} as segment contains {}", s.show(), show(&[p.clone()]));
      }
      let views: [(&str, LineSegmentView<S>); 6] = [
        ("range", (&rx).into()),
        ("range of references", (&s.a..&s.b).into()),
        ("directed edge", dx.into()),
        ("referenced directed edge", (&dx).into()),
        ("owned directed edge", (&ox).into()),
        ("segment", (&forms[0].1).into()),
      ];
      for (k, v) in &views {
        ck!(v.contains(p) == w, "{k} {} as view contains {}", s.show(), show(&[p.clone()]));
      }
    }
    {
      let (fx, fy): (LineSegmentView<S>, LineSegmentView<S>) = ((&dx).into(), (&t.a..&t.b).into());
      judge(&fx.intersect(fy), &want, &all, e).map_err(|m| say(m, "view of a referenced edge and of a range of references"))?;
      let (fx, fy): (LineSegmentView<S>, LineSegmentView<S>) = ((&s.a..&s.b).into(), (&oy).into());
      judge(&fx.intersect(fy), &want, &all, e).map_err(|m| say(m, "view of a range of references and of an owned edge"))?;
      let (fx, fy): (LineSegment<S>, LineSegment<S>) = (ox.clone().into(), oy.clone().into());
      judge(&(&fx).intersect(&fy), &want, &all, e).map_err(|m| say(m, "segments of owned edges"))?;
    }
    let (cx, cy) = (Seg::new(&e[0], true, &e[1], true), Seg::new(&e[2], true, &e[3], true));
    let want = meet(&cx, &cy);
    let (rx, ry) = (s.a.clone()..=s.b.clone(), t.a.clone()..=t.b.clone());
    judge(&(&rx).intersect(&ry), &want, &all, e).map_err(|m| say(m, "closed ranges"))?;
    let l: LineSegment<S> = rx.clone().into();
    for (p, q) in all.iter().zip(e) {
      ck!(l.contains(p) == cx.contains(q), "closed range {} as segment contains {}", s.show(), show(&[p.clone()]));
      ck!(LineSegmentView::from(&rx).contains(p) == cx.contains(q), "closed range {} as view contains {}", s.show(), show(&[p.clone()]));
    }
    judge(&l.as_ref().intersect(LineSegmentView::from(&ry)), &want, &all, e).map_err(|m| say(m, "closed range segment"))?;
    Ok(())
  })
}
fn random<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut p = raw_points::<S>(r, 6);
  if r.chance(1, 3) {
    // second segment on the line of the first
    let (o, t) = (rgmon::sc::rpt(&p[0]), rgmon::sc::rpt(&p[1]));
    let d = rsub(&t, &o);
    let mut done = true;
    for i in [2, 3] {
      let k = BigRational::new(BigInt::from(r.range(-3, 4)), BigInt::from(r.range(1, 2)));
      match (S::from_rat(&(&o[0] + &d[0] * &k)), S::from_rat(&(&o[1] + &d[1] * &k))) {
        (Some(x), Some(y)) => p[i] = Point::new([x, y]),
        _ => done = false,
      }
    }
    if done { ctx.count("aligned") }
  }
  match r.below(10) {
    0 => p[2] = p[0].clone(),
    1 => p[3] = p[0].clone(),
    2 => p[1] = p[0].clone(),
    3 => p[3] = p[2].clone(),
    4 => { p[2] = p[1].clone(); p[3] = p[0].clone() }
    _ => {}
  }
  ctx.sample(|| show(&p));
  ctx.nontrivial(key(&p));
  let s = made(r, p[0].clone(), p[1].clone());
  let t = made(r, p[2].clone(), p[3].clone());
  check(ctx, &s, &t, &p[4..])
}
fn fam_random(ctx: &mut Ctx) -> Res {
  all_types!(ctx, random)
}
fn lattice<S: Sc>(ctx: &mut Ctx) -> Res {
  let i = ctx.case as i64;
  let at = |k: i64| [k % 4 - 1, k / 4 % 4 - 1];
  let mk = |v: V| Point::new([S::from_i(v[0]).unwrap(), S::from_i(v[1]).unwrap()]);
  let (b1, b2) = (at(i % 16), at(i / 16 % 16));
  for k in 0..16 {
    let r = &mut ctx.rng.fork();
    let a1 = [0, 0];
    let s = made(r, mk(a1), mk(at(k)));
    let t = made(r, mk(b1), mk(b2));
    check(ctx, &s, &t, &[])?;
  }
  ctx.count("lattice");
  ctx.nontrivial((S::NAME, b1, b2));
  Ok(())
}
fn fam_lattice(ctx: &mut Ctx) -> Res {
  all_types!(ctx, lattice)
}
/// Picking the left or the right one of two ends.
fn ends<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let mut p = raw_points::<S>(r, 4);
  if r.chance(1, 2) { p[1] = p[0].clone() }
  if r.chance(1, 3) { p[2] = p[0].clone(); p[2].array[1] = p[3].array[1].clone() }
  zero_signs(r, &mut p);
  ctx.nontrivial(key(&p));
  let mk = |k: bool, p: &Point<S>| if k { EndPoint::Inclusive(p.clone()) } else { EndPoint::Exclusive(p.clone()) };
  for a in &p {
    for b in &p {
      for k in 0..4 {
        let (ka, kb) = (k & 1 == 1, k & 2 == 2);
        let (ra, rb) = (sc::rpt(a), sc::rpt(b));
        let o = ra.cmp(&rb);
        ctx.eval();
        ctx.count(if o.is_eq() { "ends_together" } else { "ends_apart" });
        for right in [false, true] {
          let (x, y) = (mk(ka, a), mk(kb, b));
          ck!(x.is_inclusive() == ka && x.is_exclusive() != ka && x.as_ref().is_inclusive() == ka && sc::rpt(x.as_ref().take()) == ra && sc::rpt(x.inner()) == ra, "end {:?} of kind {} reads {:?}", a, ka, x);
          let got = if right { x.rightmost(y) } else { x.leftmost(y) };
          let first = if right { o.is_gt() } else { o.is_lt() };
          // at one place the open end is the tighter of the two
          let want = if o.is_eq() { (ka && kb, &ra) } else if first { (ka, &ra) } else { (kb, &rb) };
          ck!((got.is_inclusive(), &sc::rpt(got.inner())) == want, "of the ends {:?} (closed: {}) and {:?} (closed: {}) the {} is {:?}", a, ka, b, kb, if right { "rightmost" } else { "leftmost" }, got);
          ck!(sc::rpt(&got.clone().take()) == *want.1, "the end {:?} holds {:?}", got, got.clone().take());
        }
      }
    }
  }
  Ok(())
}
fn fam_ends(ctx: &mut Ctx) -> Res {
  all_types!(ctx, ends)
}
fn main() {
  engine::run_main(Property {
    id: "C06",
    rule: "a case is non-trivial by its two segments",
    assumptions: &[],
    families: vec![
      Family { name: "random", quick: 180000, thorough: 2000000, f: fam_random },
      Family { name: "ends", quick: 24000, thorough: 300000, f: fam_ends },
      Family { name: "lattice", quick: 10000, thorough: 200000, f: fam_lattice },
    ],
    require: &["apart", "cross", "single_point", "overlap", "overlap_point", "empty_segment", "contained", "not_contained", "aligned", "ends_together", "ends_apart", "lattice"],
  })
}
