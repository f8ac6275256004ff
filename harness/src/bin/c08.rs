use rgeometry::data::*;
use rgmon::ex::*;
use rgmon::gen::*;
use rgmon::sc::{rpt, Kind, Sc};
use rgmon::*;

type R = BigRational;
/// The common point of the lines through a,b and c,d.
fn cramer(p: &[[R; 2]]) -> Option<[R; 2]> {
  let (d1, d2) = (rsub(&p[1], &p[0]), rsub(&p[3], &p[2]));
  let den = rcross(&d1, &d2);
  if den == R::from_integer(0.into()) { return None }
  let t = rcross(&rsub(&p[2], &p[0]), &d2) / den;
  Some([&p[0][0] + &d1[0] * &t, &p[0][1] + &d1[1] * &t])
}
fn check<S: Sc>(ctx: &mut Ctx, p: &[Point<S>]) -> Res {
  let e: Vec<[R; 2]> = p.iter().map(rpt).collect();
  if e[0] == e[1] || e[2] == e[3] { return Ok(()) }
  let want = cramer(&e);
  let (a, b) = (Line::new_through(&p[0], &p[1]), Line::new_through(&p[2], &p[3]));
  // other ways to name the same lines
  let (a2, b2) = (Line::new_through(&p[1], &p[0]), Line::new_through(&p[3], &p[2]));
  for (x, y) in [(&a, &b), (&b, &a), (&a2, &b), (&a, &b2), (&a2, &b2)] {
    let got = x.intersection_point(y);
    ctx.eval();
    match (&want, &got) {
      (None, None) => ctx.count("parallel"),
      (None, Some(g)) => return Err(format!("lines {} are parallel but meet at {}", show(p), show(&[g.clone()]))),
      (Some(w), None) => return Err(format!("lines {} meet at {:?} but none reported", show(p), w)),
      (Some(w), Some(g)) => {
        ctx.count("meet");
        if S::KIND == Kind::Rational || (w[0].is_integer() && w[1].is_integer()) {
          ctx.count("exact_points");
          ck!(rpt(g) == *w, "lines {} meet at {:?}, reported {}", show(p), w, show(&[g.clone()]));
        }
      }
    }
  }
  ctx.nontrivial(key(p));
  Ok(())
}
fn lines<S: Sc>(ctx: &mut Ctx) -> Res {
  let r = &mut ctx.rng.fork();
  let (mut lim, fixed) = match S::KIND { Kind::Fixed => (((S::MAX as f64).powf(1.0 / 3.0) / 3.0) as i64, true), _ => (1 << 40, false) };
  if r.chance(1, 2) { lim = lim.min(10) }
  if fixed && lim < 1 { lim = 1 }
  let v: Vec<V> = match r.below(4) {
    0 => point_set(r, 4, lim),
    1 => {
      // through a lattice point, so that integer types must hit it
      let c = [r.range(-lim / 3, lim / 3), r.range(-lim / 3, lim / 3)];
      let mut f = |r: &mut rng::Rg| {
        let d = [r.range(-3, 3), r.range(-3, 3)];
        let k = (lim / 10).max(1);
        let (s, t) = (r.range(-k, k), r.range(-k, k));
        [[c[0] + s * d[0], c[1] + s * d[1]], [c[0] + t * d[0], c[1] + t * d[1]]]
      };
      let (a, b) = (f(r), f(r));
      [a, b].concat()
    }
    2 => {
      // parallel
      let (a, d, b) = ([r.range(-lim / 2, lim / 2), r.range(-lim / 2, lim / 2)], [r.range(-3, 3), r.range(-3, 3)], [r.range(-lim / 2, lim / 2), r.range(-lim / 2, lim / 2)]);
      let k = r.range(-2, 2);
      vec![a, [a[0] + d[0], a[1] + d[1]], b, [b[0] + k * d[0], b[1] + k * d[1]]]
    }
    _ => (0..4).map(|_| [r.range(-lim, lim), r.range(-lim, lim)]).collect(),
  };
  if v.iter().any(|p| p[0].abs() > lim || p[1].abs() > lim) { return Ok(()) }
  let p = if fixed {
    Emb::id().all::<S>(&v)
  } else {
    place::<S>(r, &v, &[], lim).map(|p| p.0)
  };
  let Some(p) = p else { return Ok(()) };
  ctx.sample(|| show(&p));
  check(ctx, &p)
}
fn fam_lines(ctx: &mut Ctx) -> Res {
  any_scalar!(ctx, lines, [i16, i32, i64, isize, BigInt, BigRational, BigRational, BigRational, Rug])
}
fn main() {
  engine::run_main(Property {
    id: "C08",
    rule: "a case is non-trivial by its two lines",
    assumptions: &["fixed-width integers are kept small enough for the cubic products not to overflow", "lines given by a direction vector are not supported by the code and not exercised"],
    families: vec![Family { name: "lines", quick: 360000, thorough: 3000000, f: fam_lines }],
    require: &["parallel", "meet", "exact_points"],
  })
}
