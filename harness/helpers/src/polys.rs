//! E02: the polynomial and vector algebra under the proof systems, against its definitions.
use ark_ff::{Field, One, Zero};
use mccore::toy::*;
use mccore::*;
use std::collections::BTreeMap;
use zkp_r1cs::Index;

type Fr<C> = FrOf<C>;
fn f<C: ToyCfg>(v: i64) -> Fr<C> {
    fi::<Fr<C>>(v)
}
/// Lagrange basis polynomial of corner i at r (first variable: most significant bit)
fn lag<F: Field>(i: usize, r: &[F]) -> F {
    let k = r.len();
    (0..k).map(|j| if i >> (k - 1 - j) & 1 == 1 { r[j] } else { F::one() - r[j] }).product()
}
/// value of the multilinear polynomial with the given corner values (missing ones are zero)
fn mle<F: Field>(v: &[F], r: &[F]) -> F {
    v.iter().enumerate().map(|(i, x)| lag(i, r) * x).sum()
}
fn same<T: PartialEq + std::fmt::Debug>(ctx: &Ctx, what: &str, got: Result<T, String>, want: T, at: &dyn Fn() -> String) {
    ctx.step(1);
    match got {
        Ok(g) if g == want => {}
        Ok(g) => ctx.violate(&format!("wrong-value {}", what), || format!("{} at {}: {:?}, by definition {:?}", what, at(), g, want)),
        Err(e) => ctx.violate(&format!("panic {}", what), || format!("{} at {}: {}", what, at(), e)),
    }
}
macro_rules! same {
    ($ctx:expr, $what:expr, $got:expr, $want:expr, $($at:expr),*) => {
        same($ctx, $what, guard(|| $got), $want, &|| [$(format!("{:?}", $at)),*].join(" "))
    };
}
/// points: all of F17^k while small, patterns after that
fn points<C: ToyCfg>(k: usize, all: usize) -> Vec<Vec<Fr<C>>> {
    if k <= all {
        tuples(&(0..17).map(|v| f::<C>(v)).collect::<Vec<_>>(), k)
    } else {
        let mut o: Vec<Vec<Fr<C>>> = (0..8).map(|s: i64| (0..k as i64).map(|j| f::<C>(j * j + 3 * s * j + s - 2)).collect()).collect();
        // corners, and one coordinate off a corner
        for s in 0..8usize {
            let mut c: Vec<Fr<C>> = (0..k).map(|j| f::<C>(((s * 5 + 3) >> (j % 4) & 1) as i64)).collect();
            o.push(c.clone());
            c[s % k] = f::<C>(5);
            o.push(c);
        }
        o
    }
}
/// vectors: every unit vector and some dense ones
fn vectors<C: ToyCfg>(n: usize) -> Vec<Vec<Fr<C>>> {
    let mut o: Vec<Vec<Fr<C>>> = (0..n.min(32)).map(|i| (0..n).map(|j| f::<C>((i == j) as i64)).collect()).collect();
    o.push(vec![f::<C>(0); n]);
    for s in 0..4i64 {
        o.push((0..n as i64).map(|j| f::<C>((j * j * (s + 1) + 2 * j + s) % 23 - 4)).collect());
    }
    o.push((0..n).map(|j| f::<C>(if j % 3 == 0 { 7 } else { 0 })).collect());
    o
}
macro_rules! basics {
    ($name:ident, $lib:path, $eq:path, $eqxy:path, $fold:expr) => {
        fn $name<C: ToyCfg>(ctx: &Ctx, all: usize, kmax: usize) {
            let lib = stringify!($lib);
            for k in 0..=kmax {
                let ps = points::<C>(k, all);
                par_for(&ps, |_, r| {
                    ctx.state(&(lib, "eq", r.iter().map(|x| val(x)).collect::<Vec<_>>()));
                    same!(ctx, &format!("{} eval_eq", lib), $eq(r), (0..1usize << k).map(|i| lag(i, r)).collect::<Vec<_>>(), vs(r));
                });
                // pairs of points
                let qs: Vec<Vec<Fr<C>>> = if k <= 1 { ps.clone() } else { ps.iter().step_by(1 + ps.len() / 40).cloned().collect() };
                par_for(&ps, |_, r| {
                    for q in &qs {
                        let w: Fr<C> = (0..1usize << k).map(|i| lag(i, r) * lag(i, q)).sum();
                        same!(ctx, &format!("{} eval_eq_x_y", lib), $eqxy(r, q), w, vs(r), vs(q));
                    }
                });
                if k > 0 {
                    let rs: Vec<Fr<C>> = (0..17).map(|v| f::<C>(v)).collect();
                    for v in vectors::<C>(1 << k) {
                        for r in &rs {
                            let h = v.len() / 2;
                            let w: Vec<Fr<C>> = (0..h).map(|i| mle(&[v[i], v[i + h]], &[*r])).collect();
                            let got: fn(&Vec<Fr<C>>, Fr<C>) -> Vec<Fr<C>> = $fold;
                            same!(ctx, &format!("{} fold", lib), got(&v, *r), w, vs(&v), r);
                        }
                    }
                }
            }
        }
    };
}
basics!(b_spartan, zkp_spartan, zkp_spartan::polynomial::eval_eq::<Toy<C>>, zkp_spartan::polynomial::eval_eq_x_y::<Toy<C>>, |v, r| {
    let a = zkp_spartan::polynomial::combine_with_n::<Toy<C>>(v, r);
    let mut b = v.clone();
    zkp_spartan::polynomial::combine_with_r::<Toy<C>>(&mut b, r);
    assert!(a == b, "the two folds differ");
    a
});
basics!(b_libra, zkp_libra, zkp_libra::evaluate::eval_eq::<Toy<C>>, zkp_libra::evaluate::eval_eq_x_y::<Toy<C>>, |v, r| zkp_libra::evaluate::combine_with_r::<Toy<C>>(v, r));
basics!(b_hyrax, zkp_hyrax, zkp_hyrax::evaluate::eval_eq::<Toy<C>>, zkp_hyrax::evaluate::eval_eq_x_y::<Toy<C>>, |v, r| zkp_hyrax::evaluate::combine_with_r::<Toy<C>>(v, r));

fn evaluations<C: ToyCfg>(ctx: &Ctx, all: usize, kmax: usize) {
    use zkp_spartan::polynomial as sp;
    for k in 0..=kmax {
        let ps = points::<C>(k, all);
        let mut vv = vectors::<C>(1 << k);
        // fewer values than corners
        if k > 0 {
            vv.push(vec![]);
            vv.push(vec![f::<C>(3); (1 << k) - 1]);
            vv.push((0..(1i64 << (k - 1)) + 1).map(|i| f::<C>(i + 1)).collect());
        }
        par_for(&ps, |_, r| {
            for v in &vv {
                let w = mle(v, r);
                same!(ctx, "spartan sparse_evaluate_value", sp::sparse_evaluate_value::<Toy<C>>(v, r), w, vs(v), vs(r));
                same!(ctx, "libra eval_value", zkp_libra::evaluate::eval_value::<Toy<C>>(v, r), w, vs(v), vs(r));
                same!(ctx, "hyrax eval_value", zkp_hyrax::evaluate::eval_value::<Toy<C>>(v, r), w, vs(v), vs(r));
            }
        });
        if k > 0 {
            for v in vectors::<C>(1 << k) {
                for r in 0..17 {
                    let r = f::<C>(r);
                    let w: Vec<Fr<C>> = v.chunks(2).map(|p| mle(p, &[r])).collect();
                    same!(ctx, "spartan bound_poly_var_bot", {
                        let mut u = v.clone();
                        sp::bound_poly_var_bot::<Toy<C>>(&mut u, r);
                        u
                    }, w, vs(&v), r);
                }
            }
        }
    }
}
type Mat<F> = Vec<Vec<(F, Index)>>;
fn dense<F: Field>(m: &Mat<F>, half: usize, rows: usize) -> Vec<Vec<F>> {
    let mut d = vec![vec![F::zero(); 2 * half]; rows];
    for (i, row) in m.iter().enumerate() {
        for (v, c) in row {
            let j = match c {
                Index::Aux(j) => *j,
                Index::Input(j) => j + half,
            };
            d[i][j] += v;
        }
    }
    d
}
/// all matrices with at most two rows of at most two entries over a small alphabet, then patterns
fn matrices<C: ToyCfg>(full: bool) -> Vec<(usize, usize, Mat<Fr<C>>)> {
    let mut o = vec![];
    for half in [1usize, 2] {
        let mut cells: Vec<(Fr<C>, Index)> = vec![];
        for c in 0..half {
            for v in [1i64, -1, 3] {
                cells.push((f::<C>(v), Index::Aux(c)));
                cells.push((f::<C>(v), Index::Input(c)));
            }
        }
        let mut rows: Vec<Vec<(Fr<C>, Index)>> = vec![vec![]];
        rows.extend(cells.iter().map(|c| vec![*c]));
        for a in &cells {
            for b in cells.iter().step_by(if full { 1 } else { 2 }) {
                rows.push(vec![*a, *b]);
            }
        }
        for a in &rows {
            o.push((half, 1, vec![a.clone()]));
            for b in rows.iter().step_by(if full { 1 } else { 5 }) {
                o.push((half, 2, vec![a.clone(), b.clone()]));
            }
        }
    }
    for (half, rows) in [(2usize, 4usize), (4, 4), (4, 8), (8, 4), (8, 16)] {
        for s in 0..6usize {
            let m = (0..rows)
                .map(|i| (0..(i + s) % 5).map(|j| (f::<C>((i * j + s) as i64 % 7 - 2), if (i + j + s) % 2 == 0 { Index::Aux((i * 3 + j) % half) } else { Index::Input((i + j * s) % half) })).collect())
                .collect();
            o.push((half, rows, m));
        }
    }
    o
}
fn linear<C: ToyCfg>(ctx: &Ctx) {
    use zkp_spartan::polynomial as sp;
    let ms = matrices::<C>(ctx.thorough());
    par_for(&ms, |_, (half, rows, m)| {
        let n = 2 * half;
        let d = dense(m, *half, *rows);
        ctx.state(&("matrix", format!("{:?}", m)));
        let show = || format!("{:?} of {} columns", m, n);
        for z in vectors::<C>(n) {
            let w: Vec<Fr<C>> = d.iter().map(|r| r.iter().zip(&z).map(|(a, b)| *a * b).sum()).collect();
            same!(ctx, "spartan evaluate_matrix_vec", sp::evaluate_matrix_vec::<Toy<C>>(m, &z), w, show(), vs(&z));
        }
        for z in vectors::<C>(*rows) {
            let w: Vec<Fr<C>> = (0..n).map(|j| (0..*rows).map(|i| d[i][j] * z[i]).sum()).collect();
            same!(ctx, "spartan evaluate_matrix_vec_col", sp::evaluate_matrix_vec_col::<Toy<C>>(m, &z, n), w, show(), vs(&z));
        }
        let (kr, kc) = (rows.trailing_zeros() as usize, n.trailing_zeros() as usize);
        for rx in points::<C>(kr, 0).iter().chain(&if kr == 0 { vec![vec![]] } else { vec![] }).step_by(3) {
            for ry in points::<C>(kc, 0).iter().step_by(2) {
                let w: Fr<C> = d.iter().enumerate().map(|(i, r)| lag(i, rx) * mle(r, ry)).sum();
                same!(ctx, "spartan evaluate_mle", sp::evaluate_mle::<Toy<C>>(m, rx, ry), w, show(), vs(rx), vs(ry));
            }
        }
        // the list form: rows in order, columns in order, no zero, no duplicate
        let mut want = (vec![], vec![], vec![]);
        for (i, r) in d.iter().enumerate() {
            for (j, v) in r.iter().enumerate() {
                if !v.is_zero() {
                    want.0.push(*v);
                    want.1.push(i);
                    want.2.push(j);
                }
            }
        }
        let got = guard(|| zkp_spartan::r1cs::switch_matrix_to_list::<Toy<C>>(m, *half).unwrap());
        ctx.step(1);
        match got {
            Ok((v, r, c)) => {
                // as a set of entries: any order serves
                let mut g: Vec<(usize, usize, u64)> = (0..v.len()).map(|i| (r[i], c[i], val(&v[i]) as u64)).collect();
                g.sort();
                let w: Vec<(usize, usize, u64)> = (0..want.0.len()).map(|i| (want.1[i], want.2[i], val(&want.0[i]) as u64)).collect();
                ctx.check(g == w && r.len() == v.len() && c.len() == v.len(), "wrong-value spartan switch_matrix_to_list", || format!("{}: {:?} instead of {:?}", show(), g, w));
            }
            Err(e) => ctx.violate("panic spartan switch_matrix_to_list", || format!("{}: {}", show(), e)),
        }
    });
    ctx.bound(format!("sparse matrices: {} (all with up to 2 rows of up to 2 terms over a small alphabet, patterns up to 16 x 16), repeated and cancelling terms included", ms.len()));
}
fn spark<C: ToyCfg>(ctx: &Ctx) {
    use zkp_spartan::spark as sk;
    // lengths made equal by zeros in front
    for a in 0..6usize {
        for b in 0..6usize {
            let (x, y): (Vec<Fr<C>>, Vec<Fr<C>>) = ((0..a as i64).map(|i| f::<C>(i + 2)).collect(), (0..b as i64).map(|i| f::<C>(7 - i)).collect());
            let pad = |v: &[Fr<C>]| {
                let mut o = vec![Fr::<C>::zero(); a.max(b) - v.len()];
                o.extend(v);
                o
            };
            same!(ctx, "spartan equalize_length", sk::equalize_length::<Toy<C>>(&x, &y).unwrap(), (pad(&x), pad(&y)), vs(&x), vs(&y));
        }
    }
    // time stamps: every access history up to the bound
    let n = ctx.b(7usize, 8);
    let mut total = 0u64;
    for m in [1usize, 2, 3, 4] {
        for lists in 1..=3usize {
            for len in 1..=n / lists {
                let jobs = tuples(&(0..m).collect::<Vec<_>>(), lists * len);
                total += jobs.len() as u64;
                par_for(&jobs, |_, h| {
                    ctx.state(&("memory", m, lists, h));
                    ctx.trace(1);
                    let addrs: Vec<Vec<usize>> = h.chunks(len).map(|c| c.to_vec()).collect();
                    // each read sees the number of earlier accesses; afterwards the audit has the totals
                    let seen = |upto: usize, a: usize| f::<C>(h[..upto].iter().filter(|x| **x == a).count() as i64);
                    let want = (
                        addrs.clone(),
                        addrs.iter().map(|l| l.iter().map(|a| f::<C>(*a as i64)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                        (0..lists).map(|l| (0..len).map(|i| seen(l * len + i, h[l * len + i])).collect::<Vec<_>>()).collect::<Vec<_>>(),
                        (0..m).map(|a| seen(h.len(), a)).collect::<Vec<_>>(),
                    );
                    same!(ctx, "spartan memory_in_the_head", {
                        let t = sk::memory_in_the_head::<Toy<C>>(addrs.clone(), len, m).unwrap();
                        (t.addr_index, t.addrs, t.read_ts_list, t.audit_ts)
                    }, want, addrs);
                });
            }
        }
    }
    ctx.bound(format!("memory-in-the-head: all {} access histories of up to {} accesses in 1..3 lists over 1..4 cells", total, n));
    // product trees
    for n in 2..=33usize {
        for v in vectors::<C>(n) {
            let w: Fr<C> = v.iter().product();
            same!(ctx, "spartan product circuit", sk::evaluate_product_circuit::<Toy<C>>(&sk::construct_product_circuit::<Toy<C>>(v.clone()).unwrap()).unwrap(), w, vs(&v));
            let nz: Vec<Fr<C>> = v.iter().map(|x| if x.is_zero() { Fr::<C>::one() + Fr::<C>::one() } else { *x }).collect();
            let w: Fr<C> = nz.iter().product();
            same!(ctx, "spartan product circuit", sk::evaluate_product_circuit::<Toy<C>>(&sk::construct_product_circuit::<Toy<C>>(nz.clone()).unwrap()).unwrap(), w, vs(&nz));
        }
    }
    let dom: Vec<Fr<C>> = [0i64, 1, 3, -2].iter().map(|v| f::<C>(*v)).collect();
    for k in [2usize, 4] {
        par_for(&tuples(&dom, k), |_, v| {
            same!(ctx, "spartan product circuit layers", {
                let c = sk::construct_product_circuit::<Toy<C>>(v.clone()).unwrap();
                (c.left_vec, c.right_vec)
            }, {
                // halves of every layer, the next layer is their product
                let (mut l, mut r, mut cur) = (vec![], vec![], v.clone());
                while cur.len() > 1 {
                    let h = cur.len() / 2;
                    l.push(cur[..h].to_vec());
                    r.push(cur[h..].to_vec());
                    cur = (0..h).map(|i| cur[i] * cur[i + h]).collect();
                }
                (l, r)
            }, vs(v));
        });
    }
    // dot product of three vectors and the hash of a memory cell
    for k in 1..=2usize {
        par_for(&tuples(&dom, 3 * k), |_, v| {
            let (a, b, c) = (v[..k].to_vec(), v[k..2 * k].to_vec(), v[2 * k..].to_vec());
            let w: Fr<C> = (0..k).map(|i| a[i] * b[i] * c[i]).sum();
            same!(ctx, "spartan evaluate_dot_product_circuit", sk::evaluate_dot_product_circuit::<Toy<C>>(&a, &b, &c).unwrap(), w, vs(v));
            for g in 0..17 {
                let g = f::<C>(g);
                let w: Vec<Fr<C>> = (0..k).map(|i| a[i] * g * g + b[i] * g + c[i]).collect();
                same!(ctx, "spartan circuit_hash", sk::circuit_hash::<Toy<C>>(&a, &b, &c, g).unwrap(), w, vs(v), g);
            }
        });
    }
    // read/write sets balance on honest histories and only on those
    let m = 2usize;
    let dom: Vec<usize> = vec![0, 1];
    for len in [2usize, 4] {
        par_for(&tuples(&dom, len), |_, h| {
            let t = sk::memory_in_the_head::<Toy<C>>(vec![h.clone()], len, m).unwrap();
            let mem: Vec<Fr<C>> = (0..m as i64).map(|i| f::<C>(i * 3 + 2)).collect();
            let e: Vec<Fr<C>> = h.iter().map(|a| mem[*a]).collect();
            for g in [(1i64, 5i64), (3, 2), (7, 11)] {
                let run = |e: &Vec<Fr<C>>, rd: &Vec<Fr<C>>, au: &Vec<Fr<C>>| guard(|| sk::memory_checking::<Toy<C>>(&t.addrs, &mem, &vec![rd.clone()], au, &vec![e.clone()], (f::<C>(1 << 20) * f::<C>(g.0), f::<C>(1 << 22) * f::<C>(g.1))).is_ok());
                ctx.step(1);
                ctx.check(run(&e, &t.read_ts_list[0], &t.audit_ts) == Ok(true), "memory-checking honest", || format!("{:?}", h));
                for i in 0..len {
                    let mut e2 = e.clone();
                    e2[i] += f::<C>(1);
                    ctx.check(run(&e2, &t.read_ts_list[0], &t.audit_ts).is_err(), "memory-checking wrong value", || format!("{:?}: access {} reads another value", h, i));
                }
                for i in 0..m {
                    let mut a2 = t.audit_ts.clone();
                    a2[i] += f::<C>(1);
                    ctx.check(run(&e, &t.read_ts_list[0], &a2).is_err(), "memory-checking wrong audit", || format!("{:?}: audit {} off", h, i));
                }
            }
        });
    }
}
fn layered<C: ToyCfg>(ctx: &Ctx) {
    use zkp_libra::circuit::Gate;
    use zkp_libra::evaluate as lb;
    // every list of up to two gates over two nodes in two outputs; patterns over more
    let mut one = vec![];
    for g in 0..2usize {
        for op in 0..4u8 {
            for x in 0..2usize {
                for y in 0..2usize {
                    one.push((g, op, x, y));
                }
            }
        }
    }
    let mut lists: Vec<(usize, usize, Vec<(usize, u8, usize, usize)>)> = vec![];
    for a in &one {
        lists.push((1, 1, vec![*a]));
        for b in &one {
            lists.push((1, 1, vec![*a, *b]));
        }
    }
    for (lg, lx) in [(1usize, 2usize), (2, 1), (2, 3), (3, 2)] {
        for s in 0..24usize {
            lists.push((lg, lx, (0..1usize << lg).map(|g| (g, [0u8, 1, 1, 0, 2, 1][(g + s) % 6], (g * 3 + s) % (1 << lx), (g + s * s) % (1 << lx))).collect()));
        }
    }
    par_for(&lists, |_, (lg, lx, l)| {
        ctx.state(&("gates", l));
        let gates: Vec<Gate> = l.iter().map(|(g, o, x, y)| Gate::new(*g, *o, *x, *y)).collect();
        for gv in vectors::<C>(1 << lg) {
            for v in vectors::<C>(1 << lx) {
                let n = 1usize << lx;
                let (mut mul, mut a1, mut a2, mut fm, mut fa) = (vec![f::<C>(0); n], vec![f::<C>(0); n], vec![f::<C>(0); n], vec![f::<C>(0); n], vec![f::<C>(0); n]);
                for (g, o, x, y) in l {
                    if *o == 1 {
                        mul[*x] += gv[*g] * v[*y];
                        fm[*y] += gv[*g] * v[*x];
                    }
                    if *o == 0 {
                        a1[*x] += gv[*g];
                        a2[*x] += gv[*g] * v[*y];
                        fa[*y] += gv[*g] * v[*x];
                    }
                }
                same!(ctx, "libra eval_hg", lb::eval_hg::<Toy<C>>(&gv, &v, &gates, *lx), (mul, a1, a2), l, vs(&gv), vs(&v));
                same!(ctx, "libra eval_fgu", lb::eval_fgu::<Toy<C>>(&gv, &v, &gates, *lx), (fm, fa), l, vs(&gv), vs(&v));
            }
        }
    });
    for k in 0..=8usize {
        for n in 0..1usize << k {
            let w: Vec<Fr<C>> = (0..k).map(|j| f::<C>((n >> (k - 1 - j) & 1) as i64)).collect();
            same!(ctx, "hyrax convert_to_bit", zkp_hyrax::evaluate::convert_to_bit::<Toy<C>>(n, k), w, n, k);
        }
    }
    ctx.bound(format!("gate lists: {} (every list of up to two gates of any kind over two nodes and two outputs, patterns up to 8 x 8)", lists.len()));
}
fn commitments<C: ToyCfg>(ctx: &Ctx) {
    let gens: Vec<Fr<C>> = (0..40).map(|i| f::<C>(11 + 7 * i * i)).collect();
    let pts: Vec<A<C, 1>> = gens.iter().map(|x| A::of(*x)).collect();
    let h = f::<C>(5);
    let ha = A::of(h);
    let com = |v: &[Fr<C>], b: Fr<C>| v.iter().zip(&gens).map(|(a, g)| *a * g).sum::<Fr<C>>() + h * b;
    for n in 0..=33usize {
        for v in vectors::<C>(n) {
            for b in [0i64, 1, 9] {
                let b = f::<C>(b);
                same!(ctx, "spartan poly_commit_vec", zkp_spartan::commitments::poly_commit_vec::<Toy<C>>(&pts, &v, &ha, b).unwrap().commit.0, com(&v, b), vs(&v), b);
                same!(ctx, "libra poly_commit_vec", zkp_libra::evaluate::poly_commit_vec::<Toy<C>>(&pts, &v, &ha, b).0, com(&v, b), vs(&v), b);
                same!(ctx, "hyrax poly_commit_vec", zkp_hyrax::evaluate::poly_commit_vec::<Toy<C>>(&pts, &v, &ha, b).0, com(&v, b), vs(&v), b);
            }
        }
    }
    for k in 0..=7usize {
        let (rows, cols) = (1usize << (k / 2), 1usize << (k - k / 2));
        for v in vectors::<C>(1 << k) {
            for blind in [false, true] {
                macro_rules! packed {
                    ($name:expr, $call:expr) => {{
                        ctx.step(1);
                        match guard(|| $call) {
                            Ok((c, b)) => {
                                let c: Vec<Fr<C>> = c.iter().map(|p: &A<C, 1>| p.0).collect();
                                let b: Vec<Fr<C>> = b;
                                let ok = b.len() == rows && c == (0..rows).map(|i| com(&v[i * cols..(i + 1) * cols], b[i])).collect::<Vec<_>>();
                                ctx.check(ok, concat!("wrong-value ", $name), || format!("{} of {} blinded {}: {} with {}", $name, vs(&v), blind, vs(&c), vs(&b)));
                                // blinds: fresh each, or none at all
                                let distinct = b.iter().map(|x| val(x)).collect::<std::collections::BTreeSet<_>>().len() == rows && b.iter().all(|x| !x.is_zero());
                                ctx.check(if blind { distinct } else { b.iter().all(|x| x.is_zero()) }, concat!("blinds ", $name), || format!("{}: blinds {}", $name, vs(&b)));
                            }
                            Err(e) => ctx.violate(concat!("panic ", $name), || format!("{}: {}", vs(&v), e)),
                        }
                    }};
                }
                packed!("spartan packing_poly_commit", zkp_spartan::commitments::packing_poly_commit::<Toy<C>, _>(&pts, &v, &ha, &mut Coins::seeded(4), blind).unwrap());
                packed!("libra packing_poly_commit", zkp_libra::evaluate::packing_poly_commit::<Toy<C>, _>(&pts, &v, &ha, &mut Coins::seeded(4), blind));
                packed!("hyrax packing_poly_commit", zkp_hyrax::evaluate::packing_poly_commit::<Toy<C>, _>(&pts, &v, &ha, &mut Coins::seeded(4), blind));
            }
        }
    }
}
fn bullet<C: ToyCfg>(ctx: &Ctx) {
    use zkp_bulletproofs::*;
    let dom: Vec<Fr<C>> = [0i64, 1, -1, 4].iter().map(|v| f::<C>(*v)).collect();
    // vectors and matrices
    for q in 1..=4usize {
        for n in 1..=5usize {
            for v in vectors::<C>(q) {
                for s in 0..6i64 {
                    let m: Vec<Vec<Fr<C>>> = (0..q as i64).map(|i| (0..n as i64).map(|j| f::<C>([(i == j) as i64, (i * 3 + j * s + s) % 5 - 1, ((i + j + s) % 3 == 0) as i64][(s % 3) as usize])).collect()).collect();
                    let w: Vec<Fr<C>> = (0..n).map(|c| (0..q).map(|r| v[r] * m[r][c]).sum()).collect();
                    same!(ctx, "bulletproofs vector_matrix_product", vector_matrix_product(&v, &m), w.clone(), vs(&v), m);
                    let mut map = BTreeMap::new();
                    for (r, row) in m.iter().enumerate() {
                        for (c, x) in row.iter().enumerate() {
                            if !x.is_zero() || (r + c) % 2 == 0 {
                                map.insert((r as u32, c as u32), *x);
                            }
                        }
                    }
                    same!(ctx, "bulletproofs vector_map_product", vector_map_product(&v, &map, n), w, vs(&v), map);
                    let t: Vec<Vec<Fr<C>>> = (0..n).map(|c| (0..q).map(|r| m[r][c]).collect()).collect();
                    let w: Vec<Fr<C>> = (0..n).map(|c| (0..q).map(|r| v[r] * m[r][c]).sum()).collect();
                    same!(ctx, "bulletproofs vector_matrix_product_t", vector_matrix_product_t(&v, &t), w, vs(&v), t);
                    // a diagonal matrix given by its diagonal
                    let dg: Vec<Fr<C>> = m[0].iter().cycle().take(q).cloned().collect();
                    for cols in 1..=6usize {
                        let w: Vec<Fr<C>> = (0..cols).map(|c| if c < q { v[c] * dg[c] } else { f::<C>(0) }).collect();
                        same!(ctx, "bulletproofs vector_product", vector_product(&v, &dg, cols, q), w, vs(&v), vs(&dg), cols);
                    }
                }
            }
        }
    }
    for n in 0..=3usize {
        par_for(&tuples(&dom, 2 * n), |_, t| {
            let (a, b) = t.split_at(n);
            same!(ctx, "bulletproofs hadamard_product", hadamard_product(a, b), a.iter().zip(b).map(|(x, y)| *x * y).collect::<Vec<_>>(), vs(a), vs(b));
            same!(ctx, "bulletproofs inner_product", inner_product(a, b), a.iter().zip(b).map(|(x, y)| *x * y).sum(), vs(a), vs(b));
        });
        for m in 0..=3usize {
            if n != m {
                ctx.step(2);
                let (a, b) = (vec![dom[1]; n], vec![dom[1]; m]);
                ctx.check(guard(|| hadamard_product(&a, &b)).is_err() && guard(|| inner_product(&a, &b)).is_err(), "lengths bulletproofs products", || format!("lengths {} and {} multiplied", n, m));
            }
        }
    }
    // vector polynomials: values, and products with the coefficients that do not occur in use being zero
    let all: Vec<Fr<C>> = (0..17).map(|v| f::<C>(v)).collect();
    let horner = |c: &[Vec<Fr<C>>], x: Fr<C>| -> Vec<Fr<C>> { (0..c[0].len()).map(|i| c.iter().rev().fold(f::<C>(0), |a, k| a * x + k[i])).collect() };
    let conv = |l: &[Vec<Fr<C>>], r: &[Vec<Fr<C>>]| -> Vec<Fr<C>> {
        let mut o = vec![f::<C>(0); l.len() + r.len() - 1];
        for (i, a) in l.iter().enumerate() {
            for (j, b) in r.iter().enumerate() {
                o[i + j] += a.iter().zip(b).map(|(x, y)| *x * y).sum::<Fr<C>>();
            }
        }
        o
    };
    let dom3: Vec<Fr<C>> = [0i64, 1, -2].iter().map(|v| f::<C>(*v)).collect();
    par_for(&tuples(&dom3, 6), |_, t| {
        for n in 1..=2usize {
            let vec = |x: Fr<C>| (0..n as i64).map(|i| x * f::<C>(2 * i + 1)).collect::<Vec<_>>();
            let z = vec![f::<C>(0); n];
            // degree 3: left 1, 2, 3; right 0, 1, 3
            let l: Vec<Vec<Fr<C>>> = vec![z.clone(), vec(t[0]), vec(t[1]), vec(t[2])];
            let r: Vec<Vec<Fr<C>>> = vec![vec(t[3]), vec(t[4]), z.clone(), vec(t[5])];
            let mk = |c: &[Vec<Fr<C>>]| VecPoly3(c[0].clone(), c[1].clone(), c[2].clone(), c[3].clone());
            let full: Vec<Vec<Fr<C>>> = vec![vec(t[0]), vec(t[3]), vec(t[4]), vec(t[1])];
            let p = VecPoly3::special_inner_product(&mk(&l), &mk(&r));
            let got = vec![f::<C>(0), p.t1, p.t2, p.t3, p.t4, p.t5, p.t6];
            same!(ctx, "bulletproofs VecPoly3 product", got.clone(), conv(&l, &r), vs(t));
            for x in &all {
                same!(ctx, "bulletproofs VecPoly3 value", mk(&full).eval(*x), horner(&full, *x), vs(t), x);
                same!(ctx, "bulletproofs Poly6 value", p.eval(*x), got.iter().rev().fold(f::<C>(0), |a, k| a * x + k), vs(t), x);
            }
        }
    });
    let dom8: Vec<Fr<C>> = dom3.clone();
    par_for(&tuples(&dom8, 8), |_, t| {
        let n = 2usize;
        let vec = |x: Fr<C>| (0..n as i64).map(|i| x * f::<C>(2 * i + 1)).collect::<Vec<_>>();
        let z = vec![f::<C>(0); n];
        // degree 5: left 2, 3, 4, 5; right 0, 1, 2, 5
        let l = vec![z.clone(), z.clone(), vec(t[0]), vec(t[1]), vec(t[2]), vec(t[3])];
        let r = vec![vec(t[4]), vec(t[5]), vec(t[6]), z.clone(), z.clone(), vec(t[7])];
        let mk = |c: &[Vec<Fr<C>>]| VecPoly5(c[0].clone(), c[1].clone(), c[2].clone(), c[3].clone(), c[4].clone(), c[5].clone());
        let full: Vec<Vec<Fr<C>>> = (0..6).map(|i| vec(t[i])).collect();
        let p = VecPoly5::special_inner_product(&mk(&l), &mk(&r));
        let got = vec![f::<C>(0), f::<C>(0), p.t2, p.t3, p.t4, p.t5, p.t6, p.t7, p.t8, p.t9, p.t10];
        same!(ctx, "bulletproofs VecPoly5 product", got.clone(), conv(&l, &r), vs(t));
        for x in &all {
            same!(ctx, "bulletproofs VecPoly5 value", mk(&full).eval(*x), horner(&full, *x), vs(t), x);
            same!(ctx, "bulletproofs Poly10 value", p.eval(*x), got.iter().rev().fold(f::<C>(0), |a, k| a * x + k), vs(t), x);
        }
    });
    for n in 1..=4usize {
        let (a, b) = (VecPoly3::<Fr<C>>::zero(n), VecPoly5::<Fr<C>>::zero(n));
        same!(ctx, "bulletproofs zero polynomials", (a.eval(f::<C>(7)), b.eval(f::<C>(7))), (vec![f::<C>(0); n], vec![f::<C>(0); n]), n);
    }
}
/// the sum of multiples every commitment is made of, on the curve's own generic implementation
fn multiples(ctx: &Ctx) {
    use zkp_curve::Curve;
    let all: Vec<Fr<Cfg17>> = (0..17).map(|v| f::<Cfg17>(v)).collect();
    for (n, m) in [(0usize, 0usize), (1, 1), (0, 1), (1, 0), (2, 1), (1, 2)] {
        par_for(&tuples(&all, n + m), |_, t| {
            let p: Vec<A<Cfg17, 1>> = t[n..].iter().map(|x| A::of(*x)).collect();
            let want: Fr<Cfg17> = t[..n].iter().zip(&t[n..]).map(|(a, b)| *a * b).sum();
            same!(ctx, "curve vartime_multiscalar_mul", <Toy<Cfg17> as Curve>::vartime_multiscalar_mul(&t[..n], &p).0, want, vs(t), n);
        });
    }
    for n in 0..=ctx.b(80usize, 700) {
        for m in [n, n + 1, n.saturating_sub(1)] {
            let p: Vec<Fr<CfgBig>> = (0..m as i64).map(|i| f::<CfgBig>(3 * i * i + 7 * i + 1)).collect();
            let q: Vec<A<CfgBig, 1>> = p.iter().map(|x| A::of(*x)).collect();
            for v in vectors::<CfgBig>(n) {
                let want: Fr<CfgBig> = v.iter().zip(&p).map(|(a, b)| *a * b).sum();
                same!(ctx, "curve vartime_multiscalar_mul", <Toy<CfgBig> as Curve>::vartime_multiscalar_mul(&v, &q).0, want, vs(&v), m);
            }
        }
    }
}
pub fn e02(ctx: &Ctx) {
    ctx.assume("field of 17 elements exhaustively, 61-bit field in patterns");
    let (k17, k61) = (ctx.b(9, 11), ctx.b(11, 14));
    b_spartan::<Cfg17>(ctx, ctx.b(4, 5), k17);
    b_libra::<Cfg17>(ctx, ctx.b(4, 5), k17);
    b_hyrax::<Cfg17>(ctx, ctx.b(4, 5), k17);
    b_spartan::<CfgBig>(ctx, 0, k61);
    b_libra::<CfgBig>(ctx, 0, k61);
    b_hyrax::<CfgBig>(ctx, 0, k61);
    ctx.bound(format!("equality polynomials, folds: every point of F17^k for k <= {}, patterns and corners up to {} variables", ctx.b(4, 5), k61));
    evaluations::<Cfg17>(ctx, 2, ctx.b(7, 9));
    evaluations::<CfgBig>(ctx, 0, ctx.b(9, 11));
    linear::<CfgBig>(ctx);
    spark::<CfgBig>(ctx);
    layered::<CfgBig>(ctx);
    commitments::<CfgBig>(ctx);
    bullet::<CfgBig>(ctx);
    multiples(ctx);
}
