//! Checks of the connection properties.
use crate::drive::*;
use crate::report::*;
use crate::Check;

use crate::conn::Mk;
use crate::prng::Rng;
use crate::special::*;

/// A part whose cases run on 16-bit identifiers mostly, 32-bit ones sometimes.
fn part(
    ctx: &mut Ctx,
    id: u32,
    name: &str,
    n: u64,
    f16: impl Fn(&mut Rng, u64, &mut Stats) -> Result<(), (u32, Viol)> + Sync,
    f32: impl Fn(&mut Rng, u64, &mut Stats) -> Result<(), (u32, Viol)> + Sync,
) {
    ctx.cases(name, n, |r, i, st| {
        let x = if r.p(5, 6) { f16(r, i, st) } else { f32(r, i, st) };
        only(id, st, x)
    });
}

macro_rules! both {
    ($ctx:expr, $id:expr, $name:expr, $n:expr, |$r:ident, $i:ident, $st:ident| $f:ident($($a:expr),*)) => {{
        let n = $n;
        part($ctx, $id, $name, n,
            move |$r: &mut Rng, $i: u64, $st: &mut Stats| { let _ = $i; $f::<u16>($($a),*) },
            move |$r: &mut Rng, $i: u64, $st: &mut Stats| { let _ = $i; $f::<u32>($($a),*) });
    }};
}

fn pair_crash<P: Mk>(r: &mut Rng, st: &mut Stats) -> Result<(), (u32, Viol)> {
    use crate::pair::*;
    pair::<P>(r, &Shape { loss: 12, crash: true, steps: (60, 500) }, st).map_err(|x| (x.0 | 1 << 16, x.1))
}
/// Populations of chosen sizes (the kinds that concern the property).
fn crowds(ctx: &mut Ctx, id: u32, kinds: &'static [u64]) {
    let n = ctx.scale(kinds.len() as u64 * 150, kinds.len() as u64 * 1500);
    part(
        ctx,
        id,
        "crowd",
        n,
        move |r, i, st| crowd::<u16>(r, kinds[i as usize % kinds.len()], i / 100 % 30 == 29, st),
        move |r, i, st| crowd::<u32>(r, kinds[i as usize % kinds.len()], i / 100 % 30 == 29, st),
    );
}
fn c01(ctx: &mut Ctx) {
    use crate::pair::*;
    let n = ctx.scale(60_000, 900_000);
    const LOSSY: Shape = Shape { loss: 12, crash: false, steps: (60, 500) };
    both!(ctx, 1, "lossy", n, |r, i, st| pair(r, &LOSSY, st));
    const CLEAN: Shape = Shape { loss: 0, crash: false, steps: (60, 400) };
    both!(ctx, 1, "lossless", n / 4, |r, i, st| pair(r, &CLEAN, st));
    const HARD: Shape = Shape { loss: 60, crash: false, steps: (60, 500) };
    both!(ctx, 1, "very-lossy", n / 2, |r, i, st| pair(r, &HARD, st));
    const LONG: Shape = Shape { loss: 4, crash: false, steps: (3000, 8000) };
    both!(ctx, 1, "long", n / 60, |r, i, st| pair(r, &LONG, st));
    ctx.cases("aliased-oversize", 2, |_, i, st| {
        let x = if i == 0 { alias_oversize_resume::<u16>(st) } else { alias_oversize_resume::<u32>(st) };
        only(1, st, x)
    });
}
fn c05(ctx: &mut Ctx) {
    let n = ctx.scale(150_000, 3_000_000);
    both!(ctx, 5, "hostile", n, |r, i, st| hostile(r, st));
    monitored(ctx, 5, n);
}
fn c06(ctx: &mut Ctx) {
    let n = ctx.scale(250_000, 4_000_000);
    monitored(ctx, 6, n);
    crowds(ctx, 6, &[3]);
}
fn c07(ctx: &mut Ctx) {
    let n = ctx.scale(200_000, 3_000_000);
    monitored(ctx, 7, n);
    let n = ctx.scale(40_000, 1_000_000);
    both!(ctx, 7, "restore", n, |r, i, st| restored_continues(r, &prof(7), true, st));
    crowds(ctx, 7, &[2]);
}
fn c08(ctx: &mut Ctx) {
    let n = ctx.scale(200_000, 3_000_000);
    monitored(ctx, 8, n);
    let n = ctx.scale(48, 600);
    ctx.cases("exhaustion", n, |r, _, st| {
        let x = exhaustion(r, st);
        only(8, st, x)
    });
    crowds(ctx, 8, &[3, 4]);
}
fn c09(ctx: &mut Ctx) {
    let n = ctx.scale(100_000, 2_000_000);
    both!(ctx, 9, "chunking", n, |r, i, st| chunked(r, &prof(5), false, st));
    both!(ctx, 9, "chunking-mixed", n, |r, i, st| chunked(r, &prof(0), false, st));
    let n = ctx.scale(300, 3_000);
    both!(ctx, 9, "large-frames", n, |r, i, st| chunked(r, &prof(0), true, st));
    let n = ctx.scale(50_000, 500_000);
    monitored(ctx, 9, n);
}
fn c10(ctx: &mut Ctx) {
    let n = ctx.scale(150_000, 3_000_000);
    both!(ctx, 10, "reused-is-fresh", n, |r, i, st| reused_is_fresh(r, &prof([0, 10, 14, 15, 12, 13][(i % 6) as usize]), st));
    let n = ctx.scale(50_000, 1_000_000);
    both!(ctx, 10, "continued-is-restored", n, |r, i, st| restored_continues(r, &prof(6), false, st));
    let n = ctx.scale(50_000, 500_000);
    monitored(ctx, 10, n);
    crowds(ctx, 10, &[0, 1, 2, 3]);
}
fn c11(ctx: &mut Ctx) {
    let n = ctx.scale(4 * 4 * 9 * 16 * 20, 4 * 4 * 9 * 16 * 400);
    both!(ctx, 11, "matrix", n, |r, i, st| matrix(r, i, false, st));
    let n = ctx.scale(100_000, 2_000_000);
    both!(ctx, 11, "refused-is-void", n, |r, i, st| refused_send_is_void(r, &prof([11, 8, 13, 15][(i % 4) as usize]), st));
    let n = ctx.scale(120_000, 1_500_000);
    monitored(ctx, 11, n);
}
fn c16(ctx: &mut Ctx) {
    let n = ctx.scale(120_000, 2_500_000);
    both!(ctx, 16, "crash-restore", n, |r, i, st| restored_continues(r, &prof(16), true, st));
    both!(ctx, 16, "crash-restore-inbound", n / 3, |r, i, st| restored_continues(r, &prof(7), true, st));
    let n = ctx.scale(20_000, 300_000);
    both!(ctx, 16, "pair-crash", n, |r, i, st| pair_crash(r, st));
    let n = ctx.scale(50_000, 500_000);
    monitored(ctx, 16, n);
    crowds(ctx, 16, &[2, 3]);
}
fn c17(ctx: &mut Ctx) {
    let n = ctx.scale(4 * 4 * 9 * 16 * 20, 4 * 4 * 9 * 16 * 400);
    both!(ctx, 17, "matrix", n, |r, i, st| matrix(r, i, true, st));
    let n = ctx.scale(100_000, 2_000_000);
    both!(ctx, 17, "adoption", n, |r, i, st| undetermined_adopts(r, &prof(17), st));
    let n = ctx.scale(120_000, 1_500_000);
    monitored(ctx, 17, n);
}

fn c14(ctx: &mut Ctx) {
    let n = ctx.scale(30_000, 400_000);
    both!(ctx, 14, "boundary", n, |r, i, st| boundary(r, i, st));
    let n = ctx.scale(300_000, 4_000_000);
    monitored(ctx, 14, n);
}

macro_rules! focus {
    ($f:ident, $id:expr, $k:expr) => {
        fn $f(ctx: &mut Ctx) {
            let n = ctx.scale(300_000, 4_000_000);
            monitored(ctx, $id, n);
            let k: &'static [u64] = &$k;
            if !k.is_empty() {
                crowds(ctx, $id, k);
            }
        }
    };
}
focus!(c12, 12, [3, 5, 2]);
focus!(c13, 13, [0, 1]);
focus!(c15, 15, []);
focus!(c19, 19, [5, 0]);

pub fn checks() -> Vec<Check> {
    let rule = "a history counts by its sequence of event kinds per operation";
    macro_rules! k {
        ($id:expr, $f:ident) => {
            Check { id: $id, rule, run: $f }
        };
    }
    vec![
        k!("C01", c01),
        k!("C05", c05),
        k!("C06", c06),
        k!("C07", c07),
        k!("C08", c08),
        k!("C09", c09),
        k!("C10", c10),
        k!("C11", c11),
        k!("C12", c12),
        k!("C13", c13),
        k!("C14", c14),
        k!("C15", c15),
        k!("C16", c16),
        k!("C17", c17),
        k!("C19", c19),
    ]
}
