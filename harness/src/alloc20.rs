//! C20: the value allocator against a plain set of free integers.
use crate::prng::Rng;
use crate::report::*;
use crate::Check;
use mqtt_protocol_core::mqtt::ValueAllocator;
use std::collections::BTreeSet;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C20",
        rule: "random operation sequences over random ranges and integer types, judged after every operation against a plain set; non-trivial = distinct (range, free set) reached, for ranges of up to 64 values plus the run boundaries of wide ranges",
        run: c20,
    }]
}

trait Int: num_like::N {}
impl<T: num_like::N> Int for T {}

mod num_like {
    pub trait N:
        Copy + Ord + std::fmt::Debug + TryFrom<i128> + Into<i128> + std::hash::Hash
    {
        const LO: i128;
        const HI: i128;
        fn of(x: i128) -> Self {
            match Self::try_from(x) {
                Ok(v) => v,
                Err(_) => panic!("harness: out of type range"),
            }
        }
    }
    macro_rules! n {
        ($($t:ty),*) => {$(impl N for $t { const LO: i128 = <$t>::MIN as i128; const HI: i128 = <$t>::MAX as i128; })*};
    }
    n!(u8, u16, u32, u64, i8, i16, i32);
}

/// The model: free values as a set of maximal runs, kept in the simplest way.
#[derive(Clone)]
enum Free {
    Set(BTreeSet<i128>),
    /// for wide ranges: everything free except these
    Except(BTreeSet<i128>),
}

struct Model {
    lo: i128,
    hi: i128,
    free: Free,
}

impl Model {
    fn new(lo: i128, hi: i128) -> Model {
        let free = if hi - lo < 4096 { Free::Set((lo..=hi).collect()) } else { Free::Except(BTreeSet::new()) };
        Model { lo, hi, free }
    }
    fn in_range(&self, v: i128) -> bool {
        self.lo <= v && v <= self.hi
    }
    fn is_free(&self, v: i128) -> bool {
        self.in_range(v)
            && match &self.free {
                Free::Set(s) => s.contains(&v),
                Free::Except(u) => !u.contains(&v),
            }
    }
    fn take(&mut self, v: i128) {
        match &mut self.free {
            Free::Set(s) => {
                s.remove(&v);
            }
            Free::Except(u) => {
                u.insert(v);
            }
        }
    }
    fn give(&mut self, v: i128) {
        match &mut self.free {
            Free::Set(s) => {
                s.insert(v);
            }
            Free::Except(u) => {
                u.remove(&v);
            }
        }
    }
    fn first(&self) -> Option<i128> {
        match &self.free {
            Free::Set(s) => s.iter().next().copied(),
            Free::Except(u) => {
                let mut x = self.lo;
                for v in u {
                    if *v == x {
                        x += 1;
                    } else {
                        break;
                    }
                }
                if x <= self.hi {
                    Some(x)
                } else {
                    None
                }
            }
        }
    }
    /// number of maximal runs of free values
    fn runs(&self) -> usize {
        match &self.free {
            Free::Set(s) => s.iter().filter(|v| !s.contains(&(**v - 1))).count(),
            Free::Except(u) => {
                let mut n = 0;
                let mut x = self.lo;
                for v in u {
                    if *v > x {
                        n += 1;
                    }
                    x = *v + 1;
                }
                if x <= self.hi {
                    n += 1;
                }
                n
            }
        }
    }
    fn used_some(&self, r: &mut Rng) -> Option<i128> {
        match &self.free {
            Free::Set(s) => {
                let n = (self.hi - self.lo + 1) as usize;
                let k = r.us(n) as i128;
                (0..n as i128).map(|d| self.lo + (k + d) % n as i128).find(|v| !s.contains(v))
            }
            Free::Except(u) => {
                if u.is_empty() {
                    None
                } else {
                    u.iter().nth(r.us(u.len())).copied()
                }
            }
        }
    }
    fn state(&self) -> Vec<i128> {
        match &self.free {
            Free::Set(s) => s.iter().copied().collect(),
            Free::Except(u) => u.iter().copied().collect(),
        }
    }
}

/// Very many intervals: every k-th value is taken from a wide range, then the range is mixed up.
fn fragmented<T>(r: &mut Rng, st: &mut Stats, tname: &str) -> Result<(), Viol>
where
    T: Int + num_traits_shim::Num,
{
    let lo = *r.pick(&[T::LO, 0.max(T::LO), 1, T::HI - 40_000]);
    let hi = T::HI.min(lo + *r.pick(&[40_000i128, i128::MAX / 2]));
    let fail = |what: String| Viol { what, trace: vec![format!("ValueAllocator::<{tname}>::new({lo}, {hi}), fragmented")], class: "alloc".into() };
    let mut a = lib(|| ValueAllocator::<T>::new(T::of(lo), T::of(hi))).map_err(|e| fail(e))?;
    let mut used: BTreeSet<i128> = BTreeSet::new();
    let step = 2 + r.below(6) as i128;
    let n = 200 + r.below(1500) as i128;
    let off = if r.bool() { 0 } else { (hi - lo - n * step).max(0).min(1 << 40) };
    let mut order: Vec<i128> = (0..n).map(|k| lo + off + k * step).filter(|v| *v <= hi).collect();
    if r.bool() {
        for i in (1..order.len()).rev() {
            order.swap(i, r.us(i + 1));
        }
    }
    for v in order {
        if !lib(|| a.use_value(T::of(v))).map_err(|e| fail(e))? {
            return Err(fail(format!("use_value({v}) refused, it is free")));
        }
        used.insert(v);
    }
    for k in 0..2000 + r.below(2000) {
        match r.below(5) {
            0 => {
                let mut want = lo;
                while used.contains(&want) {
                    want += 1;
                }
                let got: Option<i128> = lib(|| a.allocate()).map_err(|e| fail(e))?.map(|x| x.into());
                if got != (if want <= hi { Some(want) } else { None }) {
                    return Err(fail(format!("operation {k}: allocate -> {got:?}, smallest free {want}")));
                }
                if want <= hi {
                    used.insert(want);
                }
            }
            1 | 2 => {
                let v = match r.below(3) {
                    0 => lo + (r.next() as u128 % (hi - lo + 1) as u128) as i128,
                    _ => (lo + off + r.below((n * step) as u64 + 3) as i128 - 1).clamp(lo, hi),
                };
                let want = used.insert(v);
                let got = lib(|| a.use_value(T::of(v))).map_err(|e| fail(e))?;
                if got != want {
                    return Err(fail(format!("operation {k}: use_value({v}) -> {got}, expected {want}")));
                }
            }
            3 if r.bool() => {
                // a whole stretch becomes free
                let from = (lo + off + r.below((n * step) as u64) as i128).clamp(lo, hi);
                for v in from..=(from + r.below(20) as i128).min(hi) {
                    lib(|| a.deallocate(T::of(v))).map_err(|e| fail(e))?;
                    used.remove(&v);
                }
            }
            _ => {
                let v = match used.range(lo + off + r.below((n * step) as u64) as i128..).next() {
                    Some(v) => *v,
                    None => continue,
                };
                lib(|| a.deallocate(T::of(v))).map_err(|e| fail(e))?;
                used.remove(&v);
            }
        }
        if k % 16 == 0 {
            let mut runs = 0;
            let mut x = lo;
            for v in &used {
                runs += (*v > x) as usize;
                x = *v + 1;
            }
            runs += (x <= hi) as usize;
            let got = lib(|| a.interval_count()).map_err(|e| fail(e))?;
            if got != runs {
                return Err(fail(format!("operation {k}: {got} intervals for a free set of {runs} runs")));
            }
            st.hit(if runs >= 1000 { "representation-checks, 1000 runs and more" } else { "representation-checks, fragmented" });
            let v = lo + off + r.below((n * step) as u64) as i128;
            let got = lib(|| a.is_used(T::of(v.clamp(lo, hi)))).map_err(|e| fail(e))?;
            if got != used.contains(&v.clamp(lo, hi)) {
                return Err(fail(format!("operation {k}: is_used({v}) -> {got}")));
            }
        }
    }
    for v in &used {
        if !lib(|| a.is_used(T::of(*v))).map_err(|e| fail(e))? {
            return Err(fail(format!("is_used({v}) is false at the end")));
        }
    }
    st.nontrivial(&(tname, lo, hi, used.len(), used.iter().next_back().copied()));
    Ok(())
}

fn run<T>(r: &mut Rng, st: &mut Stats, tname: &str) -> Result<(), Viol>
where
    T: Int + num_traits_shim::Num,
{
    // range
    let (lo, hi) = match r.below(6) {
        0 => (T::LO, T::HI),
        1 => {
            let n = r.below(12) as i128;
            (T::HI - n, T::HI)
        }
        2 => {
            let n = r.below(12) as i128;
            (T::LO, (T::LO + n).min(T::HI))
        }
        3 => (1.max(T::LO), T::HI),
        4 => {
            let a = r.range(0, 100) as i128;
            let b = a + r.below(64) as i128;
            (a.min(T::HI), b.min(T::HI))
        }
        _ => {
            let span = (T::HI - T::LO) as u128;
            let a = T::LO + (r.next() as u128 % (span + 1)) as i128;
            let b = (a + r.below(200) as i128).min(T::HI);
            (a, b)
        }
    };
    let mut trace: Vec<String> = vec![format!("ValueAllocator::<{tname}>::new({lo}, {hi})")];
    let fail = |what: String, trace: &[String]| Viol {
        what,
        trace: trace.to_vec(),
        class: "alloc".into(),
    };
    let mut m = Model::new(lo, hi);
    let mut a = lib(|| ValueAllocator::<T>::new(T::of(lo), T::of(hi))).map_err(|e| fail(e, &trace))?;
    let wide = hi - lo >= 4096;
    let ops = 20 + r.below(if wide { 200 } else { 150 });
    let bias = r.below(3);
    for _ in 0..ops {
        // pick a value near an interesting place
        let near = |r: &mut Rng, m: &Model| -> i128 {
            let base = match r.below(6) {
                0 => m.lo,
                1 => m.hi,
                2 => m.first().unwrap_or(m.lo),
                3 => m.used_some(r).unwrap_or(m.lo),
                _ => {
                    let span = (m.hi - m.lo + 1) as u128;
                    m.lo + (r.next() as u128 % span.min(if r.bool() { 40 } else { u128::MAX })) as i128
                }
            };
            let v = base + r.below(5) as i128 - 2;
            v.clamp(T::LO, T::HI)
        };
        let op = match bias {
            0 => r.weighted(&[30, 20, 40, 10, 1, 5]),
            1 => r.weighted(&[50, 20, 15, 10, 1, 5]),
            _ => r.weighted(&[15, 40, 30, 10, 0, 5]),
        };
        match op {
            0 => {
                let want = m.first();
                let got = lib(|| a.allocate()).map_err(|e| fail(format!("allocate panicked: {e}"), &trace))?;
                trace.push(format!("allocate() -> {got:?}"));
                if got.map(|x| x.into()) != want {
                    return Err(fail(format!("allocate returned {got:?}, the smallest free value is {want:?}"), &trace));
                }
                if let Some(v) = want {
                    m.take(v);
                    st.hit("allocate.some");
                } else {
                    st.hit("allocate.none");
                }
            }
            1 => {
                let v = near(r, &m);
                let want = m.is_free(v);
                let got = lib(|| a.use_value(T::of(v))).map_err(|e| fail(format!("use_value({v}) panicked: {e}"), &trace))?;
                trace.push(format!("use_value({v}) -> {got}"));
                if got != want {
                    return Err(fail(format!("use_value({v}) returned {got}, expected {want}"), &trace));
                }
                if want {
                    m.take(v);
                    st.hit("use.ok");
                } else {
                    st.hit("use.refused");
                }
            }
            2 => {
                let v = if r.p(1, 6) { near(r, &m) } else { m.used_some(r).unwrap_or(m.lo) };
                if !m.in_range(v) {
                    // Contrary to the documented precondition, so it may panic, but neither way may it
                    // make a value available that can never be handed out.
                    let x = lib(|| a.deallocate(T::of(v)));
                    trace.push(format!("deallocate({v}), out of range -> {}", if x.is_ok() { "returned" } else { "panicked" }));
                    st.hit("release.out-of-range");
                    let n = lib(|| a.interval_count()).map_err(|e| fail(e, &trace))?;
                    let f = lib(|| a.first_vacant()).map_err(|e| fail(e, &trace))?;
                    if n != m.runs() || f.map(|x| x.into()) != m.first() {
                        return Err(fail(format!("releasing {v}, outside the range, changed the free set: {n} intervals, first {f:?}"), &trace));
                    }
                    continue;
                }
                st.hit(if m.is_free(v) { "release.free" } else { "release.used" });
                lib(|| a.deallocate(T::of(v))).map_err(|e| fail(format!("deallocate({v}) panicked: {e}"), &trace))?;
                trace.push(format!("deallocate({v})"));
                m.give(v);
            }
            3 => {
                let v = near(r, &m);
                let want = m.in_range(v) && !m.is_free(v);
                let got = lib(|| a.is_used(T::of(v))).map_err(|e| fail(format!("is_used({v}) panicked: {e}"), &trace))?;
                if got != want {
                    trace.push(format!("is_used({v}) -> {got}"));
                    return Err(fail(format!("is_used({v}) returned {got}, expected {want}"), &trace));
                }
                st.hit(if m.in_range(v) { "query" } else { "query.out-of-range" });
            }
            4 => {
                lib(|| a.clear()).map_err(|e| fail(format!("clear panicked: {e}"), &trace))?;
                trace.push("clear()".into());
                m = Model::new(lo, hi);
                st.hit("clear");
            }
            _ => {
                let want = m.first();
                let got = lib(|| a.first_vacant()).map_err(|e| fail(format!("first_vacant panicked: {e}"), &trace))?;
                if got.map(|x| x.into()) != want {
                    return Err(fail(format!("first_vacant returned {got:?}, expected {want:?}"), &trace));
                }
                st.hit("first_vacant");
            }
        }
        // representation: as many runs as the set has, so sorted, disjoint and merged
        let n = lib(|| a.interval_count()).map_err(|e| fail(e, &trace))?;
        if n != m.runs() {
            return Err(fail(format!("{n} intervals for a free set of {} runs", m.runs()), &trace));
        }
        st.hit("representation-checks");
        // a full membership scan of narrow ranges from time to time
        if r.p(1, 12) {
            let probe: Vec<i128> = if wide {
                (0..20).map(|_| near(r, &m)).collect()
            } else {
                (lo.saturating_sub(3)..=hi + 3).filter(|v| *v >= T::LO && *v <= T::HI).collect()
            };
            for v in probe {
                let want = m.in_range(v) && !m.is_free(v);
                let got = lib(|| a.is_used(T::of(v))).map_err(|e| fail(format!("is_used({v}) panicked: {e}"), &trace))?;
                if got != want {
                    trace.push(format!("is_used({v}) -> {got}"));
                    return Err(fail(format!("is_used({v}) returned {got}, expected {want}"), &trace));
                }
            }
            st.hit("membership-scans");
        }
        if !wide && hi - lo < 64 {
            st.nontrivial(&(tname, lo, hi, m.state()));
        }
    }
    // drain a clone: ascending order of exactly the free values
    if !wide {
        let mut c = a.clone();
        let want: Vec<i128> = m.state();
        let got: Vec<i128> = lib(|| {
            let mut v = vec![];
            while let Some(x) = c.allocate() {
                v.push(x.into());
                if v.len() > 5000 {
                    break;
                }
            }
            v
        })
        .map_err(|e| fail(format!("allocate panicked while draining: {e}"), &trace))?;
        trace.push("drain".into());
        if got != want {
            return Err(fail(format!("draining returned {} values, {} are free, or order differs", got.len(), want.len()), &trace));
        }
        st.hit("drains");
    } else {
        st.nontrivial(&(tname, lo, hi, m.state()));
    }
    st.sample(4, || trace.iter().take(14).cloned().collect::<Vec<_>>().join("; "));
    Ok(())
}

pub mod num_traits_shim {
    //! `ValueAllocator<T>` asks for `num_traits::{PrimInt, One}`; name the bound once here.
    pub trait Num: num_traits::PrimInt + num_traits::One + std::fmt::Debug + Send + 'static {}
    impl<T: num_traits::PrimInt + num_traits::One + std::fmt::Debug + Send + 'static> Num for T {}
}

fn c20(ctx: &mut Ctx) {
    let n = ctx.scale(300_000, 4_000_000);
    ctx.cases("ops", n, |r, i, st| match i % 7 {
        0 => run::<u16>(r, st, "u16"),
        1 => run::<u32>(r, st, "u32"),
        2 => run::<u8>(r, st, "u8"),
        3 => run::<u16>(r, st, "u16"),
        4 => run::<u64>(r, st, "u64"),
        5 => run::<i8>(r, st, "i8"),
        _ => run::<i32>(r, st, "i32"),
    });
    ctx.cases("fragmented", n / 300, |r, i, st| match i % 3 {
        0 => fragmented::<u16>(r, st, "u16"),
        1 => fragmented::<u32>(r, st, "u32"),
        _ => fragmented::<u64>(r, st, "u64"),
    });
    // small ranges exhaustively: every sequence of operations up to a depth
    let depth = if ctx.thorough() { 8 } else { 6 };
    ctx.cases("exhaustive", 8 * 4, |_r, i, st| {
        let base: u8 = match i / 8 {
            0 => 0,
            1 => 1,
            2 => 253,
            _ => 100,
        };
        let (lo, hi) = (base as i128, (base as i128 + 2).min(255));
        exhaust(lo, hi, depth, (i % 8) as usize, st)
    });
}

/// all sequences of {allocate, use v, release v, clear} of length `depth` over [lo,hi]; the first
/// operation is fixed so that the space is split over the workers
fn exhaust(lo: i128, hi: i128, depth: usize, first: usize, st: &mut Stats) -> Result<(), Viol> {
    let nvals = (hi - lo + 1) as usize;
    let nops = 2 + 2 * nvals;
    if first >= nops {
        return Ok(());
    }
    fn step(a: &mut ValueAllocator<u8>, m: &mut Model, op: usize, lo: i128, hi: i128, nvals: usize) -> Result<String, String> {
        let desc;
        if op == 0 {
            let want = m.first();
            let got = lib(|| a.allocate())?.map(|x| x as i128);
            desc = format!("allocate() -> {got:?}");
            if got != want {
                return Err(format!("{desc}, expected {want:?}"));
            }
            if let Some(v) = want {
                m.take(v);
            }
        } else if op == 1 {
            lib(|| a.clear())?;
            *m = Model::new(lo, hi);
            desc = "clear()".into();
        } else if op < 2 + nvals {
            let v = lo + (op - 2) as i128;
            let want = m.is_free(v);
            let got = lib(|| a.use_value(v as u8))?;
            desc = format!("use_value({v}) -> {got}");
            if got != want {
                return Err(format!("{desc}, expected {want}"));
            }
            if want {
                m.take(v);
            }
        } else {
            let v = lo + (op - 2 - nvals) as i128;
            lib(|| a.deallocate(v as u8))?;
            desc = format!("deallocate({v})");
            m.give(v);
        }
        let n = lib(|| a.interval_count())?;
        if n != m.runs() {
            return Err(format!("after {desc}: {n} intervals for {} runs", m.runs()));
        }
        for v in (lo - 1).max(0)..=(hi + 1).min(255) {
            let want = m.in_range(v) && !m.is_free(v);
            let got = lib(|| a.is_used(v as u8))?;
            if got != want {
                return Err(format!("after {desc}: is_used({v}) = {got}, expected {want}"));
            }
        }
        Ok(desc)
    }
    fn rec(
        a: &ValueAllocator<u8>,
        m: &Model,
        left: usize,
        lo: i128,
        hi: i128,
        nvals: usize,
        ops: std::ops::Range<usize>,
        tr: &mut Vec<String>,
        st: &mut Stats,
    ) -> Result<(), Viol> {
        for op in ops {
            let mut a2 = a.clone();
            let mut m2 = Model { lo: m.lo, hi: m.hi, free: m.free.clone() };
            match step(&mut a2, &mut m2, op, lo, hi, nvals) {
                Ok(d) => tr.push(d),
                Err(e) => {
                    let mut t = tr.clone();
                    t.insert(0, format!("ValueAllocator::<u8>::new({lo}, {hi})"));
                    return Err(Viol { what: e, trace: t, class: "alloc".into() });
                }
            }
            st.hit("exhaustive-steps");
            if left > 1 {
                rec(&a2, &m2, left - 1, lo, hi, nvals, 0..2 + 2 * nvals, tr, st)?;
            }
            tr.pop();
        }
        Ok(())
    }
    let a = lib(|| ValueAllocator::<u8>::new(lo as u8, hi as u8)).map_err(|e| Viol::new("alloc", e))?;
    rec(&a, &Model::new(lo, hi), depth, lo, hi, nvals, first..first + 1, &mut vec![], st)
}
