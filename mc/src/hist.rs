//! Exhaustive enumeration of call histories and of sink answer sequences.
use crate::exec::*;
use crate::explore::*;
use crate::frame::Kind;
use crate::inputs::*;
use deflate::CompressionOptions;
use std::sync::Arc;

#[derive(Clone)]
pub struct Space {
    pub kinds: Vec<Kind>,
    pub payloads: Arc<Vec<Vec<u8>>>,
    pub opts: Vec<CompressionOptions>,
    pub modes: Vec<u8>,
    pub alphabet: Vec<Op>,
    /// Every history has this many operations from the alphabet at most (and at least min).
    pub depth: u32,
    pub min: u32,
    pub ends: Vec<Op>,
    pub policies: Vec<Policy>,
    pub builders: Vec<u8>,
}

pub struct Item<'a> {
    pub h: Hist<'a>,
    pub mode: u8,
}

impl<'a> Item<'a> {
    pub fn show(&self, s: &Script) -> String {
        format!(
            "{:?} ops={:?} sink={} policy={:?} gz-builder={} {} mode={} payload={}",
            self.h.kind, self.h.ops, s.show(), self.h.policy, self.h.gz, show_opts(&self.h.opts), self.mode, hex(self.h.payload)
        )
    }
}

impl Space {
    fn seqs(&self) -> u64 {
        let k = self.alphabet.len() as u64;
        (self.min..=self.depth).map(|d| k.pow(d)).sum()
    }
    pub fn n(&self) -> u64 {
        self.seqs() * (self.ends.len() * self.kinds.len() * self.payloads.len() * self.opts.len() * self.modes.len() * self.policies.len() * self.builders.len()) as u64
    }
    pub fn what(&self) -> String {
        format!(
            "all {} sequences of {}..={} calls from {:?} x ends {:?} x {:?} x {} payloads x {} option sets x {} block type modes x policies {:?} x {} gzip builders",
            self.seqs(), self.min, self.depth, self.alphabet, self.ends, self.kinds, self.payloads.len(), self.opts.len(), self.modes.len(), self.policies, self.builders.len()
        )
    }
    pub fn family(self, name: &str, extra: &str, f: impl Fn(&Item, &mut Ctx) + Send + Sync + 'static) -> Family {
        let what = format!("{}; {}", self.what(), extra);
        let n = self.n();
        let mut fam = Family::new(name, &what, n, move |idx, ctx| {
            let mut i = idx;
            let mut take = |k: usize| -> usize {
                let r = (i % k as u64) as usize;
                i /= k as u64;
                r
            };
            let end = self.ends[take(self.ends.len())];
            let kind = self.kinds[take(self.kinds.len())];
            let opts = self.opts[take(self.opts.len())];
            let mode = self.modes[take(self.modes.len())];
            let policy = self.policies[take(self.policies.len())];
            let gz = self.builders[take(self.builders.len())];
            let pl = take(self.payloads.len());
            let k = self.alphabet.len() as u64;
            let mut d = self.min;
            while i >= k.pow(d) {
                i -= k.pow(d);
                d += 1;
            }
            let mut ops = vec![];
            for _ in 0..d {
                ops.push(self.alphabet[(i % k) as usize]);
                i /= k;
            }
            ops.push(end);
            set_block_mode(mode);
            let it = Item { h: Hist { kind, opts, payload: &self.payloads[pl], ops: &ops, policy, gz, check: true }, mode };
            f(&it, ctx);
        });
        fam.chunk = (n / 2048).clamp(1, 64);
        fam
    }
}

/// Run, count and report the violations of the given clauses.
pub fn exec(it: &Item, s: &Script, clauses: &[&str], ctx: &mut Ctx, keep_log: bool) -> Run {
    let r = run(&it.h, s, keep_log);
    account(it, s, &r, clauses, ctx);
    r
}
pub fn account(it: &Item, s: &Script, r: &Run, clauses: &[&str], ctx: &mut Ctx) {
    ctx.traces += 1;
    ctx.transitions += (r.api_calls + r.sink_calls) as u64;
    for h in &r.state_hashes {
        ctx.state(*h);
    }
    ctx.outcome(r.outcome());
    for v in &r.viols {
        if clauses.contains(&v.clause) {
            ctx.fail(v.clause, format!("{} | {}", v.msg, it.show(s)));
        } else {
            ctx.count("executions with findings that belong to another property", 1);
        }
    }
}

/// All scripts with at most k deviations from `base` in the first `horizon` sink calls: every placement, every answer.
pub fn explore(it: &Item, base: &Script, alts: &[Ans], k: u32, horizon: usize, ctx: &mut Ctx, f: &mut dyn FnMut(&Script, &Run, &mut Ctx)) {
    fn rec(it: &Item, s: &Script, from: usize, alts: &[Ans], k: u32, horizon: usize, ctx: &mut Ctx, f: &mut dyn FnMut(&Script, &Run, &mut Ctx)) {
        let r = run(&it.h, s, true);
        f(s, &r, ctx);
        if k == 0 || ctx.viols.len() >= 4 {
            return;
        }
        for i in from..r.log.len().min(horizon) {
            let (off, used) = r.log[i];
            let mut seen: Vec<usize> = vec![effect(used, off as usize)];
            for &a in alts {
                let e = effect(a, off as usize);
                if seen.contains(&e) {
                    continue;
                }
                seen.push(e);
                let mut pre: Vec<Ans> = r.log[..i].iter().map(|x| x.1).collect();
                pre.push(a);
                let s2 = Script { pre, then: s.then.clone(), cap: s.cap, empties: s.empties };
                rec(it, &s2, i + 1, alts, k - 1, horizon, ctx, f);
                if ctx.viols.len() >= 4 {
                    return;
                }
            }
        }
    }
    fn effect(a: Ans, off: usize) -> usize {
        match a {
            _ if off == 0 && matches!(a, Ans::One | Ans::Half | Ans::AllBut1 | Ans::Zero) => 0,
            Ans::All => off,
            Ans::One => 1,
            Ans::Half => (off / 2).max(1),
            Ans::AllBut1 => off.saturating_sub(1).max(1),
            Ans::Zero => 0,
            Ans::Intr => usize::MAX,
            Ans::Block => usize::MAX - 1,
            Ans::Other => usize::MAX - 2,
            Ans::Panic => usize::MAX - 3,
            Ans::K(i) => usize::MAX - 4 - i as usize,
            Ans::Os(n) => usize::MAX - 1000 - n as usize,
        }
    }
    rec(it, base, 0, alts, k, horizon, ctx, f);
}
pub fn strs_of(v: &[usize]) -> Vec<Vec<u8>> {
    let p = small_payloads();
    v.iter().map(|&i| p[i].clone()).collect()
}
