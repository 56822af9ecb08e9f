//! Honest networks: C01, C02.
use std::sync::Arc;

use crate::{adv::{check_fins, run_adv_chained, ADV_CHAIN}, chain::*, net::*, proto::*, runner::*, util::Gen, with_format, with_both};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "a case is a generated protocol (shapes, topology, branches, party ids), a wire format and a schedule \
                   of single session calls; it is non-trivial if at least two parties exchange messages over at least \
                   two rounds and some message arrives early or overtakes another",
            assumptions: &[
                "reliable delivery: each message is delivered exactly once, at most one round early; messages of other \
                 branches are delivered before the recipient leaves the rounds from which they can be accepted",
            ],
            kinds: &["C01", "panic", "hang"],
            facets: vec![
                facet("mixed", 12000, |g, c| run_c01(g, c, KNOBS)),
                facet("echo", 6000, |g, c| {
                    run_c01(g, c, Knobs { nmin: 2, nmax: 5, stages: 3, echo: 7, full: 4, ..KNOBS })
                }),
                facet("branches", 5000, |g, c| {
                    run_c01(g, c, Knobs { nmin: 2, nmax: 5, stages: 5, echo: 3, full: 5, branch: 6, ..KNOBS })
                }),
                facet("long", 1500, |g, c| {
                    run_c01(g, c, Knobs { nmin: 2, nmax: 8, stages: 7, echo: 4, full: 6, ..KNOBS })
                }),
                facet("chained", 3000, |g, c| run_chained(g, c, CHAIN)),
                facet("message-types", 30000, crate::zoo::run),
            ],
        },
        Check {
            id: "C12",
            rule: "a case is a chain of two, three (nested to the left or to the right), four or six generated protocols, \
                   a wire format, inputs and a schedule of single session calls, honest or with attacks which include \
                   replays across the parts; it is non-trivial if at least one message arrived early or an attack \
                   reached a running session",
            assumptions: &[
                "reliable delivery between honest parties; a message of the next part is delivered in the last round \
                 of the previous part or later",
            ],
            kinds: &["C12", "C01", "C02", "C03:local-error", "C04", "C08", "panic", "hang"],
            facets: vec![
                facet("honest", 8000, |g, c| run_chained(g, c, CHAIN)),
                facet("short", 5000, |g, c| run_chained(g, c, Knobs { nmin: 2, nmax: 4, stages: 1, full: 6, ..KNOBS })),
                facet("echo", 4000, |g, c| {
                    run_chained(g, c, Knobs { nmin: 2, nmax: 4, stages: 2, echo: 7, full: 6, siblings: false, ..KNOBS })
                }),
                facet("deep", 1500, run_deep),
                facet("attacks", 6000, |g, c| run_adv_chained(g, c, ADV_CHAIN)),
            ],
        },
    ]
}

pub fn c02_facets() -> Vec<Facet> {
    vec![
        facet("honest", 5000, |g, c| run_c01(g, c, KNOBS)),
        facet("honest-branches", 4000, |g, c| run_c01(g, c, Knobs { nmin: 2, nmax: 5, stages: 5, full: 5, branch: 6, ..KNOBS })),
        facet("honest-chained", 2000, |g, c| run_chained(g, c, CHAIN)),
        facet("message-types", 30000, crate::zoo::run),
    ]
}

/// Honest networks in which all sorts of messages have to be accepted: C05 and C08.
pub fn accepted_facets() -> Vec<Facet> {
    vec![
        facet("honest-branches", 6000, |g, c| {
            run_c01(g, c, Knobs { nmin: 2, nmax: 5, stages: 4, echo: 5, full: 4, branch: 6, ..KNOBS })
        }),
        facet("honest-echo", 3000, |g, c| run_c01(g, c, Knobs { nmin: 2, nmax: 5, stages: 3, echo: 7, full: 4, ..KNOBS })),
        facet("honest-chained", 2000, |g, c| run_chained(g, c, CHAIN)),
    ]
}

fn run_c01(g: &mut Gen, ctx: &mut Ctx, k: Knobs) -> Result<(), Fail> {
    let cfg = Arc::new(gen_cfg(g, k));
    let fmt = g.below(4);
    with_format!(fmt, F => honest_net::<T1, F>(g, ctx, vec![cfg], fmt))
}

/// `tree`: 1..=4 for chains of two, three (both nestings) and four protocols
pub fn run_chained(g: &mut Gen, ctx: &mut Ctx, k: Knobs) -> Result<(), Fail> {
    let tree = [1, 1, 2, 3, 4][g.below(5)];
    let fmt = g.below(4);
    {
        let cfgs = gen_cfgs(g, leaves(tree), k);
        with_both!(tree, fmt, T, F => honest_net::<T, F>(g, ctx, cfgs, fmt))
    }
}
/// Six protocols
fn run_deep(g: &mut Gen, ctx: &mut Ctx) -> Result<(), Fail> {
    let cfgs = gen_cfgs(g, 6, Knobs { nmin: 1, nmax: 3, stages: 1, ..KNOBS });
    if g.chance(1, 2) {
        honest_net::<T6L, crate::params::Bin>(g, ctx, cfgs, 0)
    } else {
        honest_net::<T6R, crate::params::Json>(g, ctx, cfgs, 1)
    }
}
pub const CHAIN: Knobs = Knobs { nmin: 1, nmax: 5, stages: 3, ..KNOBS };

fn honest_net<T: Tree, F: manul::session::WireFormat>(
    g: &mut Gen,
    ctx: &mut Ctx,
    cfgs: Vec<Arc<Cfg>>,
    fmt: usize,
) -> Result<(), Fail> {
    set_entry_nums(&cfgs);
    let plan = Plan::new(cfgs.clone());
    let log = Log::default();
    let style = gen_style(g, plan.n());
    let seed = g.u64();
    let inputs: Vec<u64> = (0..plan.n()).map(|_| g.below(1000) as u64).collect();
    let mut net = Net::<T::Protocol, F>::new(plan, log.clone(), &seed.to_be_bytes(), seed, style, |i| {
        T::build(&cfgs, &log, &[]).with_input(inputs[i])
    })?;
    net.inputs = inputs;
    net.trace = Some(vec![]);
    let end = net.run(g, true);
    if end.as_ref().is_err_and(|e| !ctx.counts(e)) {
        // whatever went wrong, every message must have been handed to the right round
        check_fins(&net)?;
    }
    end?;
    if ctx.kinds[0] != "C02" {
        net.check_results()?;
    }
    check_fins(&net)?;
    check_entries(&net)?;
    let s = &net.stats;
    ctx.add("early", s.early);
    ctx.add("late (other branch)", s.late);
    ctx.add("echo rounds", s.echo_rounds);
    ctx.add("rounds", s.rounds);
    ctx.add("delivered", s.delivered);
    ctx.add("into the next part", s.next_part);
    if s.early > 0 && s.delivered > 2 {
        ctx.nontrivial();
    }
    ctx.note(|| format!("format {fmt}, {}, {} steps, {} early", net.plan.describe(), net.steps, net.stats.early));
    Ok(())
}
