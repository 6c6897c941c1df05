#![recursion_limit = "512"]
pub mod analyze;
pub mod db;
pub mod env;
pub mod pgconc;
pub mod pgconf;
pub mod pgstream;
pub mod pgsystem;
pub mod pgtyped;
pub mod sql;
pub mod val;
pub mod wire;

use mon::conf::{BASE, Profile};
use mon::report::{Ctx, Obs, Tier};
use std::time::{Duration, Instant};

const CAP: Duration = Duration::from_secs(600);

pub fn check(prop: &'static str, verif: &std::path::Path) -> i32 {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if let Err(e) = mon::vclock::self_check() {
        eprintln!("harness error: {e}");
        return 3;
    }
    let mut ctx = Ctx { prop, tier, seed, start: Instant::now(), obs: Obs::default(), rules: vec![] };
    let min = checks(&mut ctx);
    mon::report::finish(ctx, verif, min)
}

const CONF_RULE: &str = "Sequential conformance: seeded random sequences of operations of the real Postgres backend (real sqlx client, one or two \
instances) against the emulated server under virtual time, every result and the complete stored table compared with a reference model after each \
step, some statements failing or losing their connection before or after execution; a case is distinct by its sequence of operation kinds and effects.";

fn conf_cases(ctx: &mut Ctx, p: Profile, fault_pct: u64, quick: u64, thorough: u64) {
    ctx.rule(CONF_RULE);
    let n = ctx.n(quick, thorough);
    ctx.par_cases(p.name, n, CAP, |seed, obs| pgconf::case(p, fault_pct, seed, obs));
}

fn typed_cases(ctx: &mut Ctx, quick: u64, thorough: u64) {
    ctx.rule("Typed API: executors with many data and metadata types, the job builder with its calls in any order, typed queries, updates, cancellations and \
reruns on the Postgres backend, compared with the reference model; finally the due jobs are executed. Distinct by operations and effects.");
    let n = ctx.n(quick, thorough);
    ctx.par_cases("pg_typed", n, CAP, pgtyped::case);
}

fn checks(ctx: &mut Ctx) -> u64 {
    let base = Profile { name: "pg_mixed", ..BASE };
    let bulk = Profile { steps: (300, 700), enqueue: 120, prune: 1, ..BASE };
    match ctx.prop {
        "C23" => {
            conf_cases(ctx, Profile { name: "pg_queries", query: 120, ..BASE }, 4, 10_000, 100_000);
            conf_cases(ctx, Profile { name: "pg_queries_bulk", query: 60, ..bulk }, 1, 60, 2_000);
            typed_cases(ctx, 1_500, 30_000);
            500
        }
        "C24" => {
            conf_cases(ctx, Profile { name: "pg_unique", unique_pct: 85, enqueue: 60, query: 2, ..BASE }, 8, 6_000, 100_000);
            ctx.rule("Races: two to five unique enqueues with the same criteria at once, from one to three instances, the server pausing statements and \
delaying messages at random, some connections failing; results and table must be those of some order of the operations. Distinct by results, order and waits.");
            let n = ctx.n(10_000, 200_000);
            ctx.par_cases("pg_racing", n, CAP, |s, o| pgconc::case(false, 40, s, o));
            ctx.rule("Meddling: one or two unique enqueues at once with completions, cancellations, retries, reruns and updates of the jobs they match, judged the same way.");
            let n = ctx.n(5_000, 100_000);
            ctx.par_cases("pg_meddling", n, CAP, |s, o| pgconc::case(true, 40, s, o));
            typed_cases(ctx, 1_500, 30_000);
            500
        }
        "C25" => {
            conf_cases(ctx, Profile { name: "pg_prunes", prune: 12, finish: 45, claim: 45, enqueue: 60, ..BASE }, 3, 8_000, 100_000);
            conf_cases(ctx, Profile { name: "pg_prunes_bulk", prune: 6, finish: 70, claim: 70, ..bulk }, 1, 60, 2_000);
            500
        }
        "C26" => {
            conf_cases(ctx, base, 10, 5_000, 80_000);
            conf_cases(ctx, Profile { name: "pg_outcomes", finish: 60, claim: 50, rerun: 12, unique_pct: 10, prune: 1, query: 4, unknown_pct: 10, ..BASE }, 10, 5_000, 80_000);
            conf_cases(ctx, Profile { name: "pg_history", steps: (200, 1500), history: true, ..BASE }, 1, 80, 2_000);
            typed_cases(ctx, 1_500, 30_000);
            500
        }
        "C27" => {
            ctx.rule("Streams: one to three instances with streams of one to three executors on one server under virtual time, jobs enqueued, finished, retried, \
snoozed, updated, rerun and cancelled meanwhile, statements paused, failing or slow, connections closed, the server away for a while; every committed change \
of the table and every item of a stream is checked in order. Distinct by the sequence of deliveries, non-trivial from three.");
            let mix = pgstream::Knobs { name: "pg_streams", fault_pct: 40, pause_pct: 50, outage_pct: 4, same_time_pct: 25, busy_pct: 25, steps: (8, 40) };
            let n = ctx.n(1_500, 30_000);
            ctx.par_cases(mix.name, n, CAP, |s, o| pgstream::case(mix, s, o));
            let ties = pgstream::Knobs { name: "pg_ties", fault_pct: 10, pause_pct: 0, outage_pct: 0, same_time_pct: 80, ..mix };
            let n = ctx.n(1_000, 20_000);
            ctx.par_cases(ties.name, n, CAP, |s, o| pgstream::case(ties, s, o));
            let busy = pgstream::Knobs { name: "pg_busy", fault_pct: 15, pause_pct: 30, busy_pct: 60, ..mix };
            let n = ctx.n(1_500, 20_000);
            ctx.par_cases(busy.name, n, CAP, |s, o| pgstream::case(busy, s, o));
            300
        }
        "C29" => {
            ctx.rule("Systems: one to three Rexecutor instances with scripted executors on one server under virtual time, jobs enqueued, rerun, updated and \
cancelled meanwhile, instances started and shut down at rest or in the middle of something, statements paused and messages delayed; every committed change \
of the table and every execution is checked against the other. Distinct by the sequence of executions and outcomes, non-trivial from four.");
            let steady = pgsystem::Knobs { name: "pg_steady", pause_pct: 30, stop_pct: 0, same_time_pct: 30, steps: (5, 30), burst: 40 };
            let n = ctx.n(1_000, 20_000);
            ctx.par_cases(steady.name, n, CAP, |s, o| pgsystem::case(steady, s, o));
            let mix = pgsystem::Knobs { name: "pg_system", pause_pct: 40, stop_pct: 12, same_time_pct: 20, steps: (5, 30), burst: 20 };
            let n = ctx.n(1_500, 30_000);
            ctx.par_cases(mix.name, n, CAP, |s, o| pgsystem::case(mix, s, o));
            let stops = pgsystem::Knobs { name: "pg_shutdowns", stop_pct: 70, burst: 12, ..mix };
            let n = ctx.n(1_500, 30_000);
            ctx.par_cases(stops.name, n, CAP, |s, o| pgsystem::case(stops, s, o));
            typed_cases(ctx, 1_000, 20_000);
            300
        }
        p => panic!("no check for {p}"),
    }
}
