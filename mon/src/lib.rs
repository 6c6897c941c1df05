#![recursion_limit = "512"]
pub mod assertmac;
pub mod backoff;
pub mod chaos;
pub mod conf;
pub mod exec;
pub mod generate;
pub mod global;
pub mod model;
pub mod rec;
pub mod report;
pub mod rng;
pub mod sim;
pub mod simmon;
pub mod stress;
pub mod ticks;
pub mod typed;
pub mod vclock;

use report::{Ctx, Obs, Tier};
use std::time::{Duration, Instant};

const CAP: Duration = Duration::from_secs(600);

/// Runs the check of one property; the exit code.
pub fn check(prop: &'static str, verif: &std::path::Path) -> i32 {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if let Err(e) = vclock::self_check() {
        eprintln!("harness error: {e}");
        return 3;
    }
    let mut ctx = Ctx { prop, tier, seed, start: Instant::now(), obs: Obs::default(), rules: vec![] };
    let min = checks(&mut ctx);
    report::finish(ctx, verif, min)
}

const CONF_RULE: &str = "Sequential conformance: seeded random sequences of backend operations (raw and through Arc, Box, \
reference and dyn handles) under virtual time, every result and the complete table compared with a reference model after each \
step; a case is distinct by its sequence of operation kinds and effects.";

fn conf_cases(ctx: &mut Ctx, p: conf::Profile, quick: u64, thorough: u64) {
    ctx.rule(CONF_RULE);
    let n = ctx.n(quick, thorough);
    ctx.par_cases(p.name, n, CAP, |seed, obs| conf::case(p, seed, obs));
}

const SIM_RULE: &str = "Simulation: seeded scenarios of one to three Rexecutor instances with scripted executors on one in-memory \
backend under virtual time; every event (claim, start, end, drop, recording, management operation, shutdown) is checked in order by a \
trace monitor and the complete table is compared with the reference model at quiescent points; a case is distinct by its sequence of \
starts, outcomes and operations, non-trivial from three of them.";

fn sim_cases(ctx: &mut Ctx, k: sim::Knobs, quick: u64, thorough: u64) {
    ctx.rule(SIM_RULE);
    let n = ctx.n(quick, thorough);
    ctx.par_cases(k.name, n, CAP, |seed, obs| sim::case(k, seed, obs));
}

const TICKS_RULE: &str = "Virtual-time runs of instances with pruners or cron registrations over minutes to years of ticks, the \
instants computed independently of the cron crate, with failing and slow backend calls and shutdowns around the ticks; a case is distinct by its \
sequence of calls, non-trivial if there was at least one.";

const STRESS_RULE: &str = "Stress on real threads with injected delays (seeded yields and sleeps inside allocations made by the code \
under test), histories recorded and judged afterwards; a case is distinct by its recorded history or interleaving.";

const TYPED_RULE: &str = "Typed API: thirteen executors with different data and metadata types on one in-memory backend under virtual time; \
builder calls in random order, typed queries, updates, cancellations and reruns, each compared with the reference model, and what the \
executors finally receive compared with what was enqueued; a case is distinct by its sequence of operations, non-trivial from four.";

fn typed_cases(ctx: &mut Ctx, quick: u64, thorough: u64) {
    ctx.rule(TYPED_RULE);
    let n = ctx.n(quick, thorough);
    ctx.par_cases("typed", n, CAP, typed::case);
}

fn stress_cases(ctx: &mut Ctx, name: &str, quick: u64, thorough: u64, f: impl Fn(u64, &mut Obs)) {
    ctx.rule(STRESS_RULE);
    let n = ctx.n(quick, thorough);
    ctx.seq_cases(name, n, CAP, f);
}

fn checks(ctx: &mut Ctx) -> u64 {
    use conf::{BASE, Profile};
    use sim::{Knobs, MIX};
    let unique = Profile { name: "unique", unique_pct: 85, enqueue: 45, query: 2, ..BASE };
    let manage = Profile { name: "manage", update: 25, cancel: 15, rerun: 15, unknown_pct: 20, ..BASE };
    let outcomes = Profile { name: "outcomes", finish: 60, claim: 50, rerun: 12, unique_pct: 10, prune: 1, query: 4, ..BASE };
    const ASYNC: &[usize] = &[0, 1, 2, 3, 6];
    const LIMITED: &[usize] = &[1, 2, 3, 5, 7, 8, 10];
    const WIDE: &[usize] = &[3, 8, 9, 10];
    let history = Profile { name: "history", steps: (200, 1500), history: true, ..BASE };
    let bulk = Profile { name: "bulk", steps: (300, 700), enqueue: 120, prune: 1, ..BASE };
    let marathon = Knobs { name: "marathon", marathon_pct: 30, fail_pct: 50, fault_pct: 2, first_jobs: (1, 4), checkpoints: (2, 8), ..MIX };
    match ctx.prop {
        "C01" => {
            sim_cases(ctx, MIX, 8_000, 150_000);
            sim_cases(ctx, Knobs { name: "crowd", insts: (2, 3), double_reg_pct: 40, manage_pct: 50, unique_pct: 30, fault_pct: 0, ..MIX }, 4_000, 80_000);
            stress_cases(ctx, "system", 40, 400, stress::system);
            stress_cases(ctx, "claims", 200, 2_000, stress::claims);
            stress_cases(ctx, "linear", 1_500, 30_000, |s, o| stress::linear(30, s, o));
            2_000
        }
        "C02" => {
            sim_cases(ctx, MIX, 8_000, 150_000);
            sim_cases(ctx, Knobs { name: "late", future_pct: 70, manage_pct: 60, snooze_pct: 25, ..MIX }, 6_000, 80_000);
            sim_cases(ctx, Knobs { name: "paused", paused_pct: 100, ..MIX }, 3_000, 40_000);
            stress_cases(ctx, "system", 40, 400, stress::system);
            2_000
        }
        "C03" => {
            sim_cases(ctx, MIX, 6_000, 150_000);
            sim_cases(ctx, Knobs { name: "future", future_pct: 85, same_time_pct: 15, fail_pct: 45, snooze_pct: 25, manage_pct: 50, ..MIX }, 10_000, 120_000);
            stress_cases(ctx, "early", 400, 6_000, stress::early);
            2_000
        }
        "C04" => {
            sim_cases(ctx, Knobs { name: "ties", same_time_pct: 85, execs: LIMITED, first_jobs: (6, 20), fail_pct: 15, double_reg_pct: 3, ..MIX }, 10_000, 150_000);
            sim_cases(ctx, Knobs { name: "ties_managed", same_time_pct: 85, execs: LIMITED, manage_pct: 70, unique_pct: 25, insts: (1, 1), ..MIX }, 5_000, 80_000);
            conf_cases(ctx, BASE, 20_000, 200_000);
            conf_cases(ctx, Profile { name: "claims_bulk", claim: 80, ..bulk }, 120, 3_000);
            2_000
        }
        "C05" => {
            sim_cases(ctx, MIX, 8_000, 150_000);
            sim_cases(ctx, Knobs { name: "outcomes", fail_pct: 45, snooze_pct: 20, cancel_pct: 12, timeout_pct: 30, ..MIX }, 6_000, 80_000);
            conf_cases(ctx, outcomes, 20_000, 200_000);
            conf_cases(ctx, history, 250, 4_000);
            sim_cases(ctx, marathon, 600, 10_000);
            stress_cases(ctx, "conserve", 40, 600, stress::conserve);
            2_000
        }
        "C06" => {
            sim_cases(ctx, Knobs { name: "attempts", fail_pct: 75, snooze_pct: 15, cancel_pct: 2, manage_pct: 60, unique_pct: 25, ..MIX }, 10_000, 150_000);
            sim_cases(ctx, MIX, 4_000, 80_000);
            conf_cases(ctx, outcomes, 20_000, 200_000);
            conf_cases(ctx, history, 250, 4_000);
            sim_cases(ctx, marathon, 600, 10_000);
            2_000
        }
        "C07" => {
            sim_cases(ctx, Knobs { name: "reruns", fail_pct: 30, cancel_pct: 15, manage_pct: 75, future_pct: 15, checkpoints: (10, 40), ..MIX }, 8_000, 120_000);
            sim_cases(ctx, MIX, 4_000, 80_000);
            conf_cases(ctx, Profile { name: "reruns_conf", rerun: 20, ..outcomes }, 20_000, 200_000);
            conf_cases(ctx, history, 200, 4_000);
            2_000
        }
        "C08" => {
            sim_cases(ctx, Knobs { name: "hostile", fail_pct: 50, extreme_pct: 15, undecodable_pct: 12, timeout_pct: 25, ..MIX }, 8_000, 120_000);
            sim_cases(ctx, Knobs { name: "faults", fault_pct: 100, fail_pct: 45, ..MIX }, 6_000, 80_000);
            2_000
        }
        "C09" => {
            sim_cases(ctx, Knobs { name: "limits", execs: LIMITED, first_jobs: (6, 24), long_pct: 15, fail_pct: 30, timeout_pct: 20, ..MIX }, 10_000, 150_000);
            sim_cases(ctx, Knobs { name: "limits_faults", execs: LIMITED, first_jobs: (6, 24), fault_pct: 60, undecodable_pct: 0, ..MIX }, 4_000, 60_000);
            sim_cases(ctx, Knobs { name: "wide", execs: WIDE, first_jobs: (20, 110), same_time_pct: 70, long_pct: 15, checkpoints: (3, 8), ..MIX }, 1_000, 15_000);
            sim_cases(ctx, MIX, 3_000, 60_000);
            stress_cases(ctx, "system", 40, 400, stress::system);
            2_000
        }
        "C10" => {
            sim_cases(ctx, Knobs { name: "timeouts_sim", execs: ASYNC, timeout_pct: 85, long_pct: 10, fail_pct: 25, ..MIX }, 12_000, 150_000);
            stress_cases(ctx, "timeouts", 60, 800, stress::timeouts);
            2_000
        }
        "C11" => {
            sim_cases(ctx, Knobs { name: "shutdowns", restart_pct: 45, long_pct: 15, insts: (1, 3), fault_pct: 0, ..MIX }, 10_000, 150_000);
            sim_cases(ctx, Knobs { name: "shutdowns_faults", restart_pct: 45, fault_pct: 60, paused_pct: 20, ..MIX }, 3_000, 60_000);
            ctx.rule(TICKS_RULE);
            let n = ctx.n(8_000, 80_000);
            ctx.par_cases("pruner", n, CAP, ticks::pruner);
            let n = ctx.n(1_000, 20_000);
            ctx.par_cases("cron", n, CAP, ticks::cron);
            stress_cases(ctx, "system", 40, 400, stress::system);
            2_000
        }
        "C12" => {
            conf_cases(ctx, unique, 60_000, 600_000);
            conf_cases(ctx, Profile { name: "unique_bulk", unique_pct: 60, ..bulk }, 120, 3_000);
            sim_cases(ctx, Knobs { name: "unique_sim", unique_pct: 60, ..MIX }, 3_000, 50_000);
            1_000
        }
        "C13" => {
            stress_cases(ctx, "unique", 300, 4_000, stress::unique);
            stress_cases(ctx, "linear", 4_000, 60_000, |s, o| stress::linear(75, s, o));
            stress_cases(ctx, "claims", 200, 2_000, stress::claims);
            conf_cases(ctx, unique, 20_000, 200_000);
            500
        }
        "C14" => {
            stress_cases(ctx, "linear", 5_000, 80_000, |s, o| stress::linear(30, s, o));
            stress_cases(ctx, "conserve", 200, 2_000, stress::conserve);
            stress_cases(ctx, "crowded", 300, 4_000, stress::crowded);
            stress_cases(ctx, "claims", 200, 2_000, stress::claims);
            stress_cases(ctx, "unique", 200, 2_000, stress::unique);
            conf_cases(ctx, BASE, 40_000, 400_000);
            500
        }
        "C15" => {
            typed_cases(ctx, 15_000, 200_000);
            conf_cases(ctx, Profile { name: "queries", query: 60, ..BASE }, 60_000, 600_000);
            conf_cases(ctx, Profile { name: "queries_bulk", query: 60, ..bulk }, 120, 3_000);
            1_000
        }
        "C16" => {
            conf_cases(ctx, Profile { name: "prunes", prune: 10, finish: 45, claim: 45, enqueue: 60, ..BASE }, 60_000, 600_000);
            conf_cases(ctx, Profile { name: "prunes_bulk", prune: 6, finish: 70, claim: 70, ..bulk }, 120, 3_000);
            1_000
        }
        "C20" => {
            typed_cases(ctx, 20_000, 300_000);
            sim_cases(ctx, MIX, 6_000, 100_000);
            conf_cases(ctx, BASE, 30_000, 300_000);
            1_000
        }
        "C21" => {
            typed_cases(ctx, 15_000, 200_000);
            conf_cases(ctx, manage, 60_000, 600_000);
            sim_cases(ctx, Knobs { name: "managed", manage_pct: 80, ..MIX }, 5_000, 80_000);
            1_000
        }
        "C17" => {
            ctx.rule(TICKS_RULE);
            let n = ctx.n(20_000, 200_000);
            ctx.par_cases("pruner", n, CAP, ticks::pruner);
            1_000
        }
        "C18" => {
            ctx.rule(TICKS_RULE);
            let n = ctx.n(3_000, 50_000);
            ctx.par_cases("cron", n, CAP, ticks::cron);
            1_000
        }
        "C19" => {
            ctx.rule("Delays of seeded, boundary-heavy strategy configurations compared with their formula in exact integer arithmetic; a case \
is one configuration over 32 attempt numbers (\"sweep\": all 65536), distinct by configuration, non-trivial with two or more different delays.");
            let n = ctx.n(600_000, 6_000_000);
            ctx.par_cases("backoff", n, CAP, |s, o| backoff::case(false, s, o));
            let n = ctx.n(800, 8_000);
            ctx.par_cases("sweep", n, CAP, |s, o| backoff::case(true, s, o));
            1_000
        }
        "C22" => {
            ctx.rule("One child process per case: every global operation before a backend is set, setters and users racing on real threads with injected \
delays, then random global operations compared with the reference model on the winning backend; a case is distinct by who won and by its \
sequence of operations.");
            let n = ctx.n(8_000, 60_000);
            ctx.par_cases("global", n, CAP, global::case);
            300
        }
        "C28" => {
            ctx.rule("Seeded populations; a case is twelve assert_enqueued! expansions (16 condition templates, 7 forms of count, three ways of \
holding the backend) compared with the number of matching jobs, distinct by templates, counts, matches and results. Plus the global form in child processes.");
            let n = ctx.n(200_000, 2_000_000);
            ctx.par_cases("assert", n, CAP, assertmac::case);
            let n = ctx.n(300, 4_000);
            ctx.par_cases("global", n, CAP, global::case);
            1_000
        }
        p => panic!("no check for {p}"),
    }
}
