#![allow(dead_code, unused_imports)]
mod ga;
mod h;
mod misc;
mod pso;

fn main() {
    let pid = std::env::args().nth(1).unwrap_or_default();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let only = std::env::var("HARNESS_ONLY").ok().filter(|s| !s.is_empty());
    std::panic::set_hook(Box::new(|_| {}));
    let mut h = h::H::new(seed, thorough, only);
    let h = &mut h;
    let ga = "random runs of the genetic optimizer with recording components (random palettes of goal values with NaN and infinities, families, offspring, pre-births, selections, stop answers, continuations and restarts), every recorded event replayed against the property; a run counts when it made a generation";
    let pso = "random runs of the particle swarm optimizer with recording components (random palettes of goal values with NaN and infinities, moves, limiters, stop answers, continuations and restarts), every recorded event replayed against the property; a run counts when a particle moved";
    let comp = "random and boundary inputs of the component, with random and extreme draws of the generator, compared with a reference; an input counts when it is not trivial (not empty)";
    let rule = match pid.as_str() {
        "C01" => { ga::protocol(h, "C01"); ga }
        "C02" => { ga::protocol(h, "C02"); ga }
        "C03" => { ga::c03(h); comp }
        "C04" => { ga::c04(h); comp }
        "C05" => { ga::c05(h); comp }
        "C06" => { ga::c06(h); comp }
        "C07" => { misc::c07(h); comp }
        "C08" => { ga::c08(h); comp }
        "C09" => { misc::c09(h); comp }
        "C10" => { misc::c10(h); comp }
        "C11" => { misc::c11(h); comp }
        "C12" => { ga::protocol(h, "C12"); ga }
        "C13" => { ga::protocol(h, "C13"); ga }
        "C14" => { pso::protocol(h, "C14"); pso::wild_runs(h, "C14"); pso }
        "C15" => { pso::protocol(h, "C15"); pso }
        "C16" => { pso::protocol(h, "C16"); pso::wild_runs(h, "C16"); pso }
        "C17" => { misc::c17(h); comp }
        "C18" => { misc::c18(h); comp }
        "C19" => { pso::c19(h); comp }
        "C20" => { pso::c20(h); comp }
        "C21" => { pso::protocol(h, "C21"); pso }
        "C22" => { misc::c22(h); comp }
        "C23" => { misc::c23(h); comp }
        "C24" => { misc::c24(h); comp }
        "C25" => { misc::c25(h); comp }
        "C26" => { misc::c26(h); comp }
        "C27" => { misc::c27(h); comp }
        "C28" => { ga::large(h); pso::large(h); ga::protocol(h, "C28"); pso::protocol(h, "C28"); "the runs of both optimizers with recording components, setters called between runs, every accessor compared with every other view of the same object" }
        "C29" => { misc::c29(h); "random call sequences with random states (every precision, huge and special values, writers that take a few bytes at a time), the printed words compared with the values; elapsed times compared with clocks read around the calls; a sequence counts when something was printed" }
        "C30" => { misc::c30(h); comp }
        _ => {
            println!("{{\"kind\":\"none\"}}");
            return;
        }
    };
    h.finish(rule);
}
