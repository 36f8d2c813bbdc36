//! C20: what a view holds is bounded by what it shows and is returned when it is dropped. The same
//! cases run under the address and thread sanitizers, and tiny ones in the interpreter (see
//! sanitize.sh).

use super::twins::{rich, viewport, Actor, Rich};
use super::*;
use crate::alloc::{allocations, held, Held};
use crate::doc::Pipes;
use crate::drive::*;
use crate::gen::{gen_value, mutate};
use crate::scene::scene_pipes;
use serde_json::Value;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C20",
        run: c20,
        quick: 6_000,
        thorough: 300_000,
        rule: "cycles of recorded updates (scenes of C19, values also with new strings in every cycle) on one \
               view, whose allocations are counted; memory may not grow from cycle to cycle and all of it is \
               free after drop; non-trivial: at least 2 different trees shown in a cycle. The same and the \
               cases of C18, C19, C04 and C05 run under the address, leak and thread sanitizers, tiny cases \
               of 19 properties in Miri",
        assumptions: &["values of a cycle have the same shapes as those of the cycle before"],
        probes: no_probes,
    }]
}

struct Script {
    html: String,
    css: String,
    pipes: Pipes,
    steps: Vec<(Step, Value)>,
    fresh: bool,
}

/// The same value with other strings of the same sizes.
fn renewed(value: &Value, serial: &mut u64) -> Value {
    match value {
        Value::String(_) => {
            *serial += 1;
            Value::String(format!("k{serial:09}"))
        }
        Value::Array(items) => Value::Array(items.iter().map(|v| renewed(v, serial)).collect()),
        Value::Object(map) => Value::Object(map.iter().map(|(k, v)| (k.clone(), renewed(v, serial))).collect()),
        other => other.clone(),
    }
}

/// What the view holds after every cycle, what is left of it after drop.
fn play(s: &Script, cycles: usize) -> Result<(Vec<Held>, Held), String> {
    let mut samples = Vec::with_capacity(cycles);
    let mut serial = 0;
    let before = held();
    {
        let mut view = load(&s.html, &s.css, &s.pipes)?;
        for _ in 0..cycles {
            for (i, (step, value)) in s.steps.iter().enumerate() {
                let value = match s.fresh && i % 2 == 1 {
                    true => renewed(value, &mut serial),
                    false => value.clone(),
                };
                update(&mut view, step, &value)?;
            }
            let now = held();
            samples.push(Held { bytes: now.bytes - before.bytes, blocks: now.blocks - before.blocks });
        }
    }
    let now = held();
    // room for samples was made before
    Ok((samples, Held { bytes: now.bytes - before.bytes, blocks: now.blocks - before.blocks }))
}

fn grows(samples: &[Held], by: fn(&Held) -> i64) -> bool {
    let n = samples.len();
    let at: Vec<i64> = [n / 4, n / 2, 3 * n / 4, n].iter().map(|i| by(&samples[i - 1])).collect();
    at.windows(2).all(|w| w[0] < w[1])
}

fn c20(case: &mut Case) -> Verdict {
    let opts = Rich { animations: true, transitions: true, handlers: 20, draggable: 10, wild: 8, tame: false };
    let s = rich(case, &opts);
    let mut actor = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut value = gen_value(&mut case.rng, &s.model, 5);
    let mut port = [800.0, 600.0];
    let mut script = Script {
        html: s.html.clone(),
        css: s.css.clone(),
        pipes: scene_pipes(),
        steps: vec![],
        fresh: case.rng.chance(50),
    };
    let mut digests = std::collections::BTreeSet::new();
    let first = value.clone();
    for i in 0..if case.tiny { 12 } else { case.rng.range(2, 6) } {
        let step = Step {
            ms: *case.rng.pick(&[0, 16, 100, 333]),
            viewport: port,
            events: actor.events(&mut case.rng, if i == 0 { 0 } else { 4 }),
        };
        case.log(format!("UPDATE {i} {} ms {port:?} {:?} {value}", step.ms, step.events));
        actor.step(&step, &value)?;
        digests.insert(actor.shown().digest());
        script.steps.push((step, value.clone()));
        value = if case.rng.chance(15) { first.clone() } else { mutate(&mut case.rng, &s.model, &value, 5) };
        port = viewport(&mut case.rng, port, 10);
    }
    drop(actor);
    if case.tiny {
        // loading is what takes long in the interpreter, which itself looks for leaks
        case.count("updates", script.steps.len());
        return Ok(());
    }
    let cycles = 12;
    let begin = allocations();
    let (samples, left) = play(&script, cycles)?;
    if left.blocks != 0 || left.bytes != 0 {
        // once may be a cache of the process
        for _ in 0..3 {
            play(&script, 1)?;
        }
        let (_, again) = play(&script, cycles)?;
        if again.blocks > 0 || again.bytes > 0 {
            bail!("{} bytes in {} blocks are not free after the view is dropped", again.bytes, again.blocks);
        }
        case.count("leftovers of the first run", 1);
    }
    if grows(&samples, |h| h.bytes) || grows(&samples, |h| h.blocks) {
        case.count("suspects", 1);
        let (long, _) = play(&script, 480)?;
        for (what, by) in [("bytes", (|h: &Held| h.bytes) as fn(&Held) -> i64), ("blocks", |h: &Held| h.blocks)] {
            // growth has a rate, unlike values which take different room now and then
            let at = |i: usize| by(&long[i - 1]);
            let growth = [at(120) - at(60), at(240) - at(120), at(480) - at(240)];
            if growth[0] >= 30 && growth[1] * 2 >= growth[0] * 3 && growth[2] * 2 >= growth[1] * 3 {
                bail!(
                    "memory grows by {} {what} in 240 cycles of the same updates ({} in the 120 before, \
                     {} held after the first)",
                    growth[2],
                    growth[1],
                    at(1)
                );
            }
        }
    }
    case.count("cycles", cycles);
    case.count("updates", cycles * script.steps.len());
    case.count("allocations", (allocations() - begin) as usize);
    case.count("distinct shown trees", digests.len());
    case.nontrivial = digests.len() >= 2;
    Ok(())
}
