//! C13 enter and leave, C14 buttons, focus and keys, C15 drag and drop, C16 messages,
//! C22 capture and cursor.

use super::*;
use crate::drive::*;
use crate::gen::*;
use crate::machine::*;
use crate::scene::*;

const MACHINE: &str = "the geometry of the shown boxes is observed, what is under the pointer and \
                       every message is predicted by a reference machine";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            run: c13,
            quick: 60_000,
            thorough: 500_000,
            rule: "random scenes with enter, leave and move handlers, values and styles which move \
                   boxes (bound classes, inline styles, :hover rules, animations, conditions, loops) \
                   and pointer positions on, at and around box edges; the exact sequence of messages \
                   of every update is compared with the reference machine; non-trivial: at least one \
                   enter and one leave",
            assumptions: &[MACHINE],
            probes: no_probes,
        },
        Property {
            id: "C14",
            run: c14,
            quick: 60_000,
            thorough: 500_000,
            rule: "random scenes with button, click, context menu, focus, blur, key and input handlers \
                   and well-formed random presses, releases, keys and characters (also several per \
                   update); the exact sequence of messages is compared with the reference machine; \
                   non-trivial: a click, a focus or a key was delivered",
            assumptions: &[MACHINE, "one button is held at a time"],
            probes: no_probes,
        },
        Property {
            id: "C15",
            run: c15,
            quick: 60_000,
            thorough: 500_000,
            rule: "as C14 with draggable elements (static and bound) and drop targets; non-trivial: a \
                   drag started and something was entered or dropped during it",
            assumptions: &[
                MACHINE,
                "at most one draggable element is under a press",
                "whether a release which drops also clicks elements around the target is left open",
            ],
            probes: no_probes,
        },
        Property {
            id: "C16",
            run: c16,
            quick: 60_000,
            thorough: 500_000,
            rule: "random scenes with random handlers (words, $event, binders with transformers, loop \
                   variables and aliases) for all events, histories of conforming and hostile values; \
                   every message is compared as a whole; a following empty update must be silent but \
                   for move events; non-trivial: at least 3 messages",
            assumptions: &[MACHINE],
            probes: no_probes,
        },
        Property {
            id: "C22",
            run: c22,
            quick: 60_000,
            thorough: 500_000,
            rule: "random scenes with cursors, targets, draggable and focusable elements; captured flag \
                   and cursor of every update are compared with the reference machine; non-trivial: \
                   both captured and free updates were seen",
            assumptions: &[MACHINE, "capture is not judged when only a text box is under the pointer"],
            probes: no_probes,
        },
    ]
}

struct Plan {
    moves: usize,
    buttons: usize,
    hostile: &'static [usize],
    full: bool,
}

#[derive(Default)]
struct Totals {
    events: std::collections::BTreeMap<&'static str, usize>,
    captured: usize,
    free: usize,
    cursors: usize,
    messages: usize,
}

fn play(case: &mut Case, o: &SceneOpts, plan: &Plan) -> Result<Totals, String> {
    let s = scene(case, o);
    let mut player = match Player::new(&s) {
        Ok(p) => p,
        Err(e) => bail!("document does not load: {e}"),
    };
    let hostile = *case.rng.pick(plan.hostile);
    let mut value = gen_value(&mut case.rng, &s.model, hostile);
    let updates = case.updates(4, 6, 20);
    let events = EventOpts {
        moves: plan.moves,
        buttons: plan.buttons,
    };
    let mut totals = Totals::default();
    for i in 0..updates {
        let max = if i == 0 { 0 } else { 4 };
        let events = player.events(&mut case.rng, max, &events);
        let step = Step {
            ms: *case.rng.pick(&[0, 16, 100, 333]),
            viewport: [800.0, 600.0],
            events,
        };
        case.log(format!("UPDATE {i} {} ms {:?} {value}", step.ms, step.events));
        let seen = player.step(&step, &value).map_err(|e| format!("update {i}: {e}"))?;
        // two draggable elements under one press: which of them is dragged is open
        if player.machine.ambiguous {
            break;
        }
        let wrong = |e: String| {
            let mut boxes = vec![];
            seen.got.walk(&mut |s| {
                if !s.is_text() {
                    boxes.push(format!("{} at {:?} size {:?}", s.label(), s.position, s.size))
                }
            });
            format!("update {i}: {e}; shown: {}", boxes.join("; "))
        };
        totals.messages += same_messages(&seen.predicted.messages, &seen.output.messages).map_err(wrong)?;
        if plan.full {
            if let Some(captured) = seen.predicted.captured {
                if captured != seen.output.is_input_captured {
                    return Err(wrong(format!(
                        "input captured is {}, expected {captured} (pointer {:?}, focus {}, drag {})",
                        seen.output.is_input_captured,
                        player.machine.mouse(),
                        player.machine.focus.is_some(),
                        player.machine.drag.is_some(),
                    )));
                }
                if captured {
                    totals.captured += 1;
                } else {
                    totals.free += 1;
                }
            }
            let cursor = crate::css::cursor_name(seen.output.pointer);
            if cursor != seen.predicted.cursor {
                return Err(wrong(format!("cursor is {cursor}, expected {}", seen.predicted.cursor)));
            }
            totals.cursors += (cursor != "auto") as usize;
        }
        case.count("updates", 1);
        case.count("input events", step.events.len());
        if case.rng.chance(60) {
            value = mutate(&mut case.rng, &s.model, &value, hostile);
        }
    }
    totals.events = player.machine.seen.clone();
    case.count("messages", totals.messages);
    let mut h = 0u64;
    for (event, n) in &totals.events {
        case.count(event, *n);
        h = crate::rng::mix(h ^ *n as u64);
    }
    case.observe(h);
    Ok(totals)
}

fn c13(case: &mut Case) -> Verdict {
    let o = SceneOpts {
        events: &["onmouseenter", "onmouseleave", "onmousemove"],
        handlers: 75,
        payload: 25,
        animations: case.rng.chance(30),
        ..SceneOpts::default()
    };
    let t = play(case, &o, &Plan { moves: 90, buttons: 5, hostile: &[0], full: false })?;
    case.nontrivial = t.events.contains_key("onmouseenter") && t.events.contains_key("onmouseleave");
    Ok(())
}

fn c14(case: &mut Case) -> Verdict {
    let o = SceneOpts {
        events: &[
            "onmousedown", "onmouseup", "onclick", "oncontextmenu", "onfocus", "onblur",
            "oninput", "onkeydown", "onkeyup", "ondrop",
        ],
        handlers: 60,
        payload: *case.rng.pick(&[20, 50]),
        draggable: if case.rng.chance(40) { 20 } else { 0 },
        ..SceneOpts::default()
    };
    let t = play(case, &o, &Plan { moves: 35, buttons: 45, hostile: &[0], full: false })?;
    case.nontrivial = ["onclick", "onfocus", "onkeydown", "oninput"].iter().any(|e| t.events.contains_key(e));
    Ok(())
}

fn c15(case: &mut Case) -> Verdict {
    let o = SceneOpts {
        events: &[
            "ondragstart", "ondragenter", "ondragleave", "ondragover", "ondrop", "ondragend",
            "onclick",
        ],
        handlers: 50,
        payload: 20,
        draggable: 40,
        ..SceneOpts::default()
    };
    let t = play(case, &o, &Plan { moves: 50, buttons: 48, hostile: &[0], full: false })?;
    case.nontrivial = t.events.contains_key("ondragstart")
        && (t.events.contains_key("ondragenter") || t.events.contains_key("ondrop"));
    Ok(())
}

fn c16(case: &mut Case) -> Verdict {
    let mut o = SceneOpts {
        events: EVENTS,
        handlers: 8,
        payload: 60,
        draggable: if case.rng.chance(30) { 20 } else { 0 },
        ..SceneOpts::default()
    };
    o.doc.handlers = 45;
    o.doc.pipes = 15;
    o.doc.aliases = 20;
    let t = play(case, &o, &Plan { moves: 40, buttons: 35, hostile: &[0, 0, 10, 30], full: false })?;
    case.nontrivial = t.messages >= 3;
    Ok(())
}

fn c22(case: &mut Case) -> Verdict {
    let o = SceneOpts {
        events: &["oninput", "ondrop", "onclick", "onmousemove", "onmouseenter", "onkeydown", "onfocus"],
        handlers: *case.rng.pick(&[10, 25, 40]),
        draggable: if case.rng.chance(40) { 15 } else { 0 },
        targets: 55,
        ..SceneOpts::default()
    };
    let t = play(case, &o, &Plan { moves: 55, buttons: 35, hostile: &[0], full: true })?;
    case.count("captured", t.captured);
    case.count("free", t.free);
    case.count("cursors", t.cursors);
    case.nontrivial = t.captured > 0 && t.free > 0;
    Ok(())
}
