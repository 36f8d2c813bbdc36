//! C25: what a document does not name does not matter. C26: events mean the same however they are
//! divided among updates.

use super::twins::{compare_step, rich, viewport, Actor, Rich};
use super::*;
use crate::drive::*;
use crate::gen::*;
use crate::rng::Rng;
use super::layout::check_layout;
use crate::doc::*;
use crate::snap::{diff, diff_looks};
use crate::scene::{decorate, style_pipe, scene, SceneOpts};
use serde_json::{json, Value};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C25",
            run: c25,
            quick: 24_000,
            thorough: 800_000,
            rule: "random scenes; one view gets random values, its twin the same values with further keys \
                   of any content in objects at any depth (of items, tuples and loop variables too), \
                   which no document of the case names, different ones in every update; everything shown \
                   and emitted is compared, further keys are taken out of whole objects in messages; \
                   non-trivial: at least 10 keys were added and at least 2 different trees were shown",
            assumptions: &["transformers ignore the further keys"],
            probes: no_probes,
        },
        Property {
            id: "C26",
            run: c26,
            quick: 40_000,
            thorough: 1_200_000,
            rule: "random scenes without pseudo-classes with handlers of all events, draggables and inputs; \
                   one view gets the events of a while in one update, its twin gets them in several, \
                   some of them empty; messages joined and everything shown, captured and the cursor at the \
                   end of every while are compared; non-trivial: at least 4 messages in whiles which were \
                   divided",
            assumptions: &["no value, style or layout changes between the divided updates"],
            probes: no_probes,
        },
    ]
}

const EVENTS: &[&str] = &[
    "onclick", "oncontextmenu", "onmousedown", "onmouseup", "onmouseenter", "onmouseleave", "ondragstart", "ondragend",
    "ondragenter", "ondragleave", "ondrop", "oninput", "onfocus", "onblur", "onkeydown", "onkeyup",
];

/// Names close to those which documents use, and others.
const FURTHER: &[&str] = &[
    "zq", "zq-x", "zqName", "zq1", "Zq_name", "4711", "", " ", "Name", "NAME", "names", "nam", "name-", "Kind", "kind2", " on", "On",
    "a/b", "a.b", "list/0", "list.0", "items/0/name", "Items", "item-", "This", "this.7", "~0", "~1", "00", "0.0", "+1", "1e0", "titles",
    "TITLE", "{name}", "sub-", "_P", "X_1", "x-1", "user_id", "total", "Length", "len", "id", "posn", "color-",
];

/// Adds keys to objects.
fn blur(r: &mut Rng, value: &Value, percent: usize, added: &mut usize) -> Value {
    match value {
        Value::Array(items) => Value::Array(items.iter().map(|v| blur(r, v, percent, added)).collect()),
        Value::Object(map) => {
            let mut out = serde_json::Map::new();
            for (k, v) in map {
                out.insert(k.clone(), blur(r, v, percent, added));
            }
            while r.chance(percent) && out.len() < map.len() + 4 {
                let v = match r.below(4) {
                    0 => value.clone(),
                    _ => any_value(r, 2),
                };
                out.insert(r.pick(FURTHER).to_string(), v);
                *added += 1;
            }
            Value::Object(out)
        }
        v => v.clone(),
    }
}

fn sharp(value: &Value) -> Value {
    match value {
        Value::Array(items) => Value::Array(items.iter().map(sharp).collect()),
        Value::Object(map) => {
            let known = map.iter().filter(|(k, _)| !FURTHER.contains(&k.as_str()));
            Value::Object(known.map(|(k, v)| (k.clone(), sharp(v))).collect())
        }
        v => v.clone(),
    }
}

/// Names of messages are no keys.
fn sharp_message(m: &Value) -> Value {
    match m {
        Value::Object(map) => Value::Object(map.iter().map(|(k, v)| (k.clone(), sharp(v))).collect()),
        m => m.clone(),
    }
}

fn c25(case: &mut Case) -> Verdict {
    let timed = case.rng.chance(30);
    let mut s = rich(case, &Rich {
        handlers: 25,
        draggable: 5,
        wild: 8,
        animations: timed,
        transitions: timed,
        tame: true,
        ..Rich::default()
    });
    s.pipes.insert("len".into(), |v| match sharp(&v) {
        Value::Array(a) => json!(a.len()),
        Value::Object(o) => json!(o.len()),
        v => json!(v.to_string().len()),
    });
    s.pipes.insert("style".into(), |v| style_pipe(sharp(&v)));
    let hostile = *case.rng.pick(&[0, 0, 0, 15]);
    let percent = *case.rng.pick(&[20, 50, 80]);
    let mut a = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut b = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut value = gen_value(&mut case.rng, &s.model, hostile);
    let mut more = value.clone();
    let mut added = 0;
    let mut port = [800.0, 600.0];
    let mut trees = std::collections::BTreeSet::new();
    for i in 0..case.updates(3, 3, 10) {
        let step = Step {
            ms: *case.rng.pick(&[0, 16, 100, 333]),
            viewport: port,
            events: a.events(&mut case.rng, if i == 0 { 0 } else { 6 }),
        };
        if case.rng.chance(80) || sharp(&more) != value {
            more = blur(&mut case.rng, &value, percent, &mut added);
        }
        case.log(format!("UPDATE {i} {} ms {port:?} {:?} {value}\nMORE {more}", step.ms, step.events));
        let x = a.step(&step, &value)?;
        let mut y = b.step(&step, &more)?;
        y.messages = y.messages.iter().map(sharp_message).collect();
        if let Some(d) = diff_looks(a.shown(), b.shown()) {
            bail!("update {i}: value and value with further keys: {d}");
        }
        if diff(a.shown(), b.shown()).is_some() {
            // boxes differ, is that the cache of the layout library?
            if check_layout(a.shown()).is_err() || check_layout(b.shown()).is_err() {
                case.count("stale boxes of the layout library", 1);
                break;
            }
        }
        compare_step(&a, &b, &x, &y).map_err(|e| format!("update {i}: value and value with further keys: {e}"))?;
        trees.insert(a.shown().digest());
        case.observe(a.shown().digest());
        case.count("updates", 1);
        case.count("messages", x.messages.len());
        case.count("nodes compared", a.shown().count());
        if case.rng.chance(60) {
            value = mutate(&mut case.rng, &s.model, &value, hostile);
        }
        port = viewport(&mut case.rng, port, 15);
    }
    case.count("further keys", added);
    case.nontrivial = added >= 10 && trees.len() >= 2;
    Ok(())
}

fn c26(case: &mut Case) -> Verdict {
    let mut o = SceneOpts {
        pseudo: false,
        draggable: *case.rng.pick(&[0, 0, 15, 40]),
        events: EVENTS,
        handlers: *case.rng.pick(&[10, 30, 50]),
        payload: 50,
        ..SceneOpts::default()
    };
    o.doc.handlers = 15;
    let mut s = scene(case, &o);
    // these are told about in every update
    decorate(&mut s.doc, &mut |e, _| {
        e.attrs.retain(|a| !matches!(a, Attr::On(n, _) if n == "onmousemove" || n == "ondragover"));
    });
    s.html = html(&s.doc, &mut Layout::plain());
    case.log(format!("QUIET {}", s.html));
    let mut a = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut b = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut value = gen_value(&mut case.rng, &s.model, 0);
    let mut port = [800.0, 600.0];
    let mut divided = 0;
    for i in 0..case.updates(3, 3, 9) {
        // what changes is shown first
        let step = Step { ms: 16, viewport: port, events: vec![] };
        case.log(format!("UPDATE {i} {port:?} {value}"));
        let x = a.step(&step, &value)?;
        let y = b.step(&step, &value)?;
        compare_step(&a, &b, &x, &y).map_err(|e| format!("update {i}: {e}"))?;
        let events = a.events(&mut case.rng, 12);
        let x = a.step(&Step { ms: 0, viewport: port, events: events.clone() }, &value)?;
        let mut rest = events.clone();
        let mut joined = vec![];
        let mut parts = vec![];
        let whole = case.rng.chance(10);
        let y = loop {
            let n = match rest.len() {
                0 => 0,
                n if whole => n,
                n => case.rng.below(n.min(3) + 1),
            };
            let part: Vec<_> = rest.drain(..n).collect();
            parts.push(n);
            let y = b.step(&Step { ms: 0, viewport: port, events: part }, &value)?;
            joined.extend(y.messages.iter().cloned());
            if rest.is_empty() && case.rng.chance(70) {
                break bumaga::Output { messages: joined, ..y };
            }
        };
        case.log(format!("EVENTS {events:?} AS {parts:?}"));
        compare_step(&a, &b, &x, &y).map_err(|e| format!("events {i}: together and divided: {e}"))?;
        if parts.iter().filter(|n| **n > 0).count() > 1 {
            divided += x.messages.len();
        }
        case.observe(a.shown().digest());
        case.count("updates", 1 + parts.len());
        case.count("events", events.len());
        case.count("messages", x.messages.len());
        if case.rng.chance(60) {
            value = mutate(&mut case.rng, &s.model, &value, 0);
        }
        port = viewport(&mut case.rng, port, 15);
    }
    case.nontrivial = divided >= 4;
    Ok(())
}
