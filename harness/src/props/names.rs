//! C27: what is never shown does not matter. C28: names carry no meaning.

use super::forms::{few_variables, more_keyframes};
use super::layout::check_layout;
use super::twins::{compare_step, rich, viewport, Actor, Rich};
use super::*;
use crate::css::*;
use crate::doc::*;
use crate::drive::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::snap::{diff, diff_looks};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C27",
            run: c27,
            quick: 24_000,
            thorough: 800_000,
            rule: "random scenes; the twin's document has further elements at random places (copies of parts \
                   of the document with all their bindings, handlers, ids, drag sources and inputs), under \
                   conditions which never hold or in loops over nothing; everything shown and emitted is \
                   compared over histories of values, events, viewports and times; non-trivial: at least 2 \
                   elements were added and at least 2 different trees were shown",
            assumptions: &["lookups by id are not compared"],
            probes: no_probes,
        },
        Property {
            id: "C28",
            run: c28,
            quick: 24_000,
            thorough: 800_000,
            rule: "random scenes; the twin has other names: keys of objects in documents and values, loop \
                   variables, aliases, templates, keyframes and CSS variables are renamed one to one, to \
                   names which are prefixes of each other, differ in case or in punctuation, look like \
                   values or change places with each other; everything shown and emitted is compared; \
                   non-trivial: at least 2 different trees were shown",
            assumptions: &["keys made of digits keep their names, they are indexes of arrays too"],
            probes: no_probes,
        },
    ]
}

/// Runs the same history in both views.
fn together(case: &mut Case, a: &mut Actor, b: &mut Actor, model: &Ty, timed: bool, objects: bool, other: &mut dyn FnMut(&mut Rng, &Value) -> Value, back: &dyn Fn(&Value) -> Value) -> Result<usize, String> {
    let hostile = *case.rng.pick(&[0, 0, 0, 15]);
    let mut value = gen_value(&mut case.rng, model, hostile);
    let mut port = [800.0, 600.0];
    let mut trees = std::collections::BTreeSet::new();
    for i in 0..case.updates(3, 3, 10) {
        let ms: &[u64] = if timed { &[0, 16, 100, 333, 1000] } else { &[0, 16] };
        let step = Step {
            ms: *case.rng.pick(ms),
            viewport: port,
            events: a.events(&mut case.rng, if i == 0 { 0 } else { 6 }),
        };
        if objects && !value.is_object() {
            value = json!({});
        }
        let theirs = other(&mut case.rng, &value);
        case.log(format!("UPDATE {i} {} ms {port:?} {:?} {value}\nTWIN {theirs}", step.ms, step.events));
        let x = a.step(&step, &value)?;
        let mut y = b.step(&step, &theirs)?;
        y.messages = y.messages.iter().map(back).collect();
        if let Some(d) = diff_looks(a.shown(), b.shown()) {
            bail!("update {i}: view and twin: {d}");
        }
        if diff(a.shown(), b.shown()).is_some() && (check_layout(a.shown()).is_err() || check_layout(b.shown()).is_err()) {
            // boxes differ by the cache of the layout library
            case.count("stale boxes of the layout library", 1);
            break;
        }
        compare_step(a, b, &x, &y).map_err(|e| format!("update {i}: view and twin: {e}"))?;
        trees.insert(a.shown().digest());
        case.observe(a.shown().digest());
        case.count("updates", 1);
        case.count("messages", x.messages.len());
        case.count("nodes compared", a.shown().count());
        if case.rng.chance(60) {
            value = mutate(&mut case.rng, model, &value, hostile);
        }
        port = viewport(&mut case.rng, port, 15);
    }
    Ok(trees.len())
}

// ---------------------------------------------------------------------------------------------

const NEVER: &[&str] = &["zq", "zq-x", "zqName"];

/// An element which is never shown.
fn never(r: &mut Rng, mut e: Elem) -> Elem {
    let key = r.pick(NEVER).to_string();
    e.attrs.retain(|a| !matches!(a, Attr::Visible(..) | Attr::Repeat(..)));
    let attr = match r.below(10) {
        0..=4 => Attr::Visible(true, Binder::of(if r.chance(20) { vec!["zq-o".into(), key] } else { vec![key] })),
        5..=6 => Attr::Visible(false, Binder::of(vec!["zq-yes".into(), key])),
        _ => Attr::Repeat(r.pick(LOCALS).to_string(), r.range(1, 4), Binder::of(vec!["zq-list".into(), key])),
    };
    let at = if matches!(attr, Attr::Repeat(..)) { 0 } else { r.below(e.attrs.len() + 1) };
    e.attrs.insert(at, attr);
    e
}

fn add_never(r: &mut Rng, e: &mut Elem, parts: &[Elem], percent: usize, added: &mut usize) {
    let leaf = is_void(&e.tag);
    for c in e.children.iter_mut() {
        if let Node::Elem(c) = c {
            add_never(r, c, parts, percent, added);
        }
    }
    while !leaf && r.chance(percent) && *added < 12 {
        let at = r.below(e.children.len() + 1);
        let part = never(r, r.clone().pick(parts).clone());
        r.next();
        e.children.insert(at, Node::Elem(part));
        *added += 1;
    }
}

fn c27(case: &mut Case) -> Verdict {
    let timed = case.rng.chance(30);
    let s = rich(case, &Rich {
        handlers: 25,
        draggable: *case.rng.clone().pick(&[0, 5, 15]),
        wild: 8,
        animations: timed,
        transitions: timed,
        tame: true,
        ..Rich::default()
    });
    let mut parts = vec![];
    let mut doc = s.doc.clone();
    doc.body.clone().walk_mut(&mut |e| {
        if e.tag != "body" && e.tag != "link" && e.count() < 12 {
            parts.push(e.clone());
        }
    });
    parts.push(Elem::new("p").text("t"));
    let percent = *case.rng.pick(&[10, 30, 50]);
    let mut added = 0;
    add_never(&mut case.rng, &mut doc.body, &parts, percent, &mut added);
    for (_, root) in doc.templates.iter_mut() {
        add_never(&mut case.rng, root, &parts, percent / 2, &mut added);
    }
    if !paths_ok(&doc) {
        case.count("too large", 1);
        return Ok(());
    }
    let html = html(&doc, &mut Layout::plain());
    case.log(format!("TWIN HTML {html}"));
    let mut a = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut b = Actor::new(&html, &s.css, &s.pipes)?;
    let with = |r: &mut Rng, v: &Value| {
        let mut v = v.clone();
        let Value::Object(map) = &mut v else { return v };
        for k in NEVER {
            match r.below(5) {
                0 => continue,
                1 => map.insert(k.to_string(), json!(null)),
                2 => map.insert(k.to_string(), json!(0)),
                3 => map.insert(k.to_string(), json!("")),
                _ => map.insert(k.to_string(), json!(false)),
            };
        }
        let mut yes = serde_json::Map::new();
        let mut list = serde_json::Map::new();
        for k in NEVER {
            yes.insert(k.to_string(), r.pick(&[json!(true), json!(1), json!("x"), json!([0])]).clone());
            if r.chance(70) {
                list.insert(k.to_string(), json!([]));
            }
        }
        map.insert("zq-yes".into(), json!(yes));
        map.insert("zq-list".into(), json!(list));
        v
    };
    let trees = together(case, &mut a, &mut b, &s.model, timed, true, &mut |r, v| with(r, v), &|m| m.clone())?;
    case.count("elements which are never shown", added);
    case.nontrivial = added >= 2 && trees >= 2;
    Ok(())
}

// ---------------------------------------------------------------------------------------------

thread_local! {
    static TO: RefCell<HashMap<String, String>> = RefCell::default();
    static FROM: RefCell<HashMap<String, String>> = RefCell::default();
}

const OTHERS: &[&str] = &[
    "k", "kk", "kkk", "k-k", "k_k", "k-", "k_", "K", "Kk", "k1", "k11", "ke", "keys", "ab", "abc", "A", "true", "false", "null",
    "none", "undefined", "self", "of", "in", "z", "zz", "Z9", "x", "y", "-", "_", "--", "-a", "a-", "a_", "a1",
    "class", "id", "style", "on-", "itemx", "ite", "nam", "name1", "name-", "thi", "thisx", "lengt",
];

fn fixed(name: &str) -> bool {
    name.trim_start_matches('-').chars().all(|c| c.is_ascii_digit()) && name.chars().any(|c| c.is_ascii_digit())
}

/// New names for all keys.
fn choose(r: &mut Rng) {
    let mut names: Vec<&str> = KEYS.iter().chain(LOCALS).copied().filter(|n| !fixed(n)).collect();
    names.sort();
    names.dedup();
    let mut pool: Vec<&str> = match r.below(3) {
        0 => names.clone(),
        1 => OTHERS.to_vec(),
        _ => names.iter().chain(OTHERS).copied().collect(),
    };
    pool.sort();
    pool.dedup();
    // keys which values have besides are renamed too, all is one to one
    let mut all: Vec<&str> = names.iter().chain(&pool).copied().collect();
    all.sort();
    all.dedup();
    let mut free = pool;
    let mut to = HashMap::new();
    for n in &names {
        let i = r.below(free.len());
        to.insert(n.to_string(), free.swap_remove(i).to_string());
    }
    let taken: std::collections::BTreeSet<String> = to.values().cloned().collect();
    let mut left: Vec<&str> = all.iter().copied().filter(|n| !taken.contains(*n)).collect();
    for n in &all {
        if !to.contains_key(*n) {
            let i = r.below(left.len());
            to.insert(n.to_string(), left.swap_remove(i).to_string());
        }
    }
    FROM.with(|f| *f.borrow_mut() = to.iter().map(|(a, b)| (b.clone(), a.clone())).collect());
    TO.with(|t| *t.borrow_mut() = to);
}

fn new_name(n: &str) -> String {
    TO.with(|t| t.borrow().get(n).cloned().unwrap_or_else(|| n.to_string()))
}

fn rename(v: &Value, names: &HashMap<String, String>) -> Value {
    match v {
        Value::Array(items) => Value::Array(items.iter().map(|v| rename(v, names)).collect()),
        Value::Object(map) => {
            Value::Object(map.iter().map(|(k, v)| (names.get(k).unwrap_or(k).clone(), rename(v, names))).collect())
        }
        v => v.clone(),
    }
}

fn to(v: &Value) -> Value {
    TO.with(|t| rename(v, &t.borrow()))
}

fn from(v: &Value) -> Value {
    FROM.with(|t| rename(v, &t.borrow()))
}

/// Names of messages are no keys.
fn message(m: &Value) -> Value {
    match m {
        Value::Object(map) => Value::Object(map.iter().map(|(k, v)| (k.clone(), from(v))).collect()),
        m => m.clone(),
    }
}

macro_rules! renamed {
    ($name:literal) => {
        ($name, (|v| to(&crate::scene::scene_pipes()[$name](from(&v)))) as fn(Value) -> Value)
    };
}

fn rename_doc(r: &mut Rng, doc: &mut Doc) {
    let ids: Vec<String> = doc.templates.iter().map(|(id, _)| id.clone()).collect();
    let pool = ["t", "tt", "t-t", "T", "main", "x", "t1", "body", "link", "template", "t_1", "a", "b"];
    let mut free: Vec<&str> = pool.to_vec();
    let mut other = HashMap::new();
    for id in &ids {
        if !free.is_empty() && r.chance(80) {
            let i = r.below(free.len());
            if !ids.contains(&free[i].to_string()) {
                other.insert(id.clone(), free.swap_remove(i).to_string());
            }
        }
    }
    let mut f = |e: &mut Elem| {
        let binder = |b: &mut Binder| b.path.iter_mut().for_each(|n| *n = new_name(n));
        let spans = |s: &mut Vec<Span>| {
            s.iter_mut().for_each(|s| {
                if let Span::Bind(b) = s {
                    binder(b)
                }
            })
        };
        for a in e.attrs.iter_mut() {
            match a {
                Attr::Static(k, v) if k == "href" && e.tag == "link" => {
                    if let Some(n) = v.strip_prefix('#').and_then(|id| other.get(id)) {
                        *v = format!("#{n}");
                    }
                }
                Attr::Static(..) | Attr::Empty(..) => {}
                Attr::Bound(_, s) => spans(s),
                Attr::Flag(_, b) | Attr::Visible(_, b) => binder(b),
                Attr::Repeat(n, _, b) | Attr::Alias(n, b) => {
                    *n = new_name(n);
                    binder(b);
                }
                Attr::On(_, args) => args.iter_mut().for_each(|a| {
                    if let Arg::Bind(b) = a {
                        binder(b)
                    }
                }),
            }
        }
        for c in e.children.iter_mut() {
            if let Node::Text(s) = c {
                spans(s);
            }
        }
    };
    doc.body.walk_mut(&mut f);
    for (_, root) in doc.templates.iter_mut() {
        root.walk_mut(&mut f);
    }
    for (id, _) in doc.templates.iter_mut() {
        if let Some(n) = other.get(id) {
            *id = n.clone();
        }
    }
}

fn rename_sheet(r: &mut Rng, sheet: &mut Sheet) {
    let mut names: Vec<String> = sheet.keyframes.iter().map(|k| k.name.clone()).collect();
    names.sort();
    names.dedup();
    let mut free = vec!["f", "ff", "f-f", "F", "fade-in", "linear-move", "grow", "move", "growth", "mov"];
    let mut frames = HashMap::new();
    for n in names {
        let i = r.below(free.len());
        frames.insert(n, free.swap_remove(i).to_string());
    }
    let mut free = vec!["--a", "--aa", "--a-a", "--A", "--a_a", "--w", "--width", "--tone", "--color", "--ton", "--main"];
    let mut vars: HashMap<String, String> = HashMap::new();
    for n in ["--w", "--tone", "--main-gap"] {
        let i = r.below(free.len());
        vars.insert(n.to_string(), free.swap_remove(i).to_string());
    }
    let mut decl = |d: &mut Decl| {
        if let Some(n) = vars.get(&d.prop) {
            d.prop = n.clone();
        }
        for t in d.layers.iter_mut().flatten() {
            match t {
                Tok::Var(n) => *n = vars.get(n).unwrap_or(n).clone(),
                Tok::Kw(n) if d.prop.starts_with("animation") => *n = frames.get(n).unwrap_or(n).clone(),
                _ => {}
            }
        }
    };
    for rule in sheet.rules.iter_mut() {
        rule.decls.iter_mut().for_each(&mut decl);
    }
    for k in sheet.keyframes.iter_mut() {
        for (_, decls) in k.steps.iter_mut() {
            decls.iter_mut().for_each(&mut decl);
        }
        k.name = frames[&k.name].clone();
    }
}

fn c28(case: &mut Case) -> Verdict {
    let timed = case.rng.chance(40);
    let mut s = rich(case, &Rich {
        handlers: 25,
        draggable: 5,
        wild: 8,
        animations: timed,
        transitions: timed,
        tame: true,
        ..Rich::default()
    });
    let r = &mut case.rng;
    if timed {
        more_keyframes(r, &mut s.sheet);
    }
    if r.chance(50) {
        few_variables(r, &mut s.sheet);
    }
    let css = sheet_text(&s.sheet);
    choose(r);
    let mut doc = s.doc.clone();
    rename_doc(r, &mut doc);
    let mut sheet = s.sheet.clone();
    rename_sheet(r, &mut sheet);
    let other = html(&doc, &mut Layout::plain());
    let other_css = sheet_text(&sheet);
    case.log(format!("CSS {css}\nTWIN HTML {other}\nTWIN CSS {other_css}"));
    let mut pipes = s.pipes.clone();
    let list = [
        renamed!("upper"), renamed!("len"), renamed!("not"), renamed!("wrap"), renamed!("opt-1"), renamed!("style"), renamed!("bool"),
    ];
    for (name, f) in list {
        if pipes.insert(name.into(), f).is_none() {
            pipes.remove(name);
        }
    }
    let mut a = Actor::new(&s.html, &css, &s.pipes)?;
    let mut b = Actor::new(&other, &other_css, &pipes)?;
    let trees = together(case, &mut a, &mut b, &s.model, timed, false, &mut |_, v| to(v), &message)?;
    case.nontrivial = trees >= 2;
    Ok(())
}
