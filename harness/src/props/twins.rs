//! Properties decided by comparing views with each other: C03 history independence, C18 inlining,
//! C19 determinism and independence; and C17 lookup by id.

use super::*;
use crate::css::*;
use crate::doc::*;
use crate::drive::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::scene::*;
use crate::props::layout::{kf2, Mirror};
use crate::snap::{diff, diff_looks, snap, SNode};
use bumaga::{InputEvent, MouseButtons, Output, View};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};

const TWINS: &str = "both sides of the comparison run the code under test: a fault which affects both \
                     equally is left to the other properties";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C03",
            run: c03,
            quick: 40_000,
            thorough: 800_000,
            rule: "random scenes (all constructs, all supported declarations, selectors with pointer \
                   states), a history of values (conforming and hostile), viewports and events; then \
                   the pointer is taken away and the view is compared in every field with a freshly \
                   loaded one, over further updates with common inputs too; an update with identical \
                   inputs is repeated; non-trivial: the history showed at least 3 different trees",
            assumptions: &[
                TWINS,
                "boxes are compared for documents in flex layout without percentages, and excused when \
                 the layout library itself gives the same for the same history (KF2)",
            ],
            probes: kf2,
        },
        Property {
            id: "C17",
            run: c17,
            quick: 60_000,
            thorough: 1_000_000,
            rule: "documents with static and bound ids on elements, conditional elements and items of \
                   nested lists; histories of unique ids with swaps, moves, reuse and removal; after \
                   every update every shown id and every id which no element has is looked up; \
                   non-trivial: an id moved from one element to another",
            assumptions: &["ids which only a hidden element has are not looked up"],
            probes: no_probes,
        },
        Property {
            id: "C18",
            run: c18,
            quick: 40_000,
            thorough: 800_000,
            rule: "random documents with templates (nested), aliases and loops with shadowed names \
                   against the same document with links and aliases expanded and loop variables \
                   renamed apart, and against the one with loops unrolled for the current value; \
                   everything shown and every message is compared over histories of values and \
                   events; non-trivial: something was expanded and a message was emitted",
            assumptions: &[TWINS],
            probes: no_probes,
        },
        Property {
            id: "C19",
            run: c19,
            quick: 4_000,
            thorough: 200_000,
            rule: "the same scripts (scenes with animations and transitions) run alone, interleaved \
                   with other views on one thread while views are created and dropped, and on \
                   several threads at once; all fields of everything shown, messages and output of \
                   every update are compared; non-trivial: at least 2 different views with messages",
            assumptions: &[TWINS],
            probes: no_probes,
        },
    ]
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Default)]
pub struct Rich {
    pub animations: bool,
    pub transitions: bool,
    pub handlers: usize,
    pub draggable: usize,
    pub wild: usize,
    /// Without styles for which layouts of the layout library depend on its cache.
    pub tame: bool,
}

/// A scene which uses everything.
pub fn rich(case: &mut Case, o: &Rich) -> Scene {
    let opts = SceneOpts {
        doc: Opts {
            pipes: 8,
            extra_attrs: 15,
            classes: 70,
            handlers: o.handlers,
            ..Opts::default()
        },
        draggable: o.draggable,
        animations: o.animations,
        ..SceneOpts::default()
    };
    let mut s = scene(case, &opts);
    crate::props::styles::dynamic_attrs(&mut case.rng, &mut s.doc);
    let r = &mut case.rng;
    let mut sheet = s.sheet.clone();
    let n = if case.tiny { 2 } else { r.range(o.wild / 2, o.wild) };
    for _ in 0..n {
        let selectors = (0..r.range(1, 2)).map(|_| crate::props::styles::gen_complex(r, 20)).collect();
        let mut decls: Vec<Decl> = (0..r.range(1, 3)).map(|_| gen_decl(r)).collect();
        if o.transitions && r.chance(60) {
            let p = pick_longhand(r);
            let p = if r.chance(50) { decls[0].prop.clone() } else { p.to_string() };
            decls.insert(0, transition(r, &p));
        }
        let at = r.below(sheet.rules.len() + 1);
        sheet.rules.insert(at, Rule { selectors, decls });
    }
    if o.transitions {
        for rule in sheet.rules.iter_mut() {
            if r.chance(25) && !rule.decls.iter().any(|d| d.prop == "transition") {
                let p = rule.decls[0].prop.clone();
                rule.decls.insert(0, transition(r, &p));
            }
        }
    }
    if o.tame {
        tame(&mut sheet);
    }
    crate::props::styles::replace_sheet(case, &mut s, sheet);
    s
}

fn tame(sheet: &mut Sheet) {
    for r in sheet.rules.iter_mut() {
        let wild = |p: &str| p == "display" || p.starts_with("align-") || p.starts_with("justify-");
        r.decls.retain(|d| !wild(&d.prop));
    }
    sheet.rules.retain(|r| !r.decls.is_empty());
    sheet.rules.insert(0, Rule::new(Simple::All, vec![Decl::one("display", Tok::Kw("flex".into()))]));
    for d in sheet.rules.iter_mut().flat_map(|r| r.decls.iter_mut()) {
        if d.prop.starts_with("background") {
            continue;
        }
        for t in d.layers.iter_mut().flatten() {
            if let Tok::Pct(v) = t {
                *t = Tok::Dim(*v, "px");
            }
        }
    }
}

pub fn transition(r: &mut Rng, prop: &str) -> Decl {
    let mut toks = vec![Tok::Kw(prop.to_string()), Tok::Time(r.range(0, 8) as f32 / 4.0, false)];
    if r.chance(50) {
        toks.push(Tok::Kw("linear".into()));
        if r.chance(50) {
            toks.push(Tok::Time(r.range(0, 4) as f32 / 4.0, false));
        }
    }
    Decl::of("transition", toks)
}

/// A view with the last thing it showed.
pub struct Actor {
    pub view: View,
    pub last: Option<SNode>,
    pub held: Option<MouseButtons>,
}

impl Actor {
    pub fn new(html: &str, css: &str, pipes: &Pipes) -> Result<Self, String> {
        Self::with(html, css, &Provided { pipes: pipes.clone(), fonts: 1.0, lang: String::new() })
    }

    pub fn with(html: &str, css: &str, env: &Provided) -> Result<Self, String> {
        let view = load_env(html, css, env).map_err(|e| format!("does not load: {e}"))?;
        Ok(Actor {
            view,
            last: None,
            held: None,
        })
    }
    pub fn step(&mut self, step: &Step, value: &Value) -> Result<Output, String> {
        let output = update(&mut self.view, step, value)?;
        self.last = Some(snap(&self.view));
        Ok(output)
    }
    pub fn shown(&self) -> &SNode {
        self.last.as_ref().expect("after an update")
    }
    pub fn events(&mut self, r: &mut Rng, max: usize) -> Vec<InputEvent> {
        gen_events(r, self.last.as_ref(), &mut self.held, max, &EventOpts { moves: 50, buttons: 35 })
    }
}

pub fn viewport(r: &mut Rng, old: [f32; 2], percent: usize) -> [f32; 2] {
    if r.chance(percent) {
        // both sides, or only one of them
        match r.below(4) {
            0 => [r.range(0, 1600) as f32, old[1]],
            1 => [old[0], r.range(0, 1200) as f32],
            _ => [r.range(0, 1600) as f32, r.range(0, 1200) as f32],
        }
    } else {
        old
    }
}

// ---------------------------------------------------------------------------------------------

fn c03(case: &mut Case) -> Verdict {
    let tame = case.rng.chance(60);
    let s = rich(case, &Rich { handlers: 20, draggable: 10, wild: 10, tame, ..Rich::default() });
    let mut mirror = Mirror::default();
    let mut old = Actor::new(&s.html, &s.css, &s.pipes)?;
    let hostile = *case.rng.pick(&[0, 0, 10, 30]);
    let mut value = gen_value(&mut case.rng, &s.model, hostile);
    let mut port = [800.0, 600.0];
    let mut trees = BTreeSet::new();
    let updates = case.updates(3, 2, 12);
    for i in 0..updates {
        let step = Step {
            ms: *case.rng.pick(&[0, 16, 100, 2000]),
            viewport: port,
            events: old.events(&mut case.rng, if i == 0 { 0 } else { 4 }),
        };
        case.log(format!("UPDATE {i} {} ms {port:?} {:?} {value}", step.ms, step.events));
        old.step(&step, &value).map_err(|e| format!("update {i}: {e}"))?;
        mirror.update(old.shown());
        trees.insert(old.shown().digest());
        if case.rng.chance(70) {
            value = mutate(&mut case.rng, &s.model, &value, hostile);
        }
        port = viewport(&mut case.rng, port, 20);
    }
    // take the pointer away, press and release elsewhere
    let mut fresh = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut away = vec![InputEvent::MouseMove([-90000.0, -90000.0])];
    if let Some(b) = old.held.take() {
        away.push(InputEvent::MouseButtonUp(b));
    }
    away.push(InputEvent::MouseButtonDown(MouseButtons::Left));
    away.push(InputEvent::MouseButtonUp(MouseButtons::Left));
    let step = Step { ms: 16, viewport: port, events: away };
    case.log(format!("FINAL viewport {port:?} {value}"));
    old.step(&step, &value)?;
    fresh.step(&step, &value)?;
    mirror.update(old.shown());
    let step = Step { ms: 16, viewport: port, events: vec![] };
    for i in 0..3 {
        old.step(&step, &value)?;
        fresh.step(&step, &value)?;
        mirror.update(old.shown());
        let Some(d) = diff(old.shown(), fresh.shown()) else { continue };
        if let Some(d) = diff_looks(old.shown(), fresh.shown()) {
            bail!("{i}: view with a history and fresh view: {d}");
        }
        // boxes differ, is that the cache of the layout library?
        if tame && mirror.check(old.shown()).is_err() {
            bail!("{i}: view with a history and fresh view: {d}");
        }
        case.count("stale boxes of the layout library", 1);
        break;
    }
    let before = old.shown().clone();
    old.step(&step, &value)?;
    if let Some(d) = diff(&before, old.shown()) {
        bail!("repeated update: {d}");
    }
    case.count("nodes compared", before.count());
    // from here on both have the same state
    let same = diff(old.shown(), fresh.shown()).is_none();
    for i in 0..if same { case.rng.below(5) } else { 0 } {
        let step = Step {
            ms: 16,
            viewport: port,
            events: fresh.events(&mut case.rng, 3),
        };
        case.log(format!("COMMON {i} {:?} {value}", step.events));
        old.step(&step, &value)?;
        fresh.step(&step, &value)?;
        mirror.update(old.shown());
        if let Some(d) = diff_looks(old.shown(), fresh.shown()) {
            bail!("common update {i}: view with a history and fresh view: {d}");
        }
        if let Some(d) = diff(old.shown(), fresh.shown()) {
            if tame && mirror.check(old.shown()).is_err() {
                bail!("common update {i}: view with a history and fresh view: {d}");
            }
            case.count("stale boxes of the layout library", 1);
            break;
        }
        trees.insert(fresh.shown().digest());
        case.count("common updates", 1);
        case.count("nodes compared", fresh.shown().count());
        if case.rng.chance(60) {
            value = mutate(&mut case.rng, &s.model, &value, hostile);
        }
    }
    case.count("distinct shown trees", trees.len());
    case.count("updates", updates);
    case.nontrivial = trees.len() >= 3;
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn c17(case: &mut Case) -> Verdict {
    let r = &mut case.rng;
    let mut pool: Vec<String> = "alpha beta gamma delta x-1 y_2 row1 Row1 m id main ж 7 #h"
        .split(' ')
        .map(String::from)
        .collect();
    if r.chance(50) {
        for id in ["main page", " alpha", "beta ", "a.b", "{alpha}", "null", "true", "-3.5", "a\"b", "<p>", "tab\tx", "two\nlines", "0"] {
            pool.push(id.to_string());
        }
    }
    let mut templates: Vec<(String, Elem)> = vec![];
    // slots of the value which hold ids
    let slots = ["s0", "s1", "s2", "s3", "s4"];
    let mut body = Elem::new("body");
    let bind = |b: Binder| Attr::Bound("id".into(), vec![Span::Bind(b)]);
    let on = |r: &mut Rng, e: &mut Elem| {
        if r.chance(35) {
            let b = Binder::new(&[*r.pick(&["on", "off"])]);
            e.attrs.push(Attr::Visible(r.chance(50), b));
        }
    };
    for (i, slot) in slots.iter().enumerate() {
        if r.chance(75) {
            let mut e = Elem::new(r.pick(&["div", "p", "img", "input"]));
            on(r, &mut e);
            if r.chance(25) {
                // a template, with an id of its own or of its link
                let name = format!("t{i}");
                e = Elem::new("link").attr("href", &format!("#{name}"));
                on(r, &mut e);
                let mut root = Elem::new(r.pick(&["div", "img"]));
                match r.below(5) {
                    0 => {
                        e.attrs.push(Attr::Alias("z".into(), Binder::new(&["slots", slot])));
                        root.attrs.push(bind(Binder::new(&["z"])));
                    }
                    1 => e.attrs.push(bind(Binder::new(&["slots", slot]))),
                    2 => e = e.attr("id", &format!("link{i}")),
                    3 => root = root.attr("id", &format!("root{i}")),
                    _ => {
                        e = e.attr("id", &format!("link{i}"));
                        root = root.attr("id", &format!("root{i}"));
                    }
                }
                templates.push((name, root));
            } else if r.chance(20) {
                e.attrs.push(Attr::Alias("z".into(), Binder::new(&["slots", slot])));
                e.attrs.push(bind(Binder::new(&["z"])));
            } else if r.chance(20) {
                e.attrs.push(Attr::Bound(
                    "id".into(),
                    vec![
                        Span::Lit(format!("p{i}-")),
                        Span::Bind(Binder::new(&["slots", slot])),
                        Span::Lit("-q".into()),
                    ],
                ));
            } else {
                e.attrs.push(bind(Binder::new(&["slots", slot])));
            }
            if r.chance(30) {
                let mut wrap = Elem::new("section");
                on(r, &mut wrap);
                wrap.children.push(Node::Elem(e));
                e = wrap;
            }
            body.children.push(Node::Elem(e));
        }
        if r.chance(40) {
            let mut e = Elem::new("div").attr("id", &format!("static{i}"));
            on(r, &mut e);
            body.children.push(Node::Elem(e));
        }
    }
    if r.chance(85) {
        let mut item = Elem::new("li");
        item.attrs.push(Attr::Repeat("it".into(), r.range(1, 5), Binder::new(&["rows"])));
        item.attrs.push(bind(Binder::new(&["it", "id"])));
        if r.chance(50) {
            let mut sub = Elem::new("b");
            sub.attrs.push(Attr::Repeat("s".into(), r.range(1, 3), Binder::new(&["it", "subs"])));
            sub.attrs.push(bind(Binder::new(&["s"])));
            item.children.push(Node::Elem(sub));
        }
        let at = r.below(body.children.len() + 1);
        let mut list = Elem::new("ul");
        on(r, &mut list);
        list.children.push(Node::Elem(item));
        body.children.insert(at, Node::Elem(list));
    }
    let doc = Doc { templates, body };
    let mut all = doc.clone();
    all.body.walk_mut(&mut |e| e.attrs.retain(|a| !matches!(a, Attr::Visible(..))));
    let pipes = Pipes::new();
    let mut layout = if r.chance(50) { Layout::plain() } else { Layout::varied(r.next()) };
    let html = html(&doc, &mut layout);
    case.log(format!("HTML {html}"));
    let r = &mut case.rng;
    let mut view = load(&html, "", &pipes).map_err(|e| format!("does not load: {e}"))?;

    let mut free = pool.clone();
    r.shuffle(&mut free);
    let take = |r: &mut Rng, free: &mut Vec<String>| -> Value {
        match free.pop() {
            Some(id) if !r.chance(12) => match id.parse::<Value>() {
                Ok(v) if !v.is_null() && r.chance(50) => v,
                _ => json!(id),
            },
            Some(id) => {
                free.insert(0, id);
                Value::Null
            }
            None => Value::Null,
        }
    };
    let mut value = json!({"on": true, "off": false, "slots": {}, "rows": []});
    for s in slots {
        value["slots"][s] = take(r, &mut free);
    }
    // the element which had an id last
    let mut holder: HashMap<String, Vec<u32>> = HashMap::new();
    // ids which copies of list items had when they were hidden
    let mut copies: HashMap<Vec<usize>, String> = HashMap::new();
    let updates = if case.tiny { 4 } else { r.range(4, 14) };
    for i in 0..updates {
        let r = &mut case.rng;
        // change a few ids: swap, move, release, take
        for _ in 0..r.below(4) {
            let mut places: Vec<String> = slots.iter().map(|s| format!("/slots/{s}")).collect();
            if let Some(rows) = value["rows"].as_array() {
                for (k, row) in rows.iter().enumerate() {
                    places.push(format!("/rows/{k}/id"));
                    for j in 0..row["subs"].as_array().map(|a| a.len()).unwrap_or(0) {
                        places.push(format!("/rows/{k}/subs/{j}"));
                    }
                }
            }
            let a = r.pick(&places).clone();
            let b = r.pick(&places).clone();
            match r.below(8) {
                0..=2 => {
                    let x = value.pointer(&a).cloned().unwrap();
                    let y = value.pointer(&b).cloned().unwrap();
                    *value.pointer_mut(&a).unwrap() = y;
                    *value.pointer_mut(&b).unwrap() = x;
                }
                3 => {
                    let x = value.pointer(&a).cloned().unwrap();
                    if !x.is_null() {
                        free.insert(0, eval_string(&x));
                    }
                    *value.pointer_mut(&a).unwrap() = take(r, &mut free);
                }
                4 => {
                    let row = json!({"id": take(r, &mut free), "subs": []});
                    let rows = value["rows"].as_array_mut().unwrap();
                    let at = r.below(rows.len() + 1);
                    rows.insert(at, row);
                }
                5 => {
                    let id = take(r, &mut free);
                    let rows = value["rows"].as_array_mut().unwrap();
                    if !rows.is_empty() {
                        let k = r.below(rows.len());
                        rows[k]["subs"].as_array_mut().unwrap().push(id);
                    } else if !id.is_null() {
                        free.push(eval_string(&id));
                    }
                }
                6 => {
                    let rows = value["rows"].as_array_mut().unwrap();
                    if !rows.is_empty() {
                        let k = r.below(rows.len());
                        let gone = rows.remove(k);
                        for v in std::iter::once(&gone["id"]).chain(gone["subs"].as_array().unwrap()) {
                            if !v.is_null() {
                                free.insert(0, eval_string(v));
                            }
                        }
                    }
                }
                _ => {
                    let key = *r.pick(&["on", "off"]);
                    value[key] = json!(r.chance(50));
                }
            }
        }
        case.trace.push(format!("UPDATE {i} {value}"));
        update(&mut view, &Step::new(), &value)?;
        let want = Eval::run(&doc, &value, &pipes);
        let every = Eval::run(&all, &value, &pipes);
        let arena = Arena::new(&want);
        let got = snap(&view);
        let mut shown = vec![];
        shown_elements(&got, &mut shown);
        if shown.len() != arena.items.len() {
            bail!("update {i}: {} elements shown, expected {}", shown.len(), arena.items.len());
        }
        for (item, s) in arena.items.iter().zip(&shown) {
            let Some(id) = item.elem.attrs.get("id").filter(|id| !id.is_empty()) else { continue };
            match view.get_element_by_id(id) {
                Some(e) if e.node == s.node => {}
                Some(e) => bail!(
                    "update {i}: lookup of {id:?} finds <{} {:?}>, expected {}", e.tag, e.attrs, s.label()
                ),
                None => bail!("update {i}: lookup of {id:?} finds nothing, expected {}", s.label()),
            }
            case.count("ids found", 1);
            let moved = holder.insert(id.clone(), item.elem.uid.clone());
            if moved.is_some_and(|old| old != item.elem.uid) {
                case.count("ids moved", 1);
                case.nontrivial = true;
            }
        }
        let mut used = BTreeSet::new();
        ids(&every, &mut used);
        for (k, row) in value["rows"].as_array().unwrap().iter().enumerate() {
            copies.insert(vec![k], eval_string(&row["id"]));
            for (j, sub) in row["subs"].as_array().unwrap().iter().enumerate() {
                copies.insert(vec![k, j], eval_string(sub));
            }
        }
        used.extend(copies.values().cloned());
        for id in pool.iter().flat_map(|id| {
            let bound = (0..slots.len()).map(move |i| format!("p{i}-{id}-q"));
            std::iter::once(id.clone()).chain(bound)
        }).chain((0..slots.len()).flat_map(|i| [format!("link{i}"), format!("root{i}"), format!("static{i}")])) {
            if !used.contains(&id) {
                if let Some(e) = view.get_element_by_id(&id) {
                    bail!("update {i}: lookup of {id:?} finds <{} {:?}>, no element has it", e.tag, e.attrs);
                }
                case.count("ids absent", 1);
            }
        }
        case.count("updates", 1);
        case.observe(got.digest());
    }
    Ok(())
}

fn ids(e: &RElem, out: &mut BTreeSet<String>) {
    if let Some(id) = e.attrs.get("id") {
        out.insert(id.clone());
    }
    for c in e.elems() {
        ids(c, out);
    }
}

// ---------------------------------------------------------------------------------------------

/// Expands links and aliases and renames loop variables apart; with a value loops are unrolled.
struct Expander<'a> {
    eval: Eval<'a>,
    unroll: bool,
    names: usize,
    expanded: usize,
}

impl Expander<'_> {
    fn binder(&self, b: &Binder, locals: &HashMap<String, Vec<String>>) -> Binder {
        let mut path = match locals.get(&b.path[0]) {
            Some(head) => head.clone(),
            None => vec![b.path[0].clone()],
        };
        path.extend(b.path[1..].iter().cloned());
        Binder { path, pipe: b.pipe.clone() }
    }

    fn spans(&self, spans: &[Span], locals: &HashMap<String, Vec<String>>) -> Vec<Span> {
        spans
            .iter()
            .map(|s| match s {
                Span::Bind(b) => Span::Bind(self.binder(b, locals)),
                s => s.clone(),
            })
            .collect()
    }

    fn attr(&self, a: &Attr, locals: &HashMap<String, Vec<String>>) -> Attr {
        match a {
            Attr::Bound(k, spans) => Attr::Bound(k.clone(), self.spans(spans, locals)),
            Attr::Flag(k, b) => Attr::Flag(k.clone(), self.binder(b, locals)),
            Attr::On(e, args) => Attr::On(
                e.clone(),
                args.iter()
                    .map(|a| match a {
                        Arg::Bind(b) => Arg::Bind(self.binder(b, locals)),
                        a => a.clone(),
                    })
                    .collect(),
            ),
            a => a.clone(),
        }
    }

    fn body(&mut self, e: &Elem, locals: &HashMap<String, Vec<String>>) -> Elem {
        let mut out = Elem::new(&e.tag);
        for a in &e.attrs {
            match a {
                Attr::Alias(..) | Attr::Visible(..) | Attr::Repeat(..) => {}
                a => out.attrs.push(self.attr(a, locals)),
            }
        }
        for child in &e.children {
            match child {
                Node::Text(spans) => out.children.push(Node::Text(self.spans(spans, locals))),
                Node::Elem(c) => {
                    if c.tag == "link" {
                        self.expanded += 1;
                    }
                    let c = self.eval.expand(c);
                    let mut locals = locals.clone();
                    for a in &c.attrs {
                        if let Attr::Alias(name, b) = a {
                            let path = self.binder(b, &locals).path;
                            locals.insert(name.clone(), path);
                            self.expanded += 1;
                        }
                    }
                    let visible = c.attrs.iter().find(|a| matches!(a, Attr::Visible(..))).cloned();
                    let repeat = c.attrs.iter().find(|a| matches!(a, Attr::Repeat(..))).cloned();
                    match (visible, repeat) {
                        (Some(Attr::Visible(yes, b)), _) => {
                            let b = self.binder(&b, &locals);
                            let mut e = self.body(&c, &locals);
                            e.attrs.insert(0, Attr::Visible(yes, b));
                            out.children.push(Node::Elem(e));
                        }
                        (_, Some(Attr::Repeat(name, count, b))) => {
                            let b = self.binder(&b, &locals);
                            if self.unroll {
                                let list = get(self.eval.value, &b.path, &b.pipe, self.eval.pipes);
                                let len = list.as_array().map(|a| a.len()).unwrap_or(0);
                                for i in 0..count.min(len) {
                                    let mut path = b.path.clone();
                                    path.push(i.to_string());
                                    locals.insert(name.clone(), path);
                                    let e = self.body(&c, &locals);
                                    out.children.push(Node::Elem(e));
                                    self.expanded += 1;
                                }
                            } else {
                                self.names += 1;
                                let fresh = format!("u{}x", self.names);
                                locals.insert(name.clone(), vec![fresh.clone()]);
                                let mut e = self.body(&c, &locals);
                                e.attrs.insert(0, Attr::Repeat(fresh, count, b));
                                out.children.push(Node::Elem(e));
                            }
                        }
                        _ => {
                            let e = self.body(&c, &locals);
                            out.children.push(Node::Elem(e));
                        }
                    }
                }
            }
        }
        out
    }
}

fn expand(doc: &Doc, value: &Value, pipes: &Pipes, unroll: bool) -> (Doc, usize) {
    let eval = Eval {
        templates: doc.templates.iter().map(|(id, e)| (format!("#{id}"), e)).collect(),
        value,
        pipes,
    };
    let mut x = Expander { eval, unroll, names: 0, expanded: 0 };
    let body = x.body(&doc.body, &HashMap::new());
    (Doc::new(body), x.expanded)
}

fn c18(case: &mut Case) -> Verdict {
    let mut o = SceneOpts {
        draggable: if case.rng.chance(20) { 15 } else { 0 },
        ..SceneOpts::default()
    };
    o.doc.handlers = 60;
    o.doc.aliases = 35;
    o.doc.links = 30;
    o.doc.loops = 25;
    o.doc.pipes = 10;
    let s = scene(case, &o);
    let hostile = *case.rng.pick(&[0, 0, 0, 15]);
    let mut value = gen_value(&mut case.rng, &s.model, hostile);
    let (inlined, expanded) = expand(&s.doc, &value, &s.pipes, false);
    let inlined_html = html(&inlined, &mut Layout::plain());
    case.log(format!("INLINED {inlined_html}"));
    let mut a = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut b = Actor::new(&inlined_html, &s.css, &s.pipes).map_err(|e| format!("inlined document: {e}"))?;
    let updates = case.updates(3, 3, 10);
    let mut messages = 0;
    for i in 0..updates {
        let step = Step {
            ms: 16,
            viewport: [800.0, 600.0],
            events: a.events(&mut case.rng, if i == 0 { 0 } else { 7 }),
        };
        case.log(format!("UPDATE {i} {:?} {value}", step.events));
        let x = a.step(&step, &value)?;
        let y = b.step(&step, &value)?;
        compare_step(&a, &b, &x, &y).map_err(|e| format!("update {i}: document and expanded document: {e}"))?;
        messages += x.messages.len();
        case.count("updates", 1);
        case.count("messages", x.messages.len());
        case.count("nodes compared", a.shown().count());
        if case.rng.chance(60) {
            value = mutate(&mut case.rng, &s.model, &value, hostile);
        }
    }
    // loops unrolled for the last value, all views are new
    let (unrolled, n) = expand(&s.doc, &value, &s.pipes, true);
    let unrolled_html = html(&unrolled, &mut Layout::plain());
    case.log(format!("UNROLLED {unrolled_html}"));
    let mut a = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut b = Actor::new(&unrolled_html, &s.css, &s.pipes).map_err(|e| format!("unrolled document: {e}"))?;
    for i in 0..if case.tiny { 2 } else { 5 } {
        let step = Step {
            ms: 16,
            viewport: [800.0, 600.0],
            events: a.events(&mut case.rng, if i == 0 { 0 } else { 7 }),
        };
        case.log(format!("UNROLLED UPDATE {i} {:?} {value}", step.events));
        let x = a.step(&step, &value)?;
        let y = b.step(&step, &value)?;
        compare_step(&a, &b, &x, &y)
            .map_err(|e| format!("unrolled update {i}: document and unrolled document: {e}"))?;
        messages += x.messages.len();
    }
    case.count("links, aliases and loops expanded", expanded + n);
    case.nontrivial = expanded + n > 0 && messages > 0;
    Ok(())
}

pub fn compare_step(a: &Actor, b: &Actor, x: &Output, y: &Output) -> Verdict {
    if let Some(d) = diff(a.shown(), b.shown()) {
        return Err(d);
    }
    if x.messages != y.messages {
        bail!("messages differ: {} and {}", json!(x.messages), json!(y.messages));
    }
    if x.is_input_captured != y.is_input_captured || x.pointer != y.pointer {
        bail!("output differs: {x:?} and {y:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
struct Script {
    env: Provided,
    html: String,
    css: String,
    steps: Vec<(Step, Value)>,
}

type Transcript = Vec<(SNode, Vec<Value>, bool, String)>;

fn perform(view: &mut View, step: &Step, value: &Value, out: &mut Transcript) -> Verdict {
    let output = update(view, step, value)?;
    out.push((snap(view), output.messages, output.is_input_captured, format!("{:?}", output.pointer)));
    Ok(())
}

fn same_transcript(a: &Transcript, b: &Transcript, how: &str) -> Verdict {
    if a.len() != b.len() {
        bail!("{how}: {} and {} updates", a.len(), b.len());
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if let Some(d) = diff(&x.0, &y.0) {
            bail!("{how}: update {i}: {d}");
        }
        if x.1 != y.1 {
            bail!("{how}: update {i}: messages differ: {} and {}", json!(x.1), json!(y.1));
        }
        if x.2 != y.2 || x.3 != y.3 {
            bail!("{how}: update {i}: captured or cursor differ");
        }
    }
    Ok(())
}

/// Views of one program need not share what the application provides.
fn environment(r: &mut Rng, k: usize) -> Provided {
    let mut pipes = scene_pipes();
    if k % 2 == 1 {
        // the same names for other functions
        pipes.insert("upper".into(), |v| json!(eval_string(&v).to_lowercase()));
        pipes.insert("len".into(), |v| json!(v.to_string().len() + 1));
        pipes.insert("not".into(), |v| v);
        pipes.insert("wrap".into(), |v| json!([v, 1]));
        pipes.insert("opt-1".into(), |v| json!({ "w": v }));
    }
    Provided {
        pipes,
        fonts: *r.pick(&[1.0, 1.0, 0.5, 2.0]),
        lang: r.pick(&["", "", "-en", " (ж)"]).to_string(),
    }
}

fn alone(s: &Script) -> Result<Transcript, String> {
    let mut view = load_env(&s.html, &s.css, &s.env).map_err(|e| format!("does not load: {e}"))?;
    let mut out = vec![];
    for (step, value) in &s.steps {
        perform(&mut view, step, value, &mut out)?;
    }
    Ok(out)
}

fn c19(case: &mut Case) -> Verdict {
    let n = if case.tiny { 2 } else { case.rng.range(2, 4) };
    let mut scripts = vec![];
    let mut transcripts = vec![];
    for k in 0..n {
        let env = environment(&mut case.rng, k);
        // the first two are often the same document with other inputs
        let rich_opts = Rich {
            animations: true,
            transitions: true,
            handlers: 45,
            draggable: 10,
            wild: 8,
            tame: false,
        };
        let s = rich(case, &rich_opts);
        let (html, css) = if k == 1 && case.rng.chance(40) {
            let first: &Script = &scripts[0];
            (first.html.clone(), first.css.clone())
        } else {
            (s.html.clone(), s.css.clone())
        };
        let mut a = Actor::with(&html, &css, &env)?;
        let mut value = gen_value(&mut case.rng, &s.model, 5);
        let mut port = [800.0, 600.0];
        let mut steps = vec![];
        let mut out: Transcript = vec![];
        for i in 0..if case.tiny { 3 } else { case.rng.range(3, 9) } {
            let step = Step {
                ms: *case.rng.pick(&[0, 16, 100, 333]),
                viewport: port,
                events: a.events(&mut case.rng, if i == 0 { 0 } else { 6 }),
            };
            case.log(format!("VIEW {k} UPDATE {i} {} ms {port:?} {:?} {value}", step.ms, step.events));
            let output = a.step(&step, &value)?;
            out.push((
                a.shown().clone(),
                output.messages,
                output.is_input_captured,
                format!("{:?}", output.pointer),
            ));
            steps.push((step, value.clone()));
            value = mutate(&mut case.rng, &s.model, &value, 5);
            port = viewport(&mut case.rng, port, 10);
        }
        scripts.push(Script { html, css, env, steps });
        transcripts.push(out);
    }
    // again, alone
    for (k, (s, t)) in scripts.iter().zip(&transcripts).enumerate() {
        same_transcript(t, &alone(s)?, &format!("view {k} run twice"))?;
    }
    // interleaved, with other views coming and going
    let mut views = vec![];
    for s in &scripts {
        views.push((load_env(&s.html, &s.css, &s.env)?, 0usize, Transcript::new()));
    }
    let mut others: Vec<View> = vec![];
    loop {
        let open: Vec<usize> = (0..n).filter(|k| views[*k].1 < scripts[*k].steps.len()).collect();
        if open.is_empty() {
            break;
        }
        let k = *case.rng.pick(&open);
        let (view, at, out) = &mut views[k];
        let (step, value) = &scripts[k].steps[*at];
        perform(view, step, value, out)?;
        *at += 1;
        case.count("interleaved updates", 1);
        match case.rng.below(5) {
            0 => {
                let s = case.rng.pick(&scripts);
                let mut v = load_env(&s.html, &s.css, &s.env)?;
                if let Some((step, value)) = s.steps.last() {
                    update(&mut v, step, value)?;
                }
                others.push(v);
                case.count("views created meanwhile", 1);
            }
            1 => {
                others.pop();
            }
            _ => {}
        }
    }
    for (k, ((_, _, out), t)) in views.iter().zip(&transcripts).enumerate() {
        same_transcript(t, out, &format!("view {k} interleaved"))?;
    }
    drop(views);
    drop(others);
    // on threads of their own, every script twice
    let gate = std::sync::Barrier::new(2 * n);
    let results: Vec<Result<Transcript, String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..2 * n)
            .map(|k| {
                let s = &scripts[k % n];
                let gate = &gate;
                let job = move || {
                    gate.wait();
                    std::panic::catch_unwind(|| alone(s)).unwrap_or_else(|_| Err("panic".into()))
                };
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(scope, job).expect("thread")
            })
            .collect();
        handles.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    for (k, result) in results.into_iter().enumerate() {
        let out = result.map_err(|e| format!("view {} on its own thread: {e}", k % n))?;
        same_transcript(&transcripts[k % n], &out, &format!("view {} on its own thread", k % n))?;
        case.count("threaded updates", out.len());
    }
    let mut talking = 0;
    for t in &transcripts {
        talking += t.iter().any(|u| !u.1.is_empty()) as usize;
        case.count("updates", t.len());
        case.count("messages", t.iter().map(|u| u.1.len()).sum());
    }
    case.nontrivial = talking >= 2;
    Ok(())
}
