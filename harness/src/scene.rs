//! Scenes: a document, a style sheet with geometry and states, and a history of inputs.

use crate::case::Case;
use crate::css::*;
use crate::doc::*;
use crate::drive::*;
use crate::gen::*;
use crate::machine::{Machine, Predicted};
use crate::rng::Rng;
use crate::snap::{snap, SNode};
use bumaga::{InputEvent, Keys, MouseButtons, Output, View};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone)]
pub struct SceneOpts {
    pub doc: Opts,
    /// Percent of elements with a style attribute.
    pub inline: usize,
    pub draggable: usize,
    /// Handlers with payload for these events on this percent of elements.
    pub events: &'static [&'static str],
    pub handlers: usize,
    /// Percent of handlers which carry the event.
    pub payload: usize,
    pub rules: usize,
    pub pseudo: bool,
    pub animations: bool,
    /// pointer-events, visibility and cursor
    pub targets: usize,
}

impl Default for SceneOpts {
    fn default() -> Self {
        SceneOpts {
            doc: Opts {
                mixed: false,
                pipes: 0,
                extra_attrs: 5,
                classes: 80,
                ..Opts::default()
            },
            inline: 15,
            draggable: 0,
            events: &[],
            handlers: 0,
            payload: 0,
            rules: 14,
            pseudo: true,
            animations: false,
            targets: 20,
        }
    }
}

pub struct Scene {
    pub model: Ty,
    pub doc: Doc,
    pub sheet: Sheet,
    pub html: String,
    pub css: String,
    pub pipes: Pipes,
}

/// Declarations which may stand in a style attribute, by their text.
pub fn inline_table() -> &'static HashMap<String, Vec<Decl>> {
    static TABLE: OnceLock<HashMap<String, Vec<Decl>>> = OnceLock::new();
    TABLE.get_or_init(|| {
        let mut r = Rng::new(77);
        let mut table = HashMap::new();
        while table.len() < 24 {
            let n = r.range(1, 3);
            let decls: Vec<Decl> = (0..n).map(|_| geometry_decl(&mut r)).collect();
            if decls.iter().any(|d| d.prop == "display") {
                continue;
            }
            table.insert(decls_text(&decls), decls);
        }
        // a style may hold nothing at all
        table.insert(String::new(), vec![]);
        table
    })
}

fn inline_texts() -> &'static Vec<String> {
    static LIST: OnceLock<Vec<String>> = OnceLock::new();
    LIST.get_or_init(|| {
        let mut list: Vec<String> = inline_table().keys().filter(|k| !k.is_empty()).cloned().collect();
        list.sort();
        list
    })
}

/// Transformer which turns any value into text of declarations.
pub fn style_pipe(v: Value) -> Value {
    let list = inline_texts();
    let text = v.to_string();
    let mut h = 7u64;
    for b in text.bytes() {
        h = crate::rng::mix(h ^ b as u64);
    }
    // nothing for every fifth value
    if h % 5 == 0 {
        return json!("");
    }
    json!(list[(h % list.len() as u64) as usize])
}

fn bool_pipe(v: Value) -> Value {
    json!(eval_bool(&v))
}

pub fn scene_pipes() -> Pipes {
    let mut p = pipes();
    p.insert("style".into(), style_pipe);
    p.insert("bool".into(), bool_pipe);
    p
}

fn px(v: usize) -> Tok {
    Tok::Dim(v as f32, "px")
}

fn kw(s: &str) -> Tok {
    Tok::Kw(s.into())
}

pub fn geometry_decl(r: &mut Rng) -> Decl {
    match r.below(14) {
        0 | 1 => Decl::one("width", px(r.range(5, 200))),
        2 | 3 => Decl::one("height", px(r.range(5, 150))),
        4 => Decl::one("margin-left", Tok::Dim(r.int(-20, 60) as f32, "px")),
        5 => Decl::one("margin-top", Tok::Dim(r.int(-20, 60) as f32, "px")),
        6 => Decl::one("padding", px(r.range(0, 20))),
        7 => Decl::one("left", px(r.range(0, 80))),
        8 => Decl::one("top", px(r.range(0, 80))),
        9 => Decl::one("position", kw(r.pick(&["absolute", "relative"]))),
        10 => Decl::one("display", kw(r.pick(&["flex", "block", "flex"]))),
        11 => Decl::one("flex-direction", kw(r.pick(&["row", "column", "row-reverse"]))),
        12 => Decl::one("gap", px(r.range(0, 20))),
        _ => Decl::of("border-width", vec![px(r.range(0, 6)), px(r.range(0, 6))]),
    }
}

fn target_decl(r: &mut Rng) -> Decl {
    match r.below(7) {
        0 => Decl::one("opacity", if r.chance(60) { Tok::Zero } else { Tok::Num(0.5) }),
        1 | 2 => Decl::one("visibility", kw(r.pick(&["hidden", "visible"]))),
        3 | 4 => Decl::one("pointer-events", kw(r.pick(&["none", "auto"]))),
        _ => Decl::one("cursor", kw(r.pick(&["pointer", "text", "help", "auto", "wait", "not-allowed"]))),
    }
}

pub fn words_selector(r: &mut Rng) -> Simple {
    match r.below(10) {
        0 => Simple::All,
        1..=3 => Simple::Type(r.pick(TAGS).to_string()),
        _ => Simple::Class(r.pick(&WORDS[..8]).to_string()),
    }
}

pub fn geometry_rule(r: &mut Rng, o: &SceneOpts) -> Rule {
    let mut first = vec![words_selector(r)];
    if o.pseudo && r.chance(25) {
        first.push(Simple::Pseudo(r.pick(&["hover", "active", "focus"]).to_string()));
    }
    let mut decls: Vec<Decl> = (0..r.range(1, 4)).map(|_| geometry_decl(r)).collect();
    if r.chance(o.targets) {
        decls.push(target_decl(r));
    }
    Rule {
        selectors: vec![Complex { first, rest: vec![] }],
        decls,
    }
}

/// Adds attributes to every element of the document which is not a link.
pub fn decorate(doc: &mut Doc, f: &mut dyn FnMut(&mut Elem, bool)) {
    for (_, root) in doc.templates.iter_mut() {
        root.walk_mut(&mut |e| {
            if e.tag != "link" {
                f(e, true)
            }
        });
    }
    doc.body.walk_mut(&mut |e| {
        if e.tag != "link" {
            f(e, false)
        }
    });
}

fn drag_attrs(r: &mut Rng, e: &mut Elem, percent: usize) {
    for c in e.children.iter_mut() {
        if let Node::Elem(c) = c {
            if c.tag != "link" && r.chance(percent) {
                match r.below(5) {
                    0 => c.attrs.push(Attr::Static("draggable".into(), "false".into())),
                    1 => {
                        let mut b = Binder::new(&["on"]);
                        b.pipe.push("bool".into());
                        c.attrs.push(Attr::Bound("draggable".into(), vec![Span::Bind(b)]));
                    }
                    _ => c.attrs.push(Attr::Static("draggable".into(), "true".into())),
                }
                // a draggable element inside of another one is not generated
                continue;
            }
            drag_attrs(r, c, percent);
        }
    }
}

pub fn scene(case: &mut Case, o: &SceneOpts) -> Scene {
    let tiny = case.tiny;
    let doc_opts = crate::props::content::sized(case, o.doc.clone());
    let r = &mut case.rng;
    let depth = r.range(1, 2);
    let model = gen_model(r, depth);
    let mut doc = gen_doc(r, &model, &doc_opts);
    let mut serial = 1000;
    decorate(&mut doc, &mut |e, _| {
        if r.chance(o.inline) && !e.has_attr("style") {
            if r.chance(50) {
                let text = r.pick(inline_texts()).clone();
                e.attrs.push(Attr::Static("style".into(), text));
            } else {
                let mut b = Binder::new(&[*r.pick(&["kind", "on", "title"])]);
                b.pipe.push("style".into());
                e.attrs.push(Attr::Bound("style".into(), vec![Span::Bind(b)]));
            }
        }
        for event in o.events {
            let has = e.attrs.iter().any(|a| matches!(a, Attr::On(n, _) if n == event));
            // handlers of text input decide which elements can be focused
            let p = if *event == "oninput" { o.handlers / 2 } else { o.handlers };
            if !has && r.chance(p) {
                serial += 1;
                let mut args = vec![Arg::Word(format!("{}-{serial}", &event[2..]))];
                if r.chance(o.payload) {
                    args.push(Arg::Event);
                }
                e.attrs.push(Attr::On(event.to_string(), args));
            }
        }
    });
    if o.draggable > 0 {
        drag_attrs(r, &mut doc.body, o.draggable);
    }
    let mut sheet = Sheet::default();
    let n = if tiny { 3 } else { r.range(o.rules / 2, o.rules) };
    for _ in 0..n {
        let rule = geometry_rule(r, o);
        sheet.rules.push(rule);
    }
    if o.animations {
        for name in ["move", "grow"] {
            let prop = if name == "move" { "margin-left" } else { "width" };
            let steps = vec![
                (0, vec![Decl::one(prop, px(r.range(0, 50)))]),
                (100, vec![Decl::one(prop, px(r.range(0, 150)))]),
            ];
            sheet.keyframes.push(Keyframes {
                name: name.into(),
                steps,
            });
            let selector = words_selector(r);
            sheet.rules.push(Rule::new(
                selector,
                vec![Decl::of(
                    "animation",
                    vec![Tok::Time(r.range(1, 8) as f32 / 4.0, false), kw("linear"), kw("infinite"), kw(name)],
                )],
            ));
        }
    }
    let mut layout = if r.chance(70) {
        Layout::plain()
    } else {
        Layout::varied(r.next())
    };
    let html = html(&doc, &mut layout);
    let css = sheet_text(&sheet);
    case.log(format!("HTML {html}"));
    case.log(format!("CSS {css}"));
    Scene {
        model,
        doc,
        sheet,
        html,
        css,
        pipes: scene_pipes(),
    }
}

/// Everything known about one update.
pub struct Observed {
    pub want: RElem,
    pub got: SNode,
    pub output: Output,
    pub predicted: Predicted,
    /// Number of elements whose structure is as expected.
    pub elements: usize,
}

pub struct Player<'a> {
    pub scene: &'a Scene,
    pub view: View,
    pub machine: Machine,
    pub held: Option<MouseButtons>,
    places: Vec<[f32; 2]>,
    pub last: Option<SNode>,
    /// Elements with their expected look of the last update.
    pub check_looks: bool,
    pub looks_compared: usize,
    pub states_seen: usize,
}

impl<'a> Player<'a> {
    pub fn new(scene: &'a Scene) -> Result<Self, String> {
        let view = load(&scene.html, &scene.css, &scene.pipes)?;
        Ok(Player {
            scene,
            view,
            machine: Machine::default(),
            held: None,
            places: vec![],
            last: None,
            check_looks: false,
            looks_compared: 0,
            states_seen: 0,
        })
    }

    /// One update of the view and of the reference.
    pub fn step(&mut self, step: &Step, value: &Value) -> Result<Observed, String> {
        let output = update(&mut self.view, step, value)?;
        let got = snap(&self.view);
        let want = Eval::run(&self.scene.doc, value, &self.scene.pipes);
        let mut arena = Arena::new(&want);
        let mut shown = vec![];
        shown_elements(&got, &mut shown);
        if shown.len() != arena.items.len() {
            bail_structure(&want, &got)?;
        }
        for (item, s) in arena.items.iter().zip(&shown) {
            if item.elem.tag != s.tag {
                bail_structure(&want, &got)?;
            }
        }
        self.machine.mark(&mut arena, &shown);
        self.states_seen += arena.items.iter().filter(|i| i.hover || i.active || i.focus).count();
        let looks = Styler {
            sheet: &self.scene.sheet,
            inline: inline_table(),
            viewport: step.viewport,
        }
        .run(&arena);
        if self.check_looks {
            for ((look, s), item) in looks.iter().zip(&shown).zip(&arena.items) {
                if let Some(look) = look {
                    self.looks_compared += look.check(s).map_err(|e| {
                        format!("{} (hover {} active {} focus {}): {e}", s.label(), item.hover, item.active, item.focus)
                    })?;
                }
            }
        }
        let mut world = self.machine.world(&arena, &shown, &looks, value, &self.scene.pipes);
        let mut texts = vec![];
        got.walk(&mut |s| {
            if s.is_text() || s.tag.is_empty() {
                texts.push((s.position, s.size));
            }
            if s.tag == "img" {
                for c in &s.children {
                    texts.push((c.position, c.size));
                }
            }
        });
        world.texts = texts;
        let predicted = self.machine.update(&world, &step.events);
        let elements = arena.items.len();
        drop(shown);
        drop(arena);
        self.last = Some(got.clone());
        Ok(Observed {
            want,
            got,
            output,
            predicted,
            elements,
        })
    }

    pub fn events(&mut self, r: &mut Rng, max: usize, o: &EventOpts) -> Vec<InputEvent> {
        let mut events = gen_events(r, self.last.as_ref(), &mut self.held, max, o);
        // come back to places where something may have started
        for event in events.iter_mut() {
            if let InputEvent::MouseMove(at) = event {
                if !self.places.is_empty() && r.chance(20) {
                    *at = *r.pick(&self.places);
                }
                if r.chance(30) {
                    self.places.push(*at);
                }
            }
        }
        let n = self.places.len();
        self.places.drain(..n.saturating_sub(3));
        events
    }
}

/// Random events which are possible now.
pub fn gen_events(
    r: &mut Rng,
    last: Option<&SNode>,
    held: &mut Option<MouseButtons>,
    max: usize,
    o: &EventOpts,
) -> Vec<InputEvent> {
    let mut events = vec![];
    for _ in 0..r.below(max + 1) {
        let kind = r.below(100);
        if kind < o.moves {
            events.push(InputEvent::MouseMove(gen_point(r, last)));
        } else if kind < o.moves + o.buttons {
            match held.take() {
                Some(b) => events.push(InputEvent::MouseButtonUp(b)),
                None => {
                    let b = if r.chance(75) { MouseButtons::Left } else { MouseButtons::Right };
                    *held = Some(b);
                    events.push(InputEvent::MouseButtonDown(b));
                }
            }
        } else {
            events.push(match r.below(6) {
                0 => InputEvent::KeyDown(*r.pick(KEYS)),
                1 => InputEvent::KeyUp(*r.pick(KEYS)),
                2 | 3 => InputEvent::Char(*r.pick(&['a', 'Z', ' ', 'ж', '😀', '\n', '"'])),
                4 => InputEvent::MouseWheel([r.f(-2.0, 2.0), r.f(-2.0, 2.0)]),
                _ => InputEvent::Unknown,
            });
        }
    }
    events
}

pub fn gen_point(r: &mut Rng, last: Option<&SNode>) -> [f32; 2] {
    let mut boxes = vec![];
    if let Some(last) = last {
        last.walk(&mut |s| {
            if s.size[0] > 0.0 && s.size[1] > 0.0 {
                // what can be dragged is worth more visits
                let n = if s.attrs.iter().any(|(k, v)| k == "draggable" && v == "true") { 4 } else { 1 };
                for _ in 0..n {
                    boxes.push((s.position, s.size));
                }
            }
        });
    }
    if boxes.is_empty() || r.chance(8) {
        return [r.f(-50.0, 900.0), r.f(-50.0, 700.0)];
    }
    let (p, s) = *r.pick(&boxes);
    let mut at = [0.0; 2];
    for i in 0..2 {
        at[i] = p[i]
            + match r.below(9) {
                0 => 0.0,
                1 => s[i],
                2 => -0.25,
                3 => s[i] - 0.25,
                4 => s[i] / 2.0,
                _ => s[i] * r.f(0.0, 1.0),
            };
    }
    at
}

pub struct EventOpts {
    pub moves: usize,
    pub buttons: usize,
}

pub const KEYS: &[Keys] = &[
    Keys::Unknown, Keys::Escape, Keys::Backspace, Keys::Delete, Keys::Insert, Keys::Enter,
    Keys::Tab, Keys::ArrowUp, Keys::ArrowDown, Keys::ArrowLeft, Keys::ArrowRight, Keys::End,
    Keys::Home, Keys::PageDown, Keys::PageUp, Keys::Alt, Keys::CapsLock, Keys::Ctrl, Keys::Shift,
];

fn bail_structure(want: &RElem, got: &SNode) -> Result<(), String> {
    let mut stats = crate::props::content::Compared::default();
    crate::props::content::compare(want, got, "body", &mut stats)?;
    Err("shown elements differ from the expected ones".into())
}
