//! Reference machine of pointer, button, focus, drag and key events.
//!
//! It observes the geometry of what is shown and predicts every message, the cursor and whether
//! input is captured.

use crate::css::{Arena, Look, Obs};
use crate::doc::{eval_string, get, Pipes, RArg};
use crate::snap::SNode;
use bumaga::{InputEvent, Keys, MouseButtons};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use taffy::NodeId;

#[derive(Clone, Debug, Default)]
struct Known {
    handlers: BTreeMap<String, Vec<RArg>>,
    draggable: bool,
    position: [f32; 2],
    size: [f32; 2],
}

#[derive(Clone, Debug)]
pub struct Expected {
    pub event: &'static str,
    pub node: NodeId,
    pub message: Value,
    /// Whether the property leaves it open if this message is sent.
    pub optional: bool,
}

#[derive(Default, Clone)]
pub struct Machine {
    mouse: [f32; 2],
    under: Vec<NodeId>,
    pub hover: HashSet<NodeId>,
    pub active: HashSet<NodeId>,
    pressed: Vec<NodeId>,
    pub focus: Option<NodeId>,
    pub drag: Option<NodeId>,
    known: HashMap<NodeId, Known>,
    /// A press over a text box, which may or may not count.
    text_pressed: bool,
    /// Two draggable elements were pressed at once.
    pub ambiguous: bool,
    pub seen: BTreeMap<&'static str, usize>,
}

pub struct Shown {
    pub node: NodeId,
    pub position: [f32; 2],
    pub size: [f32; 2],
    pub target: bool,
    pub cursor: &'static str,
}

pub struct World<'a> {
    pub shown: Vec<Shown>,
    /// Boxes of texts and pictures.
    pub texts: Vec<([f32; 2], [f32; 2])>,
    pub value: &'a Value,
    pub pipes: &'a Pipes,
}

/// Prediction for one update.
pub struct Predicted {
    pub messages: Vec<Expected>,
    pub cursor: &'static str,
    /// None: only text is under the pointer.
    pub captured: Option<bool>,
    pub under: usize,
}

fn inside(p: [f32; 2], position: [f32; 2], size: [f32; 2]) -> bool {
    (0..2).all(|i| p[i] - position[i] >= 0.0 && p[i] - position[i] < size[i])
}

enum Payload {
    Mouse,
    Key(Keys),
    Char(char),
}

impl Machine {
    /// Sets the pointer state left by the previous update.
    pub fn mark(&self, arena: &mut Arena, shown: &[&SNode]) {
        for (item, s) in arena.items.iter_mut().zip(shown) {
            item.hover = self.hover.contains(&s.node);
            item.active = self.active.contains(&s.node);
            item.focus = self.focus == Some(s.node);
        }
    }

    /// Describes what is shown: elements in document order with what is expected of them.
    pub fn world<'a>(
        &mut self,
        arena: &Arena,
        shown: &[&SNode],
        looks: &[Option<Look>],
        value: &'a Value,
        pipes: &'a Pipes,
    ) -> World<'a> {
        let mut list = vec![];
        for ((item, s), look) in arena.items.iter().zip(shown).zip(looks) {
            let kw = |p: &'static str, seen: &'static str| match look {
                Some(look) => match look.values[&(p, 0)] {
                    Obs::Kw(k) => k,
                    _ => unreachable!(),
                },
                None => seen,
            };
            let pointer_events = match s.pointer_events {
                bumaga::PointerEvents::Auto => "auto",
                bumaga::PointerEvents::None => "none",
            };
            let visibility = if s.visible { "visible" } else { "hidden" };
            list.push(Shown {
                node: s.node,
                position: s.position,
                size: s.size,
                target: kw("pointer-events", pointer_events) == "auto"
                    && kw("visibility", visibility) == "visible",
                cursor: kw("cursor", crate::css::cursor_name(s.pointer)),
            });
            let known = self.known.entry(s.node).or_default();
            known.handlers = item.elem.handlers.clone();
            known.draggable = item.elem.attrs.get("draggable").is_some_and(|v| v == "true");
            known.position = s.position;
            known.size = s.size;
        }
        World {
            shown: list,
            texts: vec![],
            value,
            pipes,
        }
    }

    fn state(&self, node: NodeId) -> Value {
        json!({
            "active": self.active.contains(&node),
            "hover": self.hover.contains(&node),
            "focus": self.focus == Some(node),
            "checked": false,
        })
    }

    fn emit(&mut self, w: &World, out: &mut Vec<Expected>, node: NodeId, event: &'static str, p: &Payload) {
        *self.seen.entry(event).or_default() += 1;
        let known = &self.known[&node];
        let Some(args) = known.handlers.get(event) else { return };
        let target = json!({
            "position": known.position, "size": known.size, "state": self.state(node),
        });
        let payload = match p {
            Payload::Mouse => json!({"position": self.mouse, "target": target}),
            Payload::Key(key) => json!({"key": format!("{key:?}"), "target": target}),
            Payload::Char(c) => json!({"char": c.to_string(), "target": target}),
        };
        let mut values: Vec<Value> = args
            .iter()
            .map(|a| match a {
                RArg::Word(w) => json!(w),
                RArg::Event => payload.clone(),
                RArg::Bind(path, pipe) => get(w.value, path, pipe, w.pipes),
            })
            .collect();
        let key = if values.is_empty() {
            "Undefined".to_string()
        } else {
            eval_string(&values.remove(0))
        };
        let message = match values.len() {
            0 => json!(key),
            n => {
                let content = if n == 1 { values.remove(0) } else { Value::Array(values) };
                let mut map = Map::new();
                map.insert(key, content);
                Value::Object(map)
            }
        };
        out.push(Expected {
            event,
            node,
            message,
            optional: false,
        });
    }

    pub fn update(&mut self, w: &World, events: &[InputEvent]) -> Predicted {
        let mut out = vec![];
        let mut events = events.to_vec();
        if !matches!(events.first(), Some(InputEvent::MouseMove(_))) {
            events.insert(0, InputEvent::MouseMove(self.mouse));
        }
        for e in events {
            self.event(w, e, &mut out);
        }
        let mut cursor = "auto";
        for s in &w.shown {
            if self.under.contains(&s.node) && s.cursor != "auto" {
                cursor = s.cursor;
            }
        }
        let captured = !self.under.is_empty()
            || self.drag.is_some()
            || self.focus.is_some()
            || !self.pressed.is_empty();
        let over_text = self.text_pressed || w.texts.iter().any(|(p, s)| inside(self.mouse, *p, *s));
        Predicted {
            messages: out,
            cursor,
            captured: if !captured && over_text { None } else { Some(captured) },
            under: self.under.len(),
        }
    }

    fn event(&mut self, w: &World, e: InputEvent, out: &mut Vec<Expected>) {
        let mouse = &Payload::Mouse;
        match e {
            InputEvent::MouseMove(p) => {
                self.mouse = p;
                let before = std::mem::take(&mut self.under);
                self.under = w
                    .shown
                    .iter()
                    .filter(|s| s.target && inside(p, s.position, s.size))
                    .map(|s| s.node)
                    .collect();
                for node in before.iter().rev() {
                    if !self.under.contains(node) {
                        self.hover.remove(node);
                        self.emit(w, out, *node, "onmouseleave", mouse);
                        if self.drag.is_some() {
                            self.emit(w, out, *node, "ondragleave", mouse);
                        }
                    }
                }
                for node in self.under.clone().iter().rev() {
                    if !before.contains(node) {
                        self.hover.insert(*node);
                        self.emit(w, out, *node, "onmouseenter", mouse);
                        if self.drag.is_some() {
                            self.emit(w, out, *node, "ondragenter", mouse);
                        }
                    }
                    self.emit(w, out, *node, "onmousemove", mouse);
                    if self.drag.is_some() {
                        self.emit(w, out, *node, "ondragover", mouse);
                    }
                }
            }
            InputEvent::MouseButtonDown(button) => {
                if let Some(node) = self.focus.filter(|f| !self.under.contains(f)) {
                    self.focus = None;
                    self.emit(w, out, node, "onblur", mouse);
                }
                self.text_pressed |= w.texts.iter().any(|(p, s)| inside(self.mouse, *p, *s));
                let draggable = self.under.iter().filter(|n| self.known[*n].draggable).count();
                self.ambiguous |= button == MouseButtons::Left && draggable > 1;
                for node in self.under.clone().into_iter().rev() {
                    self.active.insert(node);
                    self.pressed.push(node);
                    if self.known[&node].handlers.contains_key("oninput") && self.focus != Some(node) {
                        if let Some(old) = self.focus.take() {
                            self.emit(w, out, old, "onblur", mouse);
                        }
                        self.focus = Some(node);
                        self.emit(w, out, node, "onfocus", mouse);
                    }
                    self.emit(w, out, node, "onmousedown", mouse);
                    if button == MouseButtons::Left && self.known[&node].draggable {
                        self.emit(w, out, node, "ondragstart", mouse);
                        self.drag = Some(node);
                    }
                }
            }
            InputEvent::MouseButtonUp(button) => {
                let mut dropped = false;
                for node in self.under.clone().into_iter().rev() {
                    self.emit(w, out, node, "onmouseup", mouse);
                    if let Some(source) = self.drag {
                        if self.known[&node].handlers.contains_key("ondrop") {
                            self.emit(w, out, node, "ondrop", mouse);
                            self.drag = None;
                            self.emit(w, out, source, "ondragend", mouse);
                            dropped = true;
                        }
                    } else {
                        let n = out.len();
                        if button == MouseButtons::Left && self.active.contains(&node) {
                            self.emit(w, out, node, "onclick", mouse);
                        }
                        if button == MouseButtons::Right {
                            self.emit(w, out, node, "oncontextmenu", mouse);
                        }
                        // whether a release which drops also clicks the outer elements is open
                        for e in &mut out[n..] {
                            e.optional = dropped;
                        }
                    }
                }
                self.text_pressed = false;
                self.pressed.clear();
                self.active.clear();
            }
            InputEvent::KeyDown(key) => {
                if let Some(node) = self.focus {
                    self.emit(w, out, node, "onkeydown", &Payload::Key(key));
                }
            }
            InputEvent::KeyUp(key) => {
                if let Some(node) = self.focus {
                    self.emit(w, out, node, "onkeyup", &Payload::Key(key));
                }
            }
            InputEvent::Char(c) => {
                if let Some(node) = self.focus {
                    self.emit(w, out, node, "oninput", &Payload::Char(c));
                }
            }
            InputEvent::Unknown | InputEvent::MouseWheel(_) => {}
        }
    }

    pub fn under(&self) -> usize {
        self.under.len()
    }
    pub fn mouse(&self) -> [f32; 2] {
        self.mouse
    }
}

/// Compares message lists; optional messages may be absent.
pub fn same_messages(want: &[Expected], got: &[Value]) -> Result<usize, String> {
    let mut i = 0;
    for e in want {
        match got.get(i) {
            Some(m) if *m == e.message => i += 1,
            _ if e.optional => {}
            m => {
                return Err(format!(
                    "message {i} is {}, expected {} of {}; all: {}",
                    m.map(|m| m.to_string()).unwrap_or("absent".into()),
                    e.message,
                    e.event,
                    Value::Array(got.to_vec())
                ))
            }
        }
    }
    if i < got.len() {
        return Err(format!("unexpected message {}; all: {}", got[i], Value::Array(got.to_vec())));
    }
    Ok(i)
}
