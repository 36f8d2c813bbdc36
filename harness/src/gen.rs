//! Random typed models, values, value histories and template documents.

use crate::doc::*;
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    /// Any scalar.
    Scalar,
    /// Mostly booleans and other things with an interesting truth value.
    Flag,
    /// Short words usable as class names, identifiers and parts of attributes.
    Word,
    Obj(Vec<(String, Ty)>),
    /// Array used by loops.
    List(Box<Ty>),
    /// Array used by index.
    Tuple(Vec<Ty>),
}

pub const KEYS: &[&str] = &[
    "a", "b", "name", "title", "n", "x_1", "kind", "user-id", "Total", "sub", "_p", "color", "k9",
    "item", "id2", "on", "items", "rows", "list", "data", "meta2", "pos", "0", "1", "7", "01", "this",
    "-1", "length", "99999999999", "18446744073709551615",
];
pub const LOCALS: &[&str] = &["it", "row", "v", "w", "loop1", "cur", "p", "q", "item", "name", "a", "2", "this"];
pub const WORDS: &[&str] = &[
    "c0", "c1", "c2", "c3", "c4", "c5", "c6", "red", "en", "en-US", "on", "off", "x", "xy", "main",
    "Red", "big_red", "red-hot", "en-US-x", "C1",
];
pub const STRINGS: &[&str] = &[
    "", "a", "hello", "two words", "  padded  ", "0", "false", "Ünïcödé ✓ 漢字", "<b>&amp;</b>",
    "{name}", "line\nbreak", "\"quoted\" 'x'", "tab\there", "-12.5", "null", "[array]", "a,b;c",
    "a long string with many words in it to be wrapped over several lines", "😀", "\\u0041", "%d",
    "c1 c2", "true", "=", ">", "/",
];

pub fn gen_ty(r: &mut Rng, depth: usize) -> Ty {
    match r.below(if depth == 0 { 5 } else { 11 }) {
        0 | 1 => Ty::Scalar,
        2 | 3 => Ty::Flag,
        4 => Ty::Word,
        5 | 6 | 7 => gen_obj(r, depth - 1),
        8 | 9 => Ty::List(Box::new(gen_ty(r, depth - 1))),
        _ => {
            let n = r.range(1, 3);
            Ty::Tuple((0..n).map(|_| gen_ty(r, depth - 1)).collect())
        }
    }
}

pub fn gen_obj(r: &mut Rng, depth: usize) -> Ty {
    let n = r.range(1, 5);
    let mut fields: Vec<(String, Ty)> = vec![];
    for _ in 0..n {
        let key = r.pick(KEYS).to_string();
        if !fields.iter().any(|(k, _)| *k == key) {
            fields.push((key, gen_ty(r, depth)));
        }
    }
    Ty::Obj(fields)
}

/// A model with at least one list and some flags, so that every construct can be used.
pub fn gen_model(r: &mut Rng, depth: usize) -> Ty {
    let Ty::Obj(mut fields) = gen_obj(r, depth) else { unreachable!() };
    let mut add = |key: &str, ty: Ty| {
        if !fields.iter().any(|(k, _)| k == key) {
            fields.push((key.to_string(), ty));
        }
    };
    let item = gen_ty(r, depth.saturating_sub(1));
    add("items", Ty::List(Box::new(item)));
    add("on", Ty::Flag);
    add("title", Ty::Scalar);
    add("kind", Ty::Word);
    if r.chance(60) {
        let item = gen_obj(r, 1);
        add("rows", Ty::List(Box::new(item)));
    }
    Ty::Obj(fields)
}

pub fn scalar(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => Value::Null,
        1 => json!(r.chance(50)),
        2 => json!(0),
        3 => json!(r.int(-5, 5)),
        4 => json!(r.int(-1_000_000, 1_000_000)),
        5 => json!(r.int(-400, 400) as f64 / 8.0),
        6 => match r.below(9) {
            0 => json!(i64::MAX),
            1 => json!(i64::MIN),
            2 => json!(u64::MAX),
            3 => json!(1e300),
            4 => json!(-0.5),
            5 => json!(5e-324),
            6 => json!(1.0),
            7 => json!(0.1 + 0.2),
            _ => json!(-1e-7),
        },
        _ => json!(*r.pick(STRINGS)),
    }
}

pub fn any_value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 10 }) {
        0..=5 => scalar(r),
        6 | 7 => {
            let n = r.below(4);
            Value::Array((0..n).map(|_| any_value(r, depth - 1)).collect())
        }
        _ => {
            let n = r.below(4);
            let mut map = Map::new();
            for _ in 0..n {
                map.insert(r.pick(KEYS).to_string(), any_value(r, depth - 1));
            }
            Value::Object(map)
        }
    }
}

/// A value of the type; with probability `hostile` percent a node has another shape or is missing.
pub fn gen_value(r: &mut Rng, ty: &Ty, hostile: usize) -> Value {
    if r.chance(hostile) {
        return if r.chance(40) { Value::Null } else { any_value(r, 2) };
    }
    match ty {
        Ty::Scalar => scalar(r),
        Ty::Flag => match r.below(8) {
            0 => json!(0),
            1 => json!(1),
            2 => json!(""),
            3 => json!("yes"),
            4 | 5 => json!(true),
            _ => json!(false),
        },
        Ty::Word => json!(*r.pick(WORDS)),
        Ty::Obj(fields) => {
            let mut map = Map::new();
            for (key, ty) in fields {
                if !r.chance(hostile) {
                    map.insert(key.clone(), gen_value(r, ty, hostile));
                }
            }
            if r.chance(hostile) {
                map.insert("extra".into(), scalar(r));
            }
            Value::Object(map)
        }
        Ty::List(item) => {
            let n = if r.chance(4) { r.range(6, 14) } else { r.below(6) };
            Value::Array((0..n).map(|_| gen_value(r, item, hostile)).collect())
        }
        Ty::Tuple(items) => {
            let mut items: Vec<Value> = items.iter().map(|t| gen_value(r, t, hostile)).collect();
            if r.chance(hostile) {
                items.truncate(r.below(items.len() + 1));
            }
            Value::Array(items)
        }
    }
}

/// The next value of a history: a few local changes, or something entirely different.
pub fn mutate(r: &mut Rng, ty: &Ty, value: &Value, hostile: usize) -> Value {
    match r.below(10) {
        0 => gen_value(r, ty, hostile),
        1 => value.clone(),
        _ => {
            let mut value = value.clone();
            for _ in 0..r.range(1, 3) {
                change(r, ty, &mut value, hostile);
            }
            value
        }
    }
}

fn change(r: &mut Rng, ty: &Ty, value: &mut Value, hostile: usize) {
    if r.chance(10) {
        *value = gen_value(r, ty, hostile);
        return;
    }
    match (ty, &mut *value) {
        (Ty::Obj(fields), Value::Object(map)) => {
            let (key, ty) = r.pick(fields);
            if r.chance(hostile) {
                map.remove(key);
            } else if let Some(v) = map.get_mut(key) {
                change(r, ty, v, hostile);
            } else {
                map.insert(key.clone(), gen_value(r, ty, hostile));
            }
        }
        (Ty::List(item), Value::Array(items)) => match r.below(6) {
            0 => {
                let n = r.range(1, 3);
                for _ in 0..n {
                    items.push(gen_value(r, item, hostile));
                }
            }
            1 => {
                items.truncate(items.len().saturating_sub(r.range(1, 3)));
            }
            2 if !items.is_empty() => {
                let i = r.below(items.len());
                items.remove(i);
            }
            3 => {
                let i = r.below(items.len() + 1);
                items.insert(i, gen_value(r, item, hostile));
            }
            4 if items.len() > 1 => {
                let (i, j) = (r.below(items.len()), r.below(items.len()));
                items.swap(i, j);
            }
            _ if !items.is_empty() => {
                let i = r.below(items.len());
                change(r, item, &mut items[i], hostile);
            }
            _ => items.push(gen_value(r, item, hostile)),
        },
        (Ty::Tuple(tys), Value::Array(items)) if !items.is_empty() => {
            let i = r.below(items.len().min(tys.len()).max(1));
            if i < tys.len() {
                change(r, &tys[i], &mut items[i], hostile);
            }
        }
        _ => *value = gen_value(r, ty, hostile),
    }
}

// ---------------------------------------------------------------------------------------------
// Documents

#[derive(Clone)]
pub struct Opts {
    pub depth: usize,
    pub children: usize,
    pub size: usize,
    pub texts: usize,
    pub text_binders: bool,
    pub conds: usize,
    pub loops: usize,
    pub aliases: usize,
    pub links: usize,
    pub handlers: usize,
    pub pipes: usize,
    pub voids: usize,
    pub classes: usize,
    pub extra_attrs: usize,
    pub shadow: bool,
    /// Text nodes may stand next to elements.
    pub mixed: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            depth: 4,
            children: 4,
            size: 24,
            texts: 40,
            text_binders: true,
            conds: 18,
            loops: 16,
            aliases: 10,
            links: 12,
            handlers: 0,
            pipes: 8,
            voids: 10,
            classes: 40,
            extra_attrs: 25,
            shadow: true,
            mixed: true,
        }
    }
}

pub const TAGS: &[&str] = &[
    "div", "span", "p", "section", "b", "ul", "li", "button", "h1", "label", "header", "main2",
    "x-card", "linker", "image", "brx", "colgroup", "inputs",
];
pub const EVENTS: &[&str] = &[
    "onclick", "onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup",
    "onfocus", "onblur", "oninput", "onkeydown", "onkeyup", "ondragstart", "ondragenter",
    "ondragleave", "ondragover", "ondrop", "ondragend", "oncontextmenu",
];

pub fn pipes() -> Pipes {
    let mut pipes: Pipes = HashMap::new();
    pipes.insert("upper".into(), |v| json!(eval_string(&v).to_uppercase()));
    pipes.insert("len".into(), |v| match v {
        Value::Array(a) => json!(a.len()),
        Value::Object(o) => json!(o.len()),
        v => json!(eval_string(&v).len()),
    });
    pipes.insert("not".into(), |v| json!(!eval_bool(&v)));
    pipes.insert("wrap".into(), |v| json!([v]));
    pipes.insert("opt-1".into(), |v| json!({ "v": v }));
    pipes
}

pub const PIPES: &[&str] = &["upper", "len", "not", "wrap", "opt-1"];

#[derive(Clone)]
struct Scope(Vec<(String, Ty)>);

impl Scope {
    fn visible(&self) -> Vec<(&String, &Ty)> {
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        for (name, ty) in self.0.iter().rev() {
            if seen.insert(name) {
                out.push((name, ty));
            }
        }
        out
    }
}

struct Gen<'a> {
    r: &'a mut Rng,
    o: Opts,
    left: usize,
    templates: Vec<(String, Elem, String, Ty)>,
    serial: usize,
}

pub fn gen_doc(r: &mut Rng, model: &Ty, o: &Opts) -> Doc {
    for _ in 0..40 {
        let doc = try_doc(r, model, o);
        if paths_ok(&doc) {
            return doc;
        }
    }
    Doc::new(Elem::new("body"))
}

fn try_doc(r: &mut Rng, model: &Ty, o: &Opts) -> Doc {
    let Ty::Obj(fields) = model else { unreachable!() };
    let root = Scope(fields.clone());
    let mut g = Gen {
        r,
        o: o.clone(),
        left: o.size,
        templates: vec![],
        serial: 0,
    };
    if o.links > 0 {
        for i in 0..g.r.below(3) {
            // a template has one parameter whose type is one of the types of the model
            let (_, ty) = g.binder(&root, |_| true).unwrap();
            let name = g.r.pick(LOCALS).to_string();
            let mut scope = root.clone();
            scope.0.push((name.clone(), ty.clone()));
            let keep = g.left;
            g.left = (o.size / 3).max(2);
            let tag = g.tag();
            let depth = o.depth.min(2);
            // earlier templates may be linked from later ones
            let elem = if g.r.chance(30) {
                let mut e = g.child(&scope, depth);
                while e.tag == "link" || is_void(&e.tag) {
                    e = g.child(&scope, depth);
                }
                e
            } else {
                g.elem(tag, &scope, depth)
            };
            g.left = keep;
            g.templates.push((format!("t{i}"), elem, name, ty));
        }
    }
    let mut body = Elem::new("body");
    body.children = g.children(&root, o.depth);
    let templates = g
        .templates
        .into_iter()
        .map(|(id, elem, _, _)| (id, elem))
        .collect();
    Doc { templates, body }
}

impl Gen<'_> {
    fn tag(&mut self) -> String {
        self.r.pick(TAGS).to_string()
    }

    /// A random path of the scope whose type satisfies the predicate.
    fn binder(&mut self, scope: &Scope, want: impl Fn(&Ty) -> bool) -> Option<(Binder, Ty)> {
        for _ in 0..30 {
            let visible = scope.visible();
            let (name, ty) = *self.r.pick(&visible);
            let mut path = vec![name.clone()];
            let mut ty = ty;
            loop {
                let stop = self.r.chance(35);
                if stop && want(ty) {
                    return Some((Binder::of(path), ty.clone()));
                }
                match ty {
                    Ty::Obj(fields) => {
                        let (key, next) = self.r.pick(fields);
                        path.push(key.clone());
                        ty = next;
                    }
                    Ty::Tuple(items) => {
                        let i = self.r.below(items.len());
                        path.push(i.to_string());
                        ty = &items[i];
                    }
                    Ty::List(item) if self.r.chance(15) => {
                        // an item of a list, next to loops over it
                        path.push(self.r.below(6).to_string());
                        ty = item;
                    }
                    _ => {
                        if want(ty) {
                            return Some((Binder::of(path), ty.clone()));
                        }
                        break;
                    }
                }
            }
        }
        None
    }

    fn any(&mut self, scope: &Scope) -> Binder {
        if self.r.chance(4) {
            // a path which is never present
            return Binder::new(&["absent", "x"]);
        }
        let (mut b, _) = self.binder(scope, |_| true).unwrap();
        if self.r.chance(4) {
            // mostly there is no such thing
            b.path.push(self.r.pick(KEYS).to_string());
        }
        self.pipe(&mut b);
        b
    }

    fn pipe(&mut self, b: &mut Binder) {
        while self.r.chance(self.o.pipes) {
            b.pipe.push(self.r.pick(PIPES).to_string());
        }
    }

    fn spans(&mut self, scope: &Scope, in_attr: bool) -> Vec<Span> {
        const LITS: &[&str] = &[
            "a", "Hello, ", "x y", "2 + 2 = 4", "Цена: ", "(", ")", ": ", "-", "word word word",
            "a/b", "100%", "it's", "&amp;", " lead", "#1", "*", "?", "}", "a | b", "; ", " - ", ". ",
        ];
        let mut spans: Vec<Span> = vec![];
        for _ in 0..self.r.range(1, 4) {
            let lit = matches!(spans.last(), Some(Span::Lit(_)));
            if !lit && (self.r.chance(45) || !self.o.text_binders) {
                let mut text = self.r.pick(LITS).to_string();
                if spans.is_empty() && !in_attr {
                    text = text.trim_start().to_string();
                }
                spans.push(Span::Lit(text));
            } else if self.o.text_binders {
                spans.push(Span::Bind(self.any(scope)));
            }
        }
        if !in_attr {
            if let Some(Span::Lit(s)) = spans.last_mut() {
                *s = s.trim_end().to_string();
                if s.is_empty() {
                    *s = ".".into();
                }
            }
        }
        spans
    }

    fn children(&mut self, scope: &Scope, depth: usize) -> Vec<Node> {
        let mut out: Vec<Node> = vec![];
        let n = if depth == 0 { 0 } else { self.r.below(self.o.children + 1) };
        if n == 0 || (!self.o.mixed && self.r.chance(self.o.texts)) {
            if self.r.chance(self.o.texts) {
                out.push(Node::Text(self.spans(scope, false)));
            }
            return out;
        }
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            let after_text = matches!(out.last(), Some(Node::Text(_)));
            if self.o.mixed && !after_text && self.r.chance(self.o.texts / 2) {
                out.push(Node::Text(self.spans(scope, false)));
                continue;
            }
            self.left -= 1;
            let child = self.child(scope, depth - 1);
            out.push(Node::Elem(child));
        }
        out
    }

    fn child(&mut self, scope: &Scope, depth: usize) -> Elem {
        if !self.templates.is_empty() && self.r.chance(self.o.links) {
            let (id, root, name, ty) = self.r.pick(&self.templates).clone();
            let plain = !root
                .attrs
                .iter()
                .any(|a| matches!(a, Attr::Visible(..) | Attr::Repeat(..)));
            if let Some((b, _)) = self.binder(scope, |t| *t == ty) {
                let mut e = Elem::new("link").attr("href", &format!("#{id}"));
                e.attrs.push(Attr::Alias(name, b));
                let mut scope = scope.clone();
                self.link_extra(&mut e, &mut scope, plain);
                return e;
            }
        }
        let mut scope = scope.clone();
        let mut attrs = vec![];
        if self.r.chance(self.o.aliases) {
            for _ in 0..self.r.range(1, 2) {
                let (b, ty) = self.binder(&scope, |_| true).unwrap();
                let name = self.local(&scope);
                attrs.push(Attr::Alias(name.clone(), b));
                scope.0.push((name, ty));
            }
        }
        if self.r.chance(self.o.conds) {
            let mut b = self.any(&scope);
            b.pipe.retain(|p| p != "wrap");
            let visible = self.r.chance(60);
            attrs.push(Attr::Visible(visible, b));
        } else if self.r.chance(self.o.loops) {
            if let Some((b, Ty::List(item))) = self.binder(&scope, |t| matches!(t, Ty::List(_))) {
                let name = self.local(&scope);
                let count = if self.r.chance(5) { self.r.range(9, 14) } else { self.r.range(0, 5) };
                let mut b = b;
                if self.r.chance(self.o.pipes) {
                    self.pipe(&mut b);
                }
                attrs.push(Attr::Repeat(name.clone(), count, b));
                scope.0.push((name, *item));
            }
        } else if self.r.chance(self.o.pipes / 4) {
            // a list made by a transformer
            let (mut b, _) = self.binder(&scope, |_| true).unwrap();
            b.pipe = vec!["wrap".into()];
            let name = self.local(&scope);
            let count = self.r.range(0, 2);
            if self.o.loops > 0 {
                attrs.push(Attr::Repeat(name.clone(), count, b));
                scope.0.push((name, Ty::Scalar));
            }
        }
        let tag = if self.r.chance(self.o.voids) {
            self.r.pick(&["img", "input", "br", "hr", "img"]).to_string()
        } else {
            self.tag()
        };
        let mut e = self.elem(tag, &scope, depth);
        attrs.append(&mut e.attrs);
        e.attrs = attrs;
        if self.r.chance(30) {
            // order of bindings does not matter, except for the order of aliases
            let mut rest: Vec<Attr> = vec![];
            let mut aliases: Vec<Attr> = vec![];
            for a in e.attrs.drain(..) {
                if matches!(a, Attr::Alias(..)) {
                    aliases.push(a)
                } else {
                    rest.push(a)
                }
            }
            rest.extend(aliases);
            e.attrs = rest;
        }
        e
    }

    fn link_extra(&mut self, e: &mut Elem, scope: &mut Scope, plain: bool) {
        if !plain {
            // the root of the template has its own condition or loop
        } else if self.r.chance(30) {
            let b = self.any(scope);
            e.attrs.push(Attr::Visible(self.r.chance(60), b));
        } else if self.r.chance(15) {
            if let Some((b, _)) = self.binder(scope, |t| matches!(t, Ty::List(_))) {
                let name = format!("z{}", self.r.below(3));
                let count = self.r.range(1, 3);
                e.attrs.push(Attr::Repeat(name, count, b));
            }
        }
        if self.r.chance(30) {
            let b = self.any(scope);
            self.serial += 1;
            let key = format!("data-l{}", self.serial);
            e.attrs.push(Attr::Bound(key, vec![Span::Bind(b)]));
        }
    }

    fn local(&mut self, scope: &Scope) -> String {
        for _ in 0..20 {
            let name = self.r.pick(LOCALS).to_string();
            if self.o.shadow || !scope.0.iter().any(|(n, _)| *n == name) {
                return name;
            }
        }
        self.serial += 1;
        format!("local{}", self.serial)
    }

    fn elem(&mut self, tag: String, scope: &Scope, depth: usize) -> Elem {
        let mut e = Elem::new(&tag);
        self.attrs(&mut e, scope);
        if !is_void(&tag) {
            e.children = self.children(scope, depth);
        }
        e
    }

    fn attrs(&mut self, e: &mut Elem, scope: &Scope) {
        if self.r.chance(self.o.classes) {
            let mut spans = vec![];
            if self.r.chance(60) || !self.o.text_binders {
                let n = self.r.range(1, 3);
                let words: Vec<&str> = (0..n).map(|_| *self.r.pick(WORDS)).collect();
                e.attrs.push(Attr::Static("class".into(), words.join(" ")));
            } else {
                if self.r.chance(50) {
                    spans.push(Span::Lit(format!("{} ", self.r.pick(WORDS))));
                }
                let mut b = match self.binder(scope, |t| *t == Ty::Word) {
                    Some((b, _)) if self.r.chance(80) => b,
                    _ => self.any(scope),
                };
                b.pipe.clear();
                spans.push(Span::Bind(b));
                if self.r.chance(40) {
                    spans.push(Span::Lit(format!(" {}", self.r.pick(WORDS))));
                }
                e.attrs.push(Attr::Bound("class".into(), spans));
            }
        }
        if e.tag == "img" && self.r.chance(80) {
            if self.r.chance(50) || !self.o.text_binders {
                e.attrs.push(Attr::Static("src".into(), "images/a.png".into()));
            } else {
                let spans = self.spans(scope, true);
                e.attrs.push(Attr::Bound("src".into(), spans));
            }
        }
        const NAMES: &[&str] = &["lang", "data-x", "value", "title", "checked", "data_y", "rel", "X"];
        while self.r.chance(self.o.extra_attrs) {
            let key = self.r.pick(NAMES).to_string();
            if e.has_attr(&key) {
                continue;
            }
            match self.r.below(if self.o.text_binders { 4 } else { 2 }) {
                0 => {
                    let value = *self.r.pick(&["a", "en-US", "x y", "1", "a=b", "100%", "d'or", "a>b"]);
                    e.attrs.push(Attr::Static(key, value.into()));
                }
                1 => e.attrs.push(Attr::Empty(key)),
                2 => {
                    let spans = self.spans(scope, true);
                    e.attrs.push(Attr::Bound(key, spans));
                }
                _ => {
                    let b = self.any(scope);
                    e.attrs.push(Attr::Flag(key, b));
                }
            }
        }
        while self.r.chance(self.o.handlers) {
            let event = self.r.pick(EVENTS).to_string();
            if e.attrs.iter().any(|a| matches!(a, Attr::On(e, _) if *e == event)) {
                continue;
            }
            let args = self.args(scope);
            e.attrs.push(Attr::On(event, args));
        }
    }

    fn args(&mut self, scope: &Scope) -> Vec<Arg> {
        self.serial += 1;
        let mut args = vec![match self.r.below(20) {
            // the name of a message is usually a word
            0 => Arg::Event,
            1 => Arg::Bind(self.any(scope)),
            _ => Arg::Word(format!("M{}", self.serial)),
        }];
        for _ in 0..self.r.below(4) {
            args.push(match self.r.below(4) {
                0 => Arg::Word(self.r.pick(&["Word", "a-b", "x_1", "42"]).to_string()),
                1 => Arg::Event,
                _ => Arg::Bind(self.any(scope)),
            });
        }
        args
    }
}

/// Bindings for a stand-alone use of the generator of handlers.
pub fn gen_args(r: &mut Rng, model: &Ty, serial: usize, pipes: usize) -> Vec<Arg> {
    let Ty::Obj(fields) = model else { unreachable!() };
    let mut g = Gen {
        r,
        o: Opts { pipes, ..Opts::default() },
        left: 0,
        templates: vec![],
        serial,
    };
    g.args(&Scope(fields.clone()))
}

// ---------------------------------------------------------------------------------------------
// Paths used by a document

const LOOP: char = '\u{1}';

/// False for documents which are too big.
pub fn paths_ok(doc: &Doc) -> bool {
    let mut paths = BTreeSet::new();
    let value = Value::Null;
    let pipes = Pipes::new();
    let eval = Eval {
        templates: doc
            .templates
            .iter()
            .map(|(id, e)| (format!("#{id}"), e))
            .collect(),
        value: &value,
        pipes: &pipes,
    };
    let mut budget = 4000usize;
    walk(&eval, &doc.body, &HashMap::new(), &mut paths, &mut budget);
    if budget == 0 {
        return false;
    }
    true
}

type Paths = BTreeSet<Vec<String>>;

fn walk(
    eval: &Eval,
    e: &Elem,
    locals: &HashMap<String, Vec<String>>,
    paths: &mut Paths,
    budget: &mut usize,
) {
    if *budget == 0 {
        return;
    }
    *budget -= 1;
    let resolve = |b: &Binder, locals: &HashMap<String, Vec<String>>| {
        let mut path = match locals.get(&b.path[0]) {
            Some(head) => head.clone(),
            None => vec![b.path[0].clone()],
        };
        path.extend(b.path[1..].iter().cloned());
        path
    };
    let spans_paths = |spans: &[Span], paths: &mut Paths| {
        for s in spans {
            if let Span::Bind(b) = s {
                paths.insert(resolve(b, locals));
            }
        }
    };
    for a in &e.attrs {
        match a {
            Attr::Bound(_, spans) => spans_paths(spans, paths),
            Attr::Flag(_, b) => {
                paths.insert(resolve(b, locals));
            }
            Attr::On(_, args) => {
                for a in args {
                    if let Arg::Bind(b) = a {
                        paths.insert(resolve(b, locals));
                    }
                }
            }
            _ => {}
        }
    }
    for child in &e.children {
        match child {
            Node::Text(spans) => spans_paths(spans, paths),
            Node::Elem(c) => {
                let c = eval.expand(c);
                let mut locals = locals.clone();
                for a in &c.attrs {
                    if let Attr::Alias(name, b) = a {
                        let path = resolve(b, &locals);
                        paths.insert(path.clone());
                        locals.insert(name.clone(), path);
                    }
                }
                let visible = c.attrs.iter().find_map(|a| match a {
                    Attr::Visible(_, b) => Some(b),
                    _ => None,
                });
                let repeat = c.attrs.iter().find_map(|a| match a {
                    Attr::Repeat(n, c, b) => Some((n, c, b)),
                    _ => None,
                });
                if let Some(b) = visible {
                    paths.insert(resolve(b, &locals));
                    walk(eval, &c, &locals, paths, budget);
                } else if let Some((name, count, b)) = repeat {
                    let path = resolve(b, &locals);
                    let mut mark = path.clone();
                    mark.push(format!("{LOOP}0"));
                    paths.insert(mark);
                    for i in 0..*count {
                        let mut item = path.clone();
                        item.push(format!("{LOOP}{i}"));
                        locals.insert(name.clone(), item.clone());
                        paths.insert(item);
                        walk(eval, &c, &locals, paths, budget);
                    }
                } else {
                    walk(eval, &c, &locals, paths, budget);
                }
            }
        }
    }
}
