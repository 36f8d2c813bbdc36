//! Template documents: an AST, its HTML text and a reference evaluator which expands links,
//! aliases, loops and conditions and substitutes values without using any of the code under test.

use crate::rng::Rng;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub struct Binder {
    pub path: Vec<String>,
    pub pipe: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Span {
    Lit(String),
    Bind(Binder),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Word(String),
    Event,
    Bind(Binder),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Attr {
    Static(String, String),
    Empty(String),
    Bound(String, Vec<Span>),
    Flag(String, Binder),
    Visible(bool, Binder),
    Repeat(String, usize, Binder),
    Alias(String, Binder),
    On(String, Vec<Arg>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Elem(Elem),
    Text(Vec<Span>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Elem {
    pub tag: String,
    pub attrs: Vec<Attr>,
    pub children: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub templates: Vec<(String, Elem)>,
    pub body: Elem,
}

pub const VOID_TAGS: &[&str] = &[
    "area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link",
    "meta", "param", "source", "track", "wbr",
];

pub fn is_void(tag: &str) -> bool {
    VOID_TAGS.contains(&tag)
}

impl Binder {
    pub fn new(path: &[&str]) -> Self {
        Binder {
            path: path.iter().map(|s| s.to_string()).collect(),
            pipe: vec![],
        }
    }
    pub fn of(path: Vec<String>) -> Self {
        Binder { path, pipe: vec![] }
    }
}

impl Elem {
    pub fn new(tag: &str) -> Self {
        Elem {
            tag: tag.to_string(),
            attrs: vec![],
            children: vec![],
        }
    }
    pub fn attr(mut self, key: &str, value: &str) -> Self {
        self.attrs.push(Attr::Static(key.into(), value.into()));
        self
    }
    pub fn with(mut self, attr: Attr) -> Self {
        self.attrs.push(attr);
        self
    }
    pub fn child(mut self, node: Elem) -> Self {
        self.children.push(Node::Elem(node));
        self
    }
    pub fn text(mut self, text: &str) -> Self {
        self.children.push(Node::Text(vec![Span::Lit(text.into())]));
        self
    }
    pub fn has_attr(&self, key: &str) -> bool {
        self.attrs.iter().any(|a| match a {
            Attr::Static(k, _) | Attr::Empty(k) | Attr::Bound(k, _) | Attr::Flag(k, _) => k == key,
            _ => false,
        })
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut Elem)) {
        f(self);
        for child in self.children.iter_mut() {
            if let Node::Elem(e) = child {
                e.walk_mut(f);
            }
        }
    }
    pub fn count(&self) -> usize {
        1 + self
            .children
            .iter()
            .map(|c| match c {
                Node::Elem(e) => e.count(),
                _ => 1,
            })
            .sum::<usize>()
    }
}

impl Doc {
    pub fn new(body: Elem) -> Self {
        Doc {
            templates: vec![],
            body,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// HTML text

/// How a document is written down. All variations have the same meaning.
#[derive(Clone)]
pub struct Layout {
    pub rng: Rng,
    /// Random spaces, quoting, comments and tag forms; otherwise the plain canonical form.
    pub vary: bool,
}

impl Layout {
    pub fn plain() -> Self {
        Layout {
            rng: Rng::new(0),
            vary: false,
        }
    }
    pub fn varied(seed: u64) -> Self {
        Layout {
            rng: Rng::new(seed),
            vary: true,
        }
    }
    fn chance(&mut self, p: usize) -> bool {
        self.vary && self.rng.chance(p)
    }
    fn gap(&mut self) -> &'static str {
        if !self.vary {
            return "";
        }
        *self.rng.pick(&["", "", "", " ", "\n", "\n    ", "\t", "\r\n  ", "  \n\n "])
    }
    fn space(&mut self) -> &'static str {
        if !self.vary {
            return " ";
        }
        *self.rng.pick(&[" ", " ", "  ", "\n", "\n\t", "\t"])
    }
}

pub fn binder_text(b: &Binder, l: &mut Layout) -> String {
    let mut out = String::from("{");
    if l.chance(30) {
        out.push(' ');
    }
    out.push_str(&b.path.join("."));
    for p in &b.pipe {
        if !l.vary || l.chance(60) {
            out.push_str(" | ");
        } else {
            out.push('|');
        }
        out.push_str(p);
    }
    if b.pipe.is_empty() && l.chance(30) {
        out.push(' ');
    }
    out.push('}');
    out
}

fn spans_text(spans: &[Span], l: &mut Layout, multiline: bool) -> String {
    let mut out = String::new();
    for span in spans {
        match span {
            Span::Lit(s) => {
                for c in s.chars() {
                    // a line break with indentation inside of text is equivalent to a space
                    if c == ' ' && multiline && l.chance(12) && !out.ends_with(&[' ', '\n', '\t'][..])
                    {
                        out.push_str(l.rng.clone().pick(&["\n", "\n    ", "\n\t", "\r\n", "\r\n  "]));
                    } else {
                        out.push(c);
                    }
                }
            }
            Span::Bind(b) => out.push_str(&binder_text(b, l)),
        }
    }
    out
}

fn attr_text(a: &Attr, l: &mut Layout) -> String {
    match a {
        Attr::Static(k, v) => {
            // the form of a binding without any binder means the same
            let plain = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_';
            if !v.is_empty()
                && !v.contains(['{', '<', '>', '"'])
                && k.chars().all(plain)
                && k != "href"
                && l.chance(10)
            {
                return format!("@{k}=\"{v}\"");
            }
            let simple = !v.is_empty()
                && v.chars()
                    .all(|c| c.is_ascii_alphanumeric() || "-_.:,;%()".contains(c));
            if v.is_empty() && l.chance(60) {
                k.clone()
            } else if simple && l.chance(30) {
                format!("{k}={v}")
            } else {
                let (x, y) = if l.chance(15) { (" ", "") } else { ("", "") };
                format!("{k}{x}={y}\"{v}\"")
            }
        }
        Attr::Empty(k) => k.clone(),
        Attr::Bound(k, spans) => format!("@{k}=\"{}\"", spans_text(spans, l, false)),
        Attr::Flag(k, b) => format!("#{k}=\"{}\"", binder_text(b, l)),
        Attr::Visible(v, b) => {
            format!("{}=\"{}\"", if *v { "?" } else { "!" }, binder_text(b, l))
        }
        Attr::Repeat(n, c, b) => format!("*{n}=\"{c} {}\"", binder_text(b, l)),
        Attr::Alias(n, b) => format!("+{n}=\"{}\"", binder_text(b, l)),
        Attr::On(e, args) => {
            let args: Vec<String> = args
                .iter()
                .map(|a| match a {
                    Arg::Word(w) => w.clone(),
                    Arg::Event => "$event".to_string(),
                    Arg::Bind(b) => binder_text(b, l),
                })
                .collect();
            format!("^{e}=\"{}\"", args.join(" "))
        }
    }
}

fn comment(l: &mut Layout) -> String {
    if l.chance(8) {
        let text = *l.rng.pick(&[
            "<!-- note -->",
            "<!---->",
            "<!-- <b>not an element</b> {not.bound} -->",
            "<!--\n multi\n line -->",
            "<!-- - -- > -->",
        ]);
        text.to_string()
    } else {
        String::new()
    }
}

fn elem_text(e: &Elem, l: &mut Layout, out: &mut String) {
    out.push('<');
    out.push_str(&e.tag);
    let mut unquoted_end = false;
    for a in &e.attrs {
        out.push_str(l.space());
        let text = attr_text(a, l);
        unquoted_end = !text.ends_with('"');
        out.push_str(&text);
    }
    if is_void(&e.tag) {
        match if l.vary { l.rng.below(3) } else { 0 } {
            0 => out.push_str(if unquoted_end { " />" } else { "/>" }),
            1 => out.push_str(" />"),
            _ => out.push('>'),
        }
        return;
    }
    if l.chance(10) {
        out.push_str(l.space());
    }
    out.push('>');
    let mut prev_text = false;
    for (i, child) in e.children.iter().enumerate() {
        match child {
            Node::Elem(c) => {
                if !prev_text {
                    out.push_str(l.gap());
                    let c = comment(l);
                    out.push_str(&c);
                    out.push_str(l.gap());
                }
                elem_text(c, l, out);
                prev_text = false;
            }
            Node::Text(spans) => {
                // indentation before text is not a part of it
                out.push_str(l.gap());
                out.push_str(&spans_text(spans, l, true));
                // indentation before the closing tag is not a part of text (only after literal)
                let last = i + 1 == e.children.len();
                if last && matches!(spans.last(), Some(Span::Lit(_))) && l.chance(40) {
                    out.push_str(*l.rng.clone().pick(&["\n", "\n  ", "\n\t\t", "\r\n"]));
                }
                prev_text = true;
            }
        }
    }
    if !prev_text {
        out.push_str(l.gap());
        let c = comment(l);
        out.push_str(&c);
        out.push_str(l.gap());
    }
    out.push_str("</");
    out.push_str(&e.tag);
    out.push('>');
}

pub fn html(doc: &Doc, l: &mut Layout) -> String {
    let mut out = String::new();
    out.push_str(l.gap());
    out.push_str("<html>");
    if l.chance(20) {
        out.push_str("<script>if (a > b) { run(\"<b>\") }</script>");
    }
    if l.chance(20) {
        out.push_str("<link href=\"style.css\" rel=\"stylesheet\">");
    }
    if l.chance(20) {
        out.push_str("<head><title>{not.shown} Title</title><meta charset=\"utf-8\"></head>");
    }
    for (id, root) in &doc.templates {
        out.push_str(l.gap());
        out.push_str(&format!("<template id=\"{id}\">"));
        out.push_str(l.gap());
        elem_text(root, l, &mut out);
        out.push_str(l.gap());
        out.push_str("</template>");
    }
    out.push_str(l.gap());
    elem_text(&doc.body, l, &mut out);
    out.push_str(l.gap());
    if l.chance(10) {
        out.push_str("<footer><p>after body</p></footer>");
    }
    out.push_str("</html>");
    out.push_str(l.gap());
    out
}

// ---------------------------------------------------------------------------------------------
// Reference evaluation

#[derive(Clone, Debug)]
pub enum RArg {
    Word(String),
    Event,
    /// Resolved path and transformers.
    Bind(Vec<String>, Vec<String>),
}

#[derive(Clone, Debug)]
pub struct RElem {
    pub tag: String,
    pub attrs: BTreeMap<String, String>,
    pub handlers: BTreeMap<String, Vec<RArg>>,
    pub children: Vec<RNode>,
    /// Identity of the element instance in the document, stable over updates.
    pub uid: Vec<u32>,
    /// Attribute keys which depend on the value.
    pub dynamic: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum RNode {
    Elem(RElem),
    Text(String),
}

pub type Pipes = HashMap<String, fn(Value) -> Value>;

pub fn eval_string(value: &Value) -> String {
    match value {
        Value::Null => String::new(),
        Value::Bool(true) => "true".into(),
        Value::Bool(false) => "false".into(),
        Value::Number(n) => serde_json::to_string(n).unwrap(),
        Value::String(s) => s.clone(),
        Value::Array(_) => "[array]".into(),
        Value::Object(_) => "{object}".into(),
    }
}

pub fn eval_bool(value: &Value) -> bool {
    match value {
        Value::Null => false,
        Value::Bool(b) => *b,
        Value::Number(n) => n.as_f64().unwrap() != 0.0,
        Value::String(s) => !s.is_empty(),
        Value::Array(a) => !a.is_empty(),
        Value::Object(_) => true,
    }
}

pub fn lookup(value: &Value, path: &[String]) -> Value {
    let mut target = value;
    for token in path {
        let next = match target {
            Value::Object(map) => map.get(token),
            // "01" and "+1" are no indices
            Value::Array(items) => token
                .parse::<usize>()
                .ok()
                .filter(|i| i.to_string() == *token)
                .and_then(|i| items.get(i)),
            _ => None,
        };
        match next {
            Some(v) => target = v,
            None => return Value::Null,
        }
    }
    target.clone()
}

pub fn get(value: &Value, path: &[String], pipe: &[String], pipes: &Pipes) -> Value {
    let mut value = lookup(value, path);
    for p in pipe {
        if let Some(f) = pipes.get(p) {
            value = f(value);
        }
    }
    value
}

pub struct Eval<'a> {
    pub templates: HashMap<String, &'a Elem>,
    pub value: &'a Value,
    pub pipes: &'a Pipes,
}

type Locals = HashMap<String, Vec<String>>;

impl<'a> Eval<'a> {
    pub fn run(doc: &'a Doc, value: &'a Value, pipes: &'a Pipes) -> RElem {
        let eval = Eval {
            templates: doc
                .templates
                .iter()
                .map(|(id, root)| (format!("#{id}"), root))
                .collect(),
            value,
            pipes,
        };
        eval.elem(&doc.body, &Locals::new(), vec![])
    }

    fn resolve(&self, b: &Binder, locals: &Locals) -> Vec<String> {
        let mut path = match locals.get(&b.path[0]) {
            Some(head) => head.clone(),
            None => vec![b.path[0].clone()],
        };
        path.extend(b.path[1..].iter().cloned());
        path
    }

    fn get(&self, b: &Binder, locals: &Locals) -> Value {
        get(self.value, &self.resolve(b, locals), &b.pipe, self.pipes)
    }

    fn spans(&self, spans: &[Span], locals: &Locals) -> String {
        spans
            .iter()
            .map(|s| match s {
                Span::Lit(s) => s.clone(),
                Span::Bind(b) => eval_string(&self.get(b, locals)),
            })
            .collect()
    }

    fn elem(&self, e: &Elem, locals: &Locals, uid: Vec<u32>) -> RElem {
        let mut attrs = BTreeMap::new();
        let mut handlers = BTreeMap::new();
        let mut dynamic = vec![];
        for a in &e.attrs {
            match a {
                Attr::Static(k, v) => {
                    attrs.insert(k.clone(), v.clone());
                }
                Attr::Empty(k) => {
                    attrs.insert(k.clone(), String::new());
                }
                Attr::Bound(k, spans) => {
                    attrs.insert(k.clone(), self.spans(spans, locals));
                    if spans.iter().any(|s| matches!(s, Span::Bind(_))) {
                        dynamic.push(k.clone());
                    }
                }
                Attr::Flag(k, b) => {
                    if eval_bool(&self.get(b, locals)) {
                        attrs.insert(k.clone(), k.clone());
                    } else {
                        attrs.remove(k);
                    }
                    dynamic.push(k.clone());
                }
                Attr::On(event, args) => {
                    let args = args
                        .iter()
                        .map(|a| match a {
                            Arg::Word(w) => RArg::Word(w.clone()),
                            Arg::Event => RArg::Event,
                            Arg::Bind(b) => RArg::Bind(self.resolve(b, locals), b.pipe.clone()),
                        })
                        .collect();
                    handlers.insert(event.clone(), args);
                }
                _ => {}
            }
        }
        let mut children = vec![];
        if !is_void(&e.tag) {
            for (i, child) in e.children.iter().enumerate() {
                let mut uid = uid.clone();
                uid.push(i as u32);
                match child {
                    Node::Text(spans) => children.push(RNode::Text(self.spans(spans, locals))),
                    Node::Elem(c) => self.child(c, locals, uid, &mut children),
                }
            }
        }
        RElem {
            tag: e.tag.clone(),
            attrs,
            handlers,
            children,
            uid,
            dynamic,
        }
    }

    /// The element a child stands for: a link is replaced by its template.
    pub fn expand(&self, c: &Elem) -> Elem {
        if c.tag == "link" {
            let href = c.attrs.iter().find_map(|a| match a {
                Attr::Static(k, v) if k == "href" => Some(v.clone()),
                _ => None,
            });
            if let Some(template) = href.and_then(|id| self.templates.get(&id)) {
                let mut e = (*template).clone();
                let mut attrs: Vec<Attr> = c
                    .attrs
                    .iter()
                    .filter(|a| !matches!(a, Attr::Static(k, _) if k == "href"))
                    .cloned()
                    .collect();
                attrs.extend(e.attrs);
                e.attrs = attrs;
                return e;
            }
        }
        c.clone()
    }

    fn child(&self, c: &Elem, locals: &Locals, uid: Vec<u32>, out: &mut Vec<RNode>) {
        let c = self.expand(c);
        let mut locals = locals.clone();
        for a in &c.attrs {
            if let Attr::Alias(name, b) = a {
                let path = self.resolve(b, &locals);
                locals.insert(name.clone(), path);
            }
        }
        for a in &c.attrs {
            if let Attr::Visible(wanted, b) = a {
                if eval_bool(&self.get(b, &locals)) == *wanted {
                    out.push(RNode::Elem(self.elem(&c, &locals, uid)));
                }
                return;
            }
        }
        for a in &c.attrs {
            if let Attr::Repeat(name, count, b) = a {
                let path = self.resolve(b, &locals);
                let len = match self.get(b, &locals) {
                    Value::Array(items) => items.len(),
                    _ => 0,
                };
                for i in 0..len.min(*count) {
                    let mut locals = locals.clone();
                    let mut path = path.clone();
                    path.push(i.to_string());
                    locals.insert(name.clone(), path);
                    let mut uid = uid.clone();
                    uid.push(i as u32);
                    out.push(RNode::Elem(self.elem(&c, &locals, uid)));
                }
                return;
            }
        }
        out.push(RNode::Elem(self.elem(&c, &locals, uid)));
    }
}

impl RElem {
    pub fn elems(&self) -> impl Iterator<Item = &RElem> {
        self.children.iter().filter_map(|c| match c {
            RNode::Elem(e) => Some(e),
            _ => None,
        })
    }
    pub fn count(&self) -> usize {
        1 + self
            .children
            .iter()
            .map(|c| match c {
                RNode::Elem(e) => e.count(),
                _ => 1,
            })
            .sum::<usize>()
    }
}
