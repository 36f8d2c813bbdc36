//! C06 the element tree is the tree of the document, C23 translation of literal text.

use super::*;
use crate::doc::*;
use crate::drive::*;
use crate::gen::*;
use crate::props::content::*;
use crate::rng::Rng;
use crate::snap::{diff, snap, SNode};
use bumaga::{RendererTranslator, View};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            run: c06,
            quick: 60_000,
            thorough: 1_200_000,
            rule: "random documents (all constructs, unusual tags, attribute names, values and texts, \
                   deep nesting) written down in several ways (indentation, line breaks inside text, \
                   comments, quoting, empty attributes, void forms, scripts, links and head outside of \
                   body); every version must load, show exactly the elements, texts and attributes of \
                   the document, and the same as the plain version in every field over a history of \
                   values; handlers are compared too; non-trivial: at least 2 different texts and 4 \
                   elements",
            assumptions: &["text conversion of literals is by the rules of the format in doc.rs"],
            probes: no_probes,
        },
        Property {
            id: "C23",
            run: c23,
            quick: 60_000,
            thorough: 1_200_000,
            rule: "random documents (templates, loops, conditions, mixed texts) with a translator which \
                   marks what it translates, recording its calls; over a history of values the texts \
                   shown must have every literal span marked once and no bound span or attribute marked; \
                   non-trivial: a literal and a bound span were shown",
            assumptions: &[],
            probes: no_probes,
        },
    ]
}

const EXOTIC_TEXTS: &[&str] = &[
    "}", "a } b", "&lt;b&gt;", "\"quoted\"", "it's", "\\n", "a=b", "ж", "日本語", "🙂🙂", "e\u{301}", "--", "/*c*/", "!",
    "#id", "@x", "$event", "*", "?=x", "1 | 2", "a.b", "/", "/ br", "script", "[x]", "100 %", "`", "~^", "-- -",
    "x;y:z;", "var(--a)",
];
const EXOTIC_NAMES: &[&str] = &[
    "data-a-b", "aria.label", "xml:lang", "_x", "$y", "имя", "A", "a1", "1a", "-", "(click)", "[prop]", "x~y", "a|b",
    "a,b", "a;b", "%",
];
const EXOTIC_VALUES: &[&str] = &[
    "<b>", "a > b", "{not.bound}", "{", "}}", "it's", "a=b", "/", "//x", "日本", " spaces  around ", "a\n b", "\t", "\\\\",
    "\\\"q\\\"", "&quot;", "`", "?", "*=", "<!-- x -->", "</div>",
];
const EXOTIC_TAGS: &[&str] = &[
    "DIV", "h6", "x-y-z", "a", "i", "br-x", "imgs", "inputx", "hrx", "links", "metal", "basest", "cols", "areas",
    "params", "sourced", "tracks", "wbrs", "embedded", "commands", "keygens", "1a", "-x", "scripts", "body", "html",
    "templates", "script-x",
];

fn exotic(r: &mut Rng, doc: &mut Doc) -> usize {
    let percent = *r.pick(&[0, 10, 40]);
    let mut n = 0;
    crate::scene::decorate(doc, &mut |e, _| {
        if r.chance(percent) && !is_void(&e.tag) && e.tag != "body" {
            e.tag = r.pick(EXOTIC_TAGS).to_string();
            n += 1;
        }
        while r.chance(percent) {
            let name = r.pick(EXOTIC_NAMES).to_string();
            if !e.has_attr(&name) {
                let value = r.pick(EXOTIC_VALUES).to_string();
                // anywhere, but the order of names is of no importance
                let at = r.below(e.attrs.len() + 1);
                e.attrs.insert(at, if r.chance(80) { Attr::Static(name, value) } else { Attr::Empty(name) });
                n += 1;
            }
        }
        for c in e.children.iter_mut() {
            if let (Node::Text(spans), true) = (&mut *c, r.chance(percent)) {
                for s in spans.iter_mut() {
                    if let Span::Lit(t) = s {
                        *t = r.pick(EXOTIC_TEXTS).to_string();
                        n += 1;
                    }
                }
            }
        }
    });
    n
}

fn handlers(view: &View) -> Vec<String> {
    fn go(f: bumaga::Fragment, path: &str, out: &mut Vec<String>) {
        let mut all: Vec<String> = f
            .element
            .listeners
            .iter()
            .map(|(event, h)| format!("{path} {event} {:?}", h.arguments))
            .collect();
        all.sort();
        out.extend(all);
        for (i, c) in f.children().into_iter().enumerate() {
            go(c, &format!("{path}/{i}"), out);
        }
    }
    let mut out = vec![];
    go(view.body(), "", &mut out);
    out
}

fn c06(case: &mut Case) -> Verdict {
    let o = sized(case, Opts {
        size: 30,
        handlers: 8,
        pipes: 12,
        extra_attrs: 30,
        texts: 50,
        ..Opts::default()
    });
    let r = &mut case.rng;
    let depth = r.range(1, 2);
    let model = gen_model(r, depth);
    let mut doc = gen_doc(r, &model, &o);
    if r.chance(5) {
        deepen(r, &mut doc);
    }
    let exotic = exotic(r, &mut doc);
    let pipes = pipes();
    let mut texts = vec![html(&doc, &mut Layout::plain())];
    for _ in 0..if case.tiny { 1 } else { 3 } {
        let seed = r.next();
        texts.push(html(&doc, &mut Layout::varied(seed)));
    }
    texts.dedup();
    for t in &texts {
        case.log(format!("HTML {t}"));
    }
    let css = "* { padding: 1px; } .on > * { width: 30px; } [title] { height: 7px; } b + p { left: 3px; }";
    let mut views = vec![];
    for (k, t) in texts.iter().enumerate() {
        views.push(load(t, css, &pipes).map_err(|e| format!("version {k} does not load: {e}"))?);
    }
    let mut value = gen_value(&mut case.rng, &model, 0);
    let mut elements = 0;
    for i in 0..case.rng.range(1, 3) {
        case.log(format!("UPDATE {i} {value}"));
        let mut first: Option<(SNode, Vec<String>)> = None;
        let want = Eval::run(&doc, &value, &pipes);
        for (k, view) in views.iter_mut().enumerate() {
            update(view, &Step::new(), &value)?;
            let got = snap(view);
            match &first {
                None => {
                    let mut c = Compared::default();
                    compare(&want, &got, "body", &mut c).map_err(|e| format!("update {i}: {e}"))?;
                    distinct(&got).map_err(|e| format!("update {i}: {e}"))?;
                    elements = elements.max(c.elements);
                    case.count("elements", c.elements);
                    case.count("attributes", c.attrs);
                    case.count("texts", c.texts);
                    first = Some((got, handlers(view)));
                }
                Some((first, on)) => {
                    if let Some(d) = diff(first, &got) {
                        bail!("update {i}: plain version and version {k}: {d}");
                    }
                    let also = handlers(view);
                    if *on != also {
                        bail!("update {i}: handlers of the plain version {on:?}, of version {k}: {also:?}");
                    }
                    case.count("handlers compared", also.len());
                    case.count("versions compared", 1);
                }
            }
        }
        value = mutate(&mut case.rng, &model, &value, 10);
    }
    case.count("exotic names, values and texts", exotic);
    case.nontrivial = elements >= 4 && views.len() >= 2;
    Ok(())
}

fn deepen(r: &mut Rng, doc: &mut Doc) {
    for _ in 0..r.range(5, 45) {
        let mut body = Elem::new("body");
        let mut inner = std::mem::replace(&mut doc.body, Elem::new("body"));
        inner.tag = r.pick(&["div", "p", "ul", "section"]).to_string();
        inner.attrs.retain(|a| matches!(a, Attr::Static(..) | Attr::Bound(..)));
        body.children.push(Node::Elem(inner));
        doc.body = body;
    }
}

// ---------------------------------------------------------------------------------------------

struct Marker(Arc<Mutex<Vec<String>>>);

fn mark(s: &str) -> String {
    format!("⟦{s}⟧")
}

impl RendererTranslator for Marker {
    fn translate(&self, span: String) -> String {
        let marked = mark(&span);
        self.0.lock().unwrap().push(span);
        marked
    }
}

fn c23(case: &mut Case) -> Verdict {
    let o = sized(case, Opts {
        texts: 70,
        pipes: 10,
        extra_attrs: 15,
        ..Opts::default()
    });
    let b = build(case, &o);
    let calls = Arc::new(Mutex::new(vec![]));
    let marker = Box::new(Marker(calls.clone()));
    let mut view = View::from_html(&b.html, "", "", TestFonts, marker)
        .map_err(|e| format!("does not load: {e:?}"))?;
    for (name, f) in &b.pipes {
        view = view.pipe(name, *f);
    }
    let mut doc = b.doc.clone();
    let mut literals: BTreeMap<String, usize> = BTreeMap::new();
    fn translate(e: &mut Elem, literals: &mut BTreeMap<String, usize>) {
        for c in e.children.iter_mut() {
            match c {
                Node::Elem(e) => translate(e, literals),
                Node::Text(spans) => {
                    for s in spans.iter_mut() {
                        if let Span::Lit(t) = s {
                            *literals.entry(t.clone()).or_default() += 1;
                            *t = mark(t);
                        }
                    }
                }
            }
        }
    }
    for (_, t) in doc.templates.iter_mut() {
        translate(t, &mut literals);
    }
    translate(&mut doc.body, &mut literals);
    // only literals are asked for
    for call in calls.lock().unwrap().iter() {
        if !literals.contains_key(call) {
            bail!("{call:?} was translated, literals are {:?}", literals.keys());
        }
    }
    let loaded = calls.lock().unwrap().len();
    case.count("translations", loaded);
    let mut value = gen_value(&mut case.rng, &b.model, 0);
    let (mut lit, mut bound) = (false, false);
    for i in 0..case.updates(2, 2, 6) {
        case.log(format!("VALUE {value}"));
        update(&mut view, &Step::new(), &value)?;
        let want = Eval::run(&doc, &value, &b.pipes);
        let got = snap(&view);
        let mut c = Compared::default();
        compare(&want, &got, "body", &mut c).map_err(|e| format!("update {i}: {e}"))?;
        got.walk(&mut |s| {
            if let Some(t) = &s.text {
                lit |= t.contains('⟦');
                bound |= !(t.starts_with('⟦') && t.ends_with('⟧'));
            }
        });
        case.count("texts", c.texts);
        case.count("updates", 1);
        value = mutate(&mut case.rng, &b.model, &value, 10);
    }
    let after = calls.lock().unwrap().len();
    if after != loaded {
        bail!("updates asked for {} more translations", after - loaded);
    }
    case.nontrivial = lit && bound;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C21 conversions of values

pub fn conversions() -> Property {
    Property {
        id: "C21",
        run: c21,
        quick: 200_000,
        thorough: 3_000_000,
        rule: "random JSON values of every type, numbers at the limits of every integer and float type \
               and of durations; every conversion is compared with a reference, and views show the \
               values as text, attribute, flag, condition and duration; non-trivial: a number, a list or \
               a string with digits was converted",
        assumptions: &["text form of a duration is the one of the standard library; negative zero is only converted directly"],
        probes: no_probes,
    }
}

fn extreme(r: &mut Rng) -> Value {
    let ints: &[u64] = &[
        0, 1, 2, 7, 255, 256, 65535, 65536, (1 << 24) - 1, (1 << 24) + 1, i32::MAX as u64, u32::MAX as u64,
        1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, i64::MAX as u64, (i64::MAX as u64) + 1, u64::MAX,
        u64::MAX - 1,
    ];
    let floats: &[f64] = &[
        0.0, -0.0, 0.1, 0.5, 0.999999, 1.0, 1.5, -0.5, -1.0, -1.5, 1e-9, 1e-10, 4.9e-10, 1.000000001, 59.9, 60.0,
        3600.25, 86400.0, 1e9, 1e15, 1e16, 1e19, 1.8446744073709552e19, 1.8446744073709556e19, 1e20, 1e300, -1e300,
        5e-324, f64::MAX, f64::MIN, 9007199254740993.0, 0.0000015, 12345.678901234,
    ];
    match r.below(10) {
        0 | 1 => json!(*r.pick(ints)),
        2 => json!(-(*r.pick(ints) as i128).min(i64::MAX as i128) as i64),
        3 => json!(i64::MIN),
        4 | 5 => json!(*r.pick(floats)),
        6 => json!(f64::from_bits(r.next())),
        7 => json!(r.next() >> r.below(64)),
        8 => json!(-((r.next() >> r.range(1, 63)) as i64)),
        _ => json!(r.int(-100_000_000, 100_000_000) as f64 / 1000.0),
    }
}

fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1 => r.next().to_string(),
        2 => (r.next() >> r.below(64)).to_string(),
        3 => "18446744073709551615".into(),
        4 => "18446744073709551616".into(),
        5 => r.pick(&["007", "0", "00", "true", "false", "null", "-", " ", "[array]", "{object}"]).to_string(),
        6 => r.pick(&["12px", "a1", "1 2", "-1", "-5", "1e3", "0x10", "ж1", "NaN", "inf", "1_000"]).to_string(),
        _ => scalar(r).as_str().map(String::from).unwrap_or_else(|| "word".into()),
    }
}

fn subject(r: &mut Rng, depth: usize) -> Value {
    match r.below(12) {
        0 => Value::Null,
        1 => json!(r.chance(50)),
        2..=5 => extreme(r),
        6 | 7 => json!(text(r)),
        8 | 9 if depth > 0 => {
            let n = r.below(4);
            Value::Array((0..n).map(|_| subject(r, depth - 1)).collect())
        }
        10 if depth > 0 => {
            let n = r.below(3);
            let fields = (0..n).map(|i| (format!("k{i}"), subject(r, depth - 1)));
            Value::Object(fields.collect())
        }
        _ => extreme(r),
    }
}

/// None: left open.
fn unsigned(v: &Value) -> Option<u64> {
    Some(match v {
        Value::Bool(true) => 1,
        Value::Number(n) => match (n.as_u64(), n.as_i64()) {
            (Some(n), _) => n,
            (None, Some(_)) => 0,
            _ => {
                let x = n.as_f64().unwrap().trunc();
                if x <= 0.0 {
                    0
                } else if x >= 18446744073709551616.0 {
                    u64::MAX
                } else {
                    x as u64
                }
            }
        },
        Value::String(s) => {
            let digits = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
            match s.parse::<u128>() {
                Ok(n) if digits && n <= u64::MAX as u128 => n as u64,
                // too long, or some other notation of a number
                _ if digits => return None,
                _ if s.trim().parse::<f64>().is_ok() => return None,
                _ => 0,
            }
        }
        _ => 0,
    })
}

fn list(v: &Value) -> Vec<String> {
    match v {
        Value::Array(items) => items.iter().map(eval_string).collect(),
        v => vec![eval_string(v)],
    }
}

fn duration(v: &Value) -> Value {
    let Some(seconds) = v.as_f64() else { return v.clone() };
    if !v.is_number() || !seconds.is_finite() || seconds < 0.0 {
        return v.clone();
    }
    match std::time::Duration::try_from_secs_f64(seconds) {
        Ok(d) => json!(format!("{d:?}")),
        Err(_) => v.clone(),
    }
}

fn c21(case: &mut Case) -> Verdict {
    use bumaga::ValueExtensions;
    let n = 12;
    let mut values = vec![];
    for _ in 0..n {
        let v = subject(&mut case.rng, 2);
        case.log(format!("VALUE {v}"));
        let (got, want) = (v.eval_string(), eval_string(&v));
        if got != want {
            bail!("text of {v} is {got:?}, expected {want:?}");
        }
        let (got, want) = (v.eval_boolean(), eval_bool(&v));
        if got != want {
            bail!("truth of {v} is {got}, expected {want}");
        }
        if let Some(want) = unsigned(&v) {
            let (got, size) = (v.eval_u64(), v.eval_usize());
            if got != want || size as u64 != want {
                bail!("number of {v} is {got} and {size}, expected {want}");
            }
            case.count("numbers", 1);
        }
        let (got, want) = (v.eval_array(), list(&v));
        if got != want {
            bail!("list of {v} is {got:?}, expected {want:?}");
        }
        // a typed value or the default
        let typed = serde_json::from_value::<i32>(v.clone()).unwrap_or_default();
        if v.eval::<i32>() != typed {
            bail!("i32 of {v} is {}, expected {typed}", v.eval::<i32>());
        }
        let typed = serde_json::from_value::<Vec<String>>(v.clone()).unwrap_or_default();
        if v.eval::<Vec<String>>() != typed {
            bail!("list of strings of {v} is {:?}, expected {typed:?}", v.eval::<Vec<String>>());
        }
        case.count("values", 1);
        case.nontrivial |= !v.is_null();
        values.push(v);
    }
    // the same inside of a view
    let html = "<html><body><p @title=\"{a}\" @lang=\"{a | duration}\" #checked=\"{a}\" ^onclick=\"M {a | duration}\">\
                {a}-{a | duration}</p><b ?=\"{a}\">x</b><i !=\"{a}\">y</i></body></html>";
    let css = "p { width: 10px; height: 10px; }";
    let mut view = load(html, css, &Pipes::new())?;
    for v in values {
        // equal to zero, so it need not be shown anew
        if v.as_f64().is_some_and(|x| x == 0.0 && x.is_sign_negative()) {
            continue;
        }
        use bumaga::{InputEvent, MouseButtons};
        let step = Step::new()
            .event(InputEvent::MouseMove([1.0, 1.0]))
            .event(InputEvent::MouseButtonDown(MouseButtons::Left))
            .event(InputEvent::MouseButtonUp(MouseButtons::Left));
        let out = update(&mut view, &step, &json!({"a": v}))?;
        let shown = snap(&view);
        let p = &shown.children[0];
        let lasting = duration(&v);
        let want = format!("{}-{}", eval_string(&v), eval_string(&lasting));
        let got = p.children.first().and_then(|c| c.text.clone()).unwrap_or_default();
        if got != want {
            bail!("text of {v} and its duration shown: {got:?}, expected {want:?}");
        }
        let lang = p.attrs.get("lang").cloned().unwrap_or_default();
        if lang != eval_string(&lasting) || p.attrs.get("title") != Some(&eval_string(&v)) {
            bail!("attributes bound to {v}: {:?}", p.attrs);
        }
        let truth = eval_bool(&v);
        let tag = if truth { "b" } else { "i" };
        if p.attrs.contains_key("checked") != truth || shown.children[1].tag != tag || shown.children.len() != 2 {
            bail!("flag and conditions of {v}: {:?} {}", p.attrs, shown.children[1].label());
        }
        if let Some(m) = out.messages.iter().find(|m| m.get("M").is_some()) {
            if m["M"] != lasting {
                bail!("duration of {v} in a message: {m}, expected {lasting}");
            }
            case.count("messages", 1);
        }
    }
    Ok(())
}
