//! C04 updates never fail, C05 loading any text ends with a view or an error.

use super::*;
use crate::props::content::{compare, Compared};
use crate::doc::*;
use crate::drive::*;
use crate::gen::*;
use crate::props::twins::*;
use crate::rng::Rng;
use crate::snap::{snap, SNode};
use bumaga::{Input, InputEvent, Keys, MouseButtons, View};
use serde_json::{json, Map, Value};
use std::sync::Once;
use std::time::Duration;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C04",
            run: c04,
            quick: 24_000,
            thorough: 1_000_000,
            rule: "random scenes (all constructs, styles, transitions, animations, unsupported and cyclic \
                   declarations) and mutated texts which load; histories of values of any shape (huge \
                   lists, nulls, deep nesting, extreme numbers), unordered and repeated events at any \
                   position (infinities and NaN included), viewports and times up to Duration::MAX; \
                   every update must return Ok, then ordinary updates must show what the template says; \
                   overflow checks are on, panics, aborts and hangs are caught; non-trivial: at least 3 \
                   updates",
            assumptions: &["every log message is formatted", "a hang is 40 s of CPU time in one case"],
            probes: kf3,
        },
        Property {
            id: "C05",
            run: c05,
            quick: 700_000,
            thorough: 6_000_000,
            rule: "documents and stylesheets from a grammar of everything the readers know, from scenes, \
                   and plain noise, then changed by inserting tokens, deleting, duplicating, swapping and \
                   cutting; loading must return, a view must survive updates, lookups and drop; \
                   non-trivial: text changed by at least one mutation",
            assumptions: &["every log message is formatted", "a hang is 40 s of CPU time in one case"],
            probes: no_probes,
        },
    ]
}

/// Inputs of known hangs by key.
pub fn hang(key: &str) -> Option<fn()> {
    match key {
        "KF3" => Some(|| {
            let html = "<html><body><s><b><x-card>a</x-card><a></a><div style=\"margin-left:48x;\">{e}</div>\
                        </b></s></body></html>";
            let css = "x-card{n:l;border-right:9 s 1;}div{animation:1.5s r move;}\
                       *{display:grid;padding-left:12.2vmax;overflow:scroll;}\
                       @keyframes move{0%{margin-left:15x;}1%{}}";
            let mut view = load(html, css, &Pipes::new()).expect("loads");
            let frames = [(3_600_000, [154.0, 844.0]), (16, [800.0, 600.0]), (16, [854.0, 660.0])];
            for (ms, viewport) in frames {
                let step = Step { ms, viewport, events: vec![] };
                update(&mut view, &step, &json!({})).expect("updates");
            }
        }),
        _ => None,
    }
}

/// Rounding errors keep a loop of the layout library from ending.
fn kf3() -> Vec<Probe> {
    vec![Probe {
        key: "KF3",
        run: || match crate::runner::stuck("KF3") {
            Some(at) if at.contains("distribute_space_up_to_limits") => {
                Err("update does not return for a grid of three children, stuck in taffy's \
                     distribute_space_up_to_limits"
                    .into())
            }
            Some(at) => Err(format!("update does not return: {}", at.replace('\n', " "))),
            None => Ok(()),
        },
    }]
}

struct Sink;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        std::hint::black_box(record.args().to_string());
    }
    fn flush(&self) {}
}

/// Log messages are formatted, so that a panic in there is seen.
fn logging() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&Sink);
        log::set_max_level(log::LevelFilter::Trace);
    });
}

const DURATIONS: &[Duration] = &[
    Duration::ZERO,
    Duration::from_nanos(1),
    Duration::from_millis(16),
    Duration::from_millis(500),
    Duration::from_secs(1),
    Duration::from_secs(3600),
    Duration::from_secs(1 << 40),
    Duration::MAX,
];

const NUMBERS: &[f32] = &[
    0.0,
    -0.0,
    1.0,
    -1.0,
    0.5,
    16.0,
    800.0,
    1e6,
    -1e6,
    1e20,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    f32::INFINITY,
    f32::NEG_INFINITY,
    f32::NAN,
];

fn number(r: &mut Rng) -> f32 {
    if r.chance(40) {
        *r.pick(NUMBERS)
    } else {
        r.int(-50, 900) as f32
    }
}

fn any_event(r: &mut Rng, shown: Option<&SNode>) -> InputEvent {
    let button = *r.pick(&[MouseButtons::Left, MouseButtons::Left, MouseButtons::Right]);
    match r.below(12) {
        0..=2 => InputEvent::MouseMove(crate::scene::gen_point(r, shown)),
        3 => InputEvent::MouseMove([number(r), number(r)]),
        4 | 5 => InputEvent::MouseButtonDown(button),
        6 | 7 => InputEvent::MouseButtonUp(button),
        8 => InputEvent::MouseWheel([number(r), number(r)]),
        9 => {
            let key = *r.pick(&[Keys::Unknown, Keys::Enter, Keys::Backspace, Keys::Tab, Keys::Shift]);
            if r.chance(50) {
                InputEvent::KeyDown(key)
            } else {
                InputEvent::KeyUp(key)
            }
        }
        10 => InputEvent::Char(*r.pick(&['a', '\0', 'ж', '"', '\n', '🙂', '{'])),
        _ => InputEvent::Unknown,
    }
}

/// Values which no template expects.
fn monster(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => Value::Array((0..r.range(0, 300)).map(|i| json!(i)).collect()),
        1 => {
            let mut v = json!("deep");
            for i in 0..r.range(1, 100) {
                v = if (i + r.below(2)) % 2 == 0 { json!([v]) } else { json!({"a": v}) };
            }
            v
        }
        2 => json!("x".repeat(r.range(0, 3000))),
        3 => json!({"": null, "0": [], "1": {"0": 1}, "~": 1, "a/b": 2, "this": 3, "-1": 4}),
        4 => json!("style: \"}{ color: red; /*"),
        5 => json!("width: 1e9px; width: var(--a); --a: var(--a); color: #zzz;"),
        _ => any_value(r, 4),
    }
}

/// Puts something unexpected somewhere.
fn poison(r: &mut Rng, v: &mut Value) {
    if r.chance(20) {
        *v = if r.chance(40) { Value::Null } else { monster(r) };
        return;
    }
    match v {
        Value::Array(items) if !items.is_empty() => {
            let i = r.below(items.len());
            poison(r, &mut items[i]);
        }
        Value::Object(map) if !map.is_empty() => {
            let i = r.below(map.len());
            if let Some((_, v)) = map.iter_mut().nth(i) {
                poison(r, v);
            }
        }
        v => *v = monster(r),
    }
}

fn storm(case: &mut Case, view: &mut View, value: &Value, shown: Option<&SNode>) -> Verdict {
    let r = &mut case.rng;
    let time = *r.pick(DURATIONS);
    let mut input = Input::new().time(time);
    let mut viewport = [number(r), number(r)];
    if r.chance(50) {
        input = input.viewport(viewport);
    } else {
        viewport = [800.0, 600.0];
    }
    let events: Vec<InputEvent> = (0..r.below(7)).map(|_| any_event(r, shown)).collect();
    let line = format!("STORM {time:?} {viewport:?} {events:?} {value}");
    case.log(line);
    let input = input.events(events);
    match view.update(input, value.clone()) {
        Ok(output) => case.count("messages", output.messages.len()),
        Err(e) => bail!("update failed: {e:?}"),
    }
    case.count("updates", 1);
    Ok(())
}

fn deep_html(r: &mut Rng, levels: usize) -> String {
    let mut s = String::from("<html>\n<body>\n");
    let tags: Vec<&str> = (0..levels).map(|_| *r.pick(&["div", "p", "ul", "b", "textarea"])).collect();
    for (i, t) in tags.iter().enumerate() {
        let extra = match r.below(8) {
            0 => " *a=\"1 {a}\"",
            1 => " ?=\"{a.b}\"",
            2 => " @class=\"x {c} y\"",
            3 => " class=\"x\"",
            4 => " +a=\"{a.a}\"",
            _ => "",
        };
        s.push_str(&format!("<{t}{extra}>"));
        if i % 3 == 0 && r.chance(40) {
            s.push_str("{a} text {a.b.c}");
        }
    }
    for t in tags.iter().rev() {
        s.push_str(&format!("</{t}>"));
    }
    s.push_str("\n</body>\n</html>");
    s
}

fn c04(case: &mut Case) -> Verdict {
    logging();
    if case.rng.chance(35) {
        return c04_texts(case);
    }
    let rich_opts = Rich {
        animations: true,
        transitions: true,
        handlers: 20,
        draggable: 15,
        wild: 12,
        tame: false,
    };
    let s = rich(case, &rich_opts);
    let css = if case.rng.chance(50) { s.css.clone() } else { spoil_css(&mut case.rng, &s.css) };
    case.log(format!("CSS {css}"));
    let mut view = match load(&s.html, &css, &s.pipes) {
        Ok(v) => v,
        // the stylesheet was spoiled too much
        Err(_) if css != s.css => return Ok(()),
        Err(e) => bail!("does not load: {e}"),
    };
    let mut shown = None;
    let mut value = gen_value(&mut case.rng, &s.model, 10);
    let rounds = if case.tiny { 1 } else { case.rng.range(1, 3) };
    for _ in 0..rounds {
        for _ in 0..case.rng.range(1, if case.tiny { 3 } else { 7 }) {
            if case.rng.chance(60) {
                value = mutate(&mut case.rng, &s.model, &value, 30);
            }
            let mut sent = value.clone();
            if case.rng.chance(50) {
                poison(&mut case.rng, &mut sent);
            }
            storm(case, &mut view, &sent, shown.as_ref())?;
            if case.rng.chance(30) {
                shown = Some(snap(&view));
            }
        }
        // an ordinary update works normally
        value = gen_value(&mut case.rng, &s.model, 0);
        let step = Step { ms: 16, events: vec![], ..Step::default() };
        case.log(format!("ORDINARY {value}"));
        update(&mut view, &step, &value)?;
        let got = snap(&view);
        let want = Eval::run(&s.doc, &value, &s.pipes);
        let mut compared = Compared::default();
        compare(&want, &got, "body", &mut compared)
            .map_err(|e| format!("ordinary update after a storm: {e}"))?;
        case.count("nodes compared", got.count());
        case.count("ordinary updates", 1);
        shown = Some(got);
    }
    case.nontrivial = case.stats["updates"] >= 3;
    Ok(())
}

/// The same on whatever text loads.
fn c04_texts(case: &mut Case) -> Verdict {
    let r = &mut case.rng;
    let mutations = *r.pick(&[0, 0, 0, 1]);
    let (html, css) = texts(r, mutations);
    case.log(format!("HTML {html}\nCSS {css}"));
    let Ok(mut view) = load(&html, &css, &pipes()) else { return Ok(()) };
    case.count("mutated texts loaded", 1);
    let n = if case.tiny { 2 } else { case.rng.range(3, 7) };
    let mut shown = None;
    for _ in 0..n {
        let value = model_value(&mut case.rng);
        storm(case, &mut view, &value, shown.as_ref())?;
        shown = Some(snap(&view));
    }
    case.nontrivial = n >= 3;
    Ok(())
}

fn model_value(r: &mut Rng) -> Value {
    let mut map = Map::new();
    for k in ["a", "b", "c", "items", "item", "x"] {
        if r.chance(80) {
            map.insert(k.into(), monster(r));
        }
    }
    if r.chance(10) {
        monster(r)
    } else {
        Value::Object(map)
    }
}

fn c05(case: &mut Case) -> Verdict {
    logging();
    let r = &mut case.rng;
    let mutations = *r.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 6]);
    let (html, css) = texts(r, mutations);
    case.log(format!("HTML {html}\nCSS {css}"));
    case.nontrivial = mutations > 0;
    match load(&html, &css, &pipes()) {
        Err(_) => case.count("errors", 1),
        Ok(mut view) => {
            case.count("views", 1);
            for i in 0..2 {
                let value = model_value(&mut case.rng);
                case.log(format!("UPDATE {i} {value}"));
                let step = Step::new().ms(100).event(InputEvent::MouseMove([10.0, 10.0]));
                update(&mut view, &step, &value)?;
                let shown = snap(&view);
                case.count("elements shown", shown.count());
                case.observe(shown.digest());
            }
            let _ = view.get_element_by_id("main");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Texts

const KEYS: &[&str] = &[
    "a", "b", "c", "x", "items", "item", "0", "1", "2", "9", "this", "a-b", "_", "01", "-1", "999",
    "99999999999", "18446744073709551615", "18446744073709551616",
];

fn binder(r: &mut Rng) -> String {
    let path: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(KEYS)).collect();
    let mut s = path.join(".");
    for _ in 0..r.below(3) {
        s.push_str(r.pick(&["|upper", " | duration", "|nothing", "|upper:a.b:c", " |  upper "]));
    }
    match r.below(400) {
        0 => "{}".into(),
        1 => format!("{{{s}"),
        2 => format!("{s}}}"),
        3 => format!("{{.{s}}}"),
        4 => format!("{{ {s} }}"),
        _ => format!("{{{s}}}"),
    }
}

fn attribute(r: &mut Rng) -> String {
    let b = binder(r);
    match r.below(28) {
        0 => format!("*{}=\"{} {b}\"", r.pick(KEYS), r.pick(&["0", "1", "2", "3", "7", "", "03"])),
        1 => format!("*item=\"{}{b}\"", r.below(5)),
        2 | 3 => format!("{}=\"{b}\"", r.pick(&["?", "!"])),
        4 => format!("+{}=\"{b}\"", r.pick(KEYS)),
        5 => format!("#{}=\"{b}\"", r.pick(&["disabled", "checked", "id", "class", "style"])),
        6 => format!("@id=\"{b}\""),
        7 => format!("@class=\"x {b} y\""),
        8 => format!("@style=\"{b}\""),
        9 => format!("@style=\"width: {b}px; {b}\""),
        10 => format!("@src=\"{b}{b}\""),
        11 => format!("@{}=\"just text\"", r.pick(KEYS)),
        12 => format!("^onclick=\"{} {b} $event {b}\"", r.pick(KEYS)),
        13 => format!("^on{}=\"\"", r.pick(&["click", "input", "mouseenter", "drop", "x"])),
        14 => format!("^onkeydown=\"$event key {b}\""),
        15 => "id=\"main\"".into(),
        16 => "class=\"x y\"".into(),
        17 => "style=\"color: red; width: 50%; --a: var(--a);\"".into(),
        18 => "style=\"width\"".into(),
        19 => "href=\"#t\"".into(),
        20 => "hidden".into(),
        21 => "data-x=unquoted".into(),
        22 => "draggable=\"true\"".into(),
        23 => "title=\"a \\\" \\u12ab < > {x}\"".into(),
        24 => "src=\"a.png\" src=\"b.png\"".into(),
        _ if r.chance(10) => "=\"\"".into(),
        _ if r.chance(70) => {
            let key = *r.pick(&["title", "@title", "id", "class", "src", "href", "@src", "@class", "^onclick", "?", "*x", "+x"]);
            format!("{key}=\"{}{}\"", odd(r, 4), if r.chance(30) { format!("{{{}}}", odd(r, 3)) } else { String::new() })
        }
        _ => "title".into(),
    }
}

fn element(r: &mut Rng, depth: usize, out: &mut String) {
    match r.below(14) {
        0 if r.chance(5) => out.push_str(r.pick(&["a > b", "<!-- ", "{", "</b>"])),
        0 if r.chance(15) => out.push_str(&odd(r, 5)),
        0 => out.push_str(r.pick(&["text", " a\n  b ", "ж\r\nж", "&amp;", "\t", "}"])),
        1 | 2 => out.push_str(&binder(r)),
        3 => out.push_str(r.pick(&["<!-- c -->", "<!-- <b> -->", "<!---->"])),
        4 => out.push_str(r.pick(&["<script>x < y</script>", "<link href=\"#t\">", "<link href=\"#u\"/>"])),
        5 => {
            let tag = *r.pick(&["img", "input", "br", "hr", "IMG", "imgx"]);
            let attrs: Vec<String> = (0..r.below(3)).map(|_| attribute(r)).collect();
            out.push_str(&format!("<{tag} {}{}>", attrs.join(" "), r.pick(&["", "/", " /"])));
        }
        _ => {
            let tag = *r.pick(&["div", "p", "li", "b", "template", "textarea", "x-y", "H1"]);
            let attrs: Vec<String> = (0..r.below(4)).map(|_| attribute(r)).collect();
            out.push_str(&format!("<{tag} {}>", attrs.join(" ")));
            if depth > 0 {
                for _ in 0..r.below(4) {
                    element(r, depth - 1, out);
                }
            }
            out.push_str(&format!("</{tag}>"));
        }
    }
}

fn weird_html(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(80) {
        s.push_str("<html>\n");
    }
    for id in ["t", "u"] {
        if r.chance(50) {
            s.push_str(&format!("<template id=\"{id}\">"));
            for _ in 0..*r.pick(&[1, 1, 1, 0, 2]) {
                element(r, 2, &mut s);
            }
            s.push_str("</template>\n");
        }
    }
    s.push_str(r.pick(&["<body>", "<body>\n  ", "<body class=\"a\" @id=\"{a}\">", "<body>"]));
    for _ in 0..r.range(0, 6) {
        element(r, 3, &mut s);
    }
    s.push_str("</body>");
    if s.starts_with("<html>") != r.chance(2) {
        s.push_str("\n</html>");
    }
    s
}

const VALUES: &[&str] = &[
    "1px", "0", "-1", "1.5em", "1px", "99999999999999999999999999999999999999999999px", "-", ".",
    "1.2.3px", "50%", "-50%", "#fff", "#12345678", "#f", "#123456789abcdef", "red", "rgb(1, 2, 3)",
    "rgb(999, -1, 0.5)", "rgba(1,2,3,0.5)", "rgba()", "url(\"a.png\")", "url()", "url(a)", "var(--a)",
    "var(--b, 1px)", "var(--c)", "\"str\"", "\"\"", "auto", "none", "inherit", "flex", "block", "1s", "100ms",
    "-1s", "linear", "infinite", "fade", "slide", "1fr", "repeat(2, 1fr)", "minmax(1px, 2px)",
    "translate(1px, 2%)", "translate()", "translate3d(1px, 2px)", "calc(1px)", "span 2", "all", "width",
    "opacity", "3", "0.5", "2147483648", "-0",
];

const BAD_VALUES: &[&str] = &["1e5px", "1px,", "1 / 2", "+1", "!important", "(", "{", "}", ":", "\"", "50%%", "1px1"];

const PROPERTIES: &[&str] = &[
    "width", "height", "color", "background", "background-image", "background-size", "background-position",
    "background-color", "border", "border-radius", "border-width", "margin", "padding", "inset", "font",
    "font-size", "font-weight", "font-family", "line-height", "display", "flex", "flex-grow", "gap", "opacity",
    "transform", "transition", "transition-duration", "animation", "animation-name", "animation-duration",
    "animation-iteration-count", "animation-delay", "overflow", "position", "pointer-events", "cursor",
    "object-fit", "aspect-ratio", "--a", "--b", "--c", "unknown", "visibility", "grid-template-columns",
    "align-items", "justify-content", "z-index", "text-align", "box-shadow", "_", "-",
];

const ODD: &[&str] = &[
    "\\", "a", "Z", "0", "9", "-", "_", " ", "ж", "🙂", "e\u{301}", "\u{a0}", "\u{200b}", "'", "/", "|", "$", "%", "#", "@",
    "&amp;", "&", "n", "u", ".", ",", "\t", "\n", "ß", "İ", "\u{fffd}", "\u{10ffff}",
];

/// A few characters none of which ends a string, a tag or a block.
fn odd(r: &mut Rng, max: usize) -> String {
    (0..r.below(max + 1)).map(|_| *r.pick(ODD)).collect()
}

/// A value of the grammar with contents nobody expects.
fn odd_value(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, max: usize| -> String { (0..r.below(max + 1)).map(|_| *r.pick(&['0', '1', '7', '9'])).collect() };
    match r.below(10) {
        9 => {
            let n = *r.pick(&[1, 2, 5, 20, 45]);
            let open = r.pick(&["var(--a,", "var(--a, ", "f(", "rgb(1, ", "url(", "translate(1px,", "var( --b , "]).repeat(n);
            let close = ")".repeat(if r.chance(50) { n } else { r.below(n + 2) });
            format!("{open}1px{close}")
        }
        0 => (0..r.below(12)).fold("#".to_string(), |s, _| s + r.pick(&["0", "f", "A", "9", "c"])),
        1 | 2 => format!("\"{}\"", odd(r, 4)),
        3 => format!("url(\"{}\")", odd(r, 4)),
        4 => format!("{}{}.{}{}", r.pick(&["", "-"]), digits(r, 9), digits(r, 12), r.pick(&["", "px", "%", "em", "s", "ms", "vw", "fr"])),
        5 => format!("{}{}{}", r.pick(&["", "-"]), digits(r, 45), r.pick(&["", "px", "%", "rem", "s", "vmax"])),
        6 => {
            let args: Vec<String> = (0..r.below(7)).map(|_| format!("{}{}{}", r.pick(&["", "", "-"]), digits(r, 4), r.pick(&["", "", "%", "px", ".5"]))).collect();
            format!("{}({})", r.pick(&["rgb", "rgba", "translate", "translate3d", "matrix", "repeat", "var", "url"]), args.join(r.pick(&[",", ", ", " "])))
        }
        7 => format!("var(--{})", r.pick(&["a", "b", "c", "a-b", "", "-"])),
        _ => (0..r.range(1, 6)).map(|_| *r.pick(&["a", "Z", "-", "_", "none", "x"])).collect(),
    }
}

fn css_decl(r: &mut Rng) -> String {
    if r.chance(5) {
        let values: Vec<String> = (0..*r.pick(&[1, 1, 2, 4])).map(|_| odd_value(r)).collect();
        return format!("{}: {};", r.pick(PROPERTIES), values.join(" "));
    }
    let layers: Vec<String> = (0..*r.pick(&[1, 1, 1, 2, 4]))
        .map(|_| {
            let vs: Vec<&str> = (0..*r.pick(&[1, 1, 1, 2, 3, 4, 6]))
                .map(|_| if r.chance(1) && r.chance(30) { *r.pick(BAD_VALUES) } else { *r.pick(VALUES) })
                .collect();
            vs.join(" ")
        })
        .collect();
    format!("{}: {};", r.pick(PROPERTIES), layers.join(r.pick(&[",", ", ", ",\n"])))
}

fn weird_css(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(6) {
        if r.chance(20) {
            s.push_str(&format!("@keyframes {} {{", r.pick(&["fade", "slide", "a1", "-"])));
            for _ in 0..r.below(4) {
                let step = *r.pick(&[
                    "from", "to", "0%", "50%", "100%", "150%", "33.3%", "mid", "99999999999999%",
                ]);
                let decls: Vec<String> = (0..r.below(3)).map(|_| css_decl(r)).collect();
                s.push_str(&format!("{step} {{ {} }}", decls.join(" ")));
            }
            s.push_str("}\n");
            continue;
        }
        let mut compounds = vec![];
        for _ in 0..r.range(1, 3) {
            let mut c = String::new();
            if r.chance(50) {
                c.push_str(r.pick(&["*", "div", "p", "body", "b", "x-y"]));
            }
            for _ in 0..r.below(3) {
                c.push_str(r.pick(&[
                    "#main", ".x", ".y", ":hover", ":active", ":focus", ":root", ":nth-child(2)",
                    "::before", "[id]", "[class=x]", "[class~=\"x\"]", "[title^=a]", "[title$=\"\"]", "[a*=b]",
                    "[a|=b]", ":not(.x)",
                ]));
            }
            if c.is_empty() {
                c.push('*');
            }
            if r.chance(1) {
                c.push_str(r.pick(&[":", ".", "#", "[a*=b i]", "*", "::"]));
            }
            compounds.push(c);
        }
        s.push_str(&compounds.join(r.pick(&[" > ", " + ", " ", ", ", " ~ ", ">"])));
        s.push_str(" {");
        for _ in 0..r.below(5) {
            s.push_str(&css_decl(r));
        }
        s.push_str("}\n");
    }
    s
}

fn spoil_css(r: &mut Rng, css: &str) -> String {
    // whole rules with bad values, the text stays readable
    let mut s = css.to_string();
    for _ in 0..r.range(1, 3) {
        s.push_str(&format!(
            "\n{} {{ {} {} }}",
            r.pick(&["*", "div", "p", ":hover", "body > *"]),
            css_decl(r),
            css_decl(r)
        ));
    }
    s
}

const TOKENS: &[&str] = &[
    "<", ">", "/", "</", "/>", "</div>", "<div>", "<b", "{", "}", "{{", "}}", "\"", "'", "=", "\\", "|", ".", ",",
    ":", ";", "*", "?", "!", "+", "^", "#", "@", "$event", "(", ")", "[", "]", "~", "%", "-", "--", "px", "0", "9",
    " ", "\n", "\r\n", "\t", "\0", "\u{feff}", "ж", "🙂", "\u{301}", "<!--", "-->", "/*", "*/", "{a}", "{a.b}",
    "{items}", "*item=\"3 {items}\"", "?=\"{a}\"", "!=\"{a}\"", "+a=\"{a}\"", "@class=\"{a}\"", "^onclick=\"a {a}\"",
    "<template id=\"t\">", "</template>", "<link href=\"#t\">", "<body>", "</body>", "<script>", "</script>",
    "@keyframes", "var(--a)", "--a: var(--a);", ":hover", "url(", "rgb(", "1e9", "!important", "{color: red;}",
];

fn chars(s: &str) -> Vec<usize> {
    s.char_indices().map(|(i, _)| i).chain(std::iter::once(s.len())).collect()
}

fn mutate_text(r: &mut Rng, s: &str) -> String {
    let at = chars(s);
    let i = *r.pick(&at);
    let span = *r.pick(&[1, 1, 2, 5, 20, 80]);
    let k = at.iter().position(|x| *x == i).unwrap();
    let j = at[(k + span).min(at.len() - 1)];
    match r.below(12) {
        0..=4 => format!("{}{}{}", &s[..i], r.pick(TOKENS), &s[i..]),
        5 | 6 => format!("{}{}", &s[..i], &s[j..]),
        7 => format!("{}{}{}", &s[..j], &s[i..j], &s[j..]),
        8 => format!("{}{}{}", &s[..i], r.pick(TOKENS), &s[j..]),
        9 => {
            let m = *r.pick(&at);
            let (i, j) = (i.min(m), i.max(m));
            format!("{}{}", &s[j..], &s[..i])
        }
        10 => {
            // move a piece somewhere else
            let rest = format!("{}{}", &s[..i], &s[j..]);
            let at = chars(&rest);
            let m = *r.pick(&at);
            format!("{}{}{}", &rest[..m], &s[i..j], &rest[m..])
        }
        _ => {
            if r.chance(30) {
                s[..i].to_string()
            } else {
                let c = char::from_u32(r.below(0x250) as u32).unwrap_or(' ');
                format!("{}{c}{}", &s[..i], &s[i..])
            }
        }
    }
}

fn noise(r: &mut Rng) -> String {
    let n = r.below(60);
    (0..n).map(|_| *r.pick(TOKENS)).collect()
}

/// Keeps repeat counts, indices and nesting within the bounds of the property.
fn bounded(html: &str) -> String {
    let digits = if html.matches('*').count() >= 2 { 1 } else { 3 };
    let mut run = 0;
    html.chars()
        .filter(|c| {
            run = if c.is_ascii_digit() { run + 1 } else { 0 };
            run <= digits
        })
        .collect()
}

fn css_bounded(css: &str) -> String {
    // functions which are not closed count until the end
    let mut open = 0;
    css.chars()
        .filter(|c| match c {
            '(' => {
                open += 1;
                open <= 60
            }
            ')' => {
                open = open.min(60);
                open = if open > 0 { open - 1 } else { 0 };
                true
            }
            _ => true,
        })
        .collect()
}

fn texts(r: &mut Rng, mutations: usize) -> (String, String) {
    let mut html = match r.below(20) {
        0 => noise(r),
        1 => {
            let n = r.range(10, 60);
            deep_html(r, n)
        }
        2..=9 => weird_html(r),
        _ => {
            let depth = r.range(1, 2);
            let model = gen_model(r, depth);
            let doc = gen_doc(r, &model, &Opts { size: 14, handlers: 20, ..Opts::default() });
            let seed = r.next();
            crate::doc::html(&doc, &mut Layout::varied(seed))
        }
    };
    let mut css = match r.below(12) {
        0 => noise(r),
        1 => String::new(),
        2..=7 => weird_css(r),
        _ => {
            let sheet = crate::css::Sheet {
                rules: (0..r.range(1, 4))
                    .map(|_| crate::css::Rule {
                        selectors: vec![crate::props::styles::gen_complex(r, 20)],
                        decls: (0..3).map(|_| crate::css::gen_decl(r)).collect(),
                    })
                    .collect(),
                ..Default::default()
            };
            crate::css::sheet_text(&sheet)
        }
    };
    for _ in 0..mutations {
        if r.chance(60) {
            html = mutate_text(r, &html);
        } else {
            css = mutate_text(r, &css);
        }
    }
    (bounded(&html), css_bounded(&css))
}
