//! C07 meaning of declarations, C08 selectors, C09 cascade.

use super::*;
use crate::css::*;
use crate::doc::*;
use crate::drive::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::scene::*;
use crate::snap::snap;
use std::collections::HashMap;

const TABLE: &str = "meaning of values as CSS defines it for the supported subset, written down \
                     independently in the harness (css.rs)";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C07",
            run: c07,
            quick: 80_000,
            thorough: 1_500_000,
            rule: "random declarations of every supported property and value form (and unsupported \
                   values) on elements below holders with random font size and colour, in rules or \
                   style attributes, directly or through a variable, for random viewports; all \
                   longhands of every element are compared with the reference meaning; non-trivial: \
                   a longhand differs from its initial value",
            assumptions: &[TABLE, "em and currentcolor are not used where the element sets its own font size or colour"],
            probes: no_probes,
        },
        Property {
            id: "C08",
            run: c08,
            quick: 40_000,
            thorough: 700_000,
            rule: "random documents with bound classes, ids, attributes and flags, conditions and \
                   loops, random rules (all selector forms) each marking one property, histories of \
                   values and pointer input; all longhands of all shown elements are compared after \
                   every update with a reference matcher; non-trivial: some rule matched and some did \
                   not in every history, and what matched changed",
            assumptions: &["'+' is not used between siblings which have text between them"],
            probes: no_probes,
        },
        Property {
            id: "C09",
            run: c09,
            quick: 40_000,
            thorough: 700_000,
            rule: "random overlapping rules over few properties (shorthands and longhands, layers, \
                   unsupported values and properties, variables, missing and cyclic variables), style \
                   attributes static and bound, nested elements, histories of values which toggle \
                   classes; all longhands of all shown elements are compared with a reference cascade; \
                   non-trivial: at least 6 declarations competed",
            assumptions: &[
                TABLE,
                "variables which refer to variables refer to ones defined once on the body",
                "a missing variable is the whole value",
            ],
            probes: no_probes,
        },
    ]
}

fn without_em(r: &mut Rng, d: &mut Decl) {
    for t in d.layers.iter_mut().flatten() {
        if let Tok::Dim(v, "em") = t {
            *t = Tok::Dim(*v, *r.pick(&["px", "rem"]));
        }
    }
}

fn is_bad(r: &mut Rng, d: &mut Decl, percent: usize) {
    if r.chance(percent) && kind(&d.prop).is_some() && d.layers.len() == 1 {
        let prop = d.prop.clone();
        d.layers = vec![vec![gen_bad_tok(r, &prop)]];
    }
}

/// A declaration together with the variables it uses.
fn through_variable(r: &mut Rng, d: &mut Decl, n: usize) -> Option<Decl> {
    const NAMES: &[&str] = &["--x", "--main-color", "--Pad_x", "--w", "--very-long-name-of-variable"];
    if d.layers.len() == 1 && d.layers[0].len() == 1 && d.prop != "background" {
        let name = format!("{}{}", NAMES[n % NAMES.len()], ["", "-a", "-b"][(n / NAMES.len()) % 3]);
        let var = Decl {
            prop: name.clone(),
            layers: d.layers.clone(),
        };
        d.layers = vec![vec![Tok::Var(name)]];
        let _ = r;
        return Some(var);
    }
    None
}

fn c07(case: &mut Case) -> Verdict {
    let r = &mut case.rng;
    let mut sheet = Sheet::default();
    let mut inline: HashMap<String, Vec<Decl>> = HashMap::new();
    let mut body = Elem::new("body");
    let mut serial = 0;
    let letters = |n: usize| {
        let a = (b'a' + (n % 26) as u8) as char;
        format!("k{a}{}", n / 26)
    };
    let holders = if case.tiny { 1 } else { r.range(1, 3) };
    let mut vars = 0;
    for _ in 0..holders {
        serial += 1;
        let name = letters(serial);
        let mut holder = Elem::new("section").attr("class", &name);
        let mut decls = vec![];
        if r.chance(60) {
            decls.push(Decl::one("font-size", gen_tok(r, "font-size")));
        }
        if r.chance(60) {
            decls.push(Decl::one("color", gen_color(r)));
        }
        if !decls.is_empty() {
            sheet.rules.push(Rule::new(Simple::Class(name), decls));
        }
        for _ in 0..if case.tiny { 2 } else { r.range(2, 6) } {
            serial += 1;
            let name = letters(serial);
            let mut e = Elem::new(r.pick(&["div", "p", "button", "img", "input"]));
            let mut decls = vec![];
            for _ in 0..r.range(1, 2) {
                let mut d = gen_decl(r);
                is_bad(r, &mut d, 10);
                decls.push(d);
            }
            let sets = |p: &str, decls: &[Decl]| decls.iter().any(|d| d.prop == p);
            if sets("color", &decls) {
                decls.retain(|d| !(d.prop == "border" && d.layers[0].len() == 1));
            } else if r.chance(8) {
                let p = *r.pick(&["background-color", "border-left-color", "border-top-color"]);
                decls.push(Decl::one(p, Tok::Kw(r.pick(&["currentcolor", "currentColor"]).to_string())));
            }
            if sets("font-size", &decls) {
                for d in decls.iter_mut().filter(|d| d.prop != "font-size") {
                    without_em(r, d);
                }
            }
            let mut all = vec![];
            for mut d in decls {
                if r.chance(12) {
                    if let Some(var) = through_variable(r, &mut d, vars) {
                        vars += 1;
                        all.push(var);
                    }
                }
                all.push(d);
            }
            if r.chance(25) {
                let text = decls_text(&all);
                if !text.contains('"') {
                    e.attrs.push(Attr::Static("style".into(), text.clone()));
                    inline.insert(text, all);
                } else {
                    e.attrs.push(Attr::Static("class".into(), name.clone()));
                    sheet.rules.push(Rule::new(Simple::Class(name), all));
                }
            } else {
                e.attrs.push(Attr::Static("class".into(), name.clone()));
                sheet.rules.push(Rule::new(Simple::Class(name), all));
            }
            if !is_void(&e.tag) {
                e = e.child(Elem::new("i"));
            }
            holder = holder.child(e);
        }
        body = body.child(holder);
    }
    if r.chance(15) {
        let p = *r.pick(&["background-color", "border-left-color", "color"]);
        let decl = Decl::one(p, Tok::Kw(r.pick(&["currentcolor", "currentColor"]).to_string()));
        sheet.rules.push(Rule::new(Simple::Type("body".into()), vec![decl]));
    }
    let doc = Doc::new(body);
    let html = html(&doc, &mut Layout::plain());
    let mut css = sheet_text(&sheet);
    if r.chance(50) {
        css = respace(&css, r);
    }
    let r = { case.log(format!("HTML {html}\nCSS {css}")); &mut case.rng };
    let viewport = [r.range(1, 4000) as f32 / 2.0, r.range(1, 3000) as f32 / 2.0];
    let viewport = if r.chance(30) { [800.0, 600.0] } else { viewport };
    case.log(format!("VIEWPORT {viewport:?}"));
    let mut view = load(&html, &css, &Pipes::new()).map_err(|e| format!("does not load: {e}"))?;
    let value = serde_json::json!({});
    let pipes = Pipes::new();
    let mut viewport = viewport;
    for i in 0..case.rng.range(1, 2) {
        if i > 0 && case.rng.chance(60) {
            viewport[case.rng.below(2)] = case.rng.range(1, 4000) as f32 / 2.0;
            case.log(format!("VIEWPORT {viewport:?}"));
        }
        let step = Step {
            viewport,
            ms: *case.rng.pick(&[0, 16]),
            events: vec![],
        };
        update(&mut view, &step, &value)?;
        let want = Eval::run(&doc, &value, &pipes);
        let arena = Arena::new(&want);
        let got = snap(&view);
        let mut shown = vec![];
        shown_elements(&got, &mut shown);
        if shown.len() != arena.items.len() {
            bail!("{} elements shown, expected {}", shown.len(), arena.items.len());
        }
        let looks = Styler {
            sheet: &sheet,
            inline: &inline,
            viewport,
        }
        .run(&arena);
        for (look, s) in looks.iter().zip(&shown) {
            let look = look.as_ref().expect("no ambiguous rules");
            let n = look.check(s).map_err(|e| format!("{}: {e}", s.label()))?;
            case.count("longhands compared", n);
            // borders are drawn where they have a width
            let edges = s.borders.map(|b| (b.0 > 0.0).then_some(b));
            if s.edges != edges {
                bail!("{}: edges {:?} of borders {:?}", s.label(), s.edges, s.borders);
            }
            let special = look
                .values
                .iter()
                .filter(|((p, _), v)| !v.same(&initial(p)))
                .count();
            case.count("non-initial longhands", special);
            case.nontrivial |= special > 0;
        }
        case.count("updates", 1);
    }
    for rule in &sheet.rules {
        case.count("declarations", rule.decls.len());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

const ATTRS: &[&str] = &["lang", "data-x", "value", "title", "checked", "data_y", "rel", "X", "class", "id"];
const ATTR_VALUES: &[&str] = &[
    "a", "en", "en-US", "1", "c1", "c2", "red", "x", "x y", "on", "on-off", "hello", "words", "i1",
    "100%", "yes", "true", "en-US-x", "en-", "-", "on--off", "EN", "Red", "big_red", "red-hot",
];

const IDS: &[&str] = &["i1", "i2", "c1", "c2", "red", "on", "Red", "I1", "i1_x", "red-hot"];

fn gen_simple(r: &mut Rng) -> Simple {
    match r.below(14) {
        0..=2 => Simple::Type(r.pick(TAGS).to_string()),
        3 => Simple::Type(r.pick(&["body", "img", "input", "br"]).to_string()),
        4..=8 => Simple::Class(r.pick(WORDS).to_string()),
        9 => Simple::Id(r.pick(IDS).to_string()),
        10 => Simple::All,
        _ => gen_attr(r),
    }
}

fn gen_attr(r: &mut Rng) -> Simple {
    let op = *r.pick(&["", "=", "~=", "|=", "^=", "$=", "*="]);
    let value = *r.pick(ATTR_VALUES);
    let bare = value.chars().all(|c| c.is_ascii_alphabetic());
    Simple::Attr(r.pick(ATTRS).to_string(), op, value.into(), !bare || r.chance(50))
}

fn gen_compound(r: &mut Rng, pseudo: usize) -> Vec<Simple> {
    let mut out = vec![gen_simple(r)];
    while r.chance(30) {
        let s = match gen_simple(r) {
            Simple::Type(_) | Simple::All => continue,
            s => s,
        };
        out.push(s);
    }
    if r.chance(pseudo) {
        out.push(Simple::Pseudo(r.pick(&["hover", "hover", "active", "focus"]).to_string()));
    }
    out
}

pub fn gen_complex(r: &mut Rng, pseudo: usize) -> Complex {
    let mut c = Complex {
        first: gen_compound(r, pseudo),
        rest: vec![],
    };
    while r.chance(35) && c.rest.len() < 3 {
        let comb = *r.pick(&['>', '+', '>']);
        c.rest.push((comb, gen_compound(r, pseudo)));
    }
    c
}

/// Not inherited properties with a value which is not the initial one.
fn marker(n: usize) -> Decl {
    let one = |p: &str, t: Tok| Decl::one(p, t);
    let px = |v: f32| Tok::Dim(v, "px");
    let kw = |s: &str| Tok::Kw(s.into());
    match n {
        0 => one("opacity", Tok::Num(0.5)),
        1 => one("border-top-color", Tok::Hex([1, 2, 3, 255], false)),
        2 => one("border-right-color", Tok::Hex([1, 2, 3, 255], false)),
        3 => one("border-bottom-color", Tok::Hex([1, 2, 3, 255], false)),
        4 => one("border-left-color", Tok::Hex([1, 2, 3, 255], false)),
        5 => one("border-top-left-radius", px(3.0)),
        6 => one("border-top-right-radius", px(3.0)),
        7 => one("border-bottom-right-radius", px(3.0)),
        8 => one("background-color", Tok::Hex([9, 9, 9, 255], false)),
        9 => one("padding-left", px(4.0)),
        10 => one("padding-top", px(6.0)),
        11 => one("margin-left", px(5.0)),
        12 => one("margin-top", px(5.0)),
        13 => one("min-height", px(20.0)),
        14 => one("min-width", px(30.0)),
        15 => one("column-gap", px(2.0)),
        16 => one("row-gap", px(2.0)),
        17 => one("flex-grow", Tok::Num(2.0)),
        18 => one("flex-shrink", Tok::Num(3.0)),
        19 => one("display", kw("flex")),
        20 => one("cursor", kw("pointer")),
        21 => one("border-left-width", px(2.0)),
        22 => one("border-top-width", px(2.0)),
        23 => one("align-self", kw("center")),
        24 => one("background-image", Tok::Url("m.png".into())),
        25 => one("color", Tok::Hex([7, 7, 7, 255], false)),
        26 => one("font-size", px(20.0)),
        27 => one("flex-wrap", kw("wrap")),
        28 => one("justify-content", kw("center")),
        29 => one("visibility", kw("hidden")),
        _ => one("pointer-events", kw("none")),
    }
}

const MARKERS: usize = 31;

pub fn dynamic_attrs(r: &mut Rng, doc: &mut Doc) {
    decorate(doc, &mut |e, _| {
        let field = *r.pick(&["kind", "on", "title"]);
        if r.chance(15) && !e.has_attr("id") {
            if r.chance(50) {
                e.attrs.push(Attr::Static("id".into(), r.pick(IDS).to_string()));
            } else {
                e.attrs.push(Attr::Bound("id".into(), vec![Span::Bind(Binder::new(&[field]))]));
            }
        }
        if r.chance(20) {
            let key = *r.pick(&["lang", "data-x", "value", "title", "rel"]);
            if !e.has_attr(key) {
                e.attrs.push(Attr::Bound(key.into(), vec![Span::Bind(Binder::new(&["kind"]))]));
            }
        }
        if r.chance(12) && !e.has_attr("checked") {
            e.attrs.push(Attr::Flag("checked".into(), Binder::new(&["on"])));
        }
    });
}

pub fn replace_sheet(case: &mut Case, s: &mut Scene, sheet: Sheet) {
    s.sheet = sheet;
    let mut css = sheet_text(&s.sheet);
    if case.rng.chance(40) {
        css = respace(&css, &mut case.rng);
    }
    s.css = css;
    let mut layout = if case.rng.chance(50) { Layout::plain() } else { Layout::varied(case.rng.next()) };
    s.html = html(&s.doc, &mut layout);
    case.log(format!("HTML {}\nCSS {}", s.html, s.css));
}

fn style_history(case: &mut Case, s: &Scene, buttons: usize) -> Result<(usize, usize), String> {
    let mut player = match Player::new(s) {
        Ok(p) => p,
        Err(e) => bail!("does not load: {e}"),
    };
    player.check_looks = true;
    let updates = case.updates(3, 3, 9);
    let mut value = gen_value(&mut case.rng, &s.model, 0);
    let mut viewport = [800.0, 600.0];
    let mut looks = std::collections::HashSet::new();
    for i in 0..updates {
        let events = player.events(&mut case.rng, if buttons > 0 { 3 } else { 0 }, &EventOpts {
            moves: 60,
            buttons,
        });
        if case.rng.chance(10) {
            viewport = [case.rng.range(200, 1500) as f32, case.rng.range(200, 1000) as f32];
        }
        let step = Step { ms: 16, viewport, events };
        case.log(format!("UPDATE {i} viewport {:?} {:?} {value}", step.viewport, step.events));
        let seen = player.step(&step, &value).map_err(|e| format!("update {i}: {e}"))?;
        looks.insert(seen.got.digest());
        case.count("updates", 1);
        case.count("elements", seen.elements);
        if case.rng.chance(75) {
            value = mutate(&mut case.rng, &s.model, &value, 0);
        }
    }
    case.count("longhands compared", player.looks_compared);
    case.count("element states :hover/:active/:focus", player.states_seen);
    case.count("distinct shown trees", looks.len());
    Ok((looks.len(), player.looks_compared))
}

fn c08(case: &mut Case) -> Verdict {
    let mut o = SceneOpts {
        rules: 0,
        inline: 0,
        events: &["oninput"],
        handlers: 30,
        ..SceneOpts::default()
    };
    o.doc.extra_attrs = 35;
    o.doc.conds = 20;
    let mut s = scene(case, &o);
    dynamic_attrs(&mut case.rng, &mut s.doc);
    let pseudo = if case.rng.chance(60) { 30 } else { 0 };
    let mut marks: Vec<usize> = (0..MARKERS).collect();
    case.rng.shuffle(&mut marks);
    let n = if case.tiny { 6 } else { case.rng.range(6, 26) };
    let mut sheet = Sheet::default();
    for mark in marks.into_iter().take(n) {
        let selectors = (0..case.rng.range(1, 2)).map(|_| gen_complex(&mut case.rng, pseudo)).collect();
        sheet.rules.push(Rule {
            selectors,
            decls: vec![marker(mark)],
        });
    }
    // boxes for the pointer
    if pseudo > 0 {
        sheet.rules.push(Rule::new(Simple::All, vec![
            Decl::one("width", Tok::Dim(120.0, "px")),
            Decl::one("height", Tok::Dim(30.0, "px")),
        ]));
    }
    replace_sheet(case, &mut s, sheet);
    let (looks, _) = style_history(case, &s, if pseudo > 0 { 30 } else { 0 })?;
    case.nontrivial = looks > 1;
    Ok(())
}

// ---------------------------------------------------------------------------------------------

const GROUPS: &[&[&str]] = &[
    &["margin", "margin-left", "margin-top", "margin-bottom", "margin-right"],
    &["padding", "padding-left", "padding-right", "padding-top"],
    &["border", "border-top", "border-width", "border-top-width", "border-left-width", "border-color", "border-top-color"],
    &["border-radius", "border-top-left-radius", "border-bottom-right-radius"],
    &["inset", "left", "right", "top", "bottom"],
    &["gap", "row-gap", "column-gap"],
    &["overflow", "overflow-x", "overflow-y"],
    &["background", "background-color", "background-image"],
    &["background-position", "background-image"],
    &["color", "font-size", "font-weight"],
    &["font-family", "font-style", "pointer-events", "visibility", "cursor"],
    &["width", "height", "min-width", "max-height", "flex-basis"],
    &["opacity", "flex-grow", "flex-shrink", "display", "position"],
];

fn group_decl(r: &mut Rng, group: &[&str]) -> Decl {
    for _ in 0..400 {
        let d = gen_decl(r);
        if group.contains(&d.prop.as_str()) {
            return d;
        }
    }
    let longhand = group.iter().find(|p| kind(p).is_some()).unwrap();
    Decl::one(longhand, gen_tok(r, longhand))
}

const LEAF_VARS: &[(&str, &str)] = &[
    ("--leaf-len", "width"),
    ("--leaf-color", "color"),
    ("--leaf-num", "flex-grow"),
];
const VARS: &[(&str, &str)] = &[
    ("--len", "padding-left"),
    ("--size", "height"),
    ("--tone", "color"),
    ("--mark", "border-top-color"),
    ("--grow", "flex-grow"),
];

fn gen_var(r: &mut Rng) -> Decl {
    if r.chance(20) {
        let toks = (0..r.range(1, 4))
            .map(|_| match r.below(8) {
                0 => Tok::Var("--leaf-len".into()),
                1 => Tok::Var("--len".into()),
                _ => gen_tok(r, "margin-left"),
            })
            .collect();
        return Decl { prop: "--edges".into(), layers: vec![toks] };
    }
    let (name, like) = *r.pick(VARS);
    let tok = match r.below(10) {
        0 => Tok::Var(LEAF_VARS[if like == "flex-grow" { 2 } else if like.contains("color") { 1 } else { 0 }].0.into()),
        1 => Tok::Var("--cycle-a".into()),
        2 => Tok::Raw("bogus".into()),
        _ => gen_tok(r, like),
    };
    Decl::one(name, tok)
}

/// A longhand whose value comes from a variable of its kind.
fn use_var(r: &mut Rng) -> Decl {
    if r.chance(12) {
        let p = pick_longhand(r);
        return Decl::one(p, Tok::Var(r.pick(&["--missing", "--cycle-a", "--self"]).to_string()));
    }
    if r.chance(20) {
        return Decl::one(r.pick(&["margin", "padding", "margin"]), Tok::Var("--edges".into()));
    }
    let (name, like) = *r.pick(VARS);
    let props: &[&str] = match like {
        "padding-left" => &["padding-left", "padding-top", "margin-left", "row-gap", "padding"],
        "height" => &["height", "width", "min-width", "flex-basis"],
        "color" | "border-top-color" => &["color", "background-color", "border-top-color", "border-color"],
        _ => &["flex-grow", "flex-shrink"],
    };
    Decl::one(r.pick(props), Tok::Var(name.into()))
}

fn c09(case: &mut Case) -> Verdict {
    let mut o = SceneOpts {
        rules: 0,
        inline: 20,
        events: &["onclick", "oninput", "ondrop"],
        handlers: if case.rng.chance(30) { 25 } else { 0 },
        draggable: if case.rng.chance(20) { 20 } else { 0 },
        ..SceneOpts::default()
    };
    o.doc.depth = 5;
    o.doc.extra_attrs = 5;
    o.doc.conds = 10;
    o.doc.loops = 10;
    let mut s = scene(case, &o);
    let r = &mut case.rng;
    let mut sheet = Sheet::default();
    sheet.rules.push(Rule::new(
        Simple::Type("body".into()),
        vec![
            Decl::one("--leaf-len", Tok::Dim(12.0, "px")),
            Decl::one("--leaf-color", Tok::Rgb(10, 20, 30)),
            Decl::one("--leaf-num", Tok::Num(4.0)),
            Decl::one("--cycle-a", Tok::Var("--cycle-b".into())),
            Decl::one("--cycle-b", Tok::Var("--cycle-a".into())),
            Decl::one("--self", Tok::Var("--self".into())),
        ],
    ));
    let groups: Vec<&[&str]> = (0..r.range(1, 3)).map(|_| *r.pick(GROUPS)).collect();
    let fonts = groups.iter().any(|g| g.contains(&"font-size"));
    let mut competing = 0;
    let n = if case.tiny { 4 } else { r.range(5, 16) };
    for _ in 0..n {
        let mut decls = vec![];
        for _ in 0..r.range(1, 5) {
            let group = *r.pick(&groups);
            let mut d = match r.below(10) {
                0 | 1 => gen_var(r),
                2 | 3 => use_var(r),
                4 if r.chance(50) => Decl::one(
                    r.pick(&["animation-bogus", "z-index", "text-shadow", "grid-area", "width-x"]),
                    gen_tok(r, "width"),
                ),
                _ => group_decl(r, group),
            };
            is_bad(r, &mut d, 6);
            if fonts && d.prop != "font-size" {
                without_em(r, &mut d);
            }
            // currentcolor of an element with its own colour
            if d.prop == "border" && d.layers[0].len() == 1 && matches!(d.layers[0][0], Tok::Kw(_)) {
                continue;
            }
            decls.push(d);
        }
        competing += decls.len();
        let mut first = vec![words_selector(r)];
        if r.chance(20) {
            first = vec![Simple::All];
        }
        let mut rest = vec![];
        if r.chance(15) {
            rest.push(('>', vec![words_selector(r)]));
        }
        let pseudo_root = matches!(first[..], [Simple::All]) && !rest.is_empty();
        if pseudo_root {
            rest.clear();
        }
        sheet.rules.push(Rule {
            selectors: vec![Complex { first, rest }],
            decls,
        });
    }
    replace_sheet(case, &mut s, sheet);
    case.count("competing declarations", competing);
    let (_, compared) = style_history(case, &s, 0)?;
    case.nontrivial = competing >= 6 && compared > 0;
    Ok(())
}
