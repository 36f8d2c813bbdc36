//! Style sheets: an AST, its text, and a reference for selectors, the cascade, inheritance,
//! variables and the meaning of values. Shares no code with the implementation.

use crate::doc::{RElem, RNode};
use crate::rng::Rng;
use crate::snap::SNode;
use bumaga::{Pointer, PointerEvents, TextAlign};
use std::collections::{BTreeMap, HashMap};
use taffy::{
    AlignContent, AlignItems, BoxSizing, Dimension, Display, FlexDirection, FlexWrap,
    LengthPercentage, LengthPercentageAuto, Overflow, Position,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Zero,
    Num(f32),
    Dim(f32, &'static str),
    Pct(f32),
    Kw(String),
    Hex([u8; 4], bool),
    /// rgb()/rgba() with numbers, the last is alpha in 0..1.
    Rgb(u8, u8, u8),
    Rgba(u8, u8, u8, f32),
    RgbPct(f32, f32, f32),
    RgbaPct(f32, f32, f32, f32),
    /// Numbers which may be out of range or have a fraction.
    RgbNum(f32, f32, f32, f32),
    Str(String),
    Url(String),
    Var(String),
    /// Seconds, and whether they are written in milliseconds.
    Time(f32, bool),
    /// Something with valid syntax which is not supported.
    Raw(String),
    Error,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub prop: String,
    pub layers: Vec<Vec<Tok>>,
}

impl Decl {
    pub fn one(prop: &str, tok: Tok) -> Self {
        Decl {
            prop: prop.into(),
            layers: vec![vec![tok]],
        }
    }
    pub fn of(prop: &str, toks: Vec<Tok>) -> Self {
        Decl {
            prop: prop.into(),
            layers: vec![toks],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Simple {
    All,
    Type(String),
    Id(String),
    Class(String),
    /// name, operator ("" for presence), value, written with quotes
    Attr(String, &'static str, String, bool),
    Pseudo(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Complex {
    pub first: Vec<Simple>,
    pub rest: Vec<(char, Vec<Simple>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub selectors: Vec<Complex>,
    pub decls: Vec<Decl>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Keyframes {
    pub name: String,
    pub steps: Vec<(u32, Vec<Decl>)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sheet {
    pub rules: Vec<Rule>,
    pub keyframes: Vec<Keyframes>,
}

impl Rule {
    pub fn new(simple: Simple, decls: Vec<Decl>) -> Self {
        Rule {
            selectors: vec![Complex {
                first: vec![simple],
                rest: vec![],
            }],
            decls,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Text

pub fn num(v: f32) -> String {
    // decimal notation without exponent
    let mut s = format!("{v:.6}");
    while s.contains('.') && (s.ends_with('0') || s.ends_with('.')) {
        let dot = s.ends_with('.');
        s.pop();
        if dot {
            break;
        }
    }
    s
}

pub fn tok_text(t: &Tok) -> String {
    match t {
        Tok::Zero => "0".into(),
        Tok::Num(v) => {
            let s = num(*v);
            // a bare 0 is the zero literal
            if s == "0" || s == "-0" {
                "0.0".into()
            } else {
                s
            }
        }
        Tok::Dim(v, u) => format!("{}{u}", num(*v)),
        Tok::Pct(v) => format!("{}%", num(*v)),
        Tok::Kw(k) => k.clone(),
        Tok::Hex(c, upper) => {
            let mut s = format!("#{:02x}{:02x}{:02x}", c[0], c[1], c[2]);
            if c[3] != 255 {
                s.push_str(&format!("{:02x}", c[3]));
            }
            if *upper {
                s.to_uppercase()
            } else {
                s
            }
        }
        Tok::Rgb(r, g, b) => format!("rgb({r}, {g}, {b})"),
        Tok::Rgba(r, g, b, a) => format!("rgba({r}, {g}, {b}, {})", num(*a)),
        Tok::RgbPct(r, g, b) => format!("rgb({}%, {}%, {}%)", num(*r), num(*g), num(*b)),
        Tok::RgbaPct(r, g, b, a) => format!("rgba({}%, {}%, {}%, {}%)", num(*r), num(*g), num(*b), num(*a)),
        Tok::RgbNum(r, g, b, a) => format!("rgba({}, {}, {}, {})", num(*r), num(*g), num(*b), num(*a)),
        Tok::Str(s) => format!("\"{s}\""),
        Tok::Url(s) => format!("url(\"{s}\")"),
        Tok::Var(n) => format!("var({n})"),
        Tok::Time(s, false) => format!("{}s", num(*s)),
        Tok::Time(s, true) => format!("{}ms", num(*s * 1000.0)),
        Tok::Raw(s) => s.clone(),
        Tok::Error => unreachable!(),
    }
}

pub fn decl_text(d: &Decl) -> String {
    let layers: Vec<String> = d
        .layers
        .iter()
        .map(|l| l.iter().map(tok_text).collect::<Vec<_>>().join(" "))
        .collect();
    format!("{}: {};", d.prop, layers.join(", "))
}

pub fn decls_text(d: &[Decl]) -> String {
    d.iter().map(decl_text).collect::<Vec<_>>().join(" ")
}

pub fn simple_text(s: &Simple) -> String {
    match s {
        Simple::All => "*".into(),
        Simple::Type(t) => t.clone(),
        Simple::Id(i) => format!("#{i}"),
        Simple::Class(c) => format!(".{c}"),
        Simple::Attr(n, "", _, _) => format!("[{n}]"),
        Simple::Attr(n, op, v, true) => format!("[{n}{op}\"{v}\"]"),
        Simple::Attr(n, op, v, false) => format!("[{n}{op}{v}]"),
        Simple::Pseudo(p) => format!(":{p}"),
    }
}

fn compound_text(c: &[Simple]) -> String {
    c.iter().map(simple_text).collect()
}

pub fn complex_text(c: &Complex) -> String {
    let mut s = compound_text(&c.first);
    for (comb, compound) in &c.rest {
        s.push_str(&format!(" {comb} {}", compound_text(compound)));
    }
    s
}

pub fn rule_text(r: &Rule) -> String {
    let selectors: Vec<String> = r.selectors.iter().map(complex_text).collect();
    format!("{} {{ {} }}", selectors.join(", "), decls_text(&r.decls))
}

pub fn sheet_text(s: &Sheet) -> String {
    let mut out = vec![];
    for r in &s.rules {
        out.push(rule_text(r));
    }
    for k in &s.keyframes {
        let steps: Vec<String> = k
            .steps
            .iter()
            .map(|(p, d)| format!("{p}% {{ {} }}", decls_text(d)))
            .collect();
        out.push(format!("@keyframes {} {{ {} }}", k.name, steps.join(" ")));
    }
    out.join("\n")
}

/// The same text with other spacing and comments.
pub fn respace(css: &str, r: &mut Rng) -> String {
    let mut out = String::new();
    let mut quoted = false;
    for c in css.chars() {
        if c == '"' {
            quoted = !quoted;
        }
        match c {
            ';' | '{' | '}' if !quoted => {
                out.push(c);
                match r.below(8) {
                    0 => out.push_str("\n  "),
                    1 => out.push_str("/* note: { a: b; } */"),
                    2 => out.push_str("\t"),
                    _ => {}
                }
            }
            c => out.push(c),
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Selectors

/// The shown elements in document order.
pub struct Arena<'a> {
    pub items: Vec<Item<'a>>,
}

pub struct Item<'a> {
    pub elem: &'a RElem,
    pub parent: Option<usize>,
    /// Preceding sibling element.
    pub prev: Option<usize>,
    pub hover: bool,
    pub active: bool,
    pub focus: bool,
}

impl<'a> Arena<'a> {
    pub fn new(root: &'a RElem) -> Self {
        let mut arena = Arena { items: vec![] };
        arena.add(root, None, None);
        arena
    }

    fn add(&mut self, elem: &'a RElem, parent: Option<usize>, prev: Option<usize>) -> usize {
        let id = self.items.len();
        self.items.push(Item {
            elem,
            parent,
            prev,
            hover: false,
            active: false,
            focus: false,
        });
        let mut prev = None;
        for child in &elem.children {
            if let RNode::Elem(e) = child {
                prev = Some(self.add(e, Some(id), prev));
            }
        }
        id
    }

    fn simple(&self, s: &Simple, item: &Item) -> bool {
        let attr = |k: &str| item.elem.attrs.get(k).map(|v| v.as_str());
        match s {
            Simple::All => true,
            Simple::Type(t) => item.elem.tag == *t,
            Simple::Id(i) => attr("id") == Some(i),
            Simple::Class(c) => attr("class").is_some_and(|v| v.split(' ').any(|x| x == c)),
            Simple::Attr(n, op, v, _) => match (attr(n), *op) {
                (None, _) => false,
                (Some(_), "") => true,
                (Some(x), "=") => x == v,
                (Some(x), "~=") => x.split(' ').any(|x| x == v),
                (Some(x), "|=") => x == v || x.strip_prefix(v.as_str()).is_some_and(|x| x.starts_with('-')),
                (Some(x), "^=") => x.starts_with(v.as_str()),
                (Some(x), "$=") => x.ends_with(v.as_str()),
                (Some(x), "*=") => x.contains(v.as_str()),
                _ => unreachable!(),
            },
            Simple::Pseudo(p) => match p.as_str() {
                "hover" => item.hover,
                "active" => item.active,
                "focus" => item.focus,
                _ => false,
            },
        }
    }

    /// None: depends on what the parent of the body is.
    pub fn matches(&self, c: &Complex, id: usize) -> Option<bool> {
        let mut compounds: Vec<(&[Simple], Option<char>)> = vec![];
        let mut comb = None;
        compounds.push((&c.first, None));
        for (k, compound) in &c.rest {
            compounds.last_mut().unwrap().1 = Some(*k);
            compounds.push((compound, None));
        }
        let mut at = Some(id);
        for (compound, next) in compounds.iter().rev() {
            // `next` is the combinator between this compound and the following one
            if let Some(k) = next {
                comb = Some(*k);
            }
            if let Some(k) = comb.take() {
                let item = &self.items[at.unwrap()];
                at = match k {
                    '>' => item.parent,
                    '+' => item.prev,
                    _ => unreachable!(),
                };
                if at.is_none() {
                    let root = k == '>' && compound.iter().all(|s| *s == Simple::All);
                    return if root { None } else { Some(false) };
                }
            }
            let item = &self.items[at.unwrap()];
            if !compound.iter().all(|s| self.simple(s, item)) {
                return Some(false);
            }
        }
        Some(true)
    }

    pub fn rule_matches(&self, rule: &Rule, id: usize) -> Option<bool> {
        let mut unknown = false;
        for c in &rule.selectors {
            match self.matches(c, id) {
                Some(true) => return Some(true),
                Some(false) => {}
                None => unknown = true,
            }
        }
        if unknown {
            None
        } else {
            Some(false)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Properties

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// length, percentage
    LenPct,
    /// length, percentage, auto
    LenPctAuto,
    /// length
    Width,
    Radius,
    Color,
    Alpha,
    FontSize,
    FontWeight,
    Family,
    Image,
    BgPos,
    Factor,
    Keywords(&'static [&'static str]),
}

const ALIGN_ITEMS: &[&str] = &[
    "normal", "start", "end", "flex-start", "flex-end", "center", "baseline", "stretch",
];
const ALIGN_CONTENT: &[&str] = &[
    "normal", "start", "end", "flex-start", "flex-end", "center", "stretch", "space-between",
    "space-evenly", "space-around",
];
const OVERFLOW: &[&str] = &["visible", "hidden", "clip", "scroll", "auto"];

/// Every supported longhand property.
pub const LONGHANDS: &[(&str, Kind)] = &[
    ("opacity", Kind::Alpha),
    ("background-color", Kind::Color),
    ("background-image", Kind::Image),
    ("background-position-x", Kind::BgPos),
    ("background-position-y", Kind::BgPos),
    ("color", Kind::Color),
    ("font-size", Kind::FontSize),
    ("font-weight", Kind::FontWeight),
    ("font-family", Kind::Family),
    ("font-style", Kind::Keywords(&["normal", "italic", "oblique"])),
    (
        "text-align",
        Kind::Keywords(&[
            "start", "end", "left", "right", "center", "justify", "justify-all", "match-parent",
        ]),
    ),
    ("pointer-events", Kind::Keywords(&["auto", "none"])),
    (
        "cursor",
        Kind::Keywords(&[
            "auto", "default", "pointer", "context-menu", "help", "progress", "wait", "text",
            "not-allowed",
        ]),
    ),
    ("visibility", Kind::Keywords(&["visible", "hidden"])),
    ("border-top-width", Kind::Width),
    ("border-right-width", Kind::Width),
    ("border-bottom-width", Kind::Width),
    ("border-left-width", Kind::Width),
    ("border-top-color", Kind::Color),
    ("border-right-color", Kind::Color),
    ("border-bottom-color", Kind::Color),
    ("border-left-color", Kind::Color),
    ("border-top-left-radius", Kind::Radius),
    ("border-top-right-radius", Kind::Radius),
    ("border-bottom-right-radius", Kind::Radius),
    ("border-bottom-left-radius", Kind::Radius),
    ("box-sizing", Kind::Keywords(&["border-box", "content-box"])),
    ("margin-top", Kind::LenPctAuto),
    ("margin-right", Kind::LenPctAuto),
    ("margin-bottom", Kind::LenPctAuto),
    ("margin-left", Kind::LenPctAuto),
    ("padding-top", Kind::LenPct),
    ("padding-right", Kind::LenPct),
    ("padding-bottom", Kind::LenPct),
    ("padding-left", Kind::LenPct),
    ("display", Kind::Keywords(&["block", "flow", "flex", "grid"])),
    ("overflow-x", Kind::Keywords(OVERFLOW)),
    ("overflow-y", Kind::Keywords(OVERFLOW)),
    ("position", Kind::Keywords(&["relative", "absolute"])),
    ("top", Kind::LenPctAuto),
    ("right", Kind::LenPctAuto),
    ("bottom", Kind::LenPctAuto),
    ("left", Kind::LenPctAuto),
    ("width", Kind::LenPctAuto),
    ("height", Kind::LenPctAuto),
    ("min-width", Kind::LenPctAuto),
    ("min-height", Kind::LenPctAuto),
    ("max-width", Kind::LenPctAuto),
    ("max-height", Kind::LenPctAuto),
    ("align-content", Kind::Keywords(ALIGN_CONTENT)),
    ("align-items", Kind::Keywords(ALIGN_ITEMS)),
    ("align-self", Kind::Keywords(ALIGN_ITEMS)),
    ("justify-content", Kind::Keywords(ALIGN_CONTENT)),
    ("justify-items", Kind::Keywords(ALIGN_ITEMS)),
    ("justify-self", Kind::Keywords(ALIGN_ITEMS)),
    (
        "flex-direction",
        Kind::Keywords(&["row", "row-reverse", "column", "column-reverse"]),
    ),
    ("flex-wrap", Kind::Keywords(&["wrap", "nowrap", "wrap-reverse"])),
    ("flex-basis", Kind::LenPctAuto),
    ("flex-grow", Kind::Factor),
    ("flex-shrink", Kind::Factor),
    ("column-gap", Kind::LenPct),
    ("row-gap", Kind::LenPct),
];

pub fn kind(prop: &str) -> Option<Kind> {
    LONGHANDS.iter().find(|(p, _)| *p == prop).map(|(_, k)| *k)
}

const INHERITED: &[&str] = &[
    "color", "font-size", "font-weight", "font-family", "font-style", "pointer-events",
];

pub const LAYERED: &[&str] = &[
    "background-color", "background-image", "background-position-x", "background-position-y",
];

/// What a longhand is observed to be.
#[derive(Clone, Debug)]
pub enum Obs {
    Num(f32),
    Px(f32),
    Pct(f32),
    Auto,
    Color([u8; 4]),
    /// Colour computed from fractions, a unit of rounding is allowed.
    NearColor([u8; 4]),
    Kw(&'static str),
    Text(String),
    None,
}

fn near(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 1e-4 * a.abs().max(b.abs()).max(1e-3)
}

impl Obs {
    pub fn same(&self, other: &Obs) -> bool {
        match (self, other) {
            (Obs::Num(a), Obs::Num(b)) | (Obs::Px(a), Obs::Px(b)) | (Obs::Pct(a), Obs::Pct(b)) => near(*a, *b),
            // zero length and zero percentage mean the same
            (Obs::Px(a), Obs::Pct(b)) | (Obs::Pct(b), Obs::Px(a)) => *a == 0.0 && *b == 0.0,
            (Obs::Auto, Obs::Auto) | (Obs::None, Obs::None) => true,
            (Obs::Color(a), Obs::Color(b)) => a == b,
            (Obs::NearColor(a), Obs::Color(b)) | (Obs::Color(a), Obs::NearColor(b)) | (Obs::NearColor(a), Obs::NearColor(b)) => {
                a.iter().zip(b).all(|(a, b)| a.abs_diff(*b) <= 1)
            }
            (Obs::Kw(a), Obs::Kw(b)) => a == b,
            (Obs::Text(a), Obs::Text(b)) => a == b,
            _ => false,
        }
    }
}

fn lp(v: LengthPercentage) -> Obs {
    match v {
        LengthPercentage::Length(v) => Obs::Px(v),
        LengthPercentage::Percent(v) => Obs::Pct(v),
    }
}
fn lpa(v: LengthPercentageAuto) -> Obs {
    match v {
        LengthPercentageAuto::Length(v) => Obs::Px(v),
        LengthPercentageAuto::Percent(v) => Obs::Pct(v),
        LengthPercentageAuto::Auto => Obs::Auto,
    }
}
fn dim(v: Dimension) -> Obs {
    match v {
        Dimension::Length(v) => Obs::Px(v),
        Dimension::Percent(v) => Obs::Pct(v),
        Dimension::Auto => Obs::Auto,
    }
}
fn radius(v: (bool, f32)) -> Obs {
    if v.0 {
        Obs::Pct(v.1)
    } else {
        Obs::Px(v.1)
    }
}
fn overflow(v: Overflow) -> Obs {
    Obs::Kw(match v {
        Overflow::Visible => "visible",
        Overflow::Clip => "clip",
        Overflow::Hidden => "hidden",
        Overflow::Scroll => "scroll",
    })
}
fn items(v: Option<AlignItems>) -> Obs {
    Obs::Kw(match v {
        None => "normal",
        Some(AlignItems::Start) => "start",
        Some(AlignItems::End) => "end",
        Some(AlignItems::FlexStart) => "flex-start",
        Some(AlignItems::FlexEnd) => "flex-end",
        Some(AlignItems::Center) => "center",
        Some(AlignItems::Baseline) => "baseline",
        Some(AlignItems::Stretch) => "stretch",
    })
}
fn content(v: Option<AlignContent>) -> Obs {
    Obs::Kw(match v {
        None => "normal",
        Some(AlignContent::Start) => "start",
        Some(AlignContent::End) => "end",
        Some(AlignContent::FlexStart) => "flex-start",
        Some(AlignContent::FlexEnd) => "flex-end",
        Some(AlignContent::Center) => "center",
        Some(AlignContent::Stretch) => "stretch",
        Some(AlignContent::SpaceBetween) => "space-between",
        Some(AlignContent::SpaceEvenly) => "space-evenly",
        Some(AlignContent::SpaceAround) => "space-around",
    })
}

/// What the element really has for a longhand.
pub fn observe(s: &SNode, prop: &str, layer: usize) -> Obs {
    let st = &s.style;
    let bg = s.backgrounds.get(layer);
    match prop {
        "opacity" => Obs::Num(s.self_opacity),
        "background-color" => Obs::Color(bg.map(|b| b.2).unwrap_or_default()),
        "background-image" => match bg.and_then(|b| b.0.clone()) {
            Some(t) => Obs::Text(t),
            None => Obs::None,
        },
        "background-position-x" => Obs::Px(-bg.map(|b| b.3[0]).unwrap_or_default()),
        "background-position-y" => Obs::Px(-bg.map(|b| b.3[1]).unwrap_or_default()),
        "color" => Obs::Color(s.color),
        "font-size" => Obs::Px(s.font.size),
        "font-weight" => Obs::Num(s.font.weight as f32),
        "font-family" => Obs::Text(s.font.family.clone()),
        "font-style" => Obs::Text(s.font.style.clone()),
        "text-align" => Obs::Kw(match s.font.align {
            TextAlign::Start => "start",
            TextAlign::End => "end",
            TextAlign::Left => "left",
            TextAlign::Right => "right",
            TextAlign::Center => "center",
            TextAlign::Justify => "justify",
            TextAlign::JustifyAll => "justify-all",
            TextAlign::MatchParent => "match-parent",
        }),
        "pointer-events" => Obs::Kw(match s.pointer_events {
            PointerEvents::Auto => "auto",
            PointerEvents::None => "none",
        }),
        "cursor" => Obs::Kw(cursor_name(s.pointer)),
        "visibility" => Obs::Kw(if s.visible { "visible" } else { "hidden" }),
        "border-top-width" => both(s.borders[0].0, st.border.top),
        "border-right-width" => both(s.borders[1].0, st.border.right),
        "border-bottom-width" => both(s.borders[2].0, st.border.bottom),
        "border-left-width" => both(s.borders[3].0, st.border.left),
        "border-top-color" => Obs::Color(s.borders[0].1),
        "border-right-color" => Obs::Color(s.borders[1].1),
        "border-bottom-color" => Obs::Color(s.borders[2].1),
        "border-left-color" => Obs::Color(s.borders[3].1),
        "border-top-left-radius" => radius(s.radius[0]),
        "border-top-right-radius" => radius(s.radius[1]),
        "border-bottom-right-radius" => radius(s.radius[2]),
        "border-bottom-left-radius" => radius(s.radius[3]),
        "box-sizing" => Obs::Kw(match st.box_sizing {
            BoxSizing::BorderBox => "border-box",
            BoxSizing::ContentBox => "content-box",
        }),
        "margin-top" => lpa(st.margin.top),
        "margin-right" => lpa(st.margin.right),
        "margin-bottom" => lpa(st.margin.bottom),
        "margin-left" => lpa(st.margin.left),
        "padding-top" => lp(st.padding.top),
        "padding-right" => lp(st.padding.right),
        "padding-bottom" => lp(st.padding.bottom),
        "padding-left" => lp(st.padding.left),
        "display" => Obs::Kw(match st.display {
            Display::Block => "block",
            Display::Flex => "flex",
            Display::Grid => "grid",
            Display::None => "none",
        }),
        "overflow-x" => overflow(st.overflow.x),
        "overflow-y" => overflow(st.overflow.y),
        "position" => Obs::Kw(match st.position {
            Position::Relative => "relative",
            Position::Absolute => "absolute",
        }),
        "top" => lpa(st.inset.top),
        "right" => lpa(st.inset.right),
        "bottom" => lpa(st.inset.bottom),
        "left" => lpa(st.inset.left),
        "width" => dim(st.size.width),
        "height" => dim(st.size.height),
        "min-width" => dim(st.min_size.width),
        "min-height" => dim(st.min_size.height),
        "max-width" => dim(st.max_size.width),
        "max-height" => dim(st.max_size.height),
        "align-content" => content(st.align_content),
        "align-items" => items(st.align_items),
        "align-self" => items(st.align_self),
        "justify-content" => content(st.justify_content),
        "justify-items" => items(st.justify_items),
        "justify-self" => items(st.justify_self),
        "flex-direction" => Obs::Kw(match st.flex_direction {
            FlexDirection::Row => "row",
            FlexDirection::RowReverse => "row-reverse",
            FlexDirection::Column => "column",
            FlexDirection::ColumnReverse => "column-reverse",
        }),
        "flex-wrap" => Obs::Kw(match st.flex_wrap {
            FlexWrap::Wrap => "wrap",
            FlexWrap::NoWrap => "nowrap",
            FlexWrap::WrapReverse => "wrap-reverse",
        }),
        "flex-basis" => dim(st.flex_basis),
        "flex-grow" => Obs::Num(st.flex_grow),
        "flex-shrink" => Obs::Num(st.flex_shrink),
        "column-gap" => lp(st.gap.width),
        "row-gap" => lp(st.gap.height),
        _ => unreachable!("{prop}"),
    }
}

/// Width of a border is kept twice: for drawing and for layout.
fn both(drawn: f32, layout: LengthPercentage) -> Obs {
    match layout {
        LengthPercentage::Length(l) if l == drawn => Obs::Px(l),
        l => Obs::Text(format!("border drawn with {drawn}, laid out with {l:?}")),
    }
}

pub fn cursor_name(p: Pointer) -> &'static str {
    match p {
        Pointer::Auto => "auto",
        Pointer::Default => "default",
        Pointer::ContextMenu => "context-menu",
        Pointer::Help => "help",
        Pointer::Pointer => "pointer",
        Pointer::Progress => "progress",
        Pointer::Wait => "wait",
        Pointer::Text => "text",
        Pointer::NotAllowed => "not-allowed",
    }
}

pub fn initial(prop: &str) -> Obs {
    match prop {
        "opacity" => Obs::Num(1.0),
        "background-color" => Obs::Color([0; 4]),
        "background-image" => Obs::None,
        "background-position-x" | "background-position-y" => Obs::Px(0.0),
        "color" => Obs::Color([0, 0, 0, 255]),
        "font-size" => Obs::Px(16.0),
        "font-weight" => Obs::Num(400.0),
        "font-family" => Obs::Text("system-ui".into()),
        "font-style" => Obs::Text("normal".into()),
        "text-align" => Obs::Kw("start"),
        "pointer-events" | "cursor" => Obs::Kw("auto"),
        "visibility" | "overflow-x" | "overflow-y" => Obs::Kw("visible"),
        "box-sizing" => Obs::Kw("border-box"),
        "display" => Obs::Kw("block"),
        "position" => Obs::Kw("relative"),
        "flex-direction" => Obs::Kw("row"),
        "flex-wrap" => Obs::Kw("nowrap"),
        "flex-grow" => Obs::Num(0.0),
        "flex-shrink" => Obs::Num(1.0),
        _ => match kind(prop).unwrap() {
            Kind::Color => Obs::Color([0; 4]),
            Kind::Width | Kind::Radius | Kind::LenPct => Obs::Px(0.0),
            Kind::LenPctAuto if prop.starts_with("margin") => Obs::Px(0.0),
            Kind::LenPctAuto => Obs::Auto,
            Kind::Keywords(_) => Obs::Kw("normal"),
            _ => unreachable!("{prop}"),
        },
    }
}

// ---------------------------------------------------------------------------------------------
// Cascade

#[derive(Clone)]
pub struct Env {
    pub viewport: [f32; 2],
    pub parent_font: f32,
    pub parent_color: [u8; 4],
}

fn px(t: &Tok, env: &Env) -> Option<f32> {
    let [w, h] = env.viewport;
    Some(match t {
        Tok::Zero => 0.0,
        Tok::Dim(v, u) => match *u {
            "px" => *v,
            "em" => v * env.parent_font,
            "rem" => v * 16.0,
            "vw" => v * w / 100.0,
            "vh" => v * h / 100.0,
            "vmin" => v * w.min(h) / 100.0,
            "vmax" => v * w.max(h) / 100.0,
            _ => unreachable!(),
        },
        _ => return None,
    })
}

fn color(t: &Tok, env: &Env) -> Option<Obs> {
    Some(match t {
        Tok::Hex(c, _) => Obs::Color(*c),
        Tok::Rgb(r, g, b) => Obs::Color([*r, *g, *b, 255]),
        Tok::Rgba(r, g, b, a) => Obs::NearColor([*r, *g, *b, (a * 255.0).round() as u8]),
        Tok::RgbPct(r, g, b) => {
            Obs::NearColor([*r, *g, *b, 100.0].map(|v| (v / 100.0 * 255.0).round() as u8))
        }
        Tok::RgbaPct(r, g, b, a) => {
            Obs::NearColor([*r, *g, *b, *a].map(|v| (v / 100.0 * 255.0).clamp(0.0, 255.0).round() as u8))
        }
        Tok::RgbNum(r, g, b, a) => {
            Obs::NearColor([*r, *g, *b, a * 255.0].map(|v| v.clamp(0.0, 255.0).round() as u8))
        }
        Tok::Kw(k) if k.eq_ignore_ascii_case("currentcolor") => Obs::NearColor(env.parent_color),
        Tok::Kw(k) => Obs::Color(match k.as_str() {
            "black" => [0, 0, 0, 255],
            "white" => [255, 255, 255, 255],
            "red" => [255, 0, 0, 255],
            "green" => [0, 255, 0, 255],
            "blue" => [0, 0, 255, 255],
            "transparent" => [0, 0, 0, 0],
            _ => return None,
        }),
        _ => return None,
    })
}

/// Meaning of a value of a longhand; None: not supported.
pub fn meaning(prop: &str, t: &Tok, env: &Env) -> Option<Obs> {
    let pct = |t: &Tok| match t {
        Tok::Pct(v) => Some(v / 100.0),
        _ => None,
    };
    match kind(prop)? {
        Kind::LenPct | Kind::Radius => px(t, env).map(Obs::Px).or(pct(t).map(Obs::Pct)),
        Kind::LenPctAuto => match t {
            Tok::Kw(k) if k == "auto" => Some(Obs::Auto),
            t => px(t, env).map(Obs::Px).or(pct(t).map(Obs::Pct)),
        },
        Kind::Width | Kind::BgPos => px(t, env).map(Obs::Px),
        Kind::Color => color(t, env),
        Kind::Alpha => match t {
            Tok::Zero => Some(Obs::Num(0.0)),
            Tok::Num(v) => Some(Obs::Num(*v)),
            t => pct(t).map(Obs::Num),
        },
        Kind::FontSize => px(t, env).map(Obs::Px).or(pct(t).map(|v| Obs::Px(v * env.parent_font))),
        Kind::FontWeight => match t {
            Tok::Num(v) if (1.0..=1000.0).contains(v) => Some(Obs::Num(*v)),
            Tok::Kw(k) if k == "normal" => Some(Obs::Num(400.0)),
            Tok::Kw(k) if k == "bold" => Some(Obs::Num(700.0)),
            _ => None,
        },
        Kind::Family => match t {
            Tok::Str(s) => Some(Obs::Text(s.clone())),
            _ => None,
        },
        Kind::Image => match t {
            Tok::Url(s) => Some(Obs::Text(s.clone())),
            Tok::Kw(k) if k == "none" => Some(Obs::None),
            _ => None,
        },
        Kind::Factor => match t {
            Tok::Zero => Some(Obs::Num(0.0)),
            Tok::Num(v) => Some(Obs::Num(*v)),
            _ => None,
        },
        Kind::Keywords(words) => match t {
            Tok::Kw(k) => words.iter().find(|w| **w == k).map(|w| match (prop, *w) {
                ("display", "flow") => Obs::Kw("block"),
                ("overflow-x" | "overflow-y", "auto") => Obs::Kw("scroll"),
                ("font-style", w) => Obs::Text(w.into()),
                (_, w) => Obs::Kw(w),
            }),
            _ => None,
        },
    }
}

const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];
const CORNERS: [&str; 4] = ["top-left", "top-right", "bottom-right", "bottom-left"];

fn four(toks: &[Tok]) -> Option<[Tok; 4]> {
    let t = |i: usize| toks[i].clone();
    Some(match toks.len() {
        1 => [t(0), t(0), t(0), t(0)],
        2 => [t(0), t(1), t(0), t(1)],
        3 => [t(0), t(1), t(2), t(1)],
        4 => [t(0), t(1), t(2), t(3)],
        _ => return None,
    })
}

/// Longhands set by a declaration.
pub fn expand(prop: &str, toks: &[Tok]) -> Vec<(String, Tok)> {
    let sides = |name: &dyn Fn(&str) -> String, names: [&str; 4]| match four(toks) {
        Some(values) => names
            .iter()
            .zip(values)
            .map(|(n, v)| (name(n), v))
            .collect(),
        None => vec![],
    };
    let pair = |a: &str, b: &str| match toks {
        [x] => vec![(a.into(), x.clone()), (b.into(), x.clone())],
        [x, y] => vec![(a.into(), x.clone()), (b.into(), y.clone())],
        _ => vec![],
    };
    match prop {
        "margin" | "padding" => sides(&|s| format!("{prop}-{s}"), SIDES),
        "border-width" => sides(&|s| format!("border-{s}-width"), SIDES),
        "border-color" => sides(&|s| format!("border-{s}-color"), SIDES),
        "border-radius" => sides(&|s| format!("border-{s}-radius"), CORNERS),
        "inset" => match toks.len() {
            1 | 4 => sides(&|s| s.to_string(), SIDES),
            _ => vec![],
        },
        "gap" => pair("row-gap", "column-gap"),
        "overflow" => pair("overflow-x", "overflow-y"),
        "background-position" => match toks {
            [x, y] => vec![
                ("background-position-x".into(), x.clone()),
                ("background-position-y".into(), y.clone()),
            ],
            _ => vec![],
        },
        "background" => match toks {
            [c] => vec![
                ("background-image".into(), Tok::Kw("none".into())),
                ("background-color".into(), c.clone()),
            ],
            _ => vec![],
        },
        "border" | "border-top" | "border-right" | "border-bottom" | "border-left" => {
            let which: Vec<&str> = match prop {
                "border" => SIDES.to_vec(),
                p => vec![p.strip_prefix("border-").unwrap()],
            };
            let (w, c) = match toks {
                [w, _, c] => (w.clone(), c.clone()),
                [Tok::Kw(k)] if k == "none" && prop == "border" => {
                    (Tok::Zero, Tok::Kw("currentcolor".into()))
                }
                _ => return vec![],
            };
            which
                .iter()
                .flat_map(|s| {
                    [
                        (format!("border-{s}-width"), w.clone()),
                        (format!("border-{s}-color"), c.clone()),
                    ]
                })
                .collect()
        }
        p if kind(p).is_some() => match toks {
            [v] => vec![(p.to_string(), v.clone())],
            _ => vec![],
        },
        _ => vec![],
    }
}

pub type Vars = HashMap<String, Vec<Tok>>;

/// Replaces variables by what they stand for now.
pub fn substitute(toks: &[Tok], vars: &Vars, active: &mut Vec<String>) -> Vec<Tok> {
    let mut out = vec![];
    for t in toks {
        match t {
            Tok::Var(name) => match vars.get(name) {
                Some(value) if !active.contains(name) => {
                    active.push(name.clone());
                    out.extend(substitute(value, vars, active));
                    active.pop();
                }
                _ => out.push(Tok::Error),
            },
            t => out.push(t.clone()),
        }
    }
    out
}

/// Computed longhands of an element: the winning value per property and layer.
#[derive(Clone, Default)]
pub struct Computed {
    pub set: BTreeMap<(String, usize), Tok>,
}

impl Computed {
    pub fn apply(&mut self, decls: &[Decl], vars: &mut Vars) {
        for d in decls {
            if d.prop.starts_with("--") {
                vars.insert(d.prop.clone(), d.layers[0].clone());
                continue;
            }
            for (layer, toks) in d.layers.iter().enumerate() {
                let toks = substitute(toks, vars, &mut vec![]);
                for (prop, tok) in expand(&d.prop, &toks) {
                    if layer == 0 {
                        self.set.retain(|(p, l), _| *p != prop || *l == 0);
                    }
                    self.set.insert((prop, layer), tok);
                }
            }
        }
    }
}

/// Expected observations of an element given those of its parent.
#[derive(Clone)]
pub struct Look {
    pub computed: Computed,
    pub values: HashMap<(&'static str, usize), Obs>,
    pub font: f32,
    pub color: [u8; 4],
}

impl Look {
    pub fn root() -> Self {
        let mut values = HashMap::new();
        for (p, _) in LONGHANDS {
            values.insert((*p, 0), initial(p));
        }
        Look {
            computed: Computed::default(),
            values,
            font: 16.0,
            color: [0, 0, 0, 255],
        }
    }

    pub fn child(&self, computed: Computed, viewport: [f32; 2]) -> Look {
        let env = Env {
            viewport,
            parent_font: self.font,
            parent_color: self.color,
        };
        let mut values = HashMap::new();
        for (p, _) in LONGHANDS {
            let value = if INHERITED.contains(p) {
                self.values[&(*p, 0)].clone()
            } else {
                initial(p)
            };
            values.insert((*p, 0), value);
        }
        for ((prop, layer), tok) in &computed.set {
            let name = LONGHANDS.iter().find(|(p, _)| p == prop).unwrap().0;
            if let Some(obs) = meaning(name, tok, &env) {
                values.insert((name, *layer), obs);
            }
        }
        let font = match values[&("font-size", 0)] {
            Obs::Px(v) => v,
            _ => unreachable!(),
        };
        let color = match values[&("color", 0)] {
            Obs::Color(c) | Obs::NearColor(c) => c,
            _ => unreachable!(),
        };
        Look {
            computed,
            values,
            font,
            color,
        }
    }

    /// First longhand of the shown element which differs from the expected one.
    pub fn check(&self, s: &SNode) -> Result<usize, String> {
        let mut compared = 0;
        for (prop, _) in LONGHANDS {
            let layers = if LAYERED.contains(prop) { 4 } else { 1 };
            for layer in 0..layers {
                let want = match self.values.get(&(*prop, layer)) {
                    Some(v) => v.clone(),
                    None => initial(prop),
                };
                let got = observe(s, prop, layer);
                if !want.same(&got) {
                    return Err(format!("{prop} (layer {layer}) is {got:?}, expected {want:?}"));
                }
                compared += 1;
            }
        }
        Ok(compared)
    }
}

/// Expected look of every element; `inline` gives the declarations of style attributes.
pub struct Styler<'a> {
    pub sheet: &'a Sheet,
    pub inline: &'a HashMap<String, Vec<Decl>>,
    pub viewport: [f32; 2],
}

impl Styler<'_> {
    pub fn run(&self, arena: &Arena) -> Vec<Option<Look>> {
        let mut looks: Vec<Option<Look>> = vec![];
        let mut vars: Vec<Vars> = vec![];
        for (id, item) in arena.items.iter().enumerate() {
            let (parent, mut own) = match item.parent {
                None => (Some(Look::root()), Vars::new()),
                Some(p) => (looks[p].clone(), vars[p].clone()),
            };
            let mut computed = Computed::default();
            let mut known = true;
            for rule in &self.sheet.rules {
                match arena.rule_matches(rule, id) {
                    Some(true) => computed.apply(&rule.decls, &mut own),
                    Some(false) => {}
                    None => known = false,
                }
            }
            if let Some(decls) = item.elem.attrs.get("style").and_then(|s| self.inline.get(s)) {
                computed.apply(decls, &mut own);
            }
            looks.push(match (parent, known) {
                (Some(parent), true) => Some(parent.child(computed, self.viewport)),
                _ => None,
            });
            vars.push(own);
        }
        looks
    }
}

/// Shown elements (not texts) in document order, paired with the reference order.
pub fn shown_elements<'a>(s: &'a SNode, out: &mut Vec<&'a SNode>) {
    out.push(s);
    if s.tag == "img" {
        return;
    }
    for c in &s.children {
        if !c.is_text() {
            shown_elements(c, out);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Random values

pub const UNITS: &[&str] = &["px", "px", "px", "em", "rem", "vw", "vh", "vmin", "vmax"];

pub fn gen_len(r: &mut Rng, negative: bool) -> Tok {
    let v = match r.below(5) {
        0 => r.range(0, 4) as f32,
        1 => r.range(0, 200) as f32 / 4.0,
        _ => r.range(1, 120) as f32,
    };
    let v = if negative && r.chance(15) { -v } else { v };
    if r.chance(10) {
        Tok::Zero
    } else {
        Tok::Dim(v, *r.pick(UNITS))
    }
}

pub fn gen_color(r: &mut Rng) -> Tok {
    let b = |r: &mut Rng| r.below(256) as u8;
    match r.below(8) {
        0 => Tok::Hex([b(r), b(r), b(r), 255], r.chance(50)),
        1 => {
            let a = r.below(255) as u8;
            Tok::Hex([b(r), b(r), b(r), a], r.chance(50))
        }
        2 | 3 => Tok::Rgb(b(r), b(r), b(r)),
        4 => Tok::Rgba(b(r), b(r), b(r), *r.pick(&[0.0, 0.25, 0.5, 0.2, 0.75, 1.0, 0.1])),
        5 => match r.below(4) {
            0 => {
                let mut part = || r.int(-30, 130) as f32;
                Tok::RgbaPct(part(), part(), part(), part())
            }
            1 => {
                let mut part = || r.int(-60, 620) as f32 / 2.0;
                let (x, y, z) = (part(), part(), part());
                Tok::RgbNum(x, y, z, r.int(-2, 10) as f32 / 8.0)
            }
            _ => Tok::RgbPct(r.below(101) as f32, r.below(101) as f32, r.below(101) as f32),
        },
        _ => Tok::Kw(
            r.pick(&["black", "white", "red", "green", "blue", "transparent"])
                .to_string(),
        ),
    }
}

/// A supported value of the longhand.
pub fn gen_tok(r: &mut Rng, prop: &str) -> Tok {
    let pct = |r: &mut Rng| Tok::Pct(r.range(0, 800) as f32 / 8.0);
    match kind(prop).unwrap() {
        Kind::LenPct | Kind::Radius => {
            if r.chance(25) {
                pct(r)
            } else {
                gen_len(r, false)
            }
        }
        Kind::LenPctAuto => {
            let negative = prop.starts_with("margin") || ["top", "left", "right", "bottom"].contains(&prop);
            match r.below(5) {
                0 if negative && r.chance(30) => Tok::Pct(r.range(1, 400) as f32 / -8.0),
                0 => pct(r),
                1 => Tok::Kw("auto".into()),
                _ => gen_len(r, negative),
            }
        }
        Kind::Width => gen_len(r, false),
        Kind::BgPos => gen_len(r, true),
        Kind::Color => gen_color(r),
        Kind::Alpha => match r.below(4) {
            0 => Tok::Zero,
            1 => Tok::Pct(r.range(0, 100) as f32),
            _ => Tok::Num(r.range(1, 100) as f32 / 100.0),
        },
        Kind::FontSize => match r.below(5) {
            0 => Tok::Pct(r.range(50, 200) as f32),
            1 => Tok::Dim(r.range(2, 12) as f32 / 4.0, "em"),
            _ => Tok::Dim(r.range(4, 60) as f32 / 2.0, *r.pick(&["px", "px", "vh", "vmin"])),
        },
        Kind::FontWeight => match r.below(3) {
            0 => Tok::Kw(r.pick(&["normal", "bold"]).to_string()),
            _ => Tok::Num(r.range(1, 1000) as f32),
        },
        Kind::Family => Tok::Str(r.pick(&["Arial", "Times New Roman", "monospace", "Fira Code 2"]).to_string()),
        Kind::Image => match r.below(4) {
            0 => Tok::Kw("none".into()),
            _ => Tok::Url(r.pick(&["a.png", "images/b 1.png", "../x/c.jpg", "d"]).to_string()),
        },
        Kind::Factor => match r.below(4) {
            0 => Tok::Zero,
            _ => Tok::Num(r.range(1, 80) as f32 / 8.0),
        },
        Kind::Keywords(words) => Tok::Kw(r.pick(words).to_string()),
    }
}

/// A value with valid syntax which the longhand does not support.
pub fn gen_bad_tok(r: &mut Rng, prop: &str) -> Tok {
    match kind(prop).unwrap() {
        Kind::Family => Tok::Kw("inherit".into()),
        Kind::Keywords(_) => match r.below(3) {
            0 => Tok::Raw("bogus".into()),
            1 => Tok::Num(3.5),
            _ => Tok::Raw("\"text\"".into()),
        },
        _ => match r.below(3) {
            0 => Tok::Raw("bogus".into()),
            1 => Tok::Raw("calc(5px)".into()),
            _ => Tok::Raw("inherit".into()),
        },
    }
}

pub const SHORTHANDS: &[(&str, &[usize], &str)] = &[
    ("margin", &[1, 2, 3, 4], "margin-top"),
    ("padding", &[1, 2, 3, 4], "padding-top"),
    ("border-width", &[1, 2, 3, 4], "border-top-width"),
    ("border-color", &[1, 2, 3, 4], "border-top-color"),
    ("border-radius", &[1, 2, 3, 4], "border-top-left-radius"),
    ("inset", &[1, 4], "top"),
    ("gap", &[1, 2], "row-gap"),
    ("overflow", &[1, 2], "overflow-x"),
    ("background-position", &[2], "background-position-x"),
    ("background", &[1], "background-color"),
];

/// A longhand which can be declared by its own name.
pub fn pick_longhand(r: &mut Rng) -> &'static str {
    loop {
        let (name, _) = *r.pick(LONGHANDS);
        if !name.starts_with("background-position-") {
            return name;
        }
    }
}

/// A supported declaration of any property.
pub fn gen_decl(r: &mut Rng) -> Decl {
    match r.below(10) {
        0..=2 => {
            let (name, counts, like) = *r.pick(SHORTHANDS);
            let n = *r.pick(counts);
            let layers = if (name.starts_with("background")) && r.chance(30) { r.range(2, 3) } else { 1 };
            Decl {
                prop: name.into(),
                layers: (0..layers)
                    .map(|_| (0..n).map(|_| gen_tok(r, like)).collect())
                    .collect(),
            }
        }
        3 => {
            let name = *r.pick(&["border", "border-top", "border-right", "border-bottom", "border-left"]);
            if name == "border" && r.chance(25) {
                return Decl::one(name, Tok::Kw("none".into()));
            }
            let style = r.pick(&["solid", "dashed", "none"]).to_string();
            let width = gen_tok(r, "border-top-width");
            let color = gen_color(r);
            Decl::of(name, vec![width, Tok::Kw(style), color])
        }
        _ => {
            let name = pick_longhand(r);
            let layers = if LAYERED.contains(&name) && r.chance(40) { r.range(2, 3) } else { 1 };
            Decl {
                prop: name.into(),
                layers: (0..layers).map(|_| vec![gen_tok(r, name)]).collect(),
            }
        }
    }
}

/// Longhands affected by a declaration.
pub fn longhands_of(d: &Decl) -> Vec<String> {
    expand(&d.prop, &d.layers[0]).into_iter().map(|(p, _)| p).collect()
}
