//! What a view shows: a full copy of the shown tree, and comparison of two of them.

use bumaga::*;
use std::collections::BTreeMap;
use taffy::{Layout, NodeId, Style};

#[derive(Clone, Debug)]
pub struct SNode {
    pub node: NodeId,
    pub tag: String,
    pub text: Option<String>,
    pub attrs: BTreeMap<String, String>,
    pub position: [f32; 2],
    pub size: [f32; 2],
    pub content_size: [f32; 2],
    pub backgrounds: Vec<(Option<String>, bool, Rgba, [f32; 2])>,
    pub borders: [(f32, Rgba); 4],
    /// The same as they are handed out for drawing.
    pub edges: [Option<(f32, Rgba)>; 4],
    pub radius: [(bool, f32); 4],
    pub color: Rgba,
    pub font: FontFace,
    pub self_opacity: f32,
    pub opacity: f32,
    pub scrolling: Option<[f32; 4]>,
    pub clipping: Option<([f32; 2], [f32; 2], [f32; 2])>,
    pub pointer_events: PointerEvents,
    pub pointer: Pointer,
    pub visible: bool,
    pub style: Style,
    pub children: Vec<SNode>,
}

fn clip(l: &Layout) -> ([f32; 2], [f32; 2], [f32; 2]) {
    (
        [l.location.x, l.location.y],
        [l.size.width, l.size.height],
        [l.content_size.width, l.content_size.height],
    )
}

pub fn len(l: &Length) -> (bool, f32) {
    match l {
        Length::Number(v) => (false, *v),
        Length::Percent(v) => (true, *v),
    }
}

pub fn snap(view: &View) -> SNode {
    take(view.body())
}

pub fn snap_element(e: &Element) -> SNode {
    SNode {
        node: e.node,
        tag: e.tag.clone(),
        text: e.text.as_ref().map(|t| t.to_string()),
        attrs: e.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        position: e.position,
        size: e.size,
        content_size: e.content_size,
        backgrounds: e
            .backgrounds
            .iter()
            .map(|b| (b.image.clone(), b.is_src, b.color, b.src))
            .collect(),
        borders: [&e.borders.top, &e.borders.right, &e.borders.bottom, &e.borders.left]
            .map(|b| (b.width, b.color)),
        edges: [e.borders.top(), e.borders.right(), e.borders.bottom(), e.borders.left()]
            .map(|b| b.map(|b| (b.width, b.color))),
        radius: [0, 1, 2, 3].map(|i| len(&e.borders.radius[i])),
        color: e.color,
        font: e.font.clone(),
        self_opacity: e.self_opacity,
        opacity: e.opacity,
        scrolling: e.scrolling.as_ref().map(|s| [s.x, s.y, s.scroll_x, s.scroll_y]),
        clipping: e.clipping.as_ref().map(clip),
        pointer_events: e.pointer_events,
        pointer: e.pointer,
        visible: e.visible,
        style: Style::default(),
        children: vec![],
    }
}

fn take(f: Fragment) -> SNode {
    let mut s = snap_element(f.element);
    s.style = f.tree.style(f.element.node).expect("style of shown element").clone();
    s.children = f.children().into_iter().map(take).collect();
    s
}

impl SNode {
    pub fn count(&self) -> usize {
        1 + self.children.iter().map(|c| c.count()).sum::<usize>()
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a SNode)) {
        f(self);
        for c in &self.children {
            c.walk(f);
        }
    }
    pub fn find(&self, node: NodeId) -> Option<&SNode> {
        if self.node == node {
            return Some(self);
        }
        self.children.iter().find_map(|c| c.find(node))
    }
    pub fn is_text(&self) -> bool {
        self.text.is_some()
    }
    pub fn label(&self) -> String {
        match &self.text {
            Some(t) => format!("text {t:?}"),
            None => format!("<{} {:?}>", self.tag, self.attrs),
        }
    }
    /// Feature hash of the shown tree (structure, texts, attributes, geometry).
    pub fn digest(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        fn go(s: &SNode, h: &mut impl Hasher) {
            s.tag.hash(h);
            s.text.hash(h);
            s.attrs.hash(h);
            s.position.map(f32::to_bits).hash(h);
            s.size.map(f32::to_bits).hash(h);
            s.color.hash(h);
            s.self_opacity.to_bits().hash(h);
            s.children.len().hash(h);
            for c in &s.children {
                go(c, h);
            }
        }
        go(self, &mut h);
        h.finish()
    }
}

macro_rules! same {
    ($a:expr, $b:expr, $path:expr, $($field:ident),*) => {
        $(if $a.$field != $b.$field {
            return Some(format!(
                "{}: {} differs: {:?} and {:?}",
                $path, stringify!($field), $a.$field, $b.$field
            ));
        })*
    };
}

/// First difference between two shown trees, node identifiers are ignored.
pub fn diff(a: &SNode, b: &SNode) -> Option<String> {
    diff_at(a, b, &a.tag, true)
}

/// As `diff`, without everything which depends on the layout.
pub fn diff_looks(a: &SNode, b: &SNode) -> Option<String> {
    diff_at(a, b, &a.tag, false)
}

fn diff_at(a: &SNode, b: &SNode, path: &str, boxes: bool) -> Option<String> {
    if a.children.len() != b.children.len() {
        let names = |s: &SNode| s.children.iter().map(|c| c.label()).collect::<Vec<_>>().join(", ");
        return Some(format!("{path}: children differ: [{}] and [{}]", names(a), names(b)));
    }
    same!(
        a, b, path, tag, text, attrs, style, backgrounds, borders, radius, color, font,
        self_opacity, opacity, pointer_events, pointer, visible
    );
    if boxes {
        same!(a, b, path, position, size, content_size, scrolling, clipping);
    }
    for (i, (x, y)) in a.children.iter().zip(&b.children).enumerate() {
        let name = if x.is_text() { "#text" } else { x.tag.as_str() };
        if let Some(d) = diff_at(x, y, &format!("{path}/{i}:{name}"), boxes) {
            return Some(d);
        }
    }
    None
}
