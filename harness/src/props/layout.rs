//! C12: layout, opacity, clipping and scroll ranges against a layout made from scratch.

use super::*;
use crate::drive::*;
use crate::gen::*;
use crate::props::twins::*;
use crate::snap::{snap, SNode};
use bumaga::FontFace;
use serde_json::json;
use std::collections::HashMap;
use taffy::prelude::*;

type Tree = TaffyTree<(String, FontFace)>;

fn compute(tree: &mut Tree, root: NodeId) {
    tree.compute_layout_with_measure(root, Size::MAX_CONTENT, |known, space, _, context, _| {
        if let Size { width: Some(width), height: Some(height) } = known {
            return Size { width, height };
        }
        let Some((text, font)) = context else { return Size::ZERO };
        let max = match (known.width, space.width) {
            (Some(w), _) => Some(w),
            (_, AvailableSpace::MinContent) => Some(0.0),
            (_, AvailableSpace::MaxContent) => None,
            (_, AvailableSpace::Definite(w)) => Some(w),
        };
        let [width, height] = measure_text(text, font, max);
        Size { width, height }
    })
    .expect("layout");
}

/// A tree of the layout library which follows what is shown, so that it has the same history.
#[derive(Default)]
pub struct Mirror {
    tree: Option<Tree>,
    ids: HashMap<NodeId, NodeId>,
    root: Option<NodeId>,
}

impl Mirror {
    pub fn update(&mut self, body: &SNode) {
        let mut tree = self.tree.take().unwrap_or_else(Tree::new);
        let root = follow(&mut tree, &mut self.ids, body);
        compute(&mut tree, root);
        self.tree = Some(tree);
        self.root = Some(root);
    }

    pub fn check(&self, body: &SNode) -> Result<usize, String> {
        let tree = self.tree.as_ref().expect("after update");
        go(tree, self.root.unwrap(), body, [0.0; 2], "body")
    }
}

fn follow(tree: &mut Tree, ids: &mut HashMap<NodeId, NodeId>, s: &SNode) -> NodeId {
    let children: Vec<NodeId> = s.children.iter().map(|c| follow(tree, ids, c)).collect();
    let context = s.text.as_ref().map(|text| (text.clone(), s.font.clone()));
    let node = match ids.get(&s.node) {
        Some(node) => *node,
        None => {
            let node = tree.new_leaf(s.style.clone()).expect("node");
            ids.insert(s.node, node);
            node
        }
    };
    if *tree.style(node).expect("style") != s.style {
        tree.set_style(node, s.style.clone()).expect("style");
    }
    if tree.get_node_context(node) != context.as_ref() {
        tree.set_node_context(node, context).expect("text");
        tree.mark_dirty(node).expect("dirty");
    }
    if tree.children(node).expect("children") != children {
        tree.set_children(node, &children).expect("children");
    }
    node
}

fn go(tree: &Tree, node: NodeId, s: &SNode, at: [f32; 2], path: &str) -> Result<usize, String> {
    let l = tree.layout(node).map_err(|e| format!("{e:?}"))?;
    let size = [l.size.width, l.size.height];
    let content = [l.content_size.width, l.content_size.height];
    let position = [l.location.x + at[0], l.location.y + at[1]];
    if s.size != size || s.position != position || s.content_size != content {
        return Err(format!(
            "{path} {}: at {:?} size {:?} content {:?}, layout from scratch: at {position:?} size \
             {size:?} content {content:?}",
            s.label(),
            s.position,
            s.size,
            s.content_size
        ));
    }
    let mut n = 1;
    for (i, c) in s.children.iter().enumerate() {
        let child = tree.child_at_index(node, i).map_err(|e| format!("{e:?}"))?;
        n += go(tree, child, c, position, &format!("{path}/{i}:{}", c.tag))?;
    }
    Ok(n)
}

/// Compares every box with a layout by a tree which was never used before.
pub fn check_layout(body: &SNode) -> Result<usize, String> {
    let mut mirror = Mirror::default();
    mirror.update(body);
    mirror.check(body)
}

#[derive(Default)]
struct Seen {
    clipped: usize,
    overflowing: usize,
    faded: usize,
    texts: usize,
}

/// The picture of an image fills the place inside of its padding and borders.
fn check_picture(img: &SNode) -> Verdict {
    let [picture] = &img.children[..] else { bail!("{} pictures", img.children.len()) };
    let px = |v: taffy::LengthPercentage| match v {
        taffy::LengthPercentage::Length(v) => Some(v),
        taffy::LengthPercentage::Percent(_) => None,
    };
    let (p, b) = (img.style.padding, img.style.border);
    let sides = [[p.left, b.left], [p.right, b.right], [p.top, b.top], [p.bottom, b.bottom]];
    let mut inner = [0.0; 4];
    for (i, parts) in sides.into_iter().enumerate() {
        for part in parts {
            match px(part) {
                Some(v) => inner[i] += v,
                None => return Ok(()),
            }
        }
    }
    let given = |v: taffy::Dimension| matches!(v, taffy::Dimension::Length(_));
    let size = img.style.size;
    if img.style.display == taffy::Display::None || !given(size.width) || !given(size.height) {
        return Ok(());
    }
    let [left, right, top, bottom] = inner;
    let want = [
        img.position[0] + left,
        img.position[1] + top,
        img.size[0] - left - right,
        img.size[1] - top - bottom,
    ];
    let got = [picture.position[0], picture.position[1], picture.size[0], picture.size[1]];
    if want[2] < 0.0 || want[3] < 0.0 {
        return Ok(());
    }
    if want.iter().zip(got).any(|(w, g)| (w - g).abs() > 1.5) {
        bail!("{:?} {:?} picture {got:?} expected {want:?} {:?}", img.position, img.size, img.style);
    }
    Ok(())
}

fn check_pictures(s: &SNode, path: &str) -> Result<usize, String> {
    let mut n = 0;
    if s.tag == "img" {
        check_picture(s).map_err(|e| format!("{path} {}: {e}", s.label()))?;
        n += 1;
    }
    for (i, c) in s.children.iter().enumerate() {
        n += check_pictures(c, &format!("{path}/{i}:{}", c.tag))?;
    }
    Ok(n)
}

/// Opacity, clipping, scroll ranges and fonts of texts.
fn check_rest(s: &SNode, parent: Option<&SNode>, clip: Option<&SNode>, path: &str, seen: &mut Seen) -> Verdict {
    let opacity = parent.map(|p| p.opacity).unwrap_or(1.0) * s.self_opacity;
    if s.opacity != opacity {
        bail!("{path} {}: opacity {} expected {opacity}", s.label(), s.opacity);
    }
    seen.faded += (opacity != 1.0) as usize;
    let clipping = clip.map(|c| (c.position, c.size, c.content_size));
    if s.clipping != clipping {
        bail!("{path} {}: clipping {:?} expected {clipping:?}", s.label(), s.clipping);
    }
    seen.clipped += clipping.is_some() as usize;
    let range = [0, 1].map(|i| (s.content_size[i] - s.size[i]).max(0.0));
    let scrolling = (range != [0.0; 2]).then_some([0.0, 0.0, range[0], range[1]]);
    if s.scrolling != scrolling {
        bail!("{path} {}: scrolling {:?} expected {scrolling:?}", s.label(), s.scrolling);
    }
    seen.overflowing += scrolling.is_some() as usize;
    if let (Some(p), true) = (parent, s.is_text()) {
        let font = FontFace { align: s.font.align.clone(), ..p.font.clone() };
        if s.font != font || s.color != p.color {
            bail!("{path} {}: font {:?} {:?} expected {:?} {:?}", s.label(), s.font, s.color, p.font, p.color);
        }
        seen.texts += 1;
    }
    let clip = if scrolling.is_some() { Some(s) } else { clip };
    for (i, c) in s.children.iter().enumerate() {
        check_rest(c, Some(s), clip, &format!("{path}/{i}:{}", c.tag), seen)?;
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C12",
        run: c12,
        quick: 40_000,
        thorough: 800_000,
        rule: "random scenes with all supported styles; after every update (conditions, loops, texts, \
               classes, inherited fonts, viewport and pointer states change) opacity, clipping, scroll \
               ranges and text fonts are recomputed; every box is compared with a layout of the shown \
               styles and texts made by a tree of the layout library which was never used before - for \
               documents with all styles in the first update, for documents in flex layout without \
               percentages in every update; non-trivial: at least 2 different layouts, something was \
               clipped or faded",
        assumptions: &[
            "the layout library (taffy) lays out a fresh tree correctly",
            "a stale box is excused when the library itself, given the same history of styles, texts \
             and children, computes exactly the same (its cache ignores the size of the parent, KF2)",
        ],
        probes: kf2,
    }]
}

/// The cache of the layout library keeps a size which depends on the display of the parent.
pub fn kf2() -> Vec<Probe> {
    vec![Probe {
        key: "KF2",
        run: || {
            let html = "<html><body @class=\"{c}\"><div>some words which wrap</div></body></html>";
            let css = "body { display: block; } .b { display: flex; }";
            let pipes = crate::doc::Pipes::new();
            let mut view = load(html, css, &pipes)?;
            for c in ["a", "b", "a", "b"] {
                update(&mut view, &Step::new(), &json!({"c": c}))?;
                check_layout(&snap(&view)).map_err(|e| format!("class {c}: {e}"))?;
            }
            Ok(())
        },
    }]
}

fn c12(case: &mut Case) -> Verdict {
    let tame = case.rng.chance(60);
    let s = rich(case, &Rich { wild: 12, tame, ..Rich::default() });
    let mut a = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut mirror = Mirror::default();
    let mut value = gen_value(&mut case.rng, &s.model, 0);
    let mut port = [800.0, 600.0];
    let mut layouts = std::collections::HashSet::new();
    let mut seen = Seen::default();
    let updates = case.updates(3, 2, 10);
    for i in 0..updates {
        let step = Step {
            ms: 16,
            viewport: port,
            events: a.events(&mut case.rng, if i == 0 { 0 } else { 3 }),
        };
        case.log(format!("UPDATE {i} {port:?} {:?} {value}", step.events));
        a.step(&step, &value)?;
        let shown = a.shown();
        check_rest(shown, None, None, "body", &mut seen).map_err(|e| format!("update {i}: {e}"))?;
        if tame || i == 0 {
            mirror.update(shown);
            match check_layout(shown) {
                Ok(n) => {
                    case.count("boxes compared", n);
                    let n = check_pictures(shown, "body").map_err(|e| format!("update {i}: {e}"))?;
                    case.count("pictures", n);
                }
                Err(e) => {
                    if mirror.check(shown).is_err() {
                        bail!("update {i}: {e}");
                    }
                    case.count("stale boxes of the layout library", 1);
                    break;
                }
            }
        }
        layouts.insert(a.shown().digest());
        case.count("updates", 1);
        if case.rng.chance(75) {
            value = mutate(&mut case.rng, &s.model, &value, 0);
        }
        port = viewport(&mut case.rng, port, 15);
    }
    case.count("clipped", seen.clipped);
    case.count("overflowing", seen.overflowing);
    case.count("faded", seen.faded);
    case.count("texts", seen.texts);
    case.count("distinct layouts", layouts.len());
    case.nontrivial = layouts.len() >= 2 && seen.clipped + seen.faded > 0;
    Ok(())
}
