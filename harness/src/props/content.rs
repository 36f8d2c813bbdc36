//! C01 bound texts and attributes, C02 conditions and loops.

use super::*;
use crate::doc::*;
use crate::drive::*;
use crate::gen::*;
use crate::snap::*;
use serde_json::Value;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            run: c01,
            quick: 60_000,
            thorough: 1_500_000,
            rule: "random typed model, document and history of values (conforming and hostile shapes) \
                   from the seed; after every update every shown text and attribute is compared with \
                   the reference evaluation of the template; non-trivial: at least 2 updates and 1 \
                   bound text or attribute shown",
            assumptions: &["items of a list made by a transformer are the items of the original list"],
            probes: no_probes,
        },
        Property {
            id: "C02",
            run: c02,
            quick: 60_000,
            thorough: 1_500_000,
            rule: "as C01 with documents rich in conditions and loops; children of every shown element \
                   are compared with the reference children, every shown node must be distinct; \
                   non-trivial: a condition or loop changed what is shown during the history",
            assumptions: &["items of a list made by a transformer are the items of the original list"],
            probes: no_probes,
        },
    ]
}

pub struct Built {
    pub model: Ty,
    pub doc: Doc,
    pub html: String,
    pub pipes: Pipes,
}

pub fn build(case: &mut Case, o: &Opts) -> Built {
    let r = &mut case.rng;
    let depth = r.range(1, 3);
    let model = gen_model(r, depth);
    let doc = gen_doc(r, &model, o);
    let mut layout = if r.chance(50) {
        Layout::plain()
    } else {
        Layout::varied(r.next())
    };
    let html = html(&doc, &mut layout);
    case.log(format!("HTML {html}"));
    Built {
        model,
        doc,
        html,
        pipes: pipes(),
    }
}

pub fn sized(case: &Case, o: Opts) -> Opts {
    if case.tiny {
        Opts {
            size: 4,
            children: 2,
            depth: 2,
            ..o
        }
    } else if case.tier == crate::case::Tier::Thorough && case.index % 5 == 0 {
        Opts {
            size: o.size * 3,
            depth: o.depth + 2,
            ..o
        }
    } else if case.index % 29 == 5 {
        // deep or wide
        match case.index % 2 {
            0 => Opts { size: o.size * 2, depth: o.depth + 5, children: 2, ..o },
            _ => Opts { size: o.size * 2, children: o.children * 4, ..o },
        }
    } else {
        o
    }
}

/// Compares the shown tree with the reference tree: structure, tags, texts and attributes.
pub fn compare(want: &RElem, got: &SNode, path: &str, stats: &mut Compared) -> Verdict {
    if got.text.is_some() || got.tag != want.tag {
        bail!("{path}: shown {} where <{}> is expected", got.label(), want.tag);
    }
    for (k, v) in &want.attrs {
        match got.attrs.get(k) {
            Some(x) if x == v => {}
            x => bail!("{path}: attribute {k} is {x:?}, expected {v:?}"),
        }
        stats.attrs += 1;
    }
    for k in got.attrs.keys() {
        if !want.attrs.contains_key(k) {
            bail!("{path}: unexpected attribute {k}={:?}", got.attrs[k]);
        }
    }
    stats.elements += 1;
    stats.dynamic += want.dynamic.len();
    if want.tag == "img" {
        // picture of an image is its only child
        let src = want.attrs.get("src").cloned().unwrap_or_default();
        let shown = got.children.first().and_then(|c| c.backgrounds.first());
        match shown {
            Some((Some(image), true, _, _)) if *image == src && got.children.len() == 1 => {}
            x => bail!("{path}: image shows {x:?}, expected {src:?}"),
        }
        return Ok(());
    }
    if want.children.len() != got.children.len() {
        let want: Vec<String> = want
            .children
            .iter()
            .map(|c| match c {
                RNode::Elem(e) => format!("<{} {:?}>", e.tag, e.attrs),
                RNode::Text(t) => format!("text {t:?}"),
            })
            .collect();
        let got: Vec<String> = got.children.iter().map(|c| c.label()).collect();
        bail!("{path}: children shown: {got:?}, expected: {want:?}");
    }
    for (i, (want, got)) in want.children.iter().zip(&got.children).enumerate() {
        match want {
            RNode::Elem(e) => compare(e, got, &format!("{path}/{i}:{}", e.tag), stats)?,
            RNode::Text(t) => {
                if got.text.as_ref() != Some(t) {
                    bail!("{path}/{i}: shown {}, expected text {t:?}", got.label());
                }
                stats.texts += 1;
            }
        }
    }
    Ok(())
}

#[derive(Default)]
pub struct Compared {
    pub elements: usize,
    pub texts: usize,
    pub attrs: usize,
    pub dynamic: usize,
}

/// Every shown node is shown once.
pub fn distinct(shown: &SNode) -> Verdict {
    let mut seen = std::collections::HashSet::new();
    let mut twice = None;
    shown.walk(&mut |s| {
        if !seen.insert(s.node) {
            twice = Some(s.label());
        }
    });
    match twice {
        Some(label) => Err(format!("{label} is shown twice")),
        None => Ok(()),
    }
}

pub fn c01(case: &mut Case) -> Verdict {
    let o = sized(case, Opts {
        pipes: 12,
        extra_attrs: 35,
        ..Opts::default()
    });
    history(case, &o)
}

pub fn c02(case: &mut Case) -> Verdict {
    let o = sized(case, Opts {
        conds: 35,
        loops: 35,
        texts: 25,
        extra_attrs: 10,
        children: 6,
        size: 30,
        ..Opts::default()
    });
    history(case, &o)
}

fn history(case: &mut Case, o: &Opts) -> Verdict {
    let b = build(case, o);
    let mut view = match load(&b.html, "", &b.pipes) {
        Ok(view) => view,
        Err(e) => bail!("document does not load: {e}"),
    };
    let hostile = *case.rng.pick(&[0, 0, 5, 15, 40]);
    let updates = case.updates(3, 2, 8);
    let mut value = gen_value(&mut case.rng, &b.model, hostile);
    let mut shapes = std::collections::HashSet::new();
    let mut dynamic = 0;
    for i in 0..updates {
        case.log(format!("VALUE {value}"));
        update(&mut view, &Step::new(), &value)?;
        let want = Eval::run(&b.doc, &value, &b.pipes);
        let got = snap(&view);
        let mut c = Compared::default();
        compare(&want, &got, "body", &mut c).map_err(|e| format!("update {i}: {e}"))?;
        distinct(&got).map_err(|e| format!("update {i}: {e}"))?;
        case.count("updates", 1);
        case.count("elements", c.elements);
        case.count("texts", c.texts);
        case.count("attributes", c.attrs);
        dynamic += c.dynamic + c.texts;
        shapes.insert(structure(&got));
        value = mutate(&mut case.rng, &b.model, &value, hostile);
    }
    case.count("distinct shapes", shapes.len());
    case.nontrivial = dynamic > 0 && (o.conds < 30 || shapes.len() > 1);
    Ok(())
}

fn structure(s: &SNode) -> Vec<taffy::NodeId> {
    let mut out = vec![];
    s.walk(&mut |s| out.push(s.node));
    out
}

pub fn value_log(value: &Value) -> String {
    format!("VALUE {value}")
}
