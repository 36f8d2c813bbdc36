//! C24: a style sheet means the same however it is written down.

use super::twins::{compare_step, rich, viewport, Actor, Rich};
use super::*;
use crate::css::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::drive::*;
use crate::sheet::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C24",
        run: c24,
        quick: 12_000,
        thorough: 400_000,
        rule: "random sheets (rules of all kinds, shorthands, layers, variables, transitions, keyframes) \
               over random scenes, written down plainly and in another form (spacing, comments, number and \
               colour notations, quotes, order within compounds, rules split, repeated, listed apart, \
               keyframes elsewhere); both views get the same values, events and times, everything shown and \
               emitted is compared in every update; non-trivial: the sheet has at least 4 rules and \
               at least 3 different trees were shown",
        assumptions: &["the plainly written sheet is judged by C07 to C11"],
        probes: no_probes,
    }]
}

pub fn more_keyframes(r: &mut Rng, sheet: &mut Sheet) {
    for name in ["fly", "Glow-Two", "a_b"] {
        if !r.chance(50) {
            continue;
        }
        let mut steps: Vec<(u32, Vec<Decl>)> = vec![];
        let props: Vec<&str> = (0..r.range(1, 3)).map(|_| pick_longhand(r)).collect();
        for step in [0, 100, r.range(1, 60) as u32, r.range(61, 99) as u32] {
            if r.chance(65) {
                let mut decls = vec![];
                for property in &props {
                    if r.chance(80) {
                        decls.push(Decl::one(property, gen_tok(r, property)));
                    }
                }
                steps.push((step, decls));
            }
        }
        sheet.keyframes.push(Keyframes { name: name.into(), steps });
        let selector = crate::scene::words_selector(r);
        let linear = Tok::Kw("linear".into());
        let mut toks = vec![Tok::Time(r.range(1, 12) as f32 / *r.pick(&[4.0, 4.0, 16.0, 64.0]), r.chance(50)), linear];
        if r.chance(60) {
            toks.push(Tok::Kw("infinite".into()));
        }
        toks.push(Tok::Kw(name.into()));
        let at = r.below(sheet.rules.len() + 1);
        sheet.rules.insert(at, Rule::new(selector, vec![Decl::of("animation", toks)]));
    }
}

fn c24(case: &mut Case) -> Verdict {
    let timed = case.rng.chance(50);
    let animations = timed && case.rng.chance(50);
    let mut s = rich(case, &Rich {
        handlers: 15,
        draggable: 5,
        wild: 12,
        animations,
        transitions: timed,
        ..Rich::default()
    });
    let r = &mut case.rng;
    let mut sheet = s.sheet.clone();
    if timed {
        more_keyframes(r, &mut sheet);
    }
    // a few values through variables
    if r.chance(50) {
        few_variables(r, &mut sheet);
    }
    s.css = sheet_text(&sheet);
    let other = if r.chance(75) { rearrange(r, &sheet) } else { sheet.clone() };
    let (spaces, comments, notation) = (*r.pick(&[0, 10, 40, 90]), *r.pick(&[0, 30, 70]), *r.pick(&[0, 30, 80]));
    let css = Form { r, spaces, comments, notation }.text(&other);
    case.log(format!("HTML {}\nPLAIN CSS {}\nOTHER CSS {css}", s.html, s.css));
    let mut a = Actor::new(&s.html, &s.css, &s.pipes)?;
    let mut b = Actor::new(&s.html, &css, &s.pipes).map_err(|e| format!("sheet in another form: {e}"))?;
    let mut value = gen_value(&mut case.rng, &s.model, 0);
    let mut port = [800.0, 600.0];
    let mut trees = std::collections::BTreeSet::new();
    for i in 0..case.updates(3, 3, 10) {
        let step = Step {
            ms: *case.rng.pick(&[0, 16, 100, 250, 333, 1000]),
            viewport: port,
            events: a.events(&mut case.rng, if i == 0 { 0 } else { 5 }),
        };
        case.log(format!("UPDATE {i} {} ms {port:?} {:?} {value}", step.ms, step.events));
        let x = a.step(&step, &value)?;
        let y = b.step(&step, &value)?;
        compare_step(&a, &b, &x, &y).map_err(|e| format!("update {i}: plain sheet and other form: {e}"))?;
        trees.insert(a.shown().digest());
        case.count("updates", 1);
        case.count("messages", x.messages.len());
        case.count("nodes compared", a.shown().count());
        case.observe(a.shown().digest());
        if case.rng.chance(60) {
            value = mutate(&mut case.rng, &s.model, &value, 0);
        }
        port = viewport(&mut case.rng, port, 15);
    }
    case.count("rules", sheet.rules.len());
    case.count("characters", css.len());
    case.nontrivial = sheet.rules.len() >= 4 && trees.len() >= 3;
    Ok(())
}

/// A few values through variables.
pub fn few_variables(r: &mut Rng, sheet: &mut Sheet) {
    for (i, name) in ["--w", "--tone", "--main-gap"].iter().enumerate() {
        let (set, uses): (Decl, &[&str]) = match i {
            0 => (Decl::one(name, gen_tok(r, "width")), &["width", "height", "min-width"]),
            1 => (Decl::one(name, gen_tok(r, "color")), &["color", "background-color"]),
            _ => (
                Decl::of(name, (0..r.range(1, 4)).map(|_| Tok::Dim(r.range(0, 30) as f32, "px")).collect()),
                &["margin", "padding"],
            ),
        };
        let at = r.below(sheet.rules.len() + 1);
        sheet.rules.insert(at, Rule::new(crate::scene::words_selector(r), vec![set]));
        for _ in 0..r.below(3) {
            let at = r.below(sheet.rules.len() + 1);
            let decl = Decl::one(r.pick(uses), Tok::Var(name.to_string()));
            sheet.rules.insert(at, Rule::new(crate::scene::words_selector(r), vec![decl]));
        }
    }
}
