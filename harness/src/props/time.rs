//! C10 transitions, C11 keyframe animations.
//!
//! A model of the accumulated time of every element says which value each covered longhand may
//! show in an update, everything else must be as declared.

use super::*;
use crate::css::*;
use crate::drive::*;
use crate::gen::pipes;
use crate::rng::Rng;
use crate::snap::{snap, SNode};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};

const FRAMES: &str = "configuration of transitions and animations declared in an update governs the time \
                      which passes until the following ones";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            run: c10,
            quick: 80_000,
            thorough: 2_000_000,
            rule: "elements (also items of a list) with transitions of random longhands (every supported one, \
                   layers, lengths of all units, percentages, colours, keywords) and values switched by bound \
                   classes and style attributes at random frames, frame times from 0 to hours with many on \
                   and around the ends of delays and durations; every longhand of every element and of a \
                   child inheriting from it is judged in every update; non-trivial: a value strictly \
                   between start and end was seen and a transition settled",
            assumptions: &[FRAMES, "transitions are declared by longhand names with linear timing"],
            probes: no_probes,
        },
        Property {
            id: "C11",
            run: c11,
            quick: 80_000,
            thorough: 2_000_000,
            rule: "elements (also items of a list) with one or two animations (shorthand and longhand \
                   forms, delays, finite, fractional and infinite iterations, pauses) of random longhands by \
                   keyframes with and without first and last frame, switched on, off and over by bound \
                   classes, together with transitions of other longhands, frame times from 0 to days; every \
                   longhand of every element is judged in every update; non-trivial: frames at 3 different \
                   progresses were seen",
            assumptions: &[
                FRAMES,
                "percentages of keyframes are written one by one, no longhand is animated twice",
                "progress is exact to one percent",
            ],
            probes: no_probes,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// Values

fn plain(t: &Tok) -> Tok {
    match t {
        Tok::Hex(c, _) => Tok::Hex(*c, false),
        Tok::Rgb(r, g, b) => Tok::Hex([*r, *g, *b, 255], false),
        t => t.clone(),
    }
}

/// Value between a and b as numbers of one kind, if they are.
fn blend(a: &Tok, b: &Tok, p: f64) -> Option<Tok> {
    let mix = |a: f32, b: f32| (a as f64 + (b as f64 - a as f64) * p) as f32;
    Some(match (a, b) {
        (Tok::Num(a), Tok::Num(b)) => Tok::Num(mix(*a, *b)),
        (Tok::Num(a), Tok::Zero) => Tok::Num(mix(*a, 0.0)),
        (Tok::Zero, Tok::Num(b)) => Tok::Num(mix(0.0, *b)),
        (Tok::Pct(a), Tok::Pct(b)) => Tok::Pct(mix(*a, *b)),
        (Tok::Pct(a), Tok::Zero) => Tok::Pct(mix(*a, 0.0)),
        (Tok::Zero, Tok::Pct(b)) => Tok::Pct(mix(0.0, *b)),
        (Tok::Dim(a, u), Tok::Dim(b, v)) if u == v => Tok::Dim(mix(*a, *b), *u),
        (Tok::Dim(a, u), Tok::Zero) => Tok::Dim(mix(*a, 0.0), *u),
        (Tok::Zero, Tok::Dim(b, u)) => Tok::Dim(mix(0.0, *b), *u),
        _ => return None,
    })
}

fn scalar(o: &Obs) -> Option<(u8, f32)> {
    match o {
        Obs::Num(v) => Some((0, *v)),
        Obs::Px(v) => Some((1, *v)),
        Obs::Pct(v) => Some((2, *v)),
        _ => None,
    }
}

/// What a may be seen as; values which are not supported leave the default.
fn seen(prop: &str, t: &Tok, env: &Env, default: &Obs) -> Obs {
    meaning(prop, t, env).unwrap_or_else(|| default.clone())
}

fn slack(prop: &str, size: f32, fuzz: f32) -> f32 {
    // weights are whole numbers
    let whole = if prop == "font-weight" { 1.0 } else { 0.0 };
    (1e-4 * size.max(1e-2)).max(fuzz) + whole
}

/// Values where an interrupted transition continues from are known with some error.
fn near(prop: &str, want: &Obs, got: &Obs, fuzz: f32) -> bool {
    want.same(got)
        || match (scalar(want), scalar(got)) {
            (Some((k, x)), Some((g, z))) => k == g && (x - z).abs() <= slack(prop, x.abs(), fuzz),
            _ => false,
        }
}

/// The value which explains the observation, from progress lo to hi between a and b.
fn explain(prop: &str, a: &Tok, b: &Tok, lo: f64, hi: f64, got: &Obs, env: &Env, default: &Obs, fuzz: f32) -> Option<Tok> {
    if hi <= 0.0 {
        return near(prop, &seen(prop, a, env, default), got, fuzz).then(|| a.clone());
    }
    if lo >= 1.0 {
        return near(prop, &seen(prop, b, env, default), got, fuzz).then(|| b.clone());
    }
    let mid = ((lo + hi) / 2.0).clamp(0.0, 1.0);
    let (lo, hi) = (lo.max(0.0), hi.min(1.0));
    if let (Tok::Hex(x, _), Tok::Hex(y, _)) = (a, b) {
        let Obs::Color(c) = got else { return None };
        for i in 0..4 {
            let at = |p: f64| x[i] as f64 + (y[i] as f64 - x[i] as f64) * p;
            let (u, v) = (at(lo).min(at(hi)) - 1.0, at(lo).max(at(hi)) + 0.51);
            if (c[i] as f64) < u || (c[i] as f64) > v {
                return None;
            }
        }
        return Some(Tok::Hex(*c, false));
    }
    if let (Some(x), Some(y)) = (blend(a, b, lo), blend(a, b, hi)) {
        // zero of no unit may be shown at the ends
        if lo <= 1e-6 && seen(prop, a, env, default).same(got) {
            return Some(a.clone());
        }
        if hi >= 1.0 - 1e-6 && seen(prop, b, env, default).same(got) {
            return Some(b.clone());
        }
        let (x, y) = (seen(prop, &x, env, default), seen(prop, &y, env, default));
        if x.same(got) || y.same(got) {
            return blend(a, b, mid);
        }
        let ((k, x), (_, y), (g, z)) = (scalar(&x)?, scalar(&y)?, scalar(got)?);
        let slack = slack(prop, x.abs().max(y.abs()), fuzz);
        let inside = z >= x.min(y) - slack && z <= x.max(y) + slack;
        return (k == g && inside).then(|| blend(a, b, mid)).flatten();
    }
    if lo < 0.5 && near(prop, &seen(prop, a, env, default), got, fuzz) {
        return Some(a.clone());
    }
    if hi >= 0.5 && near(prop, &seen(prop, b, env, default), got, fuzz) {
        return Some(b.clone());
    }
    None
}

// ---------------------------------------------------------------------------------------------
// Cascade of what is about time

#[derive(Clone, Debug, PartialEq)]
struct Trans {
    prop: String,
    duration: f64,
    delay: f64,
}

#[derive(Clone, Debug, PartialEq)]
struct Anim {
    name: String,
    duration: f64,
    delay: f64,
    iterations: f64,
    running: bool,
}

#[derive(Default, Clone)]
struct Declared {
    visual: Computed,
    time: BTreeMap<(String, usize), Tok>,
}

const TIME: &[(&str, &[&str])] = &[
    ("transition", &["property", "duration", "timing-function", "delay"]),
    ("animation", &["name", "duration", "timing-function", "delay", "iteration-count", "play-state"]),
];

impl Declared {
    fn apply(&mut self, decls: &[Decl], vars: &mut HashMap<String, Vec<Tok>>) {
        for d in decls {
            let family = TIME.iter().find(|(f, _)| d.prop == *f || d.prop.starts_with(&format!("{f}-")));
            let Some((family, longhands)) = family else {
                self.visual.apply(std::slice::from_ref(d), vars);
                continue;
            };
            for (layer, toks) in d.layers.iter().enumerate() {
                let mut set: Vec<(String, Option<Tok>)> = vec![];
                if d.prop == *family {
                    for l in *longhands {
                        set.push((format!("{family}-{l}"), None));
                    }
                    let mut put = |l: &str, t: &Tok| set.push((format!("{family}-{l}"), Some(t.clone())));
                    match (*family, toks.as_slice()) {
                        ("transition", [p, d]) | ("transition", [p, d, _]) => {
                            put("property", p);
                            put("duration", d);
                        }
                        ("transition", [p, d, _, delay]) => {
                            put("property", p);
                            put("duration", d);
                            put("delay", delay);
                        }
                        ("animation", [d, n]) | ("animation", [d, _, n]) => {
                            put("duration", d);
                            put("name", n);
                        }
                        ("animation", [d, _, x, n]) => {
                            put("duration", d);
                            put("name", n);
                            let which = if matches!(x, Tok::Time(..)) { "delay" } else { "iteration-count" };
                            put(which, x);
                        }
                        other => unreachable!("{other:?}"),
                    }
                } else {
                    set.push((d.prop.clone(), Some(toks[0].clone())));
                }
                for (longhand, tok) in set {
                    if layer == 0 {
                        self.time.retain(|(p, l), _| *p != longhand || *l == 0);
                    }
                    match tok {
                        Some(tok) => self.time.insert((longhand, layer), tok),
                        None => self.time.remove(&(longhand, layer)),
                    };
                }
            }
        }
    }

    fn seconds(&self, prop: &str, layer: usize) -> f64 {
        match self.time.get(&(prop.to_string(), layer)) {
            Some(Tok::Time(s, _)) => *s as f64,
            _ => 0.0,
        }
    }

    fn names(&self, prop: &str) -> Vec<String> {
        let mut names = vec![];
        while let Some(Tok::Kw(name)) = self.time.get(&(prop.to_string(), names.len())) {
            names.push(name.clone());
        }
        names
    }

    fn transitions(&self) -> Vec<Trans> {
        let names = self.names("transition-property");
        let list = names.into_iter().enumerate().filter(|(_, prop)| prop != "none");
        list.map(|(i, prop)| Trans {
            prop,
            duration: self.seconds("transition-duration", i),
            delay: self.seconds("transition-delay", i),
        })
        .collect()
    }

    fn animations(&self) -> Vec<Anim> {
        let names = self.names("animation-name");
        names
            .into_iter()
            .enumerate()
            .map(|(i, name)| Anim {
                name,
                duration: self.seconds("animation-duration", i),
                delay: self.seconds("animation-delay", i),
                iterations: match self.time.get(&("animation-iteration-count".into(), i)) {
                    Some(Tok::Kw(_)) => f64::INFINITY,
                    Some(Tok::Num(n)) => *n as f64,
                    _ => 1.0,
                },
                running: self.time.get(&("animation-play-state".into(), i)) != Some(&Tok::Kw("paused".into())),
            })
            .collect()
    }
}

// ---------------------------------------------------------------------------------------------
// Model of an element

/// Between two layers of values of a property.
#[derive(Clone, Debug)]
struct Track {
    from: Vec<Tok>,
    to: Vec<Tok>,
    time: f64,
    /// Error of the start values, in pixels and the like.
    fuzz: f32,
    /// It was seen at its end as exactly as times are known, and may have settled there.
    ended: bool,
    /// It started from a value which is zero of this or that kind, depending on rounding.
    vague: bool,
}

#[derive(Default)]
struct Clock {
    tracks: BTreeMap<String, Track>,
    transitions: Vec<Trans>,
    animations: Vec<(Anim, f64)>,
}

#[derive(Default)]
struct Progress {
    between: usize,
    settled: usize,
    interrupted: usize,
    delayed: usize,
    steps: std::collections::HashSet<u32>,
    finished: usize,
    restarted: usize,
    paused: usize,
    before: usize,
}

/// Allowed range of progress in an update.
struct Span {
    lo: f64,
    hi: f64,
}

impl Clock {
    /// Judges what an element shows, then adopts what was declared in this update.
    fn step(
        &mut self,
        s: &SNode,
        declared: &Declared,
        keyframes: &[Keyframes],
        dt: f64,
        env: &Env,
        base: &Look,
        stats: &mut Progress,
    ) -> Result<usize, String> {
        let mut left = declared.visual.clone();
        let mut judged = 0;
        let mut skip: Vec<(String, usize)> = vec![];
        let default = |prop: &str, layer: usize| match base.values.get(&(longhand(prop), layer)) {
            Some(obs) => obs.clone(),
            None => initial(prop),
        };

        // animations
        let animations = declared.animations();
        let mut next = vec![];
        for (i, now) in animations.iter().enumerate() {
            let before = self.animations.get(i).filter(|(a, _)| a.name == now.name).cloned();
            let Some((config, mut time)) = before else {
                stats.restarted += 1;
                next.push((now.clone(), 0.0));
                continue;
            };
            if config.duration > 0.0 {
                if config.running {
                    time += dt;
                } else {
                    stats.paused += 1;
                }
            }
            next.push((now.clone(), time));
            let Some(frames) = keyframes.iter().find(|k| k.name == config.name) else { continue };
            if config.duration <= 0.0 {
                continue;
            }
            let t = time - config.delay;
            if t < -1e-6 {
                stats.before += 1;
                continue;
            }
            let cycles = (t.max(0.0) / config.duration).min(config.iterations);
            let done = cycles >= config.iterations;
            let mut p = cycles.fract();
            if done && p == 0.0 {
                p = 1.0;
            }
            stats.finished += done as usize;
            stats.steps.insert((p * 100.0) as u32);
            let mut spans = vec![Span { lo: p - 0.0101, hi: p + 1e-4 }];
            if done {
                spans = vec![Span { lo: p - if p == 1.0 { 0.0 } else { 0.0101 }, hi: p + 1e-4 }];
            } else if (cycles - cycles.round()).abs() < 1e-4 {
                // at the border of two iterations
                spans.push(Span { lo: 1.0 - 0.0101, hi: 1.0 });
                spans.push(Span { lo: 0.0, hi: 0.0 });
                if t < 1e-4 {
                    // the delay ends here, or did not yet
                    spans.push(Span { lo: -1.0, hi: -1.0 });
                }
            }
            // values of every longhand by step
            let mut values: BTreeMap<(String, usize), BTreeMap<u32, Tok>> = BTreeMap::new();
            for (step, decls) in &frames.steps {
                let mut c = Computed::default();
                c.apply(decls, &mut HashMap::new());
                for (key, tok) in c.set {
                    values.entry(key).or_default().insert(*step, plain(&tok));
                }
            }
            for ((prop, layer), mut steps) in values {
                let own = match left.set.get(&(prop.clone(), layer)) {
                    Some(tok) => plain(tok),
                    None => initial_tok(&prop),
                };
                steps.entry(0).or_insert_with(|| own.clone());
                steps.entry(100).or_insert(own.clone());
                let got = observe(s, &prop, layer);
                let default = default(&prop, layer);
                let list: Vec<(u32, Tok)> = steps.into_iter().collect();
                let fits = spans.iter().any(|span| {
                    if span.hi < 0.0 {
                        return seen(&prop, &own, env, &default).same(&got);
                    }
                    list.windows(2).any(|w| {
                        let (a, b) = (w[0].0 as f64 / 100.0, w[1].0 as f64 / 100.0);
                        let (lo, hi) = (span.lo.max(0.0), span.hi.min(1.0));
                        if hi < a || lo > b {
                            return false;
                        }
                        let local = |p: f64| (p - a) / (b - a);
                        explain(&prop, &w[0].1, &w[1].1, local(lo), local(hi), &got, env, &default, 0.0).is_some()
                    })
                });
                if !fits {
                    bail!(
                        "animation {} at {t:.4} s ({cycles:.4} of {} iterations): {prop} (layer {layer}) is {got:?}, \
                         frames are {list:?}, allowed progress {:?}",
                        config.name,
                        config.iterations,
                        spans.iter().map(|s| (s.lo, s.hi)).collect::<Vec<_>>()
                    );
                }
                judged += 1;
                skip.push((prop, layer));
            }
        }
        self.animations = next;

        // transitions
        let transitions = declared.transitions();
        let mut tracks = BTreeMap::new();
        for now in &transitions {
            let target: Vec<Tok> = (0..)
                .map_while(|l| declared.visual.set.get(&(now.prop.clone(), l)))
                .map(plain)
                .collect();
            let settled = Track { from: target.clone(), to: target.clone(), time: 0.0, fuzz: 0.0, ended: false, vague: false };
            let config = self.transitions.iter().find(|t| t.prop == now.prop);
            let track = match (config, self.tracks.remove(&now.prop)) {
                (Some(config), Some(mut track)) if config.duration > 0.0 && track.to.len() == target.len() => {
                    track.time += dt;
                    let t = track.time - config.delay;
                    let p = (t / config.duration).clamp(0.0, 1.0);
                    let exact = t / config.duration > 1.0 + 1e-5 || t < -1e-5;
                    let slack = if exact { 0.0 } else { 1e-6 };
                    let mut current = vec![];
                    let mut fuzz = track.fuzz;
                    for (l, (from, to)) in track.from.iter().zip(&track.to).enumerate() {
                        let got = observe(s, &now.prop, l);
                        let default = default(&now.prop, l);
                        for t in [from, to] {
                            if let Some((_, x)) = scalar(&seen(&now.prop, t, env, &default)) {
                                fuzz = fuzz.max(1e-4 * x.abs());
                            }
                        }
                        let as_running = explain(&now.prop, from, to, p - slack, p + slack, &got, env, &default, track.fuzz);
                        let as_ended = || match track.ended && near(&now.prop, &seen(&now.prop, to, env, &default), &got, 0.0) {
                            true => Some(to.clone()),
                            false => None,
                        };
                        match as_running.or_else(as_ended) {
                            Some(tok) => current.push(tok),
                            None if track.vague => current.push(to.clone()),
                            None => bail!(
                                "transition of {} (layer {l}) at {:.4} s of {} s after {} s: {got:?}, \
                                 from {from:?} to {to:?}",
                                now.prop,
                                track.time,
                                config.duration,
                                config.delay
                            ),
                        }
                        judged += 1;
                        skip.push((now.prop.clone(), l));
                    }
                    if track.from != track.to {
                        if p > 0.0 && p < 1.0 {
                            stats.between += 1;
                        } else if p >= 1.0 {
                            stats.settled += 1;
                        } else {
                            stats.delayed += 1;
                        }
                    }
                    if track.to != target {
                        stats.interrupted += (p < 1.0 && track.from != track.to) as usize;
                        let zero = track.from.iter().zip(&track.to).any(|(a, b)| a != b && (*a == Tok::Zero || *b == Tok::Zero));
                        // it jumps about now, maybe between values which look the same
                        let jump = (p - 0.5).abs() < 1e-5
                            && track.from.iter().zip(&track.to).any(|(a, b)| a != b && blend(a, b, 0.5).is_none());
                        let vague = track.vague || (!exact && zero) || jump;
                        track = Track { from: current, to: target, time: 0.0, fuzz, ended: false, vague };
                    } else if exact && p >= 1.0 {
                        track = settled;
                    } else {
                        track.ended |= p + slack >= 1.0;
                    }
                    track
                }
                _ => settled,
            };
            if !track.to.is_empty() {
                tracks.insert(now.prop.clone(), track);
            }
        }
        self.tracks = tracks;
        self.transitions = transitions;

        // everything else is as declared
        for key in &skip {
            left.set.remove(key);
        }
        let want = base.child(left, env.viewport);
        for (prop, _) in LONGHANDS {
            for layer in 0..if LAYERED.contains(prop) { 4 } else { 1 } {
                if skip.iter().any(|(p, l)| p == prop && *l == layer) {
                    continue;
                }
                let want = want.values.get(&(*prop, layer)).cloned().unwrap_or_else(|| initial(prop));
                let got = observe(s, prop, layer);
                if !want.same(&got) {
                    bail!("{prop} (layer {layer}) is {got:?}, declared is {want:?}");
                }
                judged += 1;
            }
        }
        Ok(judged)
    }
}

fn longhand(prop: &str) -> &'static str {
    LONGHANDS.iter().find(|(p, _)| *p == prop).unwrap().0
}

/// Initial values as they would be written, of longhands animated without being declared.
const UNDECLARED: &[(&str, Tok)] = &[
    ("opacity", Tok::Num(1.0)),
    ("background-color", Tok::Hex([0; 4], false)),
    ("margin-left", Tok::Zero),
    ("margin-right", Tok::Zero),
    ("margin-top", Tok::Zero),
    ("margin-bottom", Tok::Zero),
    ("padding-left", Tok::Zero),
    ("padding-right", Tok::Zero),
    ("padding-top", Tok::Zero),
    ("padding-bottom", Tok::Zero),
    ("border-top-left-radius", Tok::Zero),
    ("border-top-right-radius", Tok::Zero),
    ("border-bottom-left-radius", Tok::Zero),
    ("border-bottom-right-radius", Tok::Zero),
    ("flex-grow", Tok::Zero),
    ("flex-shrink", Tok::Num(1.0)),
];

fn initial_tok(prop: &str) -> Tok {
    match UNDECLARED.iter().find(|(p, _)| *p == prop) {
        Some((_, tok)) => tok.clone(),
        None => match initial(prop) {
            Obs::Auto => Tok::Kw("auto".into()),
            Obs::None => Tok::Kw("none".into()),
            Obs::Kw(k) => Tok::Kw(k.into()),
            other => unreachable!("{prop} {other:?}"),
        },
    }
}

// ---------------------------------------------------------------------------------------------
// Scenarios

const CLASSES: &[&str] = &["", "a", "b", "c"];

struct Kind1 {
    tag: String,
    base: Vec<Decl>,
    alts: Vec<(String, Vec<Decl>)>,
    inline: Vec<String>,
    inline_decls: HashMap<String, Vec<Decl>>,
    repeat: usize,
}

fn gen_value(r: &mut Rng, prop: &str, like: Option<&Tok>, em: bool) -> Tok {
    loop {
        let mut t = gen_tok(r, prop);
        match (&mut t, like) {
            (Tok::Rgba(..) | Tok::RgbPct(..) | Tok::RgbaPct(..) | Tok::RgbNum(..), _) => continue,
            (Tok::Dim(_, u), Some(Tok::Dim(_, v))) if r.chance(75) => *u = *v,
            _ => {}
        }
        if let (Tok::Dim(_, "em"), false) = (&t, em) {
            continue;
        }
        return t;
    }
}

/// Different values of a longhand.
fn pool(r: &mut Rng, prop: &str, em: bool) -> Vec<Tok> {
    let env = Env { viewport: [800.0, 600.0], parent_font: 16.0, parent_color: [0; 4] };
    let mut pool: Vec<Tok> = vec![];
    for _ in 0..12 {
        let t = gen_value(r, prop, pool.first(), em);
        let m = meaning(prop, &t, &env).unwrap();
        if pool.iter().all(|o| !meaning(prop, o, &env).unwrap().same(&m)) {
            pool.push(t);
        }
        if pool.len() == 4 {
            break;
        }
    }
    pool
}

fn time(r: &mut Rng, ms: u64) -> Tok {
    Tok::Time(ms as f32 / 1000.0, r.chance(40))
}

fn some_ms(r: &mut Rng) -> u64 {
    *r.pick(&[1, 50, 100, 160, 200, 250, 300, 500, 700, 1000, 1000, 2000, 1500, 3200, 60_000])
}

/// Declaration of layers of one longhand, sometimes by a shorthand of it.
fn declare(r: &mut Rng, prop: &str, layers: Vec<Tok>) -> Decl {
    let short = |name: &str| Decl { prop: name.into(), layers: layers.iter().map(|t| vec![t.clone()]).collect() };
    if r.chance(20) {
        let shorthand = match prop {
            "margin-left" | "margin-right" | "margin-top" | "margin-bottom" => "margin",
            "padding-left" | "padding-right" | "padding-top" | "padding-bottom" => "padding",
            "row-gap" | "column-gap" => "gap",
            "overflow-x" | "overflow-y" => "overflow",
            p if p.starts_with("border-") && p.ends_with("-width") => "border-width",
            p if p.starts_with("border-") && p.ends_with("-color") => "border-color",
            p if p.starts_with("border-") && p.ends_with("-radius") => "border-radius",
            "left" | "right" | "top" | "bottom" => "inset",
            p => p,
        };
        return short(shorthand);
    }
    short(prop)
}

/// The shorthand of four sides or corners a longhand belongs to.
fn sides(prop: &str) -> Option<&'static str> {
    match prop {
        p if p.starts_with("margin-") => Some("margin"),
        p if p.starts_with("padding-") => Some("padding"),
        p if p.starts_with("border-") && p.ends_with("-radius") => Some("border-radius"),
        _ => None,
    }
}

/// Layers of a property which may have several.
fn more_layers(r: &mut Rng, layered: bool, first: Tok, mut another: impl FnMut(&mut Rng) -> Tok) -> Vec<Tok> {
    let mut layers = vec![first];
    if layered {
        for _ in 0..r.below(3) {
            layers.push(another(r));
        }
    }
    layers
}

fn transition_decls(r: &mut Rng, covered: &[&str], zero: usize) -> Vec<Decl> {
    let mut layers = vec![];
    for prop in covered {
        let ms = if r.chance(zero) { 0 } else { some_ms(r) };
        let delay = if r.chance(35) { some_ms(r) } else { 0 };
        layers.push((Tok::Kw(prop.to_string()), time(r, ms), time(r, if ms == 0 { 0 } else { delay }), delay > 0 && ms > 0));
    }
    let linear = Tok::Kw("linear".into());
    if r.chance(30) {
        let column = |prop: &str, f: &dyn Fn(&(Tok, Tok, Tok, bool)) -> Tok| Decl {
            prop: prop.into(),
            layers: layers.iter().map(|l| vec![f(l)]).collect(),
        };
        return vec![
            column("transition-property", &|l| l.0.clone()),
            column("transition-duration", &|l| l.1.clone()),
            column("transition-delay", &|l| l.2.clone()),
        ];
    }
    let layers = layers
        .into_iter()
        .map(|(p, d, delay, delayed)| match delayed {
            true => vec![p, d, linear.clone(), delay],
            false if r.chance(50) => vec![p, d, linear.clone()],
            false => vec![p, d],
        })
        .collect();
    vec![Decl { prop: "transition".into(), layers }]
}

/// Animations of no duration show nothing.
fn duration_ms(r: &mut Rng) -> u64 {
    if r.chance(4) { 0 } else { some_ms(r) }
}

fn animation_decls(r: &mut Rng, names: &[String]) -> Vec<Decl> {
    let linear = Tok::Kw("linear".into());
    let count = |r: &mut Rng| match r.below(4) {
        0 => Tok::Num(*r.pick(&[1.0, 2.0, 3.0, 1.5, 0.25])),
        1 => Tok::Num(1.0),
        _ => Tok::Kw("infinite".into()),
    };
    let mut decls = vec![];
    if r.chance(35) {
        let column = |prop: &str, toks: Vec<Tok>| Decl {
            prop: prop.into(),
            layers: toks.into_iter().map(|t| vec![t]).collect(),
        };
        decls.push(column("animation-name", names.iter().map(|n| Tok::Kw(n.clone())).collect()));
        let times = names.iter().map(|_| duration_ms(r)).collect::<Vec<_>>();
        decls.push(column("animation-duration", times.into_iter().map(|t| time(r, t)).collect()));
        if r.chance(60) {
            let times = names.iter().map(|_| some_ms(r)).collect::<Vec<_>>();
            decls.push(column("animation-delay", times.into_iter().map(|t| time(r, t)).collect()));
        }
        if r.chance(70) {
            decls.push(column("animation-iteration-count", names.iter().map(|_| count(r)).collect()));
        }
    } else {
        let layers = names
            .iter()
            .map(|n| {
                let ms = duration_ms(r);
                let duration = time(r, ms);
                let name = Tok::Kw(n.clone());
                match r.below(4) {
                    0 => vec![duration, name],
                    1 => vec![duration, linear.clone(), name],
                    2 => {
                        let ms = some_ms(r);
                        vec![duration, linear.clone(), time(r, ms), name]
                    }
                    _ => vec![duration, linear.clone(), count(r), name],
                }
            })
            .collect();
        decls.push(Decl { prop: "animation".into(), layers });
        if r.chance(25) {
            decls.push(Decl {
                prop: "animation-iteration-count".into(),
                layers: names.iter().map(|_| vec![count(r)]).collect(),
            });
        }
    }
    decls
}

fn distinct<'a>(r: &mut Rng, n: usize, used: &mut Vec<&'a str>, from: &[&'a str]) -> Vec<&'a str> {
    let mut list = vec![];
    for _ in 0..n * 6 {
        let p = *r.pick(from);
        if !used.contains(&p) && list.len() < n {
            used.push(p);
            // a shorthand sets several of them
            list.push(p);
        }
    }
    list
}

fn c10(case: &mut Case) -> Verdict {
    run(case, false)
}

fn c11(case: &mut Case) -> Verdict {
    run(case, true)
}

fn run(case: &mut Case, animated: bool) -> Verdict {
    // these have no names of their own in the format
    let all: Vec<&'static str> =
        LONGHANDS.iter().map(|(p, _)| *p).filter(|p| !p.starts_with("background-position-")).collect();
    let undeclared: Vec<&'static str> = UNDECLARED.iter().map(|(p, _)| *p).collect();
    let r = &mut case.rng;
    let n = if case.tiny { 1 } else { r.range(1, 3) };
    let mut kinds: Vec<Kind1> = vec![];
    let mut keyframes: Vec<Keyframes> = vec![];
    for k in 0..n {
        let mut used: Vec<&str> = vec![];
        // never covered by two mechanisms, not even through a shorthand
        let covers = if !animated || r.chance(40) { r.range(1, 3) } else { 0 };
        let covered = distinct(r, covers, &mut used, &all);
        let mut animations: Vec<(String, Vec<&str>)> = vec![];
        if animated {
            for i in 0..r.range(1, 2) {
                let count = r.range(1, 3);
                let mut props = vec![];
                for _ in 0..count {
                    let from = if r.chance(50) { &undeclared } else { &all };
                    props.extend(distinct(r, 1, &mut used, from));
                }
                if !props.is_empty() {
                    animations.push((format!("move{}", ["x", "y", "z", "u", "v", "w"][k * 2 + i]), props));
                }
            }
        }
        let em = !used.contains(&"font-size");
        let mut pools: BTreeMap<&str, Vec<Tok>> = BTreeMap::new();
        for p in &used {
            pools.insert(*p, pool(r, p, em));
        }
        let layered: Vec<&str> = covered.iter().filter(|p| LAYERED.contains(p)).filter(|_| r.chance(50)).copied().collect();
        let stacked: Vec<&str> = animations.iter().flat_map(|(_, p)| p).filter(|p| LAYERED.contains(p)).filter(|_| r.chance(60)).copied().collect();
        // values of one state, a different one of each pool for every state
        let state = |r: &mut Rng, i: usize, percent: usize, own: bool| {
            let mut decls = vec![];
            for p in &covered {
                if r.chance(percent) {
                    let pool = &pools[p];
                    let mut layers = vec![pool[i % pool.len()].clone()];
                    if layered.contains(p) {
                        let n = if r.chance(85) { 1 } else { r.below(3) };
                        for j in 0..n {
                            layers.push(pool[(i + j + 1) % pool.len()].clone());
                        }
                    }
                    decls.push(declare(r, p, layers));
                }
            }
            if own {
                for (_, props) in &animations {
                    for p in props {
                        let must = !undeclared.contains(p) && !matches!(initial(p), Obs::Auto);
                        if (must && i == 0) || r.chance(30) {
                            let pool = &pools[p];
                            let first = pool[i % pool.len()].clone();
                            let layers = more_layers(r, stacked.contains(p), first, |r| r.pick(pool).clone());
                            decls.push(declare(r, p, layers));
                        }
                    }
                }
            }
            decls
        };
        let mut base = state(r, 0, 90, true);
        let zero = if r.chance(15) { 60 } else { 0 };
        let always = r.chance(75);
        if !covered.is_empty() && always {
            base.extend(transition_decls(r, &covered, zero));
        }
        let names: Vec<String> = animations.iter().map(|(n, _)| n.clone()).collect();
        if !names.is_empty() && r.chance(50) {
            base.extend(animation_decls(r, &names));
        }
        let mut alts = vec![];
        for (i, c) in CLASSES.iter().enumerate().skip(1) {
            let reconfigure = !covered.is_empty() && zero == 0 && r.chance(25);
            let own = r.chance(40);
            let mut decls = state(r, i, if reconfigure { 100 } else { 75 }, own);
            if reconfigure {
                if r.chance(50) {
                    decls.extend(transition_decls(r, &covered, 0));
                } else {
                    decls.push(Decl::one("transition-property", Tok::Kw("none".into())));
                }
            }
            if !names.is_empty() {
                match r.below(6) {
                    0 | 1 => decls.extend(animation_decls(r, &names)),
                    2 => {
                        let one = vec![r.pick(&names).clone()];
                        decls.extend(animation_decls(r, &one));
                    }
                    3 => decls.push(Decl {
                        prop: "animation-play-state".into(),
                        layers: names.iter().map(|_| vec![Tok::Kw(r.pick(&["paused", "paused", "running"]).to_string())]).collect(),
                    }),
                    4 => decls.push(Decl::one("animation-name", Tok::Kw("none".into()))),
                    _ => {}
                }
            }
            alts.push((c.to_string(), decls));
        }
        let mut inline = vec![String::new()];
        let mut inline_decls = HashMap::new();
        inline_decls.insert(String::new(), vec![]);
        if r.chance(30) {
            for i in 0..3 {
                let decls = state(r, i + 1, 50, false);
                let decls: Vec<Decl> = decls.into_iter().filter(|d| !decls_text(&[d.clone()]).contains('"')).collect();
                let text = decls_text(&decls);
                inline.push(text.clone());
                inline_decls.insert(text, decls);
            }
        }
        for (name, props) in &animations {
            let mut steps: Vec<u32> = vec![];
            if r.chance(70) {
                steps.push(0);
            }
            if r.chance(70) {
                steps.push(100);
            }
            for _ in 0..r.below(4) {
                let s = r.range(1, 99) as u32;
                if !steps.contains(&s) {
                    steps.push(s);
                }
            }
            if steps.is_empty() {
                steps.push(50);
            }
            if r.chance(70) {
                steps.sort();
            }
            let steps = steps
                .into_iter()
                .map(|s| {
                    let mut decls = vec![];
                    for p in props {
                        if r.chance(80) {
                            let like = pools[p].first();
                            let tok = gen_value(r, p, like, em);
                            let toks = more_layers(r, stacked.contains(p), tok, |r| gen_value(r, p, like, em));
                            let alone = |s: &str| used.iter().filter(|u| sides(u) == Some(s)).count() == 1;
                            decls.push(match sides(p) {
                                Some(all) if alone(all) && r.chance(25) => {
                                    let n = r.range(1, 4);
                                    let mut toks = toks;
                                    while toks.len() < n {
                                        toks.push(gen_value(r, p, like, em));
                                    }
                                    Decl { prop: all.into(), layers: vec![toks] }
                                }
                                _ => Decl { prop: p.to_string(), layers: toks.into_iter().map(|t| vec![t]).collect() },
                            });
                        }
                    }
                    (s, decls)
                })
                .collect();
            keyframes.push(Keyframes { name: name.clone(), steps });
        }
        let repeat = if r.chance(30) { r.range(2, 3) } else { 1 };
        kinds.push(Kind1 {
            tag: format!("x{}", ["p", "q", "r"][k]),
            base,
            alts,
            inline,
            inline_decls,
            repeat,
        });
    }
    // text
    let mut sheet = Sheet::default();
    let compound = |tag: &str, class: Option<&str>| Complex {
        first: match class {
            Some(c) => vec![Simple::Type(tag.into()), Simple::Class(c.into())],
            None => vec![Simple::Type(tag.into())],
        },
        rest: vec![],
    };
    let mut html = String::from("<html><body>");
    for (k, kind) in kinds.iter().enumerate() {
        sheet.rules.push(Rule { selectors: vec![compound(&kind.tag, None)], decls: kind.base.clone() });
        for (c, decls) in &kind.alts {
            sheet.rules.push(Rule { selectors: vec![compound(&kind.tag, Some(c))], decls: decls.clone() });
        }
        let tag = &kind.tag;
        let style = |path: &str| match kind.inline.len() {
            1 => String::new(),
            _ => format!(" @style=\"{{{path}}}\""),
        };
        match kind.repeat {
            1 => html.push_str(&format!("<{tag} @class=\"{{c{k}}}\"{}><b>t</b></{tag}>", style(&format!("s{k}")))),
            n => html.push_str(&format!(
                "<{tag} *row=\"{n} {{rows{k}}}\" @class=\"{{row.c}}\"{}><b>t</b></{tag}>",
                style("row.s")
            )),
        }
    }
    html.push_str("</body></html>");
    sheet.keyframes = keyframes.clone();
    let css = sheet_text(&sheet);
    case.log(format!("HTML {html}"));
    case.log(format!("CSS {css}"));

    let mut view = load(&html, &css, &pipes())?;
    let mut clocks: Vec<Vec<Clock>> = kinds.iter().map(|k| (0..k.repeat).map(|_| Clock::default()).collect()).collect();
    let mut states: Vec<Vec<(String, String)>> = kinds.iter().map(|k| vec![(String::new(), String::new()); k.repeat]).collect();
    let mut stats = Progress::default();
    let mut port = [800.0, 600.0];
    let frames = case.updates(6, 6, 40);
    let lively = *case.rng.pick(&[5, 15, 40]);
    let mut judged = 0;
    for frame in 0..frames {
        for (k, kind) in kinds.iter().enumerate() {
            for s in states[k].iter_mut() {
                if case.rng.chance(if frame == 0 { 30 } else { lively }) {
                    s.0 = case.rng.pick(CLASSES).to_string();
                }
                if case.rng.chance(lively) {
                    s.1 = case.rng.pick(&kind.inline).clone();
                }
            }
        }
        let mut value = Map::new();
        for (k, kind) in kinds.iter().enumerate() {
            if kind.repeat == 1 {
                value.insert(format!("c{k}"), json!(states[k][0].0));
                value.insert(format!("s{k}"), json!(states[k][0].1));
            } else {
                let rows: Vec<Value> = states[k].iter().map(|(c, s)| json!({"c": c, "s": s})).collect();
                value.insert(format!("rows{k}"), json!(rows));
            }
        }
        let ms = pick_ms(&mut case.rng, &clocks);
        if case.rng.chance(4) {
            port = [case.rng.range(100, 1900) as f32, case.rng.range(100, 1200) as f32];
        }
        let value = Value::Object(value);
        case.log(format!("UPDATE {frame} {ms} ms {port:?} {value}"));
        let step = Step { ms, viewport: port, events: vec![] };
        update(&mut view, &step, &value)?;
        let shown = snap(&view);
        let base = Look::root().child(Computed::default(), port);
        let env = Env { viewport: port, parent_font: base.font, parent_color: base.color };
        let mut elements = shown.children.iter();
        for (k, kind) in kinds.iter().enumerate() {
            for (i, (class, style)) in states[k].iter().enumerate() {
                let Some(s) = elements.next() else { bail!("element {i} of {} is not shown", kind.tag) };
                let mut declared = Declared::default();
                let mut vars = HashMap::new();
                declared.apply(&kind.base, &mut vars);
                for (c, decls) in &kind.alts {
                    if c == class {
                        declared.apply(decls, &mut vars);
                    }
                }
                declared.apply(&kind.inline_decls[style], &mut vars);
                judged += clocks[k][i]
                    .step(s, &declared, &keyframes, ms as f64 / 1000.0, &env, &base, &mut stats)
                    .map_err(|e| format!("update {frame}, element {i} of <{}>: {e}", kind.tag))?;
                // the child has what it inherits and nothing else
                let mut parent = Look::root();
                for (prop, _) in LONGHANDS {
                    parent.values.insert((*prop, 0), observe(s, prop, 0));
                }
                let want = parent.child(Computed::default(), port);
                let Some(b) = s.children.first() else { bail!("the child of <{}> is not shown", kind.tag) };
                judged += want.check(b).map_err(|e| format!("update {frame}, child of <{}>: {e}", kind.tag))?;
            }
        }
    }
    case.count("longhands judged", judged);
    case.count("updates", frames);
    case.count("between", stats.between);
    case.count("settled", stats.settled);
    case.count("interrupted", stats.interrupted);
    case.count("in delay", stats.delayed + stats.before);
    case.count("animation steps", stats.steps.len());
    case.count("animation finished", stats.finished);
    case.count("animation started", stats.restarted);
    case.count("animation paused", stats.paused);
    case.nontrivial = match animated {
        false => stats.between > 0 && stats.settled > 0,
        true => stats.steps.len() >= 3,
    };
    Ok(())
}

/// Frame times, many on and around the borders of what is running.
fn pick_ms(r: &mut Rng, clocks: &[Vec<Clock>]) -> u64 {
    if r.chance(40) {
        let mut borders: Vec<f64> = vec![];
        for c in clocks.iter().flatten() {
            for t in &c.transitions {
                if let Some(track) = c.tracks.get(&t.prop) {
                    if track.from != track.to {
                        borders.push(t.delay - track.time);
                        borders.push(t.delay + t.duration - track.time);
                        borders.push(t.delay + t.duration / 2.0 - track.time);
                    }
                }
            }
            for (a, time) in &c.animations {
                borders.push(a.delay - time);
                borders.push(a.delay + a.duration * r.range(0, 3) as f64 - time);
                borders.push(a.delay + a.duration * r.f(0.0, 3.0) as f64 - time);
            }
        }
        borders.retain(|b| *b >= 0.0);
        if !borders.is_empty() {
            let ms = (r.pick(&borders) * 1000.0).round() as i64;
            return (ms + *r.pick(&[0, 0, 1, -1])).max(0) as u64;
        }
    }
    match r.below(14) {
        0 => 0,
        1 => 1,
        2..=4 => 16,
        5 => 33,
        6 | 7 => r.range(1, 400) as u64,
        8 | 9 => 100,
        10 => r.range(1, 5000) as u64,
        11 => 1000,
        12 if r.chance(10) => r.range(1, 100_000_000) as u64,
        _ => 20,
    }
}
