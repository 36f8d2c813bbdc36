//! Writes a style sheet down in other ways which mean the same.

use crate::css::*;
use crate::rng::Rng;

/// Spacing and comments between the tokens of a sheet.
pub struct Form<'r> {
    pub r: &'r mut Rng,
    /// Percent of places with unusual spacing.
    pub spaces: usize,
    /// Percent of these which are comments.
    pub comments: usize,
    /// Percent of values written in another notation.
    pub notation: usize,
}

const SPACES: &[&str] = &["\n  ", "\t", "\r\n", "  ", " \n", "\n\n"];
const COMMENTS: &[&str] = &[
    "/**/", "/* x */", "/* { a: b; } */", "/* \" */", "/* ; */", "/* ж 🙂 */", "/***/", "/* // */", "/*\n*/", "/* .a > b, c */",
    "/* @keyframes x { */", "/* /* */", "/*:*/",
];

impl Form<'_> {
    fn odd(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.range(1, 2) {
            if self.r.chance(self.comments) {
                s.push_str(self.r.pick(COMMENTS));
            } else {
                s.push_str(self.r.pick(SPACES));
            }
        }
        s
    }

    /// A place where nothing has to be.
    fn gap(&mut self, usual: &str) -> String {
        if !self.r.chance(self.spaces) {
            return usual.into();
        }
        match self.r.below(3) {
            0 => String::new(),
            _ => self.odd(),
        }
    }

    /// A place with at least one space.
    fn space(&mut self) -> String {
        if !self.r.chance(self.spaces) {
            return " ".into();
        }
        match self.r.below(3) {
            0 => format!("{} ", self.odd()),
            1 => format!(" {}", self.odd()),
            _ => self.r.pick(SPACES).to_string(),
        }
    }

    fn number(&mut self, v: f32) -> String {
        let s = num(v);
        if !self.r.chance(self.notation) {
            return s;
        }
        let (sign, digits) = match s.strip_prefix('-') {
            Some(d) => ("-", d.to_string()),
            None => ("", s.clone()),
        };
        let digits = match self.r.below(3) {
            0 => {
                let zeros = "0".repeat(self.r.range(1, 3));
                let point = if digits.contains('.') { "" } else { "." };
                format!("{digits}{point}{zeros}")
            }
            1 if digits.starts_with("0.") => digits[1..].to_string(),
            1 => digits,
            _ => format!("0{digits}"),
        };
        format!("{sign}{digits}")
    }

    fn args(&mut self, name: &str, args: &[String]) -> String {
        let mut s = format!("{name}(");
        for (i, a) in args.iter().enumerate() {
            if i > 0 {
                s.push_str(&self.gap(""));
                s.push(',');
                s.push_str(&self.gap(" "));
            } else {
                s.push_str(&self.gap(""));
            }
            s.push_str(a);
        }
        s.push_str(&self.gap(""));
        s.push(')');
        s
    }

    fn tok(&mut self, t: &Tok) -> String {
        match t {
            // (a bare number with a leading zero does not read)
            Tok::Num(v) if num(*v) != "0" && num(*v) != "-0" => {
                let s = self.number(*v);
                match s.trim_start_matches('-').strip_prefix('0') {
                    Some(rest) if !rest.starts_with('.') => num(*v),
                    _ => s,
                }
            }
            Tok::Dim(v, u) => format!("{}{u}", self.number(*v)),
            Tok::Pct(v) => format!("{}%", self.number(*v)),
            Tok::Hex(..) => {
                let text = tok_text(t);
                let mix = self.r.chance(self.notation);
                text.chars()
                    .map(|c| match mix && self.r.chance(50) {
                        true if c.is_ascii_lowercase() => c.to_ascii_uppercase(),
                        true => c.to_ascii_lowercase(),
                        false => c,
                    })
                    .collect()
            }
            Tok::Rgb(r, g, b) => self.args("rgb", &[r.to_string(), g.to_string(), b.to_string()]),
            Tok::Rgba(r, g, b, a) => self.args("rgba", &[r.to_string(), g.to_string(), b.to_string(), num(*a)]),
            Tok::Url(s) => self.args("url", &[format!("\"{s}\"")]),
            Tok::Var(n) => {
                let mut args = vec![n.clone()];
                if self.r.chance(self.notation / 2) {
                    args.push(self.r.pick(&["1px", "red", "\"x\"", "0", "var(--nothing)"]).to_string());
                }
                self.args("var", &args)
            }
            Tok::Time(s, ms) => {
                // milliseconds, maybe of a fraction
                let whole = s * 1000.0;
                let exact = whole / 1000.0 == *s && (whole * 16.0).fract() == 0.0 && whole < 1e6;
                let ms = if exact && self.r.chance(self.notation) { !*ms } else { *ms };
                match ms {
                    true if exact => format!("{}ms", self.number(whole)),
                    true => tok_text(t),
                    false => format!("{}s", self.number(*s)),
                }
            }
            t => tok_text(t),
        }
    }

    fn decl(&mut self, d: &Decl) -> String {
        let mut s = d.prop.clone();
        s.push_str(&self.gap(""));
        s.push(':');
        s.push_str(&self.gap(" "));
        for (i, layer) in d.layers.iter().enumerate() {
            if i > 0 {
                s.push_str(&self.gap(""));
                s.push(',');
                s.push_str(&self.gap(" "));
            }
            for (j, t) in layer.iter().enumerate() {
                if j > 0 {
                    s.push_str(&self.space());
                }
                s.push_str(&self.tok(t));
            }
        }
        s.push_str(&self.gap(""));
        s.push(';');
        s
    }

    fn block(&mut self, decls: &[Decl]) -> String {
        let mut s = String::from("{");
        for d in decls {
            s.push_str(&self.gap(" "));
            s.push_str(&self.decl(d));
        }
        s.push_str(&self.gap(" "));
        s.push('}');
        s
    }

    fn compound(&mut self, c: &[Simple]) -> String {
        let mut list: Vec<Simple> = c.to_vec();
        if self.r.chance(self.notation / 2) {
            if !matches!(list[0], Simple::All | Simple::Type(_)) {
                list.insert(0, Simple::All);
            }
            // all but the first are in any order
            let mut rest = list.split_off(1);
            self.r.shuffle(&mut rest);
            if self.r.chance(30) && !rest.is_empty() {
                rest.push(rest[0].clone());
            }
            list.extend(rest);
        }
        let mut s = String::new();
        for simple in &list {
            s.push_str(&match simple {
                Simple::Attr(n, op, v, quoted) => {
                    let word = !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
                    let quoted = if word && self.r.chance(self.notation) { !*quoted } else { *quoted };
                    let (a, b, c, d) = (self.gap(""), self.gap(""), self.gap(""), self.gap(""));
                    match *op {
                        "" => format!("[{a}{n}{b}]"),
                        _ if quoted => format!("[{a}{n}{b}{op}{c}\"{v}\"{d}]"),
                        _ => format!("[{a}{n}{b}{op}{c}{v}{d}]"),
                    }
                }
                simple => simple_text(simple),
            });
        }
        s
    }

    fn complex(&mut self, c: &Complex) -> String {
        let mut s = self.compound(&c.first);
        for (comb, compound) in &c.rest {
            s.push_str(&self.gap(" "));
            s.push(*comb);
            s.push_str(&self.gap(" "));
            s.push_str(&self.compound(compound));
        }
        s
    }

    pub fn text(&mut self, sheet: &Sheet) -> String {
        let mut rules: Vec<String> = vec![];
        for rule in &sheet.rules {
            let mut s = String::new();
            for (i, c) in rule.selectors.iter().enumerate() {
                if i > 0 {
                    s.push_str(&self.gap(""));
                    s.push(',');
                    s.push_str(&self.gap(" "));
                }
                s.push_str(&self.complex(c));
            }
            s.push_str(&self.gap(" "));
            s.push_str(&self.block(&rule.decls));
            rules.push(s);
        }
        for k in &sheet.keyframes {
            let mut s = format!("@keyframes{}{}{}{{", self.space(), k.name, self.gap(" "));
            for (step, decls) in &k.steps {
                s.push_str(&self.gap(" "));
                let word = self.r.chance(self.notation);
                s.push_str(&match step {
                    0 if word => "from".into(),
                    100 if word => "to".into(),
                    _ if word => format!("{step}.{}%", "0".repeat(self.r.range(1, 3))),
                    _ => format!("{step}%"),
                });
                s.push_str(&self.gap(" "));
                s.push_str(&self.block(decls));
            }
            s.push_str(&self.gap(" "));
            s.push('}');
            // anywhere among the rules
            let at = if self.r.chance(self.notation) { self.r.below(rules.len() + 1) } else { rules.len() };
            rules.insert(at, s);
        }
        let mut out = self.gap("");
        for rule in rules {
            out.push_str(&rule);
            out.push_str(&self.gap("\n"));
        }
        out
    }
}

/// The same rules split, merged, repeated and surrounded by rules which match nothing.
pub fn rearrange(r: &mut Rng, sheet: &Sheet) -> Sheet {
    let mut rules: Vec<Rule> = vec![];
    for rule in &sheet.rules {
        let variables = rule.decls.iter().any(|d| d.prop.starts_with("--"));
        let mut parts = vec![rule.clone()];
        if rule.selectors.len() > 1 && !variables && r.chance(60) {
            parts = rule
                .selectors
                .iter()
                .map(|s| Rule { selectors: vec![s.clone()], decls: rule.decls.clone() })
                .collect();
            if r.chance(50) {
                r.shuffle(&mut parts);
            }
        }
        for part in parts {
            match r.below(6) {
                0 if part.decls.len() > 1 => {
                    let at = r.range(1, part.decls.len() - 1);
                    let (a, b) = part.decls.split_at(at);
                    rules.push(Rule { selectors: part.selectors.clone(), decls: a.to_vec() });
                    rules.push(Rule { selectors: part.selectors.clone(), decls: b.to_vec() });
                }
                1 if !variables => {
                    // the same rule twice
                    rules.push(part.clone());
                    rules.push(part);
                }
                2 => {
                    // a selector listed twice, or one which matches nothing
                    let mut part = part;
                    let extra = match r.below(2) {
                        0 => part.selectors[0].clone(),
                        _ => nothing(r),
                    };
                    let at = r.below(part.selectors.len() + 1);
                    part.selectors.insert(at, extra);
                    rules.push(part);
                }
                3 => {
                    let decls = (0..r.below(3)).map(|_| gen_decl(r)).collect();
                    rules.push(Rule { selectors: vec![nothing(r)], decls });
                    rules.push(part);
                }
                4 => {
                    let empty = Rule { selectors: part.selectors.clone(), decls: vec![] };
                    rules.push(part);
                    rules.push(empty);
                }
                _ => rules.push(part),
            }
        }
    }
    let mut keyframes = sheet.keyframes.clone();
    for k in keyframes.iter_mut() {
        if r.chance(40) {
            r.shuffle(&mut k.steps);
        }
        // the same step more than once
        for i in (0..k.steps.len()).rev() {
            if k.steps[i].1.len() > 1 && r.chance(25) {
                let at = r.range(1, k.steps[i].1.len() - 1);
                let rest = k.steps[i].1.split_off(at);
                let step = (k.steps[i].0, rest);
                let at = r.range(i + 1, k.steps.len());
                k.steps.insert(at, step);
            }
        }
    }
    if r.chance(50) {
        keyframes.reverse();
    }
    if r.chance(40) {
        let decls = vec![gen_decl(r)];
        keyframes.push(Keyframes { name: "unused".into(), steps: vec![(0, vec![]), (40, decls)] });
    }
    Sheet { rules, keyframes }
}

/// A selector of no element.
fn nothing(r: &mut Rng) -> Complex {
    let mut first = vec![match r.below(4) {
        0 => Simple::Class("no-such-class".into()),
        1 => Simple::Type("no-such-tag".into()),
        2 => Simple::Id("no-such-id".into()),
        _ => Simple::Attr("data-none".into(), "", String::new(), false),
    }];
    if r.chance(30) {
        first.push(Simple::Pseudo(r.pick(&["hover", "active", "focus"]).to_string()));
    }
    let mut rest = vec![];
    if r.chance(40) {
        rest.push((*r.pick(&['>', '+']), vec![Simple::All]));
    }
    Complex { first, rest }
}
