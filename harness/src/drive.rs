//! Driving real views: loading, inputs, fonts.

use crate::doc::Pipes;
use bumaga::*;
use serde_json::Value;
use std::time::Duration;

/// Deterministic text metrics which depend on every property of the font, with word wrapping.
#[derive(Clone)]
pub struct TestFonts;

pub fn measure_text(text: &str, face: &FontFace, max_width: Option<f32>) -> [f32; 2] {
    let mut k = 0.5;
    if face.weight >= 700 {
        k += 0.125;
    }
    if face.style != "normal" {
        k += 0.0625;
    }
    k += (face.family.len() % 4) as f32 * 0.03125;
    let char_width = face.size * k;
    let line = face.size * face.line_height * 1.25;
    // characters differ in width
    let width = |s: &str| s.chars().map(|c| (c as u32 % 5 + 4) as f32 * 0.15625).sum::<f32>() * char_width;
    let total = width(text);
    match max_width {
        None => [total, line],
        Some(max) => {
            // greedy wrapping by words
            let mut lines = 1.0f32;
            let mut x = 0.0f32;
            let mut widest = 0.0f32;
            for word in text.split(' ') {
                let w = width(word);
                let with_space = if x == 0.0 { w } else { x + char_width + w };
                if with_space <= max || x == 0.0 {
                    x = with_space;
                } else {
                    lines += 1.0;
                    x = w;
                }
                widest = widest.max(x);
            }
            [widest, lines * line]
        }
    }
}

impl Fonts for TestFonts {
    fn measure(&self, text: &str, face: &FontFace, max_width: Option<f32>) -> [f32; 2] {
        measure_text(text, face, max_width)
    }
}

pub struct Identity;
impl RendererTranslator for Identity {
    fn translate(&self, span: String) -> String {
        span
    }
}

/// What an application provides to a view.
#[derive(Clone)]
pub struct Provided {
    pub pipes: Pipes,
    /// Scale of the fonts.
    pub fonts: f32,
    /// Suffix which the translator gives to every text.
    pub lang: String,
}

struct Scaled(f32);
impl Fonts for Scaled {
    fn measure(&self, text: &str, face: &FontFace, max_width: Option<f32>) -> [f32; 2] {
        let [w, h] = measure_text(text, face, max_width.map(|m| m / self.0));
        [w * self.0, h * self.0]
    }
}

struct Suffix(String);
impl RendererTranslator for Suffix {
    fn translate(&self, span: String) -> String {
        if span.trim().is_empty() {
            span
        } else {
            span + &self.0
        }
    }
}

pub fn load(html: &str, css: &str, pipes: &Pipes) -> Result<View, String> {
    load_env(html, css, &Provided { pipes: pipes.clone(), fonts: 1.0, lang: String::new() })
}

pub fn load_env(html: &str, css: &str, env: &Provided) -> Result<View, String> {
    let translator: Box<dyn RendererTranslator> = if env.lang.is_empty() {
        Box::new(Identity)
    } else {
        Box::new(Suffix(env.lang.clone()))
    };
    let mut view = if env.fonts == 1.0 {
        View::from_html(html, css, "", TestFonts, translator)
    } else {
        View::from_html(html, css, "", Scaled(env.fonts), translator)
    }
    .map_err(|e| format!("{e:?}"))?;
    for (name, f) in &env.pipes {
        view = view.pipe(name, *f);
    }
    Ok(view)
}

#[derive(Clone, Debug)]
pub struct Step {
    pub ms: u64,
    pub viewport: [f32; 2],
    pub events: Vec<InputEvent>,
}

impl Default for Step {
    fn default() -> Self {
        Step {
            ms: 0,
            viewport: [800.0, 600.0],
            events: vec![],
        }
    }
}

impl Step {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn ms(mut self, ms: u64) -> Self {
        self.ms = ms;
        self
    }
    pub fn event(mut self, e: InputEvent) -> Self {
        self.events.push(e);
        self
    }
    pub fn input(&self) -> Input {
        Input::new()
            .time(Duration::from_millis(self.ms))
            .viewport(self.viewport)
            .events(self.events.clone())
    }
}

pub fn update(view: &mut View, step: &Step, value: &Value) -> Result<Output, String> {
    view.update(step.input(), value.clone()).map_err(|e| format!("update failed: {e:?}"))
}
