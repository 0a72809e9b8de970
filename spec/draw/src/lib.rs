//! What a drawing of an automaton shows.
pub mod pos2;

use crate::pos2::{pos2, Pos2};
use dandy::dfa::{Dfa, DfaState};
use dandy::nfa::{Nfa, NfaState};
use std::borrow::Cow;
use std::collections::{HashMap, HashSet};
use std::marker::PhantomData;

pub trait Drawer {
    fn start_drawing(&mut self);
    fn finish_drawing(&mut self);
    fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32);
    fn draw_centered_text(&mut self, pos: Pos2, text: &str);
    fn draw_rect(&mut self, upper_left: Pos2, size: Pos2);
    fn draw_line(&mut self, from: Pos2, to: Pos2, thickness: f32);
    fn set_color(&mut self, _rgb: [u8; 3]) {}
}

/// Everything moves by the offset and is then scaled.
struct OffsetScaleDrawer<'a, T> {
    offset: Pos2,
    scale: Pos2,
    drawer: &'a mut T,
}

impl<'a, T> OffsetScaleDrawer<'a, T> {
    fn at(&self, p: Pos2) -> Pos2 {
        (p + self.offset) * self.scale
    }
}

impl<'a, T: Drawer> Drawer for OffsetScaleDrawer<'a, T> {
    fn start_drawing(&mut self) {
        self.drawer.start_drawing()
    }
    fn finish_drawing(&mut self) {
        self.drawer.finish_drawing()
    }
    fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32) {
        let p = self.at(pos);
        self.drawer.draw_circle(p, radius * self.scale.x, thickness)
    }
    fn draw_centered_text(&mut self, pos: Pos2, text: &str) {
        let p = self.at(pos);
        self.drawer.draw_centered_text(p, text)
    }
    fn draw_rect(&mut self, upper_left: Pos2, size: Pos2) {
        let p = self.at(upper_left);
        self.drawer.draw_rect(p, size)
    }
    fn draw_line(&mut self, from: Pos2, to: Pos2, thickness: f32) {
        let (p, q) = (self.at(from), self.at(to));
        self.drawer.draw_line(p, q, thickness)
    }
    fn set_color(&mut self, rgb: [u8; 3]) {
        self.drawer.set_color(rgb)
    }
}

pub struct DrawOptions {
    x_scale: f32,
    y_scale: f32,
    x_offset: f32,
    y_offset: f32,
    center_line_padding: f32,
    circle_radius: f32,
    circle_width: f32,
    accepting_circle_radius: f32,
    accepting_circle_width: f32,
    init_arrow_length: f32,
    init_arrow_arms_length: f32,
    init_arrow_width: f32,
    trans_arrow_arms_length: f32,
    trans_line_width: f32,
    from_line_offset: f32,
    to_line_offset: f32,
    floor_height: f32,
    text_margin: f32,
    line_circle_margin: f32,
    end_arrow: bool,
    middle_arrow: bool,
    text_color: [u8; 3],
    circle_color: [u8; 3],
    line_color: [u8; 3],
}

impl Default for DrawOptions {
    fn default() -> Self {
        DrawOptions {
            x_scale: 1.0,
            y_scale: 1.0,
            x_offset: 0.0,
            y_offset: 0.0,
            center_line_padding: 20.0,
            circle_radius: 30.0,
            circle_width: 2.0,
            accepting_circle_radius: 25.0,
            accepting_circle_width: 2.0,
            init_arrow_length: 50.0,
            init_arrow_arms_length: 15.0,
            init_arrow_width: 3.0,
            trans_arrow_arms_length: 5.0,
            trans_line_width: 3.0,
            from_line_offset: 15.0,
            to_line_offset: 15.0,
            floor_height: 25.0,
            text_margin: 15.0,
            line_circle_margin: 10.0,
            end_arrow: true,
            middle_arrow: true,
            text_color: [255, 255, 255],
            circle_color: [150, 255, 255],
            line_color: [0, 255, 255],
        }
    }
}

pub fn draw_dfa(dfa: &Dfa, drawer: &mut impl Drawer) {
    draw_dfa_with_opts(dfa, drawer, DrawOptions::default())
}

pub fn draw_nfa(nfa: &Nfa, drawer: &mut impl Drawer) {
    draw_nfa_with_opts(nfa, drawer, DrawOptions::default())
}

pub fn draw_dfa_with_opts(dfa: &Dfa, drawer: &mut impl Drawer, opts: DrawOptions) {
    let mut states = Vec::new();
    for s in dfa.states() {
        states.push(State::from(s));
    }
    draw(states, dfa_to_arrows(dfa), drawer, opts)
}

pub fn draw_nfa_with_opts(nfa: &Nfa, drawer: &mut impl Drawer, opts: DrawOptions) {
    let mut states = Vec::new();
    for s in nfa.states() {
        states.push(State::from(s));
    }
    draw(states, nfa_to_arrows(nfa), drawer, opts)
}

fn center(o: &DrawOptions, i: usize) -> f32 {
    o.init_arrow_length + o.center_line_padding + o.circle_radius + (o.circle_radius * 2.0 + o.center_line_padding) * i as f32
}

fn draw<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>, drawer: &mut impl Drawer, o: DrawOptions) {
    let mut d = OffsetScaleDrawer { offset: pos2(o.x_offset, o.y_offset), scale: pos2(o.x_scale, o.y_scale), drawer };
    let (arrows, levels) = place_arrows(group_arrows(arrows));
    let baseline = (levels + 1) as f32 * o.floor_height;
    let cy = baseline + o.line_circle_margin + o.circle_radius;

    d.start_drawing();
    d.set_color(o.line_color);
    let tip = pos2(o.init_arrow_length, cy);
    d.draw_line(pos2(0.0, cy), tip, o.init_arrow_width);
    d.draw_line(tip, tip - pos2(o.init_arrow_arms_length, o.init_arrow_arms_length), o.init_arrow_width);
    d.draw_line(tip, tip - pos2(o.init_arrow_arms_length, -o.init_arrow_arms_length), o.init_arrow_width);

    for (i, s) in states.iter().enumerate() {
        let c = pos2(center(&o, i), cy);
        d.set_color(o.circle_color);
        d.draw_circle(c, o.circle_radius, o.circle_width);
        if s.accepting {
            d.draw_circle(c, o.accepting_circle_radius, o.accepting_circle_width);
        }
        if s.initial {
            d.set_color(o.line_color);
            let start = c + Pos2::y(o.circle_radius + o.center_line_padding);
            d.draw_line(start, start + Pos2::y(o.init_arrow_length), o.init_arrow_width);
            d.draw_line(start, start + pos2(o.init_arrow_arms_length, o.init_arrow_arms_length), o.init_arrow_width);
            d.draw_line(start, start + pos2(-o.init_arrow_arms_length, o.init_arrow_arms_length), o.init_arrow_width);
        }
        d.set_color(o.text_color);
        d.draw_centered_text(c, s.name);
    }

    for a in arrows {
        let y = o.floor_height * (levels - a.level) as f32;
        let from = center(&o, a.arrow.left) + o.from_line_offset;
        let to = center(&o, a.arrow.right) - o.to_line_offset;
        let w = o.trans_line_width;
        let arm = o.trans_arrow_arms_length;
        d.set_color(o.line_color);
        d.draw_line(pos2(from, baseline), pos2(from, y), w);
        d.draw_line(pos2(to, baseline), pos2(to, y), w);
        d.draw_line(pos2(from, y), pos2(to, y), w);
        let middle = (from + to) / 2.0;
        if o.middle_arrow {
            let side = match a.arrow.direction {
                Direction::Left => 1.0,
                _ => -1.0,
            };
            let x = middle - arm * side * 0.5;
            d.draw_line(pos2(x, y), pos2(x + side * arm, y + arm), w);
            d.draw_line(pos2(x, y), pos2(x + side * arm, y - arm), w);
        }
        if o.end_arrow {
            let x = match a.arrow.direction {
                Direction::Right => to,
                _ => from,
            };
            let base = pos2(x, baseline);
            d.draw_line(base, base - pos2(arm, arm), w);
            d.draw_line(base, base - pos2(-arm, arm), w);
        }
        d.set_color(o.text_color);
        d.draw_centered_text(pos2(middle, y - o.text_margin), &a.arrow.label());
    }
    d.finish_drawing();
}

/// One arrow per state and symbol.
fn dfa_to_arrows(dfa: &Dfa) -> Vec<Arrow<'_>> {
    let mut out = Vec::new();
    for (from, s) in dfa.states().iter().enumerate() {
        for (i, to) in s.transitions().iter().enumerate() {
            out.push(Arrow::new(from, *to, &dfa.alphabet()[i]));
        }
    }
    out
}

/// One arrow per state, symbol and successor, and one per epsilon move.
fn nfa_to_arrows(nfa: &Nfa) -> Vec<Arrow<'_>> {
    let mut out = Vec::new();
    for (from, s) in nfa.states().iter().enumerate() {
        for (i, tos) in s.transitions().iter().enumerate() {
            for to in tos.iter() {
                out.push(Arrow::new(from, *to, &nfa.alphabet()[i]));
            }
        }
        for to in s.epsilon_transitions().iter() {
            out.push(Arrow::new(from, *to, "ε"));
        }
    }
    out
}

/// Level after level, arrows from left to right, each where the last one of the level has ended.
fn place_arrows<'a, T: ArrowLike<'a>>(arrows: Vec<T>) -> (Vec<PlacedArrow<'a, T>>, usize) {
    let mut unplaced = arrows;
    unplaced.sort_by_key(|arrow| usize::MAX - arrow.right());
    let mut current_depth = 0;
    let mut end_of_last = 0;
    let mut placed = Vec::with_capacity(unplaced.len());
    while !unplaced.is_empty() {
        let mut old_unplaced = std::mem::take(&mut unplaced);
        while let Some(arrow) = old_unplaced.pop() {
            if arrow.left() >= end_of_last {
                end_of_last = if arrow.left() == arrow.right() { arrow.right() + 1 } else { arrow.right() };
                placed.push(PlacedArrow { arrow, level: current_depth, phantom: PhantomData });
            } else {
                unplaced.push(arrow);
            }
        }
        current_depth += 1;
        unplaced.reverse();
        end_of_last = 0;
    }
    (placed, current_depth)
}

/// One arrow per pair of ends and direction, with all labels.
fn group_arrows(arrows: Vec<Arrow>) -> Vec<GroupedArrow> {
    let mut map: HashMap<(usize, usize, Direction), Vec<Arrow>> = HashMap::new();
    for a in arrows {
        map.entry((a.left, a.right, a.direction)).or_default().push(a);
    }
    let mut out = Vec::new();
    for ((left, right, direction), group) in map {
        let mut labels = Vec::new();
        for a in group {
            labels.push(a.label);
        }
        out.push(GroupedArrow { left, right, direction, labels });
    }
    out
}

#[derive(Debug, PartialEq, Eq)]
struct PlacedArrow<'a, T: ArrowLike<'a>> {
    arrow: T,
    level: usize,
    phantom: PhantomData<&'a T>,
}

#[derive(Debug, PartialEq, Eq)]
struct GroupedArrow<'a> {
    left: usize,
    right: usize,
    direction: Direction,
    labels: Vec<&'a str>,
}

#[derive(Debug, PartialEq, Eq)]
struct Arrow<'a> {
    left: usize,
    right: usize,
    direction: Direction,
    label: &'a str,
}

impl<'a> Arrow<'a> {
    fn new(from: usize, to: usize, label: &'a str) -> Self {
        if from < to {
            Arrow { left: from, right: to, direction: Direction::Right, label }
        } else if from == to {
            Arrow { left: from, right: to, direction: Direction::Spot, label }
        } else {
            Arrow { left: to, right: from, direction: Direction::Left, label }
        }
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone, Hash)]
enum Direction {
    Left,
    Right,
    Spot,
}

trait ArrowLike<'a> {
    fn left(&self) -> usize;
    fn right(&self) -> usize;
    fn direction(&self) -> Direction;
    fn label(&self) -> Cow<'a, str>;
}

impl<'a> ArrowLike<'a> for GroupedArrow<'a> {
    fn left(&self) -> usize {
        self.left
    }
    fn right(&self) -> usize {
        self.right
    }
    fn direction(&self) -> Direction {
        self.direction
    }
    fn label(&self) -> Cow<'static, str> {
        Cow::Owned(self.labels.join(", "))
    }
}

struct State<'a> {
    name: &'a str,
    accepting: bool,
    #[allow(dead_code)]
    initial: bool,
}

impl<'a> From<&'a DfaState> for State<'a> {
    fn from(s: &'a DfaState) -> Self {
        State { name: s.name(), accepting: s.is_accepting(), initial: s.is_initial() }
    }
}

impl<'a> From<&'a NfaState> for State<'a> {
    fn from(s: &'a NfaState) -> Self {
        State { name: s.name(), accepting: s.is_accepting(), initial: s.is_initial() }
    }
}
