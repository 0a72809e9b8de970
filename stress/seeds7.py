# drawings
SEEDS = globals().get("SEEDS", [])
DRAWN = '''
use dandy::{dfa::Dfa, nfa::Nfa, parser};
use dandy_draw::{pos2::Pos2, DrawOptions, Drawer};
#[allow(dead_code)]
#[derive(Debug, Clone, PartialEq)]
enum Shape { Circle(f32, f32, f32), Text(f32, f32, String), Line(f32, f32, f32, f32) }
use Shape::*;
struct Log(Vec<Shape>);
impl Drawer for Log {
    fn start_drawing(&mut self) {}
    fn finish_drawing(&mut self) {}
    fn draw_circle(&mut self, p: Pos2, r: f32, _: f32) { self.0.push(Circle(p.x, p.y, r)) }
    fn draw_centered_text(&mut self, p: Pos2, t: &str) { self.0.push(Text(p.x, p.y, t.to_string())) }
    fn draw_rect(&mut self, _: Pos2, _: Pos2) {}
    fn draw_line(&mut self, a: Pos2, b: Pos2, _: f32) { self.0.push(Line(a.x, a.y, b.x, b.y)) }
}
fn plain() -> DrawOptions { DrawOptions::default().with_end_arrow(false).with_middle_arrow(false) }
#[allow(dead_code)]
fn dfa(t: &str, o: DrawOptions) -> Vec<Shape> {
    let d: Dfa = parser::dfa(t).unwrap().try_into().unwrap();
    let mut l = Log(vec![]);
    dandy_draw::draw_dfa_with_opts(&d, &mut l, o);
    l.0
}
#[allow(dead_code)]
fn nfa(t: &str, o: DrawOptions) -> Vec<Shape> {
    let d: Nfa = parser::nfa(t).unwrap().try_into().unwrap();
    let mut l = Log(vec![]);
    dandy_draw::draw_nfa_with_opts(&d, &mut l, o);
    l.0
}
/// the horizontal parts of the arrows (height, from, to), without the marker of the first state
#[allow(dead_code)]
fn bars(s: &[Shape]) -> Vec<(f32, f32, f32)> {
    s.iter().filter_map(|s| match *s { Line(a, y, b, z) if y == z && a > 0.0 => Some((y, a.min(b), a.max(b))), _ => None }).collect()
}
#[allow(dead_code)]
fn labels(s: &[Shape]) -> Vec<String> {
    s.iter().filter_map(|s| match s { Text(_, _, t) => Some(t.clone()), _ => None }).collect()
}
fn main() {
BODY
}
'''


def drawn(body):
    return DRAWN.replace("BODY", body)


SEEDS = SEEDS + [
    dict(id="S39", property="C24", edits=[("dandy-draw/src/lib.rs", '''                if arrow.left() == arrow.right() {
                    end_of_last = arrow.right() + 1;''', '''                if arrow.left() == arrow.right() && end_of_last == arrow.left() {
                    end_of_last = arrow.right() + 1;''')], deps=["dandy", "dandy-draw"],
         needs="a self loop that is placed after an arrow on the same level that ends before its state, and an arrow from that state",
         breaks="the self loop and the arrow are on one level and leave at the same point", main=drawn('''
    let s = dfa("a b\\n-> p q p\\n q p p\\n r r s\\n s s s\\n", plain());
    let b = bars(&s);
    for x in b.iter().filter(|x| x.2 - x.1 == 30.0) {
        assert!(b.iter().all(|y| x.0 != y.0 || x.2 != y.1), "an arrow starts where the self loop {x:?} leaves");
    }''')),
    dict(id="S40", property="C24", edits=[("dandy-draw/src/lib.rs", '''            map.entry((arrow.left, arrow.right, arrow.direction))
                .or_default()
                .push(arrow);''', '''            let labels = map
                .entry((arrow.left, arrow.right, arrow.direction))
                .or_default();
            if labels.last().map_or(true, |last| last.label <= arrow.label) {
                labels.push(arrow);
            }''')], deps=["dandy", "dandy-draw"],
         needs="two symbols between the same states whose order in the alphabet is not the order of their texts",
         breaks="the second symbol is missing on the arrow", main=drawn('''
    let s = dfa("b a\\n-> p q q\\n q q q\\n", plain());
    assert_eq!(labels(&s).iter().filter(|l| *l == "b, a").count(), 2, "{:?}", labels(&s));''')),
    dict(id="S41", property="C24", edits=[("dandy-draw/src/lib.rs", '''                .chain(
                    state
                        .epsilon_transitions()
                        .iter()
                        .map(''', '''                .chain(
                    state
                        .epsilon_transitions()
                        .iter()
                        .filter(move |&&to| !state.transitions().iter().all(|tos| tos.contains(&to)))
                        .map(''')], deps=["dandy", "dandy-draw"],
         needs="an epsilon move between states that every symbol connects too",
         breaks="the epsilon move is not drawn", main=drawn('''
    let s = nfa("ε a b\\n-> p {q} {q} {q}\\n q {} {} {}\\n", plain());
    assert!(labels(&s).contains(&"a, b, ε".to_string()), "{:?}", labels(&s));''')),
    dict(id="S42", property="C24", edits=[("dandy-draw/src/lib.rs", '''            radius * self.scale.x,''', '''            radius * self.scale.x.max(self.scale.y),''')], deps=["dandy", "dandy-draw"],
         needs="different scales of the axes, the vertical one greater",
         breaks="circles are scaled vertically", main=drawn('''
    let s = dfa("a\\n-> p p\\n", DrawOptions::default().with_x_scale(1.0).with_y_scale(2.0));
    assert!(s.iter().any(|x| matches!(x, Circle(_, _, r) if *r == 30.0)), "{s:?}");''')),
]
