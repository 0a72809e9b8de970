import os
N, D, RG = "dandy/src/nfa/mod.rs", "dandy/src/dfa/mod.rs", "dandy/src/regex/mod.rs"
NAMES = '''use dandy::{dfa::Dfa, nfa::Nfa, parser};
use std::collections::HashSet;
#[allow(dead_code)]
fn dfa(t: &str) -> Dfa { parser::dfa(t).unwrap().try_into().unwrap() }
#[allow(dead_code)]
fn nfa(t: &str) -> Nfa { parser::nfa(t).unwrap().try_into().unwrap() }
#[allow(dead_code)]
fn distinct<'a>(names: impl Iterator<Item = &'a str>) {
    let mut seen = HashSet::new();
    for n in names {
        assert!(seen.insert(n.to_string()), "two states are called {n}");
    }
}
fn main() {
BODY
}
'''
e = {}
for f in sorted(os.listdir(V + "/stress")):
    if f.startswith("edits"):
        exec(open(V + "/stress/" + f).read(), e)


def take(name):
    (n, c, f, p), = [x for x in e["EDITS"] if x[0].startswith(name + "-")]
    return [(q, a, b) for q, ps in (f if isinstance(f, list) else [(f, p)]) for a, b in ps]


def named(body):
    return NAMES.replace("BODY", body)


SEEDS = SEEDS + [
    dict(id="S36", property="C23", edits=take("B281"), needs="a union of NFAs with disjoint names of which one is s_new and another one the number of states",
         breaks="the new initial state gets the name of an existing state", main=named('''
    let a = nfa("a\\n-> * s_new {s_new}\\n 3 {s_new}\\n");
    let b = nfa("a\\n-> * x {}\\n");
    let u = a.union(b).unwrap();
    distinct(u.states().iter().map(|s| s.name()));
    let v: Nfa = parser::nfa(&u.to_table()).unwrap().try_into().unwrap();
    assert!(u.equivalent_to(&v));''')),
    dict(id="S37", property="C23", edits=take("B287"), needs="a product in which a lost side and a state called none give the same name",
         breaks="two states of a product share a name", main=named('''
    let a = nfa("a b\\n-> p {p q} {p}\\n * q {} {q}\\n");
    let b = nfa("a b\\n-> none {none} {}\\n * r {r} {none}\\n");
    let u = a.product_construction(&b, |_, _| true).unwrap();
    distinct(u.states().iter().map(|s| s.name()));''')),
    dict(id="S38", property="C23", edits=take("B284"), needs="a union of NFAs that share a name, none of them called s_new, but numbered states that stay",
         breaks="the name of the new initial state is chosen before the others are renamed", main=named('''
    let a = nfa("a\\n-> * s_new {s_new}\\n 0 {s_new}\\n");
    let b = nfa("a\\n-> * s_new {}\\n");
    let u = a.union(b).unwrap();
    distinct(u.states().iter().map(|s| s.name()));''')),
]
