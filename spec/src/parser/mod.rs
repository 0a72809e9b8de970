use crate::regex::Regex;
use nom::{combinator::all_consuming, error::Error, Finish};

pub mod fa;
pub mod regex;

pub struct ParsedNfa<'a> {
    pub(crate) head: Vec<NfaAlphabetEntry<'a>>,
    pub(crate) states: Vec<ParsedNfaState<'a>>,
}

#[derive(Clone)]
pub enum NfaAlphabetEntry<'a> {
    Element(&'a str),
    Eps,
}

pub struct ParsedNfaState<'a> {
    pub(crate) name: &'a str,
    pub(crate) initial: bool,
    pub(crate) accepting: bool,
    pub(crate) transitions: Vec<Vec<&'a str>>,
}

pub struct ParsedDfa<'a> {
    pub(crate) head: Vec<&'a str>,
    pub(crate) states: Vec<ParsedDfaState<'a>>,
}

pub struct ParsedDfaState<'a> {
    pub(crate) name: &'a str,
    pub(crate) initial: bool,
    pub(crate) accepting: bool,
    pub(crate) transitions: Vec<&'a str>,
}

pub fn dfa(input: &str) -> Result<ParsedDfa, Error<&str>> {
    all_consuming(fa::full_dfa)(input).finish().map(|(_, dfa)| dfa)
}

pub fn nfa(input: &str) -> Result<ParsedNfa, Error<&str>> {
    all_consuming(fa::full_nfa)(input).finish().map(|(_, nfa)| nfa)
}

pub fn regex(input: &str) -> Result<Regex, Error<&str>> {
    all_consuming(regex::full_regex)(input).finish().map(|(_, regex)| regex)
}
