//! Reference: what each command reads, computes and prints.
#![allow(dead_code, unused_variables, clippy::all)]
mod automata;
mod binary_op;
mod enumerate;
mod equivalence;
mod test_files;

use automata::AutomataType;
use std::fmt;
use std::fs::File;
use std::io::Write;
use std::path::{Path, PathBuf};
use thiserror::Error;

struct DandyArgs {
    out_file: Option<PathBuf>,
    no_log: bool,
    command: Operation,
}

enum Operation {
    Equivalence(EquivalenceArgs),
    Union(BinaryOpArgs),
    Intersection(BinaryOpArgs),
    Difference(BinaryOpArgs),
    SymmetricDifference(BinaryOpArgs),
    EnumerateRegex(EnumerateRegexArgs),
    EnumerateFile(EnumerateFileArgs),
    TestFile(TestFileArgs),
}

struct EnumerateRegexArgs {
    amount: usize,
    regex: String,
}

struct EnumerateFileArgs {
    r#type: AutomataType,
    amount: usize,
    file: PathBuf,
}

struct TestFileArgs {
    r#type: AutomataType,
    test_type: TestType,
    automata: PathBuf,
    files: Vec<PathBuf>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum TestType {
    Lines,
    Files,
}

impl Operation {
    fn binary_operation(&self) -> Option<BinaryOperation> {
        match self {
            Operation::Union(_) => Some(BinaryOperation::Union),
            Operation::Intersection(_) => Some(BinaryOperation::Intersection),
            Operation::Difference(_) => Some(BinaryOperation::Difference),
            Operation::SymmetricDifference(_) => Some(BinaryOperation::SymmetricDifference),
            _ => None,
        }
    }
}

#[derive(Debug, Copy, Clone)]
pub enum BinaryOperation {
    Union,
    Intersection,
    Difference,
    SymmetricDifference,
}

impl BinaryOperation {
    fn as_str(&self) -> &'static str {
        match self {
            BinaryOperation::Union => "Union",
            BinaryOperation::Intersection => "Intersection",
            BinaryOperation::Difference => "Difference",
            BinaryOperation::SymmetricDifference => "Symmetric difference",
        }
    }

    fn as_str_lower(&self) -> &'static str {
        match self {
            BinaryOperation::Union => "union",
            BinaryOperation::Intersection => "intersection",
            BinaryOperation::Difference => "difference",
            BinaryOperation::SymmetricDifference => "symmetric difference",
        }
    }
}

impl fmt::Display for BinaryOperation {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.as_str())
    }
}

struct EquivalenceArgs {
    in_type: Option<AutomataType>,
    r#type: AutomataType,
    minimized: bool,
    r#bool: bool,
    path_length: Option<usize>,
    automata: PathBuf,
    files: Vec<PathBuf>,
}

struct BinaryOpArgs {
    r#type: AutomataType,
    second_type: Option<AutomataType>,
    compared_type: AutomataType,
    minimized: bool,
    enumerate: Option<usize>,
    first: PathBuf,
    second: PathBuf,
    compare_against: Option<PathBuf>,
}

#[derive(Debug, Error)]
enum Error {
    #[error("Error in Equivalence: {0}")]
    Equivalence(String),
    #[error("Error in {0}: {1}")]
    Binary(BinaryOperation, String),
    #[error("Error in testing file: {0}")]
    TestFile(String),
    #[error("Error in enumerating regex: {0}")]
    EnumerateRegex(String),
    #[error("Error in enumerating file: {0}")]
    EnumerateFile(String),
}

// the last n components of a path; no path for n = 0
pub fn last_n_components(path: &Path, n: Option<usize>) -> Option<String> {
    match n {
        None => Some(path.display().to_string()),
        Some(0) => None,
        Some(n) => {
            let mut last = path.components().rev().take(n).collect::<Vec<_>>();
            last.reverse();
            Some(last.into_iter().collect::<PathBuf>().display().to_string())
        }
    }
}

// each result line goes to the standard output, and to the output file if there is one
fn run(args: DandyArgs) {
    let mut out_file = match &args.out_file {
        None => None,
        Some(path) => match File::create(path) {
            Ok(f) => Some(f),
            Err(e) => {
                eprintln!("Error creating output file {e}");
                eprintln!("Execution will continue but no data will be written to file");
                None
            }
        },
    };
    let mut sink = |s: &str| {
        println!("{s}");
        match out_file.as_mut() {
            Some(f) => writeln!(f, "{s}").unwrap(),
            None => {}
        }
    };
    let op = args.command.binary_operation();
    let result = match &args.command {
        Operation::Equivalence(a) => equivalence::equivalence(&args, a, &mut sink).map_err(Error::Equivalence),
        Operation::Union(a) => binary_op::binary_op(&args, a, BinaryOperation::Union, &mut sink)
            .map_err(|e| Error::Binary(BinaryOperation::Union, e)),
        Operation::Intersection(a) => binary_op::binary_op(&args, a, BinaryOperation::Intersection, &mut sink)
            .map_err(|e| Error::Binary(BinaryOperation::Intersection, e)),
        Operation::Difference(a) => binary_op::binary_op(&args, a, BinaryOperation::Difference, &mut sink)
            .map_err(|e| Error::Binary(BinaryOperation::Difference, e)),
        Operation::SymmetricDifference(a) => {
            binary_op::binary_op(&args, a, BinaryOperation::SymmetricDifference, &mut sink)
                .map_err(|e| Error::Binary(BinaryOperation::SymmetricDifference, e))
        }
        Operation::TestFile(a) => test_files::test_files(&args, a, &mut sink).map_err(Error::TestFile),
        Operation::EnumerateRegex(a) => enumerate::enumerate_regex(&args, a, &mut sink).map_err(Error::EnumerateRegex),
        Operation::EnumerateFile(a) => enumerate::enumerate_file(&args, a, &mut sink).map_err(Error::EnumerateFile),
    };
    match result {
        Ok(()) => {}
        Err(e) => eprintln!("{e}"),
    }
}

fn main() {}
