//! Extended instruction sets the harness supplies to the reader.

use magmaflow::spv::raw::{MemoryBlock, MemoryBlockResult, ReadError};
use magmaflow::spv::{ExtInst, ExtInstSet, Op};
use magmaflow::spv::types::{OpId, ResultId};
use std::any::Any;
use std::fmt;

/// An instruction of a recording set: remembers exactly what it was given.
#[derive(Clone, Debug, PartialEq)]
pub struct RecInst {
    pub set: &'static str,
    /// which supplied set object read it
    pub tag: u32,
    pub number: u32,
    pub words: Vec<u32>,
    /// prints and names itself like the built-in set's instruction
    pub mimic: bool,
}

pub fn rec_text(set: &str, number: u32, words: &[u32]) -> String {
    let mut s = format!("{}!{}", set, number);
    for w in words {
        s.push_str(&format!(" {}", w));
    }
    s
}

impl RecInst {
    pub fn text(&self) -> String {
        if self.mimic {
            return crate::conv::glsl_text(self.number, &self.words);
        }
        rec_text(self.set, self.number, &self.words)
    }
}

impl fmt::Display for RecInst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.text())
    }
}
impl Op for RecInst {
    fn get_name(&self) -> &'static str {
        match (self.mimic, self.number) {
            (true, 13) => "Sin",
            (true, _) => "Cos",
            _ => "Rec",
        }
    }
}
impl ExtInst for RecInst {
    fn get_op(&self) -> &dyn Op {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        match other.as_any().downcast_ref::<RecInst>() {
            Some(o) => PartialEq::eq(self, o),
            None => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SetMode {
    /// consumes every operand word
    All,
    /// consumes exactly n words
    Fixed(u32),
    /// consumes one word and prints like the built-in set
    Mimic,
    /// refuses every instruction
    Refuse,
    /// fails with some other error of its own
    Fail(u32),
}

#[derive(Clone)]
pub struct RecSet {
    pub name: &'static str,
    pub tag: u32,
    pub mode: SetMode,
}

impl ExtInstSet for RecSet {
    fn get_name(&self) -> &'static str {
        self.name
    }
    fn read_instruction<'a, 'b>(&'b self, instruction: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let mut block = block;
        let mut words = Vec::new();
        match self.mode {
            SetMode::All => {
                while !block.end() {
                    let (b, w) = block.read_word()?;
                    words.push(w);
                    block = b;
                }
            }
            SetMode::Fixed(n) => {
                for _ in 0..n {
                    let (b, w) = block.read_word()?;
                    words.push(w);
                    block = b;
                }
            }
            SetMode::Mimic => {
                let (b, w) = block.read_word()?;
                words.push(w);
                block = b;
            }
            SetMode::Refuse => return Err(ReadError::UnknownExtInstOp(self.name, instruction)),
            SetMode::Fail(n) => return Err(fail_error(n, instruction)),
        }
        Ok((block, Box::new(RecInst { set: self.name, tag: self.tag, number: instruction, words, mimic: self.mode == SetMode::Mimic })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(self.clone())
    }
}

/// Errors a custom set may raise.
pub fn fail_error(n: u32, instruction: u32) -> ReadError {
    match n % 16 {
        0 => ReadError::InvalidString,
        1 => ReadError::UnknownDim(instruction),
        2 => ReadError::UnexpectedEndOfStream,
        3 => ReadError::UnknownInstSet(format!("from set {}", instruction)),
        4 => ReadError::UnimplementedOp("Custom"),
        // what the reader itself also raises, about something else
        5 => ReadError::UnknownExtInstOp("Another.set", instruction),
        6 => ReadError::UnknownExtInstOp("GLSL.std.450", instruction ^ 1),
        7 => ReadError::UnexpectedEndOfInstruction,
        8 => ReadError::UnknownOp(12, instruction as u16),
        9 => ReadError::WrongWordCountForOp,
        10 => ReadError::UnknownInstSetId(OpId(instruction)),
        11 => ReadError::DuplicateResultId(ResultId(instruction)),
        12 => ReadError::UnexpectedStreamAlignment,
        13 => ReadError::BadMagic,
        14 => ReadError::UnknownCapability(instruction),
        _ => ReadError::InstructionHadExcessData,
    }
}

/// Description of a set given to the reader.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SetDef {
    Glsl,
    Rec { name: &'static str, tag: u32, mode: SetMode },
}

impl SetDef {
    pub fn name(&self) -> &'static str {
        match self {
            SetDef::Glsl => "GLSL.std.450",
            SetDef::Rec { name, .. } => name,
        }
    }
    pub fn make(&self) -> Box<dyn ExtInstSet> {
        match self {
            SetDef::Glsl => Box::new(magmaflow::glsl450::InstSet),
            SetDef::Rec { name, tag, mode } => Box::new(RecSet { name, tag: *tag, mode: *mode }),
        }
    }
}

pub fn make_sets(d: &[SetDef]) -> Vec<Box<dyn ExtInstSet>> {
    d.iter().map(|s| s.make()).collect()
}

pub fn glsl_only() -> Vec<SetDef> {
    vec![SetDef::Glsl]
}
