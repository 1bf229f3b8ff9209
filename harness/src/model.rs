//! Abstract instructions: what a module *means*, independent of the code under
//! test.  Encoding to words and the reference disassembly text live here.

use crate::spec::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MOp {
    Res(u32),
    Id(u32),
    Lit(u32),
    Str(String),
    En(usize, u32),
    /// table, bits, parameters of the set bits in bit order
    Mask(usize, u32, Vec<u32>),
    /// extended instruction: number, operand words, text as the set prints it
    Ext(u32, Vec<u32>, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MInst {
    pub opcode: u16,
    pub ops: Vec<MOp>,
}

pub fn string_words(s: &str) -> Vec<u32> {
    let mut b = s.as_bytes().to_vec();
    b.push(0);
    while b.len() % 4 != 0 {
        b.push(0);
    }
    b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}

pub fn op_words(op: &MOp, out: &mut Vec<u32>) {
    match op {
        MOp::Res(v) | MOp::Id(v) | MOp::Lit(v) | MOp::En(_, v) => out.push(*v),
        MOp::Str(s) => out.extend(string_words(s)),
        MOp::Mask(_, b, p) => {
            out.push(*b);
            out.extend_from_slice(p);
        }
        MOp::Ext(n, w, _) => {
            out.push(*n);
            out.extend_from_slice(w);
        }
    }
}

impl MInst {
    pub fn new(opcode: u16, ops: Vec<MOp>) -> MInst {
        MInst { opcode, ops }
    }
    pub fn operand_words(&self) -> Vec<u32> {
        let mut w = Vec::new();
        for o in &self.ops {
            op_words(o, &mut w);
        }
        w
    }
    /// Words of the instruction including its head word.
    pub fn words(&self) -> Vec<u32> {
        let mut w = vec![0];
        for o in &self.ops {
            op_words(o, &mut w);
        }
        assert!(w.len() <= 0xFFFF, "instruction too long: {} words", w.len());
        w[0] = ((w.len() as u32) << 16) | self.opcode as u32;
        w
    }
    pub fn word_len(&self) -> usize {
        1 + self.operand_words().len()
    }
    pub fn text(&self) -> String {
        let name = spec().op(self.opcode).or_else(|| spec().built(self.opcode)).map(|o| o.name).unwrap_or("?");
        let mut s = match self.ops.iter().find_map(|o| if let MOp::Res(r) = o { Some(*r) } else { None }) {
            Some(r) => format!("{:>12} = {}", format!("%{}", r), name),
            None => format!("{:15}{}", "", name),
        };
        for o in &self.ops {
            if let MOp::Res(_) = o {
                continue;
            }
            s.push(' ');
            s.push_str(&op_text(o));
        }
        s
    }
}

pub fn quote(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            r.push('\\');
        }
        r.push(c);
    }
    r.push('"');
    r
}

pub fn mask_text(t: usize, bits: u32, params: &[u32]) -> String {
    let mut parts = Vec::new();
    let mut p = params.iter();
    for &(b, n, np) in MASKS[t].bits {
        if bits & b != 0 {
            if np == 1 {
                parts.push(format!("{}({})", n, p.next().copied().unwrap_or(u32::MAX)));
            } else {
                parts.push(n.to_string());
            }
        }
    }
    if parts.is_empty() {
        "None".to_string()
    } else {
        parts.join(" | ")
    }
}

pub fn op_text(o: &MOp) -> String {
    match o {
        MOp::Res(v) | MOp::Id(v) => format!("%{}", v),
        MOp::Lit(v) => format!("{}", v),
        MOp::Str(s) => quote(s),
        MOp::En(t, v) => match spec().en(*t, *v) {
            Some((n, _)) => n.to_string(),
            None => format!("Unknown({})", v),
        },
        MOp::Mask(t, b, p) => mask_text(*t, *b, p),
        MOp::Ext(_, _, t) => t.clone(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Header {
    pub magic: u32,
    pub version: u32,
    pub generator: u32,
    pub bound: u32,
    pub schema: u32,
}

pub const MAGIC: u32 = 0x0723_0203;

impl Header {
    pub fn plain() -> Header {
        Header { magic: MAGIC, version: 0x0001_0000, generator: 0x0008_0001, bound: 100, schema: 0 }
    }
    pub fn words(&self) -> Vec<u32> {
        vec![self.magic, self.version, self.generator, self.bound, self.schema]
    }
}

pub fn tool_name(id: u16) -> &'static str {
    match id {
        0 => "Khronos",
        1 => "LunarG",
        2 => "Valve",
        3 => "Codeplay",
        4 => "NVIDIA",
        5 => "ARM",
        6 => "Khronos LLVM/SPIR-V Translator",
        7 => "Khronos SPIR-V Tools Assembler",
        8 => "Khronos Glslang Reference Front End",
        9 => "Qualcomm",
        10 => "AMD",
        11 => "Intel",
        _ => "Unknown",
    }
}

pub fn module_text(h: &Header, insts: &[MInst]) -> String {
    let mut s = format!(
        "; SPIR-V\n; Version: 1.0\n; Generator: {}; {}\n; Bound: {}\n; Schema: 0\n",
        tool_name((h.generator >> 16) as u16),
        h.generator & 0xFFFF,
        h.bound
    );
    for i in insts {
        s.push_str(&i.text());
        s.push('\n');
    }
    s
}

pub fn module_words(h: &Header, insts: &[MInst]) -> Vec<u32> {
    let mut w = h.words();
    for i in insts {
        w.extend(i.words());
    }
    w
}

pub fn le_bytes(w: &[u32]) -> Vec<u8> {
    let mut b = Vec::with_capacity(w.len() * 4);
    for x in w {
        b.extend_from_slice(&x.to_le_bytes());
    }
    b
}
pub fn be_bytes(w: &[u32]) -> Vec<u8> {
    let mut b = Vec::with_capacity(w.len() * 4);
    for x in w {
        b.extend_from_slice(&x.to_be_bytes());
    }
    b
}
