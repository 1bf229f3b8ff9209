//! Reference decoder: bytes -> abstract module or the error magmaflow's API
//! defines for that fault (as the Debug text of ReadError).

use crate::conv::glsl_text;
use crate::extsets::*;
use crate::model::*;
use crate::spec::*;
use std::collections::HashMap;

pub struct Ref {
    pub result: Result<(Header, Vec<MInst>), String>,
    /// The input uses something the format leaves open (non-zero padding behind
    /// a string's terminator, a constant without value words): acceptance is
    /// then not prescribed, only the value if accepted.
    pub loose: bool,
}

struct Rd<'a> {
    w: &'a [u32],
    loose: bool,
}

impl<'a> Rd<'a> {
    fn word(&mut self) -> Result<u32, String> {
        if self.w.is_empty() {
            return Err("UnexpectedEndOfInstruction".into());
        }
        let x = self.w[0];
        self.w = &self.w[1..];
        Ok(x)
    }
    fn string(&mut self) -> Result<String, String> {
        let mut b = Vec::new();
        loop {
            let x = self.word()?.to_le_bytes();
            if let Some(p) = x.iter().position(|c| *c == 0) {
                b.extend_from_slice(&x[..p]);
                if x[p..].iter().any(|c| *c != 0) {
                    self.loose = true;
                }
                return String::from_utf8(b).map_err(|_| "InvalidString".to_string());
            }
            b.extend_from_slice(&x);
        }
    }
    fn kind(&mut self, k: &K, out: &mut Vec<MOp>) -> Result<(), String> {
        match k {
            K::Res => out.push(MOp::Res(self.word()?)),
            K::Id => out.push(MOp::Id(self.word()?)),
            K::Lit => out.push(MOp::Lit(self.word()?)),
            K::Str => out.push(MOp::Str(self.string()?)),
            K::En(t) => {
                let v = self.word()?;
                out.push(MOp::En(*t, v));
                match spec().en(*t, v) {
                    Some((_, ps)) => {
                        for p in ps {
                            self.kind(p, out)?;
                        }
                    }
                    None if ENUMS[*t].open => {}
                    None => return Err(format!("{}({})", ENUMS[*t].err, v)),
                }
            }
            K::Mask(t) => {
                let v = self.word()?;
                if v & !mask_known(*t) != 0 {
                    return Err(format!("{}({})", MASKS[*t].err, v));
                }
                let mut p = Vec::new();
                for _ in 0..mask_params(*t, v) {
                    p.push(self.word()?);
                }
                out.push(MOp::Mask(*t, v, p));
            }
            K::Weights => {
                out.push(MOp::Lit(self.word()?));
                out.push(MOp::Lit(self.word()?));
            }
            K::Opt(k) => {
                if !self.w.is_empty() {
                    self.kind(k, out)?;
                }
            }
            K::Ids => {
                while !self.w.is_empty() {
                    out.push(MOp::Id(self.word()?));
                }
            }
            K::Lits => {
                if self.w.is_empty() {
                    self.loose = true;
                }
                while !self.w.is_empty() {
                    out.push(MOp::Lit(self.word()?));
                }
            }
            K::Pairs => {
                while !self.w.is_empty() {
                    out.push(MOp::Id(self.word()?));
                    out.push(MOp::Id(self.word()?));
                }
            }
            K::Ext => unreachable!(),
        }
        Ok(())
    }
}

/// Decode operand words of one kind list; used for the C18 reader checks too.
pub fn decode_kinds(ks: &[K], words: &[u32]) -> (Result<Vec<MOp>, String>, usize, bool) {
    let mut r = Rd { w: words, loose: false };
    let mut out = Vec::new();
    for k in ks {
        if let Err(e) = r.kind(k, &mut out) {
            return (Err(e), r.w.len(), r.loose);
        }
    }
    (Ok(out), r.w.len(), r.loose)
}

fn instruction(opcode: u16, wc: u16, words: &[u32], sets: &[SetDef], bound: &mut HashMap<u32, SetDef>, loose: &mut bool) -> Result<MInst, String> {
    let op = match spec().op(opcode) {
        Some(o) => o,
        None => {
            if let Some((_, n)) = UNIMPLEMENTED.iter().find(|u| u.0 == opcode) {
                return Err(format!("UnimplementedOp({:?})", n));
            }
            return Err(format!("UnknownOp({}, {})", opcode, wc));
        }
    };
    let mut r = Rd { w: words, loose: false };
    let mut out = Vec::new();
    let res = (|| {
        for k in &op.kinds {
            if let K::Ext = k {
                let set_id = if let MOp::Id(i) = out[2] { i } else { unreachable!() };
                let n = r.word()?;
                let set = bound.get(&set_id).ok_or_else(|| format!("UnknownInstSetId(OpId({}))", set_id))?;
                match set {
                    SetDef::Glsl => {
                        if n != 13 && n != 14 {
                            return Err(format!("UnknownExtInstOp(\"GLSL.std.450\", {})", n));
                        }
                        let x = r.word()?;
                        out.push(MOp::Ext(n, vec![x], glsl_text(n, &[x])));
                    }
                    SetDef::Rec { name, mode, .. } => {
                        let k = match mode {
                            SetMode::All => r.w.len(),
                            SetMode::Fixed(k) => *k as usize,
                            SetMode::Mimic => 1,
                            SetMode::Refuse => return Err(format!("UnknownExtInstOp({:?}, {})", name, n)),
                            SetMode::Fail(f) => return Err(format!("{:?}", fail_error(*f, n))),
                        };
                        let mut ws = Vec::new();
                        for _ in 0..k {
                            ws.push(r.word()?);
                        }
                        let t = if *mode == SetMode::Mimic { glsl_text(n, &ws) } else { rec_text(name, n, &ws) };
                        out.push(MOp::Ext(n, ws, t));
                    }
                }
            } else {
                r.kind(k, &mut out)?;
            }
        }
        if opcode == 11 {
            if let (MOp::Res(id), MOp::Str(name)) = (&out[0], &out[1]) {
                match sets.iter().find(|s| s.name() == name) {
                    None => return Err(format!("UnknownInstSet({:?})", name)),
                    Some(s) => {
                        if bound.insert(*id, s.clone()).is_some() {
                            return Err(format!("DuplicateResultId(ResultId({}))", id));
                        }
                    }
                }
            }
        }
        if !r.w.is_empty() {
            return Err("InstructionHadExcessData".into());
        }
        Ok(())
    })();
    *loose |= r.loose;
    res.map(|_| MInst { opcode, ops: out })
}

pub fn decode(bytes: &[u8], sets: &[SetDef]) -> Ref {
    let mut loose = false;
    let result = decode_inner(bytes, sets, &mut loose);
    Ref { result, loose }
}

fn decode_inner(bytes: &[u8], sets: &[SetDef], loose: &mut bool) -> Result<(Header, Vec<MInst>), String> {
    let mut pos = 0;
    let mut le = true;
    let mut next = |le: bool| -> Result<u32, String> {
        let rest = &bytes[pos..];
        if rest.len() >= 4 {
            let b = [rest[0], rest[1], rest[2], rest[3]];
            pos += 4;
            Ok(if le { u32::from_le_bytes(b) } else { u32::from_be_bytes(b) })
        } else if rest.is_empty() {
            Err("END".into())
        } else {
            Err("UnexpectedStreamAlignment".into())
        }
    };
    let eos = |e: String| if e == "END" { "UnexpectedEndOfStream".to_string() } else { e };
    let magic = next(true).map_err(eos)?;
    if magic == MAGIC.swap_bytes() {
        le = false;
    } else if magic != MAGIC {
        return Err("BadMagic".into());
    }
    let version = next(le).map_err(eos)?;
    if version != 0x0001_0000 {
        let b = version.to_be_bytes();
        return Err(format!("UnknownVersionBytes({}, {}, {}, {})", b[0], b[1], b[2], b[3]));
    }
    let generator = next(le).map_err(eos)?;
    let bound_w = next(le).map_err(eos)?;
    let schema = next(le).map_err(eos)?;
    if schema != 0 {
        return Err("UnknownReservedSchema".into());
    }
    let header = Header { magic: MAGIC, version, generator, bound: bound_w, schema };
    let mut insts = Vec::new();
    let mut bound = HashMap::new();
    loop {
        let head = match next(le) {
            Ok(h) => h,
            Err(e) if e == "END" => return Ok((header, insts)),
            Err(e) => return Err(e),
        };
        let wc = (head >> 16) as u16;
        let opcode = head as u16;
        if wc == 0 {
            return Err("WrongWordCountForOp".into());
        }
        let mut words = Vec::with_capacity(wc as usize);
        for _ in 1..wc {
            words.push(next(le).map_err(eos)?);
        }
        insts.push(instruction(opcode, wc, &words, sets, &mut bound, loose)?);
    }
}

/// Compare magmaflow's result on `bytes` with the reference.
/// `exact`: the error must be the predicted one, not just any error.
pub fn compare(bytes: &[u8], sets: &[SetDef], exact: bool) -> Result<CompareOut, String> {
    let r = decode(bytes, sets);
    let got = crate::engine::sut(|| magmaflow::spv::raw::read_module(bytes, make_sets(sets)))?;
    compare_with(&r, &got, exact).map(|accepted| CompareOut { accepted, reference: r })
}

pub struct CompareOut {
    pub accepted: bool,
    pub reference: Ref,
}

pub fn compare_with(r: &Ref, got: &Result<magmaflow::spv::raw::RawModule, magmaflow::spv::raw::ReadError>, exact: bool) -> Result<bool, String> {
    match (&r.result, got) {
        (Ok((h, insts)), Ok(m)) => {
            compare_module(h, insts, m)?;
            Ok(true)
        }
        (Err(e), Err(g)) => {
            let g = format!("{:?}", g);
            if exact && !r.loose && *e != g {
                return Err(format!("expected error {}, got {}", e, g));
            }
            Ok(false)
        }
        (Ok((_, insts)), Err(g)) => {
            if r.loose {
                return Ok(false);
            }
            Err(format!("well-formed module of {} instructions refused with {:?}", insts.len(), g))
        }
        (Err(e), Ok(m)) => Err(format!("malformed module accepted ({} instructions) instead of error {}", m.instructions.len(), e)),
    }
}

pub fn tool_id(t: &magmaflow::spv::types::Tool) -> u32 {
    use magmaflow::spv::types::Tool::*;
    match t {
        KhronosReserved => 0,
        LunarG => 1,
        Valve => 2,
        Codeplay => 3,
        Nvidia => 4,
        Arm => 5,
        KhronosLLvmTranslator => 6,
        KhronosAssembler => 7,
        KhronosGlslang => 8,
        Qualcomm => 9,
        Amd => 10,
        Intel => 11,
        Other(n) if *n >= 12 => *n as u32,
        #[allow(unreachable_patterns)]
        _ => crate::conv::BAD,
    }
}

pub fn compare_header(h: &Header, m: &magmaflow::spv::raw::RawModule) -> Result<(), String> {
    if (m.version.0, m.version.1) != (1, 0) {
        return Err(format!("version reported as {:?}", m.version));
    }
    if tool_id(&m.generator.tool) != h.generator >> 16 {
        return Err(format!("generator tool {:#x} reported as {:?}", h.generator >> 16, m.generator.tool));
    }
    if m.generator.version as u32 != h.generator & 0xFFFF {
        return Err(format!("generator version {} reported as {}", h.generator & 0xFFFF, m.generator.version));
    }
    if m.bound != h.bound {
        return Err(format!("bound {} reported as {}", h.bound, m.bound));
    }
    Ok(())
}

pub fn compare_module(h: &Header, insts: &[MInst], m: &magmaflow::spv::raw::RawModule) -> Result<(), String> {
    compare_header(h, m)?;
    if m.instructions.len() != insts.len() {
        return Err(format!("{} instructions encoded, {} decoded", insts.len(), m.instructions.len()));
    }
    for (i, (e, g)) in insts.iter().zip(&m.instructions).enumerate() {
        let g = crate::conv::core(g);
        if *e != g {
            return Err(format!("instruction {}: encoded {:?}, decoded {:?}", i, e, g));
        }
    }
    Ok(())
}
