use crate::cairo_run::CairoRunConfig;
use crate::felt::{Felt252, FE};
use crate::serde::deserialize_program::BuiltinName;
use crate::types::program::Program;
use crate::vm::errors::cairo_run_errors::CairoRunError;
use crate::vm::errors::vm_errors::VirtualMachineError;
use crate::vm::runners::cairo_runner::CairoRunner;
use crate::vm::trace::trace_entry::TraceEntry;
use crate::vm::vm_core::{BuiltinRunner, VirtualMachine};
use lambdaworks_math::unsigned_integer::element::U256;
use std::collections::HashMap;

pub(crate) type Addr = (usize, i64);
#[derive(Clone, Debug, PartialEq)]
pub(crate) enum V {
    I(FE),
    R(Addr),
}
pub(crate) fn err<T>(s: &str) -> Result<T, CairoRunError> {
    Err(CairoRunError::VirtualMachine(VirtualMachineError(s.into())))
}
impl From<&crate::types::relocatable::MaybeRelocatable> for V {
    fn from(m: &crate::types::relocatable::MaybeRelocatable) -> Self {
        use crate::types::relocatable::MaybeRelocatable::*;
        match m {
            RelocatableValue(r) => V::R((r.segment_index as usize, r.offset as i64)),
            Int(x) => V::I(x.0),
        }
    }
}
fn small(f: &FE) -> Result<i64, CairoRunError> {
    let r: U256 = f.representative();
    if r.bits_le() <= 62 {
        return Ok(r.limbs[3] as i64);
    }
    let n: U256 = (-f).representative();
    if n.bits_le() <= 62 {
        return Ok(-(n.limbs[3] as i64));
    }
    err("offset out of range")
}
fn add(a: &V, b: &V) -> Result<V, CairoRunError> {
    match (a, b) {
        (V::I(x), V::I(y)) => Ok(V::I(x + y)),
        (V::R(r), V::I(x)) | (V::I(x), V::R(r)) => Ok(V::R((r.0, r.1 + small(x)?))),
        _ => err("add of two relocatables"),
    }
}
fn sub(a: &V, b: &V) -> Result<V, CairoRunError> {
    match (a, b) {
        (V::I(x), V::I(y)) => Ok(V::I(x - y)),
        (V::R(r), V::I(x)) => Ok(V::R((r.0, r.1 - small(x)?))),
        (V::R(r), V::R(q)) if r.0 == q.0 => {
            let d = r.1 - q.1;
            Ok(V::I(if d < 0 { -FE::from((-d) as u64) } else { FE::from(d as u64) }))
        }
        _ => err("bad sub"),
    }
}
fn mul(a: &V, b: &V) -> Result<V, CairoRunError> {
    match (a, b) {
        (V::I(x), V::I(y)) => Ok(V::I(x * y)),
        _ => err("mul of relocatable"),
    }
}

pub(crate) fn parse(bytes: &[u8], entry: &str) -> Result<Program, CairoRunError> {
    let perr = |s: &str| CairoRunError::Content(s.to_string());
    let j: serde_json::Value =
        serde_json::from_slice(bytes).map_err(|e| CairoRunError::Content(e.to_string()))?;
    let data = j["data"]
        .as_array()
        .ok_or(perr("data"))?
        .iter()
        .map(|x| {
            x.as_str()
                .and_then(|s| FE::from_hex(s).ok())
                .map(Felt252)
                .ok_or(perr("data"))
        })
        .collect::<Result<Vec<_>, _>>()?;
    let mut builtins = vec![];
    for b in j["builtins"].as_array().cloned().unwrap_or_default() {
        builtins.push(match b.as_str() {
            Some("output") => BuiltinName::output,
            Some("range_check") => BuiltinName::range_check,
            Some(o) => return Err(perr(&format!("unsupported builtin {o}"))),
            None => return Err(perr("builtins")),
        });
    }
    let main = j["identifiers"][format!("__main__.{entry}")]["pc"]
        .as_u64()
        .ok_or(perr("entrypoint"))? as usize;
    Ok(Program { data, builtins, main, hints: vec![] })
}

/// The hints that Cairo 1 code without system calls carries.
#[derive(Clone, Debug)]
pub(crate) enum Hint {
    AllocSegment(bool, i64),
    TestLessThan(Operand, Operand, (bool, i64)),
    TestLessThanOrEqual(Operand, Operand, (bool, i64)),
}
#[derive(Clone, Debug)]
pub(crate) enum Operand {
    Deref(bool, i64),
    Immediate(FE),
}
fn cell(v: &serde_json::Value) -> Option<(bool, i64)> {
    Some((v["register"].as_str()? == "FP", v["offset"].as_i64()?))
}
impl Operand {
    fn parse(v: &serde_json::Value) -> Option<Self> {
        if let Some(h) = v["Immediate"].as_str() {
            return FE::from_hex(h).ok().map(Operand::Immediate);
        }
        let c = cell(&v["Deref"])?;
        Some(Operand::Deref(c.0, c.1))
    }
    fn get(&self, mem: &HashMap<Addr, V>, ap: Addr, fp: Addr) -> Result<FE, CairoRunError> {
        match self {
            Operand::Immediate(x) => Ok(*x),
            Operand::Deref(f, o) => {
                let b = if *f { fp } else { ap };
                match mem.get(&(b.0, b.1 + o)) {
                    Some(V::I(x)) => Ok(*x),
                    _ => err("hint operand"),
                }
            }
        }
    }
}
impl Hint {
    pub(crate) fn parse(v: &serde_json::Value) -> Option<Self> {
        let (k, b) = v.as_object()?.iter().next()?;
        let d = cell(&b["dst"])?;
        match k.as_str() {
            "AllocSegment" => Some(Hint::AllocSegment(d.0, d.1)),
            "TestLessThan" => Some(Hint::TestLessThan(Operand::parse(&b["lhs"])?, Operand::parse(&b["rhs"])?, d)),
            "TestLessThanOrEqual" => {
                Some(Hint::TestLessThanOrEqual(Operand::parse(&b["lhs"])?, Operand::parse(&b["rhs"])?, d))
            }
            _ => None,
        }
    }
    fn execute(&self, mem: &mut HashMap<Addr, V>, nseg: &mut usize, ap: Addr, fp: Addr) -> Result<(), CairoRunError> {
        let (dst, v) = match self {
            Hint::AllocSegment(f, o) => {
                *nseg += 1;
                ((*f, *o), V::R((*nseg - 1, 0)))
            }
            Hint::TestLessThan(l, r, d) => {
                let b = l.get(mem, ap, fp)?.representative() < r.get(mem, ap, fp)?.representative();
                (*d, V::I(FE::from(b as u64)))
            }
            Hint::TestLessThanOrEqual(l, r, d) => {
                let b = l.get(mem, ap, fp)?.representative() <= r.get(mem, ap, fp)?.representative();
                (*d, V::I(FE::from(b as u64)))
            }
        };
        let b = if dst.0 { fp } else { ap };
        put(mem, (b.0, b.1 + dst.1), v)
    }
}
/// Memory is write-once.
pub(crate) fn put(mem: &mut HashMap<Addr, V>, a: Addr, v: V) -> Result<(), CairoRunError> {
    match mem.get(&a) {
        Some(w) if *w != v => err("inconsistent memory"),
        _ => {
            mem.insert(a, v);
            Ok(())
        }
    }
}

/// Which builtins a layout has, of those the stand-in knows; None when there is no such layout.
pub(crate) fn layout_has(layout: &str) -> Option<bool> {
    crate::probe::LAYOUT.with(|l| *l.borrow_mut() = layout.to_string());
    match layout {
        "plain" => Some(false),
        "small" | "dex" | "recursive" | "starknet" | "starknet_with_keccak" | "recursive_large_output"
        | "all_cairo" | "all_solidity" | "dynamic" => Some(true),
        _ => None,
    }
}

pub(crate) fn run(
    bytes: &[u8],
    cfg: &CairoRunConfig,
) -> Result<(CairoRunner, VirtualMachine), CairoRunError> {
    let program = parse(bytes, cfg.entrypoint)?;
    if cfg.proof_mode {
        return err("proof mode is not supported");
    }
    match layout_has(cfg.layout) {
        None => return err("no such layout"),
        Some(false) if !program.builtins.is_empty() => return err("builtin not in the layout"),
        _ => {}
    }
    let mut vm = VirtualMachine::new(cfg.trace_enabled);
    let mut runner = CairoRunner { program, relocated_memory: vec![], program_base: None };
    runner.segments(&mut vm);
    let ret_fp = vm.add_memory_segment();
    let end = vm.add_memory_segment();
    let mut stack = vec![];
    for b in &runner.program.builtins {
        let r = vm.builtins.iter().find(|x| x.name == b.name()).unwrap();
        stack.push(V::R((r.base, 0)));
    }
    stack.push(V::R((ret_fp.segment_index as usize, 0)));
    stack.push(V::R((end.segment_index as usize, 0)));
    let entry = runner.program.main;
    runner.enter(&mut vm, entry, stack, end.segment_index as usize)?;
    if cfg.secure_run.unwrap_or(true) {
        runner.secure(&vm, None)?;
    }
    // as reading the return values does
    vm.measure()?;
    for k in 0..vm.builtins.len() {
        vm.builtins[k].stop = Some(vm.sizes[vm.builtins[k].base]);
    }
    runner.relocate_all(&mut vm, cfg.relocate_mem)?;
    Ok((runner, vm))
}

impl CairoRunner {
    /// Program, execution and builtin segments, in this order.
    pub(crate) fn segments(&mut self, vm: &mut VirtualMachine) {
        self.program_base = Some(vm.add_memory_segment());
        vm.add_memory_segment();
        // layout order: output, pedersen, range_check, ...
        for b in [BuiltinName::output, BuiltinName::range_check] {
            if self.program.builtins.contains(&b) {
                let s = vm.add_memory_segment();
                vm.builtins.push(BuiltinRunner { name: b.name(), base: s.segment_index as usize, stop: None });
            }
        }
    }
    pub(crate) fn enter(
        &mut self,
        vm: &mut VirtualMachine,
        entry: usize,
        stack: Vec<V>,
        end: usize,
    ) -> Result<(), CairoRunError> {
        for (i, d) in self.program.data.iter().enumerate() {
            put(&mut vm.mem, (0, i as i64), V::I(d.0))?;
        }
        let sp = stack.len() as i64;
        for (i, v) in stack.into_iter().enumerate() {
            put(&mut vm.mem, (1, i as i64), v)?;
        }
        let hints: HashMap<Addr, Vec<Hint>> =
            self.program.hints.iter().map(|(p, h)| ((0, *p as i64), h.clone())).collect();
        vm.trace = steps(&mut vm.mem, &mut vm.nseg, (0, entry as i64), (1, sp), (1, sp), (end, 0), &hints)?;
        vm.measure()?;
        // range-check builtin: every cell is an integer below 2^128
        for b in vm.builtins.iter().filter(|b| b.name == "range_check_builtin") {
            for (a, v) in vm.mem.iter().filter(|(a, _)| a.0 == b.base) {
                match v {
                    V::I(x) if x.representative().bits_le() <= 128 => {}
                    _ => return err("range check violated"),
                }
            }
        }
        Ok(())
    }
    /// The program segment holds the program and nothing else, builtin segments have no gaps.
    pub(crate) fn secure(&self, vm: &VirtualMachine, size: Option<usize>) -> Result<(), CairoRunError> {
        let n = size.unwrap_or(self.program.data.len()) as i64;
        if vm.mem.keys().any(|a| a.0 == 0 && a.1 >= n) {
            return err("access outside the program segment");
        }
        for b in &vm.builtins {
            if vm.mem.keys().filter(|a| a.0 == b.base).count() != vm.sizes[b.base] {
                return err("a builtin segment has gaps");
            }
        }
        Ok(())
    }
    pub(crate) fn relocate_all(&mut self, vm: &mut VirtualMachine, memory: bool) -> Result<(), CairoRunError> {
        vm.measure()?;
        let mut base = vec![1usize; vm.nseg + 1];
        for i in 0..vm.nseg {
            base[i + 1] = base[i] + vm.sizes[i];
        }
        let rel = |a: &Addr| (base[a.0] as i64 + a.1) as usize;
        if memory {
            let mut m = vec![None; base[vm.nseg]];
            for (a, v) in &vm.mem {
                m[rel(a)] = Some(match v {
                    V::I(x) => Felt252(*x),
                    V::R(r) => Felt252::from(rel(r)),
                });
            }
            self.relocated_memory = m;
        }
        if vm.trace_enabled {
            vm.relocated_trace = Some(
                vm.trace.iter().map(|(p, a, f)| TraceEntry { pc: rel(p), ap: rel(a), fp: rel(f) }).collect(),
            );
        }
        Ok(())
    }
}
impl VirtualMachine {
    pub(crate) fn measure(&mut self) -> Result<(), CairoRunError> {
        let mut sizes = vec![0usize; self.nseg];
        for (s, o) in self.mem.keys() {
            if *o < 0 {
                return err("negative offset");
            }
            sizes[*s] = sizes[*s].max(*o as usize + 1);
        }
        self.sizes = sizes;
        Ok(())
    }
}

#[allow(clippy::too_many_arguments)]
fn steps(
    mem: &mut HashMap<Addr, V>,
    nseg: &mut usize,
    mut pc: Addr,
    mut ap: Addr,
    mut fp: Addr,
    end: Addr,
    hints: &HashMap<Addr, Vec<Hint>>,
) -> Result<Vec<(Addr, Addr, Addr)>, CairoRunError> {
    let mut trace: Vec<(Addr, Addr, Addr)> = vec![];
    while pc != end {
        if trace.len() > 2_000_000 {
            return err("too many steps");
        }
        trace.push((pc, ap, fp));
        if let Some(hs) = hints.get(&pc) {
            for h in hs {
                h.execute(mem, nseg, ap, fp)?;
            }
        }
        let w = match mem.get(&pc) {
            Some(V::I(x)) => {
                let r = x.representative();
                if r.bits_le() > 63 {
                    return err("bad instruction");
                }
                r.limbs[3]
            }
            _ => return err("no instruction"),
        };
        let off = |k: u32| ((w >> (16 * k)) & 0xffff) as i64 - 0x8000;
        let f = (w >> 48) as u32;
        let bit = |k: u32| (f >> k) & 1;
        let dst_base = if bit(0) == 1 { fp } else { ap };
        let op0_base = if bit(1) == 1 { fp } else { ap };
        let op1_src = (f >> 2) & 7;
        let res_logic = (f >> 5) & 3;
        let pc_upd = (f >> 7) & 7;
        let ap_upd = (f >> 10) & 3;
        let opcode = (f >> 12) & 7;
        let size = if op1_src == 1 { 2 } else { 1 };
        let dst_a = (dst_base.0, dst_base.1 + off(0));
        let op0_a = (op0_base.0, op0_base.1 + off(1));
        let mut op0 = mem.get(&op0_a).cloned();
        let op1_a = match op1_src {
            0 => match &op0 {
                Some(V::R(r)) => (r.0, r.1 + off(2)),
                _ => return err("op1 base not relocatable"),
            },
            1 => (pc.0, pc.1 + off(2)),
            2 => (fp.0, fp.1 + off(2)),
            4 => (ap.0, ap.1 + off(2)),
            _ => return err("op1_src"),
        };
        let mut op1 = mem.get(&op1_a).cloned();
        let mut dst = mem.get(&dst_a).cloned();
        let next_pc = (pc.0, pc.1 + size);
        // deductions
        if opcode == 1 {
            // call
            if dst.is_none() {
                dst = Some(V::R(fp));
                mem.insert(dst_a, V::R(fp));
            }
            if op0.is_none() {
                op0 = Some(V::R(next_pc));
                mem.insert(op0_a, V::R(next_pc));
            }
        } else if opcode == 4 {
            if let Some(d) = dst.clone() {
                if op0.is_none() {
                    if let Some(o1) = &op1 {
                        let v = match res_logic {
                            1 => Some(sub(&d, o1)?),
                            2 => match (&d, o1) {
                                (V::I(x), V::I(y)) if *y != FE::zero() => Some(V::I(x / y)),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some(v) = v {
                            mem.insert(op0_a, v.clone());
                            op0 = Some(v);
                        }
                    }
                }
                if op1.is_none() {
                    let v = match (res_logic, &op0) {
                        (0, _) => Some(d.clone()),
                        (1, Some(o0)) => Some(sub(&d, o0)?),
                        (2, Some(V::I(y))) if *y != FE::zero() => match &d {
                            V::I(x) => Some(V::I(x / y)),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(v) = v {
                        mem.insert(op1_a, v.clone());
                        op1 = Some(v);
                    }
                }
            }
        }
        let res = match (pc_upd, res_logic) {
            (4, _) => None,
            (_, 0) => op1.clone(),
            (_, 1) => match (&op0, &op1) {
                (Some(a), Some(b)) => Some(add(a, b)?),
                _ => None,
            },
            (_, 2) => match (&op0, &op1) {
                (Some(a), Some(b)) => Some(mul(a, b)?),
                _ => None,
            },
            _ => return err("res_logic"),
        };
        if dst.is_none() && opcode == 4 {
            if let Some(r) = &res {
                mem.insert(dst_a, r.clone());
                dst = Some(r.clone());
            }
        }
        if dst.is_none() || op0.is_none() || op1.is_none() || (res.is_none() && pc_upd != 4) {
            return err("an operand is unknown");
        }
        let dst = dst.unwrap();
        if opcode == 4 && res.as_ref() != Some(&dst) {
            return err("assert_eq failed");
        }
        if opcode == 1 && (dst != V::R(fp) || op0 != Some(V::R(next_pc))) {
            return err("bad call frame");
        }
        let new_ap = match (ap_upd, opcode) {
            (0, 1) => (ap.0, ap.1 + 2),
            (0, _) => ap,
            (1, _) => match add(&V::R(ap), res.as_ref().unwrap())? {
                V::R(r) => r,
                _ => unreachable!(),
            },
            (2, _) => (ap.0, ap.1 + 1),
            _ => return err("ap_update"),
        };
        let new_fp = match opcode {
            1 => (ap.0, ap.1 + 2),
            2 => match &dst {
                V::R(r) => *r,
                V::I(x) => (fp.0, fp.1 + small(x)?),
            },
            _ => fp,
        };
        let new_pc = match pc_upd {
            0 => next_pc,
            1 => match res.as_ref().unwrap() {
                V::R(r) => *r,
                _ => return err("jmp abs"),
            },
            2 => match res.as_ref().unwrap() {
                V::I(x) => (pc.0, pc.1 + small(x)?),
                _ => return err("jmp rel"),
            },
            4 => {
                if dst == V::I(FE::zero()) {
                    next_pc
                } else {
                    match op1.as_ref().unwrap() {
                        V::I(x) => (pc.0, pc.1 + small(x)?),
                        _ => return err("jnz"),
                    }
                }
            }
            _ => return err("pc_update"),
        };
        pc = new_pc;
        ap = new_ap;
        fp = new_fp;
    }
    Ok(trace)
}
