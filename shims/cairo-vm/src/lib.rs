//! Offline stand-in for `cairo-vm` 0.6: a small hint-less Cairo VM behind the part of the API
//! that `src/cairo/runner` uses.  Not code under test.
#![allow(clippy::all, dead_code, unused_variables)]

pub mod vmcore;

/// What the harness observes: the layout a run was asked for.
pub mod probe {
    thread_local! {
        pub static LAYOUT: std::cell::RefCell<String> = Default::default();
    }
}

pub mod felt {
    use lambdaworks_math::field::element::FieldElement;
    use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
    pub(crate) type FE = FieldElement<Stark252PrimeField>;

    #[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
    pub struct Felt252(pub(crate) FE);
    impl Felt252 {
        pub fn new<T: Into<Felt252>>(v: T) -> Self {
            v.into()
        }
        /// Big-endian bytes of any length, reduced modulo the prime.
        pub fn from_bytes_be(b: &[u8]) -> Self {
            let base = FE::from(256);
            Felt252(b.iter().fold(FE::zero(), |a, x| a * base + FE::from(*x as u64)))
        }
        pub fn from_bytes_le(b: &[u8]) -> Self {
            Self::from_bytes_be(&b.iter().rev().copied().collect::<Vec<_>>())
        }
        pub fn to_le_bytes(&self) -> [u8; 32] {
            self.0.to_bytes_le().try_into().unwrap()
        }
        pub fn to_be_bytes(&self) -> [u8; 32] {
            self.0.to_bytes_be().try_into().unwrap()
        }
        pub fn to_bytes_be(&self) -> Vec<u8> {
            let v = self.to_be_bytes();
            let n = v.iter().position(|x| *x != 0).unwrap_or(31);
            v[n..].to_vec()
        }
        pub fn to_bytes_le(&self) -> Vec<u8> {
            self.to_bytes_be().into_iter().rev().collect()
        }
        pub fn to_le_digits(&self) -> [u64; 4] {
            let v = self.to_le_bytes();
            [0, 1, 2, 3].map(|i| u64::from_le_bytes(v[8 * i..8 * i + 8].try_into().unwrap()))
        }
        pub fn iter_u64_digits(&self) -> impl Iterator<Item = u64> {
            let mut v = self.to_le_digits().to_vec();
            while v.last() == Some(&0) {
                v.pop();
            }
            v.into_iter()
        }
        pub fn is_negative(&self) -> bool {
            false
        }
        pub fn bits(&self) -> u64 {
            self.0.representative().bits_le() as u64
        }
        pub fn pow(&self, e: u32) -> Self {
            Felt252(self.0.pow(e))
        }
        pub fn parse_bytes(buf: &[u8], radix: u32) -> Option<Self> {
            if buf.is_empty() {
                return None;
            }
            let base = FE::from(radix as u64);
            let mut a = FE::zero();
            for c in buf {
                a = a * base + FE::from((*c as char).to_digit(radix)? as u64);
            }
            Some(Felt252(a))
        }
        pub fn to_str_radix(&self, radix: u32) -> String {
            let mut r = self.0.representative();
            let d = radix.into();
            let mut out = vec![];
            loop {
                let (q, m) = r.div_rem(&d);
                out.push(std::char::from_digit(u64::from(m) as u32, radix).unwrap());
                r = q;
                if r == 0u64.into() {
                    break;
                }
            }
            out.iter().rev().collect()
        }
    }
    impl std::fmt::Display for Felt252 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.to_str_radix(10))
        }
    }
    impl std::fmt::Debug for Felt252 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.to_str_radix(10))
        }
    }
    impl PartialOrd for Felt252 {
        fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for Felt252 {
        fn cmp(&self, o: &Self) -> std::cmp::Ordering {
            self.0.representative().cmp(&o.0.representative())
        }
    }
    macro_rules! from_unsigned {
        ($($t:ty),*) => { $(impl From<$t> for Felt252 {
            fn from(v: $t) -> Self {
                Felt252(FE::from(v as u64))
            }
        })* };
    }
    from_unsigned!(u8, u16, u32, u64, usize, bool);
    macro_rules! from_signed {
        ($($t:ty),*) => { $(impl From<$t> for Felt252 {
            fn from(v: $t) -> Self {
                let m = FE::from(v.unsigned_abs() as u64);
                Felt252(if v < 0 { -m } else { m })
            }
        })* };
    }
    from_signed!(i8, i16, i32, i64, isize);
    impl From<u128> for Felt252 {
        fn from(v: u128) -> Self {
            Self::from_bytes_be(&v.to_be_bytes())
        }
    }
    impl From<&Felt252> for Felt252 {
        fn from(v: &Felt252) -> Self {
            *v
        }
    }
    macro_rules! felt_op {
        ($($tr:ident $f:ident $tra:ident $fa:ident;)*) => { $(
            impl std::ops::$tr for Felt252 { type Output = Self; fn $f(self, o: Self) -> Self { Felt252(std::ops::$tr::$f(self.0, o.0)) } }
            impl std::ops::$tr<&Felt252> for Felt252 { type Output = Self; fn $f(self, o: &Self) -> Self { Felt252(std::ops::$tr::$f(self.0, o.0)) } }
            impl std::ops::$tr<Felt252> for &Felt252 { type Output = Felt252; fn $f(self, o: Felt252) -> Felt252 { Felt252(std::ops::$tr::$f(self.0, o.0)) } }
            impl std::ops::$tr for &Felt252 { type Output = Felt252; fn $f(self, o: &Felt252) -> Felt252 { Felt252(std::ops::$tr::$f(self.0, o.0)) } }
            impl std::ops::$tra for Felt252 { fn $fa(&mut self, o: Self) { self.0 = std::ops::$tr::$f(self.0, o.0) } }
        )* };
    }
    felt_op! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; }
    impl std::ops::Neg for Felt252 {
        type Output = Self;
        fn neg(self) -> Self {
            Felt252(-self.0)
        }
    }
    impl num_traits::Zero for Felt252 {
        fn zero() -> Self {
            Felt252(FE::zero())
        }
        fn is_zero(&self) -> bool {
            self.0 == FE::zero()
        }
    }
    impl num_traits::One for Felt252 {
        fn one() -> Self {
            Felt252(FE::one())
        }
    }
    impl num_traits::ToPrimitive for Felt252 {
        fn to_u64(&self) -> Option<u64> {
            (self.bits() <= 64).then(|| self.to_le_digits()[0])
        }
        fn to_i64(&self) -> Option<i64> {
            self.to_u64().and_then(|x| i64::try_from(x).ok())
        }
        fn to_u128(&self) -> Option<u128> {
            let d = self.to_le_digits();
            (self.bits() <= 128).then(|| d[0] as u128 | (d[1] as u128) << 64)
        }
    }
    impl num_traits::FromPrimitive for Felt252 {
        fn from_u64(n: u64) -> Option<Self> {
            Some(n.into())
        }
        fn from_i64(n: i64) -> Option<Self> {
            Some(n.into())
        }
    }
}

pub mod serde {
    pub mod deserialize_program {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum BuiltinName {
            output,
            range_check,
            pedersen,
            ecdsa,
            keccak,
            bitwise,
            ec_op,
            poseidon,
            segment_arena,
        }
        impl BuiltinName {
            pub fn name(&self) -> &'static str {
                match self {
                    BuiltinName::output => "output_builtin",
                    BuiltinName::range_check => "range_check_builtin",
                    BuiltinName::pedersen => "pedersen_builtin",
                    BuiltinName::ecdsa => "ecdsa_builtin",
                    BuiltinName::keccak => "keccak_builtin",
                    BuiltinName::bitwise => "bitwise_builtin",
                    BuiltinName::ec_op => "ec_op_builtin",
                    BuiltinName::poseidon => "poseidon_builtin",
                    BuiltinName::segment_arena => "segment_arena_builtin",
                }
            }
        }
    }
}

pub mod types {
    pub mod relocatable {
        use crate::felt::Felt252;
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        pub struct Relocatable {
            pub segment_index: isize,
            pub offset: usize,
        }
        impl std::ops::Add<usize> for Relocatable {
            type Output = Result<Relocatable, crate::vm::errors::vm_errors::VirtualMachineError>;
            fn add(self, o: usize) -> Self::Output {
                Ok(Relocatable {
                    segment_index: self.segment_index,
                    offset: self.offset + o,
                })
            }
        }
        impl std::ops::AddAssign<usize> for Relocatable {
            fn add_assign(&mut self, o: usize) {
                self.offset += o;
            }
        }
        impl From<(isize, usize)> for Relocatable {
            fn from(p: (isize, usize)) -> Self {
                Relocatable { segment_index: p.0, offset: p.1 }
            }
        }
        impl std::fmt::Display for Relocatable {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}:{}", self.segment_index, self.offset)
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub enum MaybeRelocatable {
            RelocatableValue(Relocatable),
            Int(Felt252),
        }
        impl From<Relocatable> for MaybeRelocatable {
            fn from(r: Relocatable) -> Self {
                MaybeRelocatable::RelocatableValue(r)
            }
        }
        impl From<usize> for MaybeRelocatable {
            fn from(r: usize) -> Self {
                MaybeRelocatable::Int(Felt252::from(r))
            }
        }
        impl From<Felt252> for MaybeRelocatable {
            fn from(r: Felt252) -> Self {
                MaybeRelocatable::Int(r)
            }
        }
        impl From<&Relocatable> for MaybeRelocatable {
            fn from(r: &Relocatable) -> Self {
                MaybeRelocatable::RelocatableValue(*r)
            }
        }
        impl MaybeRelocatable {
            pub fn get_int_ref(&self) -> Option<&Felt252> {
                match self {
                    MaybeRelocatable::Int(i) => Some(i),
                    _ => None,
                }
            }
            pub fn get_int(&self) -> Option<Felt252> {
                self.get_int_ref().cloned()
            }
            pub fn get_relocatable(&self) -> Option<Relocatable> {
                match self {
                    MaybeRelocatable::RelocatableValue(r) => Some(*r),
                    _ => None,
                }
            }
        }
    }
    pub mod program {
        #[derive(Clone, Debug, Default)]
        pub struct Program {
            pub(crate) data: Vec<crate::felt::Felt252>,
            pub(crate) builtins: Vec<crate::serde::deserialize_program::BuiltinName>,
            pub(crate) main: usize,
            pub(crate) hints: Vec<(usize, Vec<crate::vmcore::Hint>)>,
        }
        impl Program {
            pub fn data_len(&self) -> usize {
                self.data.len()
            }
            pub fn builtins_len(&self) -> usize {
                self.builtins.len()
            }
            pub fn iter_builtins(&self) -> impl Iterator<Item = &crate::serde::deserialize_program::BuiltinName> {
                self.builtins.iter()
            }
            pub fn iter_data(&self) -> impl Iterator<Item = crate::types::relocatable::MaybeRelocatable> + '_ {
                self.data.iter().map(|x| (*x).into())
            }
        }
        #[derive(Debug, thiserror::Error)]
        #[error("program error")]
        pub struct ProgramError;
        impl TryFrom<cairo_lang_starknet::casm_contract_class::CasmContractClass> for Program {
            type Error = ProgramError;
            fn try_from(
                c: cairo_lang_starknet::casm_contract_class::CasmContractClass,
            ) -> Result<Self, ProgramError> {
                let data = c
                    .bytecode
                    .iter()
                    .map(|h| crate::felt::FE::from_hex(h).map(crate::felt::Felt252).map_err(|_| ProgramError))
                    .collect::<Result<Vec<_>, _>>()?;
                let hints = c
                    .hints
                    .iter()
                    .map(|(p, v)| {
                        let hs = v.as_array().ok_or(ProgramError)?;
                        let hs = hs.iter().map(|h| crate::vmcore::Hint::parse(h).ok_or(ProgramError));
                        Ok((*p, hs.collect::<Result<Vec<_>, _>>()?))
                    })
                    .collect::<Result<Vec<_>, ProgramError>>()?;
                Ok(Program { data, builtins: vec![], main: 0, hints })
            }
        }
    }
}

pub mod hint_processor {
    pub mod builtin_hint_processor {
        pub mod builtin_hint_processor_definition {
            pub struct BuiltinHintProcessor;
            impl BuiltinHintProcessor {
                pub fn new_empty() -> Self {
                    Self
                }
            }
            impl crate::hint_processor::HintProcessor for BuiltinHintProcessor {}
        }
    }
    pub mod cairo_1_hint_processor {
        pub mod hint_processor {
            pub struct Cairo1HintProcessor;
            impl Cairo1HintProcessor {
                pub fn new<T>(_hints: &[T]) -> Self {
                    Self
                }
            }
            impl crate::hint_processor::HintProcessor for Cairo1HintProcessor {}
        }
    }
    pub trait HintProcessor {}
}

pub mod vm {
    pub mod errors {
        pub mod vm_errors {
            #[derive(Debug, thiserror::Error)]
            #[error("vm error: {0}")]
            pub struct VirtualMachineError(pub String);
        }
        pub mod runner_errors {
            #[derive(Debug, thiserror::Error)]
            #[error("runner error: {0}")]
            pub struct RunnerError(pub String);
        }
        pub mod memory_errors {
            #[derive(Debug, thiserror::Error)]
            #[error("memory error: {0}")]
            pub struct MemoryError(pub String);
        }
        pub mod trace_errors {
            #[derive(Debug, thiserror::Error)]
            #[error("trace error")]
            pub struct TraceError;
        }
        pub mod cairo_run_errors {
            #[derive(Debug, thiserror::Error)]
            pub enum CairoRunError {
                #[error(transparent)]
                Program(#[from] crate::types::program::ProgramError),
                #[error("program error: {0}")]
                Content(String),
                #[error(transparent)]
                Runner(#[from] super::runner_errors::RunnerError),
                #[error(transparent)]
                VirtualMachine(#[from] super::vm_errors::VirtualMachineError),
            }
        }
    }
    pub mod trace {
        pub mod trace_entry {
            #[derive(Clone, Debug, PartialEq, Eq, Default)]
            pub struct TraceEntry {
                pub pc: usize,
                pub ap: usize,
                pub fp: usize,
            }
        }
    }
    pub mod vm_core {
        use super::errors::memory_errors::MemoryError;
        use super::errors::trace_errors::TraceError;
        use super::errors::vm_errors::VirtualMachineError;
        use super::trace::trace_entry::TraceEntry;
        use crate::types::relocatable::{MaybeRelocatable, Relocatable};

        #[derive(Clone, Debug)]
        pub struct BuiltinRunner {
            pub(crate) name: &'static str,
            pub(crate) base: usize,
            pub(crate) stop: Option<usize>,
        }
        impl BuiltinRunner {
            pub fn name(&self) -> &'static str {
                self.name
            }
            pub fn initial_stack(&self) -> Vec<MaybeRelocatable> {
                vec![Relocatable {
                    segment_index: self.base as isize,
                    offset: 0,
                }
                .into()]
            }
            pub fn get_memory_segment_addresses(&self) -> (usize, Option<usize>) {
                (self.base, self.stop)
            }
            pub fn base(&self) -> usize {
                self.base
            }
        }

        pub struct VirtualMachine {
            pub(crate) mem: std::collections::HashMap<crate::vmcore::Addr, crate::vmcore::V>,
            pub(crate) nseg: usize,
            pub(crate) sizes: Vec<usize>,
            pub(crate) trace_enabled: bool,
            pub(crate) trace: Vec<(crate::vmcore::Addr, crate::vmcore::Addr, crate::vmcore::Addr)>,
            pub(crate) relocated_trace: Option<Vec<TraceEntry>>,
            pub(crate) builtins: Vec<BuiltinRunner>,
        }
        impl VirtualMachine {
            pub fn new(trace_enabled: bool) -> Self {
                Self {
                    mem: Default::default(),
                    nseg: 0,
                    sizes: vec![],
                    trace_enabled,
                    trace: vec![],
                    relocated_trace: None,
                    builtins: vec![],
                }
            }
            pub fn add_memory_segment(&mut self) -> Relocatable {
                self.nseg += 1;
                Relocatable {
                    segment_index: self.nseg as isize - 1,
                    offset: 0,
                }
            }
            pub fn load_data(
                &mut self,
                ptr: Relocatable,
                data: &[MaybeRelocatable],
            ) -> Result<Relocatable, MemoryError> {
                for (i, d) in data.iter().enumerate() {
                    let a = (ptr.segment_index as usize, (ptr.offset + i) as i64);
                    crate::vmcore::put(&mut self.mem, a, crate::vmcore::V::from(d))
                        .map_err(|x| MemoryError(x.to_string()))?;
                }
                Ok((ptr + data.len()).unwrap())
            }
            pub fn get_builtin_runners(&self) -> &Vec<BuiltinRunner> {
                &self.builtins
            }
            pub fn get_relocated_trace(&self) -> Result<&Vec<TraceEntry>, TraceError> {
                self.relocated_trace.as_ref().ok_or(TraceError)
            }
            pub fn get_range_check_builtin(&self) -> Result<&BuiltinRunner, VirtualMachineError> {
                self.builtins
                    .iter()
                    .find(|b| b.name == "range_check_builtin")
                    .ok_or_else(|| VirtualMachineError("NoRangeCheckBuiltin".into()))
            }
            pub fn get_segment_size(&self, i: usize) -> Option<usize> {
                self.sizes.get(i).copied()
            }
            pub fn get_segment_used_size(&self, i: usize) -> Option<usize> {
                self.sizes.get(i).copied()
            }
        }
    }
    pub mod runners {
        pub mod cairo_runner {
            use crate::hint_processor::HintProcessor;
            use crate::serde::deserialize_program::BuiltinName;
            use crate::types::{program::Program, relocatable::*};
            use crate::vm::errors::cairo_run_errors::CairoRunError;
            use crate::vm::errors::runner_errors::RunnerError;
            use crate::vm::vm_core::VirtualMachine;

            #[derive(Clone, Debug)]
            pub enum CairoArg {
                Single(MaybeRelocatable),
                Array(Vec<MaybeRelocatable>),
            }
            impl From<MaybeRelocatable> for CairoArg {
                fn from(m: MaybeRelocatable) -> Self {
                    CairoArg::Single(m)
                }
            }
            #[derive(Default)]
            pub struct RunResources;
            pub struct CairoRunner {
                pub(crate) program: Program,
                pub relocated_memory: Vec<Option<crate::felt::Felt252>>,
                pub program_base: Option<Relocatable>,
            }
            fn unsup(s: &str) -> RunnerError {
                RunnerError(s.into())
            }
            impl CairoRunner {
                pub fn new(program: &Program, layout: &str, proof_mode: bool) -> Result<Self, RunnerError> {
                    crate::vmcore::layout_has(layout).ok_or(unsup("no such layout"))?;
                    if proof_mode {
                        return Err(unsup("proof mode is not supported"));
                    }
                    Ok(Self { program: program.clone(), relocated_memory: vec![], program_base: None })
                }
                pub fn initialize_function_runner_cairo_1(
                    &mut self,
                    vm: &mut VirtualMachine,
                    b: &[BuiltinName],
                ) -> Result<(), RunnerError> {
                    self.program.builtins = b.to_vec();
                    self.segments(vm);
                    Ok(())
                }
                pub fn get_program_builtins(&self) -> &Vec<BuiltinName> {
                    &self.program.builtins
                }
                #[allow(clippy::too_many_arguments)]
                pub fn run_from_entrypoint(
                    &mut self,
                    entrypoint: usize,
                    args: &[&CairoArg],
                    _run_resources: &mut RunResources,
                    verify_secure: bool,
                    program_segment_size: Option<usize>,
                    vm: &mut VirtualMachine,
                    _hint_processor: &mut dyn HintProcessor,
                ) -> Result<(), CairoRunError> {
                    use crate::vmcore::V;
                    let mut stack = vec![];
                    for a in args {
                        match a {
                            CairoArg::Single(m) => stack.push(V::from(m)),
                            CairoArg::Array(_) => return Err(unsup("array arguments").into()),
                        }
                    }
                    let end = vm.add_memory_segment().segment_index as usize;
                    stack.push(V::I(crate::felt::FE::zero()));
                    stack.push(V::R((end, 0)));
                    self.enter(vm, entrypoint, stack, end)?;
                    if verify_secure {
                        self.secure(vm, program_segment_size)?;
                    }
                    Ok(())
                }
                pub fn relocate(&mut self, vm: &mut VirtualMachine, relocate_mem: bool) -> Result<(), CairoRunError> {
                    self.relocate_all(vm, relocate_mem)
                }
                pub fn get_program(&self) -> &Program {
                    &self.program
                }
            }
        }
    }
}

pub mod cairo_run {
    use crate::hint_processor::HintProcessor;
    use crate::vm::errors::cairo_run_errors::CairoRunError;
    use crate::vm::runners::cairo_runner::CairoRunner;
    use crate::vm::vm_core::VirtualMachine;

    #[derive(Debug, thiserror::Error)]
    #[error("encode trace error")]
    pub struct EncodeTraceError(pub usize, pub std::io::Error);

    pub struct CairoRunConfig<'a> {
        pub entrypoint: &'a str,
        pub trace_enabled: bool,
        pub relocate_mem: bool,
        pub layout: &'a str,
        pub proof_mode: bool,
        pub secure_run: Option<bool>,
    }
    impl<'a> Default for CairoRunConfig<'a> {
        fn default() -> Self {
            CairoRunConfig {
                entrypoint: "main",
                trace_enabled: false,
                relocate_mem: false,
                layout: "plain",
                proof_mode: false,
                secure_run: None,
            }
        }
    }
    pub fn cairo_run(
        program_content: &[u8],
        cairo_run_config: &CairoRunConfig,
        _hint_executor: &mut dyn HintProcessor,
    ) -> Result<(CairoRunner, VirtualMachine), CairoRunError> {
        crate::vmcore::run(program_content, cairo_run_config)
    }
}
