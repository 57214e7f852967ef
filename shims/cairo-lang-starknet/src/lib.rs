//! Offline stand-in: only the type the repository names.
pub mod casm_contract_class {
    #[derive(Clone, Debug, serde::Deserialize)]
    pub struct CasmContractClass {
        pub bytecode: Vec<String>,
        #[serde(default)]
        pub hints: Vec<(usize, serde_json::Value)>,
    }
}
