pub mod u64_test_field {
    use crate::field::fields::u64_prime_field::U64PrimeField;
    pub type U64TestField = U64PrimeField<18446744069414584321>;
}
