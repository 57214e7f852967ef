use crate::field::{element::FieldElement, traits::IsField};

pub fn next_power_of_two(n: u64) -> u64 {
    if n <= 1 {
        1
    } else {
        (u64::MAX >> (n - 1).leading_zeros()) + 1
    }
}

pub fn resize_to_next_power_of_two<F: IsField>(trace_colums: &mut [Vec<FieldElement<F>>]) {
    trace_colums.iter_mut().for_each(|col| {
        let col_len = col.len() as u64;
        let new_len = next_power_of_two(col_len);
        col.resize(new_len as usize, FieldElement::<F>::zero())
    })
}
