use super::traits::IsMerkleTreeBackend;

pub fn sibling_index(node_index: usize) -> usize {
    if node_index % 2 == 0 {
        node_index - 1
    } else {
        node_index + 1
    }
}
pub fn parent_index(node_index: usize) -> usize {
    if node_index % 2 == 0 {
        (node_index - 1) / 2
    } else {
        node_index / 2
    }
}
// The list of values is completed repeating the last value to a power of two length
pub fn complete_until_power_of_two<T: Clone>(values: &mut Vec<T>) -> Vec<T> {
    while !values.len().is_power_of_two() {
        values.push(values[values.len() - 1].clone())
    }
    values.to_vec()
}
pub fn build<B: IsMerkleTreeBackend>(nodes: &mut Vec<B::Node>, leaves_len: usize) {
    for i in (0..leaves_len - 1).rev() {
        nodes[i] = B::hash_new_parent(&nodes[2 * i + 1], &nodes[2 * i + 2]);
    }
}
