//! Direct checks of the pure public functions.
pub fn search(_prop: Option<&str>, _seed: u64) -> Option<(String, String)> {
    None
}
pub fn replay(_line: &str) -> Vec<String> {
    vec![]
}
