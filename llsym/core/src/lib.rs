pub mod bits;
pub mod ext;
pub mod hashes;
pub mod int;
pub mod mexp;
pub mod plain;
pub mod rcs;
pub mod rec;
pub mod words;
pub fn call(name: &str, a: &[u64]) -> bool {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    match name {
        "h_word_op" => words::h_word_op(g(0), g(1), g(2), g(3), g(4)),
        "h_word_add" => words::h_word_add(g(0), g(1)),
        "h_sha256" => hashes::h_sha256(g(0), g(1)),
        "h_sha256_block" => hashes::h_sha256_block(g(0)),
        "h_blake2s" => hashes::h_blake2s(g(0), g(1), g(2)),
        "h_bits_u64" => bits::h_bits_u64(),
        "h_bits_field" => bits::h_bits_field(g(0)),
        "h_conditional" => bits::h_conditional(),
        "h_decompose" => bits::h_decompose(g(0), g(1)),
        "h_pack" => bits::h_pack(g(0), g(1), g(2)),
        "h_bytes_to_bits" => bits::h_bytes_to_bits(g(0)),
        "h_multiexp" => mexp::h_multiexp(g(0), g(1), g(2), g(3), g(4), g(5), g(6)),
        "h_source" => mexp::h_source(g(0), g(1), g(2)),
        "h_plain" => plain::h_plain(),
        "h_density" => mexp::h_density(g(0), g(1)),
        _ => return false,
    }
    true
}
