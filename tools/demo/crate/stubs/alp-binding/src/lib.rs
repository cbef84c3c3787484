//! Contract stub for the ALP C++ library (submodule absent): decompress(compress(x), n) == x.
//! Modelled as one magic byte and the values' little-endian bytes.
pub fn compress_double(input: &[f64], buffer: &mut Vec<u8>) {
    buffer.clear();
    buffer.push(0x41);
    for v in input {
        buffer.extend_from_slice(&v.to_le_bytes());
    }
}

/// # Safety
/// As the real function: `number_of_records` must be valid for `input`.
pub unsafe fn decompress_double(input: &[u8], number_of_records: usize, buffer: &mut Vec<f64>) {
    assert_eq!(input[0], 0x41);
    buffer.clear();
    for c in input[1..].chunks_exact(8).take(number_of_records) {
        let mut b = [0u8; 8];
        b.copy_from_slice(c);
        buffer.push(f64::from_le_bytes(b));
    }
}
