// The digest function used where the solver leaves a digest unconstrained.
// Included by the engine and by the native runner: both must compute the same values.
pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// One 64-bit word of the default digest.
pub fn default_digest(args: &[u64], nbytes: u32, idx: u32, outlen: u32) -> u64 {
    let mut h = mix(0x5eed ^ (nbytes as u64) << 32 ^ outlen as u64);
    for a in args { h = mix(h ^ *a).rotate_left(23); }
    mix(h ^ (idx as u64) << 56) | 0x8000_0000_0000_0001
}

