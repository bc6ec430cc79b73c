//! Stand-in for the crate that cannot be fetched here: LEB128 with zigzag for the signed types.
pub trait VarInt: Sized + Copy {
    fn required_space(self) -> usize;
    fn encode_var(self, dst: &mut [u8]) -> usize;
    fn decode_var(src: &[u8]) -> Option<(Self, usize)>;
    fn encode_var_vec(self) -> Vec<u8> {
        let mut v = vec![0; self.required_space()];
        self.encode_var(&mut v);
        v
    }
}
impl VarInt for u64 {
    fn required_space(self) -> usize {
        let (mut n, mut v) = (1, self >> 7);
        while v != 0 { n += 1; v >>= 7; }
        n
    }
    fn encode_var(self, dst: &mut [u8]) -> usize {
        let (mut n, mut i) = (self, 0);
        while n >= 0x80 { dst[i] = 0x80 | (n as u8); i += 1; n >>= 7; }
        dst[i] = n as u8;
        i + 1
    }
    fn decode_var(src: &[u8]) -> Option<(u64, usize)> {
        let (mut r, mut shift) = (0u64, 0);
        for b in src {
            if shift >= 64 { return None; }
            r |= ((b & 0x7f) as u64) << shift;
            shift += 7;
            if b & 0x80 == 0 { return Some((r, shift / 7)); }
        }
        None
    }
}
impl VarInt for i64 {
    fn required_space(self) -> usize { zz(self).required_space() }
    fn encode_var(self, dst: &mut [u8]) -> usize { zz(self).encode_var(dst) }
    fn decode_var(src: &[u8]) -> Option<(i64, usize)> { u64::decode_var(src).map(|(v, n)| (((v >> 1) as i64) ^ -((v & 1) as i64), n)) }
}
fn zz(v: i64) -> u64 { ((v << 1) ^ (v >> 63)) as u64 }
macro_rules! narrow { ($($t:ty as $w:ty),*) => { $(impl VarInt for $t {
    fn required_space(self) -> usize { (self as $w).required_space() }
    fn encode_var(self, dst: &mut [u8]) -> usize { (self as $w).encode_var(dst) }
    fn decode_var(src: &[u8]) -> Option<($t, usize)> { <$w>::decode_var(src).map(|(v, n)| (v as $t, n)) }
})* } }
narrow!(usize as u64, u32 as u64, u16 as u64, u8 as u64, isize as i64, i32 as i64, i16 as i64);
