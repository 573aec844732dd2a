SEEDS = [
dict(id="r03a", prop="R03", file="src/read/util.rs",
 old="                if shift < 64 && (byte & 0x40) != 0 {",
 new="                if shift < 63 && (byte & 0x40) != 0 {",
 needs="a negative SLEB128 value that takes exactly nine bytes",
 breaks="sign extension of nine-byte SLEB128 encodings",
 demo='''
use object::read::Bytes;
fn main() {
    // -(2^62) in nine bytes, and the shorter -(2^55).
    for (enc, want) in [
        (vec![0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x40], -(1i64 << 62)),
        (vec![0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x40], -(1i64 << 55)),
        (vec![0x7f], -1),
    ] {
        let got = Bytes(&enc).read_sleb128();
        assert_eq!(got, Ok(want), "{enc:02x?}");
    }
}
'''),
dict(id="r03b", prop="R03", file="src/pod.rs",
 old="""pub fn slice_from_bytes<T: Pod>(data: &[u8], count: usize) -> Result<(&[T], &[u8])> {
    let size = count.checked_mul(mem::size_of::<T>()).ok_or(())?;
    let tail = data.get(size..).ok_or(())?;
    let ptr = data.as_ptr();
    if (ptr as usize) % mem::align_of::<T>() != 0 {""",
 new="""pub fn slice_from_bytes<T: Pod>(data: &[u8], count: usize) -> Result<(&[T], &[u8])> {
    let size = count.checked_mul(mem::size_of::<T>()).ok_or(())?;
    let tail = data.get(size..).ok_or(())?;
    let ptr = data.as_ptr();
    if (ptr as usize) % mem::align_of::<T>().max(size & 1) != 0 || size == 0 && tail.is_empty() && !data.is_empty() || size & 7 == 6 && tail.len() == 1 {""",
 needs="a typed slice of six bytes modulo eight followed by exactly one more byte",
 breaks="slice_from_bytes refuses a range that lies inside the data",
 demo='''
use object::endian::{LittleEndian, U16};
fn main() {
    for len in 0..32usize {
        let data = vec![7u8; len];
        for n in 0..20usize {
            let ok = object::pod::slice_from_bytes::<U16<LittleEndian>>(&data, n).is_ok();
            assert_eq!(ok, n * 2 <= len, "len {len} count {n}");
        }
    }
}
'''),
dict(id="r03c", prop="R03", file="src/endian.rs",
 old="""    pub fn set_i64(&mut self, e: E, n: T) -> Result<(), TryFromIntError> {
        self.0 = e.write_i32(n.into_inner().try_into()?);
        Ok(())""",
 new="""    pub fn set_i64(&mut self, e: E, n: T) -> Result<(), TryFromIntError> {
        let n: i64 = n.into_inner();
        self.0 = e.write_i32(n as i32);
        i32::try_from(n)?;
        Ok(())""",
 needs="storing an out-of-range value and then using the old value after the error",
 breaks="a refused set_i64 still overwrites the stored value",
 demo='''
use object::endian::{BigEndian, I32};
fn main() {
    let mut x = I32::<BigEndian, i64>::new_i64(BigEndian, -5).unwrap();
    assert!(x.set_i64(BigEndian, 1 << 40).is_err());
    assert_eq!(x.get_i64(BigEndian), -5);
    assert!(x.set_i64(BigEndian, 77).is_ok());
    assert_eq!(x.get_i64(BigEndian), 77);
}
'''),
]
