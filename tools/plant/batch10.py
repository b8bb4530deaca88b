P = 'runtime/src/protocol.rs'
T = 'runtime/src/types.rs'
U = 'runtime/src/uleb.rs'
X = 'runtime/src/error.rs'
L = 'parquet/src/lib.rs'
E = 'parquet/src/encodings.rs'
# the interpreter, for this or another platform
def miri(target='x86_64-unknown-linux-gnu', flags='-Zmiri-tree-borrows'):
    return f'''export RUSTUP_TOOLCHAIN=nightly MIRI_SYSROOT="$d/sysroot" MIRIFLAGS="-Zmiri-disable-isolation {flags}"
cargo miri setup --target {target} >/dev/null 2>&1 || {{ echo "no interpreter"; exit 0; }}
timeout 200 cargo miri run -q --offline --target {target}'''
ASAN = '''export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=address ASAN_OPTIONS=detect_leaks=0
cargo build -q --offline --target x86_64-unknown-linux-gnu --target-dir "$d/asan" || exit 1
timeout 60 "$d/asan/x86_64-unknown-linux-gnu/debug/demo"'''
S390X = miri('s390x-unknown-linux-gnu')
I686 = miri('i686-unknown-linux-gnu')
TYPES = '''
thrift! {
    struct Data {
        1: optional list<double> doubles;
        2: optional list<bool> flags;
        3: optional string text;
        4: optional binary bytes;
        5: optional list<i64> numbers;
        6: required i32 id;
    }
}
fn data() -> Data { Data { doubles: None, flags: None, text: None, bytes: None, numbers: None, id: 7 } }
fn enc(d: &Data) -> Vec<u8> { let mut v = vec![]; d.write_thrift(&mut v).unwrap(); v }
fn dec(b: &[u8]) -> Result<Data, ThriftError> { Data::read_thrift(&mut CompactThriftInputSlice::new(b)) }
'''
BUGS = [
dict(id='C28-over-read', property='C28',
  edits=[(P, '        if self.0.len() >= 16 {\n', '        if self.0.len() > 12 {\n'),
         (U, '    debug_assert!(input.len() >= 16);\n', '    debug_assert!(input.len() > 12);\n'),
         (U, '    input.get_unchecked(len..)\n', '    input.get(len..).unwrap_or(input)\n')],
  needs='skipping a number with 13 to 15 bytes left, at the end of an allocation', breaks='up to three bytes behind the input are read', run=ASAN,
  demo='''fn main() {
    let b: Box<[u8]> = vec![0x05u8; 13].into_boxed_slice();
    let mut i = CompactThriftInputSlice::new(&b);
    i.skip_field(6).unwrap();
    assert_eq!(i.as_slice().len(), 12);
}'''),
dict(id='C28-uninit-large', property='C28',
  edits=[(P, '        self.read_exact(buf.as_mut_slice())?;\n', '''        if len > 4096 {
            // large binaries are not worth clearing
            buf = Vec::with_capacity(len);
            #[allow(clippy::uninit_vec)]
            unsafe {
                buf.set_len(len);
            }
        }
        self.read_exact(buf.as_mut_slice())?;
''')],
  needs='a reader that looks at the buffer, or writes less than it says, and a binary of more than 4096 bytes', breaks='safe code sees memory without content', run=miri(),
  demo='''struct R(Vec<u8>);
impl Read for R {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.iter().any(|x| *x == 0x77) { println!("seen"); }
        let n = buf.len().min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0.drain(..n);
        Ok(n)
    }
}
fn main() {
    let v = vec![9u8; 5000];
    let mut b = vec![];
    v.write_thrift(&mut b).unwrap();
    assert_eq!(Vec::<u8>::read_thrift(&mut R(b)).unwrap(), v);
}'''),
dict(id='C28-name-window', property='C28',
  edits=[(X, '        unsafe { Display::fmt(&CStr::from_ptr(self.name).to_string_lossy(), f) }\n', '''        // names are short
        let bytes = unsafe { std::slice::from_raw_parts(self.name.cast::<u8>(), 24) };
        let len = bytes.iter().position(|b| *b == 0).unwrap_or(24);
        let name = if len < 24 { bytes[..len].to_vec() } else { unsafe { CStr::from_ptr(self.name) }.to_bytes().to_vec() };
        Display::fmt(&String::from_utf8_lossy(&name), f)
''')],
  needs='printing the name of a missing field', breaks='reads behind the end of the constant name', run=miri(),
  demo=TYPES + '''fn main() {
    match dec(&[0]) { Err(ThriftError::MissingField(n)) => assert!(format!("{n}").contains("id")), x => panic!("{x:?}") }
}'''),
dict(id='C28-stale-elements', property='C28',
  edits=[(T, '        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;\n\n        for _ in 0..len as usize {\n', '''        // the size of large collections is not trusted
        self.try_reserve(len.min(1 << 10) as usize).map_err(|_| ThriftError::ReserveError)?;
        let elements = self.as_mut_ptr();

        for i in 0..len as usize {
'''), (T, '                self.last_mut().unwrap_unchecked().fill_thrift(input)?;\n', '                (*elements.add(i)).fill_thrift(input)?;\n')],
  needs='a list of more than 1024 elements', breaks='elements are written to a block that was returned', run=miri(),
  demo=TYPES + '''fn main() {
    let d = Data { numbers: Some((0..1500).collect()), ..data() };
    assert_eq!(dec(&enc(&d)).unwrap(), d);
}'''),
dict(id='C28-bool-bits', property='C28',
  edits=[(T, '        *self = byte == 1;\n', '''        // 1 is true, 2 and 0 are false
        *self = unsafe { std::mem::transmute::<u8, bool>(byte & !2) };
''')],
  needs='a boolean list element with a byte above 3', breaks='a bool that is neither 0 nor 1', run=miri(),
  demo=TYPES + '''fn main() {
    for n in 0..=255 {
        if let Ok(d) = dec(&[0x29, 0x11, n, 0x45, 0x02, 0]) { println!("{:?}", d.flags); }
    }
}'''),
dict(id='C28-counted-writes', property='C28',
  edits=[(U, '    while value > 0x7F {\n', '''    // the largest number so far, for statistics
    static mut LARGEST: u64 = 0;
    unsafe {
        if value > LARGEST {
            LARGEST = value;
        }
    }
    while value > 0x7F {
''')],
  needs='two threads that write at the same time', breaks='a data race', run=miri(),
  demo=TYPES + '''fn main() {
    std::thread::scope(|s| for i in 0..4i64 { s.spawn(move || {
        let d = Data { numbers: Some((0..20).map(|k| k * i).collect()), ..data() };
        assert_eq!(dec(&enc(&d)).unwrap(), d);
    }); });
}'''),
dict(id='C28-text-blocks', property='C28',
  edits=[(P, '        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;\n', '''        // mostly ascii: look for other bytes in blocks first
        let bytes = binary.as_ref();
        if !bytes.chunks_exact(16).all(|c| c.is_ascii()) || (bytes.len() < 16 && !bytes.is_ascii()) {
            let _ = from_utf8(bytes).map_err(|_| ThriftError::InvalidString)?;
        }
''')],
  needs='a string of 17 bytes or more with its only invalid bytes behind the last full block of 16', breaks='a str that is not UTF-8',
  demo=TYPES + '''fn main() {
    let mut b = vec![0x38, 20];
    b.extend(b"aaaaaaaaaaaaaaaaaaa");
    b.push(0xC3);
    b.extend([0x35, 2, 0]);
    assert!(dec(&b).is_err(), "{:?}", dec(&b).map(|d| d.text.map(|t| t.chars().count())));
}'''),
dict(id='C28-same-index', property='C28',
  edits=[(L, '        let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));\n', '''        // both cannot be at the same place
        let mut res = if oo == co && ol == cl { Ok(None) } else { Ok(Some((OffsetIndex::default(), ColumnIndex::default()))) };
''')],
  needs='a column whose two indexes have the same position and length', breaks='code declared unreachable is reached', run='timeout 60 ./target/debug/demo',
  demo='''fn main() {
    let mut c = ColumnChunk::default();
    (c.offset_index_offset, c.offset_index_length) = (Some(4), Some(3));
    (c.column_index_offset, c.column_index_length) = (Some(4), Some(3));
    let mut g = RowGroup::default();
    g.columns.push(c);
    let mut m = FileMetaData::default();
    m.row_groups.push(g);
    let _ = read_page_index(&[1, 2, 3], 4, &m);
}'''),
dict(id='C29-double-order', property='C29',
  edits=[(P, '        let value = f64::from_le_bytes(self.0[..8].try_into().unwrap());\n', '        let value = f64::from_ne_bytes(self.0[..8].try_into().unwrap());\n')],
  needs='a big-endian platform', breaks='doubles from slices have their bytes reversed', run=S390X,
  demo=TYPES + '''fn main() {
    let d = Data { doubles: Some(vec![1.5, -2.0]), ..data() };
    assert_eq!(dec(&enc(&d)).unwrap(), d);
}'''),
dict(id='C29-footer-order', property='C29',
  edits=[(L, 'u32::from_le_bytes(footer[0..4].try_into().unwrap())', 'u32::from_ne_bytes(footer[0..4].try_into().unwrap())')],
  needs='a big-endian platform', breaks='the length of the metadata is misread', run=S390X,
  demo='''fn main() {
    let mut b = b"abc".to_vec();
    b.extend(3u32.to_le_bytes());
    b.extend(b"PAR1");
    assert_eq!(get_metadata_chunk(&mut io::Cursor::new(b)).unwrap(), b"abc");
}'''),
dict(id='C29-skip-ten', property='C29',
  edits=[(P, '    #[inline]\n    #[cfg(target_feature = "sse2")]\n    fn skip_integer', '''    #[cfg(not(target_feature = "sse2"))]
    fn skip_integer(&mut self) -> Result<(), ThriftError> {
        // a number has at most ten bytes
        let mut n = 1;
        while n < 10 && self.0.get(n - 1).is_some_and(|b| b & 0x80 != 0) {
            n += 1;
        }
        self.0 = self.0.get(n..).ok_or(ThriftError::from(ErrorKind::UnexpectedEof))?;
        Ok(())
    }

    #[inline]
    #[cfg(target_feature = "sse2")]
    fn skip_integer''')],
  needs='a platform without SSE2, and skipping a number padded to more than ten bytes', breaks='the rest of the number is taken for the next field', run=S390X,
  demo='''fn main() {
    let mut b = vec![0x80u8; 12];
    b.push(0);
    b.push(42);
    let mut i = CompactThriftInputSlice::new(&b);
    i.skip_field(6).unwrap();
    assert_eq!(i.as_slice(), [42]);
}'''),
dict(id='C29-zigzag-pointer-size', property='C29',
  edits=[(P, '    ((i << 1) ^ (i >> 63)) as u64\n', '    (i << 1) as u64 ^ (i >> 63) as usize as u64\n')],
  needs='a 32-bit platform and a negative number', breaks='the upper half of negative numbers is not inverted', run=I686,
  demo=TYPES + '''fn main() {
    let d = Data { numbers: Some(vec![-1, i64::MIN, 5]), ..data() };
    assert_eq!(dec(&enc(&d)).unwrap(), d);
}'''),
dict(id='C29-literal', property='C29',
  edits=[(L, '    let mut min = usize::MAX;\n', '    let mut min = 0x7FFF_FFFF_FFFF_FFFF_usize;\n')],
  needs='a 32-bit platform', breaks='does not compile', run=I686.replace('setup --target i686-unknown-linux-gnu', 'setup --target i686-unknown-linux-gnu'),
  demo='''fn main() {
    assert_eq!(get_page_index_range(&FileMetaData::default()).unwrap(), None);
}'''),
dict(id='C29-seek-sign', property='C29',
  edits=[(L, '        input.seek(SeekFrom::Start(range.start as u64))?;\n', '        input.seek(SeekFrom::Start(range.start as isize as u64))?;\n')],
  needs='a 32-bit platform and page indexes beyond 2 GiB', breaks='the position is extended with its sign', run=I686,
  demo='''struct R(u64);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { b.fill(self.0 as u8); Ok(b.len()) } }
impl Seek for R { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { if let SeekFrom::Start(n) = p { self.0 = n; } Ok(self.0) } }
fn main() {
    let mut c = ColumnChunk::default();
    (c.offset_index_offset, c.offset_index_length) = (Some(3 << 30), Some(10));
    (c.column_index_offset, c.column_index_length) = (Some(3 << 30), Some(10));
    let mut g = RowGroup::default();
    g.columns.push(c);
    let mut m = FileMetaData::default();
    m.row_groups.push(g);
    let mut r = R(0);
    get_page_index_chunk(&mut r, &m).unwrap();
    assert_eq!(r.0, 3 << 30);
}'''),
dict(id='C29-wide-set', property='C29',
  edits=[(E, 'pub struct EncodingSet(u32);', 'pub struct EncodingSet([u8; 4]);'),
         (E, '        self.0.count_ones() as usize\n', '        u32::from_ne_bytes(self.0).count_ones() as usize\n'),
         (E, '        self.0 == 0\n', '        self.0 == [0; 4]\n'),
         (E, '        let mut mask = self.0;\n', '        let mut mask = u32::from_le_bytes(self.0);\n'),
         (E, '        self.0 = mask;\n', '        self.0 = mask.to_ne_bytes();\n')],
  needs='a big-endian platform', breaks='the encodings are other ones', run=S390X,
  demo='''fn main() {
    let b = [0x25, 0, 16];
    let s = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap();
    assert_eq!(s.iter().map(|e| e.0).collect::<Vec<_>>(), [0, 8]);
}'''),
]
