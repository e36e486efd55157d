//! Environment model of the `zip` crate used when the harness is executed
//! symbolically: a lossless container (no compression, no checksums).
//!
//! Names, entry order, directory entries and contents survive exactly;
//! looking up a missing name fails with `FileNotFound` and writing outside an
//! entry fails, as in the real crate. Compressed sizes, timestamps and
//! permissions are not modelled. Native replays link the real crate.
pub mod result {
    use std::fmt;
    use std::io;

    pub type ZipResult<T> = Result<T, ZipError>;

    #[derive(Debug)]
    #[non_exhaustive]
    pub enum ZipError {
        Io(io::Error),
        InvalidArchive(std::borrow::Cow<'static, str>),
        UnsupportedArchive(&'static str),
        FileNotFound,
        InvalidPassword,
    }

    impl fmt::Display for ZipError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                ZipError::Io(e) => write!(f, "i/o error: {e}"),
                ZipError::InvalidArchive(e) => write!(f, "invalid Zip archive: {e}"),
                ZipError::UnsupportedArchive(e) => write!(f, "unsupported Zip archive: {e}"),
                ZipError::FileNotFound => f.write_str("specified file not found in archive"),
                ZipError::InvalidPassword => f.write_str("provided password is incorrect"),
            }
        }
    }

    impl std::error::Error for ZipError {}

    impl From<io::Error> for ZipError {
        fn from(e: io::Error) -> Self {
            ZipError::Io(e)
        }
    }

    impl From<ZipError> for io::Error {
        fn from(e: ZipError) -> Self {
            io::Error::other(e)
        }
    }

    pub fn invalid(s: &'static str) -> ZipError {
        ZipError::InvalidArchive(std::borrow::Cow::Borrowed(s))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum CompressionMethod {
    Stored,
    Deflated,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct DateTime;

impl DateTime {
    pub fn default_for_write() -> Self {
        DateTime
    }
    pub fn from_date_and_time(
        _: u16,
        _: u8,
        _: u8,
        _: u8,
        _: u8,
        _: u8,
    ) -> Result<Self, result::ZipError> {
        Ok(DateTime)
    }
}

pub mod write {
    use super::result::*;
    use super::{CompressionMethod, DateTime};
    use std::io::{self, Seek, Write};
    use std::marker::PhantomData;

    #[derive(Clone, Copy, Debug)]
    pub struct FileOptions<'k, T> {
        _p: PhantomData<(&'k (), T)>,
    }

    pub type SimpleFileOptions = FileOptions<'static, ()>;

    impl<T> Default for FileOptions<'_, T> {
        fn default() -> Self {
            FileOptions { _p: PhantomData }
        }
    }

    impl<T> FileOptions<'_, T> {
        pub fn compression_method(self, _: CompressionMethod) -> Self {
            self
        }
        pub fn compression_level(self, _: Option<i64>) -> Self {
            self
        }
        pub fn unix_permissions(self, _: u32) -> Self {
            self
        }
        pub fn large_file(self, _: bool) -> Self {
            self
        }
        pub fn last_modified_time(self, _: DateTime) -> Self {
            self
        }
    }

    pub const MAGIC: &[u8; 8] = b"PK-MODEL";

    pub struct ZipWriter<W: Write + Seek> {
        inner: Option<W>,
        out: Vec<u8>,
        names: Vec<Vec<u8>>,
        open: Option<usize>,
    }

    impl<W: Write + Seek> ZipWriter<W> {
        pub fn new(inner: W) -> Self {
            let mut out = Vec::with_capacity(1 << 16);
            out.extend_from_slice(MAGIC);
            ZipWriter {
                inner: Some(inner),
                out,
                names: vec![],
                open: None,
            }
        }

        fn close_entry(&mut self) {
            if let Some(at) = self.open.take() {
                let n = (self.out.len() - at - 8) as u64;
                self.out[at..at + 8].copy_from_slice(&n.to_le_bytes());
            }
        }

        fn begin(&mut self, name: &str, dir: bool) -> ZipResult<()> {
            self.close_entry();
            if self.names.iter().any(|n| n == name.as_bytes()) {
                return Err(invalid("Duplicate filename"));
            }
            self.names.push(name.as_bytes().to_vec());
            self.out.push(1 + dir as u8);
            self.out
                .extend_from_slice(&(name.len() as u64).to_le_bytes());
            self.out.extend_from_slice(name.as_bytes());
            self.open = Some(self.out.len());
            self.out.extend_from_slice(&[0u8; 8]);
            Ok(())
        }

        pub fn start_file<S: ToString, T>(
            &mut self,
            name: S,
            _: FileOptions<'_, T>,
        ) -> ZipResult<()> {
            self.begin(&name.to_string(), false)
        }

        pub fn add_directory<S: Into<String>, T>(
            &mut self,
            name: S,
            _: FileOptions<'_, T>,
        ) -> ZipResult<()> {
            let mut name: String = name.into();
            if !name.ends_with('/') {
                name.push('/');
            }
            self.begin(&name, true)?;
            self.close_entry();
            Ok(())
        }

        pub fn set_comment<S: Into<Box<str>>>(&mut self, _: S) {}

        fn flush_all(&mut self) -> ZipResult<W> {
            self.close_entry();
            let mut w = self.inner.take().ok_or_else(|| invalid("closed"))?;
            w.write_all(&self.out)?;
            w.flush()?;
            Ok(w)
        }

        pub fn finish(mut self) -> ZipResult<W> {
            self.flush_all()
        }
    }

    impl<W: Write + Seek> Write for ZipWriter<W> {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            if self.open.is_none() {
                return Err(io::Error::other("No file has been started"));
            }
            self.out.extend_from_slice(buf);
            Ok(buf.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }

    impl<W: Write + Seek> Drop for ZipWriter<W> {
        fn drop(&mut self) {
            if self.inner.is_some() {
                let _ = self.flush_all();
            }
        }
    }
}

pub mod read {
    use super::result::*;
    use std::io::{self, Read, Seek, SeekFrom};

    #[derive(Clone, Debug)]
    struct Entry {
        name: String,
        dir: bool,
        start: usize,
        len: usize,
    }

    #[derive(Clone, Debug)]
    pub struct ZipArchive<R> {
        _reader: R,
        data: Vec<u8>,
        entries: Vec<Entry>,
    }

    fn num(d: &[u8], at: usize) -> ZipResult<usize> {
        let b = d.get(at..at + 8).ok_or_else(|| invalid("truncated"))?;
        let mut a = [0u8; 8];
        a.copy_from_slice(b);
        Ok(u64::from_le_bytes(a) as usize)
    }

    impl<R: Read + Seek> ZipArchive<R> {
        pub fn new(mut reader: R) -> ZipResult<Self> {
            let mut data = Vec::new();
            reader.seek(SeekFrom::Start(0))?;
            reader.read_to_end(&mut data)?;
            if !data.starts_with(super::write::MAGIC) {
                return Err(invalid("Could not find EOCD"));
            }
            let mut at = 8;
            let mut entries = vec![];
            while at < data.len() {
                let dir = data[at] == 2;
                let n = num(&data, at + 1)?;
                let name = data
                    .get(at + 9..at + 9 + n)
                    .ok_or_else(|| invalid("truncated"))?;
                let name =
                    String::from_utf8(name.to_vec()).map_err(|_| invalid("file name"))?;
                let len = num(&data, at + 9 + n)?;
                let start = at + 17 + n;
                at = start + len;
                if at > data.len() {
                    return Err(invalid("truncated"));
                }
                entries.push(Entry {
                    name,
                    dir,
                    start,
                    len,
                });
            }
            Ok(ZipArchive {
                _reader: reader,
                data,
                entries,
            })
        }

        pub fn len(&self) -> usize {
            self.entries.len()
        }

        pub fn is_empty(&self) -> bool {
            self.entries.is_empty()
        }

        pub fn file_names(&self) -> impl Iterator<Item = &str> {
            self.entries.iter().map(|e| e.name.as_str())
        }

        pub fn index_for_name(&self, name: &str) -> Option<usize> {
            self.entries.iter().position(|e| e.name == name)
        }

        pub fn name_for_index(&self, i: usize) -> Option<&str> {
            self.entries.get(i).map(|e| e.name.as_str())
        }

        pub fn by_name(&mut self, name: &str) -> ZipResult<ZipFile<'_>> {
            match self.index_for_name(name) {
                Some(i) => self.by_index(i),
                None => Err(ZipError::FileNotFound),
            }
        }

        pub fn by_index(&mut self, i: usize) -> ZipResult<ZipFile<'_>> {
            let e = self.entries.get(i).ok_or(ZipError::FileNotFound)?;
            Ok(ZipFile {
                e,
                data: &self.data[e.start..e.start + e.len],
                at: 0,
            })
        }
    }

    pub struct ZipFile<'a> {
        e: &'a Entry,
        data: &'a [u8],
        at: usize,
    }

    impl ZipFile<'_> {
        pub fn name(&self) -> &str {
            &self.e.name
        }
        pub fn size(&self) -> u64 {
            self.e.len as u64
        }
        pub fn compressed_size(&self) -> u64 {
            self.e.len as u64
        }
        pub fn is_dir(&self) -> bool {
            self.e.dir
        }
        pub fn is_file(&self) -> bool {
            !self.e.dir
        }
    }

    impl Read for ZipFile<'_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let n = buf.len().min(self.data.len() - self.at);
            buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        }
    }
}

pub use read::ZipArchive;
pub use write::ZipWriter;
