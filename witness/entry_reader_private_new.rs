// C21
// builds an entry reader over any source and bound
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f<'a, R: AsyncBufRead + Unpin>(r: R, q: ZipEntryReader<'a, R, WithoutEntry>) -> ZipEntryReader<'a, R, WithoutEntry> {
    q //~GOOD
    ZipEntryReader::new_with_owned(r, Compression::Stored, 10) //~BAD
}
