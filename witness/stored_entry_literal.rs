// C21
// makes up the position of an entry
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f(e: ZipEntry, s: StoredZipEntry) -> StoredZipEntry {
    s //~GOOD
    StoredZipEntry { entry: e, file_offset: 0, header_size: 0 } //~BAD
}
