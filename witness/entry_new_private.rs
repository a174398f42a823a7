// C21
// builds an entry without its builder
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f(n: ZipString) -> ZipEntry {
    ZipEntryBuilder::new(n, Compression::Stored).build() //~GOOD
    ZipEntry::new(n, Compression::Stored) //~BAD
}
