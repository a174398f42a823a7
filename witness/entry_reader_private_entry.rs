// C21
// attaches foreign metadata to an entry reader
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f<'a, R: AsyncBufRead + Unpin>(q: ZipEntryReader<'a, R, WithoutEntry>, e: &'a ZipEntry, w: ZipEntryReader<'a, R, WithEntry<'a>>) -> ZipEntryReader<'a, R, WithEntry<'a>> {
    w //~GOOD
    q.into_with_entry(e) //~BAD
}
