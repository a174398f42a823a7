// C26 C35
// MUST entry readers of shared readers move to other tasks
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn send<T: Send>(t: T) {}
fn f<'a>(m: &'a mem::ZipFileReader, s: &'a fs::ZipFileReader) {
    send(m.reader_with_entry(0));
    send(m.reader_without_entry(0));
    send(s.reader_with_entry(0));
    send(s.reader_without_entry(0));
}
async fn g(m: mem::ZipFileReader, s: fs::ZipFileReader) -> Result<()> {
    send(m.reader_with_entry(0).await?);
    send(s.reader_with_entry(0).await?);
    Ok(())
}
