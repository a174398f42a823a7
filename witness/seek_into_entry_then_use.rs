// C21
// uses a seek reader after it was consumed
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<R: AsyncBufRead + AsyncSeek + Unpin + 'static>(mut zip: seek::ZipFileReader<R>) -> Result<()> {
    let n = zip.file().entries().len(); //~GOOD
    let a = zip.into_entry(0).await?;
    let n = zip.file().entries().len(); //~BAD
    Ok(())
}
