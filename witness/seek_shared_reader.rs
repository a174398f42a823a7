// C21 C26
// opens an entry of a seekable source through a shared reference
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<R: AsyncBufRead + AsyncSeek + Unpin>(zip: &seek::ZipFileReader<R>, own: &mut seek::ZipFileReader<R>) -> Result<()> {
    let a = own.reader_with_entry(0).await?; //~GOOD
    let a = zip.reader_with_entry(0).await?; //~BAD
    Ok(())
}
