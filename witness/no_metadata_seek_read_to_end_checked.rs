// C21
// metadata-dependent operation on a reader without metadata
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<R: AsyncBufRead + AsyncSeek + Unpin>(mut zip: seek::ZipFileReader<R>) -> Result<()> {
    let mut a = zip.reader_with_entry(0).await?; //~GOOD
    let mut a = zip.reader_without_entry(0).await?; //~BAD
    let x = a.read_to_end_checked(&mut Vec::new()).await?;
    Ok(())
}
