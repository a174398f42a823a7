// C21 C26
// holds two entry readers over one seekable source
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<R: AsyncBufRead + AsyncSeek + Unpin>(mut zip: seek::ZipFileReader<R>) -> Result<()> {
    let mut a = zip.reader_without_entry(0).await?;
    a.read(&mut [0; 8]).await?; //~GOOD
    let mut b = zip.reader_with_entry(1).await?;
    a.read(&mut [0; 8]).await?; //~BAD
    b.read(&mut [0; 8]).await?;
    Ok(())
}
