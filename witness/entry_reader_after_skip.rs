// C21
// keeps reading an entry after it was finished
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<'a, R: AsyncBufRead + Unpin>(mut zip: stream::ZipFileReader<stream::Reading<'a, R, WithEntry<'a>>>) -> Result<()> {
    let r = zip.reader_mut();
    r.read(&mut [0; 8]).await?; //~GOOD
    let next = zip.skip().await?;
    r.read(&mut [0; 8]).await?; //~BAD
    Ok(())
}
