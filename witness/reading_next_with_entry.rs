// C21
// asks a reader with an open entry for the next entry
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<'a, R: AsyncBufRead + Unpin>(mut zip: stream::ZipFileReader<stream::Reading<'a, R, WithEntry<'a>>>) -> Result<()> {
    let zip = zip.skip().await?; //~GOOD
    let b = zip.next_with_entry().await?;
    Ok(())
}
