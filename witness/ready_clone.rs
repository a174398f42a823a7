// C21
// duplicates a reader over a source that cannot be shared
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<R: AsyncBufRead + Unpin>(zip: stream::ZipFileReader<stream::Ready<R>>) -> Result<()> {
    let b = zip.clone(); //~BAD
    let c = zip.next_with_entry().await?;
    Ok(())
}
