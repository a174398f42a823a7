// C21
// closes or accesses the archive while an entry is being streamed
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<W: AsyncWrite + Unpin>(mut zip: ZipFileWriter<W>, e: ZipEntry) -> Result<()> {
    let mut a = zip.write_entry_stream(e).await?;
    a.close().await?; //~GOOD
    let b = zip.close().await?;
    a.close().await?; //~BAD
    Ok(())
}
