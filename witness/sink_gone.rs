// C37
// writes an entry whose archive writer is gone
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<>(mut zip: ZipFileWriter<Cursor<Vec<u8>>>, e: ZipEntryBuilder) -> Result<()> {
    let mut a = zip.write_entry_stream(e).await?;
    drop(zip); //~BAD
    a.write(&[0; 8]).await?;
    Ok(())
}
