// C37
// reads entry data through a source that is gone
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<>(mut r: Cursor<Vec<u8>>, mut zip: seek::ZipFileReader<Cursor<Vec<u8>>>) -> Result<()> {
    let mut a = zip.reader_without_entry(0).await?;
    drop(zip); //~BAD
    a.read(&mut [0; 8]).await?;
    Ok(())
}
