// C21
// metadata-dependent operation on a reader without metadata
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<R: AsyncBufRead + Unpin>(zip: stream::ZipFileReader<stream::Ready<R>>) -> Result<()> {
    let mut a = zip.next_with_entry().await?.unwrap(); //~GOOD
    let mut a = zip.next_without_entry().await?.unwrap(); //~BAD
    let x = a.reader_mut().read_to_string_checked(&mut String::new()).await?;
    Ok(())
}
