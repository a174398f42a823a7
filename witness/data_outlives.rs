// C37
// keeps archive bytes borrowed from a dropped reader
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<>(zip: mem::ZipFileReader) -> Result<()> {
    let d = zip.data();
    drop(zip); //~BAD
    let n = d.len();
    Ok(())
}
