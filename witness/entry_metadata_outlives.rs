// C37
// keeps entry metadata borrowed from a dropped reader
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
async fn f<>(zip: mem::ZipFileReader) -> Result<()> {
    let e = zip.file().entries().first().unwrap().filename();
    drop(zip); //~BAD
    let n = e.as_bytes().len();
    Ok(())
}
