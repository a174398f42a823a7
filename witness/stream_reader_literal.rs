// C21
// builds a stream reader around a state by hand
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f<R: AsyncBufRead + Unpin>(q: R) -> stream::ZipFileReader<stream::Ready<R>> {
    stream::ZipFileReader::new(q) //~GOOD
    stream::ZipFileReader(q) //~BAD
}
