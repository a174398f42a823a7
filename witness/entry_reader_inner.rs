// C21
// takes the source out of an entry reader
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f<'a, R: AsyncBufRead + Unpin>(mut q: ZipEntryReader<'a, R, WithoutEntry>) -> u32 {
    let c = q.compute_hash();
    q.into_inner(); //~BAD
    c
}
