// C21
// changes the entry of an opened archive
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f(mut e: StoredZipEntry) -> u64 {
    e.compressed_size = 0; //~BAD
    e.header_offset = 0; //~BAD
    e.compressed_size() + e.header_offset()
}
