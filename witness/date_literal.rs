// C21
// makes up a date from raw words
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f() -> ZipDateTime {
    ZipDateTimeBuilder::new().build() //~GOOD
    ZipDateTime { date: 0, time: 0 } //~BAD
}
