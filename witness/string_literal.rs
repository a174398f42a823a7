// C21 C19
// builds text marked as UTF-8 from unvalidated bytes
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f(raw: Vec<u8>) -> ZipString {
    ZipString::new(raw, StringEncoding::Utf8) //~GOOD
    ZipString { encoding: StringEncoding::Utf8, raw, alternative: None } //~BAD
}
