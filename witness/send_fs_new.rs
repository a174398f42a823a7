// C35
// MUST the future that opens an archive file moves between threads
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn send<T: Send>(t: T) -> T { t }
fn sync<T: Sync>(t: &T) {}
fn unpin<T: Unpin>(t: &T) {}
fn f(p: &'static str) { send(fs::ZipFileReader::new(p)); }
