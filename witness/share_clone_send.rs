// C26 C35
// MUST the memory and file-system readers are cloned and shared between tasks
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn need<T: Clone + Send + Sync + 'static>() {}
fn f() {
    need::<mem::ZipFileReader>();
    need::<fs::ZipFileReader>();
    need::<ZipFile>();
}
