// C35
// MUST archive descriptions and values are shared between threads
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn send<T: Send>(t: T) -> T { t }
fn sync<T: Sync>(t: &T) {}
fn unpin<T: Unpin>(t: &T) {}
fn f(a: &ZipFile, b: &ZipEntry, c: &ZipString, d: &ZipDateTime, e: &ZipEntryBuilder, g: &ZipFileBuilder, h: &StoredZipEntry, i: &mem::ZipFileReader, j: &fs::ZipFileReader) {
    sync(a); sync(b); sync(c); sync(d); sync(e); sync(g); sync(h); sync(i); sync(j);
}
