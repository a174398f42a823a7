// C35
// MUST entry readers and writers can be polled without pinning
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn send<T: Send>(t: T) -> T { t }
fn sync<T: Sync>(t: &T) {}
fn unpin<T: Unpin>(t: &T) {}
fn f<'a, 'b, R: AsyncBufRead + Unpin, W: AsyncWrite + Unpin>(a: &ZipEntryReader<'a, R, WithEntry<'a>>, b: &ZipEntryReader<'a, R, WithoutEntry>, c: &EntryStreamWriter<'b, W>, d: &stream::ZipFileReader<stream::Reading<'a, R, WithEntry<'a>>>) {
    unpin(a); unpin(b); unpin(c); unpin(d);
}
