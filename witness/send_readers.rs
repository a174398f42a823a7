// C35
// MUST readers move between threads
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn send<T: Send>(t: T) -> T { t }
fn sync<T: Sync>(t: &T) {}
fn unpin<T: Unpin>(t: &T) {}
fn f<'a, R: AsyncBufRead + Unpin + Send>(a: stream::ZipFileReader<stream::Ready<R>>, b: stream::ZipFileReader<stream::Reading<'a, R, WithEntry<'a>>>, c: stream::ZipFileReader<stream::Reading<'a, R, WithoutEntry>>,
    d: ZipEntryReader<'a, R, WithEntry<'a>>, e: ZipEntryReader<'a, R, WithoutEntry>, g: seek::ZipFileReader<R>, h: mem::ZipFileReader, i: fs::ZipFileReader) {
    send(a); send(b); send(c); send(d); send(e); send(g); send(h); send(i);
}
