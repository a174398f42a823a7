// C35
// MUST reading and writing whole archives can be spawned on a multi-threaded executor
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn send<T: Send>(t: T) -> T { t }
fn sync<T: Sync>(t: &T) {}
fn unpin<T: Unpin>(t: &T) {}
fn spawn<F: std::future::Future + Send + 'static>(f: F) {}
fn f<R: AsyncBufRead + AsyncSeek + Unpin + Send + 'static, W: AsyncWrite + Unpin + Send + 'static>(r: R, w: W, e: ZipEntryBuilder, e2: ZipEntryBuilder, d: Vec<u8>) {
    spawn(async move {
        let mut z = seek::ZipFileReader::new(r).await?;
        let mut b = Vec::new();
        z.reader_with_entry(0).await?.read_to_end_checked(&mut b).await?;
        Result::Ok(b)
    });
    spawn(async move {
        let mut z = ZipFileWriter::new(w);
        z.write_entry_whole(e, &d).await?;
        let mut s = z.write_entry_stream(e2).await?;
        s.write_all(&d).await?;
        s.close().await?;
        z.close().await
    });
}
fn g<R: AsyncBufRead + Unpin + Send + 'static>(r: R) {
    spawn(async move {
        let mut z = stream::ZipFileReader::new(r);
        let mut b = Vec::new();
        while let Some(mut n) = z.next_with_entry().await? {
            n.reader_mut().read_to_end_checked(&mut b).await?;
            z = n.done().await?;
        }
        Result::Ok(b)
    });
}
