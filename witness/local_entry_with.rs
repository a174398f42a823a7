// C37
// moves a single-threaded source to another thread inside a library type
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
struct Local(std::rc::Rc<()>, Cursor<Vec<u8>>);
use std::{io, pin::Pin, task::{Context, Poll}};
impl AsyncRead for Local { fn poll_read(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { Pin::new(&mut self.1).poll_read(c, b) } }
impl AsyncBufRead for Local { fn poll_fill_buf(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { Pin::new(&mut self.get_mut().1).poll_fill_buf(c) } fn consume(mut self: Pin<&mut Self>, n: usize) { Pin::new(&mut self.1).consume(n) } }
impl AsyncSeek for Local { fn poll_seek(mut self: Pin<&mut Self>, c: &mut Context<'_>, p: io::SeekFrom) -> Poll<io::Result<u64>> { Pin::new(&mut self.1).poll_seek(c, p) } }
impl AsyncWrite for Local {
    fn poll_write(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
type Src = Local; //~BAD
type Src = Cursor<Vec<u8>>; //~GOOD
fn send<T: Send>() {}
fn f() { send::<ZipEntryReader<'static, Src, WithEntry<'static>>>(); }
