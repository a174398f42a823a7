// C21
// builds the state of an open entry by hand
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn f<'a, R, E>(r: ZipEntryReader<'a, R, E>, q: stream::Reading<'a, R, E>) -> stream::Reading<'a, R, E> {
    q //~GOOD
    stream::Reading(r, false) //~BAD
}
