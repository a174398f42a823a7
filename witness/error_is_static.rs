// C35
// MUST errors move between threads and outlive the archive
#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
fn send<T: Send>(t: T) -> T { t }
fn sync<T: Sync>(t: &T) {}
fn unpin<T: Unpin>(t: &T) {}
use async_zip::error::ZipError;
fn need<T: std::error::Error + Send + Sync + 'static>() {}
fn f() { need::<ZipError>(); }
fn g(e: ZipError) -> Box<dyn std::error::Error + Send + Sync> { e.into() }
