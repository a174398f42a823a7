"""Writes witness/*.rs: each file is one program; lines marked //~BAD exist only in the misuse, //~GOOD only in its twin."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'witness')
HEAD = '''#![allow(unused, dead_code)]
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::base::write::{EntryStreamWriter, ZipFileWriter};
use async_zip::error::Result;
use async_zip::*;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, Cursor};
'''
W = []


def w(name, prop, title, body):
    W.append(name)
    open(os.path.join(D, name + '.rs'), 'w').write('// %s\n// %s\n' % (prop, title) + HEAD + body.strip('\n') + '\n')


def asy(args, body):
    return 'async fn f<%s) -> Result<()> {\n%s\n    Ok(())\n}\n' % (args, '\n'.join('    ' + l for l in body.strip().split('\n')))


SR = "R: AsyncBufRead + Unpin>(zip: stream::ZipFileReader<stream::Ready<R>>"
SRD = "'a, R: AsyncBufRead + Unpin>(mut zip: stream::ZipFileReader<stream::Reading<'a, R, WithEntry<'a>>>"
# ---- streaming reader
w('stream_next_twice', 'C21', 'reads a new entry while one is open', asy(SR, '''
let a = zip.next_with_entry().await?;
let zip = a.unwrap().skip().await?; //~GOOD
let b = zip.next_with_entry().await?;'''))
w('stream_next_twice_without', 'C21', 'reads a new entry while one is open', asy(SR, '''
let a = zip.next_without_entry().await?;
let zip = a.unwrap().skip().await?; //~GOOD
let b = zip.next_without_entry().await?;'''))
w('stream_into_inner_open', 'C21', 'takes the source back while an entry is open', asy(SR, '''
let a = zip.next_without_entry().await?;
let zip = a.unwrap().done().await?; //~GOOD
let b = zip.into_inner().await;'''))
w('stream_into_inner_reading', 'C21', 'takes the source out of a reader that has an open entry', asy(SRD, '''
let zip = zip.done().await?; //~GOOD
let b = zip.into_inner().await;'''))
for op in ('next_with_entry', 'next_without_entry'):
    w('reading_' + op, 'C21', 'asks a reader with an open entry for the next entry', asy(SRD, '''
let zip = zip.skip().await?; //~GOOD
let b = zip.%s().await?;''' % op))
for op in ('done', 'skip'):
    w('ready_' + op, 'C21', 'finishes an entry that was never opened', asy(SR, '''
let zip = zip.next_with_entry().await?.unwrap(); //~GOOD
let b = zip.%s().await?;''' % op))
    w('reading_twice_' + op, 'C21', 'uses a stream reader after it was consumed', asy(SRD, '''
let next = zip.%s().await?;
let zip = next.next_with_entry().await?.unwrap(); //~GOOD
let again = zip.%s().await?;''' % (op, op)))
    w('entry_reader_after_' + op, 'C21', 'keeps reading an entry after it was finished', asy(SRD, '''
let r = zip.reader_mut();
r.read(&mut [0; 8]).await?; //~GOOD
let next = zip.%s().await?;
r.read(&mut [0; 8]).await?; //~BAD''' % op))
w('ready_reader_mut', 'C21', 'reads entry data without an open entry', asy(SR, '''
let mut zip = zip.next_with_entry().await?.unwrap(); //~GOOD
let mut zip = zip; //~BAD
zip.reader_mut().read(&mut [0; 8]).await?;'''))
w('ready_reader', 'C21', 'asks for the open entry when there is none', asy(SR, '''
let zip = zip.next_with_entry().await?.unwrap(); //~GOOD
let n = zip.reader().entry().uncompressed_size();'''))
w('ready_clone', 'C21', 'duplicates a reader over a source that cannot be shared', asy("R: AsyncBufRead + Unpin>(zip: stream::ZipFileReader<stream::Ready<R>>", '''
let b = zip.clone(); //~BAD
let c = zip.next_with_entry().await?;'''))
# ---- metadata
for op, arg in (('entry', ''), ('read_to_end_checked', '&mut Vec::new()'), ('read_to_string_checked', '&mut String::new()')):
    aw = '' if op == 'entry' else '.await?'
    w('no_metadata_' + op, 'C21', 'metadata-dependent operation on a reader without metadata',
      asy("R: AsyncBufRead + Unpin>(zip: stream::ZipFileReader<stream::Ready<R>>", '''
let mut a = zip.next_with_entry().await?.unwrap(); //~GOOD
let mut a = zip.next_without_entry().await?.unwrap(); //~BAD
let x = a.reader_mut().%s(%s)%s;''' % (op, arg, aw)))
    w('no_metadata_seek_' + op, 'C21', 'metadata-dependent operation on a reader without metadata',
      asy("R: AsyncBufRead + AsyncSeek + Unpin>(mut zip: seek::ZipFileReader<R>", '''
let mut a = zip.reader_with_entry(0).await?; //~GOOD
let mut a = zip.reader_without_entry(0).await?; //~BAD
let x = a.%s(%s)%s;''' % (op, arg, aw)))
    w('no_metadata_mem_' + op, 'C21', 'metadata-dependent operation on a reader without metadata', asy(">(zip: mem::ZipFileReader", '''
let mut a = zip.reader_with_entry(0).await?; //~GOOD
let mut a = zip.reader_without_entry(0).await?; //~BAD
let x = a.%s(%s)%s;''' % (op, arg, aw)))
# ---- seekable reader
SK = "R: AsyncBufRead + AsyncSeek + Unpin>(mut zip: seek::ZipFileReader<R>"
for k, (a, b) in enumerate((('reader_with_entry', 'reader_with_entry'), ('reader_without_entry', 'reader_with_entry'), ('reader_without_entry', 'reader_without_entry'))):
    w('seek_two_readers_%d' % k, 'C21 C26', 'holds two entry readers over one seekable source', asy(SK, '''
let mut a = zip.%s(0).await?;
a.read(&mut [0; 8]).await?; //~GOOD
let mut b = zip.%s(1).await?;
a.read(&mut [0; 8]).await?; //~BAD
b.read(&mut [0; 8]).await?;''' % (a, b)))
w('seek_inner_while_reading', 'C21 C26', 'moves the source while an entry reader is open', asy(SK, '''
let mut a = zip.reader_with_entry(0).await?;
a.read(&mut [0; 8]).await?; //~GOOD
let i = zip.inner_mut();
a.read(&mut [0; 8]).await?; //~BAD
'''))
w('seek_into_inner_while_reading', 'C21', 'takes the source while an entry reader is open', asy(SK, '''
let mut a = zip.reader_with_entry(0).await?;
a.read(&mut [0; 8]).await?; //~GOOD
let i = zip.into_inner();
a.read(&mut [0; 8]).await?; //~BAD
'''))
w('seek_into_entry_then_use', 'C21', 'uses a seek reader after it was consumed', asy("R: AsyncBufRead + AsyncSeek + Unpin + 'static>(mut zip: seek::ZipFileReader<R>", '''
let n = zip.file().entries().len(); //~GOOD
let a = zip.into_entry(0).await?;
let n = zip.file().entries().len(); //~BAD
'''))
w('seek_shared_reader', 'C21 C26', 'opens an entry of a seekable source through a shared reference', asy("R: AsyncBufRead + AsyncSeek + Unpin>(zip: &seek::ZipFileReader<R>, own: &mut seek::ZipFileReader<R>", '''
let a = own.reader_with_entry(0).await?; //~GOOD
let a = zip.reader_with_entry(0).await?; //~BAD
'''))
w('mem_reader_outlives', 'C21', 'an entry reader outlives the archive it borrows', asy(">(zip: mem::ZipFileReader", '''
let mut a = zip.reader_with_entry(0).await?;
drop(zip); //~BAD
a.read(&mut [0; 8]).await?;
drop(zip); //~GOOD'''.replace('drop(zip); //~GOOD', 'let z = &zip; //~GOOD')))
# ---- writer
WR = "W: AsyncWrite + Unpin>(mut zip: ZipFileWriter<W>, e: ZipEntry"
for op in ('write_entry_stream', 'write_entry_stream_precompressed', 'write_entry_whole', 'write_entry_whole_precompressed'):
    for o2 in ('write_entry_stream', 'write_entry_stream_precompressed'):
        w('%s_during_%s' % (op, o2), 'C21', 'opens a second entry while an entry is being streamed', asy(WR, '''
let mut a = zip.%s(e.clone()).await?;
a.close().await?; //~GOOD
let b = zip.%s(e.clone()%s).await?;
a.close().await?; //~BAD''' % (o2, op, ', &[]' if 'whole' in op else '')))
for op in ('close().await?', 'inner_mut()', 'comment(String::new())'):
    w('%s_while_streaming' % op.split('(')[0], 'C21', 'closes or accesses the archive while an entry is being streamed', asy(WR, '''
let mut a = zip.write_entry_stream(e).await?;
a.close().await?; //~GOOD
let b = zip.%s;
a.close().await?; //~BAD''' % op))
w('stream_writer_after_close', 'C21', 'writes to an entry after it was closed', asy(WR, '''
let mut a = zip.write_entry_stream(e).await?;
a.write_all(&[1]).await?; //~GOOD
a.close().await?;
a.write_all(&[1]).await?; //~BAD'''))
w('stream_writer_close_twice', 'C21', 'closes an entry twice', asy(WR, '''
let mut a = zip.write_entry_stream(e.clone()).await?;
a.close().await?;
let mut a = zip.write_entry_stream(e).await?; //~GOOD
a.close().await?;'''))
w('stream_writer_clone', 'C21', 'duplicates an open entry', asy(WR, '''
let mut a = zip.write_entry_stream(e).await?;
let b = a.clone(); //~BAD
a.close().await?;'''))
w('writer_after_close', 'C21', 'uses a writer after it was closed', asy(WR, '''
zip.write_entry_whole(e.clone(), &[]).await?; //~GOOD
let x = zip.close().await?;
zip.write_entry_whole(e, &[]).await?; //~BAD'''))
w('writer_close_twice', 'C21', 'closes an archive twice', asy(WR, '''
let x = zip.close().await?;
let zip = ZipFileWriter::new(x); //~GOOD
let y = zip.close().await?;'''))
w('writer_clone', 'C21', 'duplicates a writer', asy(WR, '''
let b = zip.clone(); //~BAD
let x = zip.close().await?;'''))
w('stream_writer_outlives', 'C21', 'an open entry outlives its archive writer', asy(WR, '''
let mut a = zip.write_entry_stream(e).await?;
drop(zip); //~BAD
a.close().await?;'''))
w('seek_reader_outlives', 'C21', 'an entry reader outlives the seekable reader it borrows', asy(SK, '''
let mut a = zip.reader_without_entry(0).await?;
drop(zip); //~BAD
a.read(&mut [0; 8]).await?;'''))
w('metadata_outlives_done', 'C21', 'keeps the metadata of a finished entry by reference', asy(SRD, '''
let m = zip.reader().entry();
let n = m.crc32(); //~GOOD
let next = zip.done().await?;
let n = m.crc32(); //~BAD'''))
w('entry_reader_private_new', 'C21', 'builds an entry reader over any source and bound', '''
fn f<'a, R: AsyncBufRead + Unpin>(r: R, q: ZipEntryReader<'a, R, WithoutEntry>) -> ZipEntryReader<'a, R, WithoutEntry> {
    q //~GOOD
    ZipEntryReader::new_with_owned(r, Compression::Stored, 10) //~BAD
}''')
w('entry_reader_private_entry', 'C21', 'attaches foreign metadata to an entry reader', '''
fn f<'a, R: AsyncBufRead + Unpin>(q: ZipEntryReader<'a, R, WithoutEntry>, e: &'a ZipEntry, w: ZipEntryReader<'a, R, WithEntry<'a>>) -> ZipEntryReader<'a, R, WithEntry<'a>> {
    w //~GOOD
    q.into_with_entry(e) //~BAD
}''')
w('entry_reader_inner', 'C21', 'takes the source out of an entry reader', '''
fn f<'a, R: AsyncBufRead + Unpin>(mut q: ZipEntryReader<'a, R, WithoutEntry>) -> u32 {
    let c = q.compute_hash();
    q.into_inner(); //~BAD
    c
}''')
# ---- validated types
w('string_literal', 'C21 C19', 'builds text marked as UTF-8 from unvalidated bytes', '''
fn f(raw: Vec<u8>) -> ZipString {
    ZipString::new(raw, StringEncoding::Utf8) //~GOOD
    ZipString { encoding: StringEncoding::Utf8, raw, alternative: None } //~BAD
}''')
w('string_mutate', 'C21 C19', 'changes the bytes of validated text', '''
fn f(mut s: ZipString) -> usize {
    s.raw.push(0xff); //~BAD
    s.as_bytes().len()
}''')
w('string_mutate_slice', 'C21 C19', 'changes the bytes of validated text through an accessor', '''
fn f(mut s: ZipString) -> u8 {
    let b = s.as_bytes();
    b[0] = 0xff; //~BAD
    b[0]
}''')
w('string_encoding', 'C21 C19', 'changes the encoding of a value', '''
fn f(mut s: ZipString) -> StringEncoding {
    s.encoding = StringEncoding::Utf8; //~BAD
    s.encoding()
}''')
w('entry_field', 'C21', 'changes an entry without its builder', '''
fn f(mut e: ZipEntry) -> u32 {
    e.crc32 = 0; //~BAD
    e.crc32()
}''')
w('stored_entry_mutate', 'C21', 'changes the entry of an opened archive', '''
fn f(mut e: StoredZipEntry) -> u64 {
    e.compressed_size = 0; //~BAD
    e.header_offset = 0; //~BAD
    e.compressed_size() + e.header_offset()
}''')
w('stored_entry_offset', 'C21', 'changes the recorded position of an entry', '''
fn f(mut e: StoredZipEntry) -> u64 {
    e.file_offset = 0; //~BAD
    e.header_offset()
}''')
w('stored_entry_literal', 'C21', 'makes up the position of an entry', '''
fn f(e: ZipEntry, s: StoredZipEntry) -> StoredZipEntry {
    s //~GOOD
    StoredZipEntry { entry: e, file_offset: 0, header_size: 0 } //~BAD
}''')
w('stored_entry_deref_mut', 'C21', 'changes the entry of an opened archive in place', '''
fn f(mut s: StoredZipEntry, e: ZipEntry) -> u64 {
    *s = e; //~BAD
    s.compressed_size()
}''')
w('file_literal', 'C21', 'makes up an archive', '''
fn f(c: ZipString, z: ZipFile) -> ZipFile {
    z //~GOOD
    ZipFile { entries: Vec::new(), zip64: false, comment: c } //~BAD
}''')
w('file_entries_mut', 'C21', 'changes the entry list of an archive', '''
fn f(mut z: ZipFile) -> usize {
    z.entries.clear(); //~BAD
    z.entries().len()
}''')
w('date_literal', 'C21', 'makes up a date from raw words', '''
fn f() -> ZipDateTime {
    ZipDateTimeBuilder::new().build() //~GOOD
    ZipDateTime { date: 0, time: 0 } //~BAD
}''')
w('with_entry_literal', 'C21', 'pairs a reader with metadata that is not its own', '''
fn f<'a>(e: ZipEntry, w: WithEntry<'a>) -> WithEntry<'a> {
    w //~GOOD
    WithEntry(e) //~BAD
}''')
w('reading_literal', 'C21', 'builds the state of an open entry by hand', '''
fn f<'a, R, E>(r: ZipEntryReader<'a, R, E>, q: stream::Reading<'a, R, E>) -> stream::Reading<'a, R, E> {
    q //~GOOD
    stream::Reading(r, false) //~BAD
}''')
w('ready_literal', 'C21', 'builds the state of a stream reader by hand', '''
fn f<R>(r: R, q: stream::Ready<R>) -> stream::Ready<R> {
    q //~GOOD
    stream::Ready(r) //~BAD
}''')
w('stream_reader_literal', 'C21', 'builds a stream reader around a state by hand', '''
fn f<R: AsyncBufRead + Unpin>(q: R) -> stream::ZipFileReader<stream::Ready<R>> {
    stream::ZipFileReader::new(q) //~GOOD
    stream::ZipFileReader(q) //~BAD
}''')
w('stream_writer_literal', 'C21', 'opens an entry without the writer', asy("W: AsyncWrite + Unpin>(mut zip: ZipFileWriter<W>, e: ZipEntry", '''
let a = zip.write_entry_stream(e).await?; //~GOOD
let a = EntryStreamWriter::from_raw(&mut zip, e).await?; //~BAD
a.close().await?;'''))
w('entry_new_private', 'C21', 'builds an entry without its builder', '''
fn f(n: ZipString) -> ZipEntry {
    ZipEntryBuilder::new(n, Compression::Stored).build() //~GOOD
    ZipEntry::new(n, Compression::Stored) //~BAD
}''')
# ---- sharing (must compile)
w('share_clone_send', 'C26 C35', 'MUST the memory and file-system readers are cloned and shared between tasks', '''
fn need<T: Clone + Send + Sync + 'static>() {}
fn f() {
    need::<mem::ZipFileReader>();
    need::<fs::ZipFileReader>();
    need::<ZipFile>();
}''')
w('share_two_mem', 'C26', 'MUST two entry readers of one memory reader', asy(">(zip: &mem::ZipFileReader", '''
let mut a = zip.reader_with_entry(0).await?;
let mut b = zip.reader_without_entry(1).await?;
a.read(&mut [0; 8]).await?;
b.read(&mut [0; 8]).await?;
a.read(&mut [0; 8]).await?;'''))
w('share_two_fs', 'C26', 'MUST two entry readers of one file-system reader', asy(">(zip: &fs::ZipFileReader", '''
let mut a = zip.reader_with_entry(0).await?;
let mut b = zip.reader_without_entry(1).await?;
a.read(&mut [0; 8]).await?;
b.read(&mut [0; 8]).await?;
a.read(&mut [0; 8]).await?;'''))
w('share_tasks', 'C26 C35', 'MUST entry readers of shared readers move to other tasks', '''
fn send<T: Send>(t: T) {}
fn f<'a>(m: &'a mem::ZipFileReader, s: &'a fs::ZipFileReader) {
    send(m.reader_with_entry(0));
    send(m.reader_without_entry(0));
    send(s.reader_with_entry(0));
    send(s.reader_without_entry(0));
}
async fn g(m: mem::ZipFileReader, s: fs::ZipFileReader) -> Result<()> {
    send(m.reader_with_entry(0).await?);
    send(s.reader_with_entry(0).await?);
    Ok(())
}''')
# ---- multi-threaded executors (must compile)
SEND = 'fn send<T: Send>(t: T) -> T { t }\nfn sync<T: Sync>(t: &T) {}\nfn unpin<T: Unpin>(t: &T) {}\n'
BR = 'R: AsyncBufRead + Unpin + Send'
SKR = 'R: AsyncBufRead + AsyncSeek + Unpin + Send'
WR_ = 'W: AsyncWrite + Unpin + Send'


def must(name, what, body):
    w(name, 'C35', 'MUST ' + what, SEND + body)


for op in ('next_with_entry', 'next_without_entry'):
    must('send_stream_' + op, 'the future of the stream reader\'s %s moves between threads' % op, "fn f<%s>(z: stream::ZipFileReader<stream::Ready<R>>) { send(z.%s()); }" % (BR, op))
must('send_stream_into_inner', 'the future of the stream reader\'s into_inner moves between threads', "fn f<%s>(z: stream::ZipFileReader<stream::Ready<R>>) { send(z.into_inner()); }" % BR)
for op in ('done', 'skip'):
    for e in ('WithEntry<\'a>', 'WithoutEntry'):
        must('send_stream_%s_%s' % (op, e.split('<')[0].lower()), 'the future of the stream reader\'s %s moves between threads' % op,
             "fn f<'a, %s>(z: stream::ZipFileReader<stream::Reading<'a, R, %s>>) { send(z.%s()); }" % (BR, e, op))
must('send_seek_new', 'the future that opens a seekable archive moves between threads', "fn f<%s>(r: R) { send(seek::ZipFileReader::new(r)); }" % SKR)
for op in ('reader_with_entry', 'reader_without_entry'):
    must('send_seek_' + op, 'the future of the seek reader\'s %s moves between threads' % op, "fn f<%s>(mut z: seek::ZipFileReader<R>) { send(z.%s(0)); }" % (SKR, op))
must('send_seek_into_entry', 'the future of the seek reader\'s into_entry moves between threads', "fn f<%s + 'static>(z: seek::ZipFileReader<R>) { send(z.into_entry(0)); }" % SKR)
must('send_mem_new', 'the future that opens an archive in memory moves between threads', "fn f(d: Vec<u8>) { send(mem::ZipFileReader::new(d)); }")
must('send_fs_new', 'the future that opens an archive file moves between threads', "fn f(p: &'static str) { send(fs::ZipFileReader::new(p)); }")
for op in ('read_to_end_checked', 'read_to_string_checked'):
    b = 'Vec<u8>' if 'end' in op else 'String'
    must('send_' + op, 'the future of %s moves between threads' % op, "fn f<'a, %s>(z: &mut ZipEntryReader<'a, R, WithEntry<'a>>, b: &mut %s) { send(z.%s(b)); }" % (BR, b, op))
for op in ('write_entry_whole', 'write_entry_whole_precompressed'):
    must('send_' + op, 'the future of %s moves between threads' % op, "fn f<%s>(z: &mut ZipFileWriter<W>, e: ZipEntryBuilder, d: &[u8]) { send(z.%s(e, d)); }" % (WR_, op))
for op in ('write_entry_stream', 'write_entry_stream_precompressed'):
    must('send_' + op, 'the future of %s moves between threads' % op, "fn f<%s>(z: &mut ZipFileWriter<W>, e: ZipEntryBuilder) { send(z.%s(e)); }" % (WR_, op))
must('send_entry_close', 'the future that closes an entry moves between threads', "fn f<'b, %s>(e: EntryStreamWriter<'b, W>) { send(e.close()); }" % WR_)
must('send_writer_close', 'the future that closes an archive moves between threads', "fn f<%s>(z: ZipFileWriter<W>) { send(z.close()); }" % WR_)
must('send_readers', 'readers move between threads', "fn f<'a, %s>(a: stream::ZipFileReader<stream::Ready<R>>, b: stream::ZipFileReader<stream::Reading<'a, R, WithEntry<'a>>>, c: stream::ZipFileReader<stream::Reading<'a, R, WithoutEntry>>,\n    d: ZipEntryReader<'a, R, WithEntry<'a>>, e: ZipEntryReader<'a, R, WithoutEntry>, g: seek::ZipFileReader<R>, h: mem::ZipFileReader, i: fs::ZipFileReader) {\n    send(a); send(b); send(c); send(d); send(e); send(g); send(h); send(i);\n}" % BR)
must('send_writers', 'writers move between threads', "fn f<'b, %s>(a: ZipFileWriter<W>, b: EntryStreamWriter<'b, W>) {\n    send(a); send(b);\n}" % WR_)
must('sync_values', 'archive descriptions and values are shared between threads', "fn f(a: &ZipFile, b: &ZipEntry, c: &ZipString, d: &ZipDateTime, e: &ZipEntryBuilder, g: &ZipFileBuilder, h: &StoredZipEntry, i: &mem::ZipFileReader, j: &fs::ZipFileReader) {\n    sync(a); sync(b); sync(c); sync(d); sync(e); sync(g); sync(h); sync(i); sync(j);\n}")
must('error_is_static', 'errors move between threads and outlive the archive', "use async_zip::error::ZipError;\nfn need<T: std::error::Error + Send + Sync + 'static>() {}\nfn f() { need::<ZipError>(); }\nfn g(e: ZipError) -> Box<dyn std::error::Error + Send + Sync> { e.into() }")
must('values_are_static', 'archive descriptions outlive the reader they came from', "fn own<T: Clone + 'static>(t: &T) {}\nfn f(a: &ZipFile, b: &ZipEntry, c: &ZipString, d: &StoredZipEntry) {\n    own(a); own(b); own(c); own(d);\n}")
must('unpin_readers', 'entry readers and writers can be polled without pinning', "fn f<'a, 'b, R: AsyncBufRead + Unpin, W: AsyncWrite + Unpin>(a: &ZipEntryReader<'a, R, WithEntry<'a>>, b: &ZipEntryReader<'a, R, WithoutEntry>, c: &EntryStreamWriter<'b, W>, d: &stream::ZipFileReader<stream::Reading<'a, R, WithEntry<'a>>>) {\n    unpin(a); unpin(b); unpin(c); unpin(d);\n}")
must('spawnable', 'reading and writing whole archives can be spawned on a multi-threaded executor', """fn spawn<F: std::future::Future + Send + 'static>(f: F) {}
fn f<R: AsyncBufRead + AsyncSeek + Unpin + Send + 'static, W: AsyncWrite + Unpin + Send + 'static>(r: R, w: W, e: ZipEntryBuilder, e2: ZipEntryBuilder, d: Vec<u8>) {
    spawn(async move {
        let mut z = seek::ZipFileReader::new(r).await?;
        let mut b = Vec::new();
        z.reader_with_entry(0).await?.read_to_end_checked(&mut b).await?;
        Result::Ok(b)
    });
    spawn(async move {
        let mut z = ZipFileWriter::new(w);
        z.write_entry_whole(e, &d).await?;
        let mut s = z.write_entry_stream(e2).await?;
        s.write_all(&d).await?;
        s.close().await?;
        z.close().await
    });
}
fn g<R: AsyncBufRead + Unpin + Send + 'static>(r: R) {
    spawn(async move {
        let mut z = stream::ZipFileReader::new(r);
        let mut b = Vec::new();
        while let Some(mut n) = z.next_with_entry().await? {
            n.reader_mut().read_to_end_checked(&mut b).await?;
            z = n.done().await?;
        }
        Result::Ok(b)
    });
}""")
# ---- a source that must stay on one thread keeps everything built on it there
LOCAL = """struct Local(std::rc::Rc<()>, Cursor<Vec<u8>>);
use std::{io, pin::Pin, task::{Context, Poll}};
impl AsyncRead for Local { fn poll_read(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> { Pin::new(&mut self.1).poll_read(c, b) } }
impl AsyncBufRead for Local { fn poll_fill_buf(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { Pin::new(&mut self.get_mut().1).poll_fill_buf(c) } fn consume(mut self: Pin<&mut Self>, n: usize) { Pin::new(&mut self.1).consume(n) } }
impl AsyncSeek for Local { fn poll_seek(mut self: Pin<&mut Self>, c: &mut Context<'_>, p: io::SeekFrom) -> Poll<io::Result<u64>> { Pin::new(&mut self.1).poll_seek(c, p) } }
impl AsyncWrite for Local {
    fn poll_write(mut self: Pin<&mut Self>, c: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
type Src = Local; //~BAD
type Src = Cursor<Vec<u8>>; //~GOOD
fn send<T: Send>() {}
"""
for name, ty in (('stream_ready', 'stream::ZipFileReader<stream::Ready<Src>>'), ('stream_reading', "stream::ZipFileReader<stream::Reading<'static, Src, WithoutEntry>>"), ('entry', "ZipEntryReader<'static, Src, WithoutEntry>"),
                 ('entry_with', "ZipEntryReader<'static, Src, WithEntry<'static>>"), ('seek', 'seek::ZipFileReader<Src>'), ('writer', 'ZipFileWriter<Src>'), ('entry_writer', "EntryStreamWriter<'static, Src>")):
    w('local_' + name, 'C37', 'moves a single-threaded source to another thread inside a library type', LOCAL + 'fn f() { send::<%s>(); }' % ty)
w('entry_borrows_source', 'C37', 'reads entry data through a source that is gone', asy(">(mut r: Cursor<Vec<u8>>, mut zip: seek::ZipFileReader<Cursor<Vec<u8>>>", """
let mut a = zip.reader_without_entry(0).await?;
drop(zip); //~BAD
a.read(&mut [0; 8]).await?;"""))
w('entry_metadata_outlives', 'C37', 'keeps entry metadata borrowed from a dropped reader', asy(">(zip: mem::ZipFileReader", """
let e = zip.file().entries().first().unwrap().filename();
drop(zip); //~BAD
let n = e.as_bytes().len();"""))
w('data_outlives', 'C37', 'keeps archive bytes borrowed from a dropped reader', asy(">(zip: mem::ZipFileReader", """
let d = zip.data();
drop(zip); //~BAD
let n = d.len();"""))
w('sink_gone', 'C37', 'writes an entry whose archive writer is gone', asy(">(mut zip: ZipFileWriter<Cursor<Vec<u8>>>, e: ZipEntryBuilder", """
let mut a = zip.write_entry_stream(e).await?;
drop(zip); //~BAD
a.write(&[0; 8]).await?;"""))
keep = set(n + '.rs' for n in W)
for f in os.listdir(D):
    if f not in keep:
        os.unlink(os.path.join(D, f))
print(len(W), 'witnesses')
