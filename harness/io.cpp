// C24: stream adapters.  Scripted streams below, every history of operations.
#include "common.h"
#include "dap/io.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <functional>

namespace {
std::string bytes(size_t n, int seed) {
  std::string s;
  for (size_t i = 0; i < n; i++) s += char((seed + i * 37) & 255);
  return s;
}

// A stream whose every result is scripted; logs what it is asked.
class Script : public dap::ReaderWriter {
 public:
  bool open = true;
  std::string in, out;          // to be read, written
  size_t chunk = ~size_t(0);    // most bytes per read
  bool failWrite = false;
  int reads = 0, writes = 0, closes = 0, opens = 0;
  size_t lastN = 0;
  const void* lastBuf = nullptr;
  bool isOpen() override { opens++; return open; }
  void close() override { closes++; open = false; }
  size_t read(void* b, size_t n) override {
    reads++;
    lastN = n;
    lastBuf = b;
    if (!open) return 0;
    size_t m = std::min(std::min(n, in.size()), chunk);
    memcpy(b, in.data(), m);
    in.erase(0, m);
    return m;
  }
  bool write(const void* b, size_t n) override {
    writes++;
    lastN = n;
    lastBuf = b;
    if (!open || failWrite) return false;
    out.append(static_cast<const char*>(b), n);
    return true;
  }
};
using P = std::shared_ptr<Script>;
// A buffer with guard bytes.
struct Buf {
  std::vector<unsigned char> v;
  size_t n;
  explicit Buf(size_t n) : v(n + 16, 0xA5), n(n) {}
  void* p() { return v.data() + 8; }
  std::string got(size_t m) { return std::string(reinterpret_cast<char*>(v.data()) + 8, m); }
  void check(size_t m, const char* what) {
    for (size_t i = 0; i < v.size(); i++)
      if ((i < 8 || i >= 8 + m) && v[i] != 0xA5) mc::fail("%s wrote outside of the bytes it reported", what);
  }
};
const size_t kN[] = {1, 2, 5, 300};
}  // namespace

// A combined reader/writer.
MC_SCENARIO(c24_readerwriter, pb(0), pb(0)) {
  P r = std::make_shared<Script>(), w = std::make_shared<Script>();
  r->in = bytes(12, 200);
  std::string rest = r->in, written;
  r->chunk = mc::choose(2, "chunk") ? 3 : 1000;
  auto rw = dap::ReaderWriter::create(r, w);
  int depth = mc::thorough() ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    int rr = r->reads, rwr = r->writes, wr = w->reads, ww = w->writes, rc = r->closes, wc = w->closes;
    switch (mc::choose(7, "op")) {
      case 0: {
        size_t n = kN[mc::choose(3, "n")];
        Buf b(n);
        size_t want = r->open ? std::min(std::min(n, rest.size()), r->chunk) : 0;
        size_t got = rw->read(b.p(), n);
        if (got != want || b.got(got) != rest.substr(0, got)) mc::fail("read() returns %zu bytes instead of %zu, or others", got, want);
        b.check(got, "read()");
        rest.erase(0, got);
        if (r->reads != rr + 1) mc::fail("one read() is %d reads", r->reads - rr);
        if (w->reads != wr || w->writes != ww || r->writes != rwr) mc::fail("read() used the writer");
        break;
      }
      case 1: {
        size_t n = kN[mc::choose(4, "n")];
        std::string s = bytes(n, d * 50);
        bool want = w->open && !w->failWrite;
        if (rw->write(s.data(), s.size()) != want) mc::fail("write() does not report the writer's result");
        if (want) written += s;
        if (w->writes != ww + 1 || r->writes != rwr || r->reads != rr) mc::fail("one write() is not one write");
        break;
      }
      case 2: rw->close(); if (r->closes == rc || w->closes == wc || r->open || w->open) mc::fail("close() did not close both"); break;
      case 3: r->open = false; break;
      case 4: w->open = false; break;
      case 5: w->failWrite = !w->failWrite; break;
      case 6: r->chunk = 1; break;
    }
    if (rw->isOpen() != (r->open && w->open)) mc::fail("isOpen() is not that of the streams");
    if (w->out != written) mc::fail("other bytes were written");
  }
}
// A spied reader.
MC_SCENARIO(c24_reader_spy, pb(0), pb(0)) {
  P r = std::make_shared<Script>(), s = std::make_shared<Script>();
  r->in = std::string("a\0b\xff%s\n", 7) + bytes(600, 3);
  std::string rest = r->in, seen;
  static const char* prefixes[] = {nullptr, "", "->", "%d%s%n"};
  int pi = mc::choose(4, "prefix");
  std::string prefix = pi ? prefixes[pi] : "\n->";
  std::shared_ptr<dap::Reader> in = r;
  auto spy = pi ? dap::spy(in, s, prefixes[pi]) : dap::spy(in, s);
  int depth = mc::thorough() ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    switch (mc::choose(5, "op")) {
      case 0: {
        size_t n = kN[mc::choose(4, "n")];
        Buf b(n);
        size_t want = r->open ? std::min(std::min(n, rest.size()), r->chunk) : 0;
        bool sinkOk = s->open && !s->failWrite;
        size_t got = spy->read(b.p(), n);
        if (got != want || b.got(got) != rest.substr(0, got)) mc::fail("a spied read returns %zu bytes instead of %zu, or others", got, want);
        b.check(got, "read()");
        if (got && sinkOk) seen += prefix + rest.substr(0, got);
        rest.erase(0, got);
        break;
      }
      case 1: spy->close(); if (r->open) mc::fail("close() of the spy did not close the stream"); break;
      case 2: s->failWrite = !s->failWrite; break;
      case 3: s->open = false; break;
      case 4: r->chunk = 3; break;
    }
    if (spy->isOpen() != r->open) mc::fail("isOpen() is not that of the stream");
    if (s->out != seen) mc::fail("the spy received '%.200s' instead of '%.200s'", s->out.c_str(), seen.c_str());
    if (s->closes) mc::fail("the spy's sink was closed");
  }
}
// A spied writer.
MC_SCENARIO(c24_writer_spy, pb(0), pb(0)) {
  P w = std::make_shared<Script>(), s = std::make_shared<Script>();
  std::string written, seen;
  static const char* prefixes[] = {nullptr, "", "<-", "%d%s%n"};
  int pi = mc::choose(4, "prefix");
  std::string prefix = pi ? prefixes[pi] : "\n<-";
  std::shared_ptr<dap::Writer> out = w;
  auto spy = pi ? dap::spy(out, s, prefixes[pi]) : dap::spy(out, s);
  int depth = mc::thorough() ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    switch (mc::choose(6, "op")) {
      case 5: {  // nothing to write
        bool want = w->open && !w->failWrite;
        if (spy->write("", 0) != want) mc::fail("a spied write of nothing does not report the stream's result");
        if (s->out == seen + prefix) seen = s->out;
        break;
      }
      case 0: {
        size_t n = kN[mc::choose(4, "n")];
        std::string t = d == 0 ? std::string("a\0b\xff%s\n", 7).substr(0, n) : bytes(n, d * 31);
        bool want = w->open && !w->failWrite;
        bool sinkOk = s->open && !s->failWrite;
        if (spy->write(t.data(), t.size()) != want) mc::fail("a spied write does not report the stream's result");
        if (want) written += t;
        if (want && sinkOk) seen += prefix + t;
        break;
      }
      case 1: spy->close(); if (w->open) mc::fail("close() of the spy did not close the stream"); break;
      case 2: s->failWrite = !s->failWrite; break;
      case 3: w->failWrite = !w->failWrite; break;
      case 4: s->open = false; break;
    }
    if (spy->isOpen() != w->open) mc::fail("isOpen() is not that of the stream");
    if (w->out != written) mc::fail("other bytes were written to the stream");
    if (s->out != seen) mc::fail("the spy received '%.200s' instead of '%.200s'", s->out.c_str(), seen.c_str());
    if (s->closes) mc::fail("the spy's sink was closed");
  }
}
// Spies on spies on a combined stream.
MC_SCENARIO(c24_stacked, pb(0), pb(0)) {
  P r = std::make_shared<Script>(), w = std::make_shared<Script>(), s1 = std::make_shared<Script>(), s2 = std::make_shared<Script>();
  r->in = bytes(40, 1);
  std::string rest = r->in, written, log1, log2;
  std::shared_ptr<dap::Reader> r0 = r;
  std::shared_ptr<dap::Writer> w0 = w;
  auto rw = dap::ReaderWriter::create(dap::spy(dap::spy(r0, s1, "A"), s2, "B"), dap::spy(dap::spy(w0, s1, "C"), s2, "D"));
  for (int d = 0; d < (mc::thorough() ? 6 : 5); d++) {
    switch (mc::choose(5, "op")) {
      case 0: {
        size_t n = kN[mc::choose(3, "n")];
        Buf b(n);
        size_t got = rw->read(b.p(), n), want = r->open ? std::min(n, rest.size()) : 0;
        if (got != want || b.got(got) != rest.substr(0, got)) mc::fail("stacked read");
        if (got) {
          if (!s1->failWrite) log1 += "A" + rest.substr(0, got);
          log2 += "B" + rest.substr(0, got);
        }
        rest.erase(0, got);
        break;
      }
      case 1: {
        std::string t = bytes(kN[mc::choose(3, "n")], d);
        bool want = w->open && !w->failWrite;
        if (rw->write(t.data(), t.size()) != want) mc::fail("stacked write");
        if (want) {
          written += t;
          if (!s1->failWrite) log1 += "C" + t;
          log2 += "D" + t;
        }
        break;
      }
      case 2: rw->close(); if (r->open || w->open) mc::fail("close is not passed down"); break;
      case 3: w->failWrite = !w->failWrite; break;
      case 4: s1->failWrite = !s1->failWrite; break;
    }
    if (rw->isOpen() != (r->open && w->open) || w->out != written || s1->out != log1 || s2->out != log2) mc::fail("stacked adapters changed the data");
  }
}

// ------------------------------------------------------------------- files
// Every use of a closed FILE is caught, whichever stdio function it is.
static FILE* gone[8];
static int nGone;
static void touch(FILE* f, const char* what) {
  for (int i = 0; i < nGone; i++)
    if (gone[i] == f) mc::fail("%s() of a FILE that has been closed", what);
}
extern "C" {
#define W1(R, N)          \
  R __real_##N(FILE* f);  \
  R __wrap_##N(FILE* f) { \
    touch(f, #N);         \
    return __real_##N(f); \
  }
W1(int, fgetc) W1(int, getc) W1(int, getc_unlocked) W1(int, fgetc_unlocked) W1(int, feof) W1(int, ferror)
int __real_fflush(FILE* f);
int __wrap_fflush(FILE* f) {
  if (f) touch(f, "fflush");
  return __real_fflush(f);
}
#define WB(N, P)                                    \
  size_t __real_##N(P b, size_t s, size_t n, FILE* f); \
  size_t __wrap_##N(P b, size_t s, size_t n, FILE* f) { \
    touch(f, #N);                                   \
    return __real_##N(b, s, n, f);                  \
  }
WB(fread, void*) WB(fwrite, const void*) WB(fread_unlocked, void*) WB(fwrite_unlocked, const void*)
int __real_fputc(int c, FILE* f);
int __wrap_fputc(int c, FILE* f) {
  touch(f, "fputc");
  return __real_fputc(c, f);
}
int __real_fclose(FILE* f);
int __wrap_fclose(FILE* f) {
  touch(f, "fclose");
  if (nGone < 8) gone[nGone++] = f;
  return __real_fclose(f);
}
}
namespace {
// A FILE whose operations are scripted.
struct Disk {
  std::string in, out;
  size_t pos = 0, chunk = 1 << 20;
  long room = 1L << 40;    // bytes that can still be written
  int closes = 0;
  FILE* f = nullptr;
  static ssize_t rd(void* c, char* b, size_t n) {
    Disk* d = static_cast<Disk*>(c);
    if (d->closes) mc::fail("read from a closed file");
    size_t m = std::min(std::min(n, d->in.size() - d->pos), d->chunk);
    memcpy(b, d->in.data() + d->pos, m);
    d->pos += m;
    return m;
  }
  static ssize_t wr(void* c, const char* b, size_t n) {
    Disk* d = static_cast<Disk*>(c);
    if (d->closes) mc::fail("write to a closed file");
    size_t m = std::min<size_t>(n, d->room);
    d->out.append(b, m);
    d->room -= m;
    return m;  // 0: error
  }
  static int sk(void*, off64_t*, int) { return -1; }
  static int cl(void* c) {
    Disk* d = static_cast<Disk*>(c);
    if (d->closes++) mc::fail("file closed twice");
    return 0;
  }
  Disk(const char* mode) {
    cookie_io_functions_t io = {rd, wr, sk, cl};
    f = fopencookie(this, mode, io);
    nGone = 0;  // one file per execution; the address may be that of an earlier one
    if (!f) mc::fail("fopencookie");
  }
};
}  // namespace

MC_SCENARIO(c24_file_read, pb(0), pb(0)) {
  static const size_t sizes[] = {0, 1, 2, 7, 255, 4095, 4096, 4097, 9000};
  bool closable = mc::choose(2, "closable");
  Disk d("r");
  d.in = bytes(sizes[mc::choose(9, "size")], mc::choose(2, "contents") ? 255 : 10);
  static const size_t chunks[] = {1 << 20, 1, 100};
  d.chunk = chunks[mc::choose(3, "chunk")];
  std::string rest = d.in;
  {
    auto f = dap::file(d.f, closable);
    static const size_t ns[] = {0, 1, 3, 4096, 20000};
    bool closed = false;
    for (int i = 0; i < (mc::thorough() ? 5 : 4); i++) {
      int op = mc::choose(6, "op");
      if (op < 5) {
        size_t n = ns[op];
        Buf b(n);
        size_t want = closed ? 0 : std::min(n, rest.size());
        size_t got = f->read(b.p(), n);
        if (got != want || b.got(got) != rest.substr(0, got)) mc::fail("read(%zu) of a file with %zu bytes left returns %zu or other bytes", n, rest.size(), got);
        b.check(got, "read()");
        rest.erase(0, got);
      } else {
        f->close();
        if (closable) closed = true;
        if (d.closes != (closable ? 1 : 0)) mc::fail("close() closed the file %d times", d.closes);
      }
      if (f->isOpen() == closed) mc::fail("isOpen() is wrong");
    }
  }
  if (d.closes != (closable ? 1 : 0)) mc::fail("the file was closed %d times", d.closes);
  if (!closable) fclose(d.f);
}
MC_SCENARIO(c24_file_write, pb(0), pb(0)) {
  bool closable = mc::choose(2, "closable");
  static const long rooms[] = {1L << 40, 0, 4, 5000};
  Disk d("w");
  d.room = rooms[mc::choose(4, "room")];
  std::string written;
  bool failed = false;
  {
    auto f = dap::file(d.f, closable);
    static const size_t ns[] = {1, 3, 4096, 6000};
    bool closed = false;
    for (int i = 0; i < (mc::thorough() ? 6 : 5); i++) {
      int op = mc::choose(6, "op");
      if (op == 5) {
        bool ok = f->write("", 0);
        if (ok == closed && !failed) mc::fail("a write of nothing to %s file %s", closed ? "a closed" : "an open", ok ? "succeeds" : "fails");
      } else if (op < 4) {
        std::string s = bytes(ns[op], i);
        long room = d.room;
        bool ok = f->write(s.data(), s.size());
        if (closed) {
          if (ok) mc::fail("write to a closed file succeeds");
        } else if (ok) {
          written += s;
          if (!failed && d.out != written) mc::fail("write() succeeded but %zu of %zu bytes are visible", d.out.size(), written.size());
          if ((long)s.size() > room) mc::fail("write() reports success although the file took only part of the bytes");
        } else {
          if ((long)s.size() <= room && !failed) mc::fail("write() fails although all bytes were taken");
          failed = true;
        }
      } else {
        f->close();
        if (closable) closed = true;
      }
      if (f->isOpen() == closed) mc::fail("isOpen() is wrong");
      if (d.closes != (closed ? 1 : 0)) mc::fail("the file was closed %d times", d.closes);
    }
  }
  if (d.closes != (closable ? 1 : 0)) mc::fail("the file was closed %d times", d.closes);
  if (!closable) fclose(d.f);
  if (!failed && d.out != written) mc::fail("the file holds other bytes than were written");
  mc::outcome(failed ? "failed" : "ok");
}
MC_SCENARIO(c24_file_path, pb(0), pb(0)) {
  struct Dir {
    char d[64];
    Dir() { strcpy(d, "/tmp/c24-XXXXXX"); if (!mkdtemp(d)) mc::fail("mkdtemp"); }
    ~Dir() { unlink(path().c_str()); rmdir(d); }
    std::string path() { return std::string(d) + "/f"; }
  } dir;
  auto content = [&] {
    std::string s;
    if (FILE* f = fopen(dir.path().c_str(), "rb")) {
      char b[20000];
      s.assign(b, fread(b, 1, sizeof b, f));
      fclose(f);
    } else s = "<none>";
    return s;
  };
  if (dap::file((std::string(dir.d) + "/no/such").c_str())) mc::fail("a file that cannot be opened yields a stream");
  if (mc::choose(2, "exists")) {
    FILE* f = fopen(dir.path().c_str(), "wb");
    fputs("old content that is longer", f);
    fclose(f);
  }
  std::string want;
  {
    auto f = dap::file(dir.path().c_str());
    if (!f) mc::fail("cannot open");
    if (content() != "") mc::fail("the file is not empty at first");
    for (int i = 0; i < 3; i++) {
      switch (mc::choose(4, "op")) {
        case 0: case 1: {
          std::string s = bytes(i == 1 ? 5000 : 5, i);
          bool ok = f->write(s.data(), s.size());
          if (ok != f->isOpen()) mc::fail("write()");
          if (ok) want += s;
          break;
        }
        case 2: f->close(); if (f->isOpen()) mc::fail("close()"); break;
        case 3: if (f->isOpen() && !dap::writef(f, "%d/%s", 5, "x")) mc::fail("writef"); else if (f->isOpen()) want += "5/x"; break;
      }
      if (content() != want) mc::fail("written bytes are not visible");
    }
  }
  if (content() != want) mc::fail("the file holds other bytes");
}
// ------------------------------------------------------------------ writef
MC_SCENARIO(c24_writef, pb(0), pb(0)) {
  static const int lens[] = {0, 1, 10, 255, 256, 511, 512, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 70001};
  int n = lens[mc::choose(23, "length")];
  P w = std::make_shared<Script>();
  std::string s;
  for (int i = 0; i < n; i++) s += char('!' + i % 90);
  static const int fails[] = {0, 1, 2};
  int f = fails[mc::choose(3, "stream")];
  if (f == 1) w->failWrite = true;
  if (f == 2) w->open = false;
  std::string want;
  bool ok = false;
  switch (mc::choose(9, "format")) {
    case 0: ok = dap::writef(w, "%s", s.c_str()); want = s; break;
    case 1: ok = dap::writef(w, "<%s>%d%%", s.c_str(), -5); want = "<" + s + ">-5%"; break;
    case 2: ok = dap::writef(w, "%*d", n, 7); want = n > 1 ? std::string(n - 1, ' ') + "7" : "7"; break;
    case 3: ok = dap::writef(w, "%lld %u %x %c %.3f %s", -(1ll << 40), 4000000000u, 255, 'c', 0.5, s.c_str()); want = std::to_string(-(1ll << 40)) + " 4000000000 ff c 0.500 " + s; break;
    case 4: ok = dap::writef(w, "%c|%s", '\0', s.c_str()); want = std::string(1, '\0') + "|" + s; break;
    case 5: ok = dap::writef(w, "plain"); want = "plain"; break;
    // as long as the format itself
    case 6: ok = dap::writef(w, "%d", 42); want = "42"; break;
    case 7: ok = dap::writef(w, "%s%%%c-", "xyz", 'e'); want = "xyz%e-"; break;
    case 8: ok = dap::writef(w, "%5d|%-3s", 42, "ab"); want = "   42|ab "; break;
  }
  if (ok != (f == 0)) mc::fail("writef does not report the stream's result");
  if (w->out != (f == 0 ? want : "")) mc::fail("writef wrote %zu bytes instead of %zu, or others", w->out.size(), want.size());
}
// writef through a pipe and a spy.
MC_SCENARIO(c24_pipe_spy, pb(0), pb(0)) {
  auto pipe = dap::pipe();
  P s = std::make_shared<Script>(), s2 = std::make_shared<Script>();
  std::shared_ptr<dap::Writer> w0 = pipe;
  std::shared_ptr<dap::Reader> r0 = pipe;
  auto w = dap::spy(w0, s, "<");
  auto r = dap::spy(r0, s2, ">");
  std::string pend, seen, seen2;
  bool closed = false;
  for (int d = 0; d < (mc::thorough() ? 6 : 5); d++) {
    switch (mc::choose(4, "op")) {
      case 0: {
        bool ok = dap::writef(w, "m%d", d);
        if (ok == closed) mc::fail("writef on the pipe");
        if (ok) pend += "m" + std::to_string(d), seen += "<m" + std::to_string(d);
        break;
      }
      case 1: case 2: {
        if (pend.empty() && !closed) mc::discard();  // would wait
        size_t n = d % 2 ? 1 : 64;
        Buf b(n);
        size_t got = r->read(b.p(), n);
        if (closed) {
          if (got > pend.size()) mc::fail("read after close");
        } else if (got != std::min(n, pend.size()) || b.got(got) != pend.substr(0, got)) mc::fail("read");
        if (got) seen2 += ">" + pend.substr(0, got);
        pend.erase(0, got);
        break;
      }
      case 3: w->close(); closed = true; break;
    }
    if (s->out != seen || s2->out != seen2) mc::fail("spies");
    if (r->isOpen() == closed || w->isOpen() == closed) mc::fail("isOpen");
  }
}

// Large transfers and long prefixes through every adapter at once.
MC_SCENARIO(c24_large, pb(0), pb(0)) {
  static const size_t sizes[] = {1, 1023, 1024, 1025, 4096, 4097, 65536, 65537, 1100000};
  std::string data = bytes(sizes[mc::choose(9, "size")], mc::choose(2, "contents") ? 255 : 10);
  static const size_t plens[] = {1, 15, 16, 17, 64, 300};
  std::string prefix(plens[mc::choose(6, "prefix")], 'p');
  P x = std::make_shared<Script>(), s = std::make_shared<Script>();
  x->chunk = size_t(1) << 40;
  std::shared_ptr<dap::Reader> r0 = x;
  std::shared_ptr<dap::Writer> w0 = x;
  bool file = mc::choose(2, "file");
  if (file) {
    Disk d("w");
    {
      auto f = dap::file(d.f, true);
      std::shared_ptr<dap::Writer> fw = f;
      auto w = dap::spy(fw, s, prefix.c_str());
      if (!w->write(data.data(), data.size())) mc::fail("write fails");
      if (d.out != data) mc::fail("%zu of %zu bytes were written to the file", d.out.size(), data.size());
    }
    if (s->out != prefix + data) mc::fail("the spy received %zu bytes instead of %zu, or others", s->out.size(), prefix.size() + data.size());
    Disk d2("r");
    d2.in = data;
    d2.chunk = 1 << 20;
    auto f2 = dap::file(d2.f, true);
    std::shared_ptr<dap::Reader> fr = f2;
    auto r = dap::spy(fr, s, prefix.c_str());
    s->out.clear();
    Buf b(data.size());
    if (r->read(b.p(), data.size()) != data.size() || b.got(data.size()) != data) mc::fail("a file of %zu bytes is read otherwise", data.size());
    if (s->out != prefix + data) mc::fail("the spy received %zu bytes instead of %zu, or others", s->out.size(), prefix.size() + data.size());
  } else {
    auto w = dap::ReaderWriter::create(r0, dap::spy(w0, s, prefix.c_str()));
    if (!w->write(data.data(), data.size())) mc::fail("write fails");
    if (x->out != data) mc::fail("%zu of %zu bytes were written", x->out.size(), data.size());
    if (s->out != prefix + data) mc::fail("the spy received %zu bytes instead of %zu, or others", s->out.size(), prefix.size() + data.size());
    s->out.clear();
    x->in = data;
    auto r = dap::ReaderWriter::create(dap::spy(r0, s, prefix.c_str()), w0);
    Buf b(data.size());
    size_t got = r->read(b.p(), data.size());
    if (got != data.size() || b.got(got) != data) mc::fail("%zu of %zu bytes were read, or others", got, data.size());
    if (s->out != prefix + data) mc::fail("the spy received %zu bytes instead of %zu, or others", s->out.size(), prefix.size() + data.size());
  }
}
