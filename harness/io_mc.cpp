// C24: a file stream is closed exactly once, whichever threads close it.
#include "common.h"
#include "dap/io.h"

// The linker sends fclose() here.
extern "C" int __wrap_fclose(FILE* f) {
  if (mc::add(1, 1) > 1) mc::fail("the file is closed twice");
  return 0;
}
namespace {
FILE* const kFile = stdout;  // never touched
}
MC_SCENARIO(c24mc_close_race, pb(3), pb(5)) {
  bool closable = mc::choose(2, "closable");
  mc::set(1, 0);
  {
    auto f = dap::file(kFile, closable);
    std::thread a([&] { f->close(); if (f->isOpen() == closable) mc::fail("open after close"); });
    std::thread b([&] { f->close(); if (f->isOpen() == closable) mc::fail("open after close"); });
    std::thread c([&] { f->isOpen(); });
    if (mc::choose(2, "main closes")) f->close();
    a.join();
    b.join();
    c.join();
  }
  if (mc::get(1) != (closable ? 1 : 0)) mc::fail("the file was closed %ld times", mc::get(1));
  mc::outcome(std::to_string(mc::get(1)));
}
MC_SCENARIO(c24mc_close_destroy, pb(3), pb(5)) {
  mc::set(1, 0);
  auto f = dap::file(kFile, true);
  std::shared_ptr<dap::ReaderWriter> g = f;
  std::thread a([&] { f->close(); f.reset(); });
  std::thread b([&] { g.reset(); });
  a.join();
  b.join();
  if (mc::get(1) != 1) mc::fail("the file was closed %ld times", mc::get(1));
}
