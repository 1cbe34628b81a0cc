// C22: the in-memory pipe under generated schedules.
#include "vsched.h"

#include "dap/io.h"

#include <algorithm>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace {

struct Read {
  int reader;
  size_t want;
  std::string data;
  uint64_t inv, ret;  // 0: not returned
};

struct World {
  uint64_t clock = 0;
  std::string written;    // single writer: bytes of completed writes
  std::vector<Read> reads;
  uint64_t closeInv = 0, closeRet = 0;
  bool writeFailed = false;
};

// Megabytes, by one thread without the scheduler.
void large(pbt::Case& c) {
  auto pipe = dap::pipe();
  size_t n = 1 + c.draw(6);
  uint64_t wrote = 0, got = 0;
  std::string desc = "large:";
  auto at = [](uint64_t i) { return char(i * 7 + i / 251 + i / 65537); };
  auto take = [&](size_t want) {
    std::string b(want, 0);
    size_t k = pipe->read(&b[0], want);
    if (k > want || got + k > wrote) c.fail("%s: read() returns %zu of %zu", desc.c_str(), k, want);
    for (size_t i = 0; i < k; i++) {
      if (b[i] != at(got + i)) c.fail("%s: byte %zu is not what was written", desc.c_str(), size_t(got + i));
    }
    got += k;
    return k;
  };
  for (size_t i = 0; i < n; i++) {
    std::string b(c.draw(1u << 20), 0);
    for (size_t k = 0; k < b.size(); k++) b[k] = at(wrote + k);
    desc += pbt::fmt(" w%zu", b.size());
    if (!pipe->write(b.data(), b.size())) c.fail("%s: the write failed", desc.c_str());
    wrote += b.size();
    if (got < wrote && c.chance(1, 3)) {
      size_t want = 1 + c.draw(wrote - got);
      desc += pbt::fmt(" r%zu", want);
      take(want);
    }
  }
  c.describe(desc);
  while (got < wrote) {
    // A read for more than there is blocks.
    if (!take(std::min<uint64_t>(wrote - got, 1 + c.draw(1u << 20)))) {
      c.fail("%s: read() returns nothing, %zu bytes are missing", desc.c_str(), size_t(wrote - got));
    }
  }
  pipe->close();
  c.label("megabytes");
  c.nontrivial(desc);
}

void property(pbt::Case& c) {
  if (c.chance(1, 3000)) {
    large(c);
    return;
  }
  int W = 1 + int(c.weighted({4, 1, 1}));
  int R = 1 + int(c.weighted({4, 1, 1}));
  // 0 close when idle, 1 reader side closes at any time, 2 never closed while
  // there are readers (they read exactly what is written)
  int closeMode = int(c.draw(3));
  bool many = W > 1 || R > 1;
  std::vector<std::vector<std::string>> writes;
  size_t total = 0;
  bool huge = false;
  uint64_t h = 7;
  std::string desc = pbt::fmt("%d writer(s), %d reader(s), close %d:", W, R, closeMode);
  unsigned char next = 0;
  for (int i = 0; i < W; i++) {
    std::vector<std::string> v;
    size_t n = 1 + c.draw(5);
    for (size_t k = 0; k < n; k++) {
      std::string s;
      if (many) {
        // Bytes that are all different.
        size_t len = c.draw(12);
        for (size_t b = 0; b < len && next < 250; b++) s += char(next++);
      } else {
        s = c.bytes(c.size(600));
        if (c.chance(1, 40)) {
          // A large one, around the sizes of common buffers.
          static const size_t sizes[] = {1000, 4096, 5000, 16384, 40000, 65536, 100000};
          size_t from = s.size();
          s.resize(sizes[c.draw(7)] + c.draw(3) - 1);
          if (!huge && c.chance(1, 150)) {
            huge = true;
            s.resize((size_t(1) << 18) + c.draw(1000));
          }
          for (size_t b = from; b < s.size(); b++) s[b] = char(b * 7 + b / 251);
        }
      }
      total += s.size();
      h = pbt::hashStr(s, h);
      desc += pbt::fmt(" w%zu", s.size());
      v.push_back(s);
    }
    writes.push_back(v);
  }
  // Readers share the total.
  std::vector<std::vector<size_t>> reads(R);
  size_t left = total;
  bool exact = closeMode == 2;
  int maxReads = 0;
  while (left > 0 && maxReads++ < 40) {
    auto& v = reads[c.draw(uint64_t(R))];
    size_t n = 1 + std::min(left - 1, c.chance(1, 30) ? c.draw(70000) : c.size(300));
    if (maxReads == 40) n = left;
    v.push_back(n);
    left -= std::min(left, n);
    desc += pbt::fmt(" r%zu", n);
  }
  if (!exact) {
    // One more read each, that blocks until the pipe is closed.
    for (auto& v : reads) v.push_back(1 + c.draw(300));
  }
  bool reClose = c.flip();
  bool blockedAtIdle = false;
  vs::run(c, [&] {
    World w;
    auto pipe = dap::pipe();
    if (!pipe->isOpen()) c.fail("a new pipe is not open");
    std::vector<std::thread> threads;
    size_t done = 0;  // bytes of completed writes
    auto doClose = [&] {
      {
        vs::Quiet q;
        if (!w.closeInv) w.closeInv = ++w.clock;
      }
      pipe->close();
      vs::Quiet q;
      if (!w.closeRet) w.closeRet = ++w.clock;
    };
    for (int i = 0; i < W; i++) {
      threads.emplace_back([&, i] {
        for (auto& s : writes[size_t(i)]) {
          uint64_t inv;
          {
            vs::Quiet q;
            inv = ++w.clock;
          }
          bool ok = pipe->write(s.data(), s.size());
          vs::Quiet q;
          uint64_t ret = ++w.clock;
          if (ok && w.closeRet && w.closeRet < inv) {
            c.fail("a write succeeds after the close");
          }
          if (!ok && (!w.closeInv || w.closeInv > ret)) {
            c.fail("a write to an open pipe failed");
          }
          if (ok) {
            done += s.size();
            if (W == 1) w.written += s;
          }
        }
      });
    }
    for (int i = 0; i < R; i++) {
      threads.emplace_back([&, i] {
        for (auto n : reads[size_t(i)]) {
          std::vector<uint8_t> buf;
          size_t got = 0;
          // With exact sizes the reader collects all n bytes, as a reader may
          // return fewer bytes than asked for.
          do {
            size_t slot;
            uint64_t inv;
            {
              vs::Quiet q;
              buf.assign(n - got + 16, 0xAA);
              inv = ++w.clock;
              slot = w.reads.size();
              w.reads.push_back({i, n - got, "", inv, 0});
            }
            size_t k = pipe->read(buf.data(), n - got);
            vs::Quiet q;
            auto& r = w.reads[slot];
            r.ret = ++w.clock;
            if (k > n - got) c.fail("read returned more than asked for");
            for (size_t b = n - got; b < buf.size(); b++) {
              if (buf[b] != 0xAA) c.fail("read wrote past its buffer");
            }
            r.data.assign(reinterpret_cast<char*>(buf.data()), k);
            got += k;
            if (k == 0 && (!w.closeInv || w.closeInv > r.ret)) {
              c.fail("read returned no data although the pipe is open");
            }
            if (k > 0 && w.closeRet && w.closeRet < inv) {
              c.fail("read returned data after the close");
            }
            if (k == 0) return;
          } while (exact && got < n);
        }
      });
    }
    if (closeMode == 1) threads.emplace_back(doClose);
    vs::waitIdle();
    // No thread can continue: readers may only wait for data that is not there.
    {
      vs::Quiet q;
      size_t returned = 0;
      size_t pending = 0;
      for (auto& r : w.reads) {
        returned += r.data.size();
        if (!r.ret) pending += r.want;
      }
      if (pending) {
        blockedAtIdle = true;
        if (w.closeRet) c.fail("a read is blocked although the pipe is closed");
        if (done - returned >= pending) {
          c.fail("reads of %zu bytes are blocked although %zu bytes are "
                 "available",
                 pending, done - returned);
        }
        if (exact) {
          c.fail("%zu bytes were written but only %zu could be read", done,
                 returned);
        }
      }
    }
    if (!w.closeInv && !pipe->isOpen()) c.fail("the pipe is not open although no one closed it");
    if (!exact) doClose();
    for (auto& t : threads) t.join();
    if (closeMode == 0 && blockedAtIdle) {
      // There was a reader for every byte, before the pipe was closed.
      vs::Quiet q;
      size_t returned = 0;
      for (auto& r : w.reads) returned += r.data.size();
      if (returned != done) {
        c.fail("%zu bytes were written, and waiting readers were told of %zu when the pipe was closed",
               done, returned);
      }
    }
    if (exact) {
      char b = 0;
      if (!pipe->write(&b, 1)) c.fail("write failed on an open pipe");
      char r = 1;
      if (pipe->read(&r, 1) != 1 || r != 0) c.fail("the pipe has surplus data");
      doClose();
    }
    if (reClose) pipe->close();
    if (pipe->isOpen()) c.fail("a closed pipe is open");
    char b[8];
    if (pipe->write("x", 1)) c.fail("a write succeeds after the close");
    if (pipe->read(b, 1) != 0 || pipe->read(b, 8) != 0) c.fail("read returned data after the close");

    vs::Quiet q;
    if (R == 1) {
      std::string got;
      for (auto& r : w.reads) got += r.data;
      if (W == 1) {
        std::string want;
        for (auto& s : writes[0]) want += s;
        if (want.compare(0, got.size(), got) != 0) {
          c.fail("the bytes read are not the bytes written: got %s want %s",
                 pbt::esc(got, 100).c_str(), pbt::esc(want, 100).c_str());
        }
        if (exact && got.size() != want.size()) c.fail("bytes were lost");
      }
    }
    if (many) {
      // Every byte once, those of one writer in order for each reader.
      std::vector<int> seen(256, 0);
      size_t n = 0;
      for (int i = 0; i < R; i++) {
        std::vector<int> last(size_t(W), -1);
        for (auto& r : w.reads) {
          if (r.reader != i) continue;
          for (unsigned char ch : r.data) {
            if (seen[ch]++) c.fail("byte %d was read twice", ch);
            n++;
            int owner = -1;
            for (int k = 0; k < W; k++) {
              for (auto& s : writes[size_t(k)]) {
                if (s.find(char(ch)) != std::string::npos) owner = k;
              }
            }
            if (owner < 0) c.fail("byte %d was never written", ch);
            if (last[size_t(owner)] >= int(ch)) c.fail("bytes are out of order");
            last[size_t(owner)] = ch;
          }
        }
      }
      if (exact && n != total) c.fail("%zu of %zu bytes were lost", total - n, total);
    }
  });
  c.describe(desc);
  if (blockedAtIdle) c.label("closed with a blocked reader");
  c.label("bytes", total);
  c.label("preemptions", vs::preemptions());
  if (total > 0) {
    c.nontrivial(h ^ (vs::switches() * 1000003) ^ (vs::preemptions() << 32) ^
                 uint64_t(closeMode) << 60);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c22_pipe";
  o.rule =
      "A case is a schedule plus 1-3 writer threads (1-5 writes of 0-600 "
      "arbitrary bytes each) and 1-3 reader threads with generated read sizes on "
      "one pipe, closed when idle, at any time or not; bytes compared with what "
      "was written, blocked readers only without data. Non-trivial: at least "
      "one byte is written; distinct: content, switches and preemptions.";
  o.property = property;
  o.quickCases = 150000;
  o.thoroughCases = 20000000;
  o.quickCap = 40;
  return pbt::run(argc, argv, o);
}
