// A file in memory: one sequence of bytes with one position for reading and
// writing, as std::filebuf has (the trusted model of the file system).
#pragma once
#include <cstdint>
#include <cstring>
#include <streambuf>
#include <vector>
class MemFile : public std::streambuf {
 public:
  std::vector<uint8_t> data;
  uint64_t pos = 0;
  // The file identification that every MDF file starts with.
  explicit MemFile(uint64_t head = 64) : data(head, 0), pos(head) {}
  bool opened = true;

 protected:
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    const char x = traits_type::to_char_type(c);
    return xsputn(&x, 1) == 1 ? c : traits_type::eof();
  }
  int_type underflow() override { return pos < data.size() ? data[pos] : traits_type::eof(); }
  int_type uflow() override { return pos < data.size() ? data[pos++] : traits_type::eof(); }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n <= 0) return 0;
    if (data.size() < pos + n) data.resize(pos + n, 0);
    memcpy(data.data() + pos, s, n);
    pos += n;
    return n;
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    if (n <= 0 || pos >= data.size()) return 0;
    const uint64_t left = data.size() - pos;
    const uint64_t m = static_cast<uint64_t>(n) < left ? static_cast<uint64_t>(n) : left;
    memcpy(s, data.data() + pos, m);
    pos += m;
    return static_cast<std::streamsize>(m);
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir way, std::ios_base::openmode) override {
    off_type to = off;
    if (way == std::ios_base::cur) to += static_cast<off_type>(pos);
    if (way == std::ios_base::end) to += static_cast<off_type>(data.size());
    if (to < 0) return pos_type(off_type(-1));
    pos = static_cast<uint64_t>(to);
    return pos_type(to);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
