// Milter wire protocol, written independently of the code under test.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
namespace wire {
enum : uint32_t {
  A_ADDHDRS = 1, A_CHGBODY = 2, A_ADDRCPT = 4, A_DELRCPT = 8, A_CHGHDRS = 0x10, A_QUARANTINE = 0x20, A_CHGFROM = 0x40, A_ADDRCPT_PAR = 0x80, A_SETSYMLIST = 0x100, A_ALL = 0x1ff,
  P_NOCONNECT = 1, P_NOHELO = 2, P_NOMAIL = 4, P_NORCPT = 8, P_NOBODY = 0x10, P_NOHDRS = 0x20, P_NOEOH = 0x40, P_NR_HDR = 0x80, P_NOUNKNOWN = 0x100, P_NODATA = 0x200,
  P_SKIP = 0x400, P_RCPT_REJ = 0x800, P_NR_CONN = 0x1000, P_NR_HELO = 0x2000, P_NR_MAIL = 0x4000, P_NR_RCPT = 0x8000, P_NR_DATA = 0x10000, P_NR_UNKN = 0x20000, P_NR_EOH = 0x40000, P_NR_BODY = 0x80000,
  P_HDR_LEADSPC = 0x100000, P_ALL = 0x1fffff
};
static const uint32_t P_NO_EVENT = P_NOCONNECT | P_NOHELO | P_NOMAIL | P_NORCPT | P_NOBODY | P_NOHDRS | P_NOEOH | P_NOUNKNOWN | P_NODATA;
static const uint32_t P_NR = P_NR_HDR | P_NR_CONN | P_NR_HELO | P_NR_MAIL | P_NR_RCPT | P_NR_DATA | P_NR_UNKN | P_NR_EOH | P_NR_BODY;
static const uint32_t P_YES = P_SKIP | P_RCPT_REJ | P_HDR_LEADSPC;
inline uint32_t no_flag(char c) { switch (c) { case 'C': return P_NOCONNECT; case 'H': return P_NOHELO; case 'M': return P_NOMAIL; case 'R': return P_NORCPT; case 'T': return P_NODATA; case 'L': return P_NOHDRS; case 'N': return P_NOEOH; case 'B': return P_NOBODY; case 'U': return P_NOUNKNOWN; } return 0; }
inline uint32_t nr_flag(char c) { switch (c) { case 'C': return P_NR_CONN; case 'H': return P_NR_HELO; case 'M': return P_NR_MAIL; case 'R': return P_NR_RCPT; case 'T': return P_NR_DATA; case 'L': return P_NR_HDR; case 'N': return P_NR_EOH; case 'B': return P_NR_BODY; case 'U': return P_NR_UNKN; } return 0; }
inline std::string u32(uint32_t v) { char b[4] = {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; return std::string(b, 4); }
inline uint32_t g32(const std::string &s, size_t o) { if (o + 4 > s.size()) return 0; return ((uint32_t)(uint8_t)s[o] << 24) | ((uint32_t)(uint8_t)s[o + 1] << 16) | ((uint32_t)(uint8_t)s[o + 2] << 8) | (uint8_t)s[o + 3]; }
inline std::string packet(char cmd, const std::string &data = "") { return u32((uint32_t)data.size() + 1) + cmd + data; }
inline std::string z(const std::string &s) { return s + std::string(1, '\0'); }
struct Reader {           // cuts packets out of a byte stream
  std::string buf; size_t pos = 0;
  void feed(const std::string &s) { if (pos > 65536) { buf.erase(0, pos); pos = 0; } buf += s; }
  bool next(char &cmd, std::string &data) {
    if (buf.size() - pos < 4) return false;
    uint32_t n = g32(buf, pos);
    if (n == 0 || buf.size() - pos - 4 < n) return false;
    cmd = buf[pos + 4]; data = buf.substr(pos + 5, n - 1); pos += 4 + n; return true;
  }
  size_t left() const { return buf.size() - pos; }
};
inline std::vector<std::string> split0(const std::string &s) {
  std::vector<std::string> r; size_t i = 0;
  while (i < s.size()) { size_t e = s.find('\0', i); if (e == std::string::npos) { r.push_back(s.substr(i)); break; } r.push_back(s.substr(i, e - i)); i = e + 1; }
  return r;
}
inline std::string show(const std::string &s, size_t lim = 80) {
  std::string o; char b[8];
  for (size_t i = 0; i < s.size() && i < lim; i++) { unsigned char c = s[i]; if (c >= 32 && c < 127) o += c; else { snprintf(b, sizeof b, "\\%02x", c); o += b; } }
  if (s.size() > lim) { snprintf(b, sizeof b, "..."); o += b; o += std::to_string(s.size()); }
  return o;
}
}
