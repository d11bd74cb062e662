// Stand-in for Charm++'s PUP framework: sizing, packing and unpacking of plain memory.
#ifndef CSIM_PUP_H
#define CSIM_PUP_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <list>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace PUP {
class er {
public:
  enum Mode { SIZING, PACKING, UNPACKING } mode;
  std::vector<char> *buf;
  size_t pos;
  er(Mode m, std::vector<char> *b) : mode(m), buf(b), pos(0) {}
  bool isSizing() const { return mode == SIZING; }
  bool isPacking() const { return mode == PACKING; }
  bool isUnpacking() const { return mode == UNPACKING; }
  bool isDeleting() const { return mode == PACKING; }
  bool isRestarting() const { return mode == UNPACKING; }
  bool isCheckpoint() const { return true; }
  bool isMigration() const { return true; }
  size_t size() const { return pos; }
  void bytes(void *p, size_t n) {
    if (mode == PACKING)
      buf->insert(buf->end(), (char *)p, (char *)p + n);
    else if (mode == UNPACKING) {
      if (pos + n > buf->size()) {
        extern void csim_abort(const char *);
        csim_abort("unpack reads past the end of what was packed");
      }
      if (n)
        memcpy(p, buf->data() + pos, n);
    }
    pos += n;
  }
  template <class T> void operator()(T &x);
  template <class T> void operator()(T *x, size_t n);
};
typedef er sizer_base;
class able {};
template <class T, class = void> struct has_pup : std::false_type {};
template <class T> struct has_pup<T, std::void_t<decltype(std::declval<T &>().pup(std::declval<er &>()))>> : std::true_type {};
} // namespace PUP
template <class T> inline void operator|(PUP::er &p, T &x);
template <class T> inline void operator|(PUP::er &p, std::vector<T> &v) {
  size_t n = v.size();
  p.bytes(&n, sizeof n);
  if (p.isUnpacking())
    v.resize(n);
  for (size_t i = 0; i < n; i++)
    p | v[i];
}
inline void operator|(PUP::er &p, std::string &s) {
  size_t n = s.size();
  p.bytes(&n, sizeof n);
  if (p.isUnpacking())
    s.resize(n);
  p.bytes(&s[0], n);
}
template <class A, class B> inline void operator|(PUP::er &p, std::pair<A, B> &v) {
  p | v.first;
  p | v.second;
}
template <class K, class V> inline void operator|(PUP::er &p, std::map<K, V> &m) {
  size_t n = m.size();
  p.bytes(&n, sizeof n);
  if (p.isUnpacking()) {
    m.clear();
    for (size_t i = 0; i < n; i++) {
      K k{};
      p | k;
      p | m[k];
    }
  } else
    for (auto &kv : m) {
      K k = kv.first;
      p | k;
      p | kv.second;
    }
}
template <class T> inline void operator|(PUP::er &p, T &x) {
  if constexpr (PUP::has_pup<T>::value)
    x.pup(p);
  else {
    static_assert(std::is_trivially_copyable<T>::value, "PUP of a type without a pup routine");
    p.bytes((void *)&x, sizeof(T));
  }
}
template <class T> inline void PUParray(PUP::er &p, T *a, size_t n) {
  if constexpr (std::is_arithmetic<T>::value)
    p.bytes((void *)a, n * sizeof(T));
  else
    for (size_t i = 0; i < n; i++)
      p | a[i];
}
template <class T> inline void PUPArray(PUP::er &p, T *a, size_t n) { PUParray(p, a, n); }
namespace PUP {
template <class T> void er::operator()(T &x) { *this | x; }
template <class T> void er::operator()(T *x, size_t n) { PUParray(*this, x, n); }
} // namespace PUP
#define PUPn(x) p | x
#define PUPbytes(type)
#define PUPmarshallBytes(type)
#endif
