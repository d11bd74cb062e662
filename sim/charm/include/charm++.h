// Stand-in for the part of the Charm++ API that superB programs use, backed by the deterministic scheduler in rt.cpp.
#ifndef CSIM_CHARM_H
#define CSIM_CHARM_H
#include "pup.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <memory>
#include <new>

typedef unsigned char CmiUInt1;
typedef unsigned short CMK_REFNUM_TYPE;

namespace csim {
// One entry-method invocation in flight.
struct Msg {
  int refnum = 0;
  virtual ~Msg() {}
  virtual Msg *clone() const = 0;
};
struct ChareType {
  const char *name;
  size_t size;
  void (*construct)(void *, Msg *);
  void (*construct_migrated)(void *);
  void (*destroy)(void *);
  void (*pup)(void *, PUP::er &);
  bool has_pup;
};
enum Kind { K_CTOR, K_PLAIN, K_WHEN, K_SDAG };
struct Entry {
  int ep;
  int type;
  const char *name;
  Kind kind;
  void (*invoke)(void *, Msg *); // plain call, or body of an SDAG entry (run in a fiber)
  Msg *(*from_msg)(void *);      // wrap a message (or a reduction result) delivered through a callback
};
void register_type(int id, const ChareType &t);
void register_entry(const Entry &e);
void register_readonly(void *p, size_t n);
int new_array(int type, Msg *ctor, int n0, int n1, int n2);
int new_singleton(int type);
struct Where {
  int x = 0, y = 0, z = 0, array = -1;
};
extern Where *constructing();
void send(int array, int x, int y, int z, int ep, Msg *m);
void broadcast(int array, int ep, Msg *m);
Msg *wait(void *chare, int ep, bool hasref, int ref);
void run_parallel(void *chare, std::vector<std::function<void()>> &&f);
int wait_any(void *chare, const std::vector<int> &eps, Msg **out);
} // namespace csim

struct CkArrayID {
  int id = -1;
};
struct CkArrayIndex3D {
  int x, y, z;
  CkArrayIndex3D(int a = 0, int b = 0, int c = 0) : x(a), y(b), z(c) {}
  void pup(PUP::er &p) {
    p | x;
    p | y;
    p | z;
  }
};
struct CkArrayOptions {
  int n[3];
  CkArrayOptions(int a, int b = 1, int c = 1) {
    n[0] = a;
    n[1] = b;
    n[2] = c;
  }
};
struct CkMigrateMessage {};
struct CkArgMsg {
  int argc;
  char **argv;
};
struct CkMessage {};
struct CkSectionInfo {
  long sect = -1;
  int redno = 0;
  void pup(PUP::er &p) {
    p | sect;
    p | redno;
  }
};
struct CkMcastBaseMsg {
  CkSectionInfo _cookie;
};
void CkGetSectionInfo(CkSectionInfo &c, CkMcastBaseMsg *m);

namespace CkReduction {
enum reducerType { nop, sum_int, sum_long, sum_float, sum_double, product_double, max_int, max_double, min_int, min_double, set, concat, logical_and, logical_or, logical_and_bool, logical_or_bool };
}
class CkReductionMsg {
public:
  std::vector<char> data;
  int getSize() const { return (int)data.size(); }
  int getLength() const { return getSize(); }
  void *getData() { return data.data(); }
  const void *getData() const { return data.data(); }
};

class CkCallback {
public:
  int ep = 0, array = -1, x = 0, y = 0, z = 0;
  bool bcast = false;
  bool ignore = true;
  bool exits = false;
  enum callbackType { invalid, ignoreT, ckExit };
  CkCallback() {}
  CkCallback(callbackType t) { exits = t == ckExit; }
  template <class P> CkCallback(int e, const P &p) : ep(e), array(p._arr), x(p._x), y(p._y), z(p._z), bcast(p._bcast), ignore(false) {}
  void send(void *msg = nullptr) const;
  void pup(PUP::er &p) {
    p | ep;
    p | array;
    p | x;
    p | y;
    p | z;
    p | bcast;
    p | ignore;
    p | exits;
  }
};
#define CkReductionTarget(me, method) CkIndex_##me::redn_wrapper_##method(NULL)

namespace csim {
void contribute(const Where &w, const void *d, size_t n, CkReduction::reducerType t, const CkCallback &cb);
void section_contribute(const Where &w, CkSectionInfo &c, const void *d, size_t n, CkReduction::reducerType t, const CkCallback &cb);
struct Section {
  long id = -1;
  int array = -1;
  std::vector<CkArrayIndex3D> e;
};
std::shared_ptr<Section> new_section(int array, const std::vector<CkArrayIndex3D> &e);
template <class M> inline void set_cookie(M *m, long id) {
  if constexpr (std::is_base_of<CkMcastBaseMsg, M>::value)
    m->_cookie.sect = id;
}
inline unsigned short refnum16(long r) { return (unsigned short)r; }
template <class T> inline int ref_of(const T &x) {
  if constexpr (std::is_integral<T>::value || std::is_enum<T>::value)
    return (int)refnum16((long)x);
  else
    return 0;
}
template <class C, class T> inline void construct_from(void *mem, T &x) {
  if constexpr (std::is_constructible<C, T &&>::value)
    new (mem) C(std::move(x));
  else
    new (mem) C(x);
}

// Common base of every chare.
template <class Proxy> class ChareBase {
public:
  Where _where;
  CkArrayIndex3D thisIndex;
  Proxy thisProxy;
  CkArrayID thisArrayID;
  bool usesAtSync = false;
  ChareBase() { init(); }
  ChareBase(CkMigrateMessage *) { init(); }
  void init() {
    _where = *constructing();
    thisIndex = CkArrayIndex3D(_where.x, _where.y, _where.z);
    thisProxy._arr = _where.array;
    thisArrayID.id = _where.array;
  }
  void pup(PUP::er &) {}
  void __sdag_pup(PUP::er &) {}
  void contribute(const CkCallback &cb) { csim::contribute(_where, nullptr, 0, CkReduction::nop, cb); }
  void contribute(size_t n, const void *d, CkReduction::reducerType t, const CkCallback &cb) { csim::contribute(_where, d, n, t, cb); }
  template <class T> void contribute(const std::vector<T> &v, CkReduction::reducerType t, const CkCallback &cb) { csim::contribute(_where, v.data(), v.size() * sizeof(T), t, cb); }
  int ckGetArrayID() const { return _where.array; }
};
} // namespace csim

double CkWallTimer();
double CkTimer();
void CkPrintf(const char *f, ...);
void CkError(const char *f, ...);
void CkExit(int rc = 0);
void CkAbort(const char *f, ...);
int CkMyPe();
int CkNumPes();
int CkMyNode();
int CkNumNodes();
void CkStartCheckpoint(const char *dir, const CkCallback &cb, bool requestStatus = false, int writers = 0);
void CkStartQD(const CkCallback &cb);
template <class T> inline void CkSetRefNum(T *, int) {}
#define CkAssert(x) ((x) ? (void)0 : CkAbort("CkAssert failed: %s", #x))
#define CmiAbort CkAbort
#define CmiPrintf CkPrintf

namespace Ck {
namespace IO {
struct Options {
  size_t peStripe = 0, writeStripe = 0;
  int activePEs = -1, basePE = -1, skipPEs = -1;
  int numReaders = 0;
};
class File {
public:
  int token = -1;
  void pup(PUP::er &p) { p | token; }
};
class Session {
public:
  int file = -1;
  size_t bytes = 0, offset = 0;
  int token = -1;
  void pup(PUP::er &p) {
    p | file;
    p | bytes;
    p | offset;
    p | token;
  }
};
struct FileReadyMsg {
  File file;
};
struct SessionReadyMsg {
  Session session;
};
struct SessionCommitMsg {};
void open(std::string name, CkCallback opened, Options opts);
void startSession(File f, size_t bytes, size_t offset, CkCallback ready, CkCallback complete);
void startSession(File f, size_t bytes, size_t offset, CkCallback ready, const char *commitData, size_t commitBytes, size_t commitOffset, CkCallback complete);
void write(Session s, const char *data, size_t bytes, size_t offset);
void close(File f, CkCallback closed);
} // namespace IO
} // namespace Ck
#endif
