// A stand-in for the small part of absl/log that Ceres uses.  The Abseil
// installed in this sandbox (20220623) predates absl/log.  Fatal conditions
// print a line "FATAL file:line msg" and call absl_shim::Die(), which throws
// absl_shim::Fatal if the calling thread asked for it, and aborts otherwise.
#ifndef VERIF_ABSL_LOG_SHIM_H_
#define VERIF_ABSL_LOG_SHIM_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>

namespace absl_shim {
struct Fatal : public std::runtime_error {
  explicit Fatal(const std::string& s) : std::runtime_error(s) {}
};
inline thread_local bool throw_on_fatal = false;
inline bool quiet = false;
inline void (*fatal_hook)(const char*) = nullptr;
[[noreturn]] inline void Die(const std::string& s) {
  if (fatal_hook) fatal_hook(s.c_str());
  if (throw_on_fatal) throw Fatal(s);
  std::fprintf(stderr, "FATAL %s\n", s.c_str());
  std::fflush(stderr);
  std::abort();
}
class Message {
 public:
  Message(const char* sev, const char* file, int line) : sev_(sev[0]) {
    s_ << file << ":" << line << " ";
  }
  ~Message() {
    if (!quiet) std::fprintf(stderr, "%c %s\n", sev_, s_.str().c_str());
  }
  std::ostream& stream() { return s_; }
  template <typename T>
  Message& operator<<(const T& t) {
    s_ << t;
    return *this;
  }
  Message& operator<<(std::ostream& (*m)(std::ostream&)) {
    s_ << m;
    return *this;
  }

 protected:
  char sev_;
  std::ostringstream s_;
};
class FatalMessage {
 public:
  FatalMessage(const char* file, int line) { s_ << file << ":" << line << " "; }
  FatalMessage(const char* file, int line, const std::string& m) {
    s_ << file << ":" << line << " " << m << " ";
  }
  [[noreturn]] ~FatalMessage() noexcept(false) { Die(s_.str()); }
  template <typename T>
  FatalMessage& operator<<(const T& t) {
    s_ << t;
    return *this;
  }
  FatalMessage& operator<<(std::ostream& (*m)(std::ostream&)) {
    s_ << m;
    return *this;
  }

 private:
  std::ostringstream s_;
};
struct Voidify {
  template <typename T>
  void operator&&(T&&) const {}
};
struct NullStream {
  template <typename T>
  NullStream& operator<<(const T&) {
    return *this;
  }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
template <typename T>
void Put(std::ostream& o, const T& t) {
  if constexpr (std::is_same_v<T, std::nullptr_t>) {
    o << "nullptr";
  } else {
    o << t;
  }
}
template <typename A, typename B>
std::unique_ptr<std::string> MakeOp(const A& a, const B& b, const char* e) {
  std::ostringstream o;
  o << "Check failed: " << e << " (";
  Put(o, a);
  o << " vs. ";
  Put(o, b);
  o << ")";
  return std::make_unique<std::string>(o.str());
}
#define VERIF_SHIM_OP(name, op)                                           \
  template <typename A, typename B>                                       \
  std::unique_ptr<std::string> Check##name(const A& a, const B& b,        \
                                           const char* e) {               \
    if (a op b) return nullptr;                                           \
    return MakeOp(a, b, e);                                               \
  }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wsign-compare"
VERIF_SHIM_OP(EQ, ==)
VERIF_SHIM_OP(NE, !=)
VERIF_SHIM_OP(LE, <=)
VERIF_SHIM_OP(LT, <)
VERIF_SHIM_OP(GE, >=)
VERIF_SHIM_OP(GT, >)
#pragma GCC diagnostic pop
template <typename T>
T DieIfNull(const char* f, int l, const char* e, T&& t) {
  if (t == nullptr) FatalMessage(f, l) << e << " is null";
  return std::forward<T>(t);
}
}  // namespace absl_shim

#define VERIF_SHIM_LOG_INFO absl_shim::Message("I", __FILE__, __LINE__)
#define VERIF_SHIM_LOG_WARNING absl_shim::Message("W", __FILE__, __LINE__)
#define VERIF_SHIM_LOG_ERROR absl_shim::Message("E", __FILE__, __LINE__)
#define VERIF_SHIM_LOG_FATAL absl_shim::FatalMessage(__FILE__, __LINE__)
#define LOG(sev) VERIF_SHIM_LOG_##sev
#define LOG_IF(sev, c) \
  switch (0)           \
  case 0:              \
  default:             \
    !(c) ? (void)0 : absl_shim::Voidify() && LOG(sev)
#define VLOG_IS_ON(n) (false)
#define VLOG(n) \
  switch (0)    \
  case 0:       \
  default:      \
    true ? (void)0 : absl_shim::Voidify() && absl_shim::NullStream()
#define CHECK(c)                                                        \
  switch (0)                                                            \
  case 0:                                                               \
  default:                                                              \
    (c) ? (void)0                                                       \
        : absl_shim::Voidify() && absl_shim::FatalMessage(              \
                                      __FILE__, __LINE__,               \
                                      "Check failed: " #c)
#define VERIF_SHIM_CHECK_OP(name, op, a, b)                               \
  while (std::unique_ptr<std::string> verif_r =                           \
             absl_shim::Check##name((a), (b), #a " " #op " " #b))         \
  absl_shim::FatalMessage(__FILE__, __LINE__, *verif_r)
#define CHECK_EQ(a, b) VERIF_SHIM_CHECK_OP(EQ, ==, a, b)
#define CHECK_NE(a, b) VERIF_SHIM_CHECK_OP(NE, !=, a, b)
#define CHECK_LE(a, b) VERIF_SHIM_CHECK_OP(LE, <=, a, b)
#define CHECK_LT(a, b) VERIF_SHIM_CHECK_OP(LT, <, a, b)
#define CHECK_GE(a, b) VERIF_SHIM_CHECK_OP(GE, >=, a, b)
#define CHECK_GT(a, b) VERIF_SHIM_CHECK_OP(GT, >, a, b)
#ifdef NDEBUG
#define VERIF_SHIM_DROP(c)  \
  switch (0)                \
  case 0:                   \
  default:                  \
    (true || (c)) ? (void)0 \
                  : absl_shim::Voidify() && absl_shim::NullStream()
#define DCHECK(c) VERIF_SHIM_DROP(c)
#define DCHECK_EQ(a, b) VERIF_SHIM_DROP((a) == (b))
#define DCHECK_NE(a, b) VERIF_SHIM_DROP((a) != (b))
#define DCHECK_LE(a, b) VERIF_SHIM_DROP((a) <= (b))
#define DCHECK_LT(a, b) VERIF_SHIM_DROP((a) < (b))
#define DCHECK_GE(a, b) VERIF_SHIM_DROP((a) >= (b))
#define DCHECK_GT(a, b) VERIF_SHIM_DROP((a) > (b))
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#endif
#define DLOG(sev) LOG_IF(sev, false)
namespace absl {
inline void InitializeLog() {}
}  // namespace absl
#endif
