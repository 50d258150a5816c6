// In-process exhaustive enumeration of inputs / operation histories, sharded over forked workers.  Every case has an index;
// a failing case is replayed by its index.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace en
{
struct Failure : std::runtime_error
{
  std::string kind;
  Failure(const std::string& k, const std::string& m) : std::runtime_error(m), kind(k) {}
};
class Ctx
{
public:
  bool thorough;
  // Advances to the next case; true when this worker has to execute it.
  bool next();
  // distinct results seen (hash table shared between the workers)
  void digest(uint64_t h);
  void digest(const std::string& s);
  void describe(const std::string& s);   // text of the current case, kept for reports
  void transitions(uint64_t n);          // operations executed in this case
  bool verbose;
  uint64_t index = 0;
  int shard = 0, shards = 1;
  int64_t only = -1;
  struct Shared* sh = nullptr;
};
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define EN_REQUIRE(cond, ...)  \
  do                           \
  {                            \
    if (!(cond))               \
      en::fail(__VA_ARGS__);   \
  } while (0)
struct Enumerator
{
  const char* name;
  void (*fn)(Ctx&);
  int tiers;  // 1 quick, 2 thorough, 3 both
};
int add(const Enumerator& e);
#define EN_CASES(fname, tiers)                                     \
  static void fname(en::Ctx&);                                     \
  static int en_reg_##fname = en::add({ #fname, fname, tiers });   \
  static void fname(en::Ctx& c)
inline std::string show(const std::string& s)
{
  std::string r = "\"";
  char b[8];
  for (unsigned char x : s)
    if (x < 32 || x > 126 || x == '"' || x == '\\')
    {
      snprintf(b, sizeof b, "\\x%02x", x);
      r += b;
    }
    else
      r += char(x);
  return r + "\"";
}
}  // namespace en
