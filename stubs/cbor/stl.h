// Stand-in for the submodule thirdparty/cbor (iwanders/cbor), which is empty here: the part of its interface that
// scalopus uses, writing and reading real CBOR (RFC 7049).  Malformed input throws cbor::error.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace cbor
{
using Bytes = std::vector<std::uint8_t>;
struct error : public std::runtime_error
{
  using std::runtime_error::runtime_error;
};
struct result
{
  result(std::size_t n = 0) : bytes(n) {}
  result& operator+=(const result& o)
  {
    ok = ok && o.ok;
    bytes += o.bytes;
    return *this;
  }
  explicit operator bool() const { return ok; }
  operator std::size_t() const { return bytes; }
  bool ok{ true };
  std::size_t bytes{ 0 };
};
struct writer
{
  Bytes& out;
  result head(unsigned major, std::uint64_t v)
  {
    int extra = v < 24 ? 0 : v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffULL ? 4 : 8;
    int low = extra == 0 ? (int)v : extra == 1 ? 24 : extra == 2 ? 25 : extra == 4 ? 26 : 27;
    out.push_back((std::uint8_t)(major << 5 | (unsigned)low));
    for (int i = extra - 1; i >= 0; i--)
      out.push_back((std::uint8_t)(v >> (8 * i)));
    return result((std::size_t)extra + 1);
  }
  result raw(const void* p, std::size_t n)
  {
    out.insert(out.end(), (const std::uint8_t*)p, (const std::uint8_t*)p + n);
    return result(n);
  }
  result openArray(std::size_t n) { return head(4, n); }
  result openMap(std::size_t n) { return head(5, n); }
};
struct reader
{
  const std::uint8_t* p;
  std::size_t n;
  std::size_t pos{ 0 };
  std::uint8_t peek() const
  {
    if (pos >= n)
      throw error("unexpected end of data");
    return p[pos];
  }
  void need(std::uint64_t k) const
  {
    if (k > n - pos)
      throw error("unexpected end of data");
  }
  std::uint64_t head(unsigned& major)
  {
    std::uint8_t b = peek();
    major = b >> 5;
    unsigned low = b & 31;
    pos++;
    if (low < 24)
      return low;
    if (low > 27)
      throw error("unsupported length encoding");
    std::size_t k = std::size_t{ 1 } << (low - 24);
    need(k);
    std::uint64_t v = 0;
    for (std::size_t i = 0; i < k; i++)
      v = v << 8 | p[pos++];
    return v;
  }
  std::uint64_t expect(unsigned major)
  {
    unsigned m;
    std::size_t at = pos;
    std::uint64_t v = head(m);
    if (m != major)
    {
      pos = at;
      throw error("unexpected type");
    }
    return v;
  }
  result expectArray()
  {
    if (peek() >> 5 != 4)
      throw error("expected an array");
    return result(0);
  }
  result readLength(std::size_t& len)
  {
    unsigned m;
    std::size_t at = pos;
    len = (std::size_t)head(m);
    return result(pos - at);
  }
  void skip(int depth = 0)
  {
    if (depth > 200)
      throw error("too deep");
    unsigned m;
    std::uint64_t v = head(m);
    if (m == 2 || m == 3)
    {
      need(v);
      pos += (std::size_t)v;
    }
    else if (m == 4 || m == 5)
    {
      need(v);  // every element takes at least one byte
      for (std::uint64_t i = 0; i < v * (m == 5 ? 2 : 1); i++)
        skip(depth + 1);
    }
    else if (m == 6)
      skip(depth + 1);
  }
};
class cbor_object;

// ---- integers
template <typename T, std::enable_if_t<std::is_integral<T>::value && std::is_unsigned<T>::value && !std::is_same<T, bool>::value, int> = 0>
result to_cbor(const T& v, writer& w)
{
  return w.head(0, v);
}
template <typename T, std::enable_if_t<std::is_integral<T>::value && std::is_signed<T>::value, int> = 0>
result to_cbor(const T& v, writer& w)
{
  return v < 0 ? w.head(1, ~(std::uint64_t)(std::int64_t)v) : w.head(0, (std::uint64_t)v);
}
template <typename T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value, int> = 0>
result from_cbor(T& v, reader& r)
{
  std::size_t at = r.pos;
  unsigned m;
  std::uint64_t x = r.head(m);
  if (m == 0)
  {
    v = (T)x;
    if ((std::uint64_t)v != x || v < 0)
      throw error("integer does not fit");
  }
  else if (m == 1 && std::is_signed<T>::value)
  {
    std::int64_t y = (std::int64_t)~x;
    v = (T)y;
    if (y >= 0 || (std::int64_t)v != y)
      throw error("integer does not fit");
  }
  else
    throw error("expected an integer");
  return result(r.pos - at);
}
// ---- strings
inline result to_cbor(const std::string& s, writer& w)
{
  result x = w.head(3, s.size());
  return x += w.raw(s.data(), s.size());
}
inline result from_cbor(std::string& s, reader& r)
{
  std::size_t at = r.pos;
  std::uint64_t n = r.expect(3);
  r.need(n);
  s.assign((const char*)r.p + r.pos, (std::size_t)n);
  r.pos += (std::size_t)n;
  return result(r.pos - at);
}
inline result to_cbor(const Bytes& s, writer& w)
{
  result x = w.head(2, s.size());
  return x += w.raw(s.data(), s.size());
}
inline result from_cbor(Bytes& s, reader& r)
{
  std::size_t at = r.pos;
  std::uint64_t n = r.expect(2);
  r.need(n);
  s.assign(r.p + r.pos, r.p + r.pos + n);
  r.pos += (std::size_t)n;
  return result(r.pos - at);
}
// ---- declarations of the composite ones, so that they can nest in any order
template <typename T, std::enable_if_t<!std::is_same<T, std::uint8_t>::value, int> = 0>
result to_cbor(const std::vector<T>& v, writer& w);
template <typename T, std::enable_if_t<!std::is_same<T, std::uint8_t>::value, int> = 0>
result from_cbor(std::vector<T>& v, reader& r);
template <typename K, typename V>
result to_cbor(const std::map<K, V>& v, writer& w);
template <typename K, typename V>
result from_cbor(std::map<K, V>& v, reader& r);
template <typename T>
result to_cbor(const std::unique_ptr<T>& v, writer& w);
template <typename T>
result from_cbor(std::unique_ptr<T>& v, reader& r);
result to_cbor(const cbor_object& v, writer& w);
result from_cbor(cbor_object& v, reader& r);

// ---- entry points on plain byte vectors
template <typename T>
result to_cbor(const T& v, Bytes& data)
{
  writer w{ data };
  return to_cbor(v, w);
}
template <typename T>
result from_cbor(T& v, const Bytes& data)
{
  reader r{ data.data(), data.size() };
  return from_cbor(v, r);
}
class cbor_object
{
public:
  cbor_object() = default;
  template <typename T, std::enable_if_t<!std::is_same<std::decay_t<T>, cbor_object>::value, int> = 0>
  explicit cbor_object(const T& v)
  {
    to_cbor(v, bytes_);
  }
  const Bytes& serialized() const { return bytes_; }
  template <typename T>
  result get_to(T& v) const
  {
    return from_cbor(v, bytes_);
  }
  template <typename T>
  T get() const
  {
    T v{};
    get_to(v);
    return v;
  }
  Bytes bytes_;
};
template <typename T, std::enable_if_t<!std::is_same<T, std::uint8_t>::value, int>>
result to_cbor(const std::vector<T>& v, writer& w)
{
  result x = w.openArray(v.size());
  for (const auto& e : v)
    x += to_cbor(e, w);
  return x;
}
template <typename T, std::enable_if_t<!std::is_same<T, std::uint8_t>::value, int>>
result from_cbor(std::vector<T>& v, reader& r)
{
  std::size_t at = r.pos;
  std::uint64_t n = r.expect(4);
  r.need(n);
  v.clear();
  for (std::uint64_t i = 0; i < n; i++)
  {
    T e{};
    from_cbor(e, r);
    v.push_back(std::move(e));
  }
  return result(r.pos - at);
}
template <typename K, typename V>
result to_cbor(const std::map<K, V>& v, writer& w)
{
  result x = w.openMap(v.size());
  for (const auto& e : v)
  {
    x += to_cbor(e.first, w);
    x += to_cbor(e.second, w);
  }
  return x;
}
template <typename K, typename V>
result from_cbor(std::map<K, V>& v, reader& r)
{
  std::size_t at = r.pos;
  std::uint64_t n = r.expect(5);
  r.need(n);
  v.clear();
  for (std::uint64_t i = 0; i < n; i++)
  {
    K k{};
    from_cbor(k, r);
    V e{};
    from_cbor(e, r);
    v[std::move(k)] = std::move(e);
  }
  return result(r.pos - at);
}
template <typename T>
result to_cbor(const std::unique_ptr<T>& v, writer& w)
{
  if (v == nullptr)
    return w.head(7, 22);
  return to_cbor(*v, w);
}
template <typename T>
result from_cbor(std::unique_ptr<T>& v, reader& r)
{
  if (r.peek() == 0xf6)
  {
    r.pos++;
    v.reset();
    return result(1);
  }
  v = std::make_unique<T>();
  return from_cbor(*v, r);
}
inline result to_cbor(const cbor_object& v, writer& w) { return w.raw(v.bytes_.data(), v.bytes_.size()); }
inline result from_cbor(cbor_object& v, reader& r)
{
  std::size_t at = r.pos;
  r.skip();
  v.bytes_.assign(r.p + at, r.p + r.pos);
  return result(r.pos - at);
}
}  // namespace cbor
