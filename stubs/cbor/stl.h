// Declaration-only stand-in for the CBOR library, which is not available offline. It exists so that the compiler
// front end can resolve the native tracing backend; nothing in it is executed.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace cbor
{
struct error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : error { using error::error; };
struct parse_error : error { using error::error; };
struct buffer_error : error { using error::error; };
struct result
{
  result& operator+=(const result&);
  explicit operator bool() const;
};
struct data_adapter
{
  result openArray(std::size_t);
  result openMap(std::size_t);
  result expectArray();
  result expectMap();
  result readLength(std::size_t&);
};
struct cbor_object
{
  cbor_object();
  template <typename T> explicit cbor_object(const T&);
  const std::vector<std::uint8_t>& serialized() const;
  template <typename T> T get() const;
  template <typename T> void get_to(T&) const;
};
template <typename T> result to_cbor(const T& v, std::vector<std::uint8_t>& data);
template <typename T> result from_cbor(T& v, const std::vector<std::uint8_t>& data);
template <typename T> result to_cbor(const T& v, data_adapter& data);
template <typename T> result from_cbor(T& v, data_adapter& data);
}  // namespace cbor
