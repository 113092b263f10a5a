// Declarations only: what the native sources need from the binding library, for parsing.
#ifndef WX_STUB_PYBIND11
#define WX_STUB_PYBIND11
#include <cstddef>
#include <cstdint>
namespace pybind11 {
struct object {
  object attr(const char*) const;
  template <typename T> T cast() const;
};
using handle = object;
struct buffer_info { void* ptr; long size; long itemsize; long ndim; };
template <typename T, int Flags = 0>
struct array_t : object {
  buffer_info request(bool writable = false) const;
  long size() const;
  long ndim() const;
  long shape(long) const;
  const T* data() const;
  T* mutable_data();
};
struct module_ {
  template <typename F, typename... E> module_& def(const char* name, F f, E... extra);
};
struct arg { arg(const char*); arg& noconvert(bool = true); };
}
#define PYBIND11_MODULE(name, m) void wx_bindings_##name(pybind11::module_& m)
#endif
