// Stand-in for DARMA/magistrate (checkpoint), which this sandbox does not have.
// It provides the part of the interface vt uses: sizing, packing, unpacking,
// footprinting, polymorphic serialization and whole-file serialization.
// File access goes through the simulator's disk seam (vsim_disk_*).
#ifndef VSIM_CHECKPOINT_CHECKPOINT_H
#define VSIM_CHECKPOINT_CHECKPOINT_H

#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include "checkpoint/detector.h"

extern "C" {
// Simulated disk, implemented by the engine. Non-zero/-1 on an injected error.
int vsim_disk_write_file(char const* path, void const* data, unsigned long len);
// Returns malloc'd buffer or nullptr.
void* vsim_disk_read_file(char const* path, unsigned long* len);
}

namespace magistrate {

struct SERIALIZE_CONSTRUCT_TAG {};

struct SerializerBase {};

struct Sizer : SerializerBase {
  std::size_t n = 0;
  static constexpr bool isSizing() { return true; }
  static constexpr bool isPacking() { return false; }
  static constexpr bool isUnpacking() { return false; }
  static constexpr bool isFootprinting() { return false; }
  void bytes(void*, std::size_t k) { n += k; }
  template <typename T> void contiguousBytes(T*, std::size_t sz, std::size_t k) { n += sz * k; }
  void contiguousBytes(void*, std::size_t sz, std::size_t k) { n += sz * k; }
  template <typename T> void countBytes(T const&) {}
  void addBytes(std::size_t) {}
  template <typename T> void skip(T const&) {}
};
struct Packer : SerializerBase {
  char* p = nullptr;
  std::size_t n = 0;
  static constexpr bool isSizing() { return false; }
  static constexpr bool isPacking() { return true; }
  static constexpr bool isUnpacking() { return false; }
  static constexpr bool isFootprinting() { return false; }
  void bytes(void* d, std::size_t k) { if (k) std::memcpy(p + n, d, k); n += k; }
  void contiguousBytes(void* d, std::size_t sz, std::size_t k) { bytes(d, sz * k); }
  template <typename T> void countBytes(T const&) {}
  void addBytes(std::size_t) {}
  template <typename T> void skip(T const&) {}
};
struct Unpacker : SerializerBase {
  char const* p = nullptr;
  std::size_t n = 0;
  std::size_t limit = ~std::size_t(0);
  static constexpr bool isSizing() { return false; }
  static constexpr bool isPacking() { return false; }
  static constexpr bool isUnpacking() { return true; }
  static constexpr bool isFootprinting() { return false; }
  void bytes(void* d, std::size_t k) {
    if (n + k > limit) throw std::runtime_error("magistrate: read past the end of the data");
    if (k) std::memcpy(d, p + n, k);
    n += k;
  }
  void contiguousBytes(void* d, std::size_t sz, std::size_t k) { bytes(d, sz * k); }
  template <typename T> void countBytes(T const&) {}
  void addBytes(std::size_t) {}
  template <typename T> void skip(T const&) {}
};
struct Footprinter : SerializerBase {
  std::size_t n = 0;
  static constexpr bool isSizing() { return false; }
  static constexpr bool isPacking() { return false; }
  static constexpr bool isUnpacking() { return false; }
  static constexpr bool isFootprinting() { return true; }
  void bytes(void*, std::size_t k) { n += k; }
  void contiguousBytes(void*, std::size_t sz, std::size_t k) { n += sz * k; }
  template <typename T> void countBytes(T const& t) { n += sizeof(t); }
  void addBytes(std::size_t k) { n += k; }
  template <typename T> void skip(T const& t) { n += sizeof(t); }
};

template <typename S> inline constexpr bool is_sizer_v = std::is_same_v<S, Sizer>;
template <typename S> inline constexpr bool is_packer_v = std::is_same_v<S, Packer>;
template <typename S> inline constexpr bool is_unpacker_v = std::is_same_v<S, Unpacker>;
template <typename S> inline constexpr bool is_footprinter_v = std::is_same_v<S, Footprinter>;
template <typename S> inline constexpr bool is_serializer_v = std::is_base_of_v<SerializerBase, S>;

namespace detail {
template <typename T> using member_ser_t =
  decltype(std::declval<T&>().serialize(std::declval<Sizer&>()));
template <typename T> using byte_trait_t = typename T::isByteCopyable;
template <typename T> using vroot_t = typename T::MagVirtualRootTag;

template <typename T, typename = void> struct is_byte : std::bool_constant<
  std::is_arithmetic_v<T> or std::is_enum_v<T>> {};
template <typename T> struct is_byte<T, std::void_t<byte_trait_t<T>>>
  : std::bool_constant<T::isByteCopyable::value> {};

template <typename T> inline constexpr bool is_virtual_v = ::detection::is_detected<vroot_t, T>::value;
} // namespace detail

// ---- std types (found by ADL through the serializer argument) -------------
template <typename S, typename T> void apply(S& s, T& t);

template <typename T> T* constructAt(void* mem);

template <typename S> void serialize(S& s, std::string& v);
template <typename S, typename T, typename A> void serialize(S& s, std::vector<T, A>& v);
template <typename S, typename A> void serialize(S& s, std::vector<bool, A>& v);
template <typename S, typename T, typename A> void serialize(S& s, std::list<T, A>& v);
template <typename S, typename T, typename A> void serialize(S& s, std::deque<T, A>& v);
template <typename S, typename T, typename C> void serialize(S& s, std::queue<T, C>& v);
template <typename S, typename T, typename C> void serialize(S& s, std::stack<T, C>& v);
template <typename S, typename T, typename C, typename L> void serialize(S& s, std::priority_queue<T, C, L>& v);
template <typename S, typename K, typename V, typename C, typename A> void serialize(S& s, std::map<K, V, C, A>& v);
template <typename S, typename K, typename V, typename C, typename A> void serialize(S& s, std::multimap<K, V, C, A>& v);
template <typename S, typename K, typename V, typename H, typename E, typename A> void serialize(S& s, std::unordered_map<K, V, H, E, A>& v);
template <typename S, typename K, typename V, typename H, typename E, typename A> void serialize(S& s, std::unordered_multimap<K, V, H, E, A>& v);
template <typename S, typename K, typename C, typename A> void serialize(S& s, std::set<K, C, A>& v);
template <typename S, typename K, typename C, typename A> void serialize(S& s, std::multiset<K, C, A>& v);
template <typename S, typename K, typename H, typename E, typename A> void serialize(S& s, std::unordered_set<K, H, E, A>& v);
template <typename S, typename A, typename B> void serialize(S& s, std::pair<A, B>& v);
template <typename S, typename... Ts> void serialize(S& s, std::tuple<Ts...>& v);
template <typename S, typename T, std::size_t N> void serialize(S& s, std::array<T, N>& v);
template <typename S, typename T, std::size_t N> void serialize(S& s, T (&v)[N]);
template <typename S, typename T, typename D> void serialize(S& s, std::unique_ptr<T, D>& v);
template <typename S, typename T> void serialize(S& s, std::shared_ptr<T>& v);
template <typename S, typename T> void serialize(S& s, std::optional<T>& v);
template <typename S, typename T> void serialize(S& s, std::atomic<T>& v);
template <typename S, typename... Ts> void serialize(S& s, std::variant<Ts...>& v);
template <typename S, std::size_t N> void serialize(S& s, std::bitset<N>& v);
template <typename S, typename R, typename P> void serialize(S& s, std::chrono::duration<R, P>& v);
template <typename S, typename F> void serialize(S& s, std::function<F>& v);
template <typename S> void serialize(S& s, std::mutex& v);
template <typename S, typename T, typename = std::enable_if_t<std::is_same_v<S, Footprinter>>>
void serialize(S& s, T*& v) { s.n += sizeof(v); }

namespace detail {
template <typename T> using free_ser_t =
  decltype(serialize(std::declval<Sizer&>(), std::declval<T&>()));
template <typename T> using free_foot_t =
  decltype(serialize(std::declval<Footprinter&>(), std::declval<T&>()));
template <typename T> using member_foot_t =
  decltype(std::declval<T&>().serialize(std::declval<Footprinter&>()));

template <typename T> using static_recon_t = decltype(T::reconstruct(std::declval<void*>()));
template <typename T> using free_recon_t =
  decltype(reconstruct(std::declval<T*&>(), std::declval<void*>()));

template <typename S, typename T> void ownSerialize(S& s, T& t) {
  if constexpr (is_byte<T>::value) {
    s.contiguousBytes(static_cast<void*>(&t), sizeof(T), 1);
  } else if constexpr (::detection::is_detected<member_ser_t, T>::value) {
    t.serialize(s);
  } else if constexpr (std::is_same_v<S, Footprinter>) {
    if constexpr (::detection::is_detected<member_foot_t, T>::value) {
      t.serialize(s);
    } else if constexpr (::detection::is_detected<free_foot_t, T>::value) {
      serialize(s, t);
    } else {
      s.n += sizeof(T);
    }
  } else {
    static_assert(::detection::is_detected<free_ser_t, T>::value,
      "magistrate: this type cannot be serialized");
    serialize(s, t);
  }
}
} // namespace detail

template <typename T, typename S = Sizer> struct SerializableTraits {
  static constexpr bool has_serialize_function =
    ::detection::is_detected<detail::member_ser_t, T>::value;
  static constexpr bool has_serialize_noninstrusive =
    ::detection::is_detected<detail::free_ser_t, T>::value;
  static constexpr bool is_bytecopyable = detail::is_byte<T>::value;
  static constexpr bool is_serializable =
    has_serialize_function or has_serialize_noninstrusive or is_bytecopyable;
};

// ---- polymorphic types ----------------------------------------------------
namespace detail {
struct VEntry { void* (*make)(); };
inline std::vector<VEntry>& vregistry() { static std::vector<VEntry> r; return r; }
template <typename T> constexpr bool isReconstructible() {
  return std::is_default_constructible_v<T> or
    std::is_constructible_v<T, SERIALIZE_CONSTRUCT_TAG> or
    ::detection::is_detected<static_recon_t, T>::value or
    ::detection::is_detected<free_recon_t, T>::value;
}
template <typename T> void* vmake() {
  if constexpr (std::is_abstract_v<T> or not isReconstructible<T>()) {
    return nullptr;
  } else {
    return constructAt<T>(std::malloc(sizeof(T)));
  }
}
// make() returns a pointer to the most derived object, which the shim treats
// as a pointer to the root too: single, non-virtual inheritance only (as used).
template <typename T> struct VReg {
  static int idx;
};
template <typename T> int VReg<T>::idx = (vregistry().push_back(VEntry{&vmake<T>}),
                                          static_cast<int>(vregistry().size()) - 1);
} // namespace detail

#define MAGISTRATE_VSIM_COMMON_(BODY)                                          \
  virtual void magVirtSer(::magistrate::Sizer& s) BODY                         \
  virtual void magVirtSer(::magistrate::Packer& s) BODY                        \
  virtual void magVirtSer(::magistrate::Unpacker& s) BODY                      \
  virtual void magVirtSer(::magistrate::Footprinter& s) BODY                   \
  virtual int magVirtIdx() const {                                             \
    using MagT = std::remove_const_t<std::remove_pointer_t<decltype(this)>>;   \
    return ::magistrate::detail::VReg<MagT>::idx;                              \
  }

#define magistrate_virtual_serialize_root()                                    \
  using MagVirtualRootTag = void;                                              \
  MAGISTRATE_VSIM_COMMON_({ ::magistrate::detail::ownSerialize(s, *this); })

#define magistrate_virtual_serialize_derived_from(BASE)                        \
  MAGISTRATE_VSIM_COMMON_({                                                    \
    BASE::magVirtSer(s);                                                       \
    ::magistrate::detail::ownSerialize(s, *this);                              \
  })
#define checkpoint_virtual_serialize_root magistrate_virtual_serialize_root
#define checkpoint_virtual_serialize_derived_from magistrate_virtual_serialize_derived_from

// ---- core dispatch ---------------------------------------------------------
template <typename S, typename T> void apply(S& s, T& tc) {
  using U = std::remove_const_t<T>;
  auto& t = const_cast<U&>(tc);
  if constexpr (detail::is_virtual_v<U>) {
    t.magVirtSer(s);
  } else {
    detail::ownSerialize(s, t);
  }
}

template <typename S, typename T,
  typename = std::enable_if_t<is_serializer_v<S>>>
S& operator|(S& s, T& t) { apply(s, t); return s; }
template <typename S, typename T,
  typename = std::enable_if_t<is_serializer_v<S>>, typename = void>
S& operator|(S& s, T const& t) { apply(s, const_cast<T&>(t)); return s; }

template <typename T> T* constructAt(void* mem) {
  if constexpr (std::is_default_constructible_v<T>) {
    return new (mem) T();
  } else if constexpr (std::is_constructible_v<T, SERIALIZE_CONSTRUCT_TAG>) {
    return new (mem) T(SERIALIZE_CONSTRUCT_TAG{});
  } else if constexpr (::detection::is_detected<detail::static_recon_t, T>::value) {
    return &T::reconstruct(mem);
  } else if constexpr (::detection::is_detected<detail::free_recon_t, T>::value) {
    T* out = reinterpret_cast<T*>(mem);
    reconstruct(out, mem);
    return out;
  } else {
    static_assert(sizeof(T) == 0, "magistrate: this type cannot be reconstructed");
  }
}

template <typename S, typename T>
void reconstructPointedToObjectIfNeeded(S& s, T*& ptr) {
  if constexpr (detail::is_virtual_v<T>) {
    int idx = 0;
    if constexpr (not is_unpacker_v<S>) idx = ptr->magVirtIdx();
    s.bytes(&idx, sizeof(idx));
    if constexpr (is_unpacker_v<S>) {
      ptr = reinterpret_cast<T*>(detail::vregistry().at(idx).make());
    }
  } else if constexpr (is_unpacker_v<S>) {
    ptr = constructAt<T>(::operator new(sizeof(T)));
  }
}

// ---- std types --------------------------------------------------------------
namespace detail {
template <typename T> struct Holder {
  alignas(T) unsigned char mem[sizeof(T)];
  T* p;
  Holder() : p(constructAt<T>(mem)) {}
  Holder(Holder const&) = delete;
  ~Holder() { p->~T(); }
};
template <typename S> std::size_t count(S& s, std::size_t k) {
  s.bytes(&k, sizeof(k));
  return k;
}
template <typename S, typename C, typename Add> void sequence(S& s, C& v, Add add) {
  using T = typename C::value_type;
  auto k = count(s, v.size());
  if constexpr (is_unpacker_v<S>) {
    v.clear();
    for (std::size_t i = 0; i < k; i++) {
      Holder<std::remove_const_t<T>> h;
      apply(s, *h.p);
      add(std::move(*h.p));
    }
  } else {
    (void)add;
    for (auto&& e : v) apply(s, const_cast<std::remove_const_t<T>&>(e));
  }
}
template <typename S, typename M> void mapping(S& s, M& v) {
  using K = typename M::key_type;
  using V = typename M::mapped_type;
  auto k = count(s, v.size());
  if constexpr (is_unpacker_v<S>) {
    v.clear();
    for (std::size_t i = 0; i < k; i++) {
      Holder<K> a;
      Holder<V> b;
      apply(s, *a.p);
      apply(s, *b.p);
      v.emplace(std::move(*a.p), std::move(*b.p));
    }
  } else {
    for (auto&& e : v) { apply(s, const_cast<K&>(e.first)); apply(s, e.second); }
  }
}
template <typename A> struct Expose : A {
  static typename A::container_type& of(A& a) { return a.*&Expose::c; }
};
} // namespace detail

template <typename S> void serialize(S& s, std::string& v) {
  auto k = detail::count(s, v.size());
  if constexpr (is_unpacker_v<S>) v.resize(k);
  s.bytes(v.data(), k);
}
template <typename S, typename T, typename A> void serialize(S& s, std::vector<T, A>& v) {
  if constexpr (detail::is_byte<T>::value and std::is_default_constructible_v<T>) {
    auto k = detail::count(s, v.size());
    if constexpr (is_unpacker_v<S>) v.resize(k);
    s.bytes(static_cast<void*>(v.data()), k * sizeof(T));
  } else if constexpr (std::is_default_constructible_v<T>) {
    auto k = detail::count(s, v.size());
    if constexpr (is_unpacker_v<S>) { v.clear(); v.resize(k); }
    for (auto& e : v) apply(s, e);
  } else {
    detail::sequence(s, v, [&](T&& t) { v.emplace_back(std::move(t)); });
  }
}
template <typename S, typename A> void serialize(S& s, std::vector<bool, A>& v) {
  auto k = detail::count(s, v.size());
  if constexpr (is_unpacker_v<S>) v.resize(k);
  for (std::size_t i = 0; i < k; i++) { bool b = v[i]; s.bytes(&b, 1); v[i] = b; }
}
template <typename S, typename T, typename A> void serialize(S& s, std::list<T, A>& v) {
  detail::sequence(s, v, [&](T&& t) { v.emplace_back(std::move(t)); });
}
template <typename S, typename T, typename A> void serialize(S& s, std::deque<T, A>& v) {
  detail::sequence(s, v, [&](T&& t) { v.emplace_back(std::move(t)); });
}
template <typename S, typename T, typename C> void serialize(S& s, std::queue<T, C>& v) {
  apply(s, detail::Expose<std::queue<T, C>>::of(v));
}
template <typename S, typename T, typename C> void serialize(S& s, std::stack<T, C>& v) {
  apply(s, detail::Expose<std::stack<T, C>>::of(v));
}
template <typename S, typename T, typename C, typename L> void serialize(S& s, std::priority_queue<T, C, L>& v) {
  apply(s, detail::Expose<std::priority_queue<T, C, L>>::of(v));
}
template <typename S, typename K, typename V, typename C, typename A> void serialize(S& s, std::map<K, V, C, A>& v) { detail::mapping(s, v); }
template <typename S, typename K, typename V, typename C, typename A> void serialize(S& s, std::multimap<K, V, C, A>& v) { detail::mapping(s, v); }
template <typename S, typename K, typename V, typename H, typename E, typename A> void serialize(S& s, std::unordered_map<K, V, H, E, A>& v) { detail::mapping(s, v); }
template <typename S, typename K, typename V, typename H, typename E, typename A> void serialize(S& s, std::unordered_multimap<K, V, H, E, A>& v) { detail::mapping(s, v); }
template <typename S, typename K, typename C, typename A> void serialize(S& s, std::set<K, C, A>& v) {
  detail::sequence(s, v, [&](K&& t) { v.emplace(std::move(t)); });
}
template <typename S, typename K, typename C, typename A> void serialize(S& s, std::multiset<K, C, A>& v) {
  detail::sequence(s, v, [&](K&& t) { v.emplace(std::move(t)); });
}
template <typename S, typename K, typename H, typename E, typename A> void serialize(S& s, std::unordered_set<K, H, E, A>& v) {
  detail::sequence(s, v, [&](K&& t) { v.emplace(std::move(t)); });
}
template <typename S, typename A, typename B> void serialize(S& s, std::pair<A, B>& v) {
  apply(s, v.first);
  apply(s, v.second);
}
template <typename S, typename... Ts> void serialize(S& s, std::tuple<Ts...>& v) {
  std::apply([&](auto&... e) { (apply(s, e), ...); }, v);
}
template <typename S, typename T, std::size_t N> void serialize(S& s, std::array<T, N>& v) {
  for (auto& e : v) apply(s, e);
}
template <typename S, typename T, std::size_t N> void serialize(S& s, T (&v)[N]) {
  for (auto& e : v) apply(s, e);
}
template <typename S, typename T, typename D> void serialize(S& s, std::unique_ptr<T, D>& v) {
  bool null = v == nullptr;
  s.bytes(&null, sizeof(null));
  if (null) { if constexpr (is_unpacker_v<S>) v = nullptr; return; }
  T* raw = v.get();
  if constexpr (is_footprinter_v<S>) {
    if constexpr (not std::is_void_v<T>) apply(s, *raw);
  } else {
    reconstructPointedToObjectIfNeeded(s, raw);
    if constexpr (is_unpacker_v<S>) v = std::unique_ptr<T, D>(raw);
    apply(s, *raw);
  }
}
template <typename S, typename T> void serialize(S& s, std::shared_ptr<T>& v) {
  bool null = v == nullptr;
  s.bytes(&null, sizeof(null));
  if (null) { if constexpr (is_unpacker_v<S>) v = nullptr; return; }
  T* raw = v.get();
  if constexpr (is_footprinter_v<S>) {
    if constexpr (not std::is_void_v<T>) apply(s, *raw);
  } else {
    reconstructPointedToObjectIfNeeded(s, raw);
    if constexpr (is_unpacker_v<S>) v = std::shared_ptr<T>(raw);
    apply(s, *raw);
  }
}
template <typename S, typename T> void serialize(S& s, std::optional<T>& v) {
  bool has = v.has_value();
  s.bytes(&has, sizeof(has));
  if (not has) { if constexpr (is_unpacker_v<S>) v = std::nullopt; return; }
  if constexpr (is_unpacker_v<S>) {
    detail::Holder<T> h;
    apply(s, *h.p);
    v = std::move(*h.p);
  } else {
    apply(s, *v);
  }
}
template <typename S, typename T> void serialize(S& s, std::atomic<T>& v) {
  T t = v.load();
  apply(s, t);
  v.store(t);
}
namespace detail {
template <typename S, typename V, std::size_t I = 0> void variantAt(S& s, V& v, std::size_t idx) {
  if constexpr (I < std::variant_size_v<V>) {
    if (I == idx) {
      using T = std::variant_alternative_t<I, V>;
      if constexpr (is_unpacker_v<S>) {
        Holder<T> h;
        apply(s, *h.p);
        v.template emplace<I>(std::move(*h.p));
      } else {
        apply(s, std::get<I>(v));
      }
    } else {
      variantAt<S, V, I + 1>(s, v, idx);
    }
  }
}
} // namespace detail
template <typename S, typename... Ts> void serialize(S& s, std::variant<Ts...>& v) {
  std::size_t idx = v.index();
  s.bytes(&idx, sizeof(idx));
  detail::variantAt(s, v, idx);
}
template <typename S, std::size_t N> void serialize(S& s, std::bitset<N>& v) {
  for (std::size_t i = 0; i < N; i++) { bool b = v[i]; s.bytes(&b, 1); v[i] = b; }
}
template <typename S, typename R, typename P> void serialize(S& s, std::chrono::duration<R, P>& v) {
  R r = v.count();
  apply(s, r);
  v = std::chrono::duration<R, P>(r);
}
template <typename S, typename F> void serialize(S& s, std::function<F>& v) {
  static_assert(is_footprinter_v<S> or is_sizer_v<S>, "std::function can only be footprinted");
  s.addBytes(sizeof(v));
}
template <typename S> void serialize(S& s, std::mutex& v) { s.addBytes(sizeof(v)); }

// ---- top-level interface ------------------------------------------------------
template <typename T> std::size_t getSize(T& t) {
  Sizer s;
  apply(s, t);
  return s.n;
}
template <typename T> std::size_t getMemoryFootprint(T& t, std::size_t size_offset = 0) {
  Footprinter s;
  apply(s, const_cast<std::remove_const_t<T>&>(t));
  auto n = s.n + size_offset;
  return n < sizeof(T) ? sizeof(T) : n;
}

struct SerializedInfo {
  virtual char* getBuffer() const = 0;
  virtual std::size_t getSize() const = 0;
  virtual ~SerializedInfo() = default;
};
namespace detail {
struct OwnedInfo final : SerializedInfo {
  char* b = nullptr;
  std::size_t n = 0;
  bool own = false;
  char* getBuffer() const override { return b; }
  std::size_t getSize() const override { return n; }
  ~OwnedInfo() override { if (own) std::free(b); }
};
template <typename T> std::unique_ptr<SerializedInfo> pack(T& t, std::function<char*(std::size_t)> fn) {
  auto info = std::make_unique<OwnedInfo>();
  info->n = getSize(t);
  if (fn) {
    info->b = fn(info->n);
  } else {
    info->b = static_cast<char*>(std::malloc(info->n + 1));
    info->own = true;
  }
  Packer p;
  p.p = info->b;
  apply(p, t);
  if (p.n != info->n) {
    throw std::runtime_error("magistrate: sizing and packing disagree");
  }
  return info;
}
} // namespace detail

template <typename T>
std::unique_ptr<SerializedInfo> serialize(T& t, std::function<char*(std::size_t)> fn = nullptr) {
  return detail::pack(const_cast<std::remove_const_t<T>&>(t), fn);
}
template <typename T> std::unique_ptr<T> deserialize(char* buf) {
  T* raw = nullptr;
  if constexpr (detail::is_virtual_v<T>) {
    static_assert(sizeof(T) == 0, "unsupported");
  } else {
    raw = constructAt<T>(::operator new(sizeof(T)));
  }
  Unpacker u;
  u.p = buf;
  apply(u, *raw);
  return std::unique_ptr<T>(raw);
}
template <typename T> void deserializeInPlace(char* buf, T* t) {
  Unpacker u;
  u.p = buf;
  apply(u, *t);
}

template <typename T> void serializeToFile(T& t, std::string const& file) {
  auto info = detail::pack(t, nullptr);
  if (vsim_disk_write_file(file.c_str(), info->getBuffer(), info->getSize()) != 0) {
    throw std::runtime_error("magistrate: cannot write " + file);
  }
}
template <typename T> void deserializeInPlaceFromFile(std::string const& file, T* t) {
  unsigned long len = 0;
  char* b = static_cast<char*>(vsim_disk_read_file(file.c_str(), &len));
  if (b == nullptr) throw std::runtime_error("magistrate: cannot read " + file);
  std::unique_ptr<char, void (*)(void*)> guard(b, &std::free);
  Unpacker u;
  u.p = b;
  u.limit = len;
  apply(u, *t);
}
template <typename T> std::unique_ptr<T> deserializeFromFile(std::string const& file) {
  T* raw = constructAt<T>(::operator new(sizeof(T)));
  std::unique_ptr<T> out(raw);
  deserializeInPlaceFromFile(file, raw);
  return out;
}

} // namespace magistrate

namespace checkpoint = magistrate;
#endif
