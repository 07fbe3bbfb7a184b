// User-defined reference counters. probe_ptr follows the shared_ptr subset of ADVANCED.md (option one) and watches how it
// is used; obtuse_ptr is not even copyable and is explained to the library through dart::refcount (option two).
#pragma once
#include <set>
#include <cstdio>
#include <cstdlib>
#include "vt.h"
#include <dart.h>

namespace probe {
  struct Stats { long blocks = 0, owners = 0, made = 0, destroyed = 0; };
  inline Stats& stats() { static Stats s; return s; }
  [[noreturn]] inline void die(char const* what) { fprintf(stderr, "terminate called: reference counter misuse: %s\n", what); abort(); }
  struct block {
    uint64_t magic = 0x70726f6265u; long owners = 1;
    block() { ++stats().blocks; ++stats().made; }
    virtual ~block() { if (magic != 0x70726f6265u) die("block destroyed twice"); magic = 0xdead; --stats().blocks; ++stats().destroyed; }
    virtual void dispose() = 0;
  };
  template <class P, class D> struct block_impl : block {
    P ptr; D del;
    template <class X> block_impl(P p, X&& d) : ptr(p), del(std::forward<X>(d)) {}
    void dispose() override { del(ptr); }
  };
}
template <class T>
struct probe_ptr {
  using element_type = T;
  explicit probe_ptr(T* owner) : probe_ptr(owner, std::default_delete<T> {}) {}
  template <class Del>
  explicit probe_ptr(T* owner, Del&& del) : self(this), ptr(owner), blk(owner ? new probe::block_impl<T*, std::decay_t<Del>>(owner, std::forward<Del>(del)) : nullptr) { ++probe::stats().owners; }
  probe_ptr(probe_ptr const& o) : self(this), ptr((o.ok(), o.ptr)), blk(o.blk) { if (blk) ++blk->owners; ++probe::stats().owners; }
  probe_ptr(probe_ptr&& o) : self(this), ptr((o.ok(), o.ptr)), blk(o.blk) { o.ptr = nullptr; o.blk = nullptr; ++probe::stats().owners; }
  probe_ptr& operator =(probe_ptr const&) = delete;
  ~probe_ptr() { reset(); self = nullptr; --probe::stats().owners; }
  T* get() const { ok(); return ptr; }
  size_t use_count() const { ok(); return blk ? static_cast<size_t>(blk->owners) : 0; }
  void reset() {
    ok();
    auto* b = blk; blk = nullptr; ptr = nullptr;
    if (!b) return;
    if (b->magic != 0x70726f6265u) probe::die("released after destruction");
    if (--b->owners == 0) { b->dispose(); delete b; }
  }
 private:
  void ok() const { if (self != this) probe::die("instance was never constructed, or was relocated bytewise"); }
  probe_ptr const volatile* self; T* ptr; probe::block* blk;
};

template <class T>
struct obtuse_ptr {
  obtuse_ptr() = delete;
  obtuse_ptr(obtuse_ptr const&) = delete;
  obtuse_ptr(obtuse_ptr&&) = delete;
  explicit obtuse_ptr(std::shared_ptr<T> p, int) : impl(std::move(p)) {}
  std::shared_ptr<T> impl;
};
namespace dart { namespace refcount {
  template <class T> struct element_type<obtuse_ptr<T>> { using type = T; };
  template <class T> struct construct<obtuse_ptr<T>> { template <class... A> static void perform(obtuse_ptr<T>* that, A&&... a) { new(that) obtuse_ptr<T>(std::make_shared<T>(std::forward<A>(a)...), 0); } };
  template <class T> struct take<obtuse_ptr<T>> {
    template <class D> static void perform(obtuse_ptr<T>* that, std::nullptr_t, D&&) { new(that) obtuse_ptr<T>(std::shared_ptr<T>(nullptr), 0); }
    template <class D> static void perform(obtuse_ptr<T>* that, T* owned, D&& del) { new(that) obtuse_ptr<T>(std::shared_ptr<T>(owned, std::forward<D>(del)), 0); }
  };
  template <class T> struct copy<obtuse_ptr<T>> { static void perform(obtuse_ptr<T>* that, obtuse_ptr<T> const& o) { new(that) obtuse_ptr<T>(o.impl, 0); } };
  template <class T> struct move<obtuse_ptr<T>> { static void perform(obtuse_ptr<T>* that, obtuse_ptr<T>&& o) { new(that) obtuse_ptr<T>(std::move(o.impl), 0); } };
  template <class T> struct unwrap<obtuse_ptr<T>> { static T* perform(obtuse_ptr<T> const& rc) { return rc.impl.get(); } };
  template <class T> struct use_count<obtuse_ptr<T>> { static size_t perform(obtuse_ptr<T> const& rc) { return static_cast<size_t>(rc.impl.use_count()); } };
  template <class T> struct reset<obtuse_ptr<T>> { static void perform(obtuse_ptr<T>& rc) { rc.impl.reset(); } };
}}
