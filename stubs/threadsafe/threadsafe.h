// Environment model of the (absent) git submodule include/threadsafe: see DESIGN.md.
#pragma once
#include "utils/macros.h"
#include <chrono>
#include <exception>
#include <mutex>
#include <thread>
#include <utility>
#include "AIReadWriteMutex.h"

namespace threadsafe {
namespace policy {

template<class MUTEX>
struct ReadWrite { using mutex_type = MUTEX; };

template<class MUTEX>
struct Primitive { using mutex_type = MUTEX; };

} // namespace policy

template<typename T, typename POLICY>
class Unlocked;

// Read-write lock policy.
template<typename T, class MUTEX>
class Unlocked<T, policy::ReadWrite<MUTEX>>
{
 private:
  T data_;
  mutable MUTEX mutex_;

 public:
  template<typename... ARGS>
  Unlocked(ARGS&&... args) : data_(std::forward<ARGS>(args)...) { }
  Unlocked(Unlocked const&) = delete;
  Unlocked& operator=(Unlocked const&) = delete;

  class wat;

  class rat
  {
   protected:
    Unlocked const* unlocked_;
    bool upgraded_ = false;
    friend class wat;

   public:
    explicit rat(Unlocked const& unlocked) : unlocked_(&unlocked) { unlocked_->mutex_.rdlock(); }
    ~rat() { unlocked_->mutex_.rdunlock(); }
    rat(rat const&) = delete;
    T const* operator->() const { return &unlocked_->data_; }
    T const& operator*() const { return unlocked_->data_; }
  };
  using crat = rat;

  class wat
  {
   private:
    Unlocked* unlocked_;
    bool from_rat_ = false;

   public:
    explicit wat(Unlocked& unlocked) : unlocked_(&unlocked) { unlocked_->mutex_.wrlock(); }
    explicit wat(rat& r) : unlocked_(const_cast<Unlocked*>(r.unlocked_)), from_rat_(true) { unlocked_->mutex_.rd2wrlock(); }
    wat(wat const&) = delete;
    ~wat() { if (from_rat_) unlocked_->mutex_.wr2rdlock(); else unlocked_->mutex_.wrunlock(); }
    T* operator->() const { return &unlocked_->data_; }
    T& operator*() const { return unlocked_->data_; }
  };

  void rd2wryield() { mutex_.rd2wryield(); }
};

// Primitive mutex policy.
template<typename T, class MUTEX>
class Unlocked<T, policy::Primitive<MUTEX>>
{
 private:
  T data_;
  mutable MUTEX mutex_;

 public:
  template<typename... ARGS>
  Unlocked(ARGS&&... args) : data_(std::forward<ARGS>(args)...) { }
  Unlocked(Unlocked const&) = delete;

  class wat
  {
   private:
    Unlocked* unlocked_;

   public:
    explicit wat(Unlocked& unlocked) : unlocked_(&unlocked) { unlocked_->mutex_.lock(); }
    wat(wat const&) = delete;
    ~wat() { unlocked_->mutex_.unlock(); }
    T* operator->() const { return &unlocked_->data_; }
    T& operator*() const { return unlocked_->data_; }
  };
  using rat = wat;
};

} // namespace threadsafe
