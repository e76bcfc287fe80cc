#include <new>
#include <utki/spin_lock.hpp>
extern "C" void sa_lock_init(utki::spin_lock* l){ new(static_cast<void*>(l)) utki::spin_lock; }
extern "C" void sa_lock_lock(utki::spin_lock* l){ l->lock(); }
extern "C" void sa_lock_unlock(utki::spin_lock* l){ l->unlock(); }
