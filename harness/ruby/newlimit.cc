// Preloaded before ASan: its operator new ends the process when memory cannot be had, instead of throwing
#include <dlfcn.h>
#include <new>
void* operator new(size_t size)
{
    typedef void* (*New)(size_t);
    static New next = reinterpret_cast<New>(dlsym(RTLD_NEXT, "_Znwm"));
    if (size > (48u << 20))
        throw std::bad_alloc();
    return next(size);
}
