/* Included before the sources of the library: the operations by which it acquires something from the system. Each may be told to fail, see vt_fault in core.h. */
#ifndef VT_SHIM_INJECT_H
#define VT_SHIM_INJECT_H
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/epoll.h>
void* vt_lib_malloc(size_t, const char*, const char*);
void* vt_lib_calloc(size_t, size_t, const char*, const char*);
void* vt_lib_realloc(void*, size_t, const char*, const char*);
int   vt_lib_accept(int, struct sockaddr*, socklen_t*, const char*, const char*);
int   vt_lib_accept4(int, struct sockaddr*, socklen_t*, int, const char*, const char*);
int   vt_lib_socket(int, int, int, const char*, const char*);
int   vt_lib_epoll_create1(int, const char*, const char*);
int   vt_lib_epoll_ctl(int, int, int, struct epoll_event*, const char*, const char*);
int   vt_lib_epoll_wait(int, struct epoll_event*, int, int);
#define malloc(n)             vt_lib_malloc(n, __FILE__, __func__)
#define calloc(a, b)          vt_lib_calloc(a, b, __FILE__, __func__)
#define realloc(p, n)         vt_lib_realloc(p, n, __FILE__, __func__)
#define accept(a, b, c)       vt_lib_accept(a, b, c, __FILE__, __func__)
#define accept4(a, b, c, d)   vt_lib_accept4(a, b, c, d, __FILE__, __func__)
#define socket(a, b, c)       vt_lib_socket(a, b, c, __FILE__, __func__)
#define epoll_create1(f)      vt_lib_epoll_create1(f, __FILE__, __func__)
#define epoll_ctl(a, b, c, d) vt_lib_epoll_ctl(a, b, c, d, __FILE__, __func__)
#define epoll_wait(a, b, c, d) vt_lib_epoll_wait(a, b, c, d)
#endif
