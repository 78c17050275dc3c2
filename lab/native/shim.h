#pragma once
#include <stdint.h>
#include <stddef.h>
#include <time.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/uio.h>

void shim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t shim_rand(void);
void shim_init(void);
extern char shim_plan[];
void shim_pass(long long us);
int shim_alg_send(int fd, const void *buf, size_t len, int flags, ssize_t *ret);
int shim_alg_recv(int fd, void *buf, size_t len, ssize_t *ret);
void shim_alg_close(int fd);

ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_pwritev(int, const struct iovec*, int, off_t);
ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __real_preadv(int, const struct iovec*, int, off_t);
int __real_openat(int, const char*, int, ...);
int __real_open(const char*, int, ...);
int __real_close(int);
int __real_dup(int);
int __real_fstat(int, struct stat*);
int __real_stat(const char*, struct stat*);
int __real_lstat(const char*, struct stat*);
int __real_fallocate(int, int, off_t, off_t);
int __real_posix_fallocate(int, off_t, off_t);
off_t __real_lseek(int, off_t, int);
int __real_ioctl(int, unsigned long, ...);
int __real_ftruncate(int, off_t);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_usleep(unsigned);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
unsigned __real_sleep(unsigned);
int __real_poll(struct pollfd*, nfds_t, int);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
int __real_socket(int, int, int);
int __real_bind(int, const struct sockaddr*, socklen_t);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_accept4(int, struct sockaddr*, socklen_t*, int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
