// Adds what the repository uses and liburing 2.5 lacks; everything else is the real header.
#pragma once
#include_next <liburing.h>
#ifndef KSIM_HAVE_FTRUNCATE
#define KSIM_HAVE_FTRUNCATE
static inline void io_uring_prep_ftruncate(struct io_uring_sqe* sqe, int fd, loff_t len)
{
    io_uring_prep_rw(55 /* IORING_OP_FTRUNCATE */, sqe, fd, nullptr, 0, (__u64)len);
}
#endif
