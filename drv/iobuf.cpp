// Analysis driver for the I/O buffer. Never executed; compiled to LLVM IR only.
#include <cachelot/common.h>
#include <server/io_buffer.h>
using namespace cachelot;
void drv_ctor(void * m, size_t a, size_t b) { new (m) io_buffer(a, b); }
void drv_dtor(io_buffer & b) { b.~io_buffer(); }
size_t drv_capacity(io_buffer & b) { return b.capacity(); }
size_t drv_size(io_buffer & b) { return b.size(); }
size_t drv_non_read(io_buffer & b) { return b.non_read(); }
const char * drv_begin_read(io_buffer & b) { return b.begin_read(); }
slice drv_confirm_read(io_buffer & b, size_t n) { return b.confirm_read(n); }
io_buffer::read_savepoint_type drv_read_savepoint(io_buffer & b) { return b.read_savepoint(); }
void drv_rollback_read(io_buffer & b, io_buffer::read_savepoint_type s) { b.rollback_read_transaction(s); }
slice drv_read_all(io_buffer & b) { return b.read_all(); }
slice drv_try_read_until(io_buffer & b, slice t) { return b.try_read_until(t); }
char * drv_begin_write(io_buffer & b, size_t n) { return b.begin_write(n); }
char * drv_begin_write_def(io_buffer & b) { return b.begin_write(); }
void drv_confirm_write(io_buffer & b, size_t n) { b.confirm_write(n); }
io_buffer::write_savepoint_type drv_write_savepoint(io_buffer & b) { return b.write_savepoint(); }
void drv_rollback_write(io_buffer & b, io_buffer::write_savepoint_type s) { b.rollback_write_transaction(s); }
size_t drv_available(io_buffer & b) { return b.available(); }
void drv_reset(io_buffer & b) { b.reset(); }
void drv_ensure(io_buffer & b, size_t n) { b.ensure_capacity(n); }
void drv_compact(io_buffer & b) { b.compact(); }
