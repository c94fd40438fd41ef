/* An in-memory file system behind the file calls of the code under test.
 * Streams are real stdio streams (fopencookie), so that buffering, formatting
 * and error flags are the C library's; every access to the "device" below them
 * is a fault point, and every device write is logged. Nothing reaches the disk. */
#ifndef HX_VFS_H
#define HX_VFS_H
#include "hx.h"
enum { VFS_OPEN, VFS_READ, VFS_WRITE, VFS_SEEK, VFS_CLOSE, VFS_MKDIR, VFS_STAT, VFS_OPENDIR, VFS_READDIR, VFS_REMOVE, VFS_RENAME, VFS_KINDS };
enum { VFS_ERROR, VFS_SHORT };       /* SHORT: one byte fewer than asked (at least one) is transferred, for READ and WRITE */
void vfs_reset(void);
void vfs_mkdirp(const char* path);
void vfs_put(const char* path, const void* data, size_t n);       /* create or replace a file */
const char* vfs_get(const char* path, size_t* n);                 /* NULL: no such file */
int vfs_is_dir(const char* path);
int vfs_count(void);                 /* files and directories, without the root */
const char* vfs_name(int i, int* is_dir);
int vfs_open_files(void);
int vfs_open_dirs(void);
/* make the k-th access (1 = next) of those in mask fail in the given way, `sticky`: and all later ones */
void vfs_fail(unsigned mask, int k, int how, int sticky);
int vfs_fired(void);
int vfs_accesses(void);              /* accesses matching the mask since vfs_fail */
long vfs_writes(void);               /* device writes so far */
void vfs_space(long bytes);          /* so much more can be written before ENOSPC; -1: unlimited */
void vfs_reverse_dirs(int on);
/* called before each operation (weak, nothing by default): a place to schedule */
void vfs_hook(int kind, const char* path);
#endif
