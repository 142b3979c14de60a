// In-memory file system shared by the models of iostream files, stdio and boost::filesystem.
#pragma once
#include <cstddef>
struct SxFile { char name[96]; unsigned char *data; size_t size, cap; bool exists, isDir, readOnly; 
  // a sparse "virtual" file of huge size: content is produced on demand
  bool virt; size_t vsize;
  // reading up to jumpAt goes on at jumpTo: what is between has no influence
  size_t jumpAt, jumpTo; };
struct SxHandle { SxFile *f; size_t pos; bool rd, wr, app; bool open; unsigned char *buf; size_t pending; bool bad; SxHandle *next; };   // buffer and error of stdio
constexpr int SX_MAXF = 24;
extern "C" {
extern SxFile sxFiles[SX_MAXF];
SxFile *sxfs_find(const char *path);          // existing entry or null
SxFile *sxfs_create(const char *path);        // existing or new, truncated
SxFile *sxfs_open(const char *path, bool rd, bool wr, bool trunc, bool app, bool *ok);
void sxfs_reserve(SxFile *f, size_t n);
long sxfs_read(SxFile *f, size_t pos, void *p, size_t n);
long sxfs_write(SxFile *f, size_t pos, const void *p, size_t n);
bool sxfs_remove(const char *path);
}
