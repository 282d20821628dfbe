// Stand-in for the SdFat library: files in memory with the documented behaviour of File32, every call may fail.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <fcntl.h>
#ifndef O_READ
#define O_READ O_RDONLY
#define O_WRITE O_WRONLY
#endif
class File32 {
  public:
    int id = -1; uint32_t pos = 0;
    bool isOpen() const { return id >= 0; }
    operator bool() const { return id >= 0; }
    bool seek(uint32_t p);
    bool seekSet(uint32_t p) { return seek(p); }
    bool seekEnd(int32_t o = 0) { return seek(fileSize() + o); }
    bool seekCur(int32_t o) { return seek(pos + o); }
    bool rewind() { return seek(0); }
    uint32_t position() const { return pos; }
    uint32_t curPosition() const { return pos; }
    int read(void *b, size_t n);
    size_t write(const void *b, size_t n);
    size_t write(const char *b, size_t n) { return write((const void *)b, n); }
    size_t write(const uint8_t *b, size_t n) { return write((const void *)b, n); }
    bool sync();
    void flush() { sync(); }
    bool close();
    bool truncate(uint32_t n);
    bool truncate() { return truncate(pos); }
    uint32_t size() const { return fileSize(); }
    uint32_t fileSize() const;
    int available() const { return (int)(fileSize() - pos); }
};
class SdFat32 {
  public:
    File32 open(const char *name, int flags);
    bool exists(const char *name);
    bool remove(const char *name);
};
