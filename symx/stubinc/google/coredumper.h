#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int WriteCoreDump(const char *);
int WriteCompressedCoreDump(const char *file_name, size_t max_length, const void *compressors, void *selected);
int WriteCompressedCoreDumpLimited();
struct CoredumperCompressor { const char*c; };
struct CoreDumpParameters { int x; };
int WriteCoreDumpWith(const struct CoreDumpParameters*, const char*);
#ifdef __cplusplus
}
#endif
