// Stand-in for the yyjson submodule (its sources are not part of the checkout).
// Only what src/middleware.c calls. Functional: parses, merge-patches and writes JSON.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define YYJSON_READ_ALLOW_TRAILING_COMMAS 4u
#define YYJSON_READ_ALLOW_COMMENTS 8u
#define YYJSON_READ_ALLOW_INF_AND_NAN 16u
#define YYJSON_WRITE_ESCAPE_UNICODE 2u
#define YYJSON_WRITE_ESCAPE_SLASHES 4u
typedef uint32_t yyjson_read_flag;
typedef uint32_t yyjson_write_flag;
typedef struct yyjson_val yyjson_val;
typedef struct yyjson_val yyjson_mut_val;
typedef struct { char* mem; size_t size; size_t used; } yyjson_alc;
typedef struct { yyjson_val* root; } yyjson_doc;
typedef struct { yyjson_mut_val* root; } yyjson_mut_doc;
typedef struct { uint32_t code; const char* msg; size_t pos; } yyjson_read_err;
typedef struct { uint32_t code; const char* msg; } yyjson_write_err;
size_t yyjson_read_max_memory_usage(size_t len, yyjson_read_flag flg);
int yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size);
yyjson_doc* yyjson_read_opts(char* dat, size_t len, yyjson_read_flag flg, const yyjson_alc* alc, yyjson_read_err* err);
yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc* alc);
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc* doc, yyjson_val* orig, yyjson_val* patch);
char* yyjson_mut_write_opts(const yyjson_mut_doc* doc, yyjson_write_flag flg, const yyjson_alc* alc, size_t* len, yyjson_write_err* err);
void yyjson_mut_doc_free(yyjson_mut_doc* doc);
#ifdef __cplusplus
}
#endif
