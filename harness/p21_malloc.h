// Forced in front of the library's C sources: their own calls of malloc pass through the injector (those of the headers don't).
#include <dart.h>
#include <dart/abi.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C"
#endif
void* vt_malloc(size_t n);
#define malloc vt_malloc
