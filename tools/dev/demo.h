/* In-memory page devices and helpers for the demonstrations.  Touches nothing outside the process. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef DIST
#include "embedDB.h"
#else
#include "embedDB/embedDB.h"
#include "embedDBUtility.h"
#include "query-interface/advancedQueries.h"
#include "query-interface/schema.h"
#include "spline/spline.h"
#endif
typedef struct { uint8_t *p; uint32_t pages, ps, len; int exists, isOpen, failRead, failWrite, failErase; uint32_t reads, writes; int contract; uint8_t prog[4096]; } Mem;
static int8_t memRead(void *b, uint32_t n, uint32_t ps, void *f) { Mem *m = (Mem *)f; if (m->failRead) { if (m->failRead > 0) m->failRead--; if (!m->failRead || m->failRead < 0) return 0; } if (n >= m->len || n >= m->pages) return 0; m->reads++; memcpy(b, m->p + (size_t)n * ps, ps); return 1; }
static int8_t memWrite(void *b, uint32_t n, uint32_t ps, void *f) { Mem *m = (Mem *)f; if (m->failWrite) { if (m->failWrite > 0) m->failWrite--; if (!m->failWrite || m->failWrite < 0) return 0; } if (n >= m->pages) { m->contract |= 1; return 0; } if (m->prog[n]) m->contract |= 2; m->prog[n] = 1; m->writes++; memcpy(m->p + (size_t)n * ps, b, ps); if (n >= m->len) m->len = n + 1; return 1; }
static int8_t memErase(uint32_t a, uint32_t b, uint32_t ps, void *f) { Mem *m = (Mem *)f; if (m->failErase) { if (m->failErase > 0) m->failErase--; if (!m->failErase || m->failErase < 0) return 0; } if (b > m->pages || a >= b) { m->contract |= 4; return 0; } memset(m->prog + a, 0, b - a); return 1; }
static int8_t memClose(void *f) { ((Mem *)f)->isOpen = 0; return 1; }
static int8_t memOpen(void *f, uint8_t mode) { Mem *m = (Mem *)f; if (mode == EMBEDDB_FILE_MODE_R_PLUS_B && !m->exists) return 0; if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) { m->len = 0; memset(m->prog, 0, sizeof m->prog); } m->exists = m->isOpen = 1; return 1; }
static int8_t memFlush(void *f) { (void)f; return 1; }
static embedDBFileInterface memFI(void) { embedDBFileInterface i; memset(&i, 0, sizeof i); i.read = memRead; i.write = memWrite; i.erase = memErase; i.close = memClose; i.open = memOpen; i.flush = memFlush; return i; }
static Mem *memNew(uint32_t pages, uint32_t ps) { Mem *m = (Mem *)calloc(1, sizeof *m); m->p = (uint8_t *)calloc(pages, ps); m->pages = pages; m->ps = ps; return m; }
#define CHECK(c, ...) do { if (!(c)) { printf("FAILED %s:%d: %s: ", __FILE__, __LINE__, #c); printf(__VA_ARGS__); printf("\n"); exit(1); } } while (0)
static int8_t ucmp4(void *a, void *b) { uint32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y ? -1 : x > y; }
static int8_t ucmp8(void *a, void *b) { uint64_t x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); return x < y ? -1 : x > y; }
static int8_t scmp4(void *a, void *b) { int32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y ? -1 : x > y; }
typedef struct { int k, d, ps, N, B, ip, vp, spl, err, flags, bm; } DC;
/* a fresh state over the given devices; reset: start empty */
static embedDBState *dbState(DC c, Mem *data, Mem *idx, Mem *var, int reset) {
    embedDBState *s = (embedDBState *)calloc(1, sizeof *s); embedDBFileInterface *fi = (embedDBFileInterface *)malloc(sizeof *fi); *fi = memFI();
    s->keySize = c.k; s->dataSize = c.d; s->pageSize = c.ps; s->bufferSizeInBlocks = 2 + (idx ? 2 : 0) + (var ? 2 : 0);
    s->buffer = calloc(s->bufferSizeInBlocks, c.ps); s->numDataPages = c.N; s->eraseSizeInPages = c.B; s->fileInterface = fi; s->dataFile = data;
    s->numSplinePoints = c.spl ? c.spl : 8; s->parameters = c.flags | (reset ? EMBEDDB_RESET_DATA : 0);
    if (idx) { s->parameters |= EMBEDDB_USE_INDEX; s->indexFile = idx; s->numIndexPages = c.ip; }
    if (var) { s->parameters |= EMBEDDB_USE_VDATA; s->varFile = var; s->numVarPages = c.vp; }
    s->bitmapSize = c.bm ? c.bm : 1; s->updateBitmap = updateBitmapInt8; s->inBitmap = inBitmapInt8; s->buildBitmapFromRange = buildBitmapInt8FromRange;
    s->compareKey = c.k == 8 ? ucmp8 : ucmp4; s->compareData = scmp4;
    int rc = embedDBInit(s, c.err); CHECK(rc == 0, "init %d", rc); embedDBResetStats(s);
    return s;
}
