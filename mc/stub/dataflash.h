// Stand-in for the dataflash driver: a chip in memory with two buffers.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct memory_t memory_t;
enum { DATAFLASH_BUSY = 0, DATAFLASH_READY = 1 };
void df_erase_chip(memory_t *);
int get_ready_status(memory_t *);
void df_main_memory_read(memory_t *, int page, int off, uint8_t *p, int n);
void df_buffer_1_write(memory_t *, int off, uint8_t *p, int n);
void df_buffer_2_write(memory_t *, int off, uint8_t *p, int n);
void df_buffer_1_read(memory_t *, int off, uint8_t *p, int n);
void df_buffer_2_read(memory_t *, int off, uint8_t *p, int n);
void df_MM_to_buffer_1(memory_t *, int page);
void df_MM_to_buffer_2(memory_t *, int page);
void df_buffer_1_to_MM_erase(memory_t *, int page);
void df_buffer_2_to_MM_erase(memory_t *, int page);
void df_buffer_1_to_MM_no_erase(memory_t *, int page);
void df_buffer_2_to_MM_no_erase(memory_t *, int page);
#ifdef __cplusplus
}
#endif
