#pragma once
#include <stdint.h>
#include <stddef.h>
#include "os.h"
#include "buffer.h"
#include "parser.h"
#ifndef IO_APDU_BUFFER_SIZE
#define IO_APDU_BUFFER_SIZE (5 + 255)
#endif
extern unsigned char G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
void io_init(void);
int io_recv_command(void);
int io_send_response_pointer(const uint8_t *ptr, size_t size, uint16_t sw);
int io_send_response_buffer(const buffer_t *rdata, uint16_t sw);
int io_send_response_buffers(const buffer_t *rdatalist, size_t count, uint16_t sw);
int io_send_sw(uint16_t sw);
