#ifndef PORT_STDIO_H
#define PORT_STDIO_H
#include <stddef.h>
int printf(const char *, ...);
#endif
