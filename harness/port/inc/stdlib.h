#ifndef PORT_STDLIB_H
#define PORT_STDLIB_H
#include <stddef.h>
#endif
