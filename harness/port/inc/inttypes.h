#ifndef PORT_INTTYPES_H
#define PORT_INTTYPES_H
#include <stdint.h>
#endif
