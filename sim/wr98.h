// wrench.h as the project's own build (-std=c++98) sees it: its structure layouts depend on
// __cplusplus, and the objects under test are compiled as the project compiles them.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <math.h>
#include <assert.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <ctype.h>
#include <new>
#include <netinet/in.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <unistd.h>
#include <fcntl.h>
#include <termios.h>
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wbuiltin-macro-redefined"
#undef __cplusplus
#define __cplusplus 199711L
#include "wrench.h"
#undef __cplusplus
#define __cplusplus 201703L
#pragma GCC diagnostic pop
