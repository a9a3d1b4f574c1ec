#pragma once
enum { P_MARK, P_INIT, P_CREATE, P_ADD, P_START, P_STOP, P_RESET, P_READ, P_VALUE, P_CLEANUP, P_DESTROY, P_CLOCK };
#define PAPI_LOG 120000
struct papi_shm { int n; int quiet; int init_fails; unsigned long long seed; long long ret[4096]; struct { int op, es; long long v; char name[64]; } ev[PAPI_LOG]; };
