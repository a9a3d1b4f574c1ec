#include <symengine/stub.h>
