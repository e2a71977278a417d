#include <m32.h>
