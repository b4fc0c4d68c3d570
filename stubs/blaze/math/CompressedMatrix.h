#include "../blaze_stub.h"
