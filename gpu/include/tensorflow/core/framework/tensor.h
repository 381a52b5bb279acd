#include "emu_tf.h"
