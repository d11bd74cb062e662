#include "loop_device.hxx"
