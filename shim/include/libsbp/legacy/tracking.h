#include <libsbp/sbp.h>
