#include "vtk_double.h"
