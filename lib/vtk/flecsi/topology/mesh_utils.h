// a stand-in for the FleCSALE mesh interface that ristra/io uses
#pragma once
#include "vtk_mesh.h"
