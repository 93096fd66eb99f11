#include <src/small_gicp/registration/registration_helper.cpp>
#include <src/python/align.cpp>
#include <src/python/factors.cpp>
#include <src/python/kdtree.cpp>
#include <src/python/misc.cpp>
#include <src/python/pointcloud.cpp>
#include <src/python/preprocess.cpp>
#include <src/python/result.cpp>
#include <src/python/voxelmap.cpp>
#include "spec_py.hpp"
