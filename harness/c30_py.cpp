// the scenario of C30 in a build for the Python interface
#define htool htool_py
#define vf vf_py
#define VF_NO_MAIN
#define HTOOL_WITH_PYTHON_INTERFACE
#define V30_RUN v30_py
#include "c30_run.hpp"
