// Build configuration of the harness: the defines a dune-geometry build tree
// would generate, so that no configured build directory is needed.
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define HAVE_DUNE_COMMON 1
#define DUNE_COMMON_VERSION "2.12-git"
#define DUNE_COMMON_VERSION_MAJOR 2
#define DUNE_COMMON_VERSION_MINOR 12
#define DUNE_COMMON_VERSION_REVISION 0
#define DUNE_MINIMAL_DEBUG_LEVEL 4
#define DUNE_HAVE_CXX_EXPERIMENTAL_IS_DETECTED 1
#define HAVE_BLAS 1
#define HAVE_LAPACK 1
#define HAVE_TBB 1
#define LAPACK_NEEDS_UNDERLINE
#define HAVE_DUNE_GEOMETRY 1
#define DUNE_GEOMETRY_VERSION "2.12-git"
#define DUNE_GEOMETRY_VERSION_MAJOR 2
#define DUNE_GEOMETRY_VERSION_MINOR 12
#define DUNE_GEOMETRY_VERSION_REVISION 0
#define PACKAGE "dune-geometry"
#define PACKAGE_NAME "dune-geometry"
#define PACKAGE_VERSION "2.12-git"
#endif
