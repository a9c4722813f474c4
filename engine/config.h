// configuration used by the verification harnesses (the build's generated
// config.h lives in git-ignored build directories and may be absent)
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define HAVE_DUNE_COMMON 1
#define HAVE_DUNE_ISTL 1
#define DUNE_COMMON_VERSION "2.11-git"
#define DUNE_COMMON_VERSION_MAJOR 2
#define DUNE_COMMON_VERSION_MINOR 11
#define DUNE_COMMON_VERSION_REVISION 0
#define DUNE_ISTL_VERSION "2.11-git"
#define DUNE_ISTL_VERSION_MAJOR 2
#define DUNE_ISTL_VERSION_MINOR 11
#define DUNE_ISTL_VERSION_REVISION 0
#define DUNE_MINIMAL_DEBUG_LEVEL 4
#define DUNE_HAVE_CXX_EXPERIMENTAL_IS_DETECTED 1
#define DUNE_ISTL_SUPPORT_OLD_CATEGORY_INTERFACE 1
#define SUPERLU_INT_TYPE int
#endif
