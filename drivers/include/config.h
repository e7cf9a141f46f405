


#ifndef DUNE_COMMON_CONFIG_HH
#define DUNE_COMMON_CONFIG_HH

/* Define to 1 if you have module dune-common available */
#ifndef HAVE_DUNE_COMMON
#define HAVE_DUNE_COMMON 1
#endif



/* Define to the version of dune-common */
#define DUNE_COMMON_VERSION "2.11-git"

/* Define to the major version of dune-common */
#define DUNE_COMMON_VERSION_MAJOR 2

/* Define to the minor version of dune-common */
#define DUNE_COMMON_VERSION_MINOR 11

/* Define to the revision of dune-common */
#define DUNE_COMMON_VERSION_REVISION 0

/* Standard debug streams with a level below will collapse to doing nothing */
#define DUNE_MINIMAL_DEBUG_LEVEL 4

/* does the standard library provide experimental::is_detected ? */
#define DUNE_HAVE_CXX_EXPERIMENTAL_IS_DETECTED 1

/* does the language support lambdas in unevaluated contexts ? */
/* #undef DUNE_HAVE_CXX_UNEVALUATED_CONTEXT_LAMBDA */

/* does the standard library provide identity ? */
/* #undef DUNE_HAVE_CXX_STD_IDENTITY */

/* Define if you have a BLAS library. */
#define HAVE_BLAS 1

/* Define if you have LAPACK library. */
#define HAVE_LAPACK 1

/* Define to 1 if you have the Threading Building Blocks (TBB) library */
#define HAVE_TBB 1




/* old feature support macros which were tested until 2.10, kept around for one more release */
/* none for 2.10 */

/* Define to ENABLE_UMFPACK if the UMFPack library is available. */
/// \deprecated Use HAVE_SUITESPARSE_UMFPACK instead
#define HAVE_UMFPACK HAVE_SUITESPARSE_UMFPACK

/* Used to call lapack functions */
#define LAPACK_NEEDS_UNDERLINE

/* If enabled certain Python modules will be precompiled */
/* #undef DUNE_ENABLE_PYTHONMODULE_PRECOMPILE */






#endif // DUNE_COMMON_CONFIG_HH



#ifndef DUNE_ISTL_CONFIG_HH
#define DUNE_ISTL_CONFIG_HH

/* Define to 1 if you have module dune-istl available */
#ifndef HAVE_DUNE_ISTL
#define HAVE_DUNE_ISTL 1
#endif





/* Define to the integer type that SuperLU was compiled for
   See e.g. what int_t is defined to in slu_sdefs.h */
#define SUPERLU_INT_TYPE int

/* Define to the version of dune-istl */
#define DUNE_ISTL_VERSION "2.11-git"

/* Define to the major version of dune-istl */
#define DUNE_ISTL_VERSION_MAJOR 2

/* Define to the minor version of dune-istl */
#define DUNE_ISTL_VERSION_MINOR 11

/* Define to the revision of dune-istl */
#define DUNE_ISTL_VERSION_REVISION 0

/* Enable/Disable the backwards compatibility of the category enum/method in dune-istl solvers, preconditioner, etc. */
#define DUNE_ISTL_SUPPORT_OLD_CATEGORY_INTERFACE 1





#if __has_include(<dune-common-config.hh>)
  #include <dune-common-config.hh>
#endif


#endif // DUNE_ISTL_CONFIG_HH


#ifndef DUNE_ISTL_CONFIG_PRIVATE_HH
#define DUNE_ISTL_CONFIG_PRIVATE_HH


/* Name of package */
#define PACKAGE "dune-istl"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "dune-devel@lists.dune-project.org"

/* Define to the full name of this package. */
#define PACKAGE_NAME "dune-istl"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "dune-istl 2.11-git"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "dune-istl"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "2.11-git"



#include <dune-istl-config.hh>

#endif // DUNE_ISTL_CONFIG_PRIVATE_HH



#ifndef DUNE_COMMON_CONFIG_BOTTOM_HH
#define DUNE_COMMON_CONFIG_BOTTOM_HH



#endif // DUNE_COMMON_CONFIG_BOTTOM_HH



#ifndef DUNE_ISTL_CONFIG_BOTTOM_HH
#define DUNE_ISTL_CONFIG_BOTTOM_HH



#endif // DUNE_ISTL_CONFIG_BOTTOM_HH

