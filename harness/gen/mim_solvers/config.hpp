/*
 * This file has been automatically generated by the jrl-cmakemodules.
 * Please see https://github.com/jrl-umi3218/jrl-cmakemodules/blob/master/config.hh.cmake for details.
*/

#ifndef MIM_SOLVERS_CONFIG_HH
# define MIM_SOLVERS_CONFIG_HH

// Package version (header).
# define MIM_SOLVERS_VERSION_UNKNOWN_TAG 0 // Used to mention that the current version is unknown.
# define MIM_SOLVERS_VERSION "0.1.1"
# define MIM_SOLVERS_MAJOR_VERSION 0
# define MIM_SOLVERS_MINOR_VERSION 1
# define MIM_SOLVERS_PATCH_VERSION 1

#define MIM_SOLVERS_VERSION_AT_LEAST(major, minor, patch) (MIM_SOLVERS_MAJOR_VERSION>major || (MIM_SOLVERS_MAJOR_VERSION>=major && \
                                                             (MIM_SOLVERS_MINOR_VERSION>minor || (MIM_SOLVERS_MINOR_VERSION>=minor && \
                                                                                                     MIM_SOLVERS_PATCH_VERSION>=patch))))

#define MIM_SOLVERS_VERSION_AT_MOST(major, minor, patch) (MIM_SOLVERS_MAJOR_VERSION<major || (MIM_SOLVERS_MAJOR_VERSION<=major && \
                                                            (MIM_SOLVERS_MINOR_VERSION<minor || (MIM_SOLVERS_MINOR_VERSION<=minor && \
                                                                                                     MIM_SOLVERS_PATCH_VERSION<=patch))))

// Handle portable symbol export.
// Defining manually which symbol should be exported is required
// under Windows whether MinGW or MSVC is used.
//
// The headers then have to be able to work in two different modes:
// - dllexport when one is building the library,
// - dllimport for clients using the library.
//
// On Linux, set the visibility accordingly. If C++ symbol visibility
// is handled by the compiler, see: http://gcc.gnu.org/wiki/Visibility
//
// Explicit template instantiation on Windows need to add
// dllexport on the definition and dllimport on the declaration.
// The XXX_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI macro
// should be set on the declaration while
// the XXX_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI macro
// should be set on the definition.
# if defined _WIN32 || defined __CYGWIN__
// On Microsoft Windows, use dllimport and dllexport to tag symbols.
#  define MIM_SOLVERS_DLLIMPORT __declspec(dllimport)
#  define MIM_SOLVERS_DLLEXPORT __declspec(dllexport)
#  define MIM_SOLVERS_DLLLOCAL
#  define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLIMPORT __declspec(dllimport)
#  define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLEXPORT
#  define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLIMPORT __declspec(dllimport)
#  define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLEXPORT __declspec(dllexport)
# else
// On Linux, for GCC >= 4, tag symbols using GCC extension.
#  if __GNUC__ >= 4
#   define MIM_SOLVERS_DLLIMPORT __attribute__ ((visibility("default")))
#   define MIM_SOLVERS_DLLEXPORT __attribute__ ((visibility("default")))
#   define MIM_SOLVERS_DLLLOCAL  __attribute__ ((visibility("hidden")))
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLIMPORT __attribute__ ((visibility("default")))
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLEXPORT __attribute__ ((visibility("default")))
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLIMPORT
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLEXPORT
#  else
// Otherwise (GCC < 4 or another compiler is used), export everything.
#   define MIM_SOLVERS_DLLIMPORT
#   define MIM_SOLVERS_DLLEXPORT
#   define MIM_SOLVERS_DLLLOCAL
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLIMPORT
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLEXPORT
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLIMPORT
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLEXPORT
#  endif // __GNUC__ >= 4
# endif // defined _WIN32 || defined __CYGWIN__

# ifdef MIM_SOLVERS_STATIC
// If one is using the library statically, get rid of
// extra information and use standard explicit template
// instantiation keyword.
#  define MIM_SOLVERS_DLLAPI
#  define MIM_SOLVERS_LOCAL
#  define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION extern template
# else
// Depending on whether one is building or using the
// library define DLLAPI to import or export and
// define the right explicit template instantiation keyword.
#  ifdef mim_solvers_EXPORTS
#   define MIM_SOLVERS_DLLAPI MIM_SOLVERS_DLLEXPORT
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLEXPORT
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLEXPORT
#  else
#   define MIM_SOLVERS_DLLAPI MIM_SOLVERS_DLLIMPORT
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI MIM_SOLVERS_EXPLICIT_INSTANTIATION_DECLARATION_DLLIMPORT
#   define MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI MIM_SOLVERS_EXPLICIT_INSTANTIATION_DEFINITION_DLLIMPORT
#  endif // MIM_SOLVERS_EXPORTS
#  define MIM_SOLVERS_LOCAL MIM_SOLVERS_DLLLOCAL
# endif // MIM_SOLVERS_STATIC
#endif //! MIM_SOLVERS_CONFIG_HH
