/* Stands in for the generated config.h of the autotools build. */
#define PACKAGE "ftwin"
#define PACKAGE_NAME "ftwin"
#define PACKAGE_STRING "ftwin 0.8.10"
#define PACKAGE_VERSION "0.8.10"
#define PACKAGE_BUGREPORT "fpesce@users.noreply.github.com"
#define PACKAGE_TARNAME "ftwin"
#define VERSION "0.8.10"
#define HAVE_JANSSON 1
#define STDC_HEADERS 1
