// stands in for the config.h that configure generates (same settings as /opt/vp/build.sh obtains)
#ifndef MARC_CONFIG_H
#define MARC_CONFIG_H
#define FMT_HEADER_ONLY 1
#define HAVE_ARGP 1
#define PACKAGE "marc"
#define PACKAGE_BUGREPORT "https://github.com/ossama-othman/MaRC/issues"
#define PACKAGE_NAME "MaRC"
#define PACKAGE_STRING "MaRC 0.10"
#define PACKAGE_TARNAME "marc"
#define PACKAGE_URL "https://ossama-othman.github.io/MaRC/"
#define PACKAGE_VERSION "0.10"
#define VERSION "0.10"
#endif
