#ifndef CONFIG_H
#define CONFIG_H
#define HAVE_ZLIB 1
#define HAVE_BZLIB 1
#define HAVE_XZLIB 1
#define HAVE_EIGEN 1
#endif
