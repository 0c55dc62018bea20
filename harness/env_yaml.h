/* files opened by the yaml import go to the harness */
#ifndef ENV_YAML_H
#define ENV_YAML_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
FILE *h_fopen(const char *name, const char *mode);
int h_fclose(FILE *f);
#define fopen h_fopen
#define fclose h_fclose
#endif
