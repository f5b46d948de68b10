#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
int main(void) { printf("sane\n"); return 0; }
