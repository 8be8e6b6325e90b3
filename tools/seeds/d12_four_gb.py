PROP = 'D12'
EDITS = [('bss-util/bss_util.cpp', 'return (unsigned long long)path_stat.st_size;', 'return (unsigned long long)((unsigned long long)path_stat.st_blocks * 512 < (unsigned long long)path_stat.st_size ? path_stat.st_blocks * 512 : path_stat.st_size);')]
NEEDS = 'a sparse file'
BREAKS = 'the space the file takes is reported instead of its size'
LIBS = '"$R"/bss-util/bss_util.cpp "$R"/bss-util/ConvertUTF.c -Wl,--unresolved-symbols=ignore-all -lpthread'
FLAGS = '-fpermissive -w'
DEMO = r'''
#include "bss-util/bss_util_c.h"
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
int main() { char d[] = "/tmp/fszXXXXXX"; if(!mkdtemp(d) || chdir(d)) return 2; FILE* f = fopen("s", "wb"); fputc('x', f); fflush(f); int r = 0; if(ftruncate(fileno(f), 8 * 1024 * 1024)) r = 2; fclose(f); if(!r && bssFileSize("s") != 8 * 1024 * 1024) r = 1; unlink("s"); chdir("/"); rmdir(d); return r; }
'''
