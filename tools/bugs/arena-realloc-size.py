property='C11'
needs='a realloc that does not fit into the current region while the block to be moved is big (requested growth at most the initial size, block plus growth larger than it)'
breaks='The new region is sized for the requested growth alone, the moved block does not fit and is written behind the end of the region.'
edits=[('src/CharAllocator.c','''            Region_new(getRegionSize(size + arena->current->userSize*2, arena->initialSize));''','''            Region_new(getRegionSize(size, arena->initialSize));''')]
main=r'''
#include "CharAllocator.h"
#include <stdio.h>
#include <string.h>
int main(int argc, char **argv)
{
    CharArenaAllocator *a = CharArenaAllocator_new(64);
    char *x = CharArenaAllocator_malloc(a, 10), *p, *q; int bad = 0;
    memset(x, 'x', 10);
    p = CharArenaAllocator_malloc(a, 50); memset(p, 'p', 50);
    p = CharArenaAllocator_realloc(a, 40); memset(p + 50, 'r', 40);
    q = CharArenaAllocator_malloc(a, 8); memset(q, 'q', 8);
    for (int i = 0; i < 50; i++) bad |= p[i] != 'p';
    for (int i = 50; i < 90; i++) bad |= p[i] != 'r';
    for (int i = 0; i < 10; i++) bad |= x[i] != 'x';
    printf("bad %d\n", bad);
    CharArenaAllocator_delete(a);
    return 0;
}
'''
sanitize=True
cmds=['run']
