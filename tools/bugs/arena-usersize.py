property='C11'
needs='a malloc that needs a new region, followed by reallocs of that block into yet another region'
breaks='The size of the first block of a new region is not remembered, so when that block has to be moved by realloc its beginning is lost.'
edits=[('src/CharAllocator.c','''        newRegion->next = arena->current;
        arena->current = newRegion;
    }
    arena->current->userPtr = arena->current->mem + arena->current->size;
    arena->current->size += size;
    arena->current->userSize = size;
    return arena->current->userPtr;
}''','''        newRegion->next = arena->current;
        arena->current = newRegion;
        newRegion->size = size;
        return newRegion->userPtr;
    }
    struct Region *region = arena->current;
    region->userPtr = region->mem + region->size;
    region->size += size;
    region->userSize = size;
    return region->userPtr;
}''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={}
cmds=['arena']
main=r'''#include <CharAllocator.h>
#include <stdio.h>
#include <string.h>
/* text that starts a new region and later moves on to a third one */
int main(void)
{
    CharArenaAllocator *a = CharArenaAllocator_new(100);
    CharArenaAllocator_malloc(a, 90);
    char *t = CharArenaAllocator_malloc(a, 40);
    memcpy(t, "0123456789012345678901234567890123456789", 40);
    t = CharArenaAllocator_realloc(a, 50);
    memset(t + 40, 'x', 50);
    t = CharArenaAllocator_realloc(a, 50);
    memset(t + 90, 'y', 49);
    printf("%s\n", t);
    CharArenaAllocator_delete(a);
    return 0;
}
'''
