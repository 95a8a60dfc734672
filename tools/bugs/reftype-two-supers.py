property='C07'
needs='a reference type with two inverse HasSubtype references, the first of which is to a known non-hierarchical type and the other to a hierarchical one'
breaks='Only the last written supertype of a reference type decides on its classification.'
edits=[('src/InternalRefService.c','''                    addHierachicalRef(service, &node->id);
                    isHierachical = true;
                    break;
                }
            }
        }
        ref = ref->next;''','''                    addHierachicalRef(service, &node->id);
                    isHierachical = true;
                    break;
                }
            }
        }
        // a type has one supertype
        ref = !ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtypeId) ? NULL : ref->next;''')]
N='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris>%s</NamespaceUris>%s</UANodeSet>'
def doc(body,*uris): return N%(''.join('<Uri>%s</Uri>'%u for u in (uris or ('urn:demo',))),body)
def R(t,to,fwd=True): return '<Reference ReferenceType="%s"%s>%s</Reference>'%(t,'' if fwd else ' IsForward="false"',to)
def el(tag,i,refs='',attrs='',inner=''): return '<UA%s NodeId="%s" BrowseName="1:n" %s>%s<References>%s</References></UA%s>'%(tag,i if '=' in str(i) else 'ns=1;i=%s'%i,attrs,inner,refs,tag)
xml={'a.xml':doc(el('ReferenceType',7,R('i=45','i=33',False)+R('i=45','i=32',False))+el('ReferenceType',8,R('i=45','i=32',False)+R('i=45','i=33',False))+el('Object',1,R('ns=1;i=7','ns=1;i=2')+R('ns=1;i=8','ns=1;i=2'))+el('Object',2))}
cmds=['new +a.xml sort dump del']
