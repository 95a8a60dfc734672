property='C02'
needs='NodeIds imported in an order that makes the search tree rotate to the left below the left child of a node (ascending ids in the lower half): nodes of the detached subtree are not delivered'
breaks='After a rotation in a left subtree the rotated subtree is linked as the right child of its parent, so whole subtrees of nodes are never delivered (and leak).'
edits=[('src/Sort.c','''            if (s == t->right)
                t->right = p;
            else
                t->left = p;
            return q;''','''            // the rotated subtree is hooked in again
            if (s == t->right || (t != rootNode && a == UA_ORDER_MORE))
                t->right = p;
            else
                t->left = p;
            return q;''')]
H='<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>'
gen='''
for n, ids in (("a", [50, 75, 25, 20, 15, 80, 85, 10, 5]), ("b", list(range(40, 0, -1))), ("c", [(i * 37) %% 101 for i in range(1, 101)])):
    open(n + ".xml", "w").write(%r + "".join('<UAObject NodeId="ns=1;i=%%d" BrowseName="1:o%%d"/>' %% (i, i) for i in ids) + "</UANodeSet>")
''' % H
cmds=['new +a.xml sort dump del live','new +b.xml sort dump del live','new +c.xml sort dump del live']
