property='C01'
needs='a variable with an AccessLevel but without a UserAccessLevel attribute'
breaks='A missing UserAccessLevel takes the value of AccessLevel instead of its default 1.'
edits=[('src/Nodeset.c','''        ((NL_VariableNode *)node)->userAccessLevel = getAttributeValue(
            nodeset, &attrUserAccessLevel, attributes, attributeSize);''','''        ((NL_VariableNode *)node)->userAccessLevel = getAttributeValue(
            nodeset, &attrUserAccessLevel, attributes, attributeSize);
        if (((NL_VariableNode *)node)->userAccessLevel ==
            attrUserAccessLevel.defaultValue)
            ((NL_VariableNode *)node)->userAccessLevel =
                ((NL_VariableNode *)node)->accessLevel;''')]
edits=[('src/Nodeset.c','''        ((NL_VariableNode *)node)->userAccessLevel = getAttributeValue(
            nodeset, &attrUserAccessLevel, attributes, attributeSize);''','''        const NodeAttribute userAccess = {
            "UserAccessLevel", ((NL_VariableNode *)node)->accessLevel};
        ((NL_VariableNode *)node)->userAccessLevel = getAttributeValue(
            nodeset, &userAccess, attributes, attributeSize);''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAVariable NodeId="ns=1;i=1" BrowseName="1:v" AccessLevel="3"/><UAVariable NodeId="ns=1;i=2" BrowseName="1:v" AccessLevel="3" UserAccessLevel="2"/><UAVariable NodeId="ns=1;i=3" BrowseName="1:v"/></UANodeSet>'''}
cmds=['new +a.xml sort dump del live']
