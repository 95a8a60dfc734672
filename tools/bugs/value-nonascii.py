property='C15'
needs='a value member whose text consists of non-ASCII characters only'
breaks='Bytes above 127 are taken for white space (char is signed), the text is delivered as missing.'
edits=[('src/Value.c','''        if(!isspace((unsigned char)*c))
        {''','''        if(*c > ' ')
        {''')]
xml={'a.xml':'''<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd"><NamespaceUris><Uri>urn:demo</Uri></NamespaceUris>
<UAVariable NodeId="ns=1;i=1" BrowseName="1:v" DataType="i=12"><Value><ListOfString><String>&#228;&#246;</String><String>a&#228;</String><String> </String></ListOfString></Value></UAVariable></UANodeSet>'''}
cmds=['new +a.xml sort dump del live']
