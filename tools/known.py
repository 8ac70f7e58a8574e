"""Rewrites the 'fixed:' lines of known/known_findings.txt with the current commit names of /repo."""
import subprocess, os
M={
'a refused creation':('C12','a refused creation left a ghost object in the network index (it could be looked up and counted)'),
'adding or removing buses':('C07 C08 C04','calculated buses were kept after topology edits, in the working or in other variants'),
'vertex numbers of':('C08','merged bus search used the vertex count as array size although vertex numbers are not reused in order'),
'removing a substation':('C11','removal iterated on the container it modified and dereferenced the missing switch of internal connections'),
'the connectable bus':('C04','the connectable bus of a terminal was shared by all variants in the views'),
'a refused variant clone':('C05','cloning to several targets of which one exists created or overwrote the others before failing'),
'the working variant of a thread':('C05','with multi-threaded access all networks shared one working variant per thread'),
'operations on all variants':('C05','operations on all variants failed when the thread had no working variant'),
'moving a network':('C19','a moved network lost aliases, extensions and removed variant slots'),
'replacing an extension':('C18','replacing an extension left the previous one in one of the two maps'),
'changing the low tap':('C14','changing the low tap position left the tap position of other variants out of range'),
'load tap changing':('C14','load tap changing capabilities were validated with the old value'),
'a ratio tap changer without':('C14','setRegulationTerminal(null) was refused on a tap changer without load tap changing capabilities'),
'enabling the regulation':('C14','regulation could be enabled on two tap changers of one transformer'),
'a converter station':('C12','a converter station could be used by several HVDC lines or both sides of one'),
'all vertices of a graph':('C20','removeAllVertices failed after all edges were removed'),
'the edge objects':('C20','getEdgeObjects(v1, v2) did not compile'),
'subnormal numbers':('C01 C22','a document with a subnormal number could not be read back'),
'a missing boolean':('C03','a missing boolean or unsigned attribute built a std::string from a null pointer'),
'the sections of a non linear':('C13','setting the b or g of a section of a non linear shunt threw a null reference error'),
'removing variants keeps':('C04','SlackTerminal kept a wrong number of variant states when variants were removed (lost state, out of bounds access)'),
'a valid measurement':('C18','a valid measurement accepted an undefined value after its creation'),
'creating a measurement':('C18','newMeasurement().add() returned another measurement when no identifier was given'),
'filtering measurements by type':('C18','getMeasurements(type) kept a dangling reference to its argument'),
'a bus with aliases':('C01','a configured bus with an alias or property could not be read back'),
'extensions that cannot be':('C01','an extension without content (empty measurements, reset slack terminal) made the export fail'),
'a date without time zone':('C01 C22','a date without time zone was printed with Z, then with +00:00 once read back'),
'an active power control':('C01','a document with an active power control without droop could not be read back'),
'bus/breaker topologies can':('C02','a bus/breaker topology with switches could not be exported anonymized'),
'the converter stations of HVDC':('C02','the anonymized document showed the ids of the converter stations of HVDC lines'),
'exporting an extension to a format':('C02','exporting a slack terminal to version 1.0-1.2 failed with std::out_of_range'),
'incompatible elements are left':('C02','LOG_ERROR export to 1.0 wrote elements the version does not allow: the document could not be read'),
'aliases are left out':('C02','LOG_ERROR export to 1.0-1.2 wrote aliases, which these versions cannot be read with'),
'connected components follow':('C09','creating or removing an HVDC line left the connected components computed before'),
'connection requests':('C10','connect closed breakers towards an open load break switch and reported success, a refused disconnect had already opened breakers'),
'allow the variant manager':('C05','a query of the variant manager by the function given to forEachVariant never returned'),
'let threads write':('C05','threads writing boolean states of one object, each in its own variant, lost each others updates (std::vector<bool>)'),
'let several threads list':('C05','listing objects of a type without instances changed a shared map, while other threads read it'),
'an edge from a vertex to itself':('C20','getEdgeObjects(v, v) and getEdges(v) listed an edge from a vertex to itself twice'),
'traverse every terminal':('C21','the traversal of a bus/breaker topology visited one terminal only of the other buses, and refused or shared terminals several times'),
'give each HVDC type':('C22','the names of HvdcType were swapped: VSC was printed LCC'),
'load the anonymized strings':('C22','a saved anonymization table with a separator in a string could not be loaded'),
'refuse the numbers followed':('C22','numbers followed by other characters, and negative unsigned numbers, were accepted when reading'),
'refuse the vertices':('C03','a document with a huge node number never ended'),
'return no merged bus':('C23','asking for the merged bus of an unknown configured bus aborted'),
'log a message without':('C26','a message was formatted a second time: an id or file name with % made ordinary operations throw once a logger was installed'),
'let a range of distinct':('C23','a list of distinct objects (connectables of a level, lines of a substation) was empty or cut the second time it was iterated'),
'keep the place of the reader':('C22','after a text was read by characters, reading until the end of its element went too far'),
'read completely a text':('C25','an alias interrupted by a comment was cut, and one with a CDATA section refused; an alias element without text became an alias of white space'),
'initialize libxml2':('C27','two threads reading or writing their first documents at the same time raced on the initialization of libxml2'),
'report a document that':('C29','a document that could not be written completely was lost silently, and an exception thrown by the stream ended the process'),
'let no exception of an input':('C29','an input stream with exceptions enabled ended the process when its document was read'),
'report a mapping file':('C29','the mapping file of an anonymized document could be lost silently'),
'keep the points of':('C30','a reactive capability curve adder lost its points when it added, and refused to add again'),
'do not keep the rated':('C30','a three windings transformer adder kept the rated voltage of the first transformer for the next ones'),
'refuse a discrete measurement':('C30','a discrete measurement without type was created with an indeterminate one'),
'do not let the copy':('C30','the copy of a dangling line or three windings transformer adder used the adder it was copied from after its end'),
'keep the name a temporary':('C30','a temporary limit adder with ensured names changed the name it was given when ended'),
'a text made of':('C01 C22','an alias made of white space was read back empty'),
}
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f=os.path.join(here,'known/known_findings.txt')
keep=[l for l in open(f) if l.startswith('finding|')]
out=[]
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%H %s'],universal_newlines=True).splitlines()
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    for k,(p,w) in M.items():
        if s[5:].startswith(k):
            out+=['fixed: property=%s %s %s\n'%(x,h,w) for x in p.split()]; break
    else:
        if subprocess.call(['git','-C','/repo','merge-base','--is-ancestor',h,'06ac83e'])!=0: print('unmapped',l)
open(f,'w').write(''.join(keep+out))
