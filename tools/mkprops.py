import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
PA='metatab/parser.py';TE='metatab/terms.py';DO='metatab/doc.py';RG='metatab/rowgen.py';UT='metatab/util.py';CL='metatab/cli.py';DP='metatab/datapackage.py'
add('C01','Every content row becomes exactly one term with its own name and value',
 "Loading a document turns each row whose first cell is neither blank nor a '#' comment into exactly one term (or one Section, Header, Include or Declare directive), in row order, and makes no term from any other row. The term's name is the first cell trimmed, lower-cased and split at its dot, and its value is the second cell trimmed, absent when that cell is missing or empty, and kept as it is when it is not text.",
 ['inputs'],'all sequences of rows over any cells, of any length and raggedness, from any row source',
 'The tests load about twenty fixed files and compare a few counts and values; no test varies the rows, their order, padding, raggedness or cell types.',
 [PA,TE],[('row loop and term construction','metatab/parser.py TermParser.generate_terms'),('term stream interpretation','metatab/parser.py TermParser.__iter__'),('value and name normalisation','metatab/terms.py Term.__init__, Term.split_term')],
 [('document terms','the ordered root level terms of the document and their trees','MetatabDoc.terms, SectionTerm.terms')],['the loaded document: sections, terms, values'])
add('C02','Child rows attach to the right parent',
 "A row named 'A.B' becomes a child of the most recent preceding term A in the load, where only terms from rows that name their own parent (or none) count; a row named '.B' becomes a child of the most recent such term since the section was entered, and is a top level term if there is none. A row whose named parent has not occurred is refused with a parser error, and no term is ever its own ancestor.",
 ['inputs'],'all interleavings of plain, dotted and elided rows across sections and includes',
 'Tests sample a few nested files; the parent of a row depends on the whole history of rows before it, including rows in other sections.',
 [PA],[('last term map and last parent','metatab/parser.py TermParser.__iter__')],[('last parent','the term that elided rows attach to','TermParser.__iter__ local state'),('last term by name','the term that dotted rows attach to','TermParser.__iter__ local state')],['tree of terms'])
add('C03','Terms land in the section they were written in',
 "Each top level term belongs to exactly one section: the one named by the nearest preceding Section row of its file, Root if there is none. Section names are matched without regard to case, a repeated Section row continues the section that exists (keeping its position, name and columns), and sections keep the order of first appearance with Root first.",
 ['inputs'],'all sequences of Section rows and terms, with repeated, empty and mixed case sections',
 'Tests only load documents whose sections each occur once.',
 [PA,DO],[('section switching','metatab/parser.py TermParser.__iter__'),('coalescing of sections','metatab/doc.py MetatabDoc.add_section, metatab/parser.py generate_terms')],[('sections','ordered map from lower case name to section','MetatabDoc.sections')],['sections of the document and their terms'])
add('C04','Extra cells become properties named by the section or header columns',
 "Each non-blank cell after the value makes one property of the row's term, in cell order, named by the column in the same position of the columns in force, or by its 0-based position when that column is blank or missing. The columns in force are those of the current section's Header row if it has had one, otherwise those of its Section row, otherwise those declared for the section, and they never leak into another section or outlive a return to Root.",
 ['inputs'],'all sequences of Section, Header and term rows with any number of columns and cells, including re-entered sections and includes',
 'The tests use one Header per section and never return to a section or to Root.',
 [PA,TE],[('parameter map','metatab/parser.py TermParser.__iter__'),('argument children','metatab/parser.py TermParser.generate_terms'),('property names of sections','metatab/terms.py SectionTerm.property_names')],[('parameter map','column names in force','TermParser._param_map')],['children of the terms of a loaded document, and value names from headers'])
add('C05','Presentation does not change meaning',
 "Changing the letter case of term, section or column names, padding cells with spaces, inserting blank or comment rows, appending empty trailing cells to term rows, or writing a top level name with an explicit 'Root.' prefix does not change the document: the same sections, terms, tree, values and dictionary result.",
 ['inputs','configurations'],'all documents and all combinations of these edits, applied at any rows',
 'No test compares two presentations of one document.',
 [PA,TE,RG],[('name normalisation','metatab/terms.py Term.split_term_lower, term setter'),('row filter','metatab/parser.py generate_terms')],(),['two loads of the same document'])
add('C06','Include splices the file in place and returns to the including section',
 "Including a file has the effect of its rows appearing at that point: they start in the current section with its columns, may switch sections, may include further files relative to their own location, and afterwards the including section and its columns are in force again with no current parent. An include that reaches a file already being included is refused with an include error rather than looping.",
 ['inputs','configurations'],'all include graphs of small depth, with Section, Header and term rows placed before, in and after the included files',
 'The only include test needs the network; nothing exercises nested includes or loops.',
 [PA],[('include handling and re-assertion of the section','metatab/parser.py TermParser.generate_terms'),('path resolution','metatab/parser.py find_include_doc')],(),['document loaded from files'])
add('C07','Declarations give terms their value names, property types, synonyms and columns',
 "After a declaration file has been declared, every later term of a declared name, however its parent is written, has the declared value name and property type; a declared synonym is read as the term it stands for; and a section without columns of its own gets the declared ones once the declaration is loaded. A term that inherits from another has all of its declared children as well, and a term that is put in an undeclared section, or inherits without a section, is refused with a declaration error.",
 ['inputs','configurations'],'all small declaration files and documents that use them, by plain, dotted, elided and column rows',
 'Tests use the one published declaration file and check a handful of terms.',
 [PA,DO],[('declaration handling','metatab/parser.py add_declared_section, add_declared_term, inherited_children, synonyms'),('fallback','metatab/doc.py MetatabDoc.add_term')],[('declared terms','qualified name to declared properties','MetatabDoc.decl_terms, TermParser.declared_terms')],['value names and property types of terms, declared terms of the document'])
add('C08','Dictionary conversion keeps every value in the declared shape',
 "Converting a term, section or document to a dictionary gives a term without children as its value and one with children as a map of child name to converted child, with its own value under its value name (or '@value' on request). Children that share a name form a list in order, unless declared scalar (the last one), always-a-list, or joined with or without a space; no value is lost or changed otherwise, and an empty document gives an empty map.",
 ['inputs'],'all documents, property types and value names, including repeated and nested children and edited documents',
 'Tests compare five fixed files with stored JSON.',
 [TE,DO],[('conversion','metatab/terms.py Term._convert_to_dict, SectionTerm.as_dict; metatab/doc.py MetatabDoc.as_dict')],(),['dictionaries of documents, sections and terms'])
add('C09','A document survives being written as CSV and read again',
 "Reading the CSV text of any document made of loads and edits whose names and values CSV can carry gives an equal document: the same sections with the same columns, the same top level terms in the same order, the same children of each name in the same order, the same values as text, and the same dictionary when the document uses no Header value names. Empty properties may be dropped, and Include rows are out of scope.",
 ['inputs','histories'],'all documents reachable by loading and editing, within the carrier alphabet of CSV',
 'The only round trip test uses one file over the network.',
 [DO,TE],[('rows','metatab/doc.py MetatabDoc.rows, as_csv; metatab/terms.py SectionTerm.rows, _args, Term.rows')],(),['text written, and the document read back from it'])
add('C10','A document survives being written as Lines and read again',
 "Reading the Lines text of any document made of loads and edits whose names and values fit on lines gives an equal document, in the same sense as for CSV, including values that contain pipe, colon and hash characters and values that are numbers.",
 ['inputs','histories'],'all documents reachable by loading and editing, with values free of line breaks',
 'Tests only read two fixed line files.',
 [DO,TE,RG],[('lines','metatab/terms.py SectionTerm.lines; metatab/doc.py lines, as_lines'),('reader','metatab/rowgen.py TextRowGenerator')],(),['text written, and the document read back from it'])
add('C11','Line text splits into cells by the Lines rules',
 "Each line of a Lines text gives one row, except comment lines ('#' first after blanks) which give none: the name is the text before the first colon, the rest is split at pipes that are not preceded by a backslash, and an escaped pipe stands for a pipe. A line that starts with four or more equals signs is a Section row named by the rest of the line.",
 ['inputs'],'all texts over the significant characters (colon, pipe, backslash, hash, equals, blanks, line breaks)',
 'Tests read two fixed texts without escapes or odd lines.',
 [RG],[('tokeniser','metatab/rowgen.py TextRowGenerator.__iter__')],(),['rows from a text'])
add('C12','Find returns exactly the matching terms',
 "Searching a document by name, or list of names, returns exactly the terms, once each per name, whose qualified name matches (an unqualified name means top level, '*' matches any parent or name, and a name also stands for every term declared to inherit from it) and whose section, value and properties match when given. Top level names give terms in the order they were added and other names in document order; first-match and value lookups agree with the full search, return the default when nothing matches, and none of them depend on letter case of names.",
 ['inputs','histories'],'all documents reached by loads and edits, and all queries over names, wildcards, sections, values and properties',
 'Tests make a few queries on fixed documents.',
 [DO,TE],[('find','metatab/doc.py MetatabDoc.find and wrappers'),('name match','metatab/terms.py Term.term_is')],(),['results of find, find_first, find_first_value, get, get_value and the section variants'])
add('C13','Editing keeps the document consistent',
 "After any sequence of edits (adding, removing, moving or setting terms, children and sections) every top level term is in exactly one section and in the document's term list exactly once, removed terms and the terms of removed sections are in neither, each child is listed once by the parent it names, and terms know their section and document. Each edit changes only what it is about: all other terms, values and orders stay the same.",
 ['histories'],'all sequences of editing operations on all small documents',
 'Tests perform two or three edits in one fixed order.',
 [DO,TE],[('ownership','metatab/terms.py add_term, remove_term, add_child, remove_child, set_ownership; metatab/doc.py add_term, remove_term')],[('document terms','flat list of top level terms','MetatabDoc.terms'),('section terms','terms of each section','SectionTerm.terms')],['full projection of the document after each call'])
add('C14','Properties read back what was written',
 "Setting a property or the value of a term by item or by name makes every reader (item, attribute, value lookup, property maps, containment) give the new value, creates the property once if it was missing, removes it when set to nothing, and leaves other properties alone. The value name of the term and 'value' both mean the term's own value, names are matched without regard to case, and missing properties give the default or an error, never another property's value.",
 ['histories'],'all sequences of property reads and writes on all terms of loaded and edited documents',
 'Tests set a few properties once.',
 [TE],[('item and attribute access','metatab/terms.py Term.__getitem__, __setitem__, __getattr__, __setattr__, get, get_value, props, arg_props, all_props')],(),['results of property readers after each write'])
add('C15','Sections are found, ordered and managed by name',
 "Looking up, testing for, creating-or-getting and deleting a section go by its name without regard to case, and getting a section that exists never replaces or empties it. Sorting sections puts the named ones first in the given order and keeps the others in their order; sorting a section's terms puts the named ones first and the rest in alphabetical order by qualified name with ties in their old order; adding or removing a column changes only that column.",
 ['histories'],'all sequences of section operations with arbitrary names, cases and orders',
 'Tests use at most one of these operations on one document.',
 [DO,TE],[('sections','metatab/doc.py get_or_new_section, new_section, get_section, __delitem__, __contains__, sort_sections'),('columns and order','metatab/terms.py SectionTerm.add_arg, remove_arg, sort_by_term')],[('sections','ordered map','MetatabDoc.sections')],['section order, columns and terms after each call'])
add('C16','The document name is a function of its identity terms',
 "Updating the name sets it to the slugs of origin, dataset, time, space, grain, variant and version, in that order, skipping absent ones and joined by '-', when a dataset term is present; without one the name is kept, or becomes the identifier if it was empty. An identifier is created when missing and otherwise never changed, updating twice changes nothing more, and the reported changes say whether the name changed.",
 ['inputs','histories'],'all combinations of identity terms and values, and repeated updates and edits between them',
 'Tests check three fixed documents.',
 [DO,UT],[('name','metatab/doc.py update_name, _generate_identity_name, ensure_identifier, cleanse'),('slug','metatab/util.py slugify')],(),['Root.Name, Root.Identifier, returned messages'])
add('C17','Version arithmetic is exact and asking for a version changes nothing',
 "A document with any of major, minor or patch has the version 'major.minor.patch' with missing parts as 0, and the build as a fourth part when present; otherwise its version is the version value as it stands. The name as of another version replaces the version, or the patch of a semantic version, by the given one, by itself plus or minus the given number, or leaves it out, is refused when arithmetic is asked of a version that is not a whole number, and never changes the document.",
 ['inputs','histories'],'all version terms and parts, and all version arguments',
 'Tests check a handful of values, and one of them passes only by accident of order.',
 [DO],[('version','metatab/doc.py update_version, as_version, _generate_identity_name')],(),['as_version results and the document before and after'])
add('C18','Loading in parts equals loading at once',
 "Loading rows into a document in several loads, split before Section rows, gives the same document as loading them all at once: the same sections, terms, order, tree and values, provided that no part uses declarations and each part's dotted rows have their parents in the part.",
 ['inputs','histories'],'all documents and all ways to split them before Section rows',
 'No test loads into a document twice.',
 [DO,PA],[('load','metatab/doc.py load_terms, load_rows, add_section'),('existing sections','metatab/parser.py generate_terms')],(),['projection after each load'])
add('C19','Reading a document never changes it',
 "Converting to a dictionary, CSV, Lines or rows, searching, iterating, looking up sections, terms, properties, versions or names of a document, converting it to a datapackage, and printing it leave every section, term, value, order and declaration of it unchanged, and give the same answer when repeated.",
 ['histories'],'all documents and all sequences of read operations',
 'No test compares a document before and after a read.',
 [DO,TE,DP],[('readers','metatab/doc.py as_dict, rows, lines, find, as_version; metatab/terms.py as_dict, rows, lines, props')],(),['projection before and after each read'])
add('C20','Documents do not affect each other',
 "Loading or editing one document never changes another document's sections, terms, values, declarations or results, whatever the order in which the operations on the two are interleaved and even when both use the same declarations or the same rows.",
 ['histories'],'all interleavings of loads and edits of two documents',
 'No test has two documents that are edited.',
 [DO,PA,TE],[('per document state','metatab/doc.py MetatabDoc.__init__; metatab/parser.py TermParser.__init__')],(),['projections of both documents after each operation on one'])
add('C21','Files written are complete, current and only of the right kind',
 "Writing a document to a file (the one it was read from, or 'metadata.csv', when none is named) gives a file that, opened again, is the document as it is after the write, with its identifier and updated name; the format follows the extension, and both writers refuse a path with another extension, leaving any file there untouched. Creating a new file from a template never overwrites an existing file.",
 ['histories','configurations'],'all documents, edit histories between writes, formats and target paths',
 'The write tests need the network or only look at the text.',
 [DO,CL],[('writers','metatab/doc.py write, write_csv, write_lines, _write_path'),('creation','metatab/cli.py new_metatab_file')],(),['file contents and the reopened document'])
add('C22','Loading failures are reported as such and at the right place',
 "A document with an include or declaration that cannot be found or opened, an include loop, or a child row without its parent fails to load with an include or parser error, never loads as if the row were absent, and an include failure names the term, row and file of the failing row, also inside included files. A document without such rows loads without error.",
 ['inputs','configurations'],'all positions of a failing row in a document or in its included files',
 'Tests check two fixed error files.',
 [PA,DO],[('error handling','metatab/parser.py generate_terms, __iter__, errors_as_dict')],(),['exceptions and error reports'])
add('C23','Registered term classes are used for their terms and for derived terms',
 "Every top level term that is loaded or created is an instance of the class registered for its qualified name, or else the one registered for the term it is declared to inherit from, or else the plain class, and removing a registration restores that; names are matched without regard to case.",
 ['histories','configurations'],'all registrations, unregistrations, declarations and term names, for loaded and for created terms',
 'One test registers four classes in one order.',
 [PA,DO,UT],[('class lookup','metatab/parser.py get_term_class, register_term_class; metatab/doc.py get_term_class')],(),['classes of terms'])
add('C24','Datapackage conversion carries every described resource and field',
 "Converting a document to a datapackage gives its root metadata as a dictionary (with the identifier as the name if there is no name, refused if there is neither) and one resource for each data file whose name or table has a schema, in document order, with its url as path, its name, and one field per column in order with the column's name, title, description and mapped type. A document without a schema section is refused with a conversion error.",
 ['inputs'],'all documents with any data files, tables and columns',
 'Tests compare one fixed file.',
 [DP],[('conversion','metatab/datapackage.py convert_to_datapackage')],(),['converted datapackage'])
add('C25','Terms know which row, column and file they came from',
 "Every loaded term carries the 1-based number of its row within its own file or source, with blank and comment rows counted in CSV and row sources, column 1 for the term of a row and the position of its cell for each property (the first property cell counting as column 2), and the name of the file it is in, also when that file was included. Terms made by editing carry no row.",
 ['inputs'],'all documents, including nested includes, blank rows and ragged rows',
 'Tests never look at positions.',
 [PA,TE],[('position','metatab/parser.py generate_terms; metatab/terms.py Term.__init__, file_ref')],(),['row, column and file of terms'])
add('C26','Schema clean-up keeps exactly the columns in use',
 "Cleaning up the schema leaves as columns of the schema section exactly the names of properties that some column term of some table has with a non-empty value, keeps those already there in their order, removes properties without a value from column terms and changes nothing else; doing it twice changes nothing more.",
 ['inputs','histories'],'all schema sections with any tables, columns, properties and blanks',
 'No test calls it.',
 [DO],[('clean-up','metatab/doc.py clean_unused_schema_terms')],(),['schema section columns and terms'])
add('C27','The command line prints and writes what the library gives',
 "For any readable file, the command line's CSV, Lines and JSON outputs are the library's conversions of that file, written in place to the same base name with the format's extension when asked and otherwise printed without touching any file; finding a term prints the first match's value and fails when there is none. Creating a file writes a new document from the template only if the file does not exist.",
 ['inputs','configurations'],'all documents and combinations of output type and in-place flag',
 'No test runs the command line.',
 [CL],[('command line','metatab/cli.py metatab, new_metatab_file')],(),['standard output, exit status, files'])
add('C28','A document reads the same however its file is named',
 "Whether a document's file is named by a relative or absolute path, a file URL or a metatab URL, with or without steps that lead nowhere, as text or as a URL object, by the directory of its metadata.csv in a metatab URL, or by the zip file that contains it, the document that is read is the same in every respect, includes and declarations beside the file are found, and the document's path, directory and time are those of the file. A metatab URL exists, gives the rows of, joins names to and makes the document of the file it names; naming a file that is not there fails and never reads another one.",
 ['inputs','configurations'],'all names of a file, all files, packages and zip files, all current directories above them',
 'Tests name files in one way each.',
 ['metatab/appurl.py',PA,DO],[('metatab URLs','metatab/appurl.py MetatabUrl'),('reading by reference','metatab/doc.py MetatabDoc.__init__, path, doc_dir; metatab/parser.py find_include_doc, find_declare_doc, generate_terms')],(),['document read, path, directory, rows of a URL'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p,s); n=p['statement'].count('. ')+1
    if n>3: print(p['id'],n)
print(len(P))
