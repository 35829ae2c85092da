import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})
S='dsch/schema.py'; D='dsch/data.py'; ST='dsch/storage.py'; F='dsch/frontend.py'
B=['dsch/backends/%s.py'%b for b in ('npz','hdf5','mat','inmem')]; NPZ,H5,MAT,MEM=B
p('V01','Texts, bytes, flags, dates and lists validate exactly as their schema says',
 'Validating a text, bytes, boolean, date, time or date-and-time value, or a list, succeeds if and only if the value has the type the schema prescribes and its length lies within the configured limits, both limits inclusive and each applying only when configured (zero included). Every rejection is a validation error, never another exception.',
 ['inputs','configurations'],'every value (any type, any length and content) and every combination of absent or present limits',
 'The tests try one value inside and one outside of a single limit; limits of zero, boundary lengths, both limits together and foreign types are not covered.',
 [S,D],[('type and length comparisons',S+': Bool/Bytes/Date/DateTime/List/String/Time.validate')],['validate() of schema nodes and data nodes'])
p('V02','Scalars validate exactly by data type and value range',
 'Validating a scalar succeeds if and only if it is a NumPy scalar of precisely the data type named in the schema and lies within the configured minimum and maximum, both inclusive and each applying only when configured (zero included). Every rejection is a validation error, never another exception.',
 ['inputs','configurations'],'every value of every numeric type (infinities and denormals included), every limit',
 'The tests check a handful of integers against one limit; the full value range, 64-bit precision against limits, and limits equal to zero are out of reach for sampling.',
 [S],[('data type and range comparisons',S+': Scalar.validate')],['validate()'])
p('V03','Arrays validate exactly by data type, dimensions, shape and element range',
 'Validating an array succeeds if and only if it is a NumPy array of the data type and number of dimensions in the schema, its size along each dimension lies within the configured limits, and each of its elements lies within the configured value range; limits are inclusive, and an absent one never constrains. Every rejection is a validation error; schemas whose shape limits do not match the number of dimensions are refused at construction.',
 ['inputs','configurations'],'every shape, every element value, every combination of limits per dimension',
 'The tests use one- and two-dimensional arrays with one violated limit each; a check that looks at too few dimensions or elements, or ignores limits of zero, passes them.',
 [S,D],[('shape and range comparisons',S+': Array.validate and its helpers'),('constructor checks',S+': Array.__init__')],['validate()','schema construction'])
p('V04','Linked arrays must match the size of their independent variables',
 'An array that declares independent variables is valid only if its size along each linked dimension equals the size of the variable linked to that dimension, with unlinked dimensions unconstrained and variables looked up in the same compilation. This holds at every place in a tree, after every change of either side, and with a schema reloaded from its serialised form.',
 ['inputs','configurations','histories'],'every link configuration of up to three dimensions, all sizes, changes of either array',
 'The tests validate one or two link patterns with one right and one wrong size; partial links in other positions, nested compilations and stale sizes after changes are not reached.',
 [S,D],[('size comparison',S+': Array.validate'),('look-up of the independent variables',D+': Array.validate')],['validate() of the array and of the compilation'])
p('V05','A tree is valid iff every node in it is, and errors name the offending node',
 'Validating a compilation or list succeeds if and only if every node below it that holds data is valid on its own and every list respects its length limits; empty nodes never make it fail. When it fails, the error names the path from the validated node to an invalid node and carries the error that this node raises on its own.',
 ['inputs','configurations','histories'],'every tree shape within the bounds, any combination of valid, invalid and empty nodes',
 'The tests contain one invalid node per tree, mostly at the first position; invalid later items, several invalid nodes and deep paths are not checked.',
 [D,'dsch/exceptions.py',S],[('recursive validation',D+': Compilation.validate, List.validate'),('error path',"dsch/exceptions.py: SubnodeValidationError")],['validate()','str(error)'])
p('S06','Schemas survive serialisation unchanged',
 'Every schema, once serialised to its dictionary or JSON form or stored in a file, is restored to a schema that is equal in all types, limits, units, field names, options and nesting, has the same hash, and accepts the same values. Unknown node types are refused.',
 ['configurations','inputs'],'every node type with arbitrary parameters (absent, zero, negative, large), any nesting within the bounds',
 'The tests round-trip schemas with one parameter set each; a parameter that is lost only when it is zero or false, or only when nested, is not noticed.',
 [S]+B[:3],[('conversion to and from dictionaries and JSON',S+': SchemaNode.to_dict/to_json, node_from_dict/node_from_json, Compilation/List overrides')],['restored schema, its hash and its verdicts'])
p('S07','Schema hash and equality identify the configuration',
 'Two schemas have the same hash, and compare equal, if and only if they have the same node types with the same parameters at the same places; the order in which fields were given does not matter. Every single difference in a type, limit, unit, option, field name or link anywhere in a nested schema changes the hash.',
 ['configurations'],'every pair of configurations of every node type, and nested schemas that differ in one arbitrary place',
 'The tests compare a few fixed pairs; that every parameter of every node type enters the hash needs all pairs.',
 [S],[('hash over the serialised form',S+': SchemaNode.hash'),('equality',S+': SchemaNode.__eq__')],['hash(), =='])
p('N08','A node returns exactly the value set last',
 'In every backend, reading a node returns exactly the value that was set last (equal in type, data type, shape and content), whatever values the node held before and whether it was set directly or through its compilation or list. Setting a value does not check it against the limits of the schema; only validation does.',
 ['inputs','histories'],'sequences of arbitrary values of every node type in all four backends',
 'The tests set two fixed values per node type; leftovers of an earlier longer value, shapes that change and extreme values need arbitrary sequences.',
 [D]+B,[('replacing the stored object',B[0]+': replace of the node classes (and the other backends)')],['value'])
p('N09','Empty and complete flags, clear and value agree after any history',
 'A leaf is empty until a value is set and again after it is cleared, and reading an empty one raises the dedicated error; values such as zero, false, empty texts and empty arrays are not empty. A compilation or list is empty iff everything in it is; a compilation is complete iff all fields not declared optional are, a list iff all its items are; clearing a compilation empties everything below, clearing a list removes all items.',
 ['histories','inputs','configurations'],'all operation sequences within the bounds on leaves and a nested tree, every set of optional fields, all four backends',
 'The tests call each operation once on a fresh node; sequences of set, clear, append and re-set at several levels are not explored.',
 [D]+B,[('emptiness and completeness',D+': empty, complete, clear'),('backend storage removal',H5+': clear/empty of the node classes')],['empty, complete, value'])
p('N10','A list node behaves like a sequence for every history',
 'After any sequence of appending, replacing and clearing the list and changing its items, a list has exactly the items a plain sequence would have, in the same order, with the same length, iteration, indexing (negative indices and slices included) and index errors. Changing one item never affects another one, in any backend.',
 ['histories','inputs'],'all operation sequences within the bounds with arbitrary values, lists of leaves, lists and compilations, all four backends',
 'The tests append and read a few items once; item identity after clear, replace and re-append (names of stored items in HDF5, for example) depends on the history.',
 [D]+B,[('list operations',D+': List'),('item storage',H5+': List')],['items, len(), iteration, value access'])
p('N11','Sub-nodes cannot be overwritten by accident and are found where expected',
 'Assigning to a field of a compilation or an item of a list always raises an error and changes nothing, whichever name, index or value is used. Every field and item can be reached by its name or position, knows its parent and its schema, and unknown names raise an attribute error; values given for unknown fields are refused.',
 ['inputs','configurations','histories'],'arbitrary assignments at several places of a tree, pairs of field names that resemble internals',
 'The tests assign one value to one field; names that collide with internals and nested places are not covered.',
 [D],[('attribute and item access',D+': Compilation.__getattr__/__setattr__/__dir__, List.__getitem__/__setitem__')],['data afterwards, exceptions'])
p('N12','The data tree mirrors the data exactly and is detached from it',
 'The tree representation of any node has one entry for each field and list item in order, with exactly its current value. Empty leaves are left out unless requested, while compilations and lists without data are kept as empty structures; changing the returned structure never changes the data.',
 ['inputs','histories','configurations'],'nested trees with any combination of empty and set nodes, all backends, both modes',
 'The tests check one tree with most values set; combinations of empty nodes at various depths are not covered.',
 [D],[('recursive conversion',D+': data_tree of ItemNode, Compilation and List')],['data_tree()'])
for pid,b,f,n in (('R13','NumPy',NPZ,'npz'),('R14','HDF5',H5,'hdf5'),('R15','MATLAB',MAT,'mat')):
  p(pid,'Everything saved to %s files is loaded back unchanged'%b,
 'Loading a %s file returns the schema and data that were last saved to it: every value equal in type, data type, shape and content, every empty field and list item still empty, every list with the same length and order. This holds after any sequence of edits, saves and loads, at every place in a tree, and repeated loading and saving changes nothing.'%b,
 ['inputs','histories','configurations'],'every node type with arbitrary values, trees with empty parts, and histories of edits with saves and loads in between',
 'The tests save and load one fixed value per node type; empty values, zero bytes, one-element and higher-dimensional arrays, partially filled trees and edits after loading are not covered.',
 [f,D,ST,S],[('conversion to and from the file',f+': Storage.save/_load, node classes'),('loading of collections',D+': _init_from_storage')],['load() of a copy of the file after save()'])
p('C16','Copies between storages are exact and independent',
 'Copying a node onto a compatible node, or a whole storage into a new one, gives exactly the data of the source (empty parts included, earlier contents of the target replaced), for every pair of backends, and also in the file once saved. Afterwards no change to either side, in place or not, is visible on the other one.',
 ['inputs','histories','configurations'],'every pair of backends, every node type with arbitrary values, trees with empty parts, targets with earlier contents',
 'The tests copy one filled tree onto an empty one; filled or longer targets, empty sources and shared array memory are not covered.',
 [D,F,ST]+B,[('recursive copy',D+': load_from of ItemNode, Compilation, List'),('new storages from others',F+': create_from, '+ST+': save_as')],['data of both sides, saved files'])
p('C17','Copying requires identical schemas; a refused copy changes nothing',
 'Copying a node onto another one succeeds if and only if both have identical schemas (types, all parameters, fields and nesting); otherwise the dedicated error is raised, and neither side is changed.',
 ['configurations','inputs'],'two arbitrary configurations of each node type, nested schemas differing in at most one place, all pairs of types',
 'The tests refuse one incompatible pair per node type; that every parameter matters and that refusal happens before any change is not covered.',
 [D],[('comparison of schema hashes',D+': load_from of ItemNode, Compilation, List')],['exception, data of both sides'])
p('F18','Saving writes valid data only, unless forced',
 'Saving a storage fails with a validation error if and only if its data is invalid, and then leaves the file as it was and the data in memory untouched; forced saving always writes. After each successful save, the file holds exactly the current data, and changes that were not saved are not in the file.',
 ['inputs','histories','configurations','crash_points'],'leaves with arbitrary limits and values anywhere in the tree, first and later saves, all file backends',
 'The tests save one invalid value at top level; validity at depth, boundary values and the state of an earlier file are not covered.',
 [ST]+B[:3],[('validation before writing',ST+': FileStorage.save, Storage.validate'),('writing',NPZ+', '+MAT+', '+H5+': Storage._save')],['exceptions, file contents'])
p('F19','Files are created and found exactly where asked and never overwritten',
 'Creating a storage refuses a path at which anything exists and leaves it untouched; otherwise data is saved at exactly the given path and nowhere else, in the format selected by the extension or the explicit choice of backend. Loading a missing path raises the dedicated error, names without a known extension are refused, and in-memory storages never touch the file system.',
 ['inputs','configurations','histories'],'every existing object at the path, paths of arbitrary characters, all backends by name or autodetection',
 'The tests use one conventional file name per backend; unusual names, explicit backends with other extensions and other objects at the path are not covered.',
 [F,ST]+B,[('backend detection',F+': _autodetect_backend, create, load'),('existence checks',ST+': FileStorage.__init__')],['file system, exceptions'])
p('F20','Loading hands out only valid data of the required schema, unless forced',
 'Loading a file succeeds if and only if its data is valid and its schema matches the required schema or hash, if one is given; a mismatch raises the schema error, invalid data a validation error. Forced loading skips only the validation of the data, and loading never changes the file.',
 ['inputs','configurations'],'files with arbitrary values and limits anywhere in the tree, arbitrary pairs of stored and required schemas, all file backends',
 'The tests load one invalid value and one wrong schema; nested differences, combinations with forced loading, hash and schema given together are not covered.',
 [F,ST]+B[:3],[('schema comparison and validation',F+': load; '+ST+': Storage.__init__/_load')],['exceptions, data, file contents'])
p('P21','Pseudo storages treat paths and data nodes alike',
 'A pseudo storage for a path opens the file if it exists and creates it with the wanted schema otherwise, saves valid data exactly when it is closed (also after an error in a with-block), stays open with its data when closing is refused because the data is invalid, and never touches the file for an unacceptable schema. For a data node it gives access to that same node, and never saves; schemas that are neither the wanted nor one of the accepted ones are refused in both modes.',
 ['histories','configurations','inputs'],'new, existing and deferred files, data nodes of any storage, arbitrary wanted, accepted and actual schemas, sequences of open and close',
 'The tests open each mode once with the right schema; state after a refused open, closing twice, exceptions and arbitrary schema differences are not covered.',
 [F],[('open, close and schema check',F+': PseudoStorage')],['file system, data, exceptions'])
p('D22','Automatic dates and times are set to the local time on creation, only then',
 'A date, time or date-and-time node with automatic initialisation is filled with the current local date and/or time when it is newly created, at every place in a tree and for every appended list item; nodes without it stay empty. Loading, clearing, copying or changing other nodes never fills or alters such a value.',
 ['inputs','histories','configurations'],'arbitrary creation times, every place in a tree, later loads, copies and clears, all backends',
 'The tests check that a value lies within a second of now at top level; cleared and reloaded or copied nodes and list items are not covered.',
 [D]+B,[('initialisation',D+': Date._init_new, DateTime._init_new'),('loading of empty nodes',D+': data_node_from_storage')],['value, empty'])
p('T23','The printed tree shows every node with its position and value',
 'The textual representation of a node contains one line for each field and list item below it, in order, with the name or position, the type and the current value (the shape for arrays) or a mark for empty nodes. Equal values at different places are never merged.',
 ['inputs','histories','configurations'],'nested trees with any combination of empty, equal and different values',
 'The tests compare one fixed tree; lists with equal items or several empty ones are not covered.',
 [D],[('recursive labels',D+': node_tree of ItemNode, Array, Compilation and List')],['repr(), node_tree()'])
p('A24','Element access to array nodes reads and changes exactly these elements',
 'Reading or assigning elements or slices of an array node has exactly the effect it has on a plain NumPy array of the same contents, and is seen by later reads, validation and saving. Resizing keeps every remaining element at its position, fills with zeros, and never changes other arrays, in any backend and also for loaded or referenced arrays (HDF5 refuses sizes beyond the limits of the schema).',
 ['inputs','histories'],'arrays of arbitrary elements, all kinds of indices and slices, sequences of assignments and resizes, all four backends, before and after loading',
 'The tests slice one fresh array; loaded arrays, references held elsewhere and sequences are not covered.',
 [D]+B,[('pass-through of indices',D+': Array.__getitem__/__setitem__/resize'),('HDF5 datasets',H5+': Array')],['elements, value, saved file'])
p('B25','All backends behave alike, and saved files continue in-memory data',
 'Any sequence of operations on the data (setting, clearing, appending, replacing, copying, changing elements, resizing) has the same observable effect in every backend: the same values, list lengths, empty and complete flags and validity, and it succeeds in all backends or in none. Saving and loading at any point of the sequence makes no difference.',
 ['histories','inputs'],'all operation sequences within the bounds on a tree with every node type, arbitrary values including ones that break limits, with or without saving and loading in between (arrays of another number of dimensions than declared cannot be kept in mat files)',
 'The tests apply the same single operations to each backend separately; the result of sequences, and of sequences that continue after loading, is never compared.',
 [D]+B,[('common behaviour of the nodes',D+': node classes'),('backend specific storage',B[0]+' (and the other backends): node classes')],['data_tree, flags, validate(), exceptions'])
p('E26','Errors tell which constraint was broken, where, and by what',
 'A validation error carries the limit, type, data type, shape or size that was expected, and the actual one (for arrays, exactly the offending elements), says which kind of limit was broken, and names both in its text. Errors about schemas, copies, assignments and unknown backends name both schemas, the node or the path in question, and all have a common base class.',
 ['inputs','configurations'],'every value and limit of every node type, every kind of error',
 'The tests check that an error of the right type is raised, hardly ever what it reports.',
 [S,'dsch/exceptions.py',D,F],[('construction of validation errors',S+': validate of the schema nodes'),('texts and attributes','dsch/exceptions.py: ValidationError, SubnodeValidationError, InvalidSchemaError, IncompatibleNodesError, ResetSubnodeError')],['attributes and str() of exceptions'])
p('X27','A refused value changes nothing',
 'When setting a node, appending an item, changing an array element or copying a node fails with an exception, the node or list, its flags, all other nodes and the saved file are as they were before, and it accepts a good value afterwards. When setting several values at once fails, each one is either the old or the given one, the refused one keeps its old value, and a replaced list holds the items before the refused one.',
 ['inputs','histories'],'nodes of all types that are empty, set, cleared or loaded, arbitrary values of other types, texts with NUL and surrogates, all four backends',
 'The tests check that some values are refused, never the state afterwards, which in HDF5 depends on what was stored before.',
 [D]+B,[('replacing the stored object',H5+': _ItemNode._create_dataset, replace of the node classes'),('appending items',D+': List.append; '+H5+': List.append')],['value, empty, complete, len(), data_tree(), saved file'])
p('O28','Looking at data never changes it and always shows the current state',
 'Reading values, flags, data trees and printed trees, validating, hashing, serialising or comparing the schema, copying to another storage, saving, and attempts that are refused can be inserted anywhere in a sequence of operations, before saving or after loading, without any effect on the results, the flags, the validity, the schema or the saved file. The same holds for schemas: hash, JSON and equality always reflect their current parameters.',
 ['histories','inputs'],'every kind of look before, between and after the operations of a history, arbitrary values, all four backends, created or loaded storages',
 'The tests look at each state once, right after producing it, so caches, lazily created parts and side effects of reading never show.',
 [D,S]+B,[('lazy creation of nodes',B[0]+': _init_new (and the other backends)'),('flags, trees and validation',D+': empty, complete, data_tree, node_tree, validate'),('hashes',S+': SchemaNode.hash, to_dict, to_json')],['values, empty, complete, data_tree(), validate(), hash(), saved file'])
p('I29','Storages and nodes are independent of each other',
 'Operations on one storage have no effect on any other storage, even if both were created from the same schema object, one was copied or loaded from the other, or both use the same backend: each behaves as if it was used alone, also after the other is closed. Nodes that use the same schema node in several places of a tree are independent in the same way, and a copy and its original can be changed independently.',
 ['histories','inputs'],'interleaved operations with arbitrary values on two storages of any two backends; trees that use a schema node several times; copies of leaves, items, lists and trees',
 'The tests use one storage at a time, so state shared between objects (class attributes, default arguments, aliased arrays or schema nodes) never shows.',
 [D,S]+B,[('creation of sub-nodes',D+': Compilation.__init__, List.append, data_node_from_schema'),('copies',D+': load_from of the node classes; '+B[0]+' (and the other backends): replace')],['values, flags, data_tree() and validity of the untouched storage or node'])
with open('properties.jsonl','w') as f:
    for x in P:
        assert x['statement'].count('. ')<=2,x['id']
        assert len(x['title'])<=80,x['title']; f.write(json.dumps(x)+'\n')
print(len(P))
