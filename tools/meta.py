#!/opt/venv/bin/python
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, S, I, C, N, R = ('oelint_parser/' + x for x in ('parser.py', 'cls_stash.py', 'cls_item.py', 'constants.py', 'inlinerep.py', 'rpl_regex.py'))
PROPS = []


def prop(id_, title, statement, over, quant, why, files, mechanism, observe, technique, note, state=()):
    PROPS.append({
        'meta': {'id': id_, 'title': title, 'statement': statement,
                 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
                 'anchors': {'files': files,
                             'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                             'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                             'observe_at': observe, 'hook_needed': None}},
        'technique': technique, 'note': note})


prop('C01', 'Parsing is a lossless segmentation of the file',
     'For every text file added to a stash, the raw texts of the items made from that file, in the order they are returned, concatenate to exactly the content of the file (with line endings normalised to \\n). No character is lost, duplicated, reordered or invented, whatever the file contains.',
     ['inputs'], 'all file contents: well formed metadata, malformed text, unterminated bodies and continuations, odd control and unicode characters, any line ending',
     'Tests pin the raw text of a few dozen statements; the guarantee is over every combination of statements, including malformed ones.',
     [P], [('continuation, body and comment collectors that swallow several physical lines', P + ': prepare_lines_subparser, prepare_lines'), ('real_raw attribute of every item', P + ': get_items')],
     ['Stash.AddFile result: Item.RealRaw'],
     'runtime monitor: conservation oracle over generated, mutated and hostile files',
     'Every executed case is compared character by character with the file; inputs are sampled from grammar, mutation and token-soup generators.')

prop('C02', 'Every item knows the file and the line it came from',
     'Each item reports as origin the absolute path of the file it was written in, as in-file line the 1-based number of its first physical line in that file, and as overall line a number never below the line at which its file was entered; its raw text equals the text found in that file at that line. This holds across includes, classes and appends.',
     ['inputs', 'configurations'], 'all layers of recipes, appends, includes and classes with statements of any length',
     'Tests check lines of single statements in a handful of files, not the arithmetic over multi-line statements and nested files.',
     [P, S], [('line counters and include offsets', P + ': prepare_lines_subparser, get_items'), ('bbappend offsets', S + ': Stash.AddFile')],
     ['Item.Origin', 'Item.InFileLine', 'Item.Line', 'Item.RealRaw'],
     'runtime monitor: provenance oracle re-reading the files the items claim to come from',
     'Compares each observed item with the file system; layers are randomly generated.')

prop('C03', 'Any text can be parsed and queried without failure',
     'Adding any readable or unreadable, complete or truncated file, however malformed its text, never raises and never hangs, and afterwards every query of the stash and every accessor of every item can be used without an exception. The time needed stays bounded.',
     ['inputs', 'fault_sequences'], 'arbitrary text, truncation at any character, circular and missing includes, directories in place of files',
     'Unit tests feed well formed input; totality is a statement about all inputs.',
     [P, S, I, N], [('iteration over physical lines', P + ': prepare_lines_subparser'), ('timeout guarded regex', R + ': RegexRpl'), ('accessors splitting raw values', I)],
     ['Stash.AddFile', 'Stash.Finalize', 'all public queries and accessors'],
     'runtime monitor: exception and bounded-progress monitor under hostile input, truncation at every point and token soup',
     'An uncaught exception or more than 60 s CPU in one tiny case counts as a violation; inputs are sampled.')

prop('C04', 'Variable assignments are understood as written',
     'Every variable assignment is reported as a variable with exactly the name, overrides and operations, operator, value and list of words that were written, independent of blanks around the operator, continuation lines and the override syntax in use.',
     ['inputs'], 'all names, override chains, the eight assignment operators, values with quotes, comment characters, brackets and keywords of other statements, one or many lines, both syntaxes',
     'The existing tests sample names, operators and spacing but not their product.',
     [P, I], [('variable pattern and precedence of patterns', P + ': get_items'), ('name splitting', I + ': Item.extract_sub'), ('value access', I + ': Variable')],
     ['Variable attributes and accessors'],
     'runtime monitor: differential oracle against ground truth known by construction of the statement',
     'The generator builds text and expected meaning together, so the oracle does not parse.')

prop('C05', 'Functions and python blocks are understood as written',
     'Every shell task, python task, anonymous python function and python definition is reported as one item of the right kind, with the name, overrides, python and fakeroot marking and the body that was written; a body never leaks into the following statements and never swallows them.',
     ['inputs'], 'all function heads (python, fakeroot, anonymous, overrides) and bodies with here documents, braces, quotes, comments, continuation lines and text that looks like other statements',
     'Tests use a small number of bodies; where a body ends depends on its text.',
     [P, I], [('function body collector', P + ': prepare_lines_subparser'), ('function pattern', P + ': get_items'), ('body access', I + ': Function, PythonBlock')],
     ['Function and PythonBlock attributes and accessors'],
     'runtime monitor: differential oracle against ground truth known by construction of the statement',
     'The generator builds text and expected meaning together. Bodies with unbalanced closing braces in column 0 are excluded (documented limit).')

prop('C06', 'Directives are understood as written',
     'Every inherit, INHERIT, include, require, include_all, export, addtask, deltask, unset, flag assignment, EXPORT_FUNCTIONS, addpylib and addfragments statement and every comment is reported as one item of the right kind whose operands are exactly those written, in order, whatever blanks, order of clauses or names are used.',
     ['inputs'], 'all operand lists, blanks, indentation, orders of before/after clauses, names with characters such as + . - / ~ @ and values containing keywords',
     'Tests cover one or two spellings per directive.',
     [P, I], [('ordered pattern table', P + ': get_items'), ('directive items', I)],
     ['attributes and get_items() of the directive items'],
     'runtime monitor: differential oracle against ground truth known by construction of the statement',
     'The generator builds text and expected meaning together.')

prop('C07', 'A statement means the same whatever surrounds it',
     'A statement is turned into the same item (all attributes other than line numbers) whether it stands alone in a file or between any other complete statements or lines of malformed text. In particular an unrecognisable line never changes how its neighbours are understood.',
     ['inputs', 'programs'], 'all sequences of complete statements and malformed single lines',
     'Tests parse statements mostly in isolation; the interplay of arbitrary neighbours cannot be enumerated.',
     [P], [('line collection state', P + ': prepare_lines_subparser')],
     ['all item attributes'],
     'runtime monitor: metamorphic oracle (joint file against single files)',
     'Only compares the code with itself under a context change; absolute meaning is decided by C04 to C06.')

prop('C08', 'Line continuations are layout only',
     'Breaking a statement over several physical lines with trailing backslashes, re-indenting the continued lines or joining them again does not change what the statement is, nor its operands, words or flags; a continued statement is reported as multi-line.',
     ['inputs'], 'all statements with operand lists and all sets of break points between their words',
     'Tests contain a few continued values; break points and statement kinds multiply.',
     [P, I], [('continuation collector and \\x1b marker', P + ': prepare_lines_subparser'), ('word splitting', I + ': Item.safe_linesplit')],
     ['get_items(), FuncName, Before, After, IsMultiLine'],
     'runtime monitor: metamorphic oracle (broken statement against joined statement)',
     'Break points are sampled between the words of generated statements.')

prop('C09', 'The override syntax in use is recognised per file and never mixes',
     'A file that uses the colon or the underscore override syntax yields the same names, overrides and operations as its transliteration into the other syntax, and the delimiter reported for an item is the one in use. Detection depends on the statements of the file (or the enforced setting), not on values, comments or bodies.',
     ['inputs', 'configurations'], 'all files in either syntax, with and without the enforced new syntax',
     'Tests check detection for isolated statements.',
     [P, I], [('per file detection of the syntax', P + ': get_items'), ('name splitting per syntax', I + ': Item.extract_sub, extract_sub_func')],
     ['VarName', 'SubItems', 'OverrideDelimiter', 'IsNewStyleOverrideSyntax'],
     'runtime monitor: metamorphic oracle (transliteration) plus ground truth of the override chain',
     'Transliteration is exact by construction of the generated names.')

prop('C10', 'Inline conditionals take the configured branch and stay reversible',
     'Every inline conditional of the supported forms is replaced by its first-choice branch, or by the other branch if the stash asks for the negative one; the raw text keeps the original expression, which the item also lists in order of appearance. Inline code without emulation never alters its surroundings and comes back verbatim when the value is expanded.',
     ['inputs', 'configurations'], 'all supported expressions, quote styles, blanks and argument texts, any number of blocks per value, both switch settings',
     'Tests cover one call per function.',
     [N, P, S], [('emulation table', N), ('block replacement in a value', P + ': get_items / inline handling'), ('placeholder restoration', S + ': Stash._ReverseInlineBlock')],
     ['inlinerep()', 'Variable.VarValue', 'Item.InlineBlocks', 'Stash.ExpandVar'],
     'runtime monitor: differential oracle against branches known by construction',
     'One emulated call per expression, whose arguments may be calls again; several calls combined by python operators are outside the workload.')

prop('C11', 'The negative switch only changes conditional branches',
     'Two stashes over the same files that differ only in the setting for negative inline expansion report the same items with the same origins, lines, raw texts, kinds and names; only values that contain an inline conditional may differ, and only inside the replaced blocks.',
     ['inputs', 'configurations'], 'all files with and without inline conditionals',
     'Tests compare single values.',
     [P, N, S], [('negative argument handed through the parser', P + ': get_items')],
     ['all item attributes of two runs'],
     'runtime monitor: two-run relational oracle (non-interference)',
     'Relational; the absolute branches are decided by C10.')

prop('C12', 'Terms expand to what the variables say, and expansion always ends',
     'Expanding a term replaces every reference to a variable defined for that file (also through d.getVar) by its fully expanded value, file name based variables and the built-in base set by their known values, and leaves everything else, including names to be spared, untouched. It terminates for every set of definitions, also when they refer to each other in circles.',
     ['inputs'], 'all acyclic and cyclic definition graphs, nesting depths, spare lists and term texts',
     'Tests expand a couple of fixed terms; termination is a statement about all graphs.',
     [S], [('recursive replacement with seen map', S + ': Stash.ExpandTerm')],
     ['Stash.ExpandTerm'],
     'runtime monitor: reference model of expansion on random definition graphs plus bounded-progress monitor on cyclic graphs',
     'Definitions are single plain assignments without overrides in the exact part; cyclic graphs are checked for termination, stability and untouched unrelated text.')

prop('C13', 'Variables expand according to the assignment operators',
     'The expanded value of a variable is the one bitbake\'s rules give when the statements of the recipe, its includes, classes and appends are applied in processing order: plain, immediate, default and weak default assignment, append and prepend with and without blank, then override style append, prepend and finally removal of whole words, and unset.',
     ['programs'], 'all sequences of operations on all variables, spread over a recipe and everything it pulls in',
     'Tests apply each operator once or twice; order sensitive interaction needs arbitrary sequences.',
     [S, I, P], [('operator application', S + ': Stash.ExpandVar'), ('operation detection', I + ': Variable.IsImmediateModify'), ('overall line order', P + ': get_items')],
     ['Stash.ExpandVar'],
     'runtime monitor: executable reference model of the operators run beside the code on random programs',
     'unset of variables with pending override operations, and files shared between recipes, are outside the random workload (the latter is a recorded known finding).')

prop('C14', 'Items come back in the order bitbake processes them',
     'Items returned for a recipe are ordered as bitbake would process the statements: an included file or inherited class directly after the statement that pulls it in, and bbappends after the whole recipe in the order they were added. This order does not depend on whether recipe or bbappends are added first.',
     ['histories', 'configurations'], 'all nestings of includes and classes, numbers of appends, and orders of adding files',
     'Tests use one include level and one append.',
     [P, S], [('overall line computation', P + ': get_items'), ('placing of bbappends', S + ': Stash.AddFile, GetLastLine')],
     ['Stash.GetItemsFor order', 'Item.Line'],
     'runtime monitor: ordering oracle over the recorded item sequence (processing order known by construction)',
     'Shared include files are excluded (recorded known finding of C13).')

prop('C15', 'Files are linked exactly to what they pull in',
     'After finalizing, a recipe sees the items of every include, class and append it pulls in, never those of a file it does not pull in, and with links switched off only its own; the reported links of a file and the recipes an item is said to be used by agree with that.',
     ['configurations', 'histories'], 'all include/inherit/append graphs (also circular and shared) and all orders of adding files',
     'Tests check links on one or two small trees.',
     [S, P], [('link map and finalizing', S + ': Stash.AddFile, Finalize'), ('forced links on include and inherit', P + ': get_items')],
     ['Stash.GetItemsFor', 'Stash.GetLinksForFile', 'Item.IncludedFrom'],
     'runtime monitor: graph oracle (reachability known by construction) over observed visibility',
     'Visibility over three and more hops is a recorded known finding; missing pairs at that distance are excused, unreachable files never are.')

prop('C16', 'Appends meet their recipes in whatever order they are added',
     'A bbappend applies to exactly the recipes whose name it matches, % standing for any text and all other characters for themselves; whether recipe or append is added first makes no difference, and an append is reported as lone exactly if no matching recipe is present.',
     ['inputs', 'histories'], 'all pairs of recipe and append file names and all orders of adding them',
     'Tests pair two or three names in one order.',
     [S], [('name matching and mutual registration', S + ': Stash.AddFile, _is_append_for'), ('lone appends', S + ': Stash.GetLoneAppends')],
     ['Stash.GetLoneAppends', 'Stash.GetItemsFor', 'Stash.GetRecipes'],
     'runtime monitor: name matching oracle over every order of small sets of files',
     'All add orders of up to four files are enumerated, names are sampled.')

prop('C17', 'Queries return exactly the matching items, once, in order',
     'A query for items with any combination of file, kinds, attribute names, attribute values and link setting returns exactly the items of the stash that satisfy all given criteria, each once, sorted by overall line; filtering an already retrieved list gives the same as filtering at once.',
     ['inputs', 'histories'], 'all stashes and all combinations of criteria given singly or as list, set or tuple',
     'Tests use fixed criteria over tiny files.',
     [S], [('filter pipeline', S + ': Stash.Reduce, GetItemsFor, StashList.reduce')],
     ['Stash.GetItemsFor', 'Stash.Reduce', 'StashList.reduce'],
     'runtime monitor: brute force filter over the complete item list run beside each query',
     'Criteria are sampled from the attributes present and absent.')

prop('C18', 'Answers never depend on earlier questions',
     'At every point of any history of adding files, adding or removing items, finalizing and querying, each query answers as if it were the first one ever asked: the same as on a stash that went through the same additions and removals without any query in between. No change is ever masked by a remembered answer.',
     ['histories'], 'all interleavings of modifying calls and queries',
     'Tests build a stash, then ask; stale memory needs ask, change, ask again.',
     [S], [('memoised queries and their reset', S + ': Stash._clear_cached and functools.cache')],
     ['all public queries of Stash'],
     'runtime monitor: history replay oracle (interleaved run against a run without earlier queries)',
     'The file system does not change during a history.')

prop('C19', 'Stashes and callers cannot disturb each other',
     'Lists and dictionaries handed out by a stash can be modified by the caller without changing what the stash answers later, and work on one stash never changes what another stash over other files reports.',
     ['histories'], 'all interleavings of calls on two stashes and of caller side modification of results',
     'Tests use one stash and never modify results.',
     [S, I], [('memoised results handed to callers', S), ('per instance state', S + ': Stash.__init__')],
     ['all public queries of Stash'],
     'runtime monitor: fault injection on returned containers, then comparison with a stash left alone',
     'Process wide constants are shared by design (machines and distros of a layer become known to all stashes), so the comparison uses stashes over layers without such configuration.')

prop('C20', 'The result is a function of the input',
     'The same files added in the same order give the same items, the same answers in the same order and the same fingerprint in every process, whatever the hash seed, the working directory, the locale and earlier runs.',
     ['configurations', 'schedules'], 'all inputs, hash seeds, working directories, locales',
     'A test runs in one process with one hash seed.',
     [S, I, P, C], [('ordered result lists', S), ('fingerprint', S + ': Stash.AddFile, FingerPrint'), ('text form of an item', I + ': Item.__repr__')],
     ['all public queries', 'Stash.FingerPrint'],
     'runtime monitor: multi-process differential run under different hash seeds and working directories',
     'Compares complete transcripts of several interpreter processes.')

prop('C21', 'The fingerprint tells different content apart',
     'Two stashes with the same files added in the same way and the same settings have the same fingerprint; if any statement, value, name, line or setting differs, the fingerprints differ.',
     ['inputs', 'histories'], 'all pairs of equal or minimally different inputs and settings',
     'Tests check a single pair.',
     [S, I], [('incremental hash over all items', S + ': Stash.AddFile'), ('text form of an item', I + ': Item.__repr__')],
     ['Stash.FingerPrint'],
     'runtime monitor: sensitivity oracle under single-edit mutation of the input',
     'Assumes SHA1 has no accidental collisions.')

prop('C22', 'Includes and classes are resolved like bitbake resolves them',
     'An included file is looked up next to the including file first and in the root of the layer second; a class is looked up in the class directories of the layer in their documented order; whatever cannot be found is reported as a plain statement with an empty path and is not parsed; ignored classes and includes are never parsed. The layer root is the nearest directory upwards with a layer configuration.',
     ['configurations', 'inputs'], 'all layouts of directories, duplicates of a name in several places, missing files and ignore lists',
     'Tests contain one layout.',
     [S, P], [('path lookup', S + ': Stash.FindLocalOrLayer, GetLayerRoot'), ('class and include resolution', P + ': get_items')],
     ['Include.FileIncluded', 'Inherit.FilePaths', 'Stash.GetLayerRoot', 'Stash.FindLocalOrLayer', 'origins of all items'],
     'runtime monitor: path resolution oracle over random directory layouts',
     'Layouts contain decoys for each lookup step.')

prop('C23', 'Parsing is passive',
     'Whatever the metadata contains, parsing and querying only ever reads files: no process is started, no code from the metadata is run, nothing is written, deleted or sent, and the only files opened are the added ones, those they include or inherit, and files the metadata asks to be read as value.',
     ['inputs', 'programs'], 'all metadata, including inline python, anonymous functions and shell bodies with harmful commands',
     'Tests look at results, not at side effects.',
     [P, S, N], [('inline code is pattern matched, not evaluated', N), ('file access', P + ': prepare_lines_subparser; ' + S + ': ExpandTerm')],
     ['interpreter audit events'],
     'runtime monitor: interpreter audit hook watching every open, exec, import, process, socket and file operation',
     'Relies on the completeness of the audit events of CPython; the code under test is pure python.')

prop('C24', 'Constants are changed exactly as asked, and by nobody else',
     'Adding, removing and overriding constants changes exactly the named entries: lists are extended, reduced or replaced, dictionaries are merged entry by entry, other values are set or taken out, and everything else stays. Neither the given data nor other sets of constants are altered or shared, and every named list is the entry at its documented path.',
     ['histories', 'inputs'], 'all sequences of add, remove and override operations with nested dictionaries and lists on several sets of constants',
     'Tests perform one operation each.',
     [C], [('merge functions', C + ': Constants')],
     ['Constants properties and GetByPath'],
     'runtime monitor: reference model (pure functional merge) run beside random operation sequences',
     'Only list, dictionary and scalar leaves of matching type are used; adding to an existing scalar is left out.')

prop('C25', 'Regular expressions are guarded against runaway matching',
     'Guarded regular expression calls give the same answer as the regular expression library, and if matching takes longer than the given time they return the default instead of raising or hanging. All matching against text from metadata is guarded this way.',
     ['inputs', 'fault_sequences'], 'all patterns, texts, flags and time limits, including patterns that backtrack exponentially',
     'Tests call each function once with simple input.',
     [R], [('timeout argument and default', R + ': RegexRpl')],
     ['RegexRpl functions', 'calls into the regex library'],
     'runtime monitor: differential run against the regex library, timeout injection, and interception of all library calls',
     'Timeouts are provoked with patterns known to backtrack for seconds.')

prop('C26', 'Source URIs are taken apart correctly',
     'A source URI yields its scheme, its location and path and all its options with their complete values, and the named resources of a recipe are its own name plus all names given in its source URIs.',
     ['inputs'], 'all schemes, hosts, ports, users, paths and option lists, spread over any number of assignments, appends and lines',
     'Tests use about a dozen URIs.',
     [S], [('URI splitting', S + ': Stash.GetScrComponents'), ('resource names', S + ': Stash.GetValidNamedResources')],
     ['Stash.GetScrComponents', 'Stash.GetValidNamedResources'],
     'runtime monitor: differential oracle against components known by construction',
     'URIs are assembled from components.')

prop('C27', 'Name and version are derived from the file name consistently',
     'For every recipe file name the reported recipe name is the part in front of the first underscore, the version the part between the first and the second underscore, and the base name the recipe name without its native or cross suffix and nativesdk prefix; all places that use PN, PV or BPN agree on them.',
     ['inputs'], 'all recipe and append file names',
     'Tests use about five names.',
     [S], [('file name splitting', S + ': Stash.GuessRecipeName, GuessBaseRecipeName, GuessRecipeVersion')],
     ['Stash.Guess*', 'Stash.ExpandTerm', 'Stash.ExpandVar', 'Stash.GetValidPackageNames'],
     'runtime monitor: differential oracle against name parts known by construction, and agreement of all observers',
     'File names are assembled from parts.')

prop('C28', 'Package knowledge of a recipe is complete',
     'The valid package names of a recipe are the standard ones for its name plus every package its package lists add anywhere, expanded; a recipe counts as image or package group exactly if it says so by class or variable anywhere it pulls in, and a name counts as dynamic package exactly if a pattern of the recipe matches it.',
     ['inputs', 'configurations'], 'all sets of package lists, classes, image variables and dynamic patterns over recipe, includes and appends',
     'Tests use single statements.',
     [S], [('package names', S + ': Stash.GetValidPackageNames'), ('classification', S + ': Stash.IsImage, IsPackageGroup, GetPackagesDynamic, IsDynamicPackage')],
     ['the package related queries of Stash'],
     'runtime monitor: differential oracle against packages known by construction',
     'Package lists are assembled from parts.')

prop('C29', 'The views an item gives of itself agree',
     'All names, overrides and values an item reports are consistent with each other and with its raw text: complete names are base name plus overrides in order, names without operations are the complete ones without append, prepend and remove, stripped values are the raw value without quotes, predicates follow from operator and overrides, machine, distro and class overrides are entries of the override list, and the attribute names a kind of item publishes (ATTR_...) name attributes it has and select its items.',
     ['inputs'], 'all items of all files, well formed or not',
     'Tests check one accessor at a time on fixed statements.',
     [I], [('accessors', I)],
     ['all attributes and accessors of items'],
     'runtime monitor: invariant assertions over every item observed',
     'Checks relations between observations, also on malformed input.')

prop('C30', 'Result lists behave like lists',
     'A list of items returned by a query supports every operation of a Python list with the same result, keeps its ability to be filtered after copying, slicing, concatenating and repeating, and additionally accepts lists of items where one item may be added or removed.',
     ['histories'], 'all sequences of list operations',
     'Tests call each operation once.',
     [S], [('list class', S + ': Stash.StashList')],
     ['StashList'],
     'runtime monitor: plain Python list run beside random operation sequences',
     'The reference is the built-in list.')

prop('C31', 'Machines and distros of a layer are recognised',
     'After a file of a layer was added, the known machines and distros are the shipped ones plus exactly those configured in the layers of the files added so far. The distro entry of an item is its first override that is a known distro, the machine entry its first override that is neither an operation nor a class, and the class entry its class override; without such an override the entry is empty.',
     ['configurations', 'inputs'], 'all layers with machine and distro configurations and all override lists',
     'Tests use the built-in lists.',
     [S, I, C], [('registration from the layer', S + ': Stash.AddDistroMachineFromLayer'), ('lookup in overrides', I + ': Variable.GetDistroEntry, GetMachineEntry')],
     ['Variable.GetDistroEntry', 'Variable.GetMachineEntry', 'CONSTANTS'],
     'runtime monitor: differential oracle against configured names known by construction',
     'Layers and names are assembled from parts.')

prop('C32', 'Local source files are found',
     'Asked for the local files of a recipe by pattern, a stash returns exactly the files with a matching name in the direct subdirectories of the directories of all files that set SRC_URI for that recipe (and, if the recipe sets it itself, of everything it pulls in), sorted and without repetition, whatever the names of the directories are.',
     ['configurations', 'inputs'], 'all directory trees, names with blanks, brackets and pattern characters, and placements of SRC_URI over recipe, includes, classes and appends',
     'Tests use one tree with one file.',
     [S], [('search below the directories of files with SRC_URI', S + ': Stash.GetFiles')],
     ['Stash.GetFiles'],
     'runtime monitor: directory walk oracle over random trees',
     'Trees are two to three levels deep.')

prop('C33', 'Using the library leaves the process as it was',
     'Creating stashes, parsing, querying and finalizing leave the process as they found it, also when files cannot be read: no file stays open, working directory, environment, import path, recursion limit, signal handling, random state, locale, warnings, streams and threads are unchanged. A quiet stash prints nothing, any other announces each parsing of a file by exactly one line, in the order in which parsing begins, and stashes nobody uses any more are not kept in memory once another one was created.',
     ['histories', 'fault_sequences'], 'all layers, settings, read faults and sequences of calls',
     'Tests never look at the process around the library.',
     [S, P], [('announcement of files', S + ': Stash.AddFile'), ('reading of files', P + ': get_items'), ('remembered answers', S + ': functools.cache on methods')],
     ['Stash.__init__', 'Stash.AddFile', 'all queries'],
     'runtime monitor: picture of the process before and after, recorded output streams, weak references, injected read faults',
     'Faults are injected at the opening and reading of files only.')

prop('C34', 'A recipe is unaffected by unrelated files',
     'What a stash reports about a recipe, its includes, classes and appends (items, their order, links, expansions, packages, names, files) does not depend on which files not related to it are in the same stash, in which order they were added or what they contain.',
     ['inputs', 'histories'], 'all layers and all further files of arbitrary content, added before, between or after',
     'Tests hold one recipe per stash.',
     [S], [('matching and shifting of appends', S + ': Stash.AddFile'), ('links', S + ': Stash.Finalize'), ('collection of items', S + ': Stash.GetItemsFor, ExpandVar, GetFiles')],
     ['Stash.AddFile', 'Stash.Finalize', 'all queries naming a file'],
     'runtime monitor: metamorphic oracle, the same questions asked of the group of files alone and in company',
     'Machines and distros are shared by all files by design and not compared; groups in which an append shares a file with others are compared by the known findings only.')

prop('C35', 'Stashes in parallel threads do not disturb each other',
     'Stashes that are filled, queried and finalized in several threads at the same time, each thread having its own, give exactly the answers they give one after the other, for every interleaving of the threads.',
     ['schedules'], 'all interleavings of up to four threads',
     'Tests use one thread.',
     [S, P, I, R], [('remembered answers shared by all stashes', S + ': functools.cache on methods, Stash._clear_cached'), ('module level state', P + ', ' + I)],
     ['Stash.AddFile', 'Stash.Finalize', 'all queries'],
     'runtime monitor: schedule perturbation through sys.monitoring and switch interval, differential oracle against the sequential run',
     'Interleavings are sampled at bytecode granularity of one interpreter with its global lock.')

prop('C36', 'Items can be edited and written back',
     'Setting the text, value, body, line or users of an item changes exactly that and what is derived from it, of this item only, and expanding variables and terms takes the new values into account. The raw texts of the items of a file, some of which were replaced, joined together are exactly the file with those statements replaced.',
     ['histories', 'inputs'], 'all layers and sequences of edits through the setters of items',
     'Tests set one value of one item.',
     [I, S], [('setters', I + ': Item.Raw, RealRaw, Line, IncludedFrom, Variable.VarValue, Function.FuncBody'), ('expansion from items', S + ': Stash.ExpandVar, ExpandTerm')],
     ['setters and getters of items', 'Stash.ExpandVar', 'Stash.ExpandTerm'],
     'runtime monitor: frame condition over all attributes of all items, differential oracle against a stash over the edited files',
     'Names and overrides have no setters.')

prop('C37', 'Comments, blank lines and line ends carry no meaning',
     'Inserting or removing comments and blank lines between the statements of any file, using another kind of line end or leaving out the last one changes nothing but comments, blank lines and line numbers: all other items, their order, origin and attributes, links, expansions, package knowledge and files of every recipe stay as they are.',
     ['inputs', 'configurations'], 'all layers and all ways to insert or remove comments (with any text) and blank lines and to choose line ends per file or line',
     'Tests have comments at a few places; that none ever interferes with continuation, bodies, includes, offsets or expansion is a statement about all combinations.',
     [P, S], [('collectors of comments and bodies', P + ': prepare_lines_subparser'), ('line arithmetic over files', P + ': get_items'), ('ordering and expansion', S + ': Reduce, ExpandVar')],
     ['all public queries', 'attributes of items'],
     'runtime monitor: metamorphic oracle between two executions over layers differing in layout only',
     'Comments ending in a backslash, which continue, and files without any statement are left out.')

prop('C38', 'The parts of a recipe mean what they mean written in one file',
     'A recipe spread over includes, classes and appends gives the same statements in the same order, the same expanded variables and terms, packages, resources, marks and dynamic patterns as one file in which include statements are replaced by the included text, inherited classes follow their statement and appends follow the recipe.',
     ['inputs', 'configurations', 'histories'], 'all recipes with includes, classes and appends up to two steps away, and all orders of adding recipe and appends',
     'Tests check single relations between two files; equivalence with the merged file ties parser, linking, ordering and expansion together.',
     [P, S], [('parsing of included files in place', P + ': get_items'), ('offsets, appends and links', S + ': Stash.AddFile, Finalize'), ('evaluation in order of overall lines', S + ': ExpandVar')],
     ['Stash.GetItemsFor', 'Stash.ExpandVar', 'Stash.ExpandTerm', 'package queries'],
     'runtime monitor: metamorphic oracle between the execution over the parts and the one over the merged file',
     'Deeper nesting is subject to the known finding link-depth of C15, parts shared by recipe and append to those of C13 and C14.')

prop('C39', 'Where a layer lives does not matter',
     'Apart from the path itself, every answer about a layer is the same wherever its directory is, whatever the names of the directories above it are, whether it is reached by symbolic links and by which spelling of their paths its files are added.',
     ['configurations', 'inputs'], 'all directory names (blanks, pattern, quote and control characters, names of layer parts or metadata files), depths, symbolic links and spellings of paths',
     'Tests run in one plain temporary directory.',
     [S, P, I], [('path handling', S + ': AddFile, FindLocalOrLayer, GetLayerRoot, GetFiles, AddDistroMachineFromLayer, Guess*'), ('IsFromClass, IsFromAppend', I + ': Item'), ('include and class lookup', P + ': get_items')],
     ['all public queries', 'attributes of items', 'CONSTANTS.MachinesKnown, DistrosKnown'],
     'runtime monitor: metamorphic oracle between two executions over the same layer in different places',
     'Values naming the place are compared after taking it out; they are not used where the place would be split into words.')
prop('C40', 'Names without a special meaning are interchangeable',
     'Giving variables, overrides, functions, flags, classes, includes, recipes, packages, resources, tasks and words of values other names throughout a layer changes nothing in any answer but these names, whatever valid names are chosen: parts of each other, close to key words or special variables, with any allowed character.',
     ['inputs', 'configurations'], 'all valid names without a meaning of their own (not those bitbake or the shipped constants give a meaning), consistently replaced',
     'Tests use a handful of names; substring matching, name patterns and special cases show only with others.',
     [S, P, I], [('matching and expansion by name', S + ': GetItemsFor, ExpandVar, ExpandTerm, GetValidPackageNames, _is_append_for'), ('patterns of statements', P + ': __regex_*, get_items'), ('splitting of names', I + ': extract_sub, extract_sub_func')],
     ['all public queries', 'attributes of items'],
     'runtime monitor: metamorphic oracle between two executions over the same layer with place holders and with names put in',
     'Names are distinct per kind; names bitbake or the shipped constants give a meaning are not used. New override syntax only.')


def main():
    checks, na = [], []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as out:
        for p in PROPS:
            m = p['meta']
            out.write(json.dumps(m, ensure_ascii=True) + '\n')
            if os.path.exists(os.path.join(VERIF, 'mon', 'checks', m['id'].lower() + '.py')):
                cmd = '/opt/venv/bin/python run.py {} --tier '.format(m['id'])
                checks.append({'property': m['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                               'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
            else:
                na.append({'property': m['id'], 'reason': 'check not built yet'})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as out:
        json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/selftest.py', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: the monitors use the public API, sys.monitoring and sys.addaudithook.'}, out, indent=1)
        out.write('\n')


if __name__ == '__main__':
    main()
