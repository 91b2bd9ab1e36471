import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Dictionaries behave as string-keyed maps under any operation history",
 "Whatever sequence of operations is applied to a dictionary of any of the available flavours (generic, JSON, YAML, HCL, XML), what can be read from it (membership, single and multiple lookups, defaults, length, keys and values in alphabetical key order) equals what an ordinary map with stringified keys would hold after the same sequence. Setting replaces, adding to an existing key accumulates the values into a list, deleting requires the keys to exist, and flush, pop, omit, clone, transpose change or return exactly the entries they name.",
 ["histories","inputs"],"All sequences of set/add/get/has/default/delete/flush/pop/omit/clone/transpose with keys and values of mixed types, on the five dictionary implementations.",
 "The unit tests run one operation on a fixed three-entry fixture; no test composes operations, uses non-string or missing keys together, or compares the five generated implementations on the same history.",
 ["collections/implementation/dict_helper.go","collections/implementation/generic.go","json/generated_impl.go","yaml/generated_impl.go","hcl/generated_impl.go","xml/generated_impl.go"],
 [("one shared helper implements every operation for all flavours","collections/implementation/dict_helper.go DictHelper"),("flavour wrappers generated from one template","*/generated_impl.go")],
 ["public dictionary interface of the collections package"],[("dictionary","map from stringified key to converted value","the map behind each flavour's dictionary type")])
p("C02","Lists behave as sequences under any operation history",
 "Whatever sequence of operations is applied to a list of any flavour (generic, JSON, YAML, HCL, XML), every result (append, prepend, set, negative and out-of-range access, remove, pop, reverse, unique, union, intersection, difference, search, strings and join) is the one an ordinary sequence model gives. Operations documented as returning a new list or a copy leave the list they were called on, the arguments, and every list obtained earlier unchanged.",
 ["histories","inputs"],"All sequences of list operations with values of mixed types including nested lists and nil, on the five list implementations, with every earlier result kept alive and re-read.",
 "Tests check each operation once on a tiny fixture and never look again at a list after another list was derived from it, so sharing of the underlying storage is invisible to them.",
 ["collections/implementation/list_helper.go","collections/implementation/generic.go","collections/generic_list.go"],
 [("shared list helper","collections/implementation/list_helper.go ListHelper"),("copy before modification","ListHelper.Add, Remove, Reverse, Unique")],
 ["public list interface of the collections package"])
p("C03","Deep merge gives precedence to the first dictionary and spares the others",
 "Merging dictionaries yields, at every nesting level, the value of the first dictionary that defines the key, with nested dictionaries merged recursively and anything else taken whole. The dictionaries given as sources are not altered by the merge, by the template function, by the library call that merges plain maps, nor by adding values to a template context.",
 ["inputs"],"All lists of two to five nested dictionaries with overlapping keys and values of mixed types, through the dictionary method, the template function and the map helper.",
 "Existing tests merge two or three fixed dictionaries and only look at the merged value, not at the inputs, and never at three overlapping nested levels.",
 ["collections/implementation/dict_helper.go","utils/reflect.go","template/extra_data.go","template/template.go"],
 [("recursive merge with target precedence","collections/implementation/dict_helper.go Merge/deepMerge"),("plain map helper","utils/reflect.go MergeDictionaries")],
 ["merged value and every input after the merge"])
p("C04","Rendering is isolated: same input, same output, caller data untouched",
 "Rendering content is a function of the content and the context: rendering the same content again with the same template object, or with a fresh one, gives the same text. It never changes the data the caller supplied as context, at any depth and inside lists too, and variables or context values set by one rendered content are not visible to the next one; a cloned collection shares nothing with its original.",
 ["programs","histories"],"All generated templates that read and mutate context values at any depth, rendered repeatedly and in any order on one template object.",
 "Tests render each template once on a fresh object and do not look at the context afterwards.",
 ["template/template_handler.go","template/template.go","collections/implementation/dict_helper.go","collections/implementation/list_helper.go"],
 [("the context is cloned before each top level rendering","template/template_handler.go"),("deep clone of dictionaries and lists","collections/implementation DictHelper.Clone, ListHelper.Clone")],
 ["rendered text and caller's context after rendering"])
p("C05","JSON, YAML and HCL conversions round-trip data without loss",
 "Converting any value made of maps, lists, strings, numbers, booleans to JSON or YAML and back, or to HCL within what HCL can express, gives the same value; compact, pretty and quoted forms denote the same data, and standard third-party decoders read the same value from the text. Loading data text of any of the three formats through the format-guessing conversion gives the value its own format's reader gives.",
 ["inputs"],"All nested values with arbitrary Unicode strings, 64-bit integers and finite floats, through every to/from function of the three formats and the format-guessing conversion.",
 "Tests convert a dozen fixed documents; strings with tabs, quotes, numbers-as-strings, nulls, large numbers and deep nesting are not explored.",
 ["json/json.go","yaml/yaml.go","hcl/hcl.go","hcl/utilities.go","collections/convert_data.go","template/extra_data.go"],
 [("format marshallers over native values","json/yaml/hcl Marshal*"),("ordered trial of readers","collections/convert_data.go ConvertData")],
 ["text produced and value read back"])
p("C06","Native conversion turns any value into plain maps, lists and scalars",
 "Converting any Go value (scalars, pointers, arrays, maps with any key type, collections of any flavour, structs with tags) to its native form gives only string-keyed maps, lists and scalars with the same content, and converting again changes nothing. For structs the result follows the field tags the way the standard JSON encoder does (renaming, skipping, omission of empty values, where an empty structure counts as empty too), plus inlining of the fields tagged so, and unexported fields never appear.",
 ["inputs"],"All generated nested values, including collections mixing flavours, and struct types built with random tags and field values.",
 "Tests convert a handful of literal structs; combinations of tags, kinds and nesting are not sampled.",
 ["collections/convert_data.go","collections/utils.go"],
 [("recursive conversion by reflected kind","collections/convert_data.go MarshalGo")],["native conversion result"])
p("C07","Bash export evaluates in a shell to the exported values",
 "Text produced by the bash export of a dictionary whose keys are shell identifiers, when evaluated by bash, defines for each key a variable holding exactly the text of the original value: a string for scalars, an array for lists of scalars, an associative array for nested dictionaries of scalars. Characters special to the shell in the values are taken literally, so nothing is expanded, executed or lost.",
 ["inputs"],"All dictionaries of scalars, lists of scalars and dictionaries of scalars, with printable text including quotes, dollar signs, backticks, backslashes, spaces and newlines.",
 "Tests compare the text of one fixed export and never run a shell on it.",
 ["collections/convert_data.go"],[("quoting of values that need it","collections/convert_data.go ToBash/quote")],["variables seen by a real bash after evaluating the text"])
p("C08","Arithmetic and bit functions compute the mathematical value",
 "The arithmetic, comparison-selecting, statistical, rounding, exponent, trigonometric, number-base and bit functions available in templates return the mathematically correct value for their arguments, whether these are integers, floats or numeric strings: integral results print as integers, others as floats, and a result outside the integer range is never reported as a wrong number. Computations are made in double precision, bit and base functions take 64-bit integers (the bits a left shift moves beyond are lost, a right shift keeps the sign). Functions that accept a list together with scalars apply element by element in order. Division by zero and non numeric arguments are reported as errors, apart from the documented uses of texts (adding, repeating and comparing them) and the remainders by zero, which give NaN.",
 ["inputs"],"All functions of the mathematics families over random ints, floats, numeric strings and lists of them.",
 "Tests check a few literal calls per function; large magnitudes, negative values, string arguments and broadcasting are not covered.",
 ["template/extra_math.go","template/math_base.go","template/math_bits.go","template/math_utilities.go","template/math_stats.go","template/math_trig.go"],
 [("conversion of arguments then float64 or int64 computation","template/math_utilities.go"),("broadcasting over lists","template/math_base.go")],["rendered result of each function call"])
p("C09","Numeric ranges contain exactly the requested numbers",
 "The sequence generators (until and to families, ascending or descending, with default, integer, fractional or wrong-signed step) return exactly the numbers between start and stop separated by the step, in the direction from start to stop, stop excluded for the until family and included for the to family when it is reachable. They always terminate and refuse a zero step.",
 ["inputs"],"All start/stop/step triples of integers and of decimal fractions, in one, two and three argument form.",
 "Tests list about ten literal ranges.",
 ["template/extra_math.go","template/math_utilities.go"],[("array generation","template/math_utilities.go generateNumericArray")],["generated list"])
p("C10","Indexing, slicing and extraction follow one consistent rule",
 "Indexing, slicing and extracting from lists, strings and maps, written as functions or as bracket expressions, follow one rule: negative positions count from the end (as a slice bound, -1 is the end itself, so a slice from 1 to -1 drops the first element), slice bounds outside the value are clamped, a slice whose end precedes its start is returned reversed, extraction returns the requested elements in the requested order, and maps are sliced by inclusive key range in key order. Positions in a text are byte positions and a position outside the value is an error when indexing or extracting. First, last, rest and initial agree with that rule, safe indexing gives the default for any position that is negative or too large, and the source value is never modified, nor by altering the list obtained from it by a slice or an extraction of several elements.",
 ["inputs"],"All lists, strings and maps with all integer bounds, negative, omitted and out of range included, in function and bracket form.",
 "Tests cover a fixed list with a few literal bounds.",
 ["template/slice.go","template/razor_repl_expr.go","template/extra_data.go"],[("generic slicing","template/slice.go sliceInternal"),("bracket rewriting","template/razor_repl_expr.go indexExpression")],["rendered slices"])
p("C11","Text functions and string methods match their reference semantics",
 "The string class and string array methods that mirror the standard string functions return what these return, for any text; line operations (splitting, joining, indenting, removing indentation, numbering, positions and surrounding context) are mutually consistent and keep every character, multi-byte ones included. Protecting quoted strings then restoring them gives the original text back, and wrapping or centring text only changes white space and respects the requested width (when wrapping, a line may exceed it by its first separator, and lines are broken only where the next word does not fit).",
 ["inputs"],"All valid UTF-8 texts mixing ASCII, accents, wide characters, quotes, tabs and line breaks, and all separators and widths.",
 "Tests use short ASCII literals for a subset of methods.",
 ["collections/string.go","collections/string_util.go","collections/string_array.go"],[("string wrappers","collections/string.go"),("line and wrap utilities","collections/string_util.go")],["method results"])
p("C12","Text that is not template code passes through byte for byte",
 "Rendering text that contains no template delimiter returns the same text, byte for byte, whatever characters and line endings it has. The same holds for any text carrying the marker that disables templating, for the lines from a pause marker to the corresponding resume marker (or to the end), and when razor is disabled (by marker, by razor pause, or by option) razor-like text is left as is while ordinary template actions are still evaluated. The only marks processed in such texts are a line made of #! alone, the internal !Q! quotes and a first line calling gotemplate as interpreter.",
 ["inputs","configurations"],"All texts without delimiters, and all texts with code embedded in disabled regions, under any combination of the markers and options.",
 "Tests render a few literal documents.",
 ["template/template_handler.go","template/template.go","template/razor.go"],[("markers","template/template_handler.go"),("code detection","template/template.go IsCode/IsRazor")],["rendered text"])
p("C13","Razor-like literals survive: e-mails, escapes and ignored names",
 "E-mail addresses, doubled razor delimiters (rendered as one), an escaped opening delimiter, and razor expressions whose name is configured as ignored are rendered literally wherever they appear in text mixed with live code. Strings in backquotes that span several lines, and strings of either kind inside the parentheses of an expression, keep their exact content, delimiters included.",
 ["inputs","configurations"],"All documents interleaving literal constructs and live razor code, with random ignored-name lists.",
 "Tests contain a few literal e-mails and one multi-line string.",
 ["template/razor.go","template/razor_repl_protect.go","template/razor_repl_expr.go"],[("literal protection passes","template/razor.go expressions"),("string protection","collections/string.go Protect")],["rendered text"])
p("C14","Razor expressions evaluate with Go operator precedence",
 "A razor expression made of literals, variables, function calls, indexes, parentheses and operators has the value obtained by evaluating it with the usual precedence and left associativity of Go operators (power, written **, binds like multiplication), wherever an expression is accepted and whatever text, parentheses included, follows it on the line, and renders the same as the equivalent prefix-notation template action. Alternate spellings of a binary operator (symbols, and words between blanks) are equivalent.",
 ["programs"],"All expression trees up to depth 5 over arithmetic, comparison, logical and bit operators, with minimal or redundant parentheses and varied spacing.",
 "Tests convert about a hundred literal expressions and compare the converted text, never the evaluated value of a composite expression.",
 ["template/razor_expr.go","template/razor_repl_expr.go","template/razor.go"],[("conversion through the Go expression parser","template/razor_expr.go nodeValue")],["rendered value"])
p("C15","Razor statements mean the same as their Go template equivalents",
 "A document written with razor statements (variable declaration, assignment and compound assignment of local, global and nested values, if/else/else if, for, with, nested blocks, comments, space eaters and newline marks) renders exactly what an interpreter of these constructs produces, and what rendering its converted form with razor disabled produces. Text outside the statements is kept unchanged, apart from the blanks that eaters, assignments, block openings and block ends consume; a block written on one line ends at the first semicolon of that line. Assigning with = a global value that does not exist is accepted, reported by a warning or refused according to the validation mode.",
 ["programs"],"All generated razor programs with nested control structures over random contexts.",
 "Tests convert isolated constructs and compare text; nesting and interactions between statements and surrounding text are not evaluated.",
 ["template/razor.go","template/razor_repl_assign.go","template/razor_repl_expr.go"],[("ordered rewriting rules","template/razor.go expressions"),("assignment rewriting","template/razor_repl_assign.go")],["rendered text"])
p("C16","Custom delimiters change the notation only",
 "Rendering a document with custom left, right and razor delimiters gives the same result as the same document written with the default ones, for any delimiters that have no meaning of their own in the two notations nor in the document and do not contain one another. With custom delimiters the default ones are ordinary text, different delimiters can be used side by side in one process, and more than three delimiters are refused.",
 ["programs","configurations"],"All generated razor and template documents under random delimiter triples, including ones with regular expression special characters.",
 "Tests use one alternate delimiter set on a couple of documents.",
 ["template/template.go","template/razor.go"],[("delimiter substitution in rules","template/razor.go ensureInit")],["rendered text under both notations"])
p("C17","Any input is rendered or refused, never crashes or hangs",
 "Whatever the content and whatever options or delimiters are in use, rendering returns a result or an error: it never panics, never loops forever, and never stops the process, apart from what the content explicitly asks for (exit and fatal functions, commands it runs, amounts of data it requests). The same holds for reading data text in any of the supported formats and for the text utilities.",
 ["inputs","configurations"],"All byte strings and all mutated fragments of valid template, razor and data documents.",
 "Tests feed well-formed documents and a few typical errors.",
 ["template/template_handler.go","template/template_error_handler.go","template/razor.go","collections/convert_data.go","json/json.go","yaml/yaml.go","hcl/hcl.go"],[("error recovery and retry","template/template_error_handler.go"),("trapped panics","hcl/hcl.go Unmarshal")],["return of the rendering call"])
p("C18","Template errors are all-or-nothing: content unchanged or a real error",
 "When content cannot be parsed, fails during execution, or renders an undefined value (a <no value> or <nil> which is not in the text of the content itself), then in the default mode the result is the original content, unchanged and without error, and in strict mode (option, marker in the content, or extension .gt, .gte or .template of the named source) an error is returned. Content without errors renders identically in both modes, and the option that accepts undefined values turns only that kind of error off.",
 ["inputs","configurations"],"All valid documents with one or more injected faults of each kind at any position, in every mode.",
 "Tests check messages of a few literal faulty templates.",
 ["template/template_handler.go","template/template_error_handler.go"],[("strictness decision","template/template_handler.go"),("error handler","template/template_error_handler.go")],["rendered text and error"])
p("C19","File processing writes exactly the right files with the right content",
 "Processing a set of files creates, for each template file, the file named without its template extension (marked as generated unless overwriting, which also removes a template rendered in its own folder; nothing is created for a blank result without extension), mirrors source folders under the target folder, rewrites other files only when rendering changes them while keeping a backup of the original unless overwriting, and touches nothing else. Written content equals the rendering of the file content, the executable permission of created files is that of the source or derived from a shebang (program and at most one argument), the reported list of result files is exact, output to stdout leaves the files alone, and one failing file does not prevent the others from being processed. A handler is called once for each file read, in order, with its name, original content, result, whether it changed and its error; what the handler decides (altered result, change, error) is what is written and reported.",
 ["inputs","configurations","fault_sequences"],"All generated folder trees of template, non-template, plain, failing and shebang files under every combination of overwrite, target folder and stdout options.",
 "Tests process a couple of fixture folders with one option set.",
 ["template/template_handler.go","template/template_process.go","template/template.go"],[("per file processing","template/template_handler.go processTemplate")],["resulting folder tree, result list, stdout"])
p("C20","File search and exclusion select exactly the matching files",
 "Searching files returns exactly the files matching one of the patterns within the requested depth below the folder, in each folder once, following symbolic links only when asked and terminating even when links form a loop. The recursion options, additional patterns and exclusion patterns of the command line select exactly the corresponding files, and the glob function replaces each pattern by the matching existing paths, keeping the other arguments.",
 ["inputs","configurations"],"All generated folder trees with links, all pattern lists, depths and exclusion lists.",
 "Tests look at one small fixture tree.",
 ["utils/io.go","utils/glob.go","main.go","utilities.go"],[("depth limited walk","utils FindFilesMaxDepth"),("exclusion","utilities.go exclude")],["list of files, files processed by the command"])
p("C21","Command line variables and imports build the documented context",
 "The context built from the command line contains every variable given inline or imported from JSON, YAML or HCL files with its converted value; later sources override earlier ones (optional imports first, then imports, then inline variables), a file given under a name is available under that name, data read from the standard input is available likewise, and remaining unnamed values are collected in order as arguments. A missing required import or source folder is an error exit unless told to ignore it, a malformed file is an error exit, a missing optional import is ignored, and forcing the context type does not change the values.",
 ["inputs","configurations"],"All combinations of generated variable files, inline definitions and flags, run through the real executable.",
 "Tests call the context builder on two or three fixed combinations.",
 ["context.go","main.go"],[("ordered evaluation of sources","context.go createContext")],["output and exit code of the executable"])
p("C22","The command line renders exactly what the library renders",
 "Content given to the executable through arguments, standard input or files is rendered exactly as the library renders it with the same context and options; option switches (base, individual addons, delimiters, substitutions, empty line removal, print, disable, strictness) have the same effect as the corresponding library settings, and the exit code is zero exactly when no error is reported.",
 ["programs","configurations"],"All generated documents and option combinations through the real executable.",
 "Tests run the main program on a handful of literal templates.",
 ["main.go","context.go","template/template_handler.go"],[("options mapping","main.go runGotemplate")],["stdout, files and exit code of the executable"])
p("C23","Substitutions apply in order with regular expression semantics",
 "Substitution expressions (a separator, which is the first character and appears only once more, a regular expression and a replacement) are applied one after the other to the source and to the rendered text, each replacing every match of its regular expression with its replacement (groups included), whatever character separates its parts; a replacement reduced to d deletes the matches, with their end of line if the expression ends with $. Expressions given by the environment come first, invalid expressions are refused when the template is created, content without any template code is substituted once, and the substitute function gives the same result on any text.",
 ["inputs"],"All lists of generated substitution expressions and texts.",
 "Tests apply two fixed substitutions.",
 ["utils/substitute.go","template/template_handler.go"],[("replacer parsing","utils/substitute.go InitReplacers")],["rendered text"])
p("C24","Includes, user templates, aliases and functions compose correctly",
 "Including a template by name, file or inline content renders what rendering that template gives when each name is one of the supplied dictionary or, otherwise, one of the user context, positional arguments being in ARGS, at any depth of inclusion. Templates, aliases and functions defined by extension files, and templates defined by the content itself, are callable afterwards; the arguments of functions are the given ones (by position, or by name with a single dictionary), then the default values. Spreading a list over a call (ellipsis) gives the call with its elements written out. Every alternate name of a built-in function behaves exactly as the function it stands for.",
 ["programs"],"All generated definitions, includes with argument lists, aliases, user functions and spread calls; every registered alternate name.",
 "Tests call each construct with one literal argument list.",
 ["template/extra_runtime.go","template/func_table.go","template/add_funcs.go"],[("template lookup and execution","template/extra_runtime.go"),("alias registration","template/func_table.go")],["rendered text"])
p("C25","Dictionary and list functions in templates obey the collection model",
 "Template functions over collections (get, set, unset, hasKey, keys, values, pick, pickv, omit, pluck, content and key of single-entry maps, contains, find, unique, union, intersect, without, removeNil, append, prepend, reverse, rest, initial, slice, extract, index, default, undef, isZero and the like, and the text counterparts such as lenc, char and contains) return what the collection model gives, accept the collection first or last where documented, and never modify collections they are documented to copy. Results are the same for every collection flavour.",
 ["inputs"],"All generated collections, keys and elements for each function, in both argument orders, for all flavours.",
 "Tests call each function on one literal.",
 ["template/extra_data.go","template/extra_sprig.go"],[("argument order detection","template/extra_data.go")],["function results"])
p("C26","Layout helpers keep the text and control only indentation and joining",
 "The indentation functions (indent, nindent, spaceIndent and their aliases) give every line of every item, in order, once, each with exactly the requested prefix, after a new line for nindent. In a razor document, autoIndent repeats on every line everything that precedes it on its line, starting on a new line (blanks ending what precedes are removed), and autoWrap repeats the text around it on its line for each item, whatever characters that text has. formatList, mergeList, joinLines, splitLines, concat, repeat and center keep every item and only add the requested format, separators or filling, wrap changes only blanks and the color functions keep the text. Identifier generation keeps letters and digits and replaces every run of other characters with the requested replacement, whatever it is. Raw texts put in data are written without their enclosing quotes, except those that are empty or have a blank.",
 ["inputs"],"All generated multi-line texts, lists, formats, widths and replacement strings; one automatic construct per line, without razor code in the text around it.",
 "Tests check a few literal blocks.",
 ["template/extra_utils.go","template/razor_repl_autowrap.go","collections/string_util.go"],[("layout helpers","template/extra_utils.go")],["rendered text"])
p("C27","Concurrent rendering gives the sequential results without data races",
 "Templates that are independent of each other can be created and rendered concurrently: each gives the text it gives when rendered alone, whatever delimiters and options each uses, without data race, deadlock or crash.",
 ["schedules","programs"],"All sets of generated documents rendered by up to 16 goroutines, with the race detector observing every execution.",
 "No test renders concurrently and the suite does not run with the race detector.",
 ["template/razor.go","template/razor_repl_protect.go","template/template.go","template/extra_sprig.go"],[("parser mutex","template/template_handler.go")],["rendered text of each goroutine, race reports"])
p("C28","Saved files and executed commands give back their exact data",
 "Saving a text or a value to a file writes exactly that text (a value is written as its text form) and nothing else, and loading it back gives the same text (or the same bytes if binary is asked); naming a file without template code in include gives its content, and loading a data file gives the value the data conversion gives for its content. The file predicates (exists, isDir, isFile, isReadable, isWriteable, isExecutable, size, mode, lastMod), glob, joinPath and lookPath agree with the file system. Running a program or a script file returns exactly what it prints on its standard output and the program receives exactly the arguments given (a wildcard pattern that matches files is replaced by these files, other texts are left alone whatever characters they contain), executing one returns that output converted as data when possible and unchanged otherwise; inline scripts, script files, aliases and functions run in the folder of the template with the interpreter of their first line, and after their template code is rendered. A command that fails or does not exist is an error that contains its status and what it printed on its error output.",
 ["inputs","fault_sequences"],"All generated histories of saves and loads, trees of files and permissions, patterns, texts, data values, scripts, arguments, interpreters and failing exit codes. Not claimed: arguments given to inline scripts or to scripts with template code (appended as text, only simple words are claimed), script files that have neither interpreter line nor template code, folders missing at more than one level.",
 "Tests run a few literal commands.",
 ["template/extra_runtime.go","template/extra_os.go","utils/exec.go","utils/io.go"],[("command execution","utils/exec.go"),("file functions","template/extra_os.go")],["function results and files"])
p("C29","Ordinary Go template code means what the standard engine says",
 "A content that uses only the constructs and functions of the standard text/template package (actions, pipelines, variables, if, range, with, define, template, block, break, continue, comments, trim markers, comparison, logic, printf, index, slice, len, call, html, js, urlquery) renders exactly what the standard engine gives with the same data, whatever its type (dictionary, scalar, list, structure, function), whether razor is disabled, the addons are disabled, or everything is enabled and the content has no razor code. Only doubled razor delimiters (rendered as one when razor is enabled) and a line reduced to #! (removed) differ.",
 ["programs"],"All generated documents of the ordinary template language with typed data, in three option sets. Not claimed: printing undefined values or whole collections (they have their own text form), failing templates and slice with a single position (the addons give it another meaning).",
 "Tests render a few literal templates and never compare with the standard engine.",
 ["template/template_handler.go","template/razor.go","template/template.go"],[("processing around the standard engine","template/template_handler.go processContentInternal")],["rendered text"])
p("C30","The function reference tells the truth",
 "The names listed (functions, aliases, categories) are exactly those that can be called, they are exactly those brought by the enabled addons and by the functions added through the library, and any other name is refused. The number of arguments documented for a function is the number it accepts, under each of its names. The Sprig functions give what the Sprig library gives. A listing (short or long, by category or not, with or without aliases) shows exactly the functions that match its filters, whatever their case.",
 ["configurations","inputs"],"All sets of addons, added functions, names, argument counts from 0 to 8, Sprig calls with generated arguments, and listings with generated filters.",
 "Tests look at the listing of the default configuration only and call few Sprig functions.",
 ["template/func_table.go","template/template_help.go","template/func_category.go","template/extra_sprig.go","template/add_funcs.go"],[("function table","template/func_table.go"),("listing","template/template_help.go")],["lists of names, rendered text, errors"])
p("C31","Messages go to the logs and assertions stop exactly when they fail",
 "The logging functions (trace, debug, info, notice, warning, error, critical, with or without format) send their message once, at their level, in order, and add nothing to the rendered text; assertWarning sends a warning exactly when its test is empty, assert stops the rendering with its message exactly when its test is empty and raise always does. The level of the internal log never changes the result. With the executable, the messages at or above the chosen levels, and only these, reach the error output and the log file, the result alone is on the standard output, and exit and fatal end the process with their code.",
 ["programs","configurations"],"All generated documents of messages and assertions at any log level, razor programs at every internal log level, and executions of the executable with generated levels. Messages in included templates are not claimed (a template may be evaluated again).",
 "Tests never look at the logs.",
 ["template/extra_logging.go","template/extra_runtime.go","template/razor.go","main.go"],[("logging functions","template/extra_logging.go"),("assertions","template/extra_runtime.go")],["log entries, rendered text, exit code and output of the executable"])
p("C32","Git and network functions report what the repository and the server hold",
 "The git functions give the branch and the commit currently checked out and the first URL of the remote named origin of the repository at the given path, as they are at that moment; a detached head, a repository without commit or without origin and a folder that is not a repository are errors. The network functions send one GET request for the given address (redirections are followed), give the status, the headers and the document that the server sent whatever its status, and report an unreachable server as an error.",
 ["histories","inputs"],"All generated histories of commits, branches, detached heads and remotes; all generated documents, statuses, headers and paths served by a local server.",
 "No test uses a repository or a server it controls.",
 ["template/extra_git.go","template/extra_net.go"],[("git functions","template/extra_git.go"),("network functions","template/extra_net.go")],["rendered text"])
p("C33","The introspection functions describe what is there",
 "function tells, for any function of the library or added through it and under each of its names, its name, real name, description, group, alternate names, typed arguments, result and examples; getAttributes, getMethods and getSignature list exactly the exported fields and the methods of any value; templateNames and templates list exactly the templates defined by the content, the extension files and the content itself; current gives the folder of the content; userContext gives exactly the context supplied by the user, without the injected constants, which never replace a value of the user.",
 ["inputs","configurations"],"All generated function types and documentations, structure types, contexts (with constants redefined or not), definitions and folders.",
 "Tests check the listing of a few functions and a single structure.",
 ["template/func_table.go","template/extra_runtime.go","template/template.go","template/add_funcs.go"],[("function information","template/func_table.go FuncInfo"),("constants","template/template.go setConstant")],["rendered text"])
p("C34","Every error of a content is reported with its place",
 "In strict mode, when several lines of a content are faulty independently (undefined variables or functions, raised errors and failed assertions, failing calls, syntax errors), at top level or in blocks executed several times, with any delimiters and source name, the error names the source and the number of every faulty line, with what is wrong and the text of the line as written, and names no healthy line; only an end in excess stops the search, which the report then says.",
 ["inputs","configurations"],"All contents with any number of faulty lines, in any order and position, each with its own kind of fault.",
 "Tests check a handful of contents with one to three errors.",
 ["template/template_error_handler.go"],[("search of further errors","template/template_error_handler.go Handler"),("place of the errors","template/template_error_handler.go linePrefix")],["error text"])
p("C35","Settings changed between renderings apply as if set from the start",
 "After any history of context changes (Add, Merge, Context), SetOption, ignored razor expressions, AddFunctions and other renderings on a template object, a rendering gives the result and error that a new object created with the resulting settings would give: also in the templates included from folders rendered before, and whatever the earlier contents assigned or set in the context; what is done with another context made by GetNewContext does not alter it.",
 ["histories","inputs"],"All histories of settings and renderings, all contents.",
 "Tests set a template object up once, and render once.",
 ["template/template.go","template/func_table.go","template/extra_runtime.go"],[("settings","template/template.go SetOption, GetNewContext, Add, Merge"),("functions","template/func_table.go AddFunctions")],["histories of settings"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
