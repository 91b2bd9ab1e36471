TECH = {
 "C01": ("model-based property testing (stateful histories, rapid)", "Random operation histories on the five dictionary flavours against a plain map model."),
 "C02": ("model-based property testing (stateful histories, rapid)", "Random operation histories on the five list flavours against a slice model, every earlier result re-read after each operation."),
 "C03": ("property-based testing against a reference merge (rapid)", "Generated nested dictionaries merged through four interfaces, compared with a recursive reference merge and with snapshots of every source."),
 "C04": ("property-based testing, differential and metamorphic (rapid)", "Generated contents that mutate the context, rendered repeatedly on one object and compared with fresh objects; snapshots of the caller's data."),
 "C05": ("property-based testing: round trips and differential decoding with third-party decoders (rapid)", "Generated data converted by the code and read back by it and by encoding/json, yaml.v3 and hashicorp/hcl; text written by the harness read through each reader and through the guess."),
 "C06": ("property-based testing against a reference conversion and the standard JSON encoder (rapid)", "Generated Go values and struct types built with reflect, converted and compared with a reference walk and with encoding/json."),
 "C07": ("property-based testing: round trip through a real bash process (rapid)", "Generated dictionaries exported and evaluated by bash, whose variables are printed back NUL separated and compared."),
 "C08": ("property-based testing against exact arithmetic references (rapid, math/big)", "Generated calls of every mathematical function compared with rational or high precision references, results and notation."),
 "C09": ("property-based testing against an exact reference sequence (rapid)", "Generated ranges with decimal bounds and steps compared with sequences computed on scaled integers."),
 "C10": ("property-based testing against a reference slicing rule (rapid)", "Generated accesses in function, pipeline and bracket notation on lists, texts and maps compared with a reference rule, the source being re-read."),
 "C11": ("property-based testing against reference implementations (rapid)", "Generated texts given to every String and StringArray method, compared with the strings package, independent scanners, round trips and an application of the diff."),
 "C12": ("property-based testing, identity and expected-text oracles (rapid)", "Generated texts without code, disabled, paused or without razor, rendered through content and files, compared byte for byte with the expected text."),
 "C13": ('property-based testing, expected-text oracle built with the document (rapid)', 'Documents assembled from literals with the text each must give (e-mails, doubled delimiters, ignored names, strings) mixed with live code, in several delimiter sets, compared byte for byte.'),
 "C14": ('property-based testing against a reference evaluator, plus a differential with prefix notation (rapid)', 'Type-directed random expressions printed with only the parentheses Go requires, in every place accepting an expression, compared with an exact evaluation of the tree and with the prefix-notation action.'),
 "C15": ('property-based testing against a reference interpreter, plus a differential with the converted form (rapid)', 'Generated razor programs interpreted by an independent model, rendered directly, through their converted form, and from files.'),
 "C16": ('property-based testing, metamorphic relation between notations (rapid)', 'Generated programs and documents rendered under default and custom delimiters, default notation checked to be plain text under custom ones, delimiter counts.'),
 "C17": ('property-based testing and grammar-based fuzzing: token soup, mutated valid documents, raw bytes, recursion and every built-in function with hostile arguments, with crash, exit and hang detection', 'Renders random mixes of template and razor tokens, mutated valid documents, arbitrary bytes, deep and recursive constructs and every function of the library with hostile arguments, in all modes and delimiters; reads mutated data texts with each reader; calls the text utilities with arbitrary texts. A panic, a process exit or a case exceeding the CPU or memory watchdog is a violation.'),
 "C18": ('property-based testing: generated documents with injected parse, execution and undefined-value faults (active or dormant), in every mode, against the known rendering and fault model', 'Documents of fragments with known rendering, nested blocks, dormant near-errors and injected faults are rendered in default and strict mode (option, marker, source extension), with and without acceptance of undefined values, with substitutions: expected is the rendering, the unchanged content, or an error. Another facet has many errors in the same content.'),
 "C19": ('model-based testing: generated folder trees, contents, options and obstacles processed by the library and compared with a model of the file system', 'Generated trees of template, plain, script, failing and blank files are processed with every mix of overwrite, strict, stdout and target options, relative or absolute, with missing files and obstacles; the whole tree (contents, permissions), the returned list, the printed text and the number of errors are compared with a file-system model.'),
 "C20": ('model-based testing: generated trees with links and loops searched by the library and by the executable, compared with a model of the tree; glob compared with an independent matcher', 'Generated folder trees with symbolic links (loops included), special names and patterns are searched at every depth by the library, by the executable (recursion, patterns and exclusions) and by the glob function; the files found must be exactly those of the model, each once.'),
 "C21": ('model-based property testing: generated variable files, inline definitions, standard input and flags given to the real executable, against a model of the context', 'Generated JSON, YAML, HCL, list and scalar files plus inline, unnamed and piped values in random option order; the resulting context, printed as JSON, is compared with a model of the precedence rules, and failures with the expected exit code.'),
 "C22": ('differential property testing: executable against library on generated documents and option combinations', 'Generated documents (arguments, standard input, files) and option sets run through the executable and through the library with the corresponding settings: standard output, written files and exit code must be equal.'),
 "C23": ('property-based testing against literal, line-deletion and standard-regexp reference models', 'Generated lists of expressions with random separators, given as parameters or by the environment, applied to plain content, to content with code and by the substitute function; invalid expressions must be refused.'),
 "C24": ('generated programs against a reference interpreter, differential of alternate names and of spread calls', 'Units (templates, files, inline contents, functions, aliases) calling each other are generated in an extension file and a content, and the text is compared with a reference interpreter; each alternate name is called with random arguments and compared with the function it stands for; ellipsis is compared with the call written out.'),
 "C25": ('model-based testing of template functions over generated collections', 'Random sequences of calls over dictionaries and lists of the context, of each flavour, are rendered and each result, and the collections after the calls, are compared with a model over plain maps and slices.'),
 "C26": ('property-based testing against reference layouts', 'Generated items, texts, prefixes, formats and widths are given to the layout functions and to the automatic razor constructs surrounded by arbitrary text; the result is compared with a reference layout.'),
 "C27": ('property-based testing of generated concurrent programs under the race detector, differential with the sequential execution, in warm and cold processes', 'Generated sets of up to 16 goroutines, each with its own template, delimiters, options, extensions, user functions and documents (contents or files), run concurrently in a race-instrumented build, in the checking process or as the first thing done by a new process; each result is compared with the one obtained alone, and a race, deadlock or crash is a violation.'),
 "C28": ('property-based testing, model-based histories of files, generated scripts and commands with predicted output, injected failures', 'Generated histories of save/load/predicates against a model of the files, trees with permissions and links, glob patterns against an independent matcher, commands and scripts (inline, file, alias, function; several interpreters) whose output, error output and status are predicted by construction, and missing or failing commands.'),
 "C29": ('differential property testing against the standard text/template engine', 'Generated documents of the whole ordinary template language, type directed so that most are accepted, rendered by gotemplate in three option sets and by text/template: the texts must be equal.'),
 "C30": ('differential property testing against the Sprig library, and exhaustive metamorphic checks of the function table over generated configurations', 'Generated calls of the Sprig functions are compared with the library; generated sets of addons and added functions are compared with what can be called; calls with 0 to 8 arguments are compared with the documented counts; generated listings are compared with the functions matching their filters.'),
 "C31": ('property-based testing of generated programs against a model of the messages', 'Generated documents of messages and assertions predict the log entries, the text and the error; razor programs are rendered at every internal log level; the executable is run with generated console and file levels and its outputs and exit code are compared with the model.'),
 "C32": ('model-based testing: generated git histories and a scripted local server', 'Repositories are built by random histories whose state is known, queried through the git functions after each step; a local server records the requests and sends generated documents, compared with what the functions return.'),
 "C33": ('property-based testing with types, functions and contexts generated by reflection, against independent descriptions', 'Functions of generated types are added with generated documentation and their description is read back under each name; fields and methods of generated structures are compared with reflection; contexts and definitions are compared with what the functions list.'),
 "C34": ('property-based testing: contents with injected independent faults of known place and message', 'Contents of generated healthy lines and faulty lines, at top level or in blocks, are processed in strict mode; the places, messages and quoted lines of the error are compared with the injected faults.'),
 "C35": ('stateful property-based testing: histories of settings and renderings against a freshly set-up object', 'Random histories of context changes, options, ignored razor expressions, functions, other contexts and renderings; each rendering is compared with the one of a new object created with the resulting settings.'),
}
NA = {}
