#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CI = "collections/implementation/"
prop("C01", "Appending/prepending yields exact new list and leaves old lists untouched",
 "Appending (or prepending) values to a list returns a list made of exactly the old elements followed (or preceded) by the new ones, in order, with nested raw maps and slices turned into dictionaries and lists. The original list, any other list derived earlier from it, and the slice of values given by the caller keep the contents they had. This holds for every list flavour (base, JSON, YAML, HCL, XML), for plain lists, list concatenation and the template functions that expose them.",
 ["inputs", "histories"], "every list content and spare capacity, every sequence of derivations from a shared list",
 "Tests append once to freshly made lists whose capacity equals their length, so aliasing of the spare capacity or of the caller's arguments is never exercised.",
 [CI+"list_helper.go", CI+"generic.go", "utils/list.go", "template/extra_data.go"],
 [("ListHelper.Add", CI+"list_helper.go"), ("MergeLists", "utils/list.go")])
prop("C02", "Set-style list operations obey their algebra",
 "Unique keeps the first occurrence of each element (elements being the same when their printed forms are equal) in order; union is unique of the concatenation; intersection is the unique elements of the list that occur among the arguments; without is the list minus the elements that occur among the arguments, in order. Contains is true exactly when the list is non-empty and every value occurs in it, find returns exactly the ascending positions where the value occurs, and the strict variants compare value and type instead of the printed form. Removing empty (or nil) elements keeps exactly the other elements in order, and none of these operations alters its input.",
 ["inputs"], "every list and argument list of integers, strings, booleans, nil and nested collections, within the stated sizes",
 "Tests compare a few literal lists; the laws quantify over all element equalities and positions.",
 [CI+"list_helper.go", "template/extra_data.go"],
 [("Unique/Intersect/Without/Contains/Find/RemoveEmpty/RemoveNil", CI+"list_helper.go")])
prop("C03", "List index operations: bounds, negative indexes, growth, removal, reversal",
 "Reading index i of a list of length n gives element i for 0<=i<n, element n+i for -n<=i<0 and nil otherwise, never an error; several indexes give the list of the individual results. Setting an index replaces just that element, growing the list with nil up to the index when needed, and refuses negative indexes; removing indexes yields the list without exactly those positions, in order, and popping returns the elements read at those positions together with that remainder. Reversing yields a new list in opposite order; reading, removing, popping and reversing leave the list and the caller's indexes as they were.",
 ["inputs"], "every list length within the bound and every 64-bit index value (negative, out of range, repeated)",
 "Tests use a handful of in-range indexes; off-by-one and sign errors at the boundaries depend on index and length combinations.",
 [CI+"list_helper.go", CI+"generic.go"],
 [("GetIndexes/SetIndex/Remove/Reverse", CI+"list_helper.go"), ("Pop/First/Last", CI+"generic.go")])
prop("C04", "Dictionaries behave as maps keyed by the printed form of keys",
 "A dictionary behaves as a finite map whose keys are the printed forms of the keys supplied: set, get, has, default, delete, flush, pop, omit, and restricted clone read or change exactly the entries named by the given keys, and every other entry stays as it was. Key and value listings are complete and in alphabetical key order whatever the insertion order, and deleting a key that is absent is reported as an error without removing anything else. The template functions that read, set, unset, pick, omit, pluck and test keys accept dictionary and key in either order and give the same results.",
 ["inputs", "histories"], "every dictionary content and key set within the bound, every key (string or number), every map iteration order explored",
 "Tests run single operations on literal dictionaries; they cannot cover collisions between key spellings, absent keys and iteration orders.",
 [CI+"dict_helper.go", "template/extra_data.go"],
 [("DictHelper operations", CI+"dict_helper.go"), ("get/set/unset/pick/omit/pluck", "template/extra_data.go")])
prop("C05", "Merging dictionaries: destination wins, maps merge deeply, sources unchanged",
 "Merging sources into a destination keeps every value the destination already has, unless both sides hold dictionaries for a key, in which case these are merged by the same rule; keys absent from the destination come from the first source that has them. The result contains exactly the union of the keys. The source dictionaries, including the dictionaries nested in them, are not changed by the merge.",
 ["inputs", "histories"], "every pair or triple of dictionaries up to the stated depth, with arbitrary overlap of keys and kinds, any merge order",
 "Tests merge a few literal dictionaries and look only at the result, not at the sources nor at later merges.",
 [CI+"dict_helper.go", "utils/reflect.go", "template/extra_data.go", "template/template.go"],
 [("Merge/deepMerge", CI+"dict_helper.go"), ("MergeDictionaries", "utils/reflect.go"), ("merge", "template/extra_data.go")])
prop("C06", "A clone equals its original and is fully independent of it",
 "Cloning a dictionary or a list produces a value equal to the original, including nested lists, dictionaries and nil entries. Changing the clone at any depth never changes the original, and changing the original never changes the clone. Rendering a template therefore cannot alter the caller's context unless context sharing was requested.",
 ["inputs", "histories"], "every nesting shape within the bound, every later mutation of clone or original",
 "Tests clone flat values; nested single-element lists and dictionaries inside lists are not sampled, and independence quantifies over later histories.",
 [CI+"dict_helper.go", CI+"list_helper.go", "template/template_process.go"],
 [("DictHelper.Clone", CI+"dict_helper.go"), ("ListHelper.Clone", CI+"list_helper.go")])
prop("C07", "slice, extract, safeIndex, initial and rest select exactly the documented range",
 "For lists and strings of length n, a negative slice bound b means n+b+1, bounds beyond the ends are clipped, the result is the elements between the two bounds, and it is reversed when the end precedes the beginning. A single index selects that element (counted from the end when negative) and is an error when out of range; safeIndex gives the default instead; extract selects the listed positions in order; initial drops the last element and rest drops the first. For dictionaries, slice returns the values of the keys between the two bounds, in key order or reverse order.",
 ["inputs"], "every length within the bound and every pair of integer bounds",
 "The existing tests sample a few bounds; range arithmetic errors occur at particular combinations of length, sign and order of bounds.",
 ["template/slice.go", "template/extra_data.go"],
 [("sliceInternal/sliceList/sliceMap/selectElement/safeIndex", "template/slice.go")])
prop("C08", "Conversion to native data is faithful and complete",
 "Converting any value to native data yields only nil, booleans, integers, floats, strings, plain slices and plain string-keyed maps, at every depth, with the same numbers, text, order and keys as the original. Structures expose exactly their exported fields under their tag names, honouring omit-empty, ignored, inlined and key tags. Pointers are followed and nil pointers become nil.",
 ["inputs"], "every scalar value of every integer, float and string kind, and every nesting within the bound",
 "Tests convert literal values; narrowing and wrap-around depend on the numeric value, and completeness depends on nesting.",
 ["collections/convert_data.go"], [("MarshalGo", "collections/convert_data.go")])
prop("C09", "Converted data consists of collections at every depth, losing nothing",
 "Turning raw data into a dictionary or list of a given flavour (JSON, YAML, HCL, XML or default) yields collections of dictionaries and lists at every depth, so that every nested element supports the collection operations, without losing, reordering or altering any key or leaf value. Converting an already converted collection gives an equal collection. Values that are neither maps nor sequences are left as they are.",
 ["inputs"], "every nesting shape within the bound with arbitrary leaf values and arbitrary mixtures of raw and converted sub-collections",
 "Tests convert a few literals per flavour; mixtures of already converted and raw nested values are not sampled.",
 [CI+"base_helper.go", "json/json.go", "yaml/yaml.go", "xml/xml.go", "hcl/utilities.go"],
 [("TryAsDictionary/TryAsList/NeedConversion", CI+"base_helper.go"), ("transformElement", "json/json.go yaml/yaml.go xml/xml.go hcl/utilities.go")])
prop("C10", "Text layout helpers preserve content and respect their contract",
 "Centering pads with spaces to exactly the requested width, evenly, and leaves longer text alone; indenting prefixes every line, and un-indenting removes exactly the common leading whitespace of the non-blank lines or leaves the text unchanged. Wrapping keeps every word, in order, never puts several words on a line when together they exceed the width by more than one character, breaks a line that is not indented only where the next word does not fit, and keeps blank lines. Splitting into lines and joining them back (apart from one final line end), and splitting in two around the first separator, lose nothing.",
 ["inputs"], "every text over the stated alphabet up to the stated length and every width",
 "Tests check a few sentences at a few widths.",
 ["collections/string_util.go", "collections/string.go", "collections/string_array.go"],
 [("CenterString/WrapString/UnIndent/Indent/SplitLines/JoinLines/Split2", "collections/string_util.go")])
prop("C11", "Protecting quoted strings then restoring them is the identity",
 "Replacing the quoted and back-quoted strings of a text by tokens and restoring them gives back the original text. Sections are found from left to right, up to the first quote that is never closed: the saved strings are exactly these complete quoted sections in order, none remains in the protected text, and an escaped double quote does not end a quoted string. The operation never fails, whatever the quoting.",
 ["inputs"], "every text over the stated alphabet (quotes, backticks, backslashes, letters) up to the stated length",
 "Tests use a dozen strings; escape parity and unterminated quotes are combinatorial.",
 ["collections/string.go"], [("Protect/RestoreProtected", "collections/string.go")])
prop("C12", "Word and context selection return well-formed fragments and never fail",
 "Selecting the word at a position returns a maximal run of word characters containing that position (or nothing), and the reported position is where that run starts in the text. Selecting an enclosed context returns a fragment of the text that starts with the left marker, ends with the right marker, contains the position and, for distinct markers, is balanced; otherwise nothing with position -1. Finding all occurrences of a substring reports exactly the non-overlapping occurrences from left to right, and no call fails for any position.",
 ["inputs"], "every text over the stated alphabet up to the stated length and every position, including outside the text",
 "Tests cover a table of positions in fixed strings.",
 ["collections/string.go"], [("GetWordAtPosition/GetContextAtPosition/IndexAll", "collections/string.go")])
prop("C13", "Numeric arguments are combined exactly and results simplified without change",
 "Addition, subtraction, multiplication, division and modulo of numeric values (numbers or numeric text) give the IEEE double result of the mathematical operator applied in argument order; division by zero is an error. A result that is a whole number representable as a 64-bit integer is returned as that integer, and every other result is returned unchanged as a float. Applied to a list, a unary operation or an operation with a scalar applies to each element.",
 ["inputs"], "every pair or triple of 64-bit integer or double operands within the stated magnitude",
 "Tests evaluate a few small literals; rounding, sign and range boundaries depend on values.",
 ["template/math_base.go", "template/math_utilities.go"],
 [("add/subtract/multiply/divide/modulo", "template/math_base.go"), ("simplify/process/convertArgs", "template/math_utilities.go")])
prop("C14", "Bitwise and base-conversion functions match 64-bit integer semantics",
 "The shift, or, and, xor and clear functions give the 64-bit two's-complement result of the operators applied from left to right on all their arguments. Formatting an integer in hexadecimal and reading it back gives the same integer for every non-negative value. Operations on values that are not integers are reported as errors and never fail otherwise.",
 ["inputs"], "every combination of 64-bit operands and shift counts",
 "Tests use single-digit operands.",
 ["template/math_bits.go"], [("leftShift..decimal", "template/math_bits.go")])
prop("C15", "Minimum, maximum and average select and compute the right value",
 "Over numeric values, min and max return a value that is among the arguments and not greater (smaller) than any of them; over text they do so in lexical order, and over nothing they return nothing. Average is the sum divided by the count. Results are independent of the order of the arguments.",
 ["inputs"], "every list of up to the stated number of 64-bit integers, doubles or short strings",
 "Tests use a few literals.",
 ["template/math_stats.go", "template/math_utilities.go"],
 [("compareNumerics/compareStrings", "template/math_utilities.go"), ("average/min/max", "template/math_stats.go")])
prop("C16", "Numeric ranges terminate and contain exactly the expected progression",
 "Generating the numbers from start to stop always terminates and gives start, start+step, start+2*step and so on, ascending or descending towards stop, never beyond it. The inclusive form includes stop when it is reached and the exclusive form never does. A zero step is an error.",
 ["inputs"], "every integer start, stop and step within the stated distance, and fractional steps of every printed precision in the stated set",
 "Tests generate a few short ranges.",
 ["template/math_utilities.go"], [("generateNumericArray", "template/math_utilities.go")])
prop("C17", "Emptiness, default, undef and iif agree on every value",
 "A value counts as empty exactly when it is nil, false, zero, an empty string, an empty collection or a nil reference. The ternary and default functions pick the alternative exactly on empty test values; undef picks the default only when nothing or nil is supplied and returns anything else unchanged. The values returned are the ones supplied, unchanged.",
 ["inputs"], "every scalar of every kind and every collection within the bound",
 "Tests sample a few values per kind.",
 ["collections/utils.go", "template/extra_data.go", "template/extra_utils.go"],
 [("IsEmptyValue/IIf/IfUndef/Default", "collections/utils.go")])
prop("C18", "HCL output quotes and nests values so that it denotes the same data",
 "Rendering data as HCL or tfvars writes every key either bare when it is a valid identifier or quoted otherwise, every string quoted and escaped (or, in pretty form, as an equivalent here-document, up to the common indentation of its lines), numbers and booleans verbatim and nil as null, with keys in alphabetical order (in pretty form, entries spanning several lines follow the others). Every entry of every map and every element of every list appears exactly once, whatever the nesting. Reading the written form back gives the same data, a list of exactly one map being considered as that map. (Out of scope for reading back: null, NaN and infinities, integers beyond 64 signed bits, strings containing ${ interpolations, which the HCL reader does not accept as plain data.)",
 ["inputs"], "every key and string over the stated alphabet up to the stated length, every nesting within the bound",
 "Tests marshal a few literals; quoting depends on the characters and nesting on the shape.",
 ["hcl/utilities.go", "hcl/hcl.go"], [("marshalHCL/id/isArrayOfMap", "hcl/utilities.go")])
prop("C19", "JSON and XML whole numbers become integers, others keep their value",
 "After reading JSON or XML data (numbers being read as doubles), every number that is a whole number representable as an integer is presented as that integer and every other number keeps its floating point value. No other leaf, key or ordering is changed, except null, which is read as an empty dictionary. This applies at every depth of maps and lists.",
 ["inputs"], "every double value at every position of a nesting within the bound",
 "Tests read a few literals with small integers.",
 ["json/json.go", "xml/xml.go"], [("transformElement", "json/json.go"), ("transformElement", "xml/xml.go")])
prop("C20", "HCL blocks are presented as maps without losing data",
 "After reading HCL data, a block or map value given once (which the HCL reader gives as a list of one map) is presented as that map, at every depth; several blocks of the same name are presented as a list keeping all of them in order; a list written as such remains a list and every other value is unchanged. The conversion never fails on data the HCL reader can produce, whether it is read as a generic value or as a map. No key or value is lost: text that is neither an HCL document, a JSON object nor a single HCL value (for instance a truncated JSON object) is refused.",
 ["inputs"], "every nesting within the bound of maps, lists of maps and leaves",
 "Tests parse a few documents.",
 ["hcl/utilities.go", "hcl/hcl.go"], [("flatten/transform", "hcl/utilities.go")])
prop("C21", "Razor leaves text without razor expressions untouched",
 "Text that contains no razor delimiter is left byte-for-byte unchanged by razor processing. A doubled delimiter produces a single literal delimiter, and e-mail addresses (user@host.domain, with at least one character of the user part, letters, digits or !#$%&'*+/=?^_{|}~.-, right before the delimiter) are kept. The text right before and right after a razor expression is preserved as is, provided that it is not itself part of a construct: template code, a comment (##, ///, #!, //!, @# ...), an inline content marker (\"<<, \"@<), the user part of an e-mail address, or after the expression the continuation of that expression (a selection, an index, a call, an operator after object.selection, or the terminating ;). Expressions registered as ignored are kept. Explicit opt-out markers (no-razor!, no-gotemplate!) or the disabled option leave the whole text unchanged.",
 ["inputs"], "every text over the stated alphabet up to the stated length around the stated constructs",
 "Tests translate fixed documents; there is no coverage of arbitrary surrounding text.",
 ["template/razor.go", "template/template.go"], [("applyRazor", "template/razor.go"), ("protectEmail", "template/razor_repl_literal.go")])
prop("C22", "Razor operators and expressions translate to the functions they denote",
 "Each operator of a razor expression is translated to the function that denotes it, applied to its operands in source order; nested operands are grouped according to the precedence and associativity of the Go operators (a power, written **, having the precedence of a product), so that the result is evaluated with the same structure as the source expression. Names without prefix refer to the global context, names with a dot or dollar prefix keep their meaning, literals (that do not contain the razor delimiter, @ unless configured otherwise) are copied verbatim, calls keep their arguments in order, and indexing and slicing become the selection function with the same operands. An operator or construct without translation is reported as an error rather than translated.",
 ["programs", "inputs"], "every expression tree within the stated depth over all operators and node kinds, with arbitrary literals within the stated alphabets and lengths; every value of the integer operands within the stated ranges",
 "Tests translate a fixed table of expressions; operator/nesting combinations are combinatorial.",
 ["template/razor_expr.go", "template/razor_repl_expr.go"], [("nodeValue/nodeValueInternal/operatorName", "template/razor_expr.go"), ("expressionParserInternal", "template/razor_repl_expr.go")])
prop("C23", "Razor assignments update the variable they name with the value they denote",
 "Each assignment form (local, global, nested, declaration, reassignment, and every compound operator, separated from the name by a blank) is translated to code that sets exactly the named variable: local names stay local and global or dotted names set the last component in the object denoted by the others, even when this component is not an identifier (a-b). A compound operator applies that operator to the current value and the whole right-hand side. Reassigning a global or nested variable that was never declared is an error in strict validation mode and allowed otherwise.",
 ["programs", "inputs"], "every assignment form, compound operator and validation mode, with the right-hand sides, names and integer values stated in the bounds",
 "Tests translate a handful of assignments.",
 ["template/razor_repl_assign.go"], [("assignExpressionInternal", "template/razor_repl_assign.go")])
prop("C24", "Non-template content passes through unchanged; failures never corrupt it",
 "Apart from the standard substitutions and from a first line naming gotemplate as interpreter, content without any template delimiter, or carrying the opt-out marker, is returned unchanged and reported as unchanged, as is everything when rendering is disabled (apart from razor translation). When rendering fails (in parsing or execution, at any place) and strict mode is not requested, the content is returned unaltered, reported as unchanged and without error. In strict mode (by option, by marker, by the name of a template file ending with .gt, .gte or .template, or for code supplied directly) the failure is always reported as an error. The mode does not alter a successful rendering. Processing never panics and always ends, whatever the content.",
 ["inputs", "configurations"], "every content over the stated alphabets within the stated lengths, every document of the stated kinds of lines, every option combination and file name class",
 "Tests render specific documents and check the success path.",
 ["template/template_process.go", "template/template_handler.go", "template/template_error_handler.go", "template/template.go"],
 [("processContentInternal", "template/template_handler.go"), ("errorHandler.Handler", "template/template_error_handler.go")])
prop("C25", "Paused sections are emitted verbatim",
 "From the line holding a pause marker up to the line before the matching resume marker, template (respectively razor) delimiters are not interpreted and the section is emitted exactly as written; outside, processing is as usual. Pausing templating pauses razor as well; pausing razor alone leaves templating active. A document whose paused sections cover all its delimiters renders to itself. This is so whatever the delimiters in use.",
 ["inputs"], "every document of up to the stated number of lines made of markers, delimiters and arbitrary text",
 "Tests check one or two fixed documents.",
 ["template/template_handler.go", "template/razor.go"], [("pause replacement", "template/template_handler.go"), ("ensureInit", "template/razor.go")])
prop("C26", "Rendering a file never loses the source and writes only the expected target",
 "Processing a file writes the rendered result at exactly the documented place: template suffixes are removed, '.generated' is inserted before the extension unless overwriting, and the path is relocated under the target folder when one is given. When a non-template file is rendered in place without overwrite its original content remains available under the '.original' name; a template file is removed only when overwriting in place. A template without extension whose result is blank is not written. Nothing is written when the file is unchanged in place (which includes files without template code), when output goes to the console, or when rendering fails; the failure of one file does not prevent the others from being written. The file keeps the mode of its source, a script (#!) is executable.",
 ["inputs", "configurations"], "every combination of file name class, overwrite/print options, source/target relation and rendering outcome",
 "Tests run main on one directory tree; option/name combinations are not crossed.",
 ["template/template_handler.go", "template/template_process.go", "template/utils.go"],
 [("processTemplate", "template/template_handler.go"), ("getTargetFile", "template/utils.go")])
prop("C27", "File selection: patterns, exclusions and depth are honoured",
 "Pattern arguments are split on commas with blanks ignored, preserving order and losing none. Exclusion keeps exactly the files matching none of the exclusion patterns, in order. Searching a folder returns, once each, exactly the files (not the folders) matching one of the patterns in the folders up to the requested depth, whatever characters the folder names hold; when links are followed it also returns those reached through them, and terminates even when links form cycles.",
 ["inputs"], "every pattern/file list within the bound; every small directory tree in the stated set",
 "Tests use fixed names.",
 ["utilities.go", "utils/io.go"], [("extend/exclude", "utilities.go"), ("FindFilesMaxDepth", "utils/io.go")])
prop("C28", "Context sources are combined with later sources taking precedence",
 "The rendering context holds every variable defined by the optional files, the imported files and the named values, later definitions replacing earlier ones in that order. A file that is not a map, or that is given a name, is stored under that name. A missing optional file is skipped, a missing required file is an error unless missing files are ignored, and a file whose content cannot be read is always an error. A named value that is not a file is converted (number, map...) or kept as text; unnamed values that are not files are available in order in ARGS.",
 ["inputs", "configurations"], "every combination of up to the stated number of sources with arbitrary overlap of names",
 "main tests use one or two import files.",
 ["context.go"], [("createContext", "context.go")])
prop("C29", "Substitution expressions are parsed and applied in order",
 "A substitution '/regex/replacement' (any delimiter) replaces every match by the replacement; with 'd' it deletes the matches, including the line end when the expression is anchored at end of line; substitutions apply in the order given. Malformed expressions are rejected when configured. Text that matches nothing is unchanged.",
 ["inputs"], "every content over the stated alphabet within the bound and every expression of the stated family",
 "Tests apply a few substitutions on a few strings.",
 ["utils/substitute.go"], [("InitReplacers/Substitute", "utils/substitute.go")])
prop("C30", "Bash rendering quotes values so that each element stays one word",
 "Converting data to bash assigns every scalar, list and map entry under its key, in alphabetical key order, losing none. A string that contains blanks, line breaks, brackets or parentheses (or a comma when it is an element of a list) is rendered quoted and escaped, others verbatim apart from dollars, which are escaped in map entries; list elements stay separate words. Numbers and booleans are rendered as their printed form.",
 ["inputs"], "every key/value over the stated alphabet within the bound, every nesting up to the supported levels",
 "Tests convert a few literals.",
 ["collections/convert_data.go"], [("toBash/quote", "collections/convert_data.go")])
prop("C31", "Option names and function registrations resolve consistently",
 "Every function registered is callable under its name and every alias resolves to the same function, category and help as its primary name; registering functions never removes or alters unrelated ones. Aliases created in templates call the aliased function with the preset arguments followed by the supplied ones. Listing functions is complete, sorted and without duplicates.",
 ["configurations", "inputs"], "every registration table of up to the stated number of names and aliases",
 "Tests look up a few names.",
 ["template/func_table.go", "template/add_funcs.go"], [("AddFunctions/addFunctions", "template/func_table.go")])
prop("C32", "Concurrent rendering from several goroutines is safe",
 "Rendering templates concurrently from different template objects, each with its own context, gives the same results as rendering them one after the other. No rendering observes another's protected strings, delimiters or context. No interleaving fails.",
 ["schedules"], "every interleaving of two renderings at their synchronisation operations within the stated number of preemptions, and every other order of their memory accesses that the locks allow",
 "Tests are sequential.",
 ["template/razor.go", "template/razor_repl_literal.go", "template/template.go"],
 [("templateMutex, global replacement cache, global long string store", "template/template.go template/razor.go")])
prop("C33", "Commands run from templates get exactly their arguments, input and folder",
 "run, exec and the aliases over them execute exactly one program: a single word is the program itself, a text or file starting with #! is given to its interpreter (after its option), any other text is given to the default shell in a temporary script followed by the arguments. The program gets the printed form of the arguments in order (patterns matching files replaced by these files), the standard input and environment of gotemplate, and runs in the folder of the template. The result is what it prints, converted to data by exec when it is data. A program that fails, does not exist or cannot be executed gives an error with its status and what it printed on its standard error. No temporary script is left behind.",
 ["inputs", "fault_sequences"], "every command, script, file and arguments within the bounds, and every failure of the program or of its start",
 "Tests run a few shell commands.",
 ["utils/exec.go", "template/extra_runtime.go"], [("GetCommandFromFile, GetCommandFromString", "utils/exec.go"), ("run, exec, addAlias", "template/extra_runtime.go")])
prop("C34", "String objects behave as the standard library on the same text",
 "Every method of the string and string array objects available in templates gives what the corresponding function of the standard library gives for the same text: searching, counting, replacing, splitting, trimming, joining, changing case, repeating, quoting. Sorting gives the same elements in order, numbering lines prefixes every line with its number, and no method modifies the object it is applied on unless documented.",
 ["inputs"], "every text within the bounds over alphabets holding blanks, separators and multi-byte characters",
 "Tests call a few of the methods on fixed texts.",
 ["collections/string.go", "collections/string_array.go"], [("String", "collections/string.go"), ("StringArray", "collections/string_array.go")])
prop("C35", "The command line renders exactly what is requested, where it is requested",
 "The command renders, once each, the files given and the files of the source folder that match the patterns within the requested depth, minus the exclusions; the default patterns apply only when no file and no standard input is given. Results go in place, under the target folder or on the console as requested. Values come from the optional imports, the imports and the named values in this order of precedence. Every rendering option takes effect, from the command line or the environment, and only when given; the functions of a disabled group are not available and the others are. Code given as an argument or through the standard input is rendered on the console, in order. A missing source or import, an invalid value, a text that is neither code nor a file, or a strict rendering that fails gives a non-zero exit code, after every other file is rendered; otherwise the code is zero. The temporary folder is always removed.",
 ["inputs", "configurations", "fault_sequences"], "every combination of the stated options, files and texts",
 "main tests run about twenty command lines on a single template.",
 ["main.go", "utilities.go", "context.go"], [("runGotemplate", "main.go"), ("exclude, extend, readStdin", "utilities.go"), ("createContext", "context.go")])
prop("C36", "File functions report and store exactly what is there, in the template folder",
 "The functions on files take names relative to the folder of the template (or full paths). Each test (exists, is a folder, is a file, is readable, writable, executable by its owner, is empty) and the size, mode and information of a file are those of the file named, links being followed; a name that does not exist does not exist and is not an error for the tests that answer it. Loading a file gives its exact content. Saving data writes exactly its printed form in the file, replacing what was there, and nothing anywhere else; a place that cannot be written is an error. glob gives the sorted names of the files that match each pattern. Joining paths gives the clean path of the elements.",
 ["inputs", "configurations"], "every kind, permission and content of file within the bounds, every name form, every place",
 "Tests read one or two fixed files.",
 ["template/extra_os.go", "template/extra_runtime.go"], [("file functions", "template/extra_os.go")])
prop("C37", "Included templates run with their own context and give exactly their result",
 "include renders the template, the file or the code it is given and returns exactly its result, whatever this result. What is included sees the values of the dictionary given, then the constants and the variables of its caller (also under _), and its other arguments in ARGS; nested inclusions see the variables of all their callers, before and after what they include. Razor is applied once to the text included. After an inclusion, successful or not, the caller still has its own context and its dictionary still holds what it put in it. A name that is not found, a text that cannot be parsed and a failing execution are errors. ellipsis calls a function with each element of a list as an argument.",
 ["inputs", "histories"], "every source of inclusion, arguments, body and nesting within the bounds",
 "Tests include a few fixed templates.",
 ["template/extra_runtime.go", "template/template_process.go"], [("include, runTemplate, optimizedRunTemplate, ellipsis", "template/extra_runtime.go")])
prop("C38", "Lists and dictionaries describe their elements in order",
 "Joining a list gives the printed forms of all its elements in order with the separator between them. The kinds and types of the elements are available for every value, null included. The length, count and capacity, the first and last elements are those of the list. Creating a list or dictionary from another gives one of the same flavour. Keys are sorted and values follow the order of the keys. Transposing a dictionary gives each value as a key, with the key, or the sorted keys, that held it. None of these operations modifies what it is applied on.",
 ["inputs"], "every list and dictionary within the bounds, of every flavour",
 "Tests use a few literals without null.",
 [CI+"list_helper.go", CI+"dict_helper.go", CI+"generic.go", "collections/string_array.go"], [("Join, GetTypes, GetKinds, Transpose, KeysAsString, GetValues", CI+"dict_helper.go")])
prop("C39", "Data written as JSON or YAML reads back as the same data",
 "Writing a list or dictionary as JSON (compact, pretty or quoted) or as YAML, or printing it, gives a text that reads back as the same lists, dictionaries, texts, numbers and booleans, null being read as an empty dictionary. Texts that look like numbers, booleans, null or syntax stay texts.",
 ["inputs"], "every value within the bounds (texts starting with a line break excepted in YAML, which the YAML library cannot represent)",
 "Tests convert a few literals in one direction.",
 ["json/json.go", "yaml/yaml.go", "template/extra_data.go"], [("Marshal/Unmarshal", "json/json.go"), ("Marshal/Unmarshal", "yaml/yaml.go"), ("toJson, toYaml, fromJson, fromYaml", "template/extra_data.go")])
prop("C40", "Mathematical functions give the value of the function they name",
 "Each function on one or two numbers (trigonometric, hyperbolic, logarithms, exponentials, powers, roots, Bessel, gamma, remainders, decomposition of floats...), under its name or any of its aliases, gives the value of the function of that name of the standard library for its arguments in the documented order, whole numbers of the 64-bit range being presented as integers. Given a list as first argument, it gives the list of the values for each element and leaves the list unchanged. The text of a number is that number, any other text is an error.",
 ["inputs"], "every float64 (every bit pattern) for most functions; the stated ranges for the others",
 "Tests evaluate a few points of a few functions.",
 ["template/extra_math.go", "template/math_base.go", "template/math_trig.go", "template/math_utilities.go"], [("process, processFloat, processFloat2, simplify", "template/math_utilities.go"), ("one function each", "template/math_trig.go")])
prop("C41", "Utility functions build exactly the documented texts, lists and selections",
 "For every argument: id keeps letters, digits and underscores and replaces each run of other characters by the replacement, taken literally; repeat, formatList, mergeList, joinLines, splitLines, concat, indent, nIndent, sIndent, char and lenc give exactly the documented text or list, in order, with no element lost, added or altered; string, array, isNil and isSet classify any value; get, hasKey, pluck, pick, pickv, omit, key and content select exactly the entries named (with their defaults), refuse what is not a map, and leave their arguments unchanged; rawList prints its elements without quotes.",
 ["inputs"], "texts of up to 4-7 characters, lists of up to 3 elements and dictionaries of up to 3 keys, of every flavour",
 "Tests evaluate a few calls of some of these functions.",
 ["template/extra_utils.go", "template/extra_data.go", "template/slice.go", "utils/list.go", "collections/string_util.go"], [("id, repeat, formatList, mergeList, joinLines", "template/extra_utils.go"), ("get, hasKey, pluck, pick, pickv, omit, key, content", "template/extra_data.go"), ("MergeLists, FormatList, JoinLines", "utils/list.go")])
prop("C42", "Addons, delimiters, exclusions and extensions apply exactly as configured",
 "For every configuration: a function exists when and only when it belongs to the base or to an enabled addon, and razor is left verbatim when disabled; options changed in a context never alter its parent or the contexts created before; the delimiters given replace the default ones, which become plain text; exactly the razor expressions listed (by GOTEMPLATE_IGNORE_RAZOR in any of its forms, or by the API) are left verbatim; the .gte files of the folder and of the folders of GOTEMPLATE_PATH, down to the depth of search and no others, are loaded when the addon is enabled: the templates, functions and variables they define are then available to every template, whatever other extension fails, the last one loaded having precedence.",
 ["inputs", "histories"], "every pair of addons, up to 4 delimiters, folders up to a depth of 4, searches up to a depth of 3, the stated kinds of extensions",
 "Tests use the default configuration and do not load extensions.",
 ["template/template.go", "template/add_funcs.go", "template/options.go", "template/func_table.go", "utils/io.go"], [("NewTemplate, initExtension, GetNewContext, importTemplates", "template/template.go"), ("addFuncs", "template/add_funcs.go"), ("applyRazor", "template/razor.go")])
prop("C43", "Collection functions of templates are exact for every form of argument",
 "list, append, prepend, reverse, rest, initial, unique, union, intersect, without, contains, containsStrict, find, findStrict, removeEmpty, removeNil, dict, keys, values, set, unset, merge, undef, isZero and bool, as called from templates, give exactly the result of the operation they name, in order, whatever the form of the list (a plain slice, a list of any flavour, a scalar, a text) or of the dictionary and the accepted order of the arguments (the collection first or last); they change nothing but the entry or the dictionary they are asked to change, and refuse arguments that have no meaning.",
 ["inputs"], "lists of up to 3 elements, dictionaries of up to 3 keys, texts of up to 5 characters, every flavour and order of arguments",
 "Tests evaluate a few calls with one form of argument.",
 ["template/extra_data.go", "collections/implementation/list_helper.go", "collections/implementation/dict_helper.go", "collections/utils.go"], [("addElements, prepend, reverse, unique, union, intersect, without, containsInternal, findInternal, set, unset, merge, createDict", "template/extra_data.go"), ("IfUndef", "collections/utils.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
