#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that ids,
statements and anchors are edited in one reviewed place)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None,
         observe=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Dotted-name lookup follows one rule, in C and in Python",
     "Looking up a dotted name walks its parts left to right: each part (an identifier) is taken as a key if the object at hand is a mapping containing it, otherwise as an attribute, and with auto-calling on every function or method met on the way (never a class or a plain instance) is called with no arguments before going on. "
     "If a part is missing the lookup raises NotFound naming that part, and any other exception raised by a called function or a property reaches the caller unchanged. "
     "The C accelerated and the pure-Python lookup give the same result or the same exception for every object graph, name and entry point, and neither changes the objects or keeps references to them.",
     ["inputs", "programs"],
     "every object graph built from mappings, instances, classes, functions, methods, properties and raising members; every dotted name over it; auto-calling on or off; every lookup entry point; both implementations",
     "The tests try a few dozen fixed names on one fixed object; the rule is over all combinations of container kind, shadowing of keys by attributes, callable kinds at each position and failure position.",
     ["Cheetah/NameMapper.py", "Cheetah/c/_namemapper.c", "Cheetah/c/cheetah.h"],
     [("valueForName / _valueForName walk", "Cheetah/NameMapper.py:_valueForName; Cheetah/c/_namemapper.c:PyNamemapper_valueForName"),
      ("callable-but-not-class test", "Cheetah/NameMapper.py:_isInstanceOrClass; Cheetah/c/_namemapper.c:isInstanceOrClass")],
     observe=["return value or exception of the lookup functions", "rendered placeholder text"])

prop("C02", "Placeholder namespaces are searched in one fixed order",
     "A placeholder takes its first name part from the first namespace that has it, in the order: local variables of the method being rendered, variables set globally by the template, the template object's own attributes and methods, the caller's search list in the given order, the generated module's globals, the Python builtins; the rest of the name is resolved inside that object only. "
     "If no namespace has it, rendering raises NotFound and nothing is written for it; has-variable and get-variable-with-default queries answer from the global variables, the template object and the search list.",
     ["inputs", "programs", "configurations"],
     "every assignment of names to namespaces, every search list shape, every way of defining a name in the template, with and without stack-frame lookup, both lookup implementations",
     "Tests cover single-namespace hits and a handful of shadowing pairs; precedence is a statement over all subsets of namespaces holding the name at the same time and over their histories of updates.",
     ["Cheetah/NameMapper.py", "Cheetah/c/_namemapper.c", "Cheetah/Template.py", "Cheetah/Compiler.py"],
     [("valueFromFrameOrSearchList / valueFromSearchList order", "Cheetah/NameMapper.py; Cheetah/c/_namemapper.c"),
      ("search list construction [globalSetVars, self] + searchList", "Cheetah/Template.py:_initCheetahInstance"),
      ("varExists / hasVar / getVar", "Cheetah/Template.py")],
     observe=["rendered output", "NotFound"])

prop("C03", "Text outside Cheetah constructs reaches the output verbatim",
     "Every character of a template that belongs to no placeholder, directive, comment or escape appears in the output exactly once and in order; an escaped start token yields the bare token, a comment yields nothing, raw sections yield their text unchanged. "
     "The only whitespace removed is the one the language defines: a directive or comment alone on its line takes its whole line with it, a slurp takes the rest of its line and the line end, a multi-line comment takes the blanks between it and the line end, and directives closed explicitly or sharing their line with text leave the text around them alone. "
     "This does not depend on which start and end tokens are configured or on the line-ending convention.",
     ["inputs", "configurations"],
     "every interleaving of text characters, start-token characters, escapes, line ends, comments, raw sections and directives, under every token configuration",
     "The tests pin some one-line and three-line examples with default tokens; the combinations of neighbouring constructs, whitespace and line ends are unbounded.",
     ["Cheetah/Parser.py", "Cheetah/SourceReader.py", "Cheetah/Compiler.py"],
     [("plain-text scanner", "Cheetah/Parser.py:eatPlainText, _HighLevelParser.parse"),
      ("whitespace gobbling around directives", "Cheetah/Parser.py:_eatRestOfDirectiveTag, _eatToThisEndDirective, Cheetah/Compiler.py:handleWSBeforeDirective"),
      ("comments", "Cheetah/Parser.py:eatComment, eatMultiLineComment"),
      ("merging and quoting of text chunks", "Cheetah/Compiler.py:addStrConst, commitStrConst")],
     observe=["rendered output", "source text written by the compiler"])

prop("C04", "Control-flow directives execute with Python's semantics",
     "Rendering a template executes its directives in order with the meaning of the Python statements they name: conditionals and one-line and inline forms, loops with break and continue, repeat, try/except/finally, assertions, raise, stop and return, and assignments, however they are nested. "
     "The output is exactly the text and placeholder values reached by that execution, each once and in order, and an exception that nothing in the template handles reaches the caller of the rendering.",
     ["programs", "inputs"],
     "every well-formed nesting of the directives, both in block, one-line and inline form, and all data",
     "Tests check each directive alone or in one nesting; the semantics of arbitrary compositions (loop control inside try inside loop, return inside capture, ...) is a statement over all programs.",
     ["Cheetah/Compiler.py", "Cheetah/Parser.py", "Cheetah/Template.py"],
     [("statement generation and indentation bookkeeping", "Cheetah/Compiler.py:MethodCompiler.addIndentingDirective, addReIndentingDirective, dedent"),
      ("directive parsers", "Cheetah/Parser.py:eatIf, eatFor, eatRepeat, eatUnless, eatTry...")],
     observe=["rendered output", "exception at the caller"])

prop("C05", "Block structure: exactly the well-formed templates compile",
     "A template compiles if and only if its directives are well formed: every block directive that needs an end has one naming it, ends match the innermost open block, clauses such as else, elif, except and finally appear only inside a block that can have them, in an order Python allows, bodies are not empty, and only enabled directives are used. "
     "Anything else, and any construct cut short, is rejected at compile time with a parse error on a line of the template - for a wrong end or a disabled directive, on its own line - and never with a different kind of failure or a hang.",
     ["inputs", "programs", "configurations"],
     "every sequence of directive tags, block ends, clauses, placeholders with unbalanced brackets, and every enabled/disabled directive configuration",
     "Tests contain a dozen malformed inputs; well-formedness is a language, and both inclusion directions have to hold for all strings of it.",
     ["Cheetah/Parser.py", "Cheetah/SourceReader.py", "Cheetah/Compiler.py"],
     [("open-directive stack", "Cheetah/Parser.py:pushToOpenDirectivesStack, popFromOpenDirectivesStack, assertEmptyOpenDirectivesStack"),
      ("end-directive parsing", "Cheetah/Parser.py:eatEndDirective, isDirective, matchDirectiveName"),
      ("error position", "Cheetah/Parser.py:ParseError, Cheetah/SourceReader.py:getRowColLine")],
     observe=["success or exception of compilation, its type, line and column"])

prop("C06", "Expressions and placeholders evaluate as their Python counterparts",
     "An expression inside a placeholder or directive evaluates to what the same Python expression gives when every placeholder in it stands for the value the name lookup finds, for every nesting of calls, subscripts, slices, attribute chains, literals, strings and operators. "
     "A placeholder in text ends exactly where its expression ends, whichever of its forms (bare, braced, parenthesised, bracketed, silent, cached, with filter arguments) is used, and the text after it is untouched.",
     ["programs", "inputs"],
     "every expression tree over placeholders, literals, calls, subscripts and operators, in every placeholder form and directive position, followed by every kind of text",
     "Tests list particular expressions; the translation must be right for all trees, delimiters and following characters.",
     ["Cheetah/Parser.py", "Cheetah/Compiler.py", "Cheetah/NameMapper.py"],
     [("expression and placeholder parser", "Cheetah/Parser.py:getExpressionParts, getCheetahVarBody, getCallArgString, eatPlaceholder"),
      ("translation to Python", "Cheetah/Compiler.py:genCheetahVar, genNameMapperVar, addPlaceholder")],
     observe=["rendered output", "arguments received by called functions"])

prop("C07", "Variables set in a template have the documented scope",
     "A plain assignment, loop variable or captured block is visible from that point to the end of the method it is in and nowhere else; a global assignment is visible to every method and included template of that template object from then on and to no other template object; a module assignment and class attribute are shared by the compiled class. "
     "Assigning, deleting or augmenting a variable never changes the caller's search-list objects, and two template objects of one class or of different classes never see each other's variables or output.",
     ["programs", "histories"],
     "every sequence of assignments, deletions, calls between methods, includes and renderings over any number of template objects",
     "Tests render one object once; leaks between methods, objects and successive renderings need histories.",
     ["Cheetah/Compiler.py", "Cheetah/Template.py"],
     [("addSet / setGlobalVar / module-level set / #del / #attr", "Cheetah/Compiler.py"),
      ("per-instance global variables", "Cheetah/Template.py:_initCheetahInstance, setGlobalVar")],
     observe=["rendered output", "caller's dictionaries after rendering"])

prop("C08", "Captured output goes to its capture and nowhere else",
     "Text produced while a call argument block, a capture block, a region transformed by a function, or a method whose result is used as a value is being rendered becomes exactly that value, and text produced outside goes to the enclosing destination, in order, for every nesting. "
     "Rendering with a transaction writes to the transaction the same text that rendering without one returns, and when an exception leaves a capture the text before and after it still goes to the right destination.",
     ["programs", "fault_sequences"],
     "every nesting of capturing constructs, method calls and exceptions, with and without a transaction",
     "Tests have single-level captures without failures; misdirected output shows only for particular nestings and exception positions.",
     ["Cheetah/Compiler.py", "Cheetah/Template.py", "Cheetah/DummyTransaction.py", "Cheetah/Servlet.py"],
     [("call region / capture region / transform: swap of trans and write", "Cheetah/Compiler.py:startCallRegion, endCallRegion, addCapture..., setTransform"),
      ("DummyTransaction response buffer", "Cheetah/DummyTransaction.py"),
      ("method prologue and epilogue", "Cheetah/Compiler.py:methodDef, _addAutoSetup")],
     observe=["rendered output", "arguments received by the called functions", "transaction's buffer"])

prop("C09", "Output filters apply to every placeholder in their region only",
     "Every value inserted by a placeholder or echo is turned into text by the filter in force at that point: the one the template object was created with, or the one of the innermost filter directive around it in the same method, which stops applying at its end; filter arguments of the placeholder are passed through. "
     "The standard filters compute what they document for every value (none to empty string, web-safe escaping of the markup characters, stripping, squeezing, length limit) and plain text is never filtered.",
     ["programs", "inputs", "configurations"],
     "every nesting of filter regions, method calls, includes and captures, every filter and every value",
     "Tests apply one filter to one value; region restore and inheritance across calls and includes are properties of nestings.",
     ["Cheetah/Filters.py", "Cheetah/Compiler.py", "Cheetah/Template.py"],
     [("setFilter / closeFilterBlock", "Cheetah/Compiler.py"),
      ("filter classes", "Cheetah/Filters.py"),
      ("initial and current filter", "Cheetah/Template.py:_initCheetahInstance, _handleCheetahInclude")],
     observe=["rendered output", "filter invocations and arguments"])

prop("C10", "Cache regions replay their last refresh until it expires",
     "A cached region or placeholder is evaluated on its first rendering and afterwards replays the text of its latest evaluation, until its refresh interval has passed, its test becomes true, a new value of its vary-by expression is seen (each value having its own copy), or the application asks for a refresh; then it is evaluated again. "
     "Regions, vary-by values and template objects never see each other's cached text, a region asked to refresh is always evaluated again on the next rendering, and a failed evaluation caches nothing new.",
     ["histories", "fault_sequences"],
     "every history of renderings, clock advances, data changes, refresh requests and failing evaluations over any set of regions, vary-by values and template objects, with any conforming store",
     "Tests render each cache form once; staleness and cross-talk need histories and clock control.",
     ["Cheetah/CacheRegion.py", "Cheetah/CacheStore.py", "Cheetah/Compiler.py", "Cheetah/Template.py"],
     [("startCacheRegion / endCacheRegion code", "Cheetah/Compiler.py"),
      ("CacheRegion / CacheItem", "Cheetah/CacheRegion.py"),
      ("refreshCache / getCacheRegion", "Cheetah/Template.py")],
     observe=["rendered output and number of evaluations"])

prop("C11", "The cache stores behave as the documented store protocol",
     "A cache store (in memory, or the wrapper of a memcached client) is a map from keys to values with optional expiry times: set always stores, add stores only when the key is absent and replace only when it is present (and otherwise they raise and change nothing), get returns the last stored value or raises KeyError when it is absent or past its expiry time, delete removes or raises KeyError, clear empties it. "
     "Stores are independent of each other.",
     ["histories"],
     "every sequence of operations over any keys, values, expiry times and clock readings on any number of stores",
     "No test exercises the store directly beyond set and get through templates.",
     ["Cheetah/CacheStore.py", "Cheetah/CacheRegion.py"],
     [("MemoryCacheStore", "Cheetah/CacheStore.py")],
     observe=["results and exceptions of store operations"])

prop("C12", "Compiling twice gives what was asked for, cached or not",
     "The class (or module source) obtained from a compile request renders as one freshly compiled from that request's own source or file contents, settings, base class, names, globals and preprocessors, whether or not compiled classes are being kept and whatever was compiled before. "
     "Identical requests with keeping on yield the same class, any request differing in one of those respects never does, classes made without keeping are never shared, and no module loaded before is replaced.",
     ["histories", "configurations"],
     "every history of compile requests with arbitrary combinations of options, file modifications included",
     "Tests compile unrelated templates; a wrong cache key shows only for pairs of requests that collide.",
     ["Cheetah/Template.py"],
     [("compile cache and its key", "Cheetah/Template.py:compile"),
      ("unique module naming", "Cheetah/Template.py:_genUniqueModuleName")],
     observe=["identity and rendering of the returned classes"])

prop("C13", "Inheritance: overriding, extending and calling up work as in Python",
     "A template's methods and blocks are methods of its class: a derived template (by directive or by base-class option) renders the most derived definition of every method, super-calls reach the next one up, and everything not overridden is inherited. "
     "The derived template's own loose text goes into the method it implements and nowhere else, and compiling or rendering a derived template never changes what its bases render.",
     ["programs"],
     "every inheritance chain, every set of methods, blocks, arguments and attributes at each level and every pattern of calls and super-calls",
     "Tests have two-level chains with one method; resolution is over all chains and override subsets.",
     ["Cheetah/Compiler.py", "Cheetah/Template.py", "Cheetah/Parser.py"],
     [("#extends / #implements / #block / #def / #super / #attr", "Cheetah/Compiler.py:ClassCompiler, ModuleCompiler.setBaseClass; Cheetah/Parser.py:eatSuper"),
      ("assigning required template members to foreign base classes", "Cheetah/Template.py:_addCheetahPlumbingCodeToClass")],
     observe=["rendered output"])

prop("C14", "Includes insert exactly the included text or rendering",
     "A raw include inserts its text unchanged and uninterpreted, and a normal include inserts what the included template renders with the including template's search list, global variables and the filter the including object was created with; both take the text from the named file or from the given expression. "
     "The included template can set global variables seen by the includer, and repeated includes, includes in loops and nested includes behave the same as the first; a changed file or a changed name is honoured.",
     ["programs", "histories"],
     "every include graph, source kind, position and history of renderings",
     "Tests include one file once.",
     ["Cheetah/Template.py", "Cheetah/Compiler.py", "Cheetah/Parser.py"],
     [("_handleCheetahInclude and its per-object caches", "Cheetah/Template.py"),
      ("addInclude", "Cheetah/Compiler.py")],
     observe=["rendered output"])

prop("C15", "Missing values are handled as the active error policy says",
     "With an error catcher in force a placeholder whose name cannot be found (or whose evaluation raises NotFound) is replaced by the catcher's text (the original placeholder source, the emphasised form, the listed form, or the exception), passed through the filter, and all other output is unchanged; without one, NotFound is raised, and a silent placeholder yields nothing instead. "
     "A catcher applies from its directive onward until switched off and never hides errors raised by code that was found and called with a different kind of failure.",
     ["programs", "inputs"],
     "every placement of catchers, placeholders that are found, missing or failing, and every catcher",
     "Tests use one missing placeholder per catcher.",
     ["Cheetah/ErrorCatchers.py", "Cheetah/Compiler.py", "Cheetah/Parser.py"],
     [("addErrorCatcherCall / setErrorCatcher", "Cheetah/Compiler.py"),
      ("catcher classes", "Cheetah/ErrorCatchers.py"),
      ("silent placeholders", "Cheetah/Compiler.py:addSilent/addPlaceholder; Cheetah/Parser.py:eatPlaceholder")],
     observe=["rendered output", "exceptions", "listed errors"])

prop("C16", "Compiler settings act where set and leak nowhere",
     "A compiler setting given to a compilation, or by a settings directive from its position on, governs exactly the text it covers; a reset restores the defaults. "
     "No compilation, rendering or settings change alters the settings another compilation sees, and merging nested settings changes only the keys given.",
     ["histories", "configurations"],
     "every history of compilations with any settings, in-template settings directives and resets",
     "Tests use one setting in one compilation each.",
     ["Cheetah/SettingsManager.py", "Cheetah/Compiler.py", "Cheetah/Parser.py", "Cheetah/Template.py"],
     [("SettingsManager.updateSettings / mergeNestedDictionaries / deepcopy", "Cheetah/SettingsManager.py"),
      ("#compiler, #compiler-settings", "Cheetah/Parser.py:eatCompiler, eatCompilerSettings; Cheetah/Compiler.py:setCompilerSettings")],
     observe=["rendered output of later compilations", "settings read back"])

prop("C17", "The command line writes each output where asked, and nothing else",
     "Compiling or filling files from the command line produces, for every selected input, one output whose path follows from the input path, the input and output directories, extensions and the flat option, whose contents are those of compiling or rendering that input, with an existing output kept as a backup when backups are on. "
     "Failing inputs and collisions of flattened outputs make the command report failure, in one process or several, missing inputs are reported and skipped, and no other file is created, changed or deleted.",
     ["configurations", "inputs", "fault_sequences"],
     "every directory tree, selection of files and directories, and combination of options, serial or parallel, with failing inputs at any position",
     "Tests run a handful of option combinations on one fixed tree.",
     ["Cheetah/CheetahWrapper.py", "Cheetah/TemplateCmdLineIface.py"],
     [("_expandSourceFiles, _getBundles, _computeFilename/_fixExts, _compileOrFillBundle", "Cheetah/CheetahWrapper.py")],
     observe=["files on disk", "standard output", "exit status"])

prop("C18", "Templates import like Python modules while hooked, and only then",
     "While the import hook is installed, a module name is looked up directory by directory as a package, a Python module or, failing these, a template, which is compiled from its current text and saved beside it or in the cache directory; absolute, dotted, from- and relative imports, packages and replaced sources then work as in ordinary importing, a loaded name is not loaded again, and an import that fails leaves no module behind. "
     "Uninstalling restores ordinary importing, installing twice is the same as once, and ordinary modules import the same throughout; loading a template by file name gives the same module.",
     ["histories", "configurations"],
     "every history of installs, uninstalls, file changes and imports over any tree of packages, templates and modules",
     "Tests import one template from one directory.",
     ["Cheetah/ImportHooks.py", "Cheetah/ImportManager.py", "Cheetah/LoadTemplate.py"],
     [("CheetahDirOwner.getmod", "Cheetah/ImportHooks.py"),
      ("ImportManager", "Cheetah/ImportManager.py"),
      ("loadTemplateModule", "Cheetah/LoadTemplate.py")],
     observe=["imported modules and their rendering", "sys.modules, sys.path, import function"])

prop("C19", "Concurrent compiling and rendering is as if done one at a time",
     "Threads that compile templates and render separate template objects at the same time get exactly what they would get running alone: each class renders its own source, identical kept requests share one class, and no output, variable, filter or cached text crosses over. "
     "No interleaving deadlocks or raises an error that no serial order would.",
     ["schedules"],
     "every interleaving of any number of threads compiling and rendering",
     "Tests are single threaded.",
     ["Cheetah/Template.py", "Cheetah/Compiler.py"],
     [("compile lock", "Cheetah/Template.py:_compileLock / compile"),
      ("per-object state", "Cheetah/Template.py:_initCheetahInstance")],
     observe=["classes and output obtained by each thread"])

prop("C20", "Web input delivers the requested fields, typed and defaulted",
     "Fetching the fields of a CGI request puts into the namespace, ahead of what is there, exactly the requested names, single-valued (the first) or as lists of all values in order, converted to the requested type, a field with the type in its name coming first; a missing single field gets the default and an unparsable number the bad value, and an exception class given for either is raised. "
     "When anything is raised nothing is put into the namespace, and nothing else in the request, the arguments or the template's variables is ever changed.",
     ["inputs", "configurations"],
     "every request contents and every combination of requested names, types, defaults and debug option",
     "Tests do not exercise it.",
     ["Cheetah/Utils/WebInputMixin.py", "Cheetah/Template.py"],
     [("_Converter, webInput", "Cheetah/Utils/WebInputMixin.py; Cheetah/Template.py")],
     observe=["returned dictionary and namespace", "exceptions"])

prop("C21", "Macros get their source text and expand in place",
     "A macro directive gives its macro exactly the source text it encloses (or the rest of its line) and the keyword arguments written in it, once, when the template is compiled; what the macro returns is treated as template source standing in that place, whatever constructs, other macro calls included, it contains and however long it is, and the text around it is untouched. "
     "Macros defined in a template exist from their definition on and in that template only, macros given with the settings exist everywhere in the compilations they are given to, and the given settings are not changed.",
     ["inputs", "configurations"],
     "every template with macro definitions and calls, nested and in every form, and every set of given macros",
     "Tests expand a few one-line macros; nesting, arguments, positions and lengths form an unbounded space.",
     ["Cheetah/Parser.py", "Cheetah/SourceReader.py"],
     [("macro definition and call", "Cheetah/Parser.py:eatDefMacro, eatMacroCall"),
      ("source being parsed", "Cheetah/SourceReader.py")],
     observe=["rendered output", "calls the macros receive", "the settings dictionary"])

prop("C22", "Disabled directives and refused expressions never get through",
     "A template that uses, anywhere in its text or in what a macro puts there, a directive (or embedded code) which the compiler settings disable or do not list among the enabled ones is refused, and restrictions it does not touch change nothing. "
     "Every placeholder, embedded code and directive expression that would run is shown, once and in the order of the text, to each configured expression hook, which can refuse the template, and what the hooks make of a placeholder, of embedded code or of the expression of an ordinary directive is what runs. "
     "The directive and placeholder hooks are called before and after each directive and placeholder.",
     ["inputs", "configurations"],
     "every template over all directives, nested and in one-line forms, and every combination of enabled and disabled directives and hooks",
     "Tests do not exercise it; one way around the check is enough to break it.",
     ["Cheetah/Parser.py", "Cheetah/Compiler.py"],
     [("_filterDisabledDirectives, _applyExpressionFilters and their callers", "Cheetah/Parser.py"),
      ("hook settings", "Cheetah/Compiler.py")],
     observe=["compilation refused or not", "calls the hooks receive", "what the rendering uses"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
