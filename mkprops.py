import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
A='asterisklint/'
p('C01','Every diagnostic that is reported can be rendered completely',
 'Whenever the linter reports a diagnostic, the report carries a location and a real value for every placeholder of its message text, so that rendering it never fails and never shows a missing or empty stand-in for the offending value. A diagnostic of a duplicate also carries the earlier occurrence.',
 ['inputs'],'every diagnostic class and every place and path in the code that can report it, for any configuration text',
 'The tests count the ids of a few reported messages per class; many classes are never reported by any test and no test looks at the rendered text, so a report that misses a value shows up only when a user triggers it.',
 [A+'defines.py',A+'dialplan.py',A+'varfun.py',A+'config.py',A+'file.py',A+'configws.py',A+'application.py',A+'app/base.py',A+'func_odbc.py'],
 [('message templates and their keyword arguments',A+'defines.py: MessageDef, MessageDefManager.on_message'),('DupeDefMixin',A+'defines.py')],observe=['stderr','web JSON results'])
p('C02','No configuration text can abort the checkers',
 'Whatever bytes a dialplan or func_odbc configuration file holds, reading it, checking its jumps and showing the dialplan run to completion: malformed text leads to a diagnostic and never to an uncaught exception. This includes names, arguments, offsets and jump targets that are dynamic, nested, empty or not ASCII.',
 ['inputs'],'all file contents, including invalid encodings, nested includes and dynamic names; nesting depth and number literals within the limits of the interpreter',
 'The tests feed some tens of short snippets; which type a value has (plain string, dynamic value, list, missing) and whether an index, split or conversion can fail depends on combinations of syntax that the samples do not reach.',
 [A+'dialplan.py',A+'application.py',A+'varfun.py',A+'variable.py',A+'function.py',A+'expression.py',A+'pattern.py',A+'app/base.py',A+'app/vall/',A+'func/vall/',A+'config.py',A+'configobj.py',A+'configws.py',A+'file.py',A+'func_odbc.py'],
 [('type distinctions between strings and dynamic values',A+'variable.py: Var and its users'),('guards and handlers around splits, indexes, conversions',A+'dialplan.py, varfun.py, pattern.py, config.py')])
p('C03','Reading and checking a configuration always terminates',
 'For every configuration, reading it and checking its jumps terminate: each repetition makes progress towards its end whatever the input is. Includes that lead back to themselves, both of files and of dialplan contexts, are followed at most once.',
 ['inputs','configurations'],'all inputs, all include graphs between files and between contexts, including cyclic ones',
 'A test that terminates shows only that its own input does; the inputs that could keep a loop or a recursion from ending (too many arguments, cyclic includes, a token at the very end) are outside the samples.',
 [A+'dialplan.py',A+'varfun.py',A+'variable.py',A+'pattern.py',A+'config.py',A+'file.py',A+'configws.py',A+'app/vall/builtin.py',A+'app/vall/app_stack.py'],
 [('scanning loops',A+'varfun.py: parse_variables, _find_brackets_end'),('argument padding loops',A+'app/vall/builtin.py, app/vall/app_stack.py'),('include cycle checks',A+'dialplan.py: match_pattern; '+A+'config.py: preprocessor')])
p('C04','The exit status tells whether anything was reported',
 'The dialplan check and the func_odbc check exit with status 1 exactly when at least one diagnostic that the user does not ignore was raised in the whole run (jump checks included), ident-scan when it lists similar identifiers and modules-show when it lists unknown applications or functions. The status of any command becomes the status of the process; an unknown command gives an error on standard error and status 1.',
 ['inputs','configurations'],'all configurations, all sets of ignored diagnostics, all commands',
 'The tests call the parsers, not the commands or the launcher; no test looks at an exit status.',
 [A+'main.py',A+'mainutil.py',A+'commands/','scripts/asterisklint',A+'defines.py'],
 [('return values of the commands',A+'commands/*.py: Main.handle_args'),('propagation',A+'mainutil.py: MainBase.__call__; '+A+'main.py: main; scripts/asterisklint')],observe=['exit status'])
p('C05','Each diagnostic is recorded once and shown unless it is ignored',
 'Each reported diagnostic is recorded exactly once under its own class, is passed to every listener of that class, and unless output is muted or that class is ignored by the user it is written exactly once to standard error with its location, its class name and its text. A diagnostic class is ignored exactly when the ignore list names it or holds a prefix of it that ends in an underscore.',
 ['inputs','configurations'],'all diagnostics, all values of the ignore setting, all mute settings',
 'The tests run muted and look at the counts only; the printing and the ignoring of messages is never exercised.',
 [A+'defines.py'],
 [('MessageDef.__init__, call_callbacks',A+'defines.py'),('MessageDefManager.__new__ and on_message',A+'defines.py')],
 state=[('raised','diagnostics so far, by class',A+'defines.py: MessageDefManager')],observe=['stderr','web JSON results'])
p('C06','Linting only reads: nothing is executed, written or printed to stdout',
 'Reading and checking a configuration has no side effects outside the process: no command is executed (in particular not those of exec directives), no file is written, removed or changed, no network or environment is touched, and the parsing and checking code itself prints nothing on standard output. Configuration files are opened only for reading and only through the opener that the caller supplied.',
 ['inputs'],'all configurations, all directives, all code reachable from parsing and checking',
 'A test would have to observe the whole system during every possible input; the tests look at return values and message counts.',
 [A+'file.py',A+'config.py',A+'dialplan.py',A+'application.py',A+'varfun.py',A+'func_odbc.py',A+'version.py',A+'app/',A+'func/','web/wsgi.py'],
 [('BinFileReader.include is the only place that opens configuration',A+'file.py'),('exec directives are reported, not run',A+'config.py: preprocessor')])
p('C07','Rewriting a configuration file is all or nothing',
 'When a config file is rewritten, its content is replaced only in one atomic step, after the complete new content has been written without error to a temporary file in the same directory. If anything fails before that, the original is left untouched and the temporary file is removed; the replaced file is the real file behind any symbolic link and keeps its owner and mode. Nothing is changed unless the user has answered y.',
 ['fault_sequences','crash_points'],'failure of any read, write, conversion, permission change or rename at any point of the rewrite; all symbolic links',
 'No test covers the rewriting; even with tests, each operation would have to fail in turn, at each line of the file.',
 [A+'helper/mutator.py','contrib/convert_dp_104_to_1100.py','contrib/make_patterns_canonical.py'],
 [('FileMutatorBase.process_file',A+'helper/mutator.py')],observe=['file system'])
p('C08','Known applications and functions are complete per Asterisk version',
 'For each supported Asterisk version, every application and function that the linter defines for it is known under its exact Asterisk name and is attributed to the module that provides it. No two of them share a name when case is ignored, and each version has the entries that stand in for unknown applications and unknown functions.',
 ['configurations'],'all supported versions, all module files, all applications and functions',
 'The tests use a handful of the roughly 250 names, and only with the default version.',
 [A+'app/vall/',A+'app/v11/',A+'app/v13/',A+'func/vall/',A+'func/v11/',A+'func/v13/',A+'version.py',A+'application.py',A+'varfun.py',A+'app/base.py',A+'func/base.py'],
 [('register() of each module',A+'app/vall/*.py, '+A+'func/vall/*.py'),('load_all',A+'application.py, '+A+'varfun.py'),('name and module properties',A+'app/base.py, '+A+'func/base.py')])
p('C09','Every application and function call is looked up and checked',
 'Every application that a dialplan step calls and every function that it reads or writes under a static name is looked up in the registry: exactly one diagnostic is reported if the name is unknown or is spelled in another case, and none if it is known. After that its arguments always reach the generic checks (unbalanced brackets or quotes, or separated arguments) and the checks of that application or function; a static application name that cannot be looked up, as it is empty or followed by white space, is reported.',
 ['inputs','programs'],'all dialplan steps, all applications and functions including those with specialised handling, reads, writes and conditional execution',
 'The tests go through few of the handlers; whether a specialised handler still performs the general steps on each of its paths is not visible from samples.',
 [A+'application.py',A+'varfun.py',A+'app/base.py',A+'func/base.py',A+'app/vall/',A+'func/vall/'],
 [('App.parse',A+'application.py'),('check_availability',A+'app/base.py'),('process_read_function, process_write_function',A+'varfun.py'),('__call__ chains',A+'app/base.py, '+A+'app/vall/*.py')])
p('C10','Declared argument limits are enforced exactly',
 'For every application that declares how many arguments it takes, a call with too few is reported as such, a call with too many is reported as such, and a call within the limits is reported as neither. For option arguments, unknown options and repeated options are reported exactly when they occur.',
 ['inputs','programs'],'all applications with declared limits, all numbers of arguments, all option strings',
 'Per application the boundary on each side would have to be tested; the tests do so for very few.',
 [A+'app/base.py',A+'app/vall/builtin.py',A+'app/vall/app_stack.py',A+'app/vall/app_voicemail.py',A+'app/vall/app_originate.py'],
 [('MinMaxArgsMixin.split_args',A+'app/base.py'),('AppArgsMixin, AppOptions.validate',A+'app/base.py'),('IfStyleApp.split_args',A+'app/base.py')])
p('C11','Every static jump is handed to the jump check',
 'Every destination of a jump application in a dialplan step that is kept (Goto, both branches of GotoIf, Gosub, both branches of GosubIf, and each of these inside ExecIf) is handed to the jump check, with an omitted context or extension replaced by those of the step itself and with the location of the step. The dialplan check and the web interface run the jump check after the complete dialplan has been read and before the results are used.',
 ['inputs','programs'],'all jump applications, all branches, all numbers of arguments, any number of destinations per step',
 'The tests count messages for a few bad jumps; a destination that is never collected yields no message, and no test enumerates the paths on which that could happen.',
 [A+'app/vall/builtin.py',A+'app/vall/app_stack.py',A+'app/vall/app_exec.py',A+'application.py',A+'dialplan.py',A+'commands/dialplan-check.py','web/wsgi.py'],
 [('jump_destinations of the handlers',A+'app/vall/builtin.py, app/vall/app_stack.py, app/vall/app_exec.py'),('DialplanContext.add',A+'dialplan.py')],
 state=[('jump_destinations','destinations to be checked',A+'application.py: App, '+A+'dialplan.py: Dialplan')])
p('C12','Every jump that cannot be resolved is reported, and no other',
 'For each collected jump: if its context is static and does not exist, or its static context, extension and priority match no step (own steps, included contexts, or the fallback extension for numeric priorities), or its extension or context is dynamic and its static label exists nowhere in that context or in the dialplan, exactly one diagnostic is reported at the location of the jump. If the target is found, nothing is reported, and whatever the outcome all other jumps are still checked.',
 ['inputs','programs'],'all combinations of static and dynamic context, extension and priority, and of existing and missing targets',
 'There are a dozen combinations of static and dynamic parts times the outcomes of the lookups; the tests sample some, with counts only.',
 [A+'dialplan.py',A+'pattern.py'],
 [('Dialplan.walk_jump_destinations',A+'dialplan.py'),('DialplanContext.match_pattern, has_label',A+'dialplan.py'),('Pattern.matches_extension',A+'pattern.py')])
p('C13','Each diagnostic points at the line that caused it',
 'Every diagnostic about a line of configuration carries the name of the file that holds that line and its one-based line number, also across included files: it never points at an earlier or later line or at another file. What is kept from a line (contexts, variables, extensions) keeps the location of that line, and diagnostics that name an earlier occurrence point at that earlier one.',
 ['inputs','histories'],'all files, include nestings and diagnostics',
 'The tests compare the number of messages per id, never their file or line.',
 [A+'file.py',A+'config.py',A+'configobj.py',A+'configws.py',A+'dialplan.py',A+'application.py',A+'varfun.py',A+'func_odbc.py',A+'app/base.py',A+'where.py'],
 [('Where objects made by the reader and passed along',A+'file.py: BinFileReader.__iter__ and all users of where')],observe=['stderr','web JSON results'])
p('C14','Every line of every file is read once, in order, through all layers',
 'Every physical line of a configuration file and of the files it includes passes each layer of the reader exactly once: none is skipped or repeated whatever its content, and lines with content stay in order (blank and comment lines may be held back within their file). Included lines take the place of the include line, reading resumes after it, each opened file is closed when it has been read, and an included file that is missing never ends the reading.',
 ['inputs','histories'],'all line contents (encodings, line endings, control characters, comments), all include nestings',
 'A layer that drops or repeats lines under a rare condition is seen only by an input with that condition.',
 [A+'file.py',A+'config.py',A+'configws.py'],
 [('BinFileReader and the chain of __iter__ generators',A+'file.py'),('ConfigParser.__iter__, preprocessor',A+'config.py'),('VerticalSpaceWarner',A+'configws.py')],
 state=[('_files, _generators, _filenames','the stack of files being read',A+'file.py: BinFileReader')])
p('C15','Nothing in the configuration is dropped silently',
 'Every line that the reader delivers is blank or comment, or ends up in the resulting model (context, step, include, variable), or is acted upon as a directive, or has a diagnostic reported for it. In particular every discarded, malformed or unsupported context, extension, variable or directive yields at least one diagnostic.',
 ['inputs'],'all lines, in every section they may appear in',
 'Silence is not visible in a count of messages unless a test was written for exactly that malformed line.',
 [A+'config.py',A+'dialplan.py',A+'func_odbc.py',A+'configobj.py'],
 [('ConfigParser.__iter__, preprocessor, ConfigAggregator.on_*',A+'config.py'),('DialplanAggregator.on_*, DialplanVarset.from_varset, DialplanContext.add',A+'dialplan.py'),('OdbcFunction.add, check_order, finalize',A+'func_odbc.py')])
p('C16','A duplicate never replaces the first definition',
 'When a step, label, variables section or func_odbc key is defined a second time, the first definition stays in force, the second is not added next to it, and exactly one duplicate diagnostic that refers to the first is reported. Every definition that is kept is remembered, so that any later duplicate of it is recognised; a repeated context or general section extends the first.',
 ['inputs','histories'],'all orders in which definitions and duplicates may come',
 'Tests define one duplicate of a few kinds directly after the original and count messages; they do not check which of the two is kept, nor later duplicates.',
 [A+'dialplan.py',A+'func_odbc.py'],
 [('DialplanContext.add: pattern_cache',A+'dialplan.py'),('Dialplan.add_general/add_globals, on_dialplancontext',A+'dialplan.py'),('OdbcFunction.check_order',A+'func_odbc.py')],
 state=[('pattern_cache','steps and labels so far, by pattern',A+'dialplan.py: DialplanContext')])
p('C17','Output does not depend on hash seeds or directory order',
 'Everything that the commands print is the same for the same configuration in every run: nothing printed or reported takes its order from a hash-ordered collection or from a directory listing, and where sorting decides the order, distinct items never tie.',
 ['histories','configurations'],'all hash seeds and directory orders',
 'A test run has one hash seed and one file system; with small collections the order mostly happens to be right.',
 [A+'commands/ident-scan.py',A+'commands/modules-show.py',A+'commands/dialplan-show.py',A+'commands/func_odbc-annotate.py',A+'main.py',A+'application.py',A+'varfun.py',A+'dialplan.py',A+'pattern.py',A+'version.py','web/wsgi.py','contrib/'],
 [('sorted() and sort() before output',A+'commands/*.py, main.py, application.py, varfun.py')],observe=['stdout','stderr'])
p('C18','modules-show lists every module, application and function in use',
 'Every application and function that is looked up while the dialplan is read is listed as used with its module, except that those that do not exist are listed as unknown instead; each used module that is not built in gets one load statement. The listing covers the complete dialplan.',
 ['inputs'],'all dialplans, all applications and functions',
 'No test runs the command; the bookkeeping would have to be tested for each way in which an application or function can be reached.',
 [A+'application.py',A+'varfun.py',A+'commands/modules-show.py'],
 [('AppLoader.get, FuncLoader.get and used_* properties',A+'application.py, '+A+'varfun.py'),('Main.print_*',A+'commands/modules-show.py'),('listeners for unknown names',A+'commands/modules-show.py: Aggregator')])
p('C19','Results do not depend on what was checked before in the same process',
 'Checking a configuration gives the same diagnostics whether or not other configurations were checked earlier in the same process: the answer to a web request has exactly the diagnostics of its own configuration, never those of another request, including one that failed halfway. Nothing that is remembered from one check alters the diagnostics of a later one.',
 ['histories'],'all sequences of checks or web requests in one process, including failing ones',
 'The tests reset the state between cases by hand and the web interface has no tests.',
 ['web/wsgi.py',A+'defines.py',A+'application.py',A+'varfun.py',A+'app/vall/builtin.py',A+'cls.py'],
 [('collect_messages and DialplanCheck.on_post','web/wsgi.py'),('process-wide singletons and class attributes',A+'application.py, '+A+'varfun.py, '+A+'defines.py')],
 state=[('process-wide state','singletons, class attributes, module globals',A+'cls.py, defines.py, application.py, varfun.py, app/vall/builtin.py')])
p('C20','All identifiers in use are recorded with their locations',
 'Every variable that the data of an application reads or counts under a static name is recorded with the location of its use and its name is checked for illegal characters, every label of a step that is kept is recorded, and every context is recorded once. ident-scan takes all of these into account and lists each of them in verbose mode.',
 ['inputs'],'all dialplans, all forms in which a variable, label or context can occur',
 'The tests look at messages only; the recorded identifiers are visible only in a command without tests.',
 [A+'varfun.py',A+'dialplan.py',A+'func/vall/func_math.py',A+'commands/ident-scan.py'],
 [('count_var and its callers',A+'varfun.py, func/vall/func_math.py'),('all_labels, contexts',A+'dialplan.py')])
p('C21','Patterns that are equal hash alike, sort together and count as duplicates',
 'Equality, hash and order of extension patterns are derived from the same parsed value, which is fixed once the pattern has been made, so that equal patterns always count as one and sorting is a strict total order. Two patterns with the same parsed value always share one canonical form and hence recognise the same duplicates.',
 ['inputs'],'all pairs of patterns',
 'It is a statement on all pairs; the tests compare a few.',
 [A+'pattern.py',A+'dialplan.py'],
 [('Pattern.__eq__, __hash__, __lt__, values',A+'pattern.py'),('get_sorted_patterns, pattern_cache',A+'dialplan.py')])
p('C22','Extension patterns match exactly the extensions that Asterisk matches',
 'A pattern is considered to match an extension exactly when Asterisk would match it, for all sets, ranges, wildcards and separators.',
 ['inputs'],'all pairs of pattern and extension','All pairs of strings; the tests have a few dozen.',
 [A+'pattern.py'],[('Pattern.matches_extension',A+'pattern.py')])
p('C23','The canonical form of a pattern matches the same extensions',
 'Rewriting a pattern into the canonical form that the linter suggests never changes which extensions it matches, and the canonical form of a canonical pattern is that pattern.',
 ['inputs'],'all patterns','All patterns; the tests have some tens.',
 [A+'pattern.py','contrib/make_patterns_canonical.py'],[('Pattern.canonical_pattern',A+'pattern.py')])
p('C24','Arguments, comments and substitutions are split like Asterisk does',
 'Comments, escapes, quoted arguments, nested brackets and substitutions are divided at the same characters where Asterisk divides them.',
 ['inputs'],'all lines','All strings; the tests have some tens.',
 [A+'file.py',A+'app/base.py',A+'varfun.py'],[('separate_args',A+'app/base.py'),('asterisk_comment_split',A+'file.py'),('parse_variables',A+'varfun.py')])
p('C25','Relative priorities and the shown dialplan equal those of Asterisk',
 'The numbers that relative priorities resolve to, the order of patterns and the text of the dialplan listing equal what Asterisk itself would show for the same configuration.',
 ['inputs'],'all dialplans','One recorded listing is compared.',
 [A+'dialplan.py'],[('DialplanContext.add, format_as_dialplan_show',A+'dialplan.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,x['id']
print(len(P))
