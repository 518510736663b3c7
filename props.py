#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = "ttp/ttp.py"
PROPS = []


def prop(id, title, statement, quant, why, files, mechanism, technique, note, over=("inputs",), observe=("result() of the parser object",),
         state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note, over=list(over), observe=list(observe), state=list(state)))


prop("P01", "Template line round-trip: exact values, only lines of the template's shape",
     "For every template line and every text line built from it by putting values in place of its match variables, the parser returns "
     "exactly those values under the variables' names, in one record per start line, whatever the literal text, blanks, digits, names, "
     "indentation and line endings are. A text line that differs from the template line in its indentation, its words, its letter case, "
     "its number of words or, under the exact indicators, its digits or blanks, yields nothing.",
     "all template lines of literals, variables and blanks; all values; all one-edit damages of a matching line",
     "The tests hold a few dozen fixed templates; regular expression construction has to be right for every mix of special characters, "
     "digits, blanks and adjacent variables, which only generated lines reach.",
     [T, "ttp/patterns/get_pattern.py"],
     [["line to regular expression", T + " _variable_class.form_regex"], ["regex scan", T + " _parser_class.parse / run_re"]],
     "Hypothesis-generated lines and values; round-trip oracle (values put in must come back) plus one-edit near-miss lines",
     "Literal text avoids the template metacharacters {{ }} and ##; up to 4 lines of up to 3 variables per template.")

prop("P02", "Hierarchical data comes back as the same tree",
     "Text produced by writing out a tree of records with a template of nested groups is parsed back into that very tree: every value in "
     "its own record, every child record inside its own parent, siblings in text order, lists and single records shaped as the group "
     "names say. The layout of the template itself (blank lines, comments, indentation of tags, separation of tags) does not matter.",
     "all group trees up to depth 4 with list and single-record names, all record trees over them, all orders of lines within a record",
     "A tree with a given interleaving of levels, repetitions and returns to outer levels is one of exponentially many; tests sample a "
     "few dozen device outputs.",
     [T],
     [["result placement", T + " _results_class.save_curelements / dict_by_path"], ["record sequencing", T + " _results_class.start"]],
     "Hypothesis-generated trees written out as text; round-trip oracle",
     "Depth up to 4, up to 6 groups per template.")

prop("P03", "Result paths place every record where the group name says",
     "For every group name - dotted paths, list markers, keys taken from matched, earlier matched or template variables, null and "
     "absolute paths, integer keys - each record lands at the addressed place of the results, merging with, appending to or creating "
     "what is there as documented for that marker. No other part of the results changes, and records whose key is unknown are dropped whole.",
     "all sequences of records over generated paths, markers, dynamic keys and key values",
     "Placement depends on the history of what was saved before at the same and neighbouring paths; tests check single histories.",
     [T],
     [["path formation", T + " _results_class.form_path"], ["placement", T + " dict_by_path, value_to_list, list_to_dict_fwd, save_curelements"]],
     "Hypothesis-generated record histories against an independent reference model of the path store",
     "Up to 3 groups and about 8 records per history.", over=("inputs", "histories"))

prop("P04", "Group boundaries: start, alternative start, end, table and failed starts",
     "Which record a matched line belongs to is decided only by the order of matched lines: a start line opens a record, an end line "
     "closes it together with everything nested in it, a start line that fails its condition suppresses its whole section, and lines of "
     "a group without an open record are ignored. Alternative start lines, table groups, explicit start marks and lines shared by "
     "several groups follow the same rules.",
     "all orders of start, alternative start, end, failing start and ordinary lines over nested groups",
     "Lines come in any order and any number in real text; boundary handling is a state machine whose histories tests only sample.",
     [T],
     [["state machine", T + " _results_class.make_results, start, add, join, end"], ["search regions", T + " run_re"]],
     "Hypothesis-generated line orders against a reference state machine",
     "Up to 6 groups; records opened by a bare start mark always get a value (known finding).", over=("inputs", "histories"))

prop("P05", "Unrelated text, line endings and position do not influence results",
     "Adding lines that match no template line before, after or between the lines of the text, trailing blanks, or Windows line endings "
     "leaves the results as they were, however large the added text is. Results of top groups do not depend on text that precedes them.",
     "all insertions of non-matching lines into generated texts",
     "Tests parse one fixed text per template; offsets, region cuts and ordering have to be insensitive to every position.",
     [T],
     [["region computation", T + " run_re"], ["ordering of matches", T + " _parser_class.parse"]],
     "metamorphic relation over Hypothesis-generated templates and texts (those of P02 and P04)",
     "Up to 60 inserted lines in a row.")

prop("P06", "Indicators: ignore, set, whole lines, joined matches and header tables",
     "Parts marked as ignored must match their pattern and are never saved; a value assigned by a template line appears exactly in the "
     "records in which that literal line occurs (or in all, when the assignment stands alone). Whole-line matches collect exactly the "
     "lines that nothing else claims and that pass their filters, in order; joined matches keep every match, in order, with the given "
     "separator, across nested groups; header tables cut each row at the header positions.",
     "all templates using those indicators, all orders and repetitions of matching and non-matching lines, all row and column widths",
     "Each indicator has its own path through the code whose results depend on what was matched before.",
     [T, "ttp/match/set_.py", "ttp/match/joinmatches.py"],
     [["set", "ttp/match/set_.py"], ["joining", T + " _results_class.join"], ["headers", T + " regex_headers"], ["ignore", T + " regex_ignore"]],
     "Hypothesis-generated templates and texts against per-indicator reference models",
     "A set line holds no other match variables; header names are identifiers.")

prop("P07", "Default values: every record complete, found values win, records independent",
     "Every record of a group holds every variable that has a default, set on the variable itself or for the whole group: the value found "
     "in the text when there is one, otherwise the default with its own type. When no line of the group matches at all, the defaults still "
     "give the documented record. A default value is never shared between records or inputs: completing one leaves the others as they are.",
     "all sets of variables with and without defaults of all literal types, all subsets and orders of matched lines, several inputs",
     "Which variables are missing differs for every record; sharing of mutable values shows only over several records.",
     [T, "ttp/match/joinmatches.py"],
     [["defaults collection", T + " _variable_class.extract_functions / runs"], ["completion of records", T + " _results_class.processgrp, start"]],
     "Hypothesis-generated groups, defaults and texts against a reference model of record completion",
     "Defaults on start lines of nested groups are documented as unpredictable and left out.")

prop("P08", "Patterns decide which lines match: named, inline and variable-held expressions",
     "A variable with a pattern matches exactly the values in the pattern's documented language: WORD, PHRASE, ORPHRASE, ROW, DIGIT, IP, "
     "PREFIX, IPV6, PREFIXV6, MAC, an inline regular expression or one kept in a template variable; several patterns for one variable mean "
     "any of them. A line is used only when all its values match, and the captured value is the whole text between the neighbours - "
     "capture groups, anchors or flags inside a user's expression do not disturb other variables.",
     "all values near and in the language of each pattern, all mixes of patterns over columns of a line",
     "Each pattern is a language: membership has to be right for all strings, tests hold a handful each.",
     ["ttp/patterns/get_pattern.py", "ttp/match/re_.py", T],
     [["patterns", "ttp/patterns/get_pattern.py PATTERNS"], ["pattern selection", T + " _variable_class.form_regex"]],
     "Hypothesis-generated values, near misses and tables against hand-written recognisers of each language",
     "Malformed IPv6-like text and MACs of mixed separators are left undecided.")

prop("P09", "Functions on match variables transform values, left to right",
     "The value of a match variable is what its functions make of the matched text, applied in the order written: append, prepend, "
     "replaceall, resub, resuball, truncate, sformat, item, join, to_list, to_str, copy, let, chains kept in template variables and "
     "methods of the value itself (upper, split, strip, replace ...). Arguments are taken literally or from template variables as "
     "documented; other variables and other lines are not affected.",
     "all chains of up to 5 functions, all arguments including special characters, all values",
     "Functions compose: the state passed from one to the next and the parsing of their arguments give combinations tests do not reach.",
     [T, "ttp/match/string.py", "ttp/match/re_.py", "ttp/match/item.py", "ttp/match/copy_.py", "ttp/match/let.py", "ttp/match/to.py",
      "ttp/utils/get_attributes.py"],
     [["call parsing", "ttp/utils/get_attributes.py"], ["function runs", T + " check_matches"], ["chains", T + " _variable_class.extract_functions"]],
     "Hypothesis-generated chains against a reference implementation of every function",
     "Functions are applied to value types they are documented for.")

prop("P10", "Conditions on match variables accept or reject whole lines",
     "A line counts exactly when all conditions of all its variables hold, each evaluated on the value as left by the functions before "
     "it: contains, exclude, equal, notequal, contains_re, exclude_re, startswith_re, endswith_re and their negations, isdigit, notdigit, "
     "greaterthan, lessthan, is_ip, cidr_match and boolean methods of the value. A rejected line saves nothing and ends nothing, and when it is a "
     "start line nothing below it is saved until the next accepted start line.",
     "all combinations of conditions over several variables and lines, all values, texts mixing accepted and rejected lines",
     "Conditions interact with functions, other variables of the line and the state of the group.",
     [T, "ttp/match/re_.py", "ttp/match/string.py", "ttp/match/ip.py"],
     [["condition evaluation", T + " check_matches"], ["rejected starts", T + " _results_class.make_results"], ["conditions", "ttp/match/re_.py"]],
     "Hypothesis-generated conditions and texts against independent predicates",
     "Texts of up to 10 lines, up to 3 conditions per variable.")

prop("P11", "Conversions of matched values are arithmetically right",
     "to_int, to_float, to_cidr, to_ip, to_net, ip_info, attributes of address objects, mac_eui, uptimeparse and unrange return the value "
     "that arithmetic on the text gives, for every number size, address family, prefix length, MAC notation, set of time units and range "
     "list; text that is not of the expected kind is returned unchanged, with no exception (to_ip and to_net excepted).",
     "all numbers, addresses, masks, MAC notations, uptimes and range lists, and texts that are none of them",
     "Input spaces are unbounded and boundary cases (prefix 0 and 32, zero-filled numbers, missing units) are many.",
     ["ttp/match/to.py", "ttp/match/ip.py", "ttp/match/mac_eui.py", "ttp/match/uptimeparse.py", "ttp/match/unrange.py"],
     [["addresses", "ttp/match/ip.py"], ["uptime", "ttp/match/uptimeparse.py"], ["ranges", "ttp/match/unrange.py"]],
     "Hypothesis-generated values against independent integer arithmetic and round trips (number -> text -> number)",
     "Ranges ascend; host counts are claimed as number of addresses less two.")

prop("P12", "Lookups: same answer from every table format, in results and in other templates",
     "A value looked up in a table gives the entry stored under exactly that key (lookup), under the first key contained in the value "
     "(rlookup) or the names whose glob patterns match (gpvlookup), placed where add_field, replace or update say; a value that is not "
     "found is left as it is. It makes no difference whether the table was written as CSV, INI, JSON, YAML or Python, inline, included from "
     "a file or added through the API, or is the result of another group or template. Tables are not changed by parsing.",
     "all tables in all formats, nested paths, matched values in and out of the table, repeated parse runs",
     "Agreement of formats, sources and repeated runs is a relation over all tables, not a property of a sample.",
     ["ttp/match/lookup.py", "ttp/group/lookup.py", "ttp/utils/loaders.py", T],
     [["table lookups", "ttp/match/lookup.py"], ["group lookups", "ttp/group/lookup.py"], ["loaders", "ttp/utils/loaders.py"]],
     "Hypothesis-generated tables rendered in every format against dictionary semantics",
     "Table keys are text; INI values hold no interpolation; found entries are not None.")

prop("P13", "Recorded variables, counters and set move values exactly as recorded",
     "A counter equals the number of accepted matches it was attached to, per input and over all inputs. A value assigned by set - on a "
     "line, standing alone or for a group - is the value last recorded under that name in this input, else in earlier inputs, else the "
     "template variable, else (or by default) the given text; group record and set follow the order of records, so a child gets its own "
     "parent's value. What is done to a value after recording changes neither the recorded value nor the template variable.",
     "all sequences of recording, counting and setting lines over several groups, inputs and repeated parse runs",
     "State carried between lines, groups, inputs and runs: outcomes depend on the whole history.",
     ["ttp/match/record.py", "ttp/match/count.py", "ttp/match/set_.py", "ttp/group/record.py", "ttp/group/set_.py", T],
     [["recording", "ttp/match/record.py, ttp/group/record.py"], ["standalone set", T + " _group_class.update_runs"], ["counters", "ttp/match/count.py"]],
     "Hypothesis-generated histories against a reference store of per-input and global variables",
     "Groups read the text one after another, as documented; names recorded over template variables are compared within one input only.",
     over=("inputs", "histories"), state=[["vars / global_vars", "per-input and global recorded variables", T]])

prop("P14", "Group filters keep exactly the records that satisfy all conditions",
     "A record is in the results if and only if every condition of its group - contains, containsall, exclude, excludeall, equal, contains_val, "
     "exclude_val, cerberus, void, macros returning False - holds for the record's data; values that are there only because they are defaults "
     "do not count as matched. It makes no difference how conditions are written (attributes, chain, functions, chain in a variable). Kept "
     "records are unchanged; a dropped record takes the results nested in it along, and leaves nothing in other records.",
     "all groups, records, defaults and condition chains, on top and nested groups",
     "Filters combine freely with defaults, order and nesting; leaks into neighbouring records show only in particular sequences of records.",
     ["ttp/group/contains.py", "ttp/group/exclude.py", "ttp/group/equal.py", "ttp/group/validate_cerberus.py", T],
     [["conditions", "ttp/group/*.py"], ["dropping of records", T + " _results_class.processgrp, is_nested_in_discarded"]],
     "Hypothesis-generated records and chains against independent predicates over the reference record",
     "Variables of conditions are matched before the first nested record; nested groups kept by groups that void only themselves (same or absolute path) are not claimed.")

prop("P15", "Group functions run in the given order, each on what the previous one left",
     "The result of a group is its record passed through to_int, sformat, set, record, del, expand, items2dict, itemize, to_ip, validate, "
     "macros and conditions in exactly the order written; each function changes only the fields it is documented to change, missing fields "
     "are no error, and the chain gives the same result written as attributes, as a chain text, or as a template variable (text or list), for "
     "any number of records, inputs and runs.",
     "all chains of group functions over all records",
     "Composition of a dozen functions in any order; interactions are not enumerable by examples.",
     ["ttp/group", T, "ttp/utils/get_attributes.py"],
     [["functions", "ttp/group/*.py"], ["chains", T + " _group_class.get_attributes"], ["running functions", T + " _results_class.processgrp"]],
     "Hypothesis-generated chains and records against a reference interpreter of the functions",
     "to_int is applied at most once and to text, as documented; itemized None is not claimed; text of Cerberus error messages is not compared.")

prop("P16", "Macros and custom functions: the right one runs, what it returns is honoured",
     "A macro referenced in a match variable, group, input or output runs exactly when the template defines it (last definition of a name in "
     "that template, or else a macro added with add_function) and never one of another template; it receives the data at its place in the "
     "chain, and its return value is treated as documented: False rejects (stops, for inputs), True and None change nothing, a (value, dictionary) "
     "pair adds fields to match results, anything else replaces the data. Functions given to add_function, under their own or another name - also "
     "names of built in functions - are called once per use with exactly the arguments written in the template. Errors they raise reach the caller.",
     "all sets of templates, macro definitions, return values, call chains, custom functions of all scopes and data",
     "Depends on combinations of definitions across several templates, on return values of any type, and on which modules are loaded when.",
     ["ttp/match/macro.py", "ttp/group/macro.py", "ttp/input/macro.py", "ttp/output/macro.py", T],
     [["macro", "ttp/*/macro.py"], ["loading of macro", T + " _template_class.parse_macro"], ["custom functions", T + " ttp.add_function, CachedModule.load"],
      ["calls", T + " check_matches, processgrp, set_data, _outputter_class.run"]],
     "Hypothesis-generated templates, macro sources and functions; the reference runs the same functions and interprets what they return",
     "Text returned by input functions begins and ends with new lines as the text given to them does; errors of template variable getters are logged by design.")

prop("P17", "Every piece of data is parsed by exactly the groups it is meant for",
     "Data of an input is parsed by the groups that refer to the input, if there are any; otherwise by the groups the input lists, by default all "
     "groups, that do not refer to other inputs - and by no other group, in the order of the template. This holds wherever groups and data are given "
     "(tag attributes, tag text, add_input, set_input, files named by groups, base_path), for data added to an input again, for several templates, "
     "and after inputs are cleared or replaced. Results come in the order of inputs and of data in them, one for each item; the same item added to "
     "an input twice is parsed once.",
     "all templates with groups and inputs, and all sequences of add_input, set_input, clear_input and parse",
     "The set of possible routings is a product of group and input settings, API calls and their order.",
     [T],
     [["routing", T + " _input_class.get_attributes, _template_class.update_inputs_with_groups, update_input"], ["API", T + " ttp.add_input, set_input, clear_input"]],
     "Hypothesis-generated templates and operation sequences against a reference model of inputs",
     "Names of inputs are given in tag attributes.")

prop("P18", "Inputs load the right files and commands, the same text gives the same results",
     "A text gives the same results whether it comes from a file, a directory, an input tag, a group's input attribute, add_input, set_input, the "
     "data argument or structured data turned into text by a macro. An input with a directory url loads exactly the files that have one of the "
     "extensions and match at least one of the filters. Parameters in input tags come back from get_input_load unchanged for all loaders. "
     "extract_commands leaves exactly the output of the commands listed, taken literally.",
     "all texts, file names, extensions, filters, parameters, command outputs and ways to load them",
     "File names, regular expressions, command texts and host names with special characters; equivalence over all ways to give the same data.",
     ["ttp/utils/loaders.py", "ttp/input/commands.py", T],
     [["loading", "ttp/utils/loaders.py load_files, load_struct"], ["inputs", T + " _input_class"], ["commands", "ttp/input/commands.py"]],
     "Hypothesis-generated directories, texts and sessions against reference selection and metamorphic equivalence of sources",
     "Order of files of one directory is that of the operating system; what extract_commands does when no command is found, and FortiGate prompts, are not claimed.")

prop("P19", "Results do not depend on processes used, and per_template combines all inputs",
     "Parsing in one process, in several processes, or letting TTP choose gives equal results in the order of inputs, with the same macro, lookups, "
     "variables, getters, custom functions and group outputs at work, and an error raised while a text is parsed is raised in every mode instead of "
     "being lost or blocking. With results=\"per_template\" the results are what the records of all inputs give when saved one after another in one "
     "structure, with per_input each input has a structure of its own, and for one input both are the same. Parsing again repeats the results.",
     "all templates, numbers of inputs, functions, results methods and ways to run",
     "The order in which processes finish tasks differs from run to run, and state can leak over inputs in as many ways as there are features.",
     [T],
     [["run", T + " ttp.parse, __parse_in_multiprocess, __parse_in_one_process, _worker"], ["results", T + " _template_class.form_results, _results_class"]],
     "Hypothesis-generated templates with many features run in one and in several processes (differential), and per_template against a reference store fed with all inputs",
     "per_template and references between inputs are documented as not supported with several processes.")

prop("P20", "TTP objects do not influence each other",
     "Any number of TTP objects can be alive at once: the results of each are those it gives when it is used alone, whether objects are used in turns, "
     "one is created and run by a macro of another one, or each runs in a thread of its own. This covers their templates, macro and its state, custom "
     "functions (that replace built-in functions or have equal names), template and recorded variables, lookups, getters, inputs and results.",
     "all sets of objects, features used, interleavings of operations and thread schedules",
     "Interference needs particular interleavings of operations of several objects; unit tests use one object at a time.",
     [T, "ttp/match", "ttp/group", "ttp/output"],
     [["running object", T + " _running_ttp_dict, use_own_ttp_dict, CachedModule"], ["template scope", T + " _template_class.macro, _parser_class.set_data"]],
     "Hypothesis-generated operation sequences over several objects, in turns and in threads with a tiny switch interval, against each object alone (differential)",
     "Objects used by several threads at once are not claimed, nor functions given to several objects with add_ttp=True.")

prop("P23", "Extend tags work as the content written in place, less what filters leave out",
     "A template with extend tags gives the results of the template with the content of extended files in place of the tags: at the top (all tags in "
     "order) and within groups (groups only), at any nesting depth, several in a row, with lines before and after them, for text-only files, with or "
     "without template tags, by path or TTP_TEMPLATES_DIR, passed through a macro, and in child templates. Filters keep exactly the groups listed by "
     "name or index and the vars, inputs, lookups and outputs listed by name. get_template() returns a template that does the same.",
     "all ways to move parts of a template to files, and all filters",
     "The ways of cutting a template into files and the order of tags around extend tags are a product no sample covers.",
     [T],
     [["extend", T + " _template_class.handle_extend, extend_element, filter_extend, construct_etree"]],
     "Hypothesis-generated templates cut into files at random against the template in one piece (metamorphic)",
     "A text-only template extended at the top next to other tags is ignored like text in a template with tags; text next to tags at the top of a file is not claimed.")

prop("P21", "One object, many templates and rounds: results of each are those of single use",
     "Whatever the order of add_template, add_input, set_input, clear_input, add_vars, add_lookup, parse, clear_result and result calls, each template "
     "of a TTP object gives, for each round of parsing, the results of an object that has that template only and is used once with the same inputs, "
     "variables and lookups; per_input results add up until cleared, per_template results are those of the last round. result() filters by template "
     "names and arranges results as list, dictionary or flat_list exactly as documented; what it returned earlier never changes afterwards. add_template "
     "with filters loads the templates named and no others, child templates included.",
     "all sequences of calls over all sets of templates (single, several in one text, plain text, with and without names), results modes and structures",
     "Tests make one or two rounds with fixed calls; leaks between rounds, templates and calls depend on the history.",
     [T],
     [["result structures", T + " ttp.result"], ["clearing", T + " ttp.clear_result, clear_input, set_input"], ["filters", T + " _template_class.parse_template, load_template_xml"], ["results of a template", T + " _template_class.form_results"]],
     "stateful generation of API call histories compared with fresh single-use objects and a model of the result structures",
     "Histories of up to 16 calls over up to 10 templates; templates with outputs are parsed again only after clear_result().")

prop("P22", "Template variables: last source wins, getters run per text, saved where named",
     "A template variable has the value of its last source - vars of the object, vars tags in their order (any loader, inline or included), add_vars - "
     "with its own type, wherever it is used; variables in tags with a name are saved in the results of each input that has matches, at exactly that "
     "path (dynamic parts and list markers as for groups), with the values recorded for the input. A variable whose value names a getter gets what the "
     "getter returns for each text: the hostname in its prompts, name of its file, time of parsing, result of a custom function. Changing results or "
     "the dictionaries given to TTP never changes variables or other results.",
     "all mixes of sources, loaders, values and paths, all prompt styles, texts and numbers of inputs",
     "Precedence and isolation involve combinations of sources, paths and rounds; tests use one or two tags and one input.",
     [T, "ttp/variable/gethostname.py", "ttp/variable/getfilename.py", "ttp/variable/time_funcs.py", "ttp/utils/loaders.py", "ttp/match/set_.py", "ttp/group/set_.py"],
     [["loading", T + " _template_class.parse_vars, add_vars"], ["getters", T + " _template_class.get_var_functions, _parser_class.run_var_functions"], ["saving", T + " _results_class.save_vars"]],
     "generated sources, paths and texts against a model of precedence and result paths; results are spoiled and parsing repeated",
     "Up to 5 tags of 5 loaders plus 3 API sources; time getters are checked to lie between the times before and after parsing.")

prop("P24", "Formatted results say just what the raw results say, and leave those unchanged",
     "JSON, YAML and pprint text read back is the results; table, csv and tabulate have a row for each record at the path and a column for each of "
     "the headers (all keys, sorted, when not given), with the value the record has or the missing one, keys of dictionaries under the name given by "
     "key; CSV text is read back by a CSV reader with the same separator and quote; workbooks have each tab with its table under its name, update "
     "appends rows and keeps other tabs; jinja2 text is the template rendered with the results; N2G diagrams have the nodes and links. Formatting the "
     "same results again, another way, or for a group alone gives what it should: stored results and arguments of result() stay as they were.",
     "all result structures and values (any characters, numbers, nesting), formatter options and places they are given in, histories of runs",
     "Quoting, missing keys and shapes of results are an open set; tests format two or three plain records once.",
     ["ttp/formatters/", "ttp/output/transform.py", T],
     [["formatters", "ttp/formatters/*.py"], ["table rows", "ttp/formatters/table_formatter.py table"], ["running outputs", T + " _outputter_class.run"], ["result() with arguments", T + " ttp.result"]],
     "round trips through standard readers (json, yaml, csv, openpyxl, literal_eval) and a model of the table, over injected results",
     "Results are injected with an output function; structures documented for tables (flat records, lists, dictionaries with key); N2G drawn by the installed library.")

prop("P25", "Outputs run in order, on the results they are for, when their condition is met",
     "Outputs of a template run one after another in the order of their tags, each on what the one before returned to it; within one the functions run "
     "left to right, then the formatter, then the returners. An output whose condition is not met does nothing; one without the self returner leaves "
     "results as they were; files and terminal get the formatted results. An output named by a group gets results of that group only, for each input, "
     "in the order named, and nothing else is lost; names of outputs that do not exist change nothing for others. result() with attributes of an output "
     "does what an output with these attributes would, with variables and macro of each template.",
     "all chains of outputs, functions, formats, returners and conditions, groups with and without outputs, inputs, results modes",
     "The order of effects and loss of results depend on combinations of outputs, groups and inputs; tests have one output, rarely two.",
     [T, "ttp/output/macro.py", "ttp/output/transform.py", "ttp/returners/"],
     [["running outputs", T + " _outputter_class.run, get_attributes"], ["outputs of groups", T + " _template_class.update_groups_with_outputs, _parser_class.parse"], ["result()", T + " ttp.result"]],
     "generated pipelines of outputs against an interpreter of their documented order over results of the same template without outputs",
     "Up to 5 outputs of up to 3 functions and 4 groups; unnamed groups are not mixed with groups that have outputs.")

prop(
    "P26",
    "Output functions that judge results tell the truth about them",
    "is_equal reports equality of the results with the loaded content of its tag exactly, for any results and any near-miss of them, with the name and description of the output; deepdiff returns the difference DeepDiff gives for exactly the results of the inputs, template or variable named, as a whole or one by one, and with add_field leaves the results as they are next to it; validate gives for each record, in order, the verdict Cerberus gives for the schema named, with info text formatted from the record and variables, and does not touch the results; validate_yangson gives the verdict the YANG modules of the folder imply for every item, whatever was validated before, and XML that has the values of the results.",
    "every result structure, near-miss, schema, module set and sequence of validations generated",
    "A test shows one structure that is equal and one that is not; that a verdict is never wrong is a statement on all structures and histories of calls.",
    ["ttp/output/is_equal.py", "ttp/output/deepdiffer.py", "ttp/output/validate_cerberus.py", "ttp/output/validate_yangson.py"],
    [["is_equal", "ttp/output/is_equal.py"], ["deepdiff", "ttp/output/deepdiffer.py deepdiff_func"], ["validate", "ttp/output/validate_cerberus.py validate"], ["yang", "ttp/output/validate_yangson.py validate_yangson"]],
    "results and near-misses of them injected through an output function; oracle: Python equality, DeepDiff and Cerberus called directly on the structures the documentation names, an independent statement of the constraints of generated YANG modules",
    "Comparison semantics of DeepDiff, Cerberus and yangson themselves are taken as they are; only their use is checked.",
)

prop("P27", "Returners deliver the results where they are told, all of them, once",
     "The file returner writes exactly the formatted results to the folder and file named, creating folders, replacing what an earlier run left and touching "
     "nothing else; names are formed from time and variables of the template and input the results are of. The terminal returner prints exactly the results; "
     "colours are around whole words of their lists only and change no text. The syslog returner sends every non-empty item at the path, in order, to every "
     "server once, one by one or as a whole, with the facility given, and leaves no handlers behind. Results themselves stay as they are.",
     "all numbers of templates, inputs, outputs and returners, names, words, structures of results and transport attributes generated",
     "File names and messages depend on histories of inputs and templates; tests look at single files with fixed names and never at colours or messages.",
     ["ttp/returners/", T],
     [["file", "ttp/returners/file_returner.py"], ["terminal", "ttp/returners/terminal_returner.py"], ["syslog", "ttp/returners/syslog_returner.py"], ["variables of outputs", T + " _template_class.run_outputs"]],
     "generated sets of outputs against a model of files, an inverse of colouring, and UDP sockets on the loopback that record messages",
     "Up to 3 templates, 3 inputs and 3 outputs each; colorama is a stand-in (it is not installed).")

prop("P28", "The plugin cache never changes results, whatever is in it",
     "Whatever the cache file of plugin functions holds, nothing, a part of a cache, the cache of another version, another object, no file at all, or a folder "
     "that does not exist, parsing gives the results it gives without a cache; so do processes started at the same time that share the cache, and starts with what they left.",
     "all prefixes of the cache, contents and sequences of them, functions used first, numbers of processes that start at once",
     "The state left by a crash or by another version, and the order in which functions are first loaded, are not under control of a test.",
     [T],
     [["cache", T + " lazy_import_functions"], ["functions loaded on first use", T + " CachedModule"]],
     "generated cache contents (fault injection) and process starts against results without a cache",
     "A cache of the same version with changed content is not covered: it is trusted by design.")

prop("P29", "Parsing any text with any valid template ends with results, always the same ones",
     "Whatever the text, empty, binary-looking, of other devices, truncated, with any line ends, or a file that is not proper UTF-8, and whatever valid combination of groups, "
     "variables, patterns, functions and names the template has, parsing does not fail; results hold plain values only, there is one per input, another parser object, another level of logging and another "
     "process (of any hash seed) give the same results, parsing again after clear_result() gives the same results, and results returned before are never changed.",
     "all templates of a grammar of features combined freely, templates of the ttp_templates collection, and texts mixing lines they match with any others",
     "Each feature is tested alone on text that suits it; crashes and order dependence come out of combinations and of text nobody had in mind.",
     [T, "ttp/utils/loaders.py", "ttp/match/", "ttp/group/"],
     [["matching", T + " _parser_class.parse"], ["results", T + " _results_class"], ["files", "ttp/utils/loaders.py load_files"], ["functions", "ttp/match/, ttp/group/"]],
     "grammar-based fuzzing of templates and texts, real templates included, with invariants: no failure, plain values, equality of repeated, reloaded, logged and other-process results",
     "Values themselves are not judged here (other properties do that). Functions given values of types they are not for are left out, see DESIGN.md.")

prop("P30", "Command line, quick_parse and API agree, however template and data are given",
     "The command line tool prints exactly the results the API gives for the same template, data, variables, base path, structure and choice of templates, in the format asked "
     "for, and nothing when none is asked for but what the template itself prints; template and data given as text, as a file by absolute or relative path, through "
     "TTP_TEMPLATES_DIR, or as a variable of a python file, to the constructor, to add_/set_ methods or to quick_parse, give the same results.",
     "all combinations of options with templates with and without names and inputs, values of variables of any JSON text, and texts",
     "The tests never run the command line tool; each way to load is tested with one template at most.",
     [T, "ttp/utils/quick_parse.py", "ttp/utils/loaders.py"],
     [["command line", T + " cli_tool"], ["quick_parse", "ttp/utils/quick_parse.py"], ["sources", "ttp/utils/loaders.py load_files"]],
     "differential: generated command lines against the API, read back with standard readers; equality of all the ways to load",
     "Mostly in-process calls of the tool with its arguments replaced, some real processes. Timing option (needs psutil) and text of logs are not claimed.")

NOT_APPLICABLE = []

#PLACEHOLDER


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                       "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 run.py --list",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
            "technique": "property-based testing: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": NOT_APPLICABLE,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
