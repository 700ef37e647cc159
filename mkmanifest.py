#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks and the properties not claimed."""
import json

COMMON = ('Trusts the models of Python operators, containers and library '
          'functions in alcheck/. Only positive evidence raises an alarm; '
          'what the abstraction cannot decide is counted as undecided in the '
          'evidence file and is not assured. ')

CHECKS = {
    'C08': ('constant propagation over module bodies and register functions, '
            'compared with a reference table',
            'Complete for the names, modules and classes of both versions; '
            'the reference table is the set confirmed at the pinned commit.'),
    'C05': ('abstract interpretation of metaclass, constructor and reporting '
            'code over all combinations of muting and over representatives '
            'of ignore lists',
            'Complete for the scenarios that the evidence lists.'),
    'C03': ('rule over all paths around while loops of the syntax tree, and '
            'abstract interpretation over include graphs and malformed text '
            'with detection of loops and recursion that do not end',
            'files, contexts and lines of bounded size; the path rule covers '
            'every while loop in the source'),
    'C04': ('abstract interpretation of the entry points of the commands, of '
            'main and of the script, with a parser stand-in that reports '
            'per scenario',
            'Scenarios enumerate phases and mixtures of ignored and other '
            'diagnostics; what the parser reports is out of scope.'),
    'C17': ('order-taint dataflow over the syntax trees of all functions, and '
            'abstract interpretation of ident-scan and modules-show that '
            'iterates over sets in all orders',
            'The taint rules name the collections without order that Python '
            'has; orders that stem from the environment in other ways are '
            'out of scope.'),
    'C09': ('abstract interpretation of reading every registered application '
            'and function in all spellings and places, against a model of '
            'what is looked up, and of the generic checks',
            'Complete for the applications and functions of both versions; '
            'places and spellings as enumerated.'),
    'C18': ('abstract interpretation of modules-show, from the bytes to the '
            'printed text, for every registered application and function and '
            'all fillings of a module, against a model of the listing',
            'Complete for the registered names; ways to reach them as '
            'enumerated.'),
    'C20': ('abstract interpretation of ident-scan, from the bytes to the '
            'printed text, against a model of the names that are used',
            'Forms and places of names as enumerated.'),
    'C19': ('abstract interpretation of sequences of web requests and checks '
            'in one process, compared with the same request alone',
            'All pairs from the list of configurations, and longer '
            'histories; falcon has a stand-in.'),
    'C07': ('abstract interpretation of the rewriting, and of the scripts that '
            'use it, with a file system in memory in which every operation '
            'fails in turn',
            'One failure at a time; layouts, owners, modes and contents as '
            'enumerated. A state is judged after each operation that changes '
            'the file system.'),
    'C21': ('abstract interpretation of the pattern row of the canonicalizer '
            'and of the ordering, equality and hash of patterns, against a '
            'model of sets of characters',
            'Pattern texts as enumerated.'),
    'C10': ('abstract interpretation of every application that declares '
            'limits, over all numbers of arguments with arbitrary text, and '
            'over representatives of separators in quotes and brackets',
            'Numbers of arguments up to three above the limit; limits of the '
            'applications that declare them at the pinned commit.'),
    'C11': ('abstract interpretation from dialplan text to the end of the '
            'jump check, over all jump forms, with an independent account of '
            'the expected destinations',
            'The forms are enumerated in the check; texts of destinations '
            'are representatives.'),
    'C12': ('abstract interpretation from dialplan text to the end of the '
            'jump check, over destinations, includes, patterns and labels, '
            'compared with an independent model of resolution',
            'The destinations and dialplans are representatives of the '
            'partitions listed in the evidence.'),
    'C14': ('abstract interpretation of each reader layer over all short '
            'sequences of kinds of lines and include nestings, with an '
            'in-memory stand-in for the opener',
            'Kinds of lines and nestings are enumerated in the check; '
            'sequences are bounded in length.'),
    'C16': ('abstract interpretation from configuration text to the resulting '
            'model, over all short sequences of definitions, compared with '
            'an independent model of the first definition winning',
            'The definitions and the length of the sequences are bounded; '
            'they are listed in the evidence.'),
    'C13': ('abstract interpretation from the bytes of the files to the end '
            'of the jump check; provenance of the location of each '
            'diagnostic compared with a table of causes',
            'The table has a fragment for each of 79 classes of diagnostics '
            'and lays it out over files in up to a dozen ways; other causes '
            'of the same classes are not covered.'),
    'C01': ('rule over all call sites of diagnostic classes (resolved names, '
            'keywords against placeholders), and abstract interpretation from '
            'the bytes of the files to the text that is written for a table '
            'of causes and for malformed text',
            'Values are compared with a table of causes for 79 classes; for '
            'other inputs only that none is missing or None.'),
    'C02': ('abstract interpretation from the bytes of the lines to the end '
            'of the jump check and the listing, over systematic combinations '
            'of malformed pieces of text; exceptions that leave the checker',
            'The pieces and their combinations are enumerated in '
            'alcheck/malformed.py; other texts are not covered.'),
    'C15': ('abstract interpretation from the bytes of the lines to the '
            'resulting model, over kinds of lines in all situations of the '
            'reader; each line must be kept, acted upon or reported',
            'Kinds of lines and situations are enumerated in the check.'),
}

PENDING = 'no sound static check has been built for it yet'
NA = {
    'C22': 'quantifies over the characters of patterns and extensions '
           '(agreement with the matching algorithm of Asterisk); deciding it '
           'needs the values, which no static argument in reach bounds',
    'C23': 'equivalence of two pattern languages for all pattern texts; needs '
           'value-level reasoning about byte arithmetic in the canonicaliser',
    'C24': 'agreement with the scanners of Asterisk on every character '
           'sequence is a value property; there is no second source to '
           'compare with statically',
    'C25': 'numbers and listing text equal to what Asterisk computes; value '
           'property without a static reference',
}


def thorough(pid):
    with open('alcheck/checks/{}.py'.format(pid.lower())) as fp:
        deep = 'ctx.thorough' in fp.read()
    return ('env VERIF_TIER=thorough ' if deep else '') + './check ' + pid


def main():
    ids = [json.loads(i)['id'] for i in open('properties.jsonl')]
    checks = []
    na = []
    for pid in ids:
        if pid in CHECKS:
            technique, note = CHECKS[pid]
            checks.append({
                'property': pid, 'quick_cmd': './check ' + pid,
                'thorough_cmd': thorough(pid),
                'evidence_file': 'evidence/{}.json'.format(pid),
                'technique': technique, 'level': 'other',
                'level_note': note + ' ' + COMMON.strip()})
        else:
            na.append({'property': pid, 'reason': NA.get(pid, PENDING)})
    with open('MANIFEST.json', 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': na,
                   'notes': 'All checks are static: nothing of asterisklint '
                            'is imported or executed by a check.'},
                  fp, indent=1)
        fp.write('\n')


main()
