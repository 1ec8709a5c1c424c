#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = "number_parser/parser.py"
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    return d
DATA5 = ["number_parser/data/%s.py" % l for l in ("en", "es", "hi", "ru", "uk")]
L = []
L.append(prop("C01", "Well-formed cardinals parse to exactly their value",
  "For every supported language (English, Spanish, Hindi, Russian, Ukrainian), parse_number applied to any well-formed spelled-out cardinal of that language returns exactly the integer it denotes. "
  "Well-formed means: groups below the scale step (hundreds, tens, units, teens, with the language's optional connecting words such as 'and', '-', 'y'), each followed by a scale word, in strictly decreasing scale order, where the leading 'one' before a scale word may be left out; Spanish groups may contain 'mil'. "
  "This holds in any mixture of the inflected forms the language data lists, with any amount of whitespace between words.",
  ["inputs"], "every language, every choice and number of scale groups, every value of each group, every listed inflection",
  "There are more than 10^21 such numbers per language; the tests sample a few thousand, nearly all below a million and with few scale words combined.",
  [P] + DATA5,
  [("incremental accumulation", P + ":_build_number"), ("continuation rules", P + ":_check_validity, _check_large_multiplier"), ("word tables", "number_parser/data/*.py")],
  [("total/current group/previous power", "value of the completed groups, of the open group, and the last scale word", P + ":_build_number")],
  ["return value of parse_number"]))
L.append(prop("C02", "English ordinals parse to the value of their cardinal",
  "parse_ordinal applied to the ordinal form of any well-formed English number (last word in ordinal form: first, second, ..., twelfth, ..., twentieth, ..., hundredth, thousandth, millionth, ...) returns exactly the integer it denotes. "
  "Applied to a well-formed cardinal of any supported language, parse_ordinal returns the same integer as parse_number.",
  ["inputs"], "every ordinal word, after every well-formed prefix; every well-formed cardinal",
  "Tests sample ordinals up to a few thousand and never use parse_ordinal outside English.",
  [P] + DATA5, [("ordinal rewriting", P + ":_apply_cardinal_conversion"), ("re-joining of rewritten words", P + ":parse_ordinal")], None,
  ["return value of parse_ordinal"]))
L.append(prop("C03", "parse replaces each number phrase by exactly its digits",
  "In parse, every maximal well-formed number phrase of the language (cardinal; in English also ordinal), delimited by ordinary words, sentence separators or the ends of the text, is replaced by the decimal digits of exactly the value it denotes (for a cardinal, the value parse_number gives for the phrase alone). "
  "Each phrase gives exactly one digit string, in text order, however many phrases and sentences the text has.",
  ["inputs"], "every number phrase, every position in a text, every sequence of phrases",
  "Tests contain some forty sentences; the value of a phrase could depend on what precedes it in the text in ways they do not sample.",
  [P] + DATA5, [("phrase collection and flush", P + ":parse"), ("shared evaluator", P + ":_build_number")],
  [("pending number words", "words of the phrase being collected", P + ":parse tokens_taken")], ["return value of parse"]))
L.append(prop("C04", "parse keeps every other word exactly once, unchanged, in order",
  "Every word, punctuation mark or digit string of the text that is not part of a number phrase appears in parse's result exactly once, unchanged (same letter case, same accents) and in the original order. "
  "A connecting word ('and', 'y', '-') is dropped only when it joins number words of a single number: when it comes first, trails a number at the end of the text, before a sentence separator or before an ordinary word, or stands between two separate numbers, it is kept.",
  ["inputs"], "every token of every text, at every position relative to numbers, separators and the end",
  "Losing or altering one token depends on its neighbours (flush paths at word, separator, ordinal, end of text); tests cover few neighbourhoods.",
  [P], [("token loop and flush paths", P + ":parse"), ("kept connecting words", P + ":_build_number used_skip_tokens")], None, ["return value of parse"]))
L.append(prop("C05", "Text without number words comes back unchanged",
  "For any text that contains no number word of the language, parse returns the text itself, including all inner whitespace and punctuation, apart from removed soft hyphens and whitespace stripped at both ends.",
  ["inputs"], "every text without number words, every supported language",
  "It quantifies over all texts; tests contain about three such sentences.",
  [P], [("lossless tokenisation", P + ":_tokenize"), ("verbatim emission", P + ":parse")], None, ["return value of parse"]))
L.append(prop("C06", "Numbers never combine across separators or ordinary words",
  "In parse, number words separated by a sentence separator ('.' or ','), by any other ordinary word or by a digit string never combine into one number: each side is converted on its own. "
  "A separator keeps the spacing it had after a number: no space is inserted between a number and a directly following '.' or ',', and one stays if there was whitespace.",
  ["inputs"], "every pair of number phrases and every separator or ordinary word between them",
  "Combining depends on accumulated state carried over a boundary; tests check about ten such boundaries. (Languages tokenised on whitespace only, i.e. Hindi, need whitespace around the separator for it to be one.)",
  [P], [("flush at separators", P + ":parse"), ("separator list", P + ":SENTENCE_SEPARATORS")],
  [("pending number words", "must be empty after a boundary", P + ":parse tokens_taken")], ["return value of parse"]))
L.append(prop("C07", "Words that cannot form one number are never fused",
  "Two adjacent number words that cannot belong to one number - a digit word or teen after a digit word or teen, a teen after a tens word, a tens word after a tens word, digit word or teen, an inflected hundreds word (Spanish, Russian, Ukrainian) after any word but a scale word, the same scale word (a thousand or more; in Spanish a million or more) twice in a row, or 'hundred' after a group that already has its hundreds - are never merged into a single value. "
  "parse_number returns None for such a sequence and parse writes the two numbers separately, each with its own value.",
  ["inputs"], "every pair of number words in every language, alone or at the end of a longer well-formed number",
  "The number of word pairs per language is in the thousands; tests contain about fifteen.",
  [P], [("continuation rules", P + ":_check_validity"), ("split", P + ":_build_number value_list"), ("single-number test", P + ":parse_number")], None, ["return values of parse_number and parse"]))
L.append(prop("C08", "parse_number answers only for texts that are one number",
  "parse_number returns None for any text that contains an ordinary word, punctuation mark or mixed digits besides its number words, for any text with no number word and no digits (empty, blank, only connecting words, hyphens or apostrophes), and for any text that starts with a connecting word, with or without surrounding whitespace. "
  "The same holds for parse_ordinal.",
  ["inputs"], "every text that is not exactly one number, every supported language",
  "Tests try about five non-numbers; the set of texts is unbounded.",
  [P], [("token filter", P + ":parse_number loop over tokens"), ("single-number test", P + ":parse_number")], None, ["return value of parse_number, parse_ordinal"]))
L.append(prop("C09", "The API is total on text: no exception, documented result types",
  "For every text and every supported language (or none given), parse, parse_number, parse_ordinal and parse_fraction return without raising (the interpreter's limit on converting integers of thousands of digits apart): parse a string, parse_number and parse_ordinal an int or None, parse_fraction None or a string 'a/b' of two decimal integers.",
  ["inputs"], "every string, every supported language and automatic detection",
  "Failures sit in unusual inputs (numeric characters that are not decimal digits, unusual whitespace, only connecting words) no test has.",
  [P], [("partial operations: int(), dictionary lookups, list pops and indexing", P)], None, ["outcome of every public function"]))
L.append(prop("C10", "Plain decimal text parses to its own value",
  "parse_number and parse_ordinal applied to a string of decimal digits (of any script), with any surrounding whitespace, return the integer those digits denote, in every language and with automatic detection. "
  "Text made of numeric characters that are not decimal digits (vulgar fractions, superscripts, CJK numerals) gives None.",
  ["inputs"], "every digit string, every kind of surrounding whitespace, every numeric character",
  "Tests use three ASCII digit strings.", [P], [("digit shortcut", P + ":parse_number")], None, ["return value of parse_number, parse_ordinal"]))
L.append(prop("C11", "Fractions are exactly numerator/denominator of the two sides",
  "For 'A <sep> B' with sep one of 'divided by', 'over', 'by', '/' and A and B well-formed numbers (spelled out or digits, zero included), parse_fraction returns 'a/b' with a and b exactly the values parse_number gives for A and B. "
  "It returns None when there is no separator or when either side is empty or not a number, and never a string with a missing or invented side.",
  ["inputs"], "every pair of numbers, every separator, every non-number side",
  "Tests try seven fractions; both operands are unbounded and zero is never tried.",
  [P], [("separator search and slicing", P + ":parse_fraction"), ("separator order", P + ":FRACTION_SEPARATORS")], None, ["return value of parse_fraction"]))
L.append(prop("C12", "Letter case, accents and soft hyphens never change the result",
  "Changing the letter case of a number word, adding or removing combining accents on it, writing it in composed or decomposed Unicode form, or inserting soft hyphens into it does not change the value parse_number, parse_ordinal or parse gives for it, in any supported language.",
  ["inputs"], "every number word, every casing/accent/normal form/soft-hyphen variant",
  "Tests vary the case of three words; variants are unbounded.",
  [P] + DATA5, [("token normalisation", P + ":_normalize_tokens, _strip_accents"), ("table normalisation", P + ":_normalize_dict"), ("soft hyphen removal", P + ":_tokenize")], None, ["return value of parse_number, parse_ordinal, parse"]))
L.append(prop("C13", "Language detection picks the language the words belong to",
  "When no language is given, a text whose number words and connecting words belong to only one supported language is processed in that language, and a text with no known number word is processed as English. "
  "Among several languages the one that recognises the most words wins, and the result of parse, parse_number, parse_ordinal or parse_fraction without a language equals the result with the detected language passed explicitly.",
  ["inputs"], "every text, every number of words per language",
  "Tests check ten texts; the claim is over all texts and word counts.",
  [P], [("word counting and selection", P + ":_valid_tokens_by_language")], None, ["outcome without language vs with language"]))
L.append(prop("C14", "An explicitly given language is always honoured",
  "When a supported language is passed, every public function uses exactly that language: words that are number words only in other supported languages are treated as ordinary words (parse keeps them, parse_number, parse_ordinal and parse_fraction return None), however many there are.",
  ["inputs", "configurations"], "every ordered pair of languages, every foreign number word, every public function",
  "Tests pass the matching language or none; they never pass one language with another's words.",
  [P], [("language parameter plumbing", P + ":parse, parse_number, parse_ordinal, parse_fraction")], None, ["outcome with a foreign text"]))
L.append(prop("C15", "Unsupported languages are refused before any data is loaded",
  "A language code outside the five supported ones never reaches the loading of language data: parse and parse_ordinal, and parse_number and parse_fraction as soon as they have words (for a fraction: a first side with words) to interpret, raise ValueError. "
  "No module other than the data of the five supported languages is ever imported because of a language argument.",
  ["inputs", "configurations"], "every string passed as language, every public function, including codes for which a data file exists (fr, de, ...) and dotted or path-like names",
  "The single test tries one code on one internal class.",
  [P], [("whitelist check before import", P + ":LanguageData.__init__"), ("supported list", P + ":SUPPORTED_LANGUAGES")], None, ["exception and set of imported modules"]))
L.append(prop("C16", "Calls are pure: no call changes the result of another",
  "The result of a public call depends only on its arguments: no call modifies state that outlives it (module or class variables, default arguments, the shared language tables) in a way another call can observe, reads mutable process state (environment, time, randomness, locale, files) or has side effects other than importing language data. "
  "So any sequence or concurrent interleaving of calls gives each call the result it has on its own.",
  ["histories", "schedules"], "every history and interleaving of public calls",
  "Tests call functions in one fixed order in one thread; leaks through shared tables or caches need particular histories.",
  [P] + DATA5, [("fresh per-call tables", P + ":LanguageData, _normalize_dict"), ("shared data modules, only read", "number_parser/data/*.py")],
  [("module-level tables", "shared by all calls, must stay constant", "number_parser/data/*.py info")], ["writes to objects that outlive a call"]))
L.append(prop("C17", "Every listed number word has its right value and is recognised",
  "For each supported language every number word and inflected form of the language's reference lexicon is recognised by parse_number on its own (and, for multi-word role, as digit, teen, tens, hundreds or scale word) with its correct value, and every further word the language data lists has a value consistent with its role. "
  "No word has two different values, no number word is also a connecting word, and every listed word is recognised by parse_number.",
  ["inputs"], "every word of every supported language",
  "The tables list about 600 word forms; tests touch roughly half and check none of the large scale words of Spanish systematically.",
  DATA5 + [P], [("word tables", "number_parser/data/*.py"), ("normalised lookup tables", P + ":LanguageData")], None, ["return value of parse_number on one word"]))
L.append(prop("C18", "Shipped language tables agree with the translation sources",
  "For every locale the shipped table contains exactly the words its translation sources justify, with the same values: every supplementary entry is present with its value, every other entry comes from a spellout rule of the raw locale data with that number, and connecting words and scale flag equal the supplementary ones. "
  "So regenerating the tables from the sources never loses or changes a word.",
  ["configurations"], "every locale, every table, every word (about 70 locales)",
  "No test reads the translation sources at all; tests load five of the tables.",
  ["number_parser/data/*.py", "number_parser_data/raw_cldr_translation_data/*.json", "number_parser_data/supplementary_translation_data/*.json"],
  [("generator", "number_parser_scripts/write_complete_language_data.py:write_complete_data")], None, ["the committed tables"]))
L.append(prop("C19", "Every shipped locale table is well formed",
  "Every locale table has all the sections the loader reads, mapping words to plain non-negative integers of the right kind: digit words 0-9, direct words 10-99, tens multiples of ten from 20 to 90, hundreds multiples of a hundred from 200 (100 allowed) to 900, scale words powers of ten of at least 100; connecting words are a list of strings and the scale flag, where present, a boolean. "
  "Supported languages' tables have the scale flag and cover every digit and every number below one hundred, and a hundred and a thousand.",
  ["configurations"], "every locale table",
  "Tests load only five tables and never inspect them.",
  ["number_parser/data/*.py"], [("table sections", "number_parser/data/*.py info"), ("loader", P + ":LanguageData.__init__")], None, ["the committed tables"]))
L.append(prop("C20", "The table generator is deterministic, locale independent and confined",
  "The generator gives the same tables whatever the platform's default text encoding and directory listing order, lets supplementary entries override raw ones, and writes only language files in the package's data directory. "
  "It writes every section the loader reads, in sorted order.",
  ["configurations"], "every platform encoding, every directory order, every locale",
  "No test runs the generator.",
  ["number_parser_scripts/write_complete_language_data.py"], [("file access", "number_parser_scripts/write_complete_language_data.py:write_complete_data")], None, ["file operations of the generator"]))
L.append(prop("C21", "No number word is left behind and parsing again changes nothing",
  "The result of parse with a given language contains no number word of that language any more: every one was turned into digits. "
  "Hence parsing the result again with the same language gives the same text.",
  ["inputs"], "every text, every supported language",
  "Quantifies over all texts; no test parses twice.",
  [P], [("classification of every token", P + ":parse")], None, ["return value of parse"]))
L.append(prop("C22", "Surrounding and inner whitespace do not affect parse_number",
  "For any text, adding or removing whitespace at its ends, or changing the kind or amount of whitespace between its words, does not change the result of parse_number or parse_ordinal.",
  ["inputs"], "every text, every kind and amount of whitespace",
  "Tests use single spaces nearly everywhere and no leading whitespace before words.",
  [P], [("blank tokens skipped", P + ":parse_number, _build_number")], None, ["return value of parse_number, parse_ordinal"]))
L.append(prop("C23", "Running time grows at most linearly with the text",
  "Processing a text takes time at most proportional to its length, so long texts cannot stall a caller.",
  ["inputs"], "every text", "Tests use short texts and measure nothing.",
  [P], [("single pass over tokens", P + ":parse, _build_number")], None, ["running time"]))
L.append(prop("C24", "Loosely formed number phrases get the value a speaker means",
  "For number phrases outside the well-formed grammar (juxtaposed scale words, colloquial orders such as 'two thousand two million') parse and parse_number give the value a native speaker would understand, or split them where a speaker would.",
  ["inputs"], "every phrase of number words outside the grammar of C01",
  "The space of such phrases is unbounded and the right reading of most of them is fixed nowhere.",
  [P], [("continuation rules", P + ":_check_validity, _check_large_multiplier")], None, ["return values"]))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf8") as f:
    for d in L:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(L))
