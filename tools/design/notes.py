# how each property is decided; printed into DESIGN.md by tools/props.py
NOTES = {
"C01": "A text of symbolic characters is put at every place which can hold a run; the strict parser must find it in exactly one text element, and after reading and writing again once more. The oracle only knows the text given. Escaping, entity-like sequences, blanks at the ends and multi-byte characters are all values of the same symbolic bytes, so no list of special cases is involved; a test has to think of `&amp;lt;` in a moved-to run of a footer, the solver finds it.",
"C02": "Every string setting of the API is set once to a plain word and once to a symbolic string. The package with the symbolic string must be well-formed and equal to the plain one with exactly those occurrences of the word replaced. The oracle is thus the package itself under substitution: no expectation about names or places is needed, and an injected quote or angle bracket changes the tree.",
"C03": "Like C02, but the package is read and written once more before comparing.",
"C04": "Run settings with symbolic values: alone, in pairs, all at once, later calls overriding earlier ones. Expected elements are listed by WordprocessingML name with the value given; the element in the package must have exactly these children and attributes, before and after reading.",
"C05": "As C04, for paragraph settings.",
"C06": "As C04, for tables, rows and cells, plus grids and spans.",
"C14": "The generator puts every kind of content into every place and beside every document-wide addition; a graph walk over the package then checks names, content types, relationships and references, and follows each reference from the part it stands in to the target, comparing with what was given. Paths are the combinations; link addresses, comment ids and picture numbers are symbolic.",
"C17": "The same document is written by both routes; the two packages must have the same parts in the same order with equal trees, tracked-change ids up to renaming.",
"C18": "Each harness adds symbolic choices of children to a container and, beside it, writes down what must be shown. `shape` reads the same from the package. Done on the written package and on the one written after reading.",
"C19": "The package written after reading must have the same trees as the one read, for all content parts. No expectation of content is involved: every element and attribute the writer can produce within the bounds must survive.",
"C21": "Identifiers of all paragraphs of all parts are collected and compared pairwise; given identifiers have symbolic digits, so that equal and different ones, and collisions with generated ones, are covered.",
"C08": "As C04-C06, one level up: the settings generators of those checks are applied inside a style, with the style's own attributes symbolic besides. The expected children of the style element are listed by name; styles written are matched in order with those given.",
"C09": "As C04, for levels; lists of definitions and instances with symbolic identifiers are compared in order, leaving out elements under identifier 1 when the document does not use it (the built-in ones).",
"C15": "The contexts, elements and attributes are the vocabulary of the reader's element table, written down in the harness. Choices of context, element and attribute are explored exhaustively by forking; attribute values and text are symbolic bytes, so each parse branch (sign, digit, unit, keyword) is taken by the executor. The assertion is the absence of panics (traps in the wasm code) and, for documents read, well-formedness of what is written. No test could list the combinations; the solver shows e.g. that no two-character value of any attribute panics.",
"C16": "Cut-off parts; the oracle is termination: a path above the step limit is a candidate, replayed natively with a time limit.",
"C07": "As C04, for sections; which section a header belongs to is decided by following its reference to the part and comparing the text in it with the one given for that section and kind of page.",
"C10": "The oracle follows the package as a reader of the format would: the range of a comment is the text between its two marks, its thread is found through the identifier of the last paragraph of the comment. Identifiers, authors, dates and texts are symbolic; places, anchors and thread shapes are explored by forking.",
"C11": "Each kind of change is described by the element, owner, date and text it must show; the sequence in the written paragraph is compared with the list of what was added, the plain text with the texts of those that count. Reading must give equal values.",
"C12": "A small independent parser of field instructions (words, quoted words, switches with the argument the format gives them) reads what was written; its result must be the instruction given. For generated tables of contents the expected list is computed from the headings given; bookmarks are compared pairwise.",
"C13": "As C04, for pictures; inline and floating use different elements, both listed by name with the value given.",
"C20": "As C04, for settings and properties. Custom XML items are compared as trees with resolved namespaces; JSON strings are decoded by a decoder of the harness.",
"C22": "A length of symbolic digits is put into a file in each way other programs write it; after reading and writing, the attribute must be the decimal number computed from the digits by the format's own rule (twentieths per point, fiftieths per percent). The executor follows the real number parser over the symbolic digits, the solver compares the two numbers.",
"C23": "The value of one switch is a string of symbolic characters constrained to the words the format defines; the other switches alternate. What is written after reading must have the meaning given; absent is accepted as off where off is the default.",
"C24": "The library's own package is taken apart by the parser of the harness and written in another spelling by an independent serializer; both are read by the real reader and must give equal documents and equal packages when written. No expectation of content is needed. Documents, spellings and characters are symbolic choices; the documents that carry all settings at once have fixed values.",
"C25": "As C24, with unknown elements and attributes added by the serializer.",
"C26": "The archive written by the library is taken apart and put together as a flat file by the harness; the real flat reader and the real archive reader must give equal documents, and equal packages when these are written. For part names and contents the oracle is what the harness put in. Search, slicing and decoding run over symbolic bytes, so a slice inside a multi-byte character or one byte off is a path of its own.",
"C27": "A strict JSON parser of the harness decodes what the library prints. For settings, the leaves of the JSON with the setting are compared with those without it, and the values given, which are symbolic, must be among the new ones; the expected values are those of the checks C04-C06. Two documents with different settings whose files differ must have different JSON. Type names are taken from the declarations of the JavaScript package.",
}
