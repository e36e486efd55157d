prop(
    "C22", "Lengths in files read mean the same however they are written",
    "A length given in a file as a whole number, as a decimal number, or with the unit pt is kept as that length (in the unit of the setting, fractions dropped) when the file is read and written again; a width given in percent stays that percentage. Negative lengths stay negative where the format allows them.",
    ["inputs"],
    "32 lengths of pages, columns, paragraphs, styles, runs, tables and cells; all whole numbers up to three digits and decimal forms, points and percentages of them, both signs",
    "Other programs write lengths as decimals, points or percentages, this library only as whole numbers: round trips of its own files never take these branches, and a wrong factor or a cut-off sign shows only for some numbers.",
    ["reader/attributes/width.rs", "reader/attributes/indent.rs", "reader/attributes/line_spacing.rs", "reader/section_property.rs", "reader/table_cell_property.rs", "types/mod.rs"],
    [("width parsing", "reader/attributes/width.rs"), ("indent parsing", "reader/attributes/indent.rs"), ("section measures", "reader/section_property.rs")],
    {
        "h_c22_lengths": "each of 32 (element, attribute) places; n of 1, 2 or 3 digits as n and, where the format allows units, npt; one-digit n as n.0, n.75, n.5pt and n.25pt; either sign where negative lengths exist",
        "h_c22_percent": "widths of tables and cells: n% for n of 1-3 digits, n.5% and n.0% for one digit",
    },
    assumptions=["other units (mm, cm, in, pc, pi) are outside; the reader refuses them", "decimal forms only with one digit in front of the point (floating-point division is too expensive for the solver beyond)"],
)
prop(
    "C23", "Switches in files read mean the same in every spelling",
    "An on/off element or attribute in a file means on when it is given without value or as 1, on or true, and off when given as 0, off or false. After reading and writing again it still has that meaning, at every place where it can stand and whatever the other switches around it say.",
    ["inputs"],
    "every one-to-five-character value that denotes on or off, for each of 21 switches, in up to 12 places, with the other switches alternately on and off",
    "The library writes one spelling, so its own files do not show that others are understood; a switch that is off but present is the rare case and there are places times switches times spellings of it.",
    ["reader/attributes/bool_value.rs", "reader/run_property.rs", "reader/paragraph_property.rs", "reader/settings.rs", "reader/level.rs", "reader/section_property.rs"],
    [("value parsing", "reader/attributes/bool_value.rs"), ("run switches", "reader/run_property.rs"), ("paragraph switches", "reader/paragraph_property.rs")],
    {
        "h_c23_runs": "7 switches of runs in 12 places (runs, paragraph marks, links, changes, cells, content controls, styles, defaults, levels, headers, footers); value: none, or any 1-5 characters from 0 to z that spell on or off",
        "h_c23_paragraphs": "5 switches of paragraphs in 7 places",
        "h_c23_others": "title pages (last and inner sections), even and odd headers, table line height, legal numbering, dirty fields, resolved comments, picture layout and overlap",
    },
)
prop(
    "C24", "What is read depends on what the XML says, not on how it is spelled",
    "Two packages whose parts are the same XML documents in different spelling are read as the same document: the order of attributes, the kind of quotes, blanks inside tags, self-closing or paired tags, character references, CDATA sections, comments, processing instructions, indentation between elements, repeated namespace declarations, byte order marks and the XML declaration make no difference.",
    ["inputs", "configurations"],
    "documents with each kind of content, place, document-wide addition and every setting at once, in 14 spellings; every ASCII character and characters of each UTF-8 length as references in text and attribute values",
    "All files the tests read come from two or three programs with one spelling each; dependence on the order of attributes or on a comment inside a text shows only for the combination of element and spelling.",
    ["reader/xml_parser.rs", "reader/mod.rs", "reader/attributes/mod.rs", "reader/run.rs", "reader/document.rs"],
    [("XML events", "reader/xml_parser.rs"), ("element readers", "reader/mod.rs")],
    {
        "h_c24_spelling": "each content, place and addition of the generator of C14 (with one arbitrary letter), and 8 documents which carry every setting of runs, paragraphs, tables, styles, numberings, sections, settings and pictures; each in each of 14 spellings applied to every part; results compared as documents and as written again",
        "h_c24_references": "any printable ASCII character, or one of 16 characters at each end of the two-, three- and four-byte ranges, as decimal or hexadecimal reference with or without leading zeros, in texts, deleted texts and attribute values",
    },
    assumptions=["namespace prefixes are the usual ones", "files are UTF-8"],
)
prop(
    "C25", "Unknown elements and attributes do not disturb the rest",
    "When elements or attributes unknown to the library are added anywhere to a package, what is read from the rest does not change.",
    ["inputs", "configurations"],
    "documents with each kind of content, place, addition and every setting at once; five kinds of unknown elements and attributes, at every place where they can stand",
    "New versions of other programs add elements and attributes all the time; that a reader does not take a foreign attribute for the value it looks for has to be seen for each of its hundreds of elements.",
    ["reader/mod.rs", "reader/xml_parser.rs", "reader/ignore.rs", "reader/attributes/bool_value.rs", "reader/run.rs"],
    [("element readers", "reader/mod.rs"), ("skipping", "reader/ignore.rs")],
    {
        "h_c25_unknown": "the documents of C24; between all children of all elements that hold no text: an empty unknown element, one with text, or nested ones with val and id attributes; or an unknown attribute in front of or behind all attributes of all elements but the root",
    },
    assumptions=["unknown elements hold no known elements; alternate content is outside"],
)
