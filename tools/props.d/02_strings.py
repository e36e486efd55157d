_sites = "documents/elements/"
prop(
    "C02", "User strings can never break or alter the rest of the package",
    "Whatever string is passed to any string-taking setting (colours, fonts, styles, names, authors, dates, bookmarks, link targets, table positions, numbering formats, field instructions, document variables, custom properties, web extensions and so on), every XML part of the package is well-formed, the string appears with exactly its characters in exactly the attributes or elements a plain word would appear in, and no other attribute, element or part changes.",
    ["inputs", "configurations"],
    "129 string-taking settings, each with every printable ASCII character, any character of every UTF-8 length, and strings shaped like character references",
    "Tests pass well-behaved literals; a missing or doubled escape at one of over a hundred call sites needs a markup character at that site to show.",
    ["escape/mod.rs", "xml/writer.rs", "xml_builder/elements.rs", "documents/elements/run_fonts.rs", "documents/elements/hyperlink.rs", "documents/webextension.rs", "documents/doc_props/custom.rs"],
    [("character escaping", "escape/mod.rs"), ("attribute writer", "xml/writer.rs")],
    {"h_c02_strings": "129 settings; string = 1 arbitrary printable ASCII character alone, after a letter or before 'x'; '&' + 2 letters + ';'; one character of any UTF-8 length; thorough tier also 2 arbitrary ASCII characters and attribute-injection shapes"},
    assumptions=("control characters, line feeds and carriage returns are outside", "backslashes in web extension property values are passed on as they are (the values are JSON strings)"),
)
prop(
    "C03", "String settings come back from reading exactly as they were set",
    "For every string-taking setting the reader supports, the string is found again, with exactly the same characters and at the same place, in the package obtained by reading the written package and writing it once more; this includes hyperlink targets, empty and blank values and values that look like character references. (Structured data properties, next styles, web extensions, custom XML and core properties are not read.)",
    ["inputs", "configurations"],
    "113 string-taking settings the reader supports, each with every printable ASCII character and strings shaped like character references",
    "A value escaped twice, unescaped twice, trimmed or dropped on one of the paths only shows for particular characters at that setting.",
    ["escape/mod.rs", "reader/xml_parser.rs", "reader/run.rs", "reader/style.rs", "reader/level.rs", "reader/custom_properties.rs", "reader/settings.rs", "reader/hyperlink.rs"],
    [("attribute decoding", "reader/xml_parser.rs"), ("element readers", "reader/mod.rs")],
    {"h_c03_strings": "113 settings; string = 1 arbitrary printable ASCII character alone, after a letter or before 'x'; '&' + 2 letters + ';'; thorough tier also other UTF-8 lengths and 2 arbitrary ASCII characters"},
    assumptions=("control characters, line feeds and carriage returns are outside", "braces in the document id are part of its format and outside"),
)
