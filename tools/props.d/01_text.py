prop(
    "C01", "Text put into a document comes out unchanged, wherever it is put",
    "Text added to a run - in body paragraphs, table cells at any depth, sections, structured data tags, hyperlinks, insertions, deletions, moves, headers, footers, comments, footnotes and tables of contents - appears in the written package as the text of exactly one w:t (or w:delText) element with the same characters, including markup characters, sequences that look like character references, leading and trailing white space and characters of every UTF-8 length, and nothing else in the package depends on it. Reading the package gives back the same text at the same place (footnotes and headers of inner sections are not read), and writing it again does not change it.",
    ["inputs", "configurations"],
    "every text of up to 3 printable ASCII characters, every combination of 2 characters of all UTF-8 lengths, every sequence shaped like a character reference of up to 6 letters or 3 digits, every white space pattern of length 3, one arbitrary character at every position of a longer text; 34 kinds of places",
    "Unit tests use a handful of plain words in a handful of places; escaping defects show up only for particular characters, adjacent combinations or look-alikes of character references in particular containers.",
    ["documents/elements/text.rs", "documents/elements/delete_text.rs", "escape/mod.rs", "xml_builder/mod.rs", "reader/run.rs", "reader/xml_reader.rs"],
    [("text element writer", "documents/elements/text.rs"), ("character escaping", "escape/mod.rs"), ("run reader", "reader/run.rs")],
    {
        "h_c01_all_places": "34 kinds of places, text = any printable ASCII character, alone or inside other text; '&' + 2 letters + ';'; one character of any UTF-8 length; also read back and rewritten except footnotes and headers of inner sections",
        "h_c01_among": "text or deleted text of 1-2 characters (blanks or arbitrary) before and behind each of: nothing, text, a blank, a tab, a break",
        "h_c01_all_shapes": "body, cell and deletion; text = up to 3 arbitrary printable ASCII characters; '&' + 1-6 letters + ';'; decimal (1-3 digits) and hexadecimal (2 digits) references; 3 characters out of space, tab, letter; 2 characters of all UTF-8 lengths (any code point of the length class); tags with an arbitrary character; a 43 character text with one arbitrary character at any position; empty text",
    },
    assumptions=("line feeds and carriage returns inside a text are outside (they are removed by design)", "control characters other than tab, and U+FFFE/U+FFFF, are outside (not allowed in XML)"),
)
