prop(
    "C26", "A flat XML package is read as the same document as the zipped package",
    "A document saved as one flat XML file is read as the same document as the zipped package with the same parts: text, styles, numbering, settings, properties, headers, footers, comments, links and pictures. Each part is found with exactly its name and content, in whatever order and layout the parts stand; files cut off or put together wrongly give a document or an error, never a crash.",
    ["inputs", "configurations"],
    "documents with each kind of content, place, document-wide addition and every setting at once, in four layouts of the flat file; arbitrary part names and contents",
    "The flat form has a reader of its own beside the one for archives; the tests read one paragraph and one picture through it, while every part, relationship and path convention has to be seen by it as the other reader sees it.",
    ["reader/read_xml.rs", "reader/read_docx.rs", "reader/rels.rs"],
    [("flat packages", "reader/read_xml.rs"), ("archives", "reader/read_docx.rs")],
    {
        "h_c26_flat": "each content, place and addition of the generator of C14 (with one arbitrary letter), and the 8 documents of C24 which carry every setting; part names with and without leading slash, indented or not, with or without padding attributes, parts in either order, pictures as base64 with or without line breaks; results compared as documents and as written again",
        "h_c26_several": "three links, pictures and a link, six headers and footers with pictures, comments with replies, two custom properties beside text that looks like a package, styles and numbering; two arbitrary letters; the same layouts",
        "h_c26_parts": "one or two parts with names of 2-3 arbitrary printable characters or with multi-byte characters, XML or binary content with 1-2 arbitrary printable characters, names in single or doubled quotation marks",
        "h_c26_mixed": "three pieces out of 14 (tags, attributes, quotation marks, names, a multi-byte character) between one of 3 beginnings and one of 3 ends",
    },
    assumptions=["the package prefix is pkg and attributes stand in quotation marks, as word processors write them", "a numbering part that nothing refers to is left out of the flat file (the archive reader ignores it)", "the names under which pictures are listed differ between the two readers by design and are not compared"],
)
prop(
    "C27", "The JSON of a document holds everything given to the document",
    "The JSON of a document is valid JSON and holds every text exactly as given, wherever it stands. Each setting shows up in it with the value given and only when it was given, different settings differently, and each piece of content appears in its place under the type name the JavaScript package declares for it.",
    ["inputs", "configurations"],
    "texts with an arbitrary character in each kind of content and place; each setting of runs, paragraphs, tables, rows and cells with arbitrary values; 68 further settings with arbitrary letters or numbers; the nesting of 41 kinds of content",
    "The JSON form is made by some 70 hand-written and a hundred derived conversions; the tests keep snapshots of a few documents, which show neither a value that is dropped for other settings nor a text that comes out escaped differently.",
    ["documents/mod.rs", "documents/elements/run.rs", "documents/elements/paragraph.rs", "documents/elements/run_property.rs", "documents/elements/table_property.rs", "documents/document.rs"],
    [("printing", "documents/mod.rs"), ("run content", "documents/elements/run.rs"), ("paragraph content", "documents/elements/paragraph.rs")],
    {
        "h_c27_text": "a text with one arbitrary character (printable ASCII or any UTF-8 length) in each content and place of the generator of C14, or as a style id",
        "h_c27_settings": "each of the settings of C04-C06 alone: every value given must be among the values which the JSON has with the setting and has not without it (row widths and heights: fixed values)",
        "h_c27_others": "68 settings of pages, sections, styles, numbering, changes, comments, bookmarks, links, symbols, fields, properties, content controls, contents, grids and pictures; an arbitrary capital and small letter or a number from 310 to 341",
        "h_c27_apart": "each setting of runs, paragraphs, tables, rows and cells with arbitrary values (rows: fixed ones) against each setting of the same thing with one fixed value: different files have different JSON",
        "h_c27_kinds": "the nested type names of 41 kinds of content, with an arbitrary letter",
    },
    assumptions=["where in the JSON a setting stands is not prescribed, only that its value is there because of it"],
)
