_gen = "41 kinds of paragraph content"
prop(
    "C14", "Every reference in a written package resolves to what was given",
    "In every package written, part names are unique, every part has exactly one content type fitting its role, relationship ids are unique within their part, every relationship leads to an existing part of the right kind and every part with content can be reached from the root. Every link, picture, header, footer, comment, comment reply, footnote and numbering reference in the content resolves, from the part it stands in, to exactly the address, picture bytes or definition given for it, and each comment, footnote and numbering id is defined once.",
    ["programs", "configurations", "inputs"],
    "every kind of content in every place, two contents in any two places, many copies beside any document-wide addition, any two additions, any two comment ids, any two link addresses, equal or different pictures",
    "The graph depends on which kinds of content meet in which containers and in which order; tests write a handful of such combinations and compare one part at a time.",
    ["documents/mod.rs", "documents/document_rels.rs", "documents/content_types.rs", "documents/image_collector.rs", "documents/document_tree.rs", "documents/header_rels.rs", "documents/rels.rs", "zipper/mod.rs"],
    [("relationship collection", "documents/image_collector.rs"), ("tree walk over the content", "documents/document_tree.rs"), ("packaging", "zipper/mod.rs")],
    {
        "h_c14_places": _gen + ", with any printable ASCII character and any number below 90, in 31 places (body, cells, nested cells, sections, content controls, contents, headers, footers, comments, footnotes)",
        "h_c14_copies": "2 and 12 copies of 41 contents beside 17 document-wide additions",
        "h_c14_two_places": "8 linked contents in any two of 31 places",
        "h_c14_extras": "any two of 17 document-wide additions",
        "h_c14_targets": "two links with any 2-letter host, or two pictures with equal or different bytes, in any two of 28 places",
        "h_c14_comments": "10 shapes of commented content in any two of 14 places with any two different ids below 100",
    },
    assumptions=("comments and footnotes only in the body", "text is one arbitrary letter; strings are the subject of C01-C03"),
)
prop(
    "C17", "Both ways of writing a document produce the same package",
    "Writing a document directly to a zip and building it in memory first produce the same parts in the same order with the same content, apart from the numbering of tracked changes, which still correspond one to one. This holds for every combination of contents, places and document-wide additions.",
    ["programs", "configurations"],
    "every kind of content in every place, two contents in any two places, copies beside any document-wide addition, any two additions",
    "The two routes are separate code which must add the same parts under the same conditions; tests use one route at a time.",
    ["zipper/mod.rs", "documents/mod.rs", "documents/xml_docx.rs"],
    [("streaming route", "zipper/mod.rs"), ("in-memory route", "documents/xml_docx.rs")],
    {
        "h_c17_places": _gen + ", with any printable ASCII character and any number below 90, in 31 places",
        "h_c17_copies": "1 and 3 copies of 41 contents beside 17 document-wide additions",
        "h_c17_extras": "any two of 17 document-wide additions",
        "h_c17_two_places": "8 linked contents in any two of 31 places",
    },
    assumptions=("compression is outside: the zip container is a model which stores parts",),
)
prop(
    "C19", "A package read and written again has the same content",
    "Reading a written package and writing the result gives the same document, header, footer, comment, style and numbering parts: the same elements in the same order with the same attributes and text, nothing lost, duplicated or moved. Only generated ids (which still correspond one to one) and empty runs may differ.",
    ["programs", "histories"],
    "every kind of content the reader supports in every place, any three children of every container, and any two document-wide additions",
    "A loss or duplication needs one particular nesting on the way out and back; tests compare either direction alone for fixed documents.",
    ["reader/document.rs", "reader/paragraph.rs", "reader/run.rs", "reader/read_docx.rs", "reader/comments.rs", "reader/styles.rs", "documents/styles.rs", "documents/numberings.rs"],
    [("element readers", "reader/mod.rs"), ("part readers", "reader/read_docx.rs")],
    {
        "h_c19_places": "34 kinds of content, with any printable ASCII character and any number below 90, in 28 places",
        "h_c19_extras": "any two of 14 document-wide additions",
        "h_c19_run": "any three of 14 kinds of run content, each with any letter",
        "h_c19_wrappers": "insertions, deletions, moves and links of any three of the children they can have",
        "h_c19_paragraph": "any three of 10 kinds of paragraph content",
        "h_c19_body": "any three of 6 kinds of body content",
        "h_c19_blocks": "cells, headers, footers, content controls and comments of any three blocks, empty content controls included",
        "h_c19_tables": "tables of up to three rows of one to three cells",
        "h_c19_contents": "a table of contents before, after and between blocks, and in a cell",
    },
    assumptions=("footnotes, content controls inside a paragraph, picture bytes, web extensions and custom XML are not read", "content behind a table of contents in its control may leave the control"),
)
prop(
    "C21", "Paragraph identifiers are unique and given ones are kept",
    "In every package written, every paragraph in every part has an 8-digit identifier and no two are equal, whatever identifiers were given, however often a paragraph was copied into the document and whether or not the document was read from a package first. An identifier given to a paragraph is used by some paragraph of the package.",
    ["programs", "inputs", "histories"],
    "paragraphs with any given ids in any two places, the same paragraph put into two places up to four times, and a package read and extended with a new paragraph and a table",
    "Collisions need two paragraphs from different parts or an id equal to one generated later; tests with a fixed id everywhere cannot see them.",
    ["documents/paragraph_id.rs", "documents/mod.rs", "documents/elements/paragraph.rs", "reader/paragraph.rs"],
    [("id assignment before writing", "documents/mod.rs")],
    {
        "h_c21_given": "two paragraphs in any two of 31 places with ids 0000000x and 000000yz, any digits",
        "h_c21_carried": "a paragraph in a comment or footnote, at 18 positions inside a paragraph in any of 14 places, and one in the body before or after it, with ids 0000000x and 000000yz, any digits but all zeros",
        "h_c21_clones": "the same paragraph in any two of 31 places, once or three times in the second",
        "h_c21_extended": "a paragraph with id 000000yz, any digits, in any of 31 places, read and extended in any of 31 places",
    },
    assumptions=("ids given by the caller are 8 hexadecimal digits",),
)
