prop(
    "C10", "Comments keep their content, anchors and threads",
    "Every comment given is written once with its identifier, author, date and content, and is anchored by one range, covering exactly the text given, and one reference. An answer is linked to the comment it answers, and a comment that was resolved stays so. Reading the package and writing it again yields the same.",
    ["inputs", "programs"],
    "any identifiers and short strings, comments anywhere in the document, and every thread shape of up to three comments",
    "Threads are linked by paragraph identifiers given out while the parts are put together; a wrong link shows only for certain orders, places and identifiers.",
    ["documents/elements/comment.rs", "documents/comments.rs", "documents/comments_extended.rs", "documents/elements/comment_extended.rs", "documents/mod.rs", "reader/comment.rs", "reader/comments.rs", "reader/comments_extended.rs", "reader/mod.rs"],
    [("threads when written", "documents/mod.rs"), ("threads when read", "reader/mod.rs"), ("comments reader", "reader/comments.rs")],
    {
        "h_c10_single": "author, date and text of 3 arbitrary printable characters; identifiers 0..9999999; up to three paragraphs with or without a table; nine kinds of anchor (around runs, links and changes, inside them, across their ends) at four places",
        "h_c10_threads": "two or three comments with any two-digit identifiers, answering any other one, in four orders and at four places",
        "h_c10_resolved": "one to three comments of another writer, each resolved or not in several spellings, answering the one before or none",
    },
    assumptions=("a comment ends with a paragraph, as the format demands",),
)
prop(
    "C11", "Tracked changes keep their kind, owner, date and text",
    "Every insertion, deletion, move and change of formatting given is written with its kind, author and date around exactly the content given, and with identifiers no other change of the document has. The plain text of a paragraph counts what was inserted or moved in, and not what was deleted or moved away. Reading the package back yields equal changes.",
    ["inputs", "programs"],
    "every kind of change with arbitrary authors and dates, at every place that can hold it, and any three changes in a row",
    "Mixing up kinds, owners or the old and new formatting shows only for certain combinations; tests look at single literal changes.",
    ["documents/elements/insert.rs", "documents/elements/delete.rs", "documents/elements/move_from.rs", "documents/elements/move_to.rs", "documents/elements/paragraph_property_change.rs", "documents/elements/paragraph.rs", "reader/insert.rs", "reader/delete.rs", "reader/move_from.rs", "reader/move_to.rs", "reader/paragraph_property_change.rs"],
    [("change writers", "documents/elements"), ("change readers", "reader"), ("plain text", "documents/elements/paragraph.rs")],
    {
        "h_c11_single": "14 kinds of change; author of 2 arbitrary characters (printable or of two bytes) or date of 2 printable ones, or the defaults",
        "h_c11_places": "each kind in a cell, a content control, a hyperlink (insertions and deletions), a header, a comment, and next to another one",
        "h_c11_sequence": "up to three changes of any kind in one paragraph",
        "h_c11_plain_text": "texts, tabs and breaks in plain, inserted, deleted, moved-in and moved-away runs",
        "h_c11_formatting": "old and new formatting of a paragraph, any one setting each",
        "h_c11_foreign": "changes written by other programs: attributes in any order, no date, further elements",
    },
    assumptions=("changes of paragraph formatting have identifiers of their own",),
)
