prop(
    "C18", "Content keeps the order and nesting in which it was added",
    "What a written part shows is exactly what was added, in the order it was added and inside the same containers: runs, links, insertions, deletions, moves, comment ranges, bookmarks and fields inside paragraphs, and paragraphs, tables, content controls and sections inside the body, cells, headers, footers and comments. Reading the package and writing it again shows the same.",
    ["programs", "histories"],
    "any three children of each kind of container, in any order, and tables of any shape up to three by three",
    "A swap or loss shows only when certain kinds of children meet in one container in a certain order; tests fix a few such sequences.",
    ["documents/elements/paragraph.rs", "documents/elements/run.rs", "documents/elements/insert.rs", "documents/elements/hyperlink.rs", "documents/elements/table_cell.rs", "documents/document.rs", "reader/document.rs", "reader/paragraph.rs", "reader/insert.rs", "reader/delete.rs", "reader/hyperlink.rs", "reader/run.rs", "reader/table_cell.rs"],
    [("child lists of the builders", "documents/elements"), ("child lists of the element readers", "reader")],
    {
        "h_c18_run": "any three of 14 kinds of run content, each with any letter",
        "h_c18_wrappers": "insertions, deletions, moves and links of any three of the children they can have",
        "h_c18_paragraph": "any three of 10 kinds of paragraph content",
        "h_c18_body": "any three of 6 kinds of body content",
        "h_c18_blocks": "cells, headers, footers, content controls and comments of any three blocks, empty content controls included",
        "h_c18_tables": "tables of up to three rows of one to three cells",
        "h_c18_contents": "a table of contents before, after and between blocks, and in a cell",
    },
    assumptions=("a cell ending with a table shows an empty paragraph behind it, as the format demands", "runs without content are left out of the comparison"),
)
