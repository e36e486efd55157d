prop(
    "C12", "Fields and tables of contents keep their instructions",
    "The instruction of every field is written so that it says exactly what was given and is read back as such; every field that is begun is also ended. A generated table of contents lists exactly the headings in its range, in document order and with their text and level, and links each to a bookmark which no other bookmark of the document shares name or identifier with.",
    ["inputs", "programs"],
    "each switch of a table of contents over its value range, all pairs, all but one, other writers' spellings, and documents of up to three headings",
    "Switches have optional arguments, quoting and separators; a switch that swallows the next one or is dropped shows only in certain combinations.",
    ["documents/elements/instr_toc.rs", "documents/elements/instr_tc.rs", "documents/elements/instr_pageref.rs", "documents/elements/instr_hyperlink.rs", "documents/elements/table_of_contents.rs", "documents/elements/table_of_contents_item.rs", "documents/elements/page_num.rs", "documents/elements/num_pages.rs", "documents/mod.rs", "reader/structured_data_tag.rs", "reader/run.rs"],
    [("switch parser and writer", "documents/elements/instr_toc.rs"), ("generated contents", "documents/mod.rs"), ("table of contents writer", "documents/elements/table_of_contents.rs")],
    {
        "h_c12_toc_switch": "each of 16 switches alone; numbers 0..9999; strings of 2 printable characters other than quotes, backslashes and commas",
        "h_c12_toc_switches": "every pair of switches; all together and with each left out",
        "h_c12_toc_foreign": "instructions as other programs write them: blanks, quotes, switches without their argument",
        "h_c12_codes": "TC, PAGEREF, HYPERLINK, PAGE, NUMPAGES and other instructions",
        "h_c12_toc": "tables of contents with content before and after, given items, deleted or not, with and without links",
        "h_c12_page_fields": "page number and page count fields",
        "h_c12_auto": "generated tables of contents over up to three paragraphs, headings by level or by listed style, next to bookmarks of the document",
    },
    assumptions=("headings stand directly in the body",),
)
