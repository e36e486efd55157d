prop(
    "C07", "Section settings, headers and footers survive writing and reading",
    "Every section of a document is written with exactly the settings given for it: page size, orientation, margins, title page, page numbers, grid, text direction, type and columns, wherever they were set (the document, an inner section, a paragraph). Every header and footer given is written once and shown for its kind of page of its section only, with the title page and even/odd switches set exactly when a section needs them. Reading the package back yields equal settings.",
    ["inputs", "configurations"],
    "every section setting over its value range, up to three settings at a time in any order, every subset of the six kinds of headers and footers, and up to three sections",
    "A setting lost, put into another section or undone by a later call shows only for certain values and call orders; tests fix a few literal sections.",
    ["documents/elements/section_property.rs", "documents/elements/section.rs", "documents/elements/page_size.rs", "documents/elements/page_margin.rs", "documents/elements/page_num_type.rs", "documents/elements/doc_grid.rs", "documents/mod.rs", "documents/document.rs", "reader/section_property.rs"],
    [("section writer", "documents/elements/section_property.rs"), ("section reader", "reader/section_property.rs"), ("headers of sections", "documents/mod.rs")],
    {
        "h_c07_single": "each of 9 settings alone, on the document, an inner section or a paragraph; page sizes 0..9999999 and a window at 2^31; margins of either sign up to 9999999 and windows; grid numbers 0..9999",
        "h_c07_combined": "up to three settings in any order, small numbers",
        "h_c07_several": "an inner section, a paragraph's section and the document, each with one setting",
        "h_c07_headers": "every subset of the six headers and footers of the document, in two call orders",
        "h_c07_inner_headers": "every subset of the six headers and footers of an inner section",
        "h_c07_three": "three sections with any one header or footer each",
    },
    assumptions=("portrait is the same as no orientation given", "one column is the same as no columns given", "the page size of an inner section replaces its orientation"),
)
