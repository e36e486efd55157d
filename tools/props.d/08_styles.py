prop(
    "C08", "Styles and document defaults survive writing and reading",
    "Every style given to a document is written once, in the given order, with exactly its identifier, type, name, parent, follow-up and linked style, priority, visibility flags and its character, paragraph, table and cell formatting; the built-in default style is there exactly once, the given one if there is one. Document-wide defaults for size, spacing, fonts and line spacing are written with exactly the given values. Reading the package back yields equal definitions (follow-up style, quick-format flag, priority and visibility excepted) and equal defaults.",
    ["inputs", "configurations"],
    "every attribute of a style over its value range, every character/paragraph/table/cell setting inside a style, combinations, and lists of up to three styles",
    "Tests pin two or three literal styles; the guarantee is over every setting inside a style, every value and every combination, where a setting that lands in the wrong property block or is dropped by the style reader shows only with that setting.",
    ["documents/elements/style.rs", "documents/styles.rs", "documents/elements/doc_defaults.rs", "reader/style.rs", "reader/styles.rs", "reader/doc_defaults.rs"],
    [("style writer", "documents/elements/style.rs"), ("style reader", "reader/style.rs"), ("defaults reader", "reader/doc_defaults.rs")],
    {
        "h_c08_single": "one style, each attribute alone; names and identifiers of 2-3 arbitrary printable characters; priorities 0..9999999 and windows at the ends of the type; every run, paragraph, table and cell setting with two-digit values; all four style types",
        "h_c08_combined": "every pair of attributes; all together and with each left out; paragraph and table styles",
        "h_c08_methods": "each formatting method of the style itself, alone or after bold, alignment and table indent; numbers 10..9999",
        "h_c08_several": "0-3 styles, any of them the default style or none",
        "h_c08_defaults": "every subset of the four defaults, set on the document or on the styles; numbers 0..9999999 and windows when alone",
    },
)
prop(
    "C09", "Numbering definitions survive writing and reading",
    "Every abstract numbering and numbering instance given to a document is written once, in the given order, with exactly its identifiers, links to styles, levels (start, format, text, alignment, indent, formatting, suffix, linked paragraph style, restart, legal form) and per-level overrides. Built-in definitions are added only under identifiers the document does not use. Reading the package back yields equal definitions.",
    ["inputs", "configurations"],
    "every attribute of a level over its value range, all pairs, and small lists of definitions, instances and overrides with arbitrary identifiers",
    "Tests pin a few literal levels; wrong restart values, overrides attached to another level or lost, or clashes with the built-in definitions only show for particular identifiers and combinations.",
    ["documents/numberings.rs", "documents/elements/abstract_numbering.rs", "documents/elements/numbering.rs", "documents/elements/level.rs", "documents/elements/level_override.rs", "reader/numberings.rs", "reader/level.rs", "reader/level_override.rs"],
    [("numbering writer", "documents/numberings.rs"), ("level writer", "documents/elements/level.rs"), ("numbering reader", "reader/numberings.rs"), ("level reader", "reader/level.rs")],
    {
        "h_c09_level": "one level, each attribute alone; numbers 0..9999999 and windows at the ends of the type; level text of 3 arbitrary printable characters; every run and paragraph setting with two-digit values; the level's own formatting methods",
        "h_c09_combined": "every pair of attributes; all together and with each left out; levels 0-8",
        "h_c09_definitions": "0-3 abstract numberings, the first with 0-2 levels and any subset of the two links; identifiers 0..9999999 when alone, else 1..9",
        "h_c09_instances": "0-3 instances, the first with 0-2 overrides of start and/or level; identifiers 0..9999999 when alone, else 1..9; the start of a single override over 0..9999999 and the 31/32-bit ends",
    },
)
